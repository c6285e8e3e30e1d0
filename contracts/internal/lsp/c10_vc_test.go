//go:build verif

package lsp

import (
	"context"
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// The kinds of symbols, where they are offered, and a file with n of each kind: a list that
// leaves some of them out does not claim to be complete.
var vcDecls = []string{"class Zz%d%s {}", "interface Zz%d%s {}", "trait Zz%d%s {}", "function Zz%d%s() {}", "const ZZ%d%s = 1;", "define('ZZ%d%s', 1);"}
var vcTails = []string{"cl", "in", "tr", "fu", "co", "de"}
var vcPlaces = []string{"$a = new %s", "%s", "echo %s", "use %s", "use %s;", "class A extends %s", "class A implements %s", "interface A extends %s", "class A { use %s", "function f(%s $x) {}", "interface A extends %s {}", "$a instanceof %s", "%s::x();"}

func vcDeclare(counts []int, ns string) string {
	var b strings.Builder
	b.WriteString("<?php\n")
	if ns != "" {
		b.WriteString("namespace " + ns + ";\n")
	}
	for k, n := range counts {
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, vcDecls[k]+"\n", i, vcTails[k])
		}
	}
	return b.String()
}

// vcOffered counts what is offered of every kind, -1 if nothing at all is.
func vcOffered(s *Server, st *analysis.Store, root, place, word string) ([]int, bool) {
	text := "<?php\n" + fmt.Sprintf(place, word)
	uri := root + "/open.php"
	doc := analysis.NewDocument(uri, []byte(text))
	doc.Load()
	st.SaveDocOnStore(doc)
	p := &protocol.CompletionParams{}
	p.TextDocument.URI = uri
	p.Position = protocol.Position{Line: 1, Character: strings.Index(place, "%s") + len(word)}
	list, err := s.completion(context.Background(), p)
	if err != nil || list == nil {
		return nil, false
	}
	got := make([]int, len(vcTails))
	for _, item := range list.Items {
		for k, tail := range vcTails {
			if strings.HasSuffix(item.Label, tail) {
				got[k]++
			}
		}
	}
	return got, !list.IsIncomplete
}

func TestVC_C10(t *testing.T) {
	h := vcNew(t, "C10", "completion lists")
	n := 0
	open := func(counts []int, ns string) (*Server, *analysis.Store, string) {
		n++
		root := fmt.Sprintf("file:///home/w%d", n)
		st, err := analysis.NewStore(protocol.NewFileFS(), root, filepath.Join(t.TempDir(), fmt.Sprint(n)))
		if err != nil {
			t.Fatal(err)
		}
		doc := analysis.NewDocument(root+"/all.php", []byte(vcDeclare(counts, ns)))
		doc.Load()
		st.SyncDocument(doc)
		s := &Server{}
		s.store = &workspaceStore{server: s, stores: []*analysis.Store{st}}
		return s, st, root
	}
	for _, ns := range []string{"", "App"} {
		word := "Zz"
		if ns != "" {
			word = "\\App\\Zz"
		}
		few, fewStore, fewRoot := open([]int{3, 3, 3, 3, 3, 3}, ns)
		for k := range vcDecls {
			if ns != "" && k != 0 && k != 1 {
				continue
			}
			others := 3 * (h.r.Intn(2))
			if k == 0 || k == 1 {
				others = 0
			}
			counts := []int{others, others, others, others, others, others}
			counts[k] = 1100
			s, st, root := open(counts, ns)
			for _, place := range vcPlaces {
				place := place
				if !h.more(1000) {
					break
				}
				h.check(fmt.Sprintf("%q, 1100 of %q, %d of the others", fmt.Sprintf(place, word), vcDecls[k], others), func() {
					all, _ := vcOffered(few, fewStore, fewRoot, place, word)
					got, complete := vcOffered(s, st, root, place, word)
					for i := range vcTails {
						if all == nil || got == nil || all[i] == 0 {
							continue
						}
						vcEnsures(fmt.Sprintf("%q is offered %v of the %v symbols of %q and told that that is all", fmt.Sprintf(place, word), got, counts, vcTails),
							!complete || got[i] >= counts[i])
					}
				})
			}
			st.Close()
		}
		fewStore.Close()
	}
}
