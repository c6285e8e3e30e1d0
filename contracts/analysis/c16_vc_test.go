//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

const vcIndexRoot = "file:///home/p"

func vcEmptyStore(greb *pogreb.DB) *Store {
	db := storage.NewMemory()
	return &Store{uri: vcIndexRoot, db: db, comDB: storage.NewMemory(), greb: greb, refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

// Every reference of every file is found, by its own name, at its own place, whatever was
// indexed before and also after the index was loaded anew.
func vc_references(r *rand.Rand, greb *pogreb.DB) {
	s := vcEmptyStore(greb)
	sources := map[string]string{}
	var history []string
	check := func() {
		for uri, src := range sources {
			doc := NewDocument(uri, []byte(src))
			doc.Load()
			want := map[string][]protocol.Range{}
			tra := newTraverser()
			tra.traverseDocument(doc, func(_ *traverser, child Symbol, _ []Symbol) {
				if x, ok := child.(SymbolReference); ok {
					want[x.ReferenceFQN()] = append(want[x.ReferenceFQN()], x.ReferenceLocation().Range)
				}
				if x, ok := child.(HasTypes); ok {
					for _, ref := range SymToRefs(doc, x) {
						want[ref] = append(want[ref], x.GetLocation().Range)
					}
				}
			})
			for ref, ranges := range want {
				got := map[protocol.Range]bool{}
				for _, l := range s.GetReferences(ref) {
					if l.URI == uri {
						got[l.Range] = true
					}
				}
				for _, g := range ranges {
					vcEnsures(fmt.Sprintf("the reference to %s at %v of %s is found, after %q", ref, g, uri, history), got[g])
				}
			}
		}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		uri := fmt.Sprintf("%s/%s.php", vcIndexRoot, []string{"a", "b", "a%20b", "sub/c"}[r.Intn(4)])
		if r.Intn(5) == 0 {
			delete(sources, uri)
			s.DeleteDocument(uri)
			history = append(history, "delete "+uri)
		} else {
			var b strings.Builder
			b.WriteString("<?php\n")
			for n := r.Intn(12); n > 0; n-- {
				x := []string{"Foo", "Bar", "foo", "A\\B", "\\Foo", "mtuoprevgzmkhzcvioayrdnmxzfaswahusywbhqpbinulmsjrgyddshtcoyqcnr", "mtuopremcduwqujvioayrdnmxzfaswahusywbhq9sdms83zjrgyddshtcoyqcnr"}[r.Intn(7)]
				fmt.Fprintf(&b, []string{"new %s();\n", "%s();\n", "%s::x();\n", "echo %s::X;\n", "function f%[2]d(%[1]s $a) { $a->m(); }\n", "class C%[2]d extends %[1]s {}\n", "echo %s;\n", "echo $a->%s;\n"}[r.Intn(8)], append([]interface{}{x, n}[:1:1], n)...)
			}
			src := strings.Replace(b.String(), "%!(EXTRA int=", "//", -1)
			doc := NewDocument(uri, []byte(src))
			doc.Load()
			s.SyncDocument(doc)
			sources[uri] = src
			history = append(history, fmt.Sprintf("index %s %q", uri, src))
		}
		check()
		if r.Intn(3) == 0 {
			s.refIndex = newReferenceIndex(s.db)
			history = append(history, "load")
			check()
		}
	}
}

func TestVC_C16(t *testing.T) {
	greb, err := pogreb.Open(filepath.Join(t.TempDir(), "a"), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer greb.Close()
	h := vcNew(t, "C16", "references of documents")
	for h.more(3000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_references(rand.New(rand.NewSource(seed)), greb) })
	}
}
