//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/analysis/wordtokeniser"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

const vcWordRoot = "file:///home/p"

func vcWordStore(greb *pogreb.DB) *Store {
	db := storage.NewMemory()
	return &Store{uri: vcWordRoot, db: db, comDB: storage.NewMemory(), greb: greb, refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

func vcOneOf(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func vcAnyName(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString(vcOneOf(r, "Foo", "foo", "get", "HTML", "_", "__", "É", "b", "Bar"))
	for k := r.Intn(5); k > 0; k-- {
		b.WriteString(vcOneOf(r, "Foo", "foo", "_", "_", "1", "99", "XML", "é", "X", "Bar", "ar", "\xe9", "日"))
	}
	if r.Intn(12) == 0 {
		b.WriteString(strings.Repeat(vcOneOf(r, "a", "Long", "ab_"), 10+r.Intn(60)))
	}
	return b.String()
}

type vcFound struct {
	keys     []string
	complete bool
}

type vcWordKind struct {
	decl   string // %s is the name
	scoped bool   // can be searched for in its namespace
	find   func(s *Store, keyword string, o SearchOptions) vcFound
	all    func(s *Store, keyword string, o SearchOptions) []string
}

func vcWordKinds() map[string]vcWordKind {
	return map[string]vcWordKind{
		"class": {"class %s {}", true, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchClasses(w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"interface": {"interface %s {}", true, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchInterfaces(w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"trait": {"trait %s {}", true, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchTraits(w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"function": {"function %s() {}", true, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchFunctions(w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"const": {"const %s = 1;", false, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchConsts(w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"define": {"define('%s', 1);", false, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchDefines(w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"method": {"class C%[2]d { function %[1]s() {} }", false, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchMethods("", w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"class constant": {"class C%[2]d { const %[1]s = 1; }", false, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchClassConsts("", w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
		"property": {"class C%[2]d { public $%[1]s; }", false, func(s *Store, w string, o SearchOptions) (f vcFound) {
			l, r := s.SearchProperties("", w, o)
			for _, x := range l {
				f.keys = append(f.keys, x.GetKey())
			}
			f.complete = r.IsComplete
			return
		}, nil},
	}
}

func vc_find(r *rand.Rand, greb *pogreb.DB, kind string) {
	k := vcWordKinds()[kind]
	s := vcWordStore(greb)
	type decl struct{ ns, name, key string }
	var decls []decl
	seen := map[string]bool{}
	var sources []string
	for i := 1 + r.Intn(6); i > 0; i-- {
		d := decl{ns: vcOneOf(r, "", "", "App", "App\\Models", "app"), name: vcAnyName(r)}
		if seen[d.ns+strings.ToLower(d.name)] {
			continue
		}
		seen[d.ns+strings.ToLower(d.name)] = true
		src := "<?php\n"
		if d.ns != "" {
			src += "namespace " + d.ns + ";\n"
		}
		text := strings.Replace(k.decl, "%[2]d", fmt.Sprint(i), -1)
		text = strings.Replace(strings.Replace(text, "%[1]s", d.name, -1), "%s", d.name, -1)
		doc := NewDocument(fmt.Sprintf("%s/f%d.php", vcWordRoot, i), []byte(src+text+"\n"))
		doc.Load()
		s.SyncDocument(doc)
		sources = append(sources, src+text)
		// its key in the index
		for _, sym := range vcWordIndexed(doc) {
			if n, ok := sym.(NameIndexable); ok && n.GetIndexableName() == d.name {
				d.key = sym.GetKey()
				decls = append(decls, d)
				break
			}
		}
	}
	for _, d := range decls {
		for i := range d.name + "x" {
			word := d.name[:i]
			if i == 0 {
				continue
			}
			words := []string{word, strings.ToLower(word), strings.ToUpper(word)}
			if k.scoped {
				for _, w := range words[:3] {
					words = append(words, "\\"+d.ns+"\\"+w)
				}
			}
			for _, w := range words {
				if strings.HasPrefix(w, "\\\\") {
					w = w[1:]
				}
				f := k.find(s, w, NewSearchOptions())
				n := 0
				for _, key := range f.keys {
					if key == d.key {
						n++
					}
				}
				vcEnsures(fmt.Sprintf("the %s %q of namespace %q is found once by %q, not %d times, in %q", kind, d.name, d.ns, w, n, sources), n == 1)
				sort.Strings(f.keys)
				for i := 1; i < len(f.keys); i++ {
					vcEnsures(fmt.Sprintf("%q finds no %s twice in %q", w, kind, sources), f.keys[i] != f.keys[i-1])
				}
				limit := 1 + r.Intn(4)
				l := k.find(s, w, NewSearchOptions().WithLimit(limit))
				all := map[string]bool{}
				for _, key := range f.keys {
					all[key] = true
				}
				for _, key := range l.keys {
					vcEnsures("a limited search finds some of the others", all[key])
				}
				vcEnsures(fmt.Sprintf("the search for the %s %q of at most %d, which finds %d of %d, says whether it is complete, in %q", kind, w, limit, len(l.keys), len(f.keys), sources), !l.complete || len(l.keys) == len(f.keys))
			}
		}
	}
}

// vc_words searches for keywords of several words: what begins with one of them is found, unless
// the list says that it is not complete.
func vc_words(r *rand.Rand, greb *pogreb.DB) {
	s := vcWordStore(greb)
	names := map[string]bool{}
	src := "<?php\n"
	for i := 1 + r.Intn(20); i > 0; i-- {
		n := vcOneOf(r, "Foo", "Bar", "Bargain", "Food", "Base", "X") + vcOneOf(r, "", "Foo", "Bar", "_bar", "Barely", "Xyz", "_foo_x")
		if !names[strings.ToLower(n)] {
			names[strings.ToLower(n)] = true
			src += "class " + n + " {}\n"
		}
	}
	doc := NewDocument(vcWordRoot+"/f.php", []byte(src))
	doc.Load()
	s.SyncDocument(doc)
	keyword := vcOneOf(r, "foo", "Foo", "Bar", "b")
	for i := r.Intn(4); i > 0; i-- {
		keyword += vcOneOf(r, "_", "") + vcOneOf(r, "Bar", "Foo", "X", "Ba", "b", "foo")
	}
	o := NewSearchOptions()
	if r.Intn(2) == 0 {
		o = o.WithLimit(1 + r.Intn(12))
	}
	l, result := s.SearchClasses(keyword, o)
	found := map[string]bool{}
	for _, c := range l {
		vcEnsures("no class twice", !found[c.GetKey()])
		found[c.GetKey()] = true
	}
	if !result.IsComplete {
		return
	}
	for _, sym := range vcWordIndexed(doc) {
		c, ok := sym.(*Class)
		if !ok {
			continue
		}
		for _, w := range wordtokeniser.Tokenise(keyword) {
			for _, n := range wordtokeniser.Tokenise(c.GetIndexableName()) {
				if strings.HasPrefix(strings.ToLower(n), strings.ToLower(w)) {
					vcEnsures(fmt.Sprintf("the list for %q that says it is complete has %q, in %q", keyword, c.GetIndexableName(), src), found[c.GetKey()])
				}
			}
		}
	}
}

// vcWordIndexed are the symbols of the document.
func vcWordIndexed(doc *Document) []serialisable {
	var l []serialisable
	tra := newTraverser()
	tra.traverseDocument(doc, func(_ *traverser, child Symbol, _ []Symbol) {
		if v, ok := child.(serialisable); ok {
			l = append(l, v)
		}
	})
	return l
}

func TestVC_C10(t *testing.T) {
	greb, err := pogreb.Open(filepath.Join(t.TempDir(), "a"), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer greb.Close()
	h := vcNew(t, "C10", "searches for several words")
	for h.more(3000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("several words, seed ", seed), func() { vc_words(rand.New(rand.NewSource(seed)), greb) })
	}
	h = vcNew(t, "C10", "searches for names")
	var kinds []string
	for k := range vcWordKinds() {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for h.more(4000) {
		seed, kind := h.r.Int63(), kinds[h.r.Intn(len(kinds))]
		h.check(fmt.Sprint(kind, ", seed ", seed), func() { vc_find(rand.New(rand.NewSource(seed)), greb, kind) })
	}
}
