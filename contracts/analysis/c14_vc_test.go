//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

func vcHierarchyStore(t *testing.T) *Store {
	greb, err := pogreb.Open(t.TempDir()+"/greb", nil)
	if err != nil {
		t.Fatal(err)
	}
	db := storage.NewMemory()
	return &Store{uri: "test", db: db, comDB: storage.NewMemory(), greb: greb, FS: protocol.NewFileFS(), refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

// vc_hierarchy collects members in a random graph of classes, interfaces and traits.
func vc_hierarchy(r *rand.Rand, store *Store, n int) {
	nc, ni, nt := 1+r.Intn(6), 1+r.Intn(5), 1+r.Intn(3)
	if r.Intn(40) == 0 {
		nc, ni = 60, 60 // diamonds upon diamonds: exponentially many paths
	}
	cn := func(i int) string { return fmt.Sprintf("C%d_%d", n, i) }
	in := func(i int) string { return fmt.Sprintf("I%d_%d", n, i) }
	tn := func(i int) string { return fmt.Sprintf("T%d_%d", n, i) }
	spell := func(s string) string {
		if r.Intn(4) == 0 {
			return strings.ToLower(s)
		}
		return s
	}
	var src strings.Builder
	src.WriteString("<?php\n")
	uses := func() {
		for k := r.Intn(3); k > 0; k-- {
			src.WriteString("use " + tn(r.Intn(nt)) + ";\n")
		}
	}
	for i := 0; i < ni; i++ {
		copies := 1
		if r.Intn(6) == 0 {
			copies = 2 // declared twice
		}
		for ; copies > 0; copies-- {
			src.WriteString("interface " + in(i))
			if k := r.Intn(4); k > 0 {
				var l []string
				for ; k > 0; k-- {
					j := r.Intn(ni)
					if ni == 60 {
						j = (i + 1 + r.Intn(2)) % ni
					}
					l = append(l, spell(in(j)))
				}
				src.WriteString(" extends " + strings.Join(l, ", "))
			}
			src.WriteString(" {\nconst K = 1;\npublic function load();\n}\n")
		}
	}
	for i := 0; i < nt; i++ {
		src.WriteString("trait " + tn(i) + " {\n")
		uses()
		src.WriteString("public function save() {}\n}\n")
	}
	for i := 0; i < nc; i++ {
		copies := 1
		if r.Intn(6) == 0 {
			copies = 2
		}
		for ; copies > 0; copies-- {
			src.WriteString("class " + cn(i))
			if r.Intn(6) > 0 {
				j := r.Intn(nc)
				if nc == 60 {
					j = (i + 1) % nc
				}
				src.WriteString(" extends " + spell(cn(j)))
			}
			if k := r.Intn(4); k > 0 {
				var l []string
				for ; k > 0; k-- {
					l = append(l, in(r.Intn(ni)))
				}
				src.WriteString(" implements " + strings.Join(l, ", "))
			}
			src.WriteString(" {\n")
			uses()
			src.WriteString("const K = 1;\npublic $find;\npublic function load() {}\n}\n")
		}
	}
	doc := NewDocument(fmt.Sprintf("file:///h%d.php", n), []byte(src.String()))
	doc.Load()
	copies := map[string]int{}
	for _, c := range doc.Children {
		switch v := c.(type) {
		case *Interface:
			copies[v.Name.GetFQN()]++
			for k := range v.Extends {
				v.Extends[k].SetFQN("\\" + v.Extends[k].GetOriginal()) // names as the parser should leave them
			}
		case *Class:
			copies[v.Name.GetFQN()]++
		}
	}
	store.SyncDocument(doc)
	q := NewQuery(store)
	type visit struct {
		what  string
		scope Symbol
	}
	var visits []visit
	var before map[string]struct{}
	query := func(f func()) {
		done := make(chan interface{}, 1)
		go func() {
			defer func() { done <- recover() }()
			f()
		}()
		select {
		case p := <-done:
			if p != nil {
				vcEnsures(fmt.Sprint("panic: ", p, " in\n", src.String()), false)
			}
		case <-time.After(10 * time.Second):
			vcEnsures("a query never ends in\n"+src.String(), false)
		}
	}
	for k := 0; k < 8; k++ {
		name := []string{"", "load", "K", "find"}[r.Intn(4)]
		kind := r.Intn(3)
		search := r.Intn(3) == 0
		var seen map[string]struct{}
		if r.Intn(2) == 0 {
			seen = map[string]struct{}{}
			for j := r.Intn(3); j > 0; j-- {
				seen["\\"+[]string{cn(r.Intn(nc)), in(r.Intn(ni))}[r.Intn(2)]] = struct{}{}
			}
		}
		before = map[string]struct{}{}
		for f := range seen {
			before[f] = struct{}{}
		}
		visits = nil
		what := ""
		ms := func(l InheritedMethods) {
			for _, m := range l.Methods {
				visits = append(visits, visit{m.Method.Name, m.Scope})
			}
		}
		ps := func(l InheritedProps) {
			for _, m := range l.Props {
				visits = append(visits, visit{m.Prop.Name, m.Scope})
			}
		}
		cs := func(l InheritedClassConst) {
			for _, m := range l.Consts {
				visits = append(visits, visit{m.Const.Name, m.Scope})
			}
		}
		if r.Intn(2) == 0 {
			l := q.GetClasses("\\" + cn(r.Intn(nc)))
			if len(l) == 0 {
				continue
			}
			c := l[0]
			what = fmt.Sprintf("members %q (kind %d, keyword %v) of class %s after %v", name, kind, search, c.Name.GetFQN(), before)
			query(func() {
				switch {
				case kind == 0 && search:
					ms(q.SearchClassMethods(c, name, seen))
				case kind == 0:
					ms(q.GetClassMethods(c, name, seen))
				case kind == 1 && search:
					ps(q.SearchClassProps(c, name, seen))
				case kind == 1:
					ps(q.GetClassProps(c, name, seen))
				case search:
					cs(q.SearchClassClassConsts(c, name, seen))
				default:
					cs(q.GetClassClassConsts(c, name, seen))
				}
			})
		} else {
			l := q.GetInterfaces("\\" + in(r.Intn(ni)))
			if len(l) == 0 {
				continue
			}
			c := l[0]
			what = fmt.Sprintf("members %q (kind %d, keyword %v) of interface %s after %v", name, kind, search, c.Name.GetFQN(), before)
			query(func() {
				switch {
				case kind == 0 && search:
					ms(q.SearchInterfaceMethods(c, name, seen))
				case kind == 0:
					ms(q.GetInterfaceMethods(c, name, seen))
				case kind == 1 && search:
					ps(q.SearchInterfaceProps(c, name, seen))
				case kind == 1:
					ps(q.GetInterfaceProps(c, name, seen))
				case search:
					cs(q.SearchInterfaceClassConsts(c, name, seen))
				default:
					cs(q.GetInterfaceClassConsts(c, name, seen))
				}
			})
		}
		fail := func(why string, ok bool) {
			if !ok {
				vcEnsures(what+": "+why+" in\n"+src.String(), false)
			}
		}
		for f := range before {
			_, ok := seen[f]
			fail("the name "+f+" is no longer marked as searched", ok)
		}
		count := map[string]int{}
		for _, v := range visits {
			fqn := ""
			switch s := v.scope.(type) {
			case *Class:
				fqn = s.Name.GetFQN()
			case *Interface:
				fqn = s.Name.GetFQN()
			default:
				continue // a trait's members come with every class that uses it
			}
			count[v.what+" "+fqn]++
		}
		for m, c := range count {
			_, fqn, _ := strings.Cut(m, " ")
			fail(fmt.Sprintf("%s collected %d times", m, c), c <= copies[fqn])
		}
	}
}

func TestVC_C14(t *testing.T) {
	store := vcHierarchyStore(t)
	h := vcNew(t, "C14", "hierarchies in an index")
	for i := 0; h.more(4000); i++ {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_hierarchy(rand.New(rand.NewSource(seed)), store, i) })
	}
}
