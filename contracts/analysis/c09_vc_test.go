//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

func vcEmptyStore(t *testing.T) *Store {
	greb, err := pogreb.Open(t.TempDir()+"/greb", nil)
	if err != nil {
		t.Fatal(err)
	}
	db := storage.NewMemory()
	return &Store{uri: "test", db: db, comDB: storage.NewMemory(), greb: greb, FS: protocol.NewFileFS(), refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

func vcAnyName(r *rand.Rand, segs int) string {
	words := []string{"A", "B", "a", "Foo", "foo", "FOO", "f", "X", "int", "mixed", "Int"}
	n := 1 + r.Intn(segs)
	var s []string
	for ; n > 0; n-- {
		s = append(s, words[r.Intn(len(words))])
	}
	return strings.Join(s, "\\")
}

// vc_names runs every contract on a random import table, namespace and name.
func vc_names(r *rand.Rand, store *Store) {
	i := &ImportTable{classes: map[string]*importItem{}, functions: map[string]*importItem{}, constants: map[string]*importItem{}}
	for n := r.Intn(4); n > 0; n-- {
		alias := ""
		if r.Intn(2) == 0 {
			alias = vcAnyName(r, 1)
		}
		switch r.Intn(3) {
		case 0:
			vc_addClassName(i, alias, vcAnyName(r, 3), protocol.Range{})
		case 1:
			vc_addFunctionName(i, alias, vcAnyName(r, 3), protocol.Range{})
		case 2:
			vc_addConstName(i, alias, vcAnyName(r, 3), protocol.Range{})
		}
	}
	if r.Intn(3) > 0 {
		i.setNamespace(&Namespace{Name: vcAnyName(r, 2)})
	}
	text := vcAnyName(r, 3)
	if r.Intn(4) == 0 {
		text = "\\" + text
	}
	name := NewTypeString(text)
	db := storage.NewMemory()
	store.db, store.comDB = db, storage.NewMemory()
	db.WriteBatch(func(b storage.Batch) error {
		for k := r.Intn(4); k > 0; k-- {
			n := NewTypeString(vcAnyName(r, 1))
			if r.Intn(2) == 0 {
				n = NewTypeString(text)
			}
			if r.Intn(2) == 0 {
				n.SetNamespace(i.GetNamespace())
			} else {
				n.SetNamespace("")
			}
			var s serialisable = &Function{Name: n}
			if r.Intn(2) == 0 {
				s = &Const{Name: n}
			}
			e := newEntry(s.GetCollection(), s.GetKey())
			s.Serialise(e.e)
			writeEntry(b, e)
		}
		return nil
	})
	q := NewQuery(store)
	vc_GetParts(name)
	vc_IsFQN(name.fqn)
	vc_GetFirstAndRestParts(name)
	vc_findImport(i.classes, vcSegment(name.fqn))
	vc_GetClassReferenceFQN(*i, name)
	vc_FunctionPossibleFQNs(*i, name)
	vc_GetFunctionReferenceFQN(*i, q, name)
	vc_GetConstReferenceFQN(*i, q, name)
	s := &Document{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		p := vcSmallPos(r)
		if n := len(s.importTables); n > 0 && vcBefore(p, s.importTables[n-1].start) {
			continue
		}
		s.importTables = append(s.importTables, &ImportTable{start: p})
	}
	vc_ImportTableAtPos(s, vcSmallPos(r))
}

func vcSmallPos(r *rand.Rand) protocol.Position {
	return protocol.Position{Line: r.Intn(4), Character: r.Intn(4)}
}

type vcPart struct {
	namespace                     string
	classes, functions, constants [][2]string
}

func vcFind(l [][2]string, alias string, exact bool) (string, bool) {
	for _, e := range l {
		if e[0] == alias || !exact && strings.EqualFold(e[0], alias) {
			return e[1], true
		}
	}
	return "", false
}

// vcPHP is PHP's rule for a name of kind 0 (class), 1 (function) or 2 (constant).
func vcPHP(p vcPart, kind int, name string, declared func(string) bool) string {
	if name[0] == '\\' {
		return name
	}
	in := "\\" + name
	if p.namespace != "" {
		in = "\\" + p.namespace + in
	}
	if ix := strings.IndexByte(name, '\\'); ix >= 0 {
		if item, ok := vcFind(p.classes, name[:ix], false); ok {
			return "\\" + item + name[ix:]
		}
		return in
	}
	if item, ok := vcFind([][][2]string{p.classes, p.functions, p.constants}[kind], name, kind == 2); ok {
		return "\\" + item
	}
	if kind > 0 && !declared(in) && declared("\\"+name) {
		return "\\" + name
	}
	return in
}

// vc_names_doc: the names of a parsed file resolve the way PHP resolves them.
func vc_names_doc(r *rand.Rand, store *Store) {
	words := []string{"A", "Bb", "Foo", "Qux", "Zed"}
	name := func(n int) string {
		var s []string
		for k := 1 + r.Intn(n); k > 0; k-- {
			s = append(s, words[r.Intn(len(words))])
		}
		return strings.Join(s, "\\")
	}
	recase := func(s string) string {
		if r.Intn(3) == 0 {
			return strings.ToLower(s)
		}
		return s
	}
	declared := map[string]bool{}
	var decls strings.Builder
	decls.WriteString("<?php\n")
	fn := 0
	for _, ns := range []string{"", "A", "Foo\\Qux"} {
		decls.WriteString("namespace " + ns + " {\n")
		for _, w := range words {
			in := "\\" + w
			if ns != "" {
				in = "\\" + ns + in
			}
			if r.Intn(4) == 0 {
				declared["f"+in] = true
				fn++
				decls.WriteString(fmt.Sprintf("/** @return \\Of%s */\nfunction %s() {}\n", strings.ReplaceAll(in, "\\", "_"), w))
			}
			if r.Intn(4) == 0 {
				declared["c"+in] = true
				decls.WriteString("const " + w + " = 1;\n")
			}
		}
		decls.WriteString("}\n")
	}
	type use struct {
		kind, line int
		text       string
		part       int
	}
	var b strings.Builder
	b.WriteString("<?php\n")
	line := 1
	add := func(s string) {
		b.WriteString(s + "\n")
		line++
	}
	var parts []vcPart
	var uses []use
	braces := r.Intn(2) == 0
	for k := 1 + r.Intn(3); k > 0; k-- {
		p := vcPart{}
		if k > 1 || len(parts) > 0 || r.Intn(2) == 0 {
			p.namespace = []string{"A", "Foo\\Qux", "B"}[r.Intn(3)]
			if braces {
				add("namespace " + p.namespace + " {")
			} else {
				add("namespace " + p.namespace + ";")
			}
		}
		taken := map[string]bool{}
		for u := r.Intn(4); u > 0; u-- {
			kind := r.Intn(3)
			n, alias := name(3), ""
			if r.Intn(2) == 0 {
				alias = words[r.Intn(len(words))]
			}
			as := alias
			if as == "" {
				as = n[strings.LastIndex(n, "\\")+1:]
			}
			key := fmt.Sprint(kind, strings.ToLower(as))
			if taken[key] {
				continue
			}
			taken[key] = true
			item := [2]string{as, n}
			word := []string{"", "function ", "const "}[kind]
			suffix := ""
			if alias != "" {
				suffix = " as " + alias
			}
			lead := []string{"", "\\"}[r.Intn(2)]
			ix := strings.LastIndex(n, "\\")
			switch {
			case ix > 0 && r.Intn(2) == 0:
				if r.Intn(2) == 0 {
					add("use " + word + lead + n[:ix] + "\\{" + n[ix+1:] + suffix + "};")
				} else {
					add("use " + lead + n[:ix] + "\\{" + word + n[ix+1:] + suffix + "};")
				}
			default:
				add("use " + word + lead + n + suffix + ";")
			}
			switch kind {
			case 0:
				p.classes = append(p.classes, item)
			case 1:
				p.functions = append(p.functions, item)
			case 2:
				p.constants = append(p.constants, item)
			}
		}
		for u := 1 + r.Intn(5); u > 0; u-- {
			n := recase(name(3))
			if r.Intn(4) == 0 {
				n = "\\" + n
			}
			kind := r.Intn(3)
			uses = append(uses, use{kind, line, n, len(parts)})
			add([]string{"new " + n + "();", n + "();", "echo " + n + ";"}[kind])
		}
		if braces && p.namespace != "" {
			add("}")
		}
		parts = append(parts, p)
	}
	store.db, store.comDB = storage.NewMemory(), storage.NewMemory()
	store.refIndex = newReferenceIndex(store.db)
	dd := NewDocument("file:///decls.php", []byte(decls.String()))
	dd.Load()
	store.SyncDocument(dd)
	d := NewDocument("file:///a.php", []byte(b.String()))
	d.Load()
	q := NewQuery(store)
	ctx := NewResolveContext(q, d)
	found := map[int]bool{}
	TraverseDocument(d, func(s Symbol) {
		h, ok := s.(HasTypes)
		if !ok {
			return
		}
		var u *use
		for k := range uses {
			if uses[k].line == h.GetLocation().Range.Start.Line {
				u = &uses[k]
			}
		}
		if u == nil {
			return
		}
		p := parts[u.part]
		where := fmt.Sprintf("%s on line %d of %q, declared %q", u.text, u.line, b.String(), decls.String())
		switch v := s.(type) {
		case *ClassTypeDesignator:
			want := vcPHP(p, 0, u.text, nil)
			for _, t := range v.GetTypes().Resolve() {
				vcEnsures("class "+where+": "+t.GetFQN()+" instead of "+want, t.GetFQN() == want)
				found[u.line] = true
			}
		case *FunctionCall:
			want := vcPHP(p, 1, u.text, func(n string) bool { return declared["f"+n] })
			got := d.ImportTableAtPos(v.Location.Range.Start).GetFunctionReferenceFQN(q, NewTypeString(v.Name))
			vcEnsures("function "+where+": "+got+" instead of "+want, got == want)
			v.Resolve(ctx)
			n := 0
			for _, t := range v.GetTypes().Resolve() {
				n++
				vcEnsures("type of a call of "+where+": "+t.GetFQN(), t.GetFQN() == "\\Of"+strings.ReplaceAll(want, "\\", "_"))
			}
			vcEnsures("type of a call of "+where, (n > 0) == declared["f"+want])
			found[u.line] = true
		case *ConstantAccess:
			want := vcPHP(p, 2, u.text, func(n string) bool { return declared["c"+n] })
			got := d.ImportTableAtPos(v.Location.Range.Start).GetConstReferenceFQN(q, NewTypeString(v.Name))
			vcEnsures("constant "+where+": "+got+" instead of "+want, got == want)
			found[u.line] = true
		}
	}, nil)
	for _, u := range uses {
		vcEnsures("no symbol for "+u.text+" in "+b.String(), found[u.line])
	}
}

// vc_reserved: reserved type names are never prefixed, names of classes always are.
func vc_reserved() {
	i := ImportTable{namespace: &Namespace{Name: "N"}}
	for _, n := range strings.Fields("mixed null bool true false int float string array object callable void static $this") {
		vcEnsures("reserved type "+n, i.GetClassReferenceFQN(NewTypeString(n)) == n)
		vcEnsures("reserved type "+n+"[]", i.GetClassReferenceFQN(NewTypeString(n+"[]")) == n)
	}
	for _, n := range strings.Fields("Real Binary Double iterator exception Foo Integers Arrays strings") {
		vcEnsures("class "+n, i.GetClassReferenceFQN(NewTypeString(n)) == "\\N\\"+n)
	}
}

func TestVC_C09(t *testing.T) {
	store := vcEmptyStore(t)
	w := vcNew(t, "C09", "reserved type names")
	w.check("reserved type names", vc_reserved)
	h := vcNew(t, "C09", "names and imports")
	for h.more(20000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_names(rand.New(rand.NewSource(seed)), store) })
	}
	d := vcNew(t, "C09", "files")
	for d.more(1500) {
		seed := d.r.Int63()
		d.check(fmt.Sprint("seed ", seed), func() { vc_names_doc(rand.New(rand.NewSource(seed)), store) })
	}
}
