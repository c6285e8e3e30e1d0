//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

func vcMemberStore(t *testing.T) *Store {
	greb, err := pogreb.Open(t.TempDir()+"/greb", nil)
	if err != nil {
		t.Fatal(err)
	}
	db := storage.NewMemory()
	return &Store{uri: "test", db: db, comDB: storage.NewMemory(), greb: greb, FS: protocol.NewFileFS(), refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

type vcAccess struct {
	name  string
	types TypeComposite
}

func (a *vcAccess) GetLocation() protocol.Location { return protocol.Location{} }
func (a *vcAccess) GetTypes() TypeComposite        { return newTypeComposite() }

func (a *vcAccess) ScopeName() string          { return a.name }
func (a *vcAccess) ScopeTypes() TypeComposite  { return a.types }
func (a *vcAccess) Resolve(ctx ResolveContext) {}

func vcAnyAccess(r *rand.Rand, classes []string) *vcAccess {
	a := &vcAccess{types: newTypeComposite()}
	a.name = []string{"self", "static", "parent", "$this", "", "Foo", "$a"}[r.Intn(7)]
	for k := r.Intn(4); k > 0; k-- {
		a.types.add(NewTypeString(classes[r.Intn(len(classes))]))
	}
	return a
}

// vcRefVisible is the rule of the property, written apart from the specification.
func vcRefVisible(static bool, current string, a *vcAccess, related func(owner, fqn string) bool, owner string, vis VisibilityModifierValue, isStatic bool) bool {
	var types []string
	for _, t := range a.types.Resolve() {
		types = append(types, t.GetFQN())
	}
	any := func(f func(string) bool) bool {
		for _, t := range types {
			if f(t) {
				return true
			}
		}
		return false
	}
	if static {
		switch {
		case a.name == "parent":
			return owner != current && vis != Private
		case a.name == "self" || a.name == "static" || a.name == "$this":
			return owner == current || vis != Private
		case !isStatic:
			return false
		}
		switch vis {
		case Public:
			return true
		case Private:
			return owner == current
		}
		return any(func(t string) bool { return t == owner || related(owner, t) })
	}
	if vis == Public || a.name == "$this" && (owner == current || vis != Private) {
		return true
	}
	return any(func(t string) bool { return t == current || vis == Protected && related(owner, t) })
}

var vcVis = []VisibilityModifierValue{Public, Protected, Private}

// vc_members: the contracts on random lists of members.
func vc_members(r *rand.Rand) {
	classes := []string{"\\A", "\\B", "\\C", "\\N\\A"}
	class := func() string { return classes[r.Intn(len(classes))] }
	rel := RelationMap{}
	for k := r.Intn(5); k > 0; k-- {
		vc_RelationMap_Relate(rel, class(), class())
	}
	other := RelationMap{}
	for k := r.Intn(5); k > 0; k-- {
		vc_RelationMap_Relate(other, class(), class())
	}
	a, b := class(), class()
	vc_RelationMap_IsRelated(rel, a, b)
	if r.Intn(2) == 0 {
		vc_RelationMap_Merge(rel, other, a, b)
	}
	related := func(owner, fqn string) bool { _, ok := rel[owner][fqn]; return ok }
	current, acc := class(), vcAnyAccess(r, classes)
	vc_IsNameParent(acc.name)
	vc_IsNameRelative(acc.name)
	names := []string{"a", "b", "c", "foo"}
	scopes := []Symbol{}
	for _, c := range classes {
		k := &Class{Name: NewTypeString(c)}
		k.Location.URI = "file:///a.php"
		scopes = append(scopes, k)
	}
	methods := func() []MethodWithScope {
		var l []MethodWithScope
		for k := r.Intn(7); k > 0; k-- {
			m := &Method{}
			m.Name, m.VisibilityModifier, m.isStatic = names[r.Intn(4)], vcVis[r.Intn(3)], r.Intn(2) == 0
			m.Scope = NewTypeString(class())
			l = append(l, MethodWithScope{m, scopes[r.Intn(4)], r.Intn(3)})
		}
		return l
	}
	props := func() []PropWithScope {
		var l []PropWithScope
		for k := r.Intn(7); k > 0; k-- {
			m := &Property{}
			m.Name, m.VisibilityModifier, m.isStatic = names[r.Intn(4)], vcVis[r.Intn(3)], r.Intn(2) == 0
			m.Scope = NewTypeString(class())
			l = append(l, PropWithScope{m, scopes[r.Intn(4)], r.Intn(3)})
		}
		return l
	}
	consts := func() []ClassConstWithScope {
		var l []ClassConstWithScope
		for k := r.Intn(7); k > 0; k-- {
			m := &ClassConst{Name: names[r.Intn(4)], VisibilityModifier: vcVis[r.Intn(3)], Scope: NewTypeString(class())}
			l = append(l, ClassConstWithScope{m, scopes[r.Intn(4)], r.Intn(3)})
		}
		return l
	}
	ms := InheritedMethods{methods(), rel, map[string]struct{}{}}
	for _, m := range ms.Methods {
		vc_IsInheritedStatic(current, acc, rel, m.Method)
		vc_IsInherited(current, acc, rel, m.Method)
		for _, static := range []bool{true, false} {
			got := IsInherited(current, acc, rel, m.Method)
			if static {
				got = IsInheritedStatic(current, acc, rel, m.Method)
			}
			vcEnsures(fmt.Sprintf("visibility of %v by %q", m.Method.VisibilityModifier, acc.name),
				got == vcRefVisible(static, current, acc, related, m.Method.Scope.GetFQN(), m.Method.VisibilityModifier, m.Method.isStatic))
		}
	}
	vc_ReduceFirst(ms)
	vc_InheritedMethods_ReduceStatic(ms, current, acc)
	vc_InheritedMethods_ReduceAccess(ms, current, acc)
	ps := InheritedProps{props(), rel, map[string]struct{}{}}
	vc_InheritedProps_ReduceStatic(ps, current, acc)
	vc_InheritedProps_ReduceAccess(ps, current, acc)
	cs := InheritedClassConst{consts(), rel, map[string]struct{}{}}
	vc_InheritedClassConst_ReduceStatic(cs, current, acc)
	vc_MergeMethodWithScope([][]MethodWithScope{ms.Methods, methods(), methods()})
	vc_MergePropWithScope([][]PropWithScope{ps.Props, props()})
	vc_MergeClassConstWithScope([][]ClassConstWithScope{cs.Consts, consts()})
	fm, fo := NewInheritedMethods(methods(), map[string]struct{}{"\\A": {}}), NewInheritedMethods(methods(), map[string]struct{}{class(): {}})
	vc_InheritedMethods_Merge(&fm, fo)
	fp, fq := NewInheritedProps(props(), map[string]struct{}{"\\A": {}}), NewInheritedProps(props(), map[string]struct{}{class(): {}})
	vc_InheritedProps_Merge(&fp, fq)
	c1, c2 := cs.Consts, consts()
	fc, fd := InheritedClassConst{c1, rel, map[string]struct{}{}}, NewInheritedClassConst(c2, map[string]struct{}{class(): {}})
	want := fmt.Sprint(append(append([]ClassConstWithScope{}, c1...), c2...))
	fc.Merge(fd)
	vcEnsures("merged constants", fmt.Sprint(append([]ClassConstWithScope{}, fc.Consts...)) == want)
}

type vcMember struct {
	kind, name string
	vis        VisibilityModifierValue
	static     bool
}

type vcType struct {
	kind       string // class, interface, trait
	name       string
	extends    []string
	implements []string
	uses       []string
	members    []vcMember
}

func (d vcType) source() string {
	var b strings.Builder
	b.WriteString(d.kind + " " + d.name)
	if len(d.extends) > 0 {
		b.WriteString(" extends " + strings.Join(d.extends, ", "))
	}
	if len(d.implements) > 0 {
		b.WriteString(" implements " + strings.Join(d.implements, ", "))
	}
	b.WriteString(" {\n")
	for _, u := range d.uses {
		b.WriteString("use " + u + ";\n")
	}
	for _, m := range d.members {
		vis := map[VisibilityModifierValue]string{Public: "public ", Protected: "protected ", Private: "private "}[m.vis]
		if m.static {
			vis += "static "
		}
		switch m.kind {
		case "method":
			b.WriteString(vis + "function " + m.name + "() {}\n")
		case "prop":
			b.WriteString(vis + m.name + ";\n")
		case "const":
			b.WriteString("const " + m.name + " = 1;\n")
		}
	}
	b.WriteString("}\n")
	return b.String()
}

// vcOnce keeps the first of each: a member collected again is not offered again.
func vcOnce(l []string) []string {
	var r []string
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

// vc_extends: an interface has the members of the interfaces it extends.
func vc_extends(store *Store) {
	doc := NewDocument("file:///extends.php", []byte("<?php interface Base { public function load() {} } interface More extends Base {}"))
	doc.Load()
	store.SyncDocument(doc)
	q := NewQuery(store)
	got := 0
	for _, i := range q.GetInterfaces("\\More") {
		got = len(q.GetInterfaceMethods(i, "load", nil).Methods)
	}
	vcEnsures("methods of an extended interface", got == 1)
}

// vc_collected queries random classes of an index and compares with a reference collection.
func vc_collected(r *rand.Rand, store *Store, n int) {
	types := map[string]*vcType{}
	var order []string
	add := func(kind, name string) *vcType {
		d := &vcType{kind: kind, name: name}
		types[name] = d
		order = append(order, name)
		vis := func() VisibilityModifierValue {
			if kind == "interface" {
				return Public
			}
			return vcVis[r.Intn(3)]
		}
		seen := map[string]bool{}
		for k := r.Intn(5); k > 0; k-- {
			m := vcMember{kind: []string{"method", "prop", "const"}[r.Intn(3)], vis: vis(), static: r.Intn(3) == 0}
			m.name = []string{"load", "save", "find", "xyz"}[r.Intn(4)]
			if m.kind == "prop" {
				m.name = "$" + m.name
			}
			if m.kind == "const" {
				m.vis, m.static = Public, true
			}
			if seen[m.kind+m.name] || kind == "interface" && m.kind == "prop" || kind == "trait" && m.kind != "method" {
				continue
			}
			seen[m.kind+m.name] = true
			d.members = append(d.members, m)
		}
		return d
	}
	nc, ni, nt := 1+r.Intn(5), r.Intn(4), r.Intn(3)
	cn := func(i int) string { return fmt.Sprintf("C%d_%d", n, i) }
	in := func(i int) string { return fmt.Sprintf("I%d_%d", n, i) }
	tn := func(i int) string { return fmt.Sprintf("T%d_%d", n, i) }
	for i := 0; i < ni; i++ {
		d := add("interface", in(i))
		for k := r.Intn(3); k > 0; k-- {
			d.extends = append(d.extends, in(r.Intn(ni+1)))
		}
	}
	for i := 0; i < nt; i++ {
		add("trait", tn(i))
	}
	for i := 0; i < nc; i++ {
		d := add("class", cn(i))
		if r.Intn(3) > 0 {
			d.extends = []string{cn(r.Intn(nc + 1))}
		}
		for k := r.Intn(3); k > 0 && ni > 0; k-- {
			d.implements = append(d.implements, in(r.Intn(ni)))
		}
		for k := r.Intn(3); k > 0 && nt > 0; k-- {
			d.uses = append(d.uses, tn(r.Intn(nt)))
		}
	}
	var src strings.Builder
	src.WriteString("<?php\n")
	for _, t := range order {
		src.WriteString(types[t].source())
	}
	fail := func(what string, ok bool) {
		if !ok {
			vcEnsures(what+" in\n"+src.String(), false)
		}
	}
	doc := NewDocument(fmt.Sprintf("file:///m%d.php", n), []byte(src.String()))
	doc.Load()
	for _, c := range doc.Children {
		if i, ok := c.(*Interface); ok {
			// the parser leaves these names as written (known finding): look at the collection alone
			for k := range i.Extends {
				i.Extends[k].SetFQN("\\" + i.Extends[k].GetOriginal())
			}
		}
	}
	store.SyncDocument(doc)

	// reference
	own := func(kind, t string) []string {
		var l []string
		for _, m := range types[t].members {
			if m.kind == kind {
				l = append(l, "\\"+t+" "+m.name)
			}
		}
		sort.Strings(l)
		return l
	}
	intfs := func(kind string, from []string, seen map[string]bool) []string {
		var l []string
		for q := from; len(q) > 0; {
			i := q[0]
			q = append([]string{}, q[1:]...)
			if types[i] == nil || seen[i] {
				continue
			}
			seen[i] = true
			l = append(l, own(kind, i)...)
			q = append(q, types[i].extends...)
		}
		return l
	}
	collect := func(kind, c string) []string {
		var l, last []string
		seen := map[string]bool{}
		for types[c] != nil && !seen[c] {
			seen[c] = true
			l = append(l, own(kind, c)...)
			if kind == "method" {
				for _, t := range types[c].uses {
					l = append(l, own(kind, t)...)
				}
			}
			for _, i := range types[c].implements {
				last = append(last, intfs(kind, []string{i}, seen)...)
			}
			if len(types[c].extends) == 0 {
				break
			}
			c = types[c].extends[0]
		}
		return append(l, last...)
	}
	q := NewQuery(store)
	list := func(q *Query, kind, c, name string, search bool, seen map[string]struct{}) []string {
		var l []string
		if types[c].kind == "interface" {
			i := q.GetInterfaces("\\" + c)[0]
			switch kind {
			case "method":
				get := q.GetInterfaceMethods
				if search {
					get = q.SearchInterfaceMethods
				}
				ms := get(i, name, seen)
				for _, m := range ms.Methods {
					l = append(l, m.Method.Scope.GetFQN()+" "+m.Method.Name)
				}
			case "prop":
				get := q.GetInterfaceProps
				if search {
					get = q.SearchInterfaceProps
				}
				ms := get(i, name, seen)
				for _, m := range ms.Props {
					l = append(l, m.Prop.Scope.GetFQN()+" "+m.Prop.Name)
				}
			case "const":
				get := q.GetInterfaceClassConsts
				if search {
					get = q.SearchInterfaceClassConsts
				}
				ms := get(i, name, seen)
				for _, m := range ms.Consts {
					l = append(l, m.Const.Scope.GetFQN()+" "+m.Const.Name)
				}
			}
			return l
		}
		k := q.GetClasses("\\" + c)[0]
		switch kind {
		case "method":
			get := q.GetClassMethods
			if search {
				get = q.SearchClassMethods
			}
			ms := get(k, name, seen)
			for _, m := range ms.Methods {
				l = append(l, m.Method.Scope.GetFQN()+" "+m.Method.Name)
			}
		case "prop":
			get := q.GetClassProps
			if search {
				get = q.SearchClassProps
			}
			ms := get(k, name, seen)
			for _, m := range ms.Props {
				l = append(l, m.Prop.Scope.GetFQN()+" "+m.Prop.Name)
			}
		case "const":
			get := q.GetClassClassConsts
			if search {
				get = q.SearchClassClassConsts
			}
			ms := get(k, name, seen)
			for _, m := range ms.Consts {
				l = append(l, m.Const.Scope.GetFQN()+" "+m.Const.Name)
			}
		}
		return l
	}
	for k := 0; k < 12; k++ {
		t := order[r.Intn(len(order))]
		if types[t].kind == "trait" {
			continue
		}
		kind := []string{"method", "prop", "const"}[r.Intn(3)]
		name := ""
		search := r.Intn(3) == 0
		if r.Intn(2) == 0 {
			name = []string{"load", "save", "find", "xyz"}[r.Intn(4)]
			if kind == "prop" && !search {
				name = "$" + name
			}
		}
		var seen map[string]struct{}
		if r.Intn(3) == 0 {
			seen = map[string]struct{}{}
		}
		var want []string
		var all []string
		if types[t].kind == "interface" {
			all = intfs(kind, []string{t}, map[string]bool{})
		} else {
			all = collect(kind, t)
		}
		for _, w := range all {
			_, n, _ := strings.Cut(w, " ")
			if name == "" || n == name || search && strings.Contains(n, name) {
				want = append(want, w)
			}
		}
		done := make(chan []string, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					done <- []string{fmt.Sprint("panic: ", p)}
				}
			}()
			done <- list(q, kind, t, name, search, seen)
		}()
		var got []string
		select {
		case got = <-done:
		case <-time.After(5 * time.Second):
			fail(fmt.Sprintf("collecting the %ss of %s never ends", kind, t), false)
		}
		got, want = vcOnce(got), vcOnce(want)
		fail(fmt.Sprintf("%ss of %s named %q (keyword %v) are %v, want %v", kind, t, name, search, got, want),
			fmt.Sprint(got) == fmt.Sprint(want))
	}
}

func TestVC_C13(t *testing.T) {
	h := vcNew(t, "C13", "lists of members")
	for h.more(40000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_members(rand.New(rand.NewSource(seed))) })
	}
	store := vcMemberStore(t)
	e := vcNew(t, "C13", "extended interface")
	e.check("interface Base { function load } interface More extends Base {}", func() { vc_extends(store) })
	d := vcNew(t, "C13", "classes in an index")
	for i := 0; d.more(3000); i++ {
		seed := d.r.Int63()
		d.check(fmt.Sprint("seed ", seed), func() { vc_collected(rand.New(rand.NewSource(seed)), store, i) })
	}
}
