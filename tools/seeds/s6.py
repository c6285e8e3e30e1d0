HELP='''
type zzAccess struct {
	name  string
	types TypeComposite
}

func (a *zzAccess) GetLocation() protocol.Location { return protocol.Location{} }
func (a *zzAccess) GetTypes() TypeComposite        { return newTypeComposite() }
func (a *zzAccess) ScopeName() string              { return a.name }
func (a *zzAccess) ScopeTypes() TypeComposite      { return a.types }
func (a *zzAccess) Resolve(ctx ResolveContext)     {}

func zzMethod(scope, name string, v VisibilityModifierValue, static bool) MethodWithScope {
	m := &Method{Name: name, Scope: NewTypeString(scope), VisibilityModifier: v, isStatic: static}
	c := &Class{Name: NewTypeString(scope)}
	return MethodWithScope{m, c, 0}
}
'''
SEEDS={
"C13-hidden-by-invisible":dict(property="C13",pkg="analysis",
 edits=[("analysis/query.go","""		if _, ok := duplicatedNames[ms.Method.Name]; ok {
			continue
		}
		if IsInherited(currentClass, access, m.RelationMap, ms.Method) {
			if ms.Method.isStatic {""","""		if _, ok := duplicatedNames[ms.Method.Name]; ok {
			continue
		}
		duplicatedNames[ms.Method.Name] = struct{}{}
		if IsInherited(currentClass, access, m.RelationMap, ms.Method) {
			if ms.Method.isStatic {""")],
 test='''package analysis

import (
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)
'''+HELP+'''
func TestZZDemo(t *testing.T) {
	ms := NewInheritedMethods([]MethodWithScope{zzMethod("\\\\B", "run", Private, false), zzMethod("\\\\A", "run", Public, false)}, map[string]struct{}{})
	got := ms.ReduceAccess("\\\\Other", &zzAccess{"$b", newTypeComposite()})
	if len(got) != 1 || got[0].Method.Scope.GetFQN() != "\\\\A" {
		t.Fatalf("offered %v", got)
	}
}
''',needs="two members of one name, the nearer one not visible from the place of access",breaks="the visible member is hidden by one that is not offered"),
"C13-merge-by-name":dict(property="C13",pkg="analysis",
 edits=[("analysis/query.go","""			key := classConst.Const.Name
			if s, ok := classConst.Scope.(serialisable); ok {
				key = s.GetKey() + "::" + classConst.Const.Name
			}""","""			key := classConst.Const.GetKey()""")],
 test='''package analysis

import "testing"

func TestZZDemo(t *testing.T) {
	class := func(uri string) *Class {
		c := &Class{Name: NewTypeString("\\\\A")}
		c.Location.URI = uri
		return c
	}
	k := &ClassConst{Name: "X", Scope: NewTypeString("\\\\A")}
	l := MergeClassConstWithScope([]ClassConstWithScope{{k, class("file:///1.php"), 0}}, []ClassConstWithScope{{k, class("file:///2.php"), 0}})
	if len(l) != 2 {
		t.Fatalf("kept %d of 2", len(l))
	}
}
''',needs="a class declared in two files, each with a constant of the same name",breaks="the constant of the second file is dropped when merging"),
"C13-first-relation":dict(property="C13",pkg="analysis",
 edits=[("analysis/query.go","""	for fqn, relations := range other {
		for otherFQN := range relations {
			r.Relate(fqn, otherFQN)
		}
	}""","""	for fqn, relations := range other {
		if _, ok := r[fqn]; !ok {
			r[fqn] = relations
		}
		for otherFQN := range r[fqn] {
			if !relations.IsRelated(otherFQN) {
				relations.Relate(otherFQN)
			}
		}
	}""")],
 test='''package analysis

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := RelationMap{}, RelationMap{}
	a.Relate("\\\\A", "\\\\B")
	b.Relate("\\\\A", "\\\\C")
	a.Merge(b)
	if !a.IsRelated("\\\\A", "\\\\B") || !a.IsRelated("\\\\A", "\\\\C") {
		t.Fatalf("lost a relation: %v", a)
	}
}
''',needs="two collections that both have relations of one class",breaks="the relations of the merged collection are lost"),
}
