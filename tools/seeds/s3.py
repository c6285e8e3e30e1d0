SEEDS={
"C17-merge-in-bulk":dict(property="C17",pkg="analysis",
 edits=[("analysis/symbolType.go","""func (t *TypeComposite) merge(types TypeComposite) {
	for _, typeString := range types.typeStrings {
""","""func (t *TypeComposite) merge(types TypeComposite) {
	if len(t.typeStrings) == 0 {
		// nothing to compare with
		t.typeStrings = types.typeStrings[:len(types.typeStrings):len(types.typeStrings)]
		return
	}
	missing := 0
	for _, typeString := range types.typeStrings {
		if !t.has(typeString) {
			missing++
		}
	}
	if missing == len(types.typeStrings) {
		t.typeStrings = append(t.typeStrings[:len(t.typeStrings):len(t.typeStrings)], types.typeStrings...)
		return
	}
	for _, typeString := range types.typeStrings {
"""),
 ("analysis/symbolType.go","""		typeString.arrayLevel += arrayLevel
		t.add(typeString)
""","""		typeString.arrayLevel += arrayLevel
		if arrayLevel > 0 {
			// raised dimensions cannot be there yet
			t.typeStrings = append(t.typeStrings, typeString)
			continue
		}
		t.add(typeString)
""")],
 test=r'''
package analysis

import "testing"

func TestZZDemo(t *testing.T) {
	s := newTypeComposite()
	s.add(NewTypeString("\\A[]"))
	o := newTypeComposite()
	o.add(NewTypeString("\\A"))
	s.mergeWithArrayLevel(o, 1)
	if s.ToString() != "\\A[]" {
		t.Fatalf("types are %s", s.ToString())
	}
}
''',needs="a method returning static[] (dimensions are raised) whose scope's type is already in the set with that dimension",breaks="mergeWithArrayLevel adds a type that is already in the set"),
"C17-static-dimensions":dict(property="C17",pkg="analysis",
 edits=[("analysis/relativeScope.go","""			newTypes.mergeWithArrayLevel(scope.GetTypes(), t.arrayLevel)
			continue
""","""			if newTypes.IsEmpty() {
				// the scope's types are the first ones
				newTypes = scope.GetTypes()
				for i := range newTypes.typeStrings {
					newTypes.typeStrings[i].arrayLevel += t.arrayLevel
				}
				continue
			}
			newTypes.mergeWithArrayLevel(scope.GetTypes(), t.arrayLevel)
			continue
""")],
 test=r'''
package analysis

import "testing"

func TestZZDemo(t *testing.T) {
	scope := &RelativeScope{Types: newTypeComposite()}
	scope.Types.add(NewTypeString("\\A"))
	member := newTypeComposite()
	member.add(NewTypeString("static[]"))
	if s := resolveMemberTypes(member, scope).ToString(); s != "\\A[]" {
		t.Fatalf("member types are %s", s)
	}
	if s := scope.Types.ToString(); s != "\\A" {
		t.Fatalf("the scope's types became %s", s)
	}
}
''',needs="a member whose first type is static or $this with array dimensions",breaks="the types of the scope a member is accessed on get array dimensions they do not have"),
"C17-dearray-element":dict(property="C17",pkg="analysis",
 edits=[("analysis/foreach.go","""	for _, t := range s.scope.GetTypes().Resolve() {
		ok := false
		if t, ok = t.Dearray(); ok {
			types.add(t)
		}
	}
	return types
""","""	scopeTypes := s.scope.GetTypes().Resolve()
	elements := scopeTypes[:0]
	for _, t := range scopeTypes {
		ok := false
		if t, ok = t.Dearray(); ok {
			elements = append(elements, t)
		}
	}
	for _, t := range elements {
		types.add(t)
	}
	return types
""")],
 test=r'''
package analysis

import "testing"

func TestZZDemo(t *testing.T) {
	scope := &RelativeScope{Types: newTypeComposite()}
	scope.Types.add(NewTypeString("\\A"))
	scope.Types.add(NewTypeString("\\B[][]"))
	f := ForeachCollection{scope: scope}
	for i := 0; i < 2; i++ {
		if s := f.GetTypes().ToString(); s != "\\B[]" {
			t.Fatalf("element types are %s (time %d)", s, i)
		}
	}
}
''',needs="the types of a foreach collection are asked for twice, or used after the elements' types were",breaks="asking for the element types of an array alters the array's own types"),
}
