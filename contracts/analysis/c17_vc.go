//go:build verif

package analysis

import "strings"

// Specification of type names and type sets (property C17). Two entries are the same type
// if they have the same fully qualified name and the same number of array dimensions.

func vcSameType(a, b TypeString) bool { return a.fqn == b.fqn && a.arrayLevel == b.arrayLevel }

func vcHasType(ts []TypeString, t TypeString) bool {
	return vcExists(0, len(ts), func(i int) bool { return vcSameType(ts[i], t) })
}

// vcKeeps: out starts with the entries of old.
func vcKeeps(out, old []TypeString) bool {
	return len(out) >= len(old) && vcForall(0, len(old), func(i int) bool { return out[i] == old[i] })
}

// vcOnce: the entries of out from n on repeat no other entry.
func vcOnce(out []TypeString, n int) bool {
	return vcForall(n, len(out), func(i int) bool { return vcForall(0, i, func(k int) bool { return !vcSameType(out[k], out[i]) }) })
}

func vcLevel(t TypeString, n int) TypeString {
	t.arrayLevel += n
	return t
}

// vcAllIn: out has the first m entries of ts, with n more dimensions.
func vcAllIn(out, ts []TypeString, m, n int) bool {
	return vcForall(0, m, func(j int) bool { return vcHasType(out, vcLevel(ts[j], n)) })
}

// vcFirst is the index of the first of the first m entries of ts that, with n more
// dimensions, is the type t; m if there is none.
//
//vc:rec
func vcFirst(ts []TypeString, n, m int, t TypeString) int {
	if m <= 0 {
		return 0
	}
	if f := vcFirst(ts, n, m-1, t); f < m-1 {
		return f
	}
	if ts[m-1].fqn == t.fqn && ts[m-1].arrayLevel+n == t.arrayLevel {
		return m - 1
	}
	return m
}

//vc:lemma props=C17
func vc_first_is(ts []TypeString, n, m int, t TypeString) {
	vcRequires(0 <= m && m <= len(ts))
	vcDecreases(m)
	if m > 0 {
		vc_first_is(ts, n, m-1, t)
	}
	f := vcFirst(ts, n, m, t)
	vcEnsures("range", 0 <= f && f <= m)
	vcEnsures("is the type", f == m || vcSameType(vcLevel(ts[f], n), t))
	vcEnsures("is the first", vcForall(0, f, func(j int) bool { return !vcSameType(vcLevel(ts[j], n), t) }))
}

// vcOnlyFrom: the entries of out from k on are types of ts, with n more dimensions.
func vcOnlyFrom(out []TypeString, k int, ts []TypeString, m, n int) bool {
	return vcForall(k, len(out), func(i int) bool {
		return vcFirst(ts, n, m, out[i]) < m && out[i] == vcLevel(ts[vcFirst(ts, n, m, out[i])], n)
	})
}

// vcInOrder: entries of out from k on are in the order of their first occurrences in ts.
func vcInOrder(out []TypeString, k int, ts []TypeString, m, n int) bool {
	return vcForall(k, len(out), func(j int) bool {
		return vcFirst(ts, n, m, out[j]) < m && vcForall(k, j, func(i int) bool { return vcFirst(ts, n, m, out[i]) < vcFirst(ts, n, m, out[j]) })
	})
}

// vcBrackets: from offset o on, s is a sequence of pairs of brackets.
func vcBrackets(s string, o int) bool {
	return 0 <= o && o <= len(s) && (len(s)-o)%2 == 0 && vcForall(o, len(s), func(p int) bool {
		return (p-o)%2 == 0 && s[p] == '[' || (p-o)%2 == 1 && s[p] == ']'
	})
}

//vc:contract (TypeString).resolveRawWithArrayLevel props=C17
func vc_resolveRawWithArrayLevel(t TypeString) {
	vcRequires(t.arrayLevel == 0)
	r := t.resolveRawWithArrayLevel()
	vcEnsures("dimensions", r.arrayLevel >= 0 && len(r.original) == len(t.original)-2*r.arrayLevel && vcBrackets(t.original, len(r.original)))
	vcEnsures("prefix", r.original == t.original[:len(r.original)])
	vcEnsures("base is no array", !strings.HasSuffix(r.original, "[]"))
	vcEnsures("name kept", r.fqn == t.fqn)
}

//vc:loop (TypeString).resolveRawWithArrayLevel 0
func vcl_resolveRawWithArrayLevel(t, t_in TypeString) {
	vcInv("dimensions", t.arrayLevel >= 0 && len(t.original) == len(t_in.original)-2*t.arrayLevel && vcBrackets(t_in.original, len(t.original)))
	vcInv("prefix", t.original == t_in.original[:len(t.original)])
	vcInv("name kept", t.fqn == t_in.fqn)
	vcDecreases(len(t.original))
}

//vc:contract NewTypeString props=C17
func vc_NewTypeString(typeString string) {
	r := NewTypeString(typeString)
	vcEnsures("dimensions", vcBrackets(typeString, len(typeString)-2*r.arrayLevel) && r.arrayLevel >= 0)
	base := typeString[:len(typeString)-2*r.arrayLevel]
	vcEnsures("all dimensions", !strings.HasSuffix(base, "[]"))
	if alias, ok := Aliases[base]; ok {
		base = alias
	}
	vcEnsures("base", r.original == base)
	vcEnsures("name", r.fqn == r.original)
}

//vc:contract (TypeString).Dearray props=C17
func vc_Dearray(t TypeString) {
	r, ok := t.Dearray()
	vcEnsures("one dimension less", ok == (t.arrayLevel != 0) && r.arrayLevel == t.arrayLevel-vcBit(ok))
	vcEnsures("same base", r.original == t.original && r.fqn == t.fqn)
}

func vcBit(b bool) int {
	if b {
		return 1
	}
	return 0
}

//vc:contract (*TypeComposite).has props=C17
func vc_has(t *TypeComposite, other TypeString) {
	vcRequires(t != nil)
	r := t.has(other)
	vcEnsures("found", r == vcHasType(t.typeStrings, other))
}

//vc:loop (*TypeComposite).has 0
func vcl_has(t *TypeComposite, other TypeString, vcI int) {
	vcInv("not yet", vcForall(0, vcI, func(k int) bool { return !vcSameType(t.typeStrings[k], other) }))
}

//vc:contract (*TypeComposite).add props=C17
func vc_add(t *TypeComposite, typeString TypeString) {
	vcRequires(t != nil)
	vcModifies(&t.typeStrings)
	old := t.typeStrings
	t.add(typeString)
	out := t.typeStrings
	vcEnsures("nothing is added twice", !vcHasType(old, typeString) || vcSameSlice(out, old))
	vcEnsures("added at the end", vcHasType(old, typeString) || len(out) == len(old)+1 && vcKeeps(out, old) && out[len(old)] == typeString)
	vcEnsures("not shared with copies", vcSameSlice(out, old) || vcFreshSlice(out))
}

//vc:contract (*TypeComposite).merge props=C17
func vc_merge(t *TypeComposite, types TypeComposite) {
	vcRequires(t != nil)
	vcModifies(&t.typeStrings)
	old, ts := t.typeStrings, types.typeStrings
	t.merge(types)
	out := t.typeStrings
	vcEnsures("keeps", vcKeeps(out, old))
	vcEnsures("adds every type", vcAllIn(out, ts, len(ts), 0))
	vcEnsures("adds nothing else", vcOnlyFrom(out, len(old), ts, len(ts), 0))
	vcEnsures("adds each once", vcOnce(out, len(old)))
	vcEnsures("in order", vcInOrder(out, len(old), ts, len(ts), 0))
	vcEnsures("not shared with copies", vcSameSlice(out, old) || vcFreshSlice(out))
}

//vc:loop (*TypeComposite).merge 0
func vcl_merge(t *TypeComposite, types TypeComposite, vcI int, c_old []TypeString) {
	vcAdding(t.typeStrings, vcAtHead(func() []TypeString { return t.typeStrings }), c_old, types.typeStrings, vcI, 0)
}

// The clauses about types found in the other list lead the solver in circles, each is
// proved from the ones it needs.
//
//vc:hide adds each once = adds every type, adds nothing else, in order
//vc:hide first occurrence = adds nothing else, adds each once, in order
//vc:hide adds nothing else = adds every type, adds each once, in order
//vc:hide adds every type = adds nothing else, adds each once, in order, first occurrence, is the first, keeps
//vc:hide adds every own type = adds nothing else, adds each once, in order, keeps, adds every type of the scope
//vc:hide adds every type of the scope = adds nothing else, adds each once, in order
//vc:hide in order = adds each once, adds every type, adds nothing else
func vcHides() {}

// vcAdding is the state after the first m entries of ts were added to old.
func vcAdding(out, head, old, ts []TypeString, m, n int) {
	if 0 < m && m <= len(ts) {
		x := vcLevel(ts[m-1], n)
		vc_first_is(ts, n, m-1, x)
		vcStep("first occurrence", len(out) == len(head) || vcFirst(ts, n, m-1, x) == m-1)
	}
	vcInv("keeps", vcKeeps(out, old))
	vcInv("adds every type", vcAllIn(out, ts, m, n))
	vcInv("adds nothing else", vcOnlyFrom(out, len(old), ts, m, n))
	vcInv("adds each once", vcOnce(out, len(old)))
	vcInv("in order", vcInOrder(out, len(old), ts, m, n))
	vcInv("not shared", vcSameSlice(out, old) || vcFreshSlice(out))
}

//vc:contract (*TypeComposite).mergeWithArrayLevel props=C17
func vc_mergeWithArrayLevel(t *TypeComposite, types TypeComposite, arrayLevel int) {
	vcRequires(t != nil)
	vcModifies(&t.typeStrings)
	old, ts := t.typeStrings, types.typeStrings
	t.mergeWithArrayLevel(types, arrayLevel)
	out := t.typeStrings
	vcEnsures("keeps", vcKeeps(out, old))
	vcEnsures("adds every type", vcAllIn(out, ts, len(ts), arrayLevel))
	vcEnsures("adds nothing else", vcOnlyFrom(out, len(old), ts, len(ts), arrayLevel))
	vcEnsures("adds each once", vcOnce(out, len(old)))
	vcEnsures("in order", vcInOrder(out, len(old), ts, len(ts), arrayLevel))
	vcEnsures("not shared with copies", vcSameSlice(out, old) || vcFreshSlice(out))
}

//vc:loop (*TypeComposite).mergeWithArrayLevel 0
func vcl_mergeWithArrayLevel(t *TypeComposite, types TypeComposite, arrayLevel int, vcI int, c_old []TypeString) {
	vcAdding(t.typeStrings, vcAtHead(func() []TypeString { return t.typeStrings }), c_old, types.typeStrings, vcI, arrayLevel)
}

func vcIsStatic(t TypeString) bool { return t.original == "static" || t.original == "$this" }

// vcMember: the first m of the types ts of a member, with static replaced by the types ss of
// its scope, are all in out.
func vcMemberIn(out, ts, ss []TypeString, m int) bool {
	return vcForall(0, m, func(j int) bool {
		return !vcIsStatic(ts[j]) && vcHasType(out, ts[j]) || vcIsStatic(ts[j]) && vcAllIn(out, ss, len(ss), ts[j].arrayLevel)
	})
}

//vc:contract resolveMemberTypes props=C17
//vc:opt pureiface=all
func vc_resolveMemberTypes(types TypeComposite, scope HasTypes) {
	vcRequires(scope != nil)
	ts, ss := types.typeStrings, scope.GetTypes().typeStrings
	r := resolveMemberTypes(types, scope)
	out := r.typeStrings
	vcEnsures("keeps every type of a member", vcMemberIn(out, ts, ss, len(ts)))
	vcEnsures("each once", vcOnce(out, 0))
}

//vc:loop resolveMemberTypes 0
func vcl_resolveMemberTypes(types, newTypes TypeComposite, vcI int, c_ss []TypeString) {
	vcInv("keeps every type of a member", vcMemberIn(newTypes.typeStrings, types.typeStrings, c_ss, vcI))
	vcInv("each once", vcOnce(newTypes.typeStrings, 0))
}

//vc:contract (ForeachCollection).GetTypes props=C17
//vc:opt pureiface=all
func vc_ForeachCollection_GetTypes(s ForeachCollection) {
	vcRequires(s.scope != nil)
	ss := s.scope.GetTypes().typeStrings
	out := s.GetTypes().typeStrings
	vcEnsures("elements of every array", vcForall(0, len(ss), func(j int) bool { return ss[j].arrayLevel == 0 || vcHasType(out, vcLevel(ss[j], -1)) }))
	vcEnsures("each once", vcOnce(out, 0))
}

//vc:loop (ForeachCollection).GetTypes 0
func vcl_ForeachCollection_GetTypes(types TypeComposite, vcI int, c_ss []TypeString) {
	vcInv("elements of every array", vcForall(0, vcI, func(j int) bool {
		return c_ss[j].arrayLevel == 0 || vcHasType(types.typeStrings, vcLevel(c_ss[j], -1))
	}))
	vcInv("each once", vcOnce(types.typeStrings, 0))
}

//vc:contract (*Variable).GetTypes props=C17
//vc:opt pureiface=all
func vc_Variable_GetTypes(s *Variable) {
	vcRequires(s != nil)
	var ss []TypeString
	if s.Scope != nil {
		ss = s.Scope.GetTypes().typeStrings
	}
	own := s.Type.typeStrings
	out := s.GetTypes().typeStrings
	if s.Scope == nil {
		vcEnsures("own types", vcSameSlice(out, own))
	} else {
		vcEnsures("keeps", vcKeeps(out, ss))
		vcEnsures("adds every type", vcAllIn(out, own, len(own), 0))
		vcEnsures("adds nothing else", vcOnlyFrom(out, len(ss), own, len(own), 0))
		vcEnsures("adds each once", vcOnce(out, len(ss)))
		vcEnsures("in order", vcInOrder(out, len(ss), own, len(own), 0))
		vcEnsures("not shared with copies", vcSameSlice(out, ss) || vcFreshSlice(out))
	}
}

//vc:loop (*Variable).GetTypes 0
func vcl_Variable_GetTypes(types, types_head TypeComposite, vcI int, c_ss, c_own []TypeString) {
	vcAdding(types.typeStrings, types_head.typeStrings, c_ss, c_own, vcI, 0)
}

//vc:contract (*Variable).mergeTypesWithVariable props=C17
//vc:opt pureiface=all
func vc_mergeTypesWithVariable(s *Variable, variable *Variable) {
	vcRequires(s != nil && variable != nil)
	vcModifies(&s.Type.typeStrings, &s.Scope)
	var ss []TypeString
	if variable.Scope != nil {
		ss = variable.Scope.GetTypes().typeStrings
	}
	old, own := s.Type.typeStrings, variable.Type.typeStrings
	s.mergeTypesWithVariable(variable)
	out := s.Type.typeStrings
	vcEnsures("keeps", vcKeeps(out, old))
	vcEnsures("adds every own type", vcAllIn(out, own, len(own), 0))
	vcEnsures("adds every type of the scope", vcAllIn(out, ss, len(ss), 0))
	vcEnsures("adds each once", vcOnce(out, len(old)))
}

//vc:loop (*Variable).mergeTypesWithVariable 0
func vcl_mergeTypesWithVariable(s *Variable, types TypeComposite, vcI int, c_old []TypeString) {
	vcAdding(s.Type.typeStrings, vcAtHead(func() []TypeString { return s.Type.typeStrings }), c_old, types.typeStrings, vcI, 0)
}
