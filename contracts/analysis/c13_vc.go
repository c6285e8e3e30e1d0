//go:build verif

package analysis

import "strings"

// Specification of the visibility and merging of inherited members (property C13).

//vc:contract IsNameRelative props=C13
func vc_IsNameRelative(name string) {
	r := IsNameRelative(name)
	vcEnsures("relative", r == vcRelative(name))
}

func vcRelative(name string) bool { return name == "static" || name == "self" || name == "$this" }

//vc:contract IsNameParent props=C13
func vc_IsNameParent(name string) {
	r := IsNameParent(name)
	vcEnsures("parent", r == (name == "parent"))
}

// vcRelated: a relates to b.
//
//vc:rec
func vcRelated(relations RelationMap, a, b string) bool {
	return vcHas(relations, a) && vcHas(relations[a], b)
}

//vc:contract (Relations).Relate props=C13
func vc_Relations_Relate(r Relations, otherFQN string) {
	vcRequires(r != nil)
	vcModifies(r)
	old := vcSnapMap(r)
	r.Relate(otherFQN)
	vcEnsures("related", vcForallKey(r, func(k string) bool { return vcHas(r, k) == (vcHas(old, k) || k == otherFQN) }))
}

//vc:contract (Relations).IsRelated props=C13
func vc_Relations_IsRelated(r Relations, otherFQN string) {
	got := r.IsRelated(otherFQN)
	vcEnsures("related", got == vcHas(r, otherFQN))
}

//vc:contract (RelationMap).IsRelated props=C13
func vc_RelationMap_IsRelated(r RelationMap, thisFQN, otherFQN string) {
	got := r.IsRelated(thisFQN, otherFQN)
	vcEnsures("related", got == vcRelated(r, thisFQN, otherFQN))
}

// vcSeparate: the classes have relations of their own.
func vcSeparate(r RelationMap) bool {
	return vcForallKey(r, func(a string) bool {
		return !vcHas(r, a) || r[a] != nil && vcForallKey(r, func(b string) bool { return !vcHas(r, b) || a == b || !vcSameMap(r[a], r[b]) })
	})
}

//vc:contract (RelationMap).Relate props=C13
func vc_RelationMap_Relate(r RelationMap, thisFQN, otherFQN string) {
	vcRequires(r != nil && vcSeparate(r))
	vcModifies(r)
	if vcHas(r, thisFQN) {
		vcModifies(r[thisFQN])
	}
	old, had := vcSnapMap(r), vcHas(r, thisFQN)
	relations := vcSnapMap(r[thisFQN])
	r.Relate(thisFQN, otherFQN)
	vcEnsures("of the class", vcHas(r, thisFQN) && vcForallKey(r[thisFQN], func(k string) bool { return vcHas(r[thisFQN], k) == (vcHas(relations, k) || k == otherFQN) }))
	vcEnsures("of other classes", vcForallKey(r, func(k string) bool { return k == thisFQN || vcHas(r, k) == vcHas(old, k) && vcSameMap(r[k], old[k]) }))
	vcEnsures("relations", !had && vcFresh(r[thisFQN]) || had && vcSameMap(r[thisFQN], old[thisFQN]))
	vcEnsures("separate", vcSeparate(r))
}

func vcNoRelations(r RelationMap) bool {
	return vcForallKey(r, func(k string) bool { return !vcHas(r, k) })
}

// vcApart: no class has its relations in both.
func vcApart(r, other RelationMap) bool {
	return !vcSameMap(r, other) && vcForallKey(r, func(a string) bool {
		return !vcHas(r, a) || vcForallKey(other, func(b string) bool { return !vcHas(other, b) || !vcSameMap(r[a], other[b]) })
	})
}

// vcOwn: the relations in r were there before or are new.
func vcOwn(r RelationMap, old map[string]Relations) bool {
	return vcForallKey(r, func(k string) bool {
		return !vcHas(r, k) || vcHas(old, k) && vcSameMap(r[k], old[k]) || vcFresh(r[k])
	})
}

//vc:contract (RelationMap).Merge props=C13
//vc:hide no relations = separate, own, other, all relations
func vc_RelationMap_Merge(r, other RelationMap, a, b string) {
	vcRequires(r != nil && vcSeparate(r) && vcApart(r, other))
	vcModifies(r)
	vcModifiesValues(r)
	was, more := vcHas(r, a) && vcHas(r[a], b), vcHas(other, a) && vcHas(other[a], b)
	none := vcNoRelations(r) && vcNoRelations(other)
	old := vcSnapMap(r)
	r.Merge(other)
	vcEnsures("no relations", vcImp(none, vcNoRelations(r)))
	vcEnsures("all relations", (vcHas(r, a) && vcHas(r[a], b)) == (was || more))
	vcEnsures("separate", vcSeparate(r))
	vcEnsures("own", vcOwn(r, old))
	vcEnsures("classes", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcHas(old, k) || vcHas(other, k) }))
}

//vc:loop (RelationMap).Merge 0
func vcl_RelationMap_Merge_0(c_r, c_other RelationMap, c_old map[string]Relations, c_a, c_b string, c_was, c_more bool) {
	vcInv("separate", vcSeparate(c_r))
	vcInv("own", vcOwn(c_r, c_old))
	vcInv("classes", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || vcHas(c_old, k) || vcHas(c_other, k) }))
	vcInv("other", (vcHas(c_other, c_a) && vcHas(c_other[c_a], c_b)) == c_more)
	vcInv("all relations", (vcHas(c_r, c_a) && vcHas(c_r[c_a], c_b)) == (c_was || vcVisited(c_other, c_a) && c_more))
}

//vc:loop (RelationMap).Merge 1
func vcl_RelationMap_Merge_1(fqn string, relations Relations, c_r, c_other RelationMap, c_old map[string]Relations, c_a, c_b string, c_was, c_more bool) {
	vcInv("these", vcHas(c_other, fqn) && vcSameMap(relations, c_other[fqn]))
	vcInv("separate", vcSeparate(c_r))
	vcInv("own", vcOwn(c_r, c_old))
	vcInv("classes", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || vcHas(c_old, k) || vcHas(c_other, k) }))
	vcInv("other", (vcHas(c_other, c_a) && vcHas(c_other[c_a], c_b)) == c_more)
	vcInv("all relations", (vcHas(c_r, c_a) && vcHas(c_r[c_a], c_b)) == (c_was ||
		c_a != fqn && vcVisited(c_other, c_a) && c_more || c_a == fqn && vcVisited(relations, c_b) && c_more))
}

// vcTyped and vcTypeRelated: the accessed types from k on include the class, or one it relates to.
//
//vc:rec
func vcTyped(types []TypeString, k int, fqn string) bool {
	return k < len(types) && (types[k].GetFQN() == fqn || vcTyped(types, k+1, fqn))
}

//vc:rec
func vcTypeRelated(types []TypeString, k int, relations RelationMap, fqn string) bool {
	return k < len(types) && (vcRelated(relations, fqn, types[k].GetFQN()) || vcTypeRelated(types, k+1, relations, fqn))
}

// vcStaticRule: a member may be reached with :: from the current class.
//
//vc:rec
func vcStaticRule(currentClass string, access MemberAccess, relations RelationMap, member MemberSymbol) bool {
	declaring, visibility := member.ScopeTypeString().GetFQN(), member.Visibility()
	if access.ScopeName() == "parent" {
		return declaring != currentClass && visibility != Private
	}
	if vcRelative(access.ScopeName()) {
		return declaring == currentClass || visibility != Private
	}
	if visibility == Private {
		return member.IsStatic() && declaring == currentClass
	}
	types := access.ScopeTypes().Resolve()
	return member.IsStatic() && (visibility == Public || vcTyped(types, 0, declaring) || visibility == Protected && vcTypeRelated(types, 0, relations, declaring))
}

// vcObjectRule: a member may be reached with -> from the current class.
//
//vc:rec
func vcObjectRule(currentClass string, access MemberAccess, relations RelationMap, member MemberSymbol) bool {
	declaring, visibility := member.ScopeTypeString().GetFQN(), member.Visibility()
	if access.ScopeName() == "$this" && (declaring == currentClass || visibility != Private) {
		return true
	}
	types := access.ScopeTypes().Resolve()
	return visibility == Public || vcTyped(types, 0, currentClass) || visibility == Protected && vcTypeRelated(types, 0, relations, declaring)
}

//vc:contract IsInheritedStatic props=C13
//vc:opt pureiface=all
func vc_IsInheritedStatic(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) {
	vcRequires(access != nil && member != nil)
	r := IsInheritedStatic(currentClass, access, relationMap, member)
	vcEnsures("rule", r == vcStaticRule(currentClass, access, relationMap, member))
}

//vc:loop IsInheritedStatic 0
func vcl_IsInheritedStatic(isRelated bool, c_access MemberAccess, c_relationMap RelationMap, c_member MemberSymbol, vcI int) {
	types, declaring := c_access.ScopeTypes().Resolve(), c_member.ScopeTypeString().GetFQN()
	vcInv("not the class", vcTyped(types, 0, declaring) == vcTyped(types, vcI, declaring))
	vcInv("related", vcTypeRelated(types, 0, c_relationMap, declaring) == (isRelated || vcTypeRelated(types, vcI, c_relationMap, declaring)))
}

//vc:contract IsInherited props=C13
//vc:opt pureiface=all
func vc_IsInherited(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) {
	vcRequires(access != nil && member != nil)
	r := IsInherited(currentClass, access, relationMap, member)
	vcEnsures("rule", r == vcObjectRule(currentClass, access, relationMap, member))
}

//vc:loop IsInherited 0
func vcl_IsInherited(isRelated bool, c_currentClass string, c_access MemberAccess, c_relationMap RelationMap, c_member MemberSymbol, vcI int) {
	types, declaring := c_access.ScopeTypes().Resolve(), c_member.ScopeTypeString().GetFQN()
	vcInv("not the class", vcTyped(types, 0, c_currentClass) == vcTyped(types, vcI, c_currentClass))
	vcInv("related", vcTypeRelated(types, 0, c_relationMap, declaring) == (isRelated || vcTypeRelated(types, vcI, c_relationMap, declaring)))
}

// vcFirstPublic is the index of the first public one from k on, or the length.
//
//vc:rec
func vcFirstPublic(l []MethodWithScope, k int) int {
	if k >= len(l) || l[k].Method.VisibilityModifier == Public {
		return k
	}
	return vcFirstPublic(l, k+1)
}

//vc:contract (InheritedMethods).ReduceFirst props=C13
func vc_ReduceFirst(m InheritedMethods) {
	vcRequires(vcMethods(m.Methods))
	r := m.ReduceFirst()
	ix := vcFirstPublic(m.Methods, 0)
	if ix >= len(m.Methods) {
		vcEnsures("none", r == MethodWithScope{})
	} else {
		vcEnsures("first public", r == m.Methods[ix])
	}
}

//vc:loop (InheritedMethods).ReduceFirst 0
func vcl_ReduceFirst(c_m InheritedMethods, vcI int) {
	vcInv("not public", vcFirstPublic(c_m.Methods, 0) == vcFirstPublic(c_m.Methods, vcI))
}

// vcMatch and vcScore: the answer of the fuzzy matcher (an external package), left open.
//
//vc:rec
func vcMatch(name, pattern string) bool {
	ok, _ := isMatch(name, []rune(pattern))
	return ok
}

//vc:rec
func vcScore(name, pattern string) int {
	_, score := isMatch(name, []rune(pattern))
	return score
}

//vc:trusted isMatch
func vc_isMatch(str string, pattern []rune) {
	p := string(pattern)
	ok, score := isMatch(str, pattern)
	vcEnsures("match", ok == vcMatch(str, p))
	vcEnsures("score", score == vcScore(str, p))
}

// ---- Method

// vcMethods: the members of a list are not nil.
func vcMethods(l []MethodWithScope) bool {
	return vcForall(0, len(l), func(i int) bool { return l[i].Method != nil })
}

// vcMethodOK: the rule admits the member.
//
//vc:rec
func vcMethodOK(static bool, c string, access MemberAccess, rel RelationMap, m *Method) bool {
	if static {
		return vcStaticRule(c, access, rel, m)
	}
	return vcObjectRule(c, access, rel, m)
}

// vcMethodSeen: one of the first k is admitted and has the name.
//
//vc:rec
func vcMethodSeen(static bool, c string, access MemberAccess, rel RelationMap, l []MethodWithScope, k int, name string) bool {
	return k > 0 && (vcMethodSeen(static, c, access, rel, l, k-1, name) || l[k-1].Method.Name == name && vcMethodOK(static, c, access, rel, l[k-1].Method))
}

// vcMethodPick: the k-th is the first admitted of its name.
func vcMethodPick(static bool, c string, access MemberAccess, rel RelationMap, l []MethodWithScope, k int) bool {
	return vcMethodOK(static, c, access, rel, l[k].Method) && !vcMethodSeen(static, c, access, rel, l, k, l[k].Method.Name)
}

// vcMethodCount is how many of the first k are picked.
//
//vc:rec
func vcMethodCount(static bool, c string, access MemberAccess, rel RelationMap, l []MethodWithScope, k int) int {
	if k <= 0 {
		return 0
	}
	if vcMethodPick(static, c, access, rel, l, k-1) {
		return vcMethodCount(static, c, access, rel, l, k-1) + 1
	}
	return vcMethodCount(static, c, access, rel, l, k-1)
}

// vcMethodReduced: r has the picked of the first n, in order.
func vcMethodReduced(static bool, c string, access MemberAccess, rel RelationMap, l, r []MethodWithScope, n int) bool {
	return len(r) == vcMethodCount(static, c, access, rel, l, n) && vcForall(0, n, func(i int) bool {
		k := vcMethodCount(static, c, access, rel, l, i)
		return vcImp(vcMethodPick(static, c, access, rel, l, i), 0 <= k && k < len(r) && vcMethodEntry(static, l[i], r[k]))
	})
}

// vcMethodEntry: the entry is kept; one reached through an object although static costs.
func vcMethodEntry(static bool, a, r MethodWithScope) bool {
	if !static && vcMethodCosts(a.Method) {
		return r.Method == a.Method && r.Scope == a.Scope && r.Score == a.Score-staticInAccessCost
	}
	return r == a
}

//vc:contract (InheritedMethods).ReduceStatic props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_InheritedMethods_ReduceStatic(m InheritedMethods, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vcMethods(m.Methods))
	r := m.ReduceStatic(currentClass, access)
	vcEnsures("first visible of each name", vcMethodReduced(true, currentClass, access, m.RelationMap, m.Methods, r, len(m.Methods)))
}

//vc:loop (InheritedMethods).ReduceStatic 0
func vcl_InheritedMethods_ReduceStatic(c_m InheritedMethods, c_currentClass string, c_access MemberAccess, results []MethodWithScope, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vcMethodSeen(true, c_currentClass, c_access, c_m.RelationMap, c_m.Methods, vcI, n)
	}))
	vcInv("first visible of each name", vcMethodReduced(true, c_currentClass, c_access, c_m.RelationMap, c_m.Methods, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (InheritedMethods).ReduceAccess props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_InheritedMethods_ReduceAccess(m InheritedMethods, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vcMethods(m.Methods))
	r := m.ReduceAccess(currentClass, access)
	vcEnsures("first visible of each name", vcMethodReduced(false, currentClass, access, m.RelationMap, m.Methods, r, len(m.Methods)))
}

//vc:loop (InheritedMethods).ReduceAccess 0
func vcl_InheritedMethods_ReduceAccess(c_m InheritedMethods, c_currentClass string, c_access MemberAccess, results []MethodWithScope, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vcMethodSeen(false, c_currentClass, c_access, c_m.RelationMap, c_m.Methods, vcI, n)
	}))
	vcInv("first visible of each name", vcMethodReduced(false, c_currentClass, c_access, c_m.RelationMap, c_m.Methods, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

// vcMethodKey identifies a member by its scope and name.
//
//vc:rec
func vcMethodKey(m MethodWithScope) string {
	if s, ok := m.Scope.(serialisable); ok {
		return s.GetKey() + "::" + m.Method.Name
	}
	return m.Method.Name
}

// vcMethodKeyIn: one of the first j members of the list has the key; vcMethodKeyBefore: one of the first i lists has it.
//
//vc:rec
func vcMethodKeyIn(l []MethodWithScope, j int, key string) bool {
	return j > 0 && (vcMethodKeyIn(l, j-1, key) || vcMethodKey(l[j-1]) == key)
}

//vc:rec
func vcMethodKeyBefore(l [][]MethodWithScope, i int, key string) bool {
	return i > 0 && (vcMethodKeyBefore(l, i-1, key) || vcMethodKeyIn(l[i-1], len(l[i-1]), key))
}

func vcMethodKeySeen(l [][]MethodWithScope, i, j int, key string) bool {
	return vcMethodKeyBefore(l, i, key) || j > 0 && vcMethodKeyIn(l[i], j, key)
}

// vcMethodKeyCount is how many distinct keys there are in the first i lists and the first j of the next.
//
//vc:rec
func vcMethodKeyCount(l [][]MethodWithScope, i, j int) int {
	if j > 0 {
		if vcMethodKeySeen(l, i, j-1, vcMethodKey(l[i][j-1])) {
			return vcMethodKeyCount(l, i, j-1)
		}
		return vcMethodKeyCount(l, i, j-1) + 1
	}
	if i > 0 {
		return vcMethodKeyCount(l, i-1, len(l[i-1]))
	}
	return 0
}

// vcMethodKept: r has the first member of each key of the n-th list.
func vcMethodKept(l [][]MethodWithScope, r []MethodWithScope, i, n int) bool {
	return vcForall(0, n, func(j int) bool {
		k := vcMethodKeyCount(l, i, j)
		return vcMethodKeySeen(l, i, j, vcMethodKey(l[i][j])) || 0 <= k && k < len(r) && r[k] == l[i][j]
	})
}

//vc:contract MergeMethodWithScope props=C13
//vc:hide frame = keys, every distinct member, in order, in order within
//vc:hide safe = keys, every distinct member, in order, in order within
//vc:hide fresh = keys, every distinct member, in order, in order within
//vc:hide keys = every distinct member, in order, in order within
//vc:hide every distinct member = in order, in order within
//vc:hide in order within = in order
//vc:opt pureiface=all
func vc_MergeMethodWithScope(items [][]MethodWithScope) {
	vcRequires(vcForall(0, len(items), func(i int) bool { return vcMethods(items[i]) }))
	r := MergeMethodWithScope(items...)
	vcEnsures("every distinct member", len(r) == vcMethodKeyCount(items, len(items), 0))
	vcEnsures("in order", vcForall(0, len(items), func(i int) bool { return vcMethodKept(items, r, i, len(items[i])) }))
}

//vc:loop MergeMethodWithScope 0
func vcl_MergeMethodWithScope_0(c_items [][]MethodWithScope, results []MethodWithScope, duplicated map[string]struct{}, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vcMethodKeySeen(c_items, vcI, 0, n) }))
	vcInv("every distinct member", len(results) == vcMethodKeyCount(c_items, vcI, 0))
	vcInv("in order", vcForall(0, vcI, func(i int) bool { return vcMethodKept(c_items, results, i, len(c_items[i])) }))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:loop MergeMethodWithScope 1
func vcl_MergeMethodWithScope_1(c_items [][]MethodWithScope, results []MethodWithScope, duplicated map[string]struct{}, vcI_1, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vcMethodKeySeen(c_items, vcI_1, vcI, n) }))
	vcInv("every distinct member", len(results) == vcMethodKeyCount(c_items, vcI_1, vcI))
	vcInv("in order", vcForall(0, vcI_1, func(i int) bool { return vcMethodKept(c_items, results, i, len(c_items[i])) }))
	vcInv("in order within", vcMethodKept(c_items, results, vcI_1, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*InheritedMethods).Merge props=C13
func vc_InheritedMethods_Merge(m *InheritedMethods, other InheritedMethods) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil && vcNoRelations(m.RelationMap) && vcNoRelations(other.RelationMap) && !vcSameMap(m.RelationMap, other.RelationMap))
	vcRequires(vcDisjoint(m.Methods, other.Methods))
	vcModifies(&m.Methods, m.Methods, m.SearchedFQNs, m.RelationMap)
	was, a, b := m.Methods, vcSnap(m.Methods), vcSnap(other.Methods)
	old, more := vcSnapMap(m.SearchedFQNs), vcSnapMap(other.SearchedFQNs)
	m.Merge(other)
	vcEnsures("all members", len(m.Methods) == len(a)+len(b))
	vcEnsures("first its own", vcForall(0, len(a), func(i int) bool { return m.Methods[i] == a[i] }))
	vcEnsures("then the others", vcForall(0, len(b), func(i int) bool { return m.Methods[len(a)+i] == b[i] }))
	vcEnsures("names", vcForallKey(m.SearchedFQNs, func(k string) bool { return vcHas(m.SearchedFQNs, k) == (vcHas(old, k) || vcHas(more, k)) }))
	vcEnsures("no relations", vcNoRelations(m.RelationMap))
	vcEnsures("grown", vcGrown(m.Methods, was))
}

//vc:loop (*InheritedMethods).Merge 0
func vcl_InheritedMethods_Merge(c_m *InheritedMethods, c_other InheritedMethods, c_old, c_more map[string]struct{}) {
	vcInv("names", vcForallKey(c_m.SearchedFQNs, func(k string) bool {
		return vcHas(c_m.SearchedFQNs, k) == (vcHas(c_old, k) || vcVisited(c_other.SearchedFQNs, k) && vcHas(c_more, k))
	}))
}

//vc:contract methodWithScopeFromMethods props=C13
func vc_methodWithScopeFromMethods(scope Symbol, l []*Method) {
	r := methodWithScopeFromMethods(scope, l)
	vcEnsures("each", len(r) == len(l) && vcForall(0, len(l), func(i int) bool { return r[i].Method == l[i] && r[i].Scope == scope && r[i].Score == 0 }))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop methodWithScopeFromMethods 0
func vcl_methodWithScopeFromMethods(c_scope Symbol, c_l []*Method, results []MethodWithScope, vcI int) {
	vcInv("each", len(results) == vcI && vcForall(0, vcI, func(i int) bool {
		return results[i].Method == c_l[i] && results[i].Scope == c_scope && results[i].Score == 0
	}))
	vcInv("fresh", vcFreshSlice(results))
}

func vcMethodCosts(m *Method) bool { return m.isStatic }

// vcMethodMatches is how many of the first k match.
//
//vc:rec
func vcMethodMatches(l []MethodWithScope, k int, p string) int {
	if k <= 0 {
		return 0
	}
	if vcMatch(l[k-1].Method.Name, p) {
		return vcMethodMatches(l, k-1, p) + 1
	}
	return vcMethodMatches(l, k-1, p)
}

// vcMethodFound: r has the matching of the first n, in order, with their scores.
func vcMethodFound(l, r []MethodWithScope, n int, p string) bool {
	return len(r) == vcMethodMatches(l, n, p) && vcForall(0, n, func(i int) bool {
		k := vcMethodMatches(l, i, p)
		return vcImp(vcMatch(l[i].Method.Name, p), 0 <= k && k < len(r) && r[k].Method == l[i].Method && r[k].Scope == l[i].Scope && r[k].Score == vcScore(l[i].Method.Name, p))
	})
}

//vc:trusted (*Query).GetClassMethods
func vc_GetClassMethods(q *Query, c *Class, name string, searchedFQNs map[string]struct{}) {
	vcModifies(q.cache, searchedFQNs)
	r := q.GetClassMethods(c, name, searchedFQNs)
	vcEnsures("members", vcMethods(r.Methods))
}

//vc:contract (*Query).SearchClassMethods props=C13
//vc:opt opaque=vcMatch+vcScore
func vc_SearchClassMethods(q *Query, c *Class, keyword string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil)
	vcModifies(q.cache, searchedFQNs)
	pattern := string([]rune(strings.ToLower(keyword)))
	r := q.SearchClassMethods(c, keyword, searchedFQNs)
	vcEnsures("only what matches", keyword == "" || vcForall(0, len(r.Methods), func(i int) bool {
		return vcMatch(r.Methods[i].Method.Name, pattern) && r.Methods[i].Score == vcScore(r.Methods[i].Method.Name, pattern)
	}))
	vcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.Methods))
}

//vc:loop (*Query).SearchClassMethods 0
func vcl_SearchClassMethods(methods InheritedMethods, newMethods []MethodWithScope, c_pattern string, vcI int) {
	vcInv("members", vcMethods(methods.Methods))
	vcInv("matching", vcMethodFound(methods.Methods, newMethods, vcI, c_pattern))
	vcInv("only what matches", vcForall(0, len(newMethods), func(i int) bool {
		return newMethods[i].Method != nil && vcMatch(newMethods[i].Method.Name, c_pattern) && newMethods[i].Score == vcScore(newMethods[i].Method.Name, c_pattern)
	}))
	vcInv("fresh", vcFreshSlice(newMethods))
}

//vc:trusted (*Query).GetInterfaceMethods
func vc_GetInterfaceMethods(q *Query, c *Interface, name string, searchedFQNs map[string]struct{}) {
	vcModifies(q.cache, searchedFQNs)
	r := q.GetInterfaceMethods(c, name, searchedFQNs)
	vcEnsures("members", vcMethods(r.Methods))
}

//vc:contract (*Query).SearchInterfaceMethods props=C13
//vc:opt opaque=vcMatch+vcScore
func vc_SearchInterfaceMethods(q *Query, c *Interface, keyword string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil)
	vcModifies(q.cache, searchedFQNs)
	pattern := string([]rune(strings.ToLower(keyword)))
	r := q.SearchInterfaceMethods(c, keyword, searchedFQNs)
	vcEnsures("only what matches", keyword == "" || vcForall(0, len(r.Methods), func(i int) bool {
		return vcMatch(r.Methods[i].Method.Name, pattern) && r.Methods[i].Score == vcScore(r.Methods[i].Method.Name, pattern)
	}))
	vcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.Methods))
}

//vc:loop (*Query).SearchInterfaceMethods 0
func vcl_SearchInterfaceMethods(methods InheritedMethods, newMethods []MethodWithScope, c_pattern string, vcI int) {
	vcInv("members", vcMethods(methods.Methods))
	vcInv("matching", vcMethodFound(methods.Methods, newMethods, vcI, c_pattern))
	vcInv("only what matches", vcForall(0, len(newMethods), func(i int) bool {
		return newMethods[i].Method != nil && vcMatch(newMethods[i].Method.Name, c_pattern) && newMethods[i].Score == vcScore(newMethods[i].Method.Name, c_pattern)
	}))
	vcInv("fresh", vcFreshSlice(newMethods))
}

// ---- Const

// vcConsts: the members of a list are not nil.
func vcConsts(l []ClassConstWithScope) bool {
	return vcForall(0, len(l), func(i int) bool { return l[i].Const != nil })
}

// vcConstOK: the rule admits the member.
//
//vc:rec
func vcConstOK(static bool, c string, access MemberAccess, rel RelationMap, m *ClassConst) bool {
	if static {
		return vcStaticRule(c, access, rel, m)
	}
	return vcObjectRule(c, access, rel, m)
}

// vcConstSeen: one of the first k is admitted and has the name.
//
//vc:rec
func vcConstSeen(static bool, c string, access MemberAccess, rel RelationMap, l []ClassConstWithScope, k int, name string) bool {
	return k > 0 && (vcConstSeen(static, c, access, rel, l, k-1, name) || l[k-1].Const.Name == name && vcConstOK(static, c, access, rel, l[k-1].Const))
}

// vcConstPick: the k-th is the first admitted of its name.
func vcConstPick(static bool, c string, access MemberAccess, rel RelationMap, l []ClassConstWithScope, k int) bool {
	return vcConstOK(static, c, access, rel, l[k].Const) && !vcConstSeen(static, c, access, rel, l, k, l[k].Const.Name)
}

// vcConstCount is how many of the first k are picked.
//
//vc:rec
func vcConstCount(static bool, c string, access MemberAccess, rel RelationMap, l []ClassConstWithScope, k int) int {
	if k <= 0 {
		return 0
	}
	if vcConstPick(static, c, access, rel, l, k-1) {
		return vcConstCount(static, c, access, rel, l, k-1) + 1
	}
	return vcConstCount(static, c, access, rel, l, k-1)
}

// vcConstReduced: r has the picked of the first n, in order.
func vcConstReduced(static bool, c string, access MemberAccess, rel RelationMap, l, r []ClassConstWithScope, n int) bool {
	return len(r) == vcConstCount(static, c, access, rel, l, n) && vcForall(0, n, func(i int) bool {
		k := vcConstCount(static, c, access, rel, l, i)
		return vcImp(vcConstPick(static, c, access, rel, l, i), 0 <= k && k < len(r) && vcConstEntry(static, l[i], r[k]))
	})
}

// vcConstEntry: the entry is kept; one reached through an object although static costs.
func vcConstEntry(static bool, a, r ClassConstWithScope) bool {
	if !static && vcConstCosts(a.Const) {
		return r.Const == a.Const && r.Scope == a.Scope && r.Score == a.Score-staticInAccessCost
	}
	return r == a
}

//vc:contract (InheritedClassConst).ReduceStatic props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_InheritedClassConst_ReduceStatic(m InheritedClassConst, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vcConsts(m.Consts))
	r := m.ReduceStatic(currentClass, access)
	vcEnsures("first visible of each name", vcConstReduced(true, currentClass, access, m.RelationMap, m.Consts, r, len(m.Consts)))
}

//vc:loop (InheritedClassConst).ReduceStatic 0
func vcl_InheritedClassConst_ReduceStatic(c_m InheritedClassConst, c_currentClass string, c_access MemberAccess, results []ClassConstWithScope, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vcConstSeen(true, c_currentClass, c_access, c_m.RelationMap, c_m.Consts, vcI, n)
	}))
	vcInv("first visible of each name", vcConstReduced(true, c_currentClass, c_access, c_m.RelationMap, c_m.Consts, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

// vcConstKey identifies a member by its scope and name.
//
//vc:rec
func vcConstKey(m ClassConstWithScope) string {
	if s, ok := m.Scope.(serialisable); ok {
		return s.GetKey() + "::" + m.Const.Name
	}
	return m.Const.Name
}

// vcConstKeyIn: one of the first j members of the list has the key; vcConstKeyBefore: one of the first i lists has it.
//
//vc:rec
func vcConstKeyIn(l []ClassConstWithScope, j int, key string) bool {
	return j > 0 && (vcConstKeyIn(l, j-1, key) || vcConstKey(l[j-1]) == key)
}

//vc:rec
func vcConstKeyBefore(l [][]ClassConstWithScope, i int, key string) bool {
	return i > 0 && (vcConstKeyBefore(l, i-1, key) || vcConstKeyIn(l[i-1], len(l[i-1]), key))
}

func vcConstKeySeen(l [][]ClassConstWithScope, i, j int, key string) bool {
	return vcConstKeyBefore(l, i, key) || j > 0 && vcConstKeyIn(l[i], j, key)
}

// vcConstKeyCount is how many distinct keys there are in the first i lists and the first j of the next.
//
//vc:rec
func vcConstKeyCount(l [][]ClassConstWithScope, i, j int) int {
	if j > 0 {
		if vcConstKeySeen(l, i, j-1, vcConstKey(l[i][j-1])) {
			return vcConstKeyCount(l, i, j-1)
		}
		return vcConstKeyCount(l, i, j-1) + 1
	}
	if i > 0 {
		return vcConstKeyCount(l, i-1, len(l[i-1]))
	}
	return 0
}

// vcConstKept: r has the first member of each key of the n-th list.
func vcConstKept(l [][]ClassConstWithScope, r []ClassConstWithScope, i, n int) bool {
	return vcForall(0, n, func(j int) bool {
		k := vcConstKeyCount(l, i, j)
		return vcConstKeySeen(l, i, j, vcConstKey(l[i][j])) || 0 <= k && k < len(r) && r[k] == l[i][j]
	})
}

//vc:contract MergeClassConstWithScope props=C13
//vc:hide frame = keys, every distinct member, in order, in order within
//vc:hide safe = keys, every distinct member, in order, in order within
//vc:hide fresh = keys, every distinct member, in order, in order within
//vc:hide keys = every distinct member, in order, in order within
//vc:hide every distinct member = in order, in order within
//vc:hide in order within = in order
//vc:opt pureiface=all
func vc_MergeClassConstWithScope(items [][]ClassConstWithScope) {
	vcRequires(vcForall(0, len(items), func(i int) bool { return vcConsts(items[i]) }))
	r := MergeClassConstWithScope(items...)
	vcEnsures("every distinct member", len(r) == vcConstKeyCount(items, len(items), 0))
	vcEnsures("in order", vcForall(0, len(items), func(i int) bool { return vcConstKept(items, r, i, len(items[i])) }))
}

//vc:loop MergeClassConstWithScope 0
func vcl_MergeClassConstWithScope_0(c_items [][]ClassConstWithScope, results []ClassConstWithScope, duplicated map[string]struct{}, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vcConstKeySeen(c_items, vcI, 0, n) }))
	vcInv("every distinct member", len(results) == vcConstKeyCount(c_items, vcI, 0))
	vcInv("in order", vcForall(0, vcI, func(i int) bool { return vcConstKept(c_items, results, i, len(c_items[i])) }))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:loop MergeClassConstWithScope 1
func vcl_MergeClassConstWithScope_1(c_items [][]ClassConstWithScope, results []ClassConstWithScope, duplicated map[string]struct{}, vcI_1, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vcConstKeySeen(c_items, vcI_1, vcI, n) }))
	vcInv("every distinct member", len(results) == vcConstKeyCount(c_items, vcI_1, vcI))
	vcInv("in order", vcForall(0, vcI_1, func(i int) bool { return vcConstKept(c_items, results, i, len(c_items[i])) }))
	vcInv("in order within", vcConstKept(c_items, results, vcI_1, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract classConstWithScopeFromConsts props=C13
func vc_classConstWithScopeFromConsts(scope Symbol, l []*ClassConst) {
	r := classConstWithScopeFromConsts(scope, l)
	vcEnsures("each", len(r) == len(l) && vcForall(0, len(l), func(i int) bool { return r[i].Const == l[i] && r[i].Scope == scope && r[i].Score == 0 }))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop classConstWithScopeFromConsts 0
func vcl_classConstWithScopeFromConsts(c_scope Symbol, c_l []*ClassConst, results []ClassConstWithScope, vcI int) {
	vcInv("each", len(results) == vcI && vcForall(0, vcI, func(i int) bool {
		return results[i].Const == c_l[i] && results[i].Scope == c_scope && results[i].Score == 0
	}))
	vcInv("fresh", vcFreshSlice(results))
}

func vcConstCosts(m *ClassConst) bool { return false }

// vcConstMatches is how many of the first k match.
//
//vc:rec
func vcConstMatches(l []ClassConstWithScope, k int, p string) int {
	if k <= 0 {
		return 0
	}
	if vcMatch(l[k-1].Const.Name, p) {
		return vcConstMatches(l, k-1, p) + 1
	}
	return vcConstMatches(l, k-1, p)
}

// vcConstFound: r has the matching of the first n, in order, with their scores.
func vcConstFound(l, r []ClassConstWithScope, n int, p string) bool {
	return len(r) == vcConstMatches(l, n, p) && vcForall(0, n, func(i int) bool {
		k := vcConstMatches(l, i, p)
		return vcImp(vcMatch(l[i].Const.Name, p), 0 <= k && k < len(r) && r[k].Const == l[i].Const && r[k].Scope == l[i].Scope && r[k].Score == vcScore(l[i].Const.Name, p))
	})
}

//vc:trusted (*Query).GetClassClassConsts
func vc_GetClassClassConsts(q *Query, c *Class, name string, searchedFQNs map[string]struct{}) {
	vcModifies(q.cache, searchedFQNs)
	r := q.GetClassClassConsts(c, name, searchedFQNs)
	vcEnsures("members", vcConsts(r.Consts))
}

//vc:contract (*Query).SearchClassClassConsts props=C13
//vc:opt opaque=vcMatch+vcScore
func vc_SearchClassClassConsts(q *Query, c *Class, keyword string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil)
	vcModifies(q.cache, searchedFQNs)
	pattern := string([]rune(strings.ToLower(keyword)))
	r := q.SearchClassClassConsts(c, keyword, searchedFQNs)
	vcEnsures("only what matches", keyword == "" || vcForall(0, len(r.Consts), func(i int) bool {
		return vcMatch(r.Consts[i].Const.Name, pattern) && r.Consts[i].Score == vcScore(r.Consts[i].Const.Name, pattern)
	}))
	vcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.Consts))
}

//vc:loop (*Query).SearchClassClassConsts 0
func vcl_SearchClassClassConsts(classConsts InheritedClassConst, newMethods []ClassConstWithScope, c_pattern string, vcI int) {
	vcInv("members", vcConsts(classConsts.Consts))
	vcInv("matching", vcConstFound(classConsts.Consts, newMethods, vcI, c_pattern))
	vcInv("only what matches", vcForall(0, len(newMethods), func(i int) bool {
		return newMethods[i].Const != nil && vcMatch(newMethods[i].Const.Name, c_pattern) && newMethods[i].Score == vcScore(newMethods[i].Const.Name, c_pattern)
	}))
	vcInv("fresh", vcFreshSlice(newMethods))
}

//vc:trusted (*Query).GetInterfaceClassConsts
func vc_GetInterfaceClassConsts(q *Query, c *Interface, name string, searchedFQNs map[string]struct{}) {
	vcModifies(q.cache, searchedFQNs)
	r := q.GetInterfaceClassConsts(c, name, searchedFQNs)
	vcEnsures("members", vcConsts(r.Consts))
}

//vc:contract (*Query).SearchInterfaceClassConsts props=C13
//vc:opt opaque=vcMatch+vcScore
func vc_SearchInterfaceClassConsts(q *Query, c *Interface, keyword string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil)
	vcModifies(q.cache, searchedFQNs)
	pattern := string([]rune(strings.ToLower(keyword)))
	r := q.SearchInterfaceClassConsts(c, keyword, searchedFQNs)
	vcEnsures("only what matches", keyword == "" || vcForall(0, len(r.Consts), func(i int) bool {
		return vcMatch(r.Consts[i].Const.Name, pattern) && r.Consts[i].Score == vcScore(r.Consts[i].Const.Name, pattern)
	}))
	vcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.Consts))
}

//vc:loop (*Query).SearchInterfaceClassConsts 0
func vcl_SearchInterfaceClassConsts(classConsts InheritedClassConst, newMethods []ClassConstWithScope, c_pattern string, vcI int) {
	vcInv("members", vcConsts(classConsts.Consts))
	vcInv("matching", vcConstFound(classConsts.Consts, newMethods, vcI, c_pattern))
	vcInv("only what matches", vcForall(0, len(newMethods), func(i int) bool {
		return newMethods[i].Const != nil && vcMatch(newMethods[i].Const.Name, c_pattern) && newMethods[i].Score == vcScore(newMethods[i].Const.Name, c_pattern)
	}))
	vcInv("fresh", vcFreshSlice(newMethods))
}

// ---- Prop

// vcProps: the members of a list are not nil.
func vcProps(l []PropWithScope) bool {
	return vcForall(0, len(l), func(i int) bool { return l[i].Prop != nil })
}

// vcPropOK: the rule admits the member.
//
//vc:rec
func vcPropOK(static bool, c string, access MemberAccess, rel RelationMap, m *Property) bool {
	if static {
		return vcStaticRule(c, access, rel, m)
	}
	return vcObjectRule(c, access, rel, m)
}

// vcPropSeen: one of the first k is admitted and has the name.
//
//vc:rec
func vcPropSeen(static bool, c string, access MemberAccess, rel RelationMap, l []PropWithScope, k int, name string) bool {
	return k > 0 && (vcPropSeen(static, c, access, rel, l, k-1, name) || l[k-1].Prop.Name == name && vcPropOK(static, c, access, rel, l[k-1].Prop))
}

// vcPropPick: the k-th is the first admitted of its name.
func vcPropPick(static bool, c string, access MemberAccess, rel RelationMap, l []PropWithScope, k int) bool {
	return vcPropOK(static, c, access, rel, l[k].Prop) && !vcPropSeen(static, c, access, rel, l, k, l[k].Prop.Name)
}

// vcPropCount is how many of the first k are picked.
//
//vc:rec
func vcPropCount(static bool, c string, access MemberAccess, rel RelationMap, l []PropWithScope, k int) int {
	if k <= 0 {
		return 0
	}
	if vcPropPick(static, c, access, rel, l, k-1) {
		return vcPropCount(static, c, access, rel, l, k-1) + 1
	}
	return vcPropCount(static, c, access, rel, l, k-1)
}

// vcPropReduced: r has the picked of the first n, in order.
func vcPropReduced(static bool, c string, access MemberAccess, rel RelationMap, l, r []PropWithScope, n int) bool {
	return len(r) == vcPropCount(static, c, access, rel, l, n) && vcForall(0, n, func(i int) bool {
		k := vcPropCount(static, c, access, rel, l, i)
		return vcImp(vcPropPick(static, c, access, rel, l, i), 0 <= k && k < len(r) && vcPropEntry(static, l[i], r[k]))
	})
}

// vcPropEntry: the entry is kept; one reached through an object although static costs.
func vcPropEntry(static bool, a, r PropWithScope) bool {
	if !static && vcPropCosts(a.Prop) {
		return r.Prop == a.Prop && r.Scope == a.Scope && r.Score == a.Score-staticInAccessCost
	}
	return r == a
}

//vc:contract (InheritedProps).ReduceStatic props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_InheritedProps_ReduceStatic(m InheritedProps, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vcProps(m.Props))
	r := m.ReduceStatic(currentClass, access)
	vcEnsures("first visible of each name", vcPropReduced(true, currentClass, access, m.RelationMap, m.Props, r, len(m.Props)))
}

//vc:loop (InheritedProps).ReduceStatic 0
func vcl_InheritedProps_ReduceStatic(c_m InheritedProps, c_currentClass string, c_access MemberAccess, results []PropWithScope, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vcPropSeen(true, c_currentClass, c_access, c_m.RelationMap, c_m.Props, vcI, n)
	}))
	vcInv("first visible of each name", vcPropReduced(true, c_currentClass, c_access, c_m.RelationMap, c_m.Props, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (InheritedProps).ReduceAccess props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_InheritedProps_ReduceAccess(m InheritedProps, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vcProps(m.Props))
	r := m.ReduceAccess(currentClass, access)
	vcEnsures("first visible of each name", vcPropReduced(false, currentClass, access, m.RelationMap, m.Props, r, len(m.Props)))
}

//vc:loop (InheritedProps).ReduceAccess 0
func vcl_InheritedProps_ReduceAccess(c_m InheritedProps, c_currentClass string, c_access MemberAccess, results []PropWithScope, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vcPropSeen(false, c_currentClass, c_access, c_m.RelationMap, c_m.Props, vcI, n)
	}))
	vcInv("first visible of each name", vcPropReduced(false, c_currentClass, c_access, c_m.RelationMap, c_m.Props, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

// vcPropKey identifies a member by its scope and name.
//
//vc:rec
func vcPropKey(m PropWithScope) string {
	if s, ok := m.Scope.(serialisable); ok {
		return s.GetKey() + "::" + m.Prop.Name
	}
	return m.Prop.Name
}

// vcPropKeyIn: one of the first j members of the list has the key; vcPropKeyBefore: one of the first i lists has it.
//
//vc:rec
func vcPropKeyIn(l []PropWithScope, j int, key string) bool {
	return j > 0 && (vcPropKeyIn(l, j-1, key) || vcPropKey(l[j-1]) == key)
}

//vc:rec
func vcPropKeyBefore(l [][]PropWithScope, i int, key string) bool {
	return i > 0 && (vcPropKeyBefore(l, i-1, key) || vcPropKeyIn(l[i-1], len(l[i-1]), key))
}

func vcPropKeySeen(l [][]PropWithScope, i, j int, key string) bool {
	return vcPropKeyBefore(l, i, key) || j > 0 && vcPropKeyIn(l[i], j, key)
}

// vcPropKeyCount is how many distinct keys there are in the first i lists and the first j of the next.
//
//vc:rec
func vcPropKeyCount(l [][]PropWithScope, i, j int) int {
	if j > 0 {
		if vcPropKeySeen(l, i, j-1, vcPropKey(l[i][j-1])) {
			return vcPropKeyCount(l, i, j-1)
		}
		return vcPropKeyCount(l, i, j-1) + 1
	}
	if i > 0 {
		return vcPropKeyCount(l, i-1, len(l[i-1]))
	}
	return 0
}

// vcPropKept: r has the first member of each key of the n-th list.
func vcPropKept(l [][]PropWithScope, r []PropWithScope, i, n int) bool {
	return vcForall(0, n, func(j int) bool {
		k := vcPropKeyCount(l, i, j)
		return vcPropKeySeen(l, i, j, vcPropKey(l[i][j])) || 0 <= k && k < len(r) && r[k] == l[i][j]
	})
}

//vc:contract MergePropWithScope props=C13
//vc:hide frame = keys, every distinct member, in order, in order within
//vc:hide safe = keys, every distinct member, in order, in order within
//vc:hide fresh = keys, every distinct member, in order, in order within
//vc:hide keys = every distinct member, in order, in order within
//vc:hide every distinct member = in order, in order within
//vc:hide in order within = in order
//vc:opt pureiface=all
func vc_MergePropWithScope(items [][]PropWithScope) {
	vcRequires(vcForall(0, len(items), func(i int) bool { return vcProps(items[i]) }))
	r := MergePropWithScope(items...)
	vcEnsures("every distinct member", len(r) == vcPropKeyCount(items, len(items), 0))
	vcEnsures("in order", vcForall(0, len(items), func(i int) bool { return vcPropKept(items, r, i, len(items[i])) }))
}

//vc:loop MergePropWithScope 0
func vcl_MergePropWithScope_0(c_items [][]PropWithScope, results []PropWithScope, duplicated map[string]struct{}, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vcPropKeySeen(c_items, vcI, 0, n) }))
	vcInv("every distinct member", len(results) == vcPropKeyCount(c_items, vcI, 0))
	vcInv("in order", vcForall(0, vcI, func(i int) bool { return vcPropKept(c_items, results, i, len(c_items[i])) }))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:loop MergePropWithScope 1
func vcl_MergePropWithScope_1(c_items [][]PropWithScope, results []PropWithScope, duplicated map[string]struct{}, vcI_1, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vcPropKeySeen(c_items, vcI_1, vcI, n) }))
	vcInv("every distinct member", len(results) == vcPropKeyCount(c_items, vcI_1, vcI))
	vcInv("in order", vcForall(0, vcI_1, func(i int) bool { return vcPropKept(c_items, results, i, len(c_items[i])) }))
	vcInv("in order within", vcPropKept(c_items, results, vcI_1, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*InheritedProps).Merge props=C13
func vc_InheritedProps_Merge(m *InheritedProps, other InheritedProps) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil && vcNoRelations(m.RelationMap) && vcNoRelations(other.RelationMap) && !vcSameMap(m.RelationMap, other.RelationMap))
	vcRequires(vcDisjoint(m.Props, other.Props))
	vcModifies(&m.Props, m.Props, m.SearchedFQNs, m.RelationMap)
	was, a, b := m.Props, vcSnap(m.Props), vcSnap(other.Props)
	old, more := vcSnapMap(m.SearchedFQNs), vcSnapMap(other.SearchedFQNs)
	m.Merge(other)
	vcEnsures("all members", len(m.Props) == len(a)+len(b))
	vcEnsures("first its own", vcForall(0, len(a), func(i int) bool { return m.Props[i] == a[i] }))
	vcEnsures("then the others", vcForall(0, len(b), func(i int) bool { return m.Props[len(a)+i] == b[i] }))
	vcEnsures("names", vcForallKey(m.SearchedFQNs, func(k string) bool { return vcHas(m.SearchedFQNs, k) == (vcHas(old, k) || vcHas(more, k)) }))
	vcEnsures("no relations", vcNoRelations(m.RelationMap))
	vcEnsures("grown", vcGrown(m.Props, was))
}

//vc:loop (*InheritedProps).Merge 0
func vcl_InheritedProps_Merge(c_m *InheritedProps, c_other InheritedProps, c_old, c_more map[string]struct{}) {
	vcInv("names", vcForallKey(c_m.SearchedFQNs, func(k string) bool {
		return vcHas(c_m.SearchedFQNs, k) == (vcHas(c_old, k) || vcVisited(c_other.SearchedFQNs, k) && vcHas(c_more, k))
	}))
}

//vc:contract propWithScopeFromProps props=C13
func vc_propWithScopeFromProps(scope Symbol, l []*Property) {
	r := propWithScopeFromProps(scope, l)
	vcEnsures("each", len(r) == len(l) && vcForall(0, len(l), func(i int) bool { return r[i].Prop == l[i] && r[i].Scope == scope && r[i].Score == 0 }))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop propWithScopeFromProps 0
func vcl_propWithScopeFromProps(c_scope Symbol, c_l []*Property, results []PropWithScope, vcI int) {
	vcInv("each", len(results) == vcI && vcForall(0, vcI, func(i int) bool {
		return results[i].Prop == c_l[i] && results[i].Scope == c_scope && results[i].Score == 0
	}))
	vcInv("fresh", vcFreshSlice(results))
}

func vcPropCosts(m *Property) bool { return m.isStatic }

// vcPropMatches is how many of the first k match.
//
//vc:rec
func vcPropMatches(l []PropWithScope, k int, p string) int {
	if k <= 0 {
		return 0
	}
	if vcMatch(l[k-1].Prop.Name, p) {
		return vcPropMatches(l, k-1, p) + 1
	}
	return vcPropMatches(l, k-1, p)
}

// vcPropFound: r has the matching of the first n, in order, with their scores.
func vcPropFound(l, r []PropWithScope, n int, p string) bool {
	return len(r) == vcPropMatches(l, n, p) && vcForall(0, n, func(i int) bool {
		k := vcPropMatches(l, i, p)
		return vcImp(vcMatch(l[i].Prop.Name, p), 0 <= k && k < len(r) && r[k].Prop == l[i].Prop && r[k].Scope == l[i].Scope && r[k].Score == vcScore(l[i].Prop.Name, p))
	})
}

//vc:trusted (*Query).GetClassProps
func vc_GetClassProps(q *Query, c *Class, name string, searchedFQNs map[string]struct{}) {
	vcModifies(q.cache, searchedFQNs)
	r := q.GetClassProps(c, name, searchedFQNs)
	vcEnsures("members", vcProps(r.Props))
}

//vc:contract (*Query).SearchClassProps props=C13
//vc:opt opaque=vcMatch+vcScore
func vc_SearchClassProps(q *Query, c *Class, keyword string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil)
	vcModifies(q.cache, searchedFQNs)
	pattern := string([]rune(strings.ToLower(keyword)))
	r := q.SearchClassProps(c, keyword, searchedFQNs)
	vcEnsures("only what matches", keyword == "" || vcForall(0, len(r.Props), func(i int) bool {
		return vcMatch(r.Props[i].Prop.Name, pattern) && r.Props[i].Score == vcScore(r.Props[i].Prop.Name, pattern)
	}))
	vcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.Props))
}

//vc:loop (*Query).SearchClassProps 0
func vcl_SearchClassProps(props InheritedProps, newProps []PropWithScope, c_pattern string, vcI int) {
	vcInv("members", vcProps(props.Props))
	vcInv("matching", vcPropFound(props.Props, newProps, vcI, c_pattern))
	vcInv("only what matches", vcForall(0, len(newProps), func(i int) bool {
		return newProps[i].Prop != nil && vcMatch(newProps[i].Prop.Name, c_pattern) && newProps[i].Score == vcScore(newProps[i].Prop.Name, c_pattern)
	}))
	vcInv("fresh", vcFreshSlice(newProps))
}

//vc:trusted (*Query).GetInterfaceProps
func vc_GetInterfaceProps(q *Query, c *Interface, name string, searchedFQNs map[string]struct{}) {
	vcModifies(q.cache, searchedFQNs)
	r := q.GetInterfaceProps(c, name, searchedFQNs)
	vcEnsures("members", vcProps(r.Props))
}

//vc:contract (*Query).SearchInterfaceProps props=C13
//vc:opt opaque=vcMatch+vcScore
func vc_SearchInterfaceProps(q *Query, c *Interface, keyword string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil)
	vcModifies(q.cache, searchedFQNs)
	pattern := string([]rune(strings.ToLower(keyword)))
	r := q.SearchInterfaceProps(c, keyword, searchedFQNs)
	vcEnsures("only what matches", keyword == "" || vcForall(0, len(r.Props), func(i int) bool {
		return vcMatch(r.Props[i].Prop.Name, pattern) && r.Props[i].Score == vcScore(r.Props[i].Prop.Name, pattern)
	}))
	vcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.Props))
}

//vc:loop (*Query).SearchInterfaceProps 0
func vcl_SearchInterfaceProps(props InheritedProps, newProps []PropWithScope, c_pattern string, vcI int) {
	vcInv("members", vcProps(props.Props))
	vcInv("matching", vcPropFound(props.Props, newProps, vcI, c_pattern))
	vcInv("only what matches", vcForall(0, len(newProps), func(i int) bool {
		return newProps[i].Prop != nil && vcMatch(newProps[i].Prop.Name, c_pattern) && newProps[i].Score == vcScore(newProps[i].Prop.Name, c_pattern)
	}))
	vcInv("fresh", vcFreshSlice(newProps))
}
