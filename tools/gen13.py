hdr='''//go:build verif

package analysis

// Specification of the visibility and merging of inherited members (property C13).

//vc:contract IsNameRelative props=C13
func vc_IsNameRelative(name string) {
	r := IsNameRelative(name)
	vcEnsures("relative", r == vcRelative(name))
}

func vcRelative(name string) bool { return name == "static" || name == "self" || name == "$this" }

//vc:contract IsNameParent props=C13
func vc_IsNameParent(name string) {
	r := IsNameParent(name)
	vcEnsures("parent", r == (name == "parent"))
}

// vcRelated: a relates to b.
//
//vc:rec
func vcRelated(relations RelationMap, a, b string) bool {
	return vcHas(relations, a) && vcHas(relations[a], b)
}

//vc:contract (Relations).Relate props=C13
func vc_Relations_Relate(r Relations, otherFQN string) {
	vcRequires(r != nil)
	vcModifies(r)
	old := vcSnapMap(r)
	r.Relate(otherFQN)
	vcEnsures("related", vcForallKey(r, func(k string) bool { return vcHas(r, k) == (vcHas(old, k) || k == otherFQN) }))
}

//vc:contract (Relations).IsRelated props=C13
func vc_Relations_IsRelated(r Relations, otherFQN string) {
	got := r.IsRelated(otherFQN)
	vcEnsures("related", got == vcHas(r, otherFQN))
}

//vc:contract (RelationMap).IsRelated props=C13
func vc_RelationMap_IsRelated(r RelationMap, thisFQN, otherFQN string) {
	got := r.IsRelated(thisFQN, otherFQN)
	vcEnsures("related", got == vcRelated(r, thisFQN, otherFQN))
}

// vcSeparate: the classes have relations of their own.
func vcSeparate(r RelationMap) bool {
	return vcForallKey(r, func(a string) bool {
		return !vcHas(r, a) || r[a] != nil && vcForallKey(r, func(b string) bool { return !vcHas(r, b) || a == b || !vcSameMap(r[a], r[b]) })
	})
}

//vc:contract (RelationMap).Relate props=C13
func vc_RelationMap_Relate(r RelationMap, thisFQN, otherFQN string) {
	vcRequires(r != nil && vcSeparate(r))
	vcModifies(r)
	if vcHas(r, thisFQN) {
		vcModifies(r[thisFQN])
	}
	old, had := vcSnapMap(r), vcHas(r, thisFQN)
	relations := vcSnapMap(r[thisFQN])
	r.Relate(thisFQN, otherFQN)
	vcEnsures("of the class", vcHas(r, thisFQN) && vcForallKey(r[thisFQN], func(k string) bool { return vcHas(r[thisFQN], k) == (vcHas(relations, k) || k == otherFQN) }))
	vcEnsures("of other classes", vcForallKey(r, func(k string) bool { return k == thisFQN || vcHas(r, k) == vcHas(old, k) && vcSameMap(r[k], old[k]) }))
	vcEnsures("relations", !had && vcFresh(r[thisFQN]) || had && vcSameMap(r[thisFQN], old[thisFQN]))
	vcEnsures("separate", vcSeparate(r))
}

func vcNoRelations(r RelationMap) bool {
	return vcForallKey(r, func(k string) bool { return !vcHas(r, k) })
}

// vcApart: no class has its relations in both.
func vcApart(r, other RelationMap) bool {
	return !vcSameMap(r, other) && vcForallKey(r, func(a string) bool {
		return !vcHas(r, a) || vcForallKey(other, func(b string) bool { return !vcHas(other, b) || !vcSameMap(r[a], other[b]) })
	})
}

// vcOwn: the relations in r were there before or are new.
func vcOwn(r RelationMap, old map[string]Relations) bool {
	return vcForallKey(r, func(k string) bool {
		return !vcHas(r, k) || vcHas(old, k) && vcSameMap(r[k], old[k]) || vcFresh(r[k])
	})
}

//vc:contract (RelationMap).Merge props=C13
//vc:hide no relations = separate, own, other, all relations
func vc_RelationMap_Merge(r, other RelationMap, a, b string) {
	vcRequires(r != nil && vcSeparate(r) && vcApart(r, other))
	vcModifies(r)
	vcModifiesValues(r)
	was, more := vcHas(r, a) && vcHas(r[a], b), vcHas(other, a) && vcHas(other[a], b)
	none := vcNoRelations(r) && vcNoRelations(other)
	old := vcSnapMap(r)
	r.Merge(other)
	vcEnsures("no relations", vcImp(none, vcNoRelations(r)))
	vcEnsures("all relations", (vcHas(r, a) && vcHas(r[a], b)) == (was || more))
	vcEnsures("separate", vcSeparate(r))
	vcEnsures("own", vcOwn(r, old))
	vcEnsures("classes", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcHas(old, k) || vcHas(other, k) }))
}

//vc:loop (RelationMap).Merge 0
func vcl_RelationMap_Merge_0(c_r, c_other RelationMap, c_old map[string]Relations, c_a, c_b string, c_was, c_more bool) {
	vcInv("separate", vcSeparate(c_r))
	vcInv("own", vcOwn(c_r, c_old))
	vcInv("classes", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || vcHas(c_old, k) || vcHas(c_other, k) }))
	vcInv("other", (vcHas(c_other, c_a) && vcHas(c_other[c_a], c_b)) == c_more)
	vcInv("all relations", (vcHas(c_r, c_a) && vcHas(c_r[c_a], c_b)) == (c_was || vcVisited(c_other, c_a) && c_more))
}

//vc:loop (RelationMap).Merge 1
func vcl_RelationMap_Merge_1(fqn string, relations Relations, c_r, c_other RelationMap, c_old map[string]Relations, c_a, c_b string, c_was, c_more bool) {
	vcInv("these", vcHas(c_other, fqn) && vcSameMap(relations, c_other[fqn]))
	vcInv("separate", vcSeparate(c_r))
	vcInv("own", vcOwn(c_r, c_old))
	vcInv("classes", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || vcHas(c_old, k) || vcHas(c_other, k) }))
	vcInv("other", (vcHas(c_other, c_a) && vcHas(c_other[c_a], c_b)) == c_more)
	vcInv("all relations", (vcHas(c_r, c_a) && vcHas(c_r[c_a], c_b)) == (c_was ||
		c_a != fqn && vcVisited(c_other, c_a) && c_more || c_a == fqn && vcVisited(relations, c_b) && c_more))
}

// vcTyped and vcTypeRelated: the accessed types from k on include the class, or one it relates to.
//
//vc:rec
func vcTyped(types []TypeString, k int, fqn string) bool {
	return k < len(types) && (types[k].GetFQN() == fqn || vcTyped(types, k+1, fqn))
}

//vc:rec
func vcTypeRelated(types []TypeString, k int, relations RelationMap, fqn string) bool {
	return k < len(types) && (vcRelated(relations, fqn, types[k].GetFQN()) || vcTypeRelated(types, k+1, relations, fqn))
}

// vcStaticRule: a member may be reached with :: from the current class.
//
//vc:rec
func vcStaticRule(currentClass string, access MemberAccess, relations RelationMap, member MemberSymbol) bool {
	declaring, visibility := member.ScopeTypeString().GetFQN(), member.Visibility()
	if access.ScopeName() == "parent" {
		return declaring != currentClass && visibility != Private
	}
	if vcRelative(access.ScopeName()) {
		return declaring == currentClass || visibility != Private
	}
	if visibility == Private {
		return member.IsStatic() && declaring == currentClass
	}
	types := access.ScopeTypes().Resolve()
	return member.IsStatic() && (visibility == Public || vcTyped(types, 0, declaring) || visibility == Protected && vcTypeRelated(types, 0, relations, declaring))
}

// vcObjectRule: a member may be reached with -> from the current class.
//
//vc:rec
func vcObjectRule(currentClass string, access MemberAccess, relations RelationMap, member MemberSymbol) bool {
	declaring, visibility := member.ScopeTypeString().GetFQN(), member.Visibility()
	if access.ScopeName() == "$this" && (declaring == currentClass || visibility != Private) {
		return true
	}
	types := access.ScopeTypes().Resolve()
	return visibility == Public || vcTyped(types, 0, currentClass) || visibility == Protected && vcTypeRelated(types, 0, relations, declaring)
}

//vc:contract IsInheritedStatic props=C13
//vc:opt pureiface=all
func vc_IsInheritedStatic(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) {
	vcRequires(access != nil && member != nil)
	r := IsInheritedStatic(currentClass, access, relationMap, member)
	vcEnsures("rule", r == vcStaticRule(currentClass, access, relationMap, member))
}

//vc:loop IsInheritedStatic 0
func vcl_IsInheritedStatic(isRelated bool, c_access MemberAccess, c_relationMap RelationMap, c_member MemberSymbol, vcI int) {
	types, declaring := c_access.ScopeTypes().Resolve(), c_member.ScopeTypeString().GetFQN()
	vcInv("not the class", vcTyped(types, 0, declaring) == vcTyped(types, vcI, declaring))
	vcInv("related", vcTypeRelated(types, 0, c_relationMap, declaring) == (isRelated || vcTypeRelated(types, vcI, c_relationMap, declaring)))
}

//vc:contract IsInherited props=C13
//vc:opt pureiface=all
func vc_IsInherited(currentClass string, access MemberAccess, relationMap RelationMap, member MemberSymbol) {
	vcRequires(access != nil && member != nil)
	r := IsInherited(currentClass, access, relationMap, member)
	vcEnsures("rule", r == vcObjectRule(currentClass, access, relationMap, member))
}

//vc:loop IsInherited 0
func vcl_IsInherited(isRelated bool, c_currentClass string, c_access MemberAccess, c_relationMap RelationMap, c_member MemberSymbol, vcI int) {
	types, declaring := c_access.ScopeTypes().Resolve(), c_member.ScopeTypeString().GetFQN()
	vcInv("not the class", vcTyped(types, 0, c_currentClass) == vcTyped(types, vcI, c_currentClass))
	vcInv("related", vcTypeRelated(types, 0, c_relationMap, declaring) == (isRelated || vcTypeRelated(types, vcI, c_relationMap, declaring)))
}

// vcFirstPublic is the index of the first public one from k on, or the length.
//
//vc:rec
func vcFirstPublic(l []MethodWithScope, k int) int {
	if k >= len(l) || l[k].Method.VisibilityModifier == Public {
		return k
	}
	return vcFirstPublic(l, k+1)
}

//vc:contract (InheritedMethods).ReduceFirst props=C13
func vc_ReduceFirst(m InheritedMethods) {
	vcRequires(vcMethods(m.Methods))
	r := m.ReduceFirst()
	ix := vcFirstPublic(m.Methods, 0)
	if ix >= len(m.Methods) {
		vcEnsures("none", r == MethodWithScope{})
	} else {
		vcEnsures("first public", r == m.Methods[ix])
	}
}

//vc:loop (InheritedMethods).ReduceFirst 0
func vcl_ReduceFirst(c_m InheritedMethods, vcI int) {
	vcInv("not public", vcFirstPublic(c_m.Methods, 0) == vcFirstPublic(c_m.Methods, vcI))
}

//vc:contract GetClassFQNLowerCase props=C13
func vc_GetClassFQNLowerCase(fqn string) {
	r := GetClassFQNLowerCase(fqn)
	vcEnsures("case of the last segment", strings.ToLower(r) == strings.ToLower(fqn))
	vcEnsures("namespace", strings.LastIndex(fqn, "\\\\") < 0 || strings.HasPrefix(r, fqn[:strings.LastIndex(fqn, "\\\\")+1]))
}
'''
hdr=hdr[:hdr.index("//vc:contract GetClassFQNLowerCase")]
search1='\n// vc@S@Matches is how many of the first k match.\n//\n//vc:rec\nfunc vc@S@Matches(l []@T@, k int, p string) int {\n\tif k <= 0 {\n\t\treturn 0\n\t}\n\tif vcMatch(l[k-1].@F@.Name, p) {\n\t\treturn vc@S@Matches(l, k-1, p) + 1\n\t}\n\treturn vc@S@Matches(l, k-1, p)\n}\n\n// vc@S@Found: r has the matching of the first n, in order, with their scores.\nfunc vc@S@Found(l, r []@T@, n int, p string) bool {\n\treturn len(r) == vc@S@Matches(l, n, p) && vcForall(0, n, func(i int) bool {\n\t\tk := vc@S@Matches(l, i, p)\n\t\treturn vcImp(vcMatch(l[i].@F@.Name, p), 0 <= k && k < len(r) && r[k].@F@ == l[i].@F@ && r[k].Scope == l[i].Scope && r[k].Score == vcScore(l[i].@F@.Name, p))\n\t})\n}\n'
search2='\n//vc:trusted (*Query).Get@K@@FF@\nfunc vc_Get@K@@FF@(q *Query, c *@K@, name string, searchedFQNs map[string]struct{}) {\n\tvcModifies(q.cache, searchedFQNs)\n\tr := q.Get@K@@FF@(c, name, searchedFQNs)\n\tvcEnsures("members", vc@S@s(r.@FS@))\n}\n\n//vc:contract (*Query).Search@K@@FF@ props=C13\n//vc:opt opaque=vcMatch+vcScore\nfunc vc_Search@K@@FF@(q *Query, c *@K@, keyword string, searchedFQNs map[string]struct{}) {\n\tvcRequires(q != nil && q.cache != nil)\n\tvcModifies(q.cache, searchedFQNs)\n\tpattern := string([]rune(strings.ToLower(keyword)))\n\tr := q.Search@K@@FF@(c, keyword, searchedFQNs)\n\tvcEnsures("only what matches", keyword == "" || vcForall(0, len(r.@FS@), func(i int) bool {\n\t\treturn vcMatch(r.@FS@[i].@F@.Name, pattern) && r.@FS@[i].Score == vcScore(r.@FS@[i].@F@.Name, pattern)\n\t}))\n\tvcEnsures("apart from what is cached", keyword == "" || vcFreshSlice(r.@FS@))\n}\n\n//vc:loop (*Query).Search@K@@FF@ 0\nfunc vcl_Search@K@@FF@(@VAR@ @I@, @NEW@ []@T@, c_pattern string, vcI int) {\n\tvcInv("members", vc@S@s(@VAR@.@FS@))\n\tvcInv("matching", vc@S@Found(@VAR@.@FS@, @NEW@, vcI, c_pattern))\n\tvcInv("only what matches", vcForall(0, len(@NEW@), func(i int) bool {\n\t\treturn @NEW@[i].@F@ != nil && vcMatch(@NEW@[i].@F@.Name, c_pattern) && @NEW@[i].Score == vcScore(@NEW@[i].@F@.Name, c_pattern)\n\t}))\n\tvcInv("fresh", vcFreshSlice(@NEW@))\n}\n'
searchs='\n// vcMatch and vcScore: the answer of the fuzzy matcher (an external package), left open.\n//\n//vc:rec\nfunc vcMatch(name, pattern string) bool {\n\tok, _ := isMatch(name, []rune(pattern))\n\treturn ok\n}\n\n//vc:rec\nfunc vcScore(name, pattern string) int {\n\t_, score := isMatch(name, []rune(pattern))\n\treturn score\n}\n\n//vc:trusted isMatch\nfunc vc_isMatch(str string, pattern []rune) {\n\tp := string(pattern)\n\tok, score := isMatch(str, pattern)\n\tvcEnsures("match", ok == vcMatch(str, p))\n\tvcEnsures("score", score == vcScore(str, p))\n}\n'
tmpl='''
// ---- @ELEM@

// vc@S@s: the members of a list are not nil.
func vc@S@s(l []@T@) bool {
	return vcForall(0, len(l), func(i int) bool { return l[i].@F@ != nil })
}

// vc@S@OK: the rule admits the member.
//
//vc:rec
func vc@S@OK(static bool, c string, access MemberAccess, rel RelationMap, m *@F0@) bool {
	if static {
		return vcStaticRule(c, access, rel, m)
	}
	return vcObjectRule(c, access, rel, m)
}

// vc@S@Seen: one of the first k is admitted and has the name.
//
//vc:rec
func vc@S@Seen(static bool, c string, access MemberAccess, rel RelationMap, l []@T@, k int, name string) bool {
	return k > 0 && (vc@S@Seen(static, c, access, rel, l, k-1, name) || l[k-1].@F@.Name == name && vc@S@OK(static, c, access, rel, l[k-1].@F@))
}

// vc@S@Pick: the k-th is the first admitted of its name.
func vc@S@Pick(static bool, c string, access MemberAccess, rel RelationMap, l []@T@, k int) bool {
	return vc@S@OK(static, c, access, rel, l[k].@F@) && !vc@S@Seen(static, c, access, rel, l, k, l[k].@F@.Name)
}

// vc@S@Count is how many of the first k are picked.
//
//vc:rec
func vc@S@Count(static bool, c string, access MemberAccess, rel RelationMap, l []@T@, k int) int {
	if k <= 0 {
		return 0
	}
	if vc@S@Pick(static, c, access, rel, l, k-1) {
		return vc@S@Count(static, c, access, rel, l, k-1) + 1
	}
	return vc@S@Count(static, c, access, rel, l, k-1)
}

// vc@S@Reduced: r has the picked of the first n, in order.
func vc@S@Reduced(static bool, c string, access MemberAccess, rel RelationMap, l, r []@T@, n int) bool {
	return len(r) == vc@S@Count(static, c, access, rel, l, n) && vcForall(0, n, func(i int) bool {
		k := vc@S@Count(static, c, access, rel, l, i)
		return vcImp(vc@S@Pick(static, c, access, rel, l, i), 0 <= k && k < len(r) && vc@S@Entry(static, l[i], r[k]))
	})
}

// vc@S@Entry: the entry is kept; one reached through an object although static costs.
func vc@S@Entry(static bool, a, r @T@) bool {
	if !static && vc@S@Costs(a.@F@) {
		return r.@F@ == a.@F@ && r.Scope == a.Scope && r.Score == a.Score-staticInAccessCost
	}
	return r == a
}

//vc:contract (@I@).ReduceStatic props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_@I@_ReduceStatic(m @I@, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vc@S@s(m.@FS@))
	r := m.ReduceStatic(currentClass, access)
	vcEnsures("first visible of each name", vc@S@Reduced(true, currentClass, access, m.RelationMap, m.@FS@, r, len(m.@FS@)))
}

//vc:loop (@I@).ReduceStatic 0
func vcl_@I@_ReduceStatic(c_m @I@, c_currentClass string, c_access MemberAccess, results []@T@, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vc@S@Seen(true, c_currentClass, c_access, c_m.RelationMap, c_m.@FS@, vcI, n)
	}))
	vcInv("first visible of each name", vc@S@Reduced(true, c_currentClass, c_access, c_m.RelationMap, c_m.@FS@, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}
@ACCESS@
// vc@S@Key identifies a member by its scope and name.
//
//vc:rec
func vc@S@Key(m @T@) string {
	if s, ok := m.Scope.(serialisable); ok {
		return s.GetKey() + "::" + m.@F@.Name
	}
	return m.@F@.Name
}

// vc@S@KeyIn: one of the first j members of the list has the key; vc@S@KeyBefore: one of the first i lists has it.
//
//vc:rec
func vc@S@KeyIn(l []@T@, j int, key string) bool {
	return j > 0 && (vc@S@KeyIn(l, j-1, key) || vc@S@Key(l[j-1]) == key)
}

//vc:rec
func vc@S@KeyBefore(l [][]@T@, i int, key string) bool {
	return i > 0 && (vc@S@KeyBefore(l, i-1, key) || vc@S@KeyIn(l[i-1], len(l[i-1]), key))
}

func vc@S@KeySeen(l [][]@T@, i, j int, key string) bool {
	return vc@S@KeyBefore(l, i, key) || j > 0 && vc@S@KeyIn(l[i], j, key)
}

// vc@S@KeyCount is how many distinct keys there are in the first i lists and the first j of the next.
//
//vc:rec
func vc@S@KeyCount(l [][]@T@, i, j int) int {
	if j > 0 {
		if vc@S@KeySeen(l, i, j-1, vc@S@Key(l[i][j-1])) {
			return vc@S@KeyCount(l, i, j-1)
		}
		return vc@S@KeyCount(l, i, j-1) + 1
	}
	if i > 0 {
		return vc@S@KeyCount(l, i-1, len(l[i-1]))
	}
	return 0
}

// vc@S@Kept: r has the first member of each key of the n-th list.
func vc@S@Kept(l [][]@T@, r []@T@, i, n int) bool {
	return vcForall(0, n, func(j int) bool {
		k := vc@S@KeyCount(l, i, j)
		return vc@S@KeySeen(l, i, j, vc@S@Key(l[i][j])) || 0 <= k && k < len(r) && r[k] == l[i][j]
	})
}

//vc:contract @M@ props=C13
//vc:hide frame = keys, every distinct member, in order, in order within
//vc:hide safe = keys, every distinct member, in order, in order within
//vc:hide fresh = keys, every distinct member, in order, in order within
//vc:hide keys = every distinct member, in order, in order within
//vc:hide every distinct member = in order, in order within
//vc:hide in order within = in order
//vc:opt pureiface=all
func vc_@M@(items [][]@T@) {
	vcRequires(vcForall(0, len(items), func(i int) bool { return vc@S@s(items[i]) }))
	r := @M@(items...)
	vcEnsures("every distinct member", len(r) == vc@S@KeyCount(items, len(items), 0))
	vcEnsures("in order", vcForall(0, len(items), func(i int) bool { return vc@S@Kept(items, r, i, len(items[i])) }))
}

//vc:loop @M@ 0
func vcl_@M@_0(c_items [][]@T@, results []@T@, duplicated map[string]struct{}, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vc@S@KeySeen(c_items, vcI, 0, n) }))
	vcInv("every distinct member", len(results) == vc@S@KeyCount(c_items, vcI, 0))
	vcInv("in order", vcForall(0, vcI, func(i int) bool { return vc@S@Kept(c_items, results, i, len(c_items[i])) }))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:loop @M@ 1
func vcl_@M@_1(c_items [][]@T@, results []@T@, duplicated map[string]struct{}, vcI_1, vcI int) {
	vcInv("keys", duplicated != nil && vcForallKey(duplicated, func(n string) bool { return vcHas(duplicated, n) == vc@S@KeySeen(c_items, vcI_1, vcI, n) }))
	vcInv("every distinct member", len(results) == vc@S@KeyCount(c_items, vcI_1, vcI))
	vcInv("in order", vcForall(0, vcI_1, func(i int) bool { return vc@S@Kept(c_items, results, i, len(c_items[i])) }))
	vcInv("in order within", vc@S@Kept(c_items, results, vcI_1, vcI))
	vcInv("fresh", vcFreshSlice(results))
}

@MERGE@//vc:contract @W@ props=C13
func vc_@W@(scope Symbol, l []*@F0@) {
	r := @W@(scope, l)
	vcEnsures("each", len(r) == len(l) && vcForall(0, len(l), func(i int) bool { return r[i].@F@ == l[i] && r[i].Scope == scope && r[i].Score == 0 }))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop @W@ 0
func vcl_@W@(c_scope Symbol, c_l []*@F0@, results []@T@, vcI int) {
	vcInv("each", len(results) == vcI && vcForall(0, vcI, func(i int) bool { return results[i].@F@ == c_l[i] && results[i].Scope == c_scope && results[i].Score == 0 }))
	vcInv("fresh", vcFreshSlice(results))
}
'''
access='''
//vc:contract (@I@).ReduceAccess props=C13
//vc:opt opaque=vcStaticRule+vcObjectRule
func vc_@I@_ReduceAccess(m @I@, currentClass string, access MemberAccess) {
	vcRequires(access != nil && vc@S@s(m.@FS@))
	r := m.ReduceAccess(currentClass, access)
	vcEnsures("first visible of each name", vc@S@Reduced(false, currentClass, access, m.RelationMap, m.@FS@, r, len(m.@FS@)))
}

//vc:loop (@I@).ReduceAccess 0
func vcl_@I@_ReduceAccess(c_m @I@, c_currentClass string, c_access MemberAccess, results []@T@, duplicatedNames map[string]struct{}, vcI int) {
	vcInv("names", duplicatedNames != nil && vcForallKey(duplicatedNames, func(n string) bool {
		return vcHas(duplicatedNames, n) == vc@S@Seen(false, c_currentClass, c_access, c_m.RelationMap, c_m.@FS@, vcI, n)
	}))
	vcInv("first visible of each name", vc@S@Reduced(false, c_currentClass, c_access, c_m.RelationMap, c_m.@FS@, results, vcI))
	vcInv("fresh", vcFreshSlice(results))
}
'''
merge='''//vc:contract (*@I@).Merge props=C13
func vc_@I@_Merge(m *@I@, other @I@) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil && vcNoRelations(m.RelationMap) && vcNoRelations(other.RelationMap) && !vcSameMap(m.RelationMap, other.RelationMap))
	vcRequires(vcDisjoint(m.@FS@, other.@FS@))
	vcModifies(&m.@FS@, m.@FS@, m.SearchedFQNs, m.RelationMap)
	was, a, b := m.@FS@, vcSnap(m.@FS@), vcSnap(other.@FS@)
	old, more := vcSnapMap(m.SearchedFQNs), vcSnapMap(other.SearchedFQNs)
	m.Merge(other)
	vcEnsures("all members", len(m.@FS@) == len(a)+len(b))
	vcEnsures("first its own", vcForall(0, len(a), func(i int) bool { return m.@FS@[i] == a[i] }))
	vcEnsures("then the others", vcForall(0, len(b), func(i int) bool { return m.@FS@[len(a)+i] == b[i] }))
	vcEnsures("names", vcForallKey(m.SearchedFQNs, func(k string) bool { return vcHas(m.SearchedFQNs, k) == (vcHas(old, k) || vcHas(more, k)) }))
	vcEnsures("no relations", vcNoRelations(m.RelationMap))
	vcEnsures("grown", vcGrown(m.@FS@, was))
}

//vc:loop (*@I@).Merge 0
func vcl_@I@_Merge(c_m *@I@, c_other @I@, c_old, c_more map[string]struct{}) {
	vcInv("names", vcForallKey(c_m.SearchedFQNs, func(k string) bool {
		return vcHas(c_m.SearchedFQNs, k) == (vcHas(c_old, k) || vcVisited(c_other.SearchedFQNs, k) && vcHas(c_more, k))
	}))
}

'''
out=hdr.replace('package analysis\n','package analysis\n\nimport "strings"\n',1)+searchs
for S,T,F,F0,I,FS,M,W,costs in [
 ('Method','MethodWithScope','Method','Method','InheritedMethods','Methods','MergeMethodWithScope','methodWithScopeFromMethods','m.isStatic'),
 ('Const','ClassConstWithScope','Const','ClassConst','InheritedClassConst','Consts','MergeClassConstWithScope','classConstWithScopeFromConsts','false'),
 ('Prop','PropWithScope','Prop','Property','InheritedProps','Props','MergePropWithScope','propWithScopeFromProps','m.isStatic')]:
    t=tmpl.replace('@ACCESS@', access if S!='Const' else '')
    t=t.replace('@MERGE@', merge if S!='Const' else '')
    t+='\nfunc vc@S@Costs(m *@F0@) bool { return %s }\n'%costs
    for k,v in dict(ELEM=S,S=S,T=T,F=F,F0=F0,I=I,FS=FS,M=M,W=W).items(): t=t.replace('@'+k+'@',v)
    t+=search1
    for K in ('Class','Interface'):
        t+=search2.replace('@K@',K).replace('@VAR@',dict(Method='methods',Const='classConsts',Prop='props')[S]).replace('@NEW@','newProps' if S=='Prop' else 'newMethods').replace('@FF@',dict(Method='Methods',Const='ClassConsts',Prop='Props')[S])
    for k,v in dict(ELEM=S,S=S,T=T,F=F,F0=F0,I=I,FS=FS,M=M,W=W).items(): t=t.replace('@'+k+'@',v)
    out+=t
open('contracts/analysis/c13_vc.go','w').write(out)
