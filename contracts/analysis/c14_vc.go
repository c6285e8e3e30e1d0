//go:build verif

package analysis

// Specification of the collection of members over a class hierarchy (property C14): every
// pass of a collecting loop visits a class not visited before or shortens the queue.
// Generated by tools/gen14.py.

// vcNames is how many names the classes and interfaces of the index have.
//
//vc:rec
func vcNames(q *Query) int { return 1 << 40 }

func vcKept(was, now map[string]struct{}) bool {
	return vcForallKey(now, func(k string) bool { return !vcHas(was, k) || vcHas(now, k) })
}

// vcOwnRelations: the relations in r are made here.
func vcOwnRelations(r RelationMap) bool {
	return vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcFresh(r[k]) })
}

// vcRelationsOf: the relations are made here, and no class's relations are the names searched.
func vcRelationsOf(r RelationMap, searched map[string]struct{}) bool {
	return r != nil && vcFresh(r) && vcForallKey(r, func(k string) bool {
		return !vcHas(r, k) || r[k] != nil && vcFresh(r[k]) && !vcSameMap(r[k], searched)
	})
}

//vc:contract (Relations).Relate props=C14
func vc_Relations_Relate(r Relations, otherFQN string) {
	vcRequires(r != nil)
	vcModifies(r)
	r.Relate(otherFQN)
}

//vc:contract (RelationMap).Relate props=C14
func vc_RelationMap_Relate(r RelationMap, thisFQN, otherFQN string) {
	vcRequires(r != nil && vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
	vcModifies(r)
	if vcHas(r, thisFQN) {
		vcModifies(r[thisFQN])
	}
	old := vcSnapMap(r)
	r.Relate(thisFQN, otherFQN)
	vcEnsures("own", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcHas(old, k) && vcSameMap(r[k], old[k]) || vcFresh(r[k]) }))
	vcEnsures("relations", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
}

//vc:contract (RelationMap).Merge props=C14
func vc_RelationMap_Merge(r, other RelationMap) {
	vcRequires(r != nil && vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
	vcModifies(r)
	vcModifiesValues(r)
	old := vcSnapMap(r)
	r.Merge(other)
	vcEnsures("own", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcHas(old, k) && vcSameMap(r[k], old[k]) || vcFresh(r[k]) }))
	vcEnsures("relations", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
}

//vc:loop (RelationMap).Merge 0
func vcl_RelationMap_Merge_0(c_r RelationMap, c_old map[string]Relations) {
	vcInv("own", vcForallKey(c_r, func(k string) bool {
		return !vcHas(c_r, k) || vcHas(c_old, k) && vcSameMap(c_r[k], c_old[k]) || vcFresh(c_r[k])
	}))
	vcInv("relations", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || c_r[k] != nil }))
}

//vc:loop (RelationMap).Merge 1
func vcl_RelationMap_Merge_1(c_r RelationMap, c_old map[string]Relations) {
	vcInv("own", vcForallKey(c_r, func(k string) bool {
		return !vcHas(c_r, k) || vcHas(c_old, k) && vcSameMap(c_r[k], c_old[k]) || vcFresh(c_r[k])
	}))
	vcInv("relations", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || c_r[k] != nil }))
}

//vc:trusted (*Query).GetClasses
func vc_GetClasses(q *Query, name string) {
	vcModifies(q.cache)
	r := q.GetClasses(name)
	vcEnsures("classes", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Query).GetInterfaces
func vc_GetInterfaces(q *Query, name string) {
	vcModifies(q.cache)
	r := q.GetInterfaces(name)
	vcEnsures("apart from the caller's slices", vcFreshSlice(r))
	vcEnsures("interfaces", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Store).GetInterfaces
func vc_Store_GetInterfaces(s *Store, name string) {
	r := s.GetInterfaces(name)
	vcEnsures("apart from the caller's slices", vcFreshSlice(r))
	vcEnsures("interfaces", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Store).GetTraits
func vc_GetTraits(s *Store, name string) {
	r := s.GetTraits(name)
	vcEnsures("traits", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Query).GetTraitMethods
func vc_GetTraitMethods(q *Query, trait *Trait, name string) {
	vcModifies(q.cache)
	_ = q.GetTraitMethods(trait, name)
}

//vc:trusted (*Query).GetMethods
func vc_GetMethods(q *Query, scope string, name string) {
	vcModifies(q.cache)
	_ = q.GetMethods(scope, name)
}

//vc:contract methodWithScopeFromMethods props=C14
func vc_methodWithScopeFromMethods(scope Symbol, l []*Method) {
	r := methodWithScopeFromMethods(scope, l)
	vcEnsures("each", len(r) == len(l))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop methodWithScopeFromMethods 0
func vcl_methodWithScopeFromMethods(results []MethodWithScope, vcI int) {
	vcInv("each", len(results) == vcI)
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*InheritedMethods).Merge props=C14
func vc_InheritedMethods_Merge(m *InheritedMethods, other InheritedMethods) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil)
	vcRequires(vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil && !vcSameMap(m.RelationMap[k], m.SearchedFQNs)
	}))
	vcModifies(&m.Methods, m.Methods, m.SearchedFQNs, m.RelationMap)
	vcModifiesValues(m.RelationMap)
	was, n, s := m.Methods, len(m.SearchedFQNs), m.SearchedFQNs
	old := vcSnapMap(m.SearchedFQNs)
	rel := vcSnapMap(m.RelationMap)
	m.Merge(other)
	vcEnsures("names", vcSameMap(m.SearchedFQNs, s) && len(m.SearchedFQNs) >= n && vcKept(old, m.SearchedFQNs))
	vcEnsures("grown", vcGrown(m.Methods, was) && len(m.Methods) == len(was)+len(other.Methods))
	vcEnsures("own", vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || vcHas(rel, k) && vcSameMap(m.RelationMap[k], rel[k]) || vcFresh(m.RelationMap[k])
	}))
	vcEnsures("relations", vcForallKey(m.RelationMap, func(k string) bool { return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil }))
}

//vc:loop (*InheritedMethods).Merge 0
func vcl_InheritedMethods_Merge(c_m *InheritedMethods, c_s, c_old map[string]struct{}, c_n int) {
	vcInv("names", vcSameMap(c_m.SearchedFQNs, c_s) && len(c_m.SearchedFQNs) >= c_n && vcKept(c_old, c_m.SearchedFQNs))
}

//vc:contract (*Query).GetClassMethods props=C14
func vc_GetClassMethods(q *Query, c *Class, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.GetClassMethods(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.Methods) == 0))
}

//vc:loop (*Query).GetClassMethods 0
func vcl_GetClassMethods_0(c_q *Query, classes, classes_head []*Class, methods, methods_head InheritedMethods, methodsFromInterfaces InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *Class, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("searched by interfaces", vcSameMap(methodsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(methodsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(methodsFromInterfaces.Methods))
	vcInv("not again", !c_was || len(methods.Methods) == 0 && len(classes) <= 1 && (len(classes) == 0 || classes[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN()) && len(methodsFromInterfaces.Methods) == 0)
	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(classes))
	scope := vcAtHead(func() string { return classes_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, classes_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(methods.Methods) == len(methods_head.Methods) && len(classes) == len(classes_head)-1))
}

//vc:loop (*Query).GetClassMethods 1
func vcl_GetClassMethods_1(scope string, classes []*Class, methods InheritedMethods, methodsFromInterfaces InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("searched by interfaces", vcSameMap(methodsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(methodsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(methodsFromInterfaces.Methods))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetClassMethods 2
func vcl_GetClassMethods_2(scope string, classes []*Class, methods InheritedMethods, methodsFromInterfaces InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("searched by interfaces", vcSameMap(methodsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(methodsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(methodsFromInterfaces.Methods))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetClassMethods 3
func vcl_GetClassMethods_3(scope string, classes []*Class, methods InheritedMethods, methodsFromInterfaces InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("searched by interfaces", vcSameMap(methodsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(methodsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(methodsFromInterfaces.Methods))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetClassMethods 4
func vcl_GetClassMethods_4(scope string, classes []*Class, methods InheritedMethods, methodsFromInterfaces InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("searched by interfaces", vcSameMap(methodsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(methodsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(methodsFromInterfaces.Methods))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:contract (*Query).GetInterfaceMethods props=C14
func vc_GetInterfaceMethods(q *Query, c *Interface, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.GetInterfaceMethods(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.Methods) == 0))
}

//vc:loop (*Query).GetInterfaceMethods 0
func vcl_GetInterfaceMethods_0(c_q *Query, interfaces, interfaces_head []*Interface, methods, methods_head InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *Interface, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("not again", !c_was || len(methods.Methods) == 0 && len(interfaces) <= 1 && (len(interfaces) == 0 || interfaces[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN()))
	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(interfaces))
	scope := vcAtHead(func() string { return interfaces_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, interfaces_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(methods.Methods) == len(methods_head.Methods) && len(interfaces) == len(interfaces_head)-1))
}

//vc:loop (*Query).GetInterfaceMethods 1
func vcl_GetInterfaceMethods_1(scope string, interfaces []*Interface, methods InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetInterfaceMethods 2
func vcl_GetInterfaceMethods_2(scope string, interfaces []*Interface, methods InheritedMethods, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(methods.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(methods.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(methods.Methods))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:trusted (*Query).GetClassConsts
func vc_GetClassConsts(q *Query, scope string, name string) {
	vcModifies(q.cache)
	_ = q.GetClassConsts(scope, name)
}

//vc:contract classConstWithScopeFromConsts props=C14
func vc_classConstWithScopeFromConsts(scope Symbol, l []*ClassConst) {
	r := classConstWithScopeFromConsts(scope, l)
	vcEnsures("each", len(r) == len(l))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop classConstWithScopeFromConsts 0
func vcl_classConstWithScopeFromConsts(results []ClassConstWithScope, vcI int) {
	vcInv("each", len(results) == vcI)
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*InheritedClassConst).Merge props=C14
func vc_InheritedClassConst_Merge(m *InheritedClassConst, other InheritedClassConst) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil)
	vcRequires(vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil && !vcSameMap(m.RelationMap[k], m.SearchedFQNs)
	}))
	vcModifies(&m.Consts, m.Consts, m.SearchedFQNs, m.RelationMap)
	vcModifiesValues(m.RelationMap)
	was, n, s := m.Consts, len(m.SearchedFQNs), m.SearchedFQNs
	old := vcSnapMap(m.SearchedFQNs)
	rel := vcSnapMap(m.RelationMap)
	m.Merge(other)
	vcEnsures("names", vcSameMap(m.SearchedFQNs, s) && len(m.SearchedFQNs) >= n && vcKept(old, m.SearchedFQNs))
	vcEnsures("grown", vcGrown(m.Consts, was) && len(m.Consts) == len(was)+len(other.Consts))
	vcEnsures("own", vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || vcHas(rel, k) && vcSameMap(m.RelationMap[k], rel[k]) || vcFresh(m.RelationMap[k])
	}))
	vcEnsures("relations", vcForallKey(m.RelationMap, func(k string) bool { return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil }))
}

//vc:loop (*InheritedClassConst).Merge 0
func vcl_InheritedClassConst_Merge(c_m *InheritedClassConst, c_s, c_old map[string]struct{}, c_n int) {
	vcInv("names", vcSameMap(c_m.SearchedFQNs, c_s) && len(c_m.SearchedFQNs) >= c_n && vcKept(c_old, c_m.SearchedFQNs))
}

//vc:contract (*Query).GetClassClassConsts props=C14
func vc_GetClassClassConsts(q *Query, c *Class, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.GetClassClassConsts(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.Consts) == 0))
}

//vc:loop (*Query).GetClassClassConsts 0
func vcl_GetClassClassConsts_0(c_q *Query, classes, classes_head []*Class, classConsts, classConsts_head InheritedClassConst, classConstsFromInterfaces InheritedClassConst, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *Class, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(classConsts.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(classConsts.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(classConsts.Consts))
	vcInv("searched by interfaces", vcSameMap(classConstsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(classConstsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(classConstsFromInterfaces.Consts))
	vcInv("not again", !c_was || len(classConsts.Consts) == 0 && len(classes) <= 1 && (len(classes) == 0 || classes[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN()) && len(classConstsFromInterfaces.Consts) == 0)
	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(classes))
	scope := vcAtHead(func() string { return classes_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, classes_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(classConsts.Consts) == len(classConsts_head.Consts) && len(classes) == len(classes_head)-1))
}

//vc:loop (*Query).GetClassClassConsts 1
func vcl_GetClassClassConsts_1(scope string, classes []*Class, classConsts InheritedClassConst, classConstsFromInterfaces InheritedClassConst, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(classConsts.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(classConsts.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(classConsts.Consts))
	vcInv("searched by interfaces", vcSameMap(classConstsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(classConstsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(classConstsFromInterfaces.Consts))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetClassClassConsts 2
func vcl_GetClassClassConsts_2(scope string, classes []*Class, classConsts InheritedClassConst, classConstsFromInterfaces InheritedClassConst, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(classConsts.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(classConsts.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(classConsts.Consts))
	vcInv("searched by interfaces", vcSameMap(classConstsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(classConstsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(classConstsFromInterfaces.Consts))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:contract (*Query).GetInterfaceClassConsts props=C14
func vc_GetInterfaceClassConsts(q *Query, c *Interface, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.GetInterfaceClassConsts(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.Consts) == 0))
}

//vc:loop (*Query).GetInterfaceClassConsts 0
func vcl_GetInterfaceClassConsts_0(c_q *Query, interfaces, interfaces_head []*Interface, classConsts, classConsts_head InheritedClassConst, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *Interface, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(classConsts.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(classConsts.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(classConsts.Consts))
	vcInv("not again", !c_was || len(classConsts.Consts) == 0 && len(interfaces) <= 1 && (len(interfaces) == 0 || interfaces[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN()))
	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(interfaces))
	scope := vcAtHead(func() string { return interfaces_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, interfaces_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(classConsts.Consts) == len(classConsts_head.Consts) && len(interfaces) == len(interfaces_head)-1))
}

//vc:loop (*Query).GetInterfaceClassConsts 1
func vcl_GetInterfaceClassConsts_1(scope string, interfaces []*Interface, classConsts InheritedClassConst, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(classConsts.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(classConsts.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(classConsts.Consts))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetInterfaceClassConsts 2
func vcl_GetInterfaceClassConsts_2(scope string, interfaces []*Interface, classConsts InheritedClassConst, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(classConsts.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(classConsts.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(classConsts.Consts))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:trusted (*Query).GetProps
func vc_GetProps(q *Query, scope string, name string) {
	vcModifies(q.cache)
	_ = q.GetProps(scope, name)
}

//vc:contract propWithScopeFromProps props=C14
func vc_propWithScopeFromProps(scope Symbol, l []*Property) {
	r := propWithScopeFromProps(scope, l)
	vcEnsures("each", len(r) == len(l))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop propWithScopeFromProps 0
func vcl_propWithScopeFromProps(results []PropWithScope, vcI int) {
	vcInv("each", len(results) == vcI)
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*InheritedProps).Merge props=C14
func vc_InheritedProps_Merge(m *InheritedProps, other InheritedProps) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil)
	vcRequires(vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil && !vcSameMap(m.RelationMap[k], m.SearchedFQNs)
	}))
	vcModifies(&m.Props, m.Props, m.SearchedFQNs, m.RelationMap)
	vcModifiesValues(m.RelationMap)
	was, n, s := m.Props, len(m.SearchedFQNs), m.SearchedFQNs
	old := vcSnapMap(m.SearchedFQNs)
	rel := vcSnapMap(m.RelationMap)
	m.Merge(other)
	vcEnsures("names", vcSameMap(m.SearchedFQNs, s) && len(m.SearchedFQNs) >= n && vcKept(old, m.SearchedFQNs))
	vcEnsures("grown", vcGrown(m.Props, was) && len(m.Props) == len(was)+len(other.Props))
	vcEnsures("own", vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || vcHas(rel, k) && vcSameMap(m.RelationMap[k], rel[k]) || vcFresh(m.RelationMap[k])
	}))
	vcEnsures("relations", vcForallKey(m.RelationMap, func(k string) bool { return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil }))
}

//vc:loop (*InheritedProps).Merge 0
func vcl_InheritedProps_Merge(c_m *InheritedProps, c_s, c_old map[string]struct{}, c_n int) {
	vcInv("names", vcSameMap(c_m.SearchedFQNs, c_s) && len(c_m.SearchedFQNs) >= c_n && vcKept(c_old, c_m.SearchedFQNs))
}

//vc:contract (*Query).GetClassProps props=C14
func vc_GetClassProps(q *Query, c *Class, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.GetClassProps(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.Props) == 0))
}

//vc:loop (*Query).GetClassProps 0
func vcl_GetClassProps_0(c_q *Query, classes, classes_head []*Class, props, props_head InheritedProps, propsFromInterfaces InheritedProps, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *Class, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(props.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(props.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(props.Props))
	vcInv("searched by interfaces", vcSameMap(propsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(propsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(propsFromInterfaces.Props))
	vcInv("not again", !c_was || len(props.Props) == 0 && len(classes) <= 1 && (len(classes) == 0 || classes[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN()) && len(propsFromInterfaces.Props) == 0)
	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(classes))
	scope := vcAtHead(func() string { return classes_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, classes_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(props.Props) == len(props_head.Props) && len(classes) == len(classes_head)-1))
}

//vc:loop (*Query).GetClassProps 1
func vcl_GetClassProps_1(scope string, classes []*Class, props InheritedProps, propsFromInterfaces InheritedProps, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(props.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(props.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(props.Props))
	vcInv("searched by interfaces", vcSameMap(propsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(propsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(propsFromInterfaces.Props))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetClassProps 2
func vcl_GetClassProps_2(scope string, classes []*Class, props InheritedProps, propsFromInterfaces InheritedProps, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(classes), func(i int) bool { return classes[i] != nil }))
	vcInv("own queue", vcFreshSlice(classes))
	vcInv("searched", searchedFQNs != nil && vcSameMap(props.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(props.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(props.Props))
	vcInv("searched by interfaces", vcSameMap(propsFromInterfaces.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(propsFromInterfaces.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(propsFromInterfaces.Props))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:contract (*Query).GetInterfaceProps props=C14
func vc_GetInterfaceProps(q *Query, c *Interface, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.GetInterfaceProps(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.Props) == 0))
}

//vc:loop (*Query).GetInterfaceProps 0
func vcl_GetInterfaceProps_0(c_q *Query, interfaces, interfaces_head []*Interface, props, props_head InheritedProps, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *Interface, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(props.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(props.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(props.Props))
	vcInv("not again", !c_was || len(props.Props) == 0 && len(interfaces) <= 1 && (len(interfaces) == 0 || interfaces[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN()))
	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(interfaces))
	scope := vcAtHead(func() string { return interfaces_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, interfaces_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(props.Props) == len(props_head.Props) && len(interfaces) == len(interfaces_head)-1))
}

//vc:loop (*Query).GetInterfaceProps 1
func vcl_GetInterfaceProps_1(scope string, interfaces []*Interface, props InheritedProps, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(props.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(props.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(props.Props))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}

//vc:loop (*Query).GetInterfaceProps 2
func vcl_GetInterfaceProps_2(scope string, interfaces []*Interface, props InheritedProps, searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
	vcInv("queue", vcForall(0, len(interfaces), func(i int) bool { return interfaces[i] != nil }))
	vcInv("own queue", vcFreshSlice(interfaces))
	vcInv("searched", searchedFQNs != nil && vcSameMap(props.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(props.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(props.Props))
	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}
