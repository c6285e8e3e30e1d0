import os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
out='''//go:build verif

package analysis

// Specification of the collection of members over a class hierarchy (property C14): every
// pass of a collecting loop visits a class not visited before or shortens the queue.
// Generated by tools/gen14.py.

// vcNames is how many names the classes and interfaces of the index have.
//
//vc:rec
func vcNames(q *Query) int { return 1 << 40 }

func vcKept(was, now map[string]struct{}) bool {
	return vcForallKey(now, func(k string) bool { return !vcHas(was, k) || vcHas(now, k) })
}

// vcOwnRelations: the relations in r are made here.
func vcOwnRelations(r RelationMap) bool {
	return vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcFresh(r[k]) })
}

// vcRelationsOf: the relations are made here, and no class's relations are the names searched.
func vcRelationsOf(r RelationMap, searched map[string]struct{}) bool {
	return r != nil && vcFresh(r) && vcForallKey(r, func(k string) bool {
		return !vcHas(r, k) || r[k] != nil && vcFresh(r[k]) && !vcSameMap(r[k], searched)
	})
}

//vc:contract (Relations).Relate props=C14
func vc_Relations_Relate(r Relations, otherFQN string) {
	vcRequires(r != nil)
	vcModifies(r)
	r.Relate(otherFQN)
}

//vc:contract (RelationMap).Relate props=C14
func vc_RelationMap_Relate(r RelationMap, thisFQN, otherFQN string) {
	vcRequires(r != nil && vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
	vcModifies(r)
	if vcHas(r, thisFQN) {
		vcModifies(r[thisFQN])
	}
	old := vcSnapMap(r)
	r.Relate(thisFQN, otherFQN)
	vcEnsures("own", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcHas(old, k) && vcSameMap(r[k], old[k]) || vcFresh(r[k]) }))
	vcEnsures("relations", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
}

//vc:contract (RelationMap).Merge props=C14
func vc_RelationMap_Merge(r, other RelationMap) {
	vcRequires(r != nil && vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
	vcModifies(r)
	vcModifiesValues(r)
	old := vcSnapMap(r)
	r.Merge(other)
	vcEnsures("own", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || vcHas(old, k) && vcSameMap(r[k], old[k]) || vcFresh(r[k]) }))
	vcEnsures("relations", vcForallKey(r, func(k string) bool { return !vcHas(r, k) || r[k] != nil }))
}

//vc:loop (RelationMap).Merge 0
func vcl_RelationMap_Merge_0(c_r RelationMap, c_old map[string]Relations) {
	vcInv("own", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || vcHas(c_old, k) && vcSameMap(c_r[k], c_old[k]) || vcFresh(c_r[k]) }))
	vcInv("relations", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || c_r[k] != nil }))
}

//vc:loop (RelationMap).Merge 1
func vcl_RelationMap_Merge_1(c_r RelationMap, c_old map[string]Relations) {
	vcInv("own", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || vcHas(c_old, k) && vcSameMap(c_r[k], c_old[k]) || vcFresh(c_r[k]) }))
	vcInv("relations", vcForallKey(c_r, func(k string) bool { return !vcHas(c_r, k) || c_r[k] != nil }))
}

//vc:trusted (*Query).GetClasses
func vc_GetClasses(q *Query, name string) {
	vcModifies(q.cache)
	r := q.GetClasses(name)
	vcEnsures("classes", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Query).GetInterfaces
func vc_GetInterfaces(q *Query, name string) {
	vcModifies(q.cache)
	r := q.GetInterfaces(name)
	vcEnsures("apart from the caller's slices", vcFreshSlice(r))
	vcEnsures("interfaces", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Store).GetInterfaces
func vc_Store_GetInterfaces(s *Store, name string) {
	r := s.GetInterfaces(name)
	vcEnsures("apart from the caller's slices", vcFreshSlice(r))
	vcEnsures("interfaces", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Store).GetTraits
func vc_GetTraits(s *Store, name string) {
	r := s.GetTraits(name)
	vcEnsures("traits", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
}

//vc:trusted (*Query).GetTraitMethods
func vc_GetTraitMethods(q *Query, trait *Trait, name string) {
	vcModifies(q.cache)
	_ = q.GetTraitMethods(trait, name)
}
'''
kind='''
//vc:trusted (*Query).@GET@
func vc_@GET@(q *Query, scope string, name string) {
	vcModifies(q.cache)
	_ = q.@GET@(scope, name)
}

//vc:contract @W@ props=C14
func vc_@W@(scope Symbol, l []*@F0@) {
	r := @W@(scope, l)
	vcEnsures("each", len(r) == len(l))
	vcEnsures("fresh", vcFreshSlice(r))
}

//vc:loop @W@ 0
func vcl_@W@(results []@T@, vcI int) {
	vcInv("each", len(results) == vcI)
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*@I@).Merge props=C14
func vc_@I@_Merge(m *@I@, other @I@) {
	vcRequires(m != nil && m.SearchedFQNs != nil && m.RelationMap != nil)
	vcRequires(vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil && !vcSameMap(m.RelationMap[k], m.SearchedFQNs)
	}))
	vcModifies(&m.@FS@, m.@FS@, m.SearchedFQNs, m.RelationMap)
	vcModifiesValues(m.RelationMap)
	was, n, s := m.@FS@, len(m.SearchedFQNs), m.SearchedFQNs
	old := vcSnapMap(m.SearchedFQNs)
	rel := vcSnapMap(m.RelationMap)
	m.Merge(other)
	vcEnsures("names", vcSameMap(m.SearchedFQNs, s) && len(m.SearchedFQNs) >= n && vcKept(old, m.SearchedFQNs))
	vcEnsures("grown", vcGrown(m.@FS@, was) && len(m.@FS@) == len(was)+len(other.@FS@))
	vcEnsures("own", vcForallKey(m.RelationMap, func(k string) bool {
		return !vcHas(m.RelationMap, k) || vcHas(rel, k) && vcSameMap(m.RelationMap[k], rel[k]) || vcFresh(m.RelationMap[k])
	}))
	vcEnsures("relations", vcForallKey(m.RelationMap, func(k string) bool { return !vcHas(m.RelationMap, k) || m.RelationMap[k] != nil }))
}

//vc:loop (*@I@).Merge 0
func vcl_@I@_Merge(c_m *@I@, c_s, c_old map[string]struct{}, c_n int) {
	vcInv("names", vcSameMap(c_m.SearchedFQNs, c_s) && len(c_m.SearchedFQNs) >= c_n && vcKept(c_old, c_m.SearchedFQNs))
}
'''
collector='''
//vc:contract (*Query).Get@K@@FF@ props=C14
func vc_Get@K@@FF@(q *Query, c *@K@, name string, searchedFQNs map[string]struct{}) {
	vcRequires(q != nil && q.cache != nil && q.store != nil && c != nil)
	vcModifies(q.cache, searchedFQNs)
	n := len(searchedFQNs)
	old := vcSnapMap(searchedFQNs)
	was := searchedFQNs != nil && vcHas(searchedFQNs, c.Name.GetFQN())
	r := q.Get@K@@FF@(c, name, searchedFQNs)
	vcEnsures("names", len(searchedFQNs) >= n && vcKept(old, searchedFQNs))
	vcEnsures("not again", vcImp(was, len(r.@FS@) == 0))
}

//vc:loop (*Query).Get@K@@FF@ 0
func vcl_Get@K@@FF@_0(c_q *Query, @QUEUE@, @QUEUE@_head []*@K@, @VAR@, @VAR@_head @I@, @VARI@searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_c *@K@, c_was bool) {
@INV@@NOT@	// at most as many names as the index has
	vcAssume(len(searchedFQNs) <= vcNames(c_q))
	vcDecreases2(vcNames(c_q)-len(searchedFQNs), len(@QUEUE@))
	scope := vcAtHead(func() string { return @QUEUE@_head[0].Name.GetFQN() })
	was := vcAtHead(func() bool { return vcHas(searchedFQNs, @QUEUE@_head[0].Name.GetFQN()) })
	vcStep("visited", vcHas(searchedFQNs, scope))
	vcStep("not again", vcImp(was, len(@VAR@.@FS@) == len(@VAR@_head.@FS@) && len(@QUEUE@) == len(@QUEUE@_head)-1))
}
'''
inner='''
//vc:loop (*Query).Get@K@@FF@ @N@
func vcl_Get@K@@FF@_@N@(scope string, @QUEUE@ []*@K@, @VAR@ @I@, @VARI@searchedFQNs map[string]struct{}, c_searchedFQNs, c_old map[string]struct{}, c_n int, c_was bool) {
@INV@	vcInv("not again", !c_was)
	vcInv("visited", vcHas(searchedFQNs, scope) && len(searchedFQNs) >= vcAtPre(func() int { return len(searchedFQNs) }))
}
'''
inv='''	vcInv("queue", vcForall(0, len(@QUEUE@), func(i int) bool { return @QUEUE@[i] != nil }))
	vcInv("own queue", vcFreshSlice(@QUEUE@))
	vcInv("searched", searchedFQNs != nil && vcSameMap(@VAR@.SearchedFQNs, searchedFQNs) && (c_searchedFQNs == nil && vcFresh(searchedFQNs) || vcSameMap(c_searchedFQNs, searchedFQNs)))
	vcInv("names", len(c_searchedFQNs) >= c_n && vcKept(c_old, c_searchedFQNs))
	vcInv("relations", vcRelationsOf(@VAR@.RelationMap, searchedFQNs))
	vcInv("own members", vcFreshSlice(@VAR@.@FS@))
@INTF@'''
nots='''	vcInv("not again", !c_was || len(@VAR@.@FS@) == 0 && len(@QUEUE@) <= 1 && (len(@QUEUE@) == 0 || @QUEUE@[0].Name.GetFQN() == c_c.Name.GetFQN()) && vcHas(searchedFQNs, c_c.Name.GetFQN())@NOTI@)
'''
intf='''	vcInv("searched by interfaces", vcSameMap(@V2@.SearchedFQNs, searchedFQNs))
	vcInv("relations of interfaces", vcRelationsOf(@V2@.RelationMap, searchedFQNs))
	vcInv("own members of interfaces", vcFreshSlice(@V2@.@FS@))
'''
for S,T,F0,I,FS,W,GET,FF,VAR in [
 ('Method','MethodWithScope','Method','InheritedMethods','Methods','methodWithScopeFromMethods','GetMethods','Methods','methods'),
 ('Const','ClassConstWithScope','ClassConst','InheritedClassConst','Consts','classConstWithScopeFromConsts','GetClassConsts','ClassConsts','classConsts'),
 ('Prop','PropWithScope','Property','InheritedProps','Props','propWithScopeFromProps','GetProps','Props','props')]:
    t=kind
    for K,QUEUE in (('Class','classes'),('Interface','interfaces')):
        c=collector
        for n in range(1,5 if (K,FF)==('Class','Methods') else 3): c+=inner.replace('@N@',str(n))
        c=c.replace('@INV@',inv).replace('@NOT@',nots).replace('@NOTI@',' && len(@V2@.@FS@) == 0' if K=='Class' else '').replace('@INTF@',intf if K=='Class' else '').replace('@VARI@',VAR+'FromInterfaces @I@, ' if K=='Class' else '')
        t+=c.replace('@K@',K).replace('@QUEUE@',QUEUE)
    for k,v in dict(S=S,T=T,F0=F0,I=I,FS=FS,W=W,GET=GET,FF=FF,VAR=VAR,V2=VAR+'FromInterfaces').items(): t=t.replace('@'+k+'@',v)
    out+=t
open('contracts/analysis/c14_vc.go','w').write(out)
