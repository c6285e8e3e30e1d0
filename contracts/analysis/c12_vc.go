//go:build verif

package analysis

import "github.com/john-nguyen09/phpintel/internal/lsp/protocol"

// Specification of variable tables (property C12).

// vcUpTo: a is not after b.
func vcUpTo(a, b protocol.Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Character <= b.Character
}

// vcOccurrences: the occurrences of a variable, sorted by start.
func vcOccurrences(l []contextualVariable, name string) bool {
	return len(l) > 0 && vcForall(0, len(l), func(i int) bool {
		return l[i].v != nil && l[i].v.Name == name && vcForall(0, i, func(j int) bool { return vcUpTo(l[j].start, l[i].start) })
	})
}

// vcTable: every name has its own list of occurrences.
func vcTable(vt *VariableTable) bool {
	return vt != nil && vt.variables != nil && vt.globalDeclares != nil && vcForallKey(vt.variables, func(n string) bool {
		return vcImp(vcHas(vt.variables, n), vcOccurrences(vt.variables[n], n)) &&
			vcForallKey(vt.variables, func(m string) bool {
				return vcImp(n != m && vcHas(vt.variables, n) && vcHas(vt.variables, m), vcDisjoint(vt.variables[n], vt.variables[m]))
			})
	})
}

func vcSameOccurrence(a, b contextualVariable) bool {
	return a.v == b.v && a.start == b.start && a.isDeclaration == b.isDeclaration
}

// vcPlace is the number of occurrences up to the last one of l[:m] that starts no later.
//
//vc:rec
func vcPlace(l []contextualVariable, start protocol.Position, m int) int {
	if m <= 0 || vcUpTo(l[m-1].start, start) {
		return m
	}
	return vcPlace(l, start, m-1)
}

func vcSorted(l []contextualVariable) bool {
	return vcForall(0, len(l), func(i int) bool { return vcForall(0, i, func(j int) bool { return vcUpTo(l[j].start, l[i].start) }) })
}

//vc:lemma props=C12
func vc_place(l []contextualVariable, start protocol.Position, m int) {
	vcRequires(0 <= m && m <= len(l) && vcSorted(l))
	vcDecreases(m)
	if m > 0 {
		vc_place(l, start, m-1)
	}
	k := vcPlace(l, start, m)
	vcEnsures("range", 0 <= k && k <= m)
	vcEnsures("up to it", vcForall(0, k, func(i int) bool { return vcUpTo(l[i].start, start) }))
	vcEnsures("from it on", vcForall(k, m, func(i int) bool { return !vcUpTo(l[i].start, start) }))
}

//vc:contract newVariableTable props=C12
func vc_newVariableTable(r protocol.Range, level int) {
	vt := newVariableTable(r, level)
	vcEnsures("empty", vcTable(vt) && vcForallKey(vt.variables, func(n string) bool { return !vcHas(vt.variables, n) }))
	vcEnsures("scope", vt.locationRange == r && vt.level == level && len(vt.children) == 0)
}

//vc:contract (*VariableTable).add props=C12
func vc_VariableTable_add(vt *VariableTable, a analyser, variable *Variable, start protocol.Position, isDeclaration bool) {
	vcRequires(vcTable(vt) && variable != nil)
	name := variable.Name
	was := vt.variables[name]
	vcModifies(vt.variables, was)
	old, tables := vcSnap(was), vcSnapMap(vt.variables)
	if len(old) > 0 {
		vc_place(old, start, len(old))
	}
	vt.add(a, variable, start, isDeclaration)
	now := vt.variables[name]
	n := len(old)
	at := vcPlace(old, start, n)
	vcEnsures("one more", vcHas(vt.variables, name) && len(now) == n+1)
	vcEnsures("recorded after all that start no later", now[at].v == variable && now[at].start == start && now[at].isDeclaration == isDeclaration)
	vcEnsures("earlier ones first", vcForall(0, at, func(i int) bool { return vcUpTo(old[i].start, start) && vcSameOccurrence(now[i], old[i]) }))
	vcEnsures("later ones after it", vcForall(at, n, func(i int) bool { return !vcUpTo(old[i].start, start) && vcSameOccurrence(now[i+1], old[i]) }))
	vcEnsures("other names", vcForallKey(vt.variables, func(m string) bool {
		return m == name || vcHas(vt.variables, m) == vcHas(tables, m) && vcSameSlice(vt.variables[m], tables[m])
	}))
	vcEnsures("named", vcForall(0, n+1, func(i int) bool { return now[i].v != nil && now[i].v.Name == name }))
	vcEnsures("sorted", vcSorted(now))
	vcEnsures("own list", vcForallKey(vt.variables, func(m string) bool {
		return vcImp(m != name && vcHas(vt.variables, m), vcDisjoint(now, vt.variables[m]))
	}))
	vcEnsures("table", vcTable(vt))
}

//vc:loop (*VariableTable).add 0
func vcl_VariableTable_add(vt *VariableTable, c_old []contextualVariable, c_was []contextualVariable, c_name string) {
	vcInv("occurrences", vcForall(0, len(c_old), func(i int) bool { return vcSameOccurrence(c_was[i], c_old[i]) }))
}

//vc:contract (*VariableTable).get props=C12
func vc_VariableTable_get(vt *VariableTable, name string, pos protocol.Position) {
	vcRequires(vcTable(vt))
	l := vt.variables[name]
	r := vt.get(name, pos)
	vcEnsures("nothing before the first", vcImp(len(l) == 0 || !vcUpTo(l[0].start, pos), r == nil))
	vcEnsures("latest that is not after", vcForall(0, len(l), func(k int) bool {
		return vcImp(vcUpTo(l[k].start, pos) && (k+1 == len(l) || !vcUpTo(l[k+1].start, pos)), r == l[k].v)
	}))
}

// vcIsLatest: the latest of the occurrences that start before pos is v.
func vcIsLatest(l []contextualVariable, pos protocol.Position, v *Variable) bool {
	return vcForall(0, len(l), func(k int) bool {
		return vcImp(!vcUpTo(pos, l[k].start) && (k+1 == len(l) || vcUpTo(pos, l[k+1].start)), v == l[k].v)
	})
}

func vcVisible(l []contextualVariable, pos protocol.Position) bool {
	return len(l) > 0 && !vcUpTo(pos, l[0].start)
}

//vc:hide every name = once, latest before, visited
func vcTableHides() {}

//vc:contract (*VariableTable).GetVariables props=C12
func vc_GetVariables(vt *VariableTable, pos protocol.Position) {
	vcRequires(vcTable(vt))
	r := vt.GetVariables(pos)
	vcEnsures("every name", vcForallKey(vt.variables, func(n string) bool {
		return vcImp(vcHas(vt.variables, n) && vcVisible(vt.variables[n], pos), vcExists(0, len(r), func(j int) bool { return r[j] != nil && r[j].Name == n }))
	}))
	vcEnsures("latest before", vcForall(0, len(r), func(j int) bool {
		return r[j] != nil && vcHas(vt.variables, r[j].Name) && vcVisible(vt.variables[r[j].Name], pos) && vcIsLatest(vt.variables[r[j].Name], pos, r[j])
	}))
	vcEnsures("once", vcForall(0, len(r), func(j int) bool { return vcForall(0, j, func(i int) bool { return r[i].Name != r[j].Name }) }))
}

//vc:loop (*VariableTable).GetVariables 0
func vcl_GetVariables(vt *VariableTable, results, results_head []*Variable, pos protocol.Position) {
	vcStep("kept", len(results_head) <= len(results) && len(results) <= len(results_head)+1 && vcForall(0, len(results_head), func(j int) bool { return results[j] == results_head[j] }))
	vcStep("last", len(results) == 0 || results[len(results)-1] != nil)
	vcInv("every name", vcForallKey(vt.variables, func(n string) bool {
		return vcImp(vcHas(vt.variables, n) && vcVisited(vt.variables, n) && vcVisible(vt.variables[n], pos), vcExists(0, len(results), func(j int) bool { return results[j] != nil && results[j].Name == n }))
	}))
	vcInv("latest before", vcForall(0, len(results), func(j int) bool {
		return results[j] != nil && vcHas(vt.variables, results[j].Name) && vcVisible(vt.variables[results[j].Name], pos) && vcIsLatest(vt.variables[results[j].Name], pos, results[j])
	}))
	vcInv("visited", vcForall(0, len(results), func(j int) bool { return vcVisited(vt.variables, results[j].Name) }))
	vcInv("once", vcForall(0, len(results), func(j int) bool {
		return vcForall(0, j, func(i int) bool { return results[i].Name != results[j].Name })
	}))
	vcInv("fresh", vcFreshSlice(results))
}

//vc:contract (*VariableTable).GetContextualVariables props=C12
func vc_GetContextualVariables(vt *VariableTable, name string) {
	vcRequires(vcTable(vt))
	r := vt.GetContextualVariables(name)
	vcEnsures("all occurrences", len(r) == len(vt.variables[name]) && vcSameSlice(r, vt.variables[name]))
}

//vc:contract (*Document).pushVariable props=C12
func vc_pushVariable(s *Document, a analyser, variable *Variable, pos protocol.Position, isDeclaration bool) {
	vcRequires(s != nil && len(s.variableTables) > 0 && variable != nil)
	vt := s.variableTables[len(s.variableTables)-1]
	vcRequires(vcTable(vt))
	name := variable.Name
	was := vt.variables[name]
	vcModifies(vt.variables, was, &variable.Type, &variable.Scope, &variable.canReferenceGlobal)
	old, tables := vcSnap(was), vcSnapMap(vt.variables)
	s.pushVariable(a, variable, pos, isDeclaration)
	now := vt.variables[name]
	n := len(old)
	at := vcPlace(old, pos, n)
	vcEnsures("one more", vcHas(vt.variables, name) && len(now) == n+1)
	vcEnsures("recorded after all that start no later", now[at].v == variable && now[at].start == pos && now[at].isDeclaration == isDeclaration)
	vcEnsures("earlier ones first", vcForall(0, at, func(i int) bool { return vcUpTo(old[i].start, pos) && vcSameOccurrence(now[i], old[i]) }))
	vcEnsures("later ones after it", vcForall(at, n, func(i int) bool { return !vcUpTo(old[i].start, pos) && vcSameOccurrence(now[i+1], old[i]) }))
	vcEnsures("other names", vcForallKey(vt.variables, func(m string) bool {
		return m == name || vcHas(vt.variables, m) == vcHas(tables, m) && vcSameSlice(vt.variables[m], tables[m])
	}))
	vcEnsures("table", vcTable(vt))
}
