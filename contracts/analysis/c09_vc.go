//go:build verif

package analysis

import (
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// Specification of name resolution (property C09).

// vcFQN: the name stands for itself, it is fully qualified or a reserved type name.
func vcFQN(name string) bool {
	_, native := Natives[name]
	return name != "" && (native || name[0] == '\\')
}

//vc:contract IsFQN props=C09
func vc_IsFQN(name string) {
	r := IsFQN(name)
	vcEnsures("stands for itself", r == vcFQN(name))
}

// vcSegment is the first segment of a name, vcRemaining what comes after it, with its separator.
func vcSegment(name string) string {
	if ix := strings.Index(name, "\\"); ix >= 0 {
		return name[:ix]
	}
	return name
}

func vcRemaining(name string) string {
	if ix := strings.Index(name, "\\"); ix >= 0 {
		return name[ix:]
	}
	return ""
}

// vcItems: every alias has an import.
func vcItems(items map[string]*importItem) bool {
	return vcForallKey(items, func(k string) bool { return vcImp(vcHas(items, k), items[k] != nil) })
}

func vcImportTable(i ImportTable) bool {
	return vcItems(i.classes) && vcItems(i.functions) && vcItems(i.constants)
}

// vcMatches: the first segment of a name means the alias; names of types do so only as written.
func vcMatches(alias, segment string) bool {
	return alias == segment || !vcFQN(segment) && strings.EqualFold(alias, segment)
}

// vcImported: some import has the alias.
func vcImported(items map[string]*importItem, segment string) bool {
	return vcExistsKey(items, func(k string) bool { return vcHas(items, k) && vcMatches(k, segment) })
}

// vcImportOf: r is the name with its first segment replaced by an import that has it as its alias.
func vcImportOf(items map[string]*importItem, name, r string) bool {
	segment, rest := vcSegment(name), vcRemaining(name)
	if vcHas(items, segment) {
		return r == "\\"+items[segment].name+rest
	}
	return vcExistsKey(items, func(k string) bool {
		return vcHas(items, k) && vcMatches(k, segment) && r == "\\"+items[k].name+rest
	})
}

func vcInNamespace(namespace, name string) string {
	if vcFQN(name) {
		return name
	}
	if namespace == "" {
		return "\\" + name
	}
	return "\\" + namespace + "\\" + name
}

//vc:contract (*TypeString).SetNamespace props=C09
func vc_SetNamespace(t *TypeString, namespace string) {
	vcRequires(t != nil)
	vcModifies(&t.fqn)
	name := t.fqn
	t.SetNamespace(namespace)
	vcEnsures("namespaced", t.fqn == vcInNamespace(namespace, name))
}

//vc:contract (TypeString).GetParts props=C09
func vc_GetParts(t TypeString) {
	name := strings.TrimPrefix(t.fqn, "\\")
	parts := t.GetParts()
	vcEnsures("first segment", t.fqn == "" || len(parts) > 0 && parts[0] == vcSegment(name))
	vcEnsures("no segments", t.fqn != "" || len(parts) == 0)
	vcEnsures("qualified", (len(parts) > 1) == (vcRemaining(name) != ""))
	vcEnsures("remaining segments", len(parts) <= 1 || "\\"+strings.Join(parts[1:], "\\") == vcRemaining(name))
}

//vc:contract (TypeString).GetFirstAndRestParts props=C09
func vc_GetFirstAndRestParts(t TypeString) {
	name := strings.TrimPrefix(t.fqn, "\\")
	first, rest := t.GetFirstAndRestParts()
	vcEnsures("first segment", first == vcSegment(name))
	vcEnsures("qualified", (len(rest) > 0) == (vcRemaining(name) != ""))
	vcEnsures("remaining segments", len(rest) == 0 || "\\"+strings.Join(rest, "\\") == vcRemaining(name))
}

//vc:contract findImport props=C09
func vc_findImport(items map[string]*importItem, alias string) {
	vcRequires(vcItems(items))
	item, ok := findImport(items, alias)
	vcEnsures("found", ok == vcImported(items, alias))
	vcEnsures("has the alias", vcImp(ok, vcExistsKey(items, func(k string) bool {
		return vcHas(items, k) && vcMatches(k, alias) && items[k] == item
	})))
	vcEnsures("as written", vcImp(vcHas(items, alias), ok && item == items[alias]))
}

//vc:loop findImport 0
func vcl_findImport(items map[string]*importItem, alias string) {
	vcInv("not yet", vcForallKey(items, func(k string) bool { return vcImp(vcHas(items, k) && vcVisited(items, k), !vcMatches(k, alias)) }))
}

//vc:contract (*importItem).fqnWith props=C09
func vc_fqnWith(i *importItem, parts []string) {
	vcRequires(i != nil)
	r := i.fqnWith(parts)
	if len(parts) == 0 {
		vcEnsures("import", r == "\\"+i.name)
	} else {
		vcEnsures("remaining segments", r == "\\"+i.name+"\\"+strings.Join(parts, "\\"))
	}
}

//vc:contract (ImportTable).GetClassReferenceFQN props=C09
func vc_GetClassReferenceFQN(i ImportTable, name TypeString) {
	vcRequires(vcImportTable(i))
	var item importItem
	vcModifiesEvery(&item.isUsed)
	r := i.GetClassReferenceFQN(name)
	qualified := strings.HasPrefix(name.fqn, "\\")
	imported := vcImported(i.classes, vcSegment(name.fqn))
	vcEnsures("fully qualified", vcImp(qualified, r == name.fqn))
	vcEnsures("imported", vcImp(!qualified && imported, vcImportOf(i.classes, name.fqn, r)))
	vcEnsures("namespaced", vcImp(!qualified && !imported, r == vcInNamespace(i.GetNamespace(), name.fqn)))
}

//vc:contract (ImportTable).FunctionPossibleFQNs props=C09
func vc_FunctionPossibleFQNs(i ImportTable, name TypeString) {
	vcRequires(vcImportTable(i))
	r := i.FunctionPossibleFQNs(name)
	vcPossible(i, i.functions, name.fqn, r)
}

// vcPossible are the names a function may have: the import, or the one in the namespace and,
// for an unqualified name, the global one.
func vcPossible(i ImportTable, aliases map[string]*importItem, name string, r []string) {
	vcEnsures("some name", len(r) > 0)
	qualified := strings.HasPrefix(name, "\\")
	rest := vcRemaining(name)
	var imported, isImport bool
	if rest == "" {
		imported, isImport = vcImported(aliases, vcSegment(name)), vcImportOf(aliases, name, r[0])
	} else {
		imported, isImport = vcImported(i.classes, vcSegment(name)), vcImportOf(i.classes, name, r[0])
	}
	namespaced := vcInNamespace(i.GetNamespace(), name)
	vcEnsures("fully qualified", vcImp(qualified, len(r) == 1 && r[0] == name))
	vcEnsures("imported", vcImp(!qualified && imported, len(r) == 1 && isImport))
	vcEnsures("namespaced", vcImp(!qualified && !imported, r[0] == namespaced))
	vcEnsures("global", vcImp(!qualified && !imported && rest == "" && !vcFQN(name) && namespaced != "\\"+name, len(r) == 2 && r[1] == "\\"+name))
	vcEnsures("only if unqualified", vcImp(!imported && (rest != "" || vcFQN(name) || namespaced == "\\"+name), len(r) == 1))
}

// vcFunctions and vcConstants: the index has a function, or a constant, of that name.
//
//vc:rec
func vcFunctions(q *Query, fqn string) bool { return len(q.GetFunctions(fqn)) > 0 }

//vc:rec
func vcConsts(q *Query, fqn string) bool { return len(q.GetConsts(fqn)) > 0 }

//vc:rec
func vcDefines(q *Query, fqn string) bool { return len(q.GetDefines(fqn)) > 0 }

//vc:trusted (*Query).GetFunctions
func vc_GetFunctions(s *Query, name string) {
	r := s.GetFunctions(name)
	vcEnsures("answer", (len(r) > 0) == vcFunctions(s, name))
}

//vc:trusted (*Query).GetConsts
func vc_GetConsts(s *Query, name string) {
	r := s.GetConsts(name)
	vcEnsures("answer", (len(r) > 0) == vcConsts(s, name))
}

//vc:trusted (*Query).GetDefines
func vc_GetDefines(s *Query, name string) {
	r := s.GetDefines(name)
	vcEnsures("answer", (len(r) > 0) == vcDefines(s, name))
}

//vc:contract (ImportTable).GetFunctionReferenceFQN props=C09
//vc:opt opaque=vcFunctions
func vc_GetFunctionReferenceFQN(i ImportTable, q *Query, name TypeString) {
	vcRequires(vcImportTable(i) && q != nil)
	r := i.GetFunctionReferenceFQN(q, name)
	namespaced, global := vcInNamespace(i.GetNamespace(), name.fqn), "\\"+name.fqn
	vcReference(i, i.functions, vcSegment(name.fqn), name.fqn, r, vcFunctions(q, namespaced), vcFunctions(q, global))
}

// vcReference: r is the name a function or constant has by PHP's rules; its declaration in the
// namespace is preferred to the global one.
func vcReference(i ImportTable, aliases map[string]*importItem, segment, name, r string, inNamespace, inGlobal bool) {
	qualified := strings.HasPrefix(name, "\\")
	rest := vcRemaining(name)
	if rest == "" {
		vcEnsures("imported", vcImp(vcImported(aliases, segment), vcImportOf(aliases, name, r)))
	} else {
		vcEnsures("qualified and imported", vcImp(!qualified && vcImported(i.classes, segment), vcImportOf(i.classes, name, r)))
	}
	imported := rest == "" && vcImported(aliases, segment) || rest != "" && vcImported(i.classes, segment)
	namespaced := vcInNamespace(i.GetNamespace(), name)
	vcEnsures("fully qualified", vcImp(qualified, r == name))
	vcEnsures("qualified", vcImp(!qualified && !imported && (rest != "" || vcFQN(name)), r == namespaced))
	unqualified := !qualified && !imported && rest == "" && !vcFQN(name)
	vcEnsures("namespaced first", vcImp(unqualified && (inNamespace || !inGlobal), r == namespaced))
	vcEnsures("then global", vcImp(unqualified && !inNamespace && inGlobal, r == "\\"+name))
}

//vc:loop (ImportTable).GetFunctionReferenceFQN 0
func vcl_GetFunctionReferenceFQN(q *Query, fqns []string, vcI int) {
	vcInv("none yet", vcForall(0, vcI, func(k int) bool { return !vcFunctions(q, fqns[k]) }))
}

//vc:contract (ImportTable).GetConstReferenceFQN props=C09
//vc:opt opaque=vcConsts+vcDefines
func vc_GetConstReferenceFQN(i ImportTable, q *Query, name TypeString) {
	vcRequires(vcImportTable(i) && q != nil)
	r := i.GetConstReferenceFQN(q, name)
	fqn := name.fqn
	qualified := strings.HasPrefix(fqn, "\\")
	rest := vcRemaining(fqn)
	imported := rest == "" && vcHas(i.constants, fqn) || rest != "" && vcImported(i.classes, vcSegment(fqn))
	vcEnsures("imported", !(rest == "" && vcHas(i.constants, fqn)) || r == "\\"+i.constants[fqn].name)
	vcEnsures("qualified and imported", vcImp(!qualified && rest != "" && imported, vcImportOf(i.classes, fqn, r)))
	namespaced, global := vcInNamespace(i.GetNamespace(), fqn), "\\"+fqn
	vcEnsures("fully qualified", vcImp(qualified, r == fqn))
	vcEnsures("qualified", vcImp(!qualified && !imported && (rest != "" || vcFQN(fqn)), r == namespaced))
	unqualified := !qualified && !imported && rest == "" && !vcFQN(fqn)
	inNamespace := vcConsts(q, namespaced) || vcDefines(q, namespaced)
	inGlobal := vcConsts(q, global) || vcDefines(q, global)
	vcEnsures("namespaced first", vcImp(unqualified && (inNamespace || !inGlobal), r == namespaced))
	vcEnsures("then global", vcImp(unqualified && !inNamespace && inGlobal, r == global))
}

//vc:loop (ImportTable).GetConstReferenceFQN 0
func vcl_GetConstReferenceFQN(q *Query, fqns []string, vcI int) {
	vcInv("none yet", vcForall(0, vcI, func(k int) bool { return !vcConsts(q, fqns[k]) && !vcDefines(q, fqns[k]) }))
}

// vcAlias is the alias of an import: the last segment of its name unless it is written.
func vcAlias(alias, name string) string {
	if alias != "" {
		return alias
	}
	return name[strings.LastIndex(name, "\\")+1:]
}

//vc:contract makeSureAliasIsNotEmpty props=C09
func vc_makeSureAliasIsNotEmpty(alias, name string) {
	r := makeSureAliasIsNotEmpty(alias, name)
	vcEnsures("alias", r == vcAlias(alias, name))
}

// vcAdded: the import was recorded under its alias, in place of an earlier one.
func vcAdded(now, old map[string]*importItem, alias, name string) bool {
	k := vcAlias(alias, name)
	return vcHas(now, k) && now[k] != nil && now[k].name == name && vcForallKey(now, func(a string) bool {
		return vcImp(a != k, vcHas(now, a) == vcHas(old, a) && now[a] == old[a])
	})
}

//vc:contract (*ImportTable).addClassName props=C09
func vc_addClassName(i *ImportTable, alias, name string, r protocol.Range) {
	vcRequires(i != nil && i.classes != nil && vcItems(i.classes))
	vcModifies(i.classes)
	old := vcSnapMap(i.classes)
	i.addClassName(alias, name, r)
	vcEnsures("imported", vcAdded(i.classes, old, alias, name))
	vcEnsures("items", vcItems(i.classes))
}

//vc:contract (*ImportTable).addFunctionName props=C09
func vc_addFunctionName(i *ImportTable, alias, name string, r protocol.Range) {
	vcRequires(i != nil && i.functions != nil && vcItems(i.functions))
	vcModifies(i.functions)
	old := vcSnapMap(i.functions)
	i.addFunctionName(alias, name, r)
	vcEnsures("imported", vcAdded(i.functions, old, alias, name))
	vcEnsures("items", vcItems(i.functions))
}

//vc:contract (*ImportTable).addConstName props=C09
func vc_addConstName(i *ImportTable, alias, name string, r protocol.Range) {
	vcRequires(i != nil && i.constants != nil && vcItems(i.constants))
	vcModifies(i.constants)
	old := vcSnapMap(i.constants)
	i.addConstName(alias, name, r)
	vcEnsures("imported", vcAdded(i.constants, old, alias, name))
	vcEnsures("items", vcItems(i.constants))
}

// vcBefore: a is before b.
func vcBefore(a, b protocol.Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Character < b.Character
}

//vc:contract (*Document).ImportTableAtPos props=C09
func vc_ImportTableAtPos(s *Document, pos protocol.Position) {
	vcRequires(s != nil && len(s.importTables) > 0)
	ts := s.importTables
	vcRequires(vcForall(0, len(ts), func(k int) bool { return ts[k] != nil }))
	vcRequires(vcForall(0, len(ts), func(k int) bool {
		return vcForall(0, k, func(j int) bool { return !vcBefore(ts[k].start, ts[j].start) })
	}))
	r := s.ImportTableAtPos(pos)
	vcEnsures("first part of the file", vcImp(len(ts) == 1 || !vcBefore(ts[1].start, pos), r == ts[0]))
	vcEnsures("table of its part of the file", vcForall(1, len(ts), func(k int) bool {
		return vcImp(vcBefore(ts[k].start, pos) && (k+1 == len(ts) || !vcBefore(ts[k+1].start, pos)), r == ts[k])
	}))
}
