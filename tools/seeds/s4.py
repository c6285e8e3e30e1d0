SEEDS={
"C12-same-start":dict(property="C12",pkg="analysis",edits=[("analysis/variable.go","return protocol.ComparePos(start, prevVars[i].start) < 0","return protocol.ComparePos(start, prevVars[i].start) <= 0")],
 test='''func TestZZDemo(t *testing.T) {
	vt := newVariableTable(protocol.Range{}, 0)
	a := newAnalyser()
	p := protocol.Position{Line: 1}
	x, y := &Variable{}, &Variable{}
	x.Name, y.Name = "$v", "$v"
	vt.add(a, x, p, true)
	vt.add(a, y, p, false)
	if vt.get("$v", p) != y {
		t.Fatal("the occurrence recorded last is not the latest")
	}
}''',imports=["github.com/john-nguyen09/phpintel/internal/lsp/protocol"],
 needs="two occurrences of a name that share a start position, looked up at or after it",breaks="the occurrence recorded first wins over the one recorded last"),
"C12-out-of-order-used":dict(property="C12",pkg="analysis",edits=[
 ("analysis/variable.go","			index = sort.Search(len(prevVars), func(i int) bool {\n				return protocol.ComparePos(start, prevVars[i].start) < 0\n			})","			// occurrences mostly arrive in order, so look from the end\n			index = len(prevVars)\n			for index > 0 && start.Line < prevVars[index-1].start.Line {\n				index--\n			}")],
 test='''func TestZZDemo(t *testing.T) {
	vt := newVariableTable(protocol.Range{}, 0)
	a := newAnalyser()
	x, y := &Variable{}, &Variable{}
	x.Name, y.Name = "$v", "$v"
	vt.add(a, x, protocol.Position{Line: 1, Character: 20}, true)
	vt.add(a, y, protocol.Position{Line: 1, Character: 5}, false)
	if vt.get("$v", protocol.Position{Line: 1, Character: 30}) != x {
		t.Fatal("lookup after both does not give the later one")
	}
}''',imports=["github.com/john-nguyen09/phpintel/internal/lsp/protocol"],
 needs="two occurrences on one line recorded right to left (assignment whose right side mentions the variable)",breaks="the table is no longer sorted, lookups between them miss"),
}
