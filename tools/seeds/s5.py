SEEDS={
"C09-alias-of-nested-import":dict(property="C09",pkg="analysis",edits=[("analysis/importTable.go",'''		parts := strings.Split(name, "\\\\")
		alias = parts[len(parts)-1]''','''		alias = name
		if i := strings.Index(name, "\\\\"); i >= 0 {
			alias = name[i+1:]
		}''')],
 test='''func TestZZDemo(t *testing.T) {
	doc := NewDocument("a", []byte("<?php\\nuse Vendor\\\\Pkg\\\\Thing;\\nnew Thing();\\n"))
	doc.Load()
	if got := doc.currImportTable().GetClassReferenceFQN(NewTypeString("Thing")); got != "\\\\Vendor\\\\Pkg\\\\Thing" {
		t.Fatal(got)
	}
}''',needs="an import without an alias whose name has three or more segments",breaks="the import gets the alias Pkg\\Thing, so its name resolves into the current namespace"),
"C09-function-of-imported-namespace":dict(property="C09",pkg="analysis",edits=[("analysis/importTable.go",'''	results := []string{}
	if !strings.HasPrefix''','''	results := []string{}
	if _, ok := i.functions[firstPart]; ok {
		aliasTable = i.functions
	}
	if !strings.HasPrefix''')],
 test='''func TestZZDemo(t *testing.T) {
	doc := NewDocument("a", []byte("<?php\\nuse Vendor\\\\map;\\nuse function Lib\\\\map;\\n"))
	doc.Load()
	got := doc.currImportTable().FunctionPossibleFQNs(NewTypeString("map\\\\run"))
	if len(got) != 1 || got[0] != "\\\\Vendor\\\\map\\\\run" {
		t.Fatal(got)
	}
}''',needs="a function import and a namespace import with the same alias, and a qualified function name that starts with it",breaks="the qualified name takes the function's import instead of the namespace's"),
"C09-last-namespace":dict(property="C09",pkg="analysis",edits=[("analysis/importTable.go","placeholder","placeholder")],test="",needs="",breaks=""),
"C09-native-case":dict(property="C09",pkg="analysis",edits=[("analysis/symbolType.go",'''	if _, ok := Natives[name]; ok {''','''	if _, ok := Natives[strings.ToLower(name)]; ok {''')],
 test='''func TestZZDemo(t *testing.T) {
	doc := NewDocument("a", []byte("<?php\\nnamespace N;\\nclass Binary {}\\nnew Binary();\\n"))
	doc.Load()
	if got := doc.currImportTable().GetClassReferenceFQN(NewTypeString("Binary")); got != "\\\\N\\\\Binary" {
		t.Fatal(got)
	}
}''',needs="a class named like one of the server's lower-case type names in another case, in a namespace",breaks="the class is not prefixed with its namespace"),
}
del SEEDS["C09-last-namespace"]
