HELP='''
func zzQuery(t *testing.T, src string) *Query {
	greb, err := pogreb.Open(t.TempDir()+"/greb", nil)
	if err != nil {
		t.Fatal(err)
	}
	db := storage.NewMemory()
	store := &Store{uri: "test", db: db, comDB: storage.NewMemory(), greb: greb, FS: protocol.NewFileFS(), refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
	doc := NewDocument("file:///zz.php", []byte(src))
	doc.Load()
	for _, c := range doc.Children {
		if i, ok := c.(*Interface); ok {
			for k := range i.Extends {
				i.Extends[k].SetFQN("\\\\" + i.Extends[k].GetOriginal())
			}
		}
	}
	store.SyncDocument(doc)
	return NewQuery(store)
}
'''
IMP='''package analysis

import (
	"testing"
	"time"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)
'''
SEEDS={
"C14-cycle-in-other-case":dict(property="C14",pkg="analysis",
 edits=[("analysis/query.go","""		class, classes = classes[0], classes[1:]
		scope := class.Name.GetFQN()
		if _, ok := searchedFQNs[scope]; ok {
			continue
		}
		searchedFQNs[scope] = struct{}{}
		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(class, q.GetMethods(scope, name))...)
""","""		class, classes = classes[0], classes[1:]
		scope := class.Name.GetFQN()
		searchedFQNs[scope] = struct{}{}
		methods.Methods = append(methods.Methods, methodWithScopeFromMethods(class, q.GetMethods(scope, name))...)
""")],
 test=IMP+HELP+'''
func TestZZDemo(t *testing.T) {
	q := zzQuery(t, "<?php class Node extends LEAF { function a() {} } class Leaf extends NODE { function b() {} }")
	done := make(chan int, 1)
	go func() { done <- q.GetClassMethods(q.GetClasses("\\\\Node")[0], "a", nil).Len() }()
	select {
	case n := <-done:
		if n != 1 {
			t.Fatalf("%d methods", n)
		}
	case <-time.After(2 * time.Second):
		panic("never ends")
	}
}
''',needs="classes that extend each other, spelled in another case than declared",breaks="collecting the methods never ends"),
"C14-diamond-collected-twice":dict(property="C14",pkg="analysis",
 edits=[("analysis/query.go","""		intf, interfaces = interfaces[0], interfaces[1:]
		scope := intf.Name.GetFQN()
		if _, ok := searchedFQNs[scope]; ok {
			continue
		}
		searchedFQNs[scope] = struct{}{}
		methods.Methods""","""		intf, interfaces = interfaces[0], interfaces[1:]
		scope := intf.Name.GetFQN()
		if _, ok := searchedFQNs[scope]; ok && len(interfaces) == 0 {
			continue
		}
		searchedFQNs[scope] = struct{}{}
		methods.Methods""")],
 test=IMP+HELP+'''
func TestZZDemo(t *testing.T) {
	q := zzQuery(t, "<?php interface Base { function load(); } interface Left extends Base {} interface Right extends Base {} interface Last extends Base {} interface All extends Left, Right, Last {}")
	_ = time.Second
	if n := q.GetInterfaceMethods(q.GetInterfaces("\\\\All")[0], "load", nil).Len(); n != 1 {
		t.Fatalf("the method is collected %d times", n)
	}
}
''',needs="an interface reached along three paths",breaks="its members are collected again"),
"C14-interface-per-class":dict(property="C14",pkg="analysis",
 edits=[("analysis/query.go","""classConstsFromInterfaces.Merge(q.GetInterfaceClassConsts(intf, name, classConstsFromInterfaces.SearchedFQNs))""",
 """classConstsFromInterfaces.Merge(q.GetInterfaceClassConsts(intf, name, nil))""")],
 test=IMP+HELP+'''
func TestZZDemo(t *testing.T) {
	q := zzQuery(t, "<?php interface Base { const K = 1; } class A extends B implements Base { } class B implements Base { }")
	_ = time.Second
	if n := len(q.GetClassClassConsts(q.GetClasses("\\\\A")[0], "K", nil).Consts); n != 1 {
		t.Fatalf("the constant is collected %d times", n)
	}
}
''',needs="an interface implemented by a class and by one of its ancestors",breaks="its constants are collected once for each"),
}
