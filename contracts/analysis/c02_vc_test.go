//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

// vcDump writes out what the index serves of a symbol: everything but the symbols within it,
// the place of its name (which is in the index of references), and what a @deprecated tag does
// not have.
func vcDump(v reflect.Value, descriptions bool) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				switch {
				case f.Name == "children", f.Name == "refLocation" && v.Type().Name() != "Class":
					continue
				case v.Type().Name() == "tag" && f.Name != "TagName" && f.Name != "Name" && f.Name != "Description":
					continue
				case v.Type().Name() == "Parameter" && f.Name == "description" && !descriptions:
					continue
				}
				b.WriteString(f.Name + ":")
				walk(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Int:
			fmt.Fprint(&b, v.Int())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		default:
			panic("a field of kind " + v.Kind().String())
		}
	}
	walk(v)
	return b.String()
}

// vcFill gives the value something in every attribute.
func vcFillSymbol(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type().Elem().Name() == "tag" && r.Intn(2) == 0 {
			return
		}
		p := reflect.New(v.Type().Elem())
		vcFillSymbol(r, p.Elem())
		v.Set(p)
		if v.Type().Elem().Name() == "tag" {
			p.Interface().(*tag).TagName = "@deprecated"
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "children" || v.Type().Field(i).Name == "Parameters" {
				continue
			}
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			vcFillSymbol(r, f)
		}
	case reflect.Slice:
		n := []int{0, 1, 1, 2, 3, 4, 17}[r.Intn(7)]
		if r.Intn(60) == 0 {
			n = 20 + r.Intn(300)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			vcFillSymbol(r, s.Index(i))
		}
		v.Set(s)
	case reflect.String:
		if r.Intn(100) == 0 {
			v.SetString(strings.Repeat("text", 1<<uint(r.Intn(15))) + "!")
			return
		}
		v.SetString([]string{"", "a", "\\A\\B", "résumé", "\xff\x00", "日本", "$x", strings.Repeat("long ", 60), "int", fmt.Sprint(r.Intn(1000))}[r.Intn(10)])
	case reflect.Int:
		v.SetInt([]int64{0, 1, 2, 3, -1, 255, 256, 1 << 40, -1 << 40, int64(r.Intn(1000))}[r.Intn(10)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	}
}

var vcSymbols = map[string]func() (serialisable, func(*storage.Decoder) interface{}){
	"class": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Class{}, func(d *storage.Decoder) interface{} { return ReadClass(d) }
	},
	"interface": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Interface{}, func(d *storage.Decoder) interface{} { return ReadInterface(d) }
	},
	"trait": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Trait{}, func(d *storage.Decoder) interface{} { return ReadTrait(d) }
	},
	"function": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Function{}, func(d *storage.Decoder) interface{} { return ReadFunction(d) }
	},
	"method": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Method{}, func(d *storage.Decoder) interface{} { return ReadMethod(d) }
	},
	"property": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Property{}, func(d *storage.Decoder) interface{} { return ReadProperty(d) }
	},
	"classConst": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &ClassConst{}, func(d *storage.Decoder) interface{} { return ReadClassConst(d) }
	},
	"const": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Const{}, func(d *storage.Decoder) interface{} { return ReadConst(d) }
	},
	"define": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &Define{}, func(d *storage.Decoder) interface{} { return ReadDefine(d) }
	},
	"global": func() (serialisable, func(*storage.Decoder) interface{}) {
		return &GlobalVariable{}, func(d *storage.Decoder) interface{} { return ReadGlobalVariable(d) }
	},
}

var vcSymbolKinds = []string{"class", "interface", "trait", "function", "method", "property", "classConst", "const", "define", "global"}

func vc_symbolRecord(kind string, r *rand.Rand) {
	s, read := vcSymbols[kind]()
	vcFillSymbol(r, reflect.ValueOf(s).Elem())
	before := vcDump(reflect.ValueOf(s), false)
	e := storage.NewEncoder()
	s.Serialise(e)
	d := storage.NewDecoder(e.Bytes())
	got := read(d)
	vcEnsures("writing leaves the symbol as it is", vcDump(reflect.ValueOf(s), false) == before)
	vcEnsures("all of the record is read", d.Len() == 0)
	if after := vcDump(reflect.ValueOf(got), false); after != before {
		vcEnsures(fmt.Sprintf("a %s is read as written:\n%s\n%s", kind, before, after), false)
	}
}

// A description of a parameter is kept like that of its function.
func vc_describedParameter() {
	f := &Function{Params: []*Parameter{{Name: "$a", description: "what a is"}}}
	e := storage.NewEncoder()
	f.Serialise(e)
	got := ReadFunction(storage.NewDecoder(e.Bytes()))
	vcEnsures("description of a parameter", len(got.Params) == 1 && got.Params[0].description == "what a is")
}

// vcIndexed: every declaration of a file is got from the index as it was declared.
func vc_indexed(s *Store, r *rand.Rand, n int) {
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	doc := func(tags string) string {
		return pick("", "", "/** "+pick("Something.", "Été", "")+"\n * @deprecated "+pick("", "since 2", "use other")+"\n */\n", "/**\n * "+pick("A text", "Two\n * lines")+"\n"+tags+" */\n")
	}
	params := func() string {
		var l []string
		for k := r.Intn(4); k > 0; k-- {
			l = append(l, pick("", "int ", "?string ", "array ", "Foo ", "\\A\\Bar ")+fmt.Sprintf("$p%d", k)+pick("", "", " = 5", " = 'x'", " = null", " = Foo::X"))
		}
		return "(" + strings.Join(l, ", ") + ")"
	}
	vis := func() string { return pick("public ", "protected ", "private ") }
	var b strings.Builder
	b.WriteString("<?php\n" + pick("", fmt.Sprintf("namespace N%d;\n", r.Intn(2)), "namespace A\\B;\n") + pick("", "use X\\Foo;\n", "use X\\Foo as Bar;\n"))
	for k := 1 + r.Intn(3); k > 0; k-- {
		id := fmt.Sprintf("%d_%d", n, k)
		members := func(iface bool) string {
			var m strings.Builder
			for j := r.Intn(5); j > 0; j-- {
				id := fmt.Sprintf("%d", j)
				switch r.Intn(3) {
				case 0:
					m.WriteString(doc("") + pick("", vis()) + "const X" + id + " = " + pick("1", "'a'", "self::Y") + ";\n")
				case 1:
					if !iface {
						m.WriteString(doc(" * @var int|string\n") + vis() + pick("", "static ") + "$v" + id + pick("", " = 1") + ";\n")
					}
				default:
					m.WriteString(doc(" * @return int|Foo[]\n * @param int $p1 the p\n") + pick("", vis()) + pick("", "static ", "final ") + "function m" + id + params() + pick("", ": int", ": ?Foo"))
					m.WriteString(pick("{}", "{}") + "\n")
				}
			}
			return m.String()
		}
		switch r.Intn(7) {
		case 0:
			b.WriteString(doc("") + pick("", "abstract ", "final ") + "class C" + id + pick("", " extends Foo", " extends \\A\\Bar") + pick("", " implements I1", " implements I1, \\I2") + " {\n" + pick("", "use T1;\n", "use T1, \\T2;\n") + members(false) + "}\n")
		case 1:
			b.WriteString(doc("") + "interface I" + id + pick("", " extends I1", " extends I1, I2") + " {\n" + members(true) + "}\n")
		case 2:
			b.WriteString(doc("") + "trait T" + id + " {\n" + members(false) + "}\n")
		case 3, 4:
			b.WriteString(doc(" * @return int|Foo[]\n * @param int $p1 the p\n") + "function f" + id + params() + pick("", ": int", ": \\A\\Bar") + "{}\n")
		case 5:
			b.WriteString(doc("") + "const K" + id + " = " + pick("1", "'x'") + ";\n")
		default:
			b.WriteString(doc("") + "define('D" + id + "', " + pick("1", "'x'") + ");\n")
		}
	}
	uri := fmt.Sprintf("file:///home/p/f%d.php", n)
	document := NewDocument(uri, []byte(b.String()))
	document.Load()
	s.SyncDocument(document)
	tra := newTraverser()
	tra.traverseDocument(document, func(_ *traverser, child Symbol, _ []Symbol) {
		var found []interface{}
		switch v := child.(type) {
		case *Class:
			for _, x := range s.GetClasses(GetClassFQNLowerCase(v.Name.GetFQN())) {
				found = append(found, x)
			}
		case *Interface:
			for _, x := range s.GetInterfaces(v.Name.GetFQN()) {
				found = append(found, x)
			}
		case *Trait:
			for _, x := range s.GetTraits(v.Name.GetFQN()) {
				found = append(found, x)
			}
		case *Function:
			for _, x := range s.GetFunctions(v.Name.GetFQN()) {
				found = append(found, x)
			}
		case *Method:
			for _, x := range s.GetMethods(v.Scope.GetFQN(), v.Name) {
				found = append(found, x)
			}
		case *Property:
			for _, x := range s.GetProperties(v.Scope.GetFQN(), v.Name) {
				found = append(found, x)
			}
		case *ClassConst:
			for _, x := range s.GetClassConsts(v.Scope.GetFQN(), v.Name) {
				found = append(found, x)
			}
		case *Const:
			for _, x := range s.GetConsts(v.Name.GetFQN()) {
				found = append(found, x)
			}
		case *Define:
			for _, x := range s.GetDefines(v.Name.GetFQN()) {
				found = append(found, x)
			}
		default:
			return
		}
		want := vcDump(reflect.ValueOf(child), false)
		for _, f := range found {
			if vcDump(reflect.ValueOf(f), false) == want {
				return
			}
		}
		vcEnsures(fmt.Sprintf("%s\n is in the index of\n%s\n (there are %d by its name)", want, b.String(), len(found)), false)
	})
	s.DeleteDocument(uri)
}

func TestVC_C02(t *testing.T) {
	e := vcNew(t, "C02", "described parameter")
	e.check("", func() { vc_describedParameter() })
	h := vcNew(t, "C02", "records of symbols")
	for n := 0; h.more(20000); n++ {
		seed := h.r.Int63()
		kind := vcSymbolKinds[n%len(vcSymbolKinds)]
		h.check(fmt.Sprint(kind, " of seed ", seed), func() { vc_symbolRecord(kind, rand.New(rand.NewSource(seed))) })
	}
	greb, err := pogreb.Open(filepath.Join(t.TempDir(), "a"), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer greb.Close()
	db := storage.NewMemory()
	s := &Store{uri: "file:///home/p", db: db, comDB: storage.NewMemory(), greb: greb, refIndex: newReferenceIndex(db), documents: cmap.New(), syncedDocumentURIs: cmap.New()}
	g := vcNew(t, "C02", "declarations of files")
	for n := 0; g.more(1500); n++ {
		seed := g.r.Int63()
		g.check(fmt.Sprint("seed ", seed), func() { vc_indexed(s, rand.New(rand.NewSource(seed)), n%100) })
	}
}
