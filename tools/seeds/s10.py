UIMP='''package util

import "testing"
'''
LIMP='''package lsp

import (
	"testing"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func zzStores(t *testing.T, uris ...string) *workspaceStore {
	s := &workspaceStore{}
	for _, u := range uris {
		st, err := analysis.NewStore(protocol.NewFileFS(), u, t.TempDir())
		if err != nil {
			t.Fatal(err)
		}
		t.Cleanup(st.Close)
		s.stores = append(s.stores, st)
	}
	return s
}
'''
AIMP='''package analysis

import (
	"context"
	"fmt"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

type zzFS map[string]string

func (f zzFS) ListFiles(context.Context, string) ([]protocol.TextDocumentIdentifier, error) {
	return nil, nil
}
func (f zzFS) ReadFile(_ context.Context, uri string) ([]byte, error) {
	if d, ok := f[uri]; ok {
		return []byte(d), nil
	}
	return nil, fmt.Errorf("no file")
}
func (f zzFS) ConvertToURI(uri string) string { return uri }

func zzStore(t *testing.T, fs zzFS) *Store {
	greb, err := pogreb.Open(t.TempDir()+"/greb", nil)
	if err != nil {
		t.Fatal(err)
	}
	db := storage.NewMemory()
	return &Store{uri: "file:///p", db: db, comDB: storage.NewMemory(), greb: greb, FS: fs, refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

func zzIndex(s *Store, uri, src string) {
	d := NewDocument(uri, []byte(src))
	d.Load()
	s.SyncDocument(d)
}
'''
FIMP='''package filter

import "testing"
'''
WIMP='''package wordtokeniser

import "testing"
'''
RIMP='''package analysis

import (
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
)

func zzSymbols(src string) *Document {
	d := NewDocument("file:///p/a.php", []byte(strings.ReplaceAll("<?php#"+src, "#", string(rune(10)))))
	d.Load()
	return d
}

func zzRecord(s serialisable) *storage.Decoder {
	e := storage.NewEncoder()
	s.Serialise(e)
	return storage.NewDecoder(e.Bytes())
}
'''
SEEDS={

"C02-many-parameters":dict(property="C02",pkg="analysis",
 edits=[("analysis/function.go",'''i < countParams; i++''','''i < countParams && i < 32; i++''')],
 test=RIMP+'''
func TestZZDemo(t *testing.T) {
	f := &Function{description: "text"}
	for i := 0; i < 33; i++ {
		f.Params = append(f.Params, &Parameter{Name: "$a"})
	}
	if g := ReadFunction(zzRecord(f)); len(g.Params) != 33 || g.description != "text" {
		t.Fatal(len(g.Params), g.description)
	}
}
''',needs="a function of more than 32 parameters",breaks="the rest of the record is misread"),
"C02-packed-modifiers":dict(property="C02",pkg="analysis",
 edits=[("analysis/method.go",'''	e.WriteInt(int(s.VisibilityModifier))
	e.WriteBool(s.isStatic)
	e.WriteInt(int(s.ClassModifier))
''','''	e.WriteInt(int(s.VisibilityModifier)*2 + int(s.ClassModifier))
	e.WriteBool(s.isStatic)
'''),("analysis/method.go",'''	method.VisibilityModifier = VisibilityModifierValue(d.ReadInt())
	method.isStatic = d.ReadBool()
	method.ClassModifier = ClassModifierValue(d.ReadInt())
''','''	modifiers := d.ReadInt()
	method.VisibilityModifier = VisibilityModifierValue(modifiers / 2)
	method.ClassModifier = ClassModifierValue(modifiers % 2)
	method.isStatic = d.ReadBool()
''')],
 test=RIMP+'''
func TestZZDemo(t *testing.T) {
	for _, m := range []*Method{{Name: "m", VisibilityModifier: Protected, ClassModifier: Final}, {Name: "m", VisibilityModifier: Protected, ClassModifier: Abstract}} {
		if n := ReadMethod(zzRecord(m)); n.VisibilityModifier != m.VisibilityModifier || n.ClassModifier != m.ClassModifier {
			t.Fatal(n.VisibilityModifier, n.ClassModifier)
		}
	}
}
''',needs="a final method",breaks="it is read back with another visibility and not final"),
"C02-long-value-cut":dict(property="C02",pkg="analysis",
 edits=[("analysis/define.go",'''	s.Name.Write(e)
	e.WriteString(s.Value)
}''','''	s.Name.Write(e)
	value := s.Value
	if len(value) > 1024 {
		value = value[:1024]
	}
	e.WriteString(value)
}''')],
 test=RIMP+'''
func TestZZDemo(t *testing.T) {
	d := &Define{Value: strings.Repeat("a", 1100)}
	if ReadDefine(zzRecord(d)).Value != d.Value {
		t.Fatal("cut")
	}
}
''',needs="a define whose value is longer than 1024 bytes",breaks="the value is cut in the index"),
"C10-long-names":dict(property="C10",pkg="analysis",
 edits=[("analysis/completionIndex.go",'''		token = strings.ToLower(token)
		keys = append''','''		token = strings.ToLower(token)
		if len(token) > 64 {
			token = token[:64]
		}
		keys = append''')],
 test=AIMP+'''
func TestZZDemo(t *testing.T) {
	s := zzStore(t, zzFS{})
	name := "A"
	for i := 0; i < 70; i++ {
		name += "a"
	}
	zzIndex(s, "file:///p/a.php", "<?php\\nclass "+name+" {}\\n")
	if l, _ := s.SearchClasses(name[:68], NewSearchOptions()); len(l) == 0 {
		t.Fatal("not found")
	}
}
''',needs="a name of more than 64 bytes and a keyword of more than 64 bytes",breaks="the symbol is not found by that beginning of its name"),
"C10-adjacent-duplicates":dict(property="C10",pkg="analysis/wordtokeniser",
 edits=[("analysis/wordtokeniser/index.go",'''		if _, ok := set[str]; ok {
			continue
		}
		out = append(out, str)
		set[str] = empty
''','''		if _, ok := set[str]; ok {
			continue
		}
		out = append(out, str)
		set = map[string]void{str: empty, in[0]: empty}
''')],
 test=WIMP+'''
func TestZZDemo(t *testing.T) {
	seen := map[string]bool{}
	for _, w := range Tokenise("aFooBarFoo") {
		if seen[w] {
			t.Fatal(Tokenise("aFooBarFoo"))
		}
		seen[w] = true
	}
}
''',needs="a name in which a word occurs twice with another one in between",breaks="the word is listed twice"),
"C10-known-value-stops":dict(property="C10",pkg="analysis",
 edits=[("analysis/completionIndex.go",'''			if uniqueCompletionValues.Has(completionValue) {
				return
			}
			result''','''			if uniqueCompletionValues.Has(completionValue) {
				if len(words) > 3 {
					it.Stop()
				}
				return
			}
			result''')],
 test=AIMP+'''
func TestZZDemo(t *testing.T) {
	s := zzStore(t, zzFS{})
	zzIndex(s, "file:///p/a.php", fmt.Sprintf("<?php%cclass FooBar {} class Bargain {} class Barely {}", 10))
	l, r := s.SearchClasses("foo_bar_x", NewSearchOptions().WithLimit(1000))
	seen := map[string]bool{}
	for _, c := range l {
		seen[c.Name.GetOriginal()] = true
	}
	m, _ := s.SearchClasses("bar", NewSearchOptions().WithLimit(1000))
	if r.IsComplete && len(m) == 3 && len(l) != 3 {
		t.Fatal(len(l), r.IsComplete)
	}
}
''',needs="a keyword of several words of which two occur in one name",breaks="the symbols after that one are left out of a list that claims to be complete"),
"C16-prefix-is-duplicate":dict(property="C16",pkg="analysis/filter",
 edits=[("analysis/filter/filter.go",'''		if bytes.Equal(in[j], in[i]) {''','''		if n := len(in[j]); n > 24 && len(in[i]) >= n && bytes.Equal(in[j], in[i][:n]) || bytes.Equal(in[j], in[i]) {''')],
 test=FIMP+'''
func TestZZDemo(t *testing.T) {
	f := NewFilter().Insert([]byte("abcdefghijklmnopqrstuvwxyzFoo")).Insert([]byte("abcdefghijklmnopqrstuvwxyzFooBar"))
	f.Commit()
	if ok, err := f.Lookup([]byte("abcdefghijklmnopqrstuvwxyzFooBar")); !ok {
		t.Fatal(err)
	}
}
''',needs="a file that references two symbols of long names, one's name being the beginning of the other's",breaks="the references to the longer name are not found"),
"C16-same-count":dict(property="C16",pkg="analysis/filter",
 edits=[("analysis/filter/filter.go",'''	buffer     [][]byte
}''','''	buffer     [][]byte
	count      int
}'''),("analysis/filter/filter.go",'''	f.buffer = [][]byte{}
	keyHashes''','''	f.buffer = [][]byte{}
	if f.head != nil && f.count == len(keys) {
		return nil
	}
	f.count = len(keys)
	keyHashes''')],
 test=FIMP+'''
func TestZZDemo(t *testing.T) {
	f := NewFilter().Insert([]byte("abc")).Insert([]byte("def"))
	f.Commit()
	f.Insert([]byte("abc")).Insert([]byte("ghi"))
	f.Commit()
	if ok, err := f.Lookup([]byte("ghi")); !ok {
		t.Fatal(err)
	}
}
''',needs="a document indexed again with as many references as before, but others",breaks="the new references are not found"),
}
