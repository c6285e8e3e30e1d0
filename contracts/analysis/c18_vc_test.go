//go:build verif

package analysis

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

const vcIndexRoot = "file:///home/p"

type vcFiles struct{ files map[string]string }

func (f *vcFiles) ListFiles(context.Context, string) ([]protocol.TextDocumentIdentifier, error) {
	return nil, nil
}
func (f *vcFiles) ReadFile(_ context.Context, uri string) ([]byte, error) {
	if d, ok := f.files[uri]; ok {
		return []byte(d), nil
	}
	return nil, fmt.Errorf("no file %s", uri)
}
func (f *vcFiles) ConvertToURI(uri string) string { return uri }

func vcEmptyStore(greb *pogreb.DB, fs protocol.FS) *Store {
	db := storage.NewMemory()
	return &Store{uri: vcIndexRoot, db: db, comDB: storage.NewMemory(), greb: greb, FS: fs, refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

func vcPick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

// vcAnyPHP is a file with some declarations and references.
func vcAnyPHP(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString("<?php\n")
	if r.Intn(3) > 0 {
		fmt.Fprintf(&b, "namespace %s;\n", vcPick(r, "App", "App\\Models", "App\\Other", "Lib"))
	}
	if r.Intn(8) == 0 {
		return b.String()
	}
	name := func() string { return vcPick(r, "Foo", "Bar", "FooBar", "foo_bar", "Baz", "B") }
	for k := 1 + r.Intn(5); k > 0; k-- {
		switch r.Intn(9) {
		case 0, 1, 2:
			fmt.Fprintf(&b, "%s %s {\n", vcPick(r, "class", "class", "interface", "trait"), name())
			for m := r.Intn(4); m > 0; m-- {
				switch r.Intn(4) {
				case 0, 1:
					fmt.Fprintf(&b, "  public function %s(int $a) { return new %s($a); }\n", name(), name())
				case 2:
					fmt.Fprintf(&b, "  const %s = %d;\n", strings.ToUpper(name()), r.Intn(3))
				case 3:
					fmt.Fprintf(&b, "  /** @var %s */\n  public $%s;\n", name(), name())
				}
			}
			b.WriteString("}\n")
		case 3:
			fmt.Fprintf(&b, "function %s(%s $x): %s { return %s($x); }\n", name(), name(), name(), name())
		case 4:
			fmt.Fprintf(&b, "const %s = 1;\n", strings.ToUpper(name()))
		case 5:
			fmt.Fprintf(&b, "define('%s', %d);\n", strings.ToUpper(name()), r.Intn(3))
		case 6:
			fmt.Fprintf(&b, "$%s = new %s();\n$%s->%s();\n", name(), name(), name(), name())
		case 7:
			fmt.Fprintf(&b, "%s::%s();\necho %s::%s;\n", name(), name(), name(), strings.ToUpper(name()))
		case 8:
			fmt.Fprintf(&b, "/** @var %s */\nglobal $%s;\n\n", name(), name())
		}
	}
	return b.String()
}

// vcRecorded lists everything the index database holds; the reference filters may hold more
// than is needed.
func vcRecorded(db storage.DB) map[string]string {
	m := map[string]string{}
	filters := []byte(referenceIndexCollection + KeySep + filterCollection + KeySep)
	db.PrefixStream(nil, func(it storage.Iterator) {
		if bytes.HasPrefix(it.Key(), filters) {
			m[string(it.Key())] = ""
			return
		}
		m[string(it.Key())] = string(it.Value())
	})
	return m
}

func vcDifference(got, want map[string]string) string {
	var l []string
	for k := range got {
		if _, ok := want[k]; !ok {
			l = append(l, fmt.Sprintf("%q is recorded though no file has it", k))
		} else if got[k] != want[k] {
			l = append(l, fmt.Sprintf("%q is recorded as %q, it is %q", k, got[k], want[k]))
		}
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			l = append(l, fmt.Sprintf("%q is missing", k))
		}
	}
	sort.Strings(l)
	if len(l) > 2 {
		l = l[:2]
	}
	return strings.Join(l, "; ")
}

func vc_index(r *rand.Rand, greb, fresh *pogreb.DB, n int) {
	fs := &vcFiles{files: map[string]string{}}
	s := vcEmptyStore(greb, fs)
	var uris []string
	for _, f := range []string{"a.php", "a.phpx", "b.php", "a.php/c.php", "a", "a/d.php"} {
		uris = append(uris, fmt.Sprintf("%s/%d/%s", vcIndexRoot, n, f))
	}
	var history []string
	for k := 1 + r.Intn(10); k > 0; k-- {
		uri := uris[r.Intn(len(uris))]
		switch op := r.Intn(8); {
		case op < 4:
			src := vcAnyPHP(r)
			if old, ok := fs.files[uri]; ok && r.Intn(2) == 0 {
				// an edit of a part
				i := r.Intn(len(old) + 1)
				src = old[:i] + vcPick(r, "\n", " ", "A", "class New { const A = 1; }", "") + old[i:]
			}
			fs.files[uri] = src
			d := NewDocument(uri, []byte(src))
			d.Load()
			s.SyncDocument(d)
			history = append(history, fmt.Sprintf("index %s %q", uri, src))
		case op < 5:
			src := vcAnyPHP(r)
			fs.files[uri] = src
			s.CompareAndIndexDocument(context.Background(), uri)
			history = append(history, fmt.Sprintf("compare %s %q", uri, src))
		case op < 7:
			delete(fs.files, uri)
			s.DeleteDocument(uri)
			history = append(history, "delete "+uri)
		default:
			// the workspace is indexed anew after some files went and some changed
			for _, u := range uris {
				if r.Intn(4) == 0 {
					delete(fs.files, u)
				} else if r.Intn(4) == 0 {
					fs.files[u] = vcAnyPHP(r)
				}
			}
			s.PrepareForIndexing()
			for u := range fs.files {
				s.CompareAndIndexDocument(context.Background(), u)
			}
			s.FinishIndexing()
			history = append(history, fmt.Sprintf("reopen with %q", fs.files))
		}
		if r.Intn(6) == 0 {
			s.refIndex = newReferenceIndex(s.db)
			history = append(history, "restart")
		}
	}
	o := vcEmptyStore(fresh, fs)
	names := map[string]bool{}
	for u, src := range fs.files {
		d := NewDocument(u, []byte(src))
		d.Load()
		o.SyncDocument(d)
		for _, w := range strings.FieldsFunc(src, func(c rune) bool { return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') }) {
			names[w] = true
		}
	}
	hist := strings.Join(history, "; ")
	diff := vcDifference(vcRecorded(s.db), vcRecorded(o.db))
	vcEnsures(fmt.Sprintf("the index is that of the current files: %s after %s", diff, hist), diff == "")
	diff = vcDifference(vcRecorded(s.comDB), vcRecorded(o.comDB))
	vcEnsures(fmt.Sprintf("the completion words are those of the current files: %s after %s", diff, hist), diff == "")
	var words []string
	for w := range names {
		words = append(words, w)
	}
	sort.Strings(words)
	for _, w := range words {
		for _, ref := range []string{"\\" + w, "\\" + w + "()", "." + w + "()", "." + w, "\\App\\" + w, "." + "$" + w} {
			a, b := s.GetReferences(ref), o.GetReferences(ref)
			sort.Slice(a, func(i, j int) bool { return fmt.Sprint(a[i]) < fmt.Sprint(a[j]) })
			sort.Slice(b, func(i, j int) bool { return fmt.Sprint(b[i]) < fmt.Sprint(b[j]) })
			vcEnsures(fmt.Sprintf("the references to %s are those of the current files, %v %v, after %s", ref, a, b, hist), fmt.Sprint(a) == fmt.Sprint(b))
		}
	}
}

func TestVC_C18(t *testing.T) {
	open := func(name string) *pogreb.DB {
		greb, err := pogreb.Open(filepath.Join(t.TempDir(), name), nil)
		if err != nil {
			t.Fatal(err)
		}
		return greb
	}
	greb, fresh := open("a"), open("b")
	defer greb.Close()
	defer fresh.Close()
	h := vcNew(t, "C18", "histories of indexing")
	n := 0
	for h.more(1500) {
		seed := h.r.Int63()
		n++
		h.check(fmt.Sprint("seed ", seed), func() { vc_index(rand.New(rand.NewSource(seed)), greb, fresh, n) })
	}
}
