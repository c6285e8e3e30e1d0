UIMP='''package util

import "testing"
'''
LIMP='''package lsp

import (
	"testing"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func zzStores(t *testing.T, uris ...string) *workspaceStore {
	s := &workspaceStore{}
	for _, u := range uris {
		st, err := analysis.NewStore(protocol.NewFileFS(), u, t.TempDir())
		if err != nil {
			t.Fatal(err)
		}
		t.Cleanup(st.Close)
		s.stores = append(s.stores, st)
	}
	return s
}
'''
AIMP='''package analysis

import (
	"context"
	"fmt"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

type zzFS map[string]string

func (f zzFS) ListFiles(context.Context, string) ([]protocol.TextDocumentIdentifier, error) {
	return nil, nil
}
func (f zzFS) ReadFile(_ context.Context, uri string) ([]byte, error) {
	if d, ok := f[uri]; ok {
		return []byte(d), nil
	}
	return nil, fmt.Errorf("no file")
}
func (f zzFS) ConvertToURI(uri string) string { return uri }

func zzStore(t *testing.T, fs zzFS) *Store {
	greb, err := pogreb.Open(t.TempDir()+"/greb", nil)
	if err != nil {
		t.Fatal(err)
	}
	db := storage.NewMemory()
	return &Store{uri: "file:///p", db: db, comDB: storage.NewMemory(), greb: greb, FS: fs, refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
}

func zzIndex(s *Store, uri, src string) {
	d := NewDocument(uri, []byte(src))
	d.Load()
	s.SyncDocument(d)
}
'''
SEEDS={
"C08-looks-full":dict(property="C08",pkg="util",
 edits=[("util/uri.go","""	if strings.HasPrefix(canonicalURI, parent) {
		return canonicalURI""","""	if strings.HasPrefix(canonicalURI, "file:") {
		return canonicalURI""")],
 test=UIMP+'''
func TestZZDemo(t *testing.T) {
	root, file := "file:///home/p/", "file:///home/p/file:/x.php"
	if u := URIFromCanonicalURI(root, CanonicaliseURI(root, file)); u != file {
		t.Fatal(u)
	}
}
''',needs="a workspace URI that ends with a slash and a directory in it named 'file:'",breaks="the short form of a file in it is taken for a full URI"),
"C08-percent-kept":dict(property="C08",pkg="util",
 edits=[("util/uri.go","""	return urlIns.String()
}

// GetURIID""","""	if u := "file://" + path; strings.Contains(path, "%") && IsURIEscaped(u) {
		return u
	}

	return urlIns.String()
}

// IsURIEscaped checks if the given URI is already escaped
func IsURIEscaped(uri string) bool {
	u, err := url.Parse(uri)
	return err == nil && u.EscapedPath() == strings.TrimPrefix(uri, "file://")
}

// GetURIID""")],
 test=UIMP+'''
func TestZZDemo(t *testing.T) {
	for _, path := range []string{"/home/100%25/x.php", "/home/a b/100%/x.php"} {
		if p, err := URIToPath(PathToURI(path)); p != path {
			t.Fatal(p, err)
		}
	}
}
''',needs="a file whose name contains a valid percent escape, like a%20b.php",breaks="its URI converts back to another path"),
"C15-sole-folder":dict(property="C15",pkg="internal/lsp",
 edits=[("internal/lsp/workspaceStore.go","""			return store
		}
	}
	return nil
}

// removeStore""","""			return store
		}
	}
	if len(s.stores) == 1 {
		return s.stores[0]
	}
	return nil
}

// removeStore"""),("internal/lsp/workspaceStore.go","""func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
""","""func (s *workspaceStore) getStore(uri string) *analysis.Store {
""")],
 test=LIMP+'''
func TestZZDemo(t *testing.T) {
	if s := zzStores(t, "file:///w/app"); s.getStore("file:///w/other/x.php") != nil {
		t.Fatal("served")
	}
}
''',needs="exactly one open folder and a file outside of it",breaks="the file is served by, and indexed into, a folder it is not in"),
"C15-closes-inner":dict(property="C15",pkg="internal/lsp",
 edits=[("internal/lsp/workspaceStore.go","""		if store.GetURI() == uri {""","""		if strings.HasPrefix(store.GetURI(), uri) {""")],
 test=LIMP+'''
func TestZZDemo(t *testing.T) {
	s := zzStores(t, "file:///w/app-old", "file:///w/app")
	s.removeStore("file:///w/app")
	if len(s.stores) != 1 || s.stores[0].GetURI() != "file:///w/app-old" {
		t.Fatal("the other folder was removed")
	}
}
''',needs="two open folders, the one opened first having a name that starts with the other's",breaks="removing one closes the other"),
"C18-references-stay":dict(property="C18",pkg="analysis",
 edits=[("analysis/referenceIndex.go","""		dbEntry := newEntry(referenceIndexCollection, canonicalURI)
		batch.Delete(dbEntry.getKeyBytes())
		dbEntry = newEntry(referenceIndexCollection, filterCollection+KeySep+canonicalURI)
		batch.Delete(dbEntry.getKeyBytes())
""","""		dbEntry := newEntry(referenceIndexCollection, filterCollection+KeySep+canonicalURI)
		batch.Delete(dbEntry.getKeyBytes())
""")],
 test=AIMP+'''
func TestZZDemo(t *testing.T) {
	s := zzStore(t, zzFS{})
	zzIndex(s, "file:///p/a.php", "<?php\\nclass Foo {}\\n")
	zzIndex(s, "file:///p/b.php", "<?php\\nnew Foo();\\n")
	n := len(s.GetReferences("\\\\Foo"))
	s.DeleteDocument("file:///p/b.php")
	if m := len(s.GetReferences("\\\\Foo")); n == 0 || m >= n {
		t.Fatal(n, m)
	}
}
''',needs="a file that is deleted and a search for the references to something it used",breaks="the references of the deleted file are still found"),
"C18-changed-file-vanishes":dict(property="C18",pkg="analysis",
 edits=[("analysis/store.go","""	if ok {
		s.syncedDocumentURIs.Remove(uri)
	} else {""","""	if !ok {"""),
 ("analysis/store.go","""	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
		return document""","""	if savedMD5 != nil && bytes.Equal(currentMD5, savedMD5.([]byte)) {
		s.syncedDocumentURIs.Remove(uri)
		return document""")],
 test=AIMP+'''
func TestZZDemo(t *testing.T) {
	fs := zzFS{"file:///p/a.php": "<?php class A {}"}
	s := zzStore(t, fs)
	for i := 0; i < 2; i++ {
		s.PrepareForIndexing()
		s.CompareAndIndexDocument(context.Background(), "file:///p/a.php")
		s.FinishIndexing()
		if len(s.GetClasses("\\\\a")) != 1 {
			t.Fatal("the class is missing", i)
		}
		fs["file:///p/a.php"] += "\\nclass B {}"
	}
}
''',needs="a file that changed while the server was not running",breaks="it is indexed and then deleted from the index when the folder is opened"),
}
