//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/pogreb"
	cmap "github.com/orcaman/concurrent-map"
)

func vcAnyURI(r *rand.Rand) string {
	l := []string{"file:///home"}
	for k := 1 + r.Intn(3); k > 0; k-- {
		l = append(l, []string{"a", "ab", "a.php", "a%20b", "a-b", "b", "A"}[r.Intn(7)])
	}
	return strings.Join(l, "/")
}

// vc_deleteFolder: of the indexed files exactly those inside the folder go.
func vc_deleteFolder(r *rand.Rand, greb *pogreb.DB) {
	db := storage.NewMemory()
	s := &Store{uri: "file:///home", db: db, comDB: storage.NewMemory(), greb: greb, FS: protocol.NewFileFS(), refIndex: newReferenceIndex(db),
		documents: cmap.New(), syncedDocumentURIs: cmap.New()}
	// a file name is not also a directory name
	files := map[string]bool{}
	for k := r.Intn(8); k >= 0; k-- {
		files[vcAnyURI(r)+[]string{".php", "/x.php", "/y.php"}[r.Intn(3)]] = true
	}
	for f := range files {
		d := NewDocument(f, []byte("<?php class K { function m() {} }"))
		d.Load()
		s.SyncDocument(d)
	}
	folder := vcAnyURI(r)
	if r.Intn(4) == 0 {
		folder += "/"
	}
	s.DeleteFolder(folder)
	dir := strings.Split(strings.TrimSuffix(folder, "/"), "/")
	for f := range files {
		parts := strings.Split(f, "/")
		inside := len(parts) > len(dir)
		for i := 0; inside && i < len(dir); i++ {
			inside = parts[i] == dir[i]
		}
		_, err := db.Get(newEntry(documentCollection, f).getKeyBytes())
		vcEnsures(fmt.Sprintf("%s is indexed after %s is deleted", f, folder), inside == (err != nil))
		found := false
		for _, c := range s.GetClasses("\\k") {
			found = found || c.Location.URI == f
		}
		vcEnsures(fmt.Sprintf("the class of %s is known after %s is deleted", f, folder), found != inside)
	}
}

func TestVC_C15(t *testing.T) {
	greb, err := pogreb.Open(filepath.Join(t.TempDir(), "greb"), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer greb.Close()
	h := vcNew(t, "C15", "deleting a directory")
	for h.more(1500) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_deleteFolder(rand.New(rand.NewSource(seed)), greb) })
	}
}
