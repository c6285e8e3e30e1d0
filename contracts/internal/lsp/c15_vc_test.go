//go:build verif

package lsp

import (
	"context"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

type vcClient struct {
	protocol.Client
	unregistered []string
}

func (c *vcClient) UnregisterCapability(_ context.Context, p *protocol.UnregistrationParams) error {
	for _, u := range p.Unregisterations {
		c.unregistered = append(c.unregistered, u.ID)
	}
	return nil
}

func (c *vcClient) RegisterCapability(context.Context, *protocol.RegistrationParams) error {
	return nil
}

func vcAnyFolder(r *rand.Rand) string {
	l := []string{"file:///home"}
	for k := 1 + r.Intn(3); k > 0; k-- {
		l = append(l, []string{"a", "ab", "abc", "a%20b", "a.b", "b", "A"}[r.Intn(7)])
	}
	return strings.Join(l, "/") + []string{"", "", "", "/"}[r.Intn(4)]
}

func vcAnyFile(r *rand.Rand) string {
	f := vcAnyFolder(r)
	return strings.TrimSuffix(f, "/") + []string{"", "b", "/x.php", "/a", "/a/b/c.php", "-old/x.php", ".php", "%20b/x.php"}[r.Intn(8)]
}

// vcParts are the path components.
func vcParts(uri string) []string {
	return strings.Split(strings.TrimSuffix(uri, "/"), "/")
}

func vcIn(uri, folder string) bool {
	u, f := vcParts(uri), vcParts(folder)
	if len(u) < len(f) {
		return false
	}
	for i := range f {
		if u[i] != f[i] {
			return false
		}
	}
	return true
}

func vc_serve(r *rand.Rand, pool []*analysis.Store) {
	s := &workspaceStore{}
	for _, i := range r.Perm(len(pool))[:r.Intn(6)] {
		s.stores = append(s.stores, pool[i])
	}
	uri := vcAnyFile(r)
	got := s.getStore(uri)
	open, inside := false, false
	names := []string{}
	for _, st := range s.stores {
		open = open || st == got
		inside = inside || vcIn(uri, st.GetURI())
		names = append(names, st.GetURI())
	}
	if got == nil {
		vcEnsures(fmt.Sprintf("%s is served by one of %q", uri, names), !inside)
	} else {
		vcEnsures(fmt.Sprintf("%s is served by an open folder that contains it, not by %s", uri, got.GetURI()), open && vcIn(uri, got.GetURI()))
	}
	vc_getStore(s, uri)
	if len(s.stores) > 0 && r.Intn(2) == 0 {
		uri = s.stores[r.Intn(len(s.stores))].GetURI()
	}
	vc_removeStore(s, uri, r.Intn(6)-1)
}

func vc_remove(r *rand.Rand, dir string, n int) {
	c := &vcClient{}
	server := &Server{client: c}
	s := &workspaceStore{server: server}
	seen := map[string]bool{}
	var all []*analysis.Store
	for k := 2 + r.Intn(2); k > 0; k-- {
		uri := vcAnyFolder(r)
		if seen[uri] {
			continue
		}
		seen[uri] = true
		st, err := analysis.NewStore(protocol.NewFileFS(), uri, filepath.Join(dir, fmt.Sprint(n, "-", k)))
		if err != nil {
			panic(err)
		}
		defer st.Close()
		st.PutVersion("v1.2.3")
		all = append(all, st)
	}
	s.stores = append(s.stores, all...)
	uri := vcAnyFolder(r)
	if r.Intn(2) == 0 {
		uri = all[r.Intn(len(all))].GetURI()
	} else if r.Intn(2) == 0 {
		uri = strings.TrimSuffix(all[r.Intn(len(all))].GetURI(), "/") + "/b"
	}
	s.removeView(context.Background(), server, uri)
	for _, st := range all {
		open := false
		for _, x := range s.stores {
			open = open || x == st
		}
		alive := st.GetStoreVersion() == "v1.2.3"
		if strings.TrimSuffix(st.GetURI(), "/") != strings.TrimSuffix(uri, "/") {
			vcEnsures(fmt.Sprintf("the folder %s stays open when %s is removed", st.GetURI(), uri), open && alive)
		} else if st.GetURI() == uri {
			vcEnsures(fmt.Sprintf("the folder %s is closed when it is removed", uri), !open && !alive)
		}
	}
}

func TestVC_C15(t *testing.T) {
	dir := t.TempDir()
	var pool []*analysis.Store
	r := rand.New(rand.NewSource(1))
	seen := map[string]bool{}
	for len(pool) < 24 {
		uri := vcAnyFolder(r)
		if seen[uri] {
			continue
		}
		seen[uri] = true
		st, err := analysis.NewStore(protocol.NewFileFS(), uri, filepath.Join(dir, fmt.Sprint("pool", len(pool))))
		if err != nil {
			t.Fatal(err)
		}
		defer st.Close()
		pool = append(pool, st)
	}
	h := vcNew(t, "C15", "which folder serves a file")
	for h.more(60000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_serve(rand.New(rand.NewSource(seed)), pool) })
	}
	h = vcNew(t, "C15", "removing a folder")
	n := 0
	for h.more(40) {
		seed := h.r.Int63()
		n++
		h.check(fmt.Sprint("seed ", seed), func() { vc_remove(rand.New(rand.NewSource(seed)), dir, n) })
	}
}
