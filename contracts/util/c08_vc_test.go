//go:build verif

package util

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func vcAnyComponent(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return []string{"src", "a b", "a+b", "100%", "%2F", "%", "%zz", "a%20b", "c:", "C:", "a:b", "é", "日本", "#1", "what?", "a&b=c", "file:", "~", "[x]",
			"a;b", "\\", "a\\b", "\x00", "\xff\xfe", "...", "🙂", "Foo.php", "@", "a\nb", "\"q\"", "{}", "|", "^", "`"}[r.Intn(33)]
	}
	b := make([]byte, 1+r.Intn(12))
	r.Read(b)
	for i := range b {
		if b[i] == '/' {
			b[i] = 'x'
		}
	}
	return string(b)
}

func vcAnyPath(r *rand.Rand) string {
	var l []string
	for k := r.Intn(8); k >= 0; k-- {
		l = append(l, vcAnyComponent(r))
	}
	p := "/" + strings.Join(l, "/")
	if r.Intn(30) == 0 {
		p += "/"
	}
	return p
}

// vcClientURI is the URI as another program may escape it.
func vcClientURI(r *rand.Rand, path string) string {
	var b strings.Builder
	b.WriteString("file://")
	more := r.Intn(3)
	for i := 0; i < len(path); i++ {
		c := path[i]
		plain := c == '/' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' || c == '~'
		if !plain && more > 0 && bytes.IndexByte([]byte("$&+,:;=@!*'()"), c) >= 0 {
			plain = more == 1 || r.Intn(2) == 0
		}
		if plain {
			b.WriteByte(c)
		} else if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func vc_path(r *rand.Rand) {
	path := vcAnyPath(r)
	uri := PathToURI(path)
	back, err := URIToPath(uri)
	vcEnsures(fmt.Sprintf("the path %q comes back from %s, got %q %v", path, uri, back, err), err == nil && back == path)
	u, err := url.Parse(uri)
	vcEnsures(fmt.Sprintf("%s is a file URI of %q", uri, path), err == nil && u.Scheme == "file" && u.Host == "" && u.Path == path && u.Fragment == "" && u.RawQuery == "")
	other := vcAnyPath(r)
	vcEnsures("different paths have different URIs", other == path || PathToURI(other) != uri)
	norm, err := DecodeURIFromQuery(uri)
	vcEnsures(fmt.Sprintf("the URI of %q as indexed is %s, got %s %v", path, uri, norm, err), err == nil && norm == uri)
	c := vcClientURI(r, path)
	back, err = URIToPath(c)
	vcEnsures(fmt.Sprintf("the path %q of the client's URI %s, got %q %v", path, c, back, err), err == nil && back == path)
	norm, err = DecodeURIFromQuery(c)
	vcEnsures(fmt.Sprintf("the client's URI %s as indexed is %s, got %s %v", c, uri, norm, err), err == nil && norm == uri)
	for _, p := range []string{path, uri} {
		vc_PathToURI(p)
	}
	vc_URIToPath(uri)
	vc_DecodeURIFromQuery(uri)
	vc_ThereAndBack(path)
}

func vc_short(r *rand.Rand) {
	root := PathToURI(vcAnyPath(r))
	if r.Intn(2) == 0 {
		root = strings.TrimSuffix(root, "/")
	}
	dir := strings.TrimSuffix(root, "/")
	// no file's path has an empty component
	child := dir + PathToURI(vcAnyPath(r))[len("file://"):]
	if r.Intn(4) == 0 {
		name := dir[strings.LastIndex(dir, "/")+1:]
		child = dir + "/" + []string{name, name + "/" + name, "file:", "file:/" + name, strings.TrimPrefix(dir, "file:///")}[r.Intn(5)]
	}
	short := CanonicaliseURI(root, child)
	back := URIFromCanonicalURI(root, short)
	vcEnsures(fmt.Sprintf("the URI %s of the workspace %s comes back from %q, got %q", child, root, short, back), back == child)
	vcEnsures(fmt.Sprintf("%q is shorter than %s", short, child), len(short) < len(child))
	other := dir + PathToURI(vcAnyPath(r))[len("file://"):]
	vcEnsures("different files have different short forms", other == child || CanonicaliseURI(root, other) != short)
	vc_CanonicaliseURI(root, child)
	vc_URIFromCanonicalURI(root, short)
}

// vc_disk: the file that the URI names is the file on the disk.
func vc_disk(r *rand.Rand, dir string) {
	name := strings.ReplaceAll(vcAnyComponent(r), "\x00", "x")
	if name == "." || name == ".." {
		name = "x"
	}
	path := filepath.Join(dir, name)
	if os.WriteFile(path, []byte(name), 0600) != nil {
		return
	}
	defer os.Remove(path)
	back, err := URIToPath(PathToURI(path))
	data, rerr := os.ReadFile(back)
	vcEnsures(fmt.Sprintf("the file %q is read by its URI", path), err == nil && rerr == nil && string(data) == name)
}

func TestVC_C08(t *testing.T) {
	dir := t.TempDir()
	for _, c := range []struct {
		name string
		n    int
		f    func(*rand.Rand)
	}{{"paths", 100000, vc_path}, {"files of a workspace", 60000, vc_short}, {"files on disk", 4000, func(r *rand.Rand) { vc_disk(r, dir) }}} {
		h := vcNew(t, "C08", c.name)
		for h.more(c.n) {
			seed := h.r.Int63()
			h.check(fmt.Sprint("seed ", seed), func() { c.f(rand.New(rand.NewSource(seed))) })
		}
	}
}
