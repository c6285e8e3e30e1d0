//go:build verif

package util

// Specification of the conversion between paths and URIs (property C08). How net/url escapes
// and unescapes is assumed (the bounded search executes it); what is made of it is proved.

import (
	"net/url"
	"strings"
)

// vcFileURI is the file URI of an absolute path.
//
//vc:rec
func vcFileURI(path string) string {
	return (&url.URL{Scheme: "file", Path: path}).String()
}

// vcIsFile: the URI is a file URI that has an absolute path and nothing else.
//
//vc:rec
func vcIsFile(uri string) bool {
	u, err := url.ParseRequestURI(uri)
	return err == nil && u.Scheme == "file" && strings.HasPrefix(u.Path, "/") && u.Host == "" && u.RawQuery == "" && u.Fragment == "" && u.User == nil
}

// vcPathOf is the path of a file URI, unescaped.
//
//vc:rec
func vcPathOf(uri string) string {
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		return ""
	}
	return u.Path
}

func vcBare(u *url.URL) bool {
	return u.Scheme == "file" && u.Opaque == "" && u.User == nil && u.Host == "" && u.RawQuery == "" && u.Fragment == "" && !u.ForceQuery && !u.OmitHost
}

//vc:trusted (*URL).String
func vc_URLString(u *url.URL) {
	r := u.String()
	vcEnsures("file URI", vcImp(vcBare(u) && u.RawPath == "" && strings.HasPrefix(u.Path, "/"), r == vcFileURI(u.Path)))
}

//vc:trusted ParseRequestURI
func vc_ParseRequestURI(uri string) {
	u, err := url.ParseRequestURI(uri)
	vcEnsures("result", vcImp(err == nil, u != nil && vcFresh(u)))
	vcEnsures("file", vcImp(vcIsFile(uri), err == nil && vcBare(u) && u.Path == vcPathOf(uri)))
}

//vc:trusted Parse
func vc_Parse(uri string) {
	u, err := url.Parse(uri)
	vcEnsures("result", vcImp(err == nil, u != nil && vcFresh(u)))
	vcEnsures("file", vcImp(vcIsFile(uri), err == nil && vcBare(u) && u.Path == vcPathOf(uri)))
}

//vc:contract URIToPath props=C08
//vc:opt opaque=vcFileURI+vcIsFile+vcPathOf
func vc_URIToPath(uri string) {
	path, err := URIToPath(uri)
	vcEnsures("path", vcImp(vcIsFile(uri), err == nil && path == vcPathOf(uri)))
}

//vc:contract PathToURI props=C08
//vc:opt opaque=vcFileURI+vcIsFile+vcPathOf
func vc_PathToURI(path string) {
	r := PathToURI(path)
	vcEnsures("URI", vcImp(strings.HasPrefix(path, "/"), r == vcFileURI(path)))
}

//vc:contract DecodeURIFromQuery props=C08
//vc:opt opaque=vcFileURI+vcIsFile+vcPathOf
func vc_DecodeURIFromQuery(uri string) {
	vcAssume(strings.HasPrefix(vcPathOf(uri), "/") || !vcIsFile(uri))
	r, err := DecodeURIFromQuery(uri)
	vcEnsures("the same file", vcImp(vcIsFile(uri), err == nil && r == vcFileURI(vcPathOf(uri))))
}

// vcThereAndBack: the path of the URI of a path, as it is and as the indexer has it.
func vcThereAndBack(path string) (string, string, error) {
	uri := PathToURI(path)
	p, err := URIToPath(uri)
	if err != nil {
		return "", "", err
	}
	uri, err = DecodeURIFromQuery(uri)
	if err != nil {
		return "", "", err
	}
	q, err := URIToPath(uri)
	return p, q, err
}

//vc:verify vcThereAndBack props=C08
//vc:opt opaque=vcFileURI+vcIsFile+vcPathOf
func vc_ThereAndBack(path string) {
	vcRequires(strings.HasPrefix(path, "/"))
	// net/url unescapes what it escaped
	vcAssume(vcIsFile(vcFileURI(path)) && vcPathOf(vcFileURI(path)) == path)
	p, q, err := vcThereAndBack(path)
	vcEnsures("no error", err == nil)
	vcEnsures("same path", p == path && q == path)
}

// vcUnder: the file lies in the folder. The folder's URI has no slash at its end, or is one of
// a folder as a client writes it with one.
func vcUnder(parent, rest, child string) bool {
	if strings.HasSuffix(parent, "/") {
		return child == parent+rest && !strings.HasPrefix(rest, parent)
	}
	return child == parent+"/"+rest
}

//vc:contract CanonicaliseURI props=C08
func vc_CanonicaliseURI(parent, child string) {
	r := CanonicaliseURI(parent, child)
	vcEnsures("workspace-relative", vcImp(strings.HasPrefix(child, parent), child == parent+r))
	vcEnsures("as it is", vcImp(!strings.HasPrefix(child, parent), r == child))
}

//vc:contract URIFromCanonicalURI props=C08
func vc_URIFromCanonicalURI(parent, canonical string) {
	r := URIFromCanonicalURI(parent, canonical)
	vcEnsures("full", vcImp(strings.HasPrefix(canonical, parent), r == canonical))
	vcEnsures("in the workspace", vcImp(!strings.HasPrefix(canonical, parent), r == parent+canonical))
}

func vcShortened(parent, child string) string {
	return URIFromCanonicalURI(parent, CanonicaliseURI(parent, child))
}

//vc:verify vcShortened props=C08
func vc_Shortened(parent, rest, child string) {
	vcRequires(strings.HasPrefix(parent, "file://"))
	vcRequires(vcUnder(parent, rest, child))
	r := vcShortened(parent, child)
	vcEnsures("same URI", r == child)
}
