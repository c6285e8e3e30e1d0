//go:build verif

package lsp

// Specification of which workspace folder serves a file (property C15).

import (
	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/util"
)

// vcStoresOK: every open folder has its store.
func vcStoresOK(s *workspaceStore) bool {
	return vcForall(0, len(s.stores), func(i int) bool { return s.stores[i] != nil })
}

// vcMark is any property of stores; nothing is known about it. A store that has every property
// that all open stores share is one of the open stores.
//
//vc:rec
func vcMark(store *analysis.Store) bool { return store != nil }

func vcMarked(l []*analysis.Store) bool {
	return vcForall(0, len(l), func(i int) bool { return vcMark(l[i]) })
}

//vc:contract (*workspaceStore).getStore props=C15
//vc:opt opaque=VcInside+vcMark
func vc_getStore(s *workspaceStore, uri string) {
	vcRequires(s != nil && vcStoresOK(s))
	r := s.getStore(uri)
	vcEnsures("serves only what is inside", r == nil || util.VcInside(uri, r.GetURI()))
	vcEnsures("serves from the open folders", vcImp(r != nil && vcMarked(s.stores), vcMark(r)))
	vcEnsures("serves all that is inside", vcImp(r == nil, vcForall(0, len(s.stores), func(i int) bool { return !util.VcInside(uri, s.stores[i].GetURI()) })))
}

//vc:loop (*workspaceStore).getStore 0
func vl_getStore(s *workspaceStore, uri string, vcI int) {
	vcInv("none so far", vcForall(0, vcI, func(i int) bool { return !util.VcInside(uri, s.stores[i].GetURI()) }))
}

// vcOneEach: no folder is open twice.
func vcOneEach(s *workspaceStore) bool {
	return vcForall(0, len(s.stores), func(i int) bool {
		return vcForall(0, len(s.stores), func(j int) bool { return i == j || s.stores[i].GetURI() != s.stores[j].GetURI() })
	})
}

// k is the place of the folder, if it is open.
//
//vc:contract (*workspaceStore).removeStore props=C15
func vc_removeStore(s *workspaceStore, uri string, k int) {
	vcRequires(s != nil && vcStoresOK(s) && vcOneEach(s))
	n := len(s.stores)
	old := s.stores
	snap := vcSnap(old)
	vcModifies(&s.stores)
	vcModifies(old[:])
	r := s.removeStore(uri)
	vcEnsures("not open", vcImp(r == nil, len(s.stores) == n && vcForall(0, n, func(i int) bool { return snap[i].GetURI() != uri && s.stores[i] == snap[i] })))
	vcEnsures("found", !(0 <= k && k < n && snap[k].GetURI() == uri) || r == snap[k] && len(s.stores) == n-1)
	vcEnsures("before", !(0 <= k && k < n && snap[k].GetURI() == uri) || vcForall(0, k, func(i int) bool { return s.stores[i] == snap[i] }))
	vcEnsures("after", !(0 <= k && k < n && snap[k].GetURI() == uri) || vcForall(k, n-1, func(i int) bool { return s.stores[i] == snap[i+1] }))
}

//vc:loop (*workspaceStore).removeStore 0
func vl_removeStore(s *workspaceStore, uri string, vcI int) {
	vcInv("none so far", vcForall(0, vcI, func(i int) bool { return s.stores[i].GetURI() != uri }))
}
