//go:build verif

package util

// Specification of being inside a folder (property C15).

import "strings"

// VcInside: uri is the folder or lies inside it, by whole path components.
//
//vc:rec
func VcInside(uri, folder string) bool {
	n := len(folder)
	if n > 0 && folder[n-1] == '/' {
		return strings.HasPrefix(uri, folder) || uri == folder[:n-1]
	}
	return strings.HasPrefix(uri, folder+"/") || uri == folder
}

//vc:contract IsURIInFolder props=C15
//vc:opt unfold=1
func vc_IsURIInFolder(uri, folder string) {
	r := IsURIInFolder(uri, folder)
	vcEnsures("inside", r == VcInside(uri, folder))
}
