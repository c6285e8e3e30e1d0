//go:build verif

package filter

import (
	"github.com/FastFilter/xorfilter"
	xxhash "github.com/cespare/xxhash/v2"
)

// Specification of the filter (property C16). That a xorfilter populated with distinct hashes
// contains them is assumed of the library; that every symbol's hash is put into it once, and
// looked up the same way, is proved.

// vcHash is the hash of a symbol.
//
//vc:rec
func vcHash(s string) uint64 { return xxhash.Sum64String(s) }

// vcMember: the filter with these parameters says that it contains the hash.
//
//vc:rec
func vcMember(seed uint64, length uint32, fingerprints string, hash uint64) bool {
	return (&xorfilter.Xor8{Seed: seed, BlockLength: length, Fingerprints: []byte(fingerprints)}).Contains(hash)
}

// vcMay: the document may reference the symbol.
func vcMay(f *Filter, s string) bool {
	return f.isCommited && f.head != nil && vcMember(f.head.Seed, f.head.BlockLength, string(f.head.Fingerprints), vcHash(s))
}

//vc:trusted Sum64
func vc_Sum64(b []byte) {
	r := xxhash.Sum64(b)
	vcEnsures("hash", r == vcHash(string(b)))
}

//vc:trusted (*Xor8).Contains
//vc:opt opaque=vcMember+vcHash
func vc_Contains(x *xorfilter.Xor8, hash uint64) {
	r := x.Contains(hash)
	vcEnsures("member", r == vcMember(x.Seed, x.BlockLength, string(x.Fingerprints), hash))
}

//vc:trusted Populate
func vc_Populate(keys []uint64) {
	vcRequires(len(keys) > 0)
	vcRequires(vcForall(0, len(keys), func(i int) bool { return vcForall(0, i, func(j int) bool { return keys[i] != keys[j] }) }))
	x, err := xorfilter.Populate(keys)
	vcEnsures("populated", err == nil && x != nil && vcFresh(x))
	vcEnsures("members", vcForall(0, len(keys), func(i int) bool {
		return vcMember(x.Seed, x.BlockLength, string(x.Fingerprints), keys[i])
	}))
}

//vc:contract NewFilter props=C16
func vc_NewFilter() {
	f := NewFilter()
	vcEnsures("empty", f != nil && vcFresh(f) && !f.isCommited && f.head == nil && len(f.buffer) == 0)
}

//vc:contract (*Filter).Insert props=C16
func vc_Insert(f *Filter, data []byte) {
	vcRequires(f != nil)
	vcModifies(&f.buffer, f.buffer)
	n, was := len(f.buffer), vcSnap(f.buffer)
	f.Insert(data)
	vcEnsures("added", len(f.buffer) == n+1 && string(f.buffer[n]) == string(data))
	vcEnsures("kept", vcForall(0, n, func(i int) bool { return string(f.buffer[i]) == string(was[i]) }))
}

//vc:contract (*Filter).Lookup props=C16
//vc:opt opaque=vcMember+vcHash
func vc_Lookup(f *Filter, data []byte) {
	vcRequires(f != nil)
	r, err := f.Lookup(data)
	vcEnsures("may be referenced", r == vcMay(f, string(data)))
	vcEnsures("error", (err != nil) == (!f.isCommited || f.head == nil))
}

// sort.Slice permutes the slice: what is said of one element stays true of some element.
//
//vc:trusted sortByteArrays
func vc_sortByteArrays(src [][]byte) {
	vcModifies(src)
	was := vcSnap(src)
	sortByteArrays(src)
	vcEnsures("permuted", vcForall(0, len(src), func(i int) bool {
		return vcExists(0, len(src), func(j int) bool { return string(src[j]) == string(was[i]) })
	}))
}

// dataWithoutDup keeps every element.
//
//vc:contract (*Filter).dataWithoutDup props=C16
func vc_dataWithoutDup(f *Filter) {
	vcRequires(f != nil)
	vcModifies(f.buffer)
	was := vcSnap(f.buffer)
	r := f.dataWithoutDup()
	vcEnsures("nothing else", len(r) <= len(was))
	vcEnsures("every element", vcForall(0, len(was), func(i int) bool {
		return vcExists(0, len(r), func(j int) bool { return string(r[j]) == string(was[i]) })
	}))
}

//vc:loop (*Filter).dataWithoutDup 0
func vl_dataWithoutDup(in [][]byte, i, j int, c_was [][]byte) {
	vcInv("index", 0 <= j && j < i && i <= len(in))
	vcInv("every element", vcForall(0, len(c_was), func(k int) bool {
		return vcExists(0, len(in), func(l int) bool { return (l <= j || l >= i) && string(in[l]) == string(c_was[k]) })
	}))
}

//vc:contract (*Filter).Commit props=C16
//vc:opt opaque=vcMember+vcHash
func vc_Commit(f *Filter) {
	vcRequires(f != nil)
	vcModifies(&f.buffer, f.buffer, &f.isCommited, &f.head)
	was, head := vcSnap(f.buffer), f.head
	err := f.Commit()
	vcEnsures("no error", err == nil)
	vcEnsures("committed", f.isCommited)
	vcEnsures("every symbol", vcForall(0, len(was), func(i int) bool { return vcMay(f, string(was[i])) }))
	vcEnsures("nothing new", vcImp(len(was) == 0, f.head == head))
}

//vc:loop (*Filter).Commit 0
//vc:hide every key = distinct, seen are hashes
//vc:hide hashes are seen = distinct, seen are hashes, every key
func vl_Commit(keys [][]byte, keyHashes []uint64, seen map[uint64]bool, vcI int) {
	vcInv("seen are hashes", vcForall(0, len(keyHashes), func(i int) bool { return seen[keyHashes[i]] }))
	vcInv("hashes are seen", vcForallKey(seen, func(h uint64) bool {
		return vcImp(vcHas(seen, h), vcExists(0, len(keyHashes), func(j int) bool { return keyHashes[j] == h }))
	}))
	vcInv("flags", vcForallKey(seen, func(h uint64) bool { return vcImp(vcHas(seen, h), seen[h]) }))
	vcInv("distinct", vcForall(0, len(keyHashes), func(i int) bool { return vcForall(0, i, func(j int) bool { return keyHashes[i] != keyHashes[j] }) }))
	vcInv("every key", vcForall(0, vcI, func(i int) bool {
		return vcExists(0, len(keyHashes), func(j int) bool { return keyHashes[j] == vcHash(string(keys[i])) })
	}))
	vcInv("own", vcFreshSlice(keyHashes))
}
