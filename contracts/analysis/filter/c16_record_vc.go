//go:build verif

package filter

import "github.com/john-nguyen09/phpintel/analysis/storage"

// A record is a sequence of items. That what is written to an encoder, item by item, is read
// back from a decoder of its bytes, is property C01. Here an encoder is known by the record
// that it will hold in the end: vcGhostGet("written", e) items of it have been written. A
// decoder is known by the record it was made of: vcGhostGet("read", d) items have been read.

//vc:rec
func vcRecord(e *storage.Encoder) int { return 0 }

//vc:rec
func vcSource(d *storage.Decoder) int { return 0 }

// vcItems is the number of items of the record.
//
//vc:rec
func vcItems(record int) int { return 0 }

// vcKind is the kind of an item: 1 uint64, 2 uint32, 3 bytes.
//
//vc:rec
func vcKind(record, i int) int { return 0 }

//vc:rec
func vcU64At(record, i int) uint64 { return 0 }

//vc:rec
func vcU32At(record, i int) uint32 { return 0 }

//vc:rec
func vcBytesAt(record, i int) string { return "" }

//vc:trusted (*Encoder).WriteUInt64
//vc:opt opaque=vcRecord+vcKind+vcU64At
func vc_WriteUInt64(e *storage.Encoder, v uint64) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteUInt64(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcKind(vcRecord(e), n) == 1 && vcU64At(vcRecord(e), n) == v)
}

//vc:trusted (*Encoder).WriteUInt32
//vc:opt opaque=vcRecord+vcKind+vcU32At
func vc_WriteUInt32(e *storage.Encoder, v uint32) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteUInt32(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcKind(vcRecord(e), n) == 2 && vcU32At(vcRecord(e), n) == v)
}

//vc:trusted (*Encoder).WriteBytes
//vc:opt opaque=vcRecord+vcKind+vcBytesAt
func vc_WriteBytes(e *storage.Encoder, v []byte) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteBytes(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcKind(vcRecord(e), n) == 3 && vcBytesAt(vcRecord(e), n) == string(v))
}

//vc:trusted (*Decoder).Len
//vc:opt opaque=vcSource+vcItems
func vc_Len(d *storage.Decoder) {
	r := d.Len()
	vcEnsures("left", r >= 0 && (r == 0) == (vcGhostGet("read", d) >= vcItems(vcSource(d))))
}

//vc:trusted (*Decoder).ReadUInt64
//vc:opt opaque=vcSource+vcKind+vcU64At
func vc_ReadUInt64(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(n < vcItems(vcSource(d)) && vcKind(vcSource(d), n) == 1)
	vcModifiesKey("ghost:read")
	v := d.ReadUInt64()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && v == vcU64At(vcSource(d), n))
}

//vc:trusted (*Decoder).ReadUInt32
//vc:opt opaque=vcSource+vcKind+vcU32At
func vc_ReadUInt32(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(n < vcItems(vcSource(d)) && vcKind(vcSource(d), n) == 2)
	vcModifiesKey("ghost:read")
	v := d.ReadUInt32()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && v == vcU32At(vcSource(d), n))
}

//vc:trusted (*Decoder).ReadBytes
//vc:opt opaque=vcSource+vcKind+vcBytesAt
func vc_ReadBytes(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(n < vcItems(vcSource(d)) && vcKind(vcSource(d), n) == 3)
	vcModifiesKey("ghost:read")
	v := d.ReadBytes()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && string(v) == vcBytesAt(vcSource(d), n))
}

// vcStored: the record holds, from item n on, what is needed of the filter.
func vcStored(record, n int, f *Filter) bool {
	return vcKind(record, n) == 1 && vcKind(record, n+1) == 2 && vcKind(record, n+2) == 3 &&
		vcU64At(record, n) == f.head.Seed && vcU32At(record, n+1) == f.head.BlockLength && vcBytesAt(record, n+2) == string(f.head.Fingerprints)
}

//vc:contract (*Filter).Encode props=C16
//vc:opt opaque=vcRecord+vcKind+vcU64At+vcU32At+vcBytesAt
func vc_Encode(f *Filter, e *storage.Encoder) {
	vcRequires(f != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	err := f.Encode(e)
	vcEnsures("error", (err != nil) == !f.isCommited)
	vcEnsures("stored", vcImp(f.isCommited && f.head != nil, vcGhostGet("written", e) == n+3 && vcStored(vcRecord(e), n, f)))
	vcEnsures("nothing", vcImp(!f.isCommited || f.head == nil, vcGhostGet("written", e) == n))
}

// A filter that was stored and loaded hides no symbol.
//
//vc:contract FilterDecode props=C16
//vc:opt opaque=vcSource+vcItems+vcKind+vcU64At+vcU32At+vcBytesAt+vcMember+vcHash
func vc_FilterDecode(d *storage.Decoder, f *Filter, symbol string) {
	vcRequires(d != nil && f != nil && f.isCommited && vcGhostGet("read", d) == 0)
	vcRequires(vcImp(f.head == nil, vcItems(vcSource(d)) == 0))
	vcRequires(vcImp(f.head != nil, vcItems(vcSource(d)) == 3 && vcStored(vcSource(d), 0, f)))
	may := vcMay(f, symbol)
	vcModifiesKey("ghost:read")
	r := FilterDecode(d)
	vcEnsures("loaded", r != nil && vcFresh(r) && r.isCommited && len(r.buffer) == 0)
	vcEnsures("the same symbols", vcMay(r, symbol) == may)
}
