//go:build verif

package storage

import (
	"math"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// Specification of the record encoding (property C01): every Write appends the encoding
// of its value to the buffer and touches nothing before it, every Read returns the value
// encoded at the start of the buffer and leaves exactly the bytes after it.

//vc:rec
func vcU64(b []byte, o int) uint64 {
	return uint64(b[o]) + uint64(b[o+1])*0x100 + uint64(b[o+2])*0x10000 + uint64(b[o+3])*0x1000000 +
		uint64(b[o+4])*0x100000000 + uint64(b[o+5])*0x10000000000 + uint64(b[o+6])*0x1000000000000 + uint64(b[o+7])*0x100000000000000
}

//vc:rec
func vcU32(b []byte, o int) uint32 {
	return uint32(b[o]) + uint32(b[o+1])*0x100 + uint32(b[o+2])*0x10000 + uint32(b[o+3])*0x1000000
}

// two's complement of the eight bytes
//
//vc:rec
func vcI64(b []byte, o int) int {
	s := 0
	if b[o+7] >= 128 {
		s = 256
	}
	return int(b[o]) + int(b[o+1])*0x100 + int(b[o+2])*0x10000 + int(b[o+3])*0x1000000 +
		int(b[o+4])*0x100000000 + int(b[o+5])*0x10000000000 + int(b[o+6])*0x1000000000000 + (int(b[o+7])-s)*0x100000000000000
}

//vc:rec
func vcI32(b []byte, o int) int {
	s := 0
	if b[o+3] >= 128 {
		s = 256
	}
	return int(b[o]) + int(b[o+1])*0x100 + int(b[o+2])*0x10000 + (int(b[o+3])-s)*0x1000000
}

// vcAppended: out is old followed by n further bytes.
func vcAppended(out, old []byte, n int) bool {
	return len(out) == len(old)+n && vcForall(0, len(old), func(i int) bool { return out[i] == old[i] })
}

func vcBlock(b []byte, o int, v []byte) bool {
	return o+8+len(v) <= len(b) && vcI64(b, o) == len(v) && vcForall(0, len(v), func(i int) bool { return b[o+8+i] == v[i] })
}

func vcStr(b []byte, o int, v string) bool {
	return o+8+len(v) <= len(b) && vcI64(b, o) == len(v) && vcForall(0, len(v), func(i int) bool { return b[o+8+i] == v[i] })
}

func vcPos(b []byte, o int, v protocol.Position) bool {
	return o+16 <= len(b) && vcI64(b, o) == v.Line && vcI64(b, o+8) == v.Character
}

func vcLoc(b []byte, o int, v protocol.Location) bool {
	return o+40+len(v.URI) <= len(b) && vcStr(b, o, v.URI) && vcPos(b, o+8+len(v.URI), v.Range.Start) && vcPos(b, o+24+len(v.URI), v.Range.End)
}

func vcB(v bool) byte {
	if v {
		return 1
	}
	return 0
}

//vc:contract PutUInt64 props=C01
func vc_PutUInt64(dst []byte, v uint64) {
	vcModifies(dst)
	old := vcSnap(dst)
	out := PutUInt64(dst, v)
	vcEnsures("appended", vcAppended(out, old, 8))
	vcEnsures("value", vcU64(out, len(dst)) == v)
	vcEnsures("owned", vcGrown(out, dst))
}

//vc:contract PutUInt32 props=C01
func vc_PutUInt32(dst []byte, v uint32) {
	vcModifies(dst)
	old := vcSnap(dst)
	out := PutUInt32(dst, v)
	vcEnsures("appended", vcAppended(out, old, 4))
	vcEnsures("value", vcU32(out, len(dst)) == v)
	vcEnsures("owned", vcGrown(out, dst))
}

//vc:contract PutInt64 props=C01
func vc_PutInt64(dst []byte, v int64) {
	vcModifies(dst)
	old := vcSnap(dst)
	out := PutInt64(dst, v)
	vcEnsures("appended", vcAppended(out, old, 8))
	vcEnsures("value", int64(vcI64(out, len(dst))) == v)
	vcEnsures("owned", vcGrown(out, dst))
}

//vc:contract PutFloat64 props=C01
func vc_PutFloat64(dst []byte, v float64) {
	vcModifies(dst)
	old := vcSnap(dst)
	out := PutFloat64(dst, v)
	vcEnsures("appended", vcAppended(out, old, 8))
	vcEnsures("value", vcU64(out, len(dst)) == math.Float64bits(v))
	vcEnsures("owned", vcGrown(out, dst))
}

//vc:contract PutFloat32 props=C01
func vc_PutFloat32(dst []byte, v float32) {
	vcModifies(dst)
	old := vcSnap(dst)
	out := PutFloat32(dst, v)
	vcEnsures("appended", vcAppended(out, old, 4))
	vcEnsures("value", vcU32(out, len(dst)) == math.Float32bits(v))
	vcEnsures("owned", vcGrown(out, dst))
}

//vc:contract PutInt32 props=C01
func vc_PutInt32(dst []byte, v int64) {
	vcModifies(dst)
	old := vcSnap(dst)
	out := PutInt32(dst, v)
	vcEnsures("appended", vcAppended(out, old, 4))
	vcEnsures("value", vcImp(-0x80000000 <= v && v < 0x80000000, int64(vcI32(out, len(dst))) == v))
	vcEnsures("owned", vcGrown(out, dst))
}

//vc:contract ReadUInt64 props=C01
func vc_ReadUInt64(src []byte) {
	vcRequires(len(src) >= 8)
	v := ReadUInt64(src)
	vcEnsures("value", v == vcU64(src, 0))
}

//vc:contract ReadUInt32 props=C01
func vc_ReadUInt32(src []byte) {
	vcRequires(len(src) >= 4)
	v := ReadUInt32(src)
	vcEnsures("value", v == vcU32(src, 0))
}

//vc:contract ReadInt64 props=C01
func vc_ReadInt64(src []byte) {
	vcRequires(len(src) >= 8)
	v := ReadInt64(src)
	vcEnsures("value", v == int64(vcI64(src, 0)))
}

//vc:contract ReadInt32 props=C01
func vc_ReadInt32(src []byte) {
	vcRequires(len(src) >= 4)
	v := ReadInt32(src)
	vcEnsures("value", v == int32(vcI32(src, 0)))
}

//vc:contract ReadFloat64 props=C01
func vc_ReadFloat64(src []byte) {
	vcRequires(len(src) >= 8)
	v := ReadFloat64(src)
	vcEnsures("value", math.Float64bits(v) == vcU64(src, 0))
}

//vc:contract ReadFloat32 props=C01
func vc_ReadFloat32(src []byte) {
	vcRequires(len(src) >= 4)
	v := ReadFloat32(src)
	vcEnsures("value", math.Float32bits(v) == vcU32(src, 0))
}

//vc:contract (*Encoder).WriteUInt64 props=C01
func vc_Encoder_WriteUInt64(e *Encoder, v uint64) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteUInt64(v)
	vcEnsures("appended", vcAppended(e.buf, old, 8))
	vcEnsures("value", vcU64(e.buf, len(old)) == v)
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteInt props=C01
func vc_Encoder_WriteInt(e *Encoder, v int) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteInt(v)
	vcEnsures("appended", vcAppended(e.buf, old, 8))
	vcEnsures("value", vcI64(e.buf, len(old)) == v)
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteUInt32 props=C01
func vc_Encoder_WriteUInt32(e *Encoder, v uint32) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteUInt32(v)
	vcEnsures("appended", vcAppended(e.buf, old, 4))
	vcEnsures("value", vcU32(e.buf, len(old)) == v)
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteFloat64 props=C01
func vc_Encoder_WriteFloat64(e *Encoder, v float64) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteFloat64(v)
	vcEnsures("appended", vcAppended(e.buf, old, 8))
	vcEnsures("value", vcU64(e.buf, len(old)) == math.Float64bits(v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteFloat32 props=C01
func vc_Encoder_WriteFloat32(e *Encoder, v float32) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteFloat32(v)
	vcEnsures("appended", vcAppended(e.buf, old, 4))
	vcEnsures("value", vcU32(e.buf, len(old)) == math.Float32bits(v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteBytes props=C01
func vc_Encoder_WriteBytes(e *Encoder, v []byte) {
	vcRequires(e != nil && vcDisjoint(e.buf, v))
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteBytes(v)
	vcEnsures("appended", vcAppended(e.buf, old, 8+len(v)))
	vcEnsures("value", vcBlock(e.buf, len(old), v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteString props=C01
func vc_Encoder_WriteString(e *Encoder, v string) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteString(v)
	vcEnsures("appended", vcAppended(e.buf, old, 8+len(v)))
	vcEnsures("value", vcStr(e.buf, len(old), v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteBool props=C01
func vc_Encoder_WriteBool(e *Encoder, v bool) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteBool(v)
	vcEnsures("appended", vcAppended(e.buf, old, 1))
	vcEnsures("value", e.buf[len(old)] == vcB(v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WritePosition props=C01
func vc_Encoder_WritePosition(e *Encoder, v protocol.Position) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WritePosition(v)
	vcEnsures("appended", vcAppended(e.buf, old, 16))
	vcEnsures("value", vcPos(e.buf, len(old), v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).WriteLocation props=C01
func vc_Encoder_WriteLocation(e *Encoder, v protocol.Location) {
	vcRequires(e != nil)
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	e.WriteLocation(v)
	vcEnsures("appended", vcAppended(e.buf, old, 40+len(v.URI)))
	vcEnsures("value", vcLoc(e.buf, len(old), v))
	vcEnsures("owned", vcGrown(e.buf, was))
}

//vc:contract (*Encoder).Bytes props=C01
func vc_Encoder_Bytes(e *Encoder) {
	vcRequires(e != nil)
	b := e.Bytes()
	vcEnsures("buffer", vcSameSlice(b, e.buf))
}

//vc:contract NewEncoder props=C01
func vc_NewEncoder() {
	e := NewEncoder()
	vcEnsures("empty", e != nil && vcFresh(e) && len(e.buf) == 0 && vcFreshSlice(e.buf))
}

//vc:contract NewDecoder props=C01
func vc_NewDecoder(b []byte) {
	d := NewDecoder(b)
	vcEnsures("whole record", d != nil && vcFresh(d) && vcSameSlice(d.buf, b))
}

//vc:contract (*Decoder).Len props=C01
func vc_Decoder_Len(d *Decoder) {
	vcRequires(d != nil)
	n := d.Len()
	vcEnsures("rest", n == len(d.buf))
}

//vc:contract (*Decoder).ReadInt props=C01
func vc_Decoder_ReadInt(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 8)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadInt()
	vcEnsures("value", v == vcI64(was, 0))
	vcEnsures("rest", vcSameSlice(d.buf, was[8:]))
}

//vc:contract (*Decoder).ReadUInt64 props=C01
func vc_Decoder_ReadUInt64(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 8)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadUInt64()
	vcEnsures("value", v == vcU64(was, 0))
	vcEnsures("rest", vcSameSlice(d.buf, was[8:]))
}

//vc:contract (*Decoder).ReadUInt32 props=C01
func vc_Decoder_ReadUInt32(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 4)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadUInt32()
	vcEnsures("value", v == vcU32(was, 0))
	vcEnsures("rest", vcSameSlice(d.buf, was[4:]))
}

//vc:contract (*Decoder).ReadFloat64 props=C01
func vc_Decoder_ReadFloat64(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 8)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadFloat64()
	vcEnsures("value", math.Float64bits(v) == vcU64(was, 0))
	vcEnsures("rest", vcSameSlice(d.buf, was[8:]))
}

//vc:contract (*Decoder).ReadFloat32 props=C01
func vc_Decoder_ReadFloat32(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 4)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadFloat32()
	vcEnsures("value", math.Float32bits(v) == vcU32(was, 0))
	vcEnsures("rest", vcSameSlice(d.buf, was[4:]))
}

//vc:contract (*Decoder).ReadBool props=C01
func vc_Decoder_ReadBool(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 1)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadBool()
	vcEnsures("value", v == (was[0] != 0))
	vcEnsures("rest", vcSameSlice(d.buf, was[1:]))
}

// vcHasBlock: a byte block starts at o.
func vcHasBlock(b []byte, o int) bool {
	return o+8 <= len(b) && vcI64(b, o) >= 0 && vcI64(b, o) <= len(b)-o-8
}

//vc:contract (*Decoder).ReadBytes props=C01
func vc_Decoder_ReadBytes(d *Decoder) {
	vcRequires(d != nil && vcHasBlock(d.buf, 0))
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadBytes()
	vcEnsures("value", vcBlock(was, 0, v))
	vcEnsures("rest", vcSameSlice(d.buf, was[8+len(v):]))
	vcEnsures("independent copy", vcImp(len(v) > 0, vcFreshSlice(v) && vcDisjoint(v, was)))
}

//vc:contract (*Decoder).ReadString props=C01
func vc_Decoder_ReadString(d *Decoder) {
	vcRequires(d != nil && vcHasBlock(d.buf, 0))
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadString()
	vcEnsures("value", vcStr(was, 0, v))
	vcEnsures("rest", vcSameSlice(d.buf, was[8+len(v):]))
}

//vc:contract (*Decoder).ReadPosition props=C01
func vc_Decoder_ReadPosition(d *Decoder) {
	vcRequires(d != nil && len(d.buf) >= 16)
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadPosition()
	vcEnsures("value", vcPos(was, 0, v))
	vcEnsures("rest", vcSameSlice(d.buf, was[16:]))
}

//vc:contract (*Decoder).ReadLocation props=C01
func vc_Decoder_ReadLocation(d *Decoder) {
	vcRequires(d != nil && vcHasBlock(d.buf, 0) && len(d.buf) >= 40+vcI64(d.buf, 0))
	vcModifies(&d.buf)
	was := d.buf
	v := d.ReadLocation()
	vcEnsures("value", vcLoc(was, 0, v))
	vcEnsures("rest", vcSameSlice(d.buf, was[40+len(v.URI):]))
}

// One item of a record: the value of kind k.
type vcItem struct {
	k  int
	i  int
	u  uint64
	w  uint32
	f  float64
	g  float32
	b  bool
	s  string
	bs []byte
	p  protocol.Position
	l  protocol.Location
}

func vcSize(it vcItem) int {
	switch it.k {
	case 0, 1, 3:
		return 8
	case 2, 4:
		return 4
	case 5:
		return 1
	case 6:
		return 8 + len(it.s)
	case 7:
		return 8 + len(it.bs)
	case 8:
		return 16
	}
	return 40 + len(it.l.URI)
}

// vcEnc: the encoding of the item is at offset o of b.
//
//vc:rec
func vcEnc(b []byte, o int, it vcItem) bool {
	if o < 0 || o+vcSize(it) > len(b) {
		return false
	}
	switch it.k {
	case 0:
		return vcI64(b, o) == it.i
	case 1:
		return vcU64(b, o) == it.u
	case 2:
		return vcU32(b, o) == it.w
	case 3:
		return vcU64(b, o) == math.Float64bits(it.f)
	case 4:
		return vcU32(b, o) == math.Float32bits(it.g)
	case 5:
		return b[o] == vcB(it.b)
	case 6:
		return vcStr(b, o, it.s)
	case 7:
		return vcBlock(b, o, it.bs)
	case 8:
		return vcPos(b, o, it.p)
	}
	return vcLoc(b, o, it.l)
}

// An encoding stays in place when bytes are appended or the bytes before it are cut off:
// b[p:] and old[o:] agree on the whole encoding.

//vc:lemma props=C01
func vc_i64_kept(b, old []byte, p, o int) {
	vcRequires(0 <= p && 0 <= o && p+8 <= len(b) && o+8 <= len(old))
	vcRequires(vcForall(0, 8, func(i int) bool { return b[p+i] == old[o+i] }))
	vcEnsures("same int", vcI64(b, p) == vcI64(old, o))
	vcEnsures("same uint64", vcU64(b, p) == vcU64(old, o))
}

//vc:lemma props=C01
func vc_u32_kept(b, old []byte, p, o int) {
	vcRequires(0 <= p && 0 <= o && p+4 <= len(b) && o+4 <= len(old))
	vcRequires(vcForall(0, 4, func(i int) bool { return b[p+i] == old[o+i] }))
	vcEnsures("same uint32", vcU32(b, p) == vcU32(old, o))
}

//vc:lemma props=C01
//vc:opt opaque=vcI64+vcU64+vcU32
func vc_enc_kept(b, old []byte, p, o int, it vcItem) {
	vcRequires(0 <= it.k && it.k <= 9 && vcEnc(old, o, it))
	vcRequires(0 <= p && p+vcSize(it) <= len(b))
	vcRequires(vcForall(0, vcSize(it), func(i int) bool { return b[p+i] == old[o+i] }))
	switch it.k {
	case 0, 1, 3, 6, 7:
		vc_i64_kept(b, old, p, o)
	case 2, 4:
		vc_u32_kept(b, old, p, o)
	case 8:
		vc_i64_kept(b, old, p, o)
		vc_i64_kept(b, old, p+8, o+8)
	case 9:
		n := 8 + len(it.l.URI)
		vc_i64_kept(b, old, p, o)
		vc_i64_kept(b, old, p+n, o+n)
		vc_i64_kept(b, old, p+n+8, o+n+8)
		vc_i64_kept(b, old, p+n+16, o+n+16)
		vc_i64_kept(b, old, p+n+24, o+n+24)
	}
	vcEnsures("kept", vcEnc(b, p, it))
}

func vcWrite(e *Encoder, it vcItem) {
	switch it.k {
	case 0:
		e.WriteInt(it.i)
	case 1:
		e.WriteUInt64(it.u)
	case 2:
		e.WriteUInt32(it.w)
	case 3:
		e.WriteFloat64(it.f)
	case 4:
		e.WriteFloat32(it.g)
	case 5:
		e.WriteBool(it.b)
	case 6:
		e.WriteString(it.s)
	case 7:
		e.WriteBytes(it.bs)
	case 8:
		e.WritePosition(it.p)
	case 9:
		e.WriteLocation(it.l)
	}
}

//vc:contract vcWrite props=C01
//vc:opt opaque=vcI64+vcU64+vcU32
func vc_Write(e *Encoder, it vcItem) {
	vcRequires(e != nil && 0 <= it.k && it.k <= 9 && vcDisjoint(e.buf, it.bs))
	vcModifies(&e.buf, e.buf)
	old, was := vcSnap(e.buf), e.buf
	vcWrite(e, it)
	vcEnsures("appended", vcAppended(e.buf, old, vcSize(it)))
	n := len(old)
	vcAssert("int", (it.k != 0 || vcI64(e.buf, n) == it.i))
	vcAssert("uint64", (it.k != 1 || vcU64(e.buf, n) == it.u))
	vcAssert("uint32", (it.k != 2 || vcU32(e.buf, n) == it.w))
	vcAssert("float64", (it.k != 3 || vcU64(e.buf, n) == math.Float64bits(it.f)))
	vcAssert("float32", (it.k != 4 || vcU32(e.buf, n) == math.Float32bits(it.g)))
	vcAssert("bool", (it.k != 5 || e.buf[n] == vcB(it.b)))
	vcAssert("string", (it.k != 6 || vcStr(e.buf, n, it.s)))
	vcAssert("bytes", (it.k != 7 || vcBlock(e.buf, n, it.bs)))
	vcAssert("position", (it.k != 8 || vcPos(e.buf, n, it.p)))
	vcAssert("location", (it.k != 9 || vcLoc(e.buf, n, it.l)))
	vcEnsures("value", vcEnc(e.buf, len(old), it))
	vcEnsures("owned", vcGrown(e.buf, was))
}

func vcEqualBytes(a, b []byte) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// vcReadBack reads an item of the kind of it and tells whether it is the same value.
func vcReadBack(d *Decoder, it vcItem) bool {
	switch it.k {
	case 0:
		return d.ReadInt() == it.i
	case 1:
		return d.ReadUInt64() == it.u
	case 2:
		return d.ReadUInt32() == it.w
	case 3:
		return math.Float64bits(d.ReadFloat64()) == math.Float64bits(it.f)
	case 4:
		return math.Float32bits(d.ReadFloat32()) == math.Float32bits(it.g)
	case 5:
		return d.ReadBool() == it.b
	case 6:
		s := d.ReadString()
		vcStrExt(s, it.s)
		return s == it.s
	case 7:
		return vcEqualBytes(d.ReadBytes(), it.bs)
	case 8:
		return d.ReadPosition() == it.p
	}
	l := d.ReadLocation()
	vcStrExt(l.URI, it.l.URI)
	return l == it.l
}

//vc:contract vcReadBack props=C01
//vc:opt opaque=vcI64+vcU64+vcU32
func vc_ReadBack(d *Decoder, it vcItem) {
	vcRequires(d != nil && 0 <= it.k && it.k <= 9 && vcEnc(d.buf, 0, it))
	vcModifies(&d.buf)
	was := d.buf
	same := vcReadBack(d, it)
	vcAssert("number", vcImp(it.k <= 4, same))
	vcAssert("bool", vcImp(it.k == 5, same))
	vcAssert("string", vcImp(it.k == 6, same))
	vcAssert("bytes", vcImp(it.k == 7, same))
	vcAssert("position", vcImp(it.k == 8, same))
	vcAssert("location", vcImp(it.k == 9, same))
	vcEnsures("the value written", same)
	vcEnsures("rest", vcSameSlice(d.buf, was[vcSize(it):]))
}

// vcRoundTrip writes a record of any number of items of any kinds and reads it back.
func vcRoundTrip(items []vcItem, offs []int) bool {
	e := NewEncoder()
	for i := 0; i < len(items); i++ {
		old := vcSnap(e.buf)
		vcWrite(e, items[i])
		vcForallBy("earlier items stay", 0, i, func(j int) bool {
			return 0 <= offs[j] && offs[j]+vcSize(items[j]) <= len(e.buf) && vcEnc(e.buf, offs[j], items[j])
		}, func(j int) {
			vc_enc_kept(e.buf, old, offs[j], offs[j], items[j])
		})
		vcForallBy("own buffer", 0, len(items), func(j int) bool { return vcDisjoint(e.buf, items[j].bs) }, func(j int) {})
		offs[i+1] = len(e.buf)
	}
	b := e.Bytes()
	d := NewDecoder(b)
	same := true
	for i := 0; i < len(items); i++ {
		vc_enc_kept(d.buf, b, 0, offs[i], items[i])
		same = vcReadBack(d, items[i]) && same
	}
	return same && d.Len() == 0
}

//vc:verify vcRoundTrip props=C01
//vc:opt opaque=vcI64+vcU64+vcU32+vcEnc
func vc_RoundTrip(items []vcItem, offs []int) {
	vcRequires(len(offs) == len(items)+1 && offs[0] == 0)
	vcRequires(vcForall(0, len(items), func(i int) bool { return 0 <= items[i].k && items[i].k <= 9 }))
	vcModifies(offs)
	same := vcRoundTrip(items, offs)
	vcEnsures("every item reads back, the record ends with the last", same)
}

//vc:loop vcRoundTrip 0
func vcl_RoundTrip_write(e *Encoder, items []vcItem, offs []int, i int) {
	vcInv("index", 0 <= i && i <= len(items) && e != nil)
	vcInv("new buffer", vcFreshSlice(e.buf))
	vcInv("at", offs[0] == 0 && offs[i] == len(e.buf))
	vcInv("sizes", vcForall(0, i, func(j int) bool { return offs[j+1] == offs[j]+vcSize(items[j]) }))
	vcInv("own buffer", vcForall(0, len(items), func(j int) bool { return vcDisjoint(e.buf, items[j].bs) }))
	vcInv("written", vcForall(0, i, func(j int) bool {
		return 0 <= offs[j] && offs[j]+vcSize(items[j]) <= len(e.buf) && vcEnc(e.buf, offs[j], items[j])
	}))
	vcDecreases(len(items) - i)
}

//vc:loop vcRoundTrip 1
func vcl_RoundTrip_read(d *Decoder, b []byte, items []vcItem, offs []int, i int, same bool) {
	vcInv("index", 0 <= i && i <= len(items) && d != nil)
	vcInv("all the same so far", same)
	vcInv("rest", 0 <= offs[i] && offs[i] <= len(b) && vcSameSlice(d.buf, b[offs[i]:]))
	vcInv("end", offs[len(items)] == len(b))
	vcInv("sizes", vcForall(0, len(items), func(j int) bool { return offs[j+1] == offs[j]+vcSize(items[j]) }))
	vcInv("written", vcForall(0, len(items), func(j int) bool { return vcEnc(b, offs[j], items[j]) }))
	vcDecreases(len(items) - i)
}
