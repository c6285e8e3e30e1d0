//go:build verif

package storage

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func vcGenInt(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(300) - 20
	case 1:
		return []int{0, -1, 255, 256, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 40, -(1 << 40)}[r.Intn(12)]
	case 2:
		return int(r.Uint64())
	}
	return 1<<uint(r.Intn(63)) - r.Intn(3)
}

func vcGenString(r *rand.Rand) string {
	n := r.Intn(6)
	if r.Intn(8) == 0 {
		n = 120 + r.Intn(400)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 1, 255, 128, 'a', '\\', '\n', byte(r.Intn(256))}[r.Intn(8)]
	}
	return string(b)
}

func vcGenItem(r *rand.Rand) vcItem {
	it := vcItem{k: r.Intn(10), i: vcGenInt(r), u: uint64(vcGenInt(r)), w: uint32(vcGenInt(r)), b: r.Intn(2) == 0, s: vcGenString(r)}
	it.f = math.Float64frombits(uint64(vcGenInt(r)))
	it.g = math.Float32frombits(uint32(vcGenInt(r)))
	if r.Intn(2) == 0 {
		it.f, it.g = []float64{0, math.Copysign(0, -1), math.Inf(1), 1.5, -2}[r.Intn(5)], []float32{0, float32(math.Copysign(0, -1)), 1.5, -2, float32(math.Inf(-1))}[r.Intn(5)]
	}
	if r.Intn(6) > 0 {
		it.bs = []byte(vcGenString(r))
	}
	it.p = protocol.Position{Line: vcGenInt(r), Character: vcGenInt(r)}
	it.l = protocol.Location{URI: vcGenString(r), Range: protocol.Range{Start: protocol.Position{Line: vcGenInt(r), Character: vcGenInt(r)}, End: protocol.Position{Line: vcGenInt(r), Character: vcGenInt(r)}}}
	return it
}

// vc_independent: what was read keeps its value when the record's buffer is reused, what was
// written when the value's own bytes change.
func vc_independent(items []vcItem) {
	e := NewEncoder()
	var want []string
	for _, it := range items {
		bs := append([]byte(nil), it.bs...)
		e.WriteBytes(bs)
		e.WriteString(it.s)
		want = append(want, string(it.bs), it.s)
		for i := range bs {
			bs[i] ^= 0x55
		}
	}
	rec := append([]byte(nil), e.Bytes()...)
	d := NewDecoder(rec)
	var got [][]byte
	var gots []string
	for range items {
		got = append(got, d.ReadBytes())
		gots = append(gots, d.ReadString())
	}
	for i := range rec {
		rec[i] = 0xEE
	}
	for i := range items {
		vcEnsures("block survives the buffer", string(got[i]) == want[2*i])
		vcEnsures("string survives the buffer", gots[i] == want[2*i+1])
		_ = append(got[i], 1)
	}
	for i := range items {
		vcEnsures("block survives appending to another", string(got[i]) == want[2*i])
	}
}

func TestVC_C01(t *testing.T) {
	h := vcNew(t, "C01", "PutX/ReadX")
	for h.more(20000) {
		it, dst := vcGenItem(h.r), make([]byte, h.r.Intn(5), 5+h.r.Intn(12))
		in := fmt.Sprintf("dst=%d/%d item=%+v", len(dst), cap(dst), it)
		src := append([]byte(vcGenString(h.r)), 1, 2, 3, 250, 251, 252, 253, byte(h.r.Intn(256)))
		in2 := fmt.Sprintf("src=%v", src)
		h.check(in, func() { vc_PutUInt64(dst, it.u) })
		h.check(in, func() { vc_PutUInt32(dst, it.w) })
		h.check(in, func() { vc_PutInt64(dst, int64(it.i)) })
		h.check(in, func() { vc_PutInt32(dst, int64(int32(it.i))) })
		h.check(in, func() { vc_PutFloat64(dst, it.f) })
		h.check(in, func() { vc_PutFloat32(dst, it.g) })
		h.check(in2, func() { vc_ReadUInt64(src) })
		h.check(in2, func() { vc_ReadUInt32(src) })
		h.check(in2, func() { vc_ReadInt64(src) })
		h.check(in2, func() { vc_ReadInt32(src) })
		h.check(in2, func() { vc_ReadFloat64(src) })
		h.check(in2, func() { vc_ReadFloat32(src) })
	}
	h = vcNew(t, "C01", "Encoder/Decoder steps")
	for h.more(20000) {
		items := make([]vcItem, 1+h.r.Intn(4))
		for i := range items {
			items[i] = vcGenItem(h.r)
		}
		e := NewEncoder()
		for i, it := range items {
			in := fmt.Sprintf("item %d of %+v", i, items)
			h.check(in, func() { vc_Write(e, it) })
		}
		d := NewDecoder(e.Bytes())
		for i, it := range items {
			in := fmt.Sprintf("item %d of %+v", i, items)
			h.check(in, func() { vc_ReadBack(d, it) })
		}
	}
	h = vcNew(t, "C01", "whole records")
	for h.more(20000) {
		n := h.r.Intn(8)
		items := make([]vcItem, n)
		for i := range items {
			items[i] = vcGenItem(h.r)
		}
		in := fmt.Sprintf("%+v", items)
		h.check(in, func() { vc_RoundTrip(items, make([]int, n+1)) })
		h.check(in, func() { vc_independent(items) })
	}
}
