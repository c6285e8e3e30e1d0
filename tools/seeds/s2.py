SEEDS={
"C01-string-view":dict(property="C01",pkg="analysis/storage",
 edits=[("analysis/storage/encoding.go","""	return string(d.ReadBytes())""","""	n := d.ReadInt()
	b := d.buf[:n:n]
	d.buf = d.buf[n:]
	return *(*string)(unsafe.Pointer(&b))""")],
 test=r'''
package storage

import "testing"

func TestZZDemo(t *testing.T) {
	e := NewEncoder()
	e.WriteString("\\Foo\\Bar")
	rec := e.Bytes()
	s := NewDecoder(rec).ReadString()
	for i := range rec {
		rec[i] = 'x'
	}
	if s != "\\Foo\\Bar" {
		t.Fatalf("string changed to %q when the record buffer was reused", s)
	}
}
''',needs="the record's buffer is overwritten after a string was read from it",breaks="strings read from a record are views of its buffer"),
"C01-float-integers":dict(property="C01",pkg="analysis/storage",
 edits=[("analysis/storage/encoding.go","""	return PutUInt64(dst, math.Float64bits(v))""","""	if i := int64(v); float64(i) == v {
		// integral values have one representation
		return PutUInt64(dst, math.Float64bits(float64(i)))
	}
	return PutUInt64(dst, math.Float64bits(v))""")],
 test=r'''
package storage

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	e := NewEncoder()
	e.WriteFloat64(math.Copysign(0, -1))
	if v := NewDecoder(e.Bytes()).ReadFloat64(); !math.Signbit(v) {
		t.Fatalf("-0 read back as %v", v)
	}
}
''',needs="the float64 value -0",breaks="-0 is read back as 0"),
"C01-shared-append":dict(property="C01",pkg="analysis/storage",
 edits=[("analysis/storage/encoding.go","""	b := append(d.buf[:0:0], d.buf[:len]...)
	d.buf = d.buf[len:]""","""	b := d.buf[:len]
	d.buf = append(d.buf[:0:0], d.buf[len:]...)""")],
 test=r'''
package storage

import "testing"

func TestZZDemo(t *testing.T) {
	e := NewEncoder()
	e.WriteBytes([]byte("abc"))
	e.WriteInt(7)
	rec := e.Bytes()
	b := NewDecoder(rec).ReadBytes()
	rec[8] = 'X'
	if string(b) != "abc" {
		t.Fatalf("block changed to %q", b)
	}
}
''',needs="the record's buffer is overwritten after a byte block was read from it",breaks="the block is the view and the rest the copy"),
}
