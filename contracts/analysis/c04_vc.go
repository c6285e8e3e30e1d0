//go:build verif

package analysis

import (
	"unicode/utf8"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// Specification of offsets and positions (property C04).

func vcWidth(r rune) int {
	if r >= 0x10000 {
		return 2
	}
	return 1
}

// vcU16: number of UTF-16 code units of x[a:b], decoding from a.
//
//vc:rec
func vcU16(x []byte, a, b int) int {
	if a >= b || a >= len(x) {
		return 0
	}
	r, size := utf8.DecodeRune(x[a:])
	return vcWidth(r) + vcU16(x, a+size, b)
}

// vcBoundary: decoding characters from a reaches b.
//
//vc:rec
func vcBoundary(x []byte, a, b int) bool {
	if a >= b || a >= len(x) {
		return a == b
	}
	_, size := utf8.DecodeRune(x[a:])
	return vcBoundary(x, a+size, b)
}

// vcWalk: the offset reached from a after at most c UTF-16 code units without
// passing a line terminator.
//
//vc:rec
func vcWalk(x []byte, a, c int) int {
	if a >= len(x) {
		return a
	}
	r, size := utf8.DecodeRune(x[a:])
	if r == '\r' || r == '\n' || vcWidth(r) > c {
		return a
	}
	return vcWalk(x, a+size, c-vcWidth(r))
}

// vcOffset: the offset that a position denotes in text x with line table t.
func vcOffset(x []byte, t []int, p protocol.Position) int {
	if p.Line >= len(t) {
		return len(x)
	}
	l := p.Line
	if l < 0 {
		l = 0
	}
	return vcWalk(x, t[l], p.Character)
}

func vcNoTerm(x []byte, a, b int) bool {
	return vcForall(a, b, func(i int) bool { return x[i] != '\r' && x[i] != '\n' })
}

//vc:lemma props=C04
func vc_walk_stays(x []byte, a, c int) {
	vcRequires(0 <= a && a <= len(x))
	vcDecreases(len(x) - a)
	if a < len(x) {
		r, size := utf8.DecodeRune(x[a:])
		if !(r == '\r' || r == '\n' || vcWidth(r) > c) {
			vc_walk_stays(x, a+size, c-vcWidth(r))
		}
	}
	w := vcWalk(x, a, c)
	vcEnsures("inside", a <= w && w <= len(x))
	vcEnsures("on the line", vcNoTerm(x, a, w))
	vcEnsures("boundary", vcBoundary(x, a, w))
	vcEnsures("column", vcImp(c >= 0, vcU16(x, a, w) <= c))
}

//vc:lemma props=C04
func vc_walk_monotone(x []byte, a, c, d int) {
	vcRequires(0 <= a && a <= len(x) && c <= d)
	vcDecreases(len(x) - a)
	vc_walk_stays(x, a, d)
	if a < len(x) {
		r, size := utf8.DecodeRune(x[a:])
		if !(r == '\r' || r == '\n' || vcWidth(r) > c) {
			vc_walk_monotone(x, a+size, c-vcWidth(r), d-vcWidth(r))
		}
	}
	vcEnsures("order", vcWalk(x, a, c) <= vcWalk(x, a, d))
}

//vc:lemma props=C04
func vc_walk_returns(x []byte, a, b int) {
	vcRequires(0 <= a && a <= b && b <= len(x) && vcBoundary(x, a, b) && vcNoTerm(x, a, b))
	vcDecreases(b - a)
	if a < b {
		_, size := utf8.DecodeRune(x[a:])
		vc_walk_returns(x, a+size, b)
	}
	vcEnsures("non-negative", 0 <= vcU16(x, a, b))
	vcEnsures("returns", vcWalk(x, a, vcU16(x, a, b)) == b)
}

// lineAt: the last line that starts at or before the offset.
//
//vc:contract (*Document).lineAt props=C04
func vc_lineAt(s *Document, offset int) {
	vcRequires(s != nil && vcTable(s.text, s.lineOffsets) && 0 <= offset)
	l := s.lineAt(offset)
	vcEnsures("in table", 0 <= l && l < len(s.lineOffsets))
	vcEnsures("starts before", s.lineOffsets[l] <= offset)
	vcEnsures("next starts after", l+1 >= len(s.lineOffsets) || offset < s.lineOffsets[l+1])
}

//vc:contract (*Document).positionAt props=C04
func vc_positionAt(s *Document, offset int) {
	vcRequires(s != nil && vcTable(s.text, s.lineOffsets) && 0 <= offset && offset <= len(s.text))
	p := s.positionAt(offset)
	vcEnsures("line", 0 <= p.Line && p.Line < len(s.lineOffsets) && 0 <= s.lineOffsets[p.Line] && s.lineOffsets[p.Line] <= offset &&
		(p.Line+1 >= len(s.lineOffsets) || offset < s.lineOffsets[p.Line+1]))
	vcEnsures("column", p.Character == vcU16(s.text, s.lineOffsets[p.Line], offset))
}

//vc:loop (*Document).positionAt 0
func vcl_positionAt(s *Document, i, i_pre, offset, character int) {
	vcInv("range", i_pre <= i && i <= len(s.text))
	vcInv("column", character+vcU16(s.text, i, offset) == vcU16(s.text, i_pre, offset))
	vcDecreases(len(s.text) - i)
}

//vc:contract (*Document).OffsetAtPosition props=C04
func vc_OffsetAtPosition(s *Document, pos protocol.Position) {
	vcRequires(s != nil && vcTable(s.text, s.lineOffsets))
	o := s.OffsetAtPosition(pos)
	vcEnsures("denotes", o == vcOffset(s.text, s.lineOffsets, pos))
	if pos.Line < len(s.lineOffsets) {
		l := pos.Line
		if l < 0 {
			l = 0
		}
		vc_walk_stays(s.text, s.lineOffsets[l], pos.Character)
		vcEnsures("on the line", s.lineOffsets[l] <= o && vcNoTerm(s.text, s.lineOffsets[l], o))
		vcEnsures("on a character boundary", vcBoundary(s.text, s.lineOffsets[l], o))
	} else {
		vcEnsures("end of text", o == len(s.text))
	}
	vcEnsures("inside", 0 <= o && o <= len(s.text))
}

//vc:loop (*Document).OffsetAtPosition 0
func vcl_OffsetAtPosition(s *Document, pos protocol.Position, offset, offset_pre, character int) {
	vcInv("range", 0 <= offset && offset <= len(s.text))
	vcInv("walked", vcWalk(s.text, offset, pos.Character-character) == vcWalk(s.text, offset_pre, pos.Character))
	vcDecreases(len(s.text) - offset)
}

// The table has no line start strictly between two consecutive entries.
//
//vc:lemma props=C04
func vc_table_gap(x []byte, t []int, l, p int) {
	vcRequires(vcTable(x, t) && 0 <= l && l < len(t) && t[l] < p && p <= len(x))
	vcRequires(l+1 >= len(t) || p < t[l+1])
	vcEnsures("no line start", !vcLineStart(x, p))
}

//vc:lemma props=C04
func vc_term_free(x []byte, a, b, i int) {
	vcRequires(vcNoTerm(x, a, b) && a <= i && i < b)
	vcEnsures("not a terminator", x[i] != '\r' && x[i] != '\n')
}

// Positions in order denote offsets in order.
//
//vc:lemma props=C04
func vc_offsets_in_order(x []byte, t []int, p, q protocol.Position) {
	vcRequires(vcTable(x, t) && 0 <= p.Line && 0 <= q.Line)
	vcRequires(p.Line < q.Line || p.Line == q.Line && p.Character <= q.Character)
	if p.Line < len(t) {
		vc_walk_stays(x, t[p.Line], p.Character)
		if p.Line == q.Line {
			vc_walk_monotone(x, t[p.Line], p.Character, q.Character)
		} else if q.Line < len(t) {
			vc_walk_stays(x, t[q.Line], q.Character)
			vcAssert("line before", t[p.Line] < t[q.Line])
			vcAssert("terminator before the next line", x[t[q.Line]-1] == '\n' || x[t[q.Line]-1] == '\r')
			o := vcOffset(x, t, p)
			if o >= t[q.Line] {
				vc_term_free(x, t[p.Line], o, t[q.Line]-1)
			}
		}
	}
	vcEnsures("order", vcOffset(x, t, p) <= vcOffset(x, t, q))
}

// A character boundary converts to a position and back to the same offset.
//
//vc:lemma props=C04
func vc_round_trip(s *Document, offset int) {
	vcRequires(s != nil && vcTable(s.text, s.lineOffsets) && 0 <= offset && offset <= len(s.text))
	vcRequires(!(0 < offset && offset < len(s.text) && s.text[offset-1] == '\r' && s.text[offset] == '\n'))
	x, t := s.text, s.lineOffsets
	p := s.positionAt(offset)
	vcRequires(vcBoundary(x, t[p.Line], offset))
	vcForallBy("no terminator on the line", t[p.Line], offset, func(i int) bool { return x[i] != '\r' && x[i] != '\n' }, func(i int) {
		vc_table_gap(x, t, p.Line, i+1)
		if i+2 <= offset {
			vc_table_gap(x, t, p.Line, i+2)
		}
	})
	vc_walk_returns(x, t[p.Line], offset)
	vcEnsures("same offset", s.OffsetAtPosition(p) == offset)
}
