//go:build verif

package analysis

import (
	"fmt"
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func vcCheckDoc(h *vcH, s string) {
	d := NewDocument("u", []byte(s))
	for o := 0; o <= len(s); o++ {
		o := o
		h.check(fmt.Sprintf("%q offset %d", s, o), func() { vc_lineAt(d, o); vc_positionAt(d, o) })
		h.check(fmt.Sprintf("%q round trip %d", s, o), func() { vc_round_trip(d, o) })
	}
	var ps []protocol.Position
	for l := -1; l <= len(d.lineOffsets); l++ {
		for c := -1; c < 5; c++ {
			ps = append(ps, protocol.Position{Line: l, Character: c})
		}
	}
	for i, p := range ps {
		p := p
		h.check(fmt.Sprintf("%q position %v", s, p), func() { vc_OffsetAtPosition(d, p) })
		if i > 0 && p.Line >= 0 {
			q := ps[i-1]
			h.check(fmt.Sprintf("%q order %v %v", s, q, p), func() {
				vcRequires(q.Line >= 0)
				vcEnsures("order", d.OffsetAtPosition(q) <= d.OffsetAtPosition(p))
			})
		}
	}
}

func TestVC_C04(t *testing.T) {
	h := vcNew(t, "C04", "positions")
	alpha := []string{"\r", "\n", "a", "é", "😀", "\x80"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		vcCheckDoc(h, s)
		if n > 0 && h.more(1<<30) {
			for _, a := range alpha {
				rec(s+a, n-1)
			}
		}
	}
	rec("", 4)
	h = vcNew(t, "C04", "random texts")
	for h.more(200000) {
		vcCheckDoc(h, vcGenText(h.r, 16))
	}
}
