//go:build verif

package protocol

import (
	"fmt"
	"testing"
)

func TestVC_C05(t *testing.T) {
	h := vcNew(t, "C05", "positions")
	var ps []Position
	for l := 0; l < 3; l++ {
		for c := 0; c < 3; c++ {
			ps = append(ps, Position{Line: l, Character: c})
		}
	}
	for _, a := range ps {
		for _, b := range ps {
			h.check(fmt.Sprint(a, b), func() { vc_ComparePos(a, b) })
			for _, c := range ps {
				h.check(fmt.Sprint("laws", a, b, c), func() { vc_order_laws(a, b, c) })
				h.check(fmt.Sprint("range", a, b, c), func() { vc_IsInRange(a, Range{b, c}) })
				for _, d := range ps {
					h.check(fmt.Sprint("ranges", a, b, c, d), func() { vc_CompareRange(Range{a, b}, Range{c, d}) })
				}
			}
		}
	}
	for h.more(300000) {
		p := func() Position { return Position{Line: h.r.Intn(5) - 1, Character: h.r.Intn(1 << uint(h.r.Intn(20)))} }
		a, b, c, d, e := p(), p(), p(), p(), p()
		h.check(fmt.Sprint("laws", a, b, c), func() { vc_order_laws(a, b, c) })
		h.check(fmt.Sprint("rlaws", a, b, c, d, e), func() { vc_range_laws(a, Range{b, c}, Range{d, e}) })
		h.check(fmt.Sprint(a, b), func() { vc_ComparePos(a, b) })
	}
}
