//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

var vcTextAtoms = []string{"\r", "\n", "\r\n", "a", "bc", "é", "你", "😀", "\x80", "\xf0\x9f", "$x", "<?php ", " ", "\t", ";"}

func vcGenText(r *rand.Rand, n int) string {
	s := ""
	if r.Intn(2) == 0 {
		s = "<?php "
	}
	for k := r.Intn(n); k > 0; k-- {
		s += vcTextAtoms[r.Intn(len(vcTextAtoms))]
	}
	return s
}

// vcSplice is the reference meaning of one edit.
func vcSplice(x string, c protocol.TextDocumentContentChangeEvent) string {
	if c.Range == nil {
		return c.Text
	}
	b := []byte(x)
	t := vcRefTable(b)
	so, eo := vcOffset(b, t, c.Range.Start), vcOffset(b, t, c.Range.End)
	return x[:so] + c.Text + x[eo:]
}

func vcRefTable(x []byte) []int {
	t := []int{0}
	for p := 1; p <= len(x); p++ {
		if vcLineStart(x, p) {
			t = append(t, p)
		}
	}
	return t
}

func vc_edits(text string, cs []protocol.TextDocumentContentChangeEvent) {
	d := NewDocument("file:///a.php", []byte(text))
	d.Load()
	want := text
	for i := 0; i < len(cs); {
		n := 1 + (i+len(text))%2
		if i+n > len(cs) {
			n = len(cs) - i
		}
		batch := cs[i : i+n]
		i += n
		old := d
		oldText := string(old.GetText())
		d = d.CloneForMutate()
		vc_ApplyChanges(d, batch)
		for _, c := range batch {
			want = vcSplice(want, c)
		}
		vcEnsures("text is the sequential result", string(d.GetText()) == want)
		vcEnsures("previous version keeps its text", string(old.GetText()) == oldText)
		fresh := NewDocument("file:///a.php", []byte(want))
		vcEnsures("table of a fresh document", fmt.Sprint(fresh.lineOffsets) == fmt.Sprint(d.lineOffsets))
	}
}

func TestVC_C03(t *testing.T) {
	h := vcNew(t, "C03", "calculateLineOffsets")
	alpha := []string{"\r", "\n", "a", "é"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		h.check(fmt.Sprintf("%q", s), func() { vc_calculateLineOffsets([]byte(s), 0) })
		h.check(fmt.Sprintf("%q", s), func() { vc_NewDocument("u", []byte(s)) })
		if n > 0 {
			for _, a := range alpha {
				rec(s+a, n-1)
			}
		}
	}
	rec("", 6)
	e := vcNew(t, "C03", "ApplyChanges")
	for e.more(40000) {
		text := vcGenText(e.r, 12)
		cur := text
		var cs []protocol.TextDocumentContentChangeEvent
		in := fmt.Sprintf("%q", text)
		for k := 1 + e.r.Intn(4); k > 0; k-- {
			c := protocol.TextDocumentContentChangeEvent{Text: vcGenText(e.r, 4)}
			if e.r.Intn(3) > 0 {
				c.Text = vcTextAtoms[e.r.Intn(len(vcTextAtoms))]
			}
			if e.r.Intn(4) == 0 {
				c.Text = ""
			}
			if e.r.Intn(8) > 0 {
				n := len(vcRefTable([]byte(cur)))
				p := func() protocol.Position {
					return protocol.Position{Line: e.r.Intn(n + 1), Character: e.r.Intn(6)}
				}
				a, b := p(), p()
				if protocol.ComparePos(a, b) > 0 {
					a, b = b, a
				}
				c.Range = &protocol.Range{Start: a, End: b}
				in += fmt.Sprintf(" [%d:%d-%d:%d]=%q", a.Line, a.Character, b.Line, b.Character, c.Text)
			} else {
				in += fmt.Sprintf(" all=%q", c.Text)
			}
			cur = vcSplice(cur, c)
			cs = append(cs, c)
		}
		e.check(in, func() { vc_edits(text, cs) })
	}
}
