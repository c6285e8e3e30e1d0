//go:build verif

package wordtokeniser

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"
)

func TestVC_C10(t *testing.T) {
	h := vcNew(t, "C10", "words of names")
	parts := []string{"a", "b", "A", "B", "_", "_", "1", "é", "É", "\xe9", "\xc9", "\xe2\xe2", "\xff", "日本", "Foo", "HTML", "\ufffd", "foo", ""}
	for h.more(200000) {
		var b strings.Builder
		for k := h.r.Intn(8); k > 0; k-- {
			b.WriteString(parts[h.r.Intn(len(parts))])
		}
		name := b.String()
		h.check(fmt.Sprintf("%q", name), func() {
			vc_casing(name)
			vc_Tokenise(name)
			for _, w := range Tokenise(name) {
				vcEnsures(fmt.Sprintf("the word %q consists of whole characters", w), !utf8.ValidString(name) || utf8.ValidString(w))
				vcEnsures("the words are the same every time", strings.Join(Tokenise(name), "\x00") == strings.Join(Tokenise(name), "\x00"))
			}
		})
		in := make([]string, h.r.Intn(7))
		for i := range in {
			in[i] = parts[h.r.Intn(7)]
		}
		h.check(fmt.Sprintf("%q", in), func() { vc_removeDup(in) })
	}
}
