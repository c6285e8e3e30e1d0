//go:build verif

package filter

import (
	"fmt"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
)

// two symbols with the same hash
const (
	vcTwin1 = `\mtuoprevgzmkhzcvioayrdnmxzfaswahusywbhqpbinulmsjrgyddshtcoyqcnr`
	vcTwin2 = `\mtuopremcduwqujvioayrdnmxzfaswahusywbhq9sdms83zjrgyddshtcoyqcnr`
)

func TestVC_C16(t *testing.T) {
	h := vcNew(t, "C16", "filters")
	for h.more(20000) {
		var rounds [][]string
		for k := 1 + h.r.Intn(3); k > 0; k-- {
			var l []string
			n := h.r.Intn(8)
			if h.r.Intn(20) == 0 {
				n = h.r.Intn(2000)
			}
			for i := 0; i < n; i++ {
				switch h.r.Intn(6) {
				case 0:
					l = append(l, []string{vcTwin1, vcTwin2, "", "\\", "()", "."}[h.r.Intn(6)])
				default:
					l = append(l, fmt.Sprint("\\C", h.r.Intn(n+1)))
				}
			}
			rounds = append(rounds, l)
		}
		h.check(fmt.Sprintf("%q", rounds), func() {
			f := NewFilter()
			for _, l := range rounds {
				for _, s := range l {
					f.Insert([]byte(s))
				}
				vcEnsures("commits", f.Commit() == nil)
				e := storage.NewEncoder()
				vcEnsures("stores", f.Encode(e) == nil)
				g := FilterDecode(storage.NewDecoder(e.Bytes()))
				for i, s := range l {
					if i > 100 && h.r.Intn(10) > 0 {
						continue
					}
					a, err := f.Lookup([]byte(s))
					vcEnsures(fmt.Sprintf("the filter says that %q may be referenced", s), a && err == nil)
					b, err := g.Lookup([]byte(s))
					vcEnsures(fmt.Sprintf("the stored filter says that %q may be referenced", s), b && err == nil)
				}
			}
		})
	}
}
