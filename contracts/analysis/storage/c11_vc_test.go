//go:build verif

package storage

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
)

// vcOp is one operation on a database.
type vcOp struct {
	op       int
	key, val string
	mode     DBMode
	stop     int
	fail     bool
	batch    []vcOp
}

func (o vcOp) String() string {
	switch o.op {
	case 0:
		return fmt.Sprintf("put(%d, %q, %q)", o.mode, o.key, o.val)
	case 1:
		return fmt.Sprintf("delete(%d, %q)", o.mode, o.key)
	case 2:
		return fmt.Sprintf("get(%d, %q)", o.mode, o.key)
	case 3:
		return fmt.Sprintf("scan(%d, %q, stop after %d, during it %v)", o.mode, o.key, o.stop, o.batch)
	case 4:
		return fmt.Sprintf("batch(%d, %v, fails: %v)", o.mode, o.batch, o.fail)
	}
	return fmt.Sprintf("clear(%d)", o.mode)
}

func vcGenDBKey(r *rand.Rand) string {
	parts := []string{"", "a", "b", "a", "b", "\x00", "\xff", "ab", "\x00a", "class" + vcKeySep}
	var b strings.Builder
	for n := r.Intn(5); n > 0; n-- {
		b.WriteString(parts[r.Intn(len(parts))])
	}
	if r.Intn(20) == 0 {
		b.WriteString(strings.Repeat("long", 30+r.Intn(3)))
	}
	return b.String()
}

// vcKeySep separates the parts of the keys of an index.
const vcKeySep = "\x00"

func vcGenValue(r *rand.Rand) string {
	b := make([]byte, r.Intn(4))
	for i := range b {
		b[i] = []byte{0, 1, 255, 'a', 'b'}[r.Intn(5)]
	}
	return string(b)
}

func vcGenOps(r *rand.Rand, n int, inBatch bool) []vcOp {
	var out []vcOp
	for ; n > 0; n-- {
		o := vcOp{op: r.Intn(13), key: vcGenDBKey(r), val: vcGenValue(r), mode: DBMode(r.Intn(2)), stop: r.Intn(4)}
		switch {
		case inBatch:
			o.op %= 2
		case o.op < 4:
			o.op = 0
		case o.op < 6:
			o.op = 1
		case o.op < 8:
			o.op = 2
		case o.op < 10:
			o.op = 3
			if o.stop > 0 && r.Intn(2) == 0 {
				o.batch = vcGenOps(r, 1+r.Intn(3), true)
				o.key = o.key[:len(o.key)/2]
			}
		case o.op < 12:
			o.op, o.fail = 4, r.Intn(3) == 0
			n := r.Intn(5)
			if r.Intn(150) == 0 {
				n = []int{40, 300, 1100, 2300}[r.Intn(4)]
			}
			o.batch = vcGenOps(r, n, true)
		default:
			o.op = 5
			if r.Intn(4) > 0 {
				o.op = 0
			}
		}
		out = append(out, o)
	}
	return out
}

func vcScanOf(ref map[string]string, prefix string, stop int) []string {
	var keys []string
	for k := range ref {
		if strings.HasPrefix(k, prefix) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []string
	for i, k := range keys {
		out = append(out, fmt.Sprintf("%q=%q", k, ref[k]))
		if i+1 == stop {
			break
		}
	}
	return out
}

// vc_history runs operations on a database of two modes (or of one) and on ordered maps.
func vc_history(c *Combined, ops []vcOp, one bool) {
	refs := []map[string]string{{}, {}}
	if one {
		refs[1] = refs[0]
	}
	clear := func(m DBMode) {
		for k := range refs[m] {
			delete(refs[m], k)
		}
	}
	for i, o := range ops {
		ref, label := refs[o.mode], fmt.Sprintf("operation %d, %v: ", i, o)
		switch o.op {
		case 0:
			vcEnsures(label+"no error", c.Put(o.mode, []byte(o.key), []byte(o.val)) == nil)
			ref[o.key] = o.val
		case 1:
			vcEnsures(label+"no error", c.Delete(o.mode, []byte(o.key)) == nil)
			delete(ref, o.key)
		case 2:
			v, err := c.Get(o.mode, []byte(o.key))
			want, ok := ref[o.key]
			vcEnsures(label+"found", (err == nil) == ok)
			vcEnsures(label+"the last value put", err != nil || string(v) == want)
			v, err = c.GetFromAll([]byte(o.key))
			first, ok := refs[0][o.key]
			if !ok {
				first, ok = refs[1][o.key]
			}
			vcEnsures(label+"found in all", (err == nil) == ok && (err != nil || string(v) == first))
		case 3:
			var got []string
			c.PrefixStream(o.mode, []byte(o.key), func(it Iterator) {
				got = append(got, fmt.Sprintf("%q=%q", it.Key(), it.Value()))
				if len(got) == o.stop {
					it.Stop()
				}
			})
			want := vcScanOf(ref, o.key, o.stop)
			sort.Strings(got)
			if o.stop == 0 {
				vcEnsures(fmt.Sprintf("%severy key with the prefix once: %v, want %v", label, got, want), fmt.Sprint(got) == fmt.Sprint(vcSorted(want)))
				got = nil
				c.PrefixStreamFromAll([]byte(o.key), func(it Iterator) { got = append(got, fmt.Sprintf("%q=%q", it.Key(), it.Value())) })
				want = vcScanOf(refs[0], o.key, 0)
				if !one {
					want = append(want, vcScanOf(refs[1], o.key, 0)...)
				}
				vcEnsures(label+"every key of all", fmt.Sprint(vcSorted(got)) == fmt.Sprint(vcSorted(want)))
				continue
			}
			if len(o.batch) > 0 {
				// the scan's function changes the database: the other keys are visited all the same
				before, touched := map[string]string{}, map[string]bool{}
				for k, v := range ref {
					before[k] = v
				}
				seen, step := map[string]int{}, 0
				c.PrefixStream(o.mode, []byte(o.key), func(it Iterator) {
					seen[string(it.Key())]++
					if step < len(o.batch) {
						w := o.batch[step]
						touched[w.key] = true
						if w.op == 0 {
							c.Put(o.mode, []byte(w.key), []byte(w.val))
							ref[w.key] = w.val
						} else {
							c.Delete(o.mode, []byte(w.key))
							delete(ref, w.key)
						}
					}
					step++
				})
				for k, n := range seen {
					vcEnsures(fmt.Sprintf("%skey %q once and with the prefix", label, k), n == 1 && strings.HasPrefix(k, o.key))
				}
				for k := range before {
					vcEnsures(fmt.Sprintf("%skey %q is visited while others change", label, k), touched[k] || !strings.HasPrefix(k, o.key) || seen[k] == 1)
				}
				continue
			}
			vcEnsures(fmt.Sprintf("%suntil stopped: %d, want %d", label, len(got), len(want)), len(got) == len(want))
			for j, g := range got {
				vcEnsures(label+"different keys", j == 0 || got[j-1] != g)
				vcEnsures(label+"keys with the prefix", vcContains(vcScanOf(ref, o.key, 0), g))
			}
		case 4:
			e := errors.New("no")
			if !o.fail {
				e = nil
			}
			err := c.WriteBatch(o.mode, func(b Batch) error {
				for _, w := range o.batch {
					if w.op == 0 {
						b.Put([]byte(w.key), []byte(w.val))
					} else {
						b.Delete([]byte(w.key))
					}
				}
				return e
			})
			vcEnsures(label+"its error", err == e)
			if !o.fail {
				for _, w := range o.batch {
					if w.op == 0 {
						ref[w.key] = w.val
					} else {
						delete(ref, w.key)
					}
				}
			}
		default:
			c.Clear(o.mode)
			clear(o.mode)
		}
	}
	for m := range refs {
		got := []string{}
		c.PrefixStream(DBMode(m), nil, func(it Iterator) { got = append(got, fmt.Sprintf("%q=%q", it.Key(), it.Value())) })
		vcEnsures(fmt.Sprintf("at the end: %v", got), fmt.Sprint(vcSorted(got)) == fmt.Sprint(vcSorted(append([]string{}, vcScanOf(refs[m], "", 0)...))))
	}
}

func vcSorted(in []string) []string { sort.Strings(in); return in }

func vcContains(in []string, s string) bool {
	for _, x := range in {
		if x == s {
			return true
		}
	}
	return false
}

func TestVC_C11(t *testing.T) {
	h := vcNew(t, "C11", "histories of the database in memory")
	for h.more(60000) {
		ops := vcGenOps(h.r, 1+h.r.Intn(12), false)
		if h.r.Intn(50) == 0 {
			ops = vcGenOps(h.r, 200, false)
		}
		one := h.r.Intn(2) == 0
		h.check(fmt.Sprintf("one database: %v, %v", one, ops), func() {
			c := NewMemOnly()
			if !one {
				c = &Combined{dbs: []DB{NewMemory(), NewMemory()}}
			}
			vc_history(c, ops, one)
		})
	}
}
