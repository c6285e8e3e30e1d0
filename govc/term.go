package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "int","strlit","var","place","fn","bvar","forall","exists", an SMT op, or "app"
	Name string // symbol for var/app/bvar/place/fn, literal bytes for strlit
	Args []*Term
	Sort string
	I    *big.Int
	id   int
	hasB bool // contains bound variables (free occurrences of bvar)
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SStr   = "String"
	SFloat = "Float"
)

func arrSort(idx, el string) string { return "(Array " + idx + " " + el + ")" }

// splitArr splits "(Array I E)".
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type termTable struct {
	m    map[string]*Term
	next int
	ub   map[*Term]int64 // ref upper bounds: term <= ub
}

var tt = &termTable{m: map[string]*Term{}, ub: map[*Term]int64{}}

func mk(op, name, srt string, i *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(name)
	sb.WriteByte(0)
	sb.WriteString(srt)
	if i != nil {
		sb.WriteByte(0)
		sb.WriteString(i.String())
	}
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{Op: op, Name: name, Args: args, Sort: srt, I: i, id: tt.next}
	tt.next++
	if op == "bvar" {
		t.hasB = true
	}
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
	}
	tt.m[k] = t
	return t
}

func IntT(n int64) *Term     { return mk("int", "", SInt, big.NewInt(n)) }
func BigT(n *big.Int) *Term  { return mk("int", "", SInt, n) }
func StrLit(s string) *Term  { return mk("strlit", s, SStr, nil) }
func Var(n, s string) *Term  { return mk("var", n, s, nil) }
func BVar(n, s string) *Term { return mk("bvar", n, s, nil) }

var True = mk("true", "", SBool, nil)
var False = mk("false", "", SBool, nil)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func App(name, srt string, args ...*Term) *Term { return mk("app", name, srt, nil, args...) }

func isInt(t *Term) bool { return t.Op == "int" }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return false
		}
		if t == False || seen[t] {
			return true
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	// absorption: a ∨ (¬a ∧ b) = a ∨ b
	for i, o := range out {
		if o.Op == "and" {
			var keep []*Term
			ch := false
			for _, c := range o.Args {
				if seen[Not(c)] {
					ch = true
					continue
				}
				keep = append(keep, c)
			}
			if ch {
				no := append([]*Term{}, out...)
				no[i] = And(keep...)
				return Or(no...)
			}
		}
	}
	// (a ∧ x) ∨ (¬a ∧ x) = x for two-element case
	if len(out) == 2 && out[0].Op == "and" && out[1].Op == "and" {
		common := []*Term{}
		r0, r1 := []*Term{}, []*Term{}
		in1 := map[*Term]bool{}
		for _, c := range out[1].Args {
			in1[c] = true
		}
		in0 := map[*Term]bool{}
		for _, c := range out[0].Args {
			in0[c] = true
			if in1[c] {
				common = append(common, c)
			} else {
				r0 = append(r0, c)
			}
		}
		for _, c := range out[1].Args {
			if !in0[c] {
				r1 = append(r1, c)
			}
		}
		if len(common) > 0 {
			return And(append(common, Or(And(r0...), And(r1...)))...)
		}
	}
	return mk("or", "", SBool, nil, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", SBool, nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		switch {
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	t := mk("ite", "", a.Sort, nil, c, a, b)
	if a.Sort == SInt {
		ua, oka := refUB(a)
		ubb, okb := refUB(b)
		if oka && okb {
			if ubb > ua {
				ua = ubb
			}
			setUB(t, ua)
		}
	}
	return t
}

func refUB(t *Term) (int64, bool) {
	if t.Op == "int" && t.I.IsInt64() {
		return t.I.Int64(), true
	}
	u, ok := tt.ub[t]
	return u, ok
}
func setUB(t *Term, u int64) {
	if t.Op == "int" {
		return
	}
	if o, ok := tt.ub[t]; ok && o <= u {
		return
	}
	tt.ub[t] = u
}

// distinctT reports that a and b are certainly different.
func distinctT(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "int" && b.Op == "int" {
		return a.I.Cmp(b.I) != 0
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return a.Name != b.Name
	}
	if a.Sort == SInt {
		if (a.Op == "place" || a.Op == "fn") && b.Op == "int" || (b.Op == "place" || b.Op == "fn") && a.Op == "int" {
			return true
		}
		if b.Op == "int" && b.I.IsInt64() {
			if u, ok := tt.ub[a]; ok && u < b.I.Int64() {
				return true
			}
		}
		if a.Op == "int" && a.I.IsInt64() {
			if u, ok := tt.ub[b]; ok && u < a.I.Int64() {
				return true
			}
		}
		// linear: differ by nonzero constant
		d := Sub(a, b)
		if d.Op == "int" && d.I.Sign() != 0 {
			return true
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if distinctT(a, b) {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// ite with literal branches
	if a.Op == "ite" && (isLit(a.Args[1]) || isLit(a.Args[2])) && isLit(b) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (isLit(b.Args[1]) || isLit(b.Args[2])) && isLit(a) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk("=", "", SBool, nil, a, b)
}

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "strlit" || t == True || t == False || t.Op == "place" || t.Op == "fn"
}

// linear form
type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func linOf(t *Term, k *big.Int, l *lin) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.I))
	case t.Op == "+":
		for _, a := range t.Args {
			linOf(a, k, l)
		}
	case t.Op == "*" && t.Args[0].Op == "int":
		linOf(t.Args[1], new(big.Int).Mul(k, t.Args[0].I), l)
	default:
		o := l.ts[t]
		if o == nil {
			o = new(big.Int)
		}
		l.ts[t] = new(big.Int).Add(o, k)
	}
}
func newLin() *lin { return &lin{new(big.Int), map[*Term]*big.Int{}} }
func (l *lin) term() *Term {
	var ks []*Term
	for t, k := range l.ts {
		if k.Sign() != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		k := l.ts[t]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", "", SInt, nil, BigT(k), t))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigT(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", SInt, nil, args...)
}

var one = big.NewInt(1)
var minusOne = big.NewInt(-1)

func Add(as ...*Term) *Term {
	l := newLin()
	for _, a := range as {
		linOf(a, one, l)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	linOf(a, one, l)
	linOf(b, minusOne, l)
	return l.term()
}
func Neg(a *Term) *Term { return Sub(IntT(0), a) }
func Mul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := newLin()
		linOf(b, a.I, l)
		return l.term()
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk("*", "", SInt, nil, a, b)
}

// EDiv and EMod are SMT-LIB (Euclidean) division.
func EDiv(a *Term, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return BigT(q)
	}
	if b.Op == "int" && b.I.Cmp(one) == 0 {
		return a
	}
	return mk("div", "", SInt, nil, a, b)
}
func EMod(a *Term, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return BigT(m)
	}
	return mk("mod", "", SInt, nil, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(b, a) // 0 <= d
	if d.Op == "int" {
		return BoolT(d.I.Sign() >= 0)
	}
	if a.Op == "ite" && isInt(a.Args[1]) && isInt(a.Args[2]) && b.Op == "int" {
		return Ite(a.Args[0], Le(a.Args[1], b), Le(a.Args[2], b))
	}
	if b.Op == "ite" && isInt(b.Args[1]) && isInt(b.Args[2]) && a.Op == "int" {
		return Ite(b.Args[0], Le(a, b.Args[1]), Le(a, b.Args[2]))
	}
	if nonNeg(d) {
		return True
	}
	return mk("<=", "", SBool, nil, a, b)
}
func nonNeg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.I.Sign() >= 0
	case "str.len":
		return true
	case "+":
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case "*":
		return t.Args[0].Op == "int" && t.Args[0].I.Sign() > 0 && nonNeg(t.Args[1])
	case "mod":
		return t.Args[1].Op == "int" && t.Args[1].I.Sign() > 0
	}
	return false
}
func Lt(a, b *Term) *Term { return Le(Add(a, IntT(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

var selectHook func(a, i *Term) *Term

func Select(a, i *Term) *Term {
	_, el := splitArr(a.Sort)
	for {
		if selectHook != nil && a.Op == "var" && i.Sort == SInt {
			if n := selectHook(a, i); n != a {
				a = n
				continue
			}
		}
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctT(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if a.Op == "ite" {
		x, y := Select(a.Args[1], i), Select(a.Args[2], i)
		if x == y {
			return x
		}
		if resolved(x) || resolved(y) {
			return Ite(a.Args[0], x, y)
		}
	}
	return mk("select", "", el, nil, a, i)
}

func resolved(t *Term) bool {
	if t.Op == "select" {
		b := t.Args[0]
		for b.Op == "select" {
			b = b.Args[0]
		}
		return b.Op != "store" && b.Op != "ite"
	}
	return t.Op != "store"
}

func Store(a, i, v *Term) *Term {
	_, el := splitArr(a.Sort)
	if el != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s vs %s", a.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, nil, a, i, v)
}

func ConstArr(sort string, v *Term) *Term { return mk("constarr", "", sort, nil, v) }

func Forall(bv []*Term, body *Term, pats ...[]*Term) *Term {
	if len(pats) == 0 {
		body = ctxSimp(body)
	}
	if body == True || body == False {
		return body
	}
	return mkQ("forall", bv, body, pats)
}
func Exists(bv []*Term, body *Term) *Term {
	body = ctxSimp(body)
	if body == True || body == False {
		return body
	}
	return mkQ("exists", bv, body, nil)
}
func mkQ(op string, bv []*Term, body *Term, pats [][]*Term) *Term {
	// Name encodes number of bound vars and pattern layout
	name := fmt.Sprintf("%d", len(bv))
	args := append([]*Term{}, bv...)
	args = append(args, body)
	for _, p := range pats {
		name += fmt.Sprintf(",%d", len(p))
		args = append(args, p...)
	}
	t := mk(op, name, SBool, nil, args...)
	// recompute free bvars
	t.hasB = hasFreeB(body, setOf(bv))
	return t
}
func setOf(ts []*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range ts {
		m[t] = true
	}
	return m
}
func hasFreeB(t *Term, bound map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if !t.hasB || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "bvar" {
			return !bound[t]
		}
		if t.Op == "forall" || t.Op == "exists" {
			n := qn(t)
			b2 := map[*Term]bool{}
			for k := range bound {
				b2[k] = true
			}
			for _, v := range t.Args[:n] {
				b2[v] = true
			}
			return hasFreeB(t.Args[n], b2)
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
func qn(t *Term) int {
	n, _ := strconv.Atoi(strings.SplitN(t.Name, ",", 2)[0])
	return n
}

// strings
func StrLen(s *Term) *Term {
	if s.Op == "strlit" {
		return IntT(int64(len(s.Name)))
	}
	if s.Op == "str.++" {
		var as []*Term
		for _, a := range s.Args {
			as = append(as, StrLen(a))
		}
		return Add(as...)
	}
	return mk("str.len", "", SInt, nil, s)
}
func StrCat(ss ...*Term) *Term {
	var out []*Term
	for _, s := range ss {
		if s.Op == "str.++" {
			out = append(out, s.Args...)
		} else {
			out = append(out, s)
		}
	}
	var o2 []*Term
	for _, s := range out {
		if s.Op == "strlit" && s.Name == "" {
			continue
		}
		if s.Op == "strlit" && len(o2) > 0 && o2[len(o2)-1].Op == "strlit" {
			o2[len(o2)-1] = StrLit(o2[len(o2)-1].Name + s.Name)
			continue
		}
		o2 = append(o2, s)
	}
	switch len(o2) {
	case 0:
		return StrLit("")
	case 1:
		return o2[0]
	}
	return mk("str.++", "", SStr, nil, o2...)
}

// SubStr is s[lo:hi] (assuming 0<=lo<=hi<=len).
func SubStr(s, lo, hi *Term) *Term {
	if s.Op == "strlit" && isInt(lo) && isInt(hi) {
		l, h := lo.I.Int64(), hi.I.Int64()
		if 0 <= l && l <= h && h <= int64(len(s.Name)) {
			return StrLit(s.Name[l:h])
		}
	}
	if isInt(lo) && lo.I.Sign() == 0 && hi == StrLen(s) {
		return s
	}
	if lo == hi {
		return StrLit("")
	}
	if s.Op == "str.++" {
		// drop leading literal
		if s.Args[0].Op == "strlit" && isInt(lo) && lo.I.Int64() >= int64(len(s.Args[0].Name)) {
			n := int64(len(s.Args[0].Name))
			return SubStr(StrCat(s.Args[1:]...), Sub(lo, IntT(n)), Sub(hi, IntT(n)))
		}
		n0 := StrLen(s.Args[0])
		if lo == n0 && hi == StrLen(s) {
			return StrCat(s.Args[1:]...)
		}
		if isInt(lo) && lo.I.Sign() == 0 && hi == n0 {
			return s.Args[0]
		}
	}
	return mk("str.substr", "", SStr, nil, s, lo, Sub(hi, lo))
}
func StrAt(s, i *Term) *Term {
	if s.Op == "strlit" && isInt(i) && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(s.Name)) {
		return IntT(int64(s.Name[i.I.Int64()]))
	}
	return mk("charat", "", SInt, nil, s, i)
}
func StrLt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return BoolT(a.Name < b.Name)
	}
	return mk("str.<", "", SBool, nil, a, b)
}
func PrefixOf(p, s *Term) *Term {
	if p.Op == "strlit" && s.Op == "strlit" {
		return BoolT(strings.HasPrefix(s.Name, p.Name))
	}
	if p == s || p.Op == "strlit" && p.Name == "" {
		return True
	}
	if s.Op == "str.++" {
		if s.Args[0] == p {
			return True
		}
		if p.Op == "strlit" && s.Args[0].Op == "strlit" {
			h := s.Args[0].Name
			if len(h) >= len(p.Name) {
				return BoolT(strings.HasPrefix(h, p.Name))
			}
			if !strings.HasPrefix(p.Name, h) {
				return False
			}
		}
		if p.Op == "str.++" && len(p.Args) <= len(s.Args) {
			all := true
			for i := range p.Args {
				if p.Args[i] != s.Args[i] {
					all = false
					break
				}
			}
			if all {
				return True
			}
		}
	}
	return mk("str.prefixof", "", SBool, nil, p, s)
}
func SuffixOf(p, s *Term) *Term {
	if p.Op == "strlit" && s.Op == "strlit" {
		return BoolT(strings.HasSuffix(s.Name, p.Name))
	}
	return mk("str.suffixof", "", SBool, nil, p, s)
}
func Contains(s, sub *Term) *Term {
	if sub.Op == "strlit" && s.Op == "strlit" {
		return BoolT(strings.Contains(s.Name, sub.Name))
	}
	return mk("str.contains", "", SBool, nil, s, sub)
}
func IndexOf(s, sub, from *Term) *Term {
	if sub.Op == "strlit" && s.Op == "strlit" && isInt(from) && from.I.Sign() == 0 {
		return IntT(int64(strings.Index(s.Name, sub.Name)))
	}
	return mk("str.indexof", "", SInt, nil, s, sub, from)
}

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil, 0)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + "…"
	}
	return s
}

func symName(n string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString("\"\"")
		} else if c >= 32 && c < 127 && c != '\\' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// printTerm prints t; named maps shared terms to definition names.
func printTerm(sb *strings.Builder, t *Term, named map[*Term]string, depth int) {
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	printBody(sb, t, named, depth)
}

var absMode bool // print strings as an uninterpreted sort

func printBody(sb *strings.Builder, t *Term, named map[*Term]string, depth int) {
	if depth > 400 {
		sb.WriteString("<deep>")
		return
	}
	switch t.Op {
	case "int":
		if t.I.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.I).String())
		} else {
			sb.WriteString(t.I.String())
		}
	case "true", "false":
		sb.WriteString(t.Op)
	case "strlit":
		if absMode {
			sb.WriteString(symName("lit:" + t.Name))
		} else {
			sb.WriteString(smtStr(t.Name))
		}
	case "var", "bvar", "place", "fn":
		sb.WriteString(symName(t.Name))
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString(symName(t.Name))
			return
		}
		sb.WriteString("(" + symName(t.Name))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTerm(sb, a, named, depth+1)
		}
		sb.WriteByte(')')
	case "forall", "exists":
		n := qn(t)
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Args[:n] {
			fmt.Fprintf(sb, "(%s %s)", symName(v.Name), sortName(v.Sort))
		}
		sb.WriteString(") ")
		parts := strings.Split(t.Name, ",")
		if len(parts) > 1 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.Args[n], named, depth+1)
		if len(parts) > 1 {
			k := n + 1
			for _, p := range parts[1:] {
				m, _ := strconv.Atoi(p)
				sb.WriteString(" :pattern (")
				for j := 0; j < m; j++ {
					if j > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, t.Args[k], named, depth+1)
					k++
				}
				sb.WriteString(")")
			}
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", sortName(t.Sort))
		printTerm(sb, t.Args[0], named, depth+1)
		sb.WriteByte(')')
	case "charat":
		if absMode {
			sb.WriteString("(str!at ")
			printTerm(sb, t.Args[0], named, depth+1)
			sb.WriteByte(' ')
			printTerm(sb, t.Args[1], named, depth+1)
			sb.WriteByte(')')
		} else {
			sb.WriteString("(str.to_code (str.at ")
			printTerm(sb, t.Args[0], named, depth+1)
			sb.WriteByte(' ')
			printTerm(sb, t.Args[1], named, depth+1)
			sb.WriteString("))")
		}
	default:
		op := t.Op
		if absMode && strings.HasPrefix(op, "str.") {
			op = "str!" + op[4:]
			if op == "str!++" {
				// left-assoc binary
				for range t.Args[1:] {
					sb.WriteString("(str!cat ")
				}
				printTerm(sb, t.Args[0], named, depth+1)
				for _, a := range t.Args[1:] {
					sb.WriteByte(' ')
					printTerm(sb, a, named, depth+1)
					sb.WriteByte(')')
				}
				return
			}
			if op == "str!<" {
				op = "str!lt"
			}
		}
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTerm(sb, a, named, depth+1)
		}
		sb.WriteByte(')')
	}
}

func sortName(s string) string {
	if absMode {
		return strings.ReplaceAll(s, "String", "Str")
	}
	return s
}
