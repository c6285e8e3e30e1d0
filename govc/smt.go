package main

import (
	"fmt"
	"sort"
	"strings"
)

// collect gathers subterms in dependency order.
func collect(roots []*Term) (order []*Term, refs map[*Term]int) {
	refs = map[*Term]int{}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			f(a)
		}
		order = append(order, t)
	}
	for _, r := range roots {
		f(r)
	}
	return
}

const absPrelude = `
(declare-sort Str 0)
(declare-fun str!len (Str) Int)
(declare-fun str!at (Str Int) Int)
(declare-fun str!substr (Str Int Int) Str)
(declare-fun str!cat (Str Str) Str)
(declare-fun str!prefixof (Str Str) Bool)
(declare-fun str!suffixof (Str Str) Bool)
(declare-fun str!contains (Str Str) Bool)
(declare-fun str!indexof (Str Str Int) Int)
(declare-fun str!replace_all (Str Str Str) Str)
(declare-fun str!replace (Str Str Str) Str)
(declare-fun str!lt (Str Str) Bool)
(declare-fun str!from_code (Int) Str)
(assert (forall ((s Str)) (! (<= 0 (str!len s)) :pattern ((str!len s)))))
(assert (forall ((s Str) (i Int) (n Int)) (! (=> (and (<= 0 i) (<= 0 n) (<= (+ i n) (str!len s))) (= (str!len (str!substr s i n)) n)) :pattern ((str!substr s i n)))))
(assert (forall ((s Str) (i Int) (n Int) (j Int)) (! (=> (and (<= 0 i) (<= 0 j) (< j n) (<= (+ i n) (str!len s))) (= (str!at (str!substr s i n) j) (str!at s (+ i j)))) :pattern ((str!at (str!substr s i n) j)))))
(assert (forall ((s Str) (t Str)) (! (= (str!len (str!cat s t)) (+ (str!len s) (str!len t))) :pattern ((str!cat s t)))))
(assert (forall ((s Str) (t Str) (i Int)) (! (= (str!at (str!cat s t) i) (ite (< i (str!len s)) (str!at s i) (str!at t (- i (str!len s))))) :pattern ((str!at (str!cat s t) i)))))
`

// buildQuery renders assumptions ∧ ¬goal.
func buildQuery(assume []*Term, goal *Term, opts string, defs *Defs, abs bool, cover bool) string {
	old := absMode
	absMode = abs
	defer func() { absMode = old }()
	var roots []*Term
	roots = append(roots, assume...)
	var ng *Term
	if goal != nil {
		ng = Not(goal)
		roots = append(roots, ng)
	}
	// string extensionality instances in abs mode
	if abs {
		ord, _ := collect(roots)
		var ext []*Term
		if fs := strFacts(ord); len(fs) > 0 {
			assume = append(append([]*Term{}, assume...), fs...)
			roots = append(roots, fs...)
			ord, _ = collect(roots)
		}
		for _, t := range ord {
			if t.Op == "=" && t.Args[0].Sort == SStr && !t.hasB {
				a, b := t.Args[0], t.Args[1]
				k := App("strdiff", SInt, a, b)
				ext = append(ext, Or(t, Not(Eq(StrLen(a), StrLen(b))), And(Le(IntT(0), k), Lt(k, StrLen(a)), Not(Eq(StrAt(a, k), StrAt(b, k))))))
			}
		}
		assume = append(append([]*Term{}, assume...), ext...)
		roots = append(roots, ext...)
	}
	order, refs := collect(roots)
	var sb strings.Builder
	sb.WriteString(opts)
	needFloat := false
	dts := map[string]bool{}
	funs := map[string]string{}
	vars := map[string]string{}
	lits := map[string]bool{}
	for _, t := range order {
		if strings.Contains(t.Sort, "Float") {
			needFloat = true
		}
		for _, w := range strings.FieldsFunc(t.Sort, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
			if strings.HasPrefix(w, "Tup_") {
				dts[w] = true
			}
		}
		switch t.Op {
		case "var", "place", "fn":
			vars[t.Name] = t.Sort
		case "strlit":
			lits[t.Name] = true
		case "app":
			if strings.HasPrefix(t.Name, "mk!") || strings.HasPrefix(t.Name, "sel!") {
				continue
			}
			var as []string
			for _, a := range t.Args {
				as = append(as, sortName(a.Sort))
			}
			funs[t.Name] = "(" + strings.Join(as, " ") + ") " + sortName(t.Sort)
		}
	}
	if abs {
		sb.WriteString(absPrelude)
	}
	if needFloat {
		sb.WriteString("(declare-sort Float 0)\n")
	}
	for _, d := range sortedKeys(dts) {
		fields := strings.Split(d[4:], "_")
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((|mk!%s|", d, d)
		for i, f := range fields {
			fmt.Fprintf(&sb, " (|sel!%s!%d| %s)", d, i, sortName(f))
		}
		sb.WriteString("))))\n")
	}
	if abs {
		var ln []string
		for _, l := range sortedKeys(lits) {
			n := symName("lit:" + l)
			fmt.Fprintf(&sb, "(declare-const %s Str)\n(assert (= (str!len %s) %d))\n", n, n, len(l))
			for i := 0; i < len(l) && i < 40; i++ {
				fmt.Fprintf(&sb, "(assert (= (str!at %s %d) %d))\n", n, i, l[i])
			}
			ln = append(ln, n)
		}
		if len(ln) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(ln, " "))
		}
	}
	for _, v := range sortedKeysS(vars) {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symName(v), sortName(vars[v]))
	}
	for _, f := range sortedKeysS(funs) {
		fmt.Fprintf(&sb, "(declare-fun %s %s)\n", symName(f), funs[f])
	}
	for _, ax := range defs.axioms {
		// library axioms for used UFs
		if ax.needs(funs) {
			sb.WriteString(sortName(ax.text))
			sb.WriteByte('\n')
		}
	}
	// share subterms
	named := map[*Term]string{}
	force := quantArrays(order)
	for _, t := range order {
		if t.hasB || len(t.Args) == 0 || refs[t] < 2 && !force[t] {
			continue
		}
		var b strings.Builder
		printBody(&b, t, named, 0)
		n := fmt.Sprintf("t!%d", t.id)
		if force[t] {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (= %s %s))\n", n, sortName(t.Sort), n, b.String())
			named[t] = n
			continue
		}
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, sortName(t.Sort), b.String())
		named[t] = n
	}
	for _, a := range assume {
		var b strings.Builder
		printTerm(&b, a, named, 0)
		fmt.Fprintf(&sb, "(assert %s)\n", b.String())
	}
	if ng != nil {
		var b strings.Builder
		printTerm(&b, ng, named, 0)
		fmt.Fprintf(&sb, "(assert %s)\n", b.String())
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// quantArrays finds the arrays read in quantified formulas whose definitions have cases:
// they get names of their own, since patterns cannot contain connectives.
func quantArrays(order []*Term) map[*Term]bool {
	out := map[*Term]bool{}
	ite := map[*Term]bool{}
	for _, t := range order {
		if t.Op == "ite" {
			ite[t] = true
		}
		for _, a := range t.Args {
			if ite[a] {
				ite[t] = true
			}
		}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			if !a.hasB && len(a.Args) > 0 && strings.HasPrefix(a.Sort, "(Array") && ite[a] {
				out[a] = true
			}
			if a.hasB || a.Op == "forall" || a.Op == "exists" {
				walk(a)
			}
		}
	}
	for _, t := range order {
		if t.Op == "forall" || t.Op == "exists" {
			walk(t)
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedKeysS(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Axiom is a quantified library axiom included when all named functions occur.
type Axiom struct {
	fns  []string
	text string
}

func (a Axiom) needs(funs map[string]string) bool {
	for _, f := range a.fns {
		if _, ok := funs[f]; !ok {
			return false
		}
	}
	return true
}

// Defs holds library axioms.
type Defs struct{ axioms []Axiom }

// strFacts defines the string predicates that occur, without bound variables, in ord by
// the characters of their arguments (the solver's own theory does this in native mode).
func strFacts(ord []*Term) []*Term {
	var fs []*Term
	match := func(s, sub, at *Term) *Term { // sub occurs in s at offset at
		if sub.Op == "strlit" && len(sub.Name) <= 8 {
			var cs []*Term
			for k := 0; k < len(sub.Name); k++ {
				cs = append(cs, Eq(StrAt(s, Add(at, IntT(int64(k)))), IntT(int64(sub.Name[k]))))
			}
			return And(cs...)
		}
		i := BVar("sm", SInt)
		return Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, StrLen(sub))), Eq(StrAt(s, Add(at, i)), StrAt(sub, i))), []*Term{StrAt(sub, i)})
	}
	index := func(s, sub, from *Term) {
		r := mk("str.indexof", "", SInt, nil, s, sub, from)
		in := And(Le(IntT(0), from), Le(Add(from, StrLen(sub)), StrLen(s)))
		fs = append(fs, Implies(Not(in), Implies(Le(IntT(0), from), Eq(r, IntT(-1)))))
		fs = append(fs, Implies(in, Or(Eq(r, IntT(-1)), And(Le(from, r), Le(Add(r, StrLen(sub)), StrLen(s)), match(s, sub, r)))))
		j := BVar("sj", SInt)
		var no *Term
		var pat []*Term
		if sub.Op == "strlit" && len(sub.Name) > 0 {
			no = Not(match(s, sub, j))
			pat = []*Term{StrAt(s, j)}
		} else {
			no = Not(Eq(mk("str.substr", "", SStr, nil, s, j, StrLen(sub)), sub))
			pat = []*Term{mk("str.substr", "", SStr, nil, s, j, StrLen(sub))}
		}
		hi := Ite(Eq(r, IntT(-1)), Add(Sub(StrLen(s), StrLen(sub)), IntT(1)), r)
		fs = append(fs, Implies(in, Forall([]*Term{j}, Implies(And(Le(from, j), Lt(j, hi)), no), pat)))
	}
	done := map[*Term]bool{}
	for _, t := range ord {
		if t.hasB {
			continue
		}
		switch t.Op {
		case "str.prefixof":
			p, s := t.Args[0], t.Args[1]
			if p.Op == "strlit" {
				fs = append(fs, Eq(t, And(Le(StrLen(p), StrLen(s)), match(s, p, IntT(0)))))
			} else {
				fs = append(fs, Eq(t, And(Le(StrLen(p), StrLen(s)), Eq(p, mk("str.substr", "", SStr, nil, s, IntT(0), StrLen(p))))))
			}
		case "str.suffixof":
			p, s := t.Args[0], t.Args[1]
			if p.Op == "strlit" {
				fs = append(fs, Eq(t, And(Le(StrLen(p), StrLen(s)), match(s, p, Sub(StrLen(s), StrLen(p))))))
			} else {
				fs = append(fs, Eq(t, And(Le(StrLen(p), StrLen(s)), Eq(p, mk("str.substr", "", SStr, nil, s, Sub(StrLen(s), StrLen(p)), StrLen(p))))))
			}
		case "str.contains":
			s, sub := t.Args[0], t.Args[1]
			r := mk("str.indexof", "", SInt, nil, s, sub, IntT(0))
			fs = append(fs, Eq(t, Le(IntT(0), r)), Implies(Eq(s, sub), t))
			if !done[r] {
				done[r] = true
				index(s, sub, IntT(0))
			}
		case "str.indexof":
			if !done[t] {
				done[t] = true
				index(t.Args[0], t.Args[1], t.Args[2])
			}
		}
	}
	return fs
}
