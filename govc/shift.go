package main

import (
	"sort"
	"strconv"
)

// subst replaces the bound variable q by r in t.
func subst(t, q, r *Term, memo map[*Term]*Term) *Term {
	if t == q {
		return r
	}
	if !t.hasBAny() {
		return t
	}
	if v, ok := memo[t]; ok {
		return v
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = subst(a, q, r, memo)
		if as[i] != a {
			ch = true
		}
	}
	out := t
	if ch {
		switch t.Op {
		case "+":
			out = Add(as...)
		case "*":
			out = Mul(as[0], as[1])
		case "<=":
			out = Le(as[0], as[1])
		case "=":
			out = Eq(as[0], as[1])
		case "and":
			out = And(as...)
		case "or":
			out = Or(as...)
		case "=>":
			out = Implies(as[0], as[1])
		case "not":
			out = Not(as[0])
		case "ite":
			out = Ite(as[0], as[1], as[2])
		case "select":
			out = Select(as[0], as[1])
		case "charat":
			out = StrAt(as[0], as[1])
		case "forall", "exists":
			out = mk(t.Op, t.Name, t.Sort, nil, as...)
			out.hasB = hasFreeB(out, nil)
		default:
			out = mk(t.Op, t.Name, t.Sort, t.I, as...)
		}
	}
	memo[t] = out
	return out
}

// hasBAny: a bound variable occurs somewhere inside t.
func (t *Term) hasBAny() bool { return t.hasB || t.Op == "forall" || t.Op == "exists" }

// shiftQuants rewrites universally quantified assumptions over indices: an array read at
// q+c gives a poor instantiation pattern, so the quantifier is restated over q' = q+c with
// the read as its pattern (one copy per distinct c). The result is equivalent to t.
func shiftQuants(t *Term, memo map[*Term]*Term) *Term {
	if v, ok := memo[t]; ok {
		return v
	}
	out := t
	switch t.Op {
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, shiftQuants(a, memo))
		}
		out = And(as...)
	case "=>":
		out = Implies(t.Args[0], shiftQuants(t.Args[1], memo))
	case "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, shiftQuants(a, memo))
		}
		out = Or(as...)
	case "forall":
		out = shiftForall(t, memo)
	}
	memo[t] = out
	return out
}

func shiftForall(t *Term, memo map[*Term]*Term) *Term {
	n := qn(t)
	if n != 1 || t.Args[0].Sort != SInt || len(t.Args) > n+1 {
		if len(t.Args) > n+1 {
			return t
		}
		if in := shiftQuants(t.Args[n], memo); in != t.Args[n] {
			return Forall(t.Args[:n], in)
		}
		return t
	}
	q, body := t.Args[0], t.Args[n]
	inner := shiftQuants(body, memo)
	offs := map[*Term][]*Term{} // c -> reads
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] || !u.hasBAny() {
			return
		}
		seen[u] = true
		for _, a := range u.Args {
			walk(a)
		}
		if u.Op != "select" && u.Op != "charat" || u.Args[1].Sort != SInt {
			return
		}
		ix := u.Args[1]
		if mentions(u.Args[0], q) || !mentions(ix, q) {
			return
		}
		l := newLin()
		linOf(ix, one, l)
		k := l.ts[q]
		if k == nil || !k.IsInt64() || k.Int64() != 1 {
			return
		}
		delete(l.ts, q)
		c := l.term()
		if mentions(c, q) || hasForeignB(c, t) || hasForeignB(u.Args[0], t) {
			return
		}
		offs[c] = append(offs[c], u)
	}
	walk(body)
	if len(offs) == 0 || len(offs) > 4 {
		if inner == body {
			return t
		}
		return Forall([]*Term{q}, inner)
	}
	var cs []*Term
	for c := range offs {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	var out []*Term
	for _, c := range cs {
		gvar++
		q2 := BVar("sh!"+strconv.Itoa(gvar), SInt)
		m := map[*Term]*Term{}
		b2 := subst(inner, q, Sub(q2, c), m)
		var pats [][]*Term
		done := map[*Term]bool{}
		for _, u := range offs[c] {
			p := mk(u.Op, u.Name, u.Sort, u.I, u.Args[0], q2)
			if !done[p] {
				done[p] = true
				pats = append(pats, []*Term{p})
			}
		}
		out = append(out, Forall([]*Term{q2}, b2, pats...))
	}
	return And(out...)
}

func mentions(t, q *Term) bool {
	if t == q {
		return true
	}
	if !t.hasBAny() {
		return false
	}
	for _, a := range t.Args {
		if mentions(a, q) {
			return true
		}
	}
	return false
}

// hasForeignB: t contains a bound variable of a quantifier nested inside outer.
func hasForeignB(t, outer *Term) bool {
	inner := map[*Term]bool{}
	var col func(u *Term)
	col = func(u *Term) {
		if !u.hasBAny() {
			return
		}
		if u.Op == "forall" || u.Op == "exists" {
			for _, v := range u.Args[:qn(u)] {
				inner[v] = true
			}
		}
		for _, a := range u.Args {
			col(a)
		}
	}
	col(outer.Args[qn(outer)])
	found := false
	var f func(u *Term)
	f = func(u *Term) {
		if inner[u] {
			found = true
		}
		if found || !u.hasBAny() {
			return
		}
		for _, a := range u.Args {
			f(a)
		}
	}
	f(t)
	return found
}

// ctxSimp simplifies the parts of a formula under the conditions they stand under.
func ctxSimp(t *Term) *Term {
	switch t.Op {
	case "and":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = ctxSimp(a)
		}
		return And(as...)
	case "=>":
		f := map[*Term]*Term{}
		facts(t.Args[0], true, f)
		return Implies(t.Args[0], ctxSimp(replace(t.Args[1], f, map[*Term]*Term{})))
	case "or":
		f := map[*Term]*Term{}
		for _, a := range t.Args {
			if ctxLit(a) {
				facts(a, false, f)
			}
		}
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = a
			if !ctxLit(a) {
				as[i] = ctxSimp(replace(a, f, map[*Term]*Term{}))
			}
		}
		return Or(as...)
	}
	return t
}

func ctxLit(a *Term) bool {
	if a.Op == "not" {
		a = a.Args[0]
		return a.Op != "or" && a.Op != "forall" && a.Op != "exists"
	}
	return a.Op != "and" && a.Op != "or" && a.Op != "=>" && a.Op != "forall" && a.Op != "exists"
}

func facts(t *Term, pos bool, f map[*Term]*Term) {
	if t.Op == "not" {
		facts(t.Args[0], !pos, f)
		return
	}
	if pos && t.Op == "and" || !pos && t.Op == "or" {
		for _, a := range t.Args {
			facts(a, pos, f)
		}
		return
	}
	if t.Op == "and" || t.Op == "or" || t == True || t == False {
		return
	}
	if pos {
		f[t] = True
	} else {
		f[t] = False
	}
}

// replace puts m[u] for every u in t.
func replace(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if v, ok := memo[t]; ok {
		return v
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = replace(a, m, memo)
		ch = ch || as[i] != a
	}
	out := t
	if ch {
		out = rebuild(t, as)
	}
	memo[t] = out
	return out
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(as...)
	case "*":
		return Mul(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Implies(as[0], as[1])
	case "not":
		return Not(as[0])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "select":
		return Select(as[0], as[1])
	case "charat":
		return StrAt(as[0], as[1])
	case "forall", "exists":
		n := qn(t)
		if as[n] == True || as[n] == False {
			return as[n]
		}
		out := mk(t.Op, t.Name, t.Sort, nil, as...)
		out.hasB = hasFreeB(out, nil)
		return out
	}
	return mk(t.Op, t.Name, t.Sort, t.I, as...)
}
