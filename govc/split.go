package main

import (
	"context"
	"sync"
)

// Proof by cases: the goal's own conditions are assumed, conditions that occur in
// conditional terms are decided one way and the other, and everything is simplified in
// each case before it goes to the solver. Every leaf must be unsatisfiable.

var termMu sync.Mutex // terms are interned in a global table

func conjLits(t *Term, out []*Term) []*Term {
	if t.Op == "and" {
		for _, a := range t.Args {
			out = conjLits(a, out)
		}
		return out
	}
	if t.Op == "not" && t.Args[0].Op == "or" {
		for _, a := range t.Args[0].Args {
			out = conjLits(Not(a), out)
		}
		return out
	}
	if t == True {
		return out
	}
	return append(out, t)
}

func isLiteral(t *Term) bool {
	if t.Op == "not" {
		t = t.Args[0]
	}
	return t.Op != "and" && t.Op != "or" && t.Op != "=>" && t.Op != "forall" && t.Op != "exists" && !(t.Op == "ite")
}

// simpUnits replaces every literal that is assumed by its truth value elsewhere.
func simpUnits(as []*Term) ([]*Term, bool) {
	for round := 0; round < 6; round++ {
		f := map[*Term]*Term{}
		var cs []*Term
		for _, a := range as {
			cs = conjLits(a, cs)
		}
		seen := map[*Term]bool{}
		for _, c := range cs {
			if !isLiteral(c) {
				continue
			}
			v, at := True, c
			if c.Op == "not" {
				v, at = False, c.Args[0]
			}
			if o, ok := f[at]; ok && o != v || c == False {
				return nil, true
			}
			f[at] = v
		}
		memo := map[*Term]*Term{}
		var out []*Term
		ch := false
		for _, c := range cs {
			if seen[c] {
				ch = true
				continue
			}
			seen[c] = true
			n := c
			if isLiteral(c) {
				at := c
				if c.Op == "not" {
					at = c.Args[0]
				}
				if len(at.Args) > 0 {
					xs := make([]*Term, len(at.Args))
					d := false
					for i, a := range at.Args {
						xs[i] = replace(a, f, memo)
						d = d || xs[i] != a
					}
					if d {
						n = rebuild(at, xs)
						if c.Op == "not" {
							n = Not(n)
						}
					}
				}
			} else {
				n = replace(c, f, memo)
			}
			if n == False {
				return nil, true
			}
			if n != c {
				ch = true
			}
			if n != True {
				out = append(out, n)
			}
		}
		as = out
		if !ch {
			break
		}
	}
	return as, false
}

// openGoal moves the conditions of a goal to the assumptions.
func openGoal(as []*Term, g *Term) ([]*Term, *Term) {
	as = append([]*Term{}, as...)
	for {
		if g.Op == "=>" {
			as = append(as, g.Args[0])
			g = g.Args[1]
			continue
		}
		return append(as, Not(g)), g
	}
}

func splitAtom(as []*Term, tried map[*Term]bool) *Term {
	order, refs := collect(as)
	score := map[*Term]int{}
	var best *Term
	for _, t := range order {
		if t.Op != "ite" || t.Sort == SBool || t.hasB {
			continue
		}
		w := refs[t]
		if len(t.Sort) > 6 && t.Sort[:6] == "(Array" {
			w *= 4
		}
		var walk func(c *Term)
		walk = func(c *Term) {
			switch c.Op {
			case "and", "or", "not", "=>":
				for _, a := range c.Args {
					walk(a)
				}
				return
			}
			if c.hasBAny() || c == True || c == False || tried[c] {
				return
			}
			score[c] += w
		}
		walk(t.Args[0])
	}
	for _, t := range order {
		if score[t] > 0 && (best == nil || score[t] > score[best]) {
			best = t
		}
	}
	return best
}

type splitter struct {
	j    *job
	secs int
	n    int
	sem  chan struct{}
}

func (s *splitter) leaf(as []*Term) bool {
	termMu.Lock()
	memo := map[*Term]bool{}
	var sh []*Term
	for _, a := range as {
		if hasQuant(a, memo) {
			a = shiftQuants(a, s.j.shiftMemo)
		}
		sh = append(sh, a)
	}
	q := buildQuery(as, nil, "(set-logic ALL)\n", &Defs{}, true, false)
	q2 := buildQuery(sh, nil, "(set-logic ALL)\n", &Defs{}, true, false)
	termMu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	qs := []string{q2}
	if q != q2 {
		qs = append(qs, q)
	}
	res := make(chan bool, len(qs))
	for _, q := range qs {
		go func(q string) {
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			if ctx.Err() != nil {
				res <- false
				return
			}
			res <- runSolver(ctx, z3cmd("z3-new", s.secs), q, s.secs) == "unsat"
		}(q)
	}
	for range qs {
		if <-res {
			return true
		}
	}
	return false
}

func (s *splitter) run(as []*Term, tried map[*Term]bool, depth int) bool {
	if pastDeadline() {
		return false
	}
	termMu.Lock()
	as, done := simpUnits(as)
	termMu.Unlock()
	if done {
		return true
	}
	s.n++
	if s.leaf(as) {
		return true
	}
	if depth == 0 {
		return false
	}
	termMu.Lock()
	c := splitAtom(as, tried)
	termMu.Unlock()
	if c == nil {
		return false
	}
	tr := map[*Term]bool{c: true}
	for k := range tried {
		tr[k] = true
	}
	termMu.Lock()
	pos, neg := append(append([]*Term{}, as...), c), append(append([]*Term{}, as...), Not(c))
	termMu.Unlock()
	return s.run(pos, tr, depth-1) && s.run(neg, tr, depth-1)
}

func (j *job) split(secs int, sem chan struct{}) (bool, int) {
	termMu.Lock()
	as, _ := openGoal(j.as, j.o.Goal)
	termMu.Unlock()
	s := &splitter{j: j, secs: secs, sem: sem}
	ok := s.run(as, map[*Term]bool{}, 4)
	return ok, s.n
}
