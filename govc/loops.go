package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frameInfo says: heap symbol agrees with Old at refs <= C0 outside Excl.
type frameInfo struct {
	Old  *Term
	C0   int64
	Excl []*Term
}

var frameOf = map[*Term]*frameInfo{}

func init() {
	selectHook = func(a, i *Term) *Term {
		for a.Op == "var" {
			f := frameOf[a]
			if f == nil {
				return a
			}
			u, ok := refUB(i)
			if !ok || u > f.C0 {
				return a
			}
			for _, e := range f.Excl {
				if !distinctT(e, i) {
					return a
				}
			}
			a = f.Old
		}
		return a
	}
}

func varNum(t *Term) int {
	k := strings.LastIndexByte(t.Name, '!')
	n, err := strconv.Atoi(t.Name[k+1:])
	if err != nil {
		return 0
	}
	return n
}

// stable: no variable newer than gv0 and no literal ref above c0 in ref position.
func stableTerm(t *Term, gv0 int) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.Op == "var" && varNum(t) > gv0 && !strings.HasPrefix(t.Name, "H0!") {
			return false
		}
		for _, a := range t.Args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	return f(t)
}

type snapX struct {
	na, nj, nd, seq, nmemo int
	stackd                 int
}

func (x *Exec) snap(fr *frame) snapX {
	return snapX{na: len(x.assume), nj: len(x.journal), nd: len(fr.defers), seq: x.loopSeq, nmemo: len(x.memoJournal)}
}
func (x *Exec) restore(fr *frame, s snapX) {
	x.assume = x.assume[:s.na]
	for _, t := range x.journal[s.nj:] {
		delete(x.assumeSet, t)
	}
	x.journal = x.journal[:s.nj]
	for _, t := range x.memoJournal[s.nmemo:] {
		delete(x.recMemo, t)
	}
	x.memoJournal = x.memoJournal[:s.nmemo]
	fr.defers = fr.defers[:s.nd]
	x.loopSeq = s.seq
}

func (x *Exec) findLoopSpec(fr *frame, lp *loop) (*ContractFn, string) {
	// by the function's own name
	fn := fr.fn
	key := ""
	if fn.Pkg != nil {
		key = fn.Pkg.Pkg.Path() + "." + fnKey(fn)
	} else if fn.Parent() != nil {
		key = fn.Parent().Pkg.Pkg.Path() + "." + fnKey(fn)
	}
	if fn.Parent() != nil {
		p := fn
		suffix := ""
		for p.Parent() != nil {
			idx := 0
			for i, a := range p.Parent().AnonFuncs {
				if a == p {
					idx = i
				}
			}
			suffix = fmt.Sprintf("$%d", idx) + suffix
			p = p.Parent()
		}
		key = p.Pkg.Pkg.Path() + "." + fnKey(p) + suffix
	}
	name := fmt.Sprintf("%s#%d", key[strings.LastIndex(key, "/")+1:], lp.order)
	if m, ok := x.pr.loops[key]; ok {
		if c, ok := m[lp.order]; ok {
			return c, name
		}
		return nil, name
	}
	// contract-sequence keyed: "@ContractFnName"
	if m, ok := x.pr.loops[x.root.Pkg+".@"+x.root.Name]; ok {
		if c, ok := m[x.loopSeq]; ok {
			return c, name + fmt.Sprintf("(@%d)", x.loopSeq)
		}
	}
	// helper extracted from the target: loops of the target in order of encounter
	if x.root.Target != "" {
		k2 := x.root.Pkg + "." + x.root.Target
		if m, ok := x.pr.loops[k2]; ok {
			if c, ok := m[x.loopSeq]; ok {
				return c, name + fmt.Sprintf("(seq %d)", x.loopSeq)
			}
		}
	}
	return nil, name
}

func (x *Exec) enterLoop(fr *frame, lp *loop, phis []*ssa.Phi, phiVal func(*ssa.Phi) Val, st *State, g G) G {
	spec, name := x.findLoopSpec(fr, lp)
	seq := x.loopSeq
	x.loopSeq++
	_ = seq
	run := &loopRun{spec: spec, name: name, entry: map[*ssa.Phi]Val{}, head: map[*ssa.Phi]Val{}, g0: g}
	if fr.runs == nil {
		fr.runs = map[*loop]*loopRun{}
	}
	fr.runs[lp] = run
	for _, p := range phis {
		run.entry[p] = phiVal(p)
	}
	if x.dry == 0 {
		x.loopsSeen = append(x.loopsSeen, fmt.Sprintf("%s spec=%v", name, spec != nil))
	}
	pos := x.posOf(lp.header.Instrs[len(lp.header.Instrs)-1])
	run.pos = pos
	run.preSt = st.clone()
	// entry check
	for _, p := range phis {
		fr.env[p] = run.entry[p]
	}
	if spec != nil {
		x.runLoopSpec(fr, lp, run, run.entry, st, g, "entry")
	}
	c0 := x.ctr
	gv0 := gvar
	// discover modified heap
	mod := map[string][]*Term{}
	var backVals []map[*ssa.Phi]Val
	headDry := map[*ssa.Phi]Val{}
	for iter := 0; ; iter++ {
		if iter > 6 {
			panic(unsup("loop modifies analysis does not converge: %s", name))
		}
		sn := x.snap(fr)
		x.dry++
		var log []writeRec
		x.writes = append(x.writes, &log)
		st2 := st.clone()
		for k := range mod {
			h := x.fresh("dry:"+k, x.sortOfKey(st2, k))
			x.born[h] = x.ctr + jump
			st2.heap[k] = h
		}
		x.ctr += jump
		for _, p := range phis {
			v := Val{T: p.Type()}
			for _, l := range leaves(p.Type()) {
				v.L = append(v.L, x.fresh("dphi."+p.Comment, l.Sort))
			}
			x.wellTyped(v)
			fr.env[p] = v
			headDry[p] = v
		}
		backVals = nil
		x.runBlocks(fr, fr.loops.order, lp.header, st2, g, &bodyRun{header: lp.header, inLoop: lp.blocks, onBack: func(e edge) {
			m := map[*ssa.Phi]Val{}
			for _, p := range phis {
				for k, pr := range lp.header.Preds {
					if pr == e.pred {
						m[p] = x.value(fr, p.Edges[k], e.st)
					}
				}
			}
			backVals = append(backVals, m)
		}})
		x.writes = x.writes[:len(x.writes)-1]
		x.dry--
		x.restore(fr, sn)
		newKey := false
		mod2 := map[string][]*Term{}
		for k := range mod {
			mod2[k] = nil
		}
		for _, w := range log {
			if _, ok := mod[w.key]; !ok {
				newKey = true
			}
			mod2[w.key] = append(mod2[w.key], w.base)
		}
		mod = mod2
		if !newKey {
			break
		}
	}
	// classification of bases
	type src struct {
		stable  map[*Term]bool
		unknown bool
	}
	phiLeaf := map[*Term]struct {
		p *ssa.Phi
		i int
	}{}
	for p, v := range headDry {
		for i, l := range v.L {
			phiLeaf[l] = struct {
				p *ssa.Phi
				i int
			}{p, i}
		}
	}
	var sources func(t *Term, s *src, seen map[*Term]bool)
	sources = func(t *Term, s *src, seen map[*Term]bool) {
		if t == nil {
			s.unknown = true
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if pl, ok := phiLeaf[t]; ok {
			sources(run.entry[pl.p].L[pl.i], s, seen)
			for _, m := range backVals {
				if v, ok := m[pl.p]; ok {
					sources(v.L[pl.i], s, seen)
				}
			}
			return
		}
		if isInt(t) {
			if t.I.Int64() > c0 {
				return
			}
			s.stable[t] = true
			return
		}
		if t.Op == "ite" {
			sources(t.Args[1], s, seen)
			sources(t.Args[2], s, seen)
			return
		}
		if stableTerm(t, gv0) {
			s.stable[t] = true
			return
		}
		s.unknown = true
	}
	x.ctr += jump
	for _, p := range phis {
		v := Val{T: p.Type()}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		for _, l := range leaves(p.Type()) {
			v.L = append(v.L, x.fresh(nm+l.Path, l.Sort))
		}
		run.head[p] = v
		x.wellTyped(v)
		fr.env[p] = v
	}
	// automatic facts about ref phis
	for _, p := range phis {
		ls := leaves(p.Type())
		for i, l := range ls {
			if l.Kind != 'r' {
				continue
			}
			s := &src{stable: map[*Term]bool{}}
			sources(headDry[p].L[i], s, map[*Term]bool{})
			if s.unknown {
				continue
			}
			var ds []*Term
			for t := range s.stable {
				ds = append(ds, t)
			}
			sort.Slice(ds, func(a, b int) bool { return ds[a].id < ds[b].id })
			if len(ds) > 8 {
				continue
			}
			h := run.head[p].L[i]
			var or []*Term
			for _, d := range ds {
				or = append(or, Eq(h, d))
			}
			or = append(or, Lt(IntT(c0), h))
			x.addAssume(Or(or...))
		}
	}
	// structural facts about counters
	x.counterFacts(fr, lp, phis, run)
	keys := make([]string, 0, len(mod))
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := &src{stable: map[*Term]bool{}}
		for _, b := range mod[k] {
			sources(b, s, map[*Term]bool{})
		}
		srt := x.sortOfKey(st, k)
		_, el := splitArr(srt)
		old := x.heapGet(st, k, el)
		h := x.fresh("H:"+k, srt)
		x.born[h] = x.ctr
		if !s.unknown {
			var ex []*Term
			for t := range s.stable {
				ex = append(ex, t)
			}
			sort.Slice(ex, func(a, b int) bool { return ex[a].id < ex[b].id })
			frameOf[h] = &frameInfo{Old: old, C0: c0, Excl: ex}
			r := BVar("r", SInt)
			conds := []*Term{Le(r, IntT(c0))}
			for _, t := range ex {
				conds = append(conds, Not(Eq(r, t)))
			}
			sel := mk("select", "", el, nil, h, r)
			x.addAssume(Forall([]*Term{r}, Implies(And(conds...), Eq(sel, Select(old, r))), []*Term{sel}))
		} else if ctx := x.verifyCtx(); ctx != nil && (strings.HasPrefix(k, "E:") || strings.HasPrefix(k, "M:")) {
			// the contract's frame as an automatic invariant
			if fc := x.frameCond(ctx, k, el); fc != nil {
				run.autoF = append(run.autoF, k)
				x.frameOblige("inv-entry", run.name, k, st, g)
				r, j := BVar("r", SInt), BVar("j", SInt)
				pre := x.heapGet(ctx.pre, k, el)
				if strings.HasPrefix(k, "M:") {
					sel := mk("select", "", el, nil, h, r)
					x.addAssume(Forall([]*Term{r}, fc(pre, h, r, j), []*Term{sel}))
				} else {
					_, e2 := splitArr(el)
					sel := mk("select", "", e2, nil, mk("select", "", el, nil, h, r), j)
					x.addAssume(Forall([]*Term{r, j}, fc(pre, h, r, j), []*Term{sel}))
				}
			}
		}
		st.heap[k] = h
		for _, w := range x.writes {
			for _, b := range mod[k] {
				*w = append(*w, writeRec{k, b})
			}
		}
	}
	run.headSt = st.clone()
	if spec != nil {
		x.runLoopSpec(fr, lp, run, run.head, st, g, "assume")
	}
	return g
}

// exitEdge obliges the vcAtExit clauses on every edge that leaves the loop.
func (x *Exec) exitEdge(fr *frame, lp *loop, e edge) {
	run := fr.runs[lp]
	if run.spec == nil || run.head == nil {
		return
	}
	saved := map[*ssa.Phi]Val{}
	for p := range run.head {
		saved[p] = fr.env[p]
		fr.env[p] = run.head[p]
	}
	x.runLoopSpec(fr, lp, run, run.head, e.st, e.g, "exit")
	for p := range saved {
		fr.env[p] = saved[p]
	}
}

func (x *Exec) sortOfKey(st *State, k string) string {
	if t, ok := st.heap[k]; ok {
		return t.Sort
	}
	if s, ok := x.keySorts[k]; ok {
		return s
	}
	panic("no sort for key " + k)
}

// counterFacts assumes facts that hold for structural reasons of int counters.
func (x *Exec) counterFacts(fr *frame, lp *loop, phis []*ssa.Phi, run *loopRun) {
	for _, p := range phis {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		step := int64(0)
		okc := true
		unitStep := true
		for k, pr := range lp.header.Preds {
			if !lp.blocks[pr] {
				continue
			}
			d, ok := stepOf(p.Edges[k], p, lp, 0)
			if !ok || d < 0 {
				okc = false
				break
			}
			if d != 1 {
				unitStep = false
			}
			step = d
		}
		if !okc {
			continue
		}
		_ = step
		h := run.head[p].one()
		x.addAssume(Le(run.entry[p].one(), h))
		if !unitStep {
			continue
		}
		run.counters = append(run.counters, p)
		// upper bound from the header test  p < L  or p+1 < L
		iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
		if !ok || !lp.blocks[lp.header.Succs[0]] || lp.blocks[lp.header.Succs[1]] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			continue
		}
		lv, ok := fr.env[cmp.Y]
		if !ok {
			if c, isC := cmp.Y.(*ssa.Const); isC {
				lv = x.constVal(c)
			} else {
				continue
			}
		} else if ins, isI := cmp.Y.(ssa.Instruction); isI && lp.blocks[ins.Block()] {
			continue
		}
		L := lv.one()
		e := run.entry[p].one()
		if cmp.X == p {
			x.addAssume(Or(Le(h, L), Eq(h, e)))
		} else if add, ok := cmp.X.(*ssa.BinOp); ok && add.Op == token.ADD && add.X == p && isOne(add.Y) {
			x.addAssume(Or(Lt(h, L), Eq(h, e)))
		}
	}
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 1
}

// stepOf returns the constant increment from phi p to v.
func stepOf(v ssa.Value, p *ssa.Phi, lp *loop, depth int) (int64, bool) {
	if v == p {
		return 0, true
	}
	if depth > 4 {
		return 0, false
	}
	switch b := v.(type) {
	case *ssa.BinOp:
		if c, ok := b.Y.(*ssa.Const); ok && b.Op == token.ADD && c.Value != nil {
			d, ok := stepOf(b.X, p, lp, depth+1)
			return d + c.Int64(), ok
		}
	case *ssa.Phi:
		if !lp.blocks[b.Block()] || b.Block() == lp.header {
			return 0, false
		}
		var d int64
		for i, e := range b.Edges {
			di, ok := stepOf(e, p, lp, depth+1)
			if !ok {
				return 0, false
			}
			if i > 0 && di != d {
				return 0, false
			}
			d = di
		}
		return d, true
	}
	return 0, false
}

func (x *Exec) backEdge(fr *frame, lp *loop, e edge) {
	run := fr.runs[lp]
	vals := map[*ssa.Phi]Val{}
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range lp.header.Preds {
			if pr == e.pred {
				vals[p] = x.value(fr, p.Edges[k], e.st)
				vals[p] = Val{p.Type(), vals[p].L}
			}
		}
	}
	for _, k := range run.autoF {
		x.frameOblige("inv-kept", run.name, k, e.st, e.g)
	}
	if run.spec == nil {
		return
	}
	saved := map[*ssa.Phi]Val{}
	for p := range vals {
		saved[p] = fr.env[p]
		fr.env[p] = vals[p]
	}
	x.runLoopSpec(fr, lp, run, vals, e.st, e.g, "back")
	for p := range vals {
		fr.env[p] = saved[p]
	}
}

// runLoopSpec executes the loop's invariant function.
func (x *Exec) runLoopSpec(fr *frame, lp *loop, run *loopRun, vals map[*ssa.Phi]Val, st *State, g G, mode string) {
	spec := run.spec
	args := make([]Val, len(spec.Fn.Params))
	used := map[*ssa.Phi]bool{}
	type unres struct{ i int }
	var todo []int
	for i, p := range spec.Fn.Params {
		v, ok := x.bindLoopName(fr, lp, run, vals, st, p.Name(), p.Type(), used)
		if !ok {
			todo = append(todo, i)
			continue
		}
		args[i] = v
	}
	alt := x.bindAlt
	for _, i := range todo {
		p := spec.Fn.Params[i]
		if p.Name() == "vcI" || p.Name() == "vcI_1" {
			panic(unsup("loop %s has no counter for vcI", run.name))
		}
		cands := x.bindCandidates(fr, lp, vals, st, p.Type(), used)
		if len(cands) == 0 {
			panic(unsup("loop %s: no value of type %v for %s", run.name, p.Type(), p.Name()))
		}
		if len(cands) > x.maxAlt {
			x.maxAlt = len(cands)
		}
		k := alt % len(cands)
		alt /= len(cands)
		args[i] = cands[k]
	}
	lc := &loopCtx{mode: mode, g: g, name: run.name, pre: run.preSt}
	if mode == "back" {
		lc.head = run.headSt
	}
	x.loopctx = append(x.loopctx, lc)
	x.spec++
	x.runFn(spec.Fn, args, nil, st.clone(), g, nil)
	x.spec--
	x.loopctx = x.loopctx[:len(x.loopctx)-1]
	if lc.dec != nil {
		switch mode {
		case "assume":
			run.dec0, run.dec0b = lc.dec, lc.dec2
		case "back":
			if run.dec0 != nil {
				sp := x.spec
				x.spec = 0
				less := And(Le(IntT(0), run.dec0), Lt(lc.dec, run.dec0))
				if lc.dec2 != nil {
					less = Or(less, And(Eq(lc.dec, run.dec0), Le(IntT(0), run.dec0b), Lt(lc.dec2, run.dec0b)))
				}
				x.oblige(run.name+":decreases", g, less, run.pos)
				x.spec = sp
			}
		}
	}
}

func sameType(a, b types.Type) bool { return typeKey(a) == typeKey(b) }

func (x *Exec) bindLoopName(fr *frame, lp *loop, run *loopRun, vals map[*ssa.Phi]Val, st *State, name string, t types.Type, used map[*ssa.Phi]bool) (Val, bool) {
	if name == "_" {
		return zeroVal(t), true
	}
	if name == "vcI" {
		for _, ins := range lp.header.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for _, c := range run.counters0(x, lp) {
				if c == p {
					return Val{t, []*Term{Sub(vals[p].one(), run.entry[p].one())}}, true
				}
			}
		}
		for _, ins := range lp.header.Instrs {
			// range over a string: the position of the next character
			if nx, ok := ins.(*ssa.Next); ok && nx.IsString {
				if it, ok := fr.env[nx.Iter]; ok {
					return Val{t, []*Term{Select(x.heapGet(st, "IT:pos", SInt), it.L[0])}}, true
				}
			}
		}
		return Val{}, false
	}
	if name == "vcI_1" {
		// the counter of the loop around this one
		var outer *loop
		for o := range fr.runs {
			if o != lp && o.blocks[lp.header] && (outer == nil || len(o.blocks) < len(outer.blocks)) {
				outer = o
			}
		}
		if outer == nil {
			return Val{}, false
		}
		orun := fr.runs[outer]
		for _, c := range orun.counters0(x, outer) {
			if v, ok := fr.env[c]; ok {
				return Val{t, []*Term{Sub(v.one(), orun.entry[c].one())}}, true
			}
		}
		return Val{}, false
	}
	if strings.HasPrefix(name, "c_") {
		for i := len(x.cstack) - 1; i >= 0; i-- {
			c := x.cstack[i]
			if c.fr == nil {
				continue
			}
			if v, ok := x.frameName(c.fr, nil, name[2:], c.pre); ok && sameType(v.T, t) {
				return v, true
			}
		}
	}
	if strings.HasSuffix(name, "_in") {
		nm := strings.TrimSuffix(name, "_in")
		for i, p := range fr.fn.Params {
			if p.Name() == nm && sameType(p.Type(), t) {
				return fr.args[i], true
			}
		}
		// renamed parameter: unique by type
		var c []Val
		for i, p := range fr.fn.Params {
			if sameType(p.Type(), t) {
				c = append(c, fr.args[i])
			}
		}
		if len(c) >= 1 {
			return c[0], true
		}
	}
	if strings.HasSuffix(name, "_head") {
		nm := strings.TrimSuffix(name, "_head")
		src, hs := run.head, run.headSt
		if hs == nil {
			src, hs = run.entry, st
		}
		for p, v := range src {
			if p.Comment == nm && sameType(p.Type(), t) {
				return v, true
			}
		}
		if v, ok := x.frameName(fr, lp, nm, hs); ok && sameType(v.T, t) {
			return v, true
		}
		return Val{}, false
	}
	if strings.HasSuffix(name, "_pre") {
		nm := strings.TrimSuffix(name, "_pre")
		for p, v := range run.entry {
			if p.Comment == nm && sameType(p.Type(), t) {
				return v, true
			}
		}
		if v, ok := x.frameName(fr, lp, nm, run.preSt); ok && sameType(v.T, t) {
			return v, true
		}
		return Val{}, false
	}
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == name && sameType(p.Type(), t) {
			used[p] = true
			return Val{t, vals[p].L}, true
		}
	}
	if v, ok := x.frameName(fr, lp, name, st); ok && sameType(v.T, t) {
		return v, true
	}
	return Val{}, false
}

// counters0 finds unit-step int phis structurally.
func (run *loopRun) counters0(x *Exec, lp *loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		good := true
		for k, pr := range lp.header.Preds {
			if !lp.blocks[pr] {
				continue
			}
			if d, ok := stepOf(p.Edges[k], p, lp, 0); !ok || d != 1 {
				good = false
			}
		}
		if good {
			out = append(out, p)
		}
	}
	return out
}

// frameName looks up a source-level variable of the frame.
func (x *Exec) frameName(fr *frame, lp *loop, name string, st *State) (Val, bool) {
	dom := func(v ssa.Value) bool {
		if lp == nil {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return true
		}
		return ins.Block().Dominates(lp.header) && ins.Block() != lp.header || isPhiOf(v, lp)
	}
	if a, ok := fr.addrs[name]; ok && dom(a) {
		if pv, ok := fr.env[a]; ok {
			return x.loadPlace(st, x.place(pv.one(), a.Type())), true
		}
	}
	// phis of enclosing headers named so
	var best *ssa.Phi
	for v := range fr.env {
		if p, ok := v.(*ssa.Phi); ok && p.Comment == name && dom(p) {
			if best == nil || best.Block().Dominates(p.Block()) {
				best = p
			}
		}
	}
	if v, ok := fr.names[name]; ok && dom(v) {
		if best != nil {
			if ins, ok := v.(ssa.Instruction); !ok || ins.Block().Dominates(best.Block()) {
				return fr.env[best], true
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			return x.constVal(c), true
		}
		if e, ok := fr.env[v]; ok {
			return e, true
		}
	}
	if best != nil {
		return fr.env[best], true
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name {
			return fr.args[i], true
		}
	}
	for _, f := range fr.fn.FreeVars {
		if f.Name() == name {
			pv := fr.env[f]
			if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
				_ = pt
				return x.loadPlace(st, x.place(pv.one(), f.Type())), true
			}
			return pv, true
		}
	}
	return Val{}, false
}

func isPhiOf(v ssa.Value, lp *loop) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == lp.header
}

func (x *Exec) bindCandidates(fr *frame, lp *loop, vals map[*ssa.Phi]Val, st *State, t types.Type, used map[*ssa.Phi]bool) []Val {
	var out []Val
	add := func(v Val) {
		for _, o := range out {
			same := true
			for i := range o.L {
				if o.L[i] != v.L[i] {
					same = false
				}
			}
			if same {
				return
			}
		}
		out = append(out, Val{t, v.L})
	}
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if sameType(p.Type(), t) && !used[p] {
			add(vals[p])
		}
	}
	// values in scope
	var names []string
	for n := range fr.names {
		names = append(names, n)
	}
	for n := range fr.addrs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if v, ok := x.frameName(fr, lp, n, st); ok && sameType(v.T, t) {
			add(v)
		}
	}
	for i, p := range fr.fn.Params {
		if sameType(p.Type(), t) {
			add(fr.args[i])
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}
