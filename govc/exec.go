package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G is a path condition (conjunction).
type G []*Term

func (g G) and(t *Term) G {
	if t == True {
		return g
	}
	n := make(G, len(g), len(g)+1)
	copy(n, g)
	return append(n, t)
}
func (g G) term() *Term { return And(g...) }
func (g G) dead() bool {
	for _, t := range g {
		if t == False {
			return true
		}
	}
	return g.term() == False
}

// mergeG merges guards; conds[i] selects branch i.
func mergeG(gs []G) (G, []*Term) {
	if len(gs) == 1 {
		return gs[0], []*Term{True}
	}
	n := 0
	for {
		ok := true
		for _, g := range gs {
			if n >= len(g) || g[n] != gs[0][n] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		n++
	}
	var rest []*Term
	for _, g := range gs {
		rest = append(rest, And(g[n:]...))
	}
	out := append(G{}, gs[0][:n]...)
	return out.and(Or(rest...)), rest
}

// State is the symbolic heap.
type State struct{ heap map[string]*Term }

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

// Place is a symbolic lvalue.
type Place struct {
	Key  string // heap key prefix "O:T" or "E:T"
	Idx1 *Term
	Idx2 *Term // nil for O
	Path string
	T    types.Type
	Sub  *Term // index inside an array leaf
	SubT types.Type
	// unsafe views
	View string // "", "slicehdr", "bytesaddr", "asint"
	Of   *Place
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
	// bound method value
	Recv   *Val
	Method *types.Func
}

// Obl is one proof obligation.
type Obl struct {
	Name   string
	Goal   *Term // includes guard
	N      int   // number of assumptions visible
	Pos    string
	Cover  bool
	Result string
	Solver string
	Secs   float64
	File   string
}

type writeRec struct {
	key  string
	base *Term
}

type cctx struct { // contract context
	c         *ContractFn
	mode      string // "verify", "use"
	fr        *frame
	call      *ssa.Call
	target    *ssa.Function
	mods      []modItem
	pre       *State
	preCtr    int64
	args      []Val // use mode: actual args of target call
	done      bool
	postCtr   int64
	dec       *Term
	modAll    bool
	resultVal *Val
	decOK     bool
}

type modItem struct {
	key  string // exact leaf key, or prefix for whole object
	base *Term  // ref; nil = any
	pref bool
	idx2 *Term
	any  func(r *Term) *Term // the objects that satisfy it
}

type Exec struct {
	pr        *Program
	ctr       int64
	assume    []*Term
	obls      []*Obl
	dry       int
	spec      int
	writes    []*[]writeRec
	places    map[*Term]*Place
	closures  map[*Term]*Closure
	iters     map[*Term]*iterInfo
	cstack    []*cctx
	loopSeq   int
	bindAlt   int // which binding alternative to use
	maxAlt    int
	trusted   map[string]bool
	inlined   map[string]bool
	used      map[string]bool
	depth     int
	stack     []*ssa.Function
	loopctx   []*loopCtx
	recMemo   map[*Term]int
	recFns    map[string]*ssa.Function
	tags      map[*Term]map[string]bool
	recDepth  int
	recMax    int
	nopanic   bool
	oblCount  map[string]int
	root      *ContractFn
	keySorts  map[string]string
	boundAll  map[*Term]bool
	born      map[*Term]int64
	assumeSet map[*Term]bool
	goCalls   string
	opts      map[string]string
	loopsSeen []string
	globalT   map[string]*ssa.Global
	atomicIdx int

	allocT      map[*Term]types.Type
	journal     []*Term
	memoJournal []*Term
	quant       int
	hvBorn      map[*Term]int64
	shiftMemo   map[*Term]*Term
}

func (x *Exec) mark(t *Term) {
	x.assumeSet[t] = true
	x.journal = append(x.journal, t)
}

type iterInfo struct {
	kind string // map, string
	ref  *Term
	mt   *types.Map
	dom0 *Term
	m    *Term
	str  *Term
}

type loopCtx struct {
	pre        *State // heap when the loop is entered
	mode       string // "entry","assume","back","exit"
	head       *State // heap at the loop head (mode back)
	g          G
	name       string
	dec0, dec2 *Term
	dec        *Term
	n          int
}

var gvar int

func (x *Exec) fresh(hint, srt string) *Term {
	gvar++
	return Var(fmt.Sprintf("%s!%d", hint, gvar), srt)
}

func (x *Exec) addAssume(t *Term) {
	if t == True || t.hasB && hasFreeB(t, nil) {
		return
	}
	if x.assumeSet[t] {
		return
	}
	x.mark(t)
	x.assume = append(x.assume, t)
}
func (x *Exec) assumeG(g G, t *Term) { x.addAssume(Implies(g.term(), t)) }

func (x *Exec) oblige(name string, g G, goal *Term, pos string) {
	if x.dry > 0 || x.spec > 0 {
		return
	}
	if goal.hasB && hasFreeB(goal, nil) {
		return
	}
	var conj []*Term
	if goal.Op == "and" {
		conj = goal.Args
	} else {
		conj = []*Term{goal}
	}
	gt := g.term()
	for i, c := range conj {
		n := name
		if len(conj) > 1 {
			n = fmt.Sprintf("%s.%d", name, i+1)
		}
		x.oblCount[n]++
		if k := x.oblCount[n]; k > 1 {
			n = fmt.Sprintf("%s~%d", n, k)
		}
		full := Implies(gt, c)
		x.tag(full, name)
		sk := Implies(gt, x.skolem(c))
		x.obls = append(x.obls, &Obl{Name: n, Goal: sk, N: len(x.assume), Pos: pos})
		x.addAssume(full)
	}
}

// tag remembers the clause an assumption comes from.
func (x *Exec) tag(t *Term, name string) {
	if i := strings.LastIndex(name, ":"); i >= 0 {
		name = name[i+1:]
	}
	if x.tags[t] == nil {
		x.tags[t] = map[string]bool{}
	}
	x.tags[t][name] = true
}

// hidden tells whether an assumption comes only from clauses the goal does without.
func (x *Exec) hidden(t *Term, goal string) bool {
	if strings.Contains(goal, "frame ") || strings.Contains(goal, "frame:") {
		goal = "frame"
	} else if strings.HasPrefix(goal, "safe:") {
		goal = "safe"
	}
	if i := strings.LastIndex(goal, ":"); i >= 0 {
		goal = goal[i+1:]
	}
	if i := strings.LastIndexByte(goal, '~'); i >= 0 {
		goal = goal[:i]
	}
	for {
		i := strings.LastIndexByte(goal, '.')
		if i < 0 || strings.Trim(goal[i+1:], "0123456789") != "" {
			break
		}
		goal = goal[:i]
	}
	if len(x.tags[t]) == 0 {
		return false
	}
	for n := range x.tags[t] {
		if !hides[goal+"\x00"+n] {
			return false
		}
	}
	return true
}

// skolem replaces the universally quantified variables of a goal by fresh constants and
// unfolds the recursive functions applied to them.
func (x *Exec) skolem(c *Term) *Term {
	nq := false
	var pos func(t *Term) *Term
	pos = func(t *Term) *Term {
		switch t.Op {
		case "and", "or":
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = pos(a)
			}
			if t.Op == "and" {
				return And(as...)
			}
			return Or(as...)
		case "=>":
			return Implies(t.Args[0], pos(t.Args[1]))
		case "forall":
			n := qn(t)
			b := t.Args[n]
			for _, q := range t.Args[:n] {
				b = subst(b, q, x.fresh("sk", q.Sort), map[*Term]*Term{})
			}
			nq = true
			return pos(b)
		}
		return t
	}
	r := pos(c)
	if !nq {
		return c
	}
	ord, _ := collect([]*Term{r})
	for _, t := range ord {
		if t.Op == "app" && !t.hasB {
			if fn, ok := x.recFns[t.Name]; ok {
				v := Val{T: fn.Signature.Results()}
				for i, l := range leaves(v.T) {
					v.L = append(v.L, App(fmt.Sprintf("rec!%s!%d", fn.Name(), i), l.Sort, t.Args...))
				}
				x.unfold(fn, t.Args, v)
			}
		}
	}
	return r
}

func (x *Exec) cover(name string, g G, pos string) {
	if x.dry > 0 || x.spec > 0 {
		return
	}
	x.obls = append(x.obls, &Obl{Name: name, Goal: Not(g.term()), N: len(x.assume), Pos: pos, Cover: true})
}

func (x *Exec) posOf(in interface{ Pos() token.Pos }) string {
	p := x.pr.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repo+"/"), p.Line)
}

// ---------- heap ----------

func (x *Exec) heapGet(st *State, key, elSort string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := Var("H0!"+key, arrSort(SInt, elSort))
	x.born[t] = 0
	return t
}

func (x *Exec) heapSet(st *State, key string, t *Term, base *Term) {
	st.heap[key] = t
	x.keySorts[key] = t.Sort
	for _, w := range x.writes {
		*w = append(*w, writeRec{key, base})
	}
}

// refBoundAll does the same for a reference loaded at a bound index: no reference in the
// heap it came from is newer than that heap.
func (x *Exec) refBoundAll(t *Term) {
	switch t.Op {
	case "ite":
		x.refBoundAll(t.Args[1])
		x.refBoundAll(t.Args[2])
	case "select", "store":
		x.refBoundAll(t.Args[0])
	case "var":
		n, ok := x.born[t]
		if !ok || x.boundAll[t] || !strings.HasPrefix(t.Sort, "(Array") {
			return
		}
		if x.boundAll == nil {
			x.boundAll = map[*Term]bool{}
		}
		x.boundAll[t] = true
		u := t
		var bv []*Term
		for strings.HasPrefix(u.Sort, "(Array") {
			ix, _ := splitArr(u.Sort)
			gvar++
			q := BVar(fmt.Sprintf("b!%d", gvar), ix)
			bv = append(bv, q)
			u = Select(u, q)
		}
		x.addAssume(Forall(bv, Le(u, IntT(n)), []*Term{u}))
	}
}

// refBound records that a loaded reference is not newer than the heap it came from.
func (x *Exec) refBound(t *Term) {
	if t.hasB || isLit(t) {
		return
	}
	bound := func(s *Term) {
		// s is select(...select(base,i)...)
		b := s
		for b.Op == "select" {
			b = b.Args[0]
		}
		if n, ok := x.born[b]; ok {
			setUB(s, n)
			x.addAssume(Le(s, IntT(n)))
		}
	}
	if t.Op == "select" {
		b := t.Args[0]
		for b.Op == "select" {
			b = b.Args[0]
		}
		if b.Op == "var" {
			bound(t)
			return
		}
		// collect base arrays under store/ite and bound their selects at this index
		if t.Args[0].Op == "select" { // elem heap: select(select(H,a),i)
			x.addAssume(Le(t, IntT(x.ctr)))
			setUB(t, x.ctr)
			return
		}
		idx := t.Args[1]
		seen := map[*Term]bool{}
		var walk func(h *Term)
		walk = func(h *Term) {
			if seen[h] {
				return
			}
			seen[h] = true
			switch h.Op {
			case "store":
				walk(h.Args[0])
			case "ite":
				walk(h.Args[1])
				walk(h.Args[2])
			case "var":
				bound(mk("select", "", t.Sort, nil, h, idx))
			}
		}
		walk(t.Args[0])
		x.addAssume(Le(t, IntT(x.ctr)))
		setUB(t, x.ctr)
		return
	}
	if t.Op == "ite" {
		x.refBound(t.Args[1])
		x.refBound(t.Args[2])
		return
	}
	if t.Op == "var" {
		x.addAssume(Le(t, IntT(x.ctr)))
		setUB(t, x.ctr)
	}
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(p(8), one), true
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(p(16), one), true
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(p(32), one), true
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(p(64), one), true
	case types.Int8:
		return new(big.Int).Neg(p(7)), new(big.Int).Sub(p(7), one), true
	case types.Int16:
		return new(big.Int).Neg(p(15)), new(big.Int).Sub(p(15), one), true
	case types.Int32:
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), one), true
	case types.Int64, types.Int:
		return new(big.Int).Neg(p(63)), new(big.Int).Sub(p(63), one), true
	}
	return
}

// wellTyped adds type-invariant assumptions for a value that came from outside.
func (x *Exec) wellTyped(v Val) {
	ls := leaves(v.T)
	for i, l := range ls {
		t := v.L[i]
		if t.hasB && (l.Kind == 'r' || l.Kind == 'p') {
			x.refBoundAll(t)
		}
		if t.hasB || isLit(t) {
			continue
		}
		switch l.Kind {
		case 'r':
			x.refBound(t)
			if l.Path == ".arr" || strings.HasSuffix(l.Path, ".arr") && isSlice(l.T) {
				off, ln, cp := v.L[i+1], v.L[i+2], v.L[i+3]
				x.addAssume(And(Le(IntT(0), off), Le(IntT(0), ln), Le(ln, cp)))
				x.addAssume(Implies(Eq(t, IntT(0)), Eq(cp, IntT(0))))
			}
		case 'i':
			if lo, hi, ok := intRange(l.T); ok {
				x.addAssume(And(Le(BigT(lo), t), Le(t, BigT(hi))))
			}
		case 'p':
			x.refBound(t)
		case 'g':
			x.addAssume(Le(IntT(0), t))
		}
	}
}

func (x *Exec) freshVal(hint string, t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		f := x.fresh(hint+l.Path, l.Sort)
		v.L = append(v.L, f)
	}
	x.wellTyped(v)
	return v
}

func (x *Exec) newRef() *Term {
	x.ctr++
	return IntT(x.ctr)
}

func (x *Exec) place(t *Term, pt types.Type) *Place {
	if p, ok := x.places[t]; ok {
		return p
	}
	if t.Op == "place" {
		panic("unregistered place")
	}
	el := pt.Underlying().(*types.Pointer).Elem()
	if at, ok := el.Underlying().(*types.Array); ok {
		_ = at
		return &Place{Key: "A:" + typeKey(at.Elem()), Idx1: t, T: el}
	}
	return &Place{Key: "O:" + typeKey(el), Idx1: t, T: el}
}

func (x *Exec) placeTerm(p *Place) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "&%s[%d]", p.Key, p.Idx1.id)
	if p.Idx2 != nil {
		fmt.Fprintf(&sb, "[%d]", p.Idx2.id)
	}
	sb.WriteString(p.Path)
	if p.Sub != nil {
		fmt.Fprintf(&sb, "{%d}", p.Sub.id)
	}
	if p.View != "" {
		fmt.Fprintf(&sb, "<%s>", p.View)
	}
	sb.WriteString(":" + typeKey(p.T))
	t := mk("place", sb.String(), SInt, nil)
	x.places[t] = p
	return t
}

func (x *Exec) loadLeaf(st *State, p *Place, l Leaf) *Term {
	if strings.HasPrefix(p.Key, "A:") { // pointer to array: leaf of array type
		// l.Path = "[]rest"
		key := "E:" + p.Key[2:] + strings.TrimPrefix(p.Path+l.Path, "[]")
		_, es := splitArr(l.Sort)
		return Select(x.heapGet(st, key, arrSort(SInt, es)), p.Idx1)
	}
	key := p.Key + p.Path + l.Path
	if p.Sub != nil {
		// array leaf: stored under Path + "[]" + l.Path
		key = p.Key + p.Path + "[]" + l.Path
		as := arrSort(SInt, l.Sort)
		if p.Idx2 != nil {
			return Select(Select(Select(x.heapGet(st, key, arrSort(SInt, as)), p.Idx1), p.Idx2), p.Sub)
		}
		return Select(Select(x.heapGet(st, key, as), p.Idx1), p.Sub)
	}
	if p.Idx2 != nil {
		return Select(Select(x.heapGet(st, key, arrSort(SInt, l.Sort)), p.Idx1), p.Idx2)
	}
	return Select(x.heapGet(st, key, l.Sort), p.Idx1)
}

func (x *Exec) storeLeaf(st *State, p *Place, l Leaf, v *Term) {
	if v.Op == "place" && x.spec == 0 {
		x.trusted["interior pointer stored to memory: "+regexp.MustCompile(`\[\d+\]`).ReplaceAllString(v.Name, "")] = true
	}
	if strings.HasPrefix(p.Key, "A:") {
		key := "E:" + p.Key[2:] + strings.TrimPrefix(p.Path+l.Path, "[]")
		_, es := splitArr(l.Sort)
		h := x.heapGet(st, key, arrSort(SInt, es))
		x.heapSet(st, key, Store(h, p.Idx1, v), p.Idx1)
		return
	}
	key := p.Key + p.Path + l.Path
	if p.Sub != nil {
		key = p.Key + p.Path + "[]" + l.Path
		as := arrSort(SInt, l.Sort)
		if p.Idx2 != nil {
			h := x.heapGet(st, key, arrSort(SInt, as))
			o := Select(h, p.Idx1)
			x.heapSet(st, key, Store(h, p.Idx1, Store(o, p.Idx2, Store(Select(o, p.Idx2), p.Sub, v))), p.Idx1)
			return
		}
		h := x.heapGet(st, key, as)
		x.heapSet(st, key, Store(h, p.Idx1, Store(Select(h, p.Idx1), p.Sub, v)), p.Idx1)
		return
	}
	if p.Idx2 != nil {
		h := x.heapGet(st, key, arrSort(SInt, l.Sort))
		x.heapSet(st, key, Store(h, p.Idx1, Store(Select(h, p.Idx1), p.Idx2, v)), p.Idx1)
		return
	}
	h := x.heapGet(st, key, l.Sort)
	x.heapSet(st, key, Store(h, p.Idx1, v), p.Idx1)
}

func (x *Exec) loadPlace(st *State, p *Place) Val {
	if p.View != "" {
		return x.loadView(st, p)
	}
	v := Val{T: p.T}
	for _, l := range leaves(p.T) {
		v.L = append(v.L, x.loadLeaf(st, p, l))
	}
	x.wellTyped(v)
	return v
}

func (x *Exec) storePlace(st *State, p *Place, v Val) {
	if p.View != "" {
		x.storeView(st, p, v)
		return
	}
	ls := leaves(p.T)
	if len(ls) != len(v.L) {
		panic(unsup("store shape mismatch %v <- %v", p.T, v.T))
	}
	for i, l := range ls {
		x.storeLeaf(st, p, l, v.L[i])
	}
}

// nilCheck obliges p != nil.
func (x *Exec) nilCheck(g G, t *Term, what string, in ssa.Instruction) G {
	if t.Op == "place" || t.Op == "fn" {
		return g
	}
	c := Not(Eq(t, IntT(0)))
	if c == True {
		return g
	}
	x.safety("nil", g, c, in)
	return g.and(c)
}

func (x *Exec) safety(kind string, g G, c *Term, in ssa.Instruction) {
	if c == True || x.spec > 0 {
		return
	}
	if x.nopanic {
		x.oblige("safe:"+kind+"@"+fnKey(in.Parent()), g, c, x.posOf(in))
	} else {
		x.assumeG(g, c)
	}
}

// ---------- frames ----------

type deferRec struct {
	g    G
	call ssa.CallCommon
	args []Val
	fnv  Val
	in   ssa.Instruction
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]ssa.Value
	addrs  map[string]ssa.Value
	parent *frame
	defers []deferRec
	ctx    *cctx // non-nil if this frame runs a contract function
	args   []Val
	bind   []Val
	loops  *loopInfo
	runs   map[*loop]*loopRun
}

type retRec struct {
	g  G
	st *State
	v  Val
}

// runFn executes a function body symbolically and merges its returns.
func (x *Exec) runFn(fn *ssa.Function, args []Val, bind []Val, st *State, g G, ctx *cctx) (Val, *State, G) {
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil {
			panic(unsup("no body: %s", fn))
		}
	}
	x.depth++
	if x.depth > 80 {
		panic(unsup("inline depth exceeded at %s", fn))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]ssa.Value{}, addrs: map[string]ssa.Value{}, ctx: ctx, args: args, bind: bind}
	if ctx != nil {
		ctx.fr = fr
	}
	for i, p := range fn.Params {
		v := args[i]
		if len(v.L) != nleaves(p.Type()) {
			panic(unsup("arg shape mismatch for %s of %s: %v vs %v", p.Name(), fn, v.T, p.Type()))
		}
		v.T = p.Type()
		fr.env[p] = v
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	fr.loops = findLoops(fn)
	rets := x.runBlocks(fr, fr.loops.order, fn.Blocks[0], st, g, nil)
	if len(rets) == 0 {
		// never returns
		return zeroVal(fn.Signature.Results()), st, g.and(False)
	}
	gs := make([]G, len(rets))
	for i := range rets {
		gs[i] = rets[i].g
	}
	mg, conds := mergeG(gs)
	v, s := rets[len(rets)-1].v, rets[len(rets)-1].st
	for i := len(rets) - 2; i >= 0; i-- {
		v = mergeVal(conds[i], rets[i].v, v)
		s = mergeState(x, conds[i], rets[i].st, s)
	}
	return v, s, mg
}

func mergeState(x *Exec, c *Term, a, b *State) *State {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	n := &State{heap: make(map[string]*Term, len(a.heap))}
	for k, va := range a.heap {
		vb, ok := b.heap[k]
		if !ok {
			_, el := splitArr(va.Sort)
			vb = x.heapGet(b, k, el)
		}
		n.heap[k] = Ite(c, va, vb)
	}
	for k, vb := range b.heap {
		if _, ok := a.heap[k]; !ok {
			_, el := splitArr(vb.Sort)
			n.heap[k] = Ite(c, x.heapGet(a, k, el), vb)
		}
	}
	return n
}

type edge struct {
	pred *ssa.BasicBlock
	g    G
	st   *State
}

// runBlocks executes the blocks in order (a topological order ignoring back edges).
// If loop is non-nil, only that loop's body is executed (header already prepared by
// the caller) and back edges / exits are handed to loop.
func (x *Exec) runBlocks(fr *frame, order []*ssa.BasicBlock, entry *ssa.BasicBlock, st *State, g G, body *bodyRun) []retRec {
	in := map[*ssa.BasicBlock][]edge{}
	var rets []retRec
	in[entry] = []edge{{nil, g, st}}
	x.walk(fr, order, entry, in, &rets, body)
	return rets
}

type bodyRun struct {
	header *ssa.BasicBlock
	onBack func(e edge)
	inLoop map[*ssa.BasicBlock]bool
}

func (x *Exec) walk(fr *frame, order []*ssa.BasicBlock, entry *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, rets *[]retRec, body *bodyRun) {
	li := fr.loops
	for _, b := range order {
		if body != nil && !body.inLoop[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		var live []edge
		for _, e := range es {
			if !e.g.dead() {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		gs := make([]G, len(live))
		for i := range live {
			gs[i] = live[i].g
		}
		g, conds := mergeG(gs)
		st := live[len(live)-1].st
		for i := len(live) - 2; i >= 0; i-- {
			st = mergeState(x, conds[i], live[i].st, st)
		}
		st = st.clone()
		// phis
		phiVal := func(p *ssa.Phi) Val {
			var v Val
			first := true
			for i := len(live) - 1; i >= 0; i-- {
				var ev Val
				for k, pr := range b.Preds {
					if pr == live[i].pred {
						ev = x.value(fr, p.Edges[k], live[i].st)
						break
					}
				}
				if first {
					v = ev
					first = false
				} else {
					v = mergeVal(conds[i], ev, v)
				}
			}
			v.T = p.Type()
			return v
		}
		isBodyHeader := body != nil && b == body.header
		var phis []*ssa.Phi
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				phis = append(phis, p)
			}
		}
		if !isBodyHeader {
			if lp := li.byHeader[b]; lp != nil {
				g = x.enterLoop(fr, lp, phis, phiVal, st, g)
			} else {
				vals := make([]Val, len(phis))
				for i, p := range phis {
					vals[i] = phiVal(p)
				}
				for i, p := range phis {
					fr.env[p] = vals[i]
				}
			}
		}
		push := func(succ *ssa.BasicBlock, g G, st *State) {
			e := edge{b, g, st}
			if lp := li.byHeader[succ]; lp != nil && lp.blocks[b] {
				if g.dead() {
					return
				}
				if body != nil && body.header == succ {
					body.onBack(e)
				} else {
					x.backEdge(fr, lp, e)
				}
				return
			}
			if x.dry == 0 && !g.dead() {
				for _, lp := range li.byHeader {
					if lp.blocks[b] && !lp.blocks[succ] && fr.runs[lp] != nil {
						x.exitEdge(fr, lp, e)
					}
				}
			}
			in[succ] = append(in[succ], e)
		}
		dead := false
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				c := x.value(fr, ins.Cond, st).one()
				push(b.Succs[0], g.and(c), st)
				push(b.Succs[1], g.and(Not(c)), st.clone())
			case *ssa.Jump:
				push(b.Succs[0], g, st)
			case *ssa.Return:
				v := Val{T: fr.fn.Signature.Results()}
				for _, r := range ins.Results {
					v.L = append(v.L, x.value(fr, r, st).L...)
				}
				*rets = append(*rets, retRec{g, st, v})
			case *ssa.Panic:
				x.safety("panic", g, False, ins)
				dead = true
			default:
				g = x.instr(fr, ins, st, g)
				if g.dead() {
					dead = true
				}
			}
			if dead {
				break
			}
		}
	}
}

// ---------- values ----------

func (x *Exec) value(fr *frame, v ssa.Value, st *State) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		// address of a package variable
		n := "global:" + v.String()
		t := mk("place", n, SInt, nil)
		if _, ok := x.places[t]; !ok {
			el := v.Type().Underlying().(*types.Pointer).Elem()
			x.places[t] = &Place{Key: "G:" + v.String(), Idx1: IntT(0), T: el}
			x.globalT["G:"+v.String()] = v
		}
		return Val{v.Type(), []*Term{t}}
	case *ssa.Function:
		return x.fnVal(&Closure{Fn: v}, v.Type())
	case *ssa.Builtin:
		return Val{v.Type(), []*Term{IntT(0)}}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsup("value %s (%T) not available in %s", v.Name(), v, fr.fn))
}

func (x *Exec) fnVal(c *Closure, t types.Type) Val {
	n := "fn:" + c.Fn.String()
	for _, b := range c.Bind {
		for _, l := range b.L {
			n += fmt.Sprintf(",%d", l.id)
		}
	}
	a := mk("fn", n, SInt, nil)
	x.closures[a] = c
	return Val{t, []*Term{a}}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{t, []*Term{BoolT(constant.BoolVal(c.Value))}}
		case b.Info()&types.IsString != 0:
			return Val{t, []*Term{StrLit(constant.StringVal(c.Value))}}
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, ok := constant.Val(v).(*big.Int)
			if !ok {
				i, _ := constant.Int64Val(v)
				bi = big.NewInt(i)
			}
			return Val{t, []*Term{BigT(bi)}}
		case b.Info()&types.IsFloat != 0:
			if constant.Sign(c.Value) == 0 {
				return zeroVal(t)
			}
			return Val{t, []*Term{App("float:"+c.Value.ExactString(), SFloat)}}
		}
	}
	panic(unsup("constant %s", c))
}

// ---------- instructions ----------

func (x *Exec) instr(fr *frame, ins ssa.Instruction, st *State, g G) G {
	switch in := ins.(type) {
	case *ssa.DebugRef:
		if id := debugName(in); id != "" {
			if in.IsAddr {
				fr.addrs[id] = in.X
			} else {
				fr.names[id] = in.X
			}
		}
		return g
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		r := x.newRef()
		fr.env[in] = Val{in.Type(), []*Term{r}}
		x.allocT[r] = el
		p := x.place(r, in.Type())
		if _, ok := el.Underlying().(*types.Array); ok {
			// zero the elements
		}
		x.storePlace(st, p, zeroVal(el))
		if in.Comment != "" && in.Comment != "complit" && in.Comment != "varargs" && in.Comment != "new" {
			fr.addrs[in.Comment] = in
		}
		return g
	case *ssa.BinOp:
		fr.env[in] = x.binop(in, x.value(fr, in.X, st), x.value(fr, in.Y, st), g)
		return g
	case *ssa.UnOp:
		v := x.value(fr, in.X, st)
		switch in.Op {
		case token.MUL:
			if gl, ok := in.X.(*ssa.Global); ok {
				if v, ok := x.globalVal(gl, st); ok {
					fr.env[in] = v
					return g
				}
			}
			if x.spec == 0 {
				g = x.nilCheck(g, v.one(), "load", in)
			}
			g2, val := x.loadPtr(v, st, g)
			g = g2
			val.T = in.Type()
			fr.env[in] = val
		case token.NOT:
			fr.env[in] = Val{in.Type(), []*Term{Not(v.one())}}
		case token.SUB:
			if v.L[0].Sort == SFloat {
				fr.env[in] = Val{in.Type(), []*Term{App("float.neg", SFloat, v.L[0])}}
				return g
			}
			fr.env[in] = Val{in.Type(), []*Term{wrap(Neg(v.one()), in.Type())}}
		case token.XOR:
			t := v.one()
			lo, hi, _ := intRange(in.Type())
			if lo.Sign() == 0 {
				fr.env[in] = Val{in.Type(), []*Term{Sub(BigT(hi), t)}}
			} else {
				fr.env[in] = Val{in.Type(), []*Term{Sub(IntT(-1), t)}}
			}
		case token.ARROW:
			fr.env[in] = x.freshVal("recv", in.Type())
			x.trusted["channel receive yields an arbitrary value"] = true
		default:
			panic(unsup("unop %s", in.Op))
		}
		return g
	case *ssa.ChangeType:
		v := x.value(fr, in.X, st)
		fr.env[in] = x.retype(v, in.Type())
		return g
	case *ssa.ChangeInterface:
		v := x.value(fr, in.X, st)
		fr.env[in] = Val{in.Type(), v.L}
		return g
	case *ssa.Convert:
		fr.env[in] = x.convert(x.value(fr, in.X, st), in.Type(), st, in)
		return g
	case *ssa.MakeInterface:
		fr.env[in] = x.box(x.value(fr, in.X, st), in.X.Type(), in.Type())
		return g
	case *ssa.MakeClosure:
		var b []Val
		for _, bv := range in.Bindings {
			b = append(b, x.value(fr, bv, st))
		}
		fr.env[in] = x.fnVal(&Closure{Fn: in.Fn.(*ssa.Function), Bind: b}, in.Type())
		return g
	case *ssa.Extract:
		fr.env[in] = x.value(fr, in.Tuple, st).elem(in.Index)
		return g
	case *ssa.Field:
		fr.env[in] = x.value(fr, in.X, st).field(in.Field)
		return g
	case *ssa.FieldAddr:
		v := x.value(fr, in.X, st)
		g = x.nilCheck(g, v.one(), "field", in)
		fr.env[in] = Val{in.Type(), []*Term{x.fieldAddr(v, in.Field, in.X.Type())}}
		return g
	case *ssa.IndexAddr:
		v := x.value(fr, in.X, st)
		i := x.value(fr, in.Index, st).one()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			c := And(Le(IntT(0), i), Lt(i, v.len()))
			x.safety("index", g, c, in)
			fr.env[in] = Val{in.Type(), []*Term{x.placeTerm(&Place{Key: "E:" + typeKey(u.Elem()), Idx1: v.arr(), Idx2: Add(v.off(), i), T: u.Elem()})}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			c := And(Le(IntT(0), i), Lt(i, IntT(at.Len())))
			x.safety("index", g, c, in)
			p := x.place(v.one(), in.X.Type())
			if strings.HasPrefix(p.Key, "A:") && p.Path == "" {
				fr.env[in] = Val{in.Type(), []*Term{x.placeTerm(&Place{Key: "E:" + p.Key[2:], Idx1: p.Idx1, Idx2: i, T: at.Elem()})}}
			} else {
				fr.env[in] = Val{in.Type(), []*Term{x.placeTerm(&Place{Key: p.Key, Idx1: p.Idx1, Idx2: p.Idx2, Path: p.Path, Sub: i, T: at.Elem()})}}
			}
		default:
			panic(unsup("IndexAddr on %v", u))
		}
		return g
	case *ssa.Index:
		v := x.value(fr, in.X, st)
		i := x.value(fr, in.Index, st).one()
		if isString(in.X.Type()) {
			c := And(Le(IntT(0), i), Lt(i, StrLen(v.one())))
			x.safety("index", g, c, in)
			fr.env[in] = x.charVal(v.one(), i, in.Type())
			return g
		}
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			x.safety("index", g, And(Le(IntT(0), i), Lt(i, IntT(at.Len()))), in)
			r := Val{T: in.Type()}
			for _, l := range v.L {
				r.L = append(r.L, Select(l, i))
			}
			fr.env[in] = r
			return g
		}
		panic(unsup("Index on %v", in.X.Type()))
	case *ssa.Lookup:
		v := x.value(fr, in.X, st)
		k := x.value(fr, in.Index, st)
		if isString(in.X.Type()) {
			i := k.one()
			x.safety("index", g, And(Le(IntT(0), i), Lt(i, StrLen(v.one()))), in)
			fr.env[in] = x.charVal(v.one(), i, in.Type())
			return g
		}
		mt := in.X.Type().Underlying().(*types.Map)
		val, ok := x.mapGet(st, mt, v.one(), keyTerm(k))
		x.wellTyped(val)
		if in.CommaOk {
			fr.env[in] = Val{in.Type(), append(append([]*Term{}, val.L...), ok)}
		} else {
			fr.env[in] = Val{in.Type(), val.L}
		}
		return g
	case *ssa.MapUpdate:
		m := x.value(fr, in.Map, st)
		g = x.nilCheck(g, m.one(), "map", in)
		mt := in.Map.Type().Underlying().(*types.Map)
		x.mapSet(st, mt, m.one(), keyTerm(x.value(fr, in.Key, st)), x.value(fr, in.Value, st))
		return g
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := x.newRef()
		x.mapInit(st, mt, r)
		fr.env[in] = Val{in.Type(), []*Term{r}}
		return g
	case *ssa.MakeSlice:
		l := x.value(fr, in.Len, st).one()
		c := x.value(fr, in.Cap, st).one()
		x.safety("makeslice", g, And(Le(IntT(0), l), Le(l, c)), in)
		el := in.Type().Underlying().(*types.Slice).Elem()
		r := x.newRef()
		for _, lf := range leaves(el) {
			key := "E:" + typeKey(el) + lf.Path
			as := arrSort(SInt, lf.Sort)
			x.heapSet(st, key, Store(x.heapGet(st, key, as), r, ConstArr(as, zeroSort(lf.Sort))), r)
		}
		fr.env[in] = mkSlice(in.Type(), r, IntT(0), l, c)
		return g
	case *ssa.MakeChan:
		fr.env[in] = Val{in.Type(), []*Term{x.newRef()}}
		return g
	case *ssa.Slice:
		v, g2 := x.sliceOp(fr, in, st, g)
		fr.env[in] = v
		return g2
	case *ssa.Store:
		a := x.value(fr, in.Addr, st)
		v := x.value(fr, in.Val, st)
		g = x.nilCheck(g, a.one(), "store", in)
		x.storePtr(a, v, st, g)
		return g
	case *ssa.TypeAssert:
		v, ok := x.typeAssert(x.value(fr, in.X, st), in.AssertedType)
		if in.CommaOk {
			r := zeroVal(in.AssertedType)
			r = mergeVal(ok, v, r)
			fr.env[in] = Val{in.Type(), append(append([]*Term{}, r.L...), ok)}
		} else {
			x.safety("typeassert", g, ok, in)
			g = g.and(ok)
			fr.env[in] = v
		}
		return g
	case *ssa.Range:
		v := x.value(fr, in.X, st)
		r := x.newRef()
		it := &iterInfo{ref: r}
		if isString(in.X.Type()) {
			it.kind = "string"
			it.str = v.one()
			x.heapSet(st, "IT:pos", Store(x.heapGet(st, "IT:pos", SInt), r, IntT(0)), r)
		} else {
			it.kind = "map"
			it.mt = in.X.Type().Underlying().(*types.Map)
			it.m = v.one()
			ks := keySort(it.mt.Key())
			it.dom0 = x.mapDom(st, it.mt, it.m)
			as := arrSort(ks, SBool)
			key := "IT:vis:" + ks
			x.heapSet(st, key, Store(x.heapGet(st, key, as), r, ConstArr(as, False)), r)
		}
		x.iters[r] = it
		fr.env[in] = Val{types.Typ[types.UnsafePointer], []*Term{r}}
		return g
	case *ssa.Next:
		return x.next(fr, in, st, g)
	case *ssa.Call:
		v, st2, g2 := x.call(fr, in, &in.Call, st, g)
		st.heap = st2.heap
		v.T = in.Type()
		if tu, ok := in.Type().(*types.Tuple); ok && tu.Len() == 1 {
			v.T = tu.At(0).Type()
		}
		fr.env[in] = v
		return g2
	case *ssa.Go:
		x.trusted["goroutine bodies started with go are not executed in the proof"] = true
		return g
	case *ssa.Defer:
		d := deferRec{g: g, call: in.Call, in: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.value(fr, a, st))
		}
		if !in.Call.IsInvoke() {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = x.value(fr, in.Call.Value, st)
			}
		} else {
			d.fnv = x.value(fr, in.Call.Value, st)
		}
		fr.defers = append(fr.defers, d)
		return g
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			// executed only on paths on which the defer was reached
			common := true
			for k := range d.g {
				if k >= len(g) || g[k] != d.g[k] {
					common = false
					break
				}
			}
			if common {
				_, st2, g2 := x.callVals(fr, d.in, &d.call, d.fnv, d.args, st.clone(), g)
				st.heap = st2.heap
				g = g2
				continue
			}
			c := d.g.term()
			if And(append(append([]*Term{}, g...), c)...) == False {
				continue
			}
			_, st2, _ := x.callVals(fr, d.in, &d.call, d.fnv, d.args, st.clone(), g.and(c))
			st.heap = mergeState(x, c, st2, &State{heap: st.heap}).heap
		}
		return g
	case *ssa.Send:
		x.trusted["channel sends have no effect on tracked state"] = true
		return g
	case *ssa.Select:
		v := x.freshVal("select", in.Type())
		n := len(in.States)
		lo := 0
		if !in.Blocking {
			lo = -1
		}
		x.addAssume(And(Le(IntT(int64(lo)), v.L[0]), Lt(v.L[0], IntT(int64(n)))))
		x.trusted["select chooses an arbitrary ready case"] = true
		fr.env[in] = v
		return g
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	}
	panic(unsup("instruction %T", ins))
}

func debugName(d *ssa.DebugRef) string {
	if o := d.Object(); o != nil {
		return o.Name()
	}
	return ""
}

func (x *Exec) globalVal(g *ssa.Global, st *State) (Val, bool) {
	el := g.Type().Underlying().(*types.Pointer).Elem()
	if iv := x.pr.initVal(g); iv != nil {
		switch c := iv.(type) {
		case *ssa.Const:
			return x.constVal(c), true
		case *ssa.Convert:
			if k, ok := c.X.(*ssa.Const); ok {
				v := x.convert(x.constVal(k), el, st, nil)
				return v, true
			}
		case *ssa.Slice:
			if v, ok := x.globalComposite(g, c, st); ok {
				return v, true
			}
		case *ssa.MakeMap:
			if v, ok := x.globalMap(g, c, st); ok {
				return v, true
			}
		}
	}
	return Val{}, false
}

// globalComposite evaluates a slice literal initialiser of constants.
func (x *Exec) globalComposite(g *ssa.Global, s *ssa.Slice, st *State) (Val, bool) {
	al, ok := s.X.(*ssa.Alloc)
	if !ok || s.Low != nil || s.High != nil {
		return Val{}, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return Val{}, false
	}
	if nleaves(at.Elem()) != 1 {
		return Val{}, false
	}
	lf := leaves(at.Elem())[0]
	as := arrSort(SInt, lf.Sort)
	content := ConstArr(as, zeroSort(lf.Sort))
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if r == ssa.Instruction(s) {
				continue
			}
			return Val{}, false
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return Val{}, false
		}
		for _, rr := range *ia.Referrers() {
			if sto, ok := rr.(*ssa.Store); ok {
				k, ok := sto.Val.(*ssa.Const)
				if !ok {
					return Val{}, false
				}
				content = Store(content, x.constVal(ic).one(), x.constVal(k).one())
			}
		}
	}
	r := x.newRef()
	key := "E:" + typeKey(at.Elem()) + lf.Path
	st.heap[key] = Store(x.heapGet(st, key, as), r, content)
	x.trusted["package variable "+g.Name()+" keeps its initial contents"] = true
	return mkSlice(s.Type(), r, IntT(0), IntT(at.Len()), IntT(at.Len())), true
}

func (x *Exec) globalMap(g *ssa.Global, mm *ssa.MakeMap, st *State) (Val, bool) {
	mt := mm.Type().Underlying().(*types.Map)
	if nleaves(mt.Key()) != 1 {
		return Val{}, false
	}
	var ups []*ssa.MapUpdate
	for _, r := range *mm.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			if _, ok := u.Key.(*ssa.Const); !ok {
				return Val{}, false
			}
			if _, ok := u.Value.(*ssa.Const); !ok {
				return Val{}, false
			}
			ups = append(ups, u)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return Val{}, false
		}
	}
	r := x.newRef()
	x.mapInit(st, mt, r)
	for _, u := range ups {
		x.mapSet(st, mt, r, x.constVal(u.Key.(*ssa.Const)).one(), x.constVal(u.Value.(*ssa.Const)))
	}
	x.trusted["package variable "+g.Name()+" keeps its initial contents"] = true
	return Val{mm.Type(), []*Term{r}}, true
}

func (x *Exec) loadPtr(ptr Val, st *State, g G) (G, Val) {
	t := ptr.one()
	if t.Op == "ite" && (hasPlace(t.Args[1]) || hasPlace(t.Args[2])) {
		_, a := x.loadPtr(Val{ptr.T, []*Term{t.Args[1]}}, st, g)
		_, b := x.loadPtr(Val{ptr.T, []*Term{t.Args[2]}}, st, g)
		return g, mergeVal(t.Args[0], a, b)
	}
	if isInt(t) && t.I.Sign() == 0 {
		// nil load: dead path
		return g.and(False), zeroVal(ptr.T.Underlying().(*types.Pointer).Elem())
	}
	return g, x.loadPlace(st, x.place(t, ptr.T))
}

func hasPlace(t *Term) bool {
	return t.Op == "place" || t.Op == "ite" && (hasPlace(t.Args[1]) || hasPlace(t.Args[2]))
}

func (x *Exec) storePtr(ptr Val, v Val, st *State, g G) {
	t := ptr.one()
	if t.Op == "ite" && (hasPlace(t.Args[1]) || hasPlace(t.Args[2])) {
		s1, s2 := st.clone(), st.clone()
		x.storePtr(Val{ptr.T, []*Term{t.Args[1]}}, v, s1, g)
		x.storePtr(Val{ptr.T, []*Term{t.Args[2]}}, v, s2, g)
		st.heap = mergeState(x, t.Args[0], s1, s2).heap
		return
	}
	if isInt(t) && t.I.Sign() == 0 {
		return
	}
	x.storePlace(st, x.place(t, ptr.T), v)
}

func (x *Exec) fieldAddr(ptr Val, i int, pt types.Type) *Term {
	t := ptr.one()
	if t.Op == "ite" && (hasPlace(t.Args[1]) || hasPlace(t.Args[2])) {
		return Ite(t.Args[0], x.fieldAddr(Val{ptr.T, []*Term{t.Args[1]}}, i, pt), x.fieldAddr(Val{ptr.T, []*Term{t.Args[2]}}, i, pt))
	}
	p := x.place(t, pt)
	if p.View != "" {
		return x.fieldAddrView(p, i)
	}
	f := p.T.Underlying().(*types.Struct).Field(i)
	return x.placeTerm(&Place{Key: p.Key, Idx1: p.Idx1, Idx2: p.Idx2, Sub: p.Sub, Path: p.Path + "." + f.Name(), T: f.Type()})
}

func (x *Exec) retype(v Val, t types.Type) Val {
	// pointer conversions between struct types keep the reference; field heaps are
	// per type, so only identical layouts at identical key are allowed.
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		op, ok2 := v.T.Underlying().(*types.Pointer)
		if ok2 && typeKey(pt.Elem()) != typeKey(op.Elem()) {
			panic(unsup("pointer conversion %v -> %v", v.T, t))
		}
	}
	return Val{t, v.L}
}

func (x *Exec) charVal(s, i *Term, t types.Type) Val {
	c := StrAt(s, i)
	if !c.hasB && !isLit(c) {
		x.addAssume(Implies(And(Le(IntT(0), i), Lt(i, StrLen(s))), And(Le(IntT(0), c), Le(c, IntT(255)))))
	}
	return Val{t, []*Term{c}}
}

func wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return t // mathematical
	}
	return wrapHard(t, ty)
}

func wrapHard(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	n := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
	if isInt(t) && t.I.Cmp(lo) >= 0 && t.I.Cmp(hi) <= 0 {
		return t
	}
	if lo.Sign() == 0 {
		return EMod(t, BigT(n))
	}
	// signed: ((t - lo) mod n) + lo
	return Add(EMod(Sub(t, BigT(lo)), BigT(n)), BigT(lo))
}

func (x *Exec) binop(in *ssa.BinOp, a, b Val, g G) Val {
	t := in.Type()
	rb := func(c *Term) Val { return Val{t, []*Term{c}} }
	xt := in.X.Type().Underlying()
	switch in.Op {
	case token.EQL, token.NEQ:
		var c *Term
		if isIface(in.X.Type()) != isIface(in.Y.Type()) {
			// comparing interface with concrete
			if isIface(in.X.Type()) {
				b = x.box(b, in.Y.Type(), in.X.Type())
			} else {
				a = x.box(a, in.X.Type(), in.Y.Type())
			}
		}
		c = valEq(a, b)
		if isIface(in.X.Type()) && isIface(in.Y.Type()) {
			for i, v := range []Val{a, b} {
				if isInt(v.L[0]) && v.L[0].I.Sign() == 0 {
					c = Eq([]Val{b, a}[i].L[0], IntT(0)) // nil has no dynamic type
				}
			}
		}
		if in.Op == token.NEQ {
			c = Not(c)
		}
		return rb(c)
	}
	if bt, ok := xt.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			return rb(StrCat(a.one(), b.one()))
		case token.LSS:
			return rb(StrLt(a.one(), b.one()))
		case token.GTR:
			return rb(StrLt(b.one(), a.one()))
		case token.LEQ:
			return rb(Not(StrLt(b.one(), a.one())))
		case token.GEQ:
			return rb(Not(StrLt(a.one(), b.one())))
		}
	}
	if a.L[0].Sort == SFloat {
		switch in.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return rb(App("float"+in.Op.String(), SBool, a.one(), b.one()))
		}
		return rb(App("float"+in.Op.String(), SFloat, a.one(), b.one()))
	}
	p, q := a.one(), b.one()
	switch in.Op {
	case token.ADD:
		return rb(wrap(Add(p, q), t))
	case token.SUB:
		return rb(wrap(Sub(p, q), t))
	case token.MUL:
		return rb(wrap(Mul(p, q), t))
	case token.QUO:
		x.safety("divzero", g, Not(Eq(q, IntT(0))), in)
		// truncated division
		return rb(tdiv(p, q))
	case token.REM:
		x.safety("divzero", g, Not(Eq(q, IntT(0))), in)
		return rb(Sub(p, Mul(q, tdiv(p, q))))
	case token.LSS:
		return rb(Lt(p, q))
	case token.LEQ:
		return rb(Le(p, q))
	case token.GTR:
		return rb(Gt(p, q))
	case token.GEQ:
		return rb(Ge(p, q))
	case token.SHL:
		if isInt(q) && q.I.IsInt64() && q.I.Int64() < 200 {
			return rb(wrapHard(Mul(BigT(new(big.Int).Lsh(one, uint(q.I.Int64()))), p), t))
		}
		return rb(x.uf("bv.shl", t, p, q))
	case token.SHR:
		if isInt(q) && q.I.IsInt64() && q.I.Int64() < 200 {
			return rb(EDiv(p, BigT(new(big.Int).Lsh(one, uint(q.I.Int64())))))
		}
		return rb(x.uf("bv.shr", t, p, q))
	case token.AND:
		for _, pq := range [][2]*Term{{p, q}, {q, p}} {
			if isInt(pq[1]) && pq[1].I.Sign() >= 0 {
				m := new(big.Int).Add(pq[1].I, one)
				if isPow2(m) {
					return rb(EMod(pq[0], BigT(m)))
				}
				if isPow2(pq[1].I) { // single bit
					return rb(Mul(BigT(pq[1].I), EMod(EDiv(pq[0], BigT(pq[1].I)), IntT(2))))
				}
			}
		}
		return rb(x.uf("bv.and", t, p, q))
	case token.OR:
		for _, pq := range [][2]*Term{{p, q}, {q, p}} {
			if isInt(pq[1]) && pq[1].I.Sign() == 0 {
				return rb(pq[0])
			}
			if isInt(pq[1]) && isPow2(pq[1].I) {
				bit := EMod(EDiv(pq[0], BigT(pq[1].I)), IntT(2))
				return rb(Ite(Eq(bit, IntT(1)), pq[0], Add(pq[0], pq[1])))
			}
		}
		return rb(x.uf("bv.or", t, p, q))
	case token.XOR:
		return rb(x.uf("bv.xor", t, p, q))
	case token.AND_NOT:
		return rb(x.uf("bv.andnot", t, p, q))
	}
	panic(unsup("binop %s", in.Op))
}

func isPow2(n *big.Int) bool {
	return n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, one)).Sign() == 0
}

func (x *Exec) uf(name string, t types.Type, args ...*Term) *Term {
	r := App(name, SInt, args...)
	if lo, hi, ok := intRange(t); ok && !r.hasB {
		x.addAssume(And(Le(BigT(lo), r), Le(r, BigT(hi))))
	}
	return r
}

func tdiv(p, q *Term) *Term {
	if isInt(q) && q.I.Sign() > 0 {
		if nonNeg(p) {
			return EDiv(p, q)
		}
		return Ite(Ge(p, IntT(0)), EDiv(p, q), Neg(EDiv(Neg(p), q)))
	}
	return Ite(Ge(p, IntT(0)), Ite(Gt(q, IntT(0)), EDiv(p, q), Neg(EDiv(p, Neg(q)))),
		Ite(Gt(q, IntT(0)), Neg(EDiv(Neg(p), q)), EDiv(Neg(p), Neg(q))))
}

// ---------- interfaces ----------

func (x *Exec) box(v Val, from, to types.Type) Val {
	if isIface(from) {
		return Val{to, v.L}
	}
	tag := IntT(x.pr.typeID(from))
	return Val{to, []*Term{tag, x.payload(v, from)}}
}

func (x *Exec) payload(v Val, from types.Type) *Term {
	ls := leaves(from)
	if len(ls) == 1 && ls[0].Kind == 'r' {
		return v.L[0]
	}
	if len(ls) == 0 {
		return IntT(0)
	}
	n := "box!" + typeKey(from)
	b := App(n, SInt, v.L...)
	if !b.hasB {
		for i, l := range ls {
			x.addAssume(Eq(App(fmt.Sprintf("unbox!%s!%d", typeKey(from), i), l.Sort, b), v.L[i]))
		}
		setUB(b, 0)
	}
	return b
}

func (x *Exec) unbox(v Val, t types.Type) Val {
	ls := leaves(t)
	pay := v.L[1]
	if len(ls) == 1 && ls[0].Kind == 'r' {
		return Val{t, []*Term{pay}}
	}
	if len(ls) == 0 {
		return Val{T: t}
	}
	if pay.Op == "ite" {
		return mergeVal(pay.Args[0], x.unbox(Val{v.T, []*Term{v.L[0], pay.Args[1]}}, t), x.unbox(Val{v.T, []*Term{v.L[0], pay.Args[2]}}, t))
	}
	if pay.Op == "app" && pay.Name == "box!"+typeKey(t) {
		return Val{t, pay.Args}
	}
	r := Val{T: t}
	for i, l := range ls {
		r.L = append(r.L, App(fmt.Sprintf("unbox!%s!%d", typeKey(t), i), l.Sort, pay))
	}
	x.wellTyped(r)
	return r
}

func (x *Exec) typeAssert(v Val, t types.Type) (Val, *Term) {
	if isIface(t) {
		return Val{t, v.L}, x.implements(v.L[0], t)
	}
	return x.unbox(v, t), Eq(v.L[0], IntT(x.pr.typeID(t)))
}

func (x *Exec) implements(tag *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if isInt(tag) {
		id := tag.I.Int64()
		if id == 0 {
			return False
		}
		ct := x.pr.typeOfID[id]
		return BoolT(types.Implements(ct, it))
	}
	if tag.Op == "ite" {
		return Ite(tag.Args[0], x.implements(tag.Args[1], t), x.implements(tag.Args[2], t))
	}
	if it.NumMethods() == 0 {
		return Not(Eq(tag, IntT(0)))
	}
	return And(Not(Eq(tag, IntT(0))), App("implements!"+typeKey(t), SBool, tag))
}

// ---------- maps ----------

func mapKeyPrefix(mt *types.Map) string { return "M:" + typeKey(mt) }

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	ks := keySort(mt.Key())
	return Select(x.heapGet(st, mapKeyPrefix(mt)+"#dom", arrSort(ks, SBool)), m)
}
func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	ks := keySort(mt.Key())
	ok := And(Not(Eq(m, IntT(0))), Select(x.mapDom(st, mt, m), k))
	v := Val{T: mt.Elem()}
	for _, l := range leaves(mt.Elem()) {
		h := x.heapGet(st, mapKeyPrefix(mt)+l.Path, arrSort(ks, l.Sort))
		v.L = append(v.L, Select(Select(h, m), k))
	}
	z := zeroVal(mt.Elem())
	return mergeVal(ok, v, z), ok
}
func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	l := Select(x.heapGet(st, mapKeyPrefix(mt)+"#len", SInt), m)
	if !l.hasB {
		x.addAssume(Le(IntT(0), l))
	}
	return Ite(Eq(m, IntT(0)), IntT(0), l)
}
func (x *Exec) mapSet(st *State, mt *types.Map, m, k *Term, v Val) {
	ks := keySort(mt.Key())
	pre := mapKeyPrefix(mt)
	dh := x.heapGet(st, pre+"#dom", arrSort(ks, SBool))
	old := Select(Select(dh, m), k)
	lh := x.heapGet(st, pre+"#len", SInt)
	x.heapSet(st, pre+"#len", Store(lh, m, Ite(old, Select(lh, m), Add(Select(lh, m), IntT(1)))), m)
	x.heapSet(st, pre+"#dom", Store(dh, m, Store(Select(dh, m), k, True)), m)
	for i, l := range leaves(mt.Elem()) {
		h := x.heapGet(st, pre+l.Path, arrSort(ks, l.Sort))
		x.heapSet(st, pre+l.Path, Store(h, m, Store(Select(h, m), k, v.L[i])), m)
	}
}
func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	ks := keySort(mt.Key())
	pre := mapKeyPrefix(mt)
	dh := x.heapGet(st, pre+"#dom", arrSort(ks, SBool))
	old := Select(Select(dh, m), k)
	lh := x.heapGet(st, pre+"#len", SInt)
	x.heapSet(st, pre+"#len", Store(lh, m, Ite(old, Sub(Select(lh, m), IntT(1)), Select(lh, m))), m)
	x.heapSet(st, pre+"#dom", Store(dh, m, Store(Select(dh, m), k, False)), m)
}
func (x *Exec) mapInit(st *State, mt *types.Map, r *Term) {
	ks := keySort(mt.Key())
	pre := mapKeyPrefix(mt)
	as := arrSort(ks, SBool)
	x.heapSet(st, pre+"#dom", Store(x.heapGet(st, pre+"#dom", as), r, ConstArr(as, False)), r)
	x.heapSet(st, pre+"#len", Store(x.heapGet(st, pre+"#len", SInt), r, IntT(0)), r)
}

func (x *Exec) next(fr *frame, in *ssa.Next, st *State, g G) G {
	r := x.value(fr, in.Iter, st).one()
	it := x.iters[r]
	if it == nil {
		panic(unsup("unknown iterator"))
	}
	tu := in.Type().(*types.Tuple)
	ok := x.fresh("next.ok", SBool)
	if it.kind == "string" {
		ph := x.heapGet(st, "IT:pos", SInt)
		pos := Select(ph, r)
		n := StrLen(it.str)
		x.addAssume(Implies(g.term(), Le(IntT(0), pos)))
		okT := Lt(pos, n)
		rn, sz := x.runeAtStr(it.str, pos)
		x.heapSet(st, "IT:pos", Store(ph, r, Ite(okT, Add(pos, sz), pos)), r)
		fr.env[in] = Val{in.Type(), []*Term{okT, pos, rn}}
		return g
	}
	_ = tu
	ks := keySort(it.mt.Key())
	vk := "IT:vis:" + ks
	vh := x.heapGet(st, vk, arrSort(ks, SBool))
	vis := Select(vh, r)
	k := x.fresh("next.key", ks)
	kv := unkey(it.mt.Key(), k)
	x.wellTyped(kv)
	dom := x.mapDom(st, it.mt, it.m)
	x.assumeG(g.and(ok), And(Not(Eq(it.m, IntT(0))), Select(dom, k), Not(Select(vis, k))))
	bv := BVar(fmt.Sprintf("k!%d", gvar), ks)
	x.assumeG(g.and(Not(ok)), Or(Eq(it.m, IntT(0)), Forall([]*Term{bv}, Implies(And(Select(dom, bv), Select(it.dom0, bv)), Select(vis, bv)))))
	x.heapSet(st, vk, Store(vh, r, Ite(ok, Store(vis, k, True), vis)), r)
	out := Val{T: in.Type(), L: []*Term{ok}}
	if tt, isT := tu.At(1).Type().(*types.Basic); isT && tt.Kind() == types.Invalid {
		out.T = types.NewTuple(tu.At(0), types.NewVar(0, nil, "k", types.NewTuple()), tu.At(2))
	} else {
		out.L = append(out.L, kv.L...)
	}
	if tt, isT := tu.At(2).Type().(*types.Basic); isT && tt.Kind() == types.Invalid {
		vs := []*types.Var{tu.At(0), tu.At(1), types.NewVar(0, nil, "v", types.NewTuple())}
		if len(out.L) == 1 {
			vs[1] = types.NewVar(0, nil, "k", types.NewTuple())
		}
		out.T = types.NewTuple(vs...)
	} else {
		v, _ := x.mapGet(st, it.mt, it.m, k)
		x.wellTyped(v)
		out.L = append(out.L, v.L...)
	}
	fr.env[in] = out
	return g
}

// ---------- slices ----------

func (x *Exec) sliceOp(fr *frame, in *ssa.Slice, st *State, g G) (Val, G) {
	v := x.value(fr, in.X, st)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.value(fr, e, st).one()
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = IntT(0)
	}
	if isString(in.X.Type()) {
		n := StrLen(v.one())
		if hi == nil {
			hi = n
		}
		x.safety("slice", g, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), in)
		return Val{in.Type(), []*Term{SubStr(v.one(), lo, hi)}}, g
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if hi == nil {
			hi = v.len()
		}
		cp := v.cap()
		m := cp
		if mx != nil {
			m = mx
		}
		c := And(Le(IntT(0), lo), Le(lo, hi), Le(hi, m))
		if mx != nil {
			c = And(c, Le(m, cp))
		}
		x.safety("slice", g, c, in)
		return mkSlice(in.Type(), v.arr(), Add(v.off(), lo), Sub(hi, lo), Sub(m, lo)), g
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := IntT(at.Len())
		if hi == nil {
			hi = n
		}
		m := n
		if mx != nil {
			m = mx
		}
		x.safety("slice", g, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, m), Le(m, n)), in)
		p := x.place(v.one(), in.X.Type())
		if !strings.HasPrefix(p.Key, "A:") || p.Path != "" {
			panic(unsup("slicing interior array"))
		}
		return mkSlice(in.Type(), p.Idx1, lo, Sub(hi, lo), Sub(m, lo)), g
	}
	panic(unsup("slice of %v", in.X.Type()))
}

// appendSlice implements append(s, t...). t is a slice or string value.
func (x *Exec) appendSlice(s, t Val, st *State, g G) Val {
	el := s.T.Underlying().(*types.Slice).Elem()
	var n *Term
	isStr := isString(t.T)
	if isStr {
		n = StrLen(t.one())
	} else {
		n = t.len()
	}
	newLen := Add(s.len(), n)
	if isInt(n) && n.I.Sign() == 0 {
		return s
	}
	fits := Le(newLen, s.cap())
	r := x.newRef()
	arr := Ite(fits, s.arr(), r)
	ncap := x.fresh("cap", SInt)
	x.addAssume(Le(newLen, ncap))
	cp := Ite(fits, s.cap(), ncap)
	start := Add(s.off(), s.len())
	for _, l := range leaves(el) {
		key := "E:" + typeKey(el) + l.Path
		as := arrSort(SInt, l.Sort)
		h := x.heapGet(st, key, as)
		old := Select(h, s.arr())
		var content *Term
		if isInt(n) && n.I.Int64() <= 16 {
			content = old
			for i := int64(0); i < n.I.Int64(); i++ {
				var e *Term
				if isStr {
					e = StrAt(t.one(), IntT(i))
				} else {
					e = Select(Select(h, t.arr()), Add(t.off(), IntT(i)))
				}
				content = Store(content, Add(start, IntT(i)), e)
			}
		} else {
			var src, soff *Term
			if isStr {
				src, soff = x.bytesOf(t.one()), IntT(0)
			} else {
				src, soff = Select(h, t.arr()), t.off()
			}
			content = x.splice(old, start, src, soff, n)
		}
		hs := x.heapGet(st, key, as)
		if fits == False {
			x.heapSet(st, key, Store(hs, r, content), r)
		} else {
			x.heapSet(st, key, Store(hs, arr, content), arr)
		}
	}
	return mkSlice(s.T, arr, s.off(), newLen, cp)
}

// splice is the array old with [start,start+n) replaced by src[soff..soff+n).
func (x *Exec) splice(old, start, src, soff, n *Term) *Term {
	t := App("splice!"+old.Sort, old.Sort, old, start, src, soff, n)
	if !t.hasB {
		i := BVar("i", SInt)
		sel := Select(t, i)
		x.addAssume(Forall([]*Term{i}, Eq(sel, Ite(And(Le(start, i), Lt(i, Add(start, n))), mk("select", "", sel.Sort, nil, src, Add(soff, Sub(i, start))), mk("select", "", sel.Sort, nil, old, i))), []*Term{sel}))
	}
	return t
}

// bytesOf is the byte array of a string.
func (x *Exec) bytesOf(s *Term) *Term {
	t := App("bytesOf", arrSort(SInt, SInt), s)
	if !t.hasB && !x.assumeSet[App("bytesOf.done", SBool, s)] {
		x.mark(App("bytesOf.done", SBool, s))
		i := BVar("i", SInt)
		sel := Select(t, i)
		x.addAssume(Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, StrLen(s))), And(Eq(sel, StrAt(s, i)), Le(IntT(0), sel), Le(sel, IntT(255)))), []*Term{sel}))
		// string(bytesOf(s)[0:len]) = s
		x.addAssume(Eq(App("mkstr", SStr, t, IntT(0), StrLen(s)), s))
		if s.Op == "strlit" {
			for k := 0; k < len(s.Name) && k < 64; k++ {
				x.addAssume(Eq(Select(t, IntT(int64(k))), IntT(int64(s.Name[k]))))
			}
		}
	}
	return t
}

// mkstr is the string with bytes arr[off..off+n).
func (x *Exec) mkstr(arr, off, n *Term) *Term {
	if arr.Op == "app" && arr.Name == "bytesOf" && isInt(off) && off.I.Sign() == 0 && n == StrLen(arr.Args[0]) {
		return arr.Args[0]
	}
	if isInt(n) && n.I.Sign() == 0 {
		return StrLit("")
	}
	t := App("mkstr", SStr, arr, off, n)
	if !t.hasB && !x.assumeSet[App("mkstr.done", SBool, t)] {
		x.mark(App("mkstr.done", SBool, t))
		x.addAssume(Implies(Le(IntT(0), n), Eq(StrLen(t), n)))
		i := BVar("i", SInt)
		c := StrAt(t, i)
		x.addAssume(Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, n)), Eq(c, Select(arr, Add(off, i)))), []*Term{c}))
	}
	return t
}

// strExt adds an extensionality instance for two strings.
func (x *Exec) strExt(a, b *Term) {
	if a == b || a.hasB || b.hasB {
		return
	}
	k := App("strdiff", SInt, a, b)
	x.addAssume(Or(Eq(a, b), Not(Eq(StrLen(a), StrLen(b))), And(Le(IntT(0), k), Lt(k, StrLen(a)), Not(Eq(StrAt(a, k), StrAt(b, k))))))
}

func (x *Exec) convert(v Val, t types.Type, st *State, in ssa.Instruction) Val {
	from := v.T.Underlying()
	to := t.Underlying()
	if fb, ok := from.(*types.Basic); ok {
		if tb, ok := to.(*types.Basic); ok {
			switch {
			case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
				return Val{t, v.L}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				fl, fh, ok1 := intRange(v.T)
				tl, th, ok2 := intRange(t)
				if ok1 && ok2 && tl.Cmp(fl) <= 0 && th.Cmp(fh) >= 0 {
					return Val{t, v.L}
				}
				return Val{t, []*Term{wrapHard(v.one(), t)}}
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
				return Val{t, v.L}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
				return Val{t, []*Term{App("int2float", SFloat, v.one())}}
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				return Val{t, []*Term{x.uf2("float2int", t, v.one())}}
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return Val{t, v.L}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				return Val{t, []*Term{x.runeStr(v.one())}}
			}
		}
	}
	if isString(v.T) && isByteSlice(t) {
		r := x.newRef()
		key := "E:" + typeKey(to.(*types.Slice).Elem())
		as := arrSort(SInt, SInt)
		x.heapSet(st, key, Store(x.heapGet(st, key, as), r, x.bytesOf(v.one())), r)
		n := StrLen(v.one())
		cp := x.fresh("cap", SInt)
		x.addAssume(Le(n, cp))
		return mkSlice(t, r, IntT(0), n, cp)
	}
	if isByteSlice(v.T) && isString(t) {
		key := "E:" + typeKey(from.(*types.Slice).Elem())
		h := x.heapGet(st, key, arrSort(SInt, SInt))
		return Val{t, []*Term{x.mkstr(Select(h, v.arr()), v.off(), v.len())}}
	}
	if isString(v.T) && isSlice(t) { // []rune
		r := x.newRef()
		el := to.(*types.Slice).Elem()
		key := "E:" + typeKey(el)
		as := arrSort(SInt, SInt)
		x.heapSet(st, key, Store(x.heapGet(st, key, as), r, App("runesOf", as, v.one())), r)
		n := App("runeCount", SInt, v.one())
		x.addAssume(And(Le(IntT(0), n), Le(n, StrLen(v.one())), Eq(Eq(n, IntT(0)), Eq(StrLen(v.one()), IntT(0)))))
		return mkSlice(t, r, IntT(0), n, n)
	}
	if isSlice(v.T) && isString(t) { // []rune -> string
		key := "E:" + typeKey(from.(*types.Slice).Elem())
		h := x.heapGet(st, key, arrSort(SInt, SInt))
		return Val{t, []*Term{App("runesToStr", SStr, Select(h, v.arr()), v.off(), v.len())}}
	}
	if _, ok := to.(*types.Pointer); ok {
		if fb, ok := from.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return x.unsafeView(v, t)
		}
	}
	if tb, ok := to.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return Val{t, v.L}
	}
	panic(unsup("convert %v -> %v", v.T, t))
}

func (x *Exec) uf2(name string, t types.Type, a *Term) *Term {
	r := App(name, SInt, a)
	if lo, hi, ok := intRange(t); ok && !r.hasB {
		x.addAssume(And(Le(BigT(lo), r), Le(r, BigT(hi))))
	}
	return r
}

// runeStr is string(rune).
func (x *Exec) runeStr(r *Term) *Term {
	if isInt(r) && r.I.IsInt64() {
		return StrLit(string(rune(r.I.Int64())))
	}
	t := App("runeStr", SStr, r)
	if !t.hasB {
		x.addAssume(And(Le(IntT(1), StrLen(t)), Le(StrLen(t), IntT(4))))
		x.addAssume(Implies(And(Le(IntT(0), r), Lt(r, IntT(128))), And(Eq(StrLen(t), IntT(1)), Eq(StrAt(t, IntT(0)), r))))
	}
	return t
}

// ---------- unsafe views (storage/encoding.go idioms) ----------

func (x *Exec) unsafeView(v Val, t types.Type) Val {
	el := t.Underlying().(*types.Pointer).Elem()
	p, ok := x.places[v.one()]
	if !ok {
		// plain reference to an allocated variable: find its place by registered alloc
		if a, ok2 := x.allocType(v.one()); ok2 {
			p = a
		} else {
			panic(unsup("unsafe pointer of unknown provenance"))
		}
	}
	if typeKey(el) == "reflect.SliceHeader" && isSlice(p.T) {
		return Val{t, []*Term{x.placeTerm(&Place{Key: p.Key, Idx1: p.Idx1, Idx2: p.Idx2, Path: p.Path, T: el, View: "slicehdr", Of: p})}}
	}
	if b, ok := el.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if pb, ok := p.T.Underlying().(*types.Basic); ok && pb.Kind() == types.Uint8 && p.Idx2 != nil {
			return Val{t, []*Term{x.placeTerm(&Place{Key: p.Key, Idx1: p.Idx1, Idx2: p.Idx2, Path: p.Path, T: el, View: "asint", Of: p})}}
		}
	}
	panic(unsup("unsafe conversion to %v of %v", t, p.T))
}

func (x *Exec) allocType(t *Term) (*Place, bool) {
	el, ok := x.allocT[t]
	if !ok {
		return nil, false
	}
	return x.place(t, types.NewPointer(el)), true
}

func (x *Exec) fieldAddrView(p *Place, i int) *Term {
	if p.View == "slicehdr" {
		f := p.T.Underlying().(*types.Struct).Field(i)
		return x.placeTerm(&Place{Key: p.Key, Idx1: p.Idx1, Idx2: p.Idx2, Path: p.Path + "." + f.Name(), T: f.Type(), View: "hdr." + f.Name(), Of: p.Of})
	}
	panic(unsup("field of unsafe view"))
}

func intWidth(t types.Type) int64 {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	}
	return 8
}

// leBytes returns the byte array (little endian, two's complement) of v.
func (x *Exec) leBytes(v *Term, w int64) []*Term {
	var out []*Term
	q := v
	for i := int64(0); i < w; i++ {
		out = append(out, EMod(q, IntT(256)))
		q = EDiv(q, IntT(256))
	}
	return out
}

func (x *Exec) loadView(st *State, p *Place) Val {
	switch p.View {
	case "asint":
		w := intWidth(p.T)
		h := Select(x.heapGet(st, p.Key+p.Path, arrSort(SInt, SInt)), p.Idx1)
		sum := IntT(0)
		for i := int64(0); i < w; i++ {
			b := Select(h, Add(p.Idx2, IntT(i)))
			if !isLit(b) && !b.hasB {
				x.addAssume(And(Le(IntT(0), b), Le(b, IntT(255))))
			}
			sum = Add(sum, Mul(BigT(new(big.Int).Lsh(one, uint(8*i))), b))
		}
		lo, _, _ := intRange(p.T)
		if lo.Sign() < 0 {
			half := new(big.Int).Lsh(one, uint(8*w-1))
			full := new(big.Int).Lsh(one, uint(8*w))
			sum = Ite(Ge(sum, BigT(half)), Sub(sum, BigT(full)), sum)
		}
		x.trusted["unsafe reinterpretation is little-endian and in bounds of the viewed bytes"] = true
		return Val{p.T, []*Term{sum}}
	}
	panic(unsup("load from view %s", p.View))
}

func (x *Exec) storeView(st *State, p *Place, v Val) {
	sl := p.Of
	ls := leaves(sl.T)
	switch p.View {
	case "hdr.Len":
		x.storeLeaf(st, sl, ls[2], v.one())
	case "hdr.Cap":
		x.storeLeaf(st, sl, ls[3], v.one())
	case "hdr.Data":
		// v is an address: build the byte view of the variable it points to
		a := v.one()
		r := x.newRef()
		src, ok := x.places[a]
		var val *Term
		var t types.Type
		if ok {
			vv := x.loadPlace(st, src)
			val, t = vv.one(), src.T
		} else if tt, ok := x.allocT[a]; ok {
			vv := x.loadPlace(st, x.place(a, types.NewPointer(tt)))
			val, t = vv.one(), tt
		} else {
			panic(unsup("slice header data of unknown provenance"))
		}
		key := "E:" + typeKey(sl.T.Underlying().(*types.Slice).Elem())
		as := arrSort(SInt, SInt)
		content := ConstArr(as, IntT(0))
		for i, b := range x.leBytes(val, intWidth(t)) {
			content = Store(content, IntT(int64(i)), b)
		}
		x.heapSet(st, key, Store(x.heapGet(st, key, as), r, content), r)
		x.storeLeaf(st, sl, ls[0], r)
		x.storeLeaf(st, sl, ls[1], IntT(0))
		x.trusted["unsafe reinterpretation is little-endian and in bounds of the viewed bytes"] = true
	default:
		panic(unsup("store to view %s", p.View))
	}
}

// ---------- loops ----------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  int
}
type loopInfo struct {
	order    []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
	loops    []*loop
}

var loopCache = map[*ssa.Function]*loopInfo{}

func findLoops(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.byHeader[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = lp
					li.loops = append(li.loops, lp)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if lp.blocks[x] {
						return
					}
					lp.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	// loop ordinals by source position of the header's first positioned instruction
	pos := func(lp *loop) token.Pos {
		best := token.Pos(1 << 40)
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && p < best {
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(li.loops, func(i, j int) bool {
		a, b := li.loops[i], li.loops[j]
		pa, pb := pos(a), pos(b)
		if pa != pb {
			return pa < pb
		}
		return len(a.blocks) > len(b.blocks)
	})
	for i, l := range li.loops {
		l.order = i
	}
	// topological order ignoring back edges
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if lp := li.byHeader[s]; lp != nil && lp.blocks[b] {
				continue
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order = append(li.order, post[i])
	}
	loopCache[fn] = li
	return li
}

type loopRun struct {
	spec        *ContractFn
	name        string
	entry       map[*ssa.Phi]Val
	head        map[*ssa.Phi]Val
	g0          G
	dec0, dec0b *Term
	autoA       []autoInv
	n           int
	preEnv      map[string]Val
	preSt       *State
	headSt      *State
	autoF       []string
	pos         string

	counters []*ssa.Phi
}

type autoInv struct {
	phi  *ssa.Phi
	leaf int
	f    func(t *Term) *Term
	name string
}

const jump = int64(1) << 40

func dbg(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
