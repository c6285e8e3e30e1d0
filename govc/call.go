package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *frame, ins ssa.Instruction, c *ssa.CallCommon, st *State, g G) (Val, *State, G) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(fr, a, st))
	}
	var fnv Val
	if c.IsInvoke() {
		fnv = x.value(fr, c.Value, st)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = x.value(fr, c.Value, st)
	}
	return x.callVals(fr, ins, c, fnv, args, st, g)
}

func resType(sig *types.Signature) types.Type {
	return sig.Results()
}

func (x *Exec) callVals(fr *frame, ins ssa.Instruction, c *ssa.CallCommon, fnv Val, args []Val, st *State, g G) (Val, *State, G) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(fr, ins, b, c, args, st, g)
	}
	// a contract frame's target call
	if fr.ctx != nil && !fr.ctx.done && ssa.Instruction(fr.ctx.call) == ins {
		return x.targetCall(fr, ins, c, fnv, args, st, g)
	}
	if c.IsInvoke() {
		return x.invoke(fr, ins, c, fnv, args, st, g)
	}
	return x.callFn(fr, ins, fnv.one(), c.Signature(), args, st, g)
}

func (x *Exec) callFn(fr *frame, ins ssa.Instruction, f *Term, sig *types.Signature, args []Val, st *State, g G) (Val, *State, G) {
	if f.Op == "ite" {
		g1, g2 := g.and(f.Args[0]), g.and(Not(f.Args[0]))
		if g1.dead() {
			return x.callFn(fr, ins, f.Args[2], sig, args, st, g)
		}
		if g2.dead() {
			return x.callFn(fr, ins, f.Args[1], sig, args, st, g)
		}
		v1, s1, h1 := x.callFn(fr, ins, f.Args[1], sig, args, st.clone(), g1)
		v2, s2, h2 := x.callFn(fr, ins, f.Args[2], sig, args, st.clone(), g2)
		mg, conds := mergeG([]G{h1, h2})
		return mergeVal(conds[0], v1, v2), mergeState(x, conds[0], s1, s2), mg
	}
	if cl, ok := x.closures[f]; ok {
		return x.callStatic(fr, ins, cl.Fn, cl.Bind, args, st, g)
	}
	if isInt(f) && f.I.Sign() == 0 {
		x.safety("nilfunc", g, False, ins)
		return zeroVal(sig.Results()), st, g.and(False)
	}
	x.trusted["unknown function value: result arbitrary, tracked state unchanged"] = true
	return x.freshVal("dyn", sig.Results()), st, g
}

// invoke calls an interface method.
func (x *Exec) invoke(fr *frame, ins ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, st *State, g G) (Val, *State, G) {
	tag := recv.L[0]
	if tag.Op == "ite" {
		mk2 := func(i int) Val {
			p := recv.L[1]
			if p.Op == "ite" && p.Args[0] == tag.Args[0] {
				p = p.Args[i]
			}
			return Val{recv.T, []*Term{tag.Args[i], p}}
		}
		g1, g2 := g.and(tag.Args[0]), g.and(Not(tag.Args[0]))
		if g1.dead() {
			return x.invoke(fr, ins, c, mk2(2), args, st, g)
		}
		if g2.dead() {
			return x.invoke(fr, ins, c, mk2(1), args, st, g)
		}
		v1, s1, h1 := x.invoke(fr, ins, c, mk2(1), args, st.clone(), g1)
		v2, s2, h2 := x.invoke(fr, ins, c, mk2(2), args, st.clone(), g2)
		mg, conds := mergeG([]G{h1, h2})
		return mergeVal(conds[0], v1, v2), mergeState(x, conds[0], s1, s2), mg
	}
	if isInt(tag) {
		if tag.I.Sign() == 0 {
			x.safety("nilinvoke", g, False, ins)
			return zeroVal(c.Signature().Results()), st, g.and(False)
		}
		ct := x.pr.typeOfID[tag.I.Int64()]
		sel := x.pr.prog.MethodSets.MethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			panic(unsup("no method %s on %v", c.Method.Name(), ct))
		}
		fn := x.pr.prog.MethodValue(sel)
		rv := x.unbox(recv, ct)
		return x.callStatic(fr, ins, fn, nil, append([]Val{rv}, args...), st, g)
	}
	if x.spec == 0 {
		g = x.nilCheck(g, tag, "invoke", ins)
	}
	key := ifaceMethodKey(*c)
	if con, ok := x.pr.ifaceCon[key]; ok {
		return x.useContract(con, append([]Val{recv}, args...), st, g, ins)
	}
	if v, s2, g2, ok := x.ifaceModel(fr, ins, c, key, recv, args, st, g); ok {
		return v, s2, g2
	}
	// pure observer: a function of the receiver (deterministic only if marked)
	if x.opts["pureiface"] == "all" || x.pr.pureIface[key] {
		v := Val{T: c.Signature().Results()}
		for i, l := range leaves(v.T) {
			as := append([]*Term{recv.L[0], recv.L[1]}, flat(args)...)
			v.L = append(v.L, App(fmt.Sprintf("im!%s!%d", key, i), l.Sort, as...))
		}
		x.wellTyped(v)
		x.trusted["interface method "+key+" is a pure observer"] = true
		return v, st, g
	}
	x.trusted["interface method "+key+": result arbitrary, tracked state unchanged"] = true
	return x.freshVal("inv."+c.Method.Name(), c.Signature().Results()), st, g
}

func flat(vs []Val) []*Term {
	var out []*Term
	for _, v := range vs {
		out = append(out, v.L...)
	}
	return out
}

// contractOf: the contract of fn for a call in fr: the one that the caller's own package gives
// for a function of another package, otherwise the one of fn's own package.
func (x *Exec) contractOf(fr *frame, fn *ssa.Function) *ContractFn {
	if fr != nil && fr.fn != nil {
		if con := x.pr.foreign[fr.fn.Pkg][fn]; con != nil {
			return con
		}
	}
	return x.pr.byTarget[fn]
}

func (x *Exec) callStatic(fr *frame, ins ssa.Instruction, fn *ssa.Function, bind []Val, args []Val, st *State, g G) (Val, *State, G) {
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	if strings.HasPrefix(name, "vc") && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if v, s2, g2, ok := x.intrinsic(fr, ins, name, fn, args, st, g); ok {
			return v, s2, g2
		}
	}
	full := fn.String()
	if lm := x.pr.lemmaOf[fn]; lm != nil {
		g = x.useLemma(lm, args, st, g)
		return Val{T: types.NewTuple()}, st, g
	}
	if x.pr.rec[fn] {
		return x.recCall(fn, args, st, g)
	}
	// method wrappers / bound methods
	if con := x.contractOf(fr, fn); con != nil && !x.inlineForced(fn) {
		// while verifying fn itself the outermost call is inlined by targetCall; any
		// other call, including recursion, uses the contract.
		return x.useContract(con, append(append([]Val{}, args...), nil...), st, g, ins)
	}
	if v, s2, g2, ok := x.model(fr, ins, fn, full, args, st, g); ok {
		return v, s2, g2
	}
	if fn.Blocks == nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		fn.Pkg.Build()
	}
	if fn.Blocks != nil && (inModule(fn) || fn.Synthetic != "") {
		for _, s := range x.stack {
			if s == fn {
				panic(unsup("recursive function %s needs a contract", full))
			}
		}
		if x.spec == 0 {
			x.inlined[shortFn(fn)] = true
		}
		v, s2, g2 := x.runFn(fn, args, bind, st, g, nil)
		return v, s2, g2
	}
	x.trusted["external function "+full+": result arbitrary, tracked state unchanged"] = true
	return x.freshVal("ext."+fn.Name(), fn.Signature.Results()), st, g
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (x *Exec) inlineForced(fn *ssa.Function) bool {
	v := x.opts["inline"]
	if v == "" {
		return false
	}
	k := fnKey(fn)
	for _, n := range strings.Split(v, ",") {
		if n == k || n == "all" {
			return true
		}
	}
	return false
}

// ---------- contracts ----------

// paramIndex resolves an argument expression of the target call to a contract parameter.
func paramIndex(c *ContractFn, v ssa.Value) int {
	for i, p := range c.Fn.Params {
		if v == ssa.Value(p) {
			return i
		}
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		if a, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if i := paramIndex(c, s.Val); i >= 0 {
						return i
					}
				}
			}
		}
	case *ssa.ChangeType:
		return paramIndex(c, u.X)
	}
	return -1
}

// useContract applies a callee contract at a call site.
func (x *Exec) useContract(con *ContractFn, args []Val, st *State, g G, ins ssa.Instruction) (Val, *State, G) {
	call, target := x.pr.findTargetCall(con)
	if call == nil {
		panic(unsup("contract %s does not call its target", con.Name))
	}
	for _, s := range x.cstack {
		if s.mode == "use" && s.c == con {
			panic(unsup("contract %s used inside itself", con.Name))
		}
	}
	x.used[con.Name] = true
	cargs := make([]Val, len(con.Fn.Params))
	var actual []ssa.Value
	if call.Call.IsInvoke() {
		actual = append(actual, call.Call.Value)
	}
	actual = append(actual, call.Call.Args...)
	set := map[int]bool{}
	for i, a := range actual {
		k := paramIndex(con, a)
		if k < 0 {
			panic(unsup("contract %s: argument %d of the target call is not a parameter", con.Name, i))
		}
		cargs[k] = args[i]
		set[k] = true
	}
	for i := range cargs {
		if !set[i] {
			// a ghost parameter: the contract holds for every value of it
			cargs[i] = x.freshVal("ghost."+con.Fn.Params[i].Name(), con.Fn.Params[i].Type())
		}
	}
	ctx := &cctx{c: con, mode: "use", call: call, target: target, args: args}
	x.cstack = append(x.cstack, ctx)
	sp := x.spec
	x.spec++
	_, s2, g2 := x.runFn(con.Fn, cargs, nil, st.clone(), g, ctx)
	x.spec = sp
	x.cstack = x.cstack[:len(x.cstack)-1]
	if !ctx.done {
		panic(unsup("contract %s: target call not reached", con.Name))
	}
	_ = g2
	return *ctx.resultVal, &State{heap: s2.heap}, g
}

// useLemma obliges a lemma's preconditions and assumes its conclusions.
func (x *Exec) useLemma(c *ContractFn, args []Val, st *State, g G) G {
	if x.quant > 0 {
		panic(unsup("lemma %s used under a quantifier", c.Name))
	}
	if top := x.ctxTop(); top != nil && (top.mode == "uselemma" || top.mode == "use") {
		return g // part of the lemma's own proof
	}
	rec := false
	for _, s := range x.cstack {
		if s.mode == "verify" {
			if s.c == c {
				rec = true
			} else if s.c.Kind == "lemma" && !(c.Fn.Pos() < s.c.Fn.Pos() && c.Decl.Pos() < s.c.Decl.Pos()) {
				panic(unsup("lemma %s used by the earlier lemma %s", c.Name, s.c.Name))
			}
		}
	}
	x.used[c.Name] = true
	ctx := &cctx{c: c, mode: "uselemma", done: true}
	ctx.pre = st
	ctx.preCtr = x.ctr
	x.cstack = append(x.cstack, ctx)
	sp := x.spec
	x.spec++
	x.runFn(c.Fn, args, nil, st.clone(), g, ctx)
	x.spec = sp
	x.cstack = x.cstack[:len(x.cstack)-1]
	if rec && !ctx.decOK {
		panic(unsup("recursive lemma %s without vcDecreases", c.Name))
	}
	return g
}

// targetCall handles the call of the target inside its contract function.
func (x *Exec) targetCall(fr *frame, ins ssa.Instruction, c *ssa.CallCommon, fnv Val, args []Val, st *State, g G) (Val, *State, G) {
	ctx := fr.ctx
	ctx.done = true
	if ctx.mode == "use" {
		ctx.pre = st.clone()
		ctx.preCtr = x.ctr
		x.ctr += jump
		st = st.clone()
		for _, m := range ctx.mods {
			x.havoc(st, m)
		}
		if ctx.modAll {
			panic(unsup("contract %s: vcModifiesAll cannot be used at a call site", ctx.c.Name))
		}
		v := x.freshVal("ret."+ctx.c.Target, c.Signature().Results())
		ctx.resultVal = &v
		ctx.postCtr = x.ctr
		return v, st, g
	}
	// verify
	sp := x.spec
	x.spec = 0
	if ctx.c.Opts["covers"] != "off" {
		x.cover("cover:pre", g, ctx.c.Pos)
	}
	ctx.pre = st.clone()
	ctx.preCtr = x.ctr
	x.nopanic = ctx.c.Opts["panics"] != "allowed"
	var v Val
	var s2 *State
	var g2 G
	if c.IsInvoke() {
		panic(unsup("cannot verify an interface method contract: use 'trusted'"))
	}
	var wl []writeRec
	x.writes = append(x.writes, &wl)
	v, s2, g2 = x.runFn(ctx.target, args, nil, st.clone(), g, nil)
	x.writes = x.writes[:len(x.writes)-1]
	ctx.resultVal = &v
	x.frameCheck(ctx, s2, g2, wl)
	if ctx.c.Opts["covers"] != "off" {
		x.cover("cover:post", g2, ctx.c.Pos)
	}
	x.spec = sp
	return v, s2, g2
}

func (x *Exec) havoc(st *State, m modItem) {
	if m.pref {
		found := false
		for k := range st.heap {
			if strings.HasPrefix(k, m.key) {
				x.havoc(st, modItem{key: k, base: m.base, idx2: m.idx2})
				found = true
			}
		}
		for k := range x.keySorts {
			if strings.HasPrefix(k, m.key) {
				if _, ok := st.heap[k]; !ok {
					x.havoc(st, modItem{key: k, base: m.base, idx2: m.idx2})
				}
			}
		}
		_ = found
		return
	}
	srt, ok := x.keySorts[m.key]
	if !ok {
		if t, ok2 := st.heap[m.key]; ok2 {
			srt = t.Sort
		} else {
			panic("havoc: unknown key " + m.key)
		}
	}
	_, el := splitArr(srt)
	h := x.heapGet(st, m.key, el)
	if m.base == nil && m.any == nil {
		n := x.fresh("H:"+m.key, srt)
		x.born[n] = x.ctr
		x.heapSet(st, m.key, n, nil)
		return
	}
	if m.any != nil {
		n := x.fresh("H:"+m.key, srt)
		x.born[n] = x.ctr
		r := BVar("r", SInt)
		sel := mk("select", "", el, nil, n, r)
		x.addAssume(Forall([]*Term{r}, Implies(And(Le(r, IntT(x.ctr-jump)), Not(m.any(r))), Eq(sel, Select(h, r))), []*Term{sel}))
		x.heapSet(st, m.key, n, nil)
		return
	}
	f := x.fresh("hv:"+m.key, el)
	if el == SInt {
		// may be a reference: bounded by current counter is only known through refBound
		x.hvBorn[f] = x.ctr
	}
	if strings.HasPrefix(el, "(Array") {
		x.born[f] = x.ctr
	}
	if m.idx2 != nil {
		_, e2 := splitArr(el)
		f2 := x.fresh("hv:"+m.key, e2)
		x.heapSet(st, m.key, Store(h, m.base, Store(Select(h, m.base), m.idx2, f2)), m.base)
		return
	}
	x.heapSet(st, m.key, Store(h, m.base, f), m.base)
}

// frameCheck obliges that only declared locations of pre-existing objects changed.
func (x *Exec) frameCheck(ctx *cctx, s2 *State, g G, wl []writeRec) {
	if x.dry > 0 || ctx.c.Opts["frame"] == "off" || ctx.modAll {
		return
	}
	for k, v := range s2.heap {
		_ = v
		if strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "ghost:") {
			continue
		}
		_, el := splitArr(v.Sort)
		old := x.heapGet(ctx.pre, k, el)
		if old == v {
			continue
		}
		// all writes syntactically to fresh refs?
		allFresh := true
		var bases []*Term
		seen := map[*Term]bool{}
		for _, w := range wl {
			if w.key != k {
				continue
			}
			if w.base == nil {
				allFresh = false
				continue
			}
			if isInt(w.base) && w.base.I.Int64() > ctx.preCtr {
				continue
			}
			allFresh = false
			if !seen[w.base] {
				seen[w.base] = true
				bases = append(bases, w.base)
			}
		}
		if allFresh {
			continue
		}
		fc := x.frameCond(ctx, k, el)
		if fc == nil {
			continue
		}
		r := x.fresh("frame.r", SInt)
		setUB(r, ctx.preCtr)
		j := x.fresh("frame.j", SInt)
		goal := fc(old, v, r, j)
		sp := x.spec
		x.spec = 0
		x.oblige("frame:"+k, g, goal, ctx.c.Pos)
		x.spec = sp
	}
}

// frameCond builds the frame condition of a heap key: cells of objects that existed
// before the call and are not declared modified keep their value. nil: no condition.
func (x *Exec) frameCond(ctx *cctx, k, el string) func(old, v, r, j *Term) *Term {
	var ex []*Term
	var partial []modItem
	var anys []func(*Term) *Term
	for _, m := range ctx.mods {
		if m.key == k || m.pref && strings.HasPrefix(k, m.key) {
			if m.any != nil {
				anys = append(anys, m.any)
			} else if m.base == nil {
				return nil
			} else if m.idx2 != nil {
				partial = append(partial, m)
			} else {
				ex = append(ex, m.base)
			}
		}
	}
	return func(old, v, r, j *Term) *Term {
		hyp := []*Term{Le(r, IntT(ctx.preCtr)), Not(Eq(r, IntT(0)))}
		for _, e := range ex {
			hyp = append(hyp, Not(Eq(r, e)))
		}
		for _, a := range anys {
			hyp = append(hyp, Not(a(r)))
		}
		goal := Eq(Select(v, r), Select(old, r))
		if strings.HasPrefix(el, "(Array") && (len(partial) > 0 || strings.HasPrefix(k, "E:")) {
			for _, m := range partial {
				hyp = append(hyp, Or(Not(Eq(r, m.base)), Not(Eq(j, m.idx2))))
			}
			goal = Eq(Select(Select(v, r), j), Select(Select(old, r), j))
		}
		return Implies(And(hyp...), goal)
	}
}

// verifyCtx is the contract being verified, if its frame is checked.
func (x *Exec) verifyCtx() *cctx {
	if len(x.cstack) == 0 {
		return nil
	}
	c := x.cstack[0]
	if c.mode != "verify" || c.c.Kind == "lemma" || !c.done || c.modAll || c.c.Opts["frame"] == "off" || len(x.cstack) > 1 {
		return nil
	}
	return c
}

// frameOblige checks the frame condition of key k at a loop entry or back edge.
func (x *Exec) frameOblige(what, name, k string, st *State, g G) {
	ctx := x.verifyCtx()
	if ctx == nil || x.dry > 0 {
		return
	}
	_, el := splitArr(x.sortOfKey(st, k))
	fc := x.frameCond(ctx, k, el)
	old, v := x.heapGet(ctx.pre, k, el), x.heapGet(st, k, el)
	if fc == nil || old == v {
		return
	}
	r, j := x.fresh("frame.r", SInt), x.fresh("frame.j", SInt)
	setUB(r, ctx.preCtr)
	sp := x.spec
	x.spec = 0
	x.oblige(what+":"+name+":frame "+k, g, fc(old, v, r, j), ctx.c.Pos)
	x.spec = sp
}

// modTarget turns an argument of vcModifies into havoc items.
func (x *Exec) modTarget(v Val, orig types.Type) []modItem {
	switch u := orig.Underlying().(type) {
	case *types.Pointer:
		p := x.place(v.one(), orig)
		var out []modItem
		for _, l := range leaves(p.T) {
			key := p.Key + p.Path + l.Path
			if strings.HasPrefix(p.Key, "A:") {
				key = "E:" + p.Key[2:] + strings.TrimPrefix(l.Path, "[]")
				_, es := splitArr(l.Sort)
				x.keySorts[key] = arrSort(SInt, arrSort(SInt, es))
				out = append(out, modItem{key: key, base: p.Idx1})
				continue
			}
			if p.Idx2 != nil {
				x.keySorts[key] = arrSort(SInt, arrSort(SInt, l.Sort))
			} else {
				x.keySorts[key] = arrSort(SInt, l.Sort)
			}
			out = append(out, modItem{key: key, base: p.Idx1, idx2: p.Idx2})
		}
		return out
	case *types.Slice:
		var out []modItem
		for _, l := range leaves(u.Elem()) {
			key := "E:" + typeKey(u.Elem()) + l.Path
			x.keySorts[key] = arrSort(SInt, arrSort(SInt, l.Sort))
			out = append(out, modItem{key: key, base: v.arr()})
		}
		return out
	case *types.Map:
		pre := mapKeyPrefix(u)
		ks := keySort(u.Key())
		var out []modItem
		x.keySorts[pre+"#dom"] = arrSort(SInt, arrSort(ks, SBool))
		x.keySorts[pre+"#len"] = arrSort(SInt, SInt)
		out = append(out, modItem{key: pre + "#dom", base: v.one()}, modItem{key: pre + "#len", base: v.one()})
		for _, l := range leaves(u.Elem()) {
			x.keySorts[pre+l.Path] = arrSort(SInt, arrSort(ks, l.Sort))
			out = append(out, modItem{key: pre + l.Path, base: v.one()})
		}
		return out
	}
	panic(unsup("vcModifies of %v", orig))
}

// ---------- recursion ----------

func (x *Exec) recCall(fn *ssa.Function, args []Val, st *State, g G) (Val, *State, G) {
	// flatten: slices become (contents, off, len)
	var as []*Term
	for _, a := range args {
		as = append(as, x.recArg(a, st)...)
	}
	res := fn.Signature.Results()
	v := Val{T: res}
	for i, l := range leaves(res) {
		v.L = append(v.L, App(fmt.Sprintf("rec!%s!%d", fn.Name(), i), l.Sort, as...))
	}
	x.recFns[fmt.Sprintf("rec!%s!0", fn.Name())] = fn
	has := false
	for _, l := range v.L {
		if l.hasB {
			has = true
		}
	}
	if !has {
		x.unfold(fn, as, v)
	}
	return v, st, g
}

func (x *Exec) recArg(a Val, st *State) []*Term {
	if isSlice(a.T) {
		el := a.T.Underlying().(*types.Slice).Elem()
		var as []*Term
		for _, l := range leaves(el) {
			h := x.heapGet(st, "E:"+typeKey(el)+l.Path, arrSort(SInt, l.Sort))
			as = append(as, Select(h, a.arr()))
		}
		return append(as, a.off(), a.len())
	}
	return a.L
}

func (x *Exec) unfold(fn *ssa.Function, as []*Term, v Val) {
	if len(v.L) == 0 {
		return
	}
	key := v.L[0]
	if d, ok := x.recMemo[key]; ok && d <= x.recDepth {
		return
	}
	if x.recDepth >= x.recMax || listed(x.opts["opaque"], fn.Name()) {
		return
	}
	x.recMemo[key] = x.recDepth
	x.memoJournal = append(x.memoJournal, key)
	x.recDepth++
	sp, q := x.spec, x.quant
	x.spec++
	x.quant = 0
	bv := x.evalRec(fn, as)
	x.spec, x.quant = sp, q
	x.recDepth--
	for i := range v.L {
		x.addAssume(Eq(v.L[i], bv.L[i]))
	}
	if bv.L == nil {
		panic("rec")
	}
}

func listed(l, n string) bool {
	for _, s := range strings.Split(l, "+") {
		if s == n {
			return true
		}
	}
	return false
}

// evalRec evaluates the body of a recursive spec function.
func (x *Exec) evalRec(fn *ssa.Function, as []*Term) Val {
	st := &State{heap: map[string]*Term{}}
	var args []Val
	k := 0
	for _, p := range fn.Params {
		t := p.Type()
		if isSlice(t) {
			el := t.Underlying().(*types.Slice).Elem()
			r := x.newRef()
			for _, l := range leaves(el) {
				key := "E:" + typeKey(el) + l.Path
				h, ok := st.heap[key]
				if !ok {
					h = x.heapGet(st, key, arrSort(SInt, l.Sort))
				}
				st.heap[key] = Store(h, r, as[k])
				k++
			}
			args = append(args, mkSlice(t, r, as[k], as[k+1], as[k+1]))
			k += 2
		} else {
			n := nleaves(t)
			args = append(args, Val{t, as[k : k+n]})
			k += n
		}
	}
	v, _, _ := x.runFn(fn, args, nil, st, G{}, nil)
	return v
}

// ---------- intrinsics ----------

func (x *Exec) ctxTop() *cctx {
	if len(x.cstack) == 0 {
		return nil
	}
	return x.cstack[len(x.cstack)-1]
}

func (x *Exec) force(f func()) {
	sp := x.spec
	if x.quant == 0 {
		x.spec = 0
	}
	f()
	x.spec = sp
}

func strLit(v Val) string {
	t := v.one()
	if t.Op == "strlit" {
		return t.Name
	}
	return "?"
}

func (x *Exec) intrinsic(fr *frame, ins ssa.Instruction, name string, fn *ssa.Function, args []Val, st *State, g G) (Val, *State, G, bool) {
	void := Val{T: types.NewTuple()}
	ctx := x.ctxTop()
	pos := x.posOf(ins)
	switch name {
	case "vcRequires":
		c := args[0].one()
		if ctx != nil && ctx.mode == "uselemma" {
			x.force(func() { x.oblige("lemma-pre:"+ctx.c.Name, g, c, pos) })
		} else if ctx != nil && ctx.mode == "use" {
			x.force(func() { x.oblige("pre:"+ctx.c.Target, g, c, pos) })
		} else {
			x.assumeG(g, c)
		}
		return void, st, g, true
	case "vcAssume":
		x.trusted["assumption in "+fr.fn.Name()+" at "+pos] = true
		x.assumeG(g, args[0].one())
		return void, st, g, true
	case "vcEnsures", "vcAssert":
		c := args[1].one()
		if ctx != nil && ctx.mode == "uselemma" {
			if name == "vcEnsures" {
				x.assumeTagged(g, c, strLit(args[0]))
			}
		} else if ctx != nil && ctx.mode == "use" {
			if name == "vcEnsures" {
				x.assumeTagged(g, c, strLit(args[0]))
			} else if !ctx.done {
				x.force(func() { x.oblige("assert:"+strLit(args[0]), g, c, pos) })
			}
		} else {
			kind := "post:"
			if name == "vcAssert" {
				kind = "assert:"
			}
			x.force(func() { x.oblige(kind+strLit(args[0]), g, c, pos) })
		}
		return void, st, g, true
	case "vcGuarantee":
		// Ensures that is only proved, not exported to callers.
		if ctx == nil || ctx.mode != "use" {
			x.force(func() { x.oblige("post:"+strLit(args[0]), g, args[1].one(), pos) })
		}
		return void, st, g, true
	case "vcInv":
		lc := x.loopctx[len(x.loopctx)-1]
		c := args[1].one()
		nm := lc.name + ":" + strLit(args[0])
		switch lc.mode {
		case "entry":
			x.force(func() { x.oblige("inv-entry:"+nm, g, c, pos) })
		case "back":
			x.force(func() { x.oblige("inv-kept:"+nm, g, c, pos) })
		case "assume":
			x.assumeTagged(g, c, nm)
		}
		return void, st, g, true
	case "vcStep", "vcAtExit":
		lc := x.loopctx[len(x.loopctx)-1]
		want, kind := "back", "step:"
		if name == "vcAtExit" {
			want, kind = "exit", "loop-exit:"
		}
		if lc.mode == want {
			x.force(func() { x.oblige(kind+lc.name+":"+strLit(args[0]), g, args[1].one(), pos) })
		}
		return void, st, g, true
	case "vcAtHead", "vcAtPre":
		lc := x.loopctx[len(x.loopctx)-1]
		then := lc.head
		if name == "vcAtPre" {
			then = lc.pre
		}
		cl := x.closures[args[0].one()]
		if cl == nil {
			panic(unsup("vcAtHead needs a function literal"))
		}
		if then == nil {
			v, _, _ := x.runFn(cl.Fn, nil, cl.Bind, st.clone(), g, nil)
			return Val{fn.Signature.Results().At(0).Type(), v.L}, st, g, true
		}
		hs := then.clone()
		for i, b := range cl.Bind {
			pt := cl.Fn.FreeVars[i].Type()
			x.storePlace(hs, x.place(b.one(), pt), x.loadPlace(st, x.place(b.one(), pt)))
		}
		v, s2, _ := x.runFn(cl.Fn, nil, cl.Bind, hs, g, nil)
		rt := fn.Signature.Results().At(0).Type()
		v = Val{rt, v.L}
		if isSlice(rt) {
			// keep the contents it had at the loop head
			r := x.newRef()
			ns := st.clone()
			for _, l := range leaves(rt.Underlying().(*types.Slice).Elem()) {
				key := "E:" + typeKey(rt.Underlying().(*types.Slice).Elem()) + l.Path
				old := Select(x.heapGet(s2, key, arrSort(SInt, l.Sort)), v.arr())
				ns.heap[key] = Store(x.heapGet(ns, key, arrSort(SInt, l.Sort)), r, old)
				x.keySorts[key] = ns.heap[key].Sort
			}
			return mkSlice(rt, r, v.off(), v.len(), v.cap()), ns, g, true
		}
		return v, st, g, true
	case "vcDecreases2":
		if len(x.loopctx) > 0 {
			lc := x.loopctx[len(x.loopctx)-1]
			lc.dec, lc.dec2 = args[0].one(), args[1].one()
		}
		return void, st, g, true
	case "vcDecreases":
		if ctx != nil && ctx.mode == "uselemma" {
			for i := len(x.cstack) - 2; i >= 0; i-- {
				c2 := x.cstack[i]
				if c2.mode == "verify" && c2.c == ctx.c {
					if c2.dec == nil {
						panic(unsup("recursive lemma %s without vcDecreases", ctx.c.Name))
					}
					x.force(func() {
						x.oblige("decreases:"+ctx.c.Name, g, And(Le(IntT(0), c2.dec), Lt(args[0].one(), c2.dec)), pos)
					})
					ctx.decOK = true
				}
			}
			return void, st, g, true
		}
		if len(x.loopctx) > 0 && (ctx == nil || fr.ctx != ctx) {
			x.loopctx[len(x.loopctx)-1].dec = args[0].one()
			return void, st, g, true
		}
		if ctx != nil {
			if ctx.mode == "verify" {
				ctx.dec = args[0].one()
			} else {
				for i := len(x.cstack) - 2; i >= 0; i-- {
					c2 := x.cstack[i]
					if c2.mode == "verify" && c2.dec != nil {
						x.force(func() {
							x.oblige("decreases:"+ctx.c.Target, g, And(Le(IntT(0), c2.dec), Lt(args[0].one(), c2.dec)), pos)
						})
						break
					}
				}
			}
		}
		return void, st, g, true
	case "vcModifies":
		if ctx == nil {
			return void, st, g, true
		}
		for _, a := range variadic(x, args[0], st) {
			t := x.boxedType(a)
			if t == nil {
				panic(unsup("vcModifies argument"))
			}
			ctx.mods = append(ctx.mods, x.modTarget(x.unbox(a, t), t)...)
		}
		return void, st, g, true
	case "vcModifiesEvery":
		// vcModifiesEvery(&x.f): field f of any object of that type
		if ctx == nil {
			return void, st, g, true
		}
		for _, a := range variadic(x, args[0], st) {
			t := x.boxedType(a)
			if t == nil {
				panic(unsup("vcModifiesEvery argument"))
			}
			for _, m := range x.modTarget(x.unbox(a, t), t) {
				ctx.mods = append(ctx.mods, modItem{key: m.key})
			}
		}
		return void, st, g, true
	case "vcModifiesValues":
		// vcModifiesValues(m): the maps that are values of m
		if ctx == nil {
			return void, st, g, true
		}
		mt := args[0].T.Underlying().(*types.Map)
		vt := mt.Elem()
		m0, dom := args[0].one(), x.mapDom(st, mt, args[0].one())
		ks := keySort(mt.Key())
		vals := Select(x.heapGet(st, mapKeyPrefix(mt)+leaves(vt)[0].Path, arrSort(ks, SInt)), m0)
		for _, it := range x.modTarget(Val{vt, []*Term{IntT(0)}}, vt) {
			it.base = nil
			it.any = func(r *Term) *Term {
				gvar++
				k := BVar(fmt.Sprintf("q!%d", gvar), ks)
				return And(Not(Eq(m0, IntT(0))), Exists([]*Term{k}, And(Select(dom, k), Eq(Select(vals, k), r))))
			}
			ctx.mods = append(ctx.mods, it)
		}
		return void, st, g, true
	case "vcModifiesAll":
		if ctx != nil {
			ctx.modAll = true
		}
		return void, st, g, true
	case "vcModifiesKey":
		if ctx != nil {
			key := strLit(args[0])
			if !strings.HasPrefix(key, "ghost:") {
				panic(unsup("vcModifiesKey: only ghost state has a key"))
			}
			// known even if nothing was written there yet
			x.keySorts[key] = arrSort(SInt, SInt)
			ctx.mods = append(ctx.mods, modItem{key: key, pref: true})
		}
		return void, st, g, true
	case "vcForall", "vcExists":
		lo, hi := args[0].one(), args[1].one()
		cl := x.closures[args[2].one()]
		if cl == nil {
			panic(unsup("vcForall needs a function literal"))
		}
		gvar++
		i := BVar(fmt.Sprintf("q!%d", gvar), SInt)
		b := x.quantBody(cl, []Val{{cl.Fn.Params[0].Type(), []*Term{i}}}, st)
		rng := And(Le(lo, i), Lt(i, hi))
		var r *Term
		if name == "vcForall" {
			r = Forall([]*Term{i}, Implies(rng, b))
		} else {
			r = Exists([]*Term{i}, And(rng, b))
		}
		return Val{types.Typ[types.Bool], []*Term{r}}, st, g, true
	case "vcForallBy":
		// vcForallBy(name, lo, hi, body, proof): prove body for an arbitrary index with the
		// help of proof, then use it for all
		if ctx != nil && (ctx.mode == "use" || ctx.mode == "uselemma") {
			return void, st, g, true
		}
		lo, hi := args[1].one(), args[2].one()
		bc, pc := x.closures[args[3].one()], x.closures[args[4].one()]
		if bc == nil || pc == nil {
			panic(unsup("vcForallBy needs function literals"))
		}
		i := x.fresh("by", SInt)
		iv := Val{types.Typ[types.Int], []*Term{i}}
		g2 := g.and(And(Le(lo, i), Lt(i, hi)))
		sn, nm := len(x.assume), len(x.memoJournal)
		_, _ = sn, nm
		x.runFn(pc.Fn, []Val{iv}, pc.Bind, st.clone(), g2, nil)
		bv, _, _ := x.runFn(bc.Fn, []Val{iv}, bc.Bind, st.clone(), g2, nil)
		x.force(func() { x.oblige("assert:"+strLit(args[0]), g2, bv.one(), pos) })
		gvar++
		q := BVar(fmt.Sprintf("q!%d", gvar), SInt)
		b := x.quantBody(bc, []Val{{types.Typ[types.Int], []*Term{q}}}, st)
		x.assumeG(g, Forall([]*Term{q}, Implies(And(Le(lo, q), Lt(q, hi)), b)))
		return void, st, g, true
	case "vcForallKey", "vcExistsKey":
		// quantifies over all keys of the map's key type: vcForallKey(m, func(k K) bool)
		cl := x.closures[args[1].one()]
		if cl == nil {
			panic(unsup("vcForallKey needs a function literal"))
		}
		gvar++
		kt := cl.Fn.Params[0].Type()
		k := BVar(fmt.Sprintf("q!%d", gvar), keySort(kt))
		b := x.quantBody(cl, []Val{unkey(kt, k)}, st)
		r := Forall([]*Term{k}, b)
		if name == "vcExistsKey" {
			r = Exists([]*Term{k}, b)
		}
		return Val{types.Typ[types.Bool], []*Term{r}}, st, g, true
	case "vcSnap":
		// ghost copy of a slice's contents
		s := args[0]
		el := s.T.Underlying().(*types.Slice).Elem()
		r := x.newRef()
		ns := st.clone()
		for _, l := range leaves(el) {
			key := "E:" + typeKey(el) + l.Path
			h := x.heapGet(ns, key, arrSort(SInt, l.Sort))
			ns.heap[key] = Store(h, r, Select(h, s.arr()))
			x.keySorts[key] = h.Sort
		}
		return mkSlice(s.T, r, s.off(), s.len(), s.len()), ns, g, true
	case "vcSnapMap":
		m := args[0]
		mt := m.T.Underlying().(*types.Map)
		r := x.newRef()
		ns := st.clone()
		ks := keySort(mt.Key())
		pre := mapKeyPrefix(mt)
		cp := func(key, el string) {
			h := x.heapGet(ns, key, el)
			ns.heap[key] = Store(h, r, Select(h, m.one()))
			x.keySorts[key] = h.Sort
		}
		// snapshot of a nil map is an empty map
		x.mapNilEmpty(ns, mt, m.one())
		cp(pre+"#dom", arrSort(ks, SBool))
		cp(pre+"#len", SInt)
		for _, l := range leaves(mt.Elem()) {
			cp(pre+l.Path, arrSort(ks, l.Sort))
		}
		return Val{m.T, []*Term{r}}, ns, g, true
	case "vcFresh":
		// the object did not exist before the target call
		if ctx == nil {
			return Val{types.Typ[types.Bool], []*Term{True}}, st, g, true
		}
		pre := ctx.preCtr
		ref := args[0].L[0]
		if isIface(args[0].T) {
			t := x.boxedType(args[0])
			if t == nil {
				panic(unsup("vcFresh argument"))
			}
			ref = x.unbox(args[0], t).L[0]
		}
		return Val{types.Typ[types.Bool], []*Term{Lt(IntT(pre), ref)}}, st, g, true
	case "vcFreshSlice":
		// nil, or its array did not exist before the target call
		if ctx == nil {
			return Val{types.Typ[types.Bool], []*Term{True}}, st, g, true
		}
		return Val{types.Typ[types.Bool], []*Term{Or(Eq(args[0].arr(), IntT(0)), Lt(IntT(ctx.preCtr), args[0].arr()))}}, st, g, true
	case "vcGrown":
		// vcGrown(out, old): out uses old's array from the same offset, or a new array
		if ctx == nil {
			return Val{types.Typ[types.Bool], []*Term{True}}, st, g, true
		}
		return Val{types.Typ[types.Bool], []*Term{Or(And(Eq(args[0].arr(), args[1].arr()), Eq(args[0].off(), args[1].off())), Lt(IntT(ctx.preCtr), args[0].arr()))}}, st, g, true
	case "vcSameSlice":
		a, b := args[0], args[1]
		return Val{types.Typ[types.Bool], []*Term{And(Eq(a.arr(), b.arr()), Eq(a.off(), b.off()), Eq(a.len(), b.len()))}}, st, g, true
	case "vcSameMap":
		return Val{types.Typ[types.Bool], []*Term{Eq(args[0].one(), args[1].one())}}, st, g, true
	case "vcDisjoint":
		a, b := args[0], args[1]
		return Val{types.Typ[types.Bool], []*Term{Or(Not(Eq(a.arr(), b.arr())), Eq(a.arr(), IntT(0)))}}, st, g, true
	case "vcHas":
		mt := args[0].T.Underlying().(*types.Map)
		ok := And(Not(Eq(args[0].one(), IntT(0))), Select(x.mapDom(st, mt, args[0].one()), keyTerm(args[1])))
		if l := Select(x.heapGet(st, mapKeyPrefix(mt)+"#len", SInt), args[0].one()); !ok.hasB && !l.hasB {
			x.addAssume(Or(Not(ok), Le(IntT(1), l))) // a map with a key is not empty
		}
		return Val{types.Typ[types.Bool], []*Term{ok}}, st, g, true
	case "vcVisited":
		// vcVisited(m, k): k was already produced by the range loop over m
		mt := args[0].T.Underlying().(*types.Map)
		ks := keySort(mt.Key())
		for n := x.ctr; n > 0 && n > x.ctr-1; n-- {
		}
		var best *Term
		for r, it := range x.iters {
			if it.kind == "map" && it.m == args[0].one() && (best == nil || r.I.Cmp(best.I) > 0) {
				best = r
			}
		}
		if best == nil {
			panic(unsup("vcVisited: no iterator over that map"))
		}
		vis := Select(x.heapGet(st, "IT:vis:"+ks, arrSort(ks, SBool)), best)
		return Val{types.Typ[types.Bool], []*Term{Select(vis, keyTerm(args[1]))}}, st, g, true
	case "vcSortedSearch":
	case "vcPure":
		// vcPure("name", args...) : deterministic uninterpreted function (ghost), int valued
	case "vcUnfold":
		return void, st, g, true
	case "vcStrExt":
		x.strExt(args[0].one(), args[1].one())
		return void, st, g, true
	case "vcGhostGet":
		key := "ghost:" + strLit(args[0])
		h := x.heapGet(st, key, SInt)
		return Val{types.Typ[types.Int], []*Term{Select(h, args[1].L[len(args[1].L)-1])}}, st, g, true
	case "vcGhostSet":
		key := "ghost:" + strLit(args[0])
		ns := st.clone()
		h := x.heapGet(ns, key, SInt)
		x.heapSet(ns, key, Store(h, args[1].L[len(args[1].L)-1], args[2].one()), args[1].L[len(args[1].L)-1])
		return void, ns, g, true
	}
	return Val{}, nil, nil, false
}

func (x *Exec) mapNilEmpty(st *State, mt *types.Map, m *Term) {
	if isInt(m) {
		return
	}
	ks := keySort(mt.Key())
	h := x.heapGet(st, mapKeyPrefix(mt)+"#dom", arrSort(ks, SBool))
	x.addAssume(Implies(Eq(m, IntT(0)), Eq(Select(h, m), ConstArr(arrSort(ks, SBool), False))))
}

func (x *Exec) quantBody(cl *Closure, args []Val, st *State) *Term {
	x.spec++
	x.quant++
	ac := len(x.assume)
	_ = ac
	v, _, _ := x.runFn(cl.Fn, args, cl.Bind, st.clone(), G{}, nil)
	x.quant--
	x.spec--
	return v.L[0]
}

// variadic returns the elements of a constant-length variadic slice.
func variadic(x *Exec, s Val, st *State) []Val {
	n := s.len()
	if !isInt(n) {
		panic(unsup("variadic length"))
	}
	el := s.T.Underlying().(*types.Slice).Elem()
	var out []Val
	for i := int64(0); i < n.I.Int64(); i++ {
		out = append(out, x.loadPlace(st, &Place{Key: "E:" + typeKey(el), Idx1: s.arr(), Idx2: Add(s.off(), IntT(i)), T: el}))
	}
	return out
}

func (x *Exec) boxedType(v Val) types.Type {
	if isInt(v.L[0]) {
		return x.pr.typeOfID[v.L[0].I.Int64()]
	}
	return nil
}

// ---------- builtins ----------

func (x *Exec) builtin(fr *frame, ins ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, g G) (Val, *State, G) {
	one := func(t *Term) Val { return Val{types.Typ[types.Int], []*Term{t}} }
	void := Val{T: types.NewTuple()}
	switch b.Name() {
	case "len":
		a := args[0]
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return one(StrLen(a.one())), st, g
		case *types.Slice:
			return one(a.len()), st, g
		case *types.Map:
			return one(x.mapLen(st, u, a.one())), st, g
		case *types.Array:
			return one(IntT(u.Len())), st, g
		case *types.Pointer:
			return one(IntT(u.Elem().Underlying().(*types.Array).Len())), st, g
		case *types.Chan:
			return x.freshVal("chanlen", types.Typ[types.Int]), st, g
		}
	case "cap":
		if isSlice(c.Args[0].Type()) {
			return one(args[0].cap()), st, g
		}
	case "append":
		st = st.clone()
		v := x.appendSlice(args[0], args[1], st, g)
		return v, st, g
	case "copy":
		st = st.clone()
		dst, src := args[0], args[1]
		el := dst.T.Underlying().(*types.Slice).Elem()
		var sl *Term
		if isString(src.T) {
			sl = StrLen(src.one())
		} else {
			sl = src.len()
		}
		n := Ite(Le(dst.len(), sl), dst.len(), sl)
		for _, l := range leaves(el) {
			key := "E:" + typeKey(el) + l.Path
			h := x.heapGet(st, key, arrSort(SInt, l.Sort))
			var sa, so *Term
			if isString(src.T) {
				sa, so = x.bytesOf(src.one()), IntT(0)
			} else {
				sa, so = Select(h, src.arr()), src.off()
			}
			x.heapSet(st, key, Store(h, dst.arr(), x.splice(Select(h, dst.arr()), dst.off(), sa, so, n)), dst.arr())
		}
		return one(n), st, g
	case "delete":
		st = st.clone()
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := args[0].one()
		s2 := st.clone()
		x.mapDelete(s2, mt, m, keyTerm(args[1]))
		return void, mergeState(x, Eq(m, IntT(0)), st, s2), g
	case "print", "println", "close", "clear":
		return void, st, g
	case "recover":
		return Val{c.Signature().Results(), zeroVal(c.Signature().Results()).L}, st, g
	case "ssa:wrapnilchk":
		g = x.nilCheck(g, args[0].one(), "recv", ins)
		return args[0], st, g
	case "min":
		r := args[0].one()
		for _, a := range args[1:] {
			r = Ite(Le(r, a.one()), r, a.one())
		}
		return Val{args[0].T, []*Term{r}}, st, g
	case "max":
		r := args[0].one()
		for _, a := range args[1:] {
			r = Ite(Le(a.one(), r), r, a.one())
		}
		return Val{args[0].T, []*Term{r}}, st, g
	}
	panic(unsup("builtin %s", b.Name()))
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func (x *Exec) assumeTagged(g G, c *Term, name string) {
	for _, cj := range conjuncts(c) {
		t := Implies(g.term(), cj)
		x.tag(t, name)
		x.addAssume(t)
	}
}
