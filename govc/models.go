package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runeAtStr is utf8.DecodeRuneInString(s[pos:]).
func (x *Exec) runeAtStr(s, pos *Term) (*Term, *Term) {
	rn, sz := App("utf8.rune", SInt, s, pos), App("utf8.size", SInt, s, pos)
	if !rn.hasB {
		in := And(Le(IntT(0), pos), Lt(pos, StrLen(s)))
		c := StrAt(s, pos)
		x.addAssume(Implies(in, And(Le(IntT(1), sz), Le(sz, IntT(4)), Le(Add(pos, sz), StrLen(s)), Le(IntT(0), rn), Le(rn, IntT(0x10FFFF)))))
		x.addAssume(Implies(And(in, Le(IntT(0), c), Lt(c, IntT(128))), And(Eq(rn, c), Eq(sz, IntT(1)))))
		x.addAssume(Implies(And(in, Le(IntT(128), c)), Le(IntT(128), rn)))
		x.addAssume(Implies(And(in, Le(IntT(0x10000), rn)), Eq(sz, IntT(4))))
		x.addAssume(Implies(And(in, Lt(rn, IntT(0x10000))), Le(sz, IntT(3))))
	}
	return rn, sz
}

// runeAtBytes is utf8.DecodeRune(b) for bytes arr[off..off+n).
func (x *Exec) runeAtBytes(arr, off, n *Term) (*Term, *Term) {
	rn, sz := App("utf8b.rune", SInt, arr, off, n), App("utf8b.size", SInt, arr, off, n)
	if !rn.hasB {
		in := Lt(IntT(0), n)
		c := Select(arr, off)
		x.addAssume(Implies(in, And(Le(IntT(0), c), Le(c, IntT(255)))))
		x.addAssume(Implies(in, And(Le(IntT(1), sz), Le(sz, IntT(4)), Le(sz, n), Le(IntT(0), rn), Le(rn, IntT(0x10FFFF)))))
		x.addAssume(Implies(Not(in), And(Eq(rn, IntT(0xFFFD)), Eq(sz, IntT(0)))))
		x.addAssume(Implies(And(in, Le(IntT(0), c), Lt(c, IntT(128))), And(Eq(rn, c), Eq(sz, IntT(1)))))
		x.addAssume(Implies(And(in, Le(IntT(128), c)), Le(IntT(128), rn)))
		x.addAssume(Implies(And(in, Le(IntT(0x10000), rn)), Eq(sz, IntT(4))))
		x.addAssume(Implies(And(in, Lt(rn, IntT(0x10000))), Le(sz, IntT(3))))
		for k := int64(1); k < 4; k++ {
			x.addAssume(Implies(And(in, Lt(IntT(k), sz)), Le(IntT(128), Select(arr, Add(off, IntT(k))))))
		}
		x.trusted["utf8.DecodeRune: width 1..4, ASCII decodes to itself, every other byte of a sequence is >= 0x80, 4 bytes exactly for runes beyond U+FFFF"] = true
	}
	return rn, sz
}

func (x *Exec) ifaceModel(fr *frame, ins ssa.Instruction, c *ssa.CallCommon, key string, recv Val, args []Val, st *State, g G) (Val, *State, G, bool) {
	switch key {
	case "error.Error":
		return Val{types.Typ[types.String], []*Term{App("error.Error", SStr, recv.L[0], recv.L[1])}}, st, g, true
	}
	return Val{}, nil, nil, false
}

func (x *Exec) errVal(t types.Type, hint string) Val {
	v := x.freshVal(hint, t)
	x.addAssume(Lt(IntT(0), v.L[0]))
	return v
}

// model gives meaning to standard library functions.
func (x *Exec) model(fr *frame, ins ssa.Instruction, fn *ssa.Function, full string, args []Val, st *State, g G) (Val, *State, G, bool) {
	res := fn.Signature.Results()
	one := func(t *Term) (Val, *State, G, bool) {
		return Val{res.At(0).Type(), []*Term{t}}, st, g, true
	}
	void := func() (Val, *State, G, bool) { return Val{T: types.NewTuple()}, st, g, true }
	a := func(i int) *Term { return args[i].one() }
	if full == "(*sync.Once).Do" {
		return Val{}, nil, nil, false
	}
	if strings.HasPrefix(full, "(*sync.") || strings.HasPrefix(full, "log.") || strings.HasPrefix(full, "(*log.") {
		if res.Len() == 0 {
			x.trusted["locking and logging calls do not change tracked state"] = true
			return void()
		}
	}
	switch full {
	case "strings.HasPrefix":
		return one(PrefixOf(a(1), a(0)))
	case "strings.HasSuffix":
		return one(SuffixOf(a(1), a(0)))
	case "strings.Contains":
		return one(Contains(a(0), a(1)))
	case "strings.Index":
		return one(IndexOf(a(0), a(1), IntT(0)))
	case "strings.IndexByte":
		return one(IndexOf(a(0), mk("str.from_code", "", SStr, nil, a(1)), IntT(0)))
	case "strings.LastIndex":
		return one(x.lastIndex(a(0), a(1)))
	case "strings.LastIndexByte":
		if isInt(a(1)) {
			return one(x.lastIndex(a(0), StrLit(string([]byte{byte(a(1).I.Int64())}))))
		}
	case "strings.IndexRune":
		if isInt(a(1)) && a(1).I.Int64() < 128 {
			return one(IndexOf(a(0), StrLit(string(rune(a(1).I.Int64()))), IntT(0)))
		}
	case "strings.ContainsRune":
		if isInt(a(1)) && a(1).I.Int64() < 128 {
			return one(Contains(a(0), StrLit(string(rune(a(1).I.Int64())))))
		}
	case "strings.TrimPrefix":
		return one(Ite(PrefixOf(a(1), a(0)), SubStr(a(0), StrLen(a(1)), StrLen(a(0))), a(0)))
	case "strings.TrimSuffix":
		return one(Ite(SuffixOf(a(1), a(0)), SubStr(a(0), IntT(0), Sub(StrLen(a(0)), StrLen(a(1)))), a(0)))
	case "strings.ToLower", "strings.ToUpper":
		if a(0).Op == "strlit" {
			if full == "strings.ToLower" {
				return one(StrLit(strings.ToLower(a(0).Name)))
			}
			return one(StrLit(strings.ToUpper(a(0).Name)))
		}
		t := App(full, SStr, a(0))
		if !t.hasB {
			x.addAssume(Eq(App(full, SStr, t), t))
			x.addAssume(Eq(Eq(StrLen(t), IntT(0)), Eq(StrLen(a(0)), IntT(0))))
			x.trusted[full+" is a deterministic idempotent function"] = true
		}
		return one(t)
	case "strings.EqualFold":
		x.trusted["strings.EqualFold(a,b) is equality of ToLower (exact for ASCII)"] = true
		return one(Eq(App("strings.ToLower", SStr, a(0)), App("strings.ToLower", SStr, a(1))))
	case "strings.Replace":
		if isInt(a(3)) && a(3).I.Sign() < 0 {
			return one(mk("str.replace_all", "", SStr, nil, a(0), a(1), a(2)))
		}
		if isInt(a(3)) && a(3).I.Int64() == 1 {
			return one(mk("str.replace", "", SStr, nil, a(0), a(1), a(2)))
		}
	case "strings.ReplaceAll":
		return one(mk("str.replace_all", "", SStr, nil, a(0), a(1), a(2)))
	case "strings.Compare":
		return one(Ite(Eq(a(0), a(1)), IntT(0), Ite(StrLt(a(0), a(1)), IntT(-1), IntT(1))))
	case "strings.TrimSpace", "strings.Title":
		t := App(full, SStr, a(0))
		return one(t)
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
		return x.trim(full, res.At(0).Type(), a(0), a(1), st, g)
	case "strings.Join":
		sep := a(1)
		el := args[0]
		h := x.heapGet(st, "E:string", arrSort(SInt, SStr))
		if isInt(el.len()) && el.len().I.Int64() <= 6 {
			var parts []*Term
			for i := int64(0); i < el.len().I.Int64(); i++ {
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, Select(Select(h, el.arr()), Add(el.off(), IntT(i))))
			}
			return one(StrCat(parts...))
		}
		return one(App("strings.Join", SStr, Select(h, el.arr()), el.off(), el.len(), sep))
	case "strings.Split":
		return x.split(res.At(0).Type(), a(0), a(1), st, g)
	case "bytes.Compare":
		key := "E:uint8"
		h := x.heapGet(st, key, arrSort(SInt, SInt))
		s1 := x.mkstr(Select(h, args[0].arr()), args[0].off(), args[0].len())
		s2 := x.mkstr(Select(h, args[1].arr()), args[1].off(), args[1].len())
		return one(Ite(Eq(s1, s2), IntT(0), Ite(StrLt(s1, s2), IntT(-1), IntT(1))))
	case "bytes.Equal":
		h := x.heapGet(st, "E:uint8", arrSort(SInt, SInt))
		s1 := x.mkstr(Select(h, args[0].arr()), args[0].off(), args[0].len())
		s2 := x.mkstr(Select(h, args[1].arr()), args[1].off(), args[1].len())
		return one(Eq(s1, s2))
	case "bytes.HasPrefix":
		h := x.heapGet(st, "E:uint8", arrSort(SInt, SInt))
		s1 := x.mkstr(Select(h, args[0].arr()), args[0].off(), args[0].len())
		s2 := x.mkstr(Select(h, args[1].arr()), args[1].off(), args[1].len())
		return one(PrefixOf(s2, s1))
	case "sort.Search":
		n := a(0)
		cl := x.closures[a(1)]
		if cl == nil {
			break
		}
		r := x.fresh("search", SInt)
		x.assumeG(g, And(Le(IntT(0), r), Le(r, n)))
		at := func(i *Term, gg G) *Term {
			v, _, _ := x.runFn(cl.Fn, []Val{{types.Typ[types.Int], []*Term{i}}}, cl.Bind, st.clone(), gg, nil)
			return v.one()
		}
		// safety of the predicate at an arbitrary index
		q := x.fresh("search.q", SInt)
		at(q, g.and(And(Le(IntT(0), q), Lt(q, n))))
		x.assumeG(g, Implies(Lt(r, n), at(r, g.and(Lt(r, n)))))
		x.assumeG(g, Implies(Lt(IntT(0), r), Not(at(Sub(r, IntT(1)), g.and(Lt(IntT(0), r))))))
		x.trusted["sort.Search returns i with f(i) true (or i=n) and f(i-1) false (or i=0); its predicate has no side effects"] = true
		return one(r)
	case "math.Float64bits", "math.Float32bits":
		fn, inv := "f64bits", "f64frombits"
		if full == "math.Float32bits" {
			fn, inv = "f32bits", "f32frombits"
		}
		t := App(fn, SInt, a(0))
		if !t.hasB {
			lo, hi, _ := intRange(res.At(0).Type())
			x.addAssume(And(Le(BigT(lo), t), Le(t, BigT(hi))))
			x.addAssume(Eq(App(inv, SFloat, t), a(0)))
			x.trusted["math.FloatNbits and FloatNfrombits are inverse"] = true
		}
		return one(t)
	case "math.Float64frombits", "math.Float32frombits":
		fn, inv := "f64bits", "f64frombits"
		if full == "math.Float32frombits" {
			fn, inv = "f32bits", "f32frombits"
		}
		if a(0).Op == "app" && a(0).Name == fn {
			return one(a(0).Args[0])
		}
		t := App(inv, SFloat, a(0))
		if !t.hasB {
			lo, hi, _ := intRange(types.Typ[types.Uint64])
			if fn == "f32bits" {
				lo, hi, _ = intRange(types.Typ[types.Uint32])
			}
			x.addAssume(Implies(And(Le(BigT(lo), a(0)), Le(a(0), BigT(hi))), Eq(App(fn, SInt, t), a(0))))
			x.trusted["math.FloatNbits and FloatNfrombits are inverse"] = true
		}
		return one(t)
	case "unicode/utf8.DecodeRuneInString":
		s := a(0)
		var base, pos = s, IntT(0)
		if s.Op == "str.substr" && Add(s.Args[1], s.Args[2]) == StrLen(s.Args[0]) {
			base, pos = s.Args[0], s.Args[1]
		}
		rn, sz := x.runeAtStr(base, pos)
		e := Eq(StrLen(s), IntT(0))
		return Val{res, []*Term{Ite(e, IntT(0xFFFD), rn), Ite(e, IntT(0), sz)}}, st, g, true
	case "unicode/utf8.DecodeRune":
		h := x.heapGet(st, "E:uint8", arrSort(SInt, SInt))
		rn, sz := x.runeAtBytes(Select(h, args[0].arr()), args[0].off(), args[0].len())
		return Val{res, []*Term{rn, sz}}, st, g, true
	case "unicode/utf8.RuneLen":
		r := a(0)
		t := Ite(Lt(r, IntT(0)), IntT(-1), Ite(Lt(r, IntT(128)), IntT(1), Ite(Lt(r, IntT(2048)), IntT(2), Ite(And(Le(IntT(0xD800), r), Le(r, IntT(0xDFFF))), IntT(-1), Ite(Lt(r, IntT(65536)), IntT(3), Ite(Le(r, IntT(0x10FFFF)), IntT(4), IntT(-1)))))))
		return one(t)
	case "errors.New", "fmt.Errorf", "golang.org/x/xerrors.New", "golang.org/x/xerrors.Errorf":
		return x.errVal(res.At(0).Type(), "err"), st, g, true
	case "time.Now", "time.Since":
		return x.freshVal("time", res.At(0).Type()), st, g, true
	case modPath + "/util.TimeTrack":
		return void()
	}
	return Val{}, nil, nil, false
}

func (x *Exec) lastIndex(s, sub *Term) *Term {
	t := App("strings.LastIndex", SInt, s, sub)
	if !t.hasB {
		n, m := StrLen(s), StrLen(sub)
		x.addAssume(Or(And(Eq(t, IntT(-1)), Not(Contains(s, sub))),
			And(Le(IntT(0), t), Le(Add(t, m), n), Contains(s, sub), Eq(SubStr(s, t, Add(t, m)), sub))))
		if sub.Op == "strlit" && len(sub.Name) == 1 {
			i := BVar("li", SInt)
			x.addAssume(Forall([]*Term{i}, Implies(And(Lt(t, i), Lt(i, n), Le(IntT(0), i)), Not(Eq(StrAt(s, i), IntT(int64(sub.Name[0]))))), []*Term{StrAt(s, i)}))
			x.addAssume(Implies(Le(IntT(0), t), Eq(StrAt(s, t), IntT(int64(sub.Name[0])))))
		}
	}
	return t
}

func (x *Exec) trim(full string, rt types.Type, s, cut *Term, st *State, g G) (Val, *State, G, bool) {
	t := App(full, SStr, s, cut)
	if !t.hasB {
		from, to := App("trim.from", SInt, s, cut, StrLit(full)), App("trim.to", SInt, s, cut, StrLit(full))
		x.addAssume(And(Le(IntT(0), from), Le(from, to), Le(to, StrLen(s)), Eq(t, SubStr(s, from, to)), Contains(s, t)))
		x.trusted["strings.Trim, TrimLeft and TrimRight return a piece of the string"] = true
	}
	return Val{rt, []*Term{t}}, st, g, true
}

// split is strings.Split(s, sep) for a non-empty literal separator.
func (x *Exec) split(rt types.Type, s, sep *Term, st *State, g G) (Val, *State, G, bool) {
	if sep.Op != "strlit" || sep.Name == "" {
		return Val{}, nil, nil, false
	}
	st = st.clone()
	r := x.newRef()
	n := App("split.n", SInt, s, sep)
	as := arrSort(SInt, SStr)
	arr := App("split.parts", as, s, sep)
	x.heapSet(st, "E:string", Store(x.heapGet(st, "E:string", as), r, arr), r)
	if !n.hasB {
		x.addAssume(Le(IntT(1), n))
		x.addAssume(Eq(Eq(n, IntT(1)), Not(Contains(s, sep))))
		x.addAssume(Implies(Eq(n, IntT(1)), Eq(Select(arr, IntT(0)), s)))
		// first part and rest
		ix := IndexOf(s, sep, IntT(0))
		x.addAssume(Implies(Lt(IntT(1), n), And(Le(IntT(0), ix), Eq(Select(arr, IntT(0)), SubStr(s, IntT(0), ix)))))
		// the parts and what is left after them, for the first three
		l := StrLen(sep)
		p := Add(ix, l)
		for k := int64(1); k <= 3; k++ {
			more := Lt(IntT(k), n)
			x.addAssume(Implies(more, And(Le(IntT(0), ix), Le(p, StrLen(s)), Eq(App("strings.Join", SStr, arr, IntT(k), Sub(n, IntT(k)), sep), SubStr(s, p, StrLen(s))))))
			if k == 3 {
				break
			}
			ix = IndexOf(s, sep, p)
			x.addAssume(Implies(more, Ite(Lt(IntT(k+1), n), And(Le(p, ix), Eq(Select(arr, IntT(k)), SubStr(s, p, ix))),
				And(Eq(ix, IntT(-1)), Eq(Select(arr, IntT(k)), SubStr(s, p, StrLen(s)))))))
			p = Add(ix, l)
		}
		i := BVar("sp", SInt)
		sel := Select(arr, i)
		x.addAssume(Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, n)), Not(Contains(sel, sep))), []*Term{sel}))
		x.addAssume(Eq(App("strings.Join", SStr, arr, IntT(0), n, sep), s))
		// last part
		li := x.lastIndex(s, sep)
		x.addAssume(Implies(Lt(IntT(1), n), Eq(Select(arr, Sub(n, IntT(1))), SubStr(s, Add(li, StrLen(sep)), StrLen(s)))))
	}
	return mkSlice(rt, r, IntT(0), n, n), st, g, true
}
