package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Leaf is one SMT component of a Go value.
type Leaf struct {
	Path string
	Sort string
	T    types.Type // Go type of the leaf (the slice type for slice parts)
	Kind byte       // 'i' int, 'r' ref, 'b' bool, 's' string, 'f' float, 'n' nonneg part of slice, 'g' iface tag, 'p' iface payload, 'a' array
}

// Val is a Go value as flat leaves.
type Val struct {
	T types.Type
	L []*Term
}

var leafCache = map[string][]Leaf{}

func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, 'b'}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t, 'i'}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t, 's'}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SFloat, t, 'f'}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, t, 'r'}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t, 'r'}}
		case u.Info()&types.IsComplex != 0:
			return []Leaf{{"", SFloat, t, 'f'}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, t, 'r'}}
	case *types.Slice:
		return []Leaf{{".arr", SInt, t, 'r'}, {".off", SInt, t, 'n'}, {".len", SInt, t, 'n'}, {".cap", SInt, t, 'n'}}
	case *types.Interface:
		return []Leaf{{".tag", SInt, t, 'g'}, {".pay", SInt, t, 'p'}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf(".%d", i) + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Path, arrSort(SInt, l.Sort), l.T, 'a'})
		}
		return out
	}
	panic(unsup("type " + t.String()))
}

func nleaves(t types.Type) int { return len(leaves(t)) }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

func (v Val) field(i int) Val {
	st := v.T.Underlying().(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += nleaves(st.Field(j).Type())
	}
	n := nleaves(st.Field(i).Type())
	return Val{st.Field(i).Type(), v.L[off : off+n]}
}
func (v Val) elem(i int) Val { // tuple element
	tu := v.T.(*types.Tuple)
	off := 0
	for j := 0; j < i; j++ {
		off += nleaves(tu.At(j).Type())
	}
	n := nleaves(tu.At(i).Type())
	return Val{tu.At(i).Type(), v.L[off : off+n]}
}

func zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, zeroSort(l.Sort))
	}
	return v
}

func zeroSort(s string) *Term {
	switch s {
	case SInt:
		return IntT(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SFloat:
		return App("float0", SFloat)
	}
	if strings.HasPrefix(s, "(Array") {
		_, e := splitArr(s)
		return ConstArr(s, zeroSort(e))
	}
	panic("zero of sort " + s)
}

func mergeVal(c *Term, a, b Val) Val {
	if len(a.L) != len(b.L) {
		panic(unsup("merge of different shapes %v %v", a.T, b.T))
	}
	v := Val{T: a.T, L: make([]*Term, len(a.L))}
	for i := range a.L {
		v.L[i] = Ite(c, a.L[i], b.L[i])
	}
	return v
}

func (v Val) one() *Term {
	if len(v.L) != 1 {
		panic(unsup("scalar expected, got %v", v.T))
	}
	return v.L[0]
}

// slice accessors
func (v Val) arr() *Term { return v.L[0] }
func (v Val) off() *Term { return v.L[1] }
func (v Val) len() *Term { return v.L[2] }
func (v Val) cap() *Term { return v.L[3] }

func mkSlice(t types.Type, arr, off, ln, cp *Term) Val {
	return Val{t, []*Term{arr, off, ln, cp}}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isMap(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }
func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func valEq(a, b Val) *Term {
	var cs []*Term
	if isSlice(a.T) { // only nil comparison
		return Eq(a.arr(), b.arr())
	}
	for i := range a.L {
		cs = append(cs, Eq(a.L[i], b.L[i]))
	}
	return And(cs...)
}

// keyTerm packs a map key into one term.
func keyTerm(v Val) *Term {
	if len(v.L) == 1 {
		return v.L[0]
	}
	s := keySort(v.T)
	// mk(sel0(x),...,seln(x)) = x
	if v.L[0].Op == "app" && strings.HasPrefix(v.L[0].Name, "sel!"+s+"!") {
		x := v.L[0].Args[0]
		ok := true
		for i := range v.L {
			if v.L[i] != mk("app", fmt.Sprintf("sel!%s!%d", s, i), v.L[i].Sort, nil, x) {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return App("mk!"+s, s, v.L...)
}
func keySort(t types.Type) string {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].Sort
	}
	var ss []string
	for _, l := range ls {
		ss = append(ss, l.Sort)
	}
	return "Tup_" + strings.Join(ss, "_")
}
func unkey(t types.Type, k *Term) Val {
	ls := leaves(t)
	if len(ls) == 1 {
		return Val{t, []*Term{k}}
	}
	s := keySort(t)
	v := Val{T: t}
	for i, l := range ls {
		if k.Op == "app" && k.Name == "mk!"+s {
			v.L = append(v.L, k.Args[i])
		} else {
			v.L = append(v.L, App(fmt.Sprintf("sel!%s!%d", s, i), l.Sort, k))
		}
	}
	return v
}
