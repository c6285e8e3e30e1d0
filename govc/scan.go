package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// scanFields checks that no function reachable from root stores to the named fields
// ("T.f" of root's package) or takes their address for anything but a load. It returns
// the offending functions.
func (pr *Program) scanFields(root *ssa.Function, fields []string) (bad []string, nReached int) {
	want := map[string]bool{}
	for _, f := range fields {
		want[f] = true
	}
	all := ssautil.AllFunctions(pr.prog)
	// module methods by name, functions whose address is taken, by signature
	methods := map[string][]*ssa.Function{}
	bySig := map[string][]*ssa.Function{}
	sigKey := func(s *types.Signature) string {
		k := ""
		for i := 0; i < s.Params().Len(); i++ {
			k += typeKey(s.Params().At(i).Type()) + ","
		}
		k += ":"
		for i := 0; i < s.Results().Len(); i++ {
			k += typeKey(s.Results().At(i).Type()) + ","
		}
		return k
	}
	taken := map[*ssa.Function]bool{}
	for fn := range all {
		if !inModule(fn) {
			continue
		}
		if fn.Signature.Recv() != nil {
			methods[fn.Name()] = append(methods[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						taken[f] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for f := range taken {
		if inModule(f) {
			k := sigKey(f.Signature)
			bySig[k] = append(bySig[k], f)
		}
	}
	reach := map[*ssa.Function]bool{}
	work := []*ssa.Function{root}
	add := func(f *ssa.Function) {
		if f != nil && !reach[f] && (inModule(f) || f.Synthetic != "") {
			reach[f] = true
			work = append(work, f)
		}
	}
	reach[root] = true
	badSet := map[string]bool{}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						for _, m := range methods[cc.Method.Name()] {
							add(m)
						}
					} else if f := cc.StaticCallee(); f != nil {
						add(f)
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
						for _, f := range bySig[sigKey(cc.Signature())] {
							add(f)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					_ = mi
				}
				switch v := in.(type) {
				case *ssa.FieldAddr:
					pt := v.X.Type().Underlying().(*types.Pointer).Elem()
					st := pt.Underlying().(*types.Struct)
					nt, ok := types.Unalias(pt).(*types.Named)
					if !ok || nt.Obj().Pkg() == nil || root.Pkg == nil || nt.Obj().Pkg() != root.Pkg.Pkg {
						continue
					}
					name := nt.Obj().Name() + "." + st.Field(v.Field).Name()
					if !want[name] {
						continue
					}
					for _, r := range *v.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							// a store into an object allocated in this very function is to a new object
							if al, ok := v.X.(*ssa.Alloc); ok && al.Heap && u.Addr == ssa.Value(v) {
								continue
							}
							badSet[name+" written by "+shortFn(fn)] = true
						default:
							badSet[name+" address taken in "+shortFn(fn)] = true
						}
					}
				case *ssa.Store:
					if nt, ok := types.Unalias(v.Val.Type()).(*types.Named); ok && nt.Obj().Pkg() != nil && root.Pkg != nil && nt.Obj().Pkg() == root.Pkg.Pkg {
						for f := range want {
							if strings.HasPrefix(f, nt.Obj().Name()+".") {
								if _, isAlloc := v.Addr.(*ssa.Alloc); !isAlloc {
									badSet[f+" overwritten by "+shortFn(fn)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for b := range badSet {
		bad = append(bad, b)
	}
	sort.Strings(bad)
	return bad, len(reach)
}
