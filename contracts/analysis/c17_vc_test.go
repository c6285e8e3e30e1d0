//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func vcGenTypeName(r *rand.Rand) string {
	s := []string{"int", "integer", "boolean", "string", "\\A", "\\A\\B", "\\B", "A", "static", "$this", "", "[", "]", "a]", "é", "self"}[r.Intn(16)]
	for k := r.Intn(4); k > 0; k-- {
		s += []string{"[]", "[]", "[]", "[", "]", "x"}[r.Intn(6)]
	}
	return s
}

func vcGenTS(r *rand.Rand) TypeString {
	t := NewTypeString([]string{"int", "\\A", "\\B", "\\C", "\\D", "static", "$this", "\\E", "\\F"}[r.Intn(9)])
	if r.Intn(3) == 0 {
		t.arrayLevel = r.Intn(3)
	}
	if r.Intn(5) == 0 {
		t.fqn = []string{"\\A", "\\B", "int"}[r.Intn(3)]
	}
	return t
}

func vcGenTypes(r *rand.Rand) TypeComposite {
	t := newTypeComposite()
	if r.Intn(5) == 0 {
		t = TypeComposite{}
	}
	for k := r.Intn(7); k > 0; k-- {
		t.add(vcGenTS(r))
	}
	return t
}

type vcScope struct{ t TypeComposite }

func (s vcScope) GetLocation() protocol.Location { return protocol.Location{} }
func (s vcScope) GetTypes() TypeComposite        { return s.t }
func (s vcScope) Resolve(ctx ResolveContext)     {}

// vcRefAdd is the reference meaning of adding types to a set.
func vcRefAdd(out []TypeString, ts ...TypeString) []TypeString {
	out = append([]TypeString(nil), out...)
	for _, t := range ts {
		if !vcHasType(out, t) {
			out = append(out, t)
		}
	}
	return out
}

func vcShow(ts []TypeString) string {
	s := ""
	for _, t := range ts {
		s += fmt.Sprintf("|%s(%s)+%d", t.fqn, t.original, t.arrayLevel)
	}
	return s
}

// vc_type_sets runs a sequence of operations on sets that are copied from each other and
// compares every set with its reference after every step.
func vc_type_sets(r *rand.Rand, n int, log *strings.Builder) {
	sets := []TypeComposite{newTypeComposite(), {}}
	refs := [][]TypeString{nil, nil}
	for ; n > 0; n-- {
		i, j := r.Intn(len(sets)), r.Intn(len(sets))
		switch r.Intn(7) {
		case 0, 1:
			t := vcGenTS(r)
			fmt.Fprintf(log, "s%d.add(%s) ", i, vcShow([]TypeString{t}))
			vc_add(&sets[i], t)
			refs[i] = vcRefAdd(refs[i], t)
		case 2:
			fmt.Fprintf(log, "s%d.merge(s%d) ", i, j)
			vc_merge(&sets[i], sets[j])
			refs[i] = vcRefAdd(refs[i], refs[j]...)
		case 3:
			k := r.Intn(3)
			fmt.Fprintf(log, "s%d.mergeWithArrayLevel(s%d,%d) ", i, j, k)
			vc_mergeWithArrayLevel(&sets[i], sets[j], k)
			var ts []TypeString
			for _, t := range refs[j] {
				ts = append(ts, vcLevel(t, k))
			}
			refs[i] = vcRefAdd(refs[i], ts...)
		case 4:
			if len(sets) < 5 {
				fmt.Fprintf(log, "s%d=copy(s%d) ", len(sets), i)
				sets, refs = append(sets, sets[i]), append(refs, refs[i])
			} else {
				fmt.Fprintf(log, "s%d=copy(s%d) ", i, j)
				sets[i], refs[i] = sets[j], refs[j]
			}
		case 5:
			a, b := &Variable{}, &Variable{}
			a.Type, b.Type = sets[i], sets[j]
			switch r.Intn(3) {
			case 0:
				k := r.Intn(len(sets))
				fmt.Fprintf(log, "s%d=variable(s%d in s%d).GetTypes() ", i, i, k)
				a.Scope = vcScope{sets[k]}
				vc_Variable_GetTypes(a)
				sets[i], refs[i] = a.GetTypes(), vcRefAdd(refs[k], refs[i]...)
			case 1:
				fmt.Fprintf(log, "s%d=member types of s%d in s%d ", i, i, j)
				vc_resolveMemberTypes(sets[i], vcScope{sets[j]})
				var ts []TypeString
				for _, t := range refs[i] {
					if vcIsStatic(t) {
						for _, u := range refs[j] {
							ts = append(ts, vcLevel(u, t.arrayLevel))
						}
					} else {
						ts = append(ts, t)
					}
				}
				sets[i], refs[i] = resolveMemberTypes(sets[i], vcScope{sets[j]}), vcRefAdd(nil, ts...)
			case 2:
				fmt.Fprintf(log, "s%d.mergeTypesWithVariable(s%d) ", i, j)
				vc_mergeTypesWithVariable(a, b)
				sets[i], refs[i] = a.Type, vcRefAdd(refs[i], refs[j]...)
			}
		case 6:
			if r.Intn(2) == 0 {
				fmt.Fprintf(log, "s%d=elements of s%d ", i, j)
				f := ForeachCollection{scope: vcScope{sets[j]}}
				vc_ForeachCollection_GetTypes(f)
				var ts []TypeString
				for _, t := range refs[j] {
					if t.arrayLevel > 0 {
						ts = append(ts, vcLevel(t, -1))
					}
				}
				sets[i], refs[i] = f.GetTypes(), vcRefAdd(nil, ts...)
			} else {
				fmt.Fprintf(log, "s%d=stored(s%d) ", i, j)
				e := storage.NewEncoder()
				sets[j].Write(e)
				sets[i], refs[i] = ReadTypeComposite(storage.NewDecoder(e.Bytes())), refs[j]
			}
		}
		for k := range sets {
			vcEnsures("sets are "+"their reference", vcShow(sets[k].typeStrings) == vcShow(refs[k]))
			var parts []string
			for _, t := range refs[k] {
				if t.fqn != "" && t.fqn != "\\" {
					parts = append(parts, t.fqn+strings.Repeat("[]", t.arrayLevel))
				}
			}
			vcEnsures("set is shown with its dimensions", sets[k].ToString() == strings.Join(parts, "|"))
		}
	}
}

func vc_type_doc(parts []string) {
	d := NewDocument("file:///a.php", []byte("<?php\n"))
	d.Load()
	r := typesFromPhpDoc(d, strings.Join(parts, "|"))
	var want []TypeString
	for _, p := range parts {
		if p != "" && p != "self" {
			n := 0
			for strings.HasSuffix(p, "[]") {
				p, n = p[:len(p)-2], n+1
			}
			t := NewTypeString(p)
			t.SetFQN(d.currImportTable().GetClassReferenceFQN(t))
			want = vcRefAdd(want, vcLevel(t, n))
		}
	}
	vcEnsures("types of a doc comment", vcShow(r.typeStrings) == vcShow(want))
}

func TestVC_C17(t *testing.T) {
	h := vcNew(t, "C17", "NewTypeString")
	alpha := []string{"[", "]", "[]", "a", "\\"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		h.check(fmt.Sprintf("%q", s), func() { vc_NewTypeString(s); vc_Dearray(NewTypeString(s)) })
		if n > 0 {
			for _, a := range alpha {
				rec(s+a, n-1)
			}
		}
	}
	rec("", 5)
	for _, s := range []string{"boolean", "integer", "boolean[]", "integer[][]", "bool", "mixed"} {
		h.check(s, func() { vc_NewTypeString(s) })
	}
	h.check("aliases", func() {
		vcEnsures("alias", NewTypeString("boolean[]").ToString() == "bool[]" && NewTypeString("integer").ToString() == "int")
	})
	for h.more(8000) {
		s := vcGenTypeName(h.r)
		h.check(fmt.Sprintf("%q", s), func() { vc_NewTypeString(s); vc_Dearray(NewTypeString(s)) })
	}
	d := vcNew(t, "C17", "typesFromPhpDoc")
	for d.more(4000) {
		var parts []string
		for k := d.r.Intn(6); k > 0; k-- {
			parts = append(parts, strings.TrimSpace(vcGenTypeName(d.r)))
		}
		d.check(fmt.Sprintf("%q", parts), func() { vc_type_doc(parts) })
	}
	e := vcNew(t, "C17", "type sets")
	for e.more(20000) {
		var log strings.Builder
		seed := e.r.Int63()
		n := 2 + e.r.Intn(14)
		e.check(fmt.Sprint("seed ", seed, " steps ", n), func() {
			defer func() {
				if p := recover(); p != nil {
					if v, ok := p.(vcViolation); ok {
						panic(vcViolation{v.Name + " after " + log.String()})
					}
					panic(p)
				}
			}()
			vc_type_sets(rand.New(rand.NewSource(seed)), n, &log)
		})
	}
}
