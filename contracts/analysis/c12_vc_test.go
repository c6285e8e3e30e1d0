//go:build verif

package analysis

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

type vcRecord struct {
	v     *Variable
	start protocol.Position
	decl  bool
}

// vcRefPlace records v after all that start no later.
func vcRefPlace(l []vcRecord, r vcRecord) []vcRecord {
	i := len(l)
	for i > 0 && !vcUpTo(l[i-1].start, r.start) {
		i--
	}
	out := append([]vcRecord{}, l[:i]...)
	out = append(out, r)
	return append(out, l[i:]...)
}

func vcPos(r *rand.Rand) protocol.Position {
	return protocol.Position{Line: r.Intn(4), Character: r.Intn(4)}
}

// vc_scope runs a history of recorded occurrences and compares every lookup with its reference.
func vc_scope(r *rand.Rand, n int) {
	s := &Document{}
	for k := 1 + r.Intn(2); k > 0; k-- {
		s.variableTables = append(s.variableTables, newVariableTable(protocol.Range{}, s.variableTableLevel))
		s.variableTableLevel++
	}
	vt := s.getCurrentVariableTable()
	ref := map[string][]vcRecord{}
	names := []string{"$a", "$b", "$c", "$A"}
	a := newAnalyser()
	var log strings.Builder
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(vcViolation); ok {
				panic(vcViolation{v.Name + " after " + log.String()})
			}
			panic(p)
		}
	}()
	for ; n > 0; n-- {
		v := &Variable{}
		v.Name = names[r.Intn(len(names))]
		v.Location.Range.Start = vcPos(r)
		rec := vcRecord{v, vcPos(r), r.Intn(2) == 0}
		fmt.Fprintf(&log, "%s@%d:%d ", v.Name, rec.start.Line, rec.start.Character)
		if r.Intn(2) == 0 {
			vc_VariableTable_add(vt, a, v, rec.start, rec.decl)
		} else {
			vc_pushVariable(s, a, v, rec.start, rec.decl)
		}
		ref[v.Name] = vcRefPlace(ref[v.Name], rec)
		for _, name := range names {
			l := ref[name]
			got := vt.GetContextualVariables(name)
			vcEnsures("occurrences", len(got) == len(l))
			for i := range l {
				vcEnsures("occurrences", got[i].v == l[i].v && got[i].start == l[i].start && got[i].isDeclaration == l[i].decl)
			}
		}
		if r.Intn(4) > 0 {
			continue
		}
		for line := 0; line < 4; line++ {
			for c := 0; c < 4; c++ {
				p := protocol.Position{Line: line, Character: c}
				all := map[string]*Variable{}
				for _, name := range names {
					var want, before *Variable
					for _, rec := range ref[name] {
						if vcUpTo(rec.start, p) {
							want = rec.v
						}
						if !vcUpTo(p, rec.start) {
							before = rec.v
						}
					}
					if before != nil {
						all[name] = before
					}
					vc_VariableTable_get(vt, name, p)
					vcEnsures("latest", vt.get(name, p) == want)
				}
				vc_GetVariables(vt, p)
				got := vt.GetVariables(p)
				vcEnsures("variables in scope", len(got) == len(all))
				for _, v := range got {
					vcEnsures("variables in scope", all[v.Name] == v)
				}
			}
		}
	}
}

// vc_scopes: the scope at a position is the innermost one that contains it.
func vc_scopes(r *rand.Rand) {
	root := newVariableTable(protocol.Range{Start: protocol.Position{}, End: protocol.Position{Line: 9}}, 0)
	var fill func(t *VariableTable, d int)
	fill = func(t *VariableTable, d int) {
		var ps []protocol.Position
		for k := 2 * r.Intn(3); k > 0; k-- {
			p := vcPos(r)
			if vcUpTo(t.locationRange.Start, p) && vcUpTo(p, t.locationRange.End) {
				ps = append(ps, p)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return !vcUpTo(ps[j], ps[i]) })
		for i := 0; i+1 < len(ps); i += 2 {
			c := newVariableTable(protocol.Range{Start: ps[i], End: ps[i+1]}, d)
			t.addChild(c)
			if d < 4 {
				fill(c, d+1)
			}
		}
	}
	fill(root, 1)
	s := &Document{variableTables: []*VariableTable{root}}
	for line := 0; line < 5; line++ {
		for c := 0; c < 5; c++ {
			p := protocol.Position{Line: line, Character: c}
			want := root
			for again := true; again; {
				again = false
				for _, k := range want.children {
					if vcUpTo(k.locationRange.Start, p) && !vcUpTo(k.locationRange.End, p) {
						want, again = k, true
						break
					}
				}
			}
			vcEnsures("innermost scope", s.GetVariableTableAt(p) == want)
		}
	}
}

// vc_scope_doc: occurrences of a parsed document that has nested functions.
func vc_scope_doc(r *rand.Rand) {
	var b strings.Builder
	b.WriteString("<?php\n")
	type occ struct {
		name string
		pos  protocol.Position
		cls  string
	}
	var occs []occ
	line := 1
	names := []string{"$a", "$b"}
	for k := 1 + r.Intn(6); k > 0; k-- {
		name, cls := names[r.Intn(2)], fmt.Sprintf("\\C%d", line)
		text := fmt.Sprintf("%s = new %s();", name, cls)
		pad := strings.Repeat(" ", r.Intn(3))
		if r.Intn(3) == 0 {
			b.WriteString("function f" + fmt.Sprint(line) + "() {\n" + name + " = 1;\n}\n")
			line += 3
			continue
		}
		b.WriteString(pad + text + "\n")
		occs = append(occs, occ{name, protocol.Position{Line: line, Character: len(pad) + len(text) - 1}, cls})
		line++
	}
	d := NewDocument("file:///a.php", []byte(b.String()))
	d.Load()
	root := d.variableTables[0]
	for l := 0; l <= line; l++ {
		for _, c := range []int{0, 1, 4, 14, 15, 16, 17, 18, 30} {
			p := protocol.Position{Line: l, Character: c}
			for _, name := range names {
				want := ""
				for _, o := range occs {
					if o.name == name && vcUpTo(o.pos, p) {
						want = o.cls
					}
				}
				got := ""
				if v := root.get(name, p); v != nil {
					ts := v.GetTypes().Resolve()
					for _, t := range ts {
						if got == "" {
							got = t.GetFQN()
						}
					}
					vcEnsures("has types of the assignment in "+b.String(), want == "" || len(ts) > 0)
				}
				// the first type listed is the type assigned last
				vcEnsures(fmt.Sprintf("latest assignment of %s at %v in %q: %s", name, p, b.String(), got), want == "" || got == want)
			}
		}
	}
}

func TestVC_C12(t *testing.T) {
	h := vcNew(t, "C12", "variable tables")
	for h.more(6000) {
		seed, n := h.r.Int63(), 1+h.r.Intn(14)
		h.check(fmt.Sprint("seed ", seed, " occurrences ", n), func() { vc_scope(rand.New(rand.NewSource(seed)), n) })
	}
	s := vcNew(t, "C12", "scopes")
	for s.more(3000) {
		seed := s.r.Int63()
		s.check(fmt.Sprint("seed ", seed), func() { vc_scopes(rand.New(rand.NewSource(seed))) })
	}
	d := vcNew(t, "C12", "documents")
	for d.more(300) {
		seed := d.r.Int63()
		d.check(fmt.Sprint("seed ", seed), func() { vc_scope_doc(rand.New(rand.NewSource(seed))) })
	}
}
