//go:build verif

package protocol

// Specification of positions (property C05).

// before is the line-first order on positions.
func vc_before(a, b Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Character < b.Character
}

//vc:contract ComparePos props=C05
func vc_ComparePos(a, b Position) {
	r := ComparePos(a, b)
	vcEnsures("before", (r == -1) == vc_before(a, b))
	vcEnsures("equal", (r == 0) == (a == b))
	vcEnsures("after", (r == 1) == vc_before(b, a))
	vcEnsures("trichotomy", r == -1 || r == 0 || r == 1)
}

//vc:contract IsInRange props=C05
func vc_IsInRange(p Position, r Range) {
	vcRequires(!vc_before(r.End, r.Start))
	c := IsInRange(p, r)
	vcEnsures("inside", (c == 0) == (!vc_before(p, r.Start) && vc_before(p, r.End)))
	vcEnsures("left", (c < 0) == vc_before(p, r.Start))
	vcEnsures("right", (c > 0) == (!vc_before(p, r.Start) && !vc_before(p, r.End)))
	vcEnsures("sign", c == -1 || c == 0 || c == 1)
}

//vc:contract CompareRange props=C05
func vc_CompareRange(a, b Range) {
	vcRequires(!vc_before(a.End, a.Start) && !vc_before(b.End, b.Start))
	c := CompareRange(a, b)
	// ordered only if they do not overlap: one ends before the other starts
	vcEnsures("less", (c < 0) == vc_before(a.End, b.Start))
	vcEnsures("greater", (c > 0) == (!vc_before(a.End, b.Start) && !vc_before(a.Start, b.End)))
	vcEnsures("overlap", vcImp(!vc_before(a.End, b.Start) && vc_before(a.Start, b.End), c == 0))
	vcEnsures("sign", c == -1 || c == 0 || c == 1)
}

//vc:lemma props=C05
func vc_order_laws(a, b, c Position) {
	vcAssert("antisymmetric", ComparePos(a, b) == -ComparePos(b, a))
	vcAssert("reflexive", ComparePos(a, a) == 0)
	vcAssert("transitive", vcImp(ComparePos(a, b) <= 0 && ComparePos(b, c) <= 0, ComparePos(a, c) <= 0))
	vcAssert("transitive strict", vcImp(ComparePos(a, b) < 0 && ComparePos(b, c) <= 0, ComparePos(a, c) < 0))
}

//vc:lemma props=C05
func vc_range_laws(p Position, r Range, s Range) {
	vcRequires(ComparePos(r.Start, r.End) <= 0 && ComparePos(s.Start, s.End) <= 0)
	vcAssert("inside by ComparePos", (IsInRange(p, r) == 0) == (ComparePos(r.Start, p) <= 0 && ComparePos(p, r.End) < 0))
	vcAssert("ordered ranges share no position", vcImp(CompareRange(r, s) != 0, !(IsInRange(p, r) == 0 && IsInRange(p, s) == 0)))
	vcAssert("antisymmetric on proper ranges", vcImp(CompareRange(r, s) < 0, CompareRange(s, r) > 0))
}
