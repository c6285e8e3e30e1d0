//go:build verif

package analysis

import (
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// Specification of document text and line table (property C03).

// vcLineStart: a line starts at offset p > 0 of x, i.e. p follows LF, CR LF or a lone CR.
func vcLineStart(x []byte, p int) bool {
	return 0 < p && p <= len(x) && (x[p-1] == '\n' || x[p-1] == '\r' && !(p < len(x) && x[p] == '\n'))
}

// vcTable: t lists 0 and then exactly the line starts of x, in order.
func vcTable(x []byte, t []int) bool {
	return len(t) > 0 && t[0] == 0 &&
		vcForall(1, len(t), func(i int) bool {
			return vcLineStart(x, t[i]) && vcForall(0, i, func(j int) bool { return t[j] < t[i] })
		}) &&
		vcForall(0, len(t), func(i int) bool {
			return vcForall(t[i]+1, len(x)+1, func(p int) bool {
				return i+1 < len(t) && t[i+1] <= p || !vcLineStart(x, p)
			})
		})
}

//vc:contract calculateLineOffsets props=C03
func vc_calculateLineOffsets(text []byte, offset int) {
	vcRequires(offset == 0)
	offs, eol := calculateLineOffsets(text, offset)
	vcEnsures("table", vcTable(text, offs))
	vcEnsures("eol", eol == "\n" || eol == "\r\n" || eol == "\r")
}

//vc:loop calculateLineOffsets 0
func vcl_calculateLineOffsets(text, text_in []byte, n, offset int, isLineStart bool, lineOffsets []int, eol string) {
	vcInv("position", 0 <= n && n <= len(text_in) && vcSameSlice(text, text_in[n:]))
	vcInv("start", vcImp(isLineStart, n == 0 && len(lineOffsets) == 0) && vcImp(!isLineStart, len(lineOffsets) > 0 && lineOffsets[0] == 0))
	vcInv("starts", vcForall(1, len(lineOffsets), func(i int) bool {
		return vcLineStart(text_in, lineOffsets[i]) && vcForall(0, i, func(j int) bool { return lineOffsets[j] < lineOffsets[i] })
	}))
	vcInv("last", vcForall(0, len(lineOffsets), func(i int) bool { return lineOffsets[i] <= n }))
	vcInv("complete", vcForall(0, len(lineOffsets), func(i int) bool {
		return vcForall(lineOffsets[i]+1, n+1, func(p int) bool {
			return i+1 < len(lineOffsets) && lineOffsets[i+1] <= p || !vcLineStart(text_in, p)
		})
	}))
	vcInv("not between CR LF", vcImp(0 < n && n < len(text_in), !(text_in[n-1] == '\r' && text_in[n] == '\n')))
	vcInv("eol", eol == "\n" || eol == "\r\n" || eol == "\r")
	vcDecreases(len(text_in) - n)
}

//vc:contract (*Document).SetText props=C03
func vc_Document_SetText(s *Document, text []byte) {
	vcRequires(s != nil)
	vcModifies(&s.text, &s.lineOffsets, &s.detectedEOL)
	s.SetText(text)
	vcEnsures("text", vcSameSlice(s.text, text))
	vcEnsures("table", vcTable(s.text, s.lineOffsets))
}

//vc:verify NewDocument props=C03
func vc_NewDocument(uri string, text []byte) {
	d := NewDocument(uri, text)
	vcEnsures("text", vcSameSlice(d.text, text))
	vcEnsures("table", vcTable(d.text, d.lineOffsets))
	vcEnsures("uri", d.uri == uri)
	vcEnsures("must be analysed", d.hasChanges)
}

//vc:contract (*Document).CloneForMutate props=C03
func vc_CloneForMutate(s *Document) {
	vcRequires(s != nil && vcTable(s.text, s.lineOffsets))
	d := s.CloneForMutate()
	vcEnsures("fresh", d != nil && d != s && vcFresh(d))
	vcEnsures("text", vcSameSlice(d.text, s.text) && d.uri == s.uri && d.isOpen == s.isOpen)
	vcEnsures("table", vcTable(d.text, d.lineOffsets))
	vcEnsures("must be analysed", d.hasChanges && d.rootNode == nil && len(d.Children) == 0 && len(d.importTables) == 0 && len(d.variableTables) == 0)
}

// Analysing a document changes neither its text nor its line table: no function
// reachable from Load assigns those fields (checked by scan).
//
//vc:trusted (*Document).Load props=C03
//vc:opt scan=Document.text,Document.lineOffsets,Document.uri,Document.isOpen
func vc_Document_Load(s *Document) {
	vcRequires(s != nil)
	vcModifies(&s.rootNode, &s.variableTables, &s.variableTableLevel, &s.Children, &s.classStack, &s.lastPhpDoc, &s.hasChanges, &s.importTables, &s.insertUseContext, &s.blockStack)
	s.Load()
}

// vcEdited: y is x with the bytes [so,eo) replaced by t.
func vcEdited(y, x []byte, so, eo int, t string) bool {
	return len(y) == so+len(t)+len(x)-eo &&
		vcForall(0, so, func(i int) bool { return y[i] == x[i] }) &&
		vcForall(0, len(t), func(i int) bool { return y[so+i] == t[i] }) &&
		vcForall(eo, len(x), func(i int) bool { return y[so+len(t)+i-eo] == x[i] })
}

func vcTextIs(y []byte, t string) bool {
	return len(y) == len(t) && vcForall(0, len(t), func(i int) bool { return y[i] == t[i] })
}

// vcOrderedRange: the range of an edit starts at a valid position and does not end before it starts.
func vcOrderedRange(r *protocol.Range) bool {
	return r.Start.Line >= 0 && r.Start.Character >= 0 && r.End.Line >= 0 && r.End.Character >= 0 &&
		(r.Start.Line < r.End.Line || r.Start.Line == r.End.Line && r.Start.Character <= r.End.Character)
}

//vc:contract (*Document).ApplyChanges props=C03
func vc_ApplyChanges(s *Document, changes []protocol.TextDocumentContentChangeEvent) {
	vcRequires(s != nil && vcTable(s.text, s.lineOffsets))
	vcRequires(vcForall(0, len(changes), func(i int) bool { return changes[i].Range == nil || vcOrderedRange(changes[i].Range) }))
	vcModifies(&s.text, &s.lineOffsets, &s.detectedEOL, &s.rootNode, &s.variableTables, &s.variableTableLevel, &s.Children, &s.classStack, &s.lastPhpDoc, &s.hasChanges, &s.importTables, &s.insertUseContext, &s.blockStack)
	s.ApplyChanges(changes)
	vcEnsures("table", vcTable(s.text, s.lineOffsets))
}

//vc:loop (*Document).ApplyChanges 0
func vcl_ApplyChanges(s *Document, changes []protocol.TextDocumentContentChangeEvent, vcI int) {
	vcInv("table", vcTable(s.text, s.lineOffsets))
	// each iteration applies exactly the next change to the text, and all are applied
	old := vcAtHead(func() []byte { return s.text })
	tbl := vcAtHead(func() []int { return s.lineOffsets })
	if vcI > 0 && vcI <= len(changes) {
		c := changes[vcI-1]
		if c.Range == nil {
			vcStep("whole text", vcTextIs(s.text, c.Text))
		} else {
			vcStep("edit", vcEdited(s.text, old, vcOffset(old, tbl, c.Range.Start), vcOffset(old, tbl, c.Range.End), c.Text))
		}
	}
	vcAtExit("all changes", vcI == len(changes))
}
