SEEDS={
"C03-same-length-sync":dict(property="C03",pkg="analysis",
 edits=[("analysis/document.go","""		if change.Range == nil {
			s.SetText([]byte(change.Text))
			continue""","""		if change.Range == nil {
			text := []byte(change.Text)
			if len(text) == len(s.text) {
				// same size, the line table stays valid
				s.text = text
				continue
			}
			s.SetText(text)
			continue""")],
 test='''
package analysis

import (
	"reflect"
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func TestZZDemo(t *testing.T) {
	a := NewDocument("file:///a.php", []byte("<?php\\n$a;\\n"))
	b := "<?php $a;\\n"
	a.ApplyChanges([]protocol.TextDocumentContentChangeEvent{{Text: b}})
	want := NewDocument("file:///b.php", []byte(b))
	if !reflect.DeepEqual(a.lineOffsets, want.lineOffsets) {
		t.Fatalf("table %v, want %v", a.lineOffsets, want.lineOffsets)
	}
}
''',needs="a whole-document change to a text of the same byte length with line breaks elsewhere",breaks="the line table stays that of the previous text"),
"C03-edit-in-place":dict(property="C03",pkg="analysis",
 edits=[("analysis/document.go","""		newText := append(s.text[:0:0], s.text[0:startOffset]...)
		newText = append(newText, text...)
		newText = append(newText, s.text[endOffset:]...)
""","""		text = append(text, s.text[endOffset:]...)
		newText := append(s.text[:startOffset], text...)
""")],
 test='''
package analysis

import (
	"testing"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

func TestZZDemo(t *testing.T) {
	before := "<?php\\n$first = 1;\\n$second = 2;\\n"
	a := NewDocument("file:///a.php", []byte(before))
	b := a.CloneForMutate()
	b.ApplyChanges([]protocol.TextDocumentContentChangeEvent{{
		Range: &protocol.Range{Start: protocol.Position{Line: 1, Character: 1}, End: protocol.Position{Line: 1, Character: 6}},
		Text:  "x",
	}})
	if string(b.text) != "<?php\\n$x = 1;\\n$second = 2;\\n" {
		t.Fatalf("edited: %q", b.text)
	}
	if string(a.text) != before {
		t.Fatalf("the document the edited one was cloned from changed to %q", a.text)
	}
}
''',needs="a document cloned for mutation, whose clone is then edited with a result no longer than the buffer: the original shares the text's array",breaks="an edit of the clone overwrites the bytes of the document it was cloned from"),
"C03-cr-at-crlf-tail":dict(property="C03",pkg="analysis",
 edits=[("analysis/document.go","""				if nextR == '\\n' {
					text = text[size+nextSize:]""","""				if nextR == '\\n' || nextR == '\\r' && len(text) > size+nextSize {
					text = text[size+nextSize:]""")],
 test='''
package analysis

import (
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a := NewDocument("file:///a.php", []byte("<?php\\r\\r$a;\\r"))
	if want := []int{0, 6, 7, 11}; !reflect.DeepEqual(a.lineOffsets, want) {
		t.Fatalf("table %v, want %v", a.lineOffsets, want)
	}
}
''',needs="a text with two adjacent CRs not at its end",breaks="an empty line ended by a lone CR is swallowed"),
"C05-overlap-ordered":dict(property="C05",pkg="internal/lsp/protocol",
 edits=[("internal/lsp/protocol/util.go","""	if IsInRange(a.End, b) < 0 {""","""	if a.End.Line < b.Start.Line || (a.End.Line <= b.End.Line && a.End.Character < b.Start.Character) {""")],
 test='''
package protocol

import "testing"

func TestZZDemo(t *testing.T) {
	a := Range{Start: Position{Line: 1, Character: 4}, End: Position{Line: 5, Character: 0}}
	b := Range{Start: Position{Line: 3, Character: 4}, End: Position{Line: 7, Character: 9}}
	if got := CompareRange(a, b); got != 0 {
		t.Fatalf("overlapping ranges, got %d", got)
	}
}
''',needs="two overlapping multi-line ranges where the first ends at a smaller column than the second starts at",breaks="overlapping ranges are reported as ordered"),
}
