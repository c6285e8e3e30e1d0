From 1656f6bfa02103758bf911520de2f5fa4cf39a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 01/26] fix: a line after a lone CR starts after the CR, not at
 it

---
 analysis/document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/document.go b/analysis/document.go
index 4371962..7647284 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -152,7 +152,7 @@ func calculateLineOffsets(text []byte, offset int) ([]int, string) {
 					stopDetectingEol = true
 				}
 			}
-			lineOffsets = append(lineOffsets, n+offset)
+			lineOffsets = append(lineOffsets, n+offset+size)
 		} else if r == '\n' {
 			lineOffsets = append(lineOffsets, n+offset+size)
 		}
-- 
2.43.0


From 099cc77578604e8f729c882ac72448eacffbf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 02/26] fix: recompute the line table after a ranged edit

The spliced table kept stale offsets when an edit split or joined a CR LF
pair, ended beyond the last line, or started at a line that does not exist.
---
 analysis/document.go | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 7647284..71ef50a 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -574,24 +574,7 @@ func (s *Document) ApplyChanges(changes []protocol.TextDocumentContentChangeEven
 		newText := append(s.text[:0:0], s.text[0:startOffset]...)
 		newText = append(newText, text...)
 		newText = append(newText, s.text[endOffset:]...)
-		s.text = newText
-
-		min := start.Line + 1
-		if min > len(s.lineOffsets) {
-			min = len(s.lineOffsets)
-		}
-		newLineOffsets := append(s.lineOffsets[:0:0], s.lineOffsets[0:min]...)
-		lengthDiff := len(text) - (endOffset - startOffset)
-		offsets, eol := calculateLineOffsets(text, startOffset)
-		s.detectedEOL = eol
-		newLineOffsets = append(newLineOffsets, offsets[1:]...)
-		if end.Line+1 < len(s.lineOffsets) {
-			endLineOffsets := s.lineOffsets[end.Line+1:]
-			for _, endLineOffset := range endLineOffsets {
-				newLineOffsets = append(newLineOffsets, endLineOffset+lengthDiff)
-			}
-		}
-		s.lineOffsets = newLineOffsets
+		s.SetText(newText)
 	}
 	util.TimeTrack(start, "contentChanges")
 	start = time.Now()
-- 
2.43.0


From 04d08ecadf8b482c732f6cd3d5089eee8ed2cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 03/26] fix: count columns in UTF-16 code units and stop at the
 end of the line

Offsets were converted with byte columns one way and rune columns the other,
a column past the end of the line ran into the following lines, and a line
past the end of the text meant the last line.
---
 analysis/document.go | 47 ++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/analysis/document.go b/analysis/document.go
index 71ef50a..8dc2f26 100644
--- a/analysis/document.go
+++ b/analysis/document.go
@@ -183,30 +183,47 @@ func (s *Document) offsetAtLine(line int) int {
 
 func (s *Document) positionAt(offset int) protocol.Position {
 	line := s.lineAt(offset)
+	character := 0
+	for i := s.lineOffsets[line]; i < offset && i < len(s.text); {
+		r, size := utf8.DecodeRune(s.text[i:])
+		character += utf16Width(r)
+		i += size
+	}
 	return protocol.Position{
 		Line:      line,
-		Character: offset - s.lineOffsets[line],
+		Character: character,
 	}
 }
 
+// OffsetAtPosition returns the offset of the position, a column past the end of
+// the line means the end of the line, a line past the end means the end of the text
 func (s *Document) OffsetAtPosition(pos protocol.Position) int {
+	if pos.Line >= len(s.lineOffsets) {
+		return len(s.text)
+	}
 	offset := s.offsetAtLine(pos.Line)
-	offsetCharacter := 0
-	for i := 0; i < pos.Character; i++ {
-		_, size := utf8.DecodeRune(s.text[offset+offsetCharacter:])
-		offsetCharacter += size
-	}
-	offset += offsetCharacter
-	min := 0
-	if offset < len(s.text) {
-		min = offset
-	} else {
-		min = len(s.text)
+	character := 0
+	for offset < len(s.text) {
+		r, size := utf8.DecodeRune(s.text[offset:])
+		if r == '\r' || r == '\n' {
+			break
+		}
+		character += utf16Width(r)
+		if character > pos.Character {
+			break
+		}
+		offset += size
 	}
-	if 0 > min {
-		return 0
+	return offset
+}
+
+// utf16Width returns the number of UTF-16 code units of the rune, which is what
+// LSP clients count columns in
+func utf16Width(r rune) int {
+	if r >= 0x10000 {
+		return 2
 	}
-	return min
+	return 1
 }
 
 // NodeRange returns the lsp range of the given node
-- 
2.43.0


From db029c33fd4b5b2569edd18a29b74b0830e372d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 04/26] fix: count array dimensions of any type name

A name such as "]" made NewTypeString index before the start of the
string, and one made of "[]" only kept its dimensions in the base name.
---
 analysis/symbolType.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index a64ef82..7c70f17 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -64,12 +64,8 @@ func (t *TypeString) MarshalJSON() ([]byte, error) {
 }
 
 func (t TypeString) resolveRawWithArrayLevel() TypeString {
-	o := t.original
-	for i := len(o) - 1; i >= 0; i -= 2 {
-		if o[i] != ']' || o[i-1] != '[' {
-			t.original = o[:i+1]
-			break
-		}
+	for strings.HasSuffix(t.original, "[]") {
+		t.original = t.original[:len(t.original)-2]
 		t.arrayLevel++
 	}
 	return t
-- 
2.43.0


From 71872353ffa50651a02218bdacd54292887febb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 05/26] fix: keep types that differ only in array dimensions

TypeComposite took Foo[] for already present when it held Foo, so
"Foo|Foo[]" lost one of its types.
---
 analysis/symbolType.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index 7c70f17..fde5341 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -218,9 +218,9 @@ func (t TypeComposite) MarshalJSON() ([]byte, error) {
 	return json.Marshal(t.typeStrings)
 }
 
-func (t *TypeComposite) hasFQN(fqn string) bool {
+func (t *TypeComposite) has(other TypeString) bool {
 	for _, typeString := range t.typeStrings {
-		if typeString.GetFQN() == fqn {
+		if typeString.GetFQN() == other.GetFQN() && typeString.arrayLevel == other.arrayLevel {
 			return true
 		}
 	}
@@ -228,7 +228,7 @@ func (t *TypeComposite) hasFQN(fqn string) bool {
 }
 
 func (t *TypeComposite) add(typeString TypeString) {
-	if t.hasFQN(typeString.GetFQN()) {
+	if t.has(typeString) {
 		return
 	}
 	t.typeStrings = append(t.typeStrings, typeString)
-- 
2.43.0


From 7b945acc942d97eb4ee8698685b06d202b17ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 06/26] fix: copies of a type set do not share appended types

Variable.GetTypes appends to its scope's types; with spare capacity two
variables sharing a scope overwrote each other's type.
---
 analysis/symbolType.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analysis/symbolType.go b/analysis/symbolType.go
index fde5341..6dbda6b 100644
--- a/analysis/symbolType.go
+++ b/analysis/symbolType.go
@@ -231,7 +231,9 @@ func (t *TypeComposite) add(typeString TypeString) {
 	if t.has(typeString) {
 		return
 	}
-	t.typeStrings = append(t.typeStrings, typeString)
+	// Composites are copied by value, the copies must not share what is appended
+	n := len(t.typeStrings)
+	t.typeStrings = append(t.typeStrings[:n:n], typeString)
 }
 
 func (t *TypeComposite) merge(types TypeComposite) {
-- 
2.43.0


From 42cb396c85d4c4426c6177d996fd1149b9fced08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 07/26] fix: resolve function, constant and class names by
 PHP's import rules

Fully qualified names stand for themselves, qualified names keep their remaining
segments after an import, the namespaced function or constant is preferred to the
global one, aliases of classes and functions are case-insensitive.
---
 analysis/functionCall.go |   4 +-
 analysis/importTable.go  | 146 +++++++++++++++++++++++----------------
 analysis/use.go          |  10 ++-
 3 files changed, 98 insertions(+), 62 deletions(-)

diff --git a/analysis/functionCall.go b/analysis/functionCall.go
index 554803e..c7797a5 100644
--- a/analysis/functionCall.go
+++ b/analysis/functionCall.go
@@ -79,7 +79,7 @@ func (s *FunctionCall) Resolve(ctx ResolveContext) {
 	q := ctx.query
 	s.hasResolved = true
 	typeString := NewTypeString(s.Name)
-	functions := q.GetFunctions(document.currImportTable().GetFunctionReferenceFQN(ctx.query, typeString))
+	functions := q.GetFunctions(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(ctx.query, typeString))
 	for _, function := range functions {
 		s.Type.merge(function.returnTypes)
 	}
@@ -94,7 +94,7 @@ func (s *FunctionCall) ResolveToHasParams(ctx ResolveContext) []HasParams {
 	typeString := NewTypeString(s.Name)
 	q := ctx.query
 	document := ctx.document
-	typeString.SetFQN(document.currImportTable().GetFunctionReferenceFQN(q, typeString))
+	typeString.SetFQN(document.ImportTableAtPos(s.Location.Range.Start).GetFunctionReferenceFQN(q, typeString))
 	for _, function := range q.GetFunctions(typeString.GetFQN()) {
 		functions = append(functions, function)
 	}
diff --git a/analysis/importTable.go b/analysis/importTable.go
index dfcd52c..d6dd814 100644
--- a/analysis/importTable.go
+++ b/analysis/importTable.go
@@ -73,14 +73,39 @@ func (i *ImportTable) setNamespace(namespace *Namespace) {
 	i.namespace = namespace
 }
 
+// findImport looks up the import which the first part of a name refers to,
+// aliases of classes, namespaces and functions are case-insensitive
+func findImport(items map[string]*importItem, alias string) (*importItem, bool) {
+	if item, ok := items[alias]; ok {
+		return item, true
+	}
+	if IsFQN(alias) {
+		return nil, false
+	}
+	for key, item := range items {
+		if strings.EqualFold(key, alias) {
+			return item, true
+		}
+	}
+	return nil, false
+}
+
+// fqnWith returns the FQN of a name which has the import as its first part
+func (i *importItem) fqnWith(parts []string) string {
+	fqn := "\\" + i.name
+	if len(parts) > 0 {
+		fqn += "\\" + strings.Join(parts, "\\")
+	}
+	return fqn
+}
+
 func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return name.GetFQN()
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
-	if item, ok := i.classes[firstPart]; ok {
-		fqn := "\\" + item.name
-		if len(parts) > 0 {
-			fqn += "\\" + strings.Join(parts, "\\")
-		}
-		name.SetFQN(fqn)
+	if item, ok := findImport(i.classes, firstPart); ok {
+		name.SetFQN(item.fqnWith(parts))
 		i.useClass(firstPart)
 	} else {
 		name.SetNamespace(i.GetNamespace())
@@ -89,27 +114,18 @@ func (i ImportTable) GetClassReferenceFQN(name TypeString) string {
 }
 
 func (i ImportTable) GetFunctionReferenceFQN(q *Query, name TypeString) string {
-	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.functions
-	if len(parts) > 0 {
-		aliasTable = i.classes
-	}
-
-	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	functions := q.GetFunctions(fqn)
-	if len(functions) > 0 {
-		return fqn
+	fqns := i.FunctionPossibleFQNs(name)
+	for _, fqn := range fqns {
+		functions := q.GetFunctions(fqn)
+		if len(functions) > 0 {
+			return fqn
+		}
 	}
-	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	return fqns[0]
 }
 
+// FunctionPossibleFQNs returns the FQNs that the name of a function may refer to,
+// the first one which is declared is the one it refers to
 func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
 	firstPart, parts := name.GetFirstAndRestParts()
 	aliasTable := i.functions
@@ -117,48 +133,54 @@ func (i ImportTable) FunctionPossibleFQNs(name TypeString) []string {
 		aliasTable = i.classes
 	}
 	results := []string{}
-	if item, ok := aliasTable[firstPart]; ok {
-		results = append(results, "\\"+item.name)
-		return results
-	}
-	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	results = append(results, fqn)
-	name.SetNamespace(i.GetNamespace())
-	if name.GetFQN() != fqn {
-		results = append(results, name.GetFQN())
+	if !strings.HasPrefix(name.GetFQN(), "\\") {
+		if item, ok := findImport(aliasTable, firstPart); ok {
+			results = append(results, item.fqnWith(parts))
+			return results
+		}
 	}
-	return results
+	return append(results, i.possibleFQNs(name)...)
 }
 
 func (i ImportTable) GetConstReferenceFQN(q *Query, name TypeString) string {
 	firstPart, parts := name.GetFirstAndRestParts()
-	aliasTable := i.constants
-	if len(parts) > 0 {
-		aliasTable = i.classes
+	if !strings.HasPrefix(name.GetFQN(), "\\") {
+		item, ok := i.constants[firstPart]
+		if len(parts) > 0 {
+			item, ok = findImport(i.classes, firstPart)
+		}
+		if ok {
+			return item.fqnWith(parts)
+		}
 	}
-
-	if item, ok := aliasTable[firstPart]; ok {
-		return "\\" + item.name
+	fqns := i.possibleFQNs(name)
+	for _, fqn := range fqns {
+		constants := q.GetConsts(fqn)
+		if len(constants) > 0 {
+			return fqn
+		}
+		// TODO: Defines do not have implicit namespace except
+		// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
+		defines := q.GetDefines(fqn)
+		if len(defines) > 0 {
+			return fqn
+		}
 	}
+	return fqns[0]
+}
+
+// possibleFQNs returns the FQNs that the name of a function or a constant may refer to
+// when it is not imported, unqualified names fall back to the global one
+func (i ImportTable) possibleFQNs(name TypeString) []string {
 	fqn := name.GetFQN()
-	if !IsFQN(fqn) {
-		fqn = "\\" + fqn
-	}
-	constants := q.GetConsts(fqn)
-	if len(constants) > 0 {
-		return fqn
-	}
-	// TODO: Defines do not have implicit namespace except
-	// explicitly stated, e.g. define(__NAMESPACE__ . '\const1', true)
-	defines := q.GetDefines(fqn)
-	if len(defines) > 0 {
-		return fqn
-	}
 	name.SetNamespace(i.GetNamespace())
-	return name.GetFQN()
+	results := []string{name.GetFQN()}
+	if !IsFQN(fqn) && !strings.Contains(fqn, "\\") {
+		if fqn = "\\" + fqn; fqn != name.GetFQN() {
+			results = append(results, fqn)
+		}
+	}
+	return results
 }
 
 func (i ImportTable) ResolveToQualified(document *Document, symbol Symbol, name TypeString, word string) (string, *protocol.TextEdit) {
@@ -222,13 +244,13 @@ func (i ImportTable) ResolveScopeNamespace(word string) string {
 }
 
 func (i *ImportTable) useClass(name string) {
-	if item, ok := i.classes[name]; ok {
+	if item, ok := findImport(i.classes, name); ok {
 		item.isUsed = true
 	}
 }
 
 func (i *ImportTable) useFunction(name string) {
-	if item, ok := i.functions[name]; ok {
+	if item, ok := findImport(i.functions, name); ok {
 		item.isUsed = true
 	}
 }
@@ -240,6 +262,9 @@ func (i *ImportTable) useConstant(name string) {
 }
 
 func (i *ImportTable) useFunctionOrClass(name TypeString) {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
@@ -249,6 +274,9 @@ func (i *ImportTable) useFunctionOrClass(name TypeString) {
 }
 
 func (i *ImportTable) useConstOrClass(name TypeString) {
+	if strings.HasPrefix(name.GetFQN(), "\\") {
+		return
+	}
 	firstPart, parts := name.GetFirstAndRestParts()
 	if len(parts) > 0 {
 		i.useClass(firstPart)
diff --git a/analysis/use.go b/analysis/use.go
index e1948eb..f27a2e8 100644
--- a/analysis/use.go
+++ b/analysis/use.go
@@ -95,6 +95,7 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 
 				name := ""
 				alias := ""
+				clauseType := useType
 				child = traverser.Advance()
 				for child != nil {
 					if p, ok = child.(*phrase.Phrase); ok {
@@ -104,11 +105,18 @@ func processNamespaceUseGroupClauseList(document *Document, prefix string, useTy
 						case phrase.NamespaceAliasingClause:
 							alias = getAliasFromNode(document, p)
 						}
+					} else if t, ok := child.(*lexer.Token); ok {
+						switch t.Type {
+						case lexer.Function:
+							clauseType = UseFunction
+						case lexer.Const:
+							clauseType = UseConst
+						}
 					}
 					child = traverser.Advance()
 				}
 				name = prefix + "\\" + name
-				addUseToImportTable(document, useType, alias, name, document.NodeRange(p))
+				addUseToImportTable(document, clauseType, alias, name, document.NodeRange(p))
 
 				traverser, err = traverser.Ascend()
 				if err != nil {
-- 
2.43.0


From 594addde70476c60633771f9866d908b743e832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:00 +0000
Subject: [PATCH 08/26] fix: stop collecting class constants and properties of
 cyclic classes

---
 analysis/query.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index c7288fe..6c39e83 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -654,8 +654,13 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	for len(classes) > 0 {
 		var class *Class
 		class, classes = classes[0], classes[1:]
+		scope := class.Name.GetFQN()
+		if _, ok := searchedFQNs[scope]; ok {
+			continue
+		}
+		searchedFQNs[scope] = struct{}{}
 		classConsts.Consts = append(classConsts.Consts,
-			classConstWithScopeFromConsts(class, q.GetClassConsts(class.Name.GetFQN(), name))...)
+			classConstWithScopeFromConsts(class, q.GetClassConsts(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classConsts.RelationMap.Relate(class.Name.GetFQN(), class.Extends.GetFQN())
@@ -898,7 +903,12 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
 		class, classes = classes[0], classes[1:]
-		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(class.Name.GetFQN(), name))...)
+		scope := class.Name.GetFQN()
+		if _, ok := searchedFQNs[scope]; ok {
+			continue
+		}
+		searchedFQNs[scope] = struct{}{}
+		props.Props = append(props.Props, propWithScopeFromProps(class, q.GetProps(scope, name))...)
 		if !class.Extends.IsEmpty() {
 			if _, ok := searchedFQNs[class.Extends.GetFQN()]; !ok {
 				classes = append(classes, q.GetClasses(class.Extends.GetFQN())...)
-- 
2.43.0


From cd1efb9e4f38a56cc6d5a93d209009f53315e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:14 +0000
Subject: [PATCH 09/26] fix: offer inherited members by one rule, whatever was
 queried before

---
 analysis/query.go | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index 6c39e83..f58446a 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -226,6 +226,9 @@ func IsInheritedStatic(currentClass string, access MemberAccess, relationMap Rel
 	if visibility == Public {
 		return true
 	}
+	if visibility == Private {
+		return memberScopeFQN == currentClass
+	}
 	var (
 		isSameClass bool
 		isRelated   bool
@@ -238,7 +241,6 @@ func IsInheritedStatic(currentClass string, access MemberAccess, relationMap Rel
 		}
 		if relationMap.IsRelated(memberScopeFQN, fqn) {
 			isRelated = true
-			break
 		}
 	}
 	return isSameClass || (isRelated && visibility == Protected)
@@ -268,7 +270,6 @@ func IsInherited(currentClass string, access MemberAccess, relationMap RelationM
 		}
 		if relationMap.IsRelated(memberScopeFQN, fqn) {
 			isRelated = true
-			break
 		}
 	}
 	return isSameClass || (isRelated && visibility == Protected)
@@ -404,6 +405,7 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 			return methods
 		}
 	}
+	isComplete := len(searchedFQNs) == 0
 	methods := NewInheritedMethods(nil, searchedFQNs)
 	methodsFromInterfaces := NewInheritedMethods(nil, searchedFQNs)
 	for len(classes) > 0 {
@@ -438,7 +440,9 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 		}
 	}
 	methods.Merge(methodsFromInterfaces)
-	q.cache[cacheKey] = methods
+	if isComplete {
+		q.cache[cacheKey] = methods
+	}
 	return methods
 }
 
@@ -456,6 +460,7 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			return methods
 		}
 	}
+	isComplete := len(searchedFQNs) == 0
 	methods := NewInheritedMethods(nil, searchedFQNs)
 	for len(interfaces) > 0 {
 		var intf *Interface
@@ -477,7 +482,9 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 			}
 		}
 	}
-	q.cache[cacheKey] = methods
+	if isComplete {
+		q.cache[cacheKey] = methods
+	}
 	return methods
 }
 
@@ -503,7 +510,7 @@ func (q *Query) SearchClassMethods(class *Class, keyword string, searchedFQNs ma
 	}
 	methods := q.GetClassMethods(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -523,7 +530,7 @@ func (q *Query) SearchInterfaceMethods(intf *Interface, keyword string, searched
 	}
 	methods := q.GetInterfaceMethods(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := methods.Methods[:0]
+		newMethods := []MethodWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, method := range methods.Methods {
 			if matched, score := isMatch(method.Method.Name, patternRune); matched {
@@ -649,6 +656,7 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	if searchedFQNs == nil {
 		searchedFQNs = make(map[string]struct{})
 	}
+	isComplete := len(searchedFQNs) == 0
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
 	classConstsFromInterfaces := NewInheritedClassConst(nil, searchedFQNs)
 	for len(classes) > 0 {
@@ -678,7 +686,9 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 		}
 	}
 	classConsts.Merge(classConstsFromInterfaces)
-	q.cache[cacheKey] = classConsts
+	if isComplete {
+		q.cache[cacheKey] = classConsts
+	}
 	return classConsts
 }
 
@@ -696,6 +706,7 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 			return cc
 		}
 	}
+	isComplete := len(searchedFQNs) == 0
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
 	for len(interfaces) > 0 {
 		intf, interfaces = interfaces[0], interfaces[1:]
@@ -718,7 +729,9 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 			}
 		}
 	}
-	q.cache[cacheKey] = classConsts
+	if isComplete {
+		q.cache[cacheKey] = classConsts
+	}
 	return classConsts
 }
 
@@ -729,7 +742,7 @@ func (q *Query) SearchClassClassConsts(class *Class, keyword string, searchedFQN
 	}
 	classConsts := q.GetClassClassConsts(class, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := []ClassConstWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -749,7 +762,7 @@ func (q *Query) SearchInterfaceClassConsts(intf *Interface, keyword string, sear
 	}
 	classConsts := q.GetInterfaceClassConsts(intf, "", searchedFQNs)
 	if keyword != "" {
-		newMethods := classConsts.Consts[:0]
+		newMethods := []ClassConstWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, classConst := range classConsts.Consts {
 			if matched, score := isMatch(classConst.Const.Name, patternRune); matched {
@@ -899,6 +912,7 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 			return p
 		}
 	}
+	isComplete := len(searchedFQNs) == 0
 	props := NewInheritedProps(nil, searchedFQNs)
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
@@ -924,7 +938,9 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		}
 	}
 	props.Merge(propsFromInterfaces)
-	q.cache[cacheKey] = props
+	if isComplete {
+		q.cache[cacheKey] = props
+	}
 	return props
 }
 
@@ -942,6 +958,7 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			return p
 		}
 	}
+	isComplete := len(searchedFQNs) == 0
 	props := NewInheritedProps(nil, searchedFQNs)
 	for len(interfaces) > 0 {
 		intf, interfaces = interfaces[0], interfaces[1:]
@@ -962,7 +979,9 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 			}
 		}
 	}
-	q.cache[cacheKey] = props
+	if isComplete {
+		q.cache[cacheKey] = props
+	}
 	return props
 }
 
@@ -973,7 +992,7 @@ func (q *Query) SearchClassProps(class *Class, keyword string, searchedFQNs map[
 	}
 	props := q.GetClassProps(class, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
@@ -993,7 +1012,7 @@ func (q *Query) SearchInterfaceProps(intf *Interface, keyword string, searchedFQ
 	}
 	props := q.GetInterfaceProps(intf, "", searchedFQNs)
 	if keyword != "" {
-		newProps := props.Props[:0]
+		newProps := []PropWithScope{}
 		patternRune := []rune(strings.ToLower(keyword))
 		for _, prop := range props.Props {
 			if matched, score := isMatch(prop.Prop.Name, patternRune); matched {
-- 
2.43.0


From 5ce9eafe0d359e1ca09dffe03e700b7a75f0f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:58 +0000
Subject: [PATCH 10/26] fix: collect the members of a class or interface once
 per query

A collection that already visited some names took the cached collection of a
class or interface as a whole, so the members of an interface implemented in
several places were collected once per place. Use the cache only for
collections that start from nothing, as those are the ones that are cached.
---
 analysis/query.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/analysis/query.go b/analysis/query.go
index f58446a..ff52b9d 100644
--- a/analysis/query.go
+++ b/analysis/query.go
@@ -400,12 +400,12 @@ func (q *Query) GetClassMethods(class *Class, name string, searchedFQNs map[stri
 		searchedFQNs = map[string]struct{}{}
 	}
 	cacheKey := "ClassMethods" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isComplete := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isComplete {
 		if methods, ok := data.(InheritedMethods); ok {
 			return methods
 		}
 	}
-	isComplete := len(searchedFQNs) == 0
 	methods := NewInheritedMethods(nil, searchedFQNs)
 	methodsFromInterfaces := NewInheritedMethods(nil, searchedFQNs)
 	for len(classes) > 0 {
@@ -455,12 +455,12 @@ func (q *Query) GetInterfaceMethods(intf *Interface, name string, searchedFQNs m
 		searchedFQNs = make(map[string]struct{})
 	}
 	cacheKey := "InterfaceMethods" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isComplete := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isComplete {
 		if methods, ok := data.(InheritedMethods); ok {
 			return methods
 		}
 	}
-	isComplete := len(searchedFQNs) == 0
 	methods := NewInheritedMethods(nil, searchedFQNs)
 	for len(interfaces) > 0 {
 		var intf *Interface
@@ -645,7 +645,8 @@ func (q *Query) GetClassConsts(scope string, name string) []*ClassConst {
 // GetClassClassConsts returns the inherited class const
 func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[string]struct{}) InheritedClassConst {
 	cacheKey := "ClassClassConst" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isComplete := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isComplete {
 		if classConsts, ok := data.(InheritedClassConst); ok {
 			return classConsts
 		}
@@ -656,7 +657,6 @@ func (q *Query) GetClassClassConsts(class *Class, name string, searchedFQNs map[
 	if searchedFQNs == nil {
 		searchedFQNs = make(map[string]struct{})
 	}
-	isComplete := len(searchedFQNs) == 0
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
 	classConstsFromInterfaces := NewInheritedClassConst(nil, searchedFQNs)
 	for len(classes) > 0 {
@@ -701,12 +701,12 @@ func (q *Query) GetInterfaceClassConsts(intf *Interface, name string, searchedFQ
 		searchedFQNs = make(map[string]struct{})
 	}
 	cacheKey := "InterfaceClassConst" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isComplete := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isComplete {
 		if cc, ok := data.(InheritedClassConst); ok {
 			return cc
 		}
 	}
-	isComplete := len(searchedFQNs) == 0
 	classConsts := NewInheritedClassConst(nil, searchedFQNs)
 	for len(interfaces) > 0 {
 		intf, interfaces = interfaces[0], interfaces[1:]
@@ -907,12 +907,12 @@ func (q *Query) GetClassProps(class *Class, name string, searchedFQNs map[string
 		searchedFQNs = map[string]struct{}{}
 	}
 	cacheKey := "ClassProps" + sep + class.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isComplete := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isComplete {
 		if p, ok := data.(InheritedProps); ok {
 			return p
 		}
 	}
-	isComplete := len(searchedFQNs) == 0
 	props := NewInheritedProps(nil, searchedFQNs)
 	propsFromInterfaces := NewInheritedProps(nil, searchedFQNs)
 	for len(classes) > 0 {
@@ -953,12 +953,12 @@ func (q *Query) GetInterfaceProps(intf *Interface, name string, searchedFQNs map
 		searchedFQNs = make(map[string]struct{})
 	}
 	cacheKey := "InterfaceProps" + sep + intf.Name.GetFQN() + "::" + name
-	if data, ok := q.cache[cacheKey]; ok {
+	isComplete := len(searchedFQNs) == 0
+	if data, ok := q.cache[cacheKey]; ok && isComplete {
 		if p, ok := data.(InheritedProps); ok {
 			return p
 		}
 	}
-	isComplete := len(searchedFQNs) == 0
 	props := NewInheritedProps(nil, searchedFQNs)
 	for len(interfaces) > 0 {
 		intf, interfaces = interfaces[0], interfaces[1:]
-- 
2.43.0


From 6bb0818b6998d5f549d9634a1e04793040bb0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 11/26] fix: convert between file paths and URIs without loss

PathToURI escaped every component and then escaped the result again, and
URIToPath unescaped the path that url.Parse had unescaped already: a client's
URI of a path with a plus or a percent sign led to another path or to none.
A colon anywhere made a Unix path a Windows one, and indexing unescaped URIs
once more before it looked the file up.
---
 util/uri.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/util/uri.go b/util/uri.go
index 44fedda..6993874 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"runtime"
 	"strings"
 )
 
@@ -21,13 +22,9 @@ func URIToPath(uri string) (string, error) {
 	if urlIns.Scheme != "file" {
 		return "", errors.New("cannot convert non-file URI")
 	}
-	filePath, err := url.QueryUnescape(urlIns.Path)
+	filePath := urlIns.Path
 
-	if err != nil {
-		return "", err
-	}
-
-	if strings.Contains(filePath, ":") {
+	if runtime.GOOS == "windows" && strings.Contains(filePath, ":") {
 		filePath = strings.TrimPrefix(filePath, "/")
 		filePath = strings.Replace(filePath, "/", "\\", -1)
 	}
@@ -37,23 +34,15 @@ func URIToPath(uri string) (string, error) {
 
 // PathToURI converts file path to URI
 func PathToURI(path string) string {
-	urlIns := new(url.URL)
-	path = strings.Replace(strings.Trim(path, "/"), "\\", "/", -1)
-	parts := strings.Split(path, "/")
-	first, parts := parts[0], parts[1:]
-
-	if !strings.HasSuffix(first, ":") {
-		first = url.QueryEscape(first)
+	if runtime.GOOS == "windows" {
+		path = strings.Replace(path, "\\", "/", -1)
 	}
-
-	tempParts := parts[:0]
-	for _, part := range parts {
-		tempParts = append(tempParts, url.QueryEscape(part))
+	if !strings.HasPrefix(path, "/") {
+		path = "/" + path
 	}
-	parts = append([]string{first}, tempParts...)
-
+	urlIns := new(url.URL)
 	urlIns.Scheme = "file"
-	urlIns.Path = "/" + strings.Join(parts, "/")
+	urlIns.Path = path
 
 	return urlIns.String()
 }
@@ -110,15 +99,12 @@ func IsURINavigatable(uri string) bool {
 	return strings.HasPrefix(uri, "file://")
 }
 
+// DecodeURIFromQuery normalises the escapes of the given URI
 func DecodeURIFromQuery(uri string) (string, error) {
-	uri, err := url.QueryUnescape(uri)
-	if err != nil {
-		return "", fmt.Errorf("workspaceStore.getStore cannot QueryUnescape %s, err: %v", uri, err)
-	}
 	u, err := url.Parse(uri)
 	if err != nil {
 		return "", fmt.Errorf("workspaceStore.getStore cannot Parse %s, err: %v", uri, err)
 	}
-	uri = u.String()
-	return uri, nil
+	u.RawPath = ""
+	return u.String(), nil
 }
-- 
2.43.0


From c44eca8dd2a144d2408074720a45754a26072e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:08 +0000
Subject: [PATCH 12/26] fix: serve, remove and delete by whole path components

---
 analysis/store.go              |  2 +-
 internal/lsp/workspaceStore.go | 12 +++++++-----
 util/uri.go                    |  6 ++++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index 2ba2f37..27f869a 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -383,7 +383,7 @@ func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
 
 // DeleteFolder searches for documents and triggers `DeleteDocument`
 func (s *Store) DeleteFolder(uri protocol.DocumentURI) {
-	entry := newEntry(documentCollection, uri)
+	entry := newEntry(documentCollection, strings.TrimSuffix(uri, "/")+"/")
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		uri := strings.Split(string(it.Key()), KeySep)[1]
 		s.DeleteDocument(uri)
diff --git a/internal/lsp/workspaceStore.go b/internal/lsp/workspaceStore.go
index 31603cf..219ffcd 100644
--- a/internal/lsp/workspaceStore.go
+++ b/internal/lsp/workspaceStore.go
@@ -143,12 +143,11 @@ func (s *workspaceStore) addView(ctx context.Context, server *Server, uri protoc
 }
 
 func (s *workspaceStore) removeView(ctx context.Context, server *Server, uri protocol.DocumentURI) {
-	store := s.getStore(uri)
+	store := s.removeStore(uri)
 	if store == nil {
 		return
 	}
 	defer store.Close()
-	s.removeStore(store.GetURI())
 	s.unregisterFileWatcher(ctx, uri, server)
 }
 
@@ -216,20 +215,23 @@ func (s *workspaceStore) indexFolder(ctx context.Context, store *analysis.Store,
 
 func (s *workspaceStore) getStore(uri protocol.DocumentURI) *analysis.Store {
 	for _, store := range s.stores {
-		if strings.HasPrefix(uri, store.GetURI()) {
+		if util.IsURIInFolder(uri, store.GetURI()) {
 			return store
 		}
 	}
 	return nil
 }
 
-func (s *workspaceStore) removeStore(uri protocol.DocumentURI) {
+// removeStore takes out and returns the store of exactly the given folder, nil
+// is returned if the folder is not opened
+func (s *workspaceStore) removeStore(uri protocol.DocumentURI) *analysis.Store {
 	for i, store := range s.stores {
 		if store.GetURI() == uri {
 			s.stores = append(s.stores[:i], s.stores[i+1:]...)
-			break
+			return store
 		}
 	}
+	return nil
 }
 
 func (s *workspaceStore) removeDocument(store *analysis.Store, uri string) {
diff --git a/util/uri.go b/util/uri.go
index 6993874..6073644 100644
--- a/util/uri.go
+++ b/util/uri.go
@@ -108,3 +108,9 @@ func DecodeURIFromQuery(uri string) (string, error) {
 	u.RawPath = ""
 	return u.String(), nil
 }
+
+// IsURIInFolder returns true if the URI is the given folder or is of something inside it
+func IsURIInFolder(uri string, folder string) bool {
+	folder = strings.TrimSuffix(folder, "/")
+	return uri == folder || strings.HasPrefix(uri, folder+"/")
+}
-- 
2.43.0


From 7df5f520aa6decaeebc62ef2fbf02bf5b78826c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 13/26] fix: keep the class constants of every file, look them
 up by their whole name

---
 analysis/classConst.go | 2 +-
 analysis/store.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index c4036d4..4691308 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -124,7 +124,7 @@ func (s *ClassConst) GetCollection() string {
 }
 
 func (s *ClassConst) GetKey() string {
-	return s.Scope.fqn + KeySep + s.Name
+	return s.Scope.fqn + KeySep + s.Name + KeySep + s.location.URI
 }
 
 func (s *ClassConst) GetIndexableName() string {
diff --git a/analysis/store.go b/analysis/store.go
index 27f869a..f5e6e03 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -997,7 +997,7 @@ func (s *Store) SearchMethods(scope string, keyword string, options SearchOption
 // storage.
 // The word class is used loosely in here which means it can be interfaces/traits
 func (s *Store) GetClassConsts(scope string, name string) []*ClassConst {
-	entry := newEntry(classConstCollection, scope+KeySep+name)
+	entry := newEntry(classConstCollection, scope+KeySep+name+KeySep)
 	classConsts := []*ClassConst{}
 	s.db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		d := storage.NewDecoder(it.Value())
-- 
2.43.0


From 565f8fd7336939b6b4c78e253f6b52544195ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:50 +0000
Subject: [PATCH 14/26] fix: close and clear the completion database with the
 store

---
 analysis/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analysis/store.go b/analysis/store.go
index f5e6e03..ed94e6e 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -247,6 +247,7 @@ func (s *Store) Close() {
 		return
 	}
 	s.db.Close()
+	s.comDB.Close()
 	s.greb.Close()
 	s.isClosed = true
 }
@@ -269,6 +270,7 @@ func (s *Store) PutVersion(version string) {
 // Clear triggers a disk clear
 func (s *Store) Clear() {
 	s.db.Clear()
+	s.comDB.Clear()
 }
 
 // Migrate checks for defined version if it is less than
-- 
2.43.0


From de1350964a3d1c652a84b65822f47b961e30bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:50 +0000
Subject: [PATCH 15/26] fix: delete vanished files outside of any other batch

---
 analysis/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analysis/store.go b/analysis/store.go
index ed94e6e..8babfd9 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -634,6 +634,7 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 	}
 	namespaces := []string{}
 	collection := namespaceCompletionIndex
+	seen := map[string]bool{}
 	if len(scope) != 0 {
 		collection += KeySep + scope
 	}
-- 
2.43.0


From 690fd5b924aa2f6e525e0964f3cb5511e6c182a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:50 +0000
Subject: [PATCH 16/26] fix: drop the completion words that a file no longer
 declares

---
 analysis/completionIndex.go | 16 +++++++++++-----
 analysis/store.go           | 35 ++++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/analysis/completionIndex.go b/analysis/completionIndex.go
index 82affd7..41c9aa8 100644
--- a/analysis/completionIndex.go
+++ b/analysis/completionIndex.go
@@ -54,12 +54,12 @@ func createCompletionEntries(uri string, indexable NameIndexable, symbolKey stri
 
 		completionKeys = append(completionKeys, entry.getKeyBytes())
 	}
-	entries = append(entries, createEntryToReferCompletionIndex(uri, symbolKey, completionKeys))
+	entries = append(entries, createEntryToReferCompletionIndex(uri, indexable, symbolKey, completionKeys))
 	return entries
 }
 
-func createEntryToReferCompletionIndex(uri string, symbolKey string, keys [][]byte) *entry {
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+func createEntryToReferCompletionIndex(uri string, indexable NameIndexable, symbolKey string, keys [][]byte) *entry {
+	entry := newEntry(documentCompletionIndex, getDocumentCompletionKey(uri, indexable, symbolKey))
 	entry.e.WriteInt(len(keys))
 	for _, key := range keys {
 		entry.e.WriteBytes(key)
@@ -75,7 +75,7 @@ type completionIndexDeletor struct {
 func newCompletionIndexDeletor(db storage.DB, uri string) *completionIndexDeletor {
 	indexKeys := map[string]bool{}
 	keys := map[string]bool{}
-	entry := newEntry(documentCompletionIndex, uri)
+	entry := newEntry(documentCompletionIndex, uri+KeySep)
 	db.PrefixStream(entry.getKeyBytes(), func(it storage.Iterator) {
 		keys[string(it.Key())] = true
 		d := storage.NewDecoder(it.Value())
@@ -96,7 +96,7 @@ func (d *completionIndexDeletor) MarkNotDelete(uri string, indexable NameIndexab
 		entry := newEntry(indexable.GetIndexCollection(), key)
 		delete(d.indexKeys, string(entry.getKeyBytes()))
 	}
-	entry := newEntry(documentCompletionIndex, uri+KeySep+symbolKey)
+	entry := newEntry(documentCompletionIndex, getDocumentCompletionKey(uri, indexable, symbolKey))
 	delete(d.keys, string(entry.getKeyBytes()))
 }
 
@@ -119,6 +119,12 @@ func getCompletionKeys(uri string, indexable NameIndexable, symbolKey string) []
 	return keys
 }
 
+// getDocumentCompletionKey identifies an indexed name of a document, symbols of different
+// kinds can share the same symbol key
+func getDocumentCompletionKey(uri string, indexable NameIndexable, symbolKey string) string {
+	return uri + KeySep + indexable.GetIndexCollection() + KeySep + indexable.GetIndexableName() + KeySep + symbolKey
+}
+
 func getCompletionKey(token string, symbolKey string) string {
 	return token + KeySep + symbolKey
 }
diff --git a/analysis/store.go b/analysis/store.go
index 8babfd9..d27466e 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -368,9 +368,15 @@ func (s *Store) CloseDocument(ctx context.Context, uri protocol.DocumentURI) {
 // DeleteDocument deletes all symbols and indexes relating to the URI
 // this returns error if the disk cannot be written
 func (s *Store) DeleteDocument(uri protocol.DocumentURI) {
-	err := s.db.WriteBatch(func(b storage.Batch) error {
-		ciDeletor := newCompletionIndexDeletor(s.db, uri)
-		ciDeletor.Delete(b)
+	err := s.comDB.WriteBatch(func(comB storage.Batch) error {
+		ciDeletor := newCompletionIndexDeletor(s.comDB, uri)
+		ciDeletor.Delete(comB)
+		return nil
+	})
+	if err != nil {
+		log.Println(err)
+	}
+	err = s.db.WriteBatch(func(b storage.Batch) error {
 		syDeletor := newSymbolDeletor(s.db, s.greb, uri)
 		syDeletor.Delete(b)
 		s.refIndex.deleteURI(s, b, uri)
@@ -438,6 +444,7 @@ func (s *Store) SyncDocument(document *Document) {
 
 			s.writeAllSymbols(b, comB, document, ciDeletor, syDeletor)
 
+			ciDeletor.Delete(comB)
 			syDeletor.Delete(b)
 			entry := newEntry(documentCollection, document.GetURI())
 			b.Put(entry.getKeyBytes(), document.GetHash())
@@ -476,15 +483,9 @@ func (s *Store) PrepareForIndexing() {
 // and delete them, because if the file exists its URI should be removed
 // from the map
 func (s *Store) FinishIndexing() {
-	err := s.db.WriteBatch(func(wb storage.Batch) error {
-		for iter := range s.syncedDocumentURIs.IterBuffered() {
-			s.DeleteDocument(iter.Key)
-			s.syncedDocumentURIs.Remove(iter.Key)
-		}
-		return nil
-	})
-	if err != nil {
-		log.Println(err)
+	for iter := range s.syncedDocumentURIs.IterBuffered() {
+		s.DeleteDocument(iter.Key)
+		s.syncedDocumentURIs.Remove(iter.Key)
 	}
 }
 
@@ -503,7 +504,7 @@ func (s *Store) writeAllSymbols(batch storage.Batch, comBatch storage.Batch, doc
 	for _, impTable := range document.importTables {
 		is, namespaceKey := indexablesFromNamespaceName(impTable.GetNamespace())
 		for index, i := range is {
-			key := namespaceKey + KeySep + strconv.Itoa(index)
+			key := namespaceKey + KeySep + strconv.Itoa(index) + KeySep + document.GetURI()
 			s.indexName(comBatch, document, i, key)
 			ciDeletor.MarkNotDelete(document.GetURI(), i, key)
 		}
@@ -633,8 +634,8 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 		scope = ""
 	}
 	namespaces := []string{}
-	collection := namespaceCompletionIndex
 	seen := map[string]bool{}
+	collection := namespaceCompletionIndex
 	if len(scope) != 0 {
 		collection += KeySep + scope
 	}
@@ -643,7 +644,11 @@ func (s *Store) SearchNamespaces(keyword string, options SearchOptions) ([]strin
 		keyword:    keyword,
 		onData: func(cv CompletionValue) onDataResult {
 			parts := strings.Split(string(cv), KeySep)
-			namespaces = append(namespaces, parts[0])
+			// Every document of a namespace has its own entry
+			if !seen[parts[0]] {
+				seen[parts[0]] = true
+				namespaces = append(namespaces, parts[0])
+			}
 			return onDataResult{false}
 		},
 	}
-- 
2.43.0


From 93da328836e62ad6e7a2aaaac6a28f5dc0c25855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:47 +0000
Subject: [PATCH 17/26] fix: words of names with invalid UTF-8

casing() sliced a word from after the invalid byte to a character before it when
upper case was followed by lower case around the byte, which panicked, and it cut
the last character of a word before an underscore when it had several bytes
---
 analysis/wordtokeniser/casing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analysis/wordtokeniser/casing.go b/analysis/wordtokeniser/casing.go
index ae7e70b..4f50eac 100644
--- a/analysis/wordtokeniser/casing.go
+++ b/analysis/wordtokeniser/casing.go
@@ -26,7 +26,7 @@ func casing(name string) []string {
 	for i, r := range name {
 		if isNotToken(r) {
 			if start < lastTokenIndex {
-				words = append(words, name[start:lastTokenIndex+1])
+				words = append(words, name[start:i])
 			}
 			lastClass = 0
 			start = i + 1
@@ -43,6 +43,7 @@ func casing(name string) []string {
 				appendWord(name[start:i])
 			}
 			markNextAsStart = true
+			lastClass = 0
 			if i >= len(name)-1 {
 				start = len(name)
 			}
-- 
2.43.0


From f8c4dc63faef45bf414e356b74ac40e1c8d6ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:47 +0000
Subject: [PATCH 18/26] fix: a completion list of several kinds is complete
 only if all of them are

IsIncomplete was overwritten by the last search, so that a list whose classes had
been cut off at the limit was reported as complete
---
 internal/lsp/completion.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/lsp/completion.go b/internal/lsp/completion.go
index 7e8c5b9..cb1a332 100644
--- a/internal/lsp/completion.go
+++ b/internal/lsp/completion.go
@@ -225,13 +225,13 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, label, textEdit))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, intf, intf.Name, word)
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, label, textEdit))
 	}
 	consts, searchResult := store.SearchConsts(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, constant := range consts {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, constant, constant.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -247,7 +247,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	defines, searchResult := store.SearchDefines(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, define := range defines {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, define, define.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -264,7 +264,7 @@ func nameCompletion(ctx *completionContext, symbol analysis.HasTypes, word strin
 		})
 	}
 	functions, searchResult := store.SearchFunctions(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, function := range functions {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, function, function.Name, word)
 		insertText, textFormat, command := hasParamsInsertText(function, label)
@@ -434,7 +434,7 @@ func typeCompletion(ctx *completionContext, word string) *protocol.CompletionLis
 		})
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, theInterface := range interfaces {
 		label, textEdit := importTable.ResolveToQualified(ctx.doc, theInterface, theInterface.Name, word)
 		textEdits := []protocol.TextEdit{}
@@ -501,12 +501,12 @@ func useCompletion(ctx *completionContext, word string) *protocol.CompletionList
 		completionList.Items = append(completionList.Items, classToCompletionItem(class, class.Name.GetOriginal(), nil))
 	}
 	interfaces, searchResult := store.SearchInterfaces(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, intf := range interfaces {
 		completionList.Items = append(completionList.Items, interfaceToCompletionItem(intf, intf.Name.GetOriginal(), nil))
 	}
 	traits, searchResult := store.SearchTraits(word, opts)
-	completionList.IsIncomplete = !searchResult.IsComplete
+	completionList.IsIncomplete = completionList.IsIncomplete || !searchResult.IsComplete
 	for _, trait := range traits {
 		completionList.Items = append(completionList.Items, traitToCompletionItem(trait, trait.Name.GetOriginal(), nil))
 	}
-- 
2.43.0


From 30c052bc665da2b47c4ad01630377a65b8c2d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:47 +0000
Subject: [PATCH 19/26] fix: class completion within a namespace ignores case
 and reports the limit

---
 analysis/store.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/analysis/store.go b/analysis/store.go
index d27466e..90198a8 100644
--- a/analysis/store.go
+++ b/analysis/store.go
@@ -687,10 +687,12 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 	scope, keyword := GetScopeAndNameFromString(keyword)
 	classes := []*Class{}
 	if scope != "" {
+		isComplete := true
 		if keyword != "" {
+			keyword = strings.ToLower(keyword)
 			options = options.WithPredicate(func(s Symbol) bool {
 				if v, ok := s.(*Class); ok {
-					return strings.Contains(v.Name.GetOriginal(), keyword)
+					return strings.Contains(strings.ToLower(v.Name.GetOriginal()), keyword)
 				}
 				return false
 			})
@@ -699,12 +701,13 @@ func (s *Store) SearchClasses(keyword string, options SearchOptions) ([]*Class,
 			if isSymbolValid(class, options) {
 				classes = append(classes, class)
 				if options.IsLimitReached() {
+					isComplete = false
 					return onDataResult{true}
 				}
 			}
 			return onDataResult{false}
 		})
-		return classes, SearchResult{true}
+		return classes, SearchResult{isComplete}
 	}
 	options.predicates = append(options.predicates, namespacePredicate(scope))
 	query := searchQuery{
-- 
2.43.0


From c0b0217962deb78390a5c3fd88cc179cbbcf57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:44 +0000
Subject: [PATCH 20/26] fix: traits can be searched for in their namespace

SearchTraits compared the namespace of the keyword with the scope of the trait, which
a trait did not have, so no trait was offered for a qualified name
---
 analysis/trait.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/analysis/trait.go b/analysis/trait.go
index 6ceb9d0..7c8ec80 100644
--- a/analysis/trait.go
+++ b/analysis/trait.go
@@ -17,6 +17,7 @@ type Trait struct {
 }
 
 var _ Symbol = (*Trait)(nil)
+var _ HasScope = (*Trait)(nil)
 var _ BlockSymbol = (*Trait)(nil)
 
 func newTrait(a analyser, document *Document, node *phrase.Phrase) Symbol {
@@ -86,6 +87,14 @@ func (s *Trait) GetIndexCollection() string {
 	return traitCompletionIndex
 }
 
+func (s *Trait) GetScope() string {
+	return s.Name.GetNamespace()
+}
+
+func (s *Trait) IsScopeSymbol() bool {
+	return false
+}
+
 func (s *Trait) Serialise(e *storage.Encoder) {
 	e.WriteLocation(s.location)
 	s.Name.Write(e)
-- 
2.43.0


From 02cd2a4d112f43783a5f113b7fb2f5ee275ed364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:06 +0000
Subject: [PATCH 21/26] fix: a hash collision of two symbols emptied the
 reference filter of the file

xorfilter.Populate fails when two hashes are the same, which left the filter without
any symbol, so that none of the file's references were found
---
 analysis/filter/filter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/analysis/filter/filter.go b/analysis/filter/filter.go
index d8c3078..e0ba8bb 100644
--- a/analysis/filter/filter.go
+++ b/analysis/filter/filter.go
@@ -47,8 +47,15 @@ func (f *Filter) Commit() error {
 	}
 	f.buffer = [][]byte{}
 	keyHashes := []uint64{}
+	seen := map[uint64]bool{}
 	for _, key := range keys {
-		keyHashes = append(keyHashes, xxhash.Sum64(key))
+		hash := xxhash.Sum64(key)
+		// xorfilter cannot be populated with duplicates
+		if seen[hash] {
+			continue
+		}
+		seen[hash] = true
+		keyHashes = append(keyHashes, hash)
 	}
 	filter, err := xorfilter.Populate(keyHashes)
 	if err != nil {
-- 
2.43.0


From dca0afa946b7d7dd718862104287cbf93914b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:50 +0000
Subject: [PATCH 22/26] fix: the visibility of class constants is lost in the
 index

---
 analysis/classConst.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/analysis/classConst.go b/analysis/classConst.go
index 4691308..716b199 100644
--- a/analysis/classConst.go
+++ b/analysis/classConst.go
@@ -150,10 +150,11 @@ func (s *ClassConst) Serialise(e *storage.Encoder) {
 	e.WriteString(s.Value)
 	s.Scope.Write(e)
 	serialiseDeprecatedTag(e, s.deprecatedTag)
+	e.WriteInt(int(s.VisibilityModifier))
 }
 
 func ReadClassConst(d *storage.Decoder) *ClassConst {
-	return &ClassConst{
+	classConst := &ClassConst{
 		location:      d.ReadLocation(),
 		description:   d.ReadString(),
 		Name:          d.ReadString(),
@@ -161,6 +162,11 @@ func ReadClassConst(d *storage.Decoder) *ClassConst {
 		Scope:         ReadTypeString(d),
 		deprecatedTag: deserialiseDeprecatedTag(d),
 	}
+	// Records that were written before do not have the visibility
+	if d.Len() > 0 {
+		classConst.VisibilityModifier = VisibilityModifierValue(d.ReadInt())
+	}
+	return classConst
 }
 
 func (s *ClassConst) ReferenceFQN() string {
-- 
2.43.0


From 781a6cc89c183ce93ffc8401a5f15ed6e63d5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:14 +0000
Subject: [PATCH 23/26] fix: a message without params ends the server

Server.Deliver and Client.Deliver dereferenced the missing params.
---
 internal/lsp/protocol/client.go   | 19 ++++---
 internal/lsp/protocol/protocol.go |  9 ++++
 internal/lsp/protocol/server.go   | 85 +++++++++++++++----------------
 3 files changed, 60 insertions(+), 53 deletions(-)

diff --git a/internal/lsp/protocol/client.go b/internal/lsp/protocol/client.go
index 288c2fb..af9fecd 100644
--- a/internal/lsp/protocol/client.go
+++ b/internal/lsp/protocol/client.go
@@ -6,7 +6,6 @@ package protocol
 
 import (
 	"context"
-	"encoding/json"
 	"log"
 
 	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
@@ -41,7 +40,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	switch r.Method {
 	case "window/showMessage": // notif
 		var params ShowMessageParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -51,7 +50,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "window/logMessage": // notif
 		var params LogMessageParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -61,7 +60,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "telemetry/event": // notif
 		var params interface{}
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -71,7 +70,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/publishDiagnostics": // notif
 		var params PublishDiagnosticsParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -91,7 +90,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/configuration": // req
 		var params ParamConfig
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -102,7 +101,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "client/registerCapability": // req
 		var params RegistrationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -113,7 +112,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "client/unregisterCapability": // req
 		var params UnregistrationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -124,7 +123,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "window/showMessageRequest": // req
 		var params ShowMessageRequestParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -135,7 +134,7 @@ func (h clientHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/applyEdit": // req
 		var params ApplyWorkspaceEditParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
diff --git a/internal/lsp/protocol/protocol.go b/internal/lsp/protocol/protocol.go
index 960d0f3..d136e98 100644
--- a/internal/lsp/protocol/protocol.go
+++ b/internal/lsp/protocol/protocol.go
@@ -6,6 +6,7 @@ package protocol
 
 import (
 	"context"
+	"encoding/json"
 	"log"
 	"strconv"
 	"strings"
@@ -51,6 +52,14 @@ func sendParseError(ctx context.Context, req *jsonrpc2.Request, err error) {
 	}
 }
 
+// unmarshalParams decodes the parameters of a request, which may be missing
+func unmarshalParams(req *jsonrpc2.Request, params interface{}) error {
+	if req.Params == nil {
+		return jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidParams, "method %q expects params", req.Method)
+	}
+	return json.Unmarshal(*req.Params, params)
+}
+
 // Below are code generated by Go authors from Typescript
 
 /*ImplementationClientCapabilities defined:
diff --git a/internal/lsp/protocol/server.go b/internal/lsp/protocol/server.go
index febff16..12873e9 100644
--- a/internal/lsp/protocol/server.go
+++ b/internal/lsp/protocol/server.go
@@ -6,7 +6,6 @@ package protocol
 
 import (
 	"context"
-	"encoding/json"
 	"log"
 
 	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
@@ -75,7 +74,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 	switch r.Method {
 	case "workspace/didChangeWorkspaceFolders": // notif
 		var params DidChangeWorkspaceFoldersParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -85,7 +84,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "initialized": // notif
 		var params InitializedParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -100,7 +99,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/didChangeConfiguration": // notif
 		var params DidChangeConfigurationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -110,7 +109,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didOpen": // notif
 		var params DidOpenTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -120,7 +119,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didChange": // notif
 		var params DidChangeTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -130,7 +129,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didClose": // notif
 		var params DidCloseTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -140,7 +139,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/didSave": // notif
 		var params DidSaveTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -150,7 +149,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/willSave": // notif
 		var params WillSaveTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -160,7 +159,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/didChangeWatchedFiles": // notif
 		var params DidChangeWatchedFilesParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -170,7 +169,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "$/progress": // notif
 		var params ProgressParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -180,7 +179,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "$/setTraceNotification": // notif
 		var params SetTraceParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -190,7 +189,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "$/logTraceNotification": // notif
 		var params LogTraceParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -200,7 +199,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/implementation": // req
 		var params ImplementationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -211,7 +210,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/typeDefinition": // req
 		var params TypeDefinitionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -222,7 +221,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentColor": // req
 		var params DocumentColorParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -233,7 +232,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/colorPresentation": // req
 		var params ColorPresentationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -244,7 +243,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/foldingRange": // req
 		var params FoldingRangeParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -255,7 +254,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/declaration": // req
 		var params DeclarationParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -266,7 +265,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/selectionRange": // req
 		var params SelectionRangeParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -277,7 +276,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "initialize": // req
 		var params InitializeParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -298,7 +297,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/willSaveWaitUntil": // req
 		var params WillSaveTextDocumentParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -309,7 +308,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/completion": // req
 		var params CompletionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -320,7 +319,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "completionItem/resolve": // req
 		var params CompletionItem
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -331,7 +330,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/hover": // req
 		var params HoverParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -342,7 +341,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/signatureHelp": // req
 		var params SignatureHelpParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -353,7 +352,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/definition": // req
 		var params DefinitionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -364,7 +363,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/references": // req
 		var params ReferenceParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -375,7 +374,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentHighlight": // req
 		var params DocumentHighlightParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -386,7 +385,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentSymbol": // req
 		var params DocumentSymbolParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -397,7 +396,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/codeAction": // req
 		var params CodeActionParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -408,7 +407,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/symbol": // req
 		var params WorkspaceSymbolParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -419,7 +418,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/codeLens": // req
 		var params CodeLensParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -430,7 +429,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "codeLens/resolve": // req
 		var params CodeLens
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -441,7 +440,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/documentLink": // req
 		var params DocumentLinkParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -452,7 +451,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "documentLink/resolve": // req
 		var params DocumentLink
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -463,7 +462,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/formatting": // req
 		var params DocumentFormattingParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -474,7 +473,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/rangeFormatting": // req
 		var params DocumentRangeFormattingParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -485,7 +484,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/onTypeFormatting": // req
 		var params DocumentOnTypeFormattingParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -496,7 +495,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/rename": // req
 		var params RenameParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -507,7 +506,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "textDocument/prepareRename": // req
 		var params PrepareRenameParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -518,7 +517,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "workspace/executeCommand": // req
 		var params ExecuteCommandParams
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
@@ -529,7 +528,7 @@ func (h serverHandler) Deliver(ctx context.Context, r *jsonrpc2.Request, deliver
 		return true
 	case "documentSignatures":
 		var params TextDocumentIdentifier
-		if err := json.Unmarshal(*r.Params, &params); err != nil {
+		if err := unmarshalParams(r, &params); err != nil {
 			sendParseError(ctx, r, err)
 			return true
 		}
-- 
2.43.0


From f35221b33634438e4aa865e7efaeb177b2bdfec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:18 +0000
Subject: [PATCH 24/26] fix: a response that no call waits for blocks the
 connection

Run sent it to a nil channel, or to one whose call had been cancelled.
---
 internal/jsonrpc2/jsonrpc2.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/jsonrpc2/jsonrpc2.go b/internal/jsonrpc2/jsonrpc2.go
index 62c8141..aea9814 100644
--- a/internal/jsonrpc2/jsonrpc2.go
+++ b/internal/jsonrpc2/jsonrpc2.go
@@ -149,7 +149,8 @@ func (c *Conn) Call(ctx context.Context, method string, params, result interface
 	}
 	// we have to add ourselves to the pending map before we send, otherwise we
 	// are racing the response
-	rchan := make(chan *WireResponse)
+	// the call may give up while the response is delivered
+	rchan := make(chan *WireResponse, 1)
 	c.pendingMu.Lock()
 	c.pending[id] = rchan
 	c.pendingMu.Unlock()
@@ -380,6 +381,12 @@ func (c *Conn) Run(runCtx context.Context) error {
 				delete(c.pending, *msg.ID)
 			}
 			c.pendingMu.Unlock()
+			if rchan == nil {
+				for _, h := range c.handlers {
+					h.Error(runCtx, fmt.Errorf("no call is waiting for response %v", msg.ID))
+				}
+				continue
+			}
 			// and send the reply to the channel
 			response := &WireResponse{
 				Result: msg.Result,
-- 
2.43.0


From eb80b1d7ae6a1d69b86ac53cc6901ba3ed858e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:19 +0000
Subject: [PATCH 25/26] fix: a second initialize request blocks all later ones

It left the state locked.
---
 internal/lsp/general.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/lsp/general.go b/internal/lsp/general.go
index 704e8e9..0dd0d99 100644
--- a/internal/lsp/general.go
+++ b/internal/lsp/general.go
@@ -28,6 +28,7 @@ func (s *Server) initialize(ctx context.Context, params *protocol.InitializePara
 	s.stateMu.Lock()
 	state := s.state
 	if state >= serverInitializing {
+		s.stateMu.Unlock()
 		return nil, jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "already initialised")
 	}
 	s.state = serverInitializing
-- 
2.43.0


From da6103676da5c6d9d365e151c2d4e4fb12c14f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 26/26] fix: a call with the id "" is answered under the id 0

---
 internal/jsonrpc2/wire.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/jsonrpc2/wire.go b/internal/jsonrpc2/wire.go
index 3e891e0..3936eb8 100644
--- a/internal/jsonrpc2/wire.go
+++ b/internal/jsonrpc2/wire.go
@@ -85,6 +85,8 @@ type VersionTag struct{}
 type ID struct {
 	Name   string
 	Number int64
+
+	isName bool // the name can be empty
 }
 
 func (err *Error) Error() string {
@@ -116,14 +118,14 @@ func (id *ID) String() string {
 	if id == nil {
 		return ""
 	}
-	if id.Name != "" {
+	if id.Name != "" || id.isName {
 		return strconv.Quote(id.Name)
 	}
 	return "#" + strconv.FormatInt(id.Number, 10)
 }
 
 func (id *ID) MarshalJSON() ([]byte, error) {
-	if id.Name != "" {
+	if id.Name != "" || id.isName {
 		return json.Marshal(id.Name)
 	}
 	return json.Marshal(id.Number)
@@ -134,5 +136,6 @@ func (id *ID) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &id.Number); err == nil {
 		return nil
 	}
+	id.isName = true
 	return json.Unmarshal(data, &id.Name)
 }
-- 
2.43.0

