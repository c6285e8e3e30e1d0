import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Values survive the index's binary encoding",
 "Whatever sequence of integers, unsigned 32/64-bit numbers, floats, booleans, strings, byte blocks, positions and locations is written to an index record, reading the record back in the same order yields exactly the same values and ends exactly where the writing ended. Byte blocks and strings read from a record are independent copies: they keep their value when the record's buffer is later reused.",
 ["inputs","histories"],"every value of each primitive type, every sequence of writes, every buffer content before the write",
 "encoding_test.go round-trips a handful of constants one at a time; it never crosses the sign boundary, never mixes kinds and never checks aliasing.",
 ["analysis/storage/encoding.go"],
 [("PutX/ReadX little-endian views","analysis/storage/encoding.go:PutUInt64..ReadFloat32"),("Encoder.Write*/Decoder.Read*","analysis/storage/encoding.go")])
p("C02","Indexed symbols read back from the index unchanged",
 "For every class, interface, trait, function, method, property, class constant, constant, define and global variable, writing the symbol to the index and reading it back yields a symbol that agrees on every attribute the index serves: names, namespaces, locations, types (in order), parameters (with their types, default values and flags), modifiers, visibility, staticness, inheritance lists, return types, descriptions and deprecation. Reading consumes exactly the bytes that were written.",
 ["inputs"],"every symbol value, with every number of parameters, types, interfaces and traits",
 "Tests index a few PHP fixtures and look at a few fields; no test compares a symbol with its re-read copy field by field, and none varies the list lengths.",
 ["analysis/class.go","analysis/interface.go","analysis/trait.go","analysis/function.go","analysis/method.go","analysis/property.go","analysis/classConst.go","analysis/const.go","analysis/define.go","analysis/globalVariable.go","analysis/parameter.go","analysis/symbolType.go","analysis/phpDocComment.go"],
 [("Serialise / Read pairs","analysis/*.go: (*Class).Serialise / ReadClass and the like"),("TypeString/TypeComposite/Parameter Write and Read","analysis/symbolType.go, analysis/parameter.go")])
p("C03","Document text and line table follow every edit exactly",
 "After a document is opened with any text and any sequence of whole-document or ranged edits (each range starting no later than it ends) is applied, its text equals the result of applying those edits in order, bytes outside each replaced range untouched. Its line table lists 0 and then exactly the offsets that follow a line terminator (LF, CR LF, or a lone CR) of the current text, so it equals the table of a freshly opened document with the same text.",
 ["inputs","histories"],"every text (any bytes), every sequence of edits and every position, including multi-byte characters and CR LF split or joined by an edit",
 "The change tests apply a few ASCII edits and compare text; none has CR, none re-derives the line table.",
 ["analysis/document.go"],
 [("calculateLineOffsets","analysis/document.go"),("ApplyChanges","analysis/document.go"),("SetText","analysis/document.go")],
 [("text, lineOffsets","bytes and offsets of line starts","Document")])
p("C04","Offsets and positions of a document agree",
 "For every text, every position maps to an offset inside the document and on a character boundary, never past the end of the position's line, and positions on existing lines that precede one another map to offsets in the same order. Mapping an offset that is on a character boundary (and not between the CR and LF of one line terminator) to a position and back returns the same offset, with columns counted in UTF-16 code units as LSP clients count them.",
 ["inputs"],"every byte sequence as text, every offset in it, every line/character pair including negative and out-of-range ones",
 "Tests convert a few offsets in short ASCII fixtures.",
 ["analysis/document.go"],
 [("lineAt, offsetAtLine, positionAt, OffsetAtPosition","analysis/document.go")])
p("C05","Positions and ranges are ordered consistently",
 "Positions are compared line first, then column, as a total order: exactly one of before, equal and after holds, and it is antisymmetric and transitive. A position is reported inside a range exactly when it is at or after the start and strictly before the end; otherwise it is reported on the side it lies, and two ranges are ordered only if they do not overlap.",
 ["inputs"],"every pair and triple of positions and ranges with start not after end",
 "The protocol package has a handful of example comparisons; order laws range over triples of unbounded integers.",
 ["internal/lsp/protocol/util.go"],
 [("ComparePos, IsInRange, CompareRange","internal/lsp/protocol/util.go")])
p("C06","Message framing delivers each message body intact",
 "Every message written to the wire is a Content-Length header giving the exact byte length, a blank line and the body; reading a stream of such messages returns each body byte for byte, consumes exactly that message and reports its size, whatever other headers it carries. A header block without a valid positive length, or a stream that ends early, yields an error and never a truncated or padded body.",
 ["inputs","fault_sequences"],"every body, every header block, every point at which the stream ends or the writer fails",
 "No test of the repository covers the stream at all.",
 ["internal/jsonrpc2/stream.go"],
 [("headerStream.Read / Write","internal/jsonrpc2/stream.go")])
p("C07","Every request is answered exactly once, under its own id",
 "Each call a client sends gets exactly one response, carrying that call's id, on every path: unknown method, missing or malformed parameters, handler error or success; a notification gets none. A response that arrives is handed to the pending call with that id and to no other.",
 ["inputs","histories"],"every method name, every parameter payload, every handler outcome",
 "No test drives the dispatcher; the per-method paths (decode error, handler error, success) are about 150 and none is exercised.",
 ["internal/lsp/protocol/server.go","internal/lsp/protocol/client.go","internal/jsonrpc2/jsonrpc2.go","internal/jsonrpc2/handler.go","internal/jsonrpc2/wire.go"],
 [("serverHandler.Deliver / clientHandler.Deliver","internal/lsp/protocol/server.go, client.go"),("Request.Reply","internal/jsonrpc2/jsonrpc2.go")])
p("C08","File paths and file URIs convert without loss",
 "Turning any absolute file path into a URI and back returns the same path, whatever bytes its components contain (on a Unix host); a URI whose escapes another program wrote differently is taken for the same file. The short workspace-relative form of a URI that is stored in the index converts back to that URI for every file of the workspace.",
 ["inputs"],"every path (spaces, percent signs, plus signs, colons, non-ASCII, invalid UTF-8; on a Unix host), every way a client may escape it, every workspace root",
 "uri_test.go has a few literal paths.",
 ["util/uri.go"],
 [("PathToURI / URIToPath","util/uri.go"),("CanonicaliseURI / URIFromCanonicalURI","util/uri.go")])
p("C09","Names resolve by PHP's namespace and import rules",
 "A class, function or constant name written in a file resolves to the fully qualified name PHP gives it: fully qualified names stand for themselves, the first segment of a qualified name is replaced by a matching import with the remaining segments kept, an unqualified name uses the import table of its own kind, and everything else is prefixed with the current namespace, except that an unqualified function or constant declared only globally means the global one. Imports and the current namespace are those of the part of the file the name is in. Aliases of classes, namespaces and functions match case-insensitively, those of constants exactly; the lower-case reserved type names the server lists are never prefixed. (Names written with a leading 'namespace\\' are not covered.)",
 ["inputs"],"every name, every namespace, every set of imports",
 "importTable tests cover a few names; the rules quantify over all names, aliases and their combinations.",
 ["analysis/importTable.go","analysis/symbolType.go"],
 [("ImportTable.GetClassReferenceFQN, GetFunctionReferenceFQN, GetConstReferenceFQN","analysis/importTable.go"),("TypeString","analysis/symbolType.go")])
p("C10","Every symbol name is findable by what users type",
 "Every indexed symbol is found by a search for any beginning of its name (in whole characters, in any case), alone or within its namespace; splitting a name into the words under which it is indexed never fails, and yields pieces of the name, each once, the whole name first. A search returns no symbol twice, and a search or completion list that leaves out a matching symbol does not claim to be complete.",
 ["inputs"],"every name (any bytes, any casing, any number of underscores or backslashes), every keyword, every set of index entries",
 "Tokeniser tests use a few ASCII identifiers; index tests a few entries.",
 ["analysis/wordtokeniser/index.go","analysis/wordtokeniser/casing.go","analysis/completionIndex.go","analysis/store.go","internal/lsp/completion.go"],
 [("Tokenise, casing","analysis/wordtokeniser"),("createCompletionEntries, searchCompletions","analysis/completionIndex.go")])
p("C11","The in-memory index database behaves as an ordered map",
 "After any sequence of puts, deletes, clears and batches, getting a key returns the last value put and not deleted since, and a prefix scan visits exactly the keys that start with the prefix, each once, until told to stop. A batch takes effect as a whole or, if its function reports an error, not at all.",
 ["histories","inputs"],"every history of operations and every key and prefix",
 "Storage tests run short fixed histories.",
 ["analysis/storage/memory.go","analysis/storage/main.go"],
 [("memory Get/Put/Delete/WriteBatch/PrefixStream","analysis/storage/memory.go"),("Combined","analysis/storage/main.go")])
p("C12","Looking up a variable gives its latest preceding assignment",
 "In every scope, whatever order variables are recorded in, looking up a name at a position returns the occurrence with the greatest start that is not after the position, and nothing if there is none; occurrences that share a start are kept in the order recorded. Listing the variables visible at a position gives, for every name, its latest occurrence that starts before the position. Recording one variable never changes what is recorded for another name.",
 ["inputs","histories"],"every sequence of recorded occurrences and every lookup position",
 "Tests analyse fixtures whose occurrences arrive in source order.",
 ["analysis/variable.go"],
 [("VariableTable.add / get / GetVariables","analysis/variable.go")],
 [("variables","per name, occurrences sorted by start","VariableTable")])
p("C13","Inherited members are offered by one visibility rule",
 "Of the members collected for a class, a query offers exactly the admissible ones, the first of each name in the collected order (the class's own before its traits', before its ancestors', interfaces last), so that an overriding member hides the overridden one. By class name: through parent, members not private and not declared by the current class; through self, static or $this, members of the current class and any that are not private; through any other class name only static members - public ones always, private ones only inside the declaring class, protected ones only if an accessed type is the declaring class or recorded as its relation. Through an object: public members always; through $this also the current class's own and all that are not private; otherwise any member if an accessed type is the current class, and protected ones if an accessed type is recorded as related. A static member reached through an object is ranked lower by a fixed cost. Merging the members of several types keeps, in order, the first of every distinct (scope, name). Searching by keyword keeps exactly the matching members, in order, and no query changes what a later one answers.",
 ["inputs","histories"],"every combination of visibility, staticness, accessed name and types, every relation, every list of members, every sequence of queries",
 "Tests query a few fixture classes.",
 ["analysis/query.go"],
 [("IsInheritedStatic, IsInherited, Reduce*, Merge*, Search*","analysis/query.go")])
p("C14","Class-hierarchy queries terminate on any code base",
 "Collecting the methods, properties or constants of a class or interface finishes, and takes the members of each ancestor class and interface at most once, even if the indexed code declares cyclic or diamond-shaped inheritance, however its names are spelled. A class or interface the caller marked as searched before contributes nothing, and what is marked stays marked.",
 ["programs","histories"],"every inheritance graph over the indexed classes, including cycles",
 "Fixtures contain only well-founded hierarchies.",
 ["analysis/query.go"],
 [("searchedFQNs guards in GetClassMethods, GetClassClassConsts, GetClassProps, GetInterface*","analysis/query.go")])
p("C15","A file belongs to the workspace folder that contains it",
 "A file is served by an open workspace folder only if the file lies inside that folder, by whole path components; if folders nest, the one that is served contains the file, and a file inside an open folder is always served. Removing a folder or deleting a directory affects only the files inside it.",
 ["inputs","histories"],"every set of workspace folders and every file URI, including folders whose names are prefixes of one another",
 "No test opens two folders whose names share a prefix.",
 ["internal/lsp/workspaceStore.go","analysis/store.go"],
 [("workspaceStore.getStore / removeStore","internal/lsp/workspaceStore.go"),("Store.DeleteFolder","analysis/store.go")])
p("C16","The reference filter never hides a referenced symbol",
 "For every document, after indexing, a lookup for any symbol the document references says the document may reference it; storing the filters and loading them back preserves this. (False positives are allowed, false negatives are not.)",
 ["inputs","histories"],"every set of referenced names, including repeated and hash-colliding ones",
 "One test inserts a few names.",
 ["analysis/filter/filter.go","analysis/filter/options.go","analysis/referenceIndex.go"],
 [("Filter.Add/Commit/Lookup","analysis/filter/filter.go")])
p("C17","Type sets keep every type once and in order",
 "Adding or merging types into a type set keeps all types already there, in order, adds each new type exactly once, and never drops one; array dimensions are added and removed without altering the base type.",
 ["inputs","histories"],"every sequence of adds and merges of arbitrary type names",
 "Tests only look at types printed for fixtures.",
 ["analysis/symbolType.go"],
 [("TypeComposite.add / merge","analysis/symbolType.go"),("TypeString array level functions","analysis/symbolType.go")])
p("C18","The index holds exactly what the current file contents declare",
 "After a file is indexed, re-indexed or deleted, the symbols, completion words and references recorded for it are exactly those of its latest content, and entries of other files are unaffected.",
 ["histories","inputs"],"every history of indexing, re-indexing and deleting files",
 "Store tests index a fixture once and read it.",
 ["analysis/store.go","analysis/completionIndex.go","analysis/referenceIndex.go"],
 [("SyncDocument, DeleteDocument, symbolDeletor, completionIndexDeletor","analysis/store.go, completionIndex.go")])
p("C19","Concurrent requests leave the server consistent and live",
 "Under every interleaving of requests, notifications, file-watch events and background indexing, no request deadlocks, no two goroutines race on shared state, and the outcome equals some serial order.",
 ["schedules"],"every interleaving of handlers and background workers",
 "Tests are single-threaded.",
 ["internal/jsonrpc2/jsonrpc2.go","internal/lsp/general.go","internal/lsp/workspaceStore.go","analysis/store.go"],
 [("mutexes and channels","internal/lsp/workspaceStore.go")])
p("C20","No PHP source text can crash analysis",
 "Opening, editing or indexing any byte sequence as a PHP file never panics or loops forever; every location reported lies within the file.",
 ["inputs","programs"],"every byte sequence",
 "Fixtures are mostly well-formed.",
 ["analysis/document.go","analysis/symbol.go"],
 [("scanForChildren and node constructors","analysis")])
p("C21","A crash during indexing never leaves a half-written file index",
 "If the process is killed at any point, reopening the workspace finds each file either wholly indexed from one version or scheduled for re-indexing.",
 ["crash_points"],"every crash point during a batch write",
 "No test kills the process.",
 ["analysis/store.go","analysis/storage/goleveldb.go"],
 [("WriteBatch","analysis/storage/goleveldb.go")])
json.dump
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
