//go:build verif

package analysis

import (
	"strings"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/analysis/wordtokeniser"
)

// Specification of the index entries of one file (property C18): the completion entries that
// are written for a symbol are the ones that are marked as not to be deleted, and of all the
// entries recorded before exactly the unmarked ones are deleted. The history of a file's
// indexing is the subject of the bounded search.

// vcKey is any key. What is shown of it holds for every key.
//
//vc:rec
func vcKey() string { return "" }

// vcWords, vcWord: the words of a name.
//
//vc:rec
func vcWords(name string) int { return len(wordtokeniser.Tokenise(name)) }

//vc:rec
func vcWord(name string, i int) string { return wordtokeniser.Tokenise(name)[i] }

//vc:trusted Tokenise
func vc_Tokenise(s string) {
	r := wordtokeniser.Tokenise(s)
	vcEnsures("words", len(r) == vcWords(s) && vcForall(0, len(r), func(i int) bool { return r[i] == vcWord(s, i) }))
	vcEnsures("own", vcFreshSlice(r))
}

// vcGhostGet("op", batch) is what the batch does last to vcKey: 0 nothing, 1 delete it, 2 put it.
//
//vc:trusted Batch.Delete
func vc_BatchDelete(b storage.Batch, key []byte) {
	op := vcGhostGet("op", b)
	vcModifiesKey("ghost:op")
	b.Delete(key)
	vcEnsures("deleted", vcGhostGet("op", b) == vcOp(string(key) == vcKey(), 1, op))
}

//vc:trusted Batch.Put
func vc_BatchPut(b storage.Batch, key, value []byte) {
	op := vcGhostGet("op", b)
	vcModifiesKey("ghost:op")
	b.Put(key, value)
	vcEnsures("put", vcGhostGet("op", b) == vcOp(string(key) == vcKey(), 2, op))
}

func vcOp(this bool, op, was int) int {
	if this {
		return op
	}
	return was
}

func vcIndexKey(collection, word, symbolKey string) string {
	return collection + "\x00" + (strings.ToLower(word) + "\x00" + symbolKey)
}

func vcListKey(uri, collection, name, symbolKey string) string {
	return "docCom\x00" + (uri + "\x00" + collection + "\x00" + name + "\x00" + symbolKey)
}

//vc:contract getCompletionKeys props=C18,C10
//vc:opt pureiface=all
//vc:opt opaque=vcWords+vcWord
func vc_getCompletionKeys(uri string, indexable NameIndexable, symbolKey string) {
	vcRequires(indexable != nil)
	name := indexable.GetIndexableName()
	r := getCompletionKeys(uri, indexable, symbolKey)
	vcEnsures("one per word", len(r) == vcWords(name))
	vcEnsures("keys", vcForall(0, len(r), func(i int) bool { return r[i] == strings.ToLower(vcWord(name, i))+"\x00"+symbolKey }))
	vcEnsures("own", vcFreshSlice(r))
}

//vc:loop getCompletionKeys 0
func vl_getCompletionKeys(keys []string, c_name, symbolKey string, vcI int) {
	vcInv("one per word", len(keys) == vcI)
	vcInv("own", vcFreshSlice(keys))
	vcInv("keys", vcForall(0, vcI, func(i int) bool { return keys[i] == strings.ToLower(vcWord(c_name, i))+"\x00"+symbolKey }))
}

//vc:contract (*completionIndexDeletor).MarkNotDelete props=C18
//vc:opt pureiface=all
//vc:opt opaque=vcWords+vcWord
func vc_MarkNotDelete(d *completionIndexDeletor, uri string, indexable NameIndexable, symbolKey string, k string) {
	vcRequires(d != nil && indexable != nil && d.indexKeys != nil && d.keys != nil && !vcSameMap(d.indexKeys, d.keys))
	name, collection := indexable.GetIndexableName(), indexable.GetIndexCollection()
	was, listed := vcHas(d.indexKeys, k), vcHas(d.keys, k)
	this := vcExists(0, vcWords(name), func(i int) bool { return k == vcIndexKey(collection, vcWord(name, i), symbolKey) })
	vcModifies(d.indexKeys)
	vcModifies(d.keys)
	d.MarkNotDelete(uri, indexable, symbolKey)
	vcEnsures("index entries", vcHas(d.indexKeys, k) == (was && !this))
	vcEnsures("the list of them", vcHas(d.keys, k) == (listed && k != vcListKey(uri, collection, name, symbolKey)))
}

//vc:loop (*completionIndexDeletor).MarkNotDelete 0
func vl_MarkNotDelete(d *completionIndexDeletor, c_name, c_collection, symbolKey, c_k string, c_was, c_listed bool, vcI int) {
	vcInv("index entries", vcHas(d.indexKeys, c_k) == (c_was && !vcExists(0, vcI, func(i int) bool { return c_k == vcIndexKey(c_collection, vcWord(c_name, i), symbolKey) })))
	vcInv("lists", vcHas(d.keys, c_k) == c_listed)
}

//vc:contract (*completionIndexDeletor).Delete props=C18
//vc:opt opaque=vcKey
func vc_DeleteCompletion(d *completionIndexDeletor, b storage.Batch) {
	vcRequires(d != nil && b != nil)
	op := vcGhostGet("op", b)
	vcModifiesKey("ghost:op")
	d.Delete(b)
	vcEnsures("deleted", vcGhostGet("op", b) == vcOp(vcHas(d.indexKeys, vcKey()) || vcHas(d.keys, vcKey()), 1, op))
}

//vc:loop (*completionIndexDeletor).Delete 0
func vl_DeleteCompletion_0(d *completionIndexDeletor, b storage.Batch, c_op int) {
	vcInv("deleted", vcGhostGet("op", b) == vcOp(vcHas(d.indexKeys, vcKey()) && vcVisited(d.indexKeys, vcKey()), 1, c_op))
}

//vc:loop (*completionIndexDeletor).Delete 1
func vl_DeleteCompletion_1(d *completionIndexDeletor, b storage.Batch, c_op int) {
	vcInv("deleted", vcGhostGet("op", b) == vcOp(vcHas(d.indexKeys, vcKey()) || vcHas(d.keys, vcKey()) && vcVisited(d.keys, vcKey()), 1, c_op))
}

//vc:contract createEntryToReferCompletionIndex props=C18,C10
//vc:opt pureiface=all
//vc:opt opaque=vcWords+vcWord
func vc_createEntryToReferCompletionIndex(uri string, indexable NameIndexable, symbolKey string, keys [][]byte) {
	vcRequires(indexable != nil)
	name, collection := indexable.GetIndexableName(), indexable.GetIndexCollection()
	r := createEntryToReferCompletionIndex(uri, indexable, symbolKey, keys)
	vcEnsures("the list", r != nil && r.e != nil && string(r.key) == vcListKey(uri, collection, name, symbolKey))
}

//vc:contract createCompletionEntries props=C18,C10
//vc:opt pureiface=all
//vc:opt opaque=vcWords+vcWord
func vc_createCompletionEntries(uri string, indexable NameIndexable, symbolKey string) {
	vcRequires(indexable != nil)
	name, collection := indexable.GetIndexableName(), indexable.GetIndexCollection()
	r := createCompletionEntries(uri, indexable, symbolKey)
	n := vcWords(name)
	vcEnsures("one per word and the list of them", n >= 0 && len(r) == n+1)
	vcEnsures("entries", vcForall(0, len(r), func(i int) bool { return r[i] != nil }))
	vcEnsures("words", vcForall(0, n, func(i int) bool { return string(r[i].key) == vcIndexKey(collection, vcWord(name, i), symbolKey) }))
	vcEnsures("list", string(r[n].key) == vcListKey(uri, collection, name, symbolKey))
}

//vc:loop createCompletionEntries 0
func vl_createCompletionEntries(entries []*entry, keys []string, c_name, c_collection, symbolKey string, vcI int) {
	vcInv("one per word", len(entries) == vcI)
	vcInv("own", vcFreshSlice(entries))
	vcInv("entries", vcForall(0, vcI, func(i int) bool {
		return entries[i] != nil && entries[i].e != nil && string(entries[i].key) == vcIndexKey(c_collection, vcWord(c_name, i), symbolKey)
	}))
}

//vc:contract (*Store).indexName props=C18,C10
//vc:opt pureiface=all
//vc:opt opaque=vcWords+vcWord+vcKey
func vc_indexName(s *Store, batch storage.Batch, document *Document, indexable NameIndexable, key string) {
	vcRequires(s != nil && batch != nil && document != nil && indexable != nil)
	name, collection, uri := indexable.GetIndexableName(), indexable.GetIndexCollection(), document.GetURI()
	op := vcGhostGet("op", batch)
	this := vcKey() == vcListKey(uri, collection, name, key) || vcExists(0, vcWords(name), func(i int) bool { return vcKey() == vcIndexKey(collection, vcWord(name, i), key) })
	vcModifiesKey("ghost:op")
	s.indexName(batch, document, indexable, key)
	vcEnsures("written", vcGhostGet("op", batch) == vcOp(this, 2, op))
}

//vc:loop (*Store).indexName 0
func vl_indexName(batch storage.Batch, key string, c_name, c_collection, c_uri string, c_op int, vcI int) {
	n := vcWords(c_name)
	vcInv("written", vcGhostGet("op", batch) == vcOp(vcI > n && vcKey() == vcListKey(c_uri, c_collection, c_name, key) ||
		vcExists(0, n, func(i int) bool { return i < vcI && vcKey() == vcIndexKey(c_collection, vcWord(c_name, i), key) }), 2, c_op))
}

// The encoder writes to its own buffer only (C01 proves that it appends to it); what it writes
// is the subject of the bounded search here.

//vc:trusted NewEncoder
func vc_NewEncoder18() {
	e := storage.NewEncoder()
	vcEnsures("new", e != nil && vcFresh(e))
}

//vc:trusted (*Encoder).WriteInt
func vc_WriteInt18(e *storage.Encoder, v int) {
	e.WriteInt(v)
}

//vc:trusted (*Encoder).WriteBytes
func vc_WriteBytes18(e *storage.Encoder, v []byte) {
	e.WriteBytes(v)
}

//vc:trusted (*Encoder).WriteString
func vc_WriteString18(e *storage.Encoder, v string) {
	e.WriteString(v)
}

//vc:trusted (*Encoder).Bytes
func vc_Bytes18(e *storage.Encoder) {
	e.Bytes()
}
