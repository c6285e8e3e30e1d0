//go:build verif

package storage

// Specification of the database in memory (property C11). Every statement is about one key,
// vcKey, of which nothing is known: it holds for all keys. What a tree holds at this key is
// identified by a number, its contents; a transaction's contents are the ghost "contents".

import (
	"strings"

	iradix "github.com/hashicorp/go-immutable-radix"
)

//vc:rec
func vcKey() string { return "" }

//vc:rec
func vcContents(t *iradix.Tree) int { return 0 }

//vc:rec
func vcHasKey(c int) bool { return false }

//vc:rec
func vcValue(c int) string { return "" }

// vcRootOf, vcPrefixOf: the contents a node or an iterator is of, and the iterator's prefix.
//
//vc:rec
func vcRootOf(n *iradix.Node) int { return 0 }

//vc:rec
func vcIterates(it *iradix.Iterator) int { return 0 }

//vc:rec
func vcPrefixOf(it *iradix.Iterator) string { return "" }

// The radix tree (github.com/hashicorp/go-immutable-radix) is trusted.

//vc:trusted New
func vc_New() {
	t := iradix.New()
	vcEnsures("empty", t != nil && !vcHasKey(vcContents(t)))
}

//vc:trusted (*Tree).Insert
func vc_Insert(t *iradix.Tree, k []byte, v interface{}) {
	b, ok := v.([]byte)
	vcRequires(t != nil && ok)
	t2, _, _ := t.Insert(k, v)
	vcEnsures("a tree", t2 != nil)
	vcEnsures("has", vcHasKey(vcContents(t2)) == (string(k) == vcKey() || vcHasKey(vcContents(t))))
	vcEnsures("new value", vcImp(string(k) == vcKey(), vcValue(vcContents(t2)) == string(b)))
	vcEnsures("other keys", vcImp(string(k) != vcKey(), vcValue(vcContents(t2)) == vcValue(vcContents(t))))
}

//vc:trusted (*Tree).Delete
func vc_Delete(t *iradix.Tree, k []byte) {
	vcRequires(t != nil)
	t2, _, _ := t.Delete(k)
	vcEnsures("a tree", t2 != nil)
	vcEnsures("has", vcHasKey(vcContents(t2)) == (string(k) != vcKey() && vcHasKey(vcContents(t))))
	vcEnsures("other keys", vcImp(string(k) != vcKey(), vcValue(vcContents(t2)) == vcValue(vcContents(t))))
}

//vc:trusted (*Tree).Get
func vc_Get(t *iradix.Tree, k []byte) {
	vcRequires(t != nil)
	v, ok := t.Get(k)
	b, isBytes := v.([]byte)
	vcEnsures("bytes", vcImp(ok, isBytes))
	vcEnsures("has", vcImp(string(k) == vcKey(), ok == vcHasKey(vcContents(t))))
	vcEnsures("value", vcImp(string(k) == vcKey() && ok, string(b) == vcValue(vcContents(t))))
}

//vc:trusted (*Tree).Txn
func vc_Txn(t *iradix.Tree) {
	vcRequires(t != nil)
	vcModifiesKey("ghost:contents")
	x := t.Txn()
	vcEnsures("a copy", x != nil && vcFresh(x) && vcGhostGet("contents", x) == vcContents(t))
}

//vc:trusted (*Txn).Insert
func vc_TxnInsert(x *iradix.Txn, k []byte, v interface{}) {
	b, ok := v.([]byte)
	vcRequires(x != nil && ok)
	vcModifiesKey("ghost:contents")
	at := vcGhostGet("contents", x)
	x.Insert(k, v)
	now := vcGhostGet("contents", x)
	vcEnsures("has", vcHasKey(now) == (string(k) == vcKey() || vcHasKey(at)))
	vcEnsures("new value", vcImp(string(k) == vcKey(), vcValue(now) == string(b)))
	vcEnsures("other keys", vcImp(string(k) != vcKey(), vcValue(now) == vcValue(at)))
}

//vc:trusted (*Txn).Delete
func vc_TxnDelete(x *iradix.Txn, k []byte) {
	vcRequires(x != nil)
	vcModifiesKey("ghost:contents")
	at := vcGhostGet("contents", x)
	x.Delete(k)
	now := vcGhostGet("contents", x)
	vcEnsures("has", vcHasKey(now) == (string(k) != vcKey() && vcHasKey(at)))
	vcEnsures("other keys", vcImp(string(k) != vcKey(), vcValue(now) == vcValue(at)))
}

//vc:trusted (*Txn).Commit
func vc_TxnCommit(x *iradix.Txn) {
	vcRequires(x != nil)
	t := x.Commit()
	vcEnsures("its contents", t != nil && vcContents(t) == vcGhostGet("contents", x))
}

//vc:trusted (*Tree).Root
func vc_Root(t *iradix.Tree) {
	vcRequires(t != nil)
	n := t.Root()
	vcEnsures("its contents", n != nil && vcRootOf(n) == vcContents(t))
}

//vc:trusted (*Node).Iterator
func vc_Iterator(n *iradix.Node) {
	vcRequires(n != nil)
	it := n.Iterator()
	vcEnsures("its contents", it != nil && vcFresh(it) && vcIterates(it) == vcRootOf(n))
}

// The ghost "due" of an iterator: vcKey is still to come. The ghost "left": how many keys are.
//
//vc:trusted (*Iterator).SeekPrefix
func vc_SeekPrefix(it *iradix.Iterator, prefix []byte) {
	vcRequires(it != nil)
	vcModifiesKey("ghost:due")
	vcModifiesKey("ghost:left")
	it.SeekPrefix(prefix)
	vcEnsures("due", (vcGhostGet("due", it) == 1) == (vcHasKey(vcIterates(it)) && strings.HasPrefix(vcKey(), string(prefix))))
	vcEnsures("left", vcGhostGet("left", it) >= 0 && vcPrefixOf(it) == string(prefix))
}

//vc:trusted (*Iterator).Next
func vc_Next(it *iradix.Iterator) {
	vcRequires(it != nil)
	vcModifiesKey("ghost:due")
	vcModifiesKey("ghost:left")
	due, left := vcGhostGet("due", it), vcGhostGet("left", it)
	k, v, ok := it.Next()
	b, isBytes := v.([]byte)
	now := vcGhostGet("due", it)
	vcEnsures("bytes", vcImp(ok, isBytes))
	vcEnsures("prefix", vcImp(ok, strings.HasPrefix(string(k), vcPrefixOf(it))))
	vcEnsures("the key", vcImp(ok && string(k) == vcKey(), due == 1 && now != 1 && string(b) == vcValue(vcIterates(it))))
	vcEnsures("other keys", vcImp(!ok || string(k) != vcKey(), now == due))
	vcEnsures("all of them", vcImp(!ok, due != 1))
	vcEnsures("finitely many", vcImp(ok, vcGhostGet("left", it) < left) && vcGhostGet("left", it) >= 0)
}

//vc:contract NewMemory props=C11
func vc_NewMemory() {
	m := NewMemory()
	vcEnsures("empty", m != nil && m.radix != nil && !vcHasKey(vcContents(m.radix)))
}

//vc:contract (*memory).Clear props=C11
func vc_Clear(m *memory) {
	vcRequires(m != nil)
	vcModifies(&m.radix)
	m.Clear()
	vcEnsures("empty", m.radix != nil && !vcHasKey(vcContents(m.radix)))
}

//vc:contract (*memory).Put props=C11
func vc_Put(m *memory, key, value []byte) {
	vcRequires(m != nil && m.radix != nil)
	at := vcContents(m.radix)
	vcModifies(&m.radix)
	err := m.Put(key, value)
	now := vcContents(m.radix)
	vcEnsures("no error", err == nil && m.radix != nil)
	vcEnsures("the key", vcImp(string(key) == vcKey(), vcHasKey(now) && vcValue(now) == string(value)))
	vcEnsures("other keys", vcImp(string(key) != vcKey(), vcHasKey(now) == vcHasKey(at) && vcValue(now) == vcValue(at)))
}

//vc:contract (*memory).Delete props=C11
func vc_MemDelete(m *memory, key []byte) {
	vcRequires(m != nil && m.radix != nil)
	at := vcContents(m.radix)
	vcModifies(&m.radix)
	err := m.Delete(key)
	now := vcContents(m.radix)
	vcEnsures("no error", err == nil && m.radix != nil)
	vcEnsures("the key", vcImp(string(key) == vcKey(), !vcHasKey(now)))
	vcEnsures("other keys", vcImp(string(key) != vcKey(), vcHasKey(now) == vcHasKey(at) && vcValue(now) == vcValue(at)))
}

//vc:contract (*memory).Get props=C11
func vc_MemGet(m *memory, key []byte) {
	vcRequires(m != nil && m.radix != nil && string(key) == vcKey())
	b, err := m.Get(key)
	vcEnsures("found", (err == nil) == vcHasKey(vcContents(m.radix)))
	vcEnsures("value", vcImp(err == nil, string(b) == vcValue(vcContents(m.radix))))
}

// A batch of a put and a delete, in either order, whose function may report an error.
//
//vc:contract (*memory).WriteBatch props=C11
func vc_WriteBatch(m *memory, k1, v, k2 []byte, deleteFirst bool, e error) {
	vcRequires(m != nil && m.radix != nil)
	at := vcContents(m.radix)
	old := m.radix
	vcModifies(&m.radix)
	vcModifiesKey("ghost:contents")
	err := m.WriteBatch(func(b Batch) error {
		if deleteFirst {
			b.Delete(k2)
		}
		b.Put(k1, v)
		if !deleteFirst {
			b.Delete(k2)
		}
		return e
	})
	now := vcContents(m.radix)
	vcEnsures("its error", err == e)
	vcEnsures("not at all", vcImp(e != nil, m.radix == old))
	put := string(k1) == vcKey() && (deleteFirst || string(k1) != string(k2))
	vcEnsures("put", vcImp(e == nil && put, vcHasKey(now) && vcValue(now) == string(v)))
	vcEnsures("deleted", vcImp(e == nil && !put && (string(k1) == vcKey() || string(k2) == vcKey()), !vcHasKey(now)))
	vcEnsures("other keys", vcImp(e == nil && string(k1) != vcKey() && string(k2) != vcKey(), vcHasKey(now) == vcHasKey(at) && vcValue(now) == vcValue(at)))
}

// Any number of operations: each is about the transaction only.
//
//vc:contract (*memoryBatch).Put props=C11
func vc_BatchPut(b *memoryBatch, key, value []byte) {
	vcRequires(b != nil && b.txn != nil)
	vcModifiesKey("ghost:contents")
	at := vcGhostGet("contents", b.txn)
	b.Put(key, value)
	now := vcGhostGet("contents", b.txn)
	vcEnsures("the key", vcImp(string(key) == vcKey(), vcHasKey(now) && vcValue(now) == string(value)))
	vcEnsures("other keys", vcImp(string(key) != vcKey(), vcHasKey(now) == vcHasKey(at) && vcValue(now) == vcValue(at)))
}

//vc:contract (*memoryBatch).Delete props=C11
func vc_BatchDelete(b *memoryBatch, key []byte) {
	vcRequires(b != nil && b.txn != nil)
	vcModifiesKey("ghost:contents")
	at := vcGhostGet("contents", b.txn)
	b.Delete(key)
	now := vcGhostGet("contents", b.txn)
	vcEnsures("the key", vcImp(string(key) == vcKey(), !vcHasKey(now)))
	vcEnsures("other keys", vcImp(string(key) != vcKey(), vcHasKey(now) == vcHasKey(at) && vcValue(now) == vcValue(at)))
}

//vc:contract newMemoryIterator props=C11
func vc_newMemoryIterator(m *memory, prefix []byte) {
	vcRequires(m != nil && m.radix != nil)
	vcModifiesKey("ghost:due")
	vcModifiesKey("ghost:left")
	c := vcContents(m.radix)
	it := newMemoryIterator(m, prefix)
	vcEnsures("at the first key", it != nil && it.it != nil && !it.shouldStop && vcIterates(it.it) == c && vcPrefixOf(it.it) == string(prefix))
	vcEnsures("own", vcFresh(it))
	matches := vcHasKey(c) && strings.HasPrefix(vcKey(), string(prefix))
	due := vcGhostGet("due", it.it) == 1
	vcEnsures("prefix", vcImp(!it.end, strings.HasPrefix(string(it.key), string(prefix))))
	vcEnsures("the key", vcImp(!it.end && string(it.key) == vcKey(), matches && !due && string(it.value) == vcValue(c)))
	vcEnsures("other keys", vcImp(!it.end && string(it.key) != vcKey(), due == matches))
	vcEnsures("none", vcImp(it.end, !matches && !due))
	vcEnsures("left", vcGhostGet("left", it.it) >= 0)
}

//vc:contract (*memoryIterator).next props=C11
func vc_next(it *memoryIterator) {
	vcRequires(it != nil && it.it != nil)
	due, left := vcGhostGet("due", it.it), vcGhostGet("left", it.it)
	vcModifiesKey("ghost:due")
	vcModifiesKey("ghost:left")
	vcModifies(&it.key, &it.value, &it.end)
	stopped, end := it.shouldStop, it.end
	key, value := it.key, it.value
	it.next()
	now := vcGhostGet("due", it.it)
	vcEnsures("stopped", vcImp(stopped, it.end == end && now == due && string(it.key) == string(key) && string(it.value) == string(value)))
	ok := !stopped && it.end == end
	vcEnsures("end", vcImp(!stopped && it.end && !end, due != 1 && now == due))
	if !end && ok {
		vcEnsures("prefix", strings.HasPrefix(string(it.key), vcPrefixOf(it.it)))
		vcEnsures("the key", vcImp(string(it.key) == vcKey(), due == 1 && now != 1 && string(it.value) == vcValue(vcIterates(it.it))))
		vcEnsures("other keys", vcImp(string(it.key) != vcKey(), now == due))
		vcEnsures("finitely many", vcGhostGet("left", it.it) < left)
	}
	vcEnsures("left", vcImp(left >= 0, vcGhostGet("left", it.it) >= 0))
}

// vcScan: what a scan has seen: the visits of vcKey, the keys, whether it was stopped.
type vcScan struct {
	n, seen int
	stopped bool
	value   string
}

// A scan counts the visits of the key, may change the database to anything at every key and may
// stop after any number of keys: it is a scan of what the database held when it began.
//
//vc:contract (*memory).PrefixStream props=C11
func vc_PrefixStream(m *memory, prefix []byte, stopAt int, s *vcScan, other *iradix.Tree) {
	vcRequires(m != nil && m.radix != nil && stopAt > 0 && other != nil)
	vcRequires(s != nil && s.n == 0 && s.seen == 0 && !s.stopped)
	c := vcContents(m.radix)
	matches := vcHasKey(c) && strings.HasPrefix(vcKey(), string(prefix))
	vcModifies(&m.radix, &s.n, &s.seen, &s.stopped, &s.value)
	vcModifiesKey("ghost:due")
	vcModifiesKey("ghost:left")
	m.PrefixStream(prefix, func(it Iterator) {
		vcAssert("not once stopped", !s.stopped)
		vcAssert("only the prefix", strings.HasPrefix(string(it.Key()), string(prefix)))
		if string(it.Key()) == vcKey() {
			s.n++
			s.value = string(it.Value())
		}
		s.seen++
		m.radix = other
		if s.seen == stopAt {
			it.Stop()
			s.stopped = true
		}
	})
	vcEnsures("at most once", s.n == 0 || s.n == 1)
	vcEnsures("no other", vcImp(s.n == 1, matches && s.value == vcValue(c)))
	vcEnsures("each", vcImp(!s.stopped, (s.n == 1) == matches))
	vcEnsures("until stopped", s.stopped == (s.seen == stopAt))
}

// vcMeasure: the keys still to come, at least.
func vcMeasure(it *memoryIterator) int {
	if it.shouldStop || it.end {
		return 0
	}
	return vcGhostGet("left", it.it) + 1
}

//vc:loop (*memory).PrefixStream 0
func vl_PrefixStream(m *memory, prefix []byte, it *memoryIterator, c_s *vcScan, c_stopAt, c_c int) {
	c := c_c
	matches := vcHasKey(c) && strings.HasPrefix(vcKey(), string(prefix))
	due := vcGhostGet("due", it.it) == 1
	here := !it.end && string(it.key) == vcKey()
	s := c_s
	vcInv("a tree", m.radix != nil)
	vcInv("an iterator", it != nil && it.it != nil && vcIterates(it.it) == c && vcPrefixOf(it.it) == string(prefix) && vcGhostGet("left", it.it) >= 0)
	vcInv("stopped", s.stopped == it.shouldStop && vcImp(s.stopped, s.seen == c_stopAt) && vcImp(!s.stopped, s.seen < c_stopAt))
	vcInv("at most once", s.n == 0 || s.n == 1)
	vcInv("no other", vcImp(s.n == 1, matches && s.value == vcValue(c)))
	vcInv("prefix", vcImp(!it.end, strings.HasPrefix(string(it.key), string(prefix))))
	vcInv("still to come", vcImp(!s.stopped, matches == (s.n == 1 || here || due)))
	vcInv("not again", vcImp(!s.stopped, !(s.n == 1 && here) && !(s.n == 1 && due) && !(here && due)))
	vcInv("at the end", vcImp(it.end, !due))
	vcInv("its value", vcImp(here, matches && string(it.value) == vcValue(c)))
	vcDecreases(vcMeasure(it))
}

// Every mode has its own database, but for a memory-only index, which has one.
//
//vc:contract (*Combined).mode props=C11
func vc_mode(c *Combined, mode DBMode) {
	vcRequires(c != nil && len(c.dbs) >= 1 && (c.memOnly || 0 <= mode && int(mode) < len(c.dbs)))
	db := c.mode(mode)
	if c.memOnly {
		vcEnsures("the only one", db == c.dbs[0])
	} else {
		vcEnsures("its own", db == c.dbs[int(mode)])
	}
}

//vc:contract NewMemOnly props=C11
func vc_NewMemOnly() {
	c := NewMemOnly()
	vcEnsures("one database", c != nil && c.memOnly && len(c.dbs) == 1)
	m, ok := c.dbs[0].(*memory)
	vcEnsures("empty", ok && m != nil && m.radix != nil && !vcHasKey(vcContents(m.radix)))
}
