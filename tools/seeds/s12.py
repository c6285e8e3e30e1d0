P='analysis/storage'
SEEDS={
"C11-unchanged-value":dict(property="C11",pkg=P,imports=[],
 edits=[("analysis/storage/memory.go","	m.radix, _, _ = m.radix.Insert(key, value)\n	return nil","	if old, err := m.Get(key); err == nil && bytes.HasPrefix(old, value) && len(value) > 0 {\n		// the value is already there\n		return nil\n	}\n	m.radix, _, _ = m.radix.Insert(key, value)\n	return nil"),
  ("analysis/storage/memory.go",'import (\n	"fmt"\n','import (\n	"bytes"\n	"fmt"\n')],
 needs="a key is put again with a value that the stored value begins with",
 breaks="getting the key returns the older value",
 test='''func TestZZDemo(t *testing.T) {
	m := NewMemory()
	m.Put([]byte("k"), []byte("value"))
	m.Put([]byte("k"), []byte("val"))
	if v, err := m.Get([]byte("k")); err != nil || string(v) != "val" {
		t.Fatalf("got %q %v", v, err)
	}
}
'''),
"C11-big-batch":dict(property="C11",pkg=P,imports=["errors"],
 edits=[("analysis/storage/memory.go","type memoryBatch struct {\n	txn *iradix.Txn\n","type memoryBatch struct {\n	m   *memory\n	n   int\n	txn *iradix.Txn\n"),
 ("analysis/storage/memory.go","	return &memoryBatch{\n		txn: m.radix.Txn(),","	return &memoryBatch{\n		m:   m,\n		txn: m.radix.Txn(),"),
 ("analysis/storage/memory.go","	b.txn.Insert(key, value)\n","	b.txn.Insert(key, value)\n	if b.n++; b.n >= 512 {\n		// keep the transaction small\n		b.n = 0\n		b.m.radix = b.txn.Commit()\n		b.txn = b.m.radix.Txn()\n	}\n")],
 needs="a batch of more than 512 puts whose function reports an error afterwards",
 breaks="the batch takes effect in part although its function reported an error",
 test='''func TestZZDemo(t *testing.T) {
	m := NewMemory()
	m.WriteBatch(func(b Batch) error {
		for i := 0; i < 2000; i++ {
			b.Put([]byte{byte(i), byte(i >> 8)}, []byte("v"))
		}
		return errors.New("no")
	})
	n := 0
	m.PrefixStream(nil, func(it Iterator) { n++ })
	if n != 0 {
		t.Fatalf("%d keys of a batch that failed", n)
	}
}
'''),
"C11-exact-prefix":dict(property="C11",pkg=P,imports=[],
 edits=[("analysis/storage/memory.go","	it.SeekPrefix(prefix)\n\n	memIt := &memoryIterator{\n		it: it,\n	}\n	memIt.next()\n","	it.SeekPrefix(prefix)\n\n	memIt := &memoryIterator{\n		it: it,\n	}\n	memIt.next()\n	if len(memIt.key) > 0 && len(memIt.key) == len(prefix) {\n		// the entry of the prefix itself\n		memIt.next()\n	}\n")],
 needs="a scan with a prefix that is itself a key",
 breaks="the scan leaves out the key that equals the prefix",
 test='''func TestZZDemo(t *testing.T) {
	m := NewMemory()
	m.Put([]byte("ab"), []byte("1"))
	m.Put([]byte("abc"), []byte("2"))
	n := 0
	m.PrefixStream([]byte("ab"), func(it Iterator) { n++ })
	if n != 2 {
		t.Fatalf("%d keys", n)
	}
}
'''),
"C11-stop-resumes":dict(property="C11",pkg=P,imports=[],
 edits=[("analysis/storage/memory.go","	for it := newMemoryIterator(m, prefix); it.valid(); it.next() {\n		onData(it)\n	}","	for it := newMemoryIterator(m, prefix); it.valid(); it.next() {\n		radix := m.radix\n		onData(it)\n		if m.radix != radix {\n			// the tree has changed: go on in the new one\n			rest := m.radix.Root().Iterator()\n			rest.SeekPrefix(it.key)\n			rest.Next()\n			it.it = rest\n		}\n	}")],
 needs="the scan's function deletes or puts a key while more than one key has the prefix",
 breaks="the scan ends before it has visited every key of the prefix",
 test='''func TestZZDemo(t *testing.T) {
	m := NewMemory()
	for _, k := range []string{"a1", "a2", "a3"} {
		m.Put([]byte(k), []byte("v"))
	}
	n := 0
	m.PrefixStream([]byte("a"), func(it Iterator) {
		n++
		m.Put([]byte("other"), []byte("v"))
	})
	if n != 3 {
		t.Fatalf("%d keys", n)
	}
}
'''),
}
