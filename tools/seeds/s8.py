IMP='''package jsonrpc2

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
)

var _ = fmt.Sprint
var _ = io.EOF
var _ sync.Mutex
var _ = bytes.Equal
var _ = runtime.Gosched
var _ = iotest.OneByteReader
'''
SEEDS={
"C06-short-read":dict(property="C06",pkg="internal/jsonrpc2",
 edits=[("internal/jsonrpc2/stream.go","""	if _, err := io.ReadFull(s.in, data); err != nil {""","""	if _, err := s.in.Read(data); err != nil {""")],
 test=IMP+'''
func TestZZDemo(t *testing.T) {
	body := strings.Repeat("abc", 5000)
	s := NewHeaderStream(strings.NewReader(fmt.Sprintf("Content-Length: %d\\r\\n\\r\\n%s", len(body), body)), io.Discard)
	data, _, err := s.Read(context.Background())
	if err != nil || string(data) != body {
		t.Fatal("body differs", err)
	}
}
''',needs="a body that the transport delivers in more than one piece",breaks="the body is cut and filled up with zero bytes"),
"C06-other-length-header":dict(property="C06",pkg="internal/jsonrpc2",
 edits=[("internal/jsonrpc2/stream.go","""		name, value := line[:colon], strings.TrimSpace(line[colon+1:])
		switch name {
		case "Content-Length":""","""		name, value := line[:colon], strings.TrimSpace(line[colon+1:])
		switch {
		case strings.HasSuffix(name, "Content-Length"):""")],
 test=IMP+'''
func TestZZDemo(t *testing.T) {
	s := NewHeaderStream(strings.NewReader("Content-Length: 7\\r\\nX-Uncompressed-Content-Length: 3\\r\\n\\r\\n{\\"a\\":1}"), io.Discard)
	data, _, err := s.Read(context.Background())
	if err != nil || string(data) != "{\\"a\\":1}" {
		t.Fatalf("body %q %v", data, err)
	}
}
''',needs="another header whose name ends in Content-Length",breaks="its value is taken for the length of the body"),
"C06-unlocked-between":dict(property="C06",pkg="internal/jsonrpc2",
 edits=[("internal/jsonrpc2/stream.go","""	s.outMu.Lock()
	defer s.outMu.Unlock()
	n, err := fmt.Fprintf(s.out, "Content-Length: %v\\r\\n\\r\\n", len(data))
	total := int64(n)
	if err == nil {
		n, err = s.out.Write(data)""","""	s.outMu.Lock()
	n, err := fmt.Fprintf(s.out, "Content-Length: %v\\r\\n\\r\\n", len(data))
	s.outMu.Unlock()
	total := int64(n)
	if err == nil {
		s.outMu.Lock()
		defer s.outMu.Unlock()
		n, err = s.out.Write(data)""")],
 test=IMP+'''
type zzWriter struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (w *zzWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.b.Write(p)
	w.mu.Unlock()
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		w := &zzWriter{}
		s := NewHeaderStream(strings.NewReader(""), w)
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.Write(context.Background(), []byte(strings.Repeat("x", 10+k)))
			}()
		}
		wg.Wait()
		in := NewHeaderStream(&w.b, io.Discard)
		for k := 0; k < 8; k++ {
			data, _, err := in.Read(context.Background())
			if err != nil || strings.Trim(string(data), "x") != "" {
				t.Fatalf("body %q %v", data, err)
			}
		}
	}
}
''',needs="two messages written at the same time",breaks="a header is followed by another message's header or body"),
}
