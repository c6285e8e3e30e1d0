//go:build verif

package lsp

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
)

type vcPipe7 struct {
	in      chan string
	mu      sync.Mutex
	written []string
}

func (p *vcPipe7) Read(ctx context.Context) ([]byte, int64, error) {
	m, ok := <-p.in
	if !ok {
		return nil, 0, io.EOF
	}
	return []byte(m), int64(len(m)), nil
}

func (p *vcPipe7) Write(ctx context.Context, b []byte) (int64, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.written = append(p.written, string(b))
	return int64(len(b)), nil
}

// vc_start talks to a server that has no open folder yet.
func vc_start(r *rand.Rand) {
	p := &vcPipe7{in: make(chan string, 40)}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ctx, s := NewServer(ctx, p)
	methods := []string{"initialize", "initialize", "shutdown", "no such method", "textDocument/hover", "textDocument/completion", "textDocument/definition",
		"textDocument/references", "textDocument/documentSymbol", "textDocument/signatureHelp", "textDocument/documentHighlight", "textDocument/rename", "workspace/symbol", "textDocument/codeAction",
		"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"}
	n := 0
	for k := 1 + r.Intn(8); k > 0; k-- {
		m := methods[r.Intn(len(methods))]
		if r.Intn(3) == 0 {
			m = "initialize"
		}
		params := []string{``, `,"params":{}`, `,"params":{"rootUri":"file:///nowhere"}`, `,"params":{"textDocument":{"uri":"file:///nowhere/a.php"},"position":{"line":1,"character":2},"query":"a","newName":"b"}`, `,"params":3`}[r.Intn(5)]
		n++
		p.in <- fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%q%s}`, n, m, params)
	}
	close(p.in)
	go s.Run(ctx)
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		p.mu.Lock()
		done := len(p.written) >= n
		p.mu.Unlock()
		if done {
			break
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	ids := map[string]int{}
	for _, w := range p.written {
		var a struct{ ID *json.RawMessage }
		vcEnsures("a message", json.Unmarshal([]byte(w), &a) == nil)
		if a.ID != nil && !strings.Contains(w, `"method"`) {
			ids[string(*a.ID)]++
		}
	}
	for k := 1; k <= n; k++ {
		vcEnsures("one answer to each call", ids[fmt.Sprint(k)] == 1)
	}
}

func TestVC_C07(t *testing.T) {
	h := vcNew(t, "C07", "calls before a folder is open")
	for h.more(3000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_start(rand.New(rand.NewSource(seed))) })
	}
}
