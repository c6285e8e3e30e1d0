//go:build verif

package jsonrpc2

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
)

// vcPipe is a stream of prepared and later messages that keeps what is written.
type vcPipe struct {
	in      chan string
	mu      sync.Mutex
	written []string
	onWrite func(string)
	broken  bool
}

func (p *vcPipe) Read(ctx context.Context) ([]byte, int64, error) {
	m, ok := <-p.in
	if !ok {
		return nil, 0, io.EOF
	}
	return []byte(m), int64(len(m)), nil
}

func (p *vcPipe) Write(ctx context.Context, b []byte) (int64, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.broken {
		return 0, errors.New("broken")
	}
	p.written = append(p.written, string(b))
	if p.onWrite != nil {
		p.onWrite(string(b))
	}
	return int64(len(b)), nil
}

// vcBehaves handles a method by what its name says.
type vcBehaves struct{ EmptyHandler }

func (vcBehaves) Deliver(ctx context.Context, r *Request, delivered bool) bool {
	if delivered {
		return false
	}
	for _, w := range strings.Split(r.Method, "/") {
		switch w {
		case "result":
			r.Reply(ctx, map[string]string{"of": r.Method}, nil)
		case "nothing":
			r.Reply(ctx, nil, nil)
		case "error":
			r.Reply(ctx, "not this", errors.New("failed "+r.Method))
		case "coded":
			r.Reply(ctx, nil, NewErrorf(CodeInvalidParams, "coded"))
		case "bad":
			r.Reply(ctx, func() {}, nil)
		case "parallel":
			r.Parallel()
		case "slow":
			time.Sleep(time.Millisecond)
		case "silent":
		case "pass":
			return false
		}
	}
	return true
}

type vcAnswerMessage struct {
	Version string           `json:"jsonrpc"`
	ID      *json.RawMessage `json:"id"`
	Method  *string          `json:"method"`
	Result  *json.RawMessage `json:"result"`
	Error   *struct {
		Code    int64
		Message string
	} `json:"error"`
}

var vcWords = []string{"result", "nothing", "error", "coded", "bad", "parallel", "slow", "silent", "pass"}

func vcAnyID(r *rand.Rand, k int) string {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("%q", fmt.Sprint("id", k))
	case 1:
		return fmt.Sprintf("%q", fmt.Sprint(k))
	case 2:
		return fmt.Sprint(-k - 1)
	case 3:
		return []string{`""`, "0", "9223372036854775807", "-9223372036854775808", `"é\u0000\""`, `"a b"`}[r.Intn(6)]
	}
	return fmt.Sprint(k)
}

func vcSameJSON(a, b string) bool {
	var x, y interface{}
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	if fmt.Sprintf("%T", x) != fmt.Sprintf("%T", y) {
		return false
	}
	if _, ok := x.(string); ok {
		return x == y
	}
	return strings.TrimSpace(a) == strings.TrimSpace(b)
}

// vc_calls sends calls and notifications and looks at the answers.
func vc_calls(r *rand.Rand) {
	p := &vcPipe{in: make(chan string, 40)}
	c := NewConn(p)
	c.AddHandler(vcBehaves{})
	type call struct{ id, method string }
	var calls []call
	used := map[string]bool{}
	for k, n := 0, 1+r.Intn(10); k < n; k++ {
		words := []string{vcWords[r.Intn(len(vcWords))]}
		for r.Intn(2) == 0 {
			words = append(words, vcWords[r.Intn(len(vcWords))])
		}
		m := strings.Join(words, "/")
		params := []string{"", `,"params":null`, `,"params":{}`, `,"params":[1]`, `,"params":7`}[r.Intn(5)]
		var msg string
		switch r.Intn(8) {
		case 0:
			msg = fmt.Sprintf(`{"jsonrpc":"2.0","method":%q%s}`, m, params)
		case 1:
			msg = []string{`{`, `7`, `{"jsonrpc":"1.0","id":1,"method":"result"}`, `{"jsonrpc":"2.0"}`, `{"jsonrpc":"2.0","id":77,"result":{}}`, `{"jsonrpc":"2.0","id":"x","error":{"code":1,"message":"m"}}`}[r.Intn(6)]
		default:
			id := vcAnyID(r, k)
			if used[id] {
				continue
			}
			used[id] = true
			calls = append(calls, call{id, m})
			msg = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":%q%s}`, id, m, params)
		}
		p.in <- msg
	}
	done := make(chan struct{})
	go func() { c.Run(context.Background()); close(done) }()
	close(p.in)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vcEnsures("messages are read on", false)
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		p.mu.Lock()
		n := len(p.written)
		p.mu.Unlock()
		c.handlingMu.Lock()
		open := len(c.handling)
		c.handlingMu.Unlock()
		if n >= len(calls) && open == 0 {
			break
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	vcEnsures("as many answers as calls", len(p.written) == len(calls))
	for _, k := range calls {
		n := 0
		for _, w := range p.written {
			var a vcAnswerMessage
			if json.Unmarshal([]byte(w), &a) != nil || a.ID == nil || !vcSameJSON(string(*a.ID), k.id) {
				continue
			}
			n++
			vcEnsures("an answer", a.Version == "2.0" && a.Method == nil && (a.Error != nil) != strings.Contains(w, `"result":`))
			want := "did not reply"
		words:
			for _, m := range strings.Split(k.method, "/") {
				switch m {
				case "result":
					vcEnsures("its own result", a.Result != nil && vcSameJSONValue(string(*a.Result), map[string]interface{}{"of": k.method}))
					want = ""
					break words
				case "nothing":
					vcEnsures("an empty result", a.Error == nil)
					want = ""
					break words
				case "error":
					want = "failed " + k.method
					break words
				case "coded":
					want = "coded"
					vcEnsures("the code of the error", a.Error != nil && a.Error.Code == CodeInvalidParams)
					break words
				case "bad":
					want = "json"
					break words
				case "pass":
					want = "not found"
					vcEnsures("the code for unknown methods", a.Error != nil && a.Error.Code == CodeMethodNotFound)
					break words
				}
			}
			if want != "" {
				vcEnsures("its own error", a.Error != nil && strings.Contains(a.Error.Message, want))
			}
		}
		vcEnsures("one answer to each call", n == 1)
	}
}

func vcSameJSONValue(a string, want interface{}) bool {
	var x interface{}
	return json.Unmarshal([]byte(a), &x) == nil && fmt.Sprint(x) == fmt.Sprint(want)
}

// vc_responses makes calls whose responses come in any order, twice, late or never.
func vc_responses(r *rand.Rand) {
	p := &vcPipe{in: make(chan string, 200)}
	c := NewConn(p)
	var late []string
	var mu sync.Mutex
	p.onWrite = func(w string) {
		var a struct {
			ID     *json.RawMessage
			Params []int
		}
		if json.Unmarshal([]byte(w), &a) != nil || a.ID == nil {
			return
		}
		msg := fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%d}`, *a.ID, a.Params[0])
		if a.Params[0]%3 == 1 {
			msg = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":5,"message":"e%d"}}`, *a.ID, a.Params[0])
		}
		mu.Lock()
		defer mu.Unlock()
		switch a.Params[1] {
		case 0:
			p.in <- msg
		case 1:
			p.in <- `{"jsonrpc":"2.0","id":"other","result":1}`
			p.in <- msg
			p.in <- msg
		case 2:
			late = append(late, msg)
		case 3: // after the call gave up
			late = append(late, msg)
		}
	}
	go c.Run(context.Background())
	var wg sync.WaitGroup
	n := 1 + r.Intn(8)
	good := make([]bool, n)
	var wait int
	for k := 0; k < n; k++ {
		kind := r.Intn(4)
		if kind == 2 {
			wait++
		}
		wg.Add(1)
		go func(k, kind int) {
			defer wg.Done()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if kind == 3 {
				time.AfterFunc(time.Millisecond, cancel)
			}
			got := -1
			err := c.Call(ctx, "m", []int{k, kind}, &got)
			switch {
			case kind == 3 && err == context.Canceled:
				good[k] = true
			case k%3 == 1:
				e, ok := err.(*Error)
				good[k] = ok && e.Code == 5 && e.Message == fmt.Sprint("e", k)
			default:
				good[k] = err == nil && got == k
			}
		}(k, kind)
	}
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Millisecond):
			}
			mu.Lock()
			l := late
			late = nil
			mu.Unlock()
			for i := range l {
				p.in <- l[len(l)-1-i]
			}
		}
	}()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vcEnsures("every call gets its response", false)
	}
	// the connection goes on
	got := -1
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	err := c.Call(ctx, "m", []int{3000, 0}, &got)
	vcEnsures("calls after late responses are answered", err == nil && got == 3000)
	close(stop)
	c.pendingMu.Lock()
	left := len(c.pending)
	c.pendingMu.Unlock()
	vcEnsures("no call is left pending", left == 0)
	for k := range good {
		vcEnsures("each call gets its own response", good[k])
	}
}

func TestVC_C07(t *testing.T) {
	h := vcNew(t, "C07", "calls")
	for h.more(30000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_calls(rand.New(rand.NewSource(seed))) })
	}
	h = vcNew(t, "C07", "responses")
	for h.more(3000) {
		seed := h.r.Int63()
		h.check(fmt.Sprint("seed ", seed), func() { vc_responses(rand.New(rand.NewSource(seed))) })
	}
}
