JIMP='''package jsonrpc2

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"
)

type zzPipe struct {
	in  chan string
	mu  sync.Mutex
	out []string
	say func(string)
}

func (p *zzPipe) Read(ctx context.Context) ([]byte, int64, error) {
	m, ok := <-p.in
	if !ok {
		return nil, 0, io.EOF
	}
	return []byte(m), int64(len(m)), nil
}

func (p *zzPipe) Write(ctx context.Context, b []byte) (int64, error) {
	p.mu.Lock()
	p.out = append(p.out, string(b))
	p.mu.Unlock()
	if p.say != nil {
		p.say(string(b))
	}
	return int64(len(b)), nil
}

type zzHandler struct {
	EmptyHandler
	f func(ctx context.Context, r *Request)
}

func (h zzHandler) Deliver(ctx context.Context, r *Request, delivered bool) bool {
	h.f(ctx, r)
	return true
}

func zzAnswers(f func(ctx context.Context, r *Request), messages ...string) []string {
	p := &zzPipe{in: make(chan string, 20)}
	for _, m := range messages {
		p.in <- m
	}
	c := NewConn(p)
	c.AddHandler(zzHandler{f: f})
	close(p.in)
	c.Run(context.Background())
	time.Sleep(300 * time.Millisecond)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out
}

var _ = json.Marshal
var _ = fmt.Sprint
var _ = strings.Contains
'''
SEEDS={
"C07-second-reply":dict(property="C07",pkg="internal/jsonrpc2",
 edits=[("internal/jsonrpc2/jsonrpc2.go",'''	if r.state >= requestReplied {
		return fmt.Errorf("reply invoked''','''	if r.state > requestReplied {
		return fmt.Errorf("reply invoked''')],
 test=JIMP+'''
func TestZZDemo(t *testing.T) {
	l := zzAnswers(func(ctx context.Context, r *Request) {
		r.Reply(ctx, 1, nil)
		r.Reply(ctx, nil, fmt.Errorf("late"))
	}, "{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,\\"method\\":\\"m\\"}")
	if len(l) != 1 {
		t.Fatal(l)
	}
}
''',needs="a handler that replies twice",breaks="the call is answered twice"),
"C07-float-ids":dict(property="C07",pkg="internal/jsonrpc2",
 edits=[("internal/jsonrpc2/wire.go",'''	if err := json.Unmarshal(data, &id.Number); err == nil {
		return nil
	}''','''	number := 0.0
	if err := json.Unmarshal(data, &number); err == nil {
		id.Number = int64(number)
		return nil
	}''')],
 test=JIMP+'''
func TestZZDemo(t *testing.T) {
	l := zzAnswers(func(ctx context.Context, r *Request) {
		r.Reply(ctx, 1, nil)
	}, "{\\"jsonrpc\\":\\"2.0\\",\\"id\\":9007199254740993,\\"method\\":\\"m\\"}")
	if len(l) != 1 || !strings.Contains(l[0], "9007199254740993") {
		t.Fatal(l)
	}
}
''',needs="an id beyond 2^53",breaks="the answer carries another id"),
"C07-parallel-unanswered":dict(property="C07",pkg="internal/jsonrpc2",
 edits=[("internal/jsonrpc2/jsonrpc2.go",'''!req.IsNotify() && req.state < requestReplied {''','''!req.IsNotify() && req.state < requestParallel {''')],
 test=JIMP+'''
func TestZZDemo(t *testing.T) {
	l := zzAnswers(func(ctx context.Context, r *Request) {
		r.Parallel()
	}, "{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,\\"method\\":\\"m\\"}")
	if len(l) != 1 {
		t.Fatal(l)
	}
}
''',needs="a handler that lets others run and ends without a reply",breaks="the call is never answered"),
}
