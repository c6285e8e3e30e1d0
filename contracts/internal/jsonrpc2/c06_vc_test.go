//go:build verif

package jsonrpc2

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// vcChunks delivers its bytes in random pieces.
type vcChunks struct {
	b []byte
	r *rand.Rand
}

func (c *vcChunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.r.Intn(len(c.b))
	if n > len(p) {
		n = len(p)
	}
	if c.r.Intn(2) == 0 {
		n = 1
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// vcRefRead is a message as the property has it, read without the code's helpers: the body and
// the bytes consumed, or ok=false.
func vcRefRead(in []byte) (body []byte, used int, ok bool) {
	length := 0
	for i := 0; ; {
		n := bytes.IndexByte(in[i:], '\n')
		if n < 0 {
			return nil, 0, false
		}
		line := strings.TrimSpace(string(in[i : i+n]))
		i += n + 1
		if line == "" {
			if length == 0 || length > len(in)-i {
				return nil, 0, false
			}
			return in[i : i+length], i + length, true
		}
		name, value, found := strings.Cut(line, ":")
		if !found {
			return nil, 0, false
		}
		if name == "Content-Length" {
			v := strings.TrimSpace(value)
			k, err := strconv.Atoi(v)
			if err != nil || k <= 0 || k > 1<<31-1 {
				return nil, 0, false
			}
			length = k
		}
	}
}

func vcAnyBody(r *rand.Rand) []byte {
	n := 1 + r.Intn(40)
	switch r.Intn(30) {
	case 0:
		n = 4090 + r.Intn(12)
	case 1:
		n = 65530 + r.Intn(4470)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(2) == 0 {
		for i := range b {
			b[i] = "\r\n \tContent-Length: 7{}é"[int(b[i])%24]
		}
	}
	return b
}

// vc_stream reads a random stream of messages.
func vc_stream(r *rand.Rand) {
	var in bytes.Buffer
	eol := func() string {
		if r.Intn(6) == 0 {
			return "\n"
		}
		return "\r\n"
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		body := vcAnyBody(r)
		length := strconv.Itoa(len(body))
		switch r.Intn(40) {
		case 0:
			length = []string{"0", "-1", "", "x", "1.5", "99999999999", "0x10", "1 2", "2147483648"}[r.Intn(9)]
		case 1:
			length = "+" + length
		case 2:
			length = "00" + length
		case 3:
			body = body[:len(body)-1]
		}
		var l []string
		if r.Intn(25) > 0 {
			l = append(l, "Content-Length:"+strings.Repeat(" ", r.Intn(3))+length)
		}
		for j := r.Intn(3) * r.Intn(3); j > 0; j-- {
			l = append(l, []string{"Content-Type: application/vscode-jsonrpc; charset=utf-8", "X: y", "X-Content-Length: 3", "content-length: 4",
				"A:", ": b", "Host: a:b:c", "Date:x", "broken", "Content-Length : 5", strings.Repeat("k", 5000) + ": 1"}[r.Intn(10+r.Intn(2))])
		}
		r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		for _, h := range l {
			if r.Intn(12) == 0 {
				h = " " + h + "\t"
			}
			in.WriteString(h + eol())
		}
		in.WriteString(eol())
		in.Write(body)
	}
	all := in.Bytes()
	if r.Intn(4) == 0 {
		all = all[:r.Intn(len(all)+1)]
	}
	s := NewHeaderStream(&vcChunks{append([]byte(nil), all...), r}, io.Discard)
	if r.Intn(10) == 0 {
		// a read given up before it began takes nothing
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if data, n, err := s.Read(ctx); err == nil || n != 0 || len(data) != 0 {
			vcEnsures("a cancelled read takes nothing", false)
		}
	}
	rest := all
	var bodies, copies [][]byte
	for {
		want, used, ok := vcRefRead(rest)
		data, n, err := s.Read(context.Background())
		if !ok {
			vcEnsures(fmt.Sprintf("an error for the stream %.300q, got the body %.80q", rest, data), err != nil && len(data) == 0)
			break
		}
		vcEnsures(fmt.Sprintf("the body and size %d of %.300q, got %.80q size %d error %v", used, rest, data, n, err),
			err == nil && bytes.Equal(data, want) && n == int64(used))
		bodies, copies = append(bodies, data), append(copies, append([]byte(nil), data...))
		rest = rest[used:]
	}
	for i := range bodies {
		vcEnsures("a body stays as it was read", bytes.Equal(bodies[i], copies[i]))
	}
}

// vcSlow takes its time, so that writes that are not kept apart mix.
type vcSlow struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (w *vcSlow) Write(p []byte) (int, error) {
	runtime.Gosched()
	w.mu.Lock()
	defer w.mu.Unlock()
	n, err := w.b.Write(p)
	return n, err
}

// vcFailing fails after some bytes.
type vcFailing struct {
	b    bytes.Buffer
	left int
}

func (w *vcFailing) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.b.Write(p[:n])
		w.left = 0
		return n, io.ErrShortWrite
	}
	w.left -= len(p)
	return w.b.Write(p)
}

func vcRefFrame(body []byte) string {
	return "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + string(body)
}

// vc_written writes random bodies.
func vc_written(r *rand.Rand) {
	w := &vcSlow{}
	s := NewHeaderStream(strings.NewReader(""), w)
	var want strings.Builder
	for k := 1 + r.Intn(4); k > 0; k-- {
		body := vcAnyBody(r)
		keep := append([]byte(nil), body...)
		n, err := s.Write(context.Background(), body)
		want.WriteString(vcRefFrame(keep))
		vcEnsures("size written", err == nil && n == int64(len(vcRefFrame(keep))))
		vcEnsures("the body written is left alone", bytes.Equal(body, keep))
	}
	vcEnsures("bytes written", w.b.String() == want.String())
	body := vcAnyBody(r)
	f := &vcFailing{left: r.Intn(60)}
	left := f.left
	n, err := NewHeaderStream(strings.NewReader(""), f).Write(context.Background(), body)
	all := vcRefFrame(body)
	vcEnsures("an error for a failed write", (err != nil) == (left < len(all)) && n == int64(f.b.Len()) && strings.HasPrefix(all, f.b.String()))
}

// vc_concurrent writes from several goroutines.
func vc_concurrent(r *rand.Rand) {
	w := &vcSlow{}
	s := NewHeaderStream(strings.NewReader(""), w)
	bodies := map[string]int{}
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		b := []byte(fmt.Sprint(k, " ", string(vcAnyBody(r))))
		bodies[string(b)]++
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.Write(context.Background(), b)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		vcEnsures("writers finish", false)
	}
	rest := w.b.Bytes()
	for len(rest) > 0 {
		b, n, ok := vcRefRead(rest)
		vcEnsures("messages of concurrent writers are kept apart", ok && bodies[string(b)] > 0)
		bodies[string(b)]--
		rest = rest[n:]
	}
}

func TestVC_C06(t *testing.T) {
	for _, c := range []struct {
		name string
		n    int
		f    func(*rand.Rand)
	}{{"streams read", 60000, vc_stream}, {"bodies written", 20000, vc_written}, {"concurrent writers", 1500, vc_concurrent}} {
		h := vcNew(t, "C06", c.name)
		for h.more(c.n) {
			seed := h.r.Int63()
			h.check(fmt.Sprint("seed ", seed), func() { c.f(rand.New(rand.NewSource(seed))) })
		}
	}
}
