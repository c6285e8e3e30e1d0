//go:build verif

package jsonrpc2

// Specification of the framing of messages (property C06).

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// vcIn is everything the reader will ever deliver; the ghost "read" of the reader is how much
// of it was delivered so far.
//
//vc:rec
func vcIn(r *bufio.Reader) string { return "" }

// vcOut is everything that will ever be written to the writer; the ghost "written" of the
// writer is how much of it was written so far.
//
//vc:rec
func vcOut(w io.Writer) string { return "" }

// vcIsInt, vcInt: the text is a decimal integer of at most 32 bits, and its value.
//
//vc:rec
func vcIsInt(s string) bool {
	_, err := strconv.ParseInt(s, 10, 32)
	return err == nil
}

//vc:rec
func vcInt(s string) int64 {
	n, _ := strconv.ParseInt(s, 10, 32)
	return n
}

// vcDec is the integer as decimal text.
//
//vc:rec
func vcDec(n int) string { return strconv.Itoa(n) }

// vcEOL is the offset after the line that starts at i, or -1 if it does not end.
func vcEOL(in string, i int) int {
	n := strings.Index(in[i:], "\n")
	if n < 0 {
		return -1
	}
	return i + n + 1
}

// vcName, vcValue: a header line's parts.
func vcName(line string) string {
	return line[:strings.Index(line, ":")]
}

func vcValue(line string) string {
	return strings.TrimSpace(line[strings.Index(line, ":")+1:])
}

// vcHead is where the body starts if the header block that goes on at i, with the given
// length read so far, is valid, or -1.
//
//vc:rec
func vcHead(in string, i int, length int64) int {
	if i < 0 || i > len(in) || vcEOL(in, i) < 0 {
		return -1
	}
	line := strings.TrimSpace(in[i:vcEOL(in, i)])
	if line == "" {
		if length == 0 {
			return -1
		}
		return vcEOL(in, i)
	}
	if !strings.Contains(line, ":") {
		return -1
	}
	if vcName(line) == "Content-Length" {
		if !vcIsInt(vcValue(line)) || vcInt(vcValue(line)) <= 0 {
			return -1
		}
		return vcHead(in, vcEOL(in, i), vcInt(vcValue(line)))
	}
	return vcHead(in, vcEOL(in, i), length)
}

// vcLength is the length that a valid header block declares.
//
//vc:rec
func vcLength(in string, i int, length int64) int64 {
	if i < 0 || i > len(in) || vcEOL(in, i) < 0 {
		return length
	}
	line := strings.TrimSpace(in[i:vcEOL(in, i)])
	if line == "" || !strings.Contains(line, ":") {
		return length
	}
	if vcName(line) == "Content-Length" {
		return vcLength(in, vcEOL(in, i), vcInt(vcValue(line)))
	}
	return vcLength(in, vcEOL(in, i), length)
}

//vc:trusted (*Reader).ReadString
func vc_ReadString(r *bufio.Reader, delim byte) {
	vcRequires(delim == '\n')
	vcModifiesKey("ghost:read")
	at := vcGhostGet("read", r)
	s, err := r.ReadString(delim)
	now := vcGhostGet("read", r)
	vcEnsures("read", at <= now && now <= len(vcIn(r)) && s == vcIn(r)[at:now])
	vcEnsures("line", vcImp(err == nil, now == vcEOL(vcIn(r), at)))
	vcEnsures("no line", vcImp(err != nil, vcEOL(vcIn(r), at) < 0))
}

//vc:trusted ReadFull
func vc_ReadFull(r io.Reader, buf []byte) {
	vcModifies(buf)
	vcModifiesKey("ghost:read")
	b := r.(*bufio.Reader)
	at := vcGhostGet("read", b)
	_, err := io.ReadFull(r, buf)
	now := vcGhostGet("read", b)
	vcEnsures("read", at <= now && now <= len(vcIn(b)))
	vcEnsures("full", vcImp(err == nil, now == at+len(buf) && string(buf) == vcIn(b)[at:now]))
	vcEnsures("ended", vcImp(err != nil, len(vcIn(b)) < at+len(buf)))
}

//vc:trusted ParseInt
func vc_ParseInt(s string, base int, bits int) {
	n, err := strconv.ParseInt(s, base, bits)
	vcEnsures("number", vcImp(base == 10 && bits == 32, (err == nil) == vcIsInt(s) && (err != nil || n == vcInt(s) && n < 1<<31 && n >= -1<<31)))
}

// The context's error is asked for only when the context is done.
//
//vc:trusted Context.Err
func vc_ContextErr(ctx context.Context) {
	err := ctx.Err()
	vcEnsures("done", err != nil)
}

//vc:contract (*headerStream).Read props=C06
//vc:opt opaque=vcIsInt+vcInt+vcIn unfold=1
func vc_Read(s *headerStream, ctx context.Context) {
	vcRequires(s != nil && s.in != nil)
	at := vcGhostGet("read", s.in)
	vcRequires(0 <= at && at <= len(vcIn(s.in)))
	vcModifiesKey("ghost:read")
	all := vcIn(s.in)
	r := s.in
	vcRequires(ctx != nil)
	data, n, err := s.Read(ctx)
	now := vcGhostGet("read", r)
	vcEnsures("body", vcImp(err == nil, vcHead(all, at, 0)+len(data) == now && string(data) == all[vcHead(all, at, 0):now]))
	vcEnsures("valid header", vcImp(err == nil, vcHead(all, at, 0) >= 0))
	vcEnsures("declared length", vcImp(err == nil, int64(len(data)) == vcLength(all, at, 0) && len(data) > 0))
	vcEnsures("size", vcImp(err == nil, n == int64(now-at)))
	vcEnsures("own copy", vcImp(err == nil, vcFreshSlice(data)))
	vcEnsures("nothing on error", vcImp(err != nil, len(data) == 0))
	vcEnsures("whole messages are read", vcImp(err != nil && now != at, vcHead(all, at, 0) < 0 || vcHead(all, at, 0)+int(vcLength(all, at, 0)) > len(all)))
}

//vc:loop (*headerStream).Read 0
func vcl_Read(c_s *headerStream, c_all string, c_at int, total, length int64) {
	i := vcGhostGet("read", c_s.in)
	vcInv("read", int64(c_at)+total == int64(i) && c_at <= i && i <= len(c_all))
	vcInv("length", 0 <= length && length < 1<<31)
	vcInv("head", vcHead(c_all, c_at, 0) == vcHead(c_all, i, length))
	vcInv("declared", vcLength(c_all, c_at, 0) == vcLength(c_all, i, length))
	vcDecreases(len(c_all) - i)
}

//vc:trusted Writer.Write
func vc_WriterWrite(w io.Writer, p []byte) {
	vcModifiesKey("ghost:written")
	at := vcGhostGet("written", w)
	n, err := w.Write(p)
	now := vcGhostGet("written", w)
	vcEnsures("written", 0 <= n && n <= len(p) && now == at+n && now <= len(vcOut(w)) && string(p[:n]) == vcOut(w)[at:now])
	vcEnsures("all", vcImp(err == nil, n == len(p)))
}

// The text of an integer is its decimal text; nothing is said of other formats.
//
//vc:trusted Fprintf
func vc_Fprintf(w io.Writer, format string, a []interface{}) {
	vcModifiesKey("ghost:written")
	at := vcGhostGet("written", w)
	n, err := fmt.Fprintf(w, format, a...)
	now := vcGhostGet("written", w)
	vcEnsures("written", 0 <= n && now == at+n && now <= len(vcOut(w)))
	if format == "Content-Length: %v\r\n\r\n" || format == "Content-Length: %d\r\n\r\n" {
		if k, ok := a[0].(int); ok {
			vcEnsures("formatted", vcImp(err == nil && len(a) == 1, vcOut(w)[at:now] == vcFrame(k)))
		}
	}
}

//vc:trusted Sprintf
func vc_Sprintf(format string, a []interface{}) {
	r := fmt.Sprintf(format, a...)
	if format == "Content-Length: %v\r\n\r\n" || format == "Content-Length: %d\r\n\r\n" {
		if k, ok := a[0].(int); ok {
			vcEnsures("formatted", vcImp(len(a) == 1, r == vcFrame(k)))
		}
	}
}

//vc:trusted WriteString
func vc_WriteString(w io.Writer, s string) {
	vcModifiesKey("ghost:written")
	at := vcGhostGet("written", w)
	n, err := io.WriteString(w, s)
	now := vcGhostGet("written", w)
	vcEnsures("written", 0 <= n && n <= len(s) && now == at+n && now <= len(vcOut(w)) && s[:n] == vcOut(w)[at:now])
	vcEnsures("all", vcImp(err == nil, n == len(s)))
}

//vc:trusted Itoa
func vc_Itoa(n int) {
	s := strconv.Itoa(n)
	vcEnsures("decimal", s == vcDec(n))
}

// vcFrame is the header block of a body of n bytes.
func vcFrame(n int) string {
	return "Content-Length: " + vcDec(n) + "\r\n\r\n"
}

//vc:contract (*headerStream).Write props=C06
//vc:opt opaque=vcDec+vcOut
func vc_Write(s *headerStream, ctx context.Context, data []byte) {
	vcRequires(s != nil && s.out != nil && ctx != nil)
	w := s.out
	at := vcGhostGet("written", w)
	vcRequires(0 <= at && at <= len(vcOut(w)))
	vcModifiesKey("ghost:written")
	n, err := s.Write(ctx, data)
	now := vcGhostGet("written", w)
	head := len(vcFrame(len(data)))
	vcEnsures("header", vcImp(err == nil, at+head <= now && vcOut(w)[at:at+head] == vcFrame(len(data))))
	vcEnsures("body", vcImp(err == nil, now == at+head+len(data) && vcOut(w)[at+head:now] == string(data)))
	vcEnsures("size", n == int64(now-at))
}

// A message as it is written is read back: its header block is valid, ends where the body
// starts and declares the body's length.
//
//vc:lemma props=C06
//vc:opt opaque=vcIsInt+vcInt+vcDec
func vc_frame(in string, i int, n int) {
	d := vcDec(n)
	e := i + len("Content-Length: ") + len(d) + 4
	vcRequires(0 <= i && e <= len(in) && 0 < n && n < 1<<31)
	vcRequires(in[i:e] == "Content-Length: "+d+"\r\n\r\n")
	// of decimal text and of strings.TrimSpace
	vcAssume(len(d) > 0 && !strings.Contains(d, "\n") && vcIsInt(d) && vcInt(d) == int64(n))
	vcAssume(strings.TrimSpace("Content-Length: "+d+"\r\n") == "Content-Length: "+d && strings.TrimSpace(" "+d) == d && strings.TrimSpace("\r\n") == "")
	m := e - 2
	vcAssert("first line", vcEOL(in, i) == m && in[i:m] == "Content-Length: "+d+"\r\n")
	vcAssert("blank line", vcEOL(in, m) == e && in[m:e] == "\r\n")
	line := "Content-Length: " + d
	vcAssert("parts", strings.Index(line, ":") == 14 && line[15:] == " "+d)
	vcAssert("name", vcName(line) == "Content-Length" && vcValue(line) == d)
	vcAssert("rest", vcHead(in, m, int64(n)) == e && vcLength(in, m, int64(n)) == int64(n))
	vcGuarantee("valid", vcHead(in, i, 0) == e)
	vcGuarantee("declares the length", vcLength(in, i, 0) == int64(n))
}
