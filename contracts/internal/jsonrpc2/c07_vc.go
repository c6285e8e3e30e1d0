//go:build verif

package jsonrpc2

// Specification of answering requests (property C07).

import (
	"context"
	"encoding/json"
)

// vcSent is the message that is the i-th one written to the stream; the ghost "sent" of the
// stream is how many were written so far.
//
//vc:rec
func vcSent(s Stream, i int) string { return "" }

// What a message is an answer to, and whether it reports an error.
//
//vc:rec
func vcAnswers(msg string, name string, number int64) bool { return false }

//vc:rec
func vcIsAnswer(msg string) bool { return false }

//vc:rec
func vcReportsError(msg string) bool { return false }

//vc:trusted Stream.Write
func vc_StreamWrite(s Stream, ctx context.Context, data []byte) {
	vcModifiesKey("ghost:sent")
	at := vcGhostGet("sent", s)
	_, err := s.Write(ctx, data)
	now := vcGhostGet("sent", s)
	vcEnsures("sent", vcImp(err == nil, now == at+1 && vcSent(s, at) == string(data)))
	vcEnsures("failed", vcImp(err != nil, now == at))
}

//vc:trusted Marshal
func vc_Marshal(v interface{}) {
	data, err := json.Marshal(v)
	if r, ok := v.(*WireResponse); ok {
		vcEnsures("an answer", vcImp(err == nil, vcIsAnswer(string(data)) && vcReportsError(string(data)) == (r.Error != nil)))
		if r.ID != nil {
			vcEnsures("to the request of the id", vcImp(err == nil, vcAnswers(string(data), r.ID.Name, r.ID.Number)))
		}
	}
}

//vc:contract (*Request).IsNotify props=C07
func vc_IsNotify(r *Request) {
	vcRequires(r != nil)
	n := r.IsNotify()
	vcEnsures("without an id", n == (r.ID == nil))
}

//vc:contract (*Request).Parallel props=C07
func vc_Parallel(r *Request) {
	vcRequires(r != nil)
	old := r.state
	vcModifies(&r.state)
	r.Parallel()
	vcEnsures("an answer stays an answer", vcImp(old >= requestParallel, r.state == old))
	vcEnsures("parallel", vcImp(old < requestParallel, r.state == requestParallel))
}

func vcNoNilError(e error) bool {
	known, ok := e.(*Error)
	return !ok || known != nil
}

//vc:contract (*Request).Reply props=C07
//vc:opt opaque=vcSent+vcAnswers+vcIsAnswer+vcReportsError
func vc_Reply(r *Request, ctx context.Context, result interface{}, e error) {
	vcRequires(r != nil && r.conn != nil && r.conn.stream != nil && ctx != nil)
	vcRequires(vcForall(0, len(r.conn.handlers), func(i int) bool { return r.conn.handlers[i] != nil }))
	vcRequires(vcNoNilError(e))
	old := r.state
	s := r.conn.stream
	at := vcGhostGet("sent", s)
	id := r.ID
	vcModifies(&r.state)
	vcModifiesKey("ghost:sent")
	err := r.Reply(ctx, result, e)
	now := vcGhostGet("sent", s)
	vcEnsures("at most once", vcImp(old >= requestReplied, err != nil && now == at && r.state == old))
	vcEnsures("no answer to a notification", vcImp(id == nil, err != nil && now == at && r.state == old))
	vcEnsures("answered", vcImp(id != nil && old < requestReplied, r.state == requestReplied && (err == nil && now == at+1 || err != nil && now == at)))
	if id != nil && now != at {
		vcEnsures("its own id", vcIsAnswer(vcSent(s, at)) && vcAnswers(vcSent(s, at), id.Name, id.Number))
		vcEnsures("errors are reported", vcImp(e != nil, vcReportsError(vcSent(s, at))))
	}
}

//vc:contract (defaultHandler).Deliver props=C07
//vc:opt opaque=vcSent+vcAnswers+vcIsAnswer+vcReportsError
func vc_DefaultDeliver(h defaultHandler, ctx context.Context, r *Request, delivered bool) {
	vcRequires(r != nil && r.conn != nil && r.conn.stream != nil && ctx != nil)
	vcRequires(vcForall(0, len(r.conn.handlers), func(i int) bool { return r.conn.handlers[i] != nil }))
	old := r.state
	s := r.conn.stream
	at := vcGhostGet("sent", s)
	vcModifies(&r.state)
	vcModifiesKey("ghost:sent")
	done := h.Deliver(ctx, r, delivered)
	now := vcGhostGet("sent", s)
	vcEnsures("delivered", done == !delivered)
	vcEnsures("answered if nobody else did", vcImp(r.ID != nil && !delivered && old < requestReplied, r.state == requestReplied))
	vcEnsures("left alone", vcImp(delivered || r.ID == nil, now == at && r.state == old))
	vcEnsures("at most one message", at <= now && now <= at+1)
	if now != at {
		vcEnsures("unknown method", vcReportsError(vcSent(s, at)))
	}
}
