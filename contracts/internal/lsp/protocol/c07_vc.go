//go:build verif

package protocol

// Specification of the dispatch of requests (property C07): no message makes Deliver panic,
// and it answers every call of a method it knows. The ghost "answered" of a request says that
// an answer to it was given to the connection.

import (
	"context"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
)

//vc:trusted (*Request).Reply
func vc_Reply7(r *jsonrpc2.Request, ctx context.Context, result interface{}, e error) {
	vcRequires(r != nil && ctx != nil)
	vcModifiesKey("ghost:answered")
	at := vcGhostGet("answered", r)
	r.Reply(ctx, result, e)
	now := vcGhostGet("answered", r)
	vcEnsures("answered", vcImp(r.ID != nil, now == 1) && vcImp(r.ID == nil, now == at))
}

// vcNotification: the methods that a client does not expect an answer to.
func vcNotification(method string) bool {
	switch method {
	case "workspace/didChangeWorkspaceFolders", "initialized", "exit", "workspace/didChangeConfiguration",
		"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave",
		"textDocument/willSave", "workspace/didChangeWatchedFiles", "$/progress", "$/setTraceNotification",
		"$/logTraceNotification",
		"window/showMessage", "window/logMessage", "telemetry/event", "textDocument/publishDiagnostics":
		return true
	}
	return false
}

//vc:contract unmarshalParams props=C07
func vc_unmarshalParams(req *jsonrpc2.Request, params interface{}) {
	vcRequires(req != nil)
	err := unmarshalParams(req, params)
	vcEnsures("missing", vcImp(req.Params == nil, err != nil))
}

//vc:contract sendParseError props=C07
func vc_sendParseError(ctx context.Context, req *jsonrpc2.Request, err error) {
	vcRequires(req != nil && ctx != nil && err != nil)
	at := vcGhostGet("answered", req)
	vcModifiesKey("ghost:answered")
	sendParseError(ctx, req, err)
	now := vcGhostGet("answered", req)
	vcEnsures("answered", vcImp(req.ID != nil, now == 1) && vcImp(req.ID == nil, now == at))
}

//vc:contract (serverHandler).Deliver props=C07
func vc_ServerDeliver(h serverHandler, ctx context.Context, r *jsonrpc2.Request, delivered bool) {
	vcRequires(h.server != nil && r != nil && ctx != nil)
	at := vcGhostGet("answered", r)
	vcRequires(at == 0)
	vcModifiesKey("ghost:answered")
	done := h.Deliver(ctx, r, delivered)
	now := vcGhostGet("answered", r)
	vcEnsures("left to others", vcImp(!done, now == at))
	vcEnsures("already delivered", vcImp(delivered, !done))
	vcEnsures("calls are answered", vcImp(done && r.ID != nil && !vcNotification(r.Method), now == 1))
	vcEnsures("notifications are not", vcImp(r.ID == nil, now == 0))
}

//vc:contract (clientHandler).Deliver props=C07
func vc_ClientDeliver(h clientHandler, ctx context.Context, r *jsonrpc2.Request, delivered bool) {
	vcRequires(h.client != nil && r != nil && ctx != nil)
	at := vcGhostGet("answered", r)
	vcRequires(at == 0)
	vcModifiesKey("ghost:answered")
	done := h.Deliver(ctx, r, delivered)
	now := vcGhostGet("answered", r)
	vcEnsures("left to others", vcImp(!done, now == at))
	vcEnsures("already delivered", vcImp(delivered, !done))
	vcEnsures("calls are answered", vcImp(done && r.ID != nil && !vcNotification(r.Method), now == 1))
	vcEnsures("notifications are not", vcImp(r.ID == nil, now == 0))
}
