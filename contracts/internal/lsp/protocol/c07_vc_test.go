//go:build verif

package protocol

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
)

// vcOutcome is what the handlers answer.
type vcOutcome struct {
	err error
	mu  sync.Mutex
	n   int
}

func (s *vcOutcome) called(string) {
	s.mu.Lock()
	s.n++
	s.mu.Unlock()
}

type vcServer struct{ vcOutcome }

type vcClient struct{ vcOutcome }

type vcMethod7 struct {
	name  string
	notif bool
}

var vcServerMethods = []vcMethod7{{"workspace/didChangeWorkspaceFolders", true}, {"initialized", true}, {"exit", true}, {"workspace/didChangeConfiguration", true}, {"textDocument/didOpen", true}, {"textDocument/didChange", true}, {"textDocument/didClose", true}, {"textDocument/didSave", true}, {"textDocument/willSave", true}, {"workspace/didChangeWatchedFiles", true}, {"$/progress", true}, {"$/setTraceNotification", true}, {"$/logTraceNotification", true}, {"textDocument/implementation", false}, {"textDocument/typeDefinition", false}, {"textDocument/documentColor", false}, {"textDocument/colorPresentation", false}, {"textDocument/foldingRange", false}, {"textDocument/declaration", false}, {"textDocument/selectionRange", false}, {"initialize", false}, {"shutdown", false}, {"textDocument/willSaveWaitUntil", false}, {"textDocument/completion", false}, {"completionItem/resolve", false}, {"textDocument/hover", false}, {"textDocument/signatureHelp", false}, {"textDocument/definition", false}, {"textDocument/references", false}, {"textDocument/documentHighlight", false}, {"textDocument/documentSymbol", false}, {"textDocument/codeAction", false}, {"workspace/symbol", false}, {"textDocument/codeLens", false}, {"codeLens/resolve", false}, {"textDocument/documentLink", false}, {"documentLink/resolve", false}, {"textDocument/formatting", false}, {"textDocument/rangeFormatting", false}, {"textDocument/onTypeFormatting", false}, {"textDocument/rename", false}, {"textDocument/prepareRename", false}, {"workspace/executeCommand", false}, {"documentSignatures", false}}

var vcClientMethods = []vcMethod7{{"window/showMessage", true}, {"window/logMessage", true}, {"telemetry/event", true}, {"textDocument/publishDiagnostics", true}, {"workspace/workspaceFolders", false}, {"workspace/configuration", false}, {"client/registerCapability", false}, {"client/unregisterCapability", false}, {"window/showMessageRequest", false}, {"workspace/applyEdit", false}}

func (s *vcServer) DidChangeWorkspaceFolders(ctx context.Context, p *DidChangeWorkspaceFoldersParams) error {
	s.called("DidChangeWorkspaceFolders")
	return s.err
}

func (s *vcServer) Initialized(ctx context.Context, p *InitializedParams) error {
	s.called("Initialized")
	return s.err
}

func (s *vcServer) Exit(ctx context.Context) error { s.called("Exit"); return s.err }

func (s *vcServer) DidChangeConfiguration(ctx context.Context, p *DidChangeConfigurationParams) error {
	s.called("DidChangeConfiguration")
	return s.err
}

func (s *vcServer) DidOpen(ctx context.Context, p *DidOpenTextDocumentParams) error {
	s.called("DidOpen")
	return s.err
}

func (s *vcServer) DidChange(ctx context.Context, p *DidChangeTextDocumentParams) error {
	s.called("DidChange")
	return s.err
}

func (s *vcServer) DidClose(ctx context.Context, p *DidCloseTextDocumentParams) error {
	s.called("DidClose")
	return s.err
}

func (s *vcServer) DidSave(ctx context.Context, p *DidSaveTextDocumentParams) error {
	s.called("DidSave")
	return s.err
}

func (s *vcServer) WillSave(ctx context.Context, p *WillSaveTextDocumentParams) error {
	s.called("WillSave")
	return s.err
}

func (s *vcServer) DidChangeWatchedFiles(ctx context.Context, p *DidChangeWatchedFilesParams) error {
	s.called("DidChangeWatchedFiles")
	return s.err
}

func (s *vcServer) Progress(ctx context.Context, p *ProgressParams) error {
	s.called("Progress")
	return s.err
}

func (s *vcServer) SetTraceNotification(ctx context.Context, p *SetTraceParams) error {
	s.called("SetTraceNotification")
	return s.err
}

func (s *vcServer) LogTraceNotification(ctx context.Context, p *LogTraceParams) error {
	s.called("LogTraceNotification")
	return s.err
}

func (s *vcServer) Implementation(ctx context.Context, p *ImplementationParams) ([]Location, error) {
	s.called("Implementation")
	var r []Location
	return r, s.err
}

func (s *vcServer) TypeDefinition(ctx context.Context, p *TypeDefinitionParams) ([]Location, error) {
	s.called("TypeDefinition")
	var r []Location
	return r, s.err
}

func (s *vcServer) DocumentColor(ctx context.Context, p *DocumentColorParams) ([]ColorInformation, error) {
	s.called("DocumentColor")
	var r []ColorInformation
	return r, s.err
}

func (s *vcServer) ColorPresentation(ctx context.Context, p *ColorPresentationParams) ([]ColorPresentation, error) {
	s.called("ColorPresentation")
	var r []ColorPresentation
	return r, s.err
}

func (s *vcServer) FoldingRange(ctx context.Context, p *FoldingRangeParams) ([]FoldingRange, error) {
	s.called("FoldingRange")
	var r []FoldingRange
	return r, s.err
}

func (s *vcServer) Declaration(ctx context.Context, p *DeclarationParams) ([]DeclarationLink, error) {
	s.called("Declaration")
	var r []DeclarationLink
	return r, s.err
}

func (s *vcServer) SelectionRange(ctx context.Context, p *SelectionRangeParams) ([]SelectionRange, error) {
	s.called("SelectionRange")
	var r []SelectionRange
	return r, s.err
}

func (s *vcServer) Initialize(ctx context.Context, p *InitializeParams) (*InitializeResult, error) {
	s.called("Initialize")
	var r *InitializeResult
	return r, s.err
}

func (s *vcServer) Shutdown(ctx context.Context) error { s.called("Shutdown"); return s.err }

func (s *vcServer) WillSaveWaitUntil(ctx context.Context, p *WillSaveTextDocumentParams) ([]TextEdit, error) {
	s.called("WillSaveWaitUntil")
	var r []TextEdit
	return r, s.err
}

func (s *vcServer) Completion(ctx context.Context, p *CompletionParams) (*CompletionList, error) {
	s.called("Completion")
	var r *CompletionList
	return r, s.err
}

func (s *vcServer) Resolve(ctx context.Context, p *CompletionItem) (*CompletionItem, error) {
	s.called("Resolve")
	var r *CompletionItem
	return r, s.err
}

func (s *vcServer) Hover(ctx context.Context, p *HoverParams) (*Hover, error) {
	s.called("Hover")
	var r *Hover
	return r, s.err
}

func (s *vcServer) SignatureHelp(ctx context.Context, p *SignatureHelpParams) (*SignatureHelp, error) {
	s.called("SignatureHelp")
	var r *SignatureHelp
	return r, s.err
}

func (s *vcServer) Definition(ctx context.Context, p *DefinitionParams) ([]Location, error) {
	s.called("Definition")
	var r []Location
	return r, s.err
}

func (s *vcServer) References(ctx context.Context, p *ReferenceParams) ([]Location, error) {
	s.called("References")
	var r []Location
	return r, s.err
}

func (s *vcServer) DocumentHighlight(ctx context.Context, p *DocumentHighlightParams) ([]DocumentHighlight, error) {
	s.called("DocumentHighlight")
	var r []DocumentHighlight
	return r, s.err
}

func (s *vcServer) DocumentSymbol(ctx context.Context, p *DocumentSymbolParams) ([]DocumentSymbol, error) {
	s.called("DocumentSymbol")
	var r []DocumentSymbol
	return r, s.err
}

func (s *vcServer) CodeAction(ctx context.Context, p *CodeActionParams) ([]CodeAction, error) {
	s.called("CodeAction")
	var r []CodeAction
	return r, s.err
}

func (s *vcServer) Symbol(ctx context.Context, p *WorkspaceSymbolParams) ([]SymbolInformation, error) {
	s.called("Symbol")
	var r []SymbolInformation
	return r, s.err
}

func (s *vcServer) CodeLens(ctx context.Context, p *CodeLensParams) ([]CodeLens, error) {
	s.called("CodeLens")
	var r []CodeLens
	return r, s.err
}

func (s *vcServer) ResolveCodeLens(ctx context.Context, p *CodeLens) (*CodeLens, error) {
	s.called("ResolveCodeLens")
	var r *CodeLens
	return r, s.err
}

func (s *vcServer) DocumentLink(ctx context.Context, p *DocumentLinkParams) ([]DocumentLink, error) {
	s.called("DocumentLink")
	var r []DocumentLink
	return r, s.err
}

func (s *vcServer) ResolveDocumentLink(ctx context.Context, p *DocumentLink) (*DocumentLink, error) {
	s.called("ResolveDocumentLink")
	var r *DocumentLink
	return r, s.err
}

func (s *vcServer) Formatting(ctx context.Context, p *DocumentFormattingParams) ([]TextEdit, error) {
	s.called("Formatting")
	var r []TextEdit
	return r, s.err
}

func (s *vcServer) RangeFormatting(ctx context.Context, p *DocumentRangeFormattingParams) ([]TextEdit, error) {
	s.called("RangeFormatting")
	var r []TextEdit
	return r, s.err
}

func (s *vcServer) OnTypeFormatting(ctx context.Context, p *DocumentOnTypeFormattingParams) ([]TextEdit, error) {
	s.called("OnTypeFormatting")
	var r []TextEdit
	return r, s.err
}

func (s *vcServer) Rename(ctx context.Context, p *RenameParams) (*WorkspaceEdit, error) {
	s.called("Rename")
	var r *WorkspaceEdit
	return r, s.err
}

func (s *vcServer) PrepareRename(ctx context.Context, p *PrepareRenameParams) (*Range, error) {
	s.called("PrepareRename")
	var r *Range
	return r, s.err
}

func (s *vcServer) ExecuteCommand(ctx context.Context, p *ExecuteCommandParams) (interface{}, error) {
	s.called("ExecuteCommand")
	var r interface{}
	return r, s.err
}

func (s *vcServer) DocumentSignatures(ctx context.Context, p *TextDocumentIdentifier) ([]TextEdit, error) {
	s.called("DocumentSignatures")
	var r []TextEdit
	return r, s.err
}

func (s *vcClient) ShowMessage(ctx context.Context, p *ShowMessageParams) error {
	s.called("ShowMessage")
	return s.err
}

func (s *vcClient) LogMessage(ctx context.Context, p *LogMessageParams) error {
	s.called("LogMessage")
	return s.err
}

func (s *vcClient) Event(ctx context.Context, p *interface{}) error { s.called("Event"); return s.err }

func (s *vcClient) PublishDiagnostics(ctx context.Context, p *PublishDiagnosticsParams) error {
	s.called("PublishDiagnostics")
	return s.err
}

func (s *vcClient) WorkspaceFolders(ctx context.Context) ([]WorkspaceFolder, error) {
	s.called("WorkspaceFolders")
	var r []WorkspaceFolder
	return r, s.err
}

func (s *vcClient) Configuration(ctx context.Context, p *ParamConfig) ([]interface{}, error) {
	s.called("Configuration")
	var r []interface{}
	return r, s.err
}

func (s *vcClient) RegisterCapability(ctx context.Context, p *RegistrationParams) error {
	s.called("RegisterCapability")
	return s.err
}

func (s *vcClient) UnregisterCapability(ctx context.Context, p *UnregistrationParams) error {
	s.called("UnregisterCapability")
	return s.err
}

func (s *vcClient) ShowMessageRequest(ctx context.Context, p *ShowMessageRequestParams) (*MessageActionItem, error) {
	s.called("ShowMessageRequest")
	var r *MessageActionItem
	return r, s.err
}

func (s *vcClient) ApplyEdit(ctx context.Context, p *ApplyWorkspaceEditParams) (*ApplyWorkspaceEditResponse, error) {
	s.called("ApplyEdit")
	var r *ApplyWorkspaceEditResponse
	return r, s.err
}

type vcPipe7 struct {
	in      chan string
	mu      sync.Mutex
	written []string
}

func (p *vcPipe7) Read(ctx context.Context) ([]byte, int64, error) {
	m, ok := <-p.in
	if !ok {
		return nil, 0, io.EOF
	}
	return []byte(m), int64(len(m)), nil
}

func (p *vcPipe7) Write(ctx context.Context, b []byte) (int64, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.written = append(p.written, string(b))
	return int64(len(b)), nil
}

type vcParams7 struct {
	text  string
	valid bool
}

var vcAllParams = []vcParams7{{"", false}, {`,"params":null`, false}, {`,"params":{}`, true}, {`,"params":7`, false}, {`,"params":"x"`, false}, {`,"params":[]`, false}, {`,"params":{"textDocument":{"uri":"file:///a"},"position":{"line":1,"character":2}}`, true}}

func vc_dispatch(client bool, m vcMethod7, params vcParams7, id string, fails int, cancelled bool) {
	o := &vcOutcome{}
	switch fails {
	case 1:
		o.err = errors.New("failed")
	case 2:
		o.err = jsonrpc2.NewErrorf(jsonrpc2.CodeInvalidRequest, "failed")
	}
	p := &vcPipe7{in: make(chan string, 4)}
	var conn *jsonrpc2.Conn
	if client {
		c := &vcClient{}
		c.err = o.err
		conn = jsonrpc2.NewConn(p)
		conn.AddHandler(&clientHandler{client: c})
	} else {
		s := &vcServer{}
		s.err = o.err
		_, conn, _ = NewServer(context.Background(), p, s)
	}
	idText := ""
	if id != "" {
		idText = `,"id":` + id
	}
	p.in <- fmt.Sprintf(`{"jsonrpc":"2.0"%s,"method":%q%s}`, idText, m.name, params.text)
	p.in <- `{"jsonrpc":"2.0","id":"after","method":"no such method"}`
	close(p.in)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if cancelled {
		cancel()
	}
	done := make(chan struct{})
	go func() { conn.Run(ctx); close(done) }()
	<-done
	want := 1
	if id != "" {
		want = 2
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Microsecond) {
		p.mu.Lock()
		n := len(p.written)
		p.mu.Unlock()
		if n >= want {
			break
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	vcEnsures("as many answers as calls", len(p.written) == want)
	ids := map[string]int{}
	for _, w := range p.written {
		var a struct {
			ID    *json.RawMessage
			Error *struct {
				Code    int64
				Message string
			}
		}
		vcEnsures("a message", json.Unmarshal([]byte(w), &a) == nil && a.ID != nil)
		ids[string(*a.ID)]++
		if string(*a.ID) == `"after"` {
			vcEnsures("the call after it is answered", a.Error != nil)
			continue
		}
		vcEnsures("its own id", string(*a.ID) == id)
		if m.notif || cancelled {
			continue
		}
		noParams := m.name == "shutdown" || m.name == "workspace/workspaceFolders"
		switch {
		case noParams && params.text != "" && params.text != `,"params":null`:
			vcEnsures("unexpected parameters", a.Error != nil)
		case !noParams && (params.text == "" || params.text == `,"params":null`):
			vcEnsures("missing parameters", a.Error != nil)
		case !noParams && !params.valid:
			// what is malformed depends on the method
			vcEnsures("the handler's error", a.Error != nil || o.err == nil)
		case o.err != nil && (noParams || params.text == `,"params":{}`):
			vcEnsures("the handler's error", a.Error != nil && strings.Contains(a.Error.Message, "failed"))
		case noParams || params.text == `,"params":{}`:
			vcEnsures("the handler's result", a.Error == nil)
		}
	}
	vcEnsures("one answer to each", ids[`"after"`] == 1)
}

func TestVC_C07(t *testing.T) {
	h := vcNew(t, "C07", "dispatch")
	type dispatch struct {
		client bool
		m      vcMethod7
		params vcParams7
		fails  int
	}
	var all []dispatch
	for _, p := range vcAllParams {
		for fails := 0; fails < 3; fails++ {
			for _, m := range append([]vcMethod7{{"unknown", false}}, vcServerMethods...) {
				if m.name != "unknown" {
					all = append(all, dispatch{false, m, p, fails})
				}
			}
			for _, m := range vcClientMethods {
				all = append(all, dispatch{true, m, p, fails})
			}
		}
	}
	for i := 0; h.more(len(all) * 4); i++ {
		d := all[i%len(all)]
		id := []string{"5", "", `"x"`, `""`, "0"}[h.r.Intn(5)]
		if i < 2*len(all) {
			id = []string{"5", ""}[i/len(all)]
		}
		cancelled := h.r.Intn(8) == 0
		h.check(fmt.Sprintf("client %v, %q, params %q, id %q, outcome %d, cancelled %v", d.client, d.m.name, d.params.text, id, d.fails, cancelled), func() {
			vc_dispatch(d.client, d.m, d.params, id, d.fails, cancelled)
		})
	}
}
