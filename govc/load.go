package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ContractFn is a contract / lemma / loop spec function from the overlay.
type ContractFn struct {
	Kind   string // contract, verify, lemma, loop, rec, pure
	Target string // function name as in the directive
	Loop   int
	Props  []string
	Opts   map[string]string
	Fn     *ssa.Function
	Decl   *ast.FuncDecl
	Pkg    string
	Name   string
	Pos    string
}

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	byName    map[string]*ssa.Function // "pkgname.Func", "(*pkgname.T).M"
	contracts []*ContractFn
	byTarget  map[*ssa.Function]*ContractFn
	foreign   map[*ssa.Package]map[*ssa.Function]*ContractFn
	ifaceCon  map[string]*ContractFn // iface method full name -> contract
	loops     map[string]map[int]*ContractFn
	rec       map[*ssa.Function]bool
	initVals  map[*ssa.Global]ssa.Value
	initDone  map[*ssa.Package]bool
	typeIDs   map[string]int64
	typeOfID  map[int64]types.Type
	pureIface map[string]bool
	lemmaOf   map[*ssa.Function]*ContractFn
	overlay   map[string]string // repo path -> verif path
}

var repo = envOr("VC_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const modPath = "github.com/john-nguyen09/phpintel"

//go:embed rt/vc_rt.go.tmpl
var rtTemplate string

//go:embed rt/vc_rt_test.go.tmpl
var rtTestTemplate string

var rtDir = os.TempDir()

func pkgName(dir string) (string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.PackageClauseOnly)
			if err == nil {
				return f.Name.Name, nil
			}
		}
	}
	return "", fmt.Errorf("no Go files in %s", dir)
}

// writeIfChanged replaces a file in one step, so that a check running beside this one
// never reads half of it.
func writeIfChanged(f string, b []byte) error {
	if old, err := os.ReadFile(f); err == nil && string(old) == string(b) {
		return nil
	}
	t, err := os.CreateTemp(filepath.Dir(f), ".rt")
	if err != nil {
		return err
	}
	if _, err := t.Write(b); err != nil {
		t.Close()
		return err
	}
	if err := t.Close(); err != nil {
		return err
	}
	if err := os.Chmod(t.Name(), 0o644); err != nil {
		return err
	}
	return os.Rename(t.Name(), f)
}

// buildOverlay maps every file of /verif/contracts/<dir>/ into /repo/<dir>/.
func buildOverlay(root string, forTest bool, prefixes []string) (map[string]string, map[string]bool, error) {
	ov := map[string]string{}
	dirs := map[string]bool{}
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		d := filepath.Dir(rel)
		base := filepath.Base(rel)
		isTest := strings.HasSuffix(base, "_test.go")
		if isTest && !forTest {
			return nil
		}
		if len(prefixes) > 0 {
			ok := false
			for _, pf := range prefixes {
				if strings.HasPrefix(base, pf+"_") {
					ok = true
				}
			}
			if !ok {
				return nil
			}
		}
		dirs[d] = true
		ov[filepath.Join(repo, d, base)] = p
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	for d := range dirs {
		name, err := pkgName(filepath.Join(repo, d))
		if err != nil {
			return nil, nil, err
		}
		f := filepath.Join(rtDir, strings.ReplaceAll(d, "/", "_")+"_vc_rt.go")
		if err := writeIfChanged(f, []byte(strings.Replace(rtTemplate, "PKGNAME", name, 1))); err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(repo, d, "vc_rt.go")] = f
	}
	return ov, dirs, nil
}

func shortPkg(path string) string {
	return path[strings.LastIndex(path, "/")+1:]
}

// fnKey names a function the way contracts do: F, (*T).M or (T).M, prefixed by package dir.
func fnKey(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type()
		ptr := ""
		if p, ok := rt.(*types.Pointer); ok {
			ptr = "*"
			rt = p.Elem()
		}
		if n, ok := rt.(*types.Named); ok {
			return fmt.Sprintf("(%s%s).%s", ptr, n.Obj().Name(), fn.Name())
		}
	}
	return fn.Name()
}

func loadProgram(pkgDirs []string, contractRoot string, prefixes []string) (*Program, error) {
	ov, _, err := buildOverlay(contractRoot, false, prefixes)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	want := map[string]bool{}
	for _, d := range pkgDirs {
		want[d] = true
	}
	for dst, src := range ov {
		rel, _ := filepath.Rel(repo, filepath.Dir(dst))
		if !want[rel] {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Overlay:    overlay,
		BuildFlags: []string{"-tags=verif"},
		Env:        os.Environ(),
	}
	if os.Getenv("GOVC_LIGHT") == "1" {
		cfg.Mode &^= packages.NeedDeps
	}
	var pats []string
	for _, d := range pkgDirs {
		pats = append(pats, "./"+d)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	mode := ssa.InstantiateGenerics | ssa.GlobalDebug
	prog, _ := ssautil.AllPackages(initial, mode)
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, byName: map[string]*ssa.Function{},
		byTarget: map[*ssa.Function]*ContractFn{}, foreign: map[*ssa.Package]map[*ssa.Function]*ContractFn{}, loops: map[string]map[int]*ContractFn{}, rec: map[*ssa.Function]bool{},
		initVals: map[*ssa.Global]ssa.Value{}, initDone: map[*ssa.Package]bool{}, typeIDs: map[string]int64{}, typeOfID: map[int64]types.Type{},
		ifaceCon: map[string]*ContractFn{}, pureIface: map[string]bool{}, lemmaOf: map[*ssa.Function]*ContractFn{}, overlay: ov}
	// build module packages' SSA (and leave the rest as declarations unless needed)
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
			pr.pkgs[p.Pkg.Path()] = p
		}
	}
	// collect contracts
	for _, p := range initial {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			fname := p.Fset.Position(f.Pos()).Filename
			if _, ok := ov[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var c *ContractFn
				opts := map[string]string{}
				for _, l := range fd.Doc.List {
					t := l.Text
					if !strings.HasPrefix(t, "//vc:") {
						continue
					}
					fs := strings.Fields(t[5:])
					switch fs[0] {
					case "contract", "verify", "lemma", "loop", "rec", "trusted", "pure":
						c = &ContractFn{Kind: fs[0], Opts: opts, Decl: fd, Pkg: p.PkgPath, Name: fd.Name.Name}
						rest := fs[1:]
						if fs[0] == "loop" && len(rest) > 1 {
							fmt.Sscanf(rest[1], "%d", &c.Loop)
						}
						if len(rest) > 0 && !strings.HasPrefix(rest[0], "props=") {
							c.Target = rest[0]
						}
						for _, r := range rest {
							if strings.HasPrefix(r, "props=") {
								c.Props = strings.Split(r[6:], ",")
							}
						}
					case "hide":
						// hide GOAL = A, B: prove the clause GOAL without the clauses A and B
						k, v, _ := strings.Cut(strings.TrimSpace(t[len("//vc:hide"):]), "=")
						for _, h := range strings.Split(v, ",") {
							hides[strings.TrimSpace(k)+"\x00"+strings.TrimSpace(h)] = true
						}
					case "opt":
						for _, r := range fs[1:] {
							k, v, _ := strings.Cut(r, "=")
							opts[k] = v
						}
					}
				}
				if c == nil {
					continue
				}
				c.Pos = fmt.Sprintf("%s:%d", filepath.Base(fname), p.Fset.Position(fd.Pos()).Line)
				obj := p.TypesInfo.Defs[fd.Name]
				fn := prog.FuncValue(obj.(*types.Func))
				if fn == nil {
					return nil, fmt.Errorf("no ssa for %s", fd.Name.Name)
				}
				c.Fn = fn
				switch c.Kind {
				case "loop":
					key := p.PkgPath + "." + c.Target
					if pr.loops[key] == nil {
						pr.loops[key] = map[int]*ContractFn{}
					}
					pr.loops[key][c.Loop] = c
				case "lemma":
					pr.lemmaOf[fn] = c
				case "rec":
					pr.rec[fn] = true
				}
				pr.contracts = append(pr.contracts, c)
			}
		}
		_ = sp
	}
	sort.SliceStable(pr.contracts, func(i, j int) bool { return pr.contracts[i].Name < pr.contracts[j].Name })
	return pr, nil
}

// initVal returns the value a package-level variable is initialised with if it is
// never assigned elsewhere in its package.
func (pr *Program) initVal(g *ssa.Global) ssa.Value {
	pkg := g.Pkg
	if pkg == nil {
		return nil
	}
	if !pr.initDone[pkg] {
		pr.initDone[pkg] = true
		if len(pkg.Members) > 0 && pkg.Func("init") != nil && pkg.Func("init").Blocks == nil {
			pkg.Build()
		}
		count := map[*ssa.Global]int{}
		vals := map[*ssa.Global]ssa.Value{}
		var visit func(fn *ssa.Function)
		seen := map[*ssa.Function]bool{}
		visit = func(fn *ssa.Function) {
			if fn == nil || seen[fn] {
				return
			}
			seen[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							count[g]++
							if fn.Name() == "init" && fn.Synthetic != "" {
								vals[g] = st.Val
							} else {
								count[g]++
							}
							continue
						}
					}
					// address taken other than load/store: conservatively mutable
					var rands [16]*ssa.Value
					for _, op := range in.Operands(rands[:0]) {
						if g, ok := (*op).(*ssa.Global); ok {
							switch x := in.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
								_ = x
							case *ssa.Store:
								if x.Addr != g {
									count[g] += 2
								}
							case *ssa.FieldAddr, *ssa.IndexAddr:
							default:
								count[g] += 2
							}
						}
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				visit(a)
			}
		}
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := pr.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(pr.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
		for g, v := range vals {
			if count[g] == 1 {
				pr.initVals[g] = v
			}
		}
	}
	return pr.initVals[g]
}

func (pr *Program) typeID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := pr.typeIDs[k]; ok {
		return id
	}
	id := int64(len(pr.typeIDs) + 1)
	pr.typeIDs[k] = id
	pr.typeOfID[id] = t
	return id
}

var typeKeys = map[types.Type]string{}
var reAlias = regexp.MustCompile(`\b(byte|rune|any)\b`)

func typeKey(t types.Type) string {
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(types.Unalias(t), func(p *types.Package) string { return shortPkg(p.Path()) })
	k = reAlias.ReplaceAllStringFunc(k, func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
	typeKeys[t] = k
	return k
}

// target resolves the function a contract's body calls that matches its target name.
func (pr *Program) findTargetCall(c *ContractFn) (*ssa.Call, *ssa.Function) {
	for _, b := range c.Fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if call.Call.IsInvoke() {
				if ifaceMethodKey(call.Call) == c.Target {
					return call, nil
				}
				continue
			}
			fn := call.Call.StaticCallee()
			if fn == nil {
				continue
			}
			if matchTarget(fn, c.Target) {
				return call, fn
			}
		}
	}
	return nil, nil
}

func matchTarget(fn *ssa.Function, target string) bool {
	if fnKey(fn) == target {
		return true
	}
	if fn.Pkg != nil && shortPkg(fn.Pkg.Pkg.Path())+"."+fnKey(fn) == target {
		return true
	}
	return false
}

func ifaceMethodKey(c ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() + "." + c.Method.Name()
	}
	return "?." + c.Method.Name()
}

// hides holds, for clause names "goal\x00hypothesis", the hypotheses a goal does without.
var hides = map[string]bool{}
