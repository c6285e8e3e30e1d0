package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// OblOut is one obligation in the JSON report.
type OblOut struct {
	Contract string  `json:"contract"`
	Target   string  `json:"target"`
	Name     string  `json:"name"`
	Pos      string  `json:"pos"`
	Result   string  `json:"result"`
	Solver   string  `json:"solver"`
	Secs     float64 `json:"secs"`
	Query    string  `json:"query,omitempty"`
}

// Report is govc's output.
type Report struct {
	Property   string            `json:"property"`
	Contracts  []string          `json:"contracts"`
	Functions  []string          `json:"functions_under_contract"`
	Lemmas     []string          `json:"lemmas"`
	Inlined    []string          `json:"inlined"`
	Loops      []string          `json:"loops"`
	Trusted    []string          `json:"trusted"`
	Obls       []OblOut          `json:"obligations"`
	Errors     map[string]string `json:"errors"`
	Bad        bool              `json:"bad"`
	SolverSecs float64           `json:"solver_secs"`
	WallSecs   float64           `json:"wall_secs"`
}

func newExec(pr *Program, c *ContractFn, alt int) *Exec {
	x := &Exec{pr: pr, places: map[*Term]*Place{}, closures: map[*Term]*Closure{}, iters: map[*Term]*iterInfo{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, recMemo: map[*Term]int{}, recFns: map[string]*ssa.Function{}, tags: map[*Term]map[string]bool{}, recMax: 2,
		oblCount: map[string]int{}, root: c, keySorts: map[string]string{}, born: map[*Term]int64{}, assumeSet: map[*Term]bool{},
		opts: c.Opts, globalT: map[string]*ssa.Global{}, allocT: map[*Term]types.Type{}, hvBorn: map[*Term]int64{}, shiftMemo: map[*Term]*Term{}, bindAlt: alt}
	if v := c.Opts["unfold"]; v != "" {
		fmt.Sscanf(v, "%d", &x.recMax)
	}
	return x
}

func resetTables() {
	tt.m = map[string]*Term{}
	tt.ub = map[*Term]int64{}
	frameOf = map[*Term]*frameInfo{}
	True = mk("true", "", SBool, nil)
	False = mk("false", "", SBool, nil)
}

// verifyOne runs one contract symbolically.
func verifyOne(pr *Program, c *ContractFn, alt int) (x *Exec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("unsupported: %s", u.msg)
				if os.Getenv("GOVC_TRACE") != "" {
					panic(r)
				}
				return
			}
			if os.Getenv("GOVC_TRACE") != "" {
				panic(r)
			}
			if os.Getenv("VC_TRACE") != "" {
				debug.PrintStack()
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	x = newExec(pr, c, alt)
	st := &State{heap: map[string]*Term{}}
	var args []Val
	for _, p := range c.Fn.Params {
		v := Val{T: p.Type()}
		for _, l := range leaves(p.Type()) {
			t := Var("in."+p.Name()+l.Path, l.Sort)
			x.born[t] = 0
			v.L = append(v.L, t)
		}
		x.wellTyped(v)
		args = append(args, v)
	}
	ctx := &cctx{c: c, mode: "verify"}
	if c.Kind != "lemma" {
		ctx.call, ctx.target = pr.findTargetCall(c)
		if ctx.call == nil {
			return x, fmt.Errorf("contract %s: its body does not call %s", c.Name, c.Target)
		}
	} else {
		x.nopanic = true
		if c.Opts["panics"] == "allowed" {
			x.nopanic = false
		}
		ctx.done = true
	}
	x.cstack = []*cctx{ctx}
	x.spec = 1
	ctx.pre = st
	_, _, g := x.runFn(c.Fn, args, nil, st, G{}, ctx)
	if !ctx.done {
		return x, fmt.Errorf("contract %s: target call not reached", c.Name)
	}
	if c.Kind == "lemma" && c.Opts["covers"] != "off" {
		x.spec = 0
		x.cover("cover:end", g, c.Pos)
	}
	return x, nil
}

func (pr *Program) register() error {
	for _, c := range pr.contracts {
		switch c.Kind {
		case "contract", "trusted":
			call, fn := pr.findTargetCall(c)
			if call == nil {
				return fmt.Errorf("contract %s (%s): body does not call %s", c.Name, c.Pos, c.Target)
			}
			if fn == nil {
				pr.ifaceCon[c.Target] = c
			} else {
				if fn.Pkg != nil && c.Fn.Pkg != nil && fn.Pkg != c.Fn.Pkg {
					if pr.foreign[c.Fn.Pkg] == nil {
						pr.foreign[c.Fn.Pkg] = map[*ssa.Function]*ContractFn{}
					}
					pr.foreign[c.Fn.Pkg][fn] = c
					if pr.byTarget[fn] != nil {
						continue
					}
				}
				pr.byTarget[fn] = c
			}
		}
	}
	return nil
}

type runOpts struct {
	prop, only, croot string
	pkgs, prefixes    []string
	secs, par         int
	dump              string
	dumpAll, verbose  bool
}

func main() {
	if len(os.Args) > 3 && os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2], os.Args[3]))
	}
	o := &runOpts{}
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.only, "only", "", "only contracts whose name contains this")
	flag.StringVar(&o.croot, "contracts", verifDir()+"/contracts", "contract overlay root")
	pkgs := flag.String("pkgs", "", "package dirs")
	pfx := flag.String("with", "", "contract file prefixes")
	flag.IntVar(&o.secs, "t", 20, "solver seconds per obligation")
	flag.IntVar(&o.par, "j", 8, "parallel solvers")
	jsonOut := flag.String("json", "", "write report")
	flag.StringVar(&o.dump, "dump", "", "dump unproved queries to this dir")
	flag.BoolVar(&o.dumpAll, "dumpall", false, "dump all")
	flag.BoolVar(&o.verbose, "v", false, "verbose")
	flag.Parse()
	if *pkgs == "" && o.prop != "" {
		if b, err := os.ReadFile(filepath.Join(verifDir(), "checks", o.prop+".json")); err == nil {
			cfg := &Config{}
			if err := json.Unmarshal(b, cfg); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			o.pkgs, o.prefixes = cfg.Pkgs, prefixes(cfg)
		}
	} else {
		o.pkgs = strings.Split(*pkgs, ",")
		if *pfx != "" {
			o.prefixes = strings.Split(*pfx, ",")
		}
	}
	rep := &Report{Property: o.prop, Errors: map[string]string{}}
	runProof(rep, o)
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*jsonOut, b, 0o644)
	}
	nv := 0
	for _, o := range rep.Obls {
		if o.Result == "valid" {
			nv++
		}
	}
	for k, e := range rep.Errors {
		fmt.Printf("ERROR %s: %s\n", k, e)
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %.1fs\n", o.prop, len(rep.Contracts), nv, countProof(rep.Obls), rep.WallSecs)
	if rep.Bad || len(rep.Errors) > 0 {
		os.Exit(1)
	}
}

func runProof(rep *Report, opt *runOpts) {
	t0 := time.Now()
	defer func() { rep.WallSecs = time.Since(t0).Seconds() }()
	pr, err := loadProgram(opt.pkgs, opt.croot, opt.prefixes)
	if err != nil {
		rep.Errors["load"] = err.Error()
		return
	}
	if err := pr.register(); err != nil {
		rep.Errors["register"] = err.Error()
	}
	if opt.verbose {
		fmt.Printf("loaded in %.1fs, %d contracts\n", time.Since(t0).Seconds(), len(pr.contracts))
	}
	var work []*ContractFn
	queued := map[string]bool{}
	byName := map[string]*ContractFn{}
	for _, c := range pr.contracts {
		byName[c.Name] = c
		if c.Kind == "loop" || c.Kind == "rec" || c.Kind == "trusted" || c.Kind == "pure" {
			continue
		}
		ok := false
		for _, p := range c.Props {
			if p == opt.prop {
				ok = true
			}
		}
		if opt.only != "" {
			ok = false
			for _, o := range strings.Split(opt.only, ",") {
				if strings.Contains(c.Name, o) {
					ok = true
				}
			}
		}
		if ok {
			work = append(work, c)
			queued[c.Name] = true
		}
	}
	inl, tr, lp := map[string]bool{}, map[string]bool{}, map[string]bool{}
	fns := map[string]bool{}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		resetTables()
		alts := 1
		var x *Exec
		var jobs []*job
		good := false
		base := atomic.LoadInt32(&unprovedCount)
		for alt := 0; alt < alts; alt++ {
			if alt > 0 {
				atomic.StoreInt32(&unprovedCount, base)
			}
			var e error
			ts := time.Now()
			resetTables()
			gvar = 0
			x, e = verifyOne(pr, c, alt)
			if x != nil && x.maxAlt > alts {
				alts = x.maxAlt
			}
			if e != nil {
				rep.Errors[c.Name] = e.Error()
				continue
			}
			delete(rep.Errors, c.Name)
			jobs = nil
			for _, o := range x.obls {
				jobs = append(jobs, mkJob(x, o))
			}
			tg := time.Since(ts).Seconds()
			solveAll(jobs, opt.secs, opt.par)
			if opt.verbose {
				fmt.Printf("%s alt %d: gen %.1fs solve %.1fs, %d obligations\n", c.Name, alt, tg, time.Since(ts).Seconds()-tg, len(jobs))
			}
			good = true
			if alt+1 < alts && pastDeadline() {
				alts = alt + 1
			}
			for _, j := range jobs {
				if j.o.Result != "valid" && j.o.Result != "reachable" {
					good = false
				}
			}
			if good {
				break
			}
		}
		if e, bad := rep.Errors[c.Name]; bad {
			_ = e
			rep.Bad = true
		}
		if x != nil {
			for k := range x.inlined {
				inl[k] = true
			}
			for k := range x.trusted {
				tr[k] = true
			}
			for _, k := range x.loopsSeen {
				lp[k] = true
			}
			for k := range x.used {
				if u := byName[k]; u != nil {
					if u.Kind == "trusted" && u.Opts["scan"] != "" && !queued[k] {
						queued[k] = true
						_, fn := pr.findTargetCall(u)
						bad, n := pr.scanFields(fn, strings.Split(u.Opts["scan"], ","))
						o := OblOut{Contract: u.Name, Target: u.Target, Name: "frame-scan:" + u.Opts["scan"], Pos: u.Pos, Result: "valid", Solver: fmt.Sprintf("call-graph scan of %d functions", n)}
						if len(bad) > 0 {
							o.Result, o.Solver = "unproved", strings.Join(bad, "; ")
							rep.Bad = true
						}
						if opt.verbose || len(bad) > 0 {
							fmt.Printf("%-9s %s %s %s\n", o.Result, u.Name, o.Name, o.Solver)
						}
						rep.Obls = append(rep.Obls, o)
					}
					if u.Kind == "trusted" {
						tr["assumed contract "+u.Name+" on "+u.Target] = true
					} else if !queued[k] {
						queued[k] = true
						work = append(work, u)
					}
				}
			}
		}
		rep.Contracts = append(rep.Contracts, c.Name)
		if c.Kind == "lemma" {
			rep.Lemmas = append(rep.Lemmas, c.Name)
		} else {
			fns[shortPkg(c.Pkg)+"."+c.Target] = true
		}
		for _, j := range jobs {
			o := OblOut{Contract: c.Name, Target: c.Target, Name: j.o.Name, Pos: j.o.Pos, Result: j.o.Result, Solver: j.o.Solver, Secs: j.o.Secs}
			rep.SolverSecs += j.o.Secs
			ok := j.o.Result == "valid" || j.o.Result == "reachable"
			if !ok {
				rep.Bad = true
			}
			if opt.dump != "" && (!ok || opt.dumpAll) {
				o.Query = dumpQuery(opt.dump, c.Name+"."+j.o.Name, j)
			}
			if !ok || opt.verbose {
				fmt.Printf("%-9s %6.2fs %-10s %s %s [%s]\n", j.o.Result, j.o.Secs, j.o.Solver, c.Name, j.o.Name, j.o.Pos)
			}
			rep.Obls = append(rep.Obls, o)
		}
	}
	rep.Inlined, rep.Trusted, rep.Loops = sortedKeys(inl), sortedKeys(tr), sortedKeys(lp)
	rep.Functions = sortedKeys(fns)
	sort.Strings(rep.Contracts)
}

func countProof(os []OblOut) int {
	n := 0
	for _, o := range os {
		if !strings.HasPrefix(o.Name, "cover:") {
			n++
		}
	}
	return n
}
