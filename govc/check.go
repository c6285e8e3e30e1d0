package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Config says what belongs to one property's check (/verif/checks/<P>.json).
type Config struct {
	Property string   `json:"property"`
	With     []string `json:"with"`  // further contract file prefixes to overlay
	Pkgs     []string `json:"pkgs"`  // package dirs loaded with syntax
	Tests    []string `json:"tests"` // package dirs with a bounded harness TestVC_<P>
	Bounded  []string `json:"bounded"`
	Assume   []string `json:"assumptions"`
	Secs     int      `json:"solver_secs"`
	TestSecs float64  `json:"test_secs"`
	Note     string   `json:"note"`
	NoProof  bool     `json:"no_proof"`
}

type finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // finding or fixed
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

type harnessViol struct{ name, clause, input string }

type harnessResult struct {
	viol     []harnessViol
	evals    int
	distinct int
	samples  []string
	runs     []string
	err      string
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
	return env
}

var reCount = regexp.MustCompile(`VC-COUNT (\S+) (.+) evals=(\d+) distinct=(\d+) sample=(.*)`)

func runHarness(cfg *Config, scratch string, secs float64) *harnessResult {
	hr := &harnessResult{}
	if len(cfg.Tests) == 0 {
		return hr
	}
	ov, dirs, err := buildOverlay(filepath.Join(verifDir(), "contracts"), true, prefixes(cfg))
	if err != nil {
		hr.err = err.Error()
		return hr
	}
	for d := range dirs {
		name, err := pkgName(filepath.Join(repo, d))
		if err != nil {
			continue
		}
		f := filepath.Join(scratch, strings.ReplaceAll(d, "/", "_")+"_vc_rt_test.go")
		os.WriteFile(f, []byte(strings.Replace(rtTestTemplate, "PKGNAME", name, 1)), 0o644)
		ov[filepath.Join(repo, d, "vc_rt_test.go")] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	for _, d := range cfg.Tests {
		args := []string{"test", "-tags=verif", "-vet=off", "-count=1", "-overlay", ovf, "-run", "^TestVC_" + cfg.Property + "(_|$)", "-v", "-timeout", "600s", "./" + d}
		ctx, cancel := context.WithTimeout(context.Background(), 660*time.Second)
		c := exec.CommandContext(ctx, "go", args...)
		c.Dir = repo
		c.Env = append(goEnv(), fmt.Sprintf("VC_SECS=%g", secs))
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		err := c.Run()
		cancel()
		n := 0
		for _, l := range strings.Split(out.String(), "\n") {
			if strings.HasPrefix(l, "VC-VIOLATION ") {
				fs := strings.SplitN(strings.TrimPrefix(l, "VC-VIOLATION "), "\t", 4)
				if len(fs) == 4 {
					in, e := strconv.Unquote(fs[3])
					if e != nil {
						in = fs[3]
					}
					hr.viol = append(hr.viol, harnessViol{fs[1], fs[2], in})
				}
			}
			if m := reCount.FindStringSubmatch(l); m != nil {
				ev, _ := strconv.Atoi(m[3])
				di, _ := strconv.Atoi(m[4])
				hr.evals += ev
				hr.distinct += di
				hr.runs = append(hr.runs, fmt.Sprintf("%s: %d evaluations, %d distinct", m[2], ev, di))
				if s, e := strconv.Unquote(m[5]); e == nil {
					hr.samples = append(hr.samples, m[2]+": "+s)
				}
				n++
			}
		}
		if err != nil && len(hr.viol) == 0 {
			o := out.String()
			if len(o) > 4000 {
				o = o[:2000] + "\n...\n" + o[len(o)-2000:]
			}
			// a panic outside the oracle or a hang of the code under test
			if strings.Contains(o, "panic: test timed out") {
				hr.viol = append(hr.viol, harnessViol{"harness", "does not finish", o})
			} else if strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") {
				hr.viol = append(hr.viol, harnessViol{"harness", "crash", o})
			} else {
				hr.err += "harness in " + d + ": " + err.Error() + "\n" + o
			}
		}
		if n == 0 && err == nil {
			hr.err += "harness in " + d + " ran no search\n"
		}
	}
	return hr
}

func prefixes(cfg *Config) []string {
	ps := []string{strings.ToLower(cfg.Property), "common"}
	for _, w := range cfg.With {
		ps = append(ps, strings.ToLower(w))
	}
	return ps
}

func cmdCheck(prop, tier string) int {
	t0 := time.Now()
	vd := verifDir()
	b, err := os.ReadFile(filepath.Join(vd, "checks", prop+".json"))
	if err != nil {
		fmt.Println("check:", err)
		return 2
	}
	cfg := &Config{}
	if err := json.Unmarshal(b, cfg); err != nil {
		fmt.Println("check:", err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "govc-"+prop+"-")
	if err != nil {
		fmt.Println("check:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	rtDir = scratch
	evd := filepath.Join(vd, "evidence")
	os.MkdirAll(filepath.Join(evd, "replay"), 0o755)
	secs := cfg.Secs
	if secs == 0 {
		secs = 20
	}
	hsecs := cfg.TestSecs
	if hsecs == 0 {
		hsecs = 5
	}
	if tier == "thorough" {
		secs *= 4
		hsecs *= 12
	}
	atomic.StoreInt64(&proofDeadline, t0.Add(480*time.Second).UnixNano())
	if tier == "thorough" {
		atomic.StoreInt64(&proofDeadline, t0.Add(700*time.Second).UnixNano())
	}
	// the bounded search runs beside the proof
	hch := make(chan *harnessResult, 1)
	known := loadFindings()
	matched := func(key string) *finding {
		for i := range known {
			k := &known[i]
			if k.Property == prop && k.Kind == "finding" && k.Match == key {
				return k
			}
		}
		return nil
	}
	go func() {
		hr := runHarness(cfg, scratch, hsecs)
		for _, v := range hr.viol {
			if matched(v.name+"/"+v.clause) == nil && tier != "thorough" {
				// the property is violated whatever the proof says: do not search long for it
				atomic.StoreInt64(&proofDeadline, time.Now().Add(20*time.Second).UnixNano())
			}
		}
		hch <- hr
	}()
	rep := &Report{Property: prop, Errors: map[string]string{}}
	dump := filepath.Join(evd, "replay", prop+"-queries")
	os.RemoveAll(dump)
	if !cfg.NoProof {
		runProof(rep, &runOpts{prop: prop, croot: filepath.Join(vd, "contracts"), pkgs: cfg.Pkgs, prefixes: prefixes(cfg), secs: secs, par: 8, dump: dump})
	}
	hr := <-hch
	if hr.err != "" {
		rep.Errors["harness"] = hr.err
	}
	hit := map[string]bool{}
	var failures []string
	var failOut []string
	for _, o := range rep.Obls {
		if o.Result == "valid" || o.Result == "reachable" {
			continue
		}
		key := o.Contract + "/" + o.Name
		if k := matched(key); k != nil {
			hit[k.Match] = true
			continue
		}
		failures = append(failures, key)
		failOut = append(failOut, fmt.Sprintf("obligation %s of %s at %s: %s (%s)", o.Name, o.Contract, o.Pos, o.Result, o.Solver))
	}
	for _, k := range sortedKeysS(rep.Errors) {
		failures = append(failures, "error:"+k)
		failOut = append(failOut, fmt.Sprintf("%s: %s", k, rep.Errors[k]))
	}
	var hv []harnessViol
	for _, v := range hr.viol {
		if k := matched(v.name + "/" + v.clause); k != nil {
			hit[k.Match] = true
			continue
		}
		hv = append(hv, v)
	}
	for _, k := range known {
		if k.Property == prop && k.Kind == "finding" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	nproof, nok := 0, 0
	backends := map[string]int{}
	for _, o := range rep.Obls {
		if strings.HasPrefix(o.Name, "cover:") {
			continue
		}
		if matched(o.Contract+"/"+o.Name) != nil {
			continue
		}
		nproof++
		if o.Result == "valid" {
			nok++
			backends[o.Solver]++
		}
	}
	trusted := []string{"govc: SSA (x/tools/go/ssa) to SMT translation in /verif/govc", "z3 4.8.12 / z3 5.3.2 / cvc5 1.1.2", "int and int64 arithmetic treated as mathematical (no overflow)"}
	trusted = append(trusted, rep.Trusted...)
	viol := len(failures) + len(hv)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"obligations": nproof, "discharged": nok,
		"checker_cmd":              "cd /verif && bin/check " + prop + " " + tier,
		"trusted_base":             trusted,
		"functions_under_contract": rep.Functions,
		"contracts":                rep.Contracts,
		"lemmas":                   rep.Lemmas,
		"inlined_functions":        rep.Inlined,
		"loops":                    rep.Loops,
		"discharged_by_back_end":   backends,
		"solver_seconds":           rep.SolverSecs,
		"bounded_search": map[string]interface{}{"label": "bounded, not counted as proved", "runs": hr.runs, "covers": cfg.Bounded,
			"note": "contracts executed as oracles on the real code"},
		"known_findings_matched": sortedKeys(hit),
	}
	level := "proof"
	if cfg.NoProof || nproof == 0 {
		level = "other"
		cov["explanation"] = "bounded check only"
	}
	if hr.evals > 0 {
		cov["evaluations"] = hr.evals
		cov["distinct_nontrivial"] = hr.distinct
		cov["rule"] = "inputs that satisfy the contract's precondition, counted once per distinct printed input; " + cfg.Note
		cov["samples"] = hr.samples
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append(append([]string{}, cfg.Assume...), rep.Trusted...), "wall_s": time.Since(t0).Seconds(), "violations": viol}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evd, prop+".json"), eb, 0o644); err != nil {
		fmt.Println("check:", err)
		return 2
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged; bounded search %d evaluations; %.1fs\n", prop, len(rep.Contracts), nok, nproof, hr.evals, time.Since(t0).Seconds())
	if viol == 0 {
		return 0
	}
	sort.Strings(failOut)
	rf := filepath.Join(evd, "replay", prop+".txt")
	var rb strings.Builder
	fmt.Fprintf(&rb, "property %s is violated\n\n", prop)
	for _, v := range hv {
		fmt.Fprintf(&rb, "failing input found by executing contract %s on the real code\n clause: %s\n input: %s\n", v.name, v.clause, v.input)
		fmt.Fprintf(&rb, " replay: cd /verif && bin/check %s %s   (harness TestVC_%s, VERIF_SEED=%s)\n\n", prop, tier, prop, os.Getenv("VERIF_SEED"))
	}
	for _, f := range failOut {
		fmt.Fprintf(&rb, "failed: %s\n", f)
	}
	fmt.Fprintf(&rb, "\nqueries of the failed obligations: %s\n", dump)
	os.WriteFile(rf, []byte(rb.String()), 0o644)
	for _, v := range hv {
		fmt.Printf("failing input: %s / %s: %.300s\n", v.name, v.clause, v.input)
	}
	for _, f := range failOut {
		fmt.Printf("failed %.600s\n", f)
	}
	if len(hv) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rf)
	}
	return 1
}
