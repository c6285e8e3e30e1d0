package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverCfg struct {
	name string
	abs  bool
	cmd  []string
}

func z3cmd(bin string, secs int) []string {
	return []string{bin, "-in", fmt.Sprintf("-T:%d", secs)}
}
func cvcCmd(secs int) []string {
	return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--strings-exp", "-"}
}

func runSolver(ctx context.Context, cmd []string, query string, secs int) string {
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	c := exec.CommandContext(c2, cmd[0], cmd[1:]...)
	c.Stdin = strings.NewReader(query)
	out, _ := c.Output()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// relevant keeps assumptions connected to the goal through shared symbols.
func hasStr(ts []*Term) bool {
	ord, _ := collect(ts)
	for _, t := range ord {
		if strings.Contains(t.Sort, "String") {
			return true
		}
	}
	return false
}

type job struct {
	o         *Obl
	queries   map[bool]string // abs -> text
	qf        string          // without quantified assumptions ("" if there are none)
	str       bool
	as        []*Term
	shiftMemo map[*Term]*Term
	sh        string // queries[true] with re-indexed quantifiers ("" if the same)
}

// hasQuant tells whether a quantifier occurs in t.
func hasQuant(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQuant(a, memo)
	}
	memo[t] = r
	return r
}

func mkJob(x *Exec, o *Obl) *job {
	j := &job{o: o, queries: map[bool]string{}}
	as := x.assume[:o.N]
	if len(hides) > 0 && !o.Cover {
		var vis []*Term
		for _, a := range as {
			if !x.hidden(a, o.Name) {
				vis = append(vis, a)
			}
		}
		as = vis
	}
	j.as, j.shiftMemo = as, x.shiftMemo
	j.str = hasStr(append(append([]*Term{}, as...), o.Goal))
	j.queries[true] = buildQuery(as, o.Goal, "(set-logic ALL)\n", &Defs{}, true, false)
	memo := map[*Term]bool{}
	var qf []*Term
	for _, a := range as {
		if !hasQuant(a, memo) {
			qf = append(qf, a)
		}
	}
	if len(qf) < len(as) && !o.Cover {
		j.qf = buildQuery(qf, o.Goal, "(set-logic ALL)\n", &Defs{}, true, false)
	}
	if !o.Cover {
		var sh []*Term
		ch := false
		for _, a := range as {
			b := a
			if hasQuant(a, memo) {
				b = shiftQuants(a, x.shiftMemo)
			}
			ch = ch || b != a
			sh = append(sh, b)
		}
		if ch {
			j.sh = buildQuery(sh, o.Goal, "(set-logic ALL)\n", &Defs{}, true, false)
		}
	}
	if j.str {
		j.queries[false] = buildQuery(as, o.Goal, "(set-logic ALL)\n", &Defs{}, false, false)
	}
	return j
}

// unprovedCount limits the time spent once a proof has failed anyway; proofDeadline
// bounds the whole run so that it always gives an answer.
var unprovedCount int32
var proofDeadline int64 // Unix nanoseconds, 0: none

func pastDeadline() bool {
	d := atomic.LoadInt64(&proofDeadline)
	return d != 0 && time.Now().UnixNano() > d
}

func (j *job) solve(secs int, sem chan struct{}) {
	defer func() {
		if j.o.Result == "unproved" {
			atomic.AddInt32(&unprovedCount, 1)
		}
	}()
	if atomic.LoadInt32(&unprovedCount) >= 4 && secs > 8 {
		secs = 8
	}
	if pastDeadline() {
		secs = 1
	}
	o := j.o
	if o.Goal == True && !o.Cover {
		o.Result, o.Solver = "valid", "simplifier"
		return
	}
	start := time.Now()
	defer func() { o.Secs = time.Since(start).Seconds() }()
	acq := func() { sem <- struct{}{} }
	rel := func() { <-sem }
	if o.Cover {
		acq()
		defer rel()
		if o.Goal == True {
			o.Result = "vacuous"
			return
		}
		r := runSolver(context.Background(), z3cmd("z3-new", 2), j.queries[true], 2)
		if r == "unsat" {
			o.Result, o.Solver = "vacuous", "z3-new"
		} else {
			o.Result, o.Solver = "reachable", "z3-new:"+r
		}
		return
	}
	// quick stage
	acq()
	q := 4
	if q > secs {
		q = secs
	}
	r := runSolver(context.Background(), z3cmd("z3-new", q), j.queries[true], q)
	rel()
	if r == "unsat" {
		o.Result, o.Solver = "valid", "z3-new"
		return
	}
	if j.sh != "" && r != "sat" {
		acq()
		r2 := runSolver(context.Background(), z3cmd("z3-new", q), j.sh, q)
		rel()
		if r2 == "unsat" {
			o.Result, o.Solver = "valid", "z3-new"
			return
		}
	}
	if j.qf != "" && r != "sat" {
		acq()
		r2 := runSolver(context.Background(), z3cmd("z3-new", 2), j.qf, 2)
		rel()
		if r2 == "unsat" {
			o.Result, o.Solver = "valid", "z3-new"
			return
		}
	}
	if j.str && r != "sat" {
		acq()
		r2 := runSolver(context.Background(), z3cmd("z3-new", 3), j.queries[false], 3)
		rel()
		if r2 == "unsat" {
			o.Result, o.Solver = "valid", "z3-new-str"
			return
		}
	}
	if r != "sat" {
		for _, query := range []string{j.sh, j.queries[true]} {
			if query == "" {
				continue
			}
			acq()
			r2 := runSolver(context.Background(), z3cmd("z3", q), query, q)
			rel()
			if r2 == "unsat" {
				o.Result, o.Solver = "valid", "z3"
				return
			}
		}
	}
	if strings.HasPrefix(r, "(error") {
		o.Result = "error: " + r
		return
	}
	if atomic.LoadInt32(&unprovedCount) < 4 && !pastDeadline() {
		if ok, n := j.split(q, sem); ok {
			o.Result, o.Solver = "valid", fmt.Sprintf("z3-new in %d cases", n)
			return
		}
	}
	type cf struct {
		n   string
		cmd []string
		q   string
	}
	T, F := j.queries[true], j.queries[false]
	cfs := []cf{{"cvc5", cvcCmd(secs), T}, {"z3-new", z3cmd("z3-new", secs), T}, {"z3", z3cmd("z3", secs), T}}
	if j.str {
		cfs = []cf{{"cvc5", cvcCmd(secs), T}, {"cvc5-str", cvcCmd(secs), F}, {"z3-new-str", z3cmd("z3-new", secs), F}, {"z3", z3cmd("z3", secs), T}, {"z3-new", z3cmd("z3-new", secs), T}}
	}
	if j.sh != "" {
		cfs = append([]cf{{"z3-sh", z3cmd("z3", secs), j.sh}, {"z3-new-sh", z3cmd("z3-new", secs), j.sh}}, cfs...)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	var mu sync.Mutex
	results := []string{"z3-new:" + r}
	for _, c := range cfs {
		wg.Add(1)
		go func(c cf) {
			defer wg.Done()
			select {
			case sem <- struct{}{}:
			case <-ctx.Done():
				return
			}
			defer rel()
			if ctx.Err() != nil {
				return
			}
			if pastDeadline() || atomic.LoadInt32(&unprovedCount) >= 12 {
				mu.Lock()
				results = append(results, c.n+":not run")
				mu.Unlock()
				return
			}
			r := runSolver(ctx, c.cmd, c.q, secs)
			mu.Lock()
			defer mu.Unlock()
			if r == "unsat" && o.Result == "" {
				o.Result, o.Solver = "valid", c.n
				cancel()
			}
			results = append(results, c.n+":"+r)
		}(c)
	}
	wg.Wait()
	if o.Result == "" {
		o.Result = "unproved"
		o.Solver = strings.Join(results, " ")
	}
}

func solveAll(jobs []*job, secs, par int) {
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			j.solve(secs, sem)
		}(j)
	}
	wg.Wait()
}

func dumpQuery(dir string, n string, j *job) string {
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, sanitize(n)+".smt2")
	os.WriteFile(f, []byte(j.queries[true]), 0o644)
	if j.str {
		os.WriteFile(filepath.Join(dir, sanitize(n)+".str.smt2"), []byte(j.queries[false]), 0o644)
	}
	return f
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}
