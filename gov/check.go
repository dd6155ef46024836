package main

// The check of one property: every contract the property rests on is verified again from the
// current source; what fails is reported, with a failing input where the driver finds one.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type known struct {
	prop, obl, text string
}

func loadKnown() []known {
	b, err := os.ReadFile(rootDir + "/known_findings.txt")
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) obligation=\{(.*?)\} (.*)$`)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

// runTasks verifies the given tasks and, transitively, the contracts they call.
func runTasks(e *Engine, start []string, deadline time.Time, nw int) (map[string]FnResult, string) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	res := map[string]FnResult{}
	seen := map[string]bool{}
	var queue []string
	active := 0
	loadErr := ""
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			queue = append(queue, n)
		}
	}
	for _, n := range start {
		add(n)
	}
	var wg sync.WaitGroup
	alive := nw
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { mu.Lock(); alive--; cond.Broadcast(); mu.Unlock() }()
			restarts := 0
		restart:
			cmd := exec.Command(os.Args[0], "worker")
			cmd.Env = append(os.Environ(), "GOGC=200", "GOMEMLIMIT=3500MiB")
			in, _ := cmd.StdinPipe()
			outp, _ := cmd.StdoutPipe()
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
			if err := cmd.Start(); err != nil {
				mu.Lock()
				loadErr = err.Error()
				mu.Unlock()
				return
			}
			kill := func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL); _ = cmd.Wait() }
			rd := bufio.NewReaderSize(outp, 1<<20)
			line, err := rd.ReadBytes('\n')
			var hello map[string]string
			_ = json.Unmarshal(line, &hello)
			if err != nil || hello["error"] != "" {
				mu.Lock()
				loadErr = hello["error"]
				if loadErr == "" {
					loadErr = "the verifier did not start"
				}
				mu.Unlock()
				kill()
				return
			}
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					_ = in.Close()
					kill()
					return
				}
				n := queue[0]
				queue = queue[1:]
				active++
				mu.Unlock()
				var r FnResult
				ok := false
				if time.Now().After(deadline) {
					r = FnResult{Fn: n, Status: "unsupported", Msg: "out of time"}
					ok = true
				} else {
					fmt.Fprintln(in, n)
					ch := make(chan []byte, 1)
					go func() {
						l, err := rd.ReadBytes('\n')
						if err != nil {
							l = nil
						}
						ch <- l
					}()
					select {
					case l := <-ch:
						if l != nil && json.Unmarshal(l, &r) == nil && r.Fn != "" {
							ok = true
						}
					case <-time.After(time.Until(deadline) + 5*time.Second):
					}
				}
				if !ok {
					r = FnResult{Fn: n, Status: "unsupported", Msg: "the verifier stopped or ran out of time"}
				}
				mu.Lock()
				res[n] = r
				active--
				for _, c := range r.Calls {
					if con := e.specs.Contracts[c]; con != nil && !con.Trusted && e.funcs[c] != nil {
						add(c)
					}
				}
				cond.Broadcast()
				mu.Unlock()
				if !ok {
					kill()
					restarts++
					if restarts > 3 {
						return
					}
					goto restart
				}
			}
		}()
	}
	wg.Wait()
	for _, n := range queue {
		res[n] = FnResult{Fn: n, Status: "unsupported", Msg: "not reached"}
	}
	return res, loadErr
}

type driverRes struct {
	ran    bool
	failed bool
	hung   bool
	msg    string // why it could not run
	fail   string
	out    string
	cases  int
	dist   int
	sample []string
	wall   float64
}

// runDriver runs the property's driver against the real code.
func runDriver(prop, tier, seed string) (d driverRes) {
	t0 := time.Now()
	defer func() { d.wall = time.Since(t0).Seconds() }()
	over := map[string]string{}
	have := false
	for _, sub := range []string{"common", prop} {
		base := filepath.Join(rootDir, "drivers", sub)
		_ = filepath.WalkDir(base, func(p string, de fs.DirEntry, err error) error {
			if err != nil || de.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(base, p)
			over[filepath.Join(repoDir, rel)] = p
			if sub == prop {
				have = true
			}
			return nil
		})
	}
	if !have {
		d.msg = "no driver"
		return
	}
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		d.msg = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": over})
	_ = os.WriteFile(tmp+"/overlay.json", ov, 0o644)
	limit := 150 * time.Second
	if tier == "thorough" {
		limit = 600 * time.Second
	}
	_ = os.Mkdir(tmp+"/t", 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), limit+120*time.Second)
	defer cancel()
	var buf bytes.Buffer
	run := func(dir string, a ...string) error {
		cmd := exec.CommandContext(ctx, a[0], a[1:]...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp+"/t", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_SEED="+seed, "VERIF_TIER="+tier)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.Stdout, cmd.Stderr = &buf, &buf
		return cmd.Run()
	}
	if err = run(repoDir+"/protocol", "go", "test", "-c", "-vet=off", "-overlay", tmp+"/overlay.json", "-o", tmp+"/drv", "./verifdrv"); err != nil {
		d.out = buf.String()
		d.msg = "the driver does not compile against this source"
		return
	}
	buf.Reset()
	err = run(tmp+"/t", tmp+"/drv", "-test.v", "-test.timeout", fmt.Sprint(limit), "-test.run", "^TestVerif"+prop+"$")
	d.out = buf.String()
	for _, l := range strings.Split(d.out, "\n") {
		if i := strings.Index(l, "VERIF-FAIL "); i >= 0 {
			d.failed = true
			if d.fail == "" {
				d.fail = l[i+len("VERIF-FAIL "):]
			}
		}
		if i := strings.Index(l, "VERIF-SAMPLE "); i >= 0 && len(d.sample) < 5 {
			d.sample = append(d.sample, l[i+len("VERIF-SAMPLE "):])
		}
		if i := strings.Index(l, "VERIF-CASES "); i >= 0 {
			var a, b int
			fmt.Sscanf(l[i+len("VERIF-CASES "):], "%d %d", &a, &b)
			d.cases += a
			d.dist += b
		}
	}
	if err == nil {
		d.ran = true
		return
	}
	if d.failed {
		d.ran = true
		return
	}
	switch {
	case strings.Contains(d.out, "panic: test timed out"):
		d.ran, d.failed, d.hung = true, true, true
		d.fail = "a call into the library did not return"
	case strings.Contains(d.out, "panic:") || strings.Contains(d.out, "fatal error:"):
		d.ran, d.failed = true, true
		d.fail = "the library crashed"
	default:
		d.msg = "the driver did not run: " + err.Error()
	}
	return
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed := envOr("VERIF_SEED", "1")
	if t := os.Getenv("VERIF_TIER"); t != "" && tier == "" {
		tier = t
	}
	if tier == "" {
		tier = "quick"
	}
	deadline := t0.Add(540 * time.Second)
	nw := 8
	fmt.Printf("property %s, %s\n", prop, tier)
	e, err := newEngine()
	loadErr := ""
	results := map[string]FnResult{}
	var start []string
	if err != nil {
		loadErr = err.Error()
	} else {
		for _, l := range e.specs.needed(prop) {
			start = append(start, "lemma "+l.Name)
		}
		for _, n := range e.specs.Order {
			c := e.specs.Contracts[n]
			if c.Trusted || !(c.taggedFor(prop) || prop == "C09") {
				continue
			}
			if e.isIfaceContract(n) {
				continue
			}
			start = append(start, n)
		}
		// long ones first
		sort.SliceStable(start, func(i, j int) bool { return weight(e, start[i]) > weight(e, start[j]) })
		if len(start) < nw {
			nw = len(start)
			if nw < 4 {
				nw = 4
			}
		}
		var le string
		results, le = runTasks(e, start, deadline, nw)
		loadErr = le
	}
	tagged := map[string]bool{}
	for _, n := range start {
		tagged[n] = true
	}
	type bad struct {
		obl OblJ
		fn  string
		dep bool // an obligation of another property, in a function this one relies on
	}
	var total, proved, queries int
	var solverMS int64
	backends := map[string]int{}
	kinds := map[string]int{}
	var bads []bad
	var gaps []string
	fns := []map[string]interface{}{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := results[n]
		np, nt := 0, 0
		lossyAll := true
		for _, o := range r.Obls {
			rel := len(o.Tags) == 0 || hasTag(o.Tags, prop)
			cnt := o.Count
			if cnt == 0 {
				cnt = 1
			}
			nt += cnt
			solverMS += o.MS
			if rel {
				total += cnt
			}
			if o.Status == "proved" {
				np += cnt
				if rel {
					proved += cnt
					backends[o.Solver] += cnt
					kinds[o.Kind] += cnt
				}
				continue
			}
			if len(o.Lossy) > 0 {
				gaps = append(gaps, fmt.Sprintf("%s: %s (proof incomplete: %s)", n, o.Name, strings.Join(o.Lossy, "; ")))
				continue
			}
			lossyAll = false
			bads = append(bads, bad{o, n, !rel || !tagged[n] && r.Kind != "lemma" && !hasTag(o.Tags, prop)})
		}
		_ = lossyAll
		switch r.Status {
		case "unsupported", "misfit":
			gaps = append(gaps, n+": "+r.Status+" "+r.Msg)
		case "missing":
			gaps = append(gaps, n+": no such function in this source")
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
		queries += r.Queries
		fns = append(fns, map[string]interface{}{"function": n, "status": r.Status, "obligations": nt, "discharged": np, "wall_ms": r.WallMS, "role": map[bool]string{true: "states the property", false: "relied on"}[tagged[n]]})
	}
	if loadErr != "" {
		gaps = append(gaps, "the source or the contracts could not be loaded: "+loadErr)
	}
	// known findings
	var knownHit []known
	var open []bad
	for _, b := range bads {
		hit := false
		for _, k := range loadKnown() {
			if k.prop == prop && k.obl == b.obl.Name {
				hit = true
				knownHit = append(knownHit, k)
			}
		}
		if !hit {
			open = append(open, b)
		}
	}
	var drv driverRes
	needDriver := len(open) > 0 || len(gaps) > 0 || tier == "thorough" || envOr("GOV_DRIVER", "") != ""
	if needDriver {
		drv = runDriver(prop, tier, seed)
	}
	code := 0
	viol := 0
	for _, k := range dedupKnown(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	_ = os.MkdirAll(rootDir+"/evidence", 0o755)
	replay := filepath.Join(rootDir, "evidence", prop+".replay.txt")
	_ = os.Remove(replay)
	own := 0
	for _, b := range open {
		if !b.dep {
			own++
		}
	}
	if drv.failed || own > 0 {
		viol = own
		if viol == 0 {
			viol = 1
		}
		code = 1
		var w strings.Builder
		fmt.Fprintf(&w, "property %s is broken\n\n", prop)
		if drv.failed {
			fmt.Fprintf(&w, "failing input, run against the real code:\n  %s\n\nre-run it with:\n  cd %s && VERIF_SEED=%s VERIF_TIER=%s GOV_DRIVER=1 %s/bin/gov check %s %s\n\n", drv.fail, rootDir, seed, tier, rootDir, prop, tier)
		}
		for _, b := range open {
			fmt.Fprintf(&w, "failed obligation %s (%s) in %s\n  goal: %s\n  path: %s\n  verifier: %s %s\n", b.obl.Name, b.obl.Kind, b.fn, b.obl.Goal, b.obl.Path, b.obl.Solver, b.obl.Out)
			if b.obl.Script != "" {
				fmt.Fprintf(&w, "  query:\n%s\n", b.obl.Script)
			}
		}
		for _, g := range gaps {
			fmt.Fprintf(&w, "not decided by proof: %s\n", g)
		}
		if drv.out != "" {
			fmt.Fprintf(&w, "\ndriver output:\n%s\n", tail(drv.out, 20000))
		} else if needDriver {
			fmt.Fprintf(&w, "\ndriver: %s\n", drv.msg)
		}
		_ = os.WriteFile(replay, []byte(w.String()), 0o644)
		for _, b := range open {
			fmt.Printf("failed: %s in %s  path: %s\n", b.obl.Name, b.fn, b.obl.Path)
		}
		if drv.failed {
			fmt.Println("failing input:", drv.fail)
		}
		s := ""
		if !drv.failed {
			s = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, s)
	} else {
		for _, b := range open {
			fmt.Printf("note: obligation of another property fails: %s in %s\n", b.obl.Name, b.fn)
		}
		for _, g := range gaps {
			fmt.Println("bounded only:", g)
		}
	}
	// evidence
	cov := map[string]interface{}{
		"obligations":         total,
		"discharged":          proved,
		"checker_cmd":         "bin/gov check " + prop + " " + tier,
		"trusted_base":        trustedBase(),
		"functions":           fns,
		"back_ends":           backends,
		"kinds":               kinds,
		"solver_ms":           solverMS,
		"feasibility_queries": queries,
		"inlined":             keys(inlined),
		"workers":             nw,
	}
	if gaps != nil {
		cov["not_proved"] = gaps
	}
	if knownHit != nil {
		var ks []string
		for _, k := range dedupKnown(knownHit) {
			ks = append(ks, k.obl+": "+k.text)
		}
		cov["known_findings"] = ks
	}
	if needDriver {
		cov["bounded_driver"] = map[string]interface{}{"label": "bounded: never counted as proved", "ran": drv.ran, "note": drv.msg, "evaluations": drv.cases, "distinct_nontrivial": drv.dist, "samples": drv.sample, "wall_s": drv.wall}
	}
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	if e != nil && loadErr == "" {
		for _, l := range e.specs.Lemmas {
			if l.Axiom {
				as = append(as, "axiom "+l.Name)
			}
		}
		for _, n := range e.specs.Order {
			if e.specs.Contracts[n].Trusted {
				as = append(as, "assumed contract "+n)
			}
		}
	}
	sort.Strings(as)
	sd, _ := strconv.Atoi(seed)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": sd, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(rootDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%d functions and lemmas, %d of %d obligations discharged, solver %.1fs, wall %.1fs\n", len(results), proved, total, float64(solverMS)/1000, time.Since(t0).Seconds())
	return code
}

func dedupKnown(ks []known) []known {
	var o []known
	seen := map[string]bool{}
	for _, k := range ks {
		if !seen[k.text] {
			seen[k.text] = true
			o = append(o, k)
		}
	}
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func trustedBase() []string {
	return []string{
		"gov: the verification-condition generator in /verif/gov (symbolic execution of Go SSA, term simplifier, loop-invariant inference whose results are re-proved)",
		"golang.org/x/tools/go/ssa: translation of the Go source to SSA",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2: an 'unsat' answer is believed",
		"Go compiler and runtime; memory safety of the repository (no unsafe, no goroutines)",
		"partial correctness: termination is not proved, except where a loop is unrolled completely",
	}
}

func weight(e *Engine, n string) int {
	f := e.funcs[n]
	if f == nil {
		return 0
	}
	w := 0
	for _, b := range f.Blocks {
		w += len(b.Instrs)
	}
	return w
}

// isIfaceContract: the contract of an interface method, which its implementations are verified against.
func (e *Engine) isIfaceContract(n string) bool {
	k := strings.LastIndex(n, ".")
	if k < 0 || e.funcs[n] != nil {
		return false
	}
	t := e.typeByName(n[:k])
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
