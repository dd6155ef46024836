package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

var debugPanic = os.Getenv("GOV_PANIC") != ""

var (
	repoDir = envOr("GOV_REPO", "/repo")
	rootDir = envOr("GOV_ROOT", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type snap struct {
	table  map[string]*Term
	nextID int
	varN   int
	objN   int
}

func newEngine() (*Engine, error) {
	e, err := loadEngine(repoDir + "/protocol")
	if err != nil {
		return nil, err
	}
	e.specs = &Specs{e: e, Contracts: map[string]*Contract{}, NoInline: map[string]bool{}}
	if err := e.runInit(); err != nil {
		return nil, err
	}
	for n := range e.notes {
		fmt.Fprintln(os.Stderr, "note:", n)
	}
	if _, err := loadSpecs(e, rootDir+"/specs"); err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Engine) snapshot() *snap {
	s := &snap{table: make(map[string]*Term, len(table)), nextID: nextID, objN: e.objN, varN: varN}
	for k, v := range table {
		s.table[k] = v
	}
	return s
}
func (e *Engine) restore(s *snap) {
	table = make(map[string]*Term, len(s.table))
	for k, v := range s.table {
		table[k] = v
	}
	nextID = s.nextID
	varN = s.varN
	e.objN = s.objN
	quickCache = map[string]bool{}
}

func (e *Engine) task(n string) FnResult {
	var rv []string
	var res FnResult
	if strings.HasPrefix(n, "lemma ") {
		ln := strings.TrimPrefix(n, "lemma ")
		for _, l := range e.specs.Lemmas {
			if l.Name == ln {
				rv = l.Reveal
			}
		}
		e.specs.withReveal(rv, func() { res = e.verifyLemma(ln) })
		return res
	}
	if c := e.specs.Contracts[n]; c != nil {
		rv = c.Reveal
	}
	e.specs.withReveal(rv, func() {
		saved := axioms
		defer func() { axioms = saved }()
		axioms = nil
		for _, a := range saved {
			if !a.Late {
				axioms = append(axioms, a)
			}
		}
		res = e.verifyFn(n, fnBudget)
	})
	return res
}

var fnBudget = 240 * time.Second

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov check PROPERTY TIER | fn NAME... | list | worker")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn", "all":
		e, err := newEngine()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		sn := e.snapshot()
		names := os.Args[2:]
		if os.Args[1] == "all" {
			for _, l := range e.specs.Lemmas {
				if !l.Axiom {
					names = append(names, "lemma "+l.Name)
				}
			}
			names = append(names, e.specs.Order...)
		}
		bad := 0
		for _, n := range names {
			if c := e.specs.Contracts[n]; c != nil && c.Trusted {
				continue
			}
			if e.funcs[n] == nil && os.Args[1] == "all" && !strings.HasPrefix(n, "lemma ") {
				continue
			}
			e.restore(sn)
			r := e.task(n)
			printRes(r, os.Getenv("GOV_V") != "")
			if r.Status != "ok" {
				bad++
			}
		}
		fmt.Printf("%d not ok\n", bad)
	case "worker":
		worker()
	case "list":
		e, err := newEngine()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, n := range sortedFns(e) {
			c := "-"
			if e.specs.Contracts[n] != nil {
				c = "contract"
			}
			fmt.Println(c, n)
		}
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "driver": // only the driver of a property
		d := runDriver(os.Args[2], os.Args[3], envOr("VERIF_SEED", "1"))
		if d.out != "" && (d.failed || !d.ran || envOr("GOV_V", "") != "") {
			fmt.Println(tail(d.out, 6000))
		}
		fmt.Println("driver", os.Args[2], "ran", d.ran, "failed", d.failed, d.fail, d.msg, "cases", d.cases, d.dist, "wall", d.wall)
		if d.failed || !d.ran {
			os.Exit(1)
		}
	}
}

func sortedFns(e *Engine) []string {
	m := map[string]bool{}
	for n := range e.funcs {
		if !strings.Contains(n, "generated/") {
			m[n] = true
		}
	}
	return keys(m)
}

func printRes(r FnResult, verbose bool) {
	np := 0
	cnt := 0
	for _, o := range r.Obls {
		cnt += o.Count
		if o.Status != "proved" {
			np++
		}
	}
	fmt.Printf("%-11s %-60s obls=%d(%d) bad=%d paths=%d %dms q=%d %s\n", r.Status, r.Fn, len(r.Obls), cnt, np, r.Paths, r.WallMS, r.Queries, r.Msg)
	for _, o := range r.Obls {
		if o.Status != "proved" || verbose {
			fmt.Printf("    %s %s [%s] %dms %s  %v\n", o.Status, o.Name, o.Solver, o.MS, o.Out, o.Lossy)
			if o.Status != "proved" {
				fmt.Printf("      goal: %s\n      path: %s\n", o.Goal, o.Path)
			}
		}
	}
	if verbose {
		fmt.Println("    calls", r.Calls, "\n    inlined", r.Inlined, "\n    assumed", r.Assumed, "\n    notes", r.Notes)
	}
}

func worker() {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	e, err := newEngine()
	if err != nil {
		_ = enc.Encode(map[string]string{"error": err.Error()})
		out.Flush()
		os.Exit(0)
	}
	sn := e.snapshot()
	_ = enc.Encode(map[string]string{"ready": "1"})
	out.Flush()
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		e.restore(sn)
		r := e.task(sc.Text())
		_ = enc.Encode(r)
		out.Flush()
	}
}
