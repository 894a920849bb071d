package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

var verifDir = "/verif"
var repoDir = "/repo"

type job struct {
	key  string
	mode Mode
}

func modesOf(c *Contract) []Mode {
	if v := c.Opts["modes"]; v != "" {
		var out []Mode
		for _, s := range strings.Split(v, "+") {
			if m, ok := modeOf(s); ok {
				out = append(out, m)
			}
		}
		return out
	}
	set := map[Mode]bool{IEEE: true}
	add := func(cs []*Clause) {
		for _, cl := range cs {
			for _, s := range cl.Modes {
				if m, ok := modeOf(s); ok {
					set[m] = true
				}
			}
		}
	}
	add(c.Ensures)
	add(c.Invs)
	add(c.Asserts)
	var out []Mode
	for _, m := range []Mode{IEEE, REAL, BITS} {
		if set[m] {
			out = append(out, m)
		}
	}
	return out
}

// verifyCone verifies the roots and, transitively, every function whose contract they rely on.
func verifyCone(p *Prog, roots []string, stop map[string]bool, so solveOpts) []*Run {
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[job]bool{}
	lem := map[string]bool{}
	var runs []*Run
	var start func(j job)
	var startLemma func(n string, m Mode)
	addLemmas := func(r *Run) {
		for n := range r.uses {
			startLemma(n, r.mode)
		}
	}
	startLemma = func(n string, m Mode) {
		mu.Lock()
		defer mu.Unlock()
		for _, a := range p.spec.Axioms {
			if a.Name != n || a.Kind == "axiom" || a.Kind == "def" {
				continue
			}
			mm := m
			if a.Kind == "theorem" {
				mm = BITS
				if len(a.Modes) > 0 {
					mm = m
				}
			}
			k := n + mm.String()
			if lem[k] {
				return
			}
			lem[k] = true
			wg.Add(1)
			a := a
			go func() {
				defer wg.Done()
				qmu.Lock()
				r := lemmaRun(p, a, mm)
				qmu.Unlock()
				discharge(r.obls, so)
				addLemmas(r)
				mu.Lock()
				runs = append(runs, r)
				mu.Unlock()
			}()
			return
		}
	}
	start = func(j job) {
		mu.Lock()
		defer mu.Unlock()
		c := p.spec.Contracts[j.key]
		if c == nil || c.Extern || seen[j] || stop[j.key] {
			return
		}
		seen[j] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := verifyFn(p, j.key, j.mode, so)
			for k := range r.called {
				start(job{k, j.mode})
			}
			addLemmas(r)
			v := r.vacuity()
			discharge(v, solveOpts{quick: 2 * time.Second, total: 0})
			r.vac = v
			mu.Lock()
			runs = append(runs, r)
			mu.Unlock()
		}()
	}
	for _, k := range roots {
		if strings.HasPrefix(k, "lemma:") {
			m := IEEE
			if strings.HasSuffix(k, "@real") {
				m = REAL
			}
			startLemma(strings.TrimSuffix(k[6:], "@real"), m)
			continue
		}
		c := p.spec.Contracts[k]
		if c == nil {
			runs = append(runs, &Run{P: p, key: k, obls: []*Obl{{Func: k, Kind: "unsupported", Label: "no contract for " + k}}})
			continue
		}
		for _, m := range modesOf(c) {
			start(job{k, m})
		}
	}
	wg.Wait()
	sort.Slice(runs, func(i, j int) bool {
		if runs[i].key != runs[j].key {
			return runs[i].key < runs[j].key
		}
		return runs[i].mode < runs[j].mode
	})
	return runs
}

func report(runs []*Run, verbose bool) (bad int) {
	for _, r := range runs {
		n, ok := 0, 0
		for _, o := range r.obls {
			if o.CandID != "" && o.Res.Status != "unsat" {
				continue
			}
			n++
			if o.Res.Status == "unsat" {
				ok++
			}
		}
		fmt.Printf("%-6s %-50s %d/%d\n", r.mode, r.key, ok, n)
		for _, o := range r.obls {
			if o.CandID != "" && r.dropped[o.CandID] || o.CandID != "" && o.Res.Status == "unsat" && !verbose {
				continue
			}
			if o.Res.Status != "unsat" {
				bad++
				fmt.Printf("   FAIL %s: %s  [%s] %s %.1fs\n", o.Kind, o.Label, o.Res.Status, o.Pos, o.Res.Time)
				if o.Res.Out != "" && o.Res.Status == "unknown" {
					fmt.Println("      ", firstLines(o.Res.Out, 3))
				}
			} else if verbose || o.Res.Time > 3 {
				fmt.Printf("   ok   %s: %s  %s %.1fs %s\n", o.Kind, o.Label, o.Pos, o.Res.Time, o.Res.Solver)
			}
		}
		for _, o := range r.vac {
			if o.Res.Status == "unsat" {
				bad++
				fmt.Printf("   VACUOUS %s\n", r.key)
			}
		}
	}
	return
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func cliMain() {
	if v := os.Getenv("GOWP_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	var err error
	workDir, err = os.MkdirTemp("", "gowp")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	code := run(os.Args[1:])
	os.RemoveAll(workDir)
	os.Exit(code)
}

func run(args []string) int {
	if len(args) == 0 {
		fmt.Println("usage: gowp fn KEY... | prop ID | check ID TIER | all")
		return 1
	}
	t0 := time.Now()
	so := solveOpts{quick: 3 * time.Second, total: 15 * time.Second}
	switch args[0] {
	case "fn", "fnv", "prop", "propv", "fn1":
		p, err := loadProg(repoDir, verifDir+"/contracts")
		if err != nil {
			fmt.Println("load:", err)
			return 1
		}
		v := strings.HasSuffix(args[0], "v")
		var bad int
		if strings.HasPrefix(args[0], "fn") {
			stop := map[string]bool{}
			if args[0] == "fn1" || true {
				for k := range p.spec.Contracts {
					stop[k] = true
				}
				for _, k := range args[1:] {
					delete(stop, k)
				}
			}
			bad = report(verifyCone(p, args[1:], stop, so), v)
		} else {
			for _, id := range args[1:] {
				pr := p.spec.Props[id]
				if pr == nil {
					fmt.Println("no property", id)
					return 1
				}
				stop := map[string]bool{}
				for _, s := range pr.Stop {
					stop[s] = true
				}
				bad += report(verifyCone(p, append(pr.Lemma, pr.Funcs...), stop, so), v)
			}
		}
		fmt.Printf("failed: %d  wall %.1fs solver %.1fs queries %d\n", bad, time.Since(t0).Seconds(), float64(solverNanos)/1e9, qcount)
		if bad > 0 {
			return 1
		}
		return 0
	case "check":
		if len(args) < 3 {
			return 2
		}
		return checkMain(args[1], args[2])
	case "replay":
		return replayMain(args[1], args[2])
	case "ssa":
		p, err := loadProg(repoDir, verifDir+"/contracts")
		if err != nil {
			fmt.Println("load:", err)
			return 1
		}
		for _, k := range args[1:] {
			if f := p.fns[k]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", k)
			}
		}
		return 0
	case "fns":
		p, err := loadProg(repoDir, verifDir+"/contracts")
		if err != nil {
			fmt.Println("load:", err)
			return 1
		}
		for _, k := range sortedKeys(p.fns) {
			fmt.Println(k)
		}
		return 0
	}
	return 1
}
