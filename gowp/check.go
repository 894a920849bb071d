package main

// check ID TIER: the registered check of one property. It verifies the contract cone of the property from
// /repo's current source, runs the bounded stand-in of the property on the real code (which doubles as the
// search for a concrete failing input of a failed obligation), and writes the evidence file.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type litPool struct {
	Floats  []float64 `json:"floats"`
	Ints    []int64   `json:"ints"`
	Strings []string  `json:"strings"`
}

// pool collects the literals of all functions statically reachable from the keys.
func (p *Prog) pool(keys []string) litPool {
	fs, is, ss := map[float64]bool{}, map[int64]bool{}, map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	addConst := func(c *ssa.Const) {
		if c.Value == nil {
			return
		}
		switch c.Value.Kind() {
		case constant.String:
			s := constant.StringVal(c.Value)
			ss[s] = true
			if f, err := strconv.ParseFloat(s, 64); err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) {
				fs[f] = true
			}
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
					is[i] = true
				}
				fs[f] = true
				return
			}
			if !math.IsInf(f, 0) {
				fs[f] = true
				if f == math.Trunc(f) && math.Abs(f) < 1e6 {
					is[int64(f)] = true
				}
			}
		}
	}
	// constants stored by the package initialisers into the globals a function reads
	initConsts := func(g *ssa.Global) {
		in := g.Pkg.Func("init")
		if in == nil {
			return
		}
		for _, b := range in.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && len(is) < 4000 {
						addConst(c)
					}
				}
			}
		}
	}
	inits := map[*ssa.Package]bool{}
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !p.isOurs(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Const:
						addConst(v)
					case *ssa.Function:
						visit(v)
					case *ssa.Global:
						if v.Pkg != nil && p.ours[v.Pkg.Pkg] && !inits[v.Pkg] {
							inits[v.Pkg] = true
							initConsts(v)
						}
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, k := range keys {
		visit(p.fns[k])
	}
	var out litPool
	for f := range fs {
		out.Floats = append(out.Floats, f)
	}
	for i := range is {
		out.Ints = append(out.Ints, i)
	}
	sort.Float64s(out.Floats)
	sort.Slice(out.Ints, func(i, j int) bool { return out.Ints[i] < out.Ints[j] })
	for s := range ss {
		out.Strings = append(out.Strings, s)
	}
	sort.Strings(out.Strings)
	return out
}

type hFail struct {
	Property string   `json:"property"`
	Case     string   `json:"case"`
	Input    []string `json:"input"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
}

type hReport struct {
	Evaluations int64    `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failures    []hFail  `json:"failures"`
	WallS       float64  `json:"wall_s"`
}

// buildHarness compiles the public-API harness against /repo's working tree.
func buildHarness() (bin string, out string, err error) {
	hd := filepath.Join(verifDir, "harness")
	es, err := os.ReadDir(hd)
	if err != nil {
		return "", "", err
	}
	rep := map[string]string{}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			rep[filepath.Join(repoDir, "verifharness", e.Name())] = filepath.Join(hd, e.Name())
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(workDir, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	bin = filepath.Join(workDir, "h.bin")
	cmd := exec.Command("go", "test", "-vet=off", "-c", "-o", bin, "-overlay", ov, "./verifharness")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	o, err := cmd.CombinedOutput()
	return bin, string(o), err
}

type hResult struct {
	rep   hReport
	crash string // stderr of a run that ended without a report
}

func runHarness(bin, id, tier string, seed, scale int, pool string, limit time.Duration) hResult {
	dir, _ := os.MkdirTemp(workDir, "run")
	defer os.RemoveAll(dir)
	outp := filepath.Join(dir, "out.json")
	cmd := exec.Command("bash", "-c", `ulimit -v 16000000; exec "$0" -test.run "^Test$1\$" -test.timeout 0`, bin, id)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_OUT="+outp, "VERIF_POOL="+pool,
		"VERIF_SCALE="+strconv.Itoa(scale), "GOTRACEBACK=single")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	var res hResult
	if err := cmd.Start(); err != nil {
		res.crash = "harness does not start: " + err.Error()
		return res
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	var err error
	select {
	case err = <-ch:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-ch
		err = fmt.Errorf("no answer within %s", limit)
	}
	b, rerr := os.ReadFile(outp)
	if rerr == nil {
		rerr = json.Unmarshal(b, &res.rep)
	}
	if rerr != nil || err != nil && len(res.rep.Failures) == 0 {
		s := buf.String()
		if len(s) > 12000 {
			s = s[:8000] + "\n...\n" + s[len(s)-4000:]
		}
		res.crash = fmt.Sprintf("the run ended without a report (%v)\n%s", err, s)
	}
	return res
}

type known struct{ prop, obl, input, what string }

func loadKnown() (out []known) {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "finding: ")
		head, what, _ := strings.Cut(rest, " -- ")
		k.what = what
		for _, part := range strings.Split(head, " | ") {
			n, v, _ := strings.Cut(strings.TrimSpace(part), "=")
			switch n {
			case "property":
				k.prop = v
			case "obligation":
				k.obl = v
			case "input":
				k.input = v
			}
		}
		out = append(out, k)
	}
	return
}

type oblRec struct {
	Func   string  `json:"function"`
	Kind   string  `json:"kind"`
	Label  string  `json:"obligation"`
	Mode   string  `json:"mode"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"`
	Solver string  `json:"solver,omitempty"`
	Time   float64 `json:"time_s"`
	Query  string  `json:"query,omitempty"`
	Out    string  `json:"verifier_output,omitempty"`
}

func checkMain(id, tier string) int {
	t0 := time.Now()
	seed := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	evDir := filepath.Join(verifDir, "evidence")
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0o755)
	os.Remove(filepath.Join(evDir, id+".json"))
	replay := filepath.Join(repDir, id+".json")
	os.Remove(replay)

	var violations []map[string]interface{}
	concrete := false
	violate := func(kind string, v map[string]interface{}, input bool) {
		v["kind"] = kind
		violations = append(violations, v)
		concrete = concrete || input
	}
	knowns := loadKnown()
	var knownHit []string
	isKnown := func(obl, msg string) bool {
		for _, k := range knowns {
			if k.prop == id && (k.obl != "" && obl == k.obl || k.input != "" && msg != "" && strings.Contains(msg, k.input)) {
				knownHit = append(knownHit, k.what)
				return true
			}
		}
		return false
	}

	p, lerr := loadProg(repoDir, verifDir+"/contracts")
	var prop *Property
	if lerr != nil {
		violate("the code does not load", map[string]interface{}{"message": lerr.Error()}, false)
	} else {
		prop = p.spec.Props[id]
	}
	if prop == nil && lerr == nil {
		fmt.Println("no property", id)
		return 2
	}
	level := "exploration"
	if prop != nil && prop.Level != "" {
		level = prop.Level
	}

	// bounded stand-in
	var hr hReport
	bin, out, err := buildHarness()
	poolFile := ""
	if lerr == nil {
		poolFile = filepath.Join(workDir, "pool.json")
		b, _ := json.Marshal(p.pool(append(append([]string{}, prop.Funcs...), prop.Bound...)))
		os.WriteFile(poolFile, b, 0o644)
	}
	hlimit := 150 * time.Second
	if tier == "thorough" {
		hlimit = 600 * time.Second
	}
	harness := func(seed, scale int) {
		res := runHarness(bin, id, tier, seed, scale, poolFile, hlimit)
		if res.crash != "" {
			violate("the bounded run of the real code does not end normally", map[string]interface{}{"message": res.crash,
				"how_to_replay": "VERIF_SEED=" + strconv.Itoa(seed) + " " + verifDir + "/check.sh " + id + " " + tier}, true)
		}
		if hr.Rule == "" || hr.Evaluations == 0 {
			hr = res.rep
		} else {
			hr.Evaluations += res.rep.Evaluations
			hr.Distinct += res.rep.Distinct
			hr.WallS += res.rep.WallS
		}
		for _, f := range res.rep.Failures {
			if isKnown("", f.Message) {
				continue
			}
			violate("failing input on the real code", map[string]interface{}{"input": f.Input, "message": f.Message, "stack": f.Stack, "case": f.Case, "seed": seed,
				"how_to_replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s replay %s", seed, tier, verifDir, id, f.Case)}, true)
		}
	}
	if err != nil {
		violate("the harness does not compile against the public API", map[string]interface{}{"message": out}, false)
	} else {
		harness(seed, 100)
	}

	// contracts
	var runs []*Run
	nobl, ndis := 0, 0
	backends := map[string]int{}
	assum := map[string]bool{}
	fnsUnder := map[string]bool{}
	inlined := map[string]bool{}
	var failed, all []oblRec
	if lerr == nil && len(prop.Funcs) > 0 {
		so := solveOpts{quick: 5 * time.Second, total: 60 * time.Second}
		budget := 420 * time.Second
		if tier == "thorough" {
			so.total = 180 * time.Second
			budget = 1500 * time.Second
		}
		if concrete {
			so.total, budget = 10*time.Second, 90*time.Second
		}
		solveDeadline = time.Now().Add(budget)
		stop := map[string]bool{}
		for _, s := range prop.Stop {
			stop[s] = true
			assum["contract of "+s+" is discharged by another property's check"] = true
		}
		runs = verifyCone(p, append(prop.Lemma, prop.Funcs...), stop, so)
		for _, r := range runs {
			if r.con != nil && r.fn != nil {
				fnsUnder[r.key] = true
			}
			for a := range r.assump {
				assum[a] = true
			}
			for a := range r.inlined {
				inlined[a] = true
			}
			obls := append(append([]*Obl{}, r.obls...), r.vac...)
			for _, o := range obls {
				vac := o.Kind == "vacuity"
				if o.CandID != "" && (o.Res.Status != "unsat" || r.dropped[o.CandID]) {
					continue // candidate invariants that do not hold are not used
				}
				ok := o.Res.Status == "unsat"
				if vac {
					if o.Res.Status != "unsat" {
						continue
					}
					ok = false
				}
				nobl++
				rec := oblRec{Func: o.Func, Kind: o.Kind, Label: o.Label, Mode: o.Mode.String(), Pos: o.Pos, Status: o.Res.Status, Solver: o.Res.Solver, Time: math.Round(o.Res.Time*1000) / 1000}
				if ok {
					ndis++
					backends[o.Res.Solver]++
					all = append(all, rec)
					continue
				}
				if isKnown(o.Func+"/"+o.Kind+"/"+o.Label, "") {
					continue
				}
				rec.Out = o.Res.Out
				if len(rec.Out) > 20000 {
					rec.Out = rec.Out[:20000]
				}
				if o.Kind != "unsupported" && len(failed) < 5 {
					qf := filepath.Join(repDir, fmt.Sprintf("%s_%d.smt2", id, len(failed)))
					os.WriteFile(qf, []byte(o.queryText()), 0o644)
					rec.Query = qf
				}
				failed = append(failed, rec)
			}
		}
		if len(failed) > 0 {
			violate("failed obligation", map[string]interface{}{"obligations": failed}, false)
			if !concrete && err == nil {
				harness(seed+1000, 400) // search harder for a failing input
			}
		}
	}

	wall := math.Round(time.Since(t0).Seconds()*100) / 100
	if hr.Samples == nil {
		hr.Samples = []string{}
	}
	bounded := map[string]interface{}{"evaluations": hr.Evaluations, "distinct_nontrivial": hr.Distinct, "rule": hr.Rule, "samples": hr.Samples}
	trusted := append([]string{
		"gowp (this repository's verification-condition generator) and golang.org/x/tools/go/ssa as the semantics of the Go source",
		"z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
		"partial correctness: termination and stack or memory exhaustion are only exercised by the bounded run",
	}, sortedKeys(assum)...)
	contracts := map[string]interface{}{
		"functions_under_contract": append([]string{}, sortedKeys(fnsUnder)...),
		"functions_inlined":        append([]string{}, sortedKeys(inlined)...),
		"by_back_end":              backends,
		"solver_time_s":            math.Round(float64(solverNanos)/1e7) / 100,
		"slowest":                  slowest(all, 5),
	}
	cov := map[string]interface{}{}
	if level == "proof" {
		cov["obligations"] = nobl
		cov["discharged"] = ndis
		cov["checker_cmd"] = fmt.Sprintf("/verif/check.sh %s %s", id, tier)
		cov["trusted_base"] = trusted
		cov["contracts"] = contracts
		cov["bounded_stand_in"] = bounded
		cov["bounded_note"] = "the bounded run is a search for failing inputs and covers the parts the level note names as bounded; it is not counted as proved"
	} else {
		for k, v := range bounded {
			cov[k] = v
		}
		cov["bounded_note"] = "bounded check of the real code (labelled bounded, not proved); the contracts below are discharged in addition"
		contracts["obligations_generated"] = nobl
		contracts["obligations_discharged"] = ndis
		cov["contracts"] = contracts
		cov["trusted_base"] = trusted
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall,
		"assumptions": append([]string{}, sortedKeys(assum)...), "violations": len(violations)}
	b := toJSON(ev)
	os.WriteFile(filepath.Join(evDir, id+".json"), b, 0o644)

	for _, k := range uniq(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s %s: %d/%d obligations discharged in %d functions, %d bounded cases (%d distinct), %.1f s\n", id, tier, ndis, nobl, len(fnsUnder), hr.Evaluations, hr.Distinct, wall)
	if len(violations) == 0 {
		return 0
	}
	b = toJSON(map[string]interface{}{"property": id, "tier": tier, "seed": seed, "violations": violations})
	os.WriteFile(replay, b, 0o644)
	for _, f := range failed {
		fmt.Printf("failed obligation: %s %s [%s] %s %s\n", f.Func, f.Kind, f.Label, f.Pos, f.Status)
	}
	for _, v := range violations {
		if m, ok := v["message"].(string); ok {
			fmt.Printf("%s: %s\n", v["kind"], firstLines(m, 12))
		}
		if in, ok := v["input"].([]string); ok {
			for i, l := range in {
				if i < 8 {
					if len(l) > 400 {
						l = l[:400] + "..."
					}
					fmt.Println("   ", l)
				}
			}
		}
	}
	tail := ""
	if !concrete {
		tail = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, replay, tail)
	return 1
}

func uniq(s []string) (out []string) {
	m := map[string]bool{}
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return
}

func slowest(rs []oblRec, n int) []oblRec {
	rs = append([]oblRec{}, rs...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].Time > rs[j].Time })
	if len(rs) > n {
		rs = rs[:n]
	}
	return rs
}

// replayMain runs one recorded case again.
func replayMain(id, cse string) int {
	bin, out, err := buildHarness()
	if err != nil {
		fmt.Println(out)
		return 1
	}
	cmd := exec.Command(bin, "-test.run", "^Test"+id+"$", "-test.v")
	cmd.Dir = workDir
	pf := ""
	if p, err := loadProg(repoDir, verifDir+"/contracts"); err == nil && p.spec.Props[id] != nil {
		pr := p.spec.Props[id]
		pf = filepath.Join(workDir, "pool.json")
		b, _ := json.Marshal(p.pool(append(append([]string{}, pr.Funcs...), pr.Bound...)))
		os.WriteFile(pf, b, 0o644)
	}
	cmd.Env = append(os.Environ(), "VERIF_CASE="+cse, "VERIF_POOL="+pf)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if cmd.Run() != nil {
		return 1
	}
	return 0
}

func toJSON(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(v)
	return b.Bytes()
}
