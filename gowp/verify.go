package main

// Obligation generation per function, loop-invariant inference, query assembly.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) specFn(name string) *SpecFunc {
	if s, ok := r.P.spec.Funcs[name+"@"+r.mode.String()]; ok {
		return s
	}
	return r.P.spec.Funcs[name]
}

func (r *Run) generate() {
	for i := 0; i < 14; i++ {
		r.reset()
		r.gen1()
		if r.failMsg != "" || !r.changed {
			return
		}
	}
	r.failMsg = "loop write sets do not stabilise"
}

func (r *Run) gen1() {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				r.failMsg = "unsupported: " + e.msg
			case unresolved:
				r.failMsg = "contract does not resolve: " + e.name
			default:
				if os.Getenv("GOWP_PANIC") != "" {
					panic(e)
				}
				r.failMsg = fmt.Sprintf("generator failure: %v", e)
			}
		}
	}()
	if len(r.fn.Blocks) == 0 {
		unsup("function without body")
	}
	entry := &State{heap: map[string]string{}, loc: map[locKey]string{}, alloc: "alloc0"}
	r.decls = append(r.decls, "(declare-const alloc0 Int)", "(assert (< 0 alloc0))")
	r.entry = entry
	f := r.newFrame(r.fn, r.key, nil)
	env := &Env{r: r, vars: map[string]TV{}, st: entry, old: entry, pkg: r.P.pkgOf(r.fn)}
	r.entryEnv = env
	for i, p := range r.fn.Params {
		n := r.fresh("a_"+p.Name(), r.S.sortOf(p.Type()))
		v := Val{T: n, Ty: p.Type()}
		f.vals[p] = v
		r.wf("true", n, p.Type(), entry)
		env.vars[p.Name()] = TV{T: n, Ty: p.Type()}
		if r.con != nil && i < len(r.con.Params) {
			env.vars[r.con.Params[i]] = TV{T: n, Ty: p.Type()}
		}
	}
	if len(r.fn.FreeVars) > 0 {
		for _, fv := range r.fn.FreeVars {
			n := r.fresh("fv_"+fv.Name(), r.S.sortOf(fv.Type()))
			r.wf("true", n, fv.Type(), entry)
			f.free = append(f.free, Val{T: n, Ty: fv.Type()})
		}
	}
	if r.con != nil {
		for _, c := range r.con.Requires {
			if clauseMode(c, r.mode) {
				r.assume("true", env.boolT(c.Expr))
			}
		}
	}
	rets := r.execFrame(f, entry.clone(), "true")
	if r.con == nil || r.dry {
		return
	}
	results := r.fn.Signature.Results()
	for _, rt := range rets {
		rt := rt
		r.retGuards = append(r.retGuards, rt.guard)
		e2 := &Env{r: r, vars: map[string]TV{}, parent: env, st: rt.st, old: entry, pkg: env.pkg}
		for i := 0; i < results.Len(); i++ {
			if len(r.con.Results) > i {
				ty := results.At(i).Type()
				e2.vars[r.con.Results[i]] = TV{T: r.define("res_"+r.con.Results[i], r.S.sortOf(ty), r.term(rt.vals[i])), Ty: ty}
			}
		}
		ea := *e2
		ea.lookup = func(name string) (TV, bool) {
			return r.lookupName(f, rt.blk, nil, f.headPhi, rt.st, name)
		}
		r.instances(&ea, r.con.Insts, nil)
		for _, c := range r.con.Asserts {
			if !clauseMode(c, r.mode) {
				continue
			}
			t, err := tryEval(&ea, c.Expr)
			if err != "" {
				continue // a hint that does not apply at this exit
			}
			o := r.oblige(rt.guard, t, "hint", c.Label, rt.pos)
			o.Tags, o.Auto = c.Tags, true
			o.CandID = fmt.Sprintf("%s|%s|hint|%s|%d", r.key, r.mode, c.Label, len(r.retGuards))
			if !r.dropped[o.CandID] {
				r.assume(rt.guard, t)
			}
		}
		for _, c := range r.con.Ensures {
			if !clauseMode(c, r.mode) {
				continue
			}
			for k, part := range conjuncts(c.Expr) {
				o := r.oblige(rt.guard, e2.boolT(part), "ensures", c.Label, rt.pos)
				o.Tags = c.Tags
				if k > 0 {
					o.Label += fmt.Sprintf(" (part %d)", k+1)
				}
			}
		}
		items := r.modItems(r.con, env)
		for _, k := range sortedKeys(rt.st.heap) {
			t := r.frameTerm(k, entry, rt.st, items, false)
			if t == "true" {
				continue
			}
			r.oblige(rt.guard, t, "frame", "frame "+k, rt.pos)
		}
	}
	r.finish()
}

func conjuncts(x Expr) []Expr {
	if b, ok := x.(*EBin); ok && b.Op == "&&" {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []Expr{x}
}

// finish: spec functions and lemmas used
func (r *Run) finish() {
	uses := map[string]bool{}
	if r.con != nil {
		for _, u := range r.con.Uses {
			uses[u] = true
		}
	}
	// contracts of inlined functions contribute their lemmas
	for k := range r.inlined {
		if c := r.P.spec.Contracts[k]; c != nil {
			for _, u := range c.Uses {
				uses[u] = true
			}
		}
	}
	past := false
	for _, a := range r.P.spec.Axioms {
		if r.lemma != nil && a.Kind != "axiom" && a.Kind != "def" {
			past = past || a == r.lemma
			if past || !uses[a.Name] {
				continue // a lemma may only rest on lemmas stated before it
			}
		}
		if (uses[a.Name] || a.Auto && r.axRelevant(a)) && axMode(a, r.mode) {
			r.specAx = append(r.specAx, r.axiomText(a))
			r.uses[a.Name] = true
			if a.Kind == "axiom" {
				r.assumption("axiom " + a.Name + ": " + a.Src)
			}
		}
	}
	r.eachAxioms()
	r.emitSpecFns()
}

func (r *Run) axRelevant(a *Axiom) bool {
	for n := range r.useSpec {
		if mentions(a.Expr, n) {
			return true
		}
	}
	return false
}

func axMode(a *Axiom, m Mode) bool {
	if len(a.Modes) == 0 {
		return true
	}
	for _, x := range a.Modes {
		if x == m.String() {
			return true
		}
	}
	return false
}

func (r *Run) axEnv(a *Axiom) (*Env, []string) {
	env := &Env{r: r, vars: map[string]TV{}, pkg: r.P.typesPkg(a.Pkg)}
	var bs []string
	for _, p := range a.Vars {
		t := env.typ(p.Ty)
		n := r.freshName("z_" + p.Name)
		env.vars[p.Name] = TV{T: n, Ty: t}
		bs = append(bs, fmt.Sprintf("(%s %s)", n, r.S.sortOf(t)))
	}
	return env, bs
}

func (r *Run) axBody(env *Env, a *Axiom) string {
	var rq []string
	for _, q := range a.Req {
		rq = append(rq, env.boolT(q))
	}
	b := env.boolT(a.Expr)
	if len(rq) > 0 {
		b = fmt.Sprintf("(=> %s %s)", and(rq...), b)
	}
	return b
}

func (r *Run) axiomText(a *Axiom) string {
	return "(assert " + r.axiomTerm(a, "") + ")"
}

// axiomTerm is the closed statement of a lemma, restricted to values of its induction variable below a bound
func (r *Run) axiomTerm(a *Axiom, below string) string {
	env, bs := r.axEnv(a)
	b := r.axBody(env, a)
	if below != "" {
		v := env.vars[a.Ind].T
		lt := fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v, v, below)
		if a.Ind2 != "" {
			v2 := env.vars[a.Ind2].T
			lt = fmt.Sprintf("(or %s (and (= %s %s) (<= 0 %s) (< %s %s)))", lt, v, below, v2, v2, r.lemmaInd2)
		}
		b = fmt.Sprintf("(=> %s %s)", lt, b)
	}
	if len(bs) == 0 {
		return b
	}
	pats := ""
	for _, g := range a.Trig {
		var ts []string
		for _, t := range g {
			ts = append(ts, env.evalD(t).T)
		}
		pats += " :pattern (" + strings.Join(ts, " ") + ")"
	}
	if pats != "" {
		b = "(! " + b + pats + ")"
	}
	if a.Limited {
		for n := range r.useSpec {
			if sf := r.specFn(n); sf != nil && sf.Kind == "rec" {
				b = strings.ReplaceAll(b, "(sf_"+n+" ", "(sfl_"+n+" ")
			}
		}
	}
	return fmt.Sprintf("(forall (%s) %s)", strings.Join(bs, " "), b)
}

func (r *Run) emitSpecFns() {
	done := map[string]bool{}
	var decl, ax []string
	for {
		var todo []string
		for n := range r.useSpec {
			if !done[n] {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Strings(todo)
		for _, n := range todo {
			done[n] = true
			sf := r.specFn(n)
			env := &Env{r: r, vars: map[string]TV{}, pkg: r.P.typesPkg(sf.Pkg)}
			var sorts, bs, ns []string
			for _, p := range sf.Params {
				t := env.typ(p.Ty)
				nm := r.freshName("y_" + p.Name)
				env.vars[p.Name] = TV{T: nm, Ty: t}
				s := r.S.sortOf(t)
				sorts = append(sorts, s)
				bs = append(bs, fmt.Sprintf("(%s %s)", nm, s))
				ns = append(ns, nm)
			}
			rt := env.typ(sf.Ret)
			decl = append(decl, fmt.Sprintf("(declare-fun sf_%s (%s) %s)", n, strings.Join(sorts, " "), r.S.sortOf(rt)))
			if sf.Kind == "rec" {
				decl = append(decl, fmt.Sprintf("(declare-fun sfl_%s (%s) %s)", n, strings.Join(sorts, " "), r.S.sortOf(rt)))
				body := env.coerce(env.eval(sf.Body), rt).T
				body = strings.ReplaceAll(body, "(sf_"+n+" ", "(sfl_"+n+" ")
				app := fmt.Sprintf("(sf_%s %s)", n, strings.Join(ns, " "))
				lim := fmt.Sprintf("(sfl_%s %s)", n, strings.Join(ns, " "))
				ax = append(ax, fmt.Sprintf("(assert (forall (%s) (! (and (= %s %s) (= %s %s)) :pattern (%s))))", strings.Join(bs, " "), app, body, app, lim, app))
			}
		}
	}
	r.specDecls = decl
	r.specAx = append(ax, r.specAx...)
}

// negated asserts the negation of a goal. Leading implications and universal quantifiers are taken apart and
// the trigger terms of the goal are asserted as ground terms, so that matching can see them.
func (r *Run) negated(g string) string {
	var b strings.Builder
	declared := map[string]bool{}
	for {
		l := sexpr(g)
		if len(l) == 3 && l[0] == "=>" {
			b.WriteString("(assert " + l[1] + ")\n")
			g = l[2]
			continue
		}
		if len(l) == 3 && l[0] == "forall" {
			vs := sexpr(l[1])
			for _, v := range vs {
				p := sexpr(v)
				if declared[p[0]] {
					b.WriteString("(assert (not " + g + "))\n")
					return b.String()
				}
				declared[p[0]] = true
				b.WriteString(fmt.Sprintf("(declare-const %s %s)\n", p[0], p[1]))
			}
			g = l[2]
			if k := sexpr(g); len(k) > 2 && k[0] == "!" {
				g = k[1]
				for i := 2; i+1 < len(k); i += 2 {
					for _, t := range sexpr(k[i+1]) {
						so := r.patSort[t]
						if so == "" {
							continue
						}
						fn := "touch_" + san(so)
						if !declared[fn] {
							declared[fn] = true
							b.WriteString(fmt.Sprintf("(declare-fun %s (%s) Bool)\n", fn, so))
						}
						b.WriteString(fmt.Sprintf("(assert (%s %s))\n", fn, t))
					}
				}
			}
			continue
		}
		b.WriteString("(assert (not " + g + "))\n")
		return b.String()
	}
}

// sexpr splits a parenthesised term into its elements (nil for an atom)
func sexpr(s string) (out []string) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")") {
		return nil
	}
	s = s[1 : len(s)-1]
	depth, start := 0, -1
	str := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if str {
			if c == '"' {
				str = false
			}
			continue
		}
		switch {
		case c == '"':
			str = true
			if start < 0 {
				start = i
			}
		case c == '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
		case (c == ' ' || c == '\n' || c == '\t') && depth == 0:
			if start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return
}

// query assembles the SMT problem of an obligation
func (r *Run) query(o *Obl) string {
	var b strings.Builder
	for _, d := range r.specDecls {
		b.WriteString(d + "\n")
	}
	for _, d := range r.decls {
		b.WriteString(d + "\n")
	}
	for _, d := range r.specAx {
		b.WriteString(d + "\n")
	}
	for _, d := range r.items[:o.NItems] {
		b.WriteString(d + "\n")
	}
	b.WriteString("(assert " + o.Guard + ")\n")
	b.WriteString(r.negated(o.Goal))
	b.WriteString("(check-sat)\n")
	body := b.String()
	return r.head(body) + body
}

func (r *Run) head(body string) string {
	h := "(declare-sort Fn 0)\n(declare-const fn_nil Fn)\n"
	if r.mode == BITS {
		h = "" + h
	}
	wf := r.S.datatypes()
	return h + r.S.floatPrelude(body) + wf + commonPre + r.S.wfDefs()
}

type solveOpts struct {
	quick, total time.Duration
	workers      int
}

// discharge solves a set of obligations in parallel
func discharge(obls []*Obl, so solveOpts) {
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Kind == "unsupported" {
			o.Res = SolveRes{Status: "unknown", Out: o.Label}
			continue
		}
		o := o
		q := o.queryText()
		if d := os.Getenv("GOWP_DUMP"); d != "" && strings.Contains(o.Label+o.Kind, d) {
			os.WriteFile(fmt.Sprintf("/tmp/gowp_%s_%s_%d_%s.smt2", san(o.Func), san(o.Label), o.NItems, san(o.Pos)), []byte(q), 0644)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.Res = o.solve(q, so)
		}()
	}
	wg.Wait()
	if os.Getenv("GOWP_T") != "" {
		for _, o := range obls {
			if o.Res.Time > 3 {
				fmt.Printf("   slow %-8s %s %s %s %s %s %.1fs %s\n", o.Mode, o.Func, o.Kind, o.Label, o.Pos, o.Res.Status, o.Res.Time, o.Res.Solver)
			}
		}
	}
}

// solve tries the obligation as it stands for a short time, then, where several paths join in its guard,
// path by path, then as it stands for a long time
func (o *Obl) solve(q string, so solveOpts) SolveRes {
	res := solve(o.Mode, q, so.quick, 0)
	if res.Status == "unsat" || res.Status == "sat" || so.total == 0 {
		return res
	}
	spent, name := res.Time, ""
	part := func(pq string) bool {
		pr := solve(o.Mode, pq, so.quick, so.total)
		spent += pr.Time
		if pr.Status == "unsat" && !strings.Contains(name, pr.Solver) {
			name = strings.TrimPrefix(name+"+"+pr.Solver, "+")
		}
		return pr.Status == "unsat"
	}
	if gs := splitGoal(o.Goal); len(gs) > 1 && len(gs) <= 24 {
		ok := true
		for _, g := range gs {
			if !part(o.queryOf(g)) {
				ok = false
				break
			}
		}
		if ok {
			return SolveRes{"unsat", name, spent, ""}
		}
		name = ""
	}
	if ps := o.paths(); len(ps) > 1 && len(ps) <= 24 {
		ok := true
		for _, g := range ps {
			if !part(strings.Replace(q, "\n(assert "+o.Guard+")\n", "\n(assert "+o.Guard+")\n(assert "+g+")\n", 1)) {
				ok = false
				break
			}
		}
		if ok {
			return SolveRes{"unsat", name, spent, ""}
		}
	}
	r2 := solve(o.Mode, q, 0, so.total)
	r2.Time += spent
	return r2
}

// splitGoal takes a conjunction apart, also below implications and universal quantifiers
func splitGoal(g string) []string {
	l := sexpr(g)
	if len(l) < 3 {
		return []string{g}
	}
	var out []string
	switch l[0] {
	case "and":
		for _, x := range l[1:] {
			out = append(out, splitGoal(x)...)
		}
	case "=>":
		if len(l) != 3 {
			return []string{g}
		}
		for _, x := range splitGoal(l[2]) {
			out = append(out, "(=> "+l[1]+" "+x+")")
		}
	case "forall":
		body, post := l[2], ")"
		if k := sexpr(body); len(k) > 2 && k[0] == "!" {
			body, post = k[1], " "+strings.Join(k[2:], " ")+"))"
			for _, x := range splitGoal(body) {
				out = append(out, "(forall "+l[1]+" (! "+x+post)
			}
			return out
		}
		for _, x := range splitGoal(body) {
			out = append(out, "(forall "+l[1]+" "+x+post)
		}
	default:
		return []string{g}
	}
	return out
}

func (o *Obl) queryOf(goal string) string {
	qmu.Lock()
	defer qmu.Unlock()
	c := *o
	c.Goal = goal
	return o.run.query(&c)
}

// paths are the conditions of the edges that join in the guard of the obligation
func (o *Obl) paths() []string {
	qmu.Lock()
	defer qmu.Unlock()
	return o.run.joins(o.Guard, 0)
}

func (r *Run) joins(g string, depth int) []string {
	pre := "(assert (= " + g + " (or "
	for _, it := range r.items {
		if strings.HasPrefix(it, pre) && strings.HasSuffix(it, ")))") {
			var out []string
			for _, d := range sexpr(it[len(pre)-4 : len(it)-2]) {
				if d == "or" {
					continue
				}
				out = append(out, d)
			}
			return out
		}
	}
	return nil
}

var qmu sync.Mutex

func (o *Obl) queryText() string {
	qmu.Lock()
	defer qmu.Unlock()
	return o.run.query(o)
}

// verifyFn generates and discharges the obligations of one function in one mode
func verifyFn(p *Prog, key string, mode Mode, so solveOpts) *Run {
	if os.Getenv("GOWP_T") != "" {
		t0 := time.Now()
		defer func() { fmt.Printf("   time %-8s %s %.1fs\n", mode, key, time.Since(t0).Seconds()) }()
	}
	con := p.spec.Contracts[key]
	if con.Bad != "" {
		r := &Run{P: p, key: key, con: con, mode: mode, called: map[string]bool{}, assump: map[string]bool{}, inlined: map[string]bool{}, uses: map[string]bool{}}
		r.failMsg = con.Bad
		r.obls = []*Obl{{Func: key, Kind: "unsupported", Label: con.Bad, Mode: mode, run: r, Res: SolveRes{Status: "unknown", Out: con.Bad}}}
		return r
	}
	fn := p.fns[key]
	r := newRun(p, fn, key, con, mode)
	// candidate invariants are first tried for a short time each; if the contract does not follow from those
	// that pass, the rest is tried again for longer
	first := 0
	if con.Opts["patient"] != "" {
		first = 1
	}
	for level := first; ; level++ {
		iso := so
		iso.total = 0
		if level > 0 {
			iso.total = so.total
			if iso.total > 20*time.Second {
				iso.total = 20 * time.Second
			}
		}
		r.dropped = map[string]bool{}
		for {
			qmu.Lock()
			r.generate()
			qmu.Unlock()
			if r.failMsg != "" {
				r.obls = []*Obl{{Func: key, Kind: "unsupported", Label: r.failMsg, Mode: mode, run: r, Res: SolveRes{Status: "unknown", Out: r.failMsg}}}
				return r
			}
			var inv []*Obl
			for _, o := range r.obls {
				if o.CandID != "" {
					inv = append(inv, o)
				}
			}
			// facts on slices (fresh, offset 0) follow quickly or not at all
			var quick, slow []*Obl
			for _, o := range inv {
				if strings.HasPrefix(o.Label, "auto: slice") {
					quick = append(quick, o)
				} else {
					slow = append(slow, o)
				}
			}
			qso := iso
			qso.total = 0
			discharge(quick, qso)
			discharge(slow, iso)
			drop := false
			for _, o := range inv {
				if o.Res.Status != "unsat" && !r.dropped[o.CandID] {
					r.dropped[o.CandID] = true
					drop = true
					if os.Getenv("GOWP_V") != "" {
						fmt.Printf("   drop [%s] %s %s (%s) %s %s\n", mode, key, o.Kind+" "+o.Label, o.Res.Status, o.Pos, o.CandID)
					}
				}
			}
			if !drop {
				break
			}
		}
		var rest []*Obl
		for _, o := range r.obls {
			if o.CandID == "" {
				rest = append(rest, o)
			}
		}
		if level == 0 && len(r.dropped) > 0 {
			iso.total = so.total
			if iso.total > 15*time.Second {
				iso.total = 15 * time.Second
			}
			discharge(rest, iso)
			for _, o := range rest {
				if o.Res.Status != "unsat" {
					rest = nil
					break
				}
			}
			if rest == nil {
				continue
			}
			return r
		}
		discharge(rest, so)
		return r
	}
}

// vacuous reports whether the assumptions at the returns of r are contradictory
func (r *Run) vacuity() []*Obl {
	if r.fn == nil || r.failMsg != "" || len(r.retGuards) == 0 {
		return nil
	}
	g := r.retGuards[0]
	if len(r.retGuards) > 1 {
		g = "(or " + strings.Join(r.retGuards, " ") + ")"
	}
	return []*Obl{{Func: r.key, Kind: "vacuity", Label: "some return is reachable", Mode: r.mode, Guard: g, Goal: "false", NItems: len(r.items), run: r}}
}

// instances assumes the named instances of lemmas (only of lemmas stated before lem, if given)
func (r *Run) instances(env *Env, cs []*Clause, lem *Axiom) {
	for _, c := range cs {
		if !clauseMode(c, r.mode) {
			continue
		}
		if lem != nil {
			b := c.Expr
			if q, ok := b.(*EQuant); ok {
				b = q.Body
			}
			for _, a := range r.P.spec.Axioms {
				if a == lem && a.Ind != "" && a.Name == b.(*ECall).Fn {
					break
				}
				if a == lem {
					panic(unsupported{c.Src + ": not a lemma stated before"})
				}
				if a.Name == b.(*ECall).Fn {
					break
				}
			}
		}
		r.instOK = true
		t, err := tryEval(env, c.Expr)
		r.instOK = false
		if err != "" {
			if lem != nil {
				panic(unsupported{c.Src + ": " + err})
			}
			continue
		}
		r.fact(t)
	}
}

// lemmaRun proves a lemma or theorem
func lemmaRun(p *Prog, a *Axiom, mode Mode) (r *Run) {
	r = &Run{P: p, key: "lemma " + a.Name, mode: mode, loopMods: map[string]map[string]bool{}, keyTy: map[string]types.Type{}, loopLocs: map[string]map[locKey]bool{}, dropped: map[string]bool{}}
	r.reset()
	defer func() {
		if e := recover(); e != nil {
			r.failMsg = fmt.Sprintf("%v", e)
			r.obls = []*Obl{{Func: r.key, Kind: "unsupported", Label: r.failMsg, Mode: mode, run: r, Tags: a.Tags}}
		}
	}()
	env := &Env{r: r, vars: map[string]TV{}, pkg: p.typesPkg(a.Pkg)}
	for _, v := range a.Vars {
		t := env.typ(v.Ty)
		env.vars[v.Name] = TV{T: r.fresh("z_"+v.Name, r.S.sortOf(t)), Ty: t}
	}
	if a.Ind != "" {
		iv := env.vars[a.Ind]
		r.lemma, r.lemmaInd = a, iv.T
		e2 := env.child()
		e2.vars[a.Ind] = TV{T: "(- " + iv.T + " 1)", Ty: iv.Ty}
		if a.Ind2 != "" {
			r.lemmaInd2 = env.vars[a.Ind2].T
		}
		if a.General {
			r.fact(r.axiomTerm(a, iv.T))
		} else {
			r.fact(fmt.Sprintf("(=> (> %s 0) %s)", iv.T, r.axBody(e2, a)))
		}
	}
	for _, q := range a.Req {
		r.fact(env.boolT(q))
	}
	r.instances(env, a.Insts, a)
	for k, c := range conjuncts(a.Expr) {
		o := r.oblige("true", env.boolT(c), a.Kind, a.Name, 0)
		o.Tags = a.Tags
		if k > 0 {
			o.Label += fmt.Sprintf(" (part %d)", k+1)
		}
	}
	r.con = &Contract{Uses: a.Uses}
	r.lemma = a
	r.finish()
	return r
}

var _ = types.Typ
var _ ssa.Value
