package main

// Symbolic execution of go/ssa functions into verification conditions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type locKey struct {
	frame string
	a     *ssa.Alloc
}

type State struct {
	heap  map[string]string
	loc   map[locKey]string
	alloc string
}

func (s *State) clone() *State {
	n := &State{heap: map[string]string{}, loc: map[locKey]string{}, alloc: s.alloc}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.loc {
		n.loc[k] = v
	}
	return n
}

type Addr struct {
	loc      *locKey
	ref, idx string
	cell     types.Type
	path     []int
	ty       types.Type
}

type Val struct {
	T     string
	Ty    types.Type
	Tup   []Val
	Fn    *ssa.Function
	Bind  []Val
	Addr  *Addr
	N     int  // statically known slice length (valid if HasN)
	Inner *Val // payload of a statically known interface value
	From  *Val // argument of sort.Reverse
	HasN  bool
}

type Obl struct {
	Func   string
	Label  string
	Kind   string // ensures, requires, inv-init, inv-pres, frame, safe, lemma, unsupported
	Mode   Mode
	Pos    string
	Guard  string
	Goal   string
	NItems int
	CandID string // loop invariant candidate
	Auto   bool
	run    *Run
	Res    SolveRes
	Tags   []string
}

type Run struct {
	instOK     bool            // inside an inst clause
	eachFn     map[string]bool // functional contracts in use
	P          *Prog
	S          *Sorts
	mode       Mode
	fn         *ssa.Function
	con        *Contract
	key        string
	decls      []string
	items      []string
	obls       []*Obl
	nfresh     map[string]int
	heapSort   map[string]string
	heapTy     map[string]types.Type
	base       map[string]string
	baseState  *State
	entry      *State
	entryEnv   *Env
	useSpec    map[string]bool
	uses       map[string]bool
	extDecl    map[string]string
	ghosts     map[string]TV
	loopMods   map[string]map[string]bool
	keyTy      map[string]types.Type // of heaps modified in any pass
	loopLocs   map[string]map[locKey]bool
	changed    bool
	dropped    map[string]bool
	assump     map[string]bool
	nobl       map[string]int
	curFrames  []*Frame
	failMsg    string
	retGuards  []string
	inlined    map[string]bool
	called     map[string]bool
	fnClo      map[string]Val
	litPool    map[string]bool
	depth      int
	wfSeen     map[string]bool
	callStack  []*ssa.Function
	dry        bool
	allMods    map[string]types.Type
	globals    map[string]Val
	globalRows []string
	extTy      map[string]types.Type
	specDecls  []string
	specAx     []string
	vac        []*Obl
	lemma      *Axiom
	lemmaInd   string
	lemmaInd2 string
	patSort    map[string]string // sorts of trigger terms
}

func newRun(p *Prog, fn *ssa.Function, key string, con *Contract, mode Mode) *Run {
	r := &Run{P: p, fn: fn, key: key, con: con, mode: mode, loopMods: map[string]map[string]bool{}, keyTy: map[string]types.Type{}, loopLocs: map[string]map[locKey]bool{}, dropped: map[string]bool{}}
	r.reset()
	return r
}

func (r *Run) reset() {
	r.S = newSorts(r.mode)
	r.decls, r.items, r.obls = nil, nil, nil
	r.nfresh = map[string]int{}
	r.heapSort = map[string]string{}
	r.heapTy = map[string]types.Type{}
	r.base = map[string]string{}
	r.useSpec = map[string]bool{}
	r.uses = map[string]bool{}
	r.extDecl = map[string]string{}
	r.ghosts = map[string]TV{}
	r.changed = false
	r.assump = map[string]bool{}
	r.nobl = map[string]int{}
	r.curFrames = nil
	r.failMsg = ""
	r.retGuards = nil
	r.inlined = map[string]bool{}
	r.called = map[string]bool{}
	r.eachFn = map[string]bool{}
	r.fnClo = map[string]Val{}
	r.depth = 0
	r.wfSeen = map[string]bool{}
	r.patSort = map[string]string{}
	r.allMods = map[string]types.Type{}
	r.globals = map[string]Val{}
	r.globalRows = nil
	r.extTy = map[string]types.Type{}
	r.specDecls, r.specAx = nil, nil
	r.entry, r.entryEnv, r.baseState = nil, nil, nil
	r.callStack = nil
}

func (r *Run) freshName(p string) string {
	p = san(p)
	r.nfresh[p]++
	return fmt.Sprintf("%s!%d", p, r.nfresh[p])
}

func (r *Run) fresh(p, sort string) string {
	n := r.freshName(p)
	r.decls = append(r.decls, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}

func (r *Run) fact(t string) { r.items = append(r.items, "(assert "+t+")") }

func (r *Run) assume(g, t string) {
	if t == "" || t == "true" {
		return
	}
	if g == "true" {
		r.fact(t)
	} else {
		r.fact("(=> " + g + " " + t + ")")
	}
}

// define names a term
func (r *Run) define(p, sort, term string) string {
	if len(term) < 24 && !strings.Contains(term, " ") {
		return term
	}
	n := r.fresh(p, sort)
	r.fact(fmt.Sprintf("(= %s %s)", n, term))
	return n
}

func (r *Run) oblige(g, goal, kind, label string, pos token.Pos) *Obl {
	o := &Obl{Func: r.key, Kind: kind, Label: label, Mode: r.mode, Guard: g, Goal: goal, NItems: len(r.items), run: r, Pos: r.P.pos(pos)}
	if goal == "true" {
		return o
	}
	r.obls = append(r.obls, o)
	return o
}

// safety obligation, then assumed. In real mode safety is assumed (it is proved in ieee mode).
func (r *Run) safe(g, goal, label string, pos token.Pos) {
	if goal == "true" {
		return
	}
	if r.mode == IEEE {
		r.oblige(g, goal, "safe", label, pos)
	}
	r.assume(g, goal)
}

func and(ts ...string) string {
	var out []string
	for _, t := range ts {
		if t == "" || t == "true" {
			continue
		}
		if t == "false" {
			return "false"
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}

func not(t string) string {
	switch t {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(t, "(not ") {
		return t[5 : len(t)-1]
	}
	return "(not " + t + ")"
}

// ---------- heaps ----------

func (r *Run) cellKey(t types.Type) string {
	if _, ok := t.(*types.Named); !ok {
		if _, ok := t.(*types.Alias); !ok {
			// unnamed: share by sort
		}
	}
	k := "M_" + tname(t)
	if _, ok := r.heapSort[k]; !ok {
		r.heapSort[k] = "(Array Int (Array Int " + r.S.sortOf(t) + "))"
		r.heapTy[k] = t
	}
	return k
}

func (r *Run) getHeap(st *State, k string) string {
	if h, ok := st.heap[k]; ok {
		return h
	}
	b, ok := r.base[k]
	if !ok {
		b = k + "!0"
		r.decls = append(r.decls, fmt.Sprintf("(declare-const %s %s)", b, r.heapSort[k]))
		r.base[k] = b
		if r.entry != nil {
			r.closure(b, k, r.entry.alloc)
		}
	}
	return b
}

// closure: everything stored in allocated cells of heap h is well formed w.r.t. alloc
func (r *Run) closure(h, k, alloc string) {
	if strings.HasPrefix(k, "K_") {
		r.decls = append(r.decls, fmt.Sprintf("(assert (forall ((k %s)) (! (not (select (select %s 0) k)) :pattern ((select (select %s 0) k)))))", r.S.sortOf(r.heapTy[k].Underlying().(*types.Map).Key()), h, h))
		return
	}
	if strings.HasPrefix(k, "V_") || strings.HasPrefix(k, "G_") {
		return
	}
	t := r.heapTy[k]
	if !r.S.needsWF(t, map[string]bool{}) {
		return
	}
	x := fmt.Sprintf("(select (select %s qr) qi)", h)
	r.decls = append(r.decls, fmt.Sprintf("(assert (forall ((qr Int) (qi Int)) (! (=> (< qr %s) %s) :pattern (%s))))", alloc, r.S.wfTerm(x, t, alloc), x))
}

func (r *Run) heapOf(st *State, t types.Type) string {
	if st == nil {
		panic(unresolved{"heap access in a heap-independent expression"})
	}
	return r.getHeap(st, r.cellKey(t))
}

func (r *Run) setHeap(st *State, k, term string) {
	st.heap[k] = r.define("H_"+k, r.heapSort[k], term)
	r.noteMod(k)
}

func (r *Run) noteMod(k string) { r.noteMods(k, "any:"+k) }

// noteFresh: only cells allocated after the present state are modified
func (r *Run) noteFresh(k string) { r.noteMods(k) }

func (r *Run) noteMods(k string, more ...string) {
	if t := r.heapTy[k]; t != nil {
		r.keyTy[k] = t
	}
	if _, ok := r.allMods[k]; !ok {
		r.allMods[k] = r.heapTy[k]
	}
	for _, f := range r.curFrames {
		for _, l := range f.activeLoops() {
			m := r.loopMods[l]
			if m == nil {
				m = map[string]bool{}
				r.loopMods[l] = m
			}
			for _, k := range append(more, k) {
				if !m[k] {
					m[k] = true
					r.changed = true
				}
			}
		}
	}
}

func (r *Run) noteLoc(k locKey) {
	for _, f := range r.curFrames {
		for _, l := range f.activeLoops() {
			m := r.loopLocs[l]
			if m == nil {
				m = map[locKey]bool{}
				r.loopLocs[l] = m
			}
			if !m[k] {
				m[k] = true
				r.changed = true
			}
		}
	}
}

func (r *Run) mapKeys(t types.Type) (string, string) {
	n := tname(t.Underlying())
	kk, vk := "K_"+n, "V_"+n
	if _, ok := r.heapSort[kk]; !ok {
		m := t.Underlying().(*types.Map)
		ks, vs := r.S.sortOf(m.Key()), r.S.sortOf(m.Elem())
		r.heapSort[kk] = fmt.Sprintf("(Array Int (Array %s Bool))", ks)
		r.heapSort[vk] = fmt.Sprintf("(Array Int (Array %s %s))", ks, vs)
		r.heapTy[kk], r.heapTy[vk] = t, t
	}
	return kk, vk
}

func (r *Run) mapHas(st *State, t types.Type, m, k string) string {
	kk, _ := r.mapKeys(t)
	return fmt.Sprintf("(select (select %s %s) %s)", r.getHeap(st, kk), m, k)
}

func (r *Run) mapGet(st *State, t types.Type, m, k string) string {
	_, vk := r.mapKeys(t)
	return fmt.Sprintf("(ite %s (select (select %s %s) %s) %s)", r.mapHas(st, t, m, k), r.getHeap(st, vk), m, k, r.S.zero(t.Underlying().(*types.Map).Elem()))
}

func (r *Run) newRef(st *State, g string) string {
	ref := r.fresh("ref", "Int")
	r.fact(fmt.Sprintf("(= %s %s)", ref, st.alloc))
	n := r.fresh("alloc", "Int")
	r.fact(fmt.Sprintf("(= %s (+ %s 1))", n, ref))
	st.alloc = n
	r.noteMod("$alloc")
	return ref
}

func (r *Run) wf(g, x string, t types.Type, st *State) {
	w := r.S.wfTerm(x, t, st.alloc)
	if w == "" {
		return
	}
	k := g + "|" + w
	if r.wfSeen[k] {
		return
	}
	r.wfSeen[k] = true
	r.assume(g, w)
}

// ---------- frames ----------

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	key    string
}

type Frame struct {
	r       *Run
	path    string
	fn      *ssa.Function
	vals    map[ssa.Value]Val
	parent  *Frame
	callAt  *State
	loops   []*loopInfo
	loopOf  map[*ssa.BasicBlock]*loopInfo // header -> loop
	cur     *ssa.BasicBlock
	order   []*ssa.BasicBlock
	con     *Contract
	free    []Val
	headPhi map[*ssa.Phi]Val // values at loop heads (assumed)
	ncall   int
	fnLoc   map[locKey]Val
}

func (f *Frame) activeLoops() []string {
	var out []string
	for _, l := range f.loops {
		if f.cur != nil && l.body[f.cur] {
			out = append(out, l.key)
		}
	}
	return out
}

func (r *Run) newFrame(fn *ssa.Function, path string, parent *Frame) *Frame {
	f := &Frame{r: r, path: path, fn: fn, vals: map[ssa.Value]Val{}, parent: parent, loopOf: map[*ssa.BasicBlock]*loopInfo{}, headPhi: map[*ssa.Phi]Val{}, fnLoc: map[locKey]Val{}}
	f.con = r.P.spec.Contracts[r.P.keyOf(fn)]
	if f.con != nil && f.con.Bad != "" {
		f.con = nil
	}
	// rpo
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.order = append(f.order, post[i])
	}
	for _, b := range f.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.loopOf[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}, key: fmt.Sprintf("%s#%d", path, s.Index)}
					f.loopOf[s] = l
					f.loops = append(f.loops, l)
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	return f
}

// ---------- values ----------

func (r *Run) val(f *Frame, v ssa.Value, st *State) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.Type() == types.Typ[types.UntypedNil] {
				return Val{T: "I_nil", Ty: v.Type()}
			}
			return Val{T: r.S.zero(v.Type()), Ty: v.Type()}
		}
		if v.Value.Kind() == constant.Complex {
			unsup("complex constant")
		}
		if isF(v.Type()) && r.litPool != nil {
			fv, _ := constant.Float64Val(constant.ToFloat(v.Value))
			r.litPool[fmt.Sprint(fv)] = true
		}
		return Val{T: r.S.constTerm(v.Value, v.Type()), Ty: v.Type()}
	case *ssa.Function:
		return Val{Fn: v, Ty: v.Type()}
	case *ssa.Global:
		return Val{Addr: &Addr{ref: "$global", idx: v.Name(), cell: v.Type().(*types.Pointer).Elem(), ty: v.Type().(*types.Pointer).Elem()}, Ty: v.Type(), T: r.P.globalKey(v)}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.free[i]
			}
		}
	case *ssa.Builtin:
		return Val{Ty: v.Type()}
	}
	x, ok := f.vals[v]
	if !ok {
		unsup("value %s (%s) not available in %s", v.Name(), v.String(), f.fn)
	}
	return x
}

// term of a value
func (r *Run) term(v Val) string {
	if v.Addr != nil && v.T == "" {
		a := v.Addr
		if a.loc != nil || len(a.path) > 0 || a.ref == "$global" {
			unsup("address of a local or field escapes")
		}
		return fmt.Sprintf("(mk_ptr %s %s)", a.ref, a.idx)
	}
	if v.Fn != nil {
		n := "fn_" + san(r.P.keyOf(v.Fn))
		if _, ok := r.fnClo[n]; !ok {
			r.fnClo[n] = v
			r.decls = append(r.decls, fmt.Sprintf("(declare-const %s Fn)", n), fmt.Sprintf("(assert (not (= %s fn_nil)))", n))
		}
		return n
	}
	if v.Tup != nil {
		unsup("tuple used as a value")
	}
	return v.T
}

func (r *Run) addrOf(v Val, g string, pos token.Pos) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	p, ok := v.Ty.Underlying().(*types.Pointer)
	if !ok {
		unsup("not a pointer: %s", v.Ty)
	}
	t := r.define("p", "Ptr", v.T)
	r.safe(g, fmt.Sprintf("(not (= (p_ref %s) 0))", t), "nil dereference", pos)
	return &Addr{ref: "(p_ref " + t + ")", idx: "(p_idx " + t + ")", cell: p.Elem(), ty: p.Elem()}
}

func (r *Run) readCell(a *Addr, st *State) string {
	if a.loc != nil {
		return st.loc[*a.loc]
	}
	if a.ref == "$global" {
		unsup("address of global %s", a.idx)
	}
	return fmt.Sprintf("(select (select %s %s) %s)", r.heapOf(st, a.cell), a.ref, a.idx)
}

func (r *Run) loadAddr(a *Addr, st *State) string {
	t := r.readCell(a, st)
	ty := a.cell
	for _, i := range a.path {
		t = fmt.Sprintf("(%s %s)", r.S.field(ty, i), t)
		ty = ty.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (r *Run) upd(t types.Type, cur string, path []int, v string) string {
	if len(path) == 0 {
		return v
	}
	cur = r.define("c", r.S.sortOf(t), cur)
	var fs []string
	for i, ft := range r.S.fieldTypes(t) {
		x := fmt.Sprintf("(%s %s)", r.S.field(t, i), cur)
		if i == path[0] {
			x = r.upd(ft, x, path[1:], v)
		}
		fs = append(fs, x)
	}
	return r.S.mk(t, fs)
}

func (r *Run) storeAddr(a *Addr, v string, st *State) {
	nv := v
	if len(a.path) > 0 {
		nv = r.upd(a.cell, r.readCell(a, st), a.path, v)
	}
	if a.loc != nil {
		st.loc[*a.loc] = r.define("l_"+a.loc.a.Comment, r.S.sortOf(a.cell), nv)
		r.noteLoc(*a.loc)
		return
	}
	if a.ref == "$global" {
		unsup("store to global %s", a.idx)
	}
	k := r.cellKey(a.cell)
	h := r.getHeap(st, k)
	nv = r.define("v", r.S.sortOf(a.cell), nv)
	r.setHeap(st, k, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", h, a.ref, h, a.ref, a.idx, nv))
}

// isLocal: alloc never escapes
func (p *Prog) isLocal(a *ssa.Alloc) bool {
	if v, ok := p.localAlloc[a]; ok {
		return v
	}
	if _, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
		p.localAlloc[a] = false
		return false
	}
	ok := true
	var chk func(v ssa.Value)
	chk = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Val == v {
					ok = false
				}
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				chk(x)
			case *ssa.DebugRef:
			default:
				ok = false
			}
		}
	}
	chk(a)
	p.localAlloc[a] = ok
	return ok
}

type edge struct {
	from  *ssa.BasicBlock
	guard string
	st    *State
}

type retSite struct {
	guard string
	st    *State
	vals  []Val
	pos   token.Pos
	blk   *ssa.BasicBlock
}

// mergeStates joins several edges
func (r *Run) mergeStates(es []edge) (string, *State) {
	if len(es) == 1 {
		return es[0].guard, es[0].st.clone()
	}
	var gs []string
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	g := r.fresh("g", "Bool")
	r.fact(fmt.Sprintf("(= %s (or %s))", g, strings.Join(gs, " ")))
	st := es[0].st.clone()
	keys := map[string]bool{}
	locs := map[locKey]bool{}
	for _, e := range es {
		for k := range e.st.heap {
			keys[k] = true
		}
		for k := range e.st.loc {
			locs[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var ts []string
		for _, e := range es {
			ts = append(ts, r.getHeap(e.st, k))
		}
		st.heap[k] = r.mergeTerms("H_"+k, r.heapSort[k], es, ts)
	}
	var lk []locKey
	for k := range locs {
		lk = append(lk, k)
	}
	sort.Slice(lk, func(i, j int) bool {
		if lk[i].frame != lk[j].frame {
			return lk[i].frame < lk[j].frame
		}
		return lk[i].a.Pos() < lk[j].a.Pos() || lk[i].a.Pos() == lk[j].a.Pos() && lk[i].a.Name() < lk[j].a.Name()
	})
	for _, k := range lk {
		var ts []string
		have := ""
		for _, e := range es {
			if t, ok := e.st.loc[k]; ok {
				have = t
			}
		}
		for _, e := range es {
			t, ok := e.st.loc[k]
			if !ok {
				t = have
			}
			ts = append(ts, t)
		}
		st.loc[k] = r.mergeTerms("l", r.S.sortOf(k.a.Type().(*types.Pointer).Elem()), es, ts)
	}
	var ts []string
	for _, e := range es {
		ts = append(ts, e.st.alloc)
	}
	st.alloc = r.mergeTerms("alloc", "Int", es, ts)
	return g, st
}

func (r *Run) mergeTerms(p, sort string, es []edge, ts []string) string {
	same := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	t := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		if ts[i] == t {
			continue
		}
		t = fmt.Sprintf("(ite %s %s %s)", es[i].guard, ts[i], t)
	}
	return r.define(p, sort, t)
}

func (r *Run) mergeVals(p string, t types.Type, es []edge, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		same := true
		for _, v := range vs {
			if v.Fn == nil || v.Fn != vs[0].Fn || len(v.Bind) > 0 {
				same = false
			}
		}
		if same && vs[0].Fn != nil {
			return vs[0]
		}
	}
	if vs[0].Tup != nil {
		var out Val
		out.Ty = t
		for i := range vs[0].Tup {
			var c []Val
			for _, v := range vs {
				c = append(c, v.Tup[i])
			}
			out.Tup = append(out.Tup, r.mergeVals(p, vs[0].Tup[i].Ty, es, c))
		}
		return out
	}
	var ts []string
	for _, v := range vs {
		ts = append(ts, r.term(v))
	}
	return Val{T: r.mergeTerms(p, r.S.sortOf(t), es, ts), Ty: t}
}

// execFrame runs the body of f.fn
func (r *Run) execFrame(f *Frame, st *State, guard string) []retSite {
	r.curFrames = append(r.curFrames, f)
	r.callStack = append(r.callStack, f.fn)
	defer func() {
		r.curFrames = r.curFrames[:len(r.curFrames)-1]
		r.callStack = r.callStack[:len(r.callStack)-1]
	}()
	if len(r.items) > 60000 {
		unsup("verification condition too large")
	}
	var rets []retSite
	in := map[*ssa.BasicBlock][]edge{}
	headSt := map[*loopInfo]*headInfo{}
	for bi, b := range f.order {
		var g string
		var s *State
		es := in[b]
		if bi == 0 {
			g, s = guard, st
			if len(es) > 0 {
				unsup("entry block has predecessors")
			}
		} else {
			if len(es) == 0 {
				continue // unreachable
			}
			f.cur = b
			// keep f.cur outside loop while merging (no writes noted by merges)
			g, s = r.mergeStates(es)
		}
		f.cur = b
		l := f.loopOf[b]
		if l != nil {
			g, s = r.loopHead(f, l, es, g, s, headSt)
		} else if bi > 0 {
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					if _, d := ins.(*ssa.DebugRef); d {
						continue
					}
					break
				}
				var vs []Val
				for _, e := range es {
					vs = append(vs, r.val(f, ph.Edges[predIndex(b, e.from)], e.st))
				}
				f.vals[ph] = r.mergeVals(ph.Comment, ph.Type(), es, vs)
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := r.term(r.val(f, x.Cond, s))
				r.edgeTo(f, b, b.Succs[0], g, c, s, in, headSt)
				r.edgeTo(f, b, b.Succs[1], g, not(c), s, in, headSt)
			case *ssa.Jump:
				r.edgeTo(f, b, b.Succs[0], g, "true", s, in, headSt)
			case *ssa.Return:
				var vs []Val
				for _, v := range x.Results {
					vs = append(vs, r.val(f, v, s))
				}
				rets = append(rets, retSite{g, s, vs, x.Pos(), b})
			case *ssa.Panic:
				r.safe(g, "false", "explicit panic", x.Pos())
			default:
				g = r.step(f, ins, s, g)
			}
		}
	}
	f.cur = nil
	return rets
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	panic("pred")
}

func (r *Run) edgeTo(f *Frame, from, to *ssa.BasicBlock, g, c string, s *State, in map[*ssa.BasicBlock][]edge, heads map[*loopInfo]*headInfo) {
	eg := g
	if c != "true" {
		eg = r.fresh("e", "Bool")
		r.fact(fmt.Sprintf("(= %s %s)", eg, and(g, c)))
	}
	if l := f.loopOf[to]; l != nil && l.body[from] {
		r.backEdge(f, l, heads[l], edge{from, eg, s.clone()})
		return
	}
	// both successors identical
	in[to] = append(in[to], edge{from, eg, s.clone()})
}

// ---------- loops ----------

type cand struct {
	id    string
	label string
	auto  bool
	tags  []string
	eval  func(phi map[*ssa.Phi]Val, st *State) string
}

type headInfo struct {
	entry *State
	st    *State
	g     string
	cands []cand
	phis  []*ssa.Phi
}

func (r *Run) loopHead(f *Frame, l *loopInfo, es []edge, g string, s *State, heads map[*loopInfo]*headInfo) (string, *State) {
	h := &headInfo{entry: s.clone(), g: g}
	heads[l] = h
	entryPhi := map[*ssa.Phi]Val{}
	for _, ins := range l.header.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			h.phis = append(h.phis, ph)
			var vs []Val
			for _, e := range es {
				vs = append(vs, r.val(f, ph.Edges[predIndex(l.header, e.from)], e.st))
			}
			entryPhi[ph] = r.mergeVals(ph.Comment, ph.Type(), es, vs)
		}
	}
	// havoc
	st := s.clone()
	mods := r.loopMods[l.key]
	if mods["$alloc"] {
		st.alloc = r.fresh("alloc", "Int")
		r.fact(fmt.Sprintf("(<= %s %s)", s.alloc, st.alloc))
	}
	for _, k := range sortedKeys(mods) {
		if k == "$alloc" || strings.HasPrefix(k, "any:") {
			continue
		}
		// first touched inside the loop: known from an earlier pass
		if _, ok := r.heapSort[k]; !ok {
			r.ensureKey(k, r.keyTy[k])
		}
		st.heap[k] = r.fresh("H_"+k, r.heapSort[k])
		r.closure2(st.heap[k], k, st.alloc)
	}
	for k := range r.loopLocs[l.key] {
		if _, ok := s.loc[k]; !ok {
			continue // allocated inside the loop
		}
		t := k.a.Type().(*types.Pointer).Elem()
		st.loc[k] = r.fresh("l_"+k.a.Comment, r.S.sortOf(t))
		r.wf(g, st.loc[k], t, st)
	}
	headPhi := map[*ssa.Phi]Val{}
	for _, ph := range h.phis {
		if e := entryPhi[ph]; e.Fn != nil {
			headPhi[ph] = e // must stay the same; checked at back edge
			f.vals[ph] = e
			continue
		}
		n := r.fresh("x_"+ph.Comment, r.S.sortOf(ph.Type()))
		v := Val{T: n, Ty: ph.Type()}
		headPhi[ph] = v
		f.vals[ph] = v
		f.headPhi[ph] = v
		r.wf(g, n, ph.Type(), st)
	}
	h.st = st
	h.cands = r.candidates(f, l, h, entryPhi, mods)
	for _, c := range h.cands {
		t := c.eval(entryPhi, h.entry)
		if t == "" {
			continue
		}
		o := r.oblige(g, t, "inv-init", c.label, l.header.Instrs[0].Pos())
		o.CandID, o.Auto, o.Tags = c.id, c.auto, c.tags
	}
	for _, c := range h.cands {
		if t := c.eval(headPhi, st); t != "" {
			r.assume(g, t)
		}
	}
	return g, st.clone()
}

func (r *Run) closure2(h, k, alloc string) {
	// like closure, but as ordered item
	d := len(r.decls)
	r.closure(h, k, alloc)
	for _, x := range r.decls[d:] {
		r.items = append(r.items, x)
	}
	r.decls = r.decls[:d]
}

func (r *Run) backEdge(f *Frame, l *loopInfo, h *headInfo, e edge) {
	phi := map[*ssa.Phi]Val{}
	i := predIndex(l.header, e.from)
	for _, ph := range h.phis {
		v := r.val(f, ph.Edges[i], e.st)
		if v.Fn != nil || f.vals[ph].Fn != nil {
			if v.Fn != f.vals[ph].Fn || len(v.Bind) > 0 {
				unsup("function value changes in a loop")
			}
		}
		phi[ph] = v
	}
	for _, c := range h.cands {
		t := c.eval(phi, e.st)
		if t == "" {
			continue
		}
		o := r.oblige(e.guard, t, "inv-pres", c.label, l.header.Instrs[0].Pos())
		o.CandID, o.Auto, o.Tags = c.id, c.auto, c.tags
	}
}

func (r *Run) candidates(f *Frame, l *loopInfo, h *headInfo, entryPhi map[*ssa.Phi]Val, mods map[string]bool) []cand {
	var out []cand
	add := func(c cand) {
		c.id = r.key + "|" + r.mode.String() + "|" + l.key + "|" + c.id
		if !r.dropped[c.id] {
			out = append(out, c)
		}
	}
	// automatic: integer phis
	for pi, ph := range h.phis {
		ph := ph
		if isI(ph.Type()) {
			e := entryPhi[ph]
			step := 0
			for i, p := range l.header.Preds {
				if !l.body[p] {
					continue
				}
				if b, ok := ph.Edges[i].(*ssa.BinOp); ok && b.X == ph {
					if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
						n, _ := constant.Int64Val(constant.ToInt(c.Value))
						if b.Op == token.ADD && n > 0 {
							step = 1
						} else if b.Op == token.SUB && n > 0 || b.Op == token.ADD && n < 0 {
							step = -1
						}
					}
				}
			}
			if step == 1 {
				add(cand{id: fmt.Sprintf("auto-lo%d", pi), label: "auto: counter >= start", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
					return fmt.Sprintf("(<= %s %s)", e.T, r.term(m[ph]))
				}})
			}
			if step == -1 {
				add(cand{id: fmt.Sprintf("auto-hi%d", pi), label: "auto: counter <= start", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
					return fmt.Sprintf("(<= %s %s)", r.term(m[ph]), e.T)
				}})
			}
			if step == 0 {
				add(cand{id: fmt.Sprintf("auto-nn%d", pi), label: "auto: int >= 0", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
					return fmt.Sprintf("(<= 0 %s)", r.term(m[ph]))
				}})
			}
			// bound from the header condition
			if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
				if c, ok := iff.Cond.(*ssa.BinOp); ok {
					inc := 0
					x := c.X
					if b, ok := x.(*ssa.BinOp); ok && b.X == ph && b.Op == token.ADD {
						if k, ok := b.Y.(*ssa.Const); ok && k.Int64() == 1 {
							inc = 1
							x = ph
						}
					}
					if x == ph && (c.Op == token.LSS || c.Op == token.LEQ || c.Op == token.NEQ) {
						if bt, ok := r.invariantTerm(f, l, c.Y, h.entry); ok {
							off := 0
							if c.Op == token.LEQ {
								off = 1
							}
							add(cand{id: fmt.Sprintf("auto-bd%d", pi), label: "auto: counter <= bound", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
								t := fmt.Sprintf("(+ %s %d)", r.term(m[ph]), inc-off)
								st0 := fmt.Sprintf("(+ %s %d)", e.T, inc-off)
								return fmt.Sprintf("(or (<= %s %s) (<= %s %s))", t, bt, t, st0)
							}})
						}
					}
					if x == ph && (c.Op == token.GTR || c.Op == token.GEQ) && step == -1 {
						if bt, ok := r.invariantTerm(f, l, c.Y, h.entry); ok {
							off := 0
							if c.Op == token.GEQ {
								off = 1
							}
							add(cand{id: fmt.Sprintf("auto-bd%d", pi), label: "auto: counter >= bound", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
								t := r.term(m[ph])
								return fmt.Sprintf("(or (>= (+ %s %d) %s) (>= %s %s))", t, off, bt, t, e.T)
							}})
						}
					}
				}
			}
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			add(cand{id: fmt.Sprintf("auto-fr%d", pi), label: "auto: slice storage fresh", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
				t := r.term(m[ph])
				return fmt.Sprintf("(or (= (s_cap %s) 0) (<= %s (s_arr %s)))", t, r.entry.alloc, t)
			}})
			add(cand{id: fmt.Sprintf("auto-of%d", pi), label: "auto: slice offset 0", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
				return fmt.Sprintf("(= (s_off %s) 0)", r.term(m[ph]))
			}})
		}
	}
	// automatic: counters that move together
	type ctr struct {
		ph   *ssa.Phi
		step int64
	}
	var ctrs []ctr
	for _, ph := range h.phis {
		if !isI(ph.Type()) {
			continue
		}
		st, same := int64(0), true
		for i, p := range l.header.Preds {
			if !l.body[p] {
				continue
			}
			n := int64(0)
			if b, ok := ph.Edges[i].(*ssa.BinOp); ok && b.X == ph && (b.Op == token.ADD || b.Op == token.SUB) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
					n, _ = constant.Int64Val(constant.ToInt(c.Value))
					if b.Op == token.SUB {
						n = -n
					}
				}
			}
			if n == 0 || st != 0 && st != n {
				same = false
			}
			st = n
		}
		if same && st != 0 {
			ctrs = append(ctrs, ctr{ph, st})
		}
	}
	for i := 1; i < len(ctrs); i++ {
		a, b := ctrs[0], ctrs[i]
		ea, eb := entryPhi[a.ph], entryPhi[b.ph]
		add(cand{id: fmt.Sprintf("auto-lin%d", i), label: "auto: counters move together", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
			return fmt.Sprintf("(= (* %s (- %s %s)) (* %s (- %s %s)))", intStr(fmt.Sprint(b.step)), r.term(m[a.ph]), ea.T, intStr(fmt.Sprint(a.step)), r.term(m[b.ph]), eb.T)
		}})
	}
	if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.LSS || c.Op == token.GTR) {
			x, y := c.X, c.Y
			if c.Op == token.GTR {
				x, y = y, x
			}
			for _, a := range ctrs {
				for _, b := range ctrs {
					if a.ph == x && b.ph == y && a.step > 0 && b.step < 0 {
						a, b := a, b
						ea, eb := entryPhi[a.ph], entryPhi[b.ph]
						add(cand{id: "auto-meet", label: "auto: counters meet", auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
							t := func(x, y string) string { return fmt.Sprintf("(<= %s (+ %s %d))", x, y, a.step-b.step-1) }
							return "(or " + t(r.term(m[a.ph]), r.term(m[b.ph])) + " (not " + t(ea.T, eb.T) + "))"
						}})
					}
				}
			}
		}
	}
	// automatic: frame of the verified function
	for _, k := range sortedKeys(mods) {
		if k == "$alloc" || r.heapSort[k] == "" {
			continue
		}
		k := k
		if !mods["any:"+k] {
			add(cand{id: "auto-lframe-" + k, label: "auto: loop frame " + k, auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
				return r.frameTerm(k, h.entry, st, nil, false)
			}})
		}
		add(cand{id: "auto-frame-" + k, label: "auto: frame " + k, auto: true, eval: func(m map[*ssa.Phi]Val, st *State) string {
			return r.frameTerm(k, r.entry, st, r.modItems(r.con, r.entryEnv), false)
		}})
	}
	// user invariants of this frame and enclosing frames
	for fr := f; fr != nil; fr = fr.parent {
		if fr.con == nil {
			continue
		}
		for ci, cl := range fr.con.Invs {
			if !clauseMode(cl, r.mode) || cl.Nest > 0 && cl.Nest != nest(f, fr, l) {
				continue
			}
			cl := cl
			for bi, bind := range r.bindings(f, fr, l, h, cl) {
				bind := bind
				add(cand{id: fmt.Sprintf("%s-inv%d-%d", fr.con.Key, ci, bi), label: "invariant " + cl.Label, tags: cl.Tags, eval: func(m map[*ssa.Phi]Val, st *State) string {
					env := r.loopEnv(f, fr, l, m, st, bind, h)
					t, err := tryEval(env, cl.Expr)
					if err != "" {
						return ""
					}
					return t
				}})
			}
		}
	}
	return out
}

// invariantTerm: the value is defined outside the loop (or is len of such a slice)
func (r *Run) invariantTerm(f *Frame, l *loopInfo, v ssa.Value, st *State) (t string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); is {
				t, ok = "", false
				return
			}
			panic(e)
		}
	}()
	if ins, is := v.(ssa.Instruction); is && ins.Block() != nil && l.body[ins.Block()] {
		// len(x) with x invariant; x-1
		switch x := v.(type) {
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
				if a, ok2 := r.invariantTerm(f, l, x.Call.Args[0], st); ok2 {
					if isS(x.Call.Args[0].Type()) {
						return "(str.len " + a + ")", true
					}
					if _, isSl := x.Call.Args[0].Type().Underlying().(*types.Slice); isSl {
						return "(s_len " + a + ")", true
					}
				}
			} else if c := x.Call.StaticCallee(); c != nil && len(c.Params) == 1 && len(c.Blocks) == 1 {
				// accessor returning len(param)
				for _, ins := range c.Blocks[0].Instrs {
					if cc, isC := ins.(*ssa.Call); isC {
						if b, isB := cc.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" && cc.Call.Args[0] == c.Params[0] {
							if a, ok2 := r.invariantTerm(f, l, x.Call.Args[0], st); ok2 {
								return "(s_len " + a + ")", true
							}
						}
					}
				}
			}
		case *ssa.BinOp:
			a, ok1 := r.invariantTerm(f, l, x.X, st)
			b, ok2 := r.invariantTerm(f, l, x.Y, st)
			if ok1 && ok2 && isI(x.Type()) {
				switch x.Op {
				case token.ADD:
					return fmt.Sprintf("(+ %s %s)", a, b), true
				case token.SUB:
					return fmt.Sprintf("(- %s %s)", a, b), true
				}
			}
		}
		return "", false
	}
	return r.term(r.val(f, v, st)), true
}

func clauseMode(c *Clause, m Mode) bool {
	if len(c.Modes) == 0 {
		return true
	}
	for _, x := range c.Modes {
		if x == m.String() {
			return true
		}
	}
	return false
}

func tryEval(env *Env, x Expr) (t string, err string) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unresolved:
				t, err = "", "unresolved "+e.name
			case unsupported:
				t, err = "", e.msg
			default:
				panic(e)
			}
		}
	}()
	return env.boolT(x), ""
}

// ---------- names ----------

type nameDef struct {
	blk  *ssa.BasicBlock
	ord  int
	v    ssa.Value
	addr bool
}

func (p *Prog) nameDefs(fn *ssa.Function) map[string][]nameDef {
	if d, ok := p.names[fn]; ok {
		return d
	}
	d := map[string][]nameDef{}
	// variables kept in memory: a value read or written once is not the variable
	inMem := map[types.Object]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.DebugRef); ok && x.IsAddr && x.Object() != nil {
				inMem[x.Object()] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if x.Comment != "" {
					d[x.Comment] = append(d[x.Comment], nameDef{b, i, x, false})
				}
			case *ssa.DebugRef:
				if o := x.Object(); o != nil && (x.IsAddr || !inMem[o]) {
					d[o.Name()] = append(d[o.Name()], nameDef{b, i, x.X, x.IsAddr})
				}
			case *ssa.Alloc:
				if x.Comment != "" {
					d[x.Comment] = append(d[x.Comment], nameDef{b, i, x, true})
				}
			}
		}
	}
	p.names[fn] = d
	return d
}

func isParamName(fn *ssa.Function, con *Contract, name string) (int, bool) {
	if con != nil {
		for i, n := range con.Params {
			if n == name {
				return i, true
			}
		}
	}
	for i, p := range fn.Params {
		if p.Name() == name {
			return i, true
		}
	}
	return 0, false
}

// advances reports whether ph is a loop counter: some edge brings it back changed by a constant
func advances(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ph {
			if _, ok := b.Y.(*ssa.Const); ok {
				return true
			}
		}
	}
	return false
}

// counter is the only integer carried round the loop, or the only one of them that advances by a constant
func counter(l *loopInfo) *ssa.Phi {
	var all, adv []*ssa.Phi
	for _, ins := range l.header.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok && isI(ph.Type()) {
			all = append(all, ph)
			if advances(ph) {
				adv = append(adv, ph)
			}
		}
	}
	if len(all) == 1 {
		return all[0]
	}
	if len(adv) == 1 {
		return adv[0]
	}
	// or the only one that goes up
	var up []*ssa.Phi
	for _, ph := range adv {
		for _, e := range ph.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.X == ph {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && (b.Op == token.ADD) == (constant.Sign(c.Value) > 0) {
					up = append(up, ph)
					break
				}
			}
		}
	}
	if len(up) == 1 {
		return up[0]
	}
	return nil
}

// nest is the number of loops around and including l in frame f and its callers up to fr
func nest(f, fr *Frame, l *loopInfo) int {
	n := 0
	for x, at := f, l.header; x != nil; x, at = x.parent, nil {
		if at == nil {
			at = x.cur
		}
		for _, y := range x.loops {
			if y == l || at != nil && y.body[at] {
				n++
			}
		}
		if x == fr {
			break
		}
	}
	return n
}

// lookupName resolves a source-level name in frame f at loop header l (or at block b if l is nil)
func (r *Run) lookupName(f *Frame, blk *ssa.BasicBlock, l *loopInfo, phi map[*ssa.Phi]Val, st *State, name string) (TV, bool) {
	mk := func(v Val) (TV, bool) {
		defer func() { recover() }()
		return TV{T: r.term(v), Ty: v.Ty}, true
	}
	if l != nil && (name == "_o" || name == "_oo") {
		return r.outerIndex(f, l, len(name)-1)
	}
	if l != nil {
		for _, ins := range l.header.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok && ph.Comment == name {
				if v, ok := phi[ph]; ok {
					return mk(v)
				}
			}
		}
		if t, ok := r.rangeKey(l, phi); ok {
			if name == "_i" {
				return TV{T: t, Ty: tInt}, true
			}
			for _, d := range r.P.nameDefs(f.fn)[name] {
				if b, ok := d.v.(*ssa.BinOp); ok && b.Block() == l.header {
					if ph, ok := b.X.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
						return TV{T: t, Ty: tInt}, true
					}
				}
			}
		} else if name == "_i" {
			if found := counter(l); found != nil {
				return mk(phi[found])
			}
		}
	}
	var best *nameDef
	for _, d := range r.P.nameDefs(f.fn)[name] {
		d := d
		if blk == nil || !d.blk.Dominates(blk) {
			continue
		}
		if d.blk == blk && l != nil {
			continue
		}
		if best == nil || best.blk == d.blk && best.ord < d.ord || best.blk != d.blk && best.blk.Dominates(d.blk) {
			best = &d
		}
	}
	if best != nil {
		if best.addr {
			var v Val
			var ok bool
			if v, ok = f.vals[best.v]; ok && v.Addr != nil {
				if v.Addr.loc != nil {
					if _, have := st.loc[*v.Addr.loc]; !have {
						return TV{}, false
					}
				}
				return TV{T: r.loadAddr(v.Addr, st), Ty: v.Addr.ty}, true
			}
			if ok && v.T != "" {
				if p, isP := v.Ty.Underlying().(*types.Pointer); isP {
					return TV{T: fmt.Sprintf("(select (select %s (p_ref %s)) (p_idx %s))", r.heapOf(st, p.Elem()), v.T, v.T), Ty: p.Elem()}, true
				}
			}
		} else {
			switch best.v.(type) {
			case *ssa.Const:
				return mk(r.val(f, best.v, st))
			}
			if v, ok := f.vals[best.v]; ok {
				return mk(v)
			}
			if _, isFV := best.v.(*ssa.FreeVar); isFV {
				return mk(r.val(f, best.v, st))
			}
		}
	}
	if i, ok := isParamName(f.fn, f.con, name); ok {
		return mk(f.vals[f.fn.Params[i]])
	}
	for i, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			v := f.free[i]
			if v.Addr != nil {
				return TV{T: r.loadAddr(v.Addr, st), Ty: v.Addr.ty}, true
			}
			if p, isP := v.Ty.Underlying().(*types.Pointer); isP {
				return TV{T: fmt.Sprintf("(select (select %s (p_ref %s)) (p_idx %s))", r.heapOf(st, p.Elem()), v.T, v.T), Ty: p.Elem()}, true
			}
		}
	}
	return TV{}, false
}

// outerIndex is the index of the nth loop around l
func (r *Run) outerIndex(f *Frame, l *loopInfo, n int) (TV, bool) {
	for fr, at := f, l.header; fr != nil; fr, at = fr.parent, nil {
		if at == nil {
			at = fr.cur
		}
		var ls []*loopInfo
		for _, x := range fr.loops {
			if x != l && at != nil && x.body[at] {
				ls = append(ls, x)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
		for _, x := range ls {
			n--
			if n > 0 {
				continue
			}
			if t, ok := r.rangeKey(x, fr.headPhi); ok {
				return TV{T: t, Ty: tInt}, true
			}
			if found := counter(x); found != nil {
				return TV{T: fr.headPhi[found].T, Ty: tInt}, true
			}
			return TV{}, false
		}
	}
	return TV{}, false
}

func (r *Run) rangeKey(l *loopInfo, phi map[*ssa.Phi]Val) (string, bool) {
	for _, ins := range l.header.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
			if v, ok := phi[ph]; ok {
				return "(+ " + v.T + " 1)", true
			}
		}
	}
	return "", false
}

func (r *Run) loopEnv(f, fr *Frame, l *loopInfo, phi map[*ssa.Phi]Val, st *State, bind map[string]*ssa.Phi, h *headInfo) *Env {
	env := &Env{r: r, vars: map[string]TV{}, st: st, old: r.frameOld(fr), pkg: r.P.pkgOf(fr.fn), params: map[string]TV{}}
	if fr.con != nil {
		for i, n := range fr.con.Params {
			if i < len(fr.fn.Params) {
				if v, ok := fr.vals[fr.fn.Params[i]]; ok && v.Fn == nil {
					env.params[n] = TV{T: r.term(v), Ty: fr.fn.Params[i].Type()}
				}
			}
		}
	}
	env.lookup = func(name string) (TV, bool) {
		if ph, ok := bind[name]; ok {
			v := phi[ph]
			if ph.Comment == "rangeindex" {
				return TV{T: "(+ " + v.T + " 1)", Ty: tInt}, true
			}
			return TV{T: r.term(v), Ty: v.Ty}, true
		}
		if v, ok := r.lookupName(f, l.header, l, phi, st, name); ok {
			return v, true
		}
		for x := f; x != fr; {
			site := x
			x = x.parent
			_ = site
			var inner *loopInfo
			for _, ll := range x.loops {
				if x.cur != nil && ll.body[x.cur] {
					inner = ll
				}
			}
			_ = inner
			if v, ok := r.lookupName(x, x.cur, nil, x.headPhi, st, name); ok {
				return v, true
			}
		}
		return TV{}, false
	}
	return env
}

func (r *Run) frameOld(fr *Frame) *State {
	if fr.parent == nil {
		return r.entry
	}
	return fr.callAt
}

// bindings: nil binding if all names resolve; otherwise enumerate phis of matching type for unresolved declared locals
func (r *Run) bindings(f, fr *Frame, l *loopInfo, h *headInfo, cl *Clause) []map[string]*ssa.Phi {
	phi := map[*ssa.Phi]Val{}
	for _, p := range h.phis {
		phi[p] = f.vals[p]
	}
	env := r.loopEnv(f, fr, l, phi, h.st, nil, h)
	if _, err := tryEval(env, cl.Expr); err == "" {
		return []map[string]*ssa.Phi{{}}
	}
	// which declared locals are unresolved
	var miss []Param
	for _, p := range fr.con.Locals {
		if !mentions(cl.Expr, p.Name) {
			continue
		}
		if _, ok := env.lookup(p.Name); !ok {
			miss = append(miss, p)
		}
	}
	if len(miss) == 0 || len(miss) > 3 {
		return nil
	}
	outs := []map[string]*ssa.Phi{{}}
	for _, p := range miss {
		var next []map[string]*ssa.Phi
		ty := env.typ(p.Ty)
		for _, o := range outs {
			for _, ph := range h.phis {
				if !types.Identical(ph.Type().Underlying(), ty.Underlying()) {
					continue
				}
				used := false
				for _, q := range o {
					if q == ph {
						used = true
					}
				}
				if used {
					continue
				}
				n := map[string]*ssa.Phi{p.Name: ph}
				for k, v := range o {
					n[k] = v
				}
				next = append(next, n)
			}
		}
		outs = next
		if len(outs) > 24 {
			outs = outs[:24]
		}
	}
	var good []map[string]*ssa.Phi
	for _, o := range outs {
		env := r.loopEnv(f, fr, l, phi, h.st, o, h)
		if _, err := tryEval(env, cl.Expr); err == "" {
			good = append(good, o)
		}
	}
	return good
}

func mentions(x Expr, name string) bool {
	switch x := x.(type) {
	case *EIdent:
		return x.Name == name
	case *EUn:
		return mentions(x.X, name)
	case *EBin:
		return mentions(x.X, name) || mentions(x.Y, name)
	case *ECond:
		return mentions(x.C, name) || mentions(x.A, name) || mentions(x.B, name)
	case *ESel:
		return mentions(x.X, name)
	case *EIdx:
		return mentions(x.X, name) || mentions(x.I, name)
	case *ECall:
		if x.Fn == name {
			return true
		}
		for _, a := range x.Args {
			if mentions(a, name) {
				return true
			}
		}
	case *EQuant:
		return mentions(x.Body, name)
	case *ELet:
		return mentions(x.V, name) || mentions(x.Body, name)
	}
	return false
}

// ---------- modifies ----------

type modItem struct {
	key    string
	all    bool
	ref    string
	lo, hi string // index range [lo,hi); empty: whole row
}

func (r *Run) modItems(con *Contract, env *Env) []modItem {
	var out []modItem
	if con == nil {
		return nil
	}
	for _, c := range con.Modifies {
		if !clauseMode(c, r.mode) {
			continue
		}
		out = append(out, r.modItem(env, c.Expr)...)
	}
	return out
}

func (r *Run) modItem(env *Env, x Expr) []modItem {
	sl := func(a Expr) TV {
		v := env.eval(a)
		if p, ok := v.Ty.Underlying().(*types.Pointer); ok {
			if _, isSl := p.Elem().Underlying().(*types.Slice); isSl {
				v = env.deref(v)
			}
		}
		return v
	}
	switch x := x.(type) {
	case *EIdent:
		if x.Name == "nothing" {
			return nil
		}
	case *EUn:
		if x.Op == "*" {
			v := env.eval(x.X)
			t := v.Ty.Underlying().(*types.Pointer).Elem()
			return []modItem{{key: r.cellKey(t), ref: "(p_ref " + v.T + ")", lo: "(p_idx " + v.T + ")", hi: "(+ (p_idx " + v.T + ") 1)"}}
		}
	case *ECall:
		switch x.Fn {
		case "elems", "spare", "store":
			v := sl(x.Args[0])
			k := r.cellKey(v.Ty.Underlying().(*types.Slice).Elem())
			o := "(s_off " + v.T + ")"
			lo, hi := o, "(+ "+o+" (s_len "+v.T+"))"
			if x.Fn == "spare" {
				lo, hi = hi, "(+ "+o+" (s_cap "+v.T+"))"
			} else if x.Fn == "store" {
				hi = "(+ " + o + " (s_cap " + v.T + "))"
			}
			return []modItem{{key: k, ref: "(s_arr " + v.T + ")", lo: lo, hi: hi}}
		case "all":
			t := env.typ(&TypeX{Kind: "name", Name: x.Args[0].(*EIdent).Name})
			return []modItem{{key: r.cellKey(t), all: true}}
		case "mapof":
			v := env.eval(x.Args[0])
			kk, vk := r.mapKeys(v.Ty)
			return []modItem{{key: kk, ref: v.T}, {key: vk, ref: v.T}}
		}
	}
	panic(unresolved{"modifies item"})
}

// frameTerm: every cell of heap k allocated before `old` and not listed is unchanged.
func (r *Run) frameTerm(k string, old, st *State, items []modItem, rows bool) string {
	h0, h1 := r.getHeap(old, k), r.getHeap(st, k)
	if h0 == h1 {
		return "true"
	}
	var its []modItem
	for _, it := range items {
		if it.key == k {
			if it.all {
				return "true"
			}
			its = append(its, it)
		}
	}
	var rowc, cells []string
	for _, it := range its {
		rowc = append(rowc, fmt.Sprintf("(not (= qr %s))", it.ref))
		if it.lo != "" {
			cells = append(cells, fmt.Sprintf("(forall ((qi Int)) (! (=> (or (< qi %s) (>= qi %s)) %s) :pattern ((select (select %s %s) qi))))", it.lo, it.hi,
				r.otherItems(its, it, fmt.Sprintf("(= (select (select %s %s) qi) (select (select %s %s) qi))", h1, it.ref, h0, it.ref)), h1, it.ref))
		}
	}
	t := fmt.Sprintf("(forall ((qr Int)) (! (=> (and (< qr %s) %s) (= (select %s qr) (select %s qr))) :pattern ((select %s qr))))", old.alloc, and(rowc...), h1, h0, h1)
	// the cell facts only hold for rows allocated in the old state: guard
	for i, c := range cells {
		cells[i] = fmt.Sprintf("(=> (< %s %s) %s)", its[i].ref, old.alloc, c)
	}
	return and(append([]string{t}, cells...)...)
}

func (r *Run) otherItems(its []modItem, me modItem, body string) string {
	var cs []string
	for _, it := range its {
		if it == me {
			continue
		}
		if it.lo == "" {
			cs = append(cs, fmt.Sprintf("(= %s %s)", it.ref, me.ref))
		} else {
			cs = append(cs, fmt.Sprintf("(and (= %s %s) (<= %s qi) (< qi %s))", it.ref, me.ref, it.lo, it.hi))
		}
	}
	if len(cs) == 0 {
		return body
	}
	return "(or " + strings.Join(cs, " ") + " " + body + ")"
}
