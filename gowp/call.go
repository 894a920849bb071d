package main

// Calls: contracts, inlining, builtins, modelled library functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 10

func (r *Run) tuple(t types.Type, vs []Val) Val {
	switch len(vs) {
	case 0:
		return Val{Ty: t, Tup: []Val{}}
	case 1:
		return vs[0]
	}
	return Val{Tup: vs, Ty: t}
}

func (r *Run) call(f *Frame, x *ssa.Call, c *ssa.CallCommon, s *State, g string) (Val, string) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(f, x, b, c, s, g), g
	}
	var args []Val
	if c.IsInvoke() {
		return r.invoke(f, x, c, s, g)
	}
	for _, a := range c.Args {
		args = append(args, r.val(f, a, s))
	}
	fv := r.val(f, c.Value, s)
	if fv.Fn != nil {
		return r.callFn(f, x, fv.Fn, fv.Bind, args, s, g)
	}
	// unknown function value
	r.safe(g, fmt.Sprintf("(not (= %s fn_nil))", fv.T), "call of nil function", x.Pos())
	sig := c.Signature()
	if sig.Results().Len() != 1 {
		unsup("call of a function value with %d results", sig.Results().Len())
	}
	var tv []TV
	for i, a := range args {
		if sig.Variadic() && i == len(args)-1 {
			if !a.HasN {
				unsup("variadic call of a function value")
			}
			el := a.Ty.Underlying().(*types.Slice).Elem()
			for k := 0; k < a.N; k++ {
				t := fmt.Sprintf("(select (select %s (s_arr %s)) (ix (s_off %s) %d))", r.heapOf(s, el), a.T, a.T, k)
				tv = append(tv, TV{T: r.define("va", r.S.sortOf(el), t), Ty: el})
			}
			continue
		}
		tv = append(tv, TV{T: r.term(a), Ty: a.Ty})
	}
	r.assumption("function values passed by callers are pure, total and do not panic")
	t := r.applyTerm(fv.T, sig, tv)
	return Val{T: r.define("app", r.S.sortOf(x.Type()), t), Ty: x.Type()}, g
}

func (r *Run) applyTerm(fn string, sig *types.Signature, args []TV) string {
	var sorts, ts []string
	nm := "app"
	for _, a := range args {
		sorts = append(sorts, r.S.sortOf(a.Ty))
		ts = append(ts, a.T)
		nm += "_" + san(tname(a.Ty))
	}
	res := r.S.sortOf(sig.Results().At(0).Type())
	r.declFun(nm, append([]string{"Fn"}, sorts...), res)
	return "(" + nm + " " + fn + " " + strings.Join(ts, " ") + ")"
}

func (r *Run) callFn(f *Frame, x *ssa.Call, fn *ssa.Function, bind, args []Val, s *State, g string) (Val, string) {
	key := r.P.keyOf(fn)
	if con := r.P.spec.Contracts[key]; con != nil {
		if con.Bad == "" {
			if !con.Extern || !r.P.isOurs(fn) {
				return r.callContract(x, fn, con, args, s, g)
			}
		}
	}
	if r.P.isOurs(fn) {
		for _, y := range r.callStack {
			if y == fn {
				unsup("recursive call of %s without contract", key)
			}
		}
		if len(r.callStack) > maxDepth {
			unsup("inlining depth exceeded at %s", key)
		}
		r.inlined[key] = true
		return r.inline(f, x, fn, bind, args, s, g)
	}
	return r.external(f, x, fn, key, args, s, g), g
}

func (r *Run) inline(f *Frame, x *ssa.Call, fn *ssa.Function, bind, args []Val, s *State, g string) (Val, string) {
	f.ncall++
	path := fmt.Sprintf("%s/%s.%d", f.path, r.P.keyOf(fn), f.ncall)
	f2 := r.newFrame(fn, path, f)
	f2.callAt = s.clone()
	f2.free = bind
	for i, p := range fn.Params {
		a := args[i]
		if a.Addr == nil && a.Fn == nil {
			a.Ty = p.Type()
		}
		f2.vals[p] = a
	}
	// callee frames keep enclosing loops active (curFrames)
	rets := r.execFrame(f2, s.clone(), g)
	if len(rets) == 0 {
		if x == nil {
			return Val{}, "false"
		}
		return r.havocVal(x.Type(), s, g), "false"
	}
	var es []edge
	for _, rt := range rets {
		es = append(es, edge{nil, rt.guard, rt.st})
	}
	ng, ns := r.mergeStates(es)
	*s = *ns
	n := len(rets[0].vals)
	var out []Val
	for i := 0; i < n; i++ {
		var vs []Val
		for _, rt := range rets {
			vs = append(vs, rt.vals[i])
		}
		out = append(out, r.mergeVals("ret", fn.Signature.Results().At(i).Type(), es, vs))
	}
	return r.tuple(fn.Signature.Results(), out), ng
}

func (r *Run) havocVal(t types.Type, s *State, g string) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < tp.Len(); i++ {
			vs = append(vs, r.havocVal(tp.At(i).Type(), s, g))
		}
		return Val{Tup: vs, Ty: t}
	}
	n := r.fresh("hv", r.S.sortOf(t))
	r.wf(g, n, t, s)
	return Val{T: n, Ty: t}
}

func (r *Run) conEnv(con *Contract, fn *ssa.Function, args []Val, st, old *State) *Env {
	env := &Env{r: r, vars: map[string]TV{}, st: st, old: old, pkg: r.P.pkgOf(fn)}
	for i, n := range con.Params {
		if i < len(args) {
			ty := args[i].Ty
			env.vars[n] = TV{T: r.term(args[i]), Ty: ty}
		}
	}
	return env
}

// callContract: check requires, havoc the write set within the frame, assume ensures
func (r *Run) callContract(x *ssa.Call, fn *ssa.Function, con *Contract, args []Val, s *State, g string) (Val, string) {
	r.called[con.Key] = true
	for i := range args {
		if args[i].Fn == nil && args[i].Addr == nil && i < len(fn.Params) {
			args[i].Ty = fn.Params[i].Type()
		}
		if args[i].Addr != nil {
			args[i] = Val{T: r.term(args[i]), Ty: args[i].Ty}
		}
	}
	if con.Extern {
		r.assumption("assumed contract of " + con.Key)
	}
	pre := s.clone()
	env := r.conEnv(con, fn, args, pre, pre)
	for _, c := range con.Requires {
		if !clauseMode(c, r.mode) {
			continue
		}
		t := env.boolT(c.Expr)
		o := r.oblige(g, t, "requires", con.Key+": "+c.Label, x.Pos())
		o.Tags = c.Tags
		r.assume(g, t)
	}
	items := r.modItems(con, env)
	keys := map[string]types.Type{}
	if con.Extern {
		for _, it := range items {
			keys[it.key] = r.heapTy[it.key]
		}
	} else {
		w := r.P.writeSet(fn)
		if w.bad != "" {
			unsup("callee %s: %s", con.Key, w.bad)
		}
		for k, t := range w.keys {
			keys[k] = t
		}
	}
	if _, ok := keys["$alloc"]; ok || con.Extern {
		s.alloc = r.fresh("alloc", "Int")
		r.fact(fmt.Sprintf("(<= %s %s)", pre.alloc, s.alloc))
		r.noteMod("$alloc")
	}
	for _, k := range sortedKeys(keys) {
		if k == "$alloc" {
			continue
		}
		r.ensureKey(k, keys[k])
		r.getHeap(pre, k)
		s.heap[k] = r.fresh("H_"+k, r.heapSort[k])
		old := false
		for _, it := range items {
			old = old || it.key == k
		}
		if old {
			r.noteMod(k)
		} else {
			r.noteFresh(k)
		}
		r.closure2(s.heap[k], k, s.alloc)
		r.fact(r.frameTerm(k, pre, s, items, false))
	}
	var res []Val
	rt := fn.Signature.Results()
	env2 := r.conEnv(con, fn, args, s, pre)
	for i := 0; i < rt.Len(); i++ {
		n := r.fresh("r_"+con.Results[i], r.S.sortOf(rt.At(i).Type()))
		v := Val{T: n, Ty: rt.At(i).Type()}
		r.wf(g, n, v.Ty, s)
		res = append(res, v)
		env2.vars[con.Results[i]] = TV{T: n, Ty: v.Ty}
		if con.Opts["functional"] != "" {
			r.P.needFunctional(fn)
			r.eachFn[con.Key] = true
			var ts, sorts []string
			for _, a := range args {
				ts = append(ts, r.term(a))
				sorts = append(sorts, r.S.sortOf(a.Ty))
			}
			sn := r.extSym(con.Key, i)
			r.extTy[sn] = v.Ty
			r.declFun(sn, sorts, r.S.sortOf(v.Ty))
			r.fact(fmt.Sprintf("(= %s (%s %s))", n, sn, strings.Join(ts, " ")))
		}
	}
	if gh := con.Opts["ghost"]; gh != "" {
		for _, nm := range strings.Split(gh, "+") {
			sym := r.freshName("gh_" + nm)
			r.decls = append(r.decls, fmt.Sprintf("(declare-fun %s (Int) Int)", sym))
			r.ghosts[nm] = TV{T: sym, Ty: tInt}
		}
	}
	for _, c := range con.Ensures {
		if !clauseMode(c, r.mode) {
			continue
		}
		if !con.Extern && r.failedClause(con, c) {
			continue
		}
		r.assume(g, env2.boolT(c.Expr))
	}
	return r.tuple(rt, res), g
}

func (r *Run) failedClause(con *Contract, c *Clause) bool { return false }

func (r *Run) ensureKey(k string, t types.Type) {
	if _, ok := r.heapSort[k]; ok {
		return
	}
	if strings.HasPrefix(k, "K_") || strings.HasPrefix(k, "V_") {
		r.mapKeys(t)
		return
	}
	r.cellKey(t)
}

// ---------- interface method calls ----------

func (r *Run) invoke(f *Frame, x *ssa.Call, c *ssa.CallCommon, s *State, g string) (Val, string) {
	recv := r.val(f, c.Value, s)
	var args []Val
	for _, a := range c.Args {
		args = append(args, r.val(f, a, s))
	}
	if recv.Inner != nil {
		if m := r.P.methodOf(recv.Inner.Ty, c.Method.Name()); m != nil {
			return r.callFn(f, x, m, nil, append([]Val{*recv.Inner}, args...), s, g)
		}
	}
	r.safe(g, fmt.Sprintf("(not (= %s I_nil))", recv.T), "method call on nil interface", x.Pos())
	impls := r.P.implementers(c.Value.Type())
	var es []edge
	var vals []Val
	var neg []string
	for _, t := range impls {
		m := r.P.methodOf(t, c.Method.Name())
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		ct := r.S.ifaceCtor(t)
		is := fmt.Sprintf("((_ is %s) %s)", ct, recv.T)
		neg = append(neg, not(is))
		eg := r.fresh("e", "Bool")
		r.fact(fmt.Sprintf("(= %s %s)", eg, and(g, is)))
		st := s.clone()
		rv := Val{T: fmt.Sprintf("(v_%s %s)", ct[2:], recv.T), Ty: t}
		v, ng := r.callFn(f, x, m, nil, append([]Val{rv}, args...), st, eg)
		if ng == "false" {
			continue
		}
		es = append(es, edge{nil, ng, st})
		vals = append(vals, v)
	}
	// other dynamic types
	og := r.fresh("e", "Bool")
	r.fact(fmt.Sprintf("(= %s %s)", og, and(append([]string{g}, neg...)...)))
	r.assumption("methods of interface values of foreign types are pure: " + c.Method.Name())
	nm := "imeth_" + san(c.Method.Name())
	if len(args) == 0 && c.Signature().Results().Len() == 1 {
		rt := c.Signature().Results().At(0).Type()
		r.declFun(nm, []string{"Iface"}, r.S.sortOf(rt))
		v := Val{T: fmt.Sprintf("(%s %s)", nm, recv.T), Ty: rt}
		r.wf(og, v.T, rt, s)
		vals = append(vals, v)
	} else {
		vals = append(vals, r.havocVal(x.Type(), s, og))
	}
	es = append(es, edge{nil, og, s.clone()})
	ng, ns := r.mergeStates(es)
	*s = *ns
	if tp, ok := x.Type().(*types.Tuple); ok && tp.Len() == 0 {
		return Val{Tup: []Val{}, Ty: x.Type()}, ng
	}
	return r.mergeVals("inv", x.Type(), es, vals), ng
}

// ---------- builtins ----------

func (r *Run) builtin(f *Frame, x *ssa.Call, b *ssa.Builtin, c *ssa.CallCommon, s *State, g string) Val {
	arg := func(i int) Val { return r.val(f, c.Args[i], s) }
	switch b.Name() {
	case "len", "cap":
		v := arg(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return Val{T: "(str.len " + v.T + ")", Ty: tInt}
		case *types.Slice:
			return Val{T: fmt.Sprintf("(s_%s %s)", b.Name(), r.term(v)), Ty: tInt}
		case *types.Map:
			kk, _ := r.mapKeys(c.Args[0].Type())
			n := "maplen_" + kk
			r.declFun(n, []string{"(Array " + r.S.sortOf(u.Key()) + " Bool)"}, "Int")
			row := r.define("ks", "(Array "+r.S.sortOf(u.Key())+" Bool)", fmt.Sprintf("(select %s %s)", r.getHeap(s, kk), v.T))
			t := fmt.Sprintf("(%s %s)", n, row)
			qk := r.S.sortOf(u.Key())
			r.fact(fmt.Sprintf("(and (>= %s 0) (= (= %s 0) (forall ((k %s)) (! (not (select %s k)) :pattern ((select %s k))))))", t, t, qk, row, row))
			return Val{T: t, Ty: tInt}
		}
	case "append":
		return r.appendSlice(f, x, c, s, g)
	case "copy":
		d, sr := arg(0), arg(1)
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isS(c.Args[1].Type()) {
			unsup("copy from string")
		}
		n := r.define("n", "Int", fmt.Sprintf("(ite (<= (s_len %s) (s_len %s)) (s_len %s) (s_len %s))", d.T, sr.T, d.T, sr.T))
		k := r.cellKey(el)
		h := r.getHeap(s, k)
		row := r.fresh("row", "(Array Int "+r.S.sortOf(el)+")")
		r.fact(fmt.Sprintf("(forall ((qi Int)) (! (= (select %s qi) (ite (and (<= (s_off %s) qi) (< qi (+ (s_off %s) %s))) (select (select %s (s_arr %s)) (ix (s_off %s) (- qi (s_off %s)))) (select (select %s (s_arr %s)) qi))) :pattern ((select %s qi))))",
			row, d.T, d.T, n, h, sr.T, sr.T, d.T, h, d.T, row))
		r.setHeap(s, k, fmt.Sprintf("(store %s (s_arr %s) %s)", h, d.T, row))
		return Val{T: n, Ty: tInt}
	case "delete":
		m := arg(0)
		k := r.term(arg(1))
		kk, _ := r.mapKeys(m.Ty)
		h := r.getHeap(s, kk)
		r.setHeap(s, kk, fmt.Sprintf("(ite (= %s 0) %s (store %s %s (store (select %s %s) %s false)))", m.T, h, h, m.T, h, m.T, k))
		return Val{Ty: x.Type()}
	case "panic":
		r.safe(g, "false", "explicit panic", x.Pos())
		return Val{Ty: x.Type()}
	case "ssa:wrapnilchk":
		return arg(0)
	case "min", "max":
		a, bb := r.term(arg(0)), r.term(arg(1))
		if isF(x.Type()) {
			return Val{T: fmt.Sprintf("(f%s %s %s)", b.Name(), a, bb), Ty: x.Type()}
		}
		op := "<="
		if b.Name() == "max" {
			op = ">="
		}
		return Val{T: r.define("n", "Int", fmt.Sprintf("(ite (%s %s %s) %s %s)", op, a, bb, a, bb)), Ty: x.Type()}
	}
	unsup("builtin %s", b.Name())
	return Val{}
}

// append: in place when the capacity suffices, otherwise a fresh array
func (r *Run) appendSlice(f *Frame, x *ssa.Call, c *ssa.CallCommon, s *State, g string) Val {
	a := r.val(f, c.Args[0], s)
	if isS(c.Args[1].Type()) {
		unsup("append of string bytes")
	}
	b := r.val(f, c.Args[1], s)
	at, bt := r.term(a), r.term(b)
	el := x.Type().Underlying().(*types.Slice).Elem()
	k := r.cellKey(el)
	h := r.getHeap(s, k)
	es := r.S.sortOf(el)
	n := fmt.Sprintf("(s_len %s)", bt)
	if b.HasN {
		n = fmt.Sprint(b.N)
	}
	nl := r.define("nl", "Int", fmt.Sprintf("(+ (s_len %s) %s)", at, n))
	inpl := r.define("inpl", "Bool", fmt.Sprintf("(<= %s (s_cap %s))", nl, at))
	ref := r.newRef(s, g)
	ncap := r.fresh("ncap", "Int")
	r.fact(fmt.Sprintf("(>= %s %s)", ncap, nl))
	r.fact(fmt.Sprintf("(=> (<= %s 140737488355328) (<= %s 140737488355328))", nl, ncap))
	r.assume(g, fmt.Sprintf("(<= %s 140737488355328)", nl)) // a longer slice cannot be allocated
	res := r.define("sl", "Slice", fmt.Sprintf("(ite %s (mk_slice (s_arr %s) (s_off %s) %s (s_cap %s)) (mk_slice %s 0 %s %s))", inpl, at, at, nl, at, ref, nl, ncap))
	if b.HasN && b.N == 1 {
		// common case: one element
		v := r.define("av", es, fmt.Sprintf("(select (select %s (s_arr %s)) (ix (s_off %s) 0))", h, bt, bt))
		frow := r.fresh("row", "(Array Int "+es+")")
		r.fact(fmt.Sprintf("(forall ((qi Int)) (! (=> (and (<= 0 qi) (< qi (s_len %s))) (= (select %s qi) (select (select %s (s_arr %s)) (ix (s_off %s) qi)))) :pattern ((select %s qi))))", at, frow, h, at, at, frow))
		r.fact(fmt.Sprintf("(= (select %s (s_len %s)) %s)", frow, at, v))
		r.setHeap(s, k, fmt.Sprintf("(ite %s (store %s (s_arr %s) (store (select %s (s_arr %s)) (ix (s_off %s) (s_len %s)) %s)) (store %s %s %s))", inpl, h, at, h, at, at, at, v, h, ref, frow))
	} else {
		row := r.fresh("row", "(Array Int "+es+")")
		// in-place: cells [off+len, off+nl) take b's elements (read before writing), others unchanged
		r.fact(fmt.Sprintf("(=> %s (forall ((qi Int)) (! (= (select %s qi) (ite (and (<= (+ (s_off %s) (s_len %s)) qi) (< qi (+ (s_off %s) %s))) (select (select %s (s_arr %s)) (ix (s_off %s) (- qi (+ (s_off %s) (s_len %s))))) (select (select %s (s_arr %s)) qi))) :pattern ((select %s qi)))))",
			inpl, row, at, at, at, nl, h, bt, bt, at, at, h, at, row))
		r.fact(fmt.Sprintf("(=> (not %s) (forall ((qi Int)) (! (and (=> (and (<= 0 qi) (< qi (s_len %s))) (= (select %s qi) (select (select %s (s_arr %s)) (ix (s_off %s) qi)))) (=> (and (<= (s_len %s) qi) (< qi %s)) (= (select %s qi) (select (select %s (s_arr %s)) (ix (s_off %s) (- qi (s_len %s))))))) :pattern ((select %s qi)))))",
			inpl, at, row, h, at, at, at, nl, row, h, bt, bt, at, row))
		r.setHeap(s, k, fmt.Sprintf("(store %s (ite %s (s_arr %s) %s) %s)", h, inpl, at, ref, row))
		// append of nothing: unchanged header
		if !b.HasN {
			res = r.define("sl", "Slice", fmt.Sprintf("(ite (= %s 0) %s %s)", n, at, res))
		}
	}
	v := Val{T: res, Ty: x.Type()}
	r.wf(g, res, x.Type(), s)
	return v
}

// ---------- library ----------

var mathNames = map[string]string{"Abs": "fabs", "Sqrt": "fsqrt", "Min": "fmin", "Max": "fmax", "Sin": "fsin", "Cos": "fcos", "Tan": "ftan",
	"Acos": "facos", "Asin": "fasin", "Atan": "fatan", "Atan2": "fatan2", "Pow": "fpow", "Mod": "fmod", "Floor": "ffloor", "Ceil": "fceil", "Trunc": "ftrunc", "Log2": "flog2", "Log": "flog", "Exp": "fexp"}

// pure library functions modelled as deterministic uninterpreted functions of their arguments
var pureExt = map[string]bool{"strconv.FormatFloat": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.TrimSpace": true, "strings.Replace": true,
	"unicode.ToUpper": true, "unicode.ToLower": true, "math.Float64bits": true,
	"geohash.EncodeWithPrecision": true, "geohash.DecodeCenter": true, "geohash.BoundingBox": true,
	"s2.LatLngFromDegrees": true, "s2.CellIDFromLatLng": true, "s2.(CellID).Parent": true, "s2.(CellID).LatLng": true, "s2.(CellID).Level": true, "s1.(Angle).Degrees": true,
	"s2.LatLngFromPoint": true, "s2.PointFromLatLng": true, "s2.CellFromCellID": true}

func extKey(k string) string {
	return k
}

func (r *Run) external(f *Frame, x *ssa.Call, fn *ssa.Function, key string, args []Val, s *State, g string) Val {
	pk := ""
	if p := r.P.pkgOf(fn); p != nil {
		pk = p.Path()
	}
	name := fn.Name()
	rt := fn.Signature.Results()
	if pk == "math" && fn.Signature.Recv() == nil {
		if m, ok := mathNames[name]; ok {
			var ts []string
			for _, a := range args {
				ts = append(ts, a.T)
			}
			return Val{T: r.define("m", "F64", "("+m+" "+strings.Join(ts, " ")+")"), Ty: tFloat}
		}
		switch name {
		case "IsNaN":
			return Val{T: "(isnan " + args[0].T + ")", Ty: tBool}
		case "NaN":
			return Val{T: r.S.fconst(nanv), Ty: tFloat}
		case "IsInf":
			inf, ninf := r.S.fconst(posInf), r.S.fconst(negInf)
			return Val{T: r.define("b", "Bool", fmt.Sprintf("(or (and (>= %s 0) (= %s %s)) (and (<= %s 0) (= %s %s)))", args[1].T, args[0].T, inf, args[1].T, args[0].T, ninf)), Ty: tBool}
		case "Inf":
			return Val{T: fmt.Sprintf("(ite (>= %s 0) %s %s)", args[0].T, r.S.fconst(posInf), r.S.fconst(negInf)), Ty: tFloat}
		}
	}
	switch key {
	case "errors.New":
		return r.newError("errors.New", args[0].T)
	case "fmt.Errorf":
		return r.newError("fmt.Errorf", args[0].T)
	case "fmt.Sprintf":
		return r.sprintf(f, x, args, s, g)
	case "strings.Join":
		// deterministic function of the element values
		el := r.cellKey(tString)
		n := "strings_Join"
		r.declFun(n, []string{"(Array Int String)", "Int", "Int", "String"}, "String")
		return Val{T: r.define("s", "String", fmt.Sprintf("(%s (select %s (s_arr %s)) (s_off %s) (s_len %s) %s)", n, r.getHeap(s, el), args[0].T, args[0].T, args[0].T, args[1].T)), Ty: tString}
	case "strings.HasPrefix":
		return Val{T: fmt.Sprintf("(str.prefixof %s %s)", args[1].T, args[0].T), Ty: tBool}
	case "strings.HasSuffix":
		return Val{T: fmt.Sprintf("(str.suffixof %s %s)", args[1].T, args[0].T), Ty: tBool}
	case "strings.Contains":
		return Val{T: fmt.Sprintf("(str.contains %s %s)", args[0].T, args[1].T), Ty: tBool}
	}
	// sort.* via contracts named by the dynamic argument type
	if pk == "sort" && (name == "Sort" || name == "Stable") && args[0].Inner != nil {
		ck := "sort.Sort." + san(tname(args[0].Inner.Ty))
		if args[0].Inner.From != nil {
			ck += "." + san(tname(args[0].Inner.From.Ty))
		}
		if con := r.P.spec.Contracts[ck]; con != nil {
			in := *args[0].Inner
			if in.From != nil {
				in = *in.From
			}
			return r.extContract(x, con, []Val{in}, s, g)
		}
		unsup("sort.%s of %s", name, args[0].Inner.Ty)
	}
	if pk == "sort" && name == "Reverse" && args[0].Inner != nil {
		v := r.havocVal(x.Type(), s, g)
		in := *args[0].Inner
		v.Inner = &Val{T: v.T, Ty: types.NewNamed(types.NewTypeName(token.NoPos, nil, "Reverse", nil), types.Typ[types.Int], nil), From: &in}
		return v
	}
	// pure deterministic externs
	pure := pureExt[key] || pk == "unicode" || pk == "strconv" || pk == "strings" || strings.HasPrefix(pk, "github.com/golang/geo") || strings.HasPrefix(pk, "github.com/mmcloughlin/geohash")
	scalar := true
	for _, a := range args {
		switch a.Ty.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Signature, *types.Interface:
			scalar = false
		}
		if a.Fn != nil || a.T == "" {
			scalar = false
		}
	}
	if pure && scalar && rt.Len() > 0 {
		r.assumption("library function " + key + " is a deterministic total function of its arguments")
		var vs []Val
		for i := 0; i < rt.Len(); i++ {
			var ts, sorts []string
			for _, a := range args {
				ts = append(ts, a.T)
				sorts = append(sorts, r.S.sortOf(a.Ty))
			}
			t := rt.At(i).Type()
			sn := r.extSym(key, i)
			r.extTy[sn] = t
			r.declFun(sn, sorts, r.S.sortOf(t))
			term := sn
			if len(ts) > 0 {
				term = "(" + sn + " " + strings.Join(ts, " ") + ")"
			}
			d := r.define("x", r.S.sortOf(t), term)
			r.wf(g, d, t, s)
			vs = append(vs, Val{T: d, Ty: t})
		}
		return r.tuple(rt, vs)
	}
	if r.con == nil || r.con.Opts["extern"] == "" {
		switch {
		case pk == "time" || key == "fmt.Sprint" || key == "fmt.Sprintln" || key == "sort.Ints" || pk == "regexp" || pk == "encoding/json":
		default:
			if !pure {
				unsup("external call %s", key)
			}
		}
	}
	// anything else: unknown result, no visible effect on the module's own data
	r.assumption("library function " + key + " unmodelled: arbitrary result, no effect on caller-visible memory")
	s.alloc = r.bumpAlloc(s)
	return r.havocVal(x.Type(), s, g)
}

func (r *Run) bumpAlloc(s *State) string {
	n := r.fresh("alloc", "Int")
	r.fact(fmt.Sprintf("(<= %s %s)", s.alloc, n))
	r.noteMod("$alloc")
	return n
}

func (r *Run) extSym(key string, i int) string { return fmt.Sprintf("ext_%s_%d", san(key), i) }

// extFn: declared symbol of an external function for use in contracts; name may end in #i for result i
func (r *Run) extFn(name string, _ int, sorts []string) (types.Type, string) {
	i := 0
	if k := strings.LastIndex(name, "#"); k >= 0 {
		fmt.Sscanf(name[k+1:], "%d", &i)
		name = name[:k]
	}
	if name == "strings.Join" {
		r.declFun("strings_Join", []string{"(Array Int String)", "Int", "Int", "String"}, "String")
		return tString, "strings_Join"
	}
	sn := r.extSym(name, i)
	t, ok := r.extTy[sn]
	if !ok {
		if con := r.P.spec.Contracts[name]; con != nil && con.Opts["functional"] != "" && r.P.fns[name] != nil {
			r.P.needFunctional(r.P.fns[name])
			r.eachFn[name] = true
			r.called[name] = true
			if rs := r.P.fns[name].Signature.Results(); i < rs.Len() {
				t = rs.At(i).Type()
			}
		} else {
			t = r.P.extType(name, i)
		}
		if t == nil {
			panic(unresolved{"external function " + name})
		}
		r.extTy[sn] = t
	}
	r.declFun(sn, sorts, r.S.sortOf(t))
	return t, sn
}

// extType finds the result type of an imported function or method by key
func (p *Prog) extType(key string, i int) types.Type {
	dot := strings.Index(key, ".")
	if dot < 0 {
		return nil
	}
	pk, rest := key[:dot], key[dot+1:]
	var tp *types.Package
	seen := map[*types.Package]bool{}
	var visit func(x *types.Package)
	visit = func(x *types.Package) {
		if seen[x] || tp != nil {
			return
		}
		seen[x] = true
		if x.Name() == pk {
			tp = x
			return
		}
		for _, y := range x.Imports() {
			visit(y)
		}
	}
	for _, x := range p.pkgs {
		visit(x.Types)
	}
	if tp == nil {
		return nil
	}
	var o types.Object
	if strings.HasPrefix(rest, "(") {
		end := strings.Index(rest, ")")
		tn := strings.TrimPrefix(rest[1:end], "*")
		to := tp.Scope().Lookup(tn)
		if to == nil {
			return nil
		}
		o, _, _ = types.LookupFieldOrMethod(types.NewPointer(to.Type()), true, tp, rest[end+2:])
	} else {
		o = tp.Scope().Lookup(rest)
	}
	fo, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	rs := fo.Type().(*types.Signature).Results()
	if i >= rs.Len() {
		return nil
	}
	return rs.At(i).Type()
}

func (r *Run) newError(kind, msg string) Val {
	n := r.fresh("err", "Iface")
	r.fact(fmt.Sprintf("(and (not (= %s I_nil)) ((_ is I_other) %s))", n, n))
	return Val{T: n, Ty: types.Universe.Lookup("error").Type()}
}

func (r *Run) sprintf(f *Frame, x *ssa.Call, args []Val, s *State, g string) Val {
	c, ok := x.Call.Args[0].(*ssa.Const)
	un := func() Val {
		r.assumption("fmt.Sprintf with unmodelled format: arbitrary result")
		return Val{T: r.fresh("str", "String"), Ty: tString}
	}
	if !ok || c.Value == nil {
		return un()
	}
	fm := constant.StringVal(c.Value)
	if !args[1].HasN {
		if !strings.Contains(fm, "%") {
			return Val{T: r.S.str(fm), Ty: tString}
		}
		return un()
	}
	var parts []string
	lit := ""
	k := 0
	el := args[1].Ty.Underlying().(*types.Slice).Elem()
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			lit += string(fm[i])
			continue
		}
		i++
		if i >= len(fm) {
			return un()
		}
		switch fm[i] {
		case '%':
			lit += "%"
		case 's':
			if k >= args[1].N {
				return un()
			}
			cell := fmt.Sprintf("(select (select %s (s_arr %s)) (ix (s_off %s) %d))", r.heapOf(s, el), args[1].T, args[1].T, k)
			k++
			ctor := r.S.ifaceCtor(tString)
			v := r.fresh("str", "String")
			r.assume(g, fmt.Sprintf("(=> ((_ is %s) %s) (= %s (v_%s %s)))", ctor, cell, v, ctor[2:], cell))
			if lit != "" {
				parts = append(parts, r.S.str(lit))
				lit = ""
			}
			parts = append(parts, v)
		default:
			return un()
		}
	}
	if k != args[1].N {
		return un()
	}
	if lit != "" {
		parts = append(parts, r.S.str(lit))
	}
	switch len(parts) {
	case 0:
		return Val{T: r.S.str(""), Ty: tString}
	case 1:
		return Val{T: parts[0], Ty: tString}
	}
	return Val{T: r.define("s", "String", "(str.++ "+strings.Join(parts, " ")+")"), Ty: tString}
}

// extContract applies an assumed contract of a library call identified by name
func (r *Run) extContract(x *ssa.Call, con *Contract, args []Val, s *State, g string) Val {
	r.assumption("assumed contract of " + con.Key)
	r.called[con.Key] = true
	pre := s.clone()
	env := &Env{r: r, vars: map[string]TV{}, st: pre, old: pre, pkg: r.P.typesPkg("geo")}
	for i, n := range con.Params {
		env.vars[n] = TV{T: r.term(args[i]), Ty: args[i].Ty}
	}
	for _, c := range con.Requires {
		if clauseMode(c, r.mode) {
			r.oblige(g, env.boolT(c.Expr), "requires", con.Key+": "+c.Label, x.Pos())
		}
	}
	items := r.modItems(con, env)
	done := map[string]bool{}
	for _, it := range items {
		if done[it.key] {
			continue
		}
		done[it.key] = true
		r.getHeap(pre, it.key)
		s.heap[it.key] = r.fresh("H_"+it.key, r.heapSort[it.key])
		r.noteMod(it.key)
		r.closure2(s.heap[it.key], it.key, s.alloc)
		r.fact(r.frameTerm(it.key, pre, s, items, false))
	}
	if gh := con.Opts["ghost"]; gh != "" {
		for _, nm := range strings.Split(gh, "+") {
			sym := r.freshName("gh_" + nm)
			r.decls = append(r.decls, fmt.Sprintf("(declare-fun %s (Int) Int)", sym))
			r.ghosts[nm] = TV{T: sym, Ty: tInt}
		}
	}
	env2 := &Env{r: r, vars: env.vars, st: s, old: pre, pkg: env.pkg}
	for _, c := range con.Ensures {
		if clauseMode(c, r.mode) {
			r.assume(g, env2.boolT(c.Expr))
		}
	}
	return Val{Tup: []Val{}, Ty: x.Type()}
}

// eachAxioms states the clauses of functional contracts marked @each for all arguments
func (r *Run) eachAxioms() {
	for _, key := range sortedKeys(r.eachFn) {
		con, fn := r.P.spec.Contracts[key], r.P.fns[key]
		if key == r.key {
			continue
		}
		env := &Env{r: r, vars: map[string]TV{}, pkg: r.P.typesPkg(con.Pkg)}
		var bs, ts, sorts []string
		for i, p := range fn.Params {
			n := r.freshName("z_" + con.Params[i])
			so := r.S.sortOf(p.Type())
			env.vars[con.Params[i]] = TV{T: n, Ty: p.Type()}
			bs = append(bs, fmt.Sprintf("(%s %s)", n, so))
			ts = append(ts, n)
			sorts = append(sorts, so)
		}
		rs := fn.Signature.Results()
		pat := ""
		for i := 0; i < rs.Len(); i++ {
			sn := r.extSym(key, i)
			r.declFun(sn, sorts, r.S.sortOf(rs.At(i).Type()))
			app := "(" + sn + " " + strings.Join(ts, " ") + ")"
			env.vars[con.Results[i]] = TV{T: app, Ty: rs.At(i).Type()}
			pat += " :pattern (" + app + ")"
		}
		for _, c := range con.Ensures {
			if !c.Each || !clauseMode(c, r.mode) || r.failedClause(con, c) {
				continue
			}
			pre := []string{"true"}
			for _, q := range con.Requires {
				pre = append(pre, env.boolT(q.Expr))
			}
			r.specAx = append(r.specAx, fmt.Sprintf("(assert (forall (%s) (! (=> %s %s)%s)))", strings.Join(bs, " "), and(pre...), env.boolT(c.Expr), pat))
		}
	}
}
