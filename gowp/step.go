package main

// Instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) step(f *Frame, ins ssa.Instruction, s *State, g string) string {
	switch x := ins.(type) {
	case *ssa.Alloc:
		r.alloc(f, x, s, g)
	case *ssa.UnOp:
		f.vals[x] = r.unop(f, x, s, g)
	case *ssa.BinOp:
		f.vals[x] = r.binop(f, x, s, g)
	case *ssa.Convert:
		f.vals[x] = r.convert(f, x, s, g)
	case *ssa.ChangeType:
		v := r.val(f, x.X, s)
		if v.Fn != nil || v.Addr != nil && v.T == "" {
			v.Ty = x.Type()
			f.vals[x] = v
			break
		}
		f.vals[x] = r.changeType(v, x.Type())
	case *ssa.ChangeInterface:
		v := r.val(f, x.X, s)
		v.Ty = x.Type()
		f.vals[x] = v
	case *ssa.MakeInterface:
		v := r.val(f, x.X, s)
		iv := v
		f.vals[x] = Val{T: r.define("i", "Iface", fmt.Sprintf("(%s %s)", r.S.ifaceCtor(x.X.Type()), r.term(v))), Ty: x.Type(), Inner: &iv}
	case *ssa.TypeAssert:
		f.vals[x] = r.typeAssert(f, x, s, g)
	case *ssa.Extract:
		t := r.val(f, x.Tuple, s)
		f.vals[x] = t.Tup[x.Index]
	case *ssa.FieldAddr:
		a := r.addrOf(r.val(f, x.X, s), g, x.Pos())
		n := *a
		n.path = append(append([]int{}, a.path...), x.Field)
		n.ty = x.Type().(*types.Pointer).Elem()
		f.vals[x] = Val{Addr: &n, Ty: x.Type()}
	case *ssa.Field:
		v := r.val(f, x.X, s)
		f.vals[x] = Val{T: fmt.Sprintf("(%s %s)", r.S.field(x.X.Type(), x.Field), v.T), Ty: x.Type()}
	case *ssa.IndexAddr:
		f.vals[x] = r.indexAddr(f, x, s, g)
	case *ssa.Index:
		v := r.val(f, x.X, s)
		i := r.term(r.val(f, x.Index, s))
		if !isS(x.X.Type()) {
			unsup("index of array value")
		}
		f.vals[x] = r.strIndex(g, v.T, i, x.Type(), x.Pos())
	case *ssa.Slice:
		f.vals[x] = r.slice(f, x, s, g)
	case *ssa.MakeSlice:
		n := r.term(r.val(f, x.Len, s))
		c := r.term(r.val(f, x.Cap, s))
		r.safe(g, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s 140737488355328))", n, n, c, c), "makeslice: len/cap in range", x.Pos())
		f.vals[x] = r.makeSlice(s, g, x.Type(), n, c)
	case *ssa.MakeMap:
		ref := r.newRef(s, g)
		kk, vk := r.mapKeys(x.Type())
		_ = vk
		ks := r.S.sortOf(x.Type().Underlying().(*types.Map).Key())
		r.setHeap(s, kk, fmt.Sprintf("(store %s %s ((as const (Array %s Bool)) false))", r.getHeap(s, kk), ref, ks))
		f.vals[x] = Val{T: ref, Ty: x.Type()}
	case *ssa.MakeClosure:
		v := Val{Fn: x.Fn.(*ssa.Function), Ty: x.Type()}
		for _, b := range x.Bindings {
			v.Bind = append(v.Bind, r.val(f, b, s))
		}
		f.vals[x] = v
	case *ssa.MapUpdate:
		m := r.val(f, x.Map, s)
		k := r.term(r.val(f, x.Key, s))
		v := r.term(r.val(f, x.Value, s))
		r.safe(g, fmt.Sprintf("(not (= %s 0))", m.T), "write to nil map", x.Pos())
		r.mapKeyOK(g, k, m.Ty.Underlying().(*types.Map).Key(), x.Pos())
		kk, vk := r.mapKeys(m.Ty)
		hk, hv := r.getHeap(s, kk), r.getHeap(s, vk)
		r.setHeap(s, kk, fmt.Sprintf("(store %s %s (store (select %s %s) %s true))", hk, m.T, hk, m.T, k))
		r.setHeap(s, vk, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", hv, m.T, hv, m.T, k, v))
	case *ssa.Lookup:
		v := r.val(f, x.X, s)
		i := r.term(r.val(f, x.Index, s))
		if isS(x.X.Type()) {
			f.vals[x] = r.strIndex(g, v.T, i, x.Type(), x.Pos())
			break
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		r.mapKeyOK(g, i, x.X.Type().Underlying().(*types.Map).Key(), x.Pos())
		val := r.define("mv", r.S.sortOf(et), r.mapGet(s, x.X.Type(), v.T, i))
		r.wf(g, val, et, s)
		rv := Val{T: val, Ty: et}
		if x.CommaOk {
			ok := r.define("ok", "Bool", r.mapHas(s, x.X.Type(), v.T, i))
			f.vals[x] = Val{Tup: []Val{rv, {T: ok, Ty: tBool}}, Ty: x.Type()}
		} else {
			f.vals[x] = rv
		}
	case *ssa.Store:
		a := r.addrOf(r.val(f, x.Addr, s), g, x.Pos())
		v := r.val(f, x.Val, s)
		if v.Fn != nil && a.loc != nil && len(a.path) == 0 {
			f.fnLoc[*a.loc] = v
			return g
		}
		r.storeAddr(a, r.term(v), s)
	case *ssa.Call:
		var v Val
		v, g = r.call(f, x, x.Common(), s, g)
		f.vals[x] = v
	case *ssa.Range, *ssa.Next, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("instruction %T", ins)
	default:
		unsup("instruction %T", ins)
	}
	return g
}

func (r *Run) mapKeyOK(g, k string, t types.Type, pos token.Pos) {
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return
	}
	var cs []string
	for _, n := range sortedKeys(r.S.ifaces) {
		if !types.Comparable(r.S.ifaces[n]) {
			cs = append(cs, fmt.Sprintf("(not ((_ is %s) %s))", n, k))
		}
	}
	r.safe(g, and(cs...), "hash of unhashable type", pos)
}

func (r *Run) changeType(v Val, t types.Type) Val {
	// identical underlying types: named struct sorts differ
	if _, ok := t.Underlying().(*types.Struct); ok && r.S.sortOf(v.Ty) != r.S.sortOf(t) {
		src := r.define("c", r.S.sortOf(v.Ty), v.T)
		var fs []string
		for i := range r.S.fieldTypes(t) {
			fs = append(fs, fmt.Sprintf("(%s %s)", r.S.field(v.Ty, i), src))
		}
		return Val{T: r.S.mk(t, fs), Ty: t}
	}
	if ps, ok := v.Ty.Underlying().(*types.Pointer); ok {
		if pt, ok2 := t.Underlying().(*types.Pointer); ok2 && tname(ps.Elem()) != tname(pt.Elem()) {
			unsup("pointer conversion %s to %s", v.Ty, t)
		}
	}
	if ss, ok := v.Ty.Underlying().(*types.Slice); ok {
		if tname(ss.Elem()) != tname(t.Underlying().(*types.Slice).Elem()) {
			unsup("slice conversion")
		}
	}
	v.Ty = t
	return v
}

func (r *Run) alloc(f *Frame, x *ssa.Alloc, s *State, g string) {
	t := x.Type().(*types.Pointer).Elem()
	if at, ok := t.Underlying().(*types.Array); ok {
		ref := r.newRef(s, g)
		k := r.cellKey(at.Elem())
		h := r.getHeap(s, k)
		r.setHeap(s, k, fmt.Sprintf("(store %s %s %s)", h, ref, r.zeroRow(at.Elem())))
		f.vals[x] = Val{T: fmt.Sprintf("(mk_ptr %s 0)", ref), Ty: x.Type(), Addr: &Addr{ref: ref, idx: "0", cell: t, ty: t}}
		return
	}
	if r.P.isLocal(x) {
		k := locKey{f.path, x}
		if _, ok := t.Underlying().(*types.Signature); !ok {
			s.loc[k] = r.S.zero(t)
			r.noteLoc(k)
		}
		f.vals[x] = Val{Ty: x.Type(), Addr: &Addr{loc: &k, cell: t, ty: t}}
		return
	}
	ref := r.newRef(s, g)
	k := r.cellKey(t)
	h := r.getHeap(s, k)
	r.setHeap(s, k, fmt.Sprintf("(store %s %s (store (select %s %s) 0 %s))", h, ref, h, ref, r.S.zero(t)))
	f.vals[x] = Val{T: fmt.Sprintf("(mk_ptr %s 0)", ref), Ty: x.Type(), Addr: &Addr{ref: ref, idx: "0", cell: t, ty: t}}
}

func (r *Run) unop(f *Frame, x *ssa.UnOp, s *State, g string) Val {
	v := r.val(f, x.X, s)
	switch x.Op {
	case token.MUL:
		if v.Addr != nil && v.Addr.ref == "$global" {
			return r.globalLoad(x.X.(*ssa.Global))
		}
		a := r.addrOf(v, g, x.Pos())
		if a.loc != nil && len(a.path) == 0 {
			if fv, ok := f.fnLoc[*a.loc]; ok {
				return fv
			}
		}
		t := r.define("v", r.S.sortOf(x.Type()), r.loadAddr(a, s))
		r.wf(g, t, x.Type(), s)
		return Val{T: t, Ty: x.Type()}
	case token.NOT:
		return Val{T: not(v.T), Ty: x.Type()}
	case token.SUB:
		if isF(x.Type()) {
			return Val{T: "(fneg " + v.T + ")", Ty: x.Type()}
		}
		if isI(x.Type()) {
			return r.intRes(g, fmt.Sprintf("(- %s)", v.T), x.Type(), x.Pos())
		}
	}
	unsup("unary %s", x.Op)
	return Val{}
}

func (r *Run) intRes(g, t string, ty types.Type, pos token.Pos) Val {
	n := r.define("n", "Int", t)
	if !r.opt("mathint") {
		b := ty.Underlying().(*types.Basic)
		if b.Info()&types.IsUnsigned != 0 {
			unsup("unsigned arithmetic")
		}
		r.safe(g, r.S.wfTerm(n, ty, "0"), "integer overflow", pos)
	}
	return Val{T: n, Ty: ty}
}

func (r *Run) opt(n string) bool { return r.con != nil && r.con.Opts[n] != "" }

func (r *Run) binop(f *Frame, x *ssa.BinOp, s *State, g string) Val {
	a, b := r.val(f, x.X, s), r.val(f, x.Y, s)
	t := x.X.Type()
	B := func(q string, z ...interface{}) Val {
		return Val{T: r.define("b", "Bool", fmt.Sprintf(q, z...)), Ty: x.Type()}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var e string
		if _, ok := t.Underlying().(*types.Signature); ok {
			// comparison with nil
			v, o := a, b
			if c, isC := x.X.(*ssa.Const); isC && c.Value == nil {
				v, o = b, a
			}
			_ = o
			if v.Fn != nil {
				e = "false"
			} else {
				e = fmt.Sprintf("(= %s fn_nil)", v.T)
			}
		} else if _, ok := t.Underlying().(*types.Slice); ok {
			v := a
			if c, isC := x.X.(*ssa.Const); isC && c.Value == nil {
				v = b
			}
			e = fmt.Sprintf("(= (s_arr %s) 0)", r.term(v))
		} else {
			ta, tb := r.term(a), r.term(b)
			if _, isI := t.Underlying().(*types.Interface); isI {
				if _, isI2 := x.Y.Type().Underlying().(*types.Interface); !isI2 {
					tb = fmt.Sprintf("(%s %s)", r.S.ifaceCtor(x.Y.Type()), tb)
				}
			}
			r.cmpSafe(g, ta, tb, t, x.Pos(), 0)
			e = r.eqTerm(ta, tb, t, 0)
		}
		if x.Op == token.NEQ {
			e = not(e)
		}
		return B("%s", e)
	}
	ta, tb := r.term(a), r.term(b)
	switch {
	case isF(t):
		switch x.Op {
		case token.ADD:
			return Val{T: r.define("f", "F64", fmt.Sprintf("(fadd %s %s)", ta, tb)), Ty: x.Type()}
		case token.SUB:
			return Val{T: r.define("f", "F64", fmt.Sprintf("(fsub %s %s)", ta, tb)), Ty: x.Type()}
		case token.MUL:
			return Val{T: r.define("f", "F64", fmt.Sprintf("(fmul %s %s)", ta, tb)), Ty: x.Type()}
		case token.QUO:
			return Val{T: r.define("f", "F64", fmt.Sprintf("(fdiv %s %s)", ta, tb)), Ty: x.Type()}
		case token.LSS:
			return B("(flt %s %s)", ta, tb)
		case token.LEQ:
			return B("(fle %s %s)", ta, tb)
		case token.GTR:
			return B("(flt %s %s)", tb, ta)
		case token.GEQ:
			return B("(fle %s %s)", tb, ta)
		}
	case isI(t):
		switch x.Op {
		case token.ADD:
			return r.intRes(g, fmt.Sprintf("(+ %s %s)", ta, tb), x.Type(), x.Pos())
		case token.SUB:
			return r.intRes(g, fmt.Sprintf("(- %s %s)", ta, tb), x.Type(), x.Pos())
		case token.MUL:
			return r.intRes(g, fmt.Sprintf("(* %s %s)", ta, tb), x.Type(), x.Pos())
		case token.QUO:
			r.safe(g, fmt.Sprintf("(not (= %s 0))", tb), "division by zero", x.Pos())
			return r.intRes(g, fmt.Sprintf("(go_div %s %s)", ta, tb), x.Type(), x.Pos())
		case token.REM:
			r.safe(g, fmt.Sprintf("(not (= %s 0))", tb), "division by zero", x.Pos())
			return Val{T: r.define("n", "Int", fmt.Sprintf("(go_mod %s %s)", ta, tb)), Ty: x.Type()}
		case token.LSS:
			return B("(< %s %s)", ta, tb)
		case token.LEQ:
			return B("(<= %s %s)", ta, tb)
		case token.GTR:
			return B("(> %s %s)", ta, tb)
		case token.GEQ:
			return B("(>= %s %s)", ta, tb)
		}
		// bit operations: uninterpreted
		n := fmt.Sprintf("int_op_%s", san(tokName(x.Op)))
		r.declFun(n, []string{"Int", "Int"}, "Int")
		v := r.define("n", "Int", fmt.Sprintf("(%s %s %s)", n, ta, tb))
		r.assumption("integer operator " + x.Op.String() + " uninterpreted")
		r.wf(g, v, x.Type(), s)
		return Val{T: v, Ty: x.Type()}
	case isS(t):
		switch x.Op {
		case token.ADD:
			return Val{T: r.define("s", "String", fmt.Sprintf("(str.++ %s %s)", ta, tb)), Ty: x.Type()}
		case token.LSS:
			return B("(str.< %s %s)", ta, tb)
		case token.LEQ:
			return B("(str.<= %s %s)", ta, tb)
		case token.GTR:
			return B("(str.< %s %s)", tb, ta)
		case token.GEQ:
			return B("(str.<= %s %s)", tb, ta)
		}
	case t.Underlying() == types.Typ[types.Bool] || t.Underlying() == types.Typ[types.UntypedBool]:
		switch x.Op {
		case token.AND, token.LAND:
			return B("(and %s %s)", ta, tb)
		case token.OR, token.LOR:
			return B("(or %s %s)", ta, tb)
		}
	}
	unsup("binary %s on %s", x.Op, t)
	return Val{}
}

func tokName(t token.Token) string {
	switch t {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	return "op"
}

func (r *Run) declFun(n string, args []string, res string) {
	if _, ok := r.extDecl[n]; ok {
		return
	}
	r.extDecl[n] = res
	r.decls = append(r.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(args, " "), res))
}

func (r *Run) assumption(s string) { r.assump[s] = true }

func hasFloatOrIface(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFloatOrIface(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Interface:
		return true
	}
	return false
}

// eqTerm: Go's ==
func (r *Run) eqTerm(a, b string, t types.Type, d int) string {
	if !hasFloatOrIface(t, 0) || d > 4 {
		return fmt.Sprintf("(= %s %s)", a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return fmt.Sprintf("(feq %s %s)", a, b)
	case *types.Struct:
		var cs []string
		for i := 0; i < u.NumFields(); i++ {
			fa, fb := fmt.Sprintf("(%s %s)", r.S.field(t, i), a), fmt.Sprintf("(%s %s)", r.S.field(t, i), b)
			cs = append(cs, r.eqTerm(fa, fb, u.Field(i).Type(), d+1))
		}
		return and(cs...)
	case *types.Interface:
		if a == "I_nil" || b == "I_nil" {
			return fmt.Sprintf("(= %s %s)", a, b)
		}
		var cs []string
		var special []string
		for _, n := range sortedKeys(r.S.ifaces) {
			it := r.S.ifaces[n]
			if !types.Comparable(it) || !hasFloatOrIface(it, 0) {
				continue
			}
			special = append(special, fmt.Sprintf("((_ is %s) %s)", n, a))
			cs = append(cs, fmt.Sprintf("(and ((_ is %s) %s) ((_ is %s) %s) %s)", n, a, n, b, r.eqTerm("(v_"+n[2:]+" "+a+")", "(v_"+n[2:]+" "+b+")", it, d+1)))
		}
		if len(special) == 0 {
			return fmt.Sprintf("(= %s %s)", a, b)
		}
		return fmt.Sprintf("(ite (or %s) (or %s) (= %s %s))", strings.Join(special, " "), strings.Join(cs, " "), a, b)
	}
	return fmt.Sprintf("(= %s %s)", a, b)
}

func (r *Run) cmpSafe(g, a, b string, t types.Type, pos token.Pos, d int) {
	if d > 3 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.cmpSafe(g, fmt.Sprintf("(%s %s)", r.S.field(t, i), a), fmt.Sprintf("(%s %s)", r.S.field(t, i), b), u.Field(i).Type(), pos, d+1)
		}
	case *types.Interface:
		if a == "I_nil" || b == "I_nil" {
			return
		}
		for _, it := range r.P.implementers(t) {
			r.S.ifaceCtor(it)
		}
		var cs []string
		for _, n := range sortedKeys(r.S.ifaces) {
			if !types.Comparable(r.S.ifaces[n]) {
				cs = append(cs, fmt.Sprintf("(not (and ((_ is %s) %s) ((_ is %s) %s)))", n, a, n, b))
			}
		}
		r.safe(g, and(cs...), "comparing uncomparable type", pos)
	}
}

func (r *Run) convert(f *Frame, x *ssa.Convert, s *State, g string) Val {
	v := r.val(f, x.X, s)
	from, to := x.X.Type(), x.Type()
	t := r.term(v)
	switch {
	case isI(from) && isI(to):
		if r.S.wfTerm("x", from, "0") == r.S.wfTerm("x", to, "0") {
			return Val{T: t, Ty: to}
		}
		fk, tk := from.Underlying().(*types.Basic).Kind(), to.Underlying().(*types.Basic).Kind()
		if fk == types.Int && tk == types.Int64 || fk == types.Int64 && tk == types.Int || fk == types.Uint8 && tk != types.Int8 || fk == types.Int32 && (tk == types.Int || tk == types.Int64) {
			return Val{T: t, Ty: to}
		}
		// value kept when in range of the target
		n := r.fresh("conv", "Int")
		r.assume(g, fmt.Sprintf("(=> %s (= %s %s))", r.S.wfTerm(t, to, "0"), n, t))
		r.wf(g, n, to, s)
		return Val{T: n, Ty: to}
	case isI(from) && isF(to):
		return Val{T: "(i2f " + t + ")", Ty: to}
	case isF(from) && isI(to):
		n := r.fresh("f2i", "Int")
		r.assume(g, fmt.Sprintf("(=> %s (= %s (f2i %s)))", r.f2iRange(t, to), n, t))
		r.wf(g, n, to, s)
		return Val{T: n, Ty: to}
	case isF(from) && isF(to):
		if from.Underlying() == to.Underlying() {
			return Val{T: t, Ty: to}
		}
	case isS(from) && isS(to):
		return Val{T: t, Ty: to}
	}
	// []byte(string), string([]byte)
	n := "conv_" + san(tname(from)) + "_" + san(tname(to))
	if sl, ok := to.Underlying().(*types.Slice); ok {
		_ = sl
		ln := r.fresh("n", "Int")
		r.assume(g, fmt.Sprintf("(and (<= 0 %s) (<= %s 140737488355328))", ln, ln))
		res := r.makeSlice(s, g, to, ln, ln)
		k := r.cellKey(sl.Elem())
		h := r.getHeap(s, k)
		row := r.fresh("row", "(Array Int "+r.S.sortOf(sl.Elem())+")")
		r.setHeap(s, k, fmt.Sprintf("(store %s (s_arr %s) %s)", h, res.T, row))
		r.assumption("conversion " + n + " unmodelled")
		return res
	}
	if isS(to) {
		r.assumption("conversion " + n + " unmodelled")
		return Val{T: r.fresh("str", "String"), Ty: to}
	}
	unsup("conversion %s to %s", from, to)
	return Val{}
}

func (r *Run) f2iRange(t string, to types.Type) string {
	switch r.mode {
	case REAL:
		return "(and (< (- 9223372036854775809.0) " + t + ") (< " + t + " 9223372036854775808.0))"
	}
	lo, hi := r.S.fconst(-9223372036854775808.0), r.S.fconst(9223372036854775808.0)
	return fmt.Sprintf("(and (fle %s %s) (flt %s %s))", lo, t, t, hi)
}

func (r *Run) typeAssert(f *Frame, x *ssa.TypeAssert, s *State, g string) Val {
	v := r.val(f, x.X, s)
	t := x.AssertedType
	var ok, val string
	var inner *Val
	if _, isI := t.Underlying().(*types.Interface); isI {
		if types.Implements(x.X.Type(), t.Underlying().(*types.Interface)) || t.Underlying().(*types.Interface).NumMethods() == 0 {
			ok = fmt.Sprintf("(not (= %s I_nil))", v.T)
		} else {
			n := "impl_" + san(tname(t))
			r.declFun(n, []string{"Iface"}, "Bool")
			ok = fmt.Sprintf("(and (not (= %s I_nil)) (%s %s))", v.T, n, v.T)
		}
		val = v.T
		inner = v.Inner
	} else {
		c := r.S.ifaceCtor(t)
		ok = fmt.Sprintf("((_ is %s) %s)", c, v.T)
		val = fmt.Sprintf("(v_%s %s)", c[2:], v.T)
	}
	ok = r.define("ok", "Bool", ok)
	if x.CommaOk {
		w := r.define("ta", r.S.sortOf(t), fmt.Sprintf("(ite %s %s %s)", ok, val, r.S.zero(t)))
		r.wf(g, w, t, s)
		return Val{Tup: []Val{{T: w, Ty: t, Inner: inner}, {T: ok, Ty: tBool}}, Ty: x.Type()}
	}
	r.safe(g, ok, "type assertion to "+tname(t), x.Pos())
	w := r.define("ta", r.S.sortOf(t), val)
	r.wf(g, w, t, s)
	return Val{T: w, Ty: t, Inner: inner}
}

func (r *Run) indexAddr(f *Frame, x *ssa.IndexAddr, s *State, g string) Val {
	v := r.val(f, x.X, s)
	i := r.term(r.val(f, x.Index, s))
	el := x.Type().(*types.Pointer).Elem()
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := p.Elem().Underlying().(*types.Array)
		a := r.addrOf(v, g, x.Pos())
		if a.loc != nil || len(a.path) > 0 {
			unsup("array inside a local or field")
		}
		r.safe(g, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, at.Len()), "array index in range", x.Pos())
		idx := i
		if a.idx != "0" {
			idx = fmt.Sprintf("(ix %s %s)", a.idx, i)
		}
		return Val{Addr: &Addr{ref: a.ref, idx: idx, cell: el, ty: el}, Ty: x.Type()}
	}
	r.safe(g, fmt.Sprintf("(and (<= 0 %s) (< %s (s_len %s)))", i, i, v.T), "index in range", x.Pos())
	return Val{Addr: &Addr{ref: "(s_arr " + v.T + ")", idx: fmt.Sprintf("(ix (s_off %s) %s)", v.T, i), cell: el, ty: el}, Ty: x.Type()}
}

func (r *Run) strIndex(g, str, i string, t types.Type, pos token.Pos) Val {
	r.safe(g, fmt.Sprintf("(and (<= 0 %s) (< %s (str.len %s)))", i, i, str), "string index in range", pos)
	n := r.define("ch", "Int", fmt.Sprintf("(str.to_code (str.at %s %s))", str, i))
	r.assume(g, r.S.wfTerm(n, t, "0"))
	return Val{T: n, Ty: t}
}

func (r *Run) slice(f *Frame, x *ssa.Slice, s *State, g string) Val {
	v := r.val(f, x.X, s)
	get := func(y ssa.Value, d string) string {
		if y == nil {
			return d
		}
		return r.term(r.val(f, y, s))
	}
	if isS(x.X.Type()) {
		lo := get(x.Low, "0")
		hi := get(x.High, "(str.len "+v.T+")")
		r.safe(g, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (str.len %s)))", lo, lo, hi, hi, v.T), "string slice in range", x.Pos())
		return Val{T: r.define("s", "String", fmt.Sprintf("(str.substr %s %s (- %s %s))", v.T, lo, hi, lo)), Ty: x.Type()}
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at, ok := p.Elem().Underlying().(*types.Array)
		if !ok {
			unsup("slice of %s", x.X.Type())
		}
		a := r.addrOf(v, g, x.Pos())
		lo, hi := get(x.Low, "0"), get(x.High, fmt.Sprint(at.Len()))
		if x.Low != nil || x.High != nil || x.Max != nil {
			r.safe(g, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %d))", lo, lo, hi, hi, at.Len()), "array slice in range", x.Pos())
		}
		cp := fmt.Sprintf("(- %d %s)", at.Len(), lo)
		if x.Low == nil {
			cp = fmt.Sprint(at.Len())
		}
		res := Val{T: r.define("sl", "Slice", fmt.Sprintf("(mk_slice %s %s (- %s %s) %s)", a.ref, lo, hi, lo, cp)), Ty: x.Type()}
		if x.Low == nil && x.High == nil {
			res.N, res.HasN = int(at.Len()), true
			res.T = r.define("sl", "Slice", fmt.Sprintf("(mk_slice %s 0 %d %d)", a.ref, at.Len(), at.Len()))
		}
		return res
	}
	t := r.term(v)
	if x.Low == nil && x.High == nil && x.Max == nil {
		v.Ty = x.Type()
		return v
	}
	lo := get(x.Low, "0")
	hi := get(x.High, "(s_len "+t+")")
	mx := get(x.Max, "(s_cap "+t+")")
	if lo == "0" {
		r.safe(g, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (s_cap %s)))", hi, hi, mx, mx, t), "slice bounds in range", x.Pos())
	} else {
		r.safe(g, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s (s_cap %s)))", lo, lo, hi, hi, mx, mx, t), "slice bounds in range", x.Pos())
	}
	off := fmt.Sprintf("(s_off %s)", t)
	ln, cp := hi, mx
	if lo != "0" {
		off = fmt.Sprintf("(ixs (s_off %s) %s)", t, lo)
		ln, cp = fmt.Sprintf("(- %s %s)", hi, lo), fmt.Sprintf("(- %s %s)", mx, lo)
	}
	return Val{T: r.define("sl", "Slice", fmt.Sprintf("(mk_slice (s_arr %s) %s %s %s)", t, off, ln, cp)), Ty: x.Type()}
}

func (r *Run) makeSlice(s *State, g string, t types.Type, n, c string) Val {
	el := t.Underlying().(*types.Slice).Elem()
	ref := r.newRef(s, g)
	k := r.cellKey(el)
	h := r.getHeap(s, k)
	r.setHeap(s, k, fmt.Sprintf("(store %s %s %s)", h, ref, r.zeroRow(el)))
	v := Val{T: r.define("sl", "Slice", fmt.Sprintf("(mk_slice %s 0 %s %s)", ref, n, c)), Ty: t}
	r.wf(g, v.T, t, s)
	return v
}

// ---------- globals ----------

func (r *Run) globalLoad(gl *ssa.Global) Val {
	obj := gl.Object()
	if obj == nil {
		unsup("global %s", gl.Name())
	}
	return r.globalVal(obj.(*types.Var))
}

// globalVal: value of a package variable that is never written after initialisation
func (r *Run) globalVal(o *types.Var) Val {
	pk := r.P.ssa.Package(o.Pkg())
	t := o.Type()
	key := "g_" + san(o.Pkg().Name()+"."+o.Name())
	if v, ok := r.globals[key]; ok {
		return v
	}
	ours := r.P.ours[o.Pkg()]
	var gl *ssa.Global
	if pk != nil {
		gl, _ = pk.Members[o.Name()].(*ssa.Global)
	}
	decl := func() Val {
		n := key
		r.decls = append(r.decls, fmt.Sprintf("(declare-const %s %s)", n, r.S.sortOf(t)))
		v := Val{T: n, Ty: t}
		r.globals[key] = v
		return v
	}
	if !ours {
		r.assumption("external variable " + o.Pkg().Name() + "." + o.Name() + " unconstrained")
		v := decl()
		return v
	}
	if gl == nil || r.P.assigned[gl] >= 2 {
		unsup("package variable %s is modified outside its declaration", o.Name())
	}
	if r.P.assigned[gl] == 0 {
		v := Val{T: r.S.zero(t), Ty: t}
		r.globals[key] = v
		return v
	}
	// initialiser
	var init ssa.Value
	ifn := pk.Func("init")
	for _, b := range ifn.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == gl {
				init = st.Val
			}
		}
	}
	if c, ok := init.(*ssa.Const); ok {
		v := r.val(nil, c, nil)
		r.globals[key] = v
		return v
	}
	if isF(t) {
		if tm := r.initTerm(init, 0); tm != "" {
			v := Val{T: r.define("gi", r.S.sortOf(t), tm), Ty: t}
			r.globals[key] = v
			return v
		}
	}
	if sl, ok := init.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
			at := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
			v := decl()
			el := at.Elem()
			h := r.getHeap(r.baseState0(), r.cellKey(el))
			r.decls = append(r.decls, fmt.Sprintf("(assert (and (= %s (mk_slice (s_arr %s) 0 %d %d)) (< 0 (s_arr %s)) (< (s_arr %s) alloc0)))", v.T, v.T, at.Len(), at.Len(), v.T, v.T))
			// element field stores
			for _, ref := range *al.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i := ia.Index.(*ssa.Const).Int64()
				cell := fmt.Sprintf("(select (select %s (s_arr %s)) (ix 0 %d))", h, v.T, i)
				r.initCell(cell, el, ia)
			}
			r.globalRows = append(r.globalRows, v.T)
			r.assumption("contents of package variable " + o.Name() + " are as initialised (never written: checked that no instruction of the module takes its address or assigns it; element writes through it are not tracked)")
			return v
		}
	}
	if _, ok := t.Underlying().(*types.Basic); ok {
		r.assumption("value of package variable " + o.Name() + " unconstrained")
		return decl()
	}
	unsup("initialiser of package variable %s", o.Name())
	return Val{}
}

// initCell: facts about a cell from the stores of an initialiser through its address
func (r *Run) initCell(cell string, el types.Type, addr ssa.Value) {
	for _, rr := range *addr.Referrers() {
		switch y := rr.(type) {
		case *ssa.FieldAddr:
			for _, s3 := range *y.Referrers() {
				if st, ok := s3.(*ssa.Store); ok && st.Addr == y {
					if c, ok := st.Val.(*ssa.Const); ok {
						r.decls = append(r.decls, fmt.Sprintf("(assert (= (%s %s) %s))", r.S.field(el, y.Field), cell, r.S.constTerm(c.Value, c.Type())))
					}
				}
			}
		case *ssa.Store:
			if y.Addr != addr {
				continue
			}
			if c, ok := y.Val.(*ssa.Const); ok && c.Value != nil {
				r.decls = append(r.decls, fmt.Sprintf("(assert (= %s %s))", cell, r.S.constTerm(c.Value, c.Type())))
			}
			if u, ok := y.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if al, ok := u.X.(*ssa.Alloc); ok && !al.Heap {
					r.initCell(cell, el, al)
				}
			}
		}
	}
}

// initTerm: the float value of an initialiser made of constants, other variables of that kind, arithmetic and sqrt
func (r *Run) initTerm(v ssa.Value, d int) string {
	if d > 40 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && isF(x.Type()) {
			return r.S.constTerm(x.Value, x.Type())
		}
	case *ssa.BinOp:
		op := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[x.Op]
		a, b := r.initTerm(x.X, d+1), r.initTerm(x.Y, d+1)
		if op != "" && a != "" && b != "" && isF(x.Type()) {
			return fmt.Sprintf("(%s %s %s)", op, a, b)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isF(x.Type()) && g.Object() != nil && r.P.ours[g.Pkg.Pkg] {
			return r.globalVal(g.Object().(*types.Var)).T
		}
		if a := r.initTerm(x.X, d+1); x.Op == token.SUB && a != "" {
			return "(fneg " + a + ")"
		}
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil && f.String() == "math.Sqrt" && len(x.Common().Args) == 1 {
			if a := r.initTerm(x.Common().Args[0], d+1); a != "" {
				return "(fsqrt " + a + ")"
			}
		}
	}
	return ""
}

func (r *Run) baseState0() *State {
	return &State{heap: map[string]string{}, loc: map[locKey]string{}, alloc: "alloc0"}
}

// zeroRow is a row of zero values. cvc5 wants constant arrays of literals only, so rows of uninterpreted
// floats are axiomatised.
func (r *Run) zeroRow(el types.Type) string {
	so, z := r.S.sortOf(el), r.S.zero(el)
	if r.mode != IEEE {
		return fmt.Sprintf("((as const (Array Int %s)) %s)", so, z)
	}
	n := "zrow_" + san(so)
	if !r.wfSeen[n] {
		r.wfSeen[n] = true
		r.decls = append(r.decls, fmt.Sprintf("(declare-const %s (Array Int %s))", n, so),
			fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))", n, z, n))
	}
	return n
}
