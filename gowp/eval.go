package main

// Typed evaluation of contract expressions to SMT terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

type TV struct {
	T  string
	Ty types.Type
	// untyped constant
	C constant.Value
}

type Env struct {
	r      *Run
	vars   map[string]TV
	parent *Env
	st     *State
	old    *State
	pkg    *types.Package
	lookup func(name string) (TV, bool)
	depth  int
	// the values of the parameters on entry, used inside old(...)
	params map[string]TV
}

func (e *Env) child() *Env {
	n := *e
	n.vars = map[string]TV{}
	n.parent = e
	return &n
}

func (e *Env) get(name string) (TV, bool) {
	for x := e; x != nil; x = x.parent {
		if v, ok := x.vars[name]; ok {
			return v, true
		}
	}
	return TV{}, false
}

type unresolved struct{ name string }

func (e *Env) typ(t *TypeX) types.Type {
	switch t.Kind {
	case "ptr":
		return types.NewPointer(e.typ(t.Elem))
	case "slice":
		return types.NewSlice(e.typ(t.Elem))
	case "array":
		return &arrType{e.typ(t.Elem)}
	case "map":
		return types.NewMap(e.typ(t.Key), e.typ(t.Elem))
	case "iface":
		return tAny
	}
	if t.Pkg == "" {
		switch t.Name {
		case "int":
			return tInt
		case "bool":
			return tBool
		case "float", "float64":
			return tFloat
		case "string":
			return tString
		case "any":
			return tAny
		case "uint64":
			return types.Typ[types.Uint64]
		case "byte", "uint8":
			return types.Typ[types.Uint8]
		case "uint":
			return types.Typ[types.Uint]
		case "error":
			return types.Universe.Lookup("error").Type()
		case "fn":
			return types.NewSignatureType(nil, nil, nil, nil, nil, false)
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(t.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		t = &TypeX{Kind: "name", Pkg: "geo", Name: t.Name}
	}
	if p := e.r.P.typesPkg(t.Pkg); p != nil {
		if o := p.Scope().Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	panic(unresolved{t.String()})
}

func isF(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isI(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isS(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Env) coerce(v TV, t types.Type) TV {
	if v.C == nil {
		if b, ok := v.Ty.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return TV{T: e.r.S.zero(t), Ty: t}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			if _, ok2 := v.Ty.Underlying().(*types.Interface); !ok2 {
				return TV{T: fmt.Sprintf("(%s %s)", e.r.S.ifaceCtor(v.Ty), v.T), Ty: t}
			}
		}
		return v
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return TV{T: e.r.S.constTerm(v.C, t), Ty: t}
}

func (e *Env) def(v TV) TV {
	if v.C == nil {
		return v
	}
	switch v.C.Kind() {
	case constant.Float:
		return e.coerce(v, tFloat)
	case constant.String:
		return e.coerce(v, tString)
	case constant.Bool:
		return e.coerce(v, tBool)
	}
	if v.Ty != nil && isF(v.Ty) {
		return e.coerce(v, tFloat)
	}
	return e.coerce(v, tInt)
}

func (e *Env) boolT(x Expr) string {
	v := e.def(e.eval(x))
	return v.T
}
func (e *Env) intT(x Expr) string   { return e.coerce(e.eval(x), tInt).T }
func (e *Env) floatT(x Expr) string { return e.coerce(e.eval(x), tFloat).T }

func (e *Env) evalD(x Expr) TV { return e.def(e.eval(x)) }

func fieldIndex(t types.Type, name string) ([]int, types.Type, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type(), true
		}
	}
	return nil, nil, false
}

func (e *Env) load(p string, t types.Type) string {
	return fmt.Sprintf("(select (select %s (p_ref %s)) (p_idx %s))", e.r.heapOf(e.st, t), p, p)
}

func (e *Env) deref(v TV) TV {
	if p, ok := v.Ty.Underlying().(*types.Pointer); ok {
		return TV{T: e.load(v.T, p.Elem()), Ty: p.Elem()}
	}
	return v
}

func mathFn(n string) (string, int) {
	switch n {
	case "abs":
		return "fabs", 1
	case "sqrt":
		return "fsqrt", 1
	case "min":
		return "fmin", 2
	case "max":
		return "fmax", 2
	case "sin", "cos", "tan", "acos", "asin", "atan", "floor", "ceil", "trunc", "log2", "log", "exp":
		return "f" + n, 1
	case "atan2", "pow", "mod":
		return "f" + n, 2
	}
	return "", 0
}

func (e *Env) eval(x Expr) TV {
	r := e.r
	switch x := x.(type) {
	case *ENum:
		if strings.ContainsAny(x.Lit, ".eE") {
			c := constant.MakeFromLiteral(x.Lit, token.FLOAT, 0)
			return TV{C: constant.ToFloat(c), Ty: types.Typ[types.UntypedFloat]}
		}
		return TV{C: constant.MakeFromLiteral(x.Lit, token.INT, 0), Ty: types.Typ[types.UntypedInt]}
	case *EStr:
		return TV{C: constant.MakeString(x.Val), Ty: types.Typ[types.UntypedString]}
	case *EBool:
		return TV{T: fmt.Sprint(x.V), Ty: tBool}
	case *ENil:
		return TV{T: "I_nil", Ty: types.Typ[types.UntypedNil]}
	case *EIdent:
		if v, ok := e.get(x.Name); ok {
			return v
		}
		if e.lookup != nil {
			if v, ok := e.lookup(x.Name); ok {
				return v
			}
		}
		if sf := r.specFn(x.Name); sf != nil && len(sf.Params) == 0 {
			return e.eval(&ECall{Fn: x.Name})
		}
		pk := e.pkg
		for k := 0; k < 2; k++ {
			if pk != nil {
				if o := pk.Scope().Lookup(x.Name); o != nil {
					switch o := o.(type) {
					case *types.Const:
						if b, ok := o.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
							return TV{C: o.Val(), Ty: o.Type()}
						}
						return TV{T: r.S.constTerm(o.Val(), o.Type()), Ty: o.Type()}
					case *types.Var:
						v := r.globalVal(o)
						return TV{T: v.T, Ty: o.Type()}
					}
				}
			}
			pk = r.P.typesPkg("geo")
		}
		panic(unresolved{x.Name})
	case *EUn:
		switch x.Op {
		case "!":
			return TV{T: "(not " + e.boolT(x.X) + ")", Ty: tBool}
		case "-":
			v := e.eval(x.X)
			if v.C != nil {
				return TV{C: constant.UnaryOp(token.SUB, v.C, 0), Ty: v.Ty}
			}
			if isF(v.Ty) {
				return TV{T: "(fneg " + v.T + ")", Ty: v.Ty}
			}
			return TV{T: "(- " + v.T + ")", Ty: v.Ty}
		case "*":
			return e.deref(e.eval(x.X))
		}
	case *ECond:
		c := e.boolT(x.C)
		a, b := e.unify(e.eval(x.A), e.eval(x.B))
		return TV{T: fmt.Sprintf("(ite %s %s %s)", c, a.T, b.T), Ty: a.Ty}
	case *ELet:
		n := e.child()
		n.vars[x.Name] = e.def(e.eval(x.V))
		return n.eval(x.Body)
	case *EQuant:
		n := e.child()
		var bs []string
		for _, p := range x.Vars {
			t := e.typ(p.Ty)
			nm := r.freshName("q_" + p.Name)
			n.vars[p.Name] = TV{T: nm, Ty: t}
			bs = append(bs, fmt.Sprintf("(%s %s)", nm, r.S.sortOf(t)))
		}
		body := n.boolT(x.Body)
		pats := ""
		for _, g := range x.Trig {
			var ts []string
			for _, t := range g {
				tv := n.evalD(t)
				ts = append(ts, tv.T)
				if tv.Ty != nil {
					r.patSort[tv.T] = r.S.sortOf(tv.Ty)
				}
			}
			pats += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		if pats != "" {
			body = "(! " + body + pats + ")"
		}
		q := "forall"
		if !x.All {
			q = "exists"
		}
		return TV{T: fmt.Sprintf("(%s (%s) %s)", q, strings.Join(bs, " "), body), Ty: tBool}
	case *ESel:
		// package-qualified constant?
		if id, ok := x.X.(*EIdent); ok {
			if _, bound := e.get(id.Name); !bound {
				okL := false
				if e.lookup != nil {
					_, okL = e.lookup(id.Name)
				}
				if !okL {
					if p := r.P.typesPkg(id.Name); p != nil {
						n := *e
						n.pkg = p
						n.vars = nil
						n.parent = nil
						n.lookup = nil
						return n.eval(&EIdent{x.Name})
					}
				}
			}
		}
		v := e.deref(e.eval(x.X))
		idx, ft, ok := fieldIndex(v.Ty, x.Name)
		if !ok {
			panic(unresolved{"field " + x.Name + " of " + v.Ty.String()})
		}
		return TV{T: fmt.Sprintf("(%s %s)", r.S.field(v.Ty, idx[0]), v.T), Ty: ft}
	case *EIdx:
		v := e.eval(x.X)
		if p, ok := v.Ty.Underlying().(*types.Pointer); ok {
			if _, isSl := p.Elem().Underlying().(*types.Slice); isSl {
				v = e.deref(v)
			}
		}
		switch u := v.Ty.Underlying().(type) {
		case *types.Slice:
			i := e.intT(x.I)
			return TV{T: fmt.Sprintf("(select (select %s (s_arr %s)) (ix (s_off %s) %s))", r.heapOf(e.st, u.Elem()), v.T, v.T, i), Ty: u.Elem()}
		case *arrType:
			i := e.intT(x.I)
			return TV{T: fmt.Sprintf("(select %s %s)", v.T, i), Ty: u.Elem}
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return TV{T: fmt.Sprintf("(str.to_code (str.at %s %s))", e.def(v).T, e.intT(x.I)), Ty: tInt}
			}
		case *types.Map:
			k := e.coerce(e.eval(x.I), u.Key())
			return TV{T: r.mapGet(e.st, v.Ty, v.T, k.T), Ty: u.Elem()}
		}
		panic(unresolved{"index of " + v.Ty.String()})
	case *EBin:
		return e.bin(x)
	case *ECall:
		return e.call(x)
	}
	panic(unresolved{fmt.Sprintf("expr %T", x)})
}

func (e *Env) unify(a, b TV) (TV, TV) {
	nilT := func(v TV) bool {
		bt, ok := v.Ty.(*types.Basic)
		return v.C == nil && ok && bt.Kind() == types.UntypedNil
	}
	switch {
	case a.C != nil && b.C != nil:
		if a.C.Kind() == constant.Float || b.C.Kind() == constant.Float {
			return e.coerce(a, tFloat), e.coerce(b, tFloat)
		}
		return e.def(a), e.def(b)
	case a.C != nil:
		return e.coerce(a, b.Ty), b
	case b.C != nil:
		return a, e.coerce(b, a.Ty)
	case nilT(a) && !nilT(b):
		return e.coerce(a, b.Ty), b
	case nilT(b) && !nilT(a):
		return a, e.coerce(b, a.Ty)
	}
	_, ia := a.Ty.Underlying().(*types.Interface)
	_, ib := b.Ty.Underlying().(*types.Interface)
	if ia && !ib {
		return a, e.coerce(b, a.Ty)
	}
	if ib && !ia {
		return e.coerce(a, b.Ty), b
	}
	return a, b
}

func (e *Env) bin(x *EBin) TV {
	B := func(f string, a ...interface{}) TV { return TV{T: fmt.Sprintf(f, a...), Ty: tBool} }
	switch x.Op {
	case "&&":
		return B("(and %s %s)", e.boolT(x.X), e.boolT(x.Y))
	case "||":
		return B("(or %s %s)", e.boolT(x.X), e.boolT(x.Y))
	case "==>":
		return B("(=> %s %s)", e.boolT(x.X), e.boolT(x.Y))
	case "<==>":
		return B("(= %s %s)", e.boolT(x.X), e.boolT(x.Y))
	}
	a0, b0 := e.eval(x.X), e.eval(x.Y)
	if a0.C != nil && b0.C != nil {
		var op token.Token
		switch x.Op {
		case "+":
			op = token.ADD
		case "-":
			op = token.SUB
		case "*":
			op = token.MUL
		case "/":
			op = token.QUO
		}
		if op != 0 {
			return TV{C: constant.BinaryOp(a0.C, op, b0.C), Ty: a0.Ty}
		}
	}
	a, b := e.unify(a0, b0)
	f := isF(a.Ty)
	ar := func(fo, io string) TV {
		if f {
			return TV{T: fmt.Sprintf("(%s %s %s)", fo, a.T, b.T), Ty: a.Ty}
		}
		return TV{T: fmt.Sprintf("(%s %s %s)", io, a.T, b.T), Ty: a.Ty}
	}
	switch x.Op {
	case "==", "===":
		if f && x.Op == "==" {
			return B("(feq %s %s)", a.T, b.T)
		}
		return B("(= %s %s)", a.T, b.T)
	case "!=", "!==":
		if f && x.Op == "!=" {
			return B("(not (feq %s %s))", a.T, b.T)
		}
		return B("(not (= %s %s))", a.T, b.T)
	case "<":
		v := ar("flt", "<")
		v.Ty = tBool
		return v
	case "<=":
		v := ar("fle", "<=")
		v.Ty = tBool
		return v
	case ">":
		a, b = b, a
		v := ar("flt", "<")
		v.Ty = tBool
		return v
	case ">=":
		a, b = b, a
		v := ar("fle", "<=")
		v.Ty = tBool
		return v
	case "+":
		if isS(a.Ty) {
			return TV{T: fmt.Sprintf("(str.++ %s %s)", a.T, b.T), Ty: a.Ty}
		}
		return ar("fadd", "+")
	case "-":
		return ar("fsub", "-")
	case "*":
		return ar("fmul", "*")
	case "/":
		return ar("fdiv", "go_div")
	case "%":
		return ar("fmod_", "go_mod")
	}
	panic(unresolved{"op " + x.Op})
}

func (e *Env) call(x *ECall) TV {
	r := e.r
	S := r.S
	B := func(f string, a ...interface{}) TV { return TV{T: fmt.Sprintf(f, a...), Ty: tBool} }
	I := func(f string, a ...interface{}) TV { return TV{T: fmt.Sprintf(f, a...), Ty: tInt} }
	slice := func(a Expr) TV {
		v := e.eval(a)
		if p, ok := v.Ty.Underlying().(*types.Pointer); ok {
			if _, isSl := p.Elem().Underlying().(*types.Slice); isSl {
				v = e.deref(v)
			}
		}
		return v
	}
	if _, ok := e.get(x.Fn); ok && len(x.Args) > 0 {
		// application of a function value
		f := e.evalD(&EIdent{x.Fn})
		var args []TV
		for _, a := range x.Args {
			args = append(args, e.evalD(a))
		}
		sig, ok := f.Ty.Underlying().(*types.Signature)
		if !ok {
			panic(unresolved{"call of " + x.Fn})
		}
		return TV{T: r.applyTerm(f.T, sig, args), Ty: sig.Results().At(0).Type()}
	}
	switch x.Fn {
	case "len", "cap", "off":
		v := slice(x.Args[0])
		if isS(v.Ty) {
			v = e.def(v)
			return I("(str.len %s)", v.T)
		}
		return I("(s_%s %s)", x.Fn, v.T)
	case "ref":
		v := slice(x.Args[0])
		if _, ok := v.Ty.Underlying().(*types.Slice); ok {
			return I("(s_arr %s)", v.T)
		}
		if _, ok := v.Ty.Underlying().(*types.Map); ok {
			return v
		}
		return I("(p_ref %s)", v.T)
	case "pidx":
		v := e.eval(x.Args[0])
		return I("(p_idx %s)", v.T)
	case "arr":
		v := slice(x.Args[0])
		u := v.Ty.Underlying().(*types.Slice)
		return TV{T: fmt.Sprintf("(select %s (s_arr %s))", r.heapOf(e.st, u.Elem()), v.T), Ty: &arrType{u.Elem()}}
	case "mem": // the whole memory of elements of a type, by storage
		t := e.typ(x.Ty)
		return TV{T: r.heapOf(e.st, t), Ty: &arrType{&arrType{t}}}
	case "row": // row(m, s): the storage of slice s in memory m
		m := e.eval(x.Args[0])
		v := slice(x.Args[1])
		u, ok := m.Ty.Underlying().(*arrType)
		if !ok {
			panic(unresolved{"row"})
		}
		return TV{T: fmt.Sprintf("(select %s (s_arr %s))", m.T, v.T), Ty: u.Elem}
	case "idx": // idx(m, s, i): element i of slice s in memory m
		m := e.eval(x.Args[0])
		v := slice(x.Args[1])
		u, ok := m.Ty.Underlying().(*arrType)
		if !ok {
			panic(unresolved{"idx"})
		}
		return TV{T: fmt.Sprintf("(select (select %s (s_arr %s)) (ix (s_off %s) %s))", m.T, v.T, v.T, e.intT(x.Args[2])), Ty: u.Elem.Underlying().(*arrType).Elem}
	case "cell": // cell(m, p): what pointer p points to in memory m
		m := e.eval(x.Args[0])
		p := e.eval(x.Args[1])
		u, ok := m.Ty.Underlying().(*arrType)
		if _, isP := p.Ty.Underlying().(*types.Pointer); !ok || !isP {
			panic(unresolved{"cell"})
		}
		u2, ok := u.Elem.Underlying().(*arrType)
		if !ok {
			panic(unresolved{"cell"})
		}
		return TV{T: fmt.Sprintf("(select (select %s (p_ref %s)) (p_idx %s))", m.T, p.T, p.T), Ty: u2.Elem}
	case "at":
		v := e.eval(x.Args[0])
		u := v.Ty.Underlying().(*arrType)
		return TV{T: fmt.Sprintf("(select %s (ix %s %s))", v.T, e.intT(x.Args[1]), e.intT(x.Args[2])), Ty: u.Elem}
	case "ix":
		return I("(ix %s %s)", e.intT(x.Args[0]), e.intT(x.Args[1]))
	case "old":
		n := *e
		if e.old == nil {
			panic(unresolved{"old without old state"})
		}
		n.st = e.old
		if e.params != nil && e.lookup != nil {
			lk := e.lookup
			n.lookup = func(name string) (TV, bool) {
				if v, ok := e.params[name]; ok {
					return v, true
				}
				return lk(name)
			}
		}
		return n.eval(x.Args[0])
	case "fresh":
		v := e.evalD(x.Args[0])
		rf := ""
		switch v.Ty.Underlying().(type) {
		case *types.Slice:
			return B("(or (= (s_cap %s) 0) (<= %s (s_arr %s)))", v.T, e.old.alloc, v.T)
		case *types.Map:
			rf = v.T
		default:
			rf = "(p_ref " + v.T + ")"
		}
		return B("(<= %s %s)", e.old.alloc, rf)
	case "freshslice":
		v := slice(x.Args[0])
		return B("(<= %s (s_arr %s))", e.old.alloc, v.T)
	case "freshcells":
		// all backing storage (also capacity) fresh
		v := slice(x.Args[0])
		return B("(or (= (s_cap %s) 0) (<= %s (s_arr %s)))", v.T, e.old.alloc, v.T)
	case "allocated":
		v := slice(x.Args[0])
		return TV{T: "(and true " + S.wfTerm(v.T, v.Ty, e.st.alloc) + ")", Ty: tBool}
	case "is":
		v := e.evalD(x.Args[0])
		if _, ok := v.Ty.Underlying().(*types.Interface); !ok {
			panic(unresolved{"is of a value that is not an interface"})
		}
		return B("((_ is %s) %s)", S.ifaceCtor(e.typ(x.Ty)), v.T)
	case "jsontag":
		// jsontag("Field", T): the json tag declared for a field of struct T ("" without one)
		n, isStr := x.Args[0].(*EStr)
		st, isSt := e.typ(x.Ty).Underlying().(*types.Struct)
		if !isStr || !isSt {
			panic(unresolved{"jsontag needs a field name and a struct type"})
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.Val {
				return TV{T: S.str(reflect.StructTag(st.Tag(i)).Get("json")), Ty: tString}
			}
		}
		panic(unresolved{"no field " + n.Val})
	case "as":
		v := e.evalD(x.Args[0])
		if _, ok := v.Ty.Underlying().(*types.Interface); !ok {
			panic(unresolved{"as of a value that is not an interface"})
		}
		t := e.typ(x.Ty)
		return TV{T: fmt.Sprintf("(v_%s %s)", S.ifaceCtor(t)[2:], v.T), Ty: t}
	case "iface":
		v := e.evalD(x.Args[0])
		return TV{T: fmt.Sprintf("(%s %s)", S.ifaceCtor(v.Ty), v.T), Ty: tAny}
	case "zero":
		t := e.typ(x.Ty)
		return TV{T: S.zero(t), Ty: t}
	case "mk":
		t := e.typ(x.Ty)
		var fs []string
		for i, ft := range S.fieldTypes(t) {
			if i >= len(x.Args) {
				panic(unresolved{"mk: too few fields"})
			}
			fs = append(fs, e.coerce(e.eval(x.Args[i]), ft).T)
		}
		return TV{T: S.mk(t, fs), Ty: t}
	case "isnan":
		return B("(isnan %s)", e.floatT(x.Args[0]))
	case "isfin":
		return B("(isfin %s)", e.floatT(x.Args[0]))
	case "real", "i2f":
		return TV{T: "(i2f " + e.intT(x.Args[0]) + ")", Ty: tFloat}
	case "f2i":
		return I("(f2i %s)", e.floatT(x.Args[0]))
	case "rk":
		return I("(rk %s)", e.floatT(x.Args[0]))
	case "nan":
		return TV{T: S.fconst(nanv), Ty: tFloat}
	case "inf":
		return TV{T: S.fconst(posInf), Ty: tFloat}
	case "ninf":
		return TV{T: S.fconst(negInf), Ty: tFloat}
	case "pi":
		return TV{T: S.fconst(3.141592653589793), Ty: tFloat}
	case "has":
		m := e.eval(x.Args[0])
		u := m.Ty.Underlying().(*types.Map)
		k := e.coerce(e.eval(x.Args[1]), u.Key())
		return TV{T: r.mapHas(e.st, m.Ty, m.T, k.T), Ty: tBool}
	case "rowof":
		// rowof(x, T): M_T[ref]
		v := e.evalD(x.Args[0])
		id := x.Args[1].(*EIdent).Name
		t := e.typ(&TypeX{Kind: "name", Name: id})
		return TV{T: fmt.Sprintf("(select %s %s)", r.heapOf(e.st, t), v.T), Ty: &arrType{t}}
	case "upd":
		a := e.eval(x.Args[0])
		u := a.Ty.Underlying().(*arrType)
		return TV{T: fmt.Sprintf("(store %s %s %s)", a.T, e.intT(x.Args[1]), e.coerce(e.eval(x.Args[2]), u.Elem).T), Ty: a.Ty}
	case "ext":
		nm := x.Args[0].(*EStr).Val
		var ts []string
		var sorts []string
		for _, a := range x.Args[1:] {
			v := e.evalD(a)
			ts = append(ts, v.T)
			sorts = append(sorts, S.sortOf(v.Ty))
		}
		rt, fn := r.extFn(nm, 0, sorts)
		if len(ts) == 0 {
			return TV{T: fn, Ty: rt}
		}
		return TV{T: "(" + fn + " " + strings.Join(ts, " ") + ")", Ty: rt}
	case "ghost":
		nm := x.Args[0].(*EStr).Val
		g, ok := r.ghosts[nm]
		if !ok {
			panic(unresolved{"ghost " + nm})
		}
		var ts []string
		for _, a := range x.Args[1:] {
			ts = append(ts, e.evalD(a).T)
		}
		if len(ts) == 0 {
			return TV{T: g.T, Ty: g.Ty}
		}
		return TV{T: "(" + g.T + " " + strings.Join(ts, " ") + ")", Ty: g.Ty}
	case "inside":
		// pointer/slice storage lies below the allocation watermark of the old state
		v := slice(x.Args[0])
		return TV{T: "(and true " + S.wfTerm(v.T, v.Ty, e.old.alloc) + ")", Ty: tBool}
	}
	if fn, n := mathFn(x.Fn); fn != "" && r.specFn(x.Fn) == nil {
		if len(x.Args) != n {
			panic(unresolved{"arity of " + x.Fn})
		}
		var ts []string
		for _, a := range x.Args {
			ts = append(ts, e.floatT(a))
		}
		return TV{T: "(" + fn + " " + strings.Join(ts, " ") + ")", Ty: tFloat}
	}
	sf := r.specFn(x.Fn)
	if sf == nil && r.instOK {
		if a := r.P.spec.axiom(x.Fn); a != nil {
			return e.instance(a, x)
		}
	}
	if sf == nil {
		panic(unresolved{"function " + x.Fn})
	}
	if len(sf.Params) != len(x.Args) {
		panic(unresolved{"arity of " + x.Fn})
	}
	sp := e.r.P.typesPkg(sf.Pkg)
	te := &Env{r: r, pkg: sp}
	rt := te.typ(sf.Ret)
	if sf.Kind == "pure" {
		if e.depth > 60 {
			panic(unresolved{"pure recursion in " + x.Fn})
		}
		n := &Env{r: r, vars: map[string]TV{}, st: e.st, old: e.old, pkg: sp, depth: e.depth + 1}
		for i, p := range sf.Params {
			pt := te.typ(p.Ty)
			v := e.coerce(e.eval(x.Args[i]), pt)
			if _, isP := pt.Underlying().(*types.Pointer); !isP {
				if _, vp := v.Ty.Underlying().(*types.Pointer); vp {
					v = e.deref(v)
				}
			}
			v.Ty = pt
			n.vars[p.Name] = v
		}
		v := n.coerce(n.eval(sf.Body), rt)
		return TV{T: v.T, Ty: rt}
	}
	r.useSpec[x.Fn] = true
	var ts []string
	for i, p := range sf.Params {
		ts = append(ts, e.coerce(e.eval(x.Args[i]), te.typ(p.Ty)).T)
	}
	if len(ts) == 0 {
		return TV{T: "sf_" + x.Fn, Ty: rt}
	}
	return TV{T: "(sf_" + x.Fn + " " + strings.Join(ts, " ") + ")", Ty: rt}
}

// instance is the statement of a lemma for given arguments
func (e *Env) instance(a *Axiom, x *ECall) TV {
	r := e.r
	if len(a.Vars) != len(x.Args) {
		panic(unresolved{"arity of " + x.Fn})
	}
	if !axMode(a, r.mode) {
		panic(unresolved{"lemma " + x.Fn + " in mode " + r.mode.String()})
	}
	n := &Env{r: r, vars: map[string]TV{}, pkg: r.P.typesPkg(a.Pkg)}
	for i, p := range a.Vars {
		t := n.typ(p.Ty)
		v := e.coerce(e.eval(x.Args[i]), t)
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			if _, vp := v.Ty.Underlying().(*types.Pointer); vp {
				v = e.deref(v)
			}
		}
		v.Ty = t
		n.vars[p.Name] = v
	}
	if a == r.lemma {
		// a lemma may use itself below the value of its induction variable
		v := n.vars[a.Ind].T
		return TV{T: fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s)) %s)", v, v, r.lemmaInd, r.axBody(n, a)), Ty: tBool}
	}
	r.uses[a.Name] = true
	if a.Kind == "axiom" {
		r.assumption("axiom " + a.Name + ": " + a.Src)
	}
	r.instOK = false
	defer func() { r.instOK = true }()
	return TV{T: r.axBody(n, a), Ty: tBool}
}
