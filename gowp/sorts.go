package main

// SMT sorts, datatypes and float constants.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
)

type Mode int

const (
	IEEE Mode = iota // floats: uninterpreted sort with rank embedding + IEEE axioms
	REAL             // floats as mathematical reals
	BITS             // floats as SMT FloatingPoint
)

func (m Mode) String() string { return [...]string{"ieee", "real", "bits"}[m] }

func modeOf(s string) (Mode, bool) {
	switch s {
	case "ieee":
		return IEEE, true
	case "real":
		return REAL, true
	case "bits":
		return BITS, true
	}
	return IEEE, false
}

// arrType is the spec-only type of SMT arrays indexed by int.
type arrType struct{ Elem types.Type }

func (a *arrType) Underlying() types.Type { return a }
func (a *arrType) String() string         { return "array[" + a.Elem.String() + "]" }

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tFloat  = types.Typ[types.Float64]
	tString = types.Typ[types.String]
	tAny    = types.NewInterfaceType(nil, nil)
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func san(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("p_")
		case c == '[':
			b.WriteString("s")
		case c == ']', c == ' ':
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func qual(p *types.Package) string { return p.Name() }

func tname(t types.Type) string { return san(types.TypeString(t, qual)) }

type Sorts struct {
	mode    Mode
	structs map[string]types.Type // sort name -> type
	ifaces  map[string]types.Type // ctor name -> type
	fconsts map[string]uint64
}

func newSorts(m Mode) *Sorts {
	return &Sorts{mode: m, structs: map[string]types.Type{}, ifaces: map[string]types.Type{}, fconsts: map[string]uint64{}}
}

func (s *Sorts) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Info()&types.IsString != 0:
			return "String"
		}
		if u.Kind() == types.UntypedNil {
			return "Iface"
		}
	case *types.Struct:
		n := "S_" + tname(t)
		if _, ok := s.structs[n]; !ok {
			s.structs[n] = t
			for i := 0; i < u.NumFields(); i++ {
				s.sortOf(u.Field(i).Type())
			}
		}
		return n
	case *types.Pointer:
		return "Ptr"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Map, *types.Chan:
		return "Int"
	case *types.Signature:
		return "Fn"
	case *arrType:
		return "(Array Int " + s.sortOf(u.Elem) + ")"
	}
	unsup("no sort for type %s", t)
	return ""
}

func (s *Sorts) ifaceCtor(t types.Type) string {
	n := "I_" + tname(t)
	if _, ok := s.ifaces[n]; !ok {
		s.ifaces[n] = t
		s.sortOf(t)
	}
	return n
}

func (s *Sorts) field(t types.Type, i int) string {
	n := s.sortOf(t)
	st := t.Underlying().(*types.Struct)
	return n + "_" + san(st.Field(i).Name())
}

func (s *Sorts) fieldTypes(t types.Type) []types.Type {
	st := t.Underlying().(*types.Struct)
	var out []types.Type
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Type())
	}
	return out
}

func (s *Sorts) mk(t types.Type, fs []string) string {
	n := s.sortOf(t)
	if len(fs) == 0 {
		return "mk_" + n
	}
	return "(mk_" + n + " " + strings.Join(fs, " ") + ")"
}

// zero value of a type
func (s *Sorts) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsInteger != 0:
			return "0"
		case u.Info()&types.IsFloat != 0:
			return s.fconst(0)
		case u.Info()&types.IsString != 0:
			return s.str("")
		}
	case *types.Struct:
		var fs []string
		for _, f := range s.fieldTypes(t) {
			fs = append(fs, s.zero(f))
		}
		return s.mk(t, fs)
	case *types.Pointer:
		return "(mk_ptr 0 0)"
	case *types.Slice:
		return "(mk_slice 0 0 0 0)"
	case *types.Interface:
		return "I_nil"
	case *types.Map, *types.Chan:
		return "0"
	case *types.Signature:
		return "fn_nil"
	case *arrType:
		return fmt.Sprintf("((as const %s) %s)", s.sortOf(t), s.zero(u.Elem))
	}
	unsup("no zero value for %s", t)
	return ""
}

func (s *Sorts) fconst(f float64) string {
	switch s.mode {
	case REAL:
		if math.IsInf(f, 0) || math.IsNaN(f) {
			if math.IsNaN(f) {
				return "c_nan"
			}
			if f > 0 {
				return "c_inf"
			}
			return "(- c_inf)"
		}
		r := new(big.Rat).SetFloat64(f)
		return ratStr(r)
	case BITS:
		b := math.Float64bits(f)
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1))
	}
	if math.IsNaN(f) {
		return "c_nan"
	}
	b := math.Float64bits(f)
	n := fmt.Sprintf("fc_%016x", b)
	s.fconsts[n] = b
	return n
}

func ratStr(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var t string
	if a.IsInt() {
		t = a.Num().String() + ".0"
	} else {
		t = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

func intStr(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (s *Sorts) constTerm(v constant.Value, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if constant.BoolVal(v) {
				return "true"
			}
			return "false"
		case u.Info()&types.IsInteger != 0:
			return intStr(constant.ToInt(v).ExactString())
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(v))
			return s.fconst(f)
		case u.Info()&types.IsString != 0:
			return s.str(constant.StringVal(v))
		}
	}
	unsup("constant of type %s", t)
	return ""
}

func (s *Sorts) str(lit string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(lit); i++ {
		c := lit[i]
		switch {
		case c == '"':
			b.WriteString("\"\"")
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func rank(b uint64) string {
	if b>>63 == 1 {
		m := b & (1<<63 - 1)
		if m == 0 {
			return "0"
		}
		return fmt.Sprintf("(- %d)", m)
	}
	return fmt.Sprint(b)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// datatypes block
func (s *Sorts) datatypes() string {
	// iface payload types may register new structs
	for {
		n := len(s.structs) + len(s.ifaces)
		for _, k := range sortedKeys(s.ifaces) {
			s.sortOf(s.ifaces[k])
		}
		if n == len(s.structs)+len(s.ifaces) {
			break
		}
	}
	var names, defs []string
	names = append(names, "(Ptr 0)", "(Slice 0)")
	defs = append(defs, "((mk_ptr (p_ref Int) (p_idx Int)))", "((mk_slice (s_arr Int) (s_off Int) (s_len Int) (s_cap Int)))")
	for _, k := range sortedKeys(s.structs) {
		t := s.structs[k]
		names = append(names, "("+k+" 0)")
		st := t.Underlying().(*types.Struct)
		d := "((mk_" + k
		for i := 0; i < st.NumFields(); i++ {
			d += fmt.Sprintf(" (%s %s)", s.field(t, i), s.sortOf(st.Field(i).Type()))
		}
		defs = append(defs, d+"))")
	}
	names = append(names, "(Iface 0)")
	d := "((I_nil) (I_other (io_id Int) (io_v Int))"
	for _, k := range sortedKeys(s.ifaces) {
		d += fmt.Sprintf(" (%s (v_%s %s))", k, k[2:], s.sortOf(s.ifaces[k]))
	}
	defs = append(defs, d+")")
	return "(declare-datatypes (" + strings.Join(names, " ") + ") (" + strings.Join(defs, "\n ") + "))\n"
}

// wfTerm: well-formedness of a Go value (refs below alloc, slice shape, int ranges)
func (s *Sorts) wfTerm(x string, t types.Type, al string) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			switch u.Kind() {
			case types.Int, types.Int64:
				return fmt.Sprintf("(and (<= (- 9223372036854775808) %s) (<= %s 9223372036854775807))", x, x)
			case types.Uint64, types.Uint, types.Uintptr:
				return fmt.Sprintf("(and (<= 0 %s) (<= %s 18446744073709551615))", x, x)
			case types.Uint8:
				return fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", x, x)
			case types.Int8:
				return fmt.Sprintf("(and (<= (- 128) %s) (<= %s 127))", x, x)
			case types.Int16:
				return fmt.Sprintf("(and (<= (- 32768) %s) (<= %s 32767))", x, x)
			case types.Int32:
				return fmt.Sprintf("(and (<= (- 2147483648) %s) (<= %s 2147483647))", x, x)
			case types.Uint16:
				return fmt.Sprintf("(and (<= 0 %s) (<= %s 65535))", x, x)
			case types.Uint32:
				return fmt.Sprintf("(and (<= 0 %s) (<= %s 4294967295))", x, x)
			}
		}
		return ""
	case *types.Pointer:
		return fmt.Sprintf("(wf_ptr %s %s)", x, al)
	case *types.Slice:
		return fmt.Sprintf("(wf_slice %s %s)", x, al)
	case *types.Map, *types.Chan:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", x, x, al)
	case *types.Interface:
		return fmt.Sprintf("(wf_Iface %s %s)", x, al)
	case *types.Struct:
		if !s.needsWF(t, map[string]bool{}) {
			return ""
		}
		return fmt.Sprintf("(wf_%s %s %s)", s.sortOf(t), x, al)
	}
	return ""
}

func (s *Sorts) needsWF(t types.Type, seen map[string]bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsInteger != 0
	case *types.Struct:
		n := tname(t)
		if seen[n] {
			return false
		}
		seen[n] = true
		for i := 0; i < u.NumFields(); i++ {
			if s.needsWF(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (s *Sorts) wfDefs() string {
	var b strings.Builder
	b.WriteString("(define-fun wf_ptr ((x Ptr) (al Int)) Bool (and (<= 0 (p_ref x)) (< (p_ref x) al) (<= 0 (p_idx x)) (=> (= (p_ref x) 0) (= (p_idx x) 0))))\n")
	b.WriteString("(define-fun wf_slice ((x Slice) (al Int)) Bool (and (<= 0 (s_arr x)) (< (s_arr x) al) (<= 0 (s_off x)) (<= 0 (s_len x)) (<= (s_len x) (s_cap x)) (<= (s_cap x) 140737488355328) (<= (s_off x) 140737488355328) (=> (= (s_arr x) 0) (= (s_cap x) 0))))\n")
	// Recursive datatypes can recurse through Iface; emit as declared functions with axioms for Iface, define-fun for structs in dependency order
	b.WriteString("(declare-fun wf_Iface (Iface Int) Bool)\n")
	done := map[string]bool{}
	var emit func(k string)
	emit = func(k string) {
		if done[k] {
			return
		}
		done[k] = true
		t := s.structs[k]
		if !s.needsWF(t, map[string]bool{}) {
			return
		}
		var cs []string
		for i, ft := range s.fieldTypes(t) {
			if st, ok := ft.Underlying().(*types.Struct); ok {
				_ = st
				emit(s.sortOf(ft))
			}
			if c := s.wfTerm("("+s.field(t, i)+" x)", ft, "al"); c != "" {
				cs = append(cs, c)
			}
		}
		fmt.Fprintf(&b, "(define-fun wf_%s ((x %s) (al Int)) Bool (and true %s))\n", k, k, strings.Join(cs, " "))
	}
	for _, k := range sortedKeys(s.structs) {
		emit(k)
	}
	for _, k := range sortedKeys(s.ifaces) {
		if c := s.wfTerm("(v_"+k[2:]+" x)", s.ifaces[k], "al"); c != "" {
			fmt.Fprintf(&b, "(assert (forall ((x Iface) (al Int)) (! (=> (and (wf_Iface x al) ((_ is %s) x)) %s) :pattern ((wf_Iface x al)))))\n", k, c)
		}
	}
	return b.String()
}
