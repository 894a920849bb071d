package main

// Loading of the code under verification (go/packages + go/ssa on /repo's working tree).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	dir        string
	fset       *token.FileSet
	pkgs       []*packages.Package
	ssa        *ssa.Program
	ours       map[*types.Package]bool
	fns        map[string]*ssa.Function
	spec       *SpecFile
	localAlloc map[*ssa.Alloc]bool
	names      map[*ssa.Function]map[string][]nameDef
	wsets      map[*ssa.Function]*wset
	assigned   map[*ssa.Global]int
	impls      map[string][]types.Type
}

type wset struct {
	keys    map[string]types.Type
	bad     string
	busy    bool
	changed bool
}

func loadProg(dir, specDir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	sp, _ := ssautil.Packages(ps, ssa.GlobalDebug)
	sp.Build()
	spec, err := parseSpecs(specDir)
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, pkgs: ps, ssa: sp, fset: ps[0].Fset, spec: spec, ours: map[*types.Package]bool{}, fns: map[string]*ssa.Function{},
		localAlloc: map[*ssa.Alloc]bool{}, names: map[*ssa.Function]map[string][]nameDef{}, wsets: map[*ssa.Function]*wset{}, assigned: map[*ssa.Global]int{}, impls: map[string][]types.Type{}}
	for _, x := range ps {
		p.ours[x.Types] = true
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Pkg == nil || !p.ours[fn.Pkg.Pkg] || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") {
			if fn.Pkg == nil || !p.ours[fn.Pkg.Pkg] {
				continue
			}
		}
		p.scanGlobals(fn)
		if fn.Synthetic == "" {
			p.fns[p.keyOf(fn)] = fn
		}
	}
	p.resolve()
	return p, nil
}

func (p *Prog) scanGlobals(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				u, isLoad := ins.(*ssa.UnOp)
				if isLoad && u.Op == token.MUL {
					continue
				}
				if _, dbg := ins.(*ssa.DebugRef); dbg {
					continue
				}
				if s, isSt := ins.(*ssa.Store); isSt && s.Addr == g && fn.Name() == "init" {
					p.assigned[g] += 1
					continue
				}
				p.assigned[g] += 1000
			}
		}
	}
}

func (p *Prog) typesPkg(name string) *types.Package {
	for _, x := range p.pkgs {
		if x.Types.Name() == name {
			return x.Types
		}
	}
	// imported packages
	for _, x := range p.pkgs {
		for _, i := range x.Types.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	return nil
}

func (p *Prog) pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (p *Prog) keyOf(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return p.keyOf(fn.Parent()) + n
	}
	pk := p.pkgOf(fn)
	pn := ""
	if pk != nil {
		pn = pk.Name()
	}
	if rc := fn.Signature.Recv(); rc != nil {
		t := rc.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			star = "*"
			t = pt.Elem()
		}
		nm := "?"
		if n, ok := t.(*types.Named); ok {
			nm = n.Obj().Name()
			if n.Obj().Pkg() != nil {
				pn = n.Obj().Pkg().Name()
			}
		}
		return fmt.Sprintf("%s.(%s%s).%s", pn, star, nm, fn.Name())
	}
	return pn + "." + fn.Name()
}

func (p *Prog) isOurs(fn *ssa.Function) bool {
	pk := p.pkgOf(fn)
	return pk != nil && p.ours[pk] && len(fn.Blocks) > 0
}

func (p *Prog) globalKey(g *ssa.Global) string { return "g_" + san(g.Pkg.Pkg.Name()+"."+g.Name()) }

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	rel, err := filepath.Rel(p.dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) resolve() {
	for k, c := range p.spec.Contracts {
		if c.Extern {
			continue
		}
		fn, ok := p.fns[k]
		if !ok {
			c.Bad = "function " + k + " does not exist"
			continue
		}
		if len(fn.Params) != len(c.Params) {
			c.Bad = fmt.Sprintf("function %s has %d parameters, contract names %d", k, len(fn.Params), len(c.Params))
			continue
		}
		if n := fn.Signature.Results().Len(); len(c.Results) != n {
			c.Bad = fmt.Sprintf("function %s has %d results, contract names %d", k, n, len(c.Results))
		}
	}
}

// implementers returns the concrete types of the loaded packages that implement an interface
func (p *Prog) implementers(it types.Type) []types.Type {
	k := types.TypeString(it, nil)
	if v, ok := p.impls[k]; ok {
		return v
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	if iface.NumMethods() > 0 {
		for _, pk := range p.pkgs {
			for _, n := range pk.Types.Scope().Names() {
				tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if _, isI := tn.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(tn.Type(), iface) {
					out = append(out, tn.Type())
				}
				if types.Implements(types.NewPointer(tn.Type()), iface) && !types.Implements(tn.Type(), iface) {
					out = append(out, types.NewPointer(tn.Type()))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.impls[k] = out
	return out
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// writeSet: heap keys a function may write (found by executing it symbolically)
func (p *Prog) writeSet(fn *ssa.Function) *wset {
	w, ok := p.wsets[fn]
	if ok {
		return w
	}
	w = &wset{keys: map[string]types.Type{}, busy: true}
	p.wsets[fn] = w
	for iter := 0; iter < 6; iter++ {
		before := len(w.keys)
		r := newRun(p, fn, p.keyOf(fn), p.spec.Contracts[p.keyOf(fn)], IEEE)
		r.dry = true
		r.generate()
		if r.failMsg != "" {
			w.bad = r.failMsg
		}
		for k, t := range r.allMods {
			w.keys[k] = t
		}
		if len(w.keys) == before {
			break
		}
	}
	w.busy = false
	return w
}

// needFunctional: the results of fn are a function of its arguments alone (checked on its current source):
// no pointers in parameters or results, no variable globals, no interface calls, only math.* from outside.
func (p *Prog) needFunctional(fn *ssa.Function) {
	if why := p.functional(fn, map[*ssa.Function]bool{}, true); why != "" {
		panic(unresolved{"opt functional: " + p.keyOf(fn) + " " + why})
	}
}

func flat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !flat(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return flat(u.Elem())
	}
	return false
}

func (p *Prog) functional(fn *ssa.Function, seen map[*ssa.Function]bool, top bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	if top {
		for _, a := range fn.Params {
			if !flat(a.Type()) {
				return "takes a parameter that can hold a pointer"
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if !flat(fn.Signature.Results().At(i).Type()) {
				return "returns a result that can hold a pointer"
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && p.assigned[g] >= 1000 {
					return "uses the variable " + g.Name()
				}
			}
			switch x := ins.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Send, *ssa.Range:
				return "uses a statement that is not deterministic"
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return "receives from a channel"
				}
			case *ssa.MakeClosure:
				if why := p.functional(x.Fn.(*ssa.Function), seen, false); why != "" {
					return why
				}
			case *ssa.Call:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if c.IsInvoke() {
					return "calls an interface method"
				}
				cal := c.StaticCallee()
				if cal == nil {
					if _, ok := c.Value.(*ssa.MakeClosure); ok {
						continue
					}
					// a local function value: its closure is inspected where it is made
					continue
				}
				if p.isOurs(cal) {
					if why := p.functional(cal, seen, false); why != "" {
						return why
					}
					continue
				}
				if pk := p.pkgOf(cal); pk == nil || pk.Path() != "math" {
					return "calls " + p.keyOf(cal)
				}
			}
		}
	}
	return ""
}
