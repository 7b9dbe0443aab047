package ai

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// LoadConfig selects what is analysed.
type LoadConfig struct {
	Dir       string
	Patterns  []string
	Flags     []string
	Env       []string
	SrcPrefix []string // import path prefixes whose functions are interpreted
	SkipInit  []string // packages whose init functions with loops are not run: what they refer to is unknown
	NoInit    []string // packages whose initialisers are only followed as far as they call libraries
}

// Load builds the SSA form of the packages and runs their initialisers abstractly.
func Load(c LoadConfig) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        c.Dir,
		BuildFlags: c.Flags,
		Env:        append(os.Environ(), c.Env...),
	}
	pkgs, err := packages.Load(cfg, c.Patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Fset: prog.Fset, Pkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*FnInfo{},
		base: map[ID]*Obj{}, globals: map[*ssa.Global]ID{}}
	for _, k := range prog.AllPackages() {
		p.Pkgs[k.Pkg.Path()] = k
	}
	src := func(path string) bool {
		for _, x := range c.SrcPrefix {
			if path == x || strings.HasPrefix(path, x+"/") {
				return true
			}
		}
		return path == "slices" || path == "maps" || path == "cmp" || path == "iter"
	}
	p.IsSrc = func(fn *ssa.Function) bool {
		o := fn
		if g := fn.Origin(); g != nil {
			o = g
		}
		for o.Parent() != nil {
			o = o.Parent()
			if g := o.Origin(); g != nil {
				o = g
			}
		}
		if libSrc[o.String()] {
			return true
		}
		if o.Pkg != nil {
			return src(o.Pkg.Pkg.Path())
		}
		if o.Object() != nil && o.Object().Pkg() != nil {
			return src(o.Object().Pkg().Path())
		}
		return false
	}
	p.Src = src
	p.skipInit, p.noInit = c.SkipInit, c.NoInit
	if err := p.initialise(pkgs); err != nil {
		return nil, err
	}
	return p, nil
}

// initialise runs the package initialisers of the interpreted packages.
func (p *Program) initialise(pkgs []*packages.Package) error {
	e := NewEngine(p)
	e.initMode = true
	e.LoopCap = 100000
	st := &State{heap: map[ID]*Obj{}, at: map[ID]*AInfo{}}
	var order []*ssa.Package
	seen := map[string]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q.PkgPath] {
			return
		}
		seen[q.PkgPath] = true
		for _, i := range q.Imports {
			visit(i)
		}
		if k := p.Pkgs[q.PkgPath]; k != nil && p.Src(q.PkgPath) && q.PkgPath != "slices" && q.PkgPath != "maps" && q.PkgPath != "cmp" && q.PkgPath != "iter" {
			order = append(order, k)
		}
	}
	for _, q := range pkgs {
		visit(q)
	}
	for _, k := range order {
		for _, m := range k.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			id := e.newObj(st, &Obj{Kind: OCell, T: t, V: e.zero(t), Name: "global " + g.String()})
			p.globals[g] = id
		}
	}
	e.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
		if strings.HasPrefix(fn.Synthetic, "package init") && act.Fn != nil {
			k(st, nil)
			return true
		}
		if fn.Pkg != nil && strings.HasPrefix(fn.Name(), "init#") && slices.Contains(p.skipInit, fn.Pkg.Pkg.Path()) && loops(fn) {
			for _, blk := range fn.Blocks {
				for _, in := range blk.Instrs {
					for _, x := range in.Operands(nil) {
						if g, ok := (*x).(*ssa.Global); ok && g.Pkg == fn.Pkg {
							o := *e.obj(st, p.globals[g])
							o.V = Fresh{T: o.T}
							st.heap[p.globals[g]] = &o
						}
					}
				}
			}
			k(st, nil)
			return true
		}
		if fn.Pkg != nil && slices.Contains(p.noInit, fn.Pkg.Pkg.Path()) && act.Fn != nil {
			switch res := fn.Signature.Results(); res.Len() {
			case 0:
				k(st, nil)
			case 1:
				k(st, Fresh{T: res.At(0).Type(), NonNil: true})
			default:
				t := make(Tuple, res.Len())
				for i := range t {
					t[i] = Fresh{T: res.At(i).Type(), NonNil: true}
				}
				k(st, t)
			}
			return true
		}
		if v, ok := e.FlagCell(st, fn, args); ok {
			k(st, v)
			return true
		}
		return false
	}
	p.foreignGlobals(e, order)
	for _, k := range order {
		fn := k.Func("init")
		if fn == nil {
			continue
		}
		top := e.Run(st, fn, nil)
		if len(e.Outcomes) > 0 {
			return fmt.Errorf("initialisation of %s: %s at %s", k.Pkg.Path(), e.Outcomes[0].Msg, e.Pos(e.Outcomes[0].Pos))
		}
		if len(top.Results) == 0 {
			return fmt.Errorf("initialisation of %s has no result: %v", k.Pkg.Path(), e.SortedProblems())
		}
		p.InitForks += len(top.Results) - 1
		st = top.Results[0].St
		st.regs = nil
		st.tr = nil
	}
	p.InitProblems = e.SortedProblems()
	p.flags = e.Flags
	for id, o := range p.base { // variables of other packages
		st.heap[id] = o
	}
	p.base = st.heap
	p.baseMax = ID(len(e.decls) - 1)
	p.baseDecl = e.decls
	for id, a := range st.at {
		if a.Bind == nil {
			baseAt[id] = a
		}
	}
	return nil
}

// loops tells whether a function has a loop.
func loops(fn *ssa.Function) bool {
	for _, blk := range fn.Blocks {
		for _, to := range blk.Succs {
			if to.Dominates(blk) {
				return true
			}
		}
	}
	return false
}

// libSrc lists standard library functions that are interpreted instead of
// modelled.
var libSrc = map[string]bool{"strings.IndexFunc": true, "strings.ContainsFunc": true, "strings.indexFunc": true}

// foreignGlobals makes the variables of other packages that the code refers
// to known, with any content.
func (p *Program) foreignGlobals(e *Engine, order []*ssa.Package) {
	own := map[*ssa.Package]bool{}
	for _, k := range order {
		own[k] = true
	}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if !p.IsSrc(fn) {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				for _, x := range in.Operands(nil) {
					if g, ok := (*x).(*ssa.Global); ok && !own[g.Pkg] {
						e.global(g)
					}
				}
			}
		}
	}
}

// FlagCell models the functions of package flag that define a flag: the
// variable of the flag is a cell of its own that can be found by its name.
func (e *Engine) FlagCell(st *State, fn *ssa.Function, args []Value) (Value, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "flag" {
		return nil, false
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		args = args[1:]
	}
	name := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		s, _ := st.resolve(args[i]).(Str)
		return s.Const()
	}
	switch n := fn.Name(); n {
	case "NewFlagSet":
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return Ptr{Obj: e.newObj(st, &Obj{Kind: OCell, T: t, V: Fresh{T: t}, Name: "the flags", Input: true})}, true
	case "String", "Bool", "Int", "Int64", "Uint", "Uint64", "Float64", "Duration":
		f, ok := name(0)
		if !ok || fn.Signature.Results().Len() != 1 {
			return nil, false
		}
		pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			return nil, false
		}
		id := e.newObj(st, &Obj{Kind: OCell, T: pt.Elem(), V: Fresh{T: pt.Elem()}, Name: "flag " + f, Input: true})
		e.Flags[f] = Ptr{Obj: id}
		return Ptr{Obj: id}, true
	case "StringVar", "BoolVar", "IntVar", "DurationVar":
		f, ok := name(1)
		p, isPtr := st.resolve(args[0]).(Ptr)
		if !ok || !isPtr {
			return nil, false
		}
		e.Flags[f] = p
		return nil, true
	}
	return nil, false
}
