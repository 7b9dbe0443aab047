// Package flow computes which memory the values of a program may point into:
// an inclusion-based points-to analysis of the SSA form, with fields kept
// apart and calls distinguished by the call sites that lead to them.
package flow

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Phase tells when a function runs.
type Phase int

const (
	Run  Phase = iota // any time
	Init              // during the initialisation of the packages
	Once              // at most once, under sync.Once
)

// Inst is a function in a calling context.
type Inst struct {
	Fn      *ssa.Function
	Phase   Phase
	Sites   []ssa.Instruction // the innermost call sites
	Callees map[ssa.Instruction][]*Inst
	Callers map[*Inst]bool
	Root    bool
	id      int
}

// Kind is the kind of a memory object.
type Kind int

const (
	Global Kind = iota
	Alloc       // variable, composite literal, make
	Lib         // made by a library
	Ext         // given by the caller of an entry point
	Box         // value of an interface
	Func        // closure
)

// Obj is an abstract memory object.
type Obj struct {
	Kind Kind
	Site ssa.Value // what makes it
	In   *Inst
	T    types.Type
	Fn   *ssa.Function
	id   int
}

// Shared says that the object exists before and outlives every load.
func (o *Obj) Shared() bool {
	return o.Kind == Global || o.In != nil && o.In.Phase != Run
}

func (o *Obj) String() string {
	switch o.Kind {
	case Global:
		return "package variable " + o.Site.(*ssa.Global).String()
	case Func:
		return "function " + o.Fn.String()
	}
	if o.In != nil && o.In.Fn != nil {
		return fmt.Sprintf("a value of type %s made in %s", o.T, o.In.Fn)
	}
	return fmt.Sprintf("a value of type %s", o.T)
}

// Loc is a place in an object.
type Loc struct {
	O    *Obj
	Path string
}

type node struct {
	pts   map[Loc]bool
	order []Loc
	succ  map[*node]bool
	cbs   []func(Loc)
}

type regKey struct {
	in   *Inst
	v    ssa.Value
	path string
}

// Effect is a write.
type Effect struct {
	In    *Inst
	At    ssa.Instruction
	What  string
	Where map[Loc]bool
	Value ssa.Value // what is written, if known
	Sure  bool      // certainly writes
	Lib   bool      // by a library function
	n     *node
	suf   string
}

// Access is a read.
type Access struct {
	In    *Inst
	At    ssa.Instruction
	Where map[Loc]bool
	n     *node
}

// Analysis is the result.
type Analysis struct {
	IsSrc   func(*ssa.Function) bool
	Prog    *ssa.Program
	Insts   []*Inst
	Effects []*Effect
	Reads   []*Access
	Spawns  []Spawn
	// Unknown are calls of library methods that may change what they are called on.
	Unknown []*Effect

	K        int
	insts    map[string]*Inst
	regs     map[regKey]*node
	mem      map[Loc]*node
	objs     map[string]*Obj
	allObjs  []*Obj
	queue    []func()
	done     map[*Inst]bool
	rets     map[*Inst]bool
	ids      map[any]int
	taken    map[*ssa.Function]bool
	called   map[*ssa.Function]bool
	calls    map[string]bool
	accessed map[string]bool
}

// Spawn is a go statement (or a library call that starts a goroutine).
type Spawn struct {
	In     *Inst
	At     ssa.Instruction
	Target *Inst
}

// New analyses the program from its entry points.
func New(prog *ssa.Program, isSrc func(*ssa.Function) bool, inits, roots []*ssa.Function) *Analysis {
	a := &Analysis{IsSrc: isSrc, Prog: prog, K: 2, insts: map[string]*Inst{}, regs: map[regKey]*node{}, mem: map[Loc]*node{},
		objs: map[string]*Obj{}, done: map[*Inst]bool{}, rets: map[*Inst]bool{}, ids: map[any]int{}, taken: map[*ssa.Function]bool{},
		called: map[*ssa.Function]bool{}, calls: map[string]bool{}, accessed: map[string]bool{}}
	for _, fn := range inits {
		a.inst(fn, Init, nil)
	}
	a.solve()
	seen := map[*ssa.Function]bool{}
	for {
		var todo []*ssa.Function
		for _, fn := range roots {
			if !seen[fn] {
				todo = append(todo, fn)
			}
		}
		if todo == nil {
			for fn := range a.taken { // called by a library
				if !a.called[fn] && !seen[fn] && fn.Parent() == nil {
					todo = append(todo, fn)
				}
			}
			sort.Slice(todo, func(i, j int) bool { return todo[i].String() < todo[j].String() })
		}
		if len(todo) == 0 {
			break
		}
		for _, fn := range todo {
			seen[fn] = true
			a.root(fn)
		}
		a.solve()
	}
	for _, e := range append(append([]*Effect(nil), a.Effects...), a.Unknown...) {
		e.Where = map[Loc]bool{}
		for _, l := range e.n.order {
			e.Where[Loc{l.O, l.Path + e.suf}] = true
		}
	}
	for _, r := range a.Reads {
		r.Where = r.n.pts
	}
	return a
}

func (a *Analysis) root(fn *ssa.Function) {
	in := a.inst(fn, Run, nil)
	in.Root = true
	for _, p := range fn.Params {
		a.external(func(path string) *node { return a.reg(in, p, path) }, p.Type())
	}
}

// external makes a value unknown: it points to memory of the caller.
func (a *Analysis) external(dst func(string) *node, t types.Type) {
	for _, l := range Leaves(t) {
		if e := pointee(l.T); e != nil {
			a.add(dst(l.Path), Loc{a.ext(l.T), ""})
		}
	}
}

func (a *Analysis) ext(t types.Type) *Obj {
	key := "ext " + t.String()
	if o := a.objs[key]; o != nil {
		return o
	}
	o := a.newObj(key, &Obj{Kind: Ext, T: pointee(t)})
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a.external(func(p string) *node { return a.cell(Loc{o, p}) }, u.Elem())
	case *types.Slice:
		a.external(func(p string) *node { return a.cell(Loc{o, "[]" + p}) }, u.Elem())
	case *types.Map:
		a.external(func(p string) *node { return a.cell(Loc{o, "{k}" + p}) }, u.Key())
		a.external(func(p string) *node { return a.cell(Loc{o, "{v}" + p}) }, u.Elem())
	case *types.Chan:
		a.external(func(p string) *node { return a.cell(Loc{o, "{c}" + p}) }, u.Elem())
	}
	return o
}

func (a *Analysis) newObj(key string, o *Obj) *Obj {
	if x := a.objs[key]; x != nil {
		return x
	}
	o.id = len(a.allObjs)
	a.allObjs = append(a.allObjs, o)
	a.objs[key] = o
	return o
}

func (a *Analysis) idOf(x any) int {
	if i, ok := a.ids[x]; ok {
		return i
	}
	a.ids[x] = len(a.ids)
	return a.ids[x]
}

func (a *Analysis) alloc(in *Inst, v ssa.Value, kind Kind, t types.Type, tag string) *Obj {
	return a.newObj(fmt.Sprintf("%d %d %d %s", kind, in.id, a.idOf(v), tag), &Obj{Kind: kind, Site: v, In: in, T: t})
}

// inst is the instance of a function in a context.
func (a *Analysis) inst(fn *ssa.Function, ph Phase, sites []ssa.Instruction) *Inst {
	var key strings.Builder
	fmt.Fprintf(&key, "%d %d", a.idOf(fn), ph)
	for _, s := range sites {
		fmt.Fprintf(&key, " %d", a.idOf(s))
	}
	if in := a.insts[key.String()]; in != nil {
		return in
	}
	in := &Inst{Fn: fn, Phase: ph, Sites: sites, id: len(a.insts), Callees: map[ssa.Instruction][]*Inst{}, Callers: map[*Inst]bool{}}
	a.insts[key.String()] = in
	a.Insts = append(a.Insts, in)
	a.called[fn] = true
	a.queue = append(a.queue, func() { a.body(in) })
	return in
}

func (a *Analysis) getNode(n *node) *node { return n }

func newNode() *node { return &node{pts: map[Loc]bool{}, succ: map[*node]bool{}} }

func (a *Analysis) cell(l Loc) *node {
	n := a.mem[l]
	if n == nil {
		n = newNode()
		a.mem[l] = n
	}
	return n
}

// reg is the node of a value of a function.
func (a *Analysis) reg(in *Inst, v ssa.Value, path string) *node {
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const:
		in = nil
	}
	k := regKey{in, v, path}
	n := a.regs[k]
	if n == nil {
		n = newNode()
		a.regs[k] = n
		switch v := v.(type) {
		case *ssa.Global:
			o := a.newObj("global "+v.String(), &Obj{Kind: Global, Site: v, T: v.Type().(*types.Pointer).Elem()})
			if v.Pkg == nil || !a.srcPkg(v.Pkg) { // of a library
				a.external(func(p string) *node { return a.cell(Loc{o, p}) }, o.T)
			}
			a.add(n, Loc{o, ""})
		case *ssa.Function:
			o := a.newObj("func "+v.String()+fmt.Sprint(a.idOf(v)), &Obj{Kind: Func, Fn: v, T: v.Type()})
			if a.IsSrc(v) {
				a.taken[v] = true
			}
			a.add(n, Loc{o, ""})
		}
	}
	return n
}

func (a *Analysis) srcPkg(k *ssa.Package) bool {
	for _, m := range k.Members {
		if f, ok := m.(*ssa.Function); ok && f.Name() == "init" {
			return a.IsSrc(f)
		}
	}
	return false
}

func (a *Analysis) add(n *node, l Loc) {
	if n.pts[l] || strings.Count(l.Path, ".")+strings.Count(l.Path, "[") > 12 {
		return
	}
	n.pts[l] = true
	n.order = append(n.order, l)
	for s := range n.succ {
		a.queue = append(a.queue, func() { a.add(s, l) })
	}
	for _, f := range n.cbs {
		a.queue = append(a.queue, func() { f(l) })
	}
}

func (a *Analysis) edge(from, to *node) {
	if from == to || from.succ[to] {
		return
	}
	from.succ[to] = true
	for _, l := range from.order {
		a.add(to, l)
	}
}

func (a *Analysis) each(n *node, f func(Loc)) {
	n.cbs = append(n.cbs, f)
	for _, l := range append([]Loc(nil), n.order...) {
		f(l)
	}
}

func (a *Analysis) solve() {
	for len(a.queue) > 0 {
		f := a.queue[len(a.queue)-1]
		a.queue = a.queue[:len(a.queue)-1]
		f()
	}
}

// Leaf is a part of a type that refers to memory.
type Leaf struct {
	Path string
	T    types.Type
}

// Leaves lists the parts of a value of a type that refer to memory.
func Leaves(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range Leaves(u.Field(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.T})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range Leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Path, l.T})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range Leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("#%d%s", i, l.Path), l.T})
			}
		}
		return out
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []Leaf{{"", t}}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return []Leaf{{"", t}}
		}
	}
	return nil
}

func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return types.NewArray(u.Elem(), 1)
	case *types.Map, *types.Chan:
		return t
	}
	return nil
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

// Points is what a value may point to, in any context of a phase.
func (a *Analysis) Points(in *Inst, v ssa.Value) map[Loc]bool { return a.reg(in, v, "").pts }

func (a *Analysis) copyReg(in *Inst, dst ssa.Value, dp string, src ssa.Value, sp string, t types.Type) {
	for _, l := range Leaves(t) {
		a.edge(a.reg(in, src, sp+l.Path), a.reg(in, dst, dp+l.Path))
	}
}

// load copies what is stored at addr+suf.
func (a *Analysis) load(addr *node, suf string, t types.Type, dst func(string) *node) {
	ls := Leaves(t)
	if len(ls) == 0 {
		return
	}
	a.each(addr, func(l Loc) {
		for _, x := range ls {
			a.edge(a.cell(Loc{l.O, l.Path + suf + x.Path}), dst(x.Path))
		}
	})
}

func (a *Analysis) store(addr *node, suf string, t types.Type, src func(string) *node) {
	ls := Leaves(t)
	if len(ls) == 0 {
		return
	}
	a.each(addr, func(l Loc) {
		for _, x := range ls {
			a.edge(src(x.Path), a.cell(Loc{l.O, l.Path + suf + x.Path}))
		}
	})
}

func (a *Analysis) effect(in *Inst, at ssa.Instruction, what string, n *node, suf string, v ssa.Value) *Effect {
	e := &Effect{In: in, At: at, What: what, n: n, suf: suf, Value: v}
	a.Effects = append(a.Effects, e)
	return e
}

func (a *Analysis) read(in *Inst, at ssa.Instruction, n *node) {
	a.Reads = append(a.Reads, &Access{In: in, At: at, n: n})
}

func (a *Analysis) body(in *Inst) {
	if a.done[in] {
		return
	}
	a.done[in] = true
	for _, blk := range in.Fn.Blocks {
		for _, i := range blk.Instrs {
			a.instr(in, i)
		}
	}
}

func (a *Analysis) sub(in *Inst, v ssa.Value) func(string) *node {
	return func(p string) *node { return a.reg(in, v, p) }
}

func (a *Analysis) instr(in *Inst, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Alloc:
		a.add(a.reg(in, i, ""), Loc{a.alloc(in, i, Alloc, i.Type().(*types.Pointer).Elem(), ""), ""})
	case *ssa.MakeMap, *ssa.MakeChan:
		v := i.(ssa.Value)
		a.add(a.reg(in, v, ""), Loc{a.alloc(in, v, Alloc, v.Type(), ""), ""})
	case *ssa.MakeSlice:
		a.add(a.reg(in, i, ""), Loc{a.alloc(in, i, Alloc, pointee(i.Type()), ""), ""})
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		o := a.alloc(in, i, Func, i.Type(), "")
		o.Fn = fn
		for n, b := range i.Bindings {
			for _, l := range Leaves(b.Type()) {
				a.edge(a.reg(in, b, l.Path), a.cell(Loc{o, fmt.Sprintf("#%d%s", n, l.Path)}))
			}
		}
		a.add(a.reg(in, i, ""), Loc{o, ""})
	case *ssa.MakeInterface:
		if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			a.edge(a.reg(in, i.X, ""), a.reg(in, i, ""))
			return
		}
		o := a.alloc(in, i, Box, i.X.Type(), "")
		for _, l := range Leaves(i.X.Type()) {
			a.edge(a.reg(in, i.X, l.Path), a.cell(Loc{o, l.Path}))
		}
		a.add(a.reg(in, i, ""), Loc{o, ""})
	case *ssa.Phi:
		for _, e := range i.Edges {
			a.copyReg(in, i, "", e, "", i.Type())
		}
	case *ssa.ChangeType:
		a.copyReg(in, i, "", i.X, "", i.Type())
	case *ssa.ChangeInterface:
		a.edge(a.reg(in, i.X, ""), a.reg(in, i, ""))
	case *ssa.MultiConvert:
		a.copyReg(in, i, "", i.X, "", i.Type())
	case *ssa.Convert: // text and bytes are copied
		_, from := i.X.Type().Underlying().(*types.Basic)
		_, to := i.Type().Underlying().(*types.Basic)
		if _, sl := i.Type().Underlying().(*types.Slice); sl && from {
			a.add(a.reg(in, i, ""), Loc{a.alloc(in, i, Alloc, pointee(i.Type()), ""), ""})
		} else if !from && !to {
			a.copyReg(in, i, "", i.X, "", i.Type())
		}
	case *ssa.SliceToArrayPointer:
		a.edge(a.reg(in, i.X, ""), a.reg(in, i, ""))
	case *ssa.Slice:
		if _, ok := i.X.Type().Underlying().(*types.Basic); !ok {
			a.edge(a.reg(in, i.X, ""), a.reg(in, i, ""))
		}
	case *ssa.FieldAddr:
		n := a.reg(in, i, "")
		a.each(a.reg(in, i.X, ""), func(l Loc) { a.add(n, Loc{l.O, fmt.Sprintf("%s.%d", l.Path, i.Field)}) })
	case *ssa.IndexAddr:
		n := a.reg(in, i, "")
		a.each(a.reg(in, i.X, ""), func(l Loc) { a.add(n, Loc{l.O, l.Path + "[]"}) })
	case *ssa.Field:
		a.copyReg(in, i, "", i.X, fmt.Sprintf(".%d", i.Field), i.Type())
	case *ssa.Index:
		if _, ok := i.X.Type().Underlying().(*types.Array); ok {
			a.copyReg(in, i, "", i.X, "[]", i.Type())
		}
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			a.read(in, i, a.suffix(a.reg(in, i.X, ""), "{v}"))
			dp := ""
			t := i.Type()
			if i.CommaOk {
				dp, t = "#0", t.(*types.Tuple).At(0).Type()
			}
			a.load(a.reg(in, i.X, ""), "{v}", t, func(p string) *node { return a.reg(in, i, dp+p) })
		}
	case *ssa.Extract:
		a.copyReg(in, i, "", i.Tuple, fmt.Sprintf("#%d", i.Index), i.Type())
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			a.read(in, i, a.reg(in, i.X, ""))
			a.load(a.reg(in, i.X, ""), "", i.Type(), a.sub(in, i))
		case token.ARROW:
			t, dp := i.Type(), ""
			if i.CommaOk {
				dp, t = "#0", t.(*types.Tuple).At(0).Type()
			}
			a.load(a.reg(in, i.X, ""), "{c}", t, func(p string) *node { return a.reg(in, i, dp+p) })
		}
	case *ssa.Store:
		e := a.effect(in, i, "store", a.reg(in, i.Addr, ""), "", i.Val)
		e.Sure = true
		a.store(a.reg(in, i.Addr, ""), "", i.Val.Type(), a.sub(in, i.Val))
	case *ssa.MapUpdate:
		e := a.effect(in, i, "update of a map", a.reg(in, i.Map, ""), "{v}", i.Value)
		e.Sure = true
		a.store(a.reg(in, i.Map, ""), "{v}", i.Value.Type(), a.sub(in, i.Value))
		a.store(a.reg(in, i.Map, ""), "{k}", i.Key.Type(), a.sub(in, i.Key))
	case *ssa.Send:
		e := a.effect(in, i, "send", a.reg(in, i.Chan, ""), "{c}", i.X)
		e.Sure = true
		a.store(a.reg(in, i.Chan, ""), "{c}", i.X.Type(), a.sub(in, i.X))
	case *ssa.Select:
		n := 2
		for _, s := range i.States {
			if s.Dir == types.SendOnly {
				a.effect(in, i, "send", a.reg(in, s.Chan, ""), "{c}", s.Send)
				a.store(a.reg(in, s.Chan, ""), "{c}", s.Send.Type(), a.sub(in, s.Send))
				continue
			}
			k := n
			n++
			a.load(a.reg(in, s.Chan, ""), "{c}", s.Chan.Type().Underlying().(*types.Chan).Elem(), func(p string) *node { return a.reg(in, i, fmt.Sprintf("#%d%s", k, p)) })
		}
	case *ssa.Range:
		a.edge(a.reg(in, i.X, ""), a.reg(in, i, ""))
	case *ssa.Next:
		if i.IsString {
			return
		}
		if r, ok := i.Iter.(*ssa.Range); ok {
			m, ok := r.X.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			a.read(in, i, a.suffix(a.reg(in, r, ""), "{v}"))
			a.load(a.reg(in, r, ""), "{k}", m.Key(), func(p string) *node { return a.reg(in, i, "#1"+p) })
			a.load(a.reg(in, r, ""), "{v}", m.Elem(), func(p string) *node { return a.reg(in, i, "#2"+p) })
		}
	case *ssa.TypeAssert:
		dp := ""
		if i.CommaOk {
			dp = "#0"
		}
		src := a.reg(in, i.X, "")
		if isIface(i.AssertedType) {
			a.edge(src, a.reg(in, i, dp))
			return
		}
		if p, ok := i.AssertedType.Underlying().(*types.Pointer); ok {
			n := a.reg(in, i, dp)
			a.each(src, func(l Loc) {
				if l.O.Kind != Box && mayBe(l, p.Elem()) {
					a.add(n, l)
				}
			})
			return
		}
		a.each(src, func(l Loc) {
			if l.O.Kind == Box && l.Path == "" && types.Identical(l.O.T, i.AssertedType) {
				for _, x := range Leaves(i.AssertedType) {
					a.edge(a.cell(Loc{l.O, x.Path}), a.reg(in, i, dp+x.Path))
				}
			}
		})
	case *ssa.Return:
		// joined by the callers through results
	case *ssa.Panic:
	case ssa.CallInstruction:
		a.call(in, i)
	}
	// functions used as values
	for _, x := range i.Operands(nil) {
		if f, ok := (*x).(*ssa.Function); ok {
			if c, ok := i.(ssa.CallInstruction); !ok || c.Common().Value != *x {
				a.reg(in, f, "")
			}
		}
	}
}

func (a *Analysis) suffix(n *node, suf string) *node {
	m := newNode()
	a.each(n, func(l Loc) { a.add(m, Loc{l.O, l.Path + suf}) })
	return m
}

// mayBe says that a place can hold a value of a type.
func mayBe(l Loc, t types.Type) bool {
	x := typeAt(l)
	return x == nil || types.Identical(x, t)
}

func typeAt(l Loc) types.Type {
	t := l.O.T
	p := l.Path
	for p != "" && t != nil {
		switch {
		case strings.HasPrefix(p, "[]"):
			p = p[2:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
		case p[0] == '.':
			j := 1
			n := 0
			for j < len(p) && p[j] >= '0' && p[j] <= '9' {
				n = n*10 + int(p[j]-'0')
				j++
			}
			p = p[j:]
			s, ok := t.Underlying().(*types.Struct)
			if !ok || n >= s.NumFields() {
				return nil
			}
			t = s.Field(n).Type()
		default:
			return nil
		}
	}
	return t
}
