package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded SSA program, shared by all engines.
type Program struct {
	Prog         *ssa.Program
	Fset         *token.FileSet
	Pkgs         map[string]*ssa.Package
	IsSrc        func(fn *ssa.Function) bool // functions to interpret
	Src          func(path string) bool
	InitForks    int
	skipInit     []string
	flags        map[string]Ptr
	noInit       []string
	InitProblems []string
	infos        map[*ssa.Function]*FnInfo
	mu           sync.Mutex

	base     map[ID]*Obj
	baseDecl []AtomDecl
	globals  map[*ssa.Global]ID
	baseMax  ID
}

type assocInfo struct {
	Kind string
	Atom ID
	Idx  int
	Maps string
}

type assocKey struct {
	Kind string
	Atom ID
	Idx  int
	Maps string
}

// MemoryLow stops every running analysis.
var MemoryLow atomic.Bool

// Engine runs one analysis (one scenario).
type Engine struct {
	P       *Program
	decls   []AtomDecl // index: ID; objects get an empty entry
	assoc   map[ID]assocInfo
	assocID map[assocKey]ID
	digest  map[ID]digestByte
	origin  map[ID]Str // what a derived string is derived from
	acts    map[string]*Activation
	work    []workItem
	typeIDs map[types.Type]string
	fnIDs   map[*ssa.Function]string

	Outcomes []*Outcome // terminal events other than results of the root
	Problems map[string]string
	Models   map[string]ModelFn // overrides
	Hooks    Hooks

	States, Steps, Forks int
	MaxStates            int
	Endless              bool // report paths that come back to where they were
	vague                bool // a fault reported now is one that may or may not occur
	Deadline             time.Time
	FnSeen               map[*ssa.Function]bool
	CallSites            map[ssa.Instruction]bool
	LoopInt              map[loopKey]map[int64]bool
	LoopCap              int
	Unmodelled           map[string]string
	AppendCap            int
	AnonCap              int            // anonymous elements kept apart in appended lists
	Flags                map[string]Ptr // variables of command-line flags
	initMode             bool
	KeepErrState         bool // keep the effects of calls that return an error
	Forget               bool // forget what calls learn about anonymous content
	WidenAt              int  // results of a call before strings are widened
	DepthLimit           int  // nesting of recursive structures kept across calls
	Debug                bool
	summarised           map[string]bool
}

type loopKey struct {
	fn  *ssa.Function
	blk int
	phi int
}

type Hooks struct {
	// OnStore is called for every store to an existing object.
	OnStore func(e *Engine, st *State, fn *ssa.Function, pos token.Pos, p Ptr, v Value)
	// OnMapUpdate is called for every map update.
	OnMapUpdate func(e *Engine, st *State, fn *ssa.Function, pos token.Pos, m Map, k, v Value)
	// OnCall may intercept a call; it returns true when handled.
	OnCall func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, cont func(*State, Value)) bool
	// OnResult observes every activation result.
	OnResult func(e *Engine, act *Activation, st *State, ret Value)
	// OnConsume is called when a focus element is accessed.
	OnLost  func(e *Engine, o *Obj) // an object is not used any more
	OnPanic func(e *Engine, act *Activation, st *State, o *Outcome)
	// OnJSON is called with the object whose JSON text is made.
	OnJSON func(e *Engine, st *State, v Value)
	// OnDecode may supply the object a JSON text is decoded into.
	OnDecode func(e *Engine, st *State, t types.Type) Value
}

type Outcome struct {
	Kind string // panic, exit, deadlock
	Msg  string
	Pos  token.Pos
	Fn   *ssa.Function
	Act  *Activation
	St   *State
	Code Value
}

type workItem struct {
	act *Activation
	st  *State
}

type Result struct {
	Ret Value
	St  *State
	ids map[ID]bool
}

type Cont struct {
	act   *Activation
	st    *State
	ids   []ID
	onRet func(*State, Value)
}

type Activation struct {
	Fn        *ssa.Function
	key       string
	Args      []Value
	binds     []Value
	entryIDs  []ID
	entrySet  map[ID]bool
	Results   []*Result
	resKeys   map[string]bool
	conts     []*Cont
	visited   map[string]bool
	forks     int // paths split before
	Parent    *Activation
	ParentPos token.Pos
	Depth     int
	Callees   map[*Activation]token.Pos
	entry     *State
}

type FnInfo struct {
	idx    map[ssa.Value]int
	n      int
	liveIn [][]bool                   // per block
	liveAt map[ssa.Instruction][]bool // live after the instruction
	preds  []int
}

func NewEngine(p *Program) *Engine {
	e := &Engine{
		P: p, assoc: map[ID]assocInfo{}, assocID: map[assocKey]ID{}, acts: map[string]*Activation{},
		typeIDs: map[types.Type]string{}, fnIDs: map[*ssa.Function]string{},
		Problems: map[string]string{}, Models: map[string]ModelFn{},
		MaxStates: 400000, FnSeen: map[*ssa.Function]bool{}, CallSites: map[ssa.Instruction]bool{}, Unmodelled: map[string]string{},
		LoopInt: map[loopKey]map[int64]bool{}, LoopCap: 24, AppendCap: 8, AnonCap: 2, DepthLimit: 1, Forget: true, WidenAt: 24,
	}
	e.Flags = maps.Clone(p.flags)
	if e.Flags == nil {
		e.Flags = map[string]Ptr{}
	}
	e.decls = append([]AtomDecl(nil), p.baseDecl...)
	if len(e.decls) == 0 {
		e.decls = make([]AtomDecl, 1)
	}
	return e
}

func (e *Engine) decl(id ID) *AtomDecl { return &e.decls[id] }

func (e *Engine) newID(d AtomDecl) ID {
	e.decls = append(e.decls, d)
	return ID(len(e.decls) - 1)
}

func (e *Engine) isBase(id ID) bool { return id <= e.P.baseMax && !e.initMode }

func (e *Engine) typeID(t types.Type) string {
	if s, ok := e.typeIDs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	e.typeIDs[t] = s
	return s
}

func (e *Engine) fnID(f *ssa.Function) string {
	if s, ok := e.fnIDs[f]; ok {
		return s
	}
	s := fmt.Sprintf("%s%d", f.Name(), len(e.fnIDs))
	e.fnIDs[f] = s
	return s
}

func (e *Engine) obj(st *State, id ID) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	return e.P.base[id]
}

func (e *Engine) problem(fn *ssa.Function, pos token.Pos, format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	w := ""
	if fn != nil {
		w = fn.String() + " "
	}
	k := w + m
	if _, ok := e.Problems[k]; !ok {
		e.Problems[k] = e.Pos(pos)
	}
}

// Pos renders a source position.
func (e *Engine) Pos(p token.Pos) string { return e.P.PosString(p) }

func (p *Program) PosString(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	x := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, "/repo/"), x.Line)
}

func (e *Engine) newObj(st *State, o *Obj) ID {
	id := e.newID(AtomDecl{})
	st.heap[id] = o
	return id
}

func (e *Engine) newAtom(kind byte, t types.Type) ID { return e.newID(AtomDecl{Kind: kind, T: t}) }

func (e *Engine) assocAtom(kind string, a ID, idx int, maps string) ID {
	k := assocKey{kind, a, idx, maps}
	if id, ok := e.assocID[k]; ok {
		return id
	}
	name := e.decl(a).Name
	if name != "" {
		name = kind + "(" + name + ")"
	}
	id := e.newID(AtomDecl{Kind: 'i', T: types.Typ[types.Int], Name: name})
	e.assocID[k] = id
	e.assoc[id] = assocInfo{kind, a, idx, maps}
	return id
}

// ---------------------------------------------------------------------------
// function information: register numbering and liveness

func (p *Program) info(fn *ssa.Function) *FnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[fn]; ok {
		return i
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}, liveAt: map[ssa.Instruction][]bool{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	fi.liveIn = make([][]bool, nb)
	for i := range fi.liveIn {
		fi.liveIn[i] = make([]bool, fi.n)
	}
	use := func(set []bool, in ssa.Instruction) {
		var ops [12]*ssa.Value
		for _, op := range in.Operands(ops[:0]) {
			if *op == nil {
				continue
			}
			if k, ok := fi.idx[*op]; ok {
				set[k] = true
			}
		}
	}
	flow := func(b *ssa.BasicBlock, record bool) []bool {
		live := make([]bool, fi.n)
		for _, s := range b.Succs {
			for k, v := range fi.liveIn[s.Index] {
				if v {
					live[k] = true
				}
			}
			pi := -1
			for i, pb := range s.Preds {
				if pb == b {
					pi = i
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if k, ok := fi.idx[ph.Edges[pi]]; ok {
					live[k] = true
				}
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if record {
				switch in.(type) {
				case *ssa.Call, *ssa.RunDefers, *ssa.Go:
					fi.liveAt[in] = append([]bool(nil), live...)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				live[fi.idx[v]] = false
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			use(live, in)
		}
		return live
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			l := flow(fn.Blocks[i], false)
			for k, v := range l {
				if v && !fi.liveIn[i][k] {
					fi.liveIn[i][k] = true
					changed = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		flow(b, true)
	}
	// phi results are live-in after the phis have been evaluated
	p.infos[fn] = fi
	return fi
}

// ---------------------------------------------------------------------------
// exploration

// Run explores fn from the given state and returns the root activation.
func (e *Engine) Run(st *State, fn *ssa.Function, args []Value) *Activation {
	root := &Activation{Fn: nil, visited: map[string]bool{}, resKeys: map[string]bool{}, Callees: map[*Activation]token.Pos{}}
	top := &Activation{Fn: fn, resKeys: map[string]bool{}}
	_ = root
	e.call(root, st, fn, args, nil, token.NoPos, func(s *State, v Value) {
		top.Results = append(top.Results, &Result{Ret: v, St: s})
	})
	e.loop()
	return top
}

func (e *Engine) loop() {
	for len(e.work) > 0 {
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		if e.States&63 == 0 {
			if MemoryLow.Load() {
				e.problem(nil, token.NoPos, "memory limit exceeded")
				e.work, e.acts = nil, map[string]*Activation{}
				return
			}
			if !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
				e.problem(nil, token.NoPos, "time limit exceeded")
				e.work = nil
				return
			}
		}
		if e.States > e.MaxStates {
			if e.Endless && e.Forks < 20 {
				e.outcome(it.act, it.st, "loop", it.act.pos(it.st), nil, "goes on for more than %d steps", e.MaxStates)
			}
			e.problem(nil, token.NoPos, "state limit of %d exceeded", e.MaxStates)
			e.work = nil
			return
		}
		e.exec(it.act, it.st)
	}
}

func (e *Engine) push(act *Activation, st *State) { e.work = append(e.work, workItem{act, st}) }

func (e *Engine) newCanon(st *State) *canon {
	return &canon{e: e, s: st, num: make(map[ID]int, 64), b: make([]byte, 0, 1024)}
}

// call performs a call of an interpreted function.
func (e *Engine) call(act *Activation, st *State, fn *ssa.Function, args, binds []Value, pos token.Pos, onRet func(*State, Value)) {
	if fn.Blocks == nil {
		e.problem(fn, pos, "no body")
		return
	}
	if st.hasBind() {
		st.flatten()
		for i := range args {
			args[i] = st.deepResolve(args[i])
		}
		for i := range binds {
			binds[i] = st.deepResolve(binds[i])
		}
	}
	st = e.limitEntry(st, args, binds)
	c := e.newCanon(st)
	c.w(e.fnID(fn))
	c.w("(")
	for _, a := range args {
		c.val(a)
		c.w(",")
	}
	c.w(";")
	for _, a := range binds {
		c.val(a)
		c.w(",")
	}
	c.w(")")
	c.baseRoots()
	c.drain()
	c.finish()
	key := string(c.b)
	cont := &Cont{act: act, st: st, ids: c.order, onRet: onRet}
	a := e.acts[key]
	isNew := a == nil
	if isNew {
		a = &Activation{Fn: fn, key: key, Args: args, binds: binds, entryIDs: c.order, resKeys: map[string]bool{},
			visited: map[string]bool{}, Parent: act, ParentPos: pos, Depth: act.Depth + 1,
			entrySet: make(map[ID]bool, len(c.order)), Callees: map[*Activation]token.Pos{}}
		for _, id := range c.order {
			a.entrySet[id] = true
		}
		a.forks = e.Forks
		e.acts[key] = a
		e.FnSeen[fn] = true
		fi := e.P.info(fn)
		ns := &State{blk: fn.Blocks[0], regs: make([]Value, fi.n), heap: map[ID]*Obj{}, at: map[ID]*AInfo{}, mon: st.mon}
		for i, p := range fn.Params {
			if i < len(args) {
				ns.regs[fi.idx[p]] = args[i]
			}
		}
		for i, p := range fn.FreeVars {
			ns.regs[fi.idx[p]] = binds[i]
		}
		for _, id := range c.order {
			if o, ok := st.heap[id]; ok {
				ns.heap[id] = o
			}
			if o, ok := st.at[id]; ok {
				ns.at[id] = o
			}
		}
		ns.facts = append([]Fact(nil), c.facts...)
		if a.Depth > 200 {
			e.problem(fn, pos, "call depth exceeds 200")
			return
		}
		a.entry = ns.clone()
		e.push(a, ns)
	}
	if e.Endless && !isNew && a.forks == e.Forks {
		for x := act; x != nil; x = x.Parent {
			if x == a {
				e.outcome(act, st, "loop", pos, nil, "calls itself as it was called")
				break
			}
		}
	}
	act.Callees[a] = pos
	a.conts = append(a.conts, cont)
	for _, r := range append([]*Result(nil), a.Results...) {
		e.resume(a, cont, r)
	}
}

// finish records a result of an activation.
func (e *Engine) finish(act *Activation, st *State, ret Value) {
	if st.hasBind() {
		st.flatten()
		ret = st.deepResolve(ret)
	}
	if !e.initMode {
		st, ret = e.errResult(act, st, ret)
		ret = e.limitDepth(act, st, ret)
		e.forget(act, st, ret)
		ret = e.widenRet(act, st, ret)
	}
	c := e.newCanon(st)
	e.rootsOfEntry(c, act)
	c.w("R")
	c.val(ret)
	c.baseRoots()
	c.drain()
	c.finish()
	key := string(c.b)
	if act.resKeys[key] {
		return
	}
	act.resKeys[key] = true
	c.prune(st)
	st.regs = nil
	r := &Result{Ret: ret, St: st}
	act.Results = append(act.Results, r)
	if e.Hooks.OnResult != nil {
		e.Hooks.OnResult(e, act, st, ret)
	}
	if len(act.Results) > 20000 {
		e.problem(act.Fn, act.Fn.Pos(), "too many results")
		return
	}
	for _, ct := range append([]*Cont(nil), act.conts...) {
		e.resume(act, ct, r)
	}
}

// rootsOfEntry numbers everything that existed on entry first.
func (e *Engine) rootsOfEntry(c *canon, act *Activation) {
	for _, id := range act.entryIDs {
		if _, ok := c.num[id]; ok {
			continue
		}
		d := e.decl(id)
		if d.Kind == 0 {
			if o := e.obj(c.s, id); o != nil {
				c.objRef(id)
			}
			continue
		}
		a := c.s.info(id)
		if a != nil && a.Bind != nil {
			c.num[id] = len(c.order)
			c.order = append(c.order, id)
			c.w("=")
			c.val(a.Bind)
			c.w(";")
			continue
		}
		c.atom(id)
		c.w(";")
	}
}

func (e *Engine) resume(act *Activation, ct *Cont, r *Result) {
	m := make(map[ID]ID, len(act.entryIDs)+16)
	for i, id := range act.entryIDs {
		m[id] = ct.ids[i]
	}
	var ren func(id ID) ID
	ren = func(id ID) ID {
		if id == 0 || e.isBase(id) {
			return id
		}
		if n, ok := m[id]; ok {
			return n
		}
		d := *e.decl(id)
		if d.Name != "" {
			return id
		}
		if o, ok := r.St.heap[id]; ok && o.Name != "" {
			return id
		}
		if as, ok := e.assoc[id]; ok {
			n := e.assocAtom(as.Kind, ren(as.Atom), as.Idx, as.Maps)
			m[id] = n
			return n
		}
		n := e.newID(d)
		m[id] = n
		return n
	}
	ns := ct.st.clone()
	for id, o := range r.St.heap {
		nid := ren(id)
		ns.heap[nid] = mapObj(e.renameObj(o, ren, r.St), func(v Value) Value { return v }, nil)
	}
	for id, a := range r.St.at {
		na := *a
		if na.Bind != nil {
			na.Bind = renameValue(e, na.Bind, ren, r.St)
		}
		if na.Lower != 0 {
			na.Lower = ren(na.Lower)
		}
		ns.at[ren(id)] = &na
	}
	for _, f := range r.St.facts {
		ns.addFact(Fact{renameStr(f.A, ren), renameStr(f.B, ren), f.P, f.Val})
	}
	ns.mon = r.St.mon
	ret := renameValue(e, r.Ret, ren, r.St)
	ns.tr = &Trace{Parent: ct.st.tr, Sub: r.St.tr, Pos: act.Fn.Pos(), Msg: "call " + act.Fn.String()}
	ct.onRet(ns, ret)
}

func (s *State) addFact(f Fact) {
	for _, g := range s.facts {
		if g.P == f.P && g.Val == f.Val && g.A.raw() == f.A.raw() && g.B.raw() == f.B.raw() {
			return
		}
	}
	s.facts = append(s.facts, f)
}

func (e *Engine) renameObj(o *Obj, ren func(ID) ID, st *State) *Obj {
	n := *o
	rv := func(v Value) Value {
		if v == nil {
			return nil
		}
		return renameValue(e, v, ren, st)
	}
	n.V = rv(o.V)
	if o.Segs != nil {
		n.Segs = make([]Seg, len(o.Segs))
		for i, sg := range o.Segs {
			n.Segs[i] = Seg{ren(sg.UID), sg.Star, rv(sg.V)}
		}
	}
	if o.Ents != nil {
		n.Ents = make([]MapEnt, len(o.Ents))
		for i, en := range o.Ents {
			en.K, en.V = rv(en.K), rv(en.V)
			n.Ents[i] = en
		}
	}
	n.Rest = rv(o.Rest)
	n.RestK = rv(o.RestK)
	n.Over = rv(o.Over)
	n.Pos = rv(o.Pos)
	return &n
}

// checkpoint canonicalises the state and reports whether it is new.
func (e *Engine) checkpoint(act *Activation, st *State, live []bool, extra ssa.Instruction) bool {
	if live != nil {
		fi := e.P.info(act.Fn)
		var ex = -1
		if v, ok := extra.(ssa.Value); ok {
			ex = fi.idx[v]
		}
		for i := range st.regs {
			if !live[i] && i != ex {
				st.regs[i] = nil
			}
		}
	}
	if st.hasBind() {
		st.flatten()
	}
	e.focusBlur(st)
	c := e.newCanon(st)
	e.rootsOfEntry(c, act)
	c.wi(int64(st.blk.Index))
	c.w("/")
	c.wi(int64(st.pc))
	c.w(" ")
	for _, v := range st.regs {
		if v == nil {
			c.w(",")
			continue
		}
		c.val(v)
		c.w(",")
	}
	for _, d := range st.defers {
		c.w("D")
		c.val(d.fn)
		for _, a := range d.args {
			c.val(a)
		}
		c.wi(int64(d.pos))
	}
	if st.rd {
		c.w("rd")
	}
	c.baseRoots()
	c.drain()
	c.finish()
	k := string(c.b)
	if act.visited[k] {
		if e.Endless {
			for n := st.been; n != nil && n.forks == e.Forks; n = n.parent {
				if n.key == k {
					e.outcome(act, st, "loop", act.pos(st), nil, "comes back to where it was")
					break
				}
			}
		}
		return false
	}
	act.visited[k] = true
	if e.Endless {
		st.been = &been{k, e.Forks, st.been}
	}
	c.prune(st)
	e.States++
	return true
}

// been is where a path was in its function.
type been struct {
	key    string
	forks  int // paths split before
	parent *been
}

// pos is the place a path has come to.
func (a *Activation) pos(st *State) token.Pos {
	for b := st.blk; b != nil; {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
		break
	}
	return a.Fn.Pos()
}

// focusBlur is replaced in focus.go
func (e *Engine) focusBlur(st *State) {}

// outcome records a terminal event.
func (e *Engine) outcome(act *Activation, st *State, kind string, pos token.Pos, code Value, format string, args ...any) {
	o := &Outcome{Kind: kind, Msg: fmt.Sprintf(format, args...), Pos: pos, Fn: act.Fn, Act: act, St: st, Code: code}
	if e.Hooks.OnPanic != nil {
		e.Hooks.OnPanic(e, act, st, o)
	}
	for _, p := range e.Outcomes {
		if p.Kind == kind && p.Pos == pos && p.Fn == act.Fn && p.Msg == o.Msg && maps.Equal(p.St.mon, st.mon) && fmt.Sprint(p.Code) == fmt.Sprint(code) {
			return
		}
	}
	e.Outcomes = append(e.Outcomes, o)
}

// CallChain renders how an activation was first reached.
func (e *Engine) CallChain(a *Activation) string {
	var out []string
	for a != nil && a.Fn != nil {
		s := a.Fn.String()
		if a.ParentPos.IsValid() {
			s += " (called at " + e.Pos(a.ParentPos) + ")"
		}
		out = append(out, s)
		a = a.Parent
	}
	return strings.Join(out, " <- ")
}

// TraceLines renders the branch decisions of a path.
func (e *Engine) TraceLines(t *Trace, maxLines int) []string {
	var out []string
	var walk func(t *Trace, depth int)
	walk = func(t *Trace, depth int) {
		if t == nil || depth > 40 {
			return
		}
		var chain []*Trace
		for x := t; x != nil; x = x.Parent {
			chain = append(chain, x)
		}
		for i := len(chain) - 1; i >= 0; i-- {
			x := chain[i]
			if x.Msg != "" {
				out = append(out, strings.Repeat(" ", min(depth, 12))+e.Pos(x.Pos)+": "+x.Msg)
			}
			if x.Sub != nil {
				walk(x.Sub, depth+1)
			}
		}
	}
	walk(t, 0)
	if len(out) > maxLines {
		h := maxLines / 2
		out = append(append(append([]string{}, out[:h]...), fmt.Sprintf("... %d lines ...", len(out)-maxLines)), out[len(out)-h:]...)
	}
	return out
}

// sortedProblems lists what the analysis could not decide.
func (e *Engine) SortedProblems() []string {
	var out []string
	for k, p := range e.Problems {
		out = append(out, p+": "+k)
	}
	sort.Strings(out)
	return out
}
