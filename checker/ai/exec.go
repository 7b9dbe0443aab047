package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	s *State
	v Value
}

func one(s *State, v Value) []SV { return []SV{{s, v}} }

// exec runs a state until it forks away, ends or is suspended.
func (e *Engine) exec(act *Activation, st *State) {
	for {
		if st.pc >= len(st.blk.Instrs) {
			panic("fell off block")
		}
		in := st.blk.Instrs[st.pc]
		e.Steps++
		switch x := in.(type) {
		case *ssa.Jump:
			if !e.enter(act, st, st.blk.Succs[0]) {
				return
			}
			continue
		case *ssa.If:
			c := st.resolve(e.get(st, act, x.Cond))
			switch b := c.(type) {
			case Bool:
				e.noteIf(st, x, bool(b))
				if !e.enter(act, st, st.blk.Succs[btoi(!bool(b))]) {
					return
				}
				continue
			}
			rs := e.forkBool(st, c)
			e.Forks += len(rs) - 1
			for _, r := range rs {
				ns := r.s
				if x2, ok := e.P.info(act.Fn).idx[x.Cond]; ok {
					ns.regs[x2] = r.v
				}
				t := bool(r.v.(Bool))
				e.noteIf(ns, x, t)
				if e.enter(act, ns, ns.blk.Succs[btoi(!t)]) {
					e.push(act, ns)
				}
			}
			return
		case *ssa.Return:
			var ret Value
			switch len(x.Results) {
			case 0:
			case 1:
				ret = e.get(st, act, x.Results[0])
			default:
				t := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					t[i] = e.get(st, act, r)
				}
				ret = t
			}
			st.note(x.Pos(), "return")
			e.finish(act, st, ret)
			return
		case *ssa.Panic:
			e.outcome(act, st, "panic", x.Pos(), nil, "explicit panic")
			return
		case *ssa.RunDefers:
			if len(st.defers) == 0 {
				st.rd = false
				st.pc++
				continue
			}
			d := st.defers[len(st.defers)-1]
			st.defers = st.defers[:len(st.defers)-1]
			// pc stays: next defer afterwards
			e.doCall(act, st, d.call, d.fn, d.args, d.pos, x, func(ns *State, v Value) {
				if e.checkpoint(act, ns, e.P.info(act.Fn).liveAt[x], nil) {
					e.push(act, ns)
				}
			})
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call, pos: x.Pos()}
			d.fn, d.args = e.callOperands(act, st, &x.Call)
			st.defers = append(st.defers, d)
			st.pc++
			continue
		case *ssa.Go:
			fn, args := e.callOperands(act, st, &x.Call)
			e.doCall(act, st, &x.Call, fn, args, x.Pos(), x, func(ns *State, v Value) {
				ns.pc++
				if e.checkpoint(act, ns, e.P.info(act.Fn).liveAt[x], nil) {
					e.push(act, ns)
				}
			})
			return
		case *ssa.Call:
			e.CallSites[x] = true
			fn, args := e.callOperands(act, st, &x.Call)
			slot := e.P.info(act.Fn).idx[x]
			cp := false
			done := false
			e.doCall(act, st, &x.Call, fn, args, x.Pos(), x, func(ns *State, v Value) {
				ns.regs[slot] = v
				ns.pc++
				if !done && !cp {
					// result delivered synchronously by a model
				}
				if e.checkpoint(act, ns, e.P.info(act.Fn).liveAt[x], x) {
					e.push(act, ns)
				}
			})
			done = true
			return
		case *ssa.Store:
			outs := e.store(act, st, e.get(st, act, x.Addr), e.get(st, act, x.Val), x.Pos(), act.Fn)
			if len(outs) == 1 {
				st = outs[0]
				st.pc++
				continue
			}
			for _, ns := range outs {
				ns.pc++
				e.push(act, ns)
			}
			return
		case *ssa.MapUpdate:
			outs := e.mapUpdate(act, st, e.get(st, act, x.Map), e.get(st, act, x.Key), e.get(st, act, x.Value), x.Pos())
			for _, ns := range outs {
				ns.pc++
			}
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			for _, ns := range outs {
				e.push(act, ns)
			}
			return
		case *ssa.Send:
			ch := st.resolve(e.get(st, act, x.Chan))
			c, ok := ch.(Chan)
			if !ok {
				e.outcome(act, st, "deadlock", x.Pos(), nil, "send on an unknown or nil channel")
				return
			}
			o := *st.heap[c.Obj]
			if o.Closed {
				e.outcome(act, st, "panic", x.Pos(), nil, "send on closed channel")
				return
			}
			e.appendChan(st, &o, e.get(st, act, x.X))
			st.heap[c.Obj] = &o
			st.pc++
			continue
		case *ssa.DebugRef:
			st.pc++
			continue
		}
		v, ok := in.(ssa.Value)
		if !ok {
			e.problem(act.Fn, in.Pos(), "unsupported instruction %T", in)
			return
		}
		outs := e.eval(act, st, v, in)
		slot := e.P.info(act.Fn).idx[v]
		if len(outs) == 0 {
			return
		}
		if len(outs) == 1 {
			st = outs[0].s
			st.regs[slot] = outs[0].v
			st.pc++
			continue
		}
		e.Forks += len(outs) - 1
		for i := len(outs) - 1; i >= 0; i-- {
			ns := outs[i].s
			ns.regs[slot] = outs[i].v
			ns.pc++
			e.push(act, ns)
		}
		return
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (e *Engine) noteIf(st *State, x *ssa.If, v bool) {
	pos := x.Pos()
	if !pos.IsValid() {
		if i, ok := x.Cond.(ssa.Instruction); ok {
			pos = i.Pos()
		}
	}
	st.note(pos, "%v is %v", condText(x.Cond), v)
}

func condText(v ssa.Value) string {
	switch c := v.(type) {
	case *ssa.BinOp:
		return opText(c.X) + " " + c.Op.String() + " " + opText(c.Y)
	case *ssa.UnOp:
		return c.Op.String() + opText(c.X)
	}
	return opText(v)
}

func opText(v ssa.Value) string {
	switch c := v.(type) {
	case *ssa.Const:
		return c.String()
	case *ssa.UnOp:
		if c.Op == token.MUL {
			return opText(c.X)
		}
	case *ssa.FieldAddr:
		st := c.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return opText(c.X) + "." + st.Field(c.Field).Name()
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return v.Name()
	case *ssa.Alloc:
		if c.Comment != "" {
			return c.Comment
		}
	case *ssa.Phi:
		if c.Comment != "" {
			return c.Comment
		}
	case *ssa.IndexAddr:
		return opText(c.X) + "[" + opText(c.Index) + "]"
	case *ssa.Call:
		n := c.Call.Value.Name()
		if f := c.Call.StaticCallee(); f != nil {
			n = f.Name()
		} else if c.Call.IsInvoke() {
			n = c.Call.Method.Name()
		}
		s := n + "("
		for i, a := range c.Call.Args {
			if i > 0 {
				s += ", "
			}
			s += opText(a)
		}
		return s + ")"
	case *ssa.Extract:
		return opText(c.Tuple)
	case *ssa.BinOp:
		return condText(c)
	case *ssa.Lookup:
		return opText(c.X) + "[" + opText(c.Index) + "]"
	}
	return v.Name()
}

// enter moves to a successor block; false if the state is already known.
func (e *Engine) enter(act *Activation, st *State, b *ssa.BasicBlock) bool {
	from := st.blk
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	// parallel phi assignment
	fi := e.P.info(act.Fn)
	n := 0
	var vals []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, st.resolve(e.get(st, act, ph.Edges[pi])))
		n++
	}
	for i := 0; i < n; i++ {
		ph := b.Instrs[i].(*ssa.Phi)
		v := vals[i]
		if iv, ok := v.(Int); ok && len(b.Preds) > 1 && !e.initMode && e.isLoopHead(b) {
			switch {
			case iv.isConst():
				v = e.widenInt(st, loopKey{act.Fn, b.Index, i}, iv)
			case len(iv.T) == 1 && iv.T[0].Coef == 1 && iv.C != 0 && e.decl(iv.T[0].ID).Wide:
				v = e.widenStep(st, iv)
			}
		}
		if sv, ok := v.(Str); ok && len(sv.P) > 12 {
			v = e.inst(st, ph.Type(), false)
		}
		st.regs[fi.idx[ph]] = v
	}
	st.blk = b
	st.pc = n
	if len(b.Preds) > 1 || n > 0 {
		live := make([]bool, fi.n)
		copy(live, fi.liveIn[b.Index])
		for i := 0; i < n; i++ {
			ph := b.Instrs[i].(*ssa.Phi)
			live[fi.idx[ph]] = e.phiLive(fi, ph, b)
		}
		if e.isLoopHead(b) {
			if st.hasBind() {
				for i := range st.regs {
					if !live[i] {
						st.regs[i] = nil
					}
				}
				st.flatten()
			}
			e.blur(st, live)
		}
		return e.checkpoint(act, st, live, nil)
	}
	return true
}

func (e *Engine) phiLive(fi *FnInfo, ph *ssa.Phi, b *ssa.BasicBlock) bool {
	return len(*ph.Referrers()) > 0
}

var loopHeads = map[*ssa.BasicBlock]bool{}

func (e *Engine) isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (e *Engine) widenInt(st *State, k loopKey, v Int) Value {
	m := e.LoopInt[k]
	if m == nil {
		m = map[int64]bool{}
		e.LoopInt[k] = m
	}
	m[v.C] = true
	if len(m) <= e.LoopCap {
		return v
	}
	// only what lies beyond the cap is merged
	c := int64(e.LoopCap)
	r := Rng{c, MaxI}
	switch {
	case v.C < -c:
		r = Rng{MinI, -c}
	case v.C <= c:
		return v
	}
	id := e.newID(AtomDecl{Kind: 'i', T: types.Typ[types.Int], Wide: true})
	st.at[id] = &AInfo{R: []Rng{r}}
	return atomInt(id)
}

// widenStep absorbs a step of a counter that has been widened already.
func (e *Engine) widenStep(st *State, v Int) Value {
	r := Rng{MinI, MaxI}
	if a := st.info(v.T[0].ID); a != nil && len(a.R) > 0 {
		if v.C > 0 {
			r.Lo = a.R[0].Lo
			if c := int64(e.LoopCap); r.Lo != MinI && r.Lo < c {
				r.Lo = min(r.Lo+v.C, c)
			}
		} else {
			r.Hi = a.R[len(a.R)-1].Hi
			if c := int64(-e.LoopCap); r.Hi != MaxI && r.Hi > c {
				r.Hi = max(r.Hi+v.C, c)
			}
		}
	}
	id := e.newID(AtomDecl{Kind: 'i', T: types.Typ[types.Int], Wide: true})
	st.at[id] = &AInfo{R: []Rng{r}}
	return atomInt(id)
}

// get evaluates an operand.
func (e *Engine) get(st *State, act *Activation, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return Ptr{Obj: e.global(x)}
	case *ssa.Function:
		return Func{Fn: x}
	case *ssa.Builtin:
		return BuiltinFn{x}
	}
	i, ok := e.P.info(act.Fn).idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v", v))
	}
	r := st.regs[i]
	if r == nil {
		panic(fmt.Sprintf("undefined register %s in %s", v.Name(), act.Fn))
	}
	return st.resolve(r)
}

func (e *Engine) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return cstr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Opaque{c.Type()}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return cint(i)
		}
		if _, ok := constant.Uint64Val(c.Value); ok {
			return cint(MaxI)
		}
	}
	return Opaque{c.Type()}
}

func (e *Engine) global(g *ssa.Global) ID {
	if id, ok := e.P.globals[g]; ok {
		return id
	}
	// global of a package that is not interpreted
	id := e.newID(AtomDecl{})
	e.P.globals[g] = id
	e.P.base[id] = &Obj{Kind: OCell, T: g.Type().(*types.Pointer).Elem(), V: Fresh{T: g.Type().(*types.Pointer).Elem()}, Name: g.String(), Input: true}
	return id
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return cint(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UntypedNil:
			return Nil{}
		}
		return Opaque{t}
	case *types.Struct:
		s := Struct{T: t, F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			return Opaque{t}
		}
		a := Array{T: t, E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = e.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = e.zero(u.At(i).Type())
		}
		return out
	}
	return Nil{}
}

// inst creates an unknown value of a type.
func (e *Engine) inst(st *State, t types.Type, nonnil bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BAtom{ID: e.newAtom('b', t)}
		case u.Info()&types.IsInteger != 0:
			id := e.newAtom('i', t)
			if r, ok := basicRange(u); ok {
				st.at[id] = &AInfo{R: []Rng{r}}
			}
			return atomInt(id)
		case u.Info()&types.IsString != 0:
			return Str{P: []SPart{{Atom: e.newAtom('s', t)}}}
		}
		return Opaque{t}
	case *types.Struct:
		s := Struct{T: t, F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = Fresh{T: u.Field(i).Type()}
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			return Opaque{t}
		}
		a := Array{T: t, E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = Fresh{T: u.Elem()}
		}
		return a
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = e.inst(st, u.At(i).Type(), false)
		}
		return out
	}
	id := e.newAtom('u', t)
	if nonnil {
		st.at[id] = &AInfo{NonNil: true}
	}
	return Unk{ID: id, T: t}
}

func basicRange(u *types.Basic) (Rng, bool) {
	switch u.Kind() {
	case types.Uint8:
		return Rng{0, 255}, true
	case types.Int8:
		return Rng{-128, 127}, true
	case types.Uint16:
		return Rng{0, 65535}, true
	case types.Int16:
		return Rng{-32768, 32767}, true
	case types.Uint32:
		return Rng{0, math.MaxUint32}, true
	case types.Int32:
		return Rng{math.MinInt32, math.MaxInt32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return Rng{0, MaxI}, true
	}
	return Rng{}, false
}

// forkBool splits on an unknown truth value.
func (e *Engine) forkBool(st *State, v Value) []SV {
	v = st.resolve(v)
	switch b := v.(type) {
	case Bool:
		return one(st, b)
	case BAtom:
		t := st.clone()
		t.upd(b.ID, func(a *AInfo) { a.Bind = Bool(!b.Neg) })
		st.upd(b.ID, func(a *AInfo) { a.Bind = Bool(b.Neg) })
		return []SV{{t, Bool(true)}, {st, Bool(false)}}
	}
	return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}}
}

func (e *Engine) panicAt(act *Activation, st *State, pos token.Pos, format string, args ...any) {
	if e.vague && !strings.HasPrefix(format, "possible ") {
		format = "possible " + format
	}
	e.outcome(act, st, "panic", pos, nil, format, args...)
}

// eval computes the value of an instruction.
func (e *Engine) eval(act *Activation, st *State, v ssa.Value, in ssa.Instruction) []SV {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := e.newObj(st, &Obj{Kind: OCell, T: t, V: e.zero(t)})
		return one(st, Ptr{Obj: id})
	case *ssa.Phi:
		panic("phi")
	case *ssa.BinOp:
		return e.binop(act, st, x)
	case *ssa.UnOp:
		return e.unop(act, st, x)
	case *ssa.ChangeType:
		return one(st, retype(e.get(st, act, x.X), x.Type()))
	case *ssa.ChangeInterface:
		return one(st, e.get(st, act, x.X))
	case *ssa.MakeInterface:
		return one(st, Iface{T: x.X.Type(), V: e.get(st, act, x.X)})
	case *ssa.Convert:
		return e.convert(act, st, e.get(st, act, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MultiConvert:
		return e.convert(act, st, e.get(st, act, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.Extract:
		t := e.get(st, act, x.Tuple)
		switch tt := t.(type) {
		case Tuple:
			return one(st, e.own(st, tt[x.Index]))
		}
		return one(st, e.inst(st, x.Type(), false))
	case *ssa.Field:
		switch s := e.get(st, act, x.X).(type) {
		case Struct:
			f := s.F[x.Field]
			if fr, ok := f.(Fresh); ok {
				f = e.own(st, fr)
				// make later reads consistent
				if k, ok := e.P.info(act.Fn).idx[x.X]; ok {
					ns := Struct{s.T, append([]Value(nil), s.F...)}
					ns.F[x.Field] = f
					st.regs[k] = ns
				}
			}
			return one(st, f)
		}
		return one(st, e.inst(st, x.Type(), false))
	case *ssa.FieldAddr:
		return e.derefFork(act, st, x.X, x.Pos(), func(s *State, p Ptr) []SV {
			return one(s, Ptr{p.Obj, p.Path + pathEl(int32(x.Field))})
		})
	case *ssa.IndexAddr:
		return e.indexAddr(act, st, x)
	case *ssa.Index:
		return e.index(act, st, x)
	case *ssa.Lookup:
		return e.lookup(act, st, x)
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, y := range x.Bindings {
			b[i] = e.get(st, act, y)
		}
		return one(st, Func{x.Fn.(*ssa.Function), b})
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return one(st, Map{e.newObj(st, &Obj{Kind: OMap, T: mt.Elem(), KeyT: mt.Key()})})
	case *ssa.MakeChan:
		return one(st, Chan{e.newObj(st, &Obj{Kind: OChan, T: x.Type().Underlying().(*types.Chan).Elem()})})
	case *ssa.MakeSlice:
		return e.makeSlice(act, st, x)
	case *ssa.Slice:
		return e.slice(act, st, x)
	case *ssa.Range:
		return e.rangeOver(act, st, x)
	case *ssa.Next:
		return e.next(act, st, x)
	case *ssa.TypeAssert:
		return e.typeAssert(act, st, x)
	case *ssa.Select:
		e.problem(act.Fn, x.Pos(), "select statement")
		return nil
	case *ssa.SliceToArrayPointer:
		e.problem(act.Fn, x.Pos(), "slice to array pointer conversion")
		return nil
	}
	e.problem(act.Fn, v.Pos(), "unsupported instruction %T", v)
	return nil
}

// own instantiates lazily unknown content.
func (e *Engine) own(st *State, v Value) Value {
	if i, ok := v.(Iface); ok {
		if _, fr := i.V.(Fresh); fr {
			return Iface{T: i.T, V: e.own(st, i.V)}
		}
	}
	f, ok := v.(Fresh)
	if !ok {
		return v
	}
	r := e.inst(st, f.T, f.NonNil)
	switch x := r.(type) {
	case Unk:
		if f.Deep {
			st.upd(x.ID, func(a *AInfo) { a.Deep = true })
		}
		if f.Tmpl != nil {
			st.upd(x.ID, func(a *AInfo) { a.Tmpl = f.Tmpl })
		}
	case Struct:
		if f.Deep {
			for i := range x.F {
				fr := x.F[i].(Fresh)
				fr.Deep = true
				x.F[i] = fr
			}
		}
	case Str:
		for _, l := range f.Lits {
			e.addLit(st, x.P[0].Atom, l)
		}
		for _, n := range f.Not {
			ns, ok := st.resolve(n).(Str)
			if !ok {
				continue
			}
			if c, ok := ns.Const(); ok {
				e.addLit(st, x.P[0].Atom, Lit{P: PExact(c), Neg: true})
			} else {
				st.addFact(Fact{A: x, B: ns})
				if len(ns.P) == 1 && ns.P[0].Maps == "l" {
					// it differs in more than letter case
					st.addFact(Fact{A: mapCase(x, "l"), B: ns})
					st.addFact(Fact{A: x, B: Str{P: []SPart{{Atom: ns.P[0].Atom}}}})
				}
			}
		}
	}
	return r
}

// elemFresh is the content of a container of unknown elements.
func elemFresh(t types.Type, deep bool) Fresh { return Fresh{T: t, NonNil: deep, Deep: deep} }

func retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case Struct:
		return Struct{t, x.F}
	case Array:
		return Array{t, x.E}
	case Unk:
		return Unk{x.ID, t}
	}
	return v
}

func (e *Engine) unop(act *Activation, st *State, x *ssa.UnOp) []SV {
	switch x.Op {
	case token.MUL:
		return e.derefFork(act, st, x.X, x.Pos(), func(s *State, p Ptr) []SV { return e.load(s, p) })
	case token.NOT:
		switch b := e.get(st, act, x.X).(type) {
		case Bool:
			return one(st, Bool(!bool(b)))
		case BAtom:
			return one(st, BAtom{b.ID, !b.Neg})
		}
		return one(st, e.inst(st, x.Type(), false))
	case token.SUB:
		if i, ok := e.get(st, act, x.X).(Int); ok {
			return one(st, linAdd(cint(0), i, -1))
		}
		return one(st, e.inst(st, x.Type(), false))
	case token.XOR:
		if i, ok := e.get(st, act, x.X).(Int); ok && i.isConst() {
			return one(st, cint(^i.C))
		}
		return one(st, e.inst(st, x.Type(), false))
	case token.ARROW:
		return e.recv(act, st, e.get(st, act, x.X), x.CommaOk, x.X.Type(), x.Pos())
	}
	e.problem(act.Fn, x.Pos(), "unary operator %v", x.Op)
	return nil
}

// derefFork resolves a pointer operand, splitting off the nil case.
func (e *Engine) derefFork(act *Activation, st *State, op ssa.Value, pos token.Pos, f func(*State, Ptr) []SV) []SV {
	v := e.get(st, act, op)
	return e.derefVal(act, st, v, opText(op), pos, f)
}

func (e *Engine) derefVal(act *Activation, st *State, v Value, what string, pos token.Pos, f func(*State, Ptr) []SV) []SV {
	v = st.resolve(v)
	switch p := v.(type) {
	case Ptr:
		return f(st, p)
	case Nil:
		e.panicAt(act, st, pos, "nil pointer dereference of %s", what)
		return nil
	case Unk:
		a := st.info(p.ID)
		if a == nil || !a.NonNil {
			bad := st.clone()
			bad.upd(p.ID, func(a *AInfo) { a.Bind = Nil{} })
			e.panicAt(act, bad, pos, "possible nil pointer dereference of %s", what)
		}
		q, ok := e.materialize(st, p)
		if !ok {
			e.problem(act.Fn, pos, "dereference of %s of type %s", what, p.T)
			return nil
		}
		return f(st, q.(Ptr))
	case VSet:
		var out []SV
		for _, alt := range p {
			out = append(out, e.derefVal(act, st.clone(), alt, what, pos, f)...)
		}
		return out
	}
	e.problem(act.Fn, pos, "dereference of a %T", v)
	return nil
}

// fill builds a struct from a template.
func (e *Engine) fill(t types.Type, tm *Tmpl, deep bool) Value {
	u := t.Underlying().(*types.Struct)
	s := Struct{T: t, F: make([]Value, u.NumFields())}
	for i := range s.F {
		f := u.Field(i)
		if v := tm.F[f.Name()]; v != nil {
			s.F[i] = v
		} else if _, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
			s.F[i] = e.fill(f.Type(), tm, deep)
		} else {
			s.F[i] = Fresh{T: f.Type(), Deep: deep}
		}
	}
	return s
}

// materialize gives an unknown reference an object of its own.
func (e *Engine) materialize(st *State, u Unk) (Value, bool) {
	var r Value
	deep := false
	if a := st.info(u.ID); a != nil {
		deep = a.Deep
	}
	switch t := u.T.Underlying().(type) {
	case *types.Pointer:
		var v Value = Fresh{T: t.Elem(), Deep: deep}
		var tm *Tmpl
		if a := st.info(u.ID); a != nil && a.Tmpl != nil {
			tm = a.Tmpl
			v = e.fill(t.Elem(), tm, deep)
			if tm.isMerged() {
				st.SetMon("unmodelled", "the elements of a list, which were merged")
			}
		}
		r = Ptr{Obj: e.newObj(st, &Obj{Kind: OCell, T: t.Elem(), V: v, Input: true, Tmpl: tm, Deep: deep})}
	case *types.Slice:
		id := e.newAtom('i', types.Typ[types.Int])
		st.at[id] = &AInfo{R: []Rng{{0, MaxI}}}
		r = Slice{e.newObj(st, &Obj{Kind: OSeq, T: t.Elem(), Segs: []Seg{{UID: id, Star: true, V: elemFresh(t.Elem(), deep)}}, Input: true})}
	case *types.Map:
		r = Map{e.newObj(st, &Obj{Kind: OMap, T: t.Elem(), KeyT: t.Key(), Rest: elemFresh(t.Elem(), deep), Input: true})}
	default:
		return nil, false
	}
	st.upd(u.ID, func(a *AInfo) { a.Bind = r })
	return r, true
}

// nav walks into a value tree.
func (e *Engine) nav(v Value, path []int32) (Value, bool) {
	for _, p := range path {
		switch x := v.(type) {
		case Struct:
			v = x.F[p]
		case Array:
			v = x.E[p]
		default:
			return v, false
		}
	}
	return v, true
}

// expand makes the content along a path explicit.
func (e *Engine) expand(st *State, v Value, path []int32) Value {
	if f, ok := v.(Fresh); ok {
		v = e.own(st, f)
	}
	if len(path) == 0 {
		return v
	}
	switch x := v.(type) {
	case Struct:
		n := Struct{x.T, append([]Value(nil), x.F...)}
		n.F[path[0]] = e.expand(st, n.F[path[0]], path[1:])
		return n
	case Array:
		n := Array{x.T, append([]Value(nil), x.E...)}
		n.E[path[0]] = e.expand(st, n.E[path[0]], path[1:])
		return n
	}
	return v
}

func (e *Engine) setPath(st *State, v Value, path []int32, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	if f, ok := v.(Fresh); ok {
		v = e.own(st, f)
	}
	switch x := v.(type) {
	case Struct:
		n := Struct{x.T, append([]Value(nil), x.F...)}
		n.F[path[0]] = e.setPath(st, n.F[path[0]], path[1:], nv)
		return n
	case Array:
		n := Array{x.T, append([]Value(nil), x.E...)}
		n.E[path[0]] = e.setPath(st, n.E[path[0]], path[1:], nv)
		return n
	}
	return v
}

// load reads through a pointer.
func (e *Engine) load(st *State, p Ptr) []SV {
	o := e.obj(st, p.Obj)
	path := pathElems(p.Path)
	switch o.Kind {
	case OCell:
		v, ok := e.nav(o.V, path)
		if _, fr := v.(Fresh); fr || !ok {
			n := *o
			n.V = e.expand(st, o.V, path)
			if _, over := st.heap[p.Obj]; over || !e.isBase(p.Obj) {
				st.heap[p.Obj] = &n
			}
			v, ok = e.nav(n.V, path)
			if !ok {
				v = Opaque{}
			}
		}
		return e.alts(st, v, func(s *State, w Value) {
			if _, over := s.heap[p.Obj]; over {
				m := *e.obj(s, p.Obj)
				m.V = e.setPath(s, m.V, path, w)
				s.heap[p.Obj] = &m
			}
		})
	case OSeq:
		for i := range o.Segs {
			sg := &o.Segs[i]
			if sg.UID != ID(path[0]) {
				continue
			}
			if !sg.Star {
				v, ok := e.nav(sg.V, path[1:])
				if _, fr := v.(Fresh); fr || !ok {
					n := *o
					n.Segs = append([]Seg(nil), o.Segs...)
					n.Segs[i].V = e.expand(st, sg.V, path[1:])
					st.heap[p.Obj] = &n
					v, _ = e.nav(n.Segs[i].V, path[1:])
				}
				return e.alts(st, v, nil)
			}
			var out []SV
			vs := VSet{sg.V}
			if s, ok := sg.V.(VSet); ok {
				vs = s
			}
			for k, alt := range vs {
				s := st
				if k < len(vs)-1 {
					s = st.clone()
				}
				v := e.expand(s, alt, path[1:])
				w, ok := e.nav(v, path[1:])
				if !ok {
					w = Opaque{}
				}
				out = append(out, SV{s, e.own(s, w)})
			}
			return out
		}
		// the segment was replaced
		return one(st, e.instSeqElem(st, o, path[1:]))
	}
	return one(st, Opaque{})
}

func (e *Engine) instSeqElem(st *State, o *Obj, path []int32) Value {
	v := e.expand(st, Fresh{T: o.T}, path)
	w, _ := e.nav(v, path)
	return e.own(st, w)
}

func (e *Engine) alts(st *State, v Value, fix func(*State, Value)) []SV {
	vs, ok := v.(VSet)
	if !ok {
		return one(st, v)
	}
	var out []SV
	for k, alt := range vs {
		s := st
		if k < len(vs)-1 {
			s = st.clone()
		}
		w := e.own(s, alt)
		if fix != nil {
			fix(s, w)
		}
		out = append(out, SV{s, w})
	}
	return out
}

func (e *Engine) store(act *Activation, st *State, addr, v Value, pos token.Pos, fn *ssa.Function) []*State {
	var outs []*State
	e.derefVal(act, st, addr, "store target", pos, func(s *State, p Ptr) []SV {
		if e.Hooks.OnStore != nil {
			e.Hooks.OnStore(e, s, fn, pos, p, v)
		}
		o := e.obj(s, p.Obj)
		path := pathElems(p.Path)
		n := *o
		if o.Blur || o.Tmpl.isMerged() && len(o.Tmpl.F) > 0 {
			if t := pathType(o.T, path); t == nil || !plainScalar(t) {
				s.SetMon("unmodelled", "an element of a list that was merged is changed")
			}
		}
		switch o.Kind {
		case OCell:
			n.V = e.setPath(s, o.V, path, v)
		case OSeq:
			n.Segs = append([]Seg(nil), o.Segs...)
			for i := range n.Segs {
				if n.Segs[i].UID != ID(path[0]) {
					continue
				}
				if n.Segs[i].Star {
					if e.tracked(s, v) {
						s.SetMon("unmodelled", "assignment to an unknown element of a list")
					}
					if len(path) == 1 {
						n.Segs[i].V = e.joinStar(s, n.Segs[i].V, v, o.T)
					} else if e.tracked(s, v) {
						n.Segs[i].V = e.joinStar(s, n.Segs[i].V, e.setPath(s, Fresh{T: o.T}, path[1:], v), o.T)
					} else {
						n.Segs[i].V = e.joinStar(s, n.Segs[i].V, Fresh{T: o.T}, o.T)
					}
				} else {
					n.Segs[i].V = e.setPath(s, n.Segs[i].V, path[1:], v)
				}
			}
		default:
			e.problem(fn, pos, "store into an object of kind %d", o.Kind)
		}
		s.heap[p.Obj] = &n
		outs = append(outs, s)
		return nil
	})
	return outs
}

// joinStar merges a value into the content of a star segment.
func (e *Engine) joinStar(st *State, old, v Value, t types.Type) Value {
	if r := e.joinIfaces(st, old, v, t); r != nil {
		return r
	}
	var alts []Value
	var fresh *Fresh
	nonnil := true
	blur := func(x Value) {
		f := e.blurred(st, x, t)
		nonnil = nonnil && f.NonNil
		if fresh == nil {
			fresh = &f
		} else if !isNil(x) && (fresh.Tmpl.name() != f.Tmpl.name() || fresh.Deep != f.Deep) {
			fresh.Tmpl, fresh.Deep = e.joinTmpl(st, fresh.Tmpl, f.Tmpl), fresh.Deep && f.Deep
		}
	}
	add := func(x Value) {
		x = st.resolve(x)
		if _, ok := x.(Fresh); ok || !e.tracked(st, x) && !e.plainConst(x) {
			blur(x)
			return
		}
		for _, a := range alts {
			if e.sameVal(st, a, x) {
				return
			}
		}
		alts = append(alts, x)
	}
	for _, x := range []Value{old, v} {
		if x == nil {
			continue
		}
		if s, ok := x.(VSet); ok {
			for _, y := range s {
				add(y)
			}
		} else {
			add(x)
		}
	}
	if len(alts) > 8 {
		var keep []Value
		for _, a := range alts {
			if e.tracked(st, a) {
				keep = append(keep, a)
			} else {
				blur(a)
			}
		}
		alts = keep
		if len(alts) > 8 {
			e.problem(nil, token.NoPos, "too many alternatives in a summary element")
		}
	}
	if fresh != nil {
		var keep []Value
		for _, a := range alts {
			if e.tracked(st, a) {
				keep = append(keep, a)
			} else {
				blur(a)
			}
		}
		alts = append([]Value{Fresh{T: t, NonNil: nonnil, Deep: fresh.Deep, Tmpl: fresh.Tmpl}}, keep...)
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return VSet(alts)
}

// joinIfaces joins interface values whose dynamic types are known.
func (e *Engine) joinIfaces(st *State, old, v Value, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return nil
	}
	var all []Iface
	for _, x := range []Value{old, v} {
		if x == nil {
			continue
		}
		l, ok := x.(VSet)
		if !ok {
			l = VSet{x}
		}
		for _, y := range l {
			i, ok := st.resolve(y).(Iface)
			if !ok {
				return nil
			}
			all = append(all, i)
		}
	}
	var out VSet
	var ts []types.Type
	for i, x := range all {
		var inner Value
		seen := false
		for _, y := range all[:i] {
			seen = seen || types.Identical(x.T, y.T)
		}
		if seen {
			continue
		}
		ts = append(ts, x.T)
		for _, y := range all[i:] {
			if types.Identical(x.T, y.T) {
				inner = e.joinStar(st, inner, y.V, x.T)
			}
		}
		if vs, ok := inner.(VSet); ok {
			for _, y := range vs {
				out = append(out, Iface{T: x.T, V: y})
			}
		} else {
			out = append(out, Iface{T: x.T, V: inner})
		}
	}
	if len(ts) > 4 {
		return nil
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

// pathType is the type of a part of an object.
func pathType(t types.Type, path []int32) types.Type {
	for _, i := range path {
		u, ok := t.Underlying().(*types.Struct)
		if !ok || int(i) >= u.NumFields() {
			return nil
		}
		t = u.Field(int(i)).Type()
	}
	return t
}

// plainScalar tells that a part cannot hold a string merged elements remember.
func plainScalar(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// mergedTmpl keeps what is known of the strings of an object that is not told
// from others any more: constants, and the skolems they differ from.
func (e *Engine) mergedTmpl(st *State, p Ptr, o *Obj) *Tmpl {
	if o == nil || p.Path != "" || o.Kind != OCell || o.Name != "" || e.isBase(p.Obj) {
		return merged
	}
	s, ok := o.V.(Struct)
	if !ok {
		return merged
	}
	u := s.T.Underlying().(*types.Struct)
	f := map[string]Value{}
	for i := range s.F {
		x, ok := st.resolve(s.F[i]).(Str)
		if !ok {
			continue
		}
		if _, ok := x.Const(); ok {
			f[u.Field(i).Name()] = x
			continue
		}
		if e.tracked(st, x) {
			continue
		}
		if not := e.namedOnly(e.notSet(st, x)); len(not) > 0 {
			f[u.Field(i).Name()] = Fresh{T: u.Field(i).Type(), Not: not}
		}
	}
	if len(f) == 0 {
		return merged
	}
	if !o.Blur {
		n := *o
		n.Blur = true
		st.heap[p.Obj] = &n
	}
	return tmplOf(f)
}

// namedOnly keeps the strings that consist of skolems and constants, which
// mean the same everywhere.
func (e *Engine) namedOnly(vs []Value) []Value {
	var out []Value
	seen := map[string]bool{}
next:
	for _, v := range vs {
		s := v.(Str)
		for _, p := range s.P {
			if p.Atom != 0 && e.decl(p.Atom).Name == "" {
				continue next
			}
		}
		if !seen[s.raw()] {
			seen[s.raw()] = true
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].(Str).raw() < out[j].(Str).raw() })
	return out
}

// tmplOf names a template of merged elements by its content.
func tmplOf(f map[string]Value) *Tmpl {
	if len(f) == 0 {
		return merged
	}
	var l []string
	for k, v := range f {
		d := k + "="
		switch x := v.(type) {
		case Str:
			d += x.raw()
		case Fresh:
			for _, n := range x.Not {
				d += "!" + n.(Str).raw()
			}
		}
		l = append(l, d)
	}
	sort.Strings(l)
	return &Tmpl{Name: "?merged " + strings.Join(l, " "), F: f}
}

// joinTmpl keeps what two templates of merged elements agree on.
func (e *Engine) joinTmpl(st *State, a, b *Tmpl) *Tmpl {
	if !a.isMerged() || !b.isMerged() {
		return merged
	}
	f := map[string]Value{}
	for k, v := range a.F {
		switch x := v.(type) {
		case Str:
			if y, ok := b.F[k].(Str); ok && y.raw() == x.raw() {
				f[k] = x
			}
		case Fresh:
			if y, ok := b.F[k].(Fresh); ok {
				if not := e.namedOnly(e.interNot(st, x.Not, y.Not)); len(not) > 0 {
					f[k] = Fresh{T: x.T, Not: not}
				}
			}
		}
	}
	return tmplOf(f)
}

// blurred is what remains of a value when it is not told from others any more.
func (e *Engine) blurred(st *State, v Value, t types.Type) Fresh {
	v = st.resolve(v)
	f := Fresh{T: t, NonNil: e.isNonNil(st, v)}
	switch x := v.(type) {
	case Fresh:
		f.Deep, f.Tmpl = x.Deep, x.Tmpl
	case Unk:
		if a := st.info(x.ID); a != nil {
			f.Deep, f.Tmpl = a.Deep, a.Tmpl
		}
	case Ptr:
		o := e.obj(st, x.Obj)
		switch {
		case o == nil || x.Path != "" || o.Kind != OCell || o.Name != "" || !o.Input || e.isBase(x.Obj):
			f.Tmpl = e.mergedTmpl(st, x, o)
		default:
			f.Deep, f.Tmpl = o.Deep, o.Tmpl
		}
	}
	return f
}

func (e *Engine) plainConst(v Value) bool {
	switch x := v.(type) {
	case Nil, Bool:
		return true
	case Int:
		return x.isConst()
	case Str:
		_, ok := x.Const()
		return ok
	}
	return false
}

func (e *Engine) isNonNil(st *State, v Value) bool {
	v = st.resolve(v)
	switch x := v.(type) {
	case Nil:
		return false
	case Unk:
		a := st.info(x.ID)
		return a != nil && a.NonNil
	case Fresh:
		return x.NonNil
	case VSet:
		for _, y := range x {
			if !e.isNonNil(st, y) {
				return false
			}
		}
	}
	return true
}

func (e *Engine) sameVal(st *State, a, b Value) bool {
	c := e.newCanon(st)
	c.val(a)
	c.val(b)
	c.b = c.b[:0]
	c.val(a)
	x := string(c.b)
	c.b = c.b[:0]
	c.val(b)
	return x == string(c.b)
}

// tracked reports whether a value mentions a skolem.
func (e *Engine) tracked(st *State, v Value) bool {
	seen := map[ID]bool{}
	return e.trackedIn(st, v, seen, 0)
}

func (e *Engine) trackedIn(st *State, v Value, seen map[ID]bool, depth int) bool {
	if depth > 12 {
		return true
	}
	v = st.resolve(v)
	named := func(id ID) bool { return e.decl(id).Name != "" }
	obj := func(id ID) bool {
		if id == 0 || seen[id] {
			return false
		}
		seen[id] = true
		o := e.obj(st, id)
		if o == nil {
			return false
		}
		if e.isBase(id) {
			if _, over := st.heap[id]; !over {
				return true
			}
		}
		if o.Name != "" {
			return true
		}
		if o.V != nil && e.trackedIn(st, o.V, seen, depth+1) {
			return true
		}
		for _, s := range o.Segs {
			if e.trackedIn(st, s.V, seen, depth+1) {
				return true
			}
		}
		for _, en := range o.Ents {
			if e.trackedIn(st, en.K, seen, depth+1) || en.V != nil && e.trackedIn(st, en.V, seen, depth+1) {
				return true
			}
		}
		if o.Rest != nil && e.trackedIn(st, o.Rest, seen, depth+1) {
			return true
		}
		return false
	}
	list := func(vs []Value) bool {
		for _, x := range vs {
			if e.trackedIn(st, x, seen, depth+1) {
				return true
			}
		}
		return false
	}
	switch x := v.(type) {
	case BAtom:
		return named(x.ID)
	case Int:
		for _, t := range x.T {
			if named(t.ID) {
				return true
			}
		}
	case Zone:
		return obj(x.Obj)
	case Str:
		for _, p := range x.P {
			if p.Atom != 0 && named(p.Atom) {
				return true
			}
		}
	case Ptr:
		return obj(x.Obj)
	case Unk:
		return named(x.ID)
	case Slice:
		return obj(x.Obj)
	case Map:
		return obj(x.Obj)
	case Chan:
		return obj(x.Obj)
	case Func:
		return list(x.Bind)
	case Iface:
		return e.trackedIn(st, x.V, seen, depth)
	case Struct:
		return list(x.F)
	case Array:
		return list(x.E)
	case Tuple:
		return list(x)
	case VSet:
		return list(x)
	}
	return false
}

// generic reports whether a value mentions unknown content.
func (e *Engine) generic(st *State, v Value) bool {
	return e.genericIn(st, v, map[ID]bool{}, 0)
}

func (e *Engine) genericIn(st *State, v Value, seen map[ID]bool, depth int) bool {
	if depth > 8 {
		return true
	}
	v = st.resolve(v)
	obj := func(id ID) bool {
		if id == 0 || seen[id] || e.isBase(id) {
			return false
		}
		seen[id] = true
		o := e.obj(st, id)
		if o == nil {
			return false
		}
		if o.Input && o.Name == "" {
			return true
		}
		if o.V != nil && e.genericIn(st, o.V, seen, depth+1) {
			return true
		}
		for _, s := range o.Segs {
			if s.Star || e.genericIn(st, s.V, seen, depth+1) {
				return true
			}
		}
		for _, en := range o.Ents {
			if e.genericIn(st, en.K, seen, depth+1) || en.V != nil && e.genericIn(st, en.V, seen, depth+1) {
				return true
			}
		}
		return o.Rest != nil
	}
	list := func(vs []Value) bool {
		for _, x := range vs {
			if e.genericIn(st, x, seen, depth+1) {
				return true
			}
		}
		return false
	}
	switch x := v.(type) {
	case BAtom, Unk, Fresh:
		return true
	case Int:
		return !x.isConst()
	case Zone:
		return true
	case Str:
		_, ok := x.Const()
		return !ok
	case Ptr:
		return obj(x.Obj)
	case Slice:
		return obj(x.Obj)
	case Map:
		return obj(x.Obj)
	case Func:
		return list(x.Bind)
	case Iface:
		return e.genericIn(st, x.V, seen, depth)
	case Struct:
		return list(x.F)
	case Array:
		return list(x.E)
	case Tuple:
		return list(x)
	case VSet:
		return list(x)
	}
	return false
}
