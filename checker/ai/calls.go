package ai

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallCtx is what a model of an external function gets.
type CallCtx struct {
	E    *Engine
	Act  *Activation
	St   *State
	Fn   *ssa.Function
	Sig  *types.Signature
	Name string
	Args []Value
	Pos  token.Pos
	K    func(*State, Value)
}

// ModelFn models an external function; it calls K once per possible result.
type ModelFn func(c *CallCtx)

func (e *Engine) callOperands(act *Activation, st *State, c *ssa.CallCommon) (Value, []Value) {
	fn := e.get(st, act, c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.get(st, act, a)
	}
	return fn, args
}

func (e *Engine) doCall(act *Activation, st *State, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos, in ssa.Instruction, k func(*State, Value)) {
	fn = st.resolve(fn)
	if c.IsInvoke() {
		e.invoke(act, st, c, fn, args, pos, k)
		return
	}
	switch f := fn.(type) {
	case Func:
		e.callFn(act, st, f.Fn, args, f.Bind, pos, k)
	case BuiltinFn:
		e.builtin(act, st, c, f.B, args, pos, k)
	case Nil:
		e.panicAt(act, st, pos, "call of a nil function")
	case VSet:
		for i, alt := range f {
			s := st
			if i < len(f)-1 {
				s = st.clone()
			}
			e.doCall(act, s, c, e.own(s, alt), args, pos, in, k)
		}
	case Unk:
		a := st.info(f.ID)
		if a == nil || !a.NonNil {
			bad := st.clone()
			bad.upd(f.ID, func(a *AInfo) { a.Bind = Nil{} })
			e.panicAt(act, bad, pos, "possible call of a nil function")
		}
		e.havoc(&CallCtx{E: e, Act: act, St: st, Sig: c.Signature(), Name: "unknown function value", Args: args, Pos: pos, K: k})
	default:
		e.problem(act.Fn, pos, "call of a %T", fn)
	}
}

func (e *Engine) invoke(act *Activation, st *State, c *ssa.CallCommon, recv Value, args []Value, pos token.Pos, k func(*State, Value)) {
	switch r := recv.(type) {
	case Iface:
		if r.T == types.Type(hashType) {
			name := "(hash.Hash)." + c.Method.Name()
			if m := e.model(name); m != nil {
				m(&CallCtx{E: e, Act: act, St: st, Sig: c.Signature(), Name: name, Args: append([]Value{recv}, args...), Pos: pos, K: k})
			} else {
				e.havoc(&CallCtx{E: e, Act: act, St: st, Sig: c.Signature(), Name: name, Args: append([]Value{recv}, args...), Pos: pos, K: k})
			}
			return
		}
		fn := e.P.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			e.problem(act.Fn, pos, "no method %s on %s", c.Method.Name(), r.T)
			return
		}
		e.callFn(act, st, fn, append([]Value{r.V}, args...), nil, pos, k)
	case Nil:
		e.panicAt(act, st, pos, "method %s called on a nil interface", c.Method.Name())
	case Unk:
		a := st.info(r.ID)
		if a == nil || !a.NonNil {
			bad := st.clone()
			bad.upd(r.ID, func(a *AInfo) { a.Bind = Nil{} })
			e.panicAt(act, bad, pos, "possible call of method %s on a nil interface", c.Method.Name())
			st.upd(r.ID, func(a *AInfo) { a.NonNil = true })
		}
		name := "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		ctx := &CallCtx{E: e, Act: act, St: st, Sig: c.Signature(), Name: name, Args: append([]Value{recv}, args...), Pos: pos, K: k}
		if m := e.model(name); m != nil {
			m(ctx)
			return
		}
		e.havoc(ctx)
	case VSet:
		for i, alt := range r {
			s := st
			if i < len(r)-1 {
				s = st.clone()
			}
			e.invoke(act, s, c, s.resolve(e.own(s, alt)), args, pos, k)
		}
	default:
		e.problem(act.Fn, pos, "method call on a %T", recv)
	}
}

func (e *Engine) model(name string) ModelFn {
	if m, ok := e.Models[name]; ok {
		return m
	}
	return stdModels[name]
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Engine) callFn(act *Activation, st *State, fn *ssa.Function, args, binds []Value, pos token.Pos, k func(*State, Value)) {
	if e.Hooks.OnCall != nil && e.Hooks.OnCall(e, act, st, fn, args, k) {
		return
	}
	name := fnName(fn)
	if m := e.model(name); m != nil {
		m(&CallCtx{E: e, Act: act, St: st, Fn: fn, Sig: fn.Signature, Name: name, Args: args, Pos: pos, K: k})
		return
	}
	if fn.Blocks != nil && e.P.IsSrc(fn) {
		e.call(act, st, fn, args, binds, pos, k)
		return
	}
	// wrappers and bound methods of external functions
	if fn.Blocks != nil && fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && !strings.HasPrefix(fn.Synthetic, "instance") {
		e.call(act, st, fn, args, binds, pos, k)
		return
	}
	e.havoc(&CallCtx{E: e, Act: act, St: st, Fn: fn, Sig: fn.Signature, Name: name, Args: args, Pos: pos, K: k})
}

// havoc is the default model: unknown results, arguments untouched, a non-nil
// result whenever the error is nil.
func (e *Engine) havoc(c *CallCtx) {
	e.Unmodelled[c.Name] = e.Pos(c.Pos)
	if !Reviewed[c.Name] && !e.summarised[c.Name] {
		c.St.SetMon("unmodelled", c.Name)
	}
	res := c.Sig.Results()
	n := res.Len()
	if n == 0 {
		c.K(c.St, nil)
		return
	}
	mk := func(st *State, t types.Type, nonnil bool) Value { return e.inst(st, t, nonnil) }
	if n == 1 {
		t := res.At(0).Type()
		if isErrorType(t) {
			c.K(c.St.clone(), Nil{})
			c.K(c.St, e.newErr(c.St, c.Name))
			return
		}
		c.K(c.St, mk(c.St, t, true))
		return
	}
	last := res.At(n - 1).Type()
	if isErrorType(last) {
		ok := c.St.clone()
		t := make(Tuple, n)
		for i := 0; i < n-1; i++ {
			t[i] = mk(ok, res.At(i).Type(), true)
		}
		t[n-1] = Nil{}
		c.K(ok, t)
		t2 := make(Tuple, n)
		for i := 0; i < n-1; i++ {
			t2[i] = mk(c.St, res.At(i).Type(), false)
		}
		t2[n-1] = e.newErr(c.St, c.Name)
		c.K(c.St, t2)
		return
	}
	t := make(Tuple, n)
	for i := range t {
		t[i] = mk(c.St, res.At(i).Type(), false)
	}
	c.K(c.St, t)
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// newErr is some non-nil error.
func (e *Engine) newErr(st *State, tag string) Value {
	return e.inst(st, types.Universe.Lookup("error").Type(), true)
}

func (e *Engine) builtin(act *Activation, st *State, c *ssa.CallCommon, b *ssa.Builtin, args []Value, pos token.Pos, k func(*State, Value)) {
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch x := v.(type) {
		case Str:
			k(st, e.strLen(st, x))
			return
		case Array:
			k(st, cint(int64(len(x.E))))
			return
		case Ptr:
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := at.Elem().Underlying().(*types.Array); ok {
					k(st, cint(a.Len()))
					return
				}
			}
		}
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if e.seqOf(st, v, func(s *State, id ID) {
				if id == 0 {
					k(s, cint(0))
					return
				}
				k(s, e.seqLen(s, id))
			}) {
				return
			}
		case *types.Map:
			if e.mapOf(st, v, func(s *State, id ID) {
				if id == 0 {
					k(s, cint(0))
					return
				}
				k(s, e.mapLen(s, id))
			}) {
				return
			}
		case *types.Chan:
			k(st, e.instPos(st))
			return
		}
		e.problem(act.Fn, pos, "len of a %T", v)
	case "append":
		t := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		e.appendSeq(act, st, t, args[0], args[1], k, pos)
	case "copy":
		e.copySeq(act, st, args[0], args[1], pos, k)
	case "delete":
		if !e.mapOf(st, args[0], func(s *State, id ID) {
			if id == 0 {
				k(s, nil)
				return
			}
			if e.Hooks.OnMapUpdate != nil {
				e.Hooks.OnMapUpdate(e, s, act.Fn, pos, Map{id}, args[1], nil)
			}
			for _, o := range e.mapDelete(s, id, args[1]) {
				k(o, nil)
			}
		}) {
			e.problem(act.Fn, pos, "delete from a %T", args[0])
		}
	case "close":
		ch, ok := st.resolve(args[0]).(Chan)
		if !ok {
			e.panicAt(act, st, pos, "close of an unknown or nil channel")
			return
		}
		o := *e.obj(st, ch.Obj)
		if o.Closed {
			e.panicAt(act, st, pos, "close of a closed channel")
			return
		}
		o.Closed = true
		st.heap[ch.Obj] = &o
		k(st, nil)
	case "print", "println":
		k(st, nil)
	case "recover":
		k(st, Nil{})
	case "min", "max":
		if x, ok := args[0].(Int); ok && len(args) == 2 {
			if y, ok := args[1].(Int); ok {
				for _, r := range e.cmp0(st, token.LSS, st.normInt(linAdd(x, y, -1))) {
					for _, w := range e.forkBool(r.s, r.v) {
						lt := bool(w.v.(Bool))
						if lt == (b.Name() == "min") {
							k(w.s, x)
						} else {
							k(w.s, y)
						}
					}
				}
				return
			}
		}
		k(st, e.inst(st, b.Type().(*types.Signature).Results().At(0).Type(), false))
	case "ssa:wrapnilchk":
		e.derefVal(act, st, args[0], "receiver", pos, func(s *State, p Ptr) []SV {
			k(s, p)
			return nil
		})
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			if !e.seqOf(st, args[0], func(s *State, id ID) {
				if id != 0 {
					e.overwritten(act, s, id, pos)
					n := *e.seqObj(s, id)
					n.Segs = append([]Seg(nil), n.Segs...)
					for i := range n.Segs {
						n.Segs[i].V = e.zero(n.T)
					}
					s.heap[id] = &n
				}
				k(s, nil)
			}) {
				e.problem(act.Fn, pos, "clear of a %T", args[0])
			}
			return
		}
		if !e.mapOf(st, args[0], func(s *State, id ID) {
			if id != 0 {
				if e.Hooks.OnMapUpdate != nil {
					e.Hooks.OnMapUpdate(e, s, act.Fn, pos, Map{id}, nil, nil)
				}
				n := *e.obj(s, id)
				n.Ents, n.Rest, n.RestK = nil, nil, nil
				s.heap[id] = &n
			}
			k(s, nil)
		}) {
			e.problem(act.Fn, pos, "clear of a %T", args[0])
		}
	default:
		e.problem(act.Fn, pos, "builtin %s", b.Name())
	}
}

func (e *Engine) mapLen(st *State, id ID) Value {
	o := e.obj(st, id)
	n := int64(0)
	exact := o.Rest == nil
	for _, en := range o.Ents {
		if en.Must {
			n++
		} else if !en.Absent {
			exact = false
		}
	}
	if exact {
		return cint(n)
	}
	a := e.newAtom('i', types.Typ[types.Int])
	st.at[a] = &AInfo{R: []Rng{{n, MaxI}}}
	return atomInt(a)
}

// copySeq models copy: exactly where both have the same shape, else the
// destination may hold any mixture of old and new elements.
func (e *Engine) copySeq(act *Activation, st *State, dst, src Value, pos token.Pos, k func(*State, Value)) {
	if str, ok := st.resolve(src).(Str); ok {
		src = e.strSeq(st, types.Typ[types.Byte], str)
	}
	ok := e.seqOf(st, dst, func(s *State, a ID) {
		ok := e.seqOf(s, src, func(s *State, b ID) {
			if a == 0 || b == 0 {
				k(s, cint(0))
				return
			}
			x, y := e.seqObj(s, a), e.seqObj(s, b)
			same := len(x.Segs) == len(y.Segs)
			for i := 0; same && i < len(x.Segs); i++ {
				p, q := x.Segs[i], y.Segs[i]
				same = p.Star == q.Star && (!p.Star || p.UID == q.UID)
			}
			e.overwritten(act, s, a, pos)
			n := *e.seqObj(s, a)
			n.Segs = append([]Seg(nil), n.Segs...)
			if same {
				for i := range n.Segs {
					n.Segs[i].V = y.Segs[i].V
				}
				s.heap[a] = &n
				k(s, e.seqLen(s, b))
				return
			}
			for i := range n.Segs {
				v := n.Segs[i].V
				for _, sg := range y.Segs {
					v = e.joinStar(s, v, sg.V, n.T)
				}
				n.Segs[i].V = v
				if !n.Segs[i].Star {
					s.SetMon("unmodelled", "copy between sequences of different shape")
				}
			}
			s.heap[a] = &n
			k(s, e.instPos(s))
		})
		if !ok {
			e.problem(act.Fn, pos, "copy of a %T", src)
		}
	})
	if !ok {
		e.problem(act.Fn, pos, "copy to a %T", dst)
	}
}

// overwritten tells the hook that any element of a sequence may change.
func (e *Engine) overwritten(act *Activation, st *State, id ID, pos token.Pos) {
	if e.Hooks.OnStore == nil {
		return
	}
	for _, sg := range e.seqObj(st, id).Segs {
		e.Hooks.OnStore(e, st, act.Fn, pos, Ptr{id, pathEl(int32(sg.UID))}, e.instPos(st))
	}
}

// permuted models sorting and the like.
func (e *Engine) permuted(c *CallCtx, list Value) {
	if i, ok := c.St.resolve(list).(Iface); ok {
		list = i.V
	}
	if !e.seqOf(c.St, list, func(s *State, id ID) {
		if id == 0 {
			c.K(s, nil)
			return
		}
		o := e.seqObj(s, id)
		if len(o.Segs) == 0 || len(o.Segs) == 1 && !o.Segs[0].Star {
			c.K(s, nil)
			return
		}
		e.overwritten(c.Act, s, id, c.Pos)
		n := *e.seqObj(s, id)
		var star Value
		for _, sg := range n.Segs {
			star = e.joinStar(s, star, sg.V, n.T)
		}
		if len(n.Segs) > 1 {
			n.Segs = []Seg{{UID: e.starLen(s, 0), Star: true, V: star}}
		}
		s.heap[id] = &n
		c.K(s, nil)
	}) {
		c.St.SetMon("unmodelled", c.Name)
		c.K(c.St, nil)
	}
}
