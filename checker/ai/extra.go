package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Trace returns the branch decisions that led to the state.
func (s *State) Trace() *Trace { return s.tr }

// Activations is the number of analysed (function, entry state) pairs.
func (e *Engine) Activations() int { return len(e.acts) }

// Reviewed lists external functions whose default treatment (any result, no
// effect on the arguments) is known to be right.
var Reviewed = map[string]bool{
	"net/url.ParseRequestURI": true,
	"runtime.FuncForPC":       true,
	"(*runtime.Func).Name":    true,
	"reflect.ValueOf":         true,
	"(reflect.Value).Pointer": true,
}

// Clone is a copy of the state, for another outcome of a call.
func (s *State) Clone() *State { return s.clone() }

// HasModel tells whether a library function is modelled.
func (e *Engine) HasModel(fn *ssa.Function) bool { return e.model(fnName(fn)) != nil }

// SetGlobal gives a package-level variable a value at the start.
func (b *B) SetGlobal(pkg, name string, v Value) bool {
	k := b.P.Pkgs[pkg]
	if k == nil {
		return false
	}
	g := k.Var(name)
	if g == nil {
		return false
	}
	id, ok := b.E.P.globals[g]
	if !ok {
		return false
	}
	o := *b.E.P.base[id]
	o.V = v
	b.St.heap[id] = &o
	return true
}

// Global is the value of a package-level variable in a state.
func (b *B) Global(st *State, pkg, name string) Value {
	k := b.P.Pkgs[pkg]
	if k == nil || k.Var(name) == nil {
		return nil
	}
	id, ok := b.E.P.globals[k.Var(name)]
	if !ok {
		return nil
	}
	return st.deepResolve(b.E.obj(st, id).V)
}

// SetBase gives a variable that exists before the start a value.
func (b *B) SetBase(p Ptr, v Value) {
	o := *b.E.obj(b.St, p.Obj)
	o.V = v
	b.St.heap[p.Obj] = &o
}

// IsConst tells whether an integer is a known number.
func (x Int) IsConst() bool { return x.isConst() }

// ErrIsNil tells whether an error is nil, if that is known.
func ErrIsNil(st *State, v Value) (isnil, known bool) {
	r := &Result{Ret: v, St: st}
	k, n := r.ErrNil()
	return n, k
}

// Functions lists the functions, methods and closures of a package.
func (p *Program) Functions(pkg string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	k := p.Pkgs[pkg]
	if k == nil {
		return out
	}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || out[fn] {
			return
		}
		out[fn] = true
		for _, f := range fn.AnonFuncs {
			add(f)
		}
	}
	for _, m := range k.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				set := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < set.Len(); i++ {
					if f := p.Prog.MethodValue(set.At(i)); f != nil && f.Pkg == k {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// Inst is any value of a type.
func (e *Engine) Inst(st *State, t types.Type, nonNil bool) Value { return e.inst(st, t, nonNil) }

// WriteAny writes some text to a writer the program owns.
func (e *Engine) WriteAny(act *Activation, st *State, w Value, k func(*State)) {
	c := &CallCtx{E: e, Act: act, St: st}
	e.writeTo(c, st, w, c.freshStr(st), func(s *State, err Value) {
		if k0, isnil := (&Result{Ret: err, St: s}).ErrNil(); !k0 || isnil {
			k(s)
		}
	})
}

// SeqIn builds a slice in a state other than the first one.
func (b *B) SeqIn(st *State, elem types.Type, vs ...Value) Slice {
	first := b.St
	b.St = st
	defer func() { b.St = first }()
	return b.Seq(elem, vs...)
}

// CatIn is the text of several values in a state.
func (b *B) CatIn(st *State, vs ...Str) Str {
	out := Str{}
	for _, v := range vs {
		out = catStr(out, st.normStr(v))
	}
	return out
}

// SomeText is an unknown text with the given properties.
func (e *Engine) SomeText(st *State, lits ...Lit) Str {
	s := e.inst(st, types.Typ[types.String], false).(Str)
	for _, l := range lits {
		e.addLit(st, s.P[0].Atom, l)
	}
	return s
}

// SomeInt is an unknown number in a range.
func (e *Engine) SomeInt(st *State, t types.Type, r ...Rng) Value {
	v := e.inst(st, t, false)
	if i, ok := v.(Int); ok && len(r) > 0 && len(i.T) == 1 {
		st.upd(i.T[0].ID, func(a *AInfo) { a.R = r })
	}
	return v
}

// Recall gives a named text its properties again in a state that has
// forgotten them.
func (b *B) Recall(st *State, s Str, lits ...Lit) Str {
	first := b.St
	b.St = st
	defer func() { b.St = first }()
	b.Constrain(s, lits...)
	return s
}

// RecallInt gives the named numbers in a value a range again in a state that
// has forgotten it.
func (b *B) RecallInt(st *State, v Value, r ...Rng) Value {
	if i, ok := v.(Int); ok {
		for _, t := range i.T {
			st.upd(t.ID, func(a *AInfo) { a.R = r })
		}
	}
	return v
}
