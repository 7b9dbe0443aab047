package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// Elems lists the elements of a slice in a state; ok is false when the value
// is no known slice.
func (b *B) Elems(st *State, v Value) (segs []Seg, ok bool) {
	switch x := st.resolve(v).(type) {
	case nil, Nil:
		return nil, true
	case Fresh:
		return nil, false
	case Slice:
		o := b.E.obj(st, x.Obj)
		if o == nil {
			return nil, false
		}
		for _, s := range o.Segs {
			s.V = st.deepResolve(s.V)
			segs = append(segs, s)
		}
		return segs, true
	}
	return nil, false
}

// Ents lists the entries of a map in a state.
func (b *B) Ents(st *State, v Value) (ents []MapEnt, rest Value, ok bool) {
	switch x := st.resolve(v).(type) {
	case nil, Nil:
		return nil, nil, true
	case Map:
		o := b.E.obj(st, x.Obj)
		if o == nil {
			return nil, nil, false
		}
		for _, e := range o.Ents {
			e.K, e.V = st.deepResolve(e.K), st.deepResolve(e.V)
			ents = append(ents, e)
		}
		if o.Rest != nil {
			rest = st.deepResolve(o.Rest)
		}
		return ents, rest, true
	}
	return nil, nil, false
}

// Same tells whether two values are certainly equal.
func (b *B) Same(st *State, x, y Value) bool {
	x, y = st.deepResolve(st.resolve(x)), st.deepResolve(st.resolve(y))
	if s, ok := x.(Str); ok {
		if t, ok := y.(Str); ok {
			return st.normStr(s).raw() == st.normStr(t).raw()
		}
		return false
	}
	return fmt.Sprint(x) == fmt.Sprint(y)
}

// MaySame tells whether two scalars or pointers can be equal.
func (b *B) MaySame(st *State, x, y Value) bool {
	for _, r := range b.E.equal(st.clone(), st.resolve(x), st.resolve(y)) {
		if v, ok := r.v.(Bool); !ok || bool(v) {
			return true
		}
	}
	return false
}

// Value is the resolved value.
func (b *B) Value(st *State, v Value) Value { return st.deepResolve(st.resolve(v)) }

// GuardStores marks the state ("modified") when the analysed code changes an
// object that existed before, except where allowed says so.
func (b *B) GuardStores(allowed func(t types.Type, field string) bool) {
	prev := b.E.Hooks.OnStore
	b.E.Hooks.OnStore = func(e *Engine, st *State, fn *ssa.Function, pos token.Pos, p Ptr, v Value) {
		if prev != nil {
			prev(e, st, fn, pos, p, v)
		}
		o := e.obj(st, p.Obj)
		if o == nil || !o.Input || e.isBase(p.Obj) && e.initMode {
			return
		}
		path := pathElems(p.Path)
		field, t := "", o.T
		if t == nil {
			t = types.Typ[types.Invalid]
		}
		switch o.Kind {
		case OCell:
			if s, ok := t.Underlying().(*types.Struct); ok && len(path) > 0 {
				field = s.Field(int(path[0])).Name()
			}
		case OSeq:
			t = types.NewSlice(o.T)
		}
		if allowed(t, field) {
			return
		}
		for _, r := range e.load(st.clone(), p) {
			if !b.Same(r.s, r.v, v) {
				b.modified(st, fmt.Sprintf("%s.%s at %s", types.TypeString(t, nil), field, e.Pos(pos)))
				return
			}
		}
	}
	pm := b.E.Hooks.OnMapUpdate
	b.E.Hooks.OnMapUpdate = func(e *Engine, st *State, fn *ssa.Function, pos token.Pos, m Map, k, v Value) {
		if pm != nil {
			pm(e, st, fn, pos, m, k, v)
		}
		o := e.obj(st, m.Obj)
		if o == nil || !o.Input {
			return
		}
		if t := types.NewMap(o.KeyT, o.T); !allowed(t, "") {
			b.modified(st, fmt.Sprintf("%s at %s", t, e.Pos(pos)))
		}
	}
}

// modified records the first change of an input; "exact" says that nothing
// without a model came before it.
func (b *B) modified(st *State, what string) {
	if st.Mon("modified") != "" {
		return
	}
	if st.Mon("unmodelled") == "" {
		st.SetMon("exact", "modified")
	}
	st.SetMon("modified", what)
}

// Resolve follows what is known about an unknown reference.
func (s *State) Resolve(v Value) Value { return s.resolve(v) }

// Bytes is a byte slice with the given content, Text the content of one.
func (b *B) Bytes(s Str) Value { return b.E.strSeq(b.St, types.Typ[types.Byte], s) }

func (b *B) Text(st *State, v Value) Str {
	v = st.resolve(v)
	if s, ok := v.(Str); ok {
		return st.normStr(s)
	}
	return st.normStr(b.E.seqStr(st, v))
}

// CharMay tells whether the only character of a string can be r.
func (b *B) CharMay(st *State, s SPart, r rune) bool {
	if s.Atom == 0 {
		return s.C == string(r)
	}
	id := b.E.assocAtom("char", s.Atom, 1000, s.Maps)
	x := st.normInt(atomInt(id))
	if x.isConst() {
		return x.C == int64(r)
	}
	a := st.info(id)
	if a != nil && a.R != nil {
		in := false
		for _, g := range a.R {
			in = in || g.Lo <= int64(r) && int64(r) <= g.Hi
		}
		if !in {
			return false
		}
	}
	return Sat([]LPart{b.E.lpart(st, s)}, []Lit{{P: MustRe(`\A` + regexp.QuoteMeta(string(r)) + `\z`)}})
}

// ErrorValue is some error.
func (e *Engine) ErrorValue(st *State, tag string) Value { return e.newErr(st, tag) }

// OnChange calls seen for every store that may change an existing object.
func (b *B) OnChange(seen func(st *State, t types.Type, field, pos string, p Ptr)) {
	prev := b.E.Hooks.OnStore
	b.E.Hooks.OnStore = func(e *Engine, st *State, fn *ssa.Function, pos token.Pos, p Ptr, v Value) {
		if prev != nil {
			prev(e, st, fn, pos, p, v)
		}
		o := e.obj(st, p.Obj)
		if o == nil || o.T == nil || e.isBase(p.Obj) {
			return
		}
		path := pathElems(p.Path)
		field, t := "", o.T
		switch o.Kind {
		case OCell:
			if s, ok := t.Underlying().(*types.Struct); ok && len(path) > 0 {
				field = s.Field(int(path[0])).Name()
			}
		case OSeq:
			t = types.NewSlice(o.T)
		}
		for _, r := range e.load(st.clone(), p) {
			if !b.Same(r.s, r.v, v) {
				seen(st, t, field, e.Pos(pos), p)
				return
			}
		}
	}
}
