package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// seqOf turns a slice value into its object, splitting nil and unknown cases.
// f is called with a nil object for the nil slice.
func (e *Engine) seqOf(st *State, v Value, f func(st *State, id ID)) bool {
	v = st.resolve(v)
	switch x := v.(type) {
	case Nil:
		f(st, 0)
	case Slice:
		f(st, x.Obj)
	case Unk:
		if a := st.info(x.ID); a == nil || !a.NonNil {
			// a nil slice behaves like an empty one for reading; both are
			// covered by a sequence of unknown length
			_ = a
		}
		r, ok := e.materialize(st, x)
		if !ok {
			return false
		}
		f(st, r.(Slice).Obj)
	case VSet:
		for i, alt := range x {
			s := st
			if i < len(x)-1 {
				s = st.clone()
			}
			if !e.seqOf(s, e.own(s, alt), f) {
				return false
			}
		}
	default:
		return false
	}
	return true
}

func (e *Engine) setReg(st *State, act *Activation, v ssa.Value, x Value) {
	if i, ok := e.P.info(act.Fn).idx[v]; ok && st.regs[i] != nil {
		st.regs[i] = x
	}
}

// position finds the segment an index denotes. f receives the segment number,
// or -1 if the index is out of range, and the normalised index.
func (e *Engine) position(st *State, o *Obj, id ID, idx Value, f func(st *State, seg int, norm Value)) {
	idx = st.resolve(idx)
	switch x := idx.(type) {
	case Zone:
		for i, sg := range o.Segs {
			if sg.UID == x.Seg {
				f(st, i, idx)
				return
			}
		}
		e.anyPosition(st, o, idx, f)
		return
	case Int:
		start := Int{}
		if e.bounds(st, x).Lo < 0 {
			for _, r := range e.cmp0(st.clone(), token.LSS, x) {
				if r.v == Value(Bool(true)) {
					f(r.s, -1, idx)
				}
			}
			var next *State
			for _, r := range e.cmp0(st, token.GEQ, x) {
				if r.v == Value(Bool(true)) {
					next = r.s
				}
			}
			if next == nil {
				return
			}
			st = next
		}
		for i, sg := range o.Segs {
			d := st.normInt(linAdd(x, start, -1))
			if !sg.Star {
				if d.isConst() {
					if d.C == 0 {
						f(st, i, idx)
						return
					}
				} else {
					var rest *State
					for _, r := range e.cmp0(st, token.EQL, d) {
						if r.v == Value(Bool(true)) {
							f(r.s, i, idx)
						} else {
							rest = r.s
						}
					}
					if rest == nil {
						return
					}
					st = rest
				}
				start.C++
				continue
			}
			if d.isConst() && d.C == 0 && e.decl(sg.UID).Loose && i < len(o.Segs)-1 {
				// at the start of a star of unimportant length: without
				// refining the length, the index is either inside or, the
				// star being empty, equal to the index behind it
				bd := e.bounds(st, atomInt(sg.UID))
				if bd.Hi >= 1 {
					f(st.clone(), i, Zone{id, sg.UID})
				}
				if bd.Lo > 0 {
					return
				}
				x = st.normInt(linAdd(x, atomInt(sg.UID), 1))
				x.Src = 0
				idx = x
				start = linAdd(start, atomInt(sg.UID), 1)
				continue
			}
			// inside the star?
			var rest *State
			for _, r := range e.cmp0(st, token.LSS, st.normInt(linAdd(d, atomInt(sg.UID), -1))) {
				if r.v == Value(Bool(true)) {
					f(r.s, i, Zone{id, sg.UID})
				} else {
					rest = r.s
				}
			}
			if rest == nil {
				return
			}
			st = rest
			start = linAdd(start, atomInt(sg.UID), 1)
		}
		f(st, -1, idx)
		return
	}
	e.anyPosition(st, o, idx, f)
}

func (e *Engine) anyPosition(st *State, o *Obj, idx Value, f func(st *State, seg int, norm Value)) {
	for i := range o.Segs {
		f(st.clone(), i, idx)
	}
	e.vague = true
	f(st, -1, idx)
	e.vague = false
}

func (e *Engine) indexAddr(act *Activation, st *State, x *ssa.IndexAddr) []SV {
	idx := e.get(st, act, x.Index)
	base := e.get(st, act, x.X)
	var out []SV
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		return e.derefVal(act, st, base, opText(x.X), x.Pos(), func(s *State, p Ptr) []SV {
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return e.arrayIndex(act, s, idx, n, x.Pos(), func(s *State, i int64) Value { return Ptr{p.Obj, p.Path + pathEl(int32(i))} })
		})
	}
	ok := e.seqOf(st, base, func(s *State, id ID) {
		if id == 0 {
			e.panicAt(act, s, x.Pos(), "index out of range of %s (nil)", opText(x.X))
			return
		}
		o := e.seqObj(s, id)
		e.position(s, o, id, idx, func(s *State, seg int, norm Value) {
			if seg < 0 {
				e.panicAt(act, s, x.Pos(), "%sindex out of range of %s", e.seqFault(s, norm, o), opText(x.X))
				return
			}
			if _, isZ := norm.(Zone); isZ || norm != nil && fmt.Sprint(norm) != fmt.Sprint(idx) {
				e.setReg(s, act, x.Index, norm)
			}
			out = append(out, SV{s, Ptr{id, pathEl(int32(o.Segs[seg].UID))}})
		})
	})
	if !ok {
		e.problem(act.Fn, x.Pos(), "index of a %T", base)
	}
	return out
}

// seqObj returns a sequence, giving character data explicit segments.
func (e *Engine) seqObj(st *State, id ID) *Obj {
	o := e.obj(st, id)
	if o.V == nil {
		return o
	}
	s, ok := st.resolve(o.V).(Str)
	if !ok {
		return o
	}
	n := *o
	n.V = nil
	n.Segs = nil
	runes := true
	if b, ok := o.T.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8) {
		runes = false
	}
	for _, p := range s.P {
		if p.Atom == 0 {
			if runes {
				for _, r := range p.C {
					n.Segs = append(n.Segs, Seg{UID: e.newAtom('i', types.Typ[types.Int]), V: cint(int64(r))})
				}
			} else {
				for i := 0; i < len(p.C); i++ {
					n.Segs = append(n.Segs, Seg{UID: e.newAtom('i', types.Typ[types.Int]), V: cint(int64(p.C[i]))})
				}
			}
			continue
		}
		uid := e.newAtom('i', types.Typ[types.Int])
		lo := e.strMin(st, p.Atom)
		if runes && lo == 1 && !Sat([]LPart{e.lpart(st, p)}, []Lit{{P: PLenRange(1, 1), Neg: true}}) {
			n.Segs = append(n.Segs, Seg{UID: e.singleUID(), V: atomInt(e.assocAtom("char", p.Atom, 1000, p.Maps))})
			continue
		}
		if lo > 1 && runes {
			lo = 1
		}
		if lo >= 1 && runes && len(n.Segs) == 0 {
			// the first character is known by name
			n.Segs = append(n.Segs, Seg{UID: e.singleUID(), V: atomInt(e.assocAtom("char", p.Atom, 1000, p.Maps))})
			lo = 0
		}
		st.at[uid] = &AInfo{R: []Rng{{lo, MaxI}}}
		n.Segs = append(n.Segs, Seg{UID: uid, Star: true, V: Fresh{T: o.T}})
	}
	st.heap[id] = &n
	return &n
}

func (e *Engine) arrayIndex(act *Activation, st *State, idx Value, n int64, pos token.Pos, f func(*State, int64) Value) []SV {
	var out []SV
	i, ok := idx.(Int)
	if ok && i.isConst() {
		if i.C < 0 || i.C >= n {
			e.panicAt(act, st, pos, "index out of range")
			return nil
		}
		return one(st, f(st, i.C))
	}
	if !ok || n > 64 {
		e.problem(act.Fn, pos, "index into an array of length %d", n)
		return nil
	}
	for k := int64(0); k < n; k++ {
		var rest *State
		for _, r := range e.cmp0(st, token.EQL, st.normInt(linAdd(i, cint(k), -1))) {
			if r.v == Value(Bool(true)) {
				out = append(out, SV{r.s, f(r.s, k)})
			} else {
				rest = r.s
			}
		}
		if rest == nil {
			return out
		}
		st = rest
	}
	e.panicAt(act, st, pos, "possible index out of range")
	return out
}

func (e *Engine) index(act *Activation, st *State, x *ssa.Index) []SV {
	idx := e.get(st, act, x.Index)
	switch b := e.get(st, act, x.X).(type) {
	case Str:
		return e.strIndex(act, st, b, idx, x.Pos())
	case Array:
		return e.arrayIndex(act, st, idx, int64(len(b.E)), x.Pos(), func(s *State, i int64) Value { return e.own(s, b.E[i]) })
	}
	return one(st, e.inst(st, x.Type(), false))
}

// faultOf qualifies a fault that depends on a number: only one that depends on
// nothing but the length of the operand is certain.
func (e *Engine) faultOf(st *State, i, n Int) string {
	i, n = st.normInt(i), st.normInt(n)
	for _, t := range i.T {
		found := false
		for _, u := range n.T {
			found = found || u.ID == t.ID
		}
		if !found {
			return "possible "
		}
	}
	return ""
}

// seqFault is faultOf for an index of a sequence.
func (e *Engine) seqFault(st *State, idx Value, o *Obj) string {
	i, ok := idx.(Int)
	if !ok {
		return "possible "
	}
	var n Int
	for _, sg := range o.Segs {
		if sg.Star {
			n = linAdd(n, atomInt(sg.UID), 1)
		}
	}
	return e.faultOf(st, i, n)
}

// strIndex reads a byte of a string.
func (e *Engine) strIndex(act *Activation, st *State, s Str, idx Value, pos token.Pos) []SV {
	s = st.normStr(s)
	i, ok := idx.(Int)
	if !ok {
		st.SetMon("unmodelled", "characters at computed positions")
		id := e.inst(st, types.Typ[types.Byte], false)
		return one(st, id)
	}
	n := e.strLen(st, s)
	how := e.faultOf(st, i, n)
	var out []SV
	// in range?
	var in *State
	for _, r := range e.cmp0(st, token.LSS, st.normInt(linAdd(i, n, -1))) {
		for _, w := range e.forkBool(r.s, r.v) {
			if w.v == Value(Bool(true)) {
				in = w.s
			} else {
				e.panicAt(act, w.s, pos, "%sstring index out of range", how)
			}
		}
	}
	if in == nil {
		return nil
	}
	st = in
	if e.bounds(st, i).Lo < 0 {
		for _, r := range e.cmp0(st, token.GEQ, i) {
			for _, w := range e.forkBool(r.s, r.v) {
				if w.v == Value(Bool(true)) {
					out = append(out, e.byteAt(w.s, w.s.normStr(s), i)...)
				} else {
					e.panicAt(act, w.s, pos, "%sstring index out of range", how)
				}
			}
		}
		return out
	}
	return e.byteAt(st, st.normStr(s), i)
}

func (e *Engine) byteAt(st *State, s Str, i Int) []SV {
	if c, ok := s.Const(); ok && i.isConst() && i.C >= 0 && i.C < int64(len(c)) {
		return one(st, cint(int64(c[i.C])))
	}
	l, r, ok := e.cutAt(st, s, i)
	_ = l
	if ok && len(r.P) > 0 {
		if r.P[0].Atom == 0 {
			return one(st, cint(int64(r.P[0].C[0])))
		}
		if len(r.P) == 1 || e.strMin(st, r.P[0].Atom) > 0 {
			return one(st, atomInt(e.assocAtom("char", r.P[0].Atom, 0, r.P[0].Maps)))
		}
	}
	if i.isConst() && len(s.P) == 1 && i.C < 4 {
		return one(st, atomInt(e.assocAtom("char", s.P[0].Atom, int(i.C), s.P[0].Maps)))
	}
	// last character of a constant
	if len(s.P) > 0 && s.P[len(s.P)-1].Atom == 0 {
		d := linAdd(e.strLen(st, s), i, -1)
		c := s.P[len(s.P)-1].C
		if d.isConst() && d.C >= 1 && d.C <= int64(len(c)) {
			return one(st, cint(int64(c[int64(len(c))-d.C])))
		}
	}
	if n := len(s.P); n > 0 && s.P[n-1].Atom != 0 {
		if d := linAdd(e.strLen(st, s), i, -1); d.isConst() && d.C == 1 {
			return e.lastByte(st, s)
		}
	}
	st.SetMon("unmodelled", "characters at computed positions")
	return one(st, e.inst(st, types.Typ[types.Byte], false))
}

// lastByte is the last byte of a string that is not empty.
func (e *Engine) lastByte(st *State, s Str) []SV {
	s = st.normStr(s)
	if len(s.P) == 0 {
		return nil
	}
	p := s.P[len(s.P)-1]
	if p.Atom == 0 {
		return one(st, cint(int64(p.C[len(p.C)-1])))
	}
	if e.strMin(st, p.Atom) > 0 {
		return one(st, atomInt(e.assocAtom("char", p.Atom, -1, p.Maps)))
	}
	var out []SV
	for _, r := range e.decideLen(st, p.Atom, []Rng{{0, 0}}) {
		out = append(out, e.lastByte(r.s, s)...)
	}
	return out
}

// ---------------------------------------------------------------------------
// maps

func (e *Engine) mapOf(st *State, v Value, f func(st *State, id ID)) bool {
	v = st.resolve(v)
	switch x := v.(type) {
	case Nil:
		f(st, 0)
	case Map:
		f(st, x.Obj)
	case Unk:
		if a := st.info(x.ID); a == nil || !a.NonNil {
			t := st.clone()
			t.upd(x.ID, func(a *AInfo) { a.Bind = Nil{} })
			f(t, 0)
			st.upd(x.ID, func(a *AInfo) { a.NonNil = true })
		}
		r, ok := e.materialize(st, x)
		if !ok {
			return false
		}
		f(st, r.(Map).Obj)
	case VSet:
		for i, alt := range x {
			s := st
			if i < len(x)-1 {
				s = st.clone()
			}
			if !e.mapOf(s, e.own(s, alt), f) {
				return false
			}
		}
	default:
		return false
	}
	return true
}

func (e *Engine) lookup(act *Activation, st *State, x *ssa.Lookup) []SV {
	k := e.get(st, act, x.Index)
	base := e.get(st, act, x.X)
	if s, ok := base.(Str); ok {
		return e.strIndex(act, st, s, k, x.Pos())
	}
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		e.problem(act.Fn, x.Pos(), "lookup in a %T", base)
		return nil
	}
	var out []SV
	ret := func(s *State, v Value, found bool) {
		if !found {
			v = e.zero(mt.Elem())
		}
		if x.CommaOk {
			v = Tuple{v, Bool(found)}
		}
		out = append(out, SV{s, v})
	}
	if !e.mapOf(st, base, func(s *State, id ID) {
		if id == 0 {
			ret(s, nil, false)
			return
		}
		e.mapGet(s, id, k, ret)
	}) {
		e.problem(act.Fn, x.Pos(), "lookup in a %T", base)
	}
	return out
}

// mapGet looks a key up; ret is called for every possible outcome.
func (e *Engine) mapGet(st *State, id ID, k Value, ret func(st *State, v Value, found bool)) {
	o := e.obj(st, id)
	if e.tableGet(st, id, o, k, ret) {
		return
	}
	for i := range o.Ents {
		en := o.Ents[i]
		var rest *State
		for _, r := range e.equal(st, k, en.K) {
			for _, w := range e.forkBool(r.s, r.v) {
				if w.v == Value(Bool(false)) {
					rest = w.s
					continue
				}
				s := w.s
				oo := e.obj(s, id)
				en := oo.Ents[i]
				switch {
				case en.Absent:
					ret(s, nil, false)
				case en.Must:
					e.entVal(s, id, i, ret)
				default:
					a := s.clone()
					e.setEnt(a, id, i, func(m *MapEnt) { m.Absent = true })
					ret(a, nil, false)
					e.setEnt(s, id, i, func(m *MapEnt) { m.Must = true })
					e.entVal(s, id, i, ret)
				}
			}
		}
		if rest == nil {
			return
		}
		st = rest
	}
	o = e.obj(st, id)
	if o.Rest == nil || e.notRest(st, o, k) {
		ret(st, nil, false)
		return
	}
	keep := e.tracked(st, k) || e.plainConst(st.resolve(k))
	a := st.clone()
	if keep {
		n := *o
		n.Ents = append(append([]MapEnt(nil), o.Ents...), MapEnt{K: k, Absent: true})
		a.heap[id] = &n
	}
	ret(a, nil, false)
	vs := VSet{o.Rest}
	if x, ok := o.Rest.(VSet); ok {
		vs = x
	}
	for i, alt := range vs {
		s := st
		if i < len(vs)-1 {
			s = st.clone()
		}
		v := e.own(s, alt)
		if keep {
			n := *e.obj(s, id)
			n.Ents = append(append([]MapEnt(nil), n.Ents...), MapEnt{K: k, V: v, Must: true})
			s.heap[id] = &n
		}
		ret(s, v, true)
	}
}

// notRest reports whether the unknown keys are known to differ from k.
func (e *Engine) notRest(st *State, o *Obj, k Value) bool {
	f, ok := o.RestK.(Fresh)
	if !ok {
		return false
	}
	if p, ok := st.resolve(k).(Ptr); ok && !o.Input {
		// only pointers nobody tracks were merged
		if x := e.obj(st, p.Obj); x != nil && x.Name != "" {
			return true
		}
	}
	for _, n := range f.Not {
		if e.sameVal(st, n, k) {
			return true
		}
	}
	return false
}

func (e *Engine) entVal(st *State, id ID, i int, ret func(st *State, v Value, found bool)) {
	v := e.obj(st, id).Ents[i].V
	if f, ok := v.(Fresh); ok {
		v = e.own(st, f)
		e.setEnt(st, id, i, func(m *MapEnt) { m.V = v })
	}
	for _, r := range e.alts(st, v, func(s *State, w Value) { e.setEnt(s, id, i, func(m *MapEnt) { m.V = w }) }) {
		ret(r.s, r.v, true)
	}
}

func (e *Engine) setEnt(st *State, id ID, i int, f func(*MapEnt)) {
	n := *e.obj(st, id)
	n.Ents = append([]MapEnt(nil), n.Ents...)
	f(&n.Ents[i])
	st.heap[id] = &n
}

// tableGet looks a symbolic key up in a table of constants without splitting
// into one case per entry.
func (e *Engine) tableGet(st *State, oid ID, o *Obj, k Value, ret func(st *State, v Value, found bool)) bool {
	if len(o.Ents) <= 4 || o.Rest != nil {
		return false
	}
	var ks Str
	var ki Int
	isStr := false
	switch x := st.resolve(k).(type) {
	case Str:
		ks, isStr = x, true
	case Int:
		ki = x
	default:
		return false
	}
	type group struct {
		v    Value
		keys []string
		ints []int64
	}
	var groups []*group
	intVals := true
	for _, en := range o.Ents {
		if !en.Must {
			return false
		}
		switch y := en.K.(type) {
		case Str:
			c, ok := y.Const()
			if !ok || !isStr {
				return false
			}
			groups = append(groups, &group{v: en.V, keys: []string{c}})
		case Int:
			if !y.isConst() || isStr {
				return false
			}
			groups = append(groups, &group{v: en.V, ints: []int64{y.C}})
		default:
			return false
		}
		if iv, ok := en.V.(Int); !ok || !iv.isConst() {
			intVals = false
		}
	}
	if isStr {
		if c, ok := ks.Const(); ok {
			for _, g := range groups {
				if g.keys[0] == c {
					ret(st, g.v, true)
					return true
				}
			}
			ret(st, nil, false)
			return true
		}
		// which keys are possible at all
		lp := e.lparts(st, ks)
		var cand []*group
		var words []string
		for _, g := range groups {
			if Sat(lp, []Lit{{P: PExact(g.keys[0])}}) {
				cand = append(cand, g)
				words = append(words, quoteRe(g.keys[0]))
			}
		}
		if len(cand) == 0 {
			ret(st, nil, false)
			return true
		}
		sort.Strings(words)
		all := PFull(strings.Join(words, "|"))
		for _, r := range e.decidePred(st, ks, all, "") {
			if r.v == Value(Bool(false)) {
				ret(r.s, nil, false)
				continue
			}
			if intVals && len(cand) > 3 {
				var rs []Rng
				for _, g := range cand {
					rs = append(rs, Rng{g.v.(Int).C, g.v.(Int).C})
				}
				rs = normRanges(rs)
				if n := r.s.normStr(ks); len(n.P) == 1 && n.P[0].Atom != 0 && e.isBase(oid) {
					id := e.assocAtom("tbl", n.P[0].Atom, int(oid), n.P[0].Maps)
					if r.s.at[id] == nil {
						r.s.at[id] = &AInfo{R: rs}
					}
					ret(r.s, atomInt(id), true)
					continue
				}
				id := e.newAtom('i', types.Typ[types.Int])
				r.s.at[id] = &AInfo{R: rs}
				ret(r.s, atomInt(id), true)
				continue
			}
			for _, g := range cand {
				for _, q := range e.eqStr(r.s.clone(), ks, cstr(g.keys[0])) {
					for _, w := range e.forkBool(q.s, q.v) {
						if w.v == Value(Bool(true)) {
							ret(w.s, e.own(w.s, g.v), true)
						}
					}
				}
			}
		}
		return true
	}
	if ki.isConst() {
		for _, g := range groups {
			if g.ints[0] == ki.C {
				ret(st, g.v, true)
				return true
			}
		}
		ret(st, nil, false)
		return true
	}
	return false
}

func normRanges(rs []Rng) []Rng {
	sort.Slice(rs, func(i, j int) bool { return rs[i].Lo < rs[j].Lo })
	var out []Rng
	for _, r := range rs {
		if n := len(out); n > 0 && out[n-1].Hi+1 >= r.Lo {
			out[n-1].Hi = max(out[n-1].Hi, r.Hi)
			continue
		}
		out = append(out, r)
	}
	return out
}

func (e *Engine) mapUpdate(act *Activation, st *State, m, k, v Value, pos token.Pos) []*State {
	var outs []*State
	if !e.mapOf(st, m, func(s *State, id ID) {
		if id == 0 {
			e.panicAt(act, s, pos, "assignment to entry in nil map")
			return
		}
		if e.Hooks.OnMapUpdate != nil {
			e.Hooks.OnMapUpdate(e, s, act.Fn, pos, Map{id}, k, v)
		}
		outs = append(outs, e.mapSet(s, id, k, v)...)
	}) {
		e.problem(act.Fn, pos, "update of a %T", m)
	}
	return outs
}

func (e *Engine) mapSet(st *State, id ID, k, v Value) []*State {
	var outs []*State
	o := e.obj(st, id)
	k = st.resolve(k)
	if x, ok := k.(Str); ok {
		if _, isC := x.Const(); isC && len(o.Ents) > 8 {
			// constant tables
			for i, en := range o.Ents {
				if y, ok := en.K.(Str); ok && y.raw() == x.raw() {
					e.setEnt(st, id, i, func(m *MapEnt) { m.V, m.Must, m.Absent = v, true, false })
					return []*State{st}
				}
			}
		}
	}
	for i := range o.Ents {
		var rest *State
		for _, r := range e.equal(st, k, e.obj(st, id).Ents[i].K) {
			for _, w := range e.forkBool(r.s, r.v) {
				if w.v == Value(Bool(false)) {
					rest = w.s
					continue
				}
				e.setEnt(w.s, id, i, func(m *MapEnt) { m.V, m.Must, m.Absent = v, true, false })
				outs = append(outs, w.s)
			}
		}
		if rest == nil {
			return outs
		}
		st = rest
	}
	o = e.obj(st, id)
	n := *o
	if e.tracked(st, k) || e.plainConst(k) && len(o.Ents) < 80 || !e.generic(st, k) && len(o.Ents) < e.AppendCap {
		n.Ents = append(append([]MapEnt(nil), o.Ents...), MapEnt{K: k, V: v, Must: true})
	} else {
		not := e.notSet(st, k)
		if o.Rest != nil {
			if f, ok := o.RestK.(Fresh); ok {
				not = e.interNot(st, not, f.Not)
			} else {
				not = nil
			}
		}
		n.RestK = Fresh{T: o.KeyT, Not: not}
		if !e.tracked(st, v) && e.generic(st, v) {
			v = e.blurred(st, v, o.T)
		}
		n.Rest = e.joinStar(st, o.Rest, v, o.T)
	}
	st.heap[id] = &n
	return append(outs, st)
}

// notSet collects the tracked strings a string is known to differ from.
func (e *Engine) notSet(st *State, k Value) []Value {
	s, ok := k.(Str)
	if !ok {
		return nil
	}
	var out []Value
	raw := st.normStr(s).raw()
	low := st.normStr(mapCase(s, "l")).raw()
	for _, f := range st.facts {
		if f.P != nil || f.Val {
			continue
		}
		a, b := st.normStr(f.A), st.normStr(f.B)
		if b.raw() == raw {
			a, b = b, a
		}
		if a.raw() == raw && e.tracked(st, b) {
			out = append(out, b)
		}
		if b.raw() == low {
			a, b = b, a
		}
		if a.raw() == low && low != raw && e.tracked(st, b) && len(b.P) == 1 && b.P[0].Maps == "l" {
			out = append(out, b)
		}
	}
	return out
}

func (e *Engine) interNot(st *State, a, b []Value) []Value {
	var out []Value
	for _, x := range a {
		for _, y := range b {
			if e.sameVal(st, x, y) {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

func (e *Engine) mapDelete(st *State, id ID, k Value) []*State {
	var outs []*State
	o := e.obj(st, id)
	for i := range o.Ents {
		var rest *State
		for _, r := range e.equal(st, k, e.obj(st, id).Ents[i].K) {
			for _, w := range e.forkBool(r.s, r.v) {
				if w.v == Value(Bool(false)) {
					rest = w.s
					continue
				}
				if o.Rest != nil {
					e.setEnt(w.s, id, i, func(m *MapEnt) { m.V, m.Must, m.Absent = nil, false, true })
				} else {
					n := *e.obj(w.s, id)
					ents := append([]MapEnt(nil), n.Ents[:i]...)
					n.Ents = append(ents, n.Ents[i+1:]...)
					w.s.heap[id] = &n
				}
				outs = append(outs, w.s)
			}
		}
		if rest == nil {
			return outs
		}
		st = rest
	}
	return append(outs, st)
}

// ---------------------------------------------------------------------------
// slices

func (e *Engine) seqLen(st *State, id ID) Int {
	o := e.obj(st, id)
	if o.V != nil {
		if s, ok := st.resolve(o.V).(Str); ok {
			if b, ok := o.T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.strLen(st, s)
			}
		}
	}
	o = e.seqObj(st, id)
	n := Int{}
	for _, sg := range o.Segs {
		if sg.Star {
			n = linAdd(n, atomInt(sg.UID), 1)
		} else {
			n.C++
		}
	}
	n = st.normInt(n)
	if len(o.Segs) > 0 {
		n.Src = id
	}
	return n
}

func (e *Engine) starLen(st *State, lo int64) ID {
	id := e.newAtom('i', types.Typ[types.Int])
	st.at[id] = &AInfo{R: []Rng{{lo, MaxI}}}
	return id
}

func (e *Engine) singleUID() ID { return e.newAtom('i', types.Typ[types.Int]) }

func (e *Engine) makeSlice(act *Activation, st *State, x *ssa.MakeSlice) []SV {
	t := x.Type().Underlying().(*types.Slice).Elem()
	z := e.zero(t)
	n, ok := e.get(st, act, x.Len).(Int)
	if !ok {
		return one(st, Slice{e.newObj(st, &Obj{Kind: OSeq, T: t, Segs: []Seg{{UID: e.starLen(st, 0), Star: true, V: z}}})})
	}
	if e.bounds(st, n).Lo < 0 {
		for _, r := range e.cmp0(st.clone(), token.LSS, n) {
			for _, w := range e.forkBool(r.s, r.v) {
				if w.v == Value(Bool(true)) {
					e.panicAt(act, w.s, x.Pos(), "possible makeslice: len out of range")
				}
			}
		}
	}
	var segs []Seg
	if src := n.Src; src != 0 && e.obj(st, src) != nil {
		for _, sg := range e.obj(st, src).Segs {
			segs = append(segs, Seg{UID: sg.UID, Star: sg.Star, V: z})
		}
	} else if n.isConst() && n.C <= 256 {
		for i := int64(0); i < n.C; i++ {
			segs = append(segs, Seg{UID: e.singleUID(), V: z})
		}
	} else {
		lo := max(e.bounds(st, n).Lo, 0)
		segs = []Seg{{UID: e.starLen(st, lo), Star: true, V: z}}
	}
	return one(st, Slice{e.newObj(st, &Obj{Kind: OSeq, T: t, Segs: segs})})
}

// cutSeq splits the segments of a sequence at an index.
func (e *Engine) cutSeq(st *State, o *Obj, at Int, f func(st *State, l, r []Seg)) {
	start := Int{}
	for i := 0; i <= len(o.Segs); i++ {
		d := st.normInt(linAdd(at, start, -1))
		if d.isConst() && d.C == 0 {
			f(st, append([]Seg{}, o.Segs[:i]...), append([]Seg{}, o.Segs[i:]...))
			return
		}
		if i == len(o.Segs) {
			break
		}
		sg := o.Segs[i]
		if sg.Star {
			// strictly inside or at the end of this star?
			var rest *State
			for _, r := range e.cmp0(st, token.LSS, st.normInt(linAdd(d, atomInt(sg.UID), -1))) {
				for _, w := range e.forkBool(r.s, r.v) {
					if w.v == Value(Bool(false)) {
						rest = w.s
						continue
					}
					s := w.s
					lo := int64(0)
					if d.isConst() {
						lo = 1
					}
					var l, rr []Seg
					l = append(l, o.Segs[:i]...)
					if d.isConst() && d.C <= 4 {
						for k := int64(0); k < d.C; k++ {
							l = append(l, Seg{UID: e.singleUID(), V: sg.V})
						}
					} else {
						l = append(l, Seg{UID: e.starLen(s, lo), Star: true, V: sg.V})
					}
					rr = append(rr, Seg{UID: e.starLen(s, 1), Star: true, V: sg.V})
					rr = append(rr, o.Segs[i+1:]...)
					f(s, l, rr)
				}
			}
			if rest == nil {
				return
			}
			st = rest
			start = linAdd(start, atomInt(sg.UID), 1)
			continue
		}
		if !d.isConst() {
			var rest *State
			for _, r := range e.cmp0(st, token.EQL, d) {
				for _, w := range e.forkBool(r.s, r.v) {
					if w.v == Value(Bool(true)) {
						f(w.s, o.Segs[:i:i], o.Segs[i:])
					} else {
						rest = w.s
					}
				}
			}
			if rest == nil {
				return
			}
			st = rest
		}
		start.C++
	}
	f(st, nil, nil)
}

func (e *Engine) slice(act *Activation, st *State, x *ssa.Slice) []SV {
	base := e.get(st, act, x.X)
	var lo, hi Value
	if x.Low != nil {
		lo = e.get(st, act, x.Low)
	}
	if x.High != nil {
		hi = e.get(st, act, x.High)
	}
	if s, ok := base.(Str); ok {
		return e.strSlice(act, st, s, lo, hi, x.Pos(), opText(x.X))
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		return e.derefVal(act, st, base, opText(x.X), x.Pos(), func(s *State, p Ptr) []SV {
			o := e.obj(s, p.Obj)
			v, _ := e.nav(o.V, pathElems(p.Path))
			arr, ok := e.own(s, v).(Array)
			if !ok {
				return one(s, Slice{e.newObj(s, &Obj{Kind: OSeq, T: at.Elem(), Segs: []Seg{{UID: e.starLen(s, 0), Star: true, V: Fresh{T: at.Elem()}}}})})
			}
			l, h := int64(0), at.Len()
			if i, ok := lo.(Int); ok && i.isConst() {
				l = i.C
			}
			if i, ok := hi.(Int); ok && i.isConst() {
				h = i.C
			}
			if l < 0 || h > at.Len() || l > h {
				e.panicAt(act, s, x.Pos(), "slice bounds out of range")
				return nil
			}
			var segs []Seg
			for _, el := range arr.E[l:h] {
				segs = append(segs, Seg{UID: e.singleUID(), V: el})
			}
			return one(s, Slice{e.newObj(s, &Obj{Kind: OSeq, T: at.Elem(), Segs: segs})})
		})
	}
	var out []SV
	if lo == nil && hi == nil {
		return one(st, base)
	}
	if lo == nil {
		lo = cint(0)
	}
	ok := e.seqOf(st, base, func(s *State, id ID) {
		if id == 0 {
			// only [0:0] is legal
			for _, b := range []Value{lo, hi} {
				if i, ok := b.(Int); ok && i.isConst() && i.C > 0 {
					e.panicAt(act, s, x.Pos(), "slice bounds out of range")
					return
				}
			}
			out = append(out, SV{s, Nil{}})
			return
		}
		o := e.seqObj(s, id)
		upper := func(s *State, segs []Seg, off Int) {
			// segs: the part from the upper bound's point of view
			if h, ok := hi.(Int); ok {
				tmp := *o
				tmp.Segs = segs
				e.cutSeq(s, &tmp, linAdd(h, off, -1), func(s *State, l, r []Seg) {
					if l == nil && r == nil {
						e.panicAt(act, s, x.Pos(), "%sslice bounds out of range of %s", e.seqFault(s, h, o), opText(x.X))
						return
					}
					v := e.newSeq(s, o.T, l)
					if o.Input && e.Hooks.OnStore != nil && x.Max == nil && len(r) > 0 {
						// appending to the part overwrites the rest
						s.heap[v.(Slice).Obj].Over = Slice{id}
					}
					out = append(out, SV{s, v})
				})
				return
			}
			if hi == nil {
				out = append(out, SV{s, e.newSeq(s, o.T, segs)})
				return
			}
			if z, ok := hi.(Zone); ok {
				// ends inside a star: what precedes it and a part of it
				for i, sg := range segs {
					if sg.UID == z.Seg {
						l := append([]Seg(nil), segs[:i]...)
						uid := e.starLen(s, 0)
						e.decl(uid).Loose = true
						l = append(l, Seg{UID: uid, Star: true, V: sg.V})
						out = append(out, SV{s, e.newSeq(s, o.T, l)})
						return
					}
				}
			}
			// upper bound unknown: any prefix
			s.SetMon("unmodelled", "a slice with an unknown upper bound")
			var star Value
			for _, sg := range segs {
				star = e.joinStar(s, star, sg.V, o.T)
			}
			if star == nil {
				out = append(out, SV{s, e.newSeq(s, o.T, nil)})
				return
			}
			out = append(out, SV{s, e.newSeq(s, o.T, []Seg{{UID: e.starLen(s, 0), Star: true, V: star}})})
		}
		l, isInt := lo.(Int)
		if !isInt {
			if z, ok := lo.(Zone); ok {
				for i, sg := range o.Segs {
					if sg.UID == z.Seg {
						r := append([]Seg{{UID: e.starLen(s, 1), Star: true, V: sg.V}}, o.Segs[i+1:]...)
						if hi == nil {
							out = append(out, SV{s, e.newSeq(s, o.T, r)})
							return
						}
					}
				}
			}
			e.problem(act.Fn, x.Pos(), "slice with an unknown lower bound")
			return
		}
		if l.isConst() && l.C == 0 {
			upper(s, o.Segs, Int{})
			return
		}
		if e.bounds(s, l).Lo < 0 {
			for _, r := range e.cmp0(s.clone(), token.LSS, l) {
				for _, w := range e.forkBool(r.s, r.v) {
					if w.v == Value(Bool(true)) {
						e.panicAt(act, w.s, x.Pos(), "possible slice bounds out of range of %s", opText(x.X))
					}
				}
			}
		}
		e.cutSeq(s, o, l, func(s *State, a, b []Seg) {
			if a == nil && b == nil {
				e.panicAt(act, s, x.Pos(), "%sslice bounds out of range of %s", e.seqFault(s, l, o), opText(x.X))
				return
			}
			upper(s, b, l)
		})
	})
	if !ok {
		e.problem(act.Fn, x.Pos(), "slice of a %T", base)
	}
	return out
}

func (e *Engine) newSeq(st *State, t types.Type, segs []Seg) Value {
	return Slice{e.newObj(st, &Obj{Kind: OSeq, T: t, Segs: append([]Seg(nil), segs...)})}
}

func (e *Engine) strSlice(act *Activation, st *State, s Str, lo, hi Value, pos token.Pos, what string) []SV {
	s = st.normStr(s)
	l, h := cint(0), e.strLen(st, s)
	unknown := false
	if lo != nil {
		if i, ok := lo.(Int); ok {
			l = i
		} else {
			unknown = true
		}
	}
	if hi != nil {
		if i, ok := hi.(Int); ok {
			h = i
		} else {
			unknown = true
		}
	}
	fresh := func(st *State) []SV { return one(st, e.inst(st, types.Typ[types.String], false)) }
	if unknown {
		return fresh(st)
	}
	// a part of a known length at least is not shorter
	part := func(st *State, n Int) []SV {
		v := e.inst(st, types.Typ[types.String], false)
		x, ok := v.(Str)
		if lo := e.bounds(st, st.normInt(n)).Lo; ok && len(x.P) == 1 && x.P[0].Atom != 0 && lo > 0 && lo <= 40 {
			st.upd(x.P[0].Atom, func(a *AInfo) { a.Lits = append(a.Lits[:len(a.Lits):len(a.Lits)], Lit{P: PLenRange(int(lo), -1)}) })
		}
		return one(st, v)
	}
	var out []SV
	states := []*State{st}
	// 0 <= l <= h <= len
	check := func(d Int) {
		var next []*State
		for _, s0 := range states {
			d := s0.normInt(d)
			if e.bounds(s0, d).Lo >= 0 {
				next = append(next, s0)
				continue
			}
			for _, r := range e.cmp0(s0, token.GEQ, d) {
				for _, w := range e.forkBool(r.s, r.v) {
					if w.v == Value(Bool(true)) {
						next = append(next, w.s)
					} else {
						e.panicAt(act, w.s, pos, "%sslice bounds out of range of %s", e.faultOf(w.s, d, e.strLen(w.s, s)), what)
					}
				}
			}
		}
		states = next
	}
	if lo != nil {
		check(l)
	}
	if hi != nil {
		check(linAdd(h, l, -1))
		check(linAdd(e.strLen(st, s), h, -1))
	} else if lo != nil {
		check(linAdd(h, l, -1))
	}
	for _, s0 := range states {
		str := s0.normStr(s)
		hh := s0.normInt(h)
		if hi == nil {
			hh = e.strLen(s0, str)
		}
		ll := s0.normInt(l)
		a, _, ok := e.cutAt(s0, str, hh)
		if ok {
			if _, b, ok := e.cutAt(s0, a, ll); ok {
				out = append(out, SV{s0, b})
				continue
			}
		}
		if lo != nil && ll.isConst() && hi == nil {
			if _, b, ok := e.cutAt(s0, str, ll); ok {
				out = append(out, SV{s0, b})
				continue
			}
			// split the first characters off an atom
			if r, ok := e.splitHead(s0, str, ll.C); ok {
				out = append(out, SV{s0, r})
				continue
			}
		}
		// the last characters of an atom: it may be shorter than that
		if n := len(str.P); lo != nil && hi == nil && n > 1 && str.P[n-1].Atom != 0 {
			d := s0.normInt(linAdd(hh, ll, -1))
			if last := atomInt(e.assocAtom("strlen", str.P[n-1].Atom, 0, "")); d.isConst() && d.C > 0 && d.C <= 4 && e.bounds(s0, last).Lo < d.C {
				for _, r := range e.cmp0(s0, token.LSS, linAdd(last, cint(d.C), -1)) {
					for _, w := range e.forkBool(r.s, r.v) {
						if t := w.s.normStr(str); w.v == Value(Bool(true)) {
							if a, ok := t.Const(); ok && int64(len(a)) >= d.C {
								out = append(out, SV{w.s, cstr(a[int64(len(a))-d.C:])})
								continue
							}
						}
						out = append(out, part(w.s, d)...)
					}
				}
				continue
			}
		}
		out = append(out, part(s0, linAdd(hh, ll, -1))...)
	}
	return out
}

// splitHead drops n characters from the front of a string that starts with an atom.
func (e *Engine) splitHead(st *State, s Str, n int64) (Str, bool) {
	if n != 1 || len(s.P) == 0 || s.P[0].Atom == 0 || s.P[0].Maps != "" {
		return Str{}, false
	}
	return Str{}, false
}

// ---------------------------------------------------------------------------
// append, copy

func (e *Engine) appendSeq(act *Activation, st *State, t types.Type, dst, src Value, ret func(*State, Value), pos token.Pos) {
	ok := e.seqOf(st, dst, func(s *State, a ID) {
		ok := e.seqOf(s, src, func(s *State, b ID) {
			var segs []Seg
			if a != 0 {
				segs = append(segs, e.seqObj(s, a).Segs...)
			}
			if b == 0 || len(e.seqObj(s, b).Segs) == 0 {
				if a == 0 {
					ret(s, Nil{})
				} else {
					ret(s, Slice{a})
				}
				return
			}
			for _, sg := range e.seqObj(s, b).Segs {
				segs = e.pushSeg(s, t, segs, sg)
			}
			v := e.newSeq(s, t, segs)
			if a != 0 && e.Hooks.OnStore != nil {
				if src, ok := e.obj(s, a).Over.(Slice); ok {
					if o := e.obj(s, src.Obj); o != nil && len(o.Segs) > 0 {
						e.Hooks.OnStore(e, s, act.Fn, pos, Ptr{src.Obj, pathEl(int32(o.Segs[len(o.Segs)-1].UID))}, e.instPos(s))
						s.heap[v.(Slice).Obj].Over = src
					}
				}
			}
			ret(s, v)
		})
		if !ok {
			if str, isStr := s.resolve(src).(Str); isStr {
				e.seqOf(s, e.strSeq(s, t, str), func(s *State, b ID) {
					var segs []Seg
					if a != 0 {
						segs = append(segs, e.seqObj(s, a).Segs...)
					}
					for _, sg := range e.seqObj(s, b).Segs {
						segs = e.pushSeg(s, t, segs, sg)
					}
					ret(s, e.newSeq(s, t, segs))
				})
				return
			}
			e.problem(act.Fn, pos, "append of a %T", src)
		}
	})
	if !ok {
		e.problem(act.Fn, pos, "append to a %T", dst)
	}
}

// pushSeg appends a segment, summarising content nobody tracks.
func (e *Engine) pushSeg(st *State, t types.Type, segs []Seg, sg Seg) []Seg {
	segs = append([]Seg(nil), segs...)
	last := len(segs) - 1
	if sg.Star {
		if a := st.info(sg.UID); a != nil && len(a.R) == 1 && a.R[0].Lo == 0 && a.R[0].Hi == 0 {
			return segs
		}
		if last >= 0 && segs[last].Star {
			lo := e.atomLo(st, segs[last].UID) + e.atomLo(st, sg.UID)
			segs[last] = Seg{UID: e.starLen(st, min(lo, 1)), Star: true, V: e.joinStar(st, segs[last].V, sg.V, t)}
			return segs
		}
		for _, x := range segs {
			if x.UID == sg.UID {
				sg.UID = e.starLen(st, e.atomLo(st, sg.UID))
				break
			}
		}
		return append(segs, sg)
	}
	v := st.resolve(sg.V)
	gen := e.generic(st, v)
	tr := e.tracked(st, v)
	if tr && e.anonymous(st, v) {
		// anonymous elements related to a skolem: keep a few
		n := 0
		for _, x := range segs {
			if !x.Star && e.anonymous(st, st.resolve(x.V)) {
				n++
			}
		}
		tr, gen = n < e.AnonCap, n >= e.AnonCap
	}
	if e.initMode || tr || e.AppendCap >= 1<<20 {
		return append(segs, Seg{UID: e.singleUID(), V: v})
	}
	singles := 0
	for _, x := range segs {
		if !x.Star {
			singles++
		}
	}
	if !gen && last >= 0 {
		// runs of one value become a star of that value
		same := func(x Value) bool { return fmt.Sprint(st.resolve(x)) == fmt.Sprint(v) }
		if segs[last].Star && same(segs[last].V) {
			segs[last] = Seg{UID: e.starLen(st, min(e.atomLo(st, segs[last].UID)+1, 3)), Star: true, V: v}
			return segs
		}
		if last >= 1 && countStars(segs) < 4 && !segs[last].Star && !segs[last-1].Star && same(segs[last].V) && same(segs[last-1].V) {
			segs = segs[:last]
			segs[last-1] = Seg{UID: e.starLen(st, 3), Star: true, V: v}
			return segs
		}
	}
	if e.plainConst(v) && singles < 64 {
		// distinct constants are kept
		same := 0
		for _, x := range segs {
			if !x.Star && e.plainConst(x.V) && fmt.Sprint(x.V) == fmt.Sprint(v) {
				same++
			}
		}
		if same < 2 {
			return append(segs, Seg{UID: e.singleUID(), V: v})
		}
	}
	if !gen && singles < e.AppendCap {
		return append(segs, Seg{UID: e.singleUID(), V: v})
	}
	var f Value
	fr := e.blurred(st, v, t)
	if gen {
		fr.Not = e.notSet(st, v)
	}
	f = fr
	if i := e.joinIfaces(st, nil, v, t); i != nil {
		f = i
	}
	if last >= 0 && segs[last].Star {
		stars := countStars(segs)
		_, nilStar := st.resolve(segs[last].V).(Nil)
		if !(nilStar && fr.NonNil) || stars >= 4 {
			segs[last] = Seg{UID: e.starLen(st, 1), Star: true, V: e.joinStar(st, segs[last].V, f, t)}
			return segs
		}
	}
	return append(segs, Seg{UID: e.starLen(st, 1), Star: true, V: f})
}

// anonymous tells whether v points to an unnamed object of the input.
func (e *Engine) anonymous(st *State, v Value) bool {
	p, ok := v.(Ptr)
	if !ok || p.Path != "" || e.isBase(p.Obj) {
		return false
	}
	o := e.obj(st, p.Obj)
	return o != nil && o.Input && o.Name == "" && o.Kind == OCell
}

func countStars(segs []Seg) int {
	n := 0
	for _, x := range segs {
		if x.Star {
			n++
		}
	}
	return n
}

func (e *Engine) atomLo(st *State, id ID) int64 { return max(0, rHull(e.atomRange(st, id)).Lo) }

// strSeq is the byte or rune sequence of a string.
func (e *Engine) strSeq(st *State, t types.Type, s Str) Value {
	return Slice{e.newObj(st, &Obj{Kind: OSeq, T: t, V: s})}
}

// ---------------------------------------------------------------------------
// range, next

func (e *Engine) rangeOver(act *Activation, st *State, x *ssa.Range) []SV {
	base := e.get(st, act, x.X)
	if s, ok := base.(Str); ok {
		return one(st, Iter{e.newObj(st, &Obj{Kind: OIter, T: types.Typ[types.String], Over: s, Pos: cint(0)})})
	}
	var out []SV
	if !e.mapOf(st, base, func(s *State, id ID) {
		it := &Obj{Kind: OIter, T: x.X.Type()}
		if id == 0 {
			it.Over = Nil{}
		} else {
			it.Over = Map{id}
			it.Done = make([]bool, len(e.obj(s, id).Ents))
		}
		out = append(out, SV{s, Iter{e.newObj(s, it)}})
	}) {
		e.problem(act.Fn, x.Pos(), "range over a %T", base)
	}
	return out
}

func (e *Engine) next(act *Activation, st *State, x *ssa.Next) []SV {
	it, ok := e.get(st, act, x.Iter).(Iter)
	if !ok {
		e.problem(act.Fn, x.Pos(), "next of an unknown iterator")
		return nil
	}
	o := e.obj(st, it.Obj)
	over := st.resolve(o.Over)
	end := func(s *State, t types.Type) SV {
		var k, v Value
		if x.IsString {
			k, v = cint(0), cint(0)
		} else {
			mt := t.Underlying().(*types.Map)
			k, v = e.zero(mt.Key()), e.zero(mt.Elem())
		}
		return SV{s, Tuple{Bool(false), k, v}}
	}
	if x.IsString {
		s := over.(Str)
		if p, ok := o.Pos.(Int); ok {
			_, rest, okc := e.cutAt(st, s, p)
			if okc {
				if len(rest.P) == 0 {
					return []SV{end(st, o.T)}
				}
				if rest.P[0].Atom == 0 {
					r, n := utf8.DecodeRuneInString(rest.P[0].C)
					m := *o
					m.Pos = linAdd(p, cint(int64(n)), 1)
					st.heap[it.Obj] = &m
					return one(st, Tuple{Bool(true), p, cint(int64(r))})
				}
				// the characters of an atom
				at := rest.P[0]
				var out []SV
				for _, q := range e.decideLen(st, at.Atom, []Rng{{0, 0}}) {
					if q.v == Value(Bool(true)) {
						m := *o
						m.Over = q.s.normStr(s)
						q.s.heap[it.Obj] = &m
						out = append(out, e.next(act, q.s, x)...)
						continue
					}
					m := *e.obj(q.s, it.Obj)
					m.Pos = Zone{0, at.Atom}
					q.s.heap[it.Obj] = &m
					var v Value = atomInt(e.assocAtom("char", at.Atom, 1000, at.Maps))
					if !p.isConst() {
						// fine, the first character of this atom
					}
					out = append(out, SV{q.s, Tuple{Bool(true), p, v}})
				}
				return out
			}
		}
		if z, ok := o.Pos.(Zone); ok {
			// somewhere inside the atom: another character, or its end
			o = e.seenChar(st, it.Obj)
			s2 := st.clone()
			r := e.runeOf(s2, z.Seg)
			c2 := *o
			c2.V = r
			s2.heap[it.Obj] = &c2
			out := []SV{{s2, Tuple{Bool(true), e.instPos(s2), r}}}
			if seen, _ := o.Data.(string); len([]rune(seen)) < len(alphabet) {
				// all characters but the first are among those seen
				var ok *State
				for _, q := range e.decidePred(st, Str{P: []SPart{{Atom: z.Seg}}}, MustRe(`\A(?s:.)`+classStar(seen)+`\z`), "") {
					if q.v == Value(Bool(true)) {
						ok = q.s
					}
				}
				if ok == nil {
					return out
				}
				st = ok
				o = e.obj(st, it.Obj)
			}
			pos := Int{}
			for _, p := range st.normStr(s).P {
				if p.Atom == 0 {
					pos.C += int64(len(p.C))
					continue
				}
				pos = linAdd(pos, atomInt(e.assocAtom("strlen", p.Atom, 0, "")), 1)
				if p.Atom == z.Seg {
					break
				}
			}
			m := *o
			m.Pos, m.V, m.Data, m.Tag = pos, nil, nil, ""
			st.heap[it.Obj] = &m
			return append(out, e.next(act, st, x)...)
		}
		e.problem(act.Fn, x.Pos(), "string iterator")
		return nil
	}
	if isNil(over) {
		return []SV{end(st, o.T)}
	}
	m := e.obj(st, over.(Map).Obj)
	id := over.(Map).Obj
	var out []SV
	must := false
	picked := false
	n := 0
	for i := range m.Ents {
		if i >= len(o.Done) || !o.Done[i] {
			n++
		}
	}
	for i := range m.Ents {
		en := m.Ents[i]
		if i < len(o.Done) && o.Done[i] || en.Absent {
			continue
		}
		if i >= len(o.Done) && !en.Must {
			continue
		}
		if n > 6 && picked {
			break // fixed order for larger tables
		}
		picked = true
		s := st.clone()
		it2 := *o
		it2.Done = make([]bool, max(len(m.Ents), len(o.Done)))
		copy(it2.Done, o.Done)
		it2.Done[i] = true
		s.heap[it.Obj] = &it2
		if en.Must {
			must = true
		} else {
			e.setEnt(s, id, i, func(q *MapEnt) { q.Must = true })
		}
		k := e.own(s, en.K)
		e.entVal(s, id, i, func(s *State, v Value, found bool) {
			out = append(out, SV{s, Tuple{Bool(true), k, v}})
		})
	}
	if m.Rest != nil {
		s := st.clone()
		var k Value
		if f, ok := m.RestK.(Fresh); ok {
			k = e.own(s, f)
		} else {
			k = e.own(s, Fresh{T: m.KeyT})
		}
		for _, r := range e.alts(s, e.own(s, m.Rest), nil) {
			out = append(out, SV{r.s, Tuple{Bool(true), k, e.own(r.s, r.v)}})
		}
	}
	if !must {
		// optional entries not visited are absent
		for i := range m.Ents {
			if i < len(o.Done) && o.Done[i] || m.Ents[i].Absent || m.Ents[i].Must {
				continue
			}
			e.setEnt(st, id, i, func(q *MapEnt) { q.Absent = true })
		}
		out = append(out, end(st, o.T))
	}
	return out
}

func (e *Engine) instPos(st *State) Value {
	id := e.newAtom('i', types.Typ[types.Int])
	st.at[id] = &AInfo{R: []Rng{{0, MaxI}}}
	return atomInt(id)
}

func (e *Engine) runeOf(st *State, atom ID) Value {
	id := e.newAtom('i', types.Typ[types.Rune])
	st.at[id] = &AInfo{R: alphabetRanges}
	return atomInt(id)
}

// the characters strings are made of, one per class
var alphabetRanges = func() []Rng {
	var r []Rng
	for _, c := range alphabet {
		r = append(r, Rng{int64(c), int64(c)})
	}
	return normRanges(r)
}()

// seenChar adds the previous character of a range loop, as far as it is known
// on the way back to the loop, to the characters seen.
func (e *Engine) seenChar(st *State, id ID) *Obj {
	o := e.obj(st, id)
	if o.V == nil {
		return o
	}
	seen, _ := o.Data.(string)
	in := map[rune]bool{}
	for _, r := range seen {
		in[r] = true
	}
	rs := []Rng{{MinI, MaxI}}
	if i, ok := st.resolve(o.V).(Int); ok {
		if i.isConst() {
			rs = []Rng{{i.C, i.C}}
		} else if len(i.T) == 1 && i.C == 0 && i.T[0].Coef == 1 {
			if r := e.atomRange(st, i.T[0].ID); r != nil {
				rs = r
			}
		}
	}
	var b strings.Builder
	for _, c := range alphabet {
		if in[c] || inR(rs, int64(c)) {
			b.WriteRune(c)
		}
	}
	n := *o
	n.V, n.Data, n.Tag = nil, b.String(), "seen "+b.String()
	st.heap[id] = &n
	return &n
}

// classStar matches any number of the characters.
func classStar(cs string) string {
	if cs == "" {
		return ""
	}
	var b strings.Builder
	b.WriteString("[")
	for _, r := range cs {
		if strings.ContainsRune("\\]^-[", r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String() + "]*"
}

// ---------------------------------------------------------------------------
// type assertions and conversions

func (e *Engine) typeAssert(act *Activation, st *State, x *ssa.TypeAssert) []SV {
	v := e.get(st, act, x.X)
	var out []SV
	ok := func(s *State, w Value) {
		if x.CommaOk {
			w = Tuple{w, Bool(true)}
		}
		out = append(out, SV{s, w})
	}
	fail := func(s *State) {
		if x.CommaOk {
			out = append(out, SV{s, Tuple{e.zero(x.AssertedType), Bool(false)}})
			return
		}
		e.panicAt(act, s, x.Pos(), "type assertion of %s to %s fails", opText(x.X), x.AssertedType)
	}
	var do func(s *State, v Value)
	do = func(s *State, v Value) {
		v = s.resolve(v)
		_, toIface := x.AssertedType.Underlying().(*types.Interface)
		switch i := v.(type) {
		case Nil:
			fail(s)
		case Iface:
			if toIface {
				if types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface)) {
					ok(s, i)
				} else {
					fail(s)
				}
			} else if types.Identical(i.T, x.AssertedType) {
				ok(s, i.V)
			} else {
				fail(s)
			}
		case Unk:
			if d := e.decl(i.ID); d != nil && d.T != nil && types.IsInterface(d.T) {
				// a value of an interface type implements that interface
				have := d.T.Underlying().(*types.Interface)
				switch info := s.info(i.ID); {
				case toIface && info != nil && info.NonNil && types.Implements(have, x.AssertedType.Underlying().(*types.Interface)):
					ok(s, Unk{i.ID, x.AssertedType})
					return
				case !toIface && !types.Implements(x.AssertedType, have):
					fail(s)
					return
				}
			}
			a := s.clone()
			e.vague = true
			fail(a)
			e.vague = false
			if toIface {
				s.upd(i.ID, func(a *AInfo) { a.NonNil = true })
				ok(s, Unk{i.ID, x.AssertedType})
				return
			}
			w := e.inst(s, x.AssertedType, false)
			s.upd(i.ID, func(a *AInfo) { a.Bind = Iface{x.AssertedType, w} })
			ok(s, w)
		case VSet:
			for k, alt := range i {
				t := s
				if k < len(i)-1 {
					t = s.clone()
				}
				do(t, e.own(t, alt))
			}
		default:
			e.vague = true
			fail(s.clone())
			e.vague = false
			ok(s, e.inst(s, x.AssertedType, false))
		}
	}
	do(st, v)
	return out
}

func isByteSeq(t types.Type) (elem types.Type, ok bool) {
	s, isS := t.Underlying().(*types.Slice)
	if !isS {
		return nil, false
	}
	b, isB := s.Elem().Underlying().(*types.Basic)
	if isB && (b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
		return s.Elem(), true
	}
	return nil, false
}

func (e *Engine) convert(act *Activation, st *State, v Value, from, to types.Type, pos token.Pos) []SV {
	switch x := v.(type) {
	case Str:
		if el, ok := isByteSeq(to); ok {
			return one(st, e.strSeq(st, el, x))
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return one(st, x)
		}
	case Int:
		tb, ok := to.Underlying().(*types.Basic)
		if ok && tb.Info()&types.IsString != 0 {
			return one(st, e.runeStr(st, x))
		}
		if ok && tb.Info()&types.IsInteger != 0 {
			if len(x.T) == 1 {
				if as, ok := e.assoc[x.T[0].ID]; ok && (as.Kind == "char" || as.Kind == "strlen") {
					return one(st, x)
				}
			}
			return one(st, e.wrap(st, x, to))
		}
		if ok {
			return one(st, Opaque{to})
		}
	case Slice, Nil:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return one(st, e.seqStr(st, v))
		}
		return one(st, v)
	case Unk:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return one(st, e.inst(st, to, false))
		}
		return one(st, retype(x, to))
	case Zone:
		return one(st, x)
	case Opaque:
		return one(st, e.inst(st, to, false))
	}
	return one(st, v)
}

// runeStr is the string made of one character.
func (e *Engine) runeStr(st *State, x Int) Str {
	x = st.normInt(x)
	if x.isConst() {
		return cstr(string(rune(x.C)))
	}
	s := e.inst(st, types.Typ[types.String], false).(Str)
	st.upd(s.P[0].Atom, func(a *AInfo) { a.Lits = []Lit{{P: PLenRange(1, 1)}} })
	return s
}

// charStr is the string that consists of the named character only, if that is
// how the character is known.
func (e *Engine) charStr(st *State, i Int) Str {
	i = st.normInt(i)
	if len(i.T) != 1 || i.C != 0 || i.T[0].Coef != 1 {
		return Str{}
	}
	as, ok := e.assoc[i.T[0].ID]
	if !ok || as.Kind != "char" || as.Idx != 1000 {
		return Str{}
	}
	p := SPart{Atom: as.Atom, Maps: as.Maps}
	if Sat([]LPart{e.lpart(st, p)}, []Lit{{P: PLenRange(1, 1), Neg: true}}) {
		return Str{}
	}
	return Str{P: []SPart{p}}
}

// seqStr is the string made of a byte or rune sequence.
func (e *Engine) seqStr(st *State, v Value) Str {
	s, ok := v.(Slice)
	if !ok {
		return Str{}
	}
	o := e.obj(st, s.Obj)
	if o.V != nil {
		if str, ok := st.resolve(o.V).(Str); ok {
			return str
		}
	}
	out := Str{}
	for _, sg := range o.Segs {
		i, ok := sg.V.(Int)
		if !sg.Star && ok && i.isConst() {
			if b, ok := o.T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && i.C >= 128 {
				return e.inst(st, types.Typ[types.String], false).(Str)
			}
			out = catStr(out, cstr(string(rune(i.C))))
			continue
		}
		if !sg.Star && ok {
			if one := e.charStr(st, i); len(one.P) > 0 {
				out = catStr(out, one)
				continue
			}
		}
		a := e.inst(st, types.Typ[types.String], false).(Str)
		if !sg.Star {
			st.upd(a.P[0].Atom, func(a *AInfo) { a.Lits = []Lit{{P: PLenRange(1, 1)}} })
		}
		out = catStr(out, a)
	}
	if len(out.P) > 8 {
		return e.inst(st, types.Typ[types.String], false).(Str)
	}
	return out
}

// ---------------------------------------------------------------------------
// channels

func (e *Engine) recv(act *Activation, st *State, ch Value, commaOk bool, t types.Type, pos token.Pos) []SV {
	c, ok := st.resolve(ch).(Chan)
	et := t.Underlying().(*types.Chan).Elem()
	ret := func(s *State, v Value, ok bool) SV {
		if commaOk {
			return SV{s, Tuple{v, Bool(ok)}}
		}
		return SV{s, v}
	}
	if !ok {
		v := e.inst(st, et, false)
		return []SV{ret(st.clone(), v, true), ret(st, e.zero(et), false)}
	}
	o := e.obj(st, c.Obj)
	if len(o.Segs) == 0 {
		if o.Closed {
			return []SV{ret(st, e.zero(et), false)}
		}
		e.outcome(act, st, "deadlock", pos, nil, "receive from a channel nobody sends to")
		return nil
	}
	n := *o
	sg := o.Segs[0]
	if !sg.Star {
		n.Segs = append([]Seg(nil), o.Segs[1:]...)
		st.heap[c.Obj] = &n
		return []SV{ret(st, e.own(st, sg.V), true)}
	}
	var out []SV
	vs := VSet{sg.V}
	if x, ok := sg.V.(VSet); ok {
		vs = x
	}
	for _, alt := range vs {
		s := st.clone()
		out = append(out, ret(s, e.own(s, alt), true))
	}
	n.Segs = append([]Seg(nil), o.Segs[1:]...)
	st.heap[c.Obj] = &n
	return append(out, e.recv(act, st, ch, commaOk, t, pos)...)
}

func (e *Engine) appendChan(st *State, o *Obj, v Value) {
	o.Segs = e.pushSeg(st, o.T, o.Segs, Seg{UID: 0, V: v})
}

var _ = constant.MakeBool
