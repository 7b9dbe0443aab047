package ai

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) binop(act *Activation, st *State, x *ssa.BinOp) []SV {
	a, b := e.get(st, act, x.X), e.get(st, act, x.Y)
	switch x.Op {
	case token.EQL:
		return e.equal(st, a, b)
	case token.NEQ:
		var out []SV
		for _, r := range e.equal(st, a, b) {
			switch t := r.v.(type) {
			case Bool:
				r.v = Bool(!bool(t))
			case BAtom:
				r.v = BAtom{t.ID, !t.Neg}
			}
			out = append(out, r)
		}
		return out
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.order(st, x.Op, a, b)
	case token.ADD:
		switch p := a.(type) {
		case Str:
			if q, ok := b.(Str); ok {
				return one(st, st.normStr(catStr(p, q)))
			}
		case Int:
			if q, ok := b.(Int); ok {
				return one(st, e.wrap(st, st.normInt(linAdd(p, q, 1)), x.Type()))
			}
			if z, ok := b.(Zone); ok && p.isConst() {
				return e.zoneAdd(st, z, p.C)
			}
		case Zone:
			if q, ok := b.(Int); ok && q.isConst() {
				return e.zoneAdd(st, p, q.C)
			}
		}
	case token.SUB:
		switch p := a.(type) {
		case Int:
			if q, ok := b.(Int); ok {
				return one(st, e.wrap(st, st.normInt(linAdd(p, q, -1)), x.Type()))
			}
		case Zone:
			if q, ok := b.(Int); ok && q.isConst() {
				return e.zoneAdd(st, p, -q.C)
			}
		}
	case token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		p, ok1 := a.(Int)
		q, ok2 := b.(Int)
		if p2, ok := a.(Bool); ok {
			if q2, ok := b.(Bool); ok {
				switch x.Op {
				case token.AND:
					return one(st, Bool(bool(p2) && bool(q2)))
				case token.OR:
					return one(st, Bool(bool(p2) || bool(q2)))
				}
			}
		}
		if ok1 && ok2 {
			if p.isConst() && q.isConst() {
				if r, ok := constArith(x.Op, p.C, q.C); ok {
					return one(st, e.wrap(st, cint(r), x.Type()))
				}
				if x.Op == token.QUO || x.Op == token.REM {
					e.panicAt(act, st, x.Pos(), "division by zero")
					return nil
				}
			}
			if x.Op == token.MUL && (p.isConst() || q.isConst()) {
				if q.isConst() {
					p, q = q, p
				}
				return one(st, linAdd(cint(0), q, p.C))
			}
			h := e.bounds(st, p)
			if x.Op == token.QUO && q.isConst() && q.C > 0 {
				v := e.inst(st, x.Type(), false).(Int)
				// keep the holes of a single atom's range
				rs := []Rng{h}
				if len(p.T) == 1 && p.T[0].Coef == 1 {
					if in := st.info(p.T[0].ID); in != nil && in.R != nil {
						rs = nil
						for _, r := range in.R {
							rs = append(rs, Rng{r.Lo + p.C, r.Hi + p.C})
						}
					}
				}
				var out []Rng
				for _, r := range rs {
					lo, hi := r.Lo/q.C, r.Hi/q.C
					if r.Lo <= MinI/2 {
						lo = MinI
					}
					if r.Hi >= MaxI/2 {
						hi = MaxI
					}
					out = append(out, Rng{lo, hi})
				}
				st.at[v.T[0].ID] = &AInfo{R: rInter([]Rng{{MinI, MaxI}}, out)}
				return one(st, v)
			}
			if x.Op == token.REM && q.isConst() && q.C > 0 {
				v := e.inst(st, x.Type(), false).(Int)
				lo := -(q.C - 1)
				if h.Lo >= 0 {
					lo = 0
				}
				st.at[v.T[0].ID] = &AInfo{R: []Rng{{lo, q.C - 1}}}
				return one(st, v)
			}
		}
	}
	return one(st, e.inst(st, x.Type(), false))
}

func constArith(op token.Token, a, b int64) (int64, bool) {
	switch op {
	case token.MUL:
		return a * b, true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.SHL:
		if b < 0 || b > 60 {
			return 0, false
		}
		return a << uint(b), true
	case token.SHR:
		if b < 0 {
			return 0, false
		}
		if b > 63 {
			b = 63
		}
		return a >> uint(b), true
	}
	return 0, false
}

// wrap models the limited range of small integer types.
func (e *Engine) wrap(st *State, v Int, t types.Type) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	r, ok := basicRange(b)
	if !ok || b.Kind() == types.Int32 {
		return v
	}
	if v.isConst() {
		switch b.Kind() {
		case types.Uint8:
			return cint(int64(uint8(v.C)))
		case types.Int8:
			return cint(int64(int8(v.C)))
		case types.Uint16:
			return cint(int64(uint16(v.C)))
		case types.Int16:
			return cint(int64(int16(v.C)))
		case types.Uint32:
			return cint(int64(uint32(v.C)))
		}
		return v
	}
	h := e.bounds(st, v)
	if h.Lo < r.Lo || h.Hi > r.Hi {
		return e.inst(st, t, false)
	}
	return v
}

func (e *Engine) zonePrefix(st *State, z Zone) (start Int, ok bool) {
	o := e.obj(st, z.Obj)
	if o == nil {
		return Int{}, false
	}
	for _, sg := range o.Segs {
		if sg.UID == z.Seg {
			return st.normInt(start), true
		}
		if sg.Star {
			start = linAdd(start, atomInt(sg.UID), 1)
		} else {
			start.C++
		}
	}
	return Int{}, false
}

func (e *Engine) zoneAdd(st *State, z Zone, k int64) []SV {
	start, ok := e.zonePrefix(st, z)
	if ok {
		switch k {
		case 0:
			return one(st, z)
		case 1:
			end := linAdd(start, atomInt(z.Seg), 1)
			if o := e.obj(st, z.Obj); o.Focus {
				_ = o
			}
			return []SV{{st.clone(), z}, {st, st.normInt(end)}}
		case -1:
			return []SV{{st.clone(), z}, {st, linAdd(start, cint(1), -1)}}
		}
	}
	return one(st, e.inst(st, types.Typ[types.Int], false))
}

// bounds computes an interval for a linear expression.
func (e *Engine) bounds(st *State, x Int) Rng {
	lo, hi := x.C, x.C
	for _, t := range x.T {
		r := e.atomRange(st, t.ID)
		h := rHull(r)
		a, b := mulSat(h.Lo, t.Coef), mulSat(h.Hi, t.Coef)
		if a > b {
			a, b = b, a
		}
		lo, hi = addSat(lo, a), addSat(hi, b)
	}
	return Rng{lo, hi}
}

func (e *Engine) atomRange(st *State, id ID) []Rng {
	if a := st.info(id); a != nil && a.R != nil {
		return a.R
	}
	if as, ok := e.assoc[id]; ok && as.Kind == "strlen" {
		return []Rng{{e.strMin(st, as.Atom), MaxI}}
	}
	if as, ok := e.assoc[id]; ok && as.Kind == "char" {
		return []Rng{{0, 0x10ffff}}
	}
	return nil
}

func (e *Engine) strMin(st *State, a ID) int64 {
	p := []LPart{e.lpart(st, SPart{Atom: a})}
	for n := int64(0); n < 3; n++ {
		if Sat(p, []Lit{{P: PLenRange(int(n), int(n))}}) {
			return n
		}
	}
	return 3
}

func mulSat(a, b int64) int64 {
	if a <= MinI/2 || a >= MaxI/2 {
		if (a < 0) != (b < 0) {
			return MinI
		}
		return MaxI
	}
	return a * b
}

func addSat(a, b int64) int64 {
	s := a + b
	if s < MinI {
		return MinI
	}
	if s > MaxI {
		return MaxI
	}
	return s
}

// order decides <, <=, >, >=.
func (e *Engine) order(st *State, op token.Token, a, b Value) []SV {
	switch x := a.(type) {
	case Int:
		switch y := b.(type) {
		case Int:
			d := st.normInt(linAdd(x, y, -1))
			return e.cmp0(st, op, d)
		case Zone:
			return e.zoneCmp(st, flip(op), y, x)
		}
	case Zone:
		switch y := b.(type) {
		case Int:
			return e.zoneCmp(st, op, x, y)
		}
	case Str:
		if y, ok := b.(Str); ok {
			s, ok1 := x.Const()
			t, ok2 := y.Const()
			if ok1 && ok2 {
				return one(st, Bool(ordConst(op, strings.Compare(s, t))))
			}
		}
	}
	return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func ordConst(op token.Token, c int) bool {
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	case token.EQL:
		return c == 0
	}
	return false
}

// zoneCmp compares an index inside a star with a linear expression.
func (e *Engine) zoneCmp(st *State, op token.Token, z Zone, y Int) []SV {
	start, ok := e.zonePrefix(st, z)
	if ok {
		end := linAdd(start, atomInt(z.Seg), 1)
		geEnd := e.bounds(st, st.normInt(linAdd(y, end, -1))).Lo >= 0     // y >= end: z < y
		leStart := e.bounds(st, st.normInt(linAdd(start, y, -1))).Lo >= 0 // y <= start: z >= y
		ltStart := e.bounds(st, st.normInt(linAdd(start, y, -1))).Lo >= 1 // y < start: z > y
		switch op {
		case token.LSS:
			if geEnd {
				return one(st, Bool(true))
			}
			if leStart {
				return one(st, Bool(false))
			}
		case token.LEQ:
			if geEnd {
				return one(st, Bool(true))
			}
			if ltStart {
				return one(st, Bool(false))
			}
		case token.GTR:
			if geEnd {
				return one(st, Bool(false))
			}
			if ltStart {
				return one(st, Bool(true))
			}
		case token.GEQ:
			if geEnd {
				return one(st, Bool(false))
			}
			if leStart {
				return one(st, Bool(true))
			}
		case token.EQL:
			if geEnd || ltStart {
				return one(st, Bool(false))
			}
		}
	}
	return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}}
}

// cmp0 decides d op 0 and refines the single atom involved.
func (e *Engine) cmp0(st *State, op token.Token, d Int) []SV {
	if d.isConst() {
		c := 0
		if d.C < 0 {
			c = -1
		} else if d.C > 0 {
			c = 1
		}
		return one(st, Bool(ordConst(op, c)))
	}
	h := e.bounds(st, d)
	switch op {
	case token.LSS:
		if h.Hi < 0 {
			return one(st, Bool(true))
		}
		if h.Lo >= 0 {
			return one(st, Bool(false))
		}
	case token.LEQ:
		if h.Hi <= 0 {
			return one(st, Bool(true))
		}
		if h.Lo > 0 {
			return one(st, Bool(false))
		}
	case token.GTR:
		if h.Lo > 0 {
			return one(st, Bool(true))
		}
		if h.Hi <= 0 {
			return one(st, Bool(false))
		}
	case token.GEQ:
		if h.Lo >= 0 {
			return one(st, Bool(true))
		}
		if h.Hi < 0 {
			return one(st, Bool(false))
		}
	case token.EQL:
		if h.Lo > 0 || h.Hi < 0 {
			return one(st, Bool(false))
		}
	}
	if len(d.T) == 1 && (d.T[0].Coef == 1 || d.T[0].Coef == -1) {
		id := d.T[0].ID
		k := -d.C // L op k
		o := op
		if d.T[0].Coef == -1 { // -L + C op 0  <=>  L flip(op) C
			k = d.C
			o = flip(op)
		}
		yes, no := opRanges(o, k)
		if as, ok := e.assoc[id]; ok {
			switch as.Kind {
			case "strlen":
				if k >= -1 && k <= 40 {
					return e.decideLen(st, as.Atom, yes)
				}
				return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}}
			case "char":
				return e.decideChar(st, as, func(r rune) bool { return inR(yes, int64(r)) })
			case "tbl":
				if rs := e.decideTable(st, id, as, yes, no); rs != nil {
					return rs
				}
			}
		}
		cur := e.atomRange(st, id)
		yr, nr := rInter(cur, yes), rInter(cur, no)
		var out []SV
		if len(yr) > 0 {
			s := st
			if len(nr) > 0 {
				s = st.clone()
			}
			s.upd(id, func(a *AInfo) { a.R = yr })
			out = append(out, SV{s, Bool(true)})
		}
		if len(nr) > 0 {
			st.upd(id, func(a *AInfo) { a.R = nr })
			out = append(out, SV{st, Bool(false)})
		}
		return out
	}
	return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}}
}

func inR(rs []Rng, v int64) bool {
	for _, r := range rs {
		if r.Lo <= v && v <= r.Hi {
			return true
		}
	}
	return false
}

func opRanges(op token.Token, k int64) (yes, no []Rng) {
	switch op {
	case token.LSS:
		return []Rng{{MinI, k - 1}}, []Rng{{k, MaxI}}
	case token.LEQ:
		return []Rng{{MinI, k}}, []Rng{{k + 1, MaxI}}
	case token.GTR:
		return []Rng{{k + 1, MaxI}}, []Rng{{MinI, k}}
	case token.GEQ:
		return []Rng{{k, MaxI}}, []Rng{{MinI, k - 1}}
	case token.EQL:
		return []Rng{{k, k}}, rNot(k)
	}
	return nil, nil
}

// decideTable decides whether the entry of a constant table under a symbolic
// key is in the given ranges, and refines the key.
func (e *Engine) decideTable(st *State, id ID, as assocInfo, yes, no []Rng) []SV {
	o := e.obj(st, ID(as.Idx))
	if o == nil || o.Kind != OMap {
		return nil
	}
	key := st.normStr(Str{P: []SPart{{Atom: as.Atom, Maps: as.Maps}}})
	words := map[bool][]string{}
	cur := e.atomRange(st, id)
	lp := e.lparts(st, key)
	for _, en := range o.Ents {
		k, ok1 := en.K.(Str)
		v, ok2 := en.V.(Int)
		if !ok1 || !ok2 || !v.isConst() || !en.Must {
			return nil
		}
		c, ok := k.Const()
		if !ok {
			return nil
		}
		if cur != nil && !inR(cur, v.C) || !Sat(lp, []Lit{{P: PExact(c)}}) {
			continue
		}
		words[inR(yes, v.C)] = append(words[inR(yes, v.C)], c)
	}
	if len(words[true])+len(words[false]) == 0 {
		return nil
	}
	var out []SV
	for _, side := range []bool{true, false} {
		ws := words[side]
		if len(ws) == 0 {
			continue
		}
		rs := yes
		if !side {
			rs = no
		}
		set := func(s *State) {
			if r := rInter(e.atomRange(s, id), rs); len(r) > 0 {
				s.upd(id, func(a *AInfo) { a.R = r })
			}
			out = append(out, SV{s, Bool(side)})
		}
		if len(ws) == 1 {
			for _, q := range e.eqStr(st.clone(), key, cstr(ws[0])) {
				for _, w := range e.forkBool(q.s, q.v) {
					if w.v == Value(Bool(true)) {
						set(w.s)
					}
				}
			}
			continue
		}
		var qs []string
		for _, w := range ws {
			qs = append(qs, quoteRe(w))
		}
		sort.Strings(qs)
		for _, r := range e.decidePred(st.clone(), key, PFull(strings.Join(qs, "|")), "") {
			if r.v != Value(Bool(false)) {
				set(r.s)
			}
		}
	}
	return out
}

// decideLen decides whether the length of a string atom is in the ranges.
func (e *Engine) decideLen(st *State, atom ID, yes []Rng) []SV {
	if len(yes) == 2 { // not equal: negate
		k := yes[0].Hi + 1
		var out []SV
		for _, r := range e.decideLen(st, atom, []Rng{{k, k}}) {
			out = append(out, SV{r.s, Bool(!bool(r.v.(Bool)))})
		}
		return out
	}
	lo, hi := int64(0), int64(-1)
	if yes[0].Lo > 0 {
		lo = yes[0].Lo
	}
	if yes[0].Hi < MaxI {
		hi = yes[0].Hi
		if hi < 0 {
			return one(st, Bool(false))
		}
	}
	if lo == 0 && hi == 0 {
		return e.equal(st, Str{P: []SPart{{Atom: atom}}}, Str{})
	}
	return e.decidePred(st, Str{P: []SPart{{Atom: atom}}}, PLenRange(int(lo), int(hi)), "")
}

// decideChar decides a predicate on the character at an index.
func (e *Engine) decideChar(st *State, as assocInfo, g func(rune) bool) []SV {
	var b strings.Builder
	n := 0
	for _, r := range alphabet {
		c := mapRune(as.Maps, r)
		if as.Kind == "char" && as.Idx < 1000 && c >= 128 {
			// byte index: the first byte of the encoding
			if b := string(c); as.Idx < 0 {
				c = rune(b[len(b)-1])
			} else {
				c = rune(b[0])
			}
		}
		if g(c) {
			if strings.ContainsRune(`\]^-[`, r) {
				b.WriteByte('\\')
			}
			b.WriteRune(r)
			n++
		}
	}
	if n == 0 {
		return one(st, Bool(false))
	}
	idx := as.Idx
	if idx < 0 {
		return e.decidePred(st, Str{P: []SPart{{Atom: as.Atom}}}, MustRe(`[`+b.String()+`]\z`), "")
	}
	if idx >= 1000 {
		idx -= 1000
	}
	p := MustRe(`\A(?s:.{` + itoa(idx) + `})[` + b.String() + `]`)
	return e.decidePred(st, Str{P: []SPart{{Atom: as.Atom}}}, p, "")
}

// ---------------------------------------------------------------------------
// equality

func (e *Engine) equal(st *State, a, b Value) []SV {
	a, b = st.resolve(a), st.resolve(b)
	fork := func() []SV { return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}} }
	switch x := a.(type) {
	case Str:
		if y, ok := b.(Str); ok {
			return e.eqStr(st, x, y)
		}
	case Int:
		switch y := b.(type) {
		case Int:
			return e.cmp0(st, token.EQL, st.normInt(linAdd(x, y, -1)))
		case Zone:
			return e.zoneCmp(st, token.EQL, y, x)
		}
	case Zone:
		switch y := b.(type) {
		case Int:
			return e.zoneCmp(st, token.EQL, x, y)
		case Zone:
			if x.Obj == y.Obj && x.Seg != y.Seg {
				return one(st, Bool(false))
			}
		}
		return fork()
	case Bool:
		switch y := b.(type) {
		case Bool:
			return one(st, Bool(x == y))
		case BAtom:
			return one(st, BAtom{y.ID, y.Neg != !bool(x)})
		}
	case BAtom:
		if y, ok := b.(Bool); ok {
			return one(st, BAtom{x.ID, x.Neg != !bool(y)})
		}
		var out []SV
		for _, r := range e.forkBool(st, x) {
			out = append(out, e.equal(r.s, r.v, b)...)
		}
		return out
	case Nil:
		switch y := b.(type) {
		case Nil:
			return one(st, Bool(true))
		case Unk:
			return e.eqNil(st, y)
		case VSet:
			return e.eqSet(st, y, a)
		case Fresh:
			return fork()
		case Struct, Opaque:
			return fork()
		}
		return one(st, Bool(false))
	case Unk:
		switch y := b.(type) {
		case Nil:
			return e.eqNil(st, x)
		case Unk:
			if x.ID == y.ID {
				return one(st, Bool(true))
			}
			return fork()
		case Iface:
			// an interface of unknown content compared with a known one
			return fork()
		case Ptr:
			return e.eqPtr(st, x, y)
		}
		return fork()
	case Ptr:
		switch y := b.(type) {
		case Nil:
			return one(st, Bool(false))
		case Ptr:
			if x == y {
				if o := e.obj(st, x.Obj); o != nil && o.Kind == OSeq {
					for _, sg := range o.Segs {
						if sg.Star && string(pathEl(int32(sg.UID))) == x.Path[:4] {
							return fork()
						}
					}
				}
				return one(st, Bool(true))
			}
			return one(st, Bool(false))
		case Unk:
			return e.eqPtr(st, y, x)
		case VSet:
			return e.eqSet(st, y, a)
		}
	case Iface:
		switch y := b.(type) {
		case Nil:
			return one(st, Bool(false))
		case Iface:
			if !types.Identical(x.T, y.T) {
				return one(st, Bool(false))
			}
			return e.equal(st, x.V, y.V)
		case Unk:
			return fork()
		case VSet:
			return e.eqSet(st, y, a)
		}
	case Func, Map, Slice, Chan, BuiltinFn:
		if isNil(b) {
			return one(st, Bool(false))
		}
		if c, ok := a.(Chan); ok {
			if d, ok := b.(Chan); ok {
				return one(st, Bool(c == d))
			}
		}
	case VSet:
		return e.eqSet(st, x, b)
	case Struct:
		if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
			return e.eqList(st, x.F, y.F)
		}
	case Array:
		if y, ok := b.(Array); ok && len(x.E) == len(y.E) {
			return e.eqList(st, x.E, y.E)
		}
	}
	return fork()
}

func (e *Engine) eqList(st *State, a, b []Value) []SV {
	states := one(st, Bool(true))
	for i := range a {
		var next []SV
		for _, r := range states {
			if !bool(r.v.(Bool)) {
				next = append(next, r)
				continue
			}
			for _, q := range e.equal(r.s, e.own(r.s, a[i]), e.own(r.s, b[i])) {
				for _, w := range e.forkBool(q.s, q.v) {
					next = append(next, w)
				}
			}
		}
		states = next
	}
	return states
}

func (e *Engine) eqSet(st *State, vs VSet, b Value) []SV {
	var out []SV
	for i, v := range vs {
		s := st
		if i < len(vs)-1 {
			s = st.clone()
		}
		out = append(out, e.equal(s, e.own(s, v), b)...)
	}
	return out
}

func (e *Engine) eqNil(st *State, u Unk) []SV {
	a := st.info(u.ID)
	if a != nil && a.NonNil {
		return one(st, Bool(false))
	}
	t := st.clone()
	t.upd(u.ID, func(a *AInfo) { a.Bind = Nil{} })
	st.upd(u.ID, func(a *AInfo) { a.NonNil = true })
	return []SV{{t, Bool(true)}, {st, Bool(false)}}
}

// eqPtr compares an unknown pointer with a known object: distinct elements of
// the analysed document are distinct objects.
func (e *Engine) eqPtr(st *State, u Unk, p Ptr) []SV {
	return one(st, Bool(false))
}

// ---------------------------------------------------------------------------
// strings

func (e *Engine) lpart(st *State, p SPart) LPart {
	if p.Atom == 0 {
		return LPart{Const: p.C}
	}
	l := LPart{Atom: true, Maps: p.Maps}
	if a := st.info(p.Atom); a != nil {
		l.Lits = a.Lits
	}
	return l
}

func (e *Engine) lparts(st *State, s Str) []LPart {
	out := make([]LPart, len(s.P))
	for i, p := range s.P {
		out[i] = e.lpart(st, p)
	}
	return out
}

func (e *Engine) addLit(st *State, atom ID, l Lit) {
	st.upd(atom, func(a *AInfo) {
		for _, x := range a.Lits {
			if x.key() == l.key() {
				return
			}
		}
		// drop literals implied by the new one or make it redundant
		if !Sat([]LPart{{Atom: true, Lits: a.Lits}}, []Lit{neg(l)}) {
			return
		}
		var keep []Lit
		for _, x := range a.Lits {
			if Sat([]LPart{{Atom: true, Lits: []Lit{l}}}, []Lit{neg(x)}) {
				keep = append(keep, x)
			}
		}
		a.Lits = append(keep, l)
	})
}

func neg(l Lit) Lit { l.Neg = !l.Neg; return l }

// decidePred decides a predicate on a (mapped) string.
func (e *Engine) decidePred(st *State, s Str, p *Pred, maps string) []SV {
	s = st.normStr(s)
	if c, ok := s.Const(); ok {
		return one(st, Bool(Lit{P: p, Maps: maps}.holdsConst(c)))
	}
	if maps != "" {
		n := Str{}
		for _, q := range s.P {
			if q.Atom == 0 {
				n = catStr(n, cstr(mapStr(maps, q.C)))
			} else {
				n = catStr(n, Str{P: []SPart{{Atom: q.Atom, Maps: addMaps(q.Maps, maps)}}})
			}
		}
		s = n
	}
	lp := e.lparts(st, s)
	pos := Sat(lp, []Lit{{P: p}})
	ng := Sat(lp, []Lit{{P: p, Neg: true}})
	switch {
	case pos && !ng:
		return one(st, Bool(true))
	case !pos && ng:
		return one(st, Bool(false))
	case !pos && !ng:
		return nil // infeasible
	}
	for _, f := range st.facts {
		if f.P == p && st.normStr(f.A).raw() == s.raw() {
			return one(st, Bool(f.Val))
		}
	}
	t := st.clone()
	if len(s.P) == 1 {
		q := s.P[0]
		e.addLit(t, q.Atom, Lit{P: p, Maps: q.Maps})
		e.addLit(st, q.Atom, Lit{P: p, Maps: q.Maps, Neg: true})
	} else if pre, atom, suf, ok := sandwich(s); ok {
		e.addLit(t, atom.Atom, Lit{P: p, Maps: atom.Maps, Pre: pre, Suf: suf})
		e.addLit(st, atom.Atom, Lit{P: p, Maps: atom.Maps, Pre: pre, Suf: suf, Neg: true})
	} else {
		t.facts = append(t.facts, Fact{A: s, P: p, Val: true})
		st.facts = append(st.facts, Fact{A: s, P: p, Val: false})
	}
	return []SV{{t, Bool(true)}, {st, Bool(false)}}
}

// sandwich recognises const? atom const?
func sandwich(s Str) (pre string, atom SPart, suf string, ok bool) {
	ps := s.P
	if len(ps) > 0 && ps[0].Atom == 0 {
		pre = ps[0].C
		ps = ps[1:]
	}
	if len(ps) == 0 || ps[0].Atom == 0 {
		return
	}
	atom = ps[0]
	ps = ps[1:]
	if len(ps) == 1 && ps[0].Atom == 0 {
		suf = ps[0].C
		ps = nil
	}
	ok = len(ps) == 0
	return
}

func (e *Engine) eqStr(st *State, a, b Str) []SV {
	a, b = st.normStr(a), st.normStr(b)
	ca, oka := a.Const()
	cb, okb := b.Const()
	if oka && okb {
		return one(st, Bool(ca == cb))
	}
	if a.raw() == b.raw() {
		return one(st, Bool(true))
	}
	if oka {
		a, b = b, a
		cb, okb = ca, true
	}
	if okb {
		rs := e.decidePred(st, a, PExact(cb), "")
		for _, r := range rs {
			if bool(r.v.(Bool)) && len(a.P) == 1 && a.P[0].Maps == "" {
				r.s.upd(a.P[0].Atom, func(i *AInfo) { i.Bind = cstr(cb); i.Lits = nil })
			}
		}
		return rs
	}
	// strip common ends
	pa, pb := a.P, b.P
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) != len(a.P) {
		return e.eqStr(st, Str{P: pa}, Str{P: pb})
	}
	if len(pa) > 0 && len(pb) > 0 && pa[0].Atom == 0 && pb[0].Atom == 0 {
		x, y := pa[0].C, pb[0].C
		n := min(len(x), len(y))
		if x[:n] != y[:n] {
			return one(st, Bool(false))
		}
		return e.eqStr(st, catStr(cstr(x[n:]), Str{P: pa[1:]}), catStr(cstr(y[n:]), Str{P: pb[1:]}))
	}
	if len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1].Atom == 0 && pb[len(pb)-1].Atom == 0 {
		x, y := pa[len(pa)-1].C, pb[len(pb)-1].C
		n := min(len(x), len(y))
		if x[len(x)-n:] != y[len(y)-n:] {
			return one(st, Bool(false))
		}
		return e.eqStr(st, catStr(Str{P: pa[:len(pa)-1]}, cstr(x[:len(x)-n])), catStr(Str{P: pb[:len(pb)-1]}, cstr(y[:len(y)-n])))
	}
	for _, f := range st.facts {
		if f.P == nil {
			x, y := st.normStr(f.A).raw(), st.normStr(f.B).raw()
			if x == a.raw() && y == b.raw() || x == b.raw() && y == a.raw() {
				return one(st, Bool(f.Val))
			}
			// if lower(a) != lower(b) then a != b
		}
	}
	if len(a.P) == 1 && len(b.P) == 1 && a.P[0].Maps == "" && b.P[0].Maps == "" {
		x, y := a.P[0].Atom, b.P[0].Atom
		for _, f := range st.facts {
			if f.P == nil && !f.Val {
				fa, fb := st.normStr(f.A), st.normStr(f.B)
				if len(fa.P) == 1 && len(fb.P) == 1 {
					u, v := fa.P[0].Atom, fb.P[0].Atom
					if u == x && v == y || u == y && v == x {
						return one(st, Bool(false))
					}
				}
			}
		}
		var lits []Lit
		if i := st.info(x); i != nil {
			lits = append(lits, i.Lits...)
		}
		var lb []Lit
		if i := st.info(y); i != nil {
			lb = i.Lits
		}
		if !Sat([]LPart{{Atom: true, Lits: lits}}, lb) {
			return one(st, Bool(false))
		}
		t := st.clone()
		// bind the anonymous one to the named one
		u, v := x, y
		if e.older(u, v) {
			u, v = v, u
		}
		for _, l := range t.litsOf(u) {
			e.addLit(t, v, l)
		}
		low := ID(0)
		if i := t.info(u); i != nil {
			low = i.Lower
		}
		t.upd(u, func(i *AInfo) { i.Bind = Str{P: []SPart{{Atom: v}}}; i.Lits = nil; i.Lower = 0 })
		if low != 0 && low != v {
			// keep the case-folding class
			if i := t.info(v); i == nil || i.Lower == 0 {
				t.upd(v, func(i *AInfo) { i.Lower = low })
			}
		}
		st.facts = append(st.facts, Fact{A: a, B: b, Val: false})
		return []SV{{t, Bool(true)}, {st, Bool(false)}}
	}
	if len(a.P) == 1 && len(b.P) == 1 {
		// one or both mapped: decide by disjointness of the images
		pa, pb := e.lpart(st, a.P[0]), e.lpart(st, b.P[0])
		if pa.Maps == "" || pb.Maps == "" {
			if pa.Maps == "" {
				pa, pb = pb, pa
			}
			// a = map(x), b plain: b's literals hold of map(x)
			if !Sat([]LPart{pa}, pb.Lits) {
				return one(st, Bool(false))
			}
		}
	}
	// what is known about one side holds of the other
	for _, x := range [][2]Str{{a, b}, {b, a}} {
		if p := x[0].P; len(p) == 1 && p[0].Maps == "" && len(x[1].P) > 1 {
			if !Sat(e.lparts(st, x[1]), st.litsOf(p[0].Atom)) {
				return one(st, Bool(false))
			}
		}
	}
	t := st.clone()
	t.facts = append(t.facts, Fact{A: a, B: b, Val: true})
	st.facts = append(st.facts, Fact{A: a, B: b, Val: false})
	// equal case-folded atoms share a representative
	if len(a.P) == 1 && len(b.P) == 1 && a.P[0].Maps != "" && a.P[0].Maps == b.P[0].Maps {
		u, v := a.P[0].Atom, b.P[0].Atom
		if e.older(u, v) {
			u, v = v, u
		}
		t.upd(u, func(i *AInfo) { i.Lower = v })
		t.facts = t.facts[:len(t.facts)-1]
	}
	return []SV{{t, Bool(true)}, {st, Bool(false)}}
}

// older tells whether u is to be kept as the representative of u and v: named
// atoms before anonymous ones, then the one made first.
func (e *Engine) older(u, v ID) bool {
	nu, nv := e.decl(u).Name != "", e.decl(v).Name != ""
	if nu != nv {
		return nu
	}
	return u < v
}

func (s *State) litsOf(id ID) []Lit {
	if a := s.info(id); a != nil {
		return a.Lits
	}
	return nil
}

// mapCase applies a case map.
func mapCase(s Str, m string) Str {
	out := Str{}
	for _, p := range s.P {
		if p.Atom == 0 {
			out = catStr(out, cstr(mapStr(m, p.C)))
		} else {
			out = catStr(out, Str{P: []SPart{{Atom: p.Atom, Maps: addMaps(p.Maps, m)}}})
		}
	}
	return out
}

// strLen is the length of a string as a linear expression.
func (e *Engine) strLen(st *State, s Str) Int {
	s = st.normStr(s)
	out := Int{}
	for _, p := range s.P {
		if p.Atom == 0 {
			out.C += int64(len(p.C))
		} else {
			out = linAdd(out, atomInt(e.assocAtom("strlen", p.Atom, 0, "")), 1)
		}
	}
	return out
}

// cutAt splits a string at a position given as a linear expression.
func (e *Engine) cutAt(st *State, s Str, at Int) (l, r Str, ok bool) {
	s = st.normStr(s)
	pos := Int{}
	for i := 0; i <= len(s.P); i++ {
		d := linAdd(at, pos, -1)
		if d.isConst() {
			if d.C == 0 {
				return Str{P: s.P[:i:i]}, Str{P: s.P[i:]}, true
			}
			if i < len(s.P) && s.P[i].Atom == 0 && d.C > 0 && d.C <= int64(len(s.P[i].C)) {
				c := s.P[i].C
				l = catStr(Str{P: s.P[:i:i]}, cstr(c[:d.C]))
				r = catStr(cstr(c[d.C:]), Str{P: s.P[i+1:]})
				return l, r, true
			}
		}
		if i == len(s.P) {
			break
		}
		if s.P[i].Atom == 0 {
			pos.C += int64(len(s.P[i].C))
		} else {
			pos = linAdd(pos, atomInt(e.assocAtom("strlen", s.P[i].Atom, 0, "")), 1)
		}
	}
	return
}

// splitPrefix rewrites an atom known to start with a constant.
func (e *Engine) splitPrefix(st *State, atom ID, pre string) {
	t := e.derived(st, atom, "tail")
	var lits []Lit
	for _, l := range st.litsOf(atom) {
		if l.Maps != "" {
			l.Pre = l.Pre + mapStr(l.Maps, pre)
		} else {
			l.Pre = l.Pre + pre
		}
		lits = append(lits, l)
	}
	st.at[t] = &AInfo{Lits: simplify(lits)}
	st.upd(atom, func(a *AInfo) {
		a.Bind = Str{P: []SPart{{C: pre}, {Atom: t}}}
		a.Lits = nil
	})
}

func (e *Engine) splitSuffix(st *State, atom ID, suf string) {
	t := e.derived(st, atom, "head")
	var lits []Lit
	for _, l := range st.litsOf(atom) {
		if l.Maps != "" {
			l.Suf = mapStr(l.Maps, suf) + l.Suf
		} else {
			l.Suf = suf + l.Suf
		}
		lits = append(lits, l)
	}
	st.at[t] = &AInfo{Lits: simplify(lits)}
	st.upd(atom, func(a *AInfo) {
		a.Bind = Str{P: []SPart{{Atom: t}, {C: suf}}}
		a.Lits = nil
	})
}

func (e *Engine) derived(st *State, atom ID, what string) ID {
	d := e.decl(atom)
	n := ""
	if d.Name != "" {
		n = what + "(" + d.Name + ")"
	}
	return e.newID(AtomDecl{Kind: 's', T: d.T, Name: n})
}

// simplify drops literals that always hold.
func simplify(ls []Lit) []Lit {
	var out []Lit
	for _, l := range ls {
		if !Sat([]LPart{{Atom: true}}, []Lit{neg(l)}) {
			continue
		}
		if !Sat([]LPart{{Atom: true, Lits: []Lit{neg(l)}}}, []Lit{{Neg: true, P: PExact("")}}) {
			// equivalent to "not empty"
			l = Lit{Neg: true, P: PExact("")}
		}
		dup := false
		for _, m := range out {
			if m.key() == l.key() {
				dup = true
			}
		}
		if !dup {
			out = append(out, l)
		}
	}
	return out
}
