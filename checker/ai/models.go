package ai

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var stdModels = map[string]ModelFn{}

func reg(names string, m ModelFn) {
	for _, n := range strings.Fields(names) {
		stdModels[n] = m
	}
}

const spaceClass = `[\t\n\v\f\r \x{85}\x{A0}\x{1680}\x{2000}-\x{200a}\x{2028}\x{2029}\x{202f}\x{205f}\x{3000}]`

func (c *CallCtx) str(i int) Str {
	v := c.St.resolve(c.Args[i])
	switch x := v.(type) {
	case Str:
		return x
	case Fresh:
		return c.E.own(c.St, x).(Str)
	}
	return c.E.inst(c.St, types.Typ[types.String], false).(Str)
}

func (c *CallCtx) constStr(i int) (string, bool) { return c.str(i).Const() }

func (c *CallCtx) freshStr(st *State) Str {
	c.imprecise(st)
	return c.E.inst(st, types.Typ[types.String], false).(Str)
}

// imprecise notes that the connection between a named string and the result of
// a string function is lost: what follows is no evidence of a violation.
func (c *CallCtx) imprecise(st *State) {
	if !strings.HasPrefix(c.Name, "strings.") && !strings.HasPrefix(c.Name, "unicode") && !strings.HasPrefix(c.Name, "(*regexp.") && !strings.HasPrefix(c.Name, "path") {
		return
	}
	for _, a := range c.Args {
		if s, ok := st.resolve(a).(Str); ok && c.E.tracked(st, s) {
			st.SetMon("unmodelled", c.Name)
		}
	}
}

func (e *Engine) sv(rs []SV, k func(*State, Value)) {
	for _, r := range rs {
		k(r.s, r.v)
	}
}

// bools delivers definite truth values only.
func (e *Engine) bools(rs []SV, k func(*State, bool)) {
	for _, r := range rs {
		for _, w := range e.forkBool(r.s, r.v) {
			k(w.s, bool(w.v.(Bool)))
		}
	}
}

// derivedOf is a string determined by another one.
func (e *Engine) derivedOf(st *State, s Str, what string) (Str, bool) {
	if len(s.P) == 1 && s.P[0].Atom != 0 {
		k := assocKey{"str:" + what, s.P[0].Atom, 0, s.P[0].Maps}
		id, ok := e.assocID[k]
		if !ok {
			id = e.derived(st, s.P[0].Atom, what)
			e.assocID[k] = id
		}
		_, known := st.at[id]
		e.setOrigin(id, s)
		return Str{P: []SPart{{Atom: id}}}, !known
	}
	for _, p := range s.P {
		if p.Atom == 0 || e.decl(p.Atom).Name == "" {
			continue
		}
		// a text with a part of the scenario in it
		k := assocKey{"text:" + what + ":" + s.raw(), 0, 0, ""}
		id, ok := e.assocID[k]
		if !ok {
			id = e.newID(AtomDecl{Kind: 's', T: types.Typ[types.String], Name: what + "(" + s.raw() + ")"})
			e.assocID[k] = id
			e.setOrigin(id, s)
		}
		_, known := st.at[id]
		return Str{P: []SPart{{Atom: id}}}, !known
	}
	return e.inst(st, types.Typ[types.String], false).(Str), true
}

// HasPrefix decides a prefix test and makes a positive outcome explicit.
func (e *Engine) hasPrefix(st *State, s, p Str, k func(*State, bool)) {
	s, p = st.normStr(s), st.normStr(p)
	pc, ok := p.Const()
	if !ok {
		if strings.HasPrefix(s.raw(), p.raw()) {
			k(st, true)
			return
		}
		k(st.clone(), true)
		k(st, false)
		return
	}
	if len(s.P) > 1 && len(pc) == 1 && e.tracked(st, s) && s.P[0].Atom != 0 && e.strMin(st, s.P[0].Atom) == 0 {
		for _, r := range e.decideLen(st, s.P[0].Atom, []Rng{{0, 0}}) {
			e.hasPrefix(r.s, s, p, k)
		}
		return
	}
	e.bools(e.decidePred(st, s, PPrefix(pc), ""), func(st *State, b bool) {
		if b && pc != "" {
			n := st.normStr(s)
			if len(n.P) > 0 && n.P[0].Atom != 0 && n.P[0].Maps == "" {
				if len(n.P) == 1 || e.strMin(st, n.P[0].Atom) >= int64(len(pc)) {
					e.splitPrefix(st, n.P[0].Atom, pc)
				}
			}
		}
		k(st, b)
	})
}

func (e *Engine) hasSuffix(st *State, s, p Str, k func(*State, bool)) {
	s, p = st.normStr(s), st.normStr(p)
	pc, ok := p.Const()
	if !ok {
		if strings.HasSuffix(s.raw(), p.raw()) {
			k(st, true)
			return
		}
		k(st.clone(), true)
		k(st, false)
		return
	}
	if n := len(s.P); n > 1 && len(pc) == 1 && e.tracked(st, s) && s.P[n-1].Atom != 0 && e.strMin(st, s.P[n-1].Atom) == 0 {
		for _, r := range e.decideLen(st, s.P[n-1].Atom, []Rng{{0, 0}}) {
			e.hasSuffix(r.s, s, p, k)
		}
		return
	}
	e.bools(e.decidePred(st, s, PSuffix(pc), ""), func(st *State, b bool) {
		if b && pc != "" {
			n := st.normStr(s)
			l := len(n.P) - 1
			if l >= 0 && n.P[l].Atom != 0 && n.P[l].Maps == "" {
				if len(n.P) == 1 || e.strMin(st, n.P[l].Atom) >= int64(len(pc)) {
					e.splitSuffix(st, n.P[l].Atom, pc)
				}
			}
		}
		k(st, b)
	})
}

func (e *Engine) cutLen(st *State, s Str, n int) (Str, bool) {
	_, r, ok := e.cutAt(st, s, cint(int64(n)))
	return r, ok
}

// cut splits a string around the first occurrence of a constant.
func (e *Engine) cut(st *State, s Str, sep string, k func(st *State, before, after Str, found bool)) {
	s = st.normStr(s)
	if sep == "" {
		k(st, Str{}, s, true)
		return
	}
	if c, ok := s.Const(); ok {
		a, b, f := strings.Cut(c, sep)
		k(st, cstr(a), cstr(b), f)
		return
	}
	pre := Str{}
	for i := 0; i < len(s.P); i++ {
		p := s.P[i]
		if p.Atom == 0 {
			if a, b, f := strings.Cut(p.C, sep); f {
				k(st, catStr(pre, cstr(a)), catStr(cstr(b), Str{P: s.P[i+1:]}), true)
				return
			}
			pre = catStr(pre, Str{P: []SPart{p}})
			continue
		}
		var rest *State
		e.bools(e.decidePred(st, Str{P: []SPart{p}}, PContains(sep), ""), func(t *State, b bool) {
			if !b {
				rest = t
				return
			}
			if p.Maps != "" {
				k(t, e.inst(t, types.Typ[types.String], false).(Str), e.inst(t, types.Typ[types.String], false).(Str), true)
				return
			}
			h, l := e.splitAround(t, p.Atom, sep)
			k(t, catStr(pre, h), catStr(l, Str{P: s.P[i+1:]}), true)
		})
		if rest == nil {
			return
		}
		st = rest
		pre = catStr(pre, Str{P: []SPart{p}})
	}
	k(st, s, Str{}, false)
}

// splitAround rewrites an atom known to contain sep as head+sep+tail.
func (e *Engine) splitAround(st *State, atom ID, sep string) (h, l Str) {
	a, b := e.derived(st, atom, "before"), e.derived(st, atom, "after")
	st.at[a] = &AInfo{Lits: []Lit{{P: PContains(sep), Neg: true}}}
	st.at[b] = &AInfo{}
	whole := Str{P: []SPart{{Atom: a}, {C: sep}, {Atom: b}}}
	for _, x := range st.litsOf(atom) {
		if x.Maps == "" && x.Pre == "" && x.Suf == "" && x.P != PContains(sep) {
			st.addFact(Fact{A: whole, P: x.P, Val: !x.Neg})
		}
	}
	st.upd(atom, func(i *AInfo) { i.Bind = whole; i.Lits = nil })
	return Str{P: []SPart{{Atom: a}}}, Str{P: []SPart{{Atom: b}}}
}

func (e *Engine) pairStr(a, b Value) Tuple { return Tuple{a, b} }

// constArgs reports the arguments as Go constants if all of them are.
func constStrs(c *CallCtx) ([]string, bool) {
	out := make([]string, len(c.Args))
	for i := range c.Args {
		s, ok := c.St.resolve(c.Args[i]).(Str)
		if !ok {
			return nil, false
		}
		k, ok := s.Const()
		if !ok {
			return nil, false
		}
		out[i] = k
	}
	return out, true
}

func pure(f func(args []string) string) ModelFn {
	return func(c *CallCtx) {
		if a, ok := constStrs(c); ok {
			c.K(c.St, cstr(f(a)))
			return
		}
		c.K(c.St, c.freshStr(c.St))
	}
}

func init() {
	reg("strings.ToLower", func(c *CallCtx) { c.K(c.St, c.St.normStr(mapCase(c.str(0), "l"))) })
	reg("strings.ToUpper", func(c *CallCtx) { c.K(c.St, c.St.normStr(mapCase(c.str(0), "u"))) })
	reg("strings.ToTitle", func(c *CallCtx) { c.K(c.St, c.St.normStr(mapCase(c.str(0), "t"))) })
	reg("strings.Title", pure(func(a []string) string { return strings.Title(a[0]) }))
	reg("strings.Clone", func(c *CallCtx) { c.K(c.St, c.str(0)) })
	reg("strings.HasPrefix", func(c *CallCtx) {
		c.E.hasPrefix(c.St, c.str(0), c.str(1), func(s *State, b bool) { c.K(s, Bool(b)) })
	})
	reg("strings.HasSuffix", func(c *CallCtx) {
		c.E.hasSuffix(c.St, c.str(0), c.str(1), func(s *State, b bool) { c.K(s, Bool(b)) })
	})
	reg("strings.TrimPrefix strings.CutPrefix", func(c *CallCtx) {
		cut := strings.HasSuffix(c.Name, "CutPrefix")
		s, p := c.str(0), c.str(1)
		ret := func(t *State, v Str, f bool) {
			if cut {
				c.K(t, Tuple{v, Bool(f)})
			} else {
				c.K(t, v)
			}
		}
		c.E.hasPrefix(c.St, s, p, func(t *State, b bool) {
			if !b {
				ret(t, t.normStr(s), false)
				return
			}
			if r, ok := c.E.cutFront(t, t.normStr(s), t.normStr(p)); ok {
				ret(t, r, true)
				return
			}
			ret(t, c.freshStr(t), true)
		})
	})
	reg("strings.TrimSuffix strings.CutSuffix", func(c *CallCtx) {
		cut := strings.HasSuffix(c.Name, "CutSuffix")
		s, p := c.str(0), c.str(1)
		ret := func(t *State, v Str, f bool) {
			if cut {
				c.K(t, Tuple{v, Bool(f)})
			} else {
				c.K(t, v)
			}
		}
		c.E.hasSuffix(c.St, s, p, func(t *State, b bool) {
			if !b {
				ret(t, t.normStr(s), false)
				return
			}
			s2 := t.normStr(s)
			if pc, ok := p.Const(); ok {
				if l, _, ok := c.E.cutAt(t, s2, linAdd(c.E.strLen(t, s2), cint(int64(len(pc))), -1)); ok {
					ret(t, l, true)
					return
				}
			}
			ret(t, c.freshStr(t), true)
		})
	})
	reg("strings.Contains", func(c *CallCtx) {
		if p, ok := c.constStr(1); ok {
			c.E.sv(c.E.decidePred(c.St, c.str(0), PContains(p), ""), c.K)
			return
		}
		c.E.sv([]SV{{c.St.clone(), Bool(true)}, {c.St, Bool(false)}}, c.K)
	})
	reg("strings.ContainsAny", func(c *CallCtx) {
		if p, ok := c.constStr(1); ok {
			if p == "" {
				c.K(c.St, Bool(false))
				return
			}
			c.E.sv(c.E.decidePred(c.St, c.str(0), PAny(p), ""), c.K)
			return
		}
		c.E.sv([]SV{{c.St.clone(), Bool(true)}, {c.St, Bool(false)}}, c.K)
	})
	reg("strings.ContainsRune", func(c *CallCtx) {
		if i, ok := c.Args[1].(Int); ok && i.isConst() {
			c.E.sv(c.E.decidePred(c.St, c.str(0), PContains(string(rune(i.C))), ""), c.K)
			return
		}
		if k, ok := c.constStr(0); ok {
			c.E.sv(c.E.runePred(c.St, c.Args[1], func(r rune) bool { return strings.ContainsRune(k, r) }), c.K)
			return
		}
		c.E.sv([]SV{{c.St.clone(), Bool(true)}, {c.St, Bool(false)}}, c.K)
	})
	reg("strings.EqualFold", func(c *CallCtx) {
		c.E.sv(c.E.eqStr(c.St, mapCase(c.str(0), "l"), mapCase(c.str(1), "l")), c.K)
	})
	reg("strings.Compare", func(c *CallCtx) {
		if a, ok := constStrs(c); ok {
			c.K(c.St, cint(int64(strings.Compare(a[0], a[1]))))
			return
		}
		c.E.bools(c.E.eqStr(c.St, c.str(0), c.str(1)), func(s *State, b bool) {
			if b {
				c.K(s, cint(0))
				return
			}
			c.K(s.clone(), cint(-1))
			c.K(s, cint(1))
		})
	})
	reg("strings.Index strings.IndexByte strings.IndexRune", func(c *CallCtx) {
		var sep string
		switch x := c.St.resolve(c.Args[1]).(type) {
		case Str:
			k, ok := x.Const()
			if !ok {
				c.K(c.St.clone(), cint(-1))
				c.K(c.St, c.E.instPos(c.St))
				return
			}
			sep = k
		case Int:
			if k, ok := c.constStr(0); ok && !x.isConst() {
				c.E.bools(c.E.runePred(c.St, x, func(r rune) bool { return strings.ContainsRune(k, r) }), func(t *State, in bool) {
					if in {
						c.K(t, c.E.instPos(t))
					} else {
						c.K(t, cint(-1))
					}
				})
				return
			}
			if !x.isConst() {
				c.K(c.St.clone(), cint(-1))
				c.K(c.St, c.E.instPos(c.St))
				return
			}
			sep = string(rune(x.C))
		}
		c.E.cut(c.St, c.str(0), sep, func(t *State, b, a Str, f bool) {
			if !f {
				c.K(t, cint(-1))
				return
			}
			c.K(t, c.E.strLen(t, b))
		})
	})
	reg("strings.IndexAny strings.LastIndexAny", func(c *CallCtx) {
		if a, ok := constStrs(c); ok {
			if strings.HasSuffix(c.Name, "LastIndexAny") {
				c.K(c.St, cint(int64(strings.LastIndexAny(a[0], a[1]))))
			} else {
				c.K(c.St, cint(int64(strings.IndexAny(a[0], a[1]))))
			}
			return
		}
		if p, ok := c.constStr(1); ok && p != "" {
			c.E.bools(c.E.decidePred(c.St, c.str(0), PAny(p), ""), func(t *State, b bool) {
				if b {
					c.K(t, c.E.instPos(t))
				} else {
					c.K(t, cint(-1))
				}
			})
			return
		}
		c.K(c.St.clone(), cint(-1))
		c.K(c.St, c.E.instPos(c.St))
	})
	reg("strings.LastIndex strings.LastIndexByte", func(c *CallCtx) {
		if a, ok := constStrs(c); ok {
			c.K(c.St, cint(int64(strings.LastIndex(a[0], a[1]))))
			return
		}
		if p, ok := c.constStr(1); ok && p != "" {
			s := c.str(0)
			c.E.bools(c.E.decidePred(c.St, s, PContains(p), ""), func(t *State, b bool) {
				if !b {
					c.K(t, cint(-1))
					return
				}
				n := t.normStr(s)
				if len(n.P) == 1 && n.P[0].Maps == "" && n.P[0].Atom != 0 {
					// last occurrence: the tail has none
					h, l := c.E.splitAround(t, n.P[0].Atom, p)
					hi, li := t.at[h.P[0].Atom], t.at[l.P[0].Atom]
					*hi, *li = AInfo{}, AInfo{Lits: []Lit{{P: PContains(p), Neg: true}}}
					c.K(t, c.E.strLen(t, h))
					return
				}
				c.K(t, c.E.instPos(t))
			})
			return
		}
		c.K(c.St.clone(), cint(-1))
		c.K(c.St, c.E.instPos(c.St))
	})
	reg("strings.Cut", func(c *CallCtx) {
		sep, ok := c.constStr(1)
		if !ok {
			t := c.St.clone()
			c.K(t, Tuple{c.freshStr(t), c.freshStr(t), Bool(true)})
			c.K(c.St, Tuple{c.str(0), Str{}, Bool(false)})
			return
		}
		c.E.cut(c.St, c.str(0), sep, func(t *State, b, a Str, f bool) { c.K(t, Tuple{b, a, Bool(f)}) })
	})
	reg("strings.Split strings.SplitN", func(c *CallCtx) {
		sep, ok := c.constStr(1)
		limit := int64(-1)
		if len(c.Args) > 2 {
			if n, okn := c.Args[2].(Int); okn && n.isConst() {
				limit = n.C
			} else {
				ok = false
			}
		}
		if !ok || sep == "" || limit == 0 {
			c.K(c.St, c.E.newSeq(c.St, types.Typ[types.String], []Seg{{UID: c.E.starLen(c.St, 0), Star: true, V: Fresh{T: types.Typ[types.String]}}}))
			return
		}
		c.E.split(c.St, c.str(0), sep, limit, nil, 0, c.K)
	})
	reg("strings.Fields", func(c *CallCtx) {
		if s, ok := c.constStr(0); ok {
			var segs []Seg
			for _, f := range strings.Fields(s) {
				segs = append(segs, Seg{UID: c.E.singleUID(), V: cstr(f)})
			}
			c.K(c.St, c.E.newSeq(c.St, types.Typ[types.String], segs))
			return
		}
		c.imprecise(c.St)
		c.K(c.St, c.E.newSeq(c.St, types.Typ[types.String], []Seg{{UID: c.E.starLen(c.St, 0), Star: true, V: Fresh{T: types.Typ[types.String]}}}))
	})
	reg("net/url.ParseRequestURI", func(c *CallCtx) {
		// control characters and the empty string are always rejected
		t := c.Sig.Results().At(0).Type()
		bad := func(s *State) { c.K(s, Tuple{c.E.zero(t), c.E.newErr(s, c.Name)}) }
		c.E.bools(c.E.decidePred(c.St, c.str(0), MustRe("[\\x00-\\x1f\\x7f]"), ""), func(s *State, b bool) {
			if b {
				bad(s)
				return
			}
			bad(s.clone())
			c.E.bools(c.E.decidePred(s, c.str(0), PLenRange(0, 0), ""), func(s *State, b bool) {
				if !b {
					c.K(s, Tuple{c.E.inst(s, t, true), Nil{}})
				}
			})
		})
	})
	reg("strings.Join", func(c *CallCtx) {
		sep := c.str(1)
		if !c.E.seqOf(c.St, c.Args[0], func(s *State, id ID) {
			if id == 0 {
				c.K(s, Str{})
				return
			}
			out := Str{}
			for i, sg := range c.E.seqObj(s, id).Segs {
				str, ok := s.resolve(c.E.own(s, sg.V)).(Str)
				if sg.Star || !ok {
					c.K(s, c.freshStr(s))
					return
				}
				if i > 0 {
					out = catStr(out, sep)
				}
				out = catStr(out, str)
			}
			c.K(s, s.normStr(out))
		}) {
			c.K(c.St, c.freshStr(c.St))
		}
	})
	reg("strings.Repeat", func(c *CallCtx) {
		if s, ok := c.constStr(0); ok {
			if n, ok := c.Args[1].(Int); ok && n.isConst() && n.C >= 0 && n.C*int64(len(s)) < 1000 {
				c.K(c.St, cstr(strings.Repeat(s, int(n.C))))
				return
			}
		}
		c.K(c.St, c.freshStr(c.St))
	})
	reg("strings.ReplaceAll", func(c *CallCtx) {
		a, ok := constStrs(c)
		if ok {
			c.K(c.St, cstr(strings.ReplaceAll(a[0], a[1], a[2])))
			return
		}
		if old, ok := c.constStr(1); ok && old != "" {
			s := c.str(0)
			c.E.bools(c.E.decidePred(c.St, s, PContains(old), ""), func(t *State, b bool) {
				if !b {
					c.K(t, t.normStr(s))
					return
				}
				r, _ := c.E.derivedOf(t, t.normStr(s), "replaced")
				c.K(t, r)
			})
			return
		}
		c.K(c.St, c.freshStr(c.St))
	})
	reg("strings.TrimSpace", func(c *CallCtx) { c.E.trim(c, spaceClass, true, true, strings.TrimSpace) })
	reg("strings.Trim strings.TrimLeft strings.TrimRight", func(c *CallCtx) {
		cs, ok := c.constStr(1)
		if !ok || cs == "" {
			if ok {
				c.K(c.St, c.str(0))
				return
			}
			c.K(c.St, c.freshStr(c.St))
			return
		}
		l, r := !strings.HasSuffix(c.Name, "Right"), !strings.HasSuffix(c.Name, "Left")
		c.E.trim(c, classRe(cs), l, r, func(s string) string {
			if l {
				s = strings.TrimLeft(s, cs)
			}
			if r {
				s = strings.TrimRight(s, cs)
			}
			return s
		})
	})
	reg("strings.NewReader bytes.NewReader", func(c *CallCtx) {
		id := c.E.newObj(c.St, &Obj{Kind: OCell, T: c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), V: Fresh{T: c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()}})
		c.K(c.St, Ptr{Obj: id})
	})
	for _, t := range []struct {
		name  string
		field int32
	}{{"strings.Builder", 1}, {"bytes.Buffer", 0}} {
		fld := t.field
		add := func(c *CallCtx, s Str, ret Value) {
			c.E.derefVal(c.Act, c.St, c.Args[0], "builder", c.Pos, func(st *State, p Ptr) []SV {
				q := Ptr{p.Obj, p.Path + pathEl(fld)}
				for _, r := range c.E.load(st, q) {
					n := catStr(c.E.seqStr(r.s, r.v), s)
					if tooLong(n) {
						n = c.freshStr(r.s)
					}
					for _, o := range c.E.store(c.Act, r.s, q, c.E.strSeq(r.s, types.Typ[types.Byte], n), c.Pos, c.Act.Fn) {
						c.K(o, ret)
					}
				}
				return nil
			})
		}
		reg("(*"+t.name+").WriteString", func(c *CallCtx) { add(c, c.str(1), Tuple{c.E.strLen(c.St, c.str(1)), Nil{}}) })
		reg("(*"+t.name+").WriteByte", func(c *CallCtx) { add(c, c.E.runeStr(c.St, c.Args[1].(Int)), Nil{}) })
		reg("(*"+t.name+").WriteRune", func(c *CallCtx) {
			i, ok := c.Args[1].(Int)
			if !ok {
				i = c.E.runeOf(c.St, 0).(Int)
			}
			add(c, c.E.runeStr(c.St, i), Tuple{cint(1), Nil{}})
		})
		reg("(*"+t.name+").Write", func(c *CallCtx) {
			add(c, c.E.seqStr(c.St, c.St.resolve(c.Args[1])), Tuple{c.E.instPos(c.St), Nil{}})
		})
		reg("(*"+t.name+").Grow", func(c *CallCtx) { c.K(c.St, nil) })
		reg("(*"+t.name+").Reset", func(c *CallCtx) {
			c.E.derefVal(c.Act, c.St, c.Args[0], "builder", c.Pos, func(st *State, p Ptr) []SV {
				for _, o := range c.E.store(c.Act, st, Ptr{p.Obj, p.Path + pathEl(fld)}, Nil{}, c.Pos, c.Act.Fn) {
					c.K(o, nil)
				}
				return nil
			})
		})
		get := func(c *CallCtx, f func(st *State, s Str)) {
			c.E.derefVal(c.Act, c.St, c.Args[0], "builder", c.Pos, func(st *State, p Ptr) []SV {
				for _, r := range c.E.load(st, Ptr{p.Obj, p.Path + pathEl(fld)}) {
					if _, ok := r.v.(Unk); ok {
						f(r.s, c.freshStr(r.s))
						continue
					}
					f(r.s, c.E.seqStr(r.s, r.v))
				}
				return nil
			})
		}
		reg("(*"+t.name+").String", func(c *CallCtx) { get(c, func(st *State, s Str) { c.K(st, st.normStr(s)) }) })
		reg("(*"+t.name+").Len", func(c *CallCtx) { get(c, func(st *State, s Str) { c.K(st, c.E.strLen(st, s)) }) })
		reg("(*"+t.name+").Bytes", func(c *CallCtx) {
			get(c, func(st *State, s Str) { c.K(st, c.E.strSeq(st, types.Typ[types.Byte], st.normStr(s))) })
		})
	}
	reg("bytes.NewBufferString bytes.NewBuffer", func(c *CallCtx) {
		var v Value
		if s, ok := c.St.resolve(c.Args[0]).(Str); ok {
			v = c.E.strSeq(c.St, types.Typ[types.Byte], s)
		} else {
			v = c.Args[0]
		}
		t := c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		z := c.E.zero(t).(Struct)
		z.F[0] = v
		c.K(c.St, Ptr{Obj: c.E.newObj(c.St, &Obj{Kind: OCell, T: t, V: z})})
	})

	// fmt and errors
	reg("fmt.Errorf errors.New", func(c *CallCtx) { c.K(c.St, c.E.newErr(c.St, c.Name)) })
	reg("(error).Error", func(c *CallCtx) { c.K(c.St, c.freshStr(c.St)) })
	reg("errors.Join", func(c *CallCtx) {
		c.E.seqOf(c.St, c.Args[0], func(s *State, id ID) {
			if id == 0 {
				c.K(s, Nil{})
				return
			}
			var walk func(s *State, i int)
			walk = func(s *State, i int) {
				segs := c.E.seqObj(s, id).Segs
				if i >= len(segs) {
					c.K(s, Nil{})
					return
				}
				if segs[i].Star {
					if _, ok := s.resolve(segs[i].V).(Nil); ok {
						walk(s, i+1)
						return
					}
					t := s.clone()
					c.K(t, c.E.newErr(t, c.Name))
					if !(c.E.isNonNil(s, segs[i].V) && c.E.atomLo(s, segs[i].UID) > 0) {
						walk(s, i+1)
					}
					return
				}
				c.E.bools(c.E.equal(s, c.E.own(s, segs[i].V), Nil{}), func(s *State, b bool) {
					if b {
						walk(s, i+1)
					} else {
						c.K(s, c.E.newErr(s, c.Name))
					}
				})
			}
			walk(s, 0)
		})
	})
	reg("errors.Is", func(c *CallCtx) {
		if isNil(c.St.resolve(c.Args[0])) {
			c.K(c.St, Bool(isNil(c.St.resolve(c.Args[1]))))
			return
		}
		c.K(c.St.clone(), Bool(true))
		c.K(c.St, Bool(false))
	})
	reg("errors.As", func(c *CallCtx) {
		c.K(c.St.clone(), Bool(false))
		if isNil(c.St.resolve(c.Args[0])) {
			return
		}
		if i, ok := c.St.resolve(c.Args[1]).(Iface); ok {
			if p, ok := i.V.(Ptr); ok {
				t := i.T.Underlying().(*types.Pointer).Elem()
				for _, o := range c.E.store(c.Act, c.St, p, c.E.inst(c.St, t, true), c.Pos, c.Act.Fn) {
					c.K(o, Bool(true))
				}
				return
			}
		}
		c.K(c.St, Bool(true))
	})
	reg("fmt.Sprintf", func(c *CallCtx) { c.E.sprintf(c, c.str(0), c.Args[1], c.K) })
	reg("fmt.Sprint fmt.Sprintln", func(c *CallCtx) { c.K(c.St, c.freshStr(c.St)) })
	reg("fmt.Println fmt.Printf fmt.Print", func(c *CallCtx) {
		c.K(c.St, Tuple{c.E.instPos(c.St), Unk{c.E.newAtom('u', types.Universe.Lookup("error").Type()), types.Universe.Lookup("error").Type()}})
	})
	reg("log.Printf log.Println log.Print (*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock (*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait",
		func(c *CallCtx) { c.K(c.St, nil) })
	reg("os.Exit", func(c *CallCtx) {
		c.E.outcome(c.Act, c.St, "exit", c.Pos, c.St.resolve(c.Args[0]), "os.Exit")
	})
	reg("log.Fatal log.Fatalf log.Fatalln", func(c *CallCtx) {
		c.E.outcome(c.Act, c.St, "exit", c.Pos, cint(1), "%s", c.Name)
	})
	reg("log.Panic log.Panicf log.Panicln", func(c *CallCtx) {
		c.E.panicAt(c.Act, c.St, c.Pos, "%s", c.Name)
	})

	// strconv
	reg("strconv.Itoa", func(c *CallCtx) { c.K(c.St, c.E.intStr(c.St, c.Args[0])) })
	reg("strconv.Quote", pure(func(a []string) string { return strconv.Quote(a[0]) }))
	reg("strconv.Atoi strconv.ParseInt strconv.ParseUint", func(c *CallCtx) {
		s := c.str(0)
		bits, base := 64, 10
		if len(c.Args) == 3 {
			b, ok1 := c.Args[1].(Int)
			z, ok2 := c.Args[2].(Int)
			if ok1 && ok2 && b.isConst() && z.isConst() {
				base, bits = int(b.C), int(z.C)
			}
		}
		if k, ok := s.Const(); ok {
			n, err := strconv.ParseInt(k, base, bits)
			if err != nil {
				c.K(c.St, Tuple{c.E.instPos(c.St), c.E.newErr(c.St, c.Name)})
			} else {
				c.K(c.St, Tuple{cint(n), Nil{}})
			}
			return
		}
		re := `[+-]?[0-9]+`
		if strings.HasSuffix(c.Name, "ParseUint") {
			re = `[0-9]+`
		}
		bad := func(t *State) {
			c.K(t, Tuple{c.E.inst(t, c.Sig.Results().At(0).Type(), false), c.E.newErr(t, c.Name)})
		}
		if base != 10 {
			bad(c.St.clone())
			c.K(c.St, Tuple{c.E.inst(c.St, c.Sig.Results().At(0).Type(), false), Nil{}})
			return
		}
		c.E.bools(c.E.decidePred(c.St, s, PFull(re), ""), func(t *State, b bool) {
			if !b {
				bad(t)
				return
			}
			bad(t.clone()) // out of range
			var v Value
			n := t.normStr(s)
			if len(n.P) == 1 && n.P[0].Atom != 0 {
				v = atomInt(c.E.assocAtom("num", n.P[0].Atom, bits, n.P[0].Maps))
				r := Rng{MinI, MaxI}
				if bits == 32 {
					r = Rng{-1 << 31, 1<<31 - 1}
				} else if bits == 16 {
					r = Rng{-1 << 15, 1<<15 - 1}
				} else if bits == 8 {
					r = Rng{-1 << 7, 1<<7 - 1}
				}
				t.upd(v.(Int).T[0].ID, func(a *AInfo) { a.R = rInter(a.R, []Rng{r}) })
			} else {
				v = c.E.inst(t, c.Sig.Results().At(0).Type(), false)
			}
			c.K(t, Tuple{v, Nil{}})
		})
	})

	// unicode
	for name, f := range map[string]func(rune) bool{
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter,
		"unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct,
	} {
		f := f
		reg(name, func(c *CallCtx) { c.E.sv(c.E.runePred(c.St, c.Args[0], f), c.K) })
	}
	for name, f := range map[string]func(rune) rune{"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToTitle": unicode.ToTitle} {
		f := f
		m := map[string]string{"unicode.ToLower": "l", "unicode.ToUpper": "u", "unicode.ToTitle": "t"}[name]
		reg(name, func(c *CallCtx) {
			i, ok := c.Args[0].(Int)
			if ok && i.isConst() {
				c.K(c.St, cint(int64(f(rune(i.C)))))
				return
			}
			if ok && len(i.T) == 1 && i.C == 0 && i.T[0].Coef == 1 {
				if as, ok := c.E.assoc[i.T[0].ID]; ok && as.Kind == "char" {
					c.K(c.St, atomInt(c.E.assocAtom("char", as.Atom, as.Idx, addMaps(as.Maps, m))))
					return
				}
			}
			c.K(c.St, c.E.runeOf(c.St, 0))
		})
	}
	reg("unicode/utf8.DecodeRuneInString", func(c *CallCtx) {
		s := c.St.normStr(c.str(0))
		c.E.bools(c.E.eqStr(c.St, s, Str{}), func(t *State, empty bool) {
			if empty {
				c.K(t, Tuple{cint(0xfffd), cint(0)})
				return
			}
			n := t.normStr(s)
			if n.P[0].Atom == 0 {
				for _, r := range n.P[0].C {
					c.K(t, Tuple{cint(int64(r)), cint(int64(len(string(r))))})
					return
				}
			}
			id := c.E.newAtom('i', types.Typ[types.Int])
			t.at[id] = &AInfo{R: []Rng{{1, 4}}}
			if len(n.P) == 1 || c.E.strMin(t, n.P[0].Atom) > 0 {
				c.K(t, Tuple{atomInt(c.E.assocAtom("char", n.P[0].Atom, 1000, n.P[0].Maps)), atomInt(id)})
				return
			}
			c.K(t, Tuple{c.E.runeOf(t, 0), atomInt(id)})
		})
	})
	reg("unicode/utf8.RuneCountInString", func(c *CallCtx) {
		s := c.str(0)
		if k, ok := s.Const(); ok {
			c.K(c.St, cint(int64(len([]rune(k)))))
			return
		}
		c.K(c.St, c.E.strLen(c.St, s))
	})
	reg("unicode/utf8.ValidString", func(c *CallCtx) { c.K(c.St.clone(), Bool(true)); c.K(c.St, Bool(false)) })

	// regexp
	reg("regexp.MustCompile regexp.Compile regexp.MustCompilePOSIX", func(c *CallCtx) {
		re, ok := c.constStr(0)
		tag := "regexp:?"
		if ok {
			tag = "regexp:" + re
		}
		id := c.E.newObj(c.St, &Obj{Kind: OOpaque, Tag: tag, Data: re})
		if c.Name == "regexp.Compile" {
			c.K(c.St, Tuple{Ptr{Obj: id}, Nil{}})
			return
		}
		c.K(c.St, Ptr{Obj: id})
	})
	reg("(*regexp.Regexp).MatchString regexp.MatchString (*regexp.Regexp).Match", func(c *CallCtx) {
		var pat string
		var known bool
		if c.Name == "regexp.MatchString" {
			pat, known = c.constStr(0)
		} else if p, ok := c.St.resolve(c.Args[0]).(Ptr); ok {
			if o := c.E.obj(c.St, p.Obj); o != nil && o.Kind == OOpaque && strings.HasPrefix(o.Tag, "regexp:") {
				pat, known = strings.TrimPrefix(o.Tag, "regexp:"), o.Tag != "regexp:?"
			}
		}
		var s Str
		if strings.HasSuffix(c.Name, ".Match") {
			s = c.E.seqStr(c.St, c.St.resolve(c.Args[1]))
		} else {
			s = c.str(1)
		}
		k := c.K
		if c.Name == "regexp.MatchString" {
			k = func(t *State, v Value) { c.K(t, Tuple{v, Nil{}}) }
		}
		if known {
			if p, err := Re(pat); err == nil && p.supported() {
				c.E.sv(c.E.decidePred(c.St, s, p, ""), k)
				return
			}
		}
		k(c.St.clone(), Bool(true))
		k(c.St, Bool(false))
	})

	// paths
	reg("path.Join path/filepath.Join", func(c *CallCtx) {
		if !c.E.seqOf(c.St, c.Args[0], func(s *State, id ID) {
			if id == 0 {
				c.K(s, Str{})
				return
			}
			var parts []string
			for _, sg := range c.E.seqObj(s, id).Segs {
				str, ok := s.resolve(c.E.own(s, sg.V)).(Str)
				k, okc := str.Const()
				if sg.Star || !ok || !okc {
					c.K(s, c.freshStr(s))
					return
				}
				parts = append(parts, k)
			}
			if c.Name == "path.Join" {
				c.K(s, cstr(path.Join(parts...)))
			} else {
				c.K(s, cstr(filepath.Join(parts...)))
			}
		}) {
			c.K(c.St, c.freshStr(c.St))
		}
	})
	reg("path.Dir", pure(func(a []string) string { return path.Dir(a[0]) }))
	reg("path.Base", pure(func(a []string) string { return path.Base(a[0]) }))
	reg("path.Clean", pure(func(a []string) string { return path.Clean(a[0]) }))
	reg("path/filepath.Dir", pure(func(a []string) string { return filepath.Dir(a[0]) }))
	reg("path/filepath.Base", pure(func(a []string) string { return filepath.Base(a[0]) }))
	reg("path/filepath.Ext path.Ext", pure(func(a []string) string { return filepath.Ext(a[0]) }))
	reg("path/filepath.ToSlash", func(c *CallCtx) { c.K(c.St, c.str(0)) })
	reg("path/filepath.VolumeName", func(c *CallCtx) { c.K(c.St, Str{}) })

	reg("strconv.Quote", func(c *CallCtx) { c.K(c.St, c.E.quoted(c.St, c.str(0))) })
	reg("encoding/json.Marshal", func(c *CallCtx) {
		e := c.E
		if i, ok := c.St.resolve(c.Args[0]).(Iface); ok {
			if s, ok := c.St.resolve(i.V).(Str); ok && types.Identical(i.T, types.Typ[types.String]) {
				s = c.St.normStr(s)
				q := catStr(catStr(cstr(`"`), s), cstr(`"`))
				if text, ok := s.Const(); ok {
					b, _ := json.Marshal(text)
					q = cstr(string(b))
				} else if Sat(e.lparts(c.St, s), []Lit{{P: PFull(`[a-zA-Z0-9_,\[\]\-./ ]*`), Neg: true}}) {
					q, _ = e.derivedOf(c.St, s, "json")
				}
				c.K(c.St, Tuple{e.strSeq(c.St, types.Typ[types.Byte], q), Nil{}})
				return
			}
		}
		bad := c.St.clone()
		c.K(bad, Tuple{Nil{}, e.newErr(bad, c.Name)})
		c.K(c.St, Tuple{e.strSeq(c.St, types.Typ[types.Byte], e.jsonText(c, c.St, c.Args[0])), Nil{}})
	})
	reg("encoding/json.Unmarshal (*encoding/json.Decoder).Decode", func(c *CallCtx) {
		e := c.E
		// a string literal decoded into a string
		if i, ok := c.St.resolve(c.Args[1]).(Iface); ok {
			if p, ok := i.V.(Ptr); ok && types.Identical(i.T.Underlying(), types.NewPointer(types.Typ[types.String])) {
				if text, ok := c.St.normStr(e.seqStr(c.St, c.St.resolve(c.Args[0]))).Const(); ok && c.Name == "encoding/json.Unmarshal" {
					var s string
					if json.Unmarshal([]byte(text), &s) == nil {
						for _, o := range e.store(c.Act, c.St, p, cstr(s), c.Pos, c.Act.Fn) {
							c.K(o, Nil{})
						}
						return
					}
				}
			}
		}
		bad := c.St.clone()
		fill := func(s *State, k func(*State)) {
			i, ok := s.resolve(c.Args[1]).(Iface)
			if !ok {
				k(s)
				return
			}
			p, ok := i.V.(Ptr)
			if !ok {
				k(s)
				return
			}
			t := i.T.Underlying().(*types.Pointer).Elem()
			var v Value = Fresh{T: t}
			if e.Hooks.OnDecode != nil {
				if d := e.Hooks.OnDecode(e, s, t); d != nil {
					v = d
				}
			}
			for _, o := range e.store(c.Act, s, p, v, c.Pos, c.Act.Fn) {
				k(o)
			}
		}
		fill(bad, func(s *State) { c.K(s, e.newErr(s, c.Name)) })
		fill(c.St, func(s *State) { c.K(s, Nil{}) })
	})
	reg("sort.Strings sort.Ints sort.Slice sort.SliceStable slices.Sort slices.SortFunc slices.SortStableFunc slices.Reverse", func(c *CallCtx) { c.E.permuted(c, c.Args[0]) })
	reg("(*sync.Once).Do", func(c *CallCtx) {
		if f, ok := c.St.resolve(c.Args[1]).(Func); ok {
			c.E.callFn(c.Act, c.St, f.Fn, nil, f.Bind, c.Pos, c.K)
			return
		}
		c.K(c.St, nil)
	})
}

// supported reports whether the emptiness test can handle the expression.
func (p *Pred) supported() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	Sat([]LPart{{Atom: true}}, []Lit{{P: p}})
	return true
}

func (e *Engine) cutFront(st *State, s, p Str) (Str, bool) {
	if pc, ok := p.Const(); ok {
		return e.cutLen(st, s, len(pc))
	}
	if _, r, ok := e.cutAt(st, s, e.strLen(st, p)); ok {
		return r, true
	}
	return Str{}, false
}

func (e *Engine) split(st *State, s Str, sep string, limit int64, segs []Seg, n int, k func(*State, Value)) {
	ts := types.Typ[types.String]
	s = st.normStr(s)
	if limit > 0 && int64(len(segs)) == limit-1 {
		k(st, e.newSeq(st, ts, append(append([]Seg(nil), segs...), Seg{UID: e.singleUID(), V: s})))
		return
	}
	if limit < 0 && n == 0 && len(s.P) > 1 {
		e.splitParts(st, s, sep, segs, k)
		return
	}
	if n >= 4 || (limit < 0 && !e.tracked(st, s) && len(segs) == 0) {
		if c, ok := s.Const(); !ok || n >= 64 {
			_ = c
			k(st, e.newSeq(st, ts, append(append([]Seg(nil), segs...), Seg{UID: e.starLen(st, 1), Star: true, V: Fresh{T: ts}})))
			return
		}
	}
	e.cut(st, s, sep, func(t *State, b, a Str, f bool) {
		if !f {
			k(t, e.newSeq(t, ts, append(append([]Seg(nil), segs...), Seg{UID: e.singleUID(), V: b})))
			return
		}
		e.split(t, a, sep, limit, append(append([]Seg(nil), segs...), Seg{UID: e.singleUID(), V: b}), n+1, k)
	})
}

// splitParts splits a concatenation: each unknown part contributes the end of
// one piece, any number of whole pieces, and the beginning of another.
func (e *Engine) splitParts(st *State, s Str, sep string, segs []Seg, k func(*State, Value)) {
	ts := types.Typ[types.String]
	for _, p := range s.P {
		if p.Maps != "" || len(sep) != 1 {
			k(st, e.newSeq(st, ts, append(append([]Seg(nil), segs...), Seg{UID: e.starLen(st, 1), Star: true, V: Fresh{T: ts}})))
			return
		}
	}
	var from func(st *State, i int, cur Str, segs []Seg)
	from = func(st *State, i int, cur Str, segs []Seg) {
		piece := func(segs []Seg, v Str) []Seg {
			return append(append([]Seg(nil), segs...), Seg{UID: e.singleUID(), V: v})
		}
		if i == len(s.P) {
			k(st, e.newSeq(st, ts, piece(segs, cur)))
			return
		}
		p := s.P[i]
		if p.Atom == 0 {
			l := strings.Split(p.C, sep)
			for _, x := range l[:len(l)-1] {
				segs = piece(segs, catStr(cur, cstr(x)))
				cur = Str{}
			}
			from(st, i+1, catStr(cur, cstr(l[len(l)-1])), segs)
			return
		}
		e.bools(e.decidePred(st, Str{P: []SPart{p}}, PContains(sep), ""), func(t *State, b bool) {
			if !b {
				from(t, i+1, catStr(cur, Str{P: []SPart{p}}), segs)
				return
			}
			no := Lit{P: PContains(sep), Neg: true}
			head, tail := e.inst(t, ts, false).(Str), e.inst(t, ts, false).(Str)
			e.addLit(t, head.P[0].Atom, no)
			e.addLit(t, tail.P[0].Atom, no)
			all := piece(segs, catStr(cur, head))
			all = append(all, Seg{UID: e.starLen(t, 0), Star: true, V: Fresh{T: ts, Lits: []Lit{no}}})
			from(t, i+1, tail, all)
		})
	}
	from(st, 0, Str{}, segs)
}

func (e *Engine) trim(c *CallCtx, class string, left, right bool, f func(string) string) {
	s := c.St.normStr(c.str(0))
	if k, ok := s.Const(); ok {
		c.K(c.St, cstr(f(k)))
		return
	}
	var re string
	switch {
	case left && right:
		re = `\A` + class + `|` + class + `\z`
	case left:
		re = `\A` + class
	default:
		re = class + `\z`
	}
	p := MustRe(re)
	blank := 0 // bits: it can be (1) or not be (2) of this class only
	if len(s.P) == 1 {
		e.bools(e.decidePred(c.St.clone(), s, MustRe(`\A`+class+`*\z`), ""), func(_ *State, b bool) {
			if b {
				blank |= 1
			} else {
				blank |= 2
			}
		})
		if blank == 1 {
			c.K(c.St, Str{})
			return
		}
	}
	e.bools(e.decidePred(c.St, s, p, ""), func(t *State, b bool) {
		if !b {
			c.K(t, t.normStr(s))
			return
		}
		r, isNew := e.derivedOf(t, t.normStr(s), "trim"+class+fmt.Sprint(left, right))
		if isNew {
			e.addLit(t, r.P[0].Atom, Lit{P: p, Neg: true})
			if blank == 2 {
				e.addLit(t, r.P[0].Atom, Lit{P: MustRe(`\A\z`), Neg: true})
			}
		}
		c.K(t, r)
	})
}

func (e *Engine) runePred(st *State, v Value, f func(rune) bool) []SV {
	i, ok := v.(Int)
	if ok && i.isConst() {
		return one(st, Bool(f(rune(i.C))))
	}
	if ok && len(i.T) == 1 && i.C == 0 && i.T[0].Coef == 1 {
		if as, ok := e.assoc[i.T[0].ID]; ok && as.Kind == "char" {
			return e.decideChar(st, as, f)
		}
		// a small set of values?
		if a := st.info(i.T[0].ID); a != nil && a.R != nil {
			n, yes := int64(0), int64(0)
			for _, r := range a.R {
				if r.Hi-r.Lo > 1000 {
					n = -1
					break
				}
				for x := r.Lo; x <= r.Hi; x++ {
					n++
					if f(rune(x)) {
						yes++
					}
				}
			}
			if n > 0 && yes == 0 {
				return one(st, Bool(false))
			}
			if n > 0 && yes == n {
				return one(st, Bool(true))
			}
			if n > 0 {
				var y, no []Rng
				for _, r := range a.R {
					for x := r.Lo; x <= r.Hi; x++ {
						if f(rune(x)) {
							y = append(y, Rng{x, x})
						} else {
							no = append(no, Rng{x, x})
						}
					}
				}
				t := st.clone()
				t.upd(i.T[0].ID, func(a *AInfo) { a.R = normRanges(y) })
				st.upd(i.T[0].ID, func(a *AInfo) { a.R = normRanges(no) })
				return []SV{{t, Bool(true)}, {st, Bool(false)}}
			}
		}
	}
	return []SV{{st.clone(), Bool(true)}, {st, Bool(false)}}
}

func (e *Engine) intStr(st *State, v Value) Str {
	if i, ok := v.(Int); ok {
		i = st.normInt(i)
		if i.isConst() {
			return cstr(strconv.FormatInt(i.C, 10))
		}
		if len(i.T) == 1 && i.C == 0 && i.T[0].Coef == 1 {
			k := assocKey{"itoa", i.T[0].ID, 0, ""}
			id, ok := e.assocID[k]
			if !ok {
				d := e.decl(i.T[0].ID)
				n := ""
				if d.Name != "" {
					n = "itoa(" + d.Name + ")"
				}
				id = e.newID(AtomDecl{Kind: 's', T: types.Typ[types.String], Name: n})
				e.assocID[k] = id
			}
			if _, known := st.at[id]; !known {
				st.at[id] = &AInfo{Lits: []Lit{{P: PFull(`-?[0-9]+`)}}}
			}
			return Str{P: []SPart{{Atom: id}}}
		}
	}
	s := e.inst(st, types.Typ[types.String], false).(Str)
	st.at[s.P[0].Atom] = &AInfo{Lits: []Lit{{P: PFull(`-?[0-9]+`)}}}
	return s
}

// sprintf interprets a constant format.
func (e *Engine) sprintf(c *CallCtx, format Str, args Value, k func(*State, Value)) {
	f, ok := format.Const()
	if !ok {
		k(c.St, c.freshStr(c.St))
		return
	}
	if !e.seqOf(c.St, args, func(s *State, id ID) {
		var vals []Value
		if id != 0 {
			for _, sg := range e.seqObj(s, id).Segs {
				if sg.Star {
					k(s, c.freshStr(s))
					return
				}
				vals = append(vals, sg.V)
			}
		}
		e.format(c, s, f, vals, Str{}, k)
	}) {
		k(c.St, c.freshStr(c.St))
	}
}

func (e *Engine) format(c *CallCtx, st *State, f string, args []Value, acc Str, k func(*State, Value)) {
	i := strings.IndexByte(f, '%')
	if i < 0 {
		k(st, st.normStr(catStr(acc, cstr(f))))
		return
	}
	acc = catStr(acc, cstr(f[:i]))
	f = f[i+1:]
	j := 0
	for j < len(f) && strings.IndexByte("+-# 0123456789.*", f[j]) >= 0 {
		j++
	}
	if j >= len(f) {
		k(st, c.freshStr(st))
		return
	}
	verb, flags := f[j], f[:j]
	f = f[j+1:]
	if verb == '%' {
		e.format(c, st, f, args, catStr(acc, cstr("%")), k)
		return
	}
	if len(args) == 0 {
		k(st, c.freshStr(st))
		return
	}
	v := st.resolve(e.own(st, args[0]))
	args = args[1:]
	e.formatArg(c, st, v, verb, flags, func(s *State, out Str) {
		e.format(c, s, f, args, catStr(acc, out), k)
	})
}

func (e *Engine) formatArg(c *CallCtx, st *State, v Value, verb byte, flags string, k func(*State, Str)) {
	if i, ok := v.(Iface); ok {
		if verb == 's' || verb == 'v' || verb == 'q' {
			for _, name := range []string{"Error", "String"} {
				if m := e.P.methodOf(i.T, name); m != nil && (e.P.IsSrc(m) || m.Synthetic != "") {
					if p, isP := i.V.(Ptr); isP || !isNil(i.V) {
						_ = p
					}
					// a nil pointer receiver is printed as <nil> if the method panics
					e.callFn(c.Act, st, m, []Value{i.V}, nil, c.Pos, func(s *State, r Value) {
						if rs, ok := r.(Str); ok {
							e.formatArg(c, s, rs, verb, flags, k)
							return
						}
						k(s, c.freshStr(s))
					})
					return
				}
			}
		}
		v = st.resolve(i.V)
	}
	switch x := v.(type) {
	case Slice, Array:
		if verb == 'x' || verb == 'X' {
			d, _ := e.derivedOf(st, e.digestStr(st, v), "hex")
			k(st, d)
			return
		}
	case Str:
		if flags == "" && (verb == 's' || verb == 'v') {
			k(st, x)
			return
		}
		if s, ok := x.Const(); ok {
			k(st, cstr(fmt.Sprintf("%"+flags+string(verb), s)))
			return
		}
		if verb == 'q' && flags == "" {
			k(st, e.quoted(st, x))
			return
		}
	case Int:
		if verb == 'd' || verb == 'v' {
			x = st.normInt(x)
			if x.isConst() {
				k(st, cstr(fmt.Sprintf("%"+flags+string(verb), x.C)))
				return
			}
			if flags == "" {
				k(st, e.intStr(st, x))
				return
			}
		}
		if verb == 'c' && x.isConst() {
			k(st, cstr(string(rune(x.C))))
			return
		}
	case Bool:
		if verb == 'v' || verb == 't' {
			k(st, cstr(strconv.FormatBool(bool(x))))
			return
		}
	}
	k(st, c.freshStr(st))
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			sig := s.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				return nil
			}
			return p.Prog.MethodValue(s)
		}
	}
	return nil
}

var _ = token.NoPos

// quoted is a string in Go syntax; plain words are left alone.
func (e *Engine) quoted(st *State, x Str) Str {
	if s, ok := x.Const(); ok {
		return cstr(strconv.Quote(s))
	}
	safe := PFull(`[a-zA-Z0-9_<>,\[\]\-./ ]*`)
	if !Sat(e.lparts(st, x), []Lit{{P: safe, Neg: true}}) {
		return catStr(catStr(cstr(`"`), x), cstr(`"`))
	}
	r, _ := e.derivedOf(st, x, "quoted")
	return r
}

// tooLong bounds what is remembered of a text put together piece by piece.
func tooLong(s Str) bool {
	n := 0
	for _, p := range s.P {
		n += len(p.C)
	}
	return len(s.P) > 10 || n > 400
}
