package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Trace struct {
	Parent *Trace
	Sub    *Trace
	Pos    token.Pos
	Msg    string
}

type Fact struct {
	A, B Str
	P    *Pred // predicate on A if set, else equality of A and B
	Val  bool
}

type State struct {
	blk    *ssa.BasicBlock
	pc     int
	regs   []Value
	defers []deferred
	rd     bool // running defers

	heap  map[ID]*Obj
	at    map[ID]*AInfo
	facts []Fact
	mon   map[string]string // monitor registers of the property
	tr    *Trace
	been  *been
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	pos  token.Pos
}

func (s *State) clone() *State {
	n := *s
	n.regs = append([]Value(nil), s.regs...)
	n.heap = make(map[ID]*Obj, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.at = make(map[ID]*AInfo, len(s.at)+4)
	for k, v := range s.at {
		n.at[k] = v
	}
	n.facts = append([]Fact(nil), s.facts...)
	n.defers = append([]deferred(nil), s.defers...)
	if s.mon != nil {
		n.mon = make(map[string]string, len(s.mon))
		for k, v := range s.mon {
			n.mon[k] = v
		}
	}
	return &n
}

// Mon and SetMon access the monitor registers.
func (s *State) Mon(k string) string { return s.mon[k] }
func (s *State) SetMon(k, v string) {
	n := make(map[string]string, len(s.mon)+1)
	for a, b := range s.mon {
		n[a] = b
	}
	if v == "" {
		delete(n, k)
	} else {
		n[k] = v
	}
	s.mon = n
}

func (s *State) note(pos token.Pos, format string, args ...any) {
	s.tr = &Trace{Parent: s.tr, Pos: pos, Msg: fmt.Sprintf(format, args...)}
}

func (s *State) info(id ID) *AInfo {
	if a, ok := s.at[id]; ok {
		return a
	}
	return baseAt[id]
}

// baseAt is what package initialisation established about atoms.
var baseAt = map[ID]*AInfo{}

func (s *State) upd(id ID, f func(a *AInfo)) {
	var n AInfo
	if a := s.info(id); a != nil {
		n = *a
		n.Lits = append([]Lit(nil), a.Lits...)
		n.R = append([]Rng(nil), a.R...)
		if a.R != nil && n.R == nil {
			n.R = []Rng{}
		}
	}
	f(&n)
	s.at[id] = &n
}

// resolve follows bindings.
func (s *State) resolve(v Value) Value {
	switch x := v.(type) {
	case Unk:
		if a := s.info(x.ID); a != nil && a.Bind != nil {
			return s.resolve(a.Bind)
		}
	case BAtom:
		if a := s.info(x.ID); a != nil && a.Bind != nil {
			r := s.resolve(a.Bind)
			if x.Neg {
				switch y := r.(type) {
				case Bool:
					return Bool(!bool(y))
				case BAtom:
					return BAtom{y.ID, !y.Neg}
				}
			}
			return r
		}
	case Str:
		return s.normStr(x)
	case Int:
		return s.normInt(x)
	}
	return v
}

func mapStr(maps, s string) string {
	if maps == "" {
		return s
	}
	return strings.Map(func(r rune) rune { return mapRune(maps, r) }, s)
}

func addMaps(a, b string) string {
	// composition of case maps: the last one wins for the maps modelled here
	if b == "" {
		return a
	}
	return b
}

func (s *State) normStr(x Str) Str { return s.normStrD(x, 0) }

func (s *State) normStrD(x Str, depth int) Str {
	if depth > 2000 {
		panic("strings bound in a circle")
	}
	need := false
	for _, p := range x.P {
		if p.Atom == 0 {
			continue
		}
		if a := s.info(p.Atom); a != nil && (a.Bind != nil || a.Lower != 0 && p.Maps != "") {
			need = true
		}
	}
	if !need {
		return x
	}
	out := Str{}
	for _, p := range x.P {
		if p.Atom == 0 {
			out = catStr(out, Str{P: []SPart{p}})
			continue
		}
		a := s.info(p.Atom)
		if a != nil && a.Bind != nil {
			b := s.normStrD(a.Bind.(Str), depth+1)
			for _, q := range b.P {
				if q.Atom == 0 {
					out = catStr(out, cstr(mapStr(p.Maps, q.C)))
				} else {
					out = catStr(out, s.normStrD(Str{P: []SPart{{Atom: q.Atom, Maps: addMaps(q.Maps, p.Maps)}}}, depth+1))
				}
			}
			continue
		}
		if a != nil && a.Lower != 0 && p.Maps != "" {
			out = catStr(out, s.normStrD(Str{P: []SPart{{Atom: a.Lower, Maps: p.Maps}}}, depth+1))
			continue
		}
		out = catStr(out, Str{P: []SPart{p}})
	}
	return out
}

func (s *State) normInt(x Int) Int {
	need := false
	for _, t := range x.T {
		if a := s.info(t.ID); a != nil && (len(a.R) == 1 && a.R[0].Lo == a.R[0].Hi || a.Bind != nil) {
			need = true
		}
	}
	if !need {
		return x
	}
	out := Int{C: x.C, Src: x.Src}
	for _, t := range x.T {
		a := s.info(t.ID)
		if a != nil && a.Bind != nil {
			if b, ok := a.Bind.(Int); ok {
				out = linAdd(out, s.normInt(b), t.Coef)
				continue
			}
		}
		if a != nil && len(a.R) == 1 && a.R[0].Lo == a.R[0].Hi {
			out.C += t.Coef * a.R[0].Lo
			continue
		}
		out = linAdd(out, Int{T: []LTerm{{t.ID, 1}}}, t.Coef)
	}
	out.Src = x.Src
	return out
}

// ---------------------------------------------------------------------------
// canonical form

type canon struct {
	e      *Engine
	s      *State
	num    map[ID]int
	order  []ID
	b      []byte
	q      []ID
	facts  []Fact
	noAtom bool
}

func (c *canon) w(s string) { c.b = append(c.b, s...) }
func (c *canon) wi(i int64) { c.b = appendInt(c.b, i) }

func appendInt(b []byte, i int64) []byte {
	if i < 0 {
		b = append(b, '-')
		i = -i
	}
	var t [24]byte
	n := len(t)
	for {
		n--
		t[n] = byte('0' + i%10)
		i /= 10
		if i == 0 {
			break
		}
	}
	return append(b, t[n:]...)
}

func (c *canon) atom(id ID) {
	d := c.e.decl(id)
	if d.Name != "" {
		c.w("N")
		c.wi(int64(id))
	} else {
		c.w("a")
	}
	if n, ok := c.num[id]; ok {
		if d.Name == "" {
			c.wi(int64(n))
		}
		return
	}
	n := len(c.order)
	c.num[id] = n
	c.order = append(c.order, id)
	if d.Name == "" {
		c.wi(int64(n))
	}
	if as, ok := c.e.assoc[id]; ok {
		c.w("~")
		c.w(as.Kind)
		c.wi(int64(as.Idx))
		c.atom(as.Atom)
		if as.Kind == "strlen" || as.Kind == "char" {
			return
		}
	}
	a := c.s.info(id)
	if a == nil {
		return
	}
	c.w("{")
	if len(a.Lits) > 0 {
		ks := make([]string, len(a.Lits))
		for i, l := range a.Lits {
			ks[i] = l.key()
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.w(k)
			c.w(";")
		}
	}
	if a.R != nil {
		c.w("r")
		for _, r := range a.R {
			c.wi(r.Lo)
			c.w(":")
			c.wi(r.Hi)
			c.w(",")
		}
	}
	if a.NonNil {
		c.w("!")
	}
	if a.Deep {
		c.w("D")
	}
	if a.Tmpl != nil {
		c.w("T" + a.Tmpl.Name)
	}
	if a.Lower != 0 {
		c.w("L")
		c.atom(a.Lower)
	}
	c.w("}")
}

func (c *canon) objRef(id ID) {
	o := c.e.obj(c.s, id)
	if o == nil {
		c.w("?")
		return
	}
	_, overlay := c.s.heap[id]
	if !overlay {
		c.w("B")
		c.wi(int64(id))
		return
	}
	if o.Name != "" || c.e.isBase(id) {
		c.w("O")
		c.wi(int64(id))
	} else {
		c.w("o")
	}
	n, ok := c.num[id]
	if !ok {
		n = len(c.order)
		c.num[id] = n
		c.order = append(c.order, id)
		c.q = append(c.q, id)
	}
	if o.Name == "" {
		c.wi(int64(n))
	}
}

func (c *canon) val(v Value) {
	v = c.s.resolve(v)
	switch x := v.(type) {
	case nil:
		c.w("_")
	case Nil:
		c.w("nil")
	case Bool:
		if x {
			c.w("T")
		} else {
			c.w("F")
		}
	case BAtom:
		if x.Neg {
			c.w("!")
		}
		c.w("b")
		c.atom(x.ID)
	case Int:
		c.w("i")
		c.wi(x.C)
		// order terms canonically: numbered ones first, in number order
		ts := append([]LTerm(nil), x.T...)
		sort.SliceStable(ts, func(i, j int) bool {
			a, oka := c.num[ts[i].ID]
			b, okb := c.num[ts[j].ID]
			if oka != okb {
				return oka
			}
			if oka {
				return a < b
			}
			return ts[i].ID < ts[j].ID
		})
		for _, t := range ts {
			c.w("+")
			if t.Coef != 1 {
				c.wi(t.Coef)
			}
			c.atom(t.ID)
		}
		if x.Src != 0 {
			c.w("@")
			c.objRef(x.Src)
		}
	case Zone:
		c.w("z")
		c.objRef(x.Obj)
		c.atom(x.Seg)
	case Str:
		c.w("s")
		for _, p := range x.P {
			if p.Atom == 0 {
				c.w("\"")
				c.wi(int64(len(p.C)))
				c.w(":")
				c.w(p.C)
			} else {
				c.w("<")
				c.w(p.Maps)
				c.atom(p.Atom)
			}
		}
	case Ptr:
		c.w("p")
		c.objRef(x.Obj)
		c.path(x)
	case Unk:
		c.w("u")
		c.typ(x.T)
		c.atom(x.ID)
	case Slice:
		c.w("[")
		c.objRef(x.Obj)
	case Map:
		c.w("m")
		c.objRef(x.Obj)
	case Chan:
		c.w("c")
		c.objRef(x.Obj)
	case Iter:
		c.w("I")
		c.objRef(x.Obj)
	case Func:
		c.w("f")
		c.w(c.e.fnID(x.Fn))
		c.w("(")
		for _, b := range x.Bind {
			c.val(b)
			c.w(",")
		}
		c.w(")")
	case BuiltinFn:
		c.w("bi" + x.B.Name())
	case Iface:
		c.w("if")
		c.typ(x.T)
		c.val(x.V)
	case Struct:
		c.w("{")
		for _, f := range x.F {
			c.val(f)
			c.w(",")
		}
		c.w("}")
	case Array:
		c.w("A{")
		for _, f := range x.E {
			c.val(f)
			c.w(",")
		}
		c.w("}")
	case Tuple:
		c.w("t(")
		for _, f := range x {
			c.val(f)
			c.w(",")
		}
		c.w(")")
	case Fresh:
		c.w("*")
		c.typ(x.T)
		if x.NonNil {
			c.w("!")
		}
		if x.Deep {
			c.w("D")
		}
		if x.Tmpl != nil {
			c.w("T" + x.Tmpl.Name)
		}
		for _, l := range x.Lits {
			c.w("l" + l.key())
		}
		for _, n := range x.Not {
			c.w("~")
			c.val(n)
		}
	case Opaque:
		c.w("?")
	case VSet:
		c.w("V(")
		for _, f := range x {
			c.val(f)
			c.w("|")
		}
		c.w(")")
	default:
		panic(fmt.Sprintf("canon: %T", v))
	}
}

func (c *canon) path(x Ptr) {
	if x.Path == "" {
		return
	}
	o := c.e.obj(c.s, x.Obj)
	elems := pathElems(x.Path)
	for i, el := range elems {
		c.w(".")
		if i == 0 && o != nil && o.Kind == OSeq {
			if _, overlay := c.s.heap[x.Obj]; overlay {
				c.atom(ID(el))
			} else {
				c.wi(int64(el))
			}
			continue
		}
		c.wi(int64(el))
	}
}

func (c *canon) typ(t types.Type) {
	if t == nil {
		c.w("0")
		return
	}
	c.w(c.e.typeID(t))
}

func (c *canon) drain() {
	for len(c.q) > 0 {
		id := c.q[0]
		c.q = c.q[1:]
		o := c.s.heap[id]
		c.w("\n#")
		c.wi(int64(c.num[id]))
		c.w([]string{"C", "S", "M", "I", "H", "X"}[o.Kind])
		c.typ(o.T)
		if o.Name != "" {
			c.w(":" + o.Name)
		}
		if o.Tmpl != nil {
			c.w("T" + o.Tmpl.Name)
		}
		if o.Blur {
			c.w("~")
		}
		if o.Deep {
			c.w("D")
		}
		switch o.Kind {
		case OCell:
			c.val(o.V)
		case OSeq:
			if o.V != nil {
				c.w("V")
				c.val(o.V)
			}
			if o.Over != nil {
				c.w("P")
				c.val(o.Over)
			}
			for _, sg := range o.Segs {
				if sg.Star {
					c.w("*")
				}
				c.atom(sg.UID)
				c.w("=")
				c.val(sg.V)
				c.w(";")
			}
		case OMap:
			for _, en := range o.Ents {
				c.val(en.K)
				c.w(">")
				c.val(en.V)
				if en.Must {
					c.w("!")
				}
				if en.Absent {
					c.w("-")
				}
				c.w(";")
			}
			if o.Rest != nil {
				c.w("R")
				c.val(o.Rest)
				if o.RestK != nil {
					c.w("K")
					c.val(o.RestK)
				}
			}
		case OIter:
			c.val(o.Over)
			if o.Pos != nil {
				c.val(o.Pos)
			}
			if o.V != nil {
				c.val(o.V)
			}
			c.w(o.Tag)
			for _, d := range o.Done {
				if d {
					c.w("1")
				} else {
					c.w("0")
				}
			}
		case OChan:
			for _, sg := range o.Segs {
				if sg.Star {
					c.w("*")
				}
				c.val(sg.V)
				c.w(";")
			}
			if o.Closed {
				c.w("closed")
			}
		case OOpaque:
			c.w(o.Tag)
			if o.V != nil {
				c.val(o.V)
			}
		}
		if o.Closed && o.Kind != OChan {
			c.w("!")
		}
	}
}

func (c *canon) finish() {
	// skolems that something known differs from
	var named []ID
	for _, f := range c.s.facts {
		if f.P != nil || f.Val {
			continue
		}
		a, b := c.s.normStr(f.A), c.s.normStr(f.B)
		if len(a.P) != 1 || len(b.P) != 1 {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := a.P[0].Atom, b.P[0].Atom
			_, k1 := c.num[x]
			_, k2 := c.num[y]
			if x != 0 && y != 0 && k1 && !k2 && c.e.decl(x).Name == "" && c.e.decl(y).Name != "" {
				named = append(named, y)
			}
			a, b = b, a
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i] < named[j] })
	for _, id := range named {
		if _, ok := c.num[id]; !ok {
			c.atom(id)
		}
	}
	// facts whose atoms are all known
	for _, f := range c.s.facts {
		a := c.s.normStr(f.A)
		ok := c.known(a)
		b := Str{}
		if f.P == nil {
			b = c.s.normStr(f.B)
			ok = ok && c.known(b)
		}
		if !ok {
			continue
		}
		if _, isC := a.Const(); isC && f.P != nil {
			continue
		}
		c.facts = append(c.facts, Fact{a, b, f.P, f.Val})
	}
	if len(c.facts) > 1 {
		seen := map[string]bool{}
		out := c.facts[:0]
		for _, f := range c.facts {
			x, y := f.A.raw(), f.B.raw()
			if f.P == nil && x > y {
				x, y = y, x
			}
			k := fmt.Sprintf("%s|%s|%p|%v", x, y, f.P, f.Val)
			if !seen[k] {
				seen[k] = true
				out = append(out, f)
			}
		}
		c.facts = out
	}
	if len(c.facts) > 0 {
		var ks []string
		save := c.b
		for _, f := range c.facts {
			c.b = nil
			c.val(f.A)
			if f.P != nil {
				c.w("~" + f.P.Src)
			} else {
				c.w("==")
				c.val(f.B)
			}
			if f.Val {
				c.w("T")
			} else {
				c.w("F")
			}
			ks = append(ks, string(c.b))
		}
		c.b = save
		sort.Strings(ks)
		c.w("\nF" + strings.Join(ks, "&"))
	}
	if len(c.s.mon) > 0 {
		var ks []string
		for k, v := range c.s.mon {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		c.w("\nM" + strings.Join(ks, "&"))
	}
}

func (c *canon) known(s Str) bool {
	for _, p := range s.P {
		if p.Atom != 0 {
			if _, ok := c.num[p.Atom]; !ok {
				return false
			}
		}
	}
	return true
}

// roots adds the changed base objects.
func (c *canon) baseRoots() {
	var ids []ID
	for id, o := range c.s.heap {
		if c.e.isBase(id) || c.e.initMode && o.Name != "" {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		c.objRef(id)
	}
}

// prune drops everything that was not reached.
func (c *canon) prune(s *State) {
	for id := range s.heap {
		if _, ok := c.num[id]; !ok {
			if c.e.Hooks.OnLost != nil {
				c.e.Hooks.OnLost(c.e, s.heap[id])
			}
			delete(s.heap, id)
		}
	}
	for id, a := range s.at {
		if _, ok := c.num[id]; !ok {
			if a.Bind != nil && c.e.decl(id).Name != "" {
				continue // keep bindings of skolems for reporting
			}
			delete(s.at, id)
		}
	}
	s.facts = c.facts
}

// substAll replaces every bound atom by its value so that bindings can be
// dropped.
func (s *State) flatten() {
	for i, v := range s.regs {
		if v != nil {
			s.regs[i] = s.deepResolve(v)
		}
	}
	for i := range s.defers {
		d := &s.defers[i]
		d.fn = s.deepResolve(d.fn)
		args := make([]Value, len(d.args))
		for j, a := range d.args {
			args[j] = s.deepResolve(a)
		}
		d.args = args
	}
	for id, o := range s.heap {
		s.heap[id] = s.flattenObj(o)
	}
	for i, f := range s.facts {
		f.A = s.normStr(f.A)
		f.B = s.normStr(f.B)
		s.facts[i] = f
	}
}

func (s *State) hasBind() bool {
	for _, a := range s.at {
		if a.Bind != nil {
			return true
		}
	}
	return false
}

func (s *State) flattenObj(o *Obj) *Obj {
	return mapObj(o, func(v Value) Value { return s.deepResolve(v) }, nil)
}

func (s *State) deepResolve(v Value) Value {
	return mapValue(v, func(x Value) Value { return s.resolve(x) })
}

// mapValue applies f to every node (pre-order), then to the children.
func mapValue(v Value, f func(Value) Value) Value {
	if v == nil {
		return nil
	}
	v = f(v)
	switch x := v.(type) {
	case Func:
		if len(x.Bind) == 0 {
			return x
		}
		return Func{x.Fn, mapValues(x.Bind, f)}
	case Iface:
		return Iface{x.T, mapValue(x.V, f)}
	case Struct:
		return Struct{x.T, mapValues(x.F, f)}
	case Array:
		return Array{x.T, mapValues(x.E, f)}
	case Tuple:
		return Tuple(mapValues(x, f))
	case VSet:
		return VSet(mapValues(x, f))
	case Fresh:
		if len(x.Not) > 0 {
			x.Not = mapValues(x.Not, f)
			return x
		}
	}
	return v
}

func mapValues(vs []Value, f func(Value) Value) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = mapValue(v, f)
	}
	return out
}

func mapObj(o *Obj, f func(Value) Value, idf func(ID) ID) *Obj {
	n := *o
	if o.V != nil {
		n.V = mapValue(o.V, f)
	}
	if o.Segs != nil {
		n.Segs = make([]Seg, len(o.Segs))
		for i, sg := range o.Segs {
			sg.V = mapValue(sg.V, f)
			if idf != nil {
				sg.UID = idf(sg.UID)
			}
			n.Segs[i] = sg
		}
	}
	if o.Ents != nil {
		n.Ents = make([]MapEnt, len(o.Ents))
		for i, en := range o.Ents {
			en.K = mapValue(en.K, f)
			en.V = mapValue(en.V, f)
			n.Ents[i] = en
		}
	}
	if o.Rest != nil {
		n.Rest = mapValue(o.Rest, f)
	}
	if o.RestK != nil {
		n.RestK = mapValue(o.RestK, f)
	}
	if o.Over != nil {
		n.Over = mapValue(o.Over, f)
	}
	if o.Pos != nil {
		n.Pos = mapValue(o.Pos, f)
	}
	return &n
}

// renameValue applies an ID renaming.
func renameValue(e *Engine, v Value, r func(ID) ID, st *State) Value {
	return mapValue(v, func(x Value) Value {
		switch y := x.(type) {
		case BAtom:
			return BAtom{r(y.ID), y.Neg}
		case Int:
			if len(y.T) == 0 && y.Src == 0 {
				return y
			}
			out := Int{C: y.C}
			for _, t := range y.T {
				out.T = append(out.T, LTerm{r(t.ID), t.Coef})
			}
			sort.Slice(out.T, func(i, j int) bool { return out.T[i].ID < out.T[j].ID })
			if y.Src != 0 {
				out.Src = r(y.Src)
			}
			return out
		case Zone:
			return Zone{r(y.Obj), r(y.Seg)}
		case Str:
			return renameStr(y, r)
		case Ptr:
			o := e.obj(st, y.Obj)
			p := y.Path
			if p != "" && o != nil && o.Kind == OSeq {
				el := pathElems(p)
				np := pathEl(int32(r(ID(el[0]))))
				p = np + p[4:]
			}
			return Ptr{r(y.Obj), p}
		case Unk:
			return Unk{r(y.ID), y.T}
		case Slice:
			return Slice{r(y.Obj)}
		case Map:
			return Map{r(y.Obj)}
		case Chan:
			return Chan{r(y.Obj)}
		case Iter:
			return Iter{r(y.Obj)}
		}
		return x
	})
}

func renameStr(y Str, r func(ID) ID) Str {
	has := false
	for _, p := range y.P {
		if p.Atom != 0 {
			has = true
		}
	}
	if !has {
		return y
	}
	out := Str{P: make([]SPart, len(y.P))}
	for i, p := range y.P {
		if p.Atom != 0 {
			p.Atom = r(p.Atom)
		}
		out.P[i] = p
	}
	return out
}

func pathEl(i int32) string {
	return string([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)})
}

func pathElems(p string) []int32 {
	var out []int32
	for i := 0; i+4 <= len(p); i += 4 {
		out = append(out, int32(p[i])|int32(p[i+1])<<8|int32(p[i+2])<<16|int32(p[i+3])<<24)
	}
	return out
}
