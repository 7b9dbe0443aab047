package ai

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// B builds the initial state of a scenario.
type B struct {
	E    *Engine
	St   *State
	P    *Program
	Vars map[string]Value // named parts of the scenario
	Deep bool             // what is arbitrary has no null in its lists
}

func NewB(p *Program) *B {
	e := NewEngine(p)
	return &B{E: e, P: p, St: &State{heap: map[ID]*Obj{}, at: map[ID]*AInfo{}}}
}

// Type finds a named type, e.g. Type("github.com/x/y", "T").
func (b *B) Type(pkg, name string) types.Type {
	k := b.P.Pkgs[pkg]
	if k == nil {
		panic(fmt.Sprintf("package %s not loaded", pkg))
	}
	o := k.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(Missing{pkg + "." + name})
	}
	return o.Type()
}

// Missing reports an anchor that does not exist any more.
type Missing struct{ What string }

func (m Missing) Error() string { return "not found: " + m.What }

// StrAtom is a symbolic string with a name, constrained by literals.
func (b *B) StrAtom(name string, lits ...Lit) Str {
	id := b.E.newID(AtomDecl{Kind: 's', T: types.Typ[types.String], Name: name})
	b.St.at[id] = &AInfo{Lits: lits}
	return Str{P: []SPart{{Atom: id}}}
}

func (b *B) IntAtom(name string, r ...Rng) Int {
	id := b.E.newID(AtomDecl{Kind: 'i', T: types.Typ[types.Int], Name: name})
	b.St.at[id] = &AInfo{R: r}
	return atomInt(id)
}

func (b *B) BoolAtom(name string) BAtom {
	return BAtom{ID: b.E.newID(AtomDecl{Kind: 'b', T: types.Typ[types.Bool], Name: name})}
}

// F are the known fields of a struct; all others are arbitrary.
type F map[string]Value

// Struct builds a struct value; unknown fields are arbitrary.
func (b *B) Struct(t types.Type, f F) Struct { return b.structOf(t, f, false) }

// ZStruct builds a struct value; fields not given are zero.
func (b *B) ZStruct(t types.Type, f F) Struct { return b.structOf(t, f, true) }

func (b *B) structOf(t types.Type, f F, zero bool) Struct {
	u := t.Underlying().(*types.Struct)
	s := Struct{T: t, F: make([]Value, u.NumFields())}
	used := 0
	for i := range s.F {
		ft := u.Field(i).Type()
		switch {
		case f[u.Field(i).Name()] != nil:
			s.F[i] = f[u.Field(i).Name()]
			used++
		case zero:
			s.F[i] = b.E.zero(ft)
		default:
			s.F[i] = Fresh{T: ft, Deep: b.Deep}
		}
	}
	// promoted fields of embedded structs
	if used < len(f) {
		for i := range s.F {
			if !u.Field(i).Embedded() {
				continue
			}
			es, ok := u.Field(i).Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			sub := F{}
			for j := 0; j < es.NumFields(); j++ {
				if v, ok := f[es.Field(j).Name()]; ok {
					sub[es.Field(j).Name()] = v
				}
			}
			if len(sub) > 0 {
				s.F[i] = b.structOf(u.Field(i).Type(), sub, zero)
				used += len(sub)
			}
		}
	}
	if used < len(f) {
		for n := range f {
			if !hasField(u, n) {
				panic(Missing{t.String() + "." + n})
			}
		}
	}
	return s
}

func hasField(u *types.Struct, n string) bool {
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == n {
			return true
		}
		if u.Field(i).Embedded() {
			if es, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && hasField(es, n) {
				return true
			}
		}
	}
	return false
}

// New allocates a named input object and returns the pointer to it.
func (b *B) New(name string, v Value) Ptr {
	var t types.Type
	switch x := v.(type) {
	case Struct:
		t = x.T
	case Fresh:
		t = x.T
	}
	id := b.E.newObj(b.St, &Obj{Kind: OCell, T: t, V: v, Name: name, Input: true})
	return Ptr{Obj: id}
}

// Star marks any number of elements in Seq.
type Star struct{ V Value }

// Seq builds a slice; Star elements stand for any number of elements.
func (b *B) Seq(elem types.Type, vs ...Value) Slice {
	var segs []Seg
	for _, v := range vs {
		if s, ok := v.(Star); ok {
			uid := b.E.starLen(b.St, 0)
			b.E.decl(uid).Loose = true
			segs = append(segs, Seg{UID: uid, Star: true, V: s.V})
		} else {
			segs = append(segs, Seg{UID: b.E.singleUID(), V: v})
		}
	}
	return Slice{b.E.newObj(b.St, &Obj{Kind: OSeq, T: elem, Segs: segs, Input: true})}
}

// Any stands for arbitrary content.
func (b *B) Any(t types.Type) Fresh { return Fresh{T: t, Deep: b.Deep} }

// Others stands for any number of arbitrary elements.
func (b *B) Others(t types.Type) Star { return Star{elemFresh(t, b.Deep)} }

// MapOf builds a map with some known entries and, if rest is set, arbitrary others.
func (b *B) MapOf(t types.Type, rest Value, ents ...MapEnt) Map {
	m := t.Underlying().(*types.Map)
	return Map{b.E.newObj(b.St, &Obj{Kind: OMap, T: m.Elem(), KeyT: m.Key(), Ents: ents, Rest: rest, Input: true})}
}

func (b *B) Differ(x, y Str) { b.St.addFact(Fact{A: x, B: y}) }

// Method finds a method of a named type (pointer receivers included).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	k := p.Pkgs[pkg]
	if k == nil {
		return nil
	}
	o := k.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	return p.Prog.LookupMethod(types.NewPointer(o.Type()), k.Pkg, name)
}

func (p *Program) FuncOf(pkg, name string) *ssa.Function {
	k := p.Pkgs[pkg]
	if k == nil {
		return nil
	}
	return k.Func(name)
}

// ErrNil tells whether the error (last) result is known, and whether it is nil.
func (r *Result) ErrNil() (known, isnil bool) {
	v := r.Ret
	if t, ok := v.(Tuple); ok {
		v = t[len(t)-1]
	}
	switch x := r.St.resolve(v).(type) {
	case Nil:
		return true, true
	case Iface:
		return true, false
	case Unk:
		if a := r.St.info(x.ID); a != nil && a.NonNil {
			return true, false
		}
	}
	return false, false
}

// SameFold makes two symbolic strings equal up to letter case.
func (b *B) SameFold(x, y Str) {
	b.St.upd(x.P[0].Atom, func(a *AInfo) { a.Lower = y.P[0].Atom })
}

// CellOf is the content of a named cell in a state.
func (b *B) Cell(st *State, p Ptr) Value {
	o := b.E.obj(st, p.Obj)
	if o == nil {
		return nil
	}
	return st.deepResolve(o.V)
}

// CellsOf lists the values of a named type that the variables of a state hold.
func (b *B) CellsOf(st *State, typ string) []Value {
	var out []Value
	for _, o := range st.heap {
		if o == nil || o.Kind != OCell {
			continue
		}
		if s, ok := st.resolve(o.V).(Struct); ok {
			if n, ok := types.Unalias(s.T).(*types.Named); ok && n.Obj().Name() == typ {
				out = append(out, st.deepResolve(s))
			}
		}
	}
	return out
}

// FieldOf reads a (possibly promoted) field of a struct value.
func FieldOf(v Value, name string) Value {
	s, ok := v.(Struct)
	if !ok {
		return nil
	}
	u := s.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.F[i]
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if r := FieldOf(s.F[i], name); r != nil {
				return r
			}
		}
	}
	return nil
}

// Const is a known string.
func (b *B) Const(s string) Str { return cstr(s) }

// May tells whether a string can (not) match: the answer is true unless the
// state excludes it.
func (b *B) May(st *State, v Value, l Lit) bool {
	s, ok := st.resolve(v).(Str)
	if !ok {
		return true
	}
	for _, r := range b.E.decidePred(st.clone(), st.normStr(s), l.P, l.Maps) {
		if x, ok := r.v.(Bool); !ok || bool(x) != l.Neg {
			return true
		}
	}
	return false
}

// MaySameFold tells whether two strings can be equal up to letter case.
func (b *B) MaySameFold(st *State, x, y Value) bool {
	s, ok1 := st.resolve(x).(Str)
	t, ok2 := st.resolve(y).(Str)
	if !ok1 || !ok2 {
		return true
	}
	for _, r := range b.E.eqStr(st.clone(), st.normStr(mapCase(s, "l")), st.normStr(mapCase(t, "l"))) {
		if x, ok := r.v.(Bool); !ok || bool(x) {
			return true
		}
	}
	return false
}

// Cat concatenates strings.
func (b *B) Cat(parts ...Str) Str {
	var s Str
	for _, p := range parts {
		s = catStr(s, p)
	}
	return s
}

// Follow walks pointers and fields from a value.
func (b *B) Follow(st *State, v Value, fields ...string) Value {
	for _, f := range fields {
		v = FieldOf(v, f)
		if v == nil {
			return nil
		}
		v = st.resolve(v)
		if p, ok := v.(Ptr); ok && p.Path == "" {
			v = b.Cell(st, p)
		}
	}
	return v
}

// SetField changes a field of a scenario object.
func (b *B) SetField(p Ptr, field string, v Value) {
	o := *b.St.heap[p.Obj]
	s := o.V.(Struct)
	u := s.T.Underlying().(*types.Struct)
	f := append([]Value(nil), s.F...)
	for i := range f {
		if u.Field(i).Name() == field {
			f[i] = v
			o.V = Struct{T: s.T, F: f}
			b.St.heap[p.Obj] = &o
			return
		}
	}
	panic(Missing{s.T.String() + "." + field})
}

// SetCell changes the content of a named cell.
func (b *B) SetCell(p Ptr, v Value) {
	if p.Path != "" {
		panic("SetCell of a part of an object")
	}
	o := *b.St.heap[p.Obj]
	o.V = v
	b.St.heap[p.Obj] = &o
}

// Lower is a string in lower case; as something to differ from it stands for
// all spellings.
func (b *B) Lower(s Str) Str { return mapCase(s, "l") }

// DifferFold makes two symbolic strings differ in more than letter case.
func (b *B) DifferFold(x, y Str) {
	b.Differ(x, y)
	b.Differ(mapCase(x, "l"), mapCase(y, "l"))
}

// Chan is a closed channel that delivers the given values.
func (b *B) Chan(elem types.Type, vs ...Value) Chan {
	segs := make([]Seg, len(vs))
	for i, v := range vs {
		segs[i] = Seg{UID: b.E.singleUID(), V: v}
	}
	return Chan{b.E.newObj(b.St, &Obj{Kind: OChan, T: elem, Segs: segs, Closed: true})}
}

// IntConst is the value of an integer constant of the code.
func (b *B) IntConst(pkg, name string) Int {
	c := b.P.Pkgs[pkg].Const(name)
	if c == nil {
		panic(Missing{pkg + "." + name})
	}
	return cint(c.Value.Int64())
}

// Decl tells how an atom was introduced.
func (e *Engine) Decl(id ID) *AtomDecl { return e.decl(id) }

// Constrain repeats what is known of a named string; the state of a hook only
// knows the strings it has met.
func (b *B) Constrain(s Str, lits ...Lit) {
	if a := b.St.info(s.P[0].Atom); a == nil || len(a.Lits) == 0 {
		b.St.upd(s.P[0].Atom, func(a *AInfo) { a.Lits = lits })
	}
}
