package ai

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ID int32

type Value interface{}

type (
	// Nil is the nil pointer, slice, map, func, channel or interface.
	Nil struct{}
	// Bool is a known truth value.
	Bool bool
	// BAtom is an unknown but fixed truth value.
	BAtom struct {
		ID  ID
		Neg bool
	}
	// Int is a linear expression over integer atoms.
	Int struct {
		C   int64
		T   []LTerm
		Src ID // for lengths: the sequence measured
	}
	// Zone is an index somewhere inside a star segment of a sequence.
	Zone struct {
		Obj ID
		Seg ID
	}
	// Str is a concatenation of constants and symbolic strings.
	Str struct{ P []SPart }
	// Ptr is a pointer to (a part of) an object.
	Ptr struct {
		Obj  ID
		Path string
	}
	// Unk is an unknown but fixed reference value.
	Unk struct {
		ID ID
		T  types.Type
	}
	Slice struct{ Obj ID }
	Map   struct{ Obj ID }
	Chan  struct{ Obj ID }
	Iter  struct{ Obj ID }
	Func  struct {
		Fn   *ssa.Function
		Bind []Value
	}
	BuiltinFn struct{ B *ssa.Builtin }
	Iface     struct {
		T types.Type
		V Value
	}
	Struct struct {
		T types.Type
		F []Value
	}
	Array struct {
		T types.Type
		E []Value
	}
	Tuple []Value
	// Fresh stands for content that is unknown and not looked at yet.
	Fresh struct {
		T      types.Type
		NonNil bool
		Deep   bool    // pointers inside containers are not nil either
		Not    []Value // strings it differs from
		Lits   []Lit   // what is known about the string
		Tmpl   *Tmpl   // what is known about the fields behind a pointer
	}
	// Opaque is an untracked scalar.
	Opaque struct{ T types.Type }
	// VSet is one of several values.
	VSet []Value
)

// Tmpl is what is known about the struct behind every pointer of a kind.
type Tmpl struct {
	Name string
	F    map[string]Value
}

func (t *Tmpl) name() string {
	if t == nil {
		return ""
	}
	return t.Name
}

// merged marks the result of merging elements of which different things are
// known: what the analysis finds out about it is no evidence of a violation.
var merged = &Tmpl{Name: "?merged"}

// isMerged tells whether a template is the result of merging elements.
func (t *Tmpl) isMerged() bool { return t != nil && strings.HasPrefix(t.Name, "?merged") }

type LTerm struct {
	ID   ID
	Coef int64
}

type SPart struct {
	C    string
	Atom ID // 0: constant
	Maps string
}

type Rng struct{ Lo, Hi int64 }

const (
	MinI = math.MinInt64 / 4
	MaxI = math.MaxInt64 / 4
)

// AInfo is what is known about an atom in a state.
type AInfo struct {
	Lits   []Lit // strings
	R      []Rng // integers; nil means unconstrained
	Bind   Value // resolved value
	NonNil bool
	Deep   bool
	Tmpl   *Tmpl
	Lower  ID // representative for the case-folded value
}

// AtomDecl is the static description of an atom.
type AtomDecl struct {
	Kind  byte // 's','i','b','u'
	T     types.Type
	Name  string // skolem name, "" for anonymous
	Wide  bool   // a widened loop counter
	Loose bool   // a length that is not worth tracking
}

type Seg struct {
	UID  ID
	Star bool
	V    Value
}

type MapEnt struct {
	K, V   Value
	Must   bool // definitely present
	Absent bool // definitely absent (only meaningful with a rest)
}

type ObjKind byte

const (
	OCell ObjKind = iota
	OSeq
	OMap
	OIter
	OChan
	OOpaque
)

type Obj struct {
	Kind  ObjKind
	T     types.Type // cell: content type; seq: element type; map: map type
	V     Value      // cell content
	Segs  []Seg
	Ents  []MapEnt
	Rest  Value // map: content of unknown other entries, nil if none
	RestK Value // map: keys of the unknown other entries
	KeyT  types.Type

	Name  string // skolem object
	Input bool   // exists before the analysed call
	Focus bool   // focusable sequence
	Tmpl  *Tmpl  // what was known of its content at first
	Deep  bool
	Blur  bool // was merged with others, which keep what its strings were

	// iterators
	Over Value
	Done []bool
	Pos  Value

	Closed bool
	Data   any    // opaque model data
	Tag    string // description of opaque data, part of the state key
}

func cstr(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{P: []SPart{{C: s}}}
}

func cint(i int64) Int { return Int{C: i} }

func (s Str) Const() (string, bool) {
	switch len(s.P) {
	case 0:
		return "", true
	case 1:
		if s.P[0].Atom == 0 {
			return s.P[0].C, true
		}
	}
	return "", false
}

func catStr(a, b Str) Str {
	if len(a.P) == 0 {
		return b
	}
	if len(b.P) == 0 {
		return a
	}
	out := append([]SPart{}, a.P...)
	for _, p := range b.P {
		if n := len(out); p.Atom == 0 && out[n-1].Atom == 0 {
			out[n-1] = SPart{C: out[n-1].C + p.C}
			continue
		}
		out = append(out, p)
	}
	return Str{P: out}
}

func (s Str) raw() string {
	var b strings.Builder
	for _, p := range s.P {
		if p.Atom == 0 {
			fmt.Fprintf(&b, "%q", p.C)
		} else {
			fmt.Fprintf(&b, "<%s%d>", p.Maps, p.Atom)
		}
	}
	return b.String()
}

func linAdd(a, b Int, k int64) Int {
	m := map[ID]int64{}
	for _, t := range a.T {
		m[t.ID] += t.Coef
	}
	for _, t := range b.T {
		m[t.ID] += k * t.Coef
	}
	out := Int{C: a.C + k*b.C}
	for id, c := range m {
		if c != 0 {
			out.T = append(out.T, LTerm{id, c})
		}
	}
	sort.Slice(out.T, func(i, j int) bool { return out.T[i].ID < out.T[j].ID })
	return out
}

func (a Int) isConst() bool { return len(a.T) == 0 }

func atomInt(id ID) Int { return Int{T: []LTerm{{id, 1}}} }

// range sets -----------------------------------------------------------------

func rInter(a, b []Rng) []Rng {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := []Rng{}
	for _, x := range a {
		for _, y := range b {
			lo, hi := max(x.Lo, y.Lo), min(x.Hi, y.Hi)
			if lo <= hi {
				out = append(out, Rng{lo, hi})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Lo < out[j].Lo })
	return out
}

func rHull(a []Rng) Rng {
	if len(a) == 0 {
		return Rng{MinI, MaxI}
	}
	h := a[0]
	for _, r := range a {
		h.Lo, h.Hi = min(h.Lo, r.Lo), max(h.Hi, r.Hi)
	}
	return h
}

func rNot(v int64) []Rng { return []Rng{{MinI, v - 1}, {v + 1, MaxI}} }

func isNil(v Value) bool { _, ok := v.(Nil); return ok }
