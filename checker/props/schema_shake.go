package props

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// world builds resolved schemas: references point at their declarations.
type world struct {
	*doc
	n     int
	other map[string]Value // what is known about the other types
	lits  []Lit            // and about type names
}

func (w *world) kind(name string) Int {
	return Int{C: w.b.P.Pkgs[Schema].Const(name).Value.Int64()}
}

// to is a resolved reference to a declared type.
func (w *world) to(kind string, t Value, name Value) Ptr {
	part := w.b.Type(Schema, "Var"+kind+"Type")
	sub := w.part(w.b.ZStruct(part, F{"Name": name, "Type": t}))
	return w.vt(F{"Expr": name, "Type": w.kind("T_" + kind), kind: sub})
}

func (w *world) vt(f F) Ptr { return w.part(w.b.ZStruct(w.tVar, f)) }

func (w *world) core(name, kind string) Ptr {
	return w.vt(F{"Expr": w.b.Const(name), "Type": w.kind(kind)})
}

func (w *world) listOf(v Ptr) Ptr {
	l := w.part(w.b.ZStruct(w.b.Type(Schema, "VarListType"), F{"Elem": v}))
	return w.vt(F{"Expr": w.b.Cat(w.b.Const("[]"), w.b.StrAtom("elem")), "Type": w.kind("T_List"), "List": l})
}

func (w *world) mapOf(k, v Ptr) Ptr {
	m := w.part(w.b.ZStruct(w.b.Type(Schema, "VarMapType"), F{"Key": k, "Value": v}))
	return w.vt(F{"Expr": w.b.Cat(w.b.Const("map<"), w.b.StrAtom("key"), w.b.Const(",")), "Type": w.kind("T_Map"), "Map": m})
}

func (w *world) str() Ptr { return w.core("string", "T_String") }

// declared types
func (w *world) decl(kind, id string, f F) (Ptr, Str) {
	n := w.b.StrAtom(id, append([]Lit{isRe(`\A\p{Lu}`)}, w.lits...)...)
	g := F{"Kind": w.b.Const(kind), "Name": n, "Type": Nil{}, "Fields": Nil{}}
	if kind == "enum" {
		g["Fields"] = w.structWith()
	}
	for k, v := range f {
		g[k] = v
	}
	return w.b.New("type "+id, w.b.Struct(w.tType, g)), n
}

func (w *world) structWith(vs ...Value) Value {
	other := Star{V: Fresh{T: w.pField, NonNil: true, Tmpl: &Tmpl{Name: "plain field", F: map[string]Value{"Type": w.plain()}}}}
	fs := []Value{other}
	for _, v := range vs {
		fs = append(fs, w.part(w.b.Struct(w.tField, F{"Name": w.b.StrAtom("field"), "Type": v})), other)
	}
	return w.b.Seq(w.pField, fs...)
}

func (w *world) args(vs ...Value) Value {
	// among arguments of built-in types
	other := Star{V: Fresh{T: w.pArg, NonNil: true, Tmpl: &Tmpl{Name: "plain argument", F: map[string]Value{"Type": w.plain()}}}}
	as := []Value{other}
	for _, v := range vs {
		as = append(as, w.part(w.b.Struct(w.tArg, F{"Name": w.b.StrAtom("arg"), "Type": v})), other)
	}
	return w.b.Seq(w.pArg, as...)
}

func (w *world) method(in, out Value) Value {
	return w.part(w.b.Struct(w.tMeth, F{"Name": w.b.StrAtom("method"), "Inputs": in, "Outputs": out}))
}

func (w *world) service(name Value, ms ...Value) Value {
	// among methods without arguments
	other := Star{V: Fresh{T: w.pMeth, NonNil: true, Tmpl: &Tmpl{Name: "plain method", F: map[string]Value{"Inputs": Nil{}, "Outputs": Nil{}}}}}
	l := []Value{other}
	for _, m := range ms {
		l = append(l, m, other)
	}
	return w.part(w.b.Struct(w.tSvc, F{"Name": name, "Methods": w.b.Seq(w.pMeth, l...)}))
}

// set fills in the content of a declared type after the fact (for recursion).
func (w *world) set(p Ptr, field string, v Value) { w.b.SetField(p, field, v) }

type shake struct {
	name  string
	build func(w *world) (types, services, selected Value)
	kept  []string
	gone  []string
}

func (c *Ctx) shake(s shake) {
	c.Scenario(Scen{Name: s.name, Build: func(b *B) (*ssa.Function, []Value) {
		w := &world{doc: newDoc(b)}
		b.Vars = map[string]Value{}
		t, sv, sel := s.build(w)
		w.Types, w.Services = t, sv
		w.Errors = w.b.Seq(w.pErr, w.b.Others(w.pErr))
		b.E.AnonCap = 0
		onlyChanges(b, "WebRPCSchema.Types", "[]Type")
		return c.Core.FuncOf(Schema, "MethodTreeShake"), []Value{w.schema(), sel}
	}, Check: func(b *B, r *Result) string {
		if m := r.St.Mon("modified"); m != "" {
			return "MethodTreeShake changes " + m
		}
		p, ok := r.St.Resolve(r.Ret).(Ptr)
		if !ok {
			return "MethodTreeShake can return no schema"
		}
		list := FieldOf(b.Cell(r.St, p), "Types")
		last := -1
		for _, k := range s.kept {
			at, ok := occurrences(b, r.St, list, isPtr(b, r.St, b.Vars[k]))
			switch {
			case !ok:
				return "the list of types is unknown"
			case len(at) == 0:
				return "a type that a selected service needs can be removed (" + s.name + ", " + k + ")"
			case len(at) > 1:
				return "a type can be repeated (" + k + ")"
			case at[0] < last:
				return "types can be reordered"
			}
			last = at[0]
		}
		for _, k := range s.gone {
			at, ok := occurrences(b, r.St, list, isPtr(b, r.St, b.Vars[k]))
			if !ok || len(at) > 0 {
				return "a type that no selected service needs can be kept (" + s.name + ", " + k + ")"
			}
		}
		return ""
	}, Out: func(b *B, o *Outcome) string {
		return "MethodTreeShake can end in a " + o.Kind + ": " + o.Msg
	}, Done: func(b *B, rs []*Result) string {
		if len(rs) == 0 {
			return "MethodTreeShake does not end (" + s.name + ")"
		}
		return ""
	}})
}

func init() {
	register("C15", func(c *Ctx) {
		c.Rule("Resolved schemas with skolem types X, Y, Z that a selected (or only an unselected) service reaches through every form of reference, among arbitrarily many other types, are propagated through MethodTreeShake; in every abstract result the reachable types occur exactly once and in order, the unreachable ones do not, and nothing but the type list was stored to.")
		type form struct {
			name string
			kind string // of X
			f    func(w *world, x Ptr, n Str) Ptr
		}
		kinds := map[string]string{"struct": "Struct", "enum": "Enum", "alias": "Alias"}
		mk := func(w *world, kind, id string) (Ptr, Str) {
			switch kind {
			case "enum":
				return w.decl("enum", id, F{"Type": w.core("uint32", "T_Uint32")})
			case "alias":
				return w.decl("alias", id, F{"Type": w.str()})
			}
			return w.decl("struct", id, F{"Fields": w.structWith(w.str())})
		}
		var forms []form
		for _, k := range []string{"struct", "enum", "alias"} {
			k := k
			forms = append(forms,
				form{"direct-" + k, k, func(w *world, x Ptr, n Str) Ptr { return w.to(kinds[k], x, n) }},
				form{"list-" + k, k, func(w *world, x Ptr, n Str) Ptr { return w.listOf(w.to(kinds[k], x, n)) }},
				form{"map-value-" + k, k, func(w *world, x Ptr, n Str) Ptr { return w.mapOf(w.str(), w.to(kinds[k], x, n)) }},
				form{"list-list-" + k, k, func(w *world, x Ptr, n Str) Ptr { return w.listOf(w.listOf(w.to(kinds[k], x, n))) }},
				form{"map-list-" + k, k, func(w *world, x Ptr, n Str) Ptr {
					return w.mapOf(w.str(), w.listOf(w.mapOf(w.str(), w.to(kinds[k], x, n))))
				}})
		}
		forms = append(forms,
			form{"map-key-enum", "enum", func(w *world, x Ptr, n Str) Ptr { return w.mapOf(w.to("Enum", x, n), w.str()) }},
			form{"map-key-alias", "alias", func(w *world, x Ptr, n Str) Ptr { return w.mapOf(w.to("Alias", x, n), w.listOf(w.str())) }})
		// how the reference is reached from the method
		via := []struct {
			name string
			f    func(w *world, v Ptr) (Ptr, []Value) // the type of the argument and further declared types
			kept []string
		}{
			{"method", func(w *world, v Ptr) (Ptr, []Value) { return v, nil }, nil},
			{"field", func(w *world, v Ptr) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.str(), v, w.str())})
				w.b.Vars["Y"] = y
				return w.to("Struct", y, n), []Value{y}
			}, []string{"Y"}},
			{"alias", func(w *world, v Ptr) (Ptr, []Value) {
				y, n := w.decl("alias", "Y", F{"Type": v})
				w.b.Vars["Y"] = y
				return w.to("Alias", y, n), []Value{y}
			}, []string{"Y"}},
			{"list-of-struct", func(w *world, v Ptr) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(v)})
				w.b.Vars["Y"] = y
				return w.listOf(w.to("Struct", y, n)), []Value{y}
			}, []string{"Y"}},
			{"recursive-struct", func(w *world, v Ptr) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("struct", "Z", nil)
				w.set(y, "Fields", w.structWith(w.listOf(w.to("Struct", y, n)), w.to("Struct", z, m)))
				w.set(z, "Fields", w.structWith(w.mapOf(w.str(), w.to("Struct", y, n)), v))
				w.b.Vars["Y"], w.b.Vars["Z"] = y, z
				return w.to("Struct", y, n), []Value{y, z}
			}, []string{"Y", "Z"}},
			{"self-recursive-struct", func(w *world, v Ptr) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", nil)
				w.set(y, "Fields", w.structWith(w.to("Struct", y, n), w.listOf(w.to("Struct", y, n)), v, w.to("Struct", y, n)))
				w.b.Vars["Y"] = y
				return w.to("Struct", y, n), []Value{y}
			}, []string{"Y"}},
			{"alias-of-alias", func(w *world, v Ptr) (Ptr, []Value) {
				z, m := w.decl("alias", "Z", F{"Type": v})
				y, n := w.decl("alias", "Y", F{"Type": w.listOf(w.to("Alias", z, m))})
				w.b.Vars["Y"], w.b.Vars["Z"] = y, z
				return w.mapOf(w.str(), w.to("Alias", y, n)), []Value{y, z}
			}, []string{"Y", "Z"}},
		}
		for _, fm := range forms {
			for _, v := range via {
				for _, where := range []string{"in", "out"} {
					if where == "out" && v.name != "method" && !(fm.kind == "enum" && v.name == "field") {
						continue
					}
					c.shake(shake{name: "keeps-" + fm.name + "-via-" + v.name + "-" + where, kept: append([]string{"X"}, v.kept...), build: func(w *world) (Value, Value, Value) {
						x, n := mk(w, fm.kind, "X")
						w.b.Vars["X"] = x
						t, more := v.f(w, fm.f(w, x, n))
						in, out := w.args(w.str(), t), w.args(w.str())
						if where == "out" {
							in, out = w.args(w.str()), w.args(w.str(), t)
						}
						s, u := w.b.StrAtom("S"), w.b.StrAtom("U")
						w.b.Differ(s, u)
						return w.types(append([]Value{x}, more...)), w.services(w.service(u, w.method(w.args(), w.args(t))), w.service(s, w.method(w.args(), w.args()), w.method(in, out))), w.b.Seq(tString, s)
					}})
				}
			}
		}
		// after and before something else was reached, more than once
		for _, fm := range forms {
			for _, where := range []string{"args", "outs", "fields", "methods", "services", "unselected"} {
				c.shake(shake{name: "keeps-" + fm.name + "-among-" + where, kept: []string{"O", "X"}, build: func(w *world) (Value, Value, Value) {
					x, n := mk(w, fm.kind, "X")
					ot, on := w.decl("struct", "O", F{"Fields": w.structWith(w.str())})
					w.b.Vars["X"], w.b.Vars["O"] = x, ot
					o := func() Value { return w.to("Struct", ot, on) }
					ref := func() Value { return fm.f(w, x, n) }
					s, u := w.b.StrAtom("S"), w.b.StrAtom("U")
					w.b.Differ(s, u)
					decls := []Value{ot, x}
					sel := []Value{s}
					var svcs []Value
					m := func(in, out Value) Value { return w.method(in, out) }
					switch where {
					case "args":
						svcs = []Value{w.service(s, m(w.args(o(), o(), ref(), o()), w.args(o())))}
					case "outs":
						svcs = []Value{w.service(s, m(w.args(o()), w.args(o(), ref(), o())))}
					case "fields":
						y, k := w.decl("struct", "Y", F{"Fields": w.structWith(o(), o(), ref(), o())})
						decls = []Value{y, ot, x}
						svcs = []Value{w.service(s, m(w.args(w.to("Struct", y, k)), w.args()))}
					case "methods":
						svcs = []Value{w.service(s, m(w.args(o()), w.args(o())), m(w.args(o()), w.args(o(), ref())), m(w.args(), w.args(o())))}
					case "services":
						a, b := w.b.StrAtom("A"), w.b.StrAtom("B")
						w.b.Differ(a, s)
						w.b.Differ(b, s)
						w.b.Differ(a, b)
						sel = []Value{a, s, b}
						svcs = []Value{w.service(a, m(w.args(o()), w.args(o()))), w.service(s, m(w.args(o()), w.args(o(), ref()))), w.service(b, m(w.args(), w.args(o())))}
					default:
						svcs = []Value{
							w.service(u, m(w.args(o()), w.args(ref(), o()))),
							w.service(s, m(w.args(o()), w.args(o(), ref()))),
							w.service(u, m(w.args(ref()), w.args(o())))}
					}
					return w.types(decls), w.services(svcs...), w.b.Seq(tString, sel...)
				}})
			}
		}
		// types used by unselected services only, or by nobody
		for _, fm := range forms {
			c.shake(shake{name: "removes-" + fm.name, kept: []string{"Y"}, gone: []string{"X", "Z", "W"}, build: func(w *world) (Value, Value, Value) {
				x, n := mk(w, fm.kind, "X")
				y, k := w.decl("struct", "Y", F{"Fields": w.structWith(w.str())})
				z, m := w.decl("struct", "Z", F{"Fields": w.structWith(fm.f(w, x, n), w.to("Struct", y, k))})
				o, _ := w.decl("struct", "W", F{"Fields": w.structWith(fm.f(w, x, n), w.to("Struct", y, k))})
				w.b.Vars["X"], w.b.Vars["Y"], w.b.Vars["Z"], w.b.Vars["W"] = x, y, z, o
				s, u := w.b.StrAtom("S"), w.b.StrAtom("U")
				w.b.Differ(s, u)
				return w.types([]Value{x, y, z, o}), w.services(w.service(s, w.method(w.args(w.to("Struct", y, k)), w.args(w.str()))), w.service(u, w.method(w.args(w.to("Struct", z, m)), w.args(fm.f(w, x, n))))), w.b.Seq(tString, s)
			}})
		}
		c.shake(shake{name: "several-services", kept: []string{"X", "Y", "Z"}, gone: []string{"W"}, build: func(w *world) (Value, Value, Value) {
			x, nx := mk(w, "struct", "X")
			y, ny := mk(w, "enum", "Y")
			z, nz := mk(w, "alias", "Z")
			o, no := mk(w, "struct", "W")
			w.b.Vars["X"], w.b.Vars["Y"], w.b.Vars["Z"], w.b.Vars["W"] = x, y, z, o
			a, b, u := w.b.StrAtom("A"), w.b.StrAtom("B"), w.b.StrAtom("U")
			w.b.Differ(a, b)
			w.b.Differ(a, u)
			w.b.Differ(b, u)
			return w.types([]Value{x, y, z, o}), w.services(
				w.service(a, w.method(w.args(), w.args(w.to("Alias", z, nz))), w.method(w.args(w.to("Struct", x, nx)), w.args())),
				w.service(u, w.method(w.args(w.to("Struct", x, nx)), w.args(w.to("Struct", o, no)))),
				w.service(b, w.method(w.args(w.to("Enum", y, ny)), w.args()))), w.b.Seq(tString, b, a)
		}})
		c.shake(shake{name: "no-service-selected", gone: []string{"X"}, build: func(w *world) (Value, Value, Value) {
			x, n := mk(w, "struct", "X")
			w.b.Vars["X"] = x
			s, u := w.b.StrAtom("S"), w.b.StrAtom("U")
			w.b.Differ(s, u)
			return w.types([]Value{x}), w.services(w.service(u, w.method(w.args(w.to("Struct", x, n)), w.args()))), w.b.Seq(tString, s)
		}})
	})
}

// types lists declared types with different names among others.
func (w *world) types(ts []Value) Value {
	var names []Value
	for _, t := range ts {
		n := FieldOf(w.b.Cell(w.b.St, t.(Ptr)), "Name")
		for _, m := range names {
			w.b.Differ(n.(Str), m.(Str))
		}
		names = append(names, n)
	}
	known := map[string]Value{"Name": Fresh{T: types.Typ[types.String], Not: names, Lits: w.lits}}
	for k, v := range w.other {
		known[k] = v
	}
	other := Star{V: Fresh{T: w.pType, NonNil: true, Tmpl: &Tmpl{Name: "other", F: known}}}
	l := []Value{other}
	for _, t := range ts {
		l = append(l, t, other)
	}
	return w.b.Seq(w.pType, l...)
}

// part is a named part of the schema.
func (w *world) part(v Value) Ptr {
	w.n++
	return w.b.New(fmt.Sprintf("part %d", w.n), v)
}

// services lists services among others without methods.
func (w *world) services(ss ...Value) Value {
	var names []Value
	for _, t := range ss {
		names = append(names, FieldOf(w.b.Cell(w.b.St, t.(Ptr)), "Name"))
	}
	other := Star{V: Fresh{T: w.pSvc, NonNil: true, Tmpl: &Tmpl{Name: "empty service", F: map[string]Value{"Methods": Nil{}, "Name": Fresh{T: tString, Not: names}}}}}
	l := []Value{other}
	for _, t := range ss {
		l = append(l, t, other)
	}
	return w.b.Seq(w.pSvc, l...)
}

// plain is an anonymous reference to the built-in string.
func (w *world) plain() Value {
	return Fresh{T: w.pVar, NonNil: true, Tmpl: &Tmpl{Name: "string", F: map[string]Value{"Expr": w.b.Const("string"), "Type": w.kind("T_String"), "List": Nil{}, "Map": Nil{}, "Struct": Nil{}, "Enum": Nil{}, "Alias": Nil{}}}}
}
