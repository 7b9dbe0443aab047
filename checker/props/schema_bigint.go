package props

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

func init() {
	register("C17", func(c *Ctx) {
		c.Rule("Resolved schemas in which a bigint is mentioned through every form of reference (lists, maps, structs, aliases, recursive types), at a skolem field or argument among arbitrarily many others, are propagated through SchemaUsesBigInts, which must return true in every abstract result (and false when nothing mentions it), and SchemaBigIntFieldsByType, whose result must list that field under the name of its type, request or response.")
		forms := []struct {
			name string
			f    func(w *world) (Ptr, []Value)
		}{
			{"direct", func(w *world) (Ptr, []Value) { return w.big(), nil }},
			{"list", func(w *world) (Ptr, []Value) { return w.listOf(w.big()), nil }},
			{"list-list", func(w *world) (Ptr, []Value) { return w.listOf(w.listOf(w.big())), nil }},
			{"map-value", func(w *world) (Ptr, []Value) { return w.mapOf(w.str(), w.big()), nil }},
			{"map-list-map", func(w *world) (Ptr, []Value) {
				return w.mapOf(w.str(), w.listOf(w.mapOf(w.str(), w.big()))), nil
			}},
			{"alias", func(w *world) (Ptr, []Value) {
				y, n := w.decl("alias", "Y", F{"Type": w.big()})
				return w.to("Alias", y, n), []Value{y}
			}},
			{"alias-list", func(w *world) (Ptr, []Value) {
				y, n := w.decl("alias", "Y", F{"Type": w.listOf(w.big())})
				return w.listOf(w.to("Alias", y, n)), []Value{y}
			}},
			{"alias-alias-map", func(w *world) (Ptr, []Value) {
				z, m := w.decl("alias", "Z", F{"Type": w.mapOf(w.str(), w.big())})
				y, n := w.decl("alias", "Y", F{"Type": w.to("Alias", z, m)})
				return w.to("Alias", y, n), []Value{y, z}
			}},
			{"struct", func(w *world) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.big())})
				return w.to("Struct", y, n), []Value{y}
			}},
			{"list-struct", func(w *world) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.big())})
				return w.listOf(w.to("Struct", y, n)), []Value{y}
			}},
			{"alias-struct", func(w *world) (Ptr, []Value) {
				z, m := w.decl("struct", "Z", F{"Fields": w.structWith(w.listOf(w.big()))})
				y, n := w.decl("alias", "Y", F{"Type": w.listOf(w.to("Struct", z, m))})
				return w.mapOf(w.str(), w.to("Alias", y, n)), []Value{y, z}
			}},
			{"recursive", func(w *world) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("struct", "Z", nil)
				w.set(y, "Fields", w.structWith(w.to("Struct", z, m), w.big()))
				w.set(z, "Fields", w.structWith(w.listOf(w.to("Struct", y, n))))
				return w.to("Struct", z, m), []Value{z, y}
			}},
			{"recursive-alias", func(w *world) (Ptr, []Value) {
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("alias", "Z", nil)
				w.set(y, "Fields", w.structWith(w.to("Alias", z, m), w.listOf(w.big())))
				w.set(z, "Type", w.listOf(w.to("Struct", y, n)))
				return w.to("Alias", z, m), []Value{z, y}
			}},
		}
		places := []string{"field", "in", "out", "succinct-in", "succinct-out"}
		for _, fm := range forms {
			for _, pl := range places {
				c.Scenario(Scen{Name: "uses-" + fm.name + "-" + pl, Build: func(b *B) (*ssa.Function, []Value) {
					w := &world{doc: newDoc(b), lits: bigintNames}
					w.other = map[string]Value{"Fields": Nil{}, "Type": w.plain()}
					t, decls := fm.f(w)
					s := b.StrAtom("S")
					in, out, suc := w.args(), w.args(), Bool(false)
					switch pl {
					case "field":
						x, _ := w.decl("struct", "X", F{"Fields": w.structWith(t)})
						// before the types it refers to
						decls = append([]Value{x}, decls...)
					case "in", "succinct-in":
						in, suc = w.args(t), Bool(pl[0] == 's')
					default:
						out, suc = w.args(t), Bool(pl[0] == 's')
					}
					w.Types = w.types(decls)
					w.Errors = b.Seq(w.pErr, b.Others(w.pErr))
					w.Services = w.services(w.service(s, w.part(b.Struct(w.tMeth, F{"Name": b.StrAtom("M"), "Inputs": in, "Outputs": out, "Succinct": suc}))))
					b.GuardStores(nothing)
					return c.Core.FuncOf(Schema, "SchemaUsesBigInts"), []Value{w.schema()}
				}, Check: func(b *B, r *Result) string {
					if m := r.St.Mon("modified"); m != "" {
						return "SchemaUsesBigInts changes " + m
					}
					if x, ok := r.St.Resolve(r.Ret).(Bool); !ok || !bool(x) {
						return "SchemaUsesBigInts can return false although a " + pl + " mentions bigint (" + fm.name + ")"
					}
					return ""
				}, Out: endsIn("SchemaUsesBigInts"), Done: mustEnd("SchemaUsesBigInts")})
			}
		}
		c.Scenario(Scen{Name: "uses-none", Build: func(b *B) (*ssa.Function, []Value) {
			w := &world{doc: newDoc(b), lits: bigintNames}
			w.other = map[string]Value{"Fields": Nil{}, "Type": w.plain()}
			y, n := w.decl("struct", "Y", nil)
			z, k := w.decl("alias", "Z", F{"Type": w.listOf(w.to("Struct", y, n))})
			w.set(y, "Fields", w.structWith(w.listOf(w.str()), w.to("Alias", z, k), w.mapOf(w.str(), w.core("uint64", "T_Uint64"))))
			a := w.args(w.to("Struct", y, n), w.mapOf(w.str(), w.to("Alias", z, k)))
			w.Types = w.types([]Value{y, z})
			w.Errors = b.Seq(w.pErr, b.Others(w.pErr))
			w.Services = w.services(w.service(b.StrAtom("S"), w.method(a, a)))
			return c.Core.FuncOf(Schema, "SchemaUsesBigInts"), []Value{w.schema()}
		}, Check: func(b *B, r *Result) string {
			if x, ok := r.St.Resolve(r.Ret).(Bool); !ok || bool(x) {
				return "SchemaUsesBigInts can return true although nothing mentions bigint"
			}
			return ""
		}, Out: endsIn("SchemaUsesBigInts"), Done: mustEnd("SchemaUsesBigInts")})
		// the table of fields
		want := []struct {
			name string
			f    func(w *world) (Ptr, []Value)
			want func(b *B, name Str) Value // nil: the name of the field
		}{
			{"direct", func(w *world) (Ptr, []Value) { return w.big(), nil }, func(b *B, n Str) Value { return n }},
			{"list", func(w *world) (Ptr, []Value) { return w.listOf(w.big()), nil }, func(b *B, n Str) Value { return b.Cat(n, b.Const("[]")) }},
		}
		pair := func(list bool) func(b *B, n Str) Value {
			return func(b *B, n Str) Value {
				y := b.Vars["Y"].(Str)
				if list {
					y = b.Cat(y, b.Const("[]"))
				}
				return Tuple{n, y}
			}
		}
		structs := []struct {
			name string
			f    func(w *world) (y, n Value, more []Value)
		}{
			{"struct", func(w *world) (Value, Value, []Value) {
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.str(), w.big())})
				return y, n, []Value{y}
			}},
			{"struct-of-list", func(w *world) (Value, Value, []Value) {
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.listOf(w.big()), w.str())})
				return y, n, []Value{y}
			}},
			{"struct-struct", func(w *world) (Value, Value, []Value) {
				z, m := w.decl("struct", "Z", F{"Fields": w.structWith(w.big())})
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.to("Struct", z, m))})
				return y, n, []Value{y, z}
			}},
			{"struct-list-struct", func(w *world) (Value, Value, []Value) {
				z, m := w.decl("struct", "Z", F{"Fields": w.structWith(w.listOf(w.big()))})
				y, n := w.decl("struct", "Y", F{"Fields": w.structWith(w.listOf(w.to("Struct", z, m)))})
				return y, n, []Value{z, y}
			}},
			{"recursive-first", func(w *world) (Value, Value, []Value) {
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("struct", "Z", nil)
				w.set(y, "Fields", w.structWith(w.to("Struct", z, m), w.big()))
				w.set(z, "Fields", w.structWith(w.to("Struct", y, n)))
				return y, n, []Value{y, z}
			}},
			{"recursive-second", func(w *world) (Value, Value, []Value) {
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("struct", "Z", nil)
				w.set(y, "Fields", w.structWith(w.listOf(w.to("Struct", z, m))))
				w.set(z, "Fields", w.structWith(w.to("Struct", y, n), w.listOf(w.big())))
				return y, n, []Value{y, z}
			}},
			{"recursive-third", func(w *world) (Value, Value, []Value) {
				// V -> Z -> Y -> Z, Z has the bigint: the answer for Y must not be cut short
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("struct", "Z", nil)
				v, _ := w.decl("struct", "V", F{"Fields": w.structWith(w.to("Struct", z, m))})
				w.set(y, "Fields", w.structWith(w.to("Struct", z, m)))
				w.set(z, "Fields", w.structWith(w.to("Struct", y, n), w.big()))
				return y, n, []Value{v, z, y}
			}},
			{"recursive-fourth", func(w *world) (Value, Value, []Value) {
				y, n := w.decl("struct", "Y", nil)
				z, m := w.decl("struct", "Z", nil)
				v, _ := w.decl("struct", "V", F{"Fields": w.structWith(w.to("Struct", y, n))})
				w.set(y, "Fields", w.structWith(w.to("Struct", y, n), w.to("Struct", z, m)))
				w.set(z, "Fields", w.structWith(w.to("Struct", y, n), w.big()))
				return y, n, []Value{z, v, y}
			}},
		}
		for _, s := range structs {
			for _, list := range []bool{false, true} {
				nm := s.name
				if list {
					nm = "list-of-" + nm
				}
				want = append(want, struct {
					name string
					f    func(w *world) (Ptr, []Value)
					want func(b *B, name Str) Value
				}{nm, func(w *world) (Ptr, []Value) {
					y, n, more := s.f(w)
					w.b.Vars["Y"] = n
					r := w.to("Struct", y, n)
					if list {
						r = w.listOf(r)
					}
					return r, more
				}, pair(list)})
			}
		}
		// no field needs a bigint
		for _, suc := range []bool{false, true} {
			c.Scenario(Scen{Name: fmt.Sprintf("table-none-%v", suc), Build: func(b *B) (*ssa.Function, []Value) {
				w := &world{doc: newDoc(b), lits: bigintNames}
				w.other = map[string]Value{"Fields": Nil{}, "Type": w.plain()}
				y, n := w.decl("struct", "Y", nil)
				z, k := w.decl("struct", "Z", F{"Fields": w.structWith(w.str(), w.listOf(w.to("Struct", y, n)), w.mapOf(w.str(), w.str()))})
				w.set(y, "Fields", w.structWith(w.listOf(w.str()), w.to("Struct", z, k)))
				in := w.args(w.to("Struct", y, n), w.listOf(w.to("Struct", z, k)))
				if suc {
					in = w.args(w.big(), w.listOf(w.big()))
				}
				w.Types = w.types([]Value{y, z})
				w.Errors = b.Seq(w.pErr, b.Others(w.pErr))
				w.Services = w.services(w.service(b.StrAtom("S"), w.part(b.Struct(w.tMeth, F{"Name": b.StrAtom("M"), "Inputs": in, "Outputs": in, "Succinct": Bool(suc)}))))
				return c.Core.FuncOf(Schema, "SchemaBigIntFieldsByType"), []Value{w.schema(), Nil{}}
			}, Check: func(b *B, r *Result) string {
				ents, rest, ok := b.Ents(r.St, r.Ret)
				if !ok || rest != nil || len(ents) > 0 {
					return "the table can list a type that needs no bigint"
				}
				return ""
			}, Out: endsIn("SchemaBigIntFieldsByType"), Done: mustEnd("SchemaBigIntFieldsByType")})
		}
		for _, x := range want {
			for _, pl := range []string{"field", "field-last", "field-among", "in", "out", "in-compat", "out-compat", "in-among", "out-among"} {
				c.Scenario(Scen{Name: "table-" + x.name + "-" + pl, Build: func(b *B) (*ssa.Function, []Value) {
					b.Vars = map[string]Value{}
					w := &world{doc: newDoc(b), lits: bigintNames}
					w.other = map[string]Value{"Fields": Nil{}, "Type": w.plain()}
					t, decls := x.f(w)
					s, m, n := b.StrAtom("S"), b.StrAtom("M"), b.StrAtom("F")
					in, out := w.args(), w.args()
					b.Vars["F"], b.Vars["M"] = n, m
					switch pl {
					case "field-among":
						more, ds := w.bigs()
						k := append(append([]Value{}, more...), w.part(b.Struct(w.tField, F{"Name": n, "Type": t})))
						v, vn := w.decl("struct", "X", F{"Fields": b.Seq(w.pField, append(k, more...)...)})
						b.Vars["key"] = vn
						decls = append(append(append([]Value{}, ds...), v), decls...)
					case "field", "field-last":
						f := w.part(b.Struct(w.tField, F{"Name": n, "Type": t}))
						other := Star{V: Fresh{T: w.pField, NonNil: true, Tmpl: &Tmpl{Name: "plain field", F: map[string]Value{"Type": w.plain()}}}}
						v, k := w.decl("struct", "X", F{"Fields": b.Seq(w.pField, other, f, other)})
						b.Vars["key"] = k
						if pl == "field" {
							decls = append([]Value{v}, decls...)
						} else {
							decls = append(append([]Value{}, decls...), v)
						}
					case "in-among", "out-among":
						more, ds := w.bigArgs()
						k := append(append([]Value{}, more...), w.part(b.Struct(w.tArg, F{"Name": n, "Type": t})))
						l := b.Seq(w.pArg, append(k, more...)...)
						decls = append(append([]Value{}, ds...), decls...)
						if pl == "in-among" {
							in = l
							b.Vars["key"] = b.Cat(m, b.Const("Request"))
						} else {
							in, out = w.args(w.str()), l
							b.Vars["key"] = b.Cat(m, b.Const("Response"))
						}
					case "in", "in-compat":
						in = w.argNamed(n, t)
						b.Vars["key"] = b.Cat(m, b.Const(map[string]string{"in": "Request", "in-compat": "Args"}[pl]))
					default:
						out = w.argNamed(n, t)
						b.Vars["key"] = b.Cat(m, b.Const(map[string]string{"out": "Response", "out-compat": "Return"}[pl]))
					}
					w.Types = w.types(decls)
					w.Errors = b.Seq(w.pErr, b.Others(w.pErr))
					w.Services = w.services(w.service(s, w.part(b.Struct(w.tMeth, F{"Name": m, "Inputs": in, "Outputs": out, "Succinct": Bool(false)}))))
					b.GuardStores(nothing)
					var opt Value = Nil{}
					if strings.HasSuffix(pl, "-compat") {
						opt = b.Seq(boolT, Bool(true))
					}
					return c.Core.FuncOf(Schema, "SchemaBigIntFieldsByType"), []Value{w.schema(), opt}
				}, Check: func(b *B, r *Result) string {
					if at := r.St.Mon("modified"); at != "" {
						return "SchemaBigIntFieldsByType changes " + at
					}
					ents, rest, ok := b.Ents(r.St, r.Ret)
					if !ok || rest != nil {
						return "the table can list types of which nothing is known"
					}
					m := b.Vars["M"].(Str)
					for _, e := range ents {
						for _, suf := range []string{"Request", "Response", "Args", "Return"} {
							if k := b.Cat(m, b.Const(suf)); !e.Absent && !b.Same(r.St, k, b.Vars["key"]) && b.Same(r.St, e.K, k) {
								return "the table can list the " + suf + " of a method without bigint there"
							}
						}
					}
					want := x.want(b, b.Vars["F"].(Str))
					for _, e := range ents {
						if e.Absent || !e.Must || !b.Same(r.St, e.K, b.Vars["key"]) {
							continue
						}
						at, ok := occurrences(b, r.St, e.V, func(v Value) bool {
							i, ok := r.St.Resolve(v).(Iface)
							if !ok {
								return false
							}
							if p, ok := want.(Tuple); ok {
								a, ok := i.V.(Array)
								return ok && len(a.E) == 2 && b.Same(r.St, a.E[0], p[0]) && b.Same(r.St, a.E[1], p[1])
							}
							_, isStr := i.V.(Str)
							return isStr && b.Same(r.St, i.V, want)
						})
						if ok && len(at) == 1 {
							if segs, _ := b.Elems(r.St, e.V); len(segs) > 1 && !strings.HasSuffix(pl, "-among") {
								return fmt.Sprintf("the table can list a field that needs no bigint (%s, %s)", x.name, pl)
							}
							return ""
						}
						return fmt.Sprintf("the table can lack a field that needs a bigint, or list it more than once (%s, %s)", x.name, pl)
					}
					return fmt.Sprintf("the table can lack a type with a field that needs a bigint (%s, %s)", x.name, pl)
				}, Out: endsIn("SchemaBigIntFieldsByType"), Done: mustEnd("SchemaBigIntFieldsByType")})
			}
		}
	})
}

// The compiler of a schema goes by the spelling of bigint, in any case, and
// the names of requests and responses share the table with those of structs:
// declared types with such names are left out.
var bigintNames = []Lit{notRe(`(Request|Response|Args|Return)\z`), notRe(`(?i)\Abigint\z`)}

// big is the built-in bigint.
func (w *world) big() Ptr { return w.core("bigint", "T_BigInt") }

// bigs are fields of every form that needs a bigint, and the types they use.
func (w *world) bigs() ([]Value, []Value) {
	ts, ds := w.bigTypes()
	var l []Value
	for _, t := range ts {
		l = append(l, w.part(w.b.Struct(w.tField, F{"Name": w.otherName(), "Type": t})))
	}
	return l, ds
}

func (w *world) bigArgs() ([]Value, []Value) {
	ts, ds := w.bigTypes()
	var l []Value
	for _, t := range ts {
		l = append(l, w.part(w.b.Struct(w.tArg, F{"Name": w.otherName(), "Type": t})))
	}
	return l, ds
}

func (w *world) otherName() Str {
	n := w.b.StrAtom("other name")
	w.b.Differ(n, w.b.Vars["F"].(Str))
	return n
}

func (w *world) bigTypes() ([]Value, []Value) {
	q, n := w.decl("struct", "Q", F{"Fields": w.structWith(w.big())})
	return []Value{w.str(), w.big(), w.listOf(w.big()), w.to("Struct", q, n), w.listOf(w.to("Struct", q, n))}, []Value{q}
}

func (w *world) argNamed(n, t Value) Value {
	other := Star{V: Fresh{T: w.pArg, NonNil: true, Tmpl: &Tmpl{Name: "plain argument", F: map[string]Value{"Type": w.plain()}}}}
	return w.b.Seq(w.pArg, other, w.part(w.b.Struct(w.tArg, F{"Name": n, "Type": t})), other)
}

func endsIn(fn string) func(b *B, o *Outcome) string {
	return func(b *B, o *Outcome) string { return fn + " can end in a " + o.Kind + ": " + o.Msg }
}

func mustEnd(fn string) func(b *B, rs []*Result) string {
	return func(b *B, rs []*Result) string {
		if len(rs) == 0 && len(b.E.Outcomes) == 0 {
			return fn + " has no end"
		}
		return ""
	}
}
