package props

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

const coreNames = `null|any|byte|bool|uint|uint8|uint16|uint32|uint64|int|int8|int16|int32|int64|bigint|float32|float64|string|timestamp|map|\[\]`
const keyNames = `string|u?int(8|16|32|64)?`

func init() {
	register("C05", func(c *Ctx) {
		c.Rule("A symbolic name x that is no built-in and no declared type name is placed at every position of a type expression (directly, below lists, map values and map keys) and the expression at every position of a schema; the abstract schema is propagated through WebRPCSchema.Validate with all resolver code; no abstract path may return a nil error.")
		// undeclared makes all types of the schema differ in name from x.
		undeclared := func(d *doc, x Str, named ...Value) {
			other := Fresh{T: d.pType, NonNil: true, Tmpl: &Tmpl{Name: "notx", F: map[string]Value{"Name": Fresh{T: types.Typ[types.String], Not: []Value{x}}}}}
			l := []Value{Star{V: other}}
			for _, v := range named {
				l = append(l, v, Star{V: other})
			}
			d.Types = d.b.Seq(d.pType, l...)
		}
		name := func(d *doc, x Str) Str { n := d.b.StrAtom("T.Name"); d.b.Differ(n, x); return n }
		forms := []struct {
			name string
			key  bool
			f    func(b *B, x Str) Str
			path []string
		}{
			{"direct", false, func(b *B, x Str) Str { return x }, nil},
			{"list", false, func(b *B, x Str) Str { return b.Cat(b.Const("[]"), x) }, []string{"List", "Elem"}},
			{"list-of-list", false, func(b *B, x Str) Str { return b.Cat(b.Const("[][]"), x) }, []string{"List", "Elem", "List", "Elem"}},
			{"map-value", false, func(b *B, x Str) Str { return b.Cat(b.Const("map<string,"), x, b.Const(">")) }, []string{"Map", "Value"}},
			{"any-map-value", false, func(b *B, x Str) Str {
				return b.Cat(b.Const("map<"), b.StrAtom("key", notRe(`,`)), b.Const(","), x, b.Const(">"))
			}, []string{"Map", "Value"}},
			{"list-in-map", false, func(b *B, x Str) Str { return b.Cat(b.Const("map<int,[]"), x, b.Const(">")) }, []string{"Map", "Value", "List", "Elem"}},
			{"map-in-list", false, func(b *B, x Str) Str { return b.Cat(b.Const("[]map<string,"), x, b.Const(">")) }, []string{"List", "Elem", "Map", "Value"}},
			{"map-key", true, func(b *B, x Str) Str { return b.Cat(b.Const("map<"), x, b.Const(",any>")) }, []string{"Map", "Key"}},
			{"map-key-in-list", true, func(b *B, x Str) Str { return b.Cat(b.Const("[]map<"), x, b.Const(",string>")) }, []string{"List", "Elem", "Map", "Key"}},
			{"map-key-in-map", true, func(b *B, x Str) Str { return b.Cat(b.Const("map<string,map<"), x, b.Const(",any>>")) }, []string{"Map", "Value", "Map", "Key"}},
		}
		base := []Lit{notRe(`\A(` + coreNames + `)\z`), notRe(`\A\[\]`), notRe(`\Amap<`)}
		place := []struct {
			name string
			f    func(d *doc, v Ptr) (typ Value, svc bool, m F)
		}{
			{"field", nil}, {"alias", nil}, {"Inputs", nil}, {"Outputs", nil},
		}
		for _, fm := range forms {
			for _, pl := range place {
				if fm.name != "direct" && fm.name != "list" && pl.name != "field" && !c.Thorough {
					continue
				}
				c.ref("undeclared-"+fm.name+"-"+pl.name, "a reference to a type that is not declared ("+fm.name+", "+pl.name+")", func(d *doc) {
					lits := base
					if fm.key {
						lits = append([]Lit{notRe(`,`)}, base...)
					}
					x := d.b.StrAtom("x", lits...)
					v := d.vtype("reference V", F{"Expr": fm.f(d.b, x)})
					switch pl.name {
					case "field":
						f := d.field("field F", F{"Type": v})
						undeclared(d, x, d.typ("type T", F{"Name": name(d, x), "Kind": d.b.Const("struct"), "Fields": d.among(d.pField, f)}))
					case "alias":
						undeclared(d, x, d.typ("type T", F{"Name": name(d, x), "Kind": d.b.Const("alias"), "Type": v}))
					default:
						undeclared(d, x)
						a := d.arg("argument A", F{"Type": v})
						d.Services = d.inService(d.meth("method M", F{pl.name: d.among(d.pArg, a)}))
					}
				})
			}
		}
		for _, e := range []string{"[]", "[][]", "map<string,>", "map<string,[]>", "map<string>", "map<>", "map<string,any"} {
			c.ref("incomplete "+e, "a field of type "+e, func(d *doc) {
				f := d.field("field F", F{"Type": d.vtype("V", F{"Expr": d.b.Const(e)})})
				d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const("struct"), "Fields": d.among(d.pField, f)}))
			})
		}
		// map keys that exist but may not be keys
		key := func(nm, what string, f func(d *doc) (expr Str)) {
			c.refHere("map-key-"+nm, "a map keyed by "+what, func(d *doc) Ptr {
				x := f(d)
				return d.vtype("reference V", F{"Expr": d.b.Cat(d.b.Const("map<"), x, d.b.Const(",string>"))})
			})
		}
		key("core", "a built-in that is neither string nor an integer", func(d *doc) Str {
			return d.b.StrAtom("x", isRe(`\A(`+coreNames+`)\z`), notRe(`\A(`+keyNames+`)\z`), notRe(`\A\[\]\z`))
		})
		key("struct", "a struct", func(d *doc) Str {
			x := d.b.StrAtom("x", append([]Lit{notRe(`,`)}, base...)...)
			undeclared(d, x, d.typ("type T", F{"Name": x, "Kind": d.b.Const("struct"), "Type": Nil{}}))
			return x
		})
		key("alias", "an alias of a type that is no enum", func(d *doc) Str {
			x := d.b.StrAtom("x", append([]Lit{notRe(`,`)}, base...)...)
			u := d.b.StrAtom("alias", isRe(`\A(`+coreNames+`)\z`), notRe(`\A(\[\]|map)\z`))
			undeclared(d, x, d.typ("type T", F{"Name": x, "Kind": d.b.Const("alias"), "Type": d.vtype("U", F{"Expr": u, "Type": d.b.IntAtom("kind", others(d.b, "T_Enum")...)})}))
			return x
		})
		c.reject("method-error", "a method that lists an error that is not declared", false, func(d *doc) {
			x := d.b.StrAtom("x")
			trimmed := []Lit{notRe(`\A[\s\pZ\x{85}\x0b]`), notRe(`[\s\pZ\x{85}\x0b]\z`)}
			str := types.Typ[types.String]
			other := Fresh{T: d.pErr, NonNil: true, Tmpl: &Tmpl{Name: "notx", F: map[string]Value{"Name": Fresh{T: str, Lits: trimmed, Not: []Value{x}}}}}
			d.Errors = d.b.Seq(d.pErr, Star{V: other})
			d.Services = d.inService(d.meth("method M", F{"Errors": d.among(str, x)}))
		})
		// a reference to a declared type resolves to its declaration
		for _, kind := range []string{"struct", "enum", "alias"} {
			for _, fm := range forms {
				if fm.key && kind != "enum" {
					continue
				}
				c.Scenario(Scen{Name: "resolves-" + kind + "-" + fm.name, NeedNil: true, Raw: true, Build: func(b *B) (*ssa.Function, []Value) {
					d := newDoc(b)
					x := b.StrAtom("x", append([]Lit{notRe(`,`)}, base...)...)
					t := d.typ("type T", F{"Name": x, "Kind": b.Const(kind)})
					v := d.b.New("reference V", d.b.ZStruct(d.tVar, F{"Expr": fm.f(b, x)}))
					b.Vars = map[string]Value{"T": t, "V": v}
					undeclared(d, x, t)
					b.E.DepthLimit = 5
					return c.Core.Method(Schema, "VarType", "Parse"), []Value{v, d.schema()}
				}, Check: func(b *B, r *Result) string {
					if k, isnil := r.ErrNil(); k && !isnil {
						return ""
					}
					v := b.Cell(r.St, b.Vars["V"].(Ptr))
					v = b.Follow(r.St, v, fm.path...)
					part := map[string]string{"struct": "Struct", "enum": "Enum", "alias": "Alias"}[kind]
					got := FieldOf(b.Follow(r.St, v, part), "Type")
					if got != b.Vars["T"] {
						return fmt.Sprintf("Validate can succeed although a reference (%s) to a declared %s is not resolved to that declaration (%v)", fm.name, kind, got)
					}
					want := b.P.Pkgs[Schema].Const("T_" + part).Value.Int64()
					if k, ok := FieldOf(v, "Type").(Int); !ok || k.C != want || len(k.T) > 0 {
						return fmt.Sprintf("Validate can succeed although a reference to a declared %s has another kind", kind)
					}
					return ""
				}})
			}
		}
	})
}

func (c *Ctx) ref(name, what string, build func(d *doc)) {
	c.Scenario(Scen{Name: name, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		build(d)
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); !k || isnil {
			return "Validate can succeed for a schema with " + what
		}
		return ""
	}})
}

// refHere is the same for the resolution of one reference.
func (c *Ctx) refHere(name, what string, build func(d *doc) Ptr) {
	c.Scenario(Scen{Name: name, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		v := build(d)
		return c.Core.Method(Schema, "VarType", "Parse"), []Value{v, d.schema()}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); !k || isnil {
			return "VarType.Parse can succeed for " + what
		}
		return ""
	}})
}

// others are the values of all other kinds.
func others(b *B, kind string) []Rng {
	k := b.P.Pkgs[Schema].Const(kind).Value.Int64()
	return []Rng{{MinI, k - 1}, {k + 1, MaxI}}
}
