package props

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// builtin names and the constant that denotes each.
var builtin = map[string]string{
	"null": "T_Null", "any": "T_Any", "byte": "T_Byte", "bool": "T_Bool",
	"uint": "T_Uint", "uint8": "T_Uint8", "uint16": "T_Uint16", "uint32": "T_Uint32", "uint64": "T_Uint64",
	"int": "T_Int", "int8": "T_Int8", "int16": "T_Int16", "int32": "T_Int32", "int64": "T_Int64",
	"bigint": "T_BigInt", "float32": "T_Float32", "float64": "T_Float64", "string": "T_String", "timestamp": "T_Timestamp",
}

var keyBuiltin = []string{"string", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}

// constants are the declared constants of a type.
func (c *Ctx) constants(pkg, typ string) map[string]int64 {
	out := map[string]int64{}
	k := c.Core.Pkgs[pkg]
	if k == nil {
		panic(Missing{What: pkg})
	}
	for _, m := range k.Members {
		n, ok := m.(*ssa.NamedConst)
		if !ok {
			continue
		}
		t, ok := types.Unalias(n.Type()).(*types.Named)
		if ok && t.Obj().Name() == typ && n.Value.Value.Kind() == constant.Int {
			out[n.Name()] = n.Value.Int64()
		}
	}
	return out
}

// part is a part of a type expression.
type part struct {
	path []string // from the outermost reference
	kind string   // constant
	expr Str
	decl string // name in b.Vars of the declaration
}

type shape struct {
	name string
	// make gives the expression and the parts
	mk func(d *doc, path []string) (Str, []part)
}

func extend(path []string, more ...string) []string {
	return append(append([]string{}, path...), more...)
}

func shapeCore(n string) shape {
	return shape{n, func(d *doc, path []string) (Str, []part) {
		x := d.b.Const(n)
		return x, []part{{path, builtin[n], x, ""}}
	}}
}

func shapeDecl(kind string) shape {
	return shape{kind, func(d *doc, path []string) (Str, []part) {
		x := d.b.Vars["x"].(Str)
		return x, []part{{path, map[string]string{"struct": "T_Struct", "enum": "T_Enum", "alias": "T_Alias"}[kind], x, "T"}}
	}}
}

func shapeList(s shape) shape {
	return shape{"list-" + s.name, func(d *doc, path []string) (Str, []part) {
		x, ps := s.mk(d, extend(path, "List", "Elem"))
		x = d.b.Cat(d.b.Const("[]"), x)
		return x, append(ps, part{path, "T_List", x, ""})
	}}
}

func shapeMap(k, s shape) shape {
	return shape{"map-" + k.name + "-" + s.name, func(d *doc, path []string) (Str, []part) {
		y, qs := k.mk(d, extend(path, "Map", "Key"))
		x, ps := s.mk(d, extend(path, "Map", "Value"))
		x = d.b.Cat(d.b.Const("map<"), y, d.b.Const(","), x, d.b.Const(">"))
		return x, append(append(ps, qs...), part{path, "T_Map", x, ""})
	}}
}

func init() {
	register("C14", func(c *Ctx) {
		c.Rule("The constants of CoreType are enumerated from the type-checked package; each built-in name is propagated through (*VarType).Parse, which must give exactly the constant of that name, and each constant through String and the JSON codec, which must give exactly that name back; no two constants share a name and no constant is without one unless the resolver produces it for a declared struct, enum or alias. Nested expressions over built-ins and skolem struct, enum and alias names are propagated through Parse: in every accepting abstract result the expression of each part, its kind and its sub-references must be those of the source expression, and at least one result accepts.")
		consts := c.constants(Schema, "CoreType")
		var names []string
		for n := range consts {
			names = append(names, n)
		}
		sort.Strings(names)
		seen := map[int64]string{}
		for _, n := range names {
			if o, dup := seen[consts[n]]; dup {
				c.Violate("distinct-kinds", o+", "+n, "the kinds "+o+" and "+n+" have the same value")
			}
			seen[consts[n]] = n
		}
		c.Record(Oblig{Name: "distinct-kinds", Verdict: "holds"})
		c.Counts["core_type_constants"] = len(names)
		printed := map[string]string{} // constant -> expected name
		for n, k := range builtin {
			if _, ok := consts[k]; !ok {
				c.Violate("constants", k, "there is no constant "+k+" for the built-in "+n)
			}
			printed[k] = n
		}
		printed["T_List"], printed["T_Map"] = "[]", "map"
		byResolver := map[string]bool{"T_Struct": true, "T_Enum": true, "T_Alias": true, "T_Unknown": true}
		// constants → names
		for _, n := range names {
			want, known := printed[n]
			if !known && byResolver[n] {
				continue
			}
			v := consts[n]
			bld := func(fn string) func(b *B) (*ssa.Function, []Value) {
				return func(b *B) (*ssa.Function, []Value) {
					return c.Core.Method(Schema, "CoreType", fn), []Value{b.New("kind", Int{C: v})}
				}
			}
			c.Scenario(Scen{Name: "name-of-" + n, Build: bld("String"), Check: func(b *B, r *Result) string {
				s, ok := b.Text(r.St, r.Ret).Const()
				switch {
				case known && (!ok || s != want):
					return fmt.Sprintf("the kind %s can be printed as %q instead of %q", n, s, want)
				case !known && (!ok || s == ""):
					return "the kind " + n + " has no name"
				case !known:
					for k, o := range printed {
						if o == s {
							return fmt.Sprintf("the kinds %s and %s are both printed as %q", n, k, s)
						}
					}
				}
				return ""
			}, Out: endsIn("String"), Done: mustEnd("String")})
			if !known {
				// a kind added later has to be readable again
				c.Scenario(Scen{Name: "again-" + n, Build: func(b *B) (*ssa.Function, []Value) {
					o := NewB(c.Core)
					s, _ := o.E.Run(o.St, c.Core.Method(Schema, "CoreType", "String"), []Value{o.New("kind", Int{C: v})}).Results[0].Ret.(Str)
					b.Vars = map[string]Value{"V": b.New("reference V", b.ZStruct(b.Type(Schema, "VarType"), F{"Expr": s}))}
					return c.Core.Method(Schema, "VarType", "Parse"), []Value{b.Vars["V"], newDoc(b).schema()}
				}, Check: c.parsedAs(consts, n, ""), Done: func(b *B, rs []*Result) string {
					for _, r := range rs {
						if k, isnil := r.ErrNil(); k && isnil {
							return ""
						}
					}
					return "the name of the kind " + n + " is no type"
				}})
				continue
			}
			// JSON form of a kind
			c.Scenario(Scen{Name: "json-of-" + n, Build: bld("MarshalJSON"), Check: func(b *B, r *Result) string {
				t, ok := r.Ret.(Tuple)
				if k, isnil := r.ErrNil(); !ok || k && !isnil {
					return "the kind " + n + " can fail to be written as JSON"
				}
				if s, ok := b.Text(r.St, t[0]).Const(); !ok || s != fmt.Sprintf("%q", want) {
					return fmt.Sprintf("the kind %s can be written as %s in JSON", n, s)
				}
				return ""
			}, Out: endsIn("MarshalJSON"), Done: mustEnd("MarshalJSON")})
			c.Scenario(Scen{Name: "json-to-" + n, Build: func(b *B) (*ssa.Function, []Value) {
				p := b.New("kind", b.IntAtom("before"))
				b.Vars = map[string]Value{"p": p}
				return c.Core.Method(Schema, "CoreType", "UnmarshalJSON"), []Value{p, b.Bytes(b.Const(fmt.Sprintf("%q", want)))}
			}, Check: func(b *B, r *Result) string {
				if k, isnil := r.ErrNil(); k && !isnil {
					return "the JSON form of " + n + " can be refused"
				}
				if i, ok := b.Cell(r.St, b.Vars["p"].(Ptr)).(Int); !ok || len(i.T) > 0 || i.C != v {
					return fmt.Sprintf("the JSON form %q can be read as another kind than %s", want, n)
				}
				return ""
			}, Out: endsIn("UnmarshalJSON"), Done: mustEnd("UnmarshalJSON")})
		}
		// expressions
		var cores []string
		for n := range builtin {
			cores = append(cores, n)
		}
		sort.Strings(cores)
		var all []shape
		for _, n := range cores {
			x := shapeCore(n)
			all = append(all, x, shapeList(x), shapeMap(shapeCore("string"), x))
		}
		for _, k := range keyBuiltin {
			all = append(all, shapeMap(shapeCore(k), shapeCore("any")), shapeMap(shapeCore("string"), shapeMap(shapeCore(k), shapeCore("bool"))))
		}
		for _, k := range []string{"struct", "enum", "alias"} {
			x := shapeDecl(k)
			str := shapeCore("string")
			all = append(all, x, shapeList(x), shapeMap(str, x), shapeList(shapeList(x)), shapeList(shapeMap(str, x)), shapeMap(str, shapeList(x)), shapeMap(str, shapeMap(shapeCore("uint8"), x)), shapeList(shapeMap(str, shapeList(x))), shapeMap(str, shapeList(shapeMap(str, x))))
			if k == "enum" {
				all = append(all, shapeMap(x, x), shapeMap(x, str), shapeMap(x, shapeList(x)), shapeList(shapeMap(x, str)), shapeMap(x, shapeMap(x, str)), shapeMap(str, shapeMap(x, str)))
			}
			if c.Thorough {
				for _, y := range []shape{shapeList(x), shapeMap(str, x)} {
					all = append(all, shapeList(shapeList(shapeList(y))), shapeList(shapeMap(str, shapeMap(str, y))), shapeMap(str, shapeMap(str, shapeList(y))), shapeMap(str, shapeMap(str, shapeMap(str, y))))
				}
			}
		}
		for _, s := range all {
			kind := "struct"
			for _, k := range []string{"enum", "alias"} {
				if strings.Contains(s.name, k) {
					kind = k
				}
			}
			var parts []part
			var whole Str
			c.Scenario(Scen{Name: "expression-" + s.name, Raw: true, Build: func(b *B) (*ssa.Function, []Value) {
				d := newDoc(b)
				b.Vars = map[string]Value{}
				x := b.StrAtom("x", isRe(`\A[A-Z][a-zA-Z0-9_]*\z`))
				f := F{"Name": x, "Kind": b.Const(kind)}
				t := d.typ("type T", f)
				b.Vars["x"], b.Vars["T"] = x, t
				other := Star{V: Fresh{T: d.pType, NonNil: true, Tmpl: &Tmpl{Name: "notx", F: map[string]Value{"Name": Fresh{T: types.Typ[types.String], Lits: []Lit{isRe(`\A[A-Z][a-zA-Z0-9_]*\z`)}, Not: []Value{x}}}}}}
				d.Types = b.Seq(d.pType, other, t, other)
				whole, parts = s.mk(d, nil)
				v := b.New("reference V", b.ZStruct(d.tVar, F{"Expr": whole}))
				b.Vars["V"] = v
				b.E.DepthLimit = 6
				b.GuardStores(func(t types.Type, field string) bool { return typeName(t) == "VarType" })
				return c.Core.Method(Schema, "VarType", "Parse"), []Value{v, d.schema()}
			}, Check: func(b *B, r *Result) string {
				if k, isnil := r.ErrNil(); !k || !isnil {
					return "the type expression " + s.name + " can be refused"
				}
				if m := r.St.Mon("modified"); m != "" {
					return "resolving a type changes " + m
				}
				top := b.Cell(r.St, b.Vars["V"].(Ptr))
				if e := FieldOf(top, "Expr"); !b.Same(r.St, e, whole) {
					return "the printed form of a parsed type expression can differ from it (" + s.name + ")"
				}
				for _, p := range parts {
					at := b.Follow(r.St, top, p.path...)
					where := strings.Join(p.path, ".")
					if !b.Same(r.St, FieldOf(at, "Type"), Int{C: consts[p.kind]}) {
						return fmt.Sprintf("a part of a parsed type expression can have another kind than %s (%s %s)", p.kind, s.name, where)
					}
					if !b.Same(r.St, FieldOf(at, "Expr"), p.expr) {
						return fmt.Sprintf("a part of a parsed type expression can name another type than the source (%s %s)", s.name, where)
					}
					for _, sub := range []string{"List", "Map", "Struct", "Enum", "Alias"} {
						_, none := r.St.Resolve(FieldOf(at, sub)).(Nil)
						if none != ("T_"+sub != p.kind) {
							return fmt.Sprintf("a part of kind %s can have or lack the description of a %s (%s %s)", p.kind, sub, s.name, where)
						}
					}
					if p.decl != "" {
						part := strings.TrimPrefix(p.kind, "T_")
						ref := b.Follow(r.St, at, part)
						if !b.Same(r.St, FieldOf(ref, "Type"), b.Vars[p.decl]) || !b.Same(r.St, FieldOf(ref, "Name"), p.expr) {
							return fmt.Sprintf("a part of a parsed type expression can denote another declaration (%s %s)", s.name, where)
						}
					}
				}
				return ""
			}, Out: endsIn("Parse"), Done: mustEnd("Parse")})
			// and the printed form is that expression again, also in JSON
			c.Scenario(Scen{Name: "printed-" + s.name, Build: func(b *B) (*ssa.Function, []Value) {
				d := newDoc(b)
				b.Vars = map[string]Value{"x": b.StrAtom("x", isRe(`\A[A-Z][a-zA-Z0-9_]*\z`))}
				x, _ := s.mk(d, nil)
				b.Vars["whole"] = x
				b.GuardStores(nothing)
				return c.Core.Method(Schema, "VarType", "MarshalJSON"), []Value{b.New("reference V", b.Struct(d.tVar, F{"Expr": x}))}
			}, Check: func(b *B, r *Result) string {
				t, ok := r.Ret.(Tuple)
				if k, isnil := r.ErrNil(); !ok || k && !isnil {
					return "a type can fail to be written as JSON (" + s.name + ")"
				}
				if m := r.St.Mon("modified"); m != "" {
					return "writing a type as JSON changes " + m
				}
				q := b.Const(`"`)
				if !b.Same(r.St, b.Text(r.St, t[0]), b.Cat(q, b.Vars["whole"].(Str), q)) {
					return "a type can be written as another type in JSON (" + s.name + ")"
				}
				return ""
			}, Out: endsIn("MarshalJSON"), Done: mustEnd("MarshalJSON")})
			c.Scenario(Scen{Name: "read-" + s.name, Build: func(b *B) (*ssa.Function, []Value) {
				d := newDoc(b)
				b.Vars = map[string]Value{"x": b.StrAtom("x", isRe(`\A[A-Z][a-zA-Z0-9_]*\z`))}
				x, _ := s.mk(d, nil)
				q := b.Const(`"`)
				v := b.New("reference V", b.ZStruct(d.tVar, F{}))
				b.Vars["whole"], b.Vars["V"] = x, v
				return c.Core.Method(Schema, "VarType", "UnmarshalJSON"), []Value{v, b.Bytes(b.Cat(q, x, q))}
			}, Check: func(b *B, r *Result) string {
				if k, isnil := r.ErrNil(); k && !isnil {
					return "the JSON form of a type can be refused (" + s.name + ")"
				}
				if !b.Same(r.St, FieldOf(b.Cell(r.St, b.Vars["V"].(Ptr)), "Expr"), b.Vars["whole"]) {
					return "the JSON form of a type can be read as another type (" + s.name + ")"
				}
				return ""
			}, Out: endsIn("UnmarshalJSON"), Done: mustEnd("UnmarshalJSON")})
		}
	})
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// parsedAs checks the kind and expression of the reference V.
func (c *Ctx) parsedAs(consts map[string]int64, kind, expr string) func(b *B, r *Result) string {
	return func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return ""
		}
		v := b.Cell(r.St, b.Vars["V"].(Ptr))
		if !b.Same(r.St, FieldOf(v, "Type"), Int{C: consts[kind]}) {
			return "the name of the kind " + kind + " can be parsed as another kind"
		}
		return ""
	}
}
