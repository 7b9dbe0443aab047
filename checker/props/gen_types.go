package props

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// template finds the function that templates know under a name: the one that
// is put into a table of the generator under that key.
func (c *Ctx) template(name string) *ssa.Function {
	var found *ssa.Function
	many := false
	for fn := range c.Gen.Functions(GenPkg) {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := u.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) != name {
					continue
				}
				v := u.Value
				for {
					if i, ok := v.(*ssa.MakeInterface); ok {
						v = i.X
						continue
					}
					if i, ok := v.(*ssa.ChangeType); ok {
						v = i.X
						continue
					}
					break
				}
				f, ok := v.(*ssa.Function)
				if !ok {
					continue
				}
				many = many || found != nil && found != f
				found = f
			}
		}
	}
	if many {
		panic("several template functions are named " + name)
	}
	if found == nil {
		panic(Missing{What: "template function " + name})
	}
	return found
}

// modelType is a resolved type, as it is after validation.
type modelType struct {
	name, class string
	decl        bool // a declaration, not a reference
	make        func(b *B) Struct
}

func (c *Ctx) modelTypes(consts map[string]int64) []modelType {
	var out []modelType
	varType := func(name, class, kind string, f func(b *B) F) {
		out = append(out, modelType{name, class, false, func(b *B) Struct {
			x := f(b)
			x["Type"] = Int{C: consts[kind]}
			return b.ZStruct(b.Type(Schema, "VarType"), x)
		}})
	}
	for k := range consts {
		switch k {
		case "T_Unknown", "T_List", "T_Map", "T_Struct", "T_Enum", "T_Alias":
			continue
		}
		varType(strings.ToLower(strings.TrimPrefix(k, "T_")), "core", k, func(b *B) F {
			return F{"Expr": b.Const(strings.ToLower(strings.TrimPrefix(k, "T_")))}
		})
	}
	expr := func(b *B, name string) Str { return b.StrAtom(name, isRe(`\A[\[\]a-zA-Z0-9_<>,]+\z`)) }
	elem := func(b *B, name string, e Str) Value {
		v := b.New(name, b.Struct(b.Type(Schema, "VarType"), F{"Expr": e}))
		b.Vars[name] = v
		return v
	}
	varType("list", "list", "T_List", func(b *B) F {
		e := expr(b, "element")
		b.Vars["list.text"] = e
		return F{"Expr": b.Cat(b.Const("[]"), e), "List": b.New("list", b.Struct(b.Type(Schema, "VarListType"), F{"Elem": elem(b, "list.elem", e)}))}
	})
	varType("map", "map", "T_Map", func(b *B) F {
		k, v := b.StrAtom("key", isRe(`\A[a-zA-Z0-9_]+\z`)), expr(b, "value")
		b.Vars["map.key"], b.Vars["map.value"] = k, v
		return F{"Expr": b.Cat(b.Const("map<"), k, b.Const(","), v, b.Const(">")),
			"Map": b.New("map", b.Struct(b.Type(Schema, "VarMapType"), F{"Key": elem(b, "map.keyType", k), "Value": elem(b, "map.valueType", v)}))}
	})
	for _, k := range []string{"Struct", "Enum", "Alias"} {
		class := strings.ToLower(k)
		varType(class, class, "T_"+k, func(b *B) F {
			name := b.StrAtom("type name", isRe(`\A\p{Lu}[a-zA-Z0-9_]*\z`))
			d := b.New("declaration", b.Struct(b.Type(Schema, "Type"), F{"Kind": b.Const(class), "Name": name}))
			return F{"Expr": name, k: b.New(class, b.Struct(b.Type(Schema, "Var"+k+"Type"), F{"Name": name, "Type": d}))}
		})
		out = append(out, modelType{class + "-declaration", class, true, func(b *B) Struct {
			return b.Struct(b.Type(Schema, "Type"), F{"Kind": b.Const(class), "Name": b.StrAtom("type name", isRe(`\A\p{Lu}`))})
		}})
	}
	return out
}

func passed(b *B, s Struct, pointer bool) Value {
	if pointer {
		return Iface{T: types.NewPointer(s.T), V: b.New("the type", s)}
	}
	return Iface{T: s.T, V: s}
}

// stopped reports a template function that does not return.
func stopped(what string) func(b *B, o *Outcome) string {
	return func(b *B, o *Outcome) string { return what + " does not return: " + o.Kind + " " + o.Msg }
}

func init() {
	register("C22", func(c *Ctx) {
		if err := c.LoadGen(); err != nil {
			c.Record(Oblig{Name: "load", Verdict: "undecided", Detail: err.Error()})
			return
		}
		c.Rule("the functions handed to templates are evaluated abstractly: minVersion for symbolic numbers of either version in every relation and form of version, every type predicate for every kind of resolved type with symbolic names and parts, passed by value and by pointer; a predicate must be true exactly for its kind, and the helpers that take types apart must return the parts")
		consts := c.constants(Schema, "CoreType")
		for _, m := range c.modelTypes(consts) {
			for _, p := range []string{"core", "struct", "enum", "alias", "list", "map"} {
				for _, ptr := range []bool{false, true} {
					name := "is" + strings.ToUpper(p[:1]) + p[1:] + "Type"
					how := map[bool]string{true: "pointer", false: "value"}[ptr]
					c.Scenario(Scen{Name: name + "-" + m.name + "-" + how, Prog: c.Gen, Raw: true, Build: func(b *B) (*ssa.Function, []Value) {
						b.Vars = map[string]Value{}
						return c.template(name), []Value{passed(b, m.make(b), ptr)}
					}, Check: func(b *B, r *Result) string {
						if v, ok := r.St.Resolve(r.Ret).(Bool); !ok || bool(v) != (p == m.class) {
							return fmt.Sprintf("%s can be %v for a type of kind %s passed by %s", name, p != m.class, m.name, how)
						}
						return ""
					}, Out: stopped(name + " of a type of kind " + m.name + " passed by " + how)})
				}
			}
			text := func(fn, want string) {
				for _, how := range []string{"value", "pointer", "text"} {
					c.Scenario(Scen{Name: fn + "-" + how, Prog: c.Gen, Raw: true, Build: func(b *B) (*ssa.Function, []Value) {
						b.Vars = map[string]Value{}
						s := m.make(b)
						if how == "text" {
							return c.template(fn), []Value{Iface{T: types.Typ[types.String], V: FieldOf(s, "Expr")}}
						}
						return c.template(fn), []Value{passed(b, s, how == "pointer")}
					}, Check: func(b *B, r *Result) string {
						v := r.St.Resolve(r.Ret)
						if i, ok := v.(Iface); ok {
							v = r.St.Resolve(i.V)
						}
						if _, isStr := v.(Str); !isStr {
							if p, ok := v.(Ptr); ok { // the type itself
								v = FieldOf(b.Cell(r.St, p), "Expr")
							} else if s, ok := v.(Struct); ok {
								v = FieldOf(s, "Expr")
							}
						}
						if v == nil || !b.Same(r.St, v, b.Vars[want]) {
							return fmt.Sprintf("%s of a type passed as %s may not return its %s", fn, how, want)
						}
						return ""
					}, Out: stopped(fn + " of a type passed as " + how)})
				}
			}
			switch m.name {
			case "list":
				text("listElemType", "list.text")
			case "map":
				text("mapKeyType", "map.key")
				text("mapValueType", "map.value")
			}
		}

		// version orders: major numbers, then minor ones; d is at least zero
		type num func(b *B) (version, min Value)
		plus := func(v Value, n int64, w Value) Value {
			x, y := v.(Int), w.(Int)
			return Int{C: x.C + y.C + n, T: append(append([]LTerm(nil), x.T...), y.T...)}
		}
		atom := func(b *B, name string) Value { return b.IntAtom(name, Rng{Lo: 0, Hi: MaxI / 4}) }
		same := func(b *B) (Value, Value) { v := atom(b, "m"); return v, v }
		any := func(b *B) (Value, Value) { return atom(b, "n"), atom(b, "n'") }
		less := func(b *B) (Value, Value) { v := atom(b, "x"); return v, plus(v, 1, atom(b, "d")) }
		more := func(b *B) (Value, Value) { x, y := less(b); return y, x }
		least := func(b *B) (Value, Value) { v := atom(b, "x"); return plus(v, 0, atom(b, "d")), v }
		for _, o := range []struct {
			name         string
			major, minor num
			want         bool
			what         string
		}{
			{"major-less", less, any, false, "the major number is less"},
			{"major-more", more, any, true, "the major number is greater"},
			{"minor-less", same, less, false, "the major numbers are equal and the minor number is less"},
			{"minor-enough", same, least, true, "the major numbers are equal and the minor number is not less"},
		} {
			for _, form := range []string{"M.m M.m", "M.m.x M.m.x", "vM.m vM.m", "M M.m", "M.m M", "vM.m.x vM"} {
				forms := strings.Fields(form)
				hasMinor := []bool{strings.Contains(forms[0], "m"), strings.Contains(forms[1], "m")}
				if !hasMinor[0] && o.name == "minor-enough" || !hasMinor[1] && o.name == "minor-less" {
					continue // a missing number counts as zero
				}
				c.Scenario(Scen{Name: "minVersion-" + o.name + "-" + strings.ReplaceAll(form, " ", "-"), Prog: c.Gen, Raw: true, Build: func(b *B) (*ssa.Function, []Value) {
					digits := isRe(`\A[0-9]+\z`)
					var vals [2][2]Value
					vals[0][0], vals[1][0] = o.major(b)
					vals[0][1], vals[1][1] = o.minor(b)
					for i := range vals {
						if !hasMinor[i] { // zero; the other number is what the relation leaves
							j := 1 - i
							switch o.name {
							case "minor-less":
								vals[j][1] = plus(Int{C: 1}, 0, atom(b, "d"))
							case "minor-enough":
								vals[j][1] = atom(b, "d")
							}
							vals[i][1] = Int{}
						}
					}
					var args []Value
					texts := map[ID]Value{}
					for i, f := range forms {
						var parts []Str
						for j, ch := range f {
							switch ch {
							case 'M', 'm':
								k := 0
								if ch == 'm' {
									k = 1
								}
								a := b.StrAtom(fmt.Sprint("digits ", i, k), digits)
								texts[a.P[0].Atom] = vals[i][k]
								parts = append(parts, a)
							case 'x':
								parts = append(parts, b.StrAtom(fmt.Sprint("rest ", i, j)))
							default:
								parts = append(parts, b.Const(string(ch)))
							}
						}
						args = append(args, b.Cat(parts...))
					}
					b.E.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
						switch fn.String() {
						case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
							s, ok := st.Resolve(args[0]).(Str)
							if !ok {
								return false
							}
							if n := b.CatIn(st, s); len(n.P) == 1 && n.P[0].Atom != 0 && n.P[0].Maps == "" && texts[n.P[0].Atom] != nil {
								good := st.Clone()
								k(good, Tuple{b.RecallInt(good, texts[n.P[0].Atom], Rng{Lo: 0, Hi: MaxI / 4}), Nil{}})
								return true
							}
						}
						return false
					}
					return c.template("minVersion"), args
				}, Check: func(b *B, r *Result) string {
					if v, ok := r.St.Resolve(r.Ret).(Bool); !ok || bool(v) != o.want {
						return fmt.Sprintf("minVersion can be %v for versions of the form %s when %s", !o.want, form, o.what)
					}
					return ""
				}, Out: stopped("minVersion of versions of the form " + form)})
			}
		}
	})
}
