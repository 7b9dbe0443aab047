package props

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// ast builds document trees as the RIDL parser hands them to the conversion.
type ast struct {
	b     *B
	n     int
	plain map[string]F // what is known of the other declarations
	real  bool         // validation and types are evaluated as well
}

func (a *ast) t(name string) types.Type { return a.b.Type(RIDL, name) }

// part is an object of the scenario; its name only has to be unique.
func (a *ast) part(t string, f F) Ptr {
	a.n++
	return a.b.New(fmt.Sprintf("%s %d", t, a.n), a.b.Struct(a.t(t), f))
}

// word is a token node with an arbitrary text.
func (a *ast) word(name string) Ptr {
	v := a.b.StrAtom(name)
	a.b.Vars[name] = v
	return a.text(v)
}

func (a *ast) text(v Value) Ptr {
	return a.part("TokenNode", F{"tok": a.part("token", F{"val": v})})
}

// node puts a node into the interface the tree is made of.
func (a *ast) node(t string, p Value) Iface {
	return Iface{T: types.NewPointer(a.t(t)), V: p}
}

// others are nodes of which nothing but the kind is known.
func (a *ast) others(t string) Star {
	return Star{V: a.node(t, Fresh{T: types.NewPointer(a.t(t)), NonNil: true})}
}

func (a *ast) ptr(t string) types.Type { return types.NewPointer(a.t(t)) }

func (c *Ctx) convert(name string, build func(a *ast) []Value, check func(b *B, r *Result, s Value) string) {
	c.convertTo(name, true, build, check)
}

func (c *Ctx) convertTo(name string, can bool, build func(a *ast) []Value, check func(b *B, r *Result, s Value) string) {
	c.Scenario(Scen{Name: name, NeedNil: can, Build: func(b *B) (*ssa.Function, []Value) {
		b.Vars = map[string]Value{}
		a := &ast{b: b, plain: map[string]F{
			"StructNode":    {"fields": Nil{}},
			"EnumNode":      {"values": Nil{}},
			"TypeAliasNode": {"meta": Nil{}},
			"ServiceNode":   {"methods": Nil{}},
		}}
		b.E.AnonCap, b.E.AppendCap = 0, 0
		kids := b.Seq(a.t("Node"), build(a)...)
		tree := a.parser(c, kids)
		// the tree is kept within the file system it is read from
		p := b.New("the loader", b.Struct(a.t("Parser"), F{"path": b.StrAtom("path"), "fsys": Iface{T: a.ptr("parser"), V: tree}}))
		return c.Core.Method(RIDL, "Parser", "Parse"), []Value{p}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return ""
		}
		t, _ := r.St.Resolve(r.Ret).(Tuple)
		if len(t) == 0 {
			return ""
		}
		p, ok := r.St.Resolve(t[0]).(Ptr)
		if !ok {
			return "a document can be accepted without a schema"
		}
		return check(b, r, b.Cell(r.St, p))
	}})
}

// parser replaces reading and parsing by the given tree, and validation by
// success.
func (a *ast) parser(c *Ctx, kids Slice) Ptr {
	b := a.b
	tree := b.New("the document tree", b.ZStruct(a.t("parser"), F{
		"root": b.ZStruct(a.t("RootNode"), F{"node": b.ZStruct(a.t("node"), F{"children": kids})}),
	}))
	newParser := c.Core.FuncOf(RIDL, "newParser")
	run := c.Core.Method(RIDL, "parser", "run")
	if newParser == nil || run == nil {
		panic("the document tree is made in another way")
	}
	a.hooks(c, func(st *State, fn *ssa.Function, args []Value) (Value, bool) {
		switch fn {
		case newParser:
			return Tuple{tree, Nil{}}, true
		case run:
			return Nil{}, true
		}
		return nil, false
	})
	return tree
}

// hooks replaces reading files, validation and the parsing of type
// expressions, and what other tells.
func (a *ast) hooks(c *Ctx, other func(st *State, fn *ssa.Function, args []Value) (Value, bool)) {
	b := a.b
	validate := c.Core.Method(Schema, "WebRPCSchema", "Validate")
	expr := c.Core.FuncOf(Schema, "ParseVarTypeExpr")
	if validate == nil {
		panic(Missing{Schema + ".Validate"})
	}
	if expr == nil {
		panic(Missing{Schema + ".ParseVarTypeExpr"})
	}
	b.E.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
		switch {
		case fn.String() == "io/fs.ReadFile":
			k(st, Tuple{Fresh{T: fn.Signature.Results().At(0).Type()}, Nil{}})
		case fn.String() == "io/fs.ValidPath":
			k(st, Bool(true))
		case a.real:
			v, ok := other(st, fn, args)
			if ok {
				k(st, v)
			}
			return ok
		case fn == validate:
			k(st, Nil{})
		case fn == expr:
			b.St = st
			to, ok := st.Resolve(args[2]).(Ptr)
			if !ok {
				return false
			}
			var kind Value
			x, _ := st.Resolve(args[1]).(Str)
			switch name, isConst := x.Const(); {
			case isConst && name == "string":
				kind = Int{C: b.P.Pkgs[Schema].Const("T_String").Value.Int64()}
			case isConst && name != "":
				kind = b.IntAtom("the kind of "+name, others(b, "T_String")...)
			default:
				kind = b.IntAtom("", others(b, "T_String")...)
			}
			b.SetCell(to, b.Struct(b.Type(Schema, "VarType"), F{"Expr": args[1], "Type": kind}))
			k(st, Nil{})
		default:
			v, ok := other(st, fn, args)
			if ok {
				k(st, v)
			}
			return ok
		}
		return true
	}
}

// want compares attributes of a struct of the schema with what was declared.
func want(b *B, st *State, v Value, what string, attrs ...any) string {
	for i := 0; i+1 < len(attrs); i += 2 {
		path, exp := attrs[i].(string), attrs[i+1]
		got := b.Follow(st, v, strings.Split(path, ".")...)
		if got == nil {
			return what + " has no " + path
		}
		switch x := exp.(type) {
		case []Value:
			segs, ok := b.Elems(st, got)
			if _, isnil := st.Resolve(got).(Nil); isnil {
				segs, ok = nil, true
			}
			if !ok {
				return what + ": " + path + " is not what was declared"
			}
			if len(segs) != len(x) {
				return fmt.Sprintf("%s: %s can have %d elements where %d were declared", what, path, len(segs), len(x))
			}
			for i := range segs {
				if segs[i].Star || !b.Same(st, segs[i].V, x[i]) {
					return fmt.Sprintf("%s: element %d of %s is not the one declared there", what, i, path)
				}
			}
		case Value:
			if !b.Same(st, got, x) {
				return what + ": " + path + " is not what was declared"
			}
		default:
			panic("want")
		}
	}
	return ""
}

// pick finds the one element of a list for which is holds.
func pick(b *B, st *State, list Value, what string, is func(v Value) bool) (v Value, at int, msg string) {
	idx, ok := occurrences(b, st, list, is)
	switch {
	case !ok:
		return nil, 0, what + ": the list is unknown"
	case len(idx) == 0:
		return nil, 0, what + " can be missing from the schema"
	case len(idx) > 1:
		return nil, 0, what + " can appear more than once in the schema"
	}
	segs, _ := b.Elems(st, list)
	v = segs[idx[0]].V
	if vs, ok := v.(VSet); ok {
		for _, x := range vs {
			if is(x) {
				v = x
			}
		}
	}
	if p, ok := st.Resolve(v).(Ptr); ok {
		v = b.Cell(st, p)
	}
	return v, idx[0], ""
}

// named1 finds the one declaration with a name.
func named1(b *B, st *State, list Value, kind, id string) (Value, int, string) {
	return pick(b, st, list, kind+" "+id, named(b, st, b.Vars[id]))
}

// meta checks the metadata of a field or alias.
func meta(b *B, st *State, v Value, what string, kv ...Value) string {
	list := b.Follow(st, v, "Meta")
	segs, ok := b.Elems(st, list)
	if _, isnil := list.(Nil); isnil {
		segs, ok = nil, true
	}
	if !ok || len(segs) != len(kv)/2 {
		return fmt.Sprintf("%s: it can have %d metadata entries where %d were declared", what, len(segs), len(kv)/2)
	}
	for i, s := range segs {
		ents, _, ok := b.Ents(st, s.V)
		var val Value
		if ok && len(ents) == 1 {
			val = ents[0].V
			if x, ok := val.(Iface); ok {
				val = x.V
			}
		}
		if s.Star || val == nil || !b.Same(st, ents[0].K, kv[2*i]) || !b.Same(st, val, kv[2*i+1]) {
			return fmt.Sprintf("%s: metadata entry %d is not the one declared there", what, i)
		}
	}
	return ""
}

// comment is a comment of two lines.
func (a *ast) comment(id string) Value {
	l1 := a.b.StrAtom(id+" line 1", notRe("\\n"))
	l2 := a.b.StrAtom(id+" line 2", notRe("\\n"))
	a.b.Vars[id+".1"], a.b.Vars[id+".2"] = l1, l2
	return a.b.Cat(l1, a.b.Const("\n"), l2)
}

func lines(b *B, id string) []Value { return []Value{b.Vars[id+".1"], b.Vars[id+".2"]} }

var none = []Value{}

// tokenLike is a token node of which only what its text is not is known.
func (a *ast) tokenLike(tmpl string, not ...Value) Value {
	val := Fresh{T: tString}
	for _, n := range not {
		if c, ok := n.(Str).Const(); ok {
			val.Lits = append(val.Lits, notRe(`(?i)\A`+c+`\z`))
		} else {
			val.Not = append(val.Not, n)
		}
	}
	tok := Fresh{T: a.ptr("token"), NonNil: true, Tmpl: &Tmpl{Name: tmpl + " token", F: map[string]Value{"val": val}}}
	return Fresh{T: a.ptr("TokenNode"), NonNil: true, Tmpl: &Tmpl{Name: tmpl + " node", F: map[string]Value{"tok": tok}}}
}

// otherDecls are any number of declarations of a kind with other names.
func (a *ast) otherDecls(t string, not ...Value) Star {
	tm := &Tmpl{Name: "other " + t, F: F{"name": a.tokenLike("other name of "+t, not...)}}
	for k, v := range a.plain[t] {
		tm.F[k] = v
	}
	return Star{V: a.node(t, Fresh{T: a.ptr(t), NonNil: true, Tmpl: tm})}
}

// among puts elements between others of the same kind that are as plain as can be.
func (a *ast) among(t string, vs ...Value) Value {
	tm := &Tmpl{Name: "plain " + t, F: F{}}
	switch t {
	case "DefinitionNode":
		tm.F["leftNode"], tm.F["rightNode"] = a.tokenLike("plain left"), a.tokenLike("plain right")
		tm.F["meta"], tm.F["comment"] = Nil{}, Str{}
	case "ArgumentNode":
		tm.F["name"], tm.F["argumentType"] = a.tokenLike("plain name"), a.tokenLike("plain type")
		tm.F["inlineStruct"] = Nil{}
	case "MethodNode":
		tm.F["name"], tm.F["comment"] = a.tokenLike("plain method"), Str{}
		tm.F["annotations"], tm.F["errors"] = Nil{}, Nil{}
		l := a.b.ZStruct(a.t("argumentList"), F{})
		tm.F["inputs"], tm.F["outputs"] = l, l
	}
	o := Star{V: Fresh{T: a.ptr(t), NonNil: true, Tmpl: tm}}
	l := []Value{o}
	for _, v := range vs {
		l = append(l, v, o)
	}
	return a.b.Seq(a.ptr(t), l...)
}

// decls puts declarations between others of the same kind.
func (a *ast) decls(t string, names []string, vs ...Value) []Value {
	var not []Value
	for i, n := range names {
		x := a.b.Vars[n].(Str)
		not = append(not, a.b.Lower(x))
		for _, m := range names[:i] {
			a.b.DifferFold(x, a.b.Vars[m].(Str))
		}
	}
	o := a.otherDecls(t, not...)
	l := []Value{o}
	for _, v := range vs {
		l = append(l, a.node(t, v), o)
	}
	return l
}

func first(ms ...string) string {
	for _, m := range ms {
		if m != "" {
			return m
		}
	}
	return ""
}

func init() {
	register("C13", func(c *Ctx) {
		c.Rule("The conversion of a document tree to a schema is evaluated abstractly for trees with arbitrary names, texts and flags: for each kind of declaration a fully attributed and a bare declaration, in both orders, among any number of others. In every schema it can return without error the declaration has to be present exactly once, in order, with exactly its own attributes and the documented defaults for the others. Reading, tokenising and validation are replaced by their success.")
		c.convert("struct", func(a *ast) []Value {
			s := a.part("StructNode", F{"name": a.word("S"), "comment": a.comment("S"), "fields": Nil{}})
			s2 := a.part("StructNode", F{"name": a.word("S2"), "comment": Str{}, "fields": Nil{}})
			return a.decls("StructNode", []string{"S", "S2"}, s, s2)
		}, func(b *B, r *Result, s Value) string {
			st := r.St
			x, i, m := named1(b, st, FieldOf(s, "Types"), "struct", "S")
			y, j, m2 := named1(b, st, FieldOf(s, "Types"), "struct", "S2")
			if m = first(m, m2); m != "" {
				return m
			}
			if i > j {
				return "structs can be reordered"
			}
			return first(
				want(b, st, x, "struct S", "Kind", b.Const("struct"), "Comments", lines(b, "S"), "Fields", none, "Meta", none),
				want(b, st, y, "struct S2", "Kind", b.Const("struct"), "Comments", none, "Fields", none, "Meta", none))
		})
		// a field with every attribute before one with none, and the reverse
		for _, k := range []string{"", "-bare-first", "-both"} {
			rev, both := k == "-bare-first", k == "-both"
			c.convert("struct-field"+k, func(a *ast) []Value {
				b := a.b
				meta := func(id string) Value {
					return a.part("DefinitionNode", F{"leftNode": a.word(id + ".key"), "rightNode": a.word(id + ".value")})
				}
				f := Value(a.part("DefinitionNode", F{"leftNode": a.word("F"), "rightNode": a.word("F.type"), "optional": Bool(true),
					"comment": a.comment("F"), "meta": b.Seq(a.ptr("DefinitionNode"), meta("F.m1"), meta("F.m2"))}))
				gf := F{"leftNode": a.word("G"), "rightNode": a.word("G.type"), "optional": Bool(false), "comment": Str{}, "meta": Nil{}}
				if both {
					gf["comment"], gf["meta"] = a.comment("G"), b.Seq(a.ptr("DefinitionNode"), meta("G.m1"))
				}
				g := Value(a.part("DefinitionNode", gf))
				b.Differ(b.Vars["F"].(Str), b.Vars["G"].(Str))
				if rev {
					f, g = g, f
				}
				s := a.part("StructNode", F{"name": a.word("S"), "comment": Str{}, "fields": a.among("DefinitionNode", f, g)})
				return a.decls("StructNode", []string{"S"}, s)
			}, func(b *B, r *Result, s Value) string {
				st := r.St
				x, _, m := named1(b, st, FieldOf(s, "Types"), "struct", "S")
				if m != "" {
					return m
				}
				f, i, m := named1(b, st, FieldOf(x, "Fields"), "field", "F")
				g, j, m2 := named1(b, st, FieldOf(x, "Fields"), "field", "G")
				if m = first(m, m2); m != "" {
					return m
				}
				if (i > j) != rev {
					return "fields can be reordered"
				}
				v := b.Vars
				comments, metas := none, []Value{}
				if both {
					comments, metas = lines(b, "G"), []Value{v["G.m1.key"], v["G.m1.value"]}
				}
				return first(
					want(b, st, x, "struct S", "Meta", none, "Comments", none),
					want(b, st, f, "field F", "Type.Expr", v["F.type"], "Optional", Bool(true), "Comments", lines(b, "F"), "Value", Str{}),
					meta(b, st, f, "field F", v["F.m1.key"], v["F.m1.value"], v["F.m2.key"], v["F.m2.value"]),
					want(b, st, g, "field G", "Type.Expr", v["G.type"], "Optional", Bool(false), "Comments", comments, "Value", Str{}),
					meta(b, st, g, "field G", metas...))
			})
		}
		// enum values: declared, or the position (the name in a string enum)
		for _, k := range []string{"string", "other"} {
			c.convert("enum-"+k, func(a *ast) []Value {
				b := a.b
				t := Value(b.Const("string"))
				if k == "other" {
					x := b.StrAtom("E.type", notRe(`\Astring\z`))
					t = x
				}
				b.Vars["E.type"] = t
				val := func(id string, explicit bool, comment Value) Value {
					r := Value(Nil{})
					if explicit {
						x := b.StrAtom(id+".value", notRe(`\A\z`))
						b.Vars[id+".value"] = x
						r = a.text(x)
					}
					return a.part("DefinitionNode", F{"leftNode": a.word(id), "rightNode": r, "comment": comment, "meta": Nil{}, "optional": Bool(false)})
				}
				vs := b.Seq(a.ptr("DefinitionNode"), val("V0", false, Str{}), val("V1", true, a.comment("V1")), val("V2", false, Str{}), val("V3", false, a.comment("V3")))
				e := a.part("EnumNode", F{"name": a.word("E"), "enumType": a.text(t), "values": vs})
				e2 := a.part("EnumNode", F{"name": a.word("E2"), "enumType": a.word("E2.type"), "values": b.Seq(a.ptr("DefinitionNode"), val("W0", false, Str{}))})
				return a.decls("EnumNode", []string{"E", "E2"}, e, e2)
			}, func(b *B, r *Result, s Value) string {
				st, v := r.St, b.Vars
				x, i, m := named1(b, st, FieldOf(s, "Types"), "enum", "E")
				y, j, m2 := named1(b, st, FieldOf(s, "Types"), "enum", "E2")
				if m = first(m, m2); m != "" {
					return m
				}
				if i > j {
					return "enums can be reordered"
				}
				if m = first(want(b, st, x, "enum E", "Kind", b.Const("enum"), "Type.Expr", v["E.type"], "Meta", none), want(b, st, y, "enum E2", "Kind", b.Const("enum"), "Type.Expr", v["E2.type"])); m != "" {
					return m
				}
				vals := []Value{b.Const("0"), v["V1.value"], b.Const("2"), b.Const("3")}
				if k == "string" {
					vals[0], vals[2], vals[3] = v["V0"], v["V2"], v["V3"]
				}
				segs, ok := b.Elems(st, FieldOf(x, "Fields"))
				if !ok || len(segs) != 4 {
					return fmt.Sprintf("enum E can have %d values where 4 were declared", len(segs))
				}
				for i, sg := range segs {
					f := sg.V
					if p, ok := st.Resolve(f).(Ptr); ok {
						f = b.Cell(st, p)
					}
					cm := none
					if i == 1 || i == 3 {
						cm = lines(b, fmt.Sprint("V", i))
					}
					if m := want(b, st, f, fmt.Sprintf("enum value %d", i), "Name", v[fmt.Sprint("V", i)], "Value", vals[i], "Comments", cm, "Meta", none, "Optional", Bool(false)); m != "" {
						return m
					}
				}
				if segs, ok := b.Elems(st, FieldOf(y, "Fields")); !ok || len(segs) != 1 {
					return "enum E2 does not have the values declared"
				}
				return ""
			})
		}
		for _, both := range []bool{false, true} {
			c.convert("alias"+map[bool]string{true: "-both"}[both], func(a *ast) []Value {
				b := a.b
				meta := func(id string) Value {
					return a.part("DefinitionNode", F{"leftNode": a.word(id + ".key"), "rightNode": a.word(id + ".value")})
				}
				x := a.part("TypeAliasNode", F{"name": a.word("A"), "aliasType": a.word("A.type"), "comment": a.comment("A"), "meta": b.Seq(a.ptr("DefinitionNode"), meta("A.m1"), meta("A.m2"))})
				yf := F{"name": a.word("A2"), "aliasType": a.word("A2.type"), "comment": Str{}, "meta": Nil{}}
				if both {
					yf["comment"], yf["meta"] = a.comment("A2"), b.Seq(a.ptr("DefinitionNode"), meta("A2.m1"))
				}
				y := a.part("TypeAliasNode", yf)
				return a.decls("TypeAliasNode", []string{"A", "A2"}, x, y)
			}, func(b *B, r *Result, s Value) string {
				st, v := r.St, b.Vars
				x, i, m := named1(b, st, FieldOf(s, "Types"), "alias", "A")
				y, j, m2 := named1(b, st, FieldOf(s, "Types"), "alias", "A2")
				if m = first(m, m2); m != "" {
					return m
				}
				if i > j {
					return "aliases can be reordered"
				}
				comments, metas := none, []Value{}
				if both {
					comments, metas = lines(b, "A2"), []Value{v["A2.m1.key"], v["A2.m1.value"]}
				}
				return first(
					want(b, st, x, "alias A", "Kind", b.Const("alias"), "Type.Expr", v["A.type"], "Comments", lines(b, "A"), "Fields", none),
					meta(b, st, x, "alias A", v["A.m1.key"], v["A.m1.value"], v["A.m2.key"], v["A.m2.value"]),
					want(b, st, y, "alias A2", "Kind", b.Const("alias"), "Type.Expr", v["A2.type"], "Comments", comments, "Fields", none),
					meta(b, st, y, "alias A2", metas...))
			})
		}
		// errors: one with a status between two without
		c.convert("error", func(a *ast) []Value {
			mk := func(id, code string, status Value) Value {
				return a.part("ErrorNode", F{"name": a.word(id), "code": a.text(a.b.Const(code)), "message": a.word(id + ".message"), "httpStatus": status})
			}
			e1, e2, e3 := mk("E1", "1234567", Nil{}), mk("E2", "0", a.text(a.b.Const("503"))), mk("E3", "7", Nil{})
			return a.decls("ErrorNode", []string{"E1", "E2", "E3"}, e1, e2, e3)
		}, func(b *B, r *Result, s Value) string {
			st, v := r.St, b.Vars
			last := -1
			for i, x := range [][2]int64{{1234567, 400}, {0, 503}, {7, 400}} {
				id := fmt.Sprint("E", i+1)
				e, at, m := named1(b, st, FieldOf(s, "Errors"), "error", id)
				if m != "" {
					return m
				}
				if at < last {
					return "errors can be reordered"
				}
				last = at
				if m := want(b, st, e, "error "+id, "Code", Int{C: x[0]}, "HTTPStatus", Int{C: x[1]}, "Message", v[id+".message"]); m != "" {
					return m
				}
			}
			return ""
		})
		c.convert("service", func(a *ast) []Value {
			x := a.part("ServiceNode", F{"name": a.word("S"), "comment": a.comment("S"), "methods": Nil{}})
			y := a.part("ServiceNode", F{"name": a.word("S2"), "comment": Str{}, "methods": Nil{}})
			return a.decls("ServiceNode", []string{"S", "S2"}, x, y)
		}, func(b *B, r *Result, s Value) string {
			st := r.St
			x, i, m := named1(b, st, FieldOf(s, "Services"), "service", "S")
			y, j, m2 := named1(b, st, FieldOf(s, "Services"), "service", "S2")
			if m = first(m, m2); m != "" {
				return m
			}
			if i > j {
				return "services can be reordered"
			}
			return first(
				want(b, st, x, "service S", "Comments", lines(b, "S"), "Methods", none),
				want(b, st, y, "service S2", "Comments", none, "Methods", none))
		})
		c.methods()
		c.succinct()
		c.header()
		c.texts()
	})
}

// methods checks a method with every attribute before one with none, and the
// reverse: once the attributes, once the arguments.
func (c *Ctx) methods() {
	for _, k := range []struct {
		args      string
		rev, both bool
	}{{}, {rev: true}, {args: "inputs"}, {args: "inputs", rev: true}, {args: "outputs"}, {args: "outputs", rev: true}, {both: true}, {args: "both", both: true}} {
		name := "method" + map[bool]string{true: "-bare-first"}[k.rev]
		if k.args != "" {
			name += "-" + k.args
		} else if k.both {
			name += "-both-attributed"
		}
		c.convert(name, func(a *ast) []Value {
			b := a.b
			nothing := b.ZStruct(a.t("argumentList"), F{})
			list := func(kind string, stream Value, args ...Value) Value {
				l := a.among("ArgumentNode", args...)
				if kind != k.args {
					l = b.Seq(a.ptr("ArgumentNode"), args...)
				}
				return b.Struct(a.t("argumentList"), F{"stream": stream, "arguments": l})
			}
			arg := func(id string, opt Value) Value {
				return a.part("ArgumentNode", F{"name": a.word(id), "argumentType": a.word(id + ".type"), "optional": opt, "inlineStruct": Nil{}})
			}
			ann := func(id string, v Value) Value {
				return a.part("AnnotationNode", F{"annotationType": a.word(id), "value": v})
			}
			f := F{"name": a.word("M"), "comment": Str{}, "proxy": Bool(false), "annotations": Nil{}, "errors": Nil{}}
			if k.args != "" {
				f["inputs"] = list("inputs", Bool(true), arg("P", Bool(true)), arg("Q", Bool(false)))
				f["outputs"] = list("outputs", Bool(false), arg("R", Bool(false)), arg("T", Bool(true)))
			} else {
				in, out := b.BoolAtom("M streams its input"), b.BoolAtom("M streams its output")
				b.Vars["in"], b.Vars["out"] = in, out
				f["comment"] = a.comment("M")
				f["annotations"] = b.Seq(a.ptr("AnnotationNode"), ann("X", a.word("X.value")), ann("Y", Nil{}))
				f["errors"] = b.Seq(a.ptr("TokenNode"), a.word("E1"), a.word("E2"))
				f["inputs"] = b.ZStruct(a.t("argumentList"), F{"stream": in})
				f["outputs"] = b.ZStruct(a.t("argumentList"), F{"stream": out})
				b.Differ(b.Vars["X"].(Str), b.Vars["Y"].(Str))
			}
			x := Value(a.part("MethodNode", f))
			g := F{"name": a.word("N"), "comment": Str{}, "proxy": Bool(false), "annotations": Nil{}, "errors": Nil{}, "inputs": nothing, "outputs": nothing}
			if k.both && k.args != "" {
				g["inputs"] = list("inputs", Bool(false), arg("U", Bool(false)))
				g["outputs"] = list("outputs", Bool(true), arg("V", Bool(false)))
			} else if k.both {
				g["comment"] = a.comment("N")
				g["annotations"] = b.Seq(a.ptr("AnnotationNode"), ann("Z", a.word("Z.value")))
				g["errors"] = b.Seq(a.ptr("TokenNode"), a.word("E3"))
			}
			y := Value(a.part("MethodNode", g))
			b.Differ(b.Vars["M"].(Str), b.Vars["N"].(Str))
			if k.rev {
				x, y = y, x
			}
			s := a.part("ServiceNode", F{"name": a.word("S"), "comment": Str{}, "methods": a.among("MethodNode", x, y)})
			return a.decls("ServiceNode", []string{"S"}, s)
		}, func(b *B, r *Result, s Value) string {
			st, v := r.St, b.Vars
			x, _, m := named1(b, st, FieldOf(s, "Services"), "service", "S")
			if m != "" {
				return m
			}
			f, i, m := named1(b, st, FieldOf(x, "Methods"), "method", "M")
			g, j, m2 := named1(b, st, FieldOf(x, "Methods"), "method", "N")
			if m = first(m, m2); m != "" {
				return m
			}
			if (i > j) != k.rev {
				return "methods can be reordered"
			}
			comments, errs, anns, ni, no, stream := none, none, []string(nil), 0, 0, Bool(false)
			if k.both && k.args != "" {
				ni, no, stream = 1, 1, true
			} else if k.both {
				comments, errs, anns = lines(b, "N"), []Value{v["E3"]}, []string{"Z"}
			}
			count := func(l string, n int) string {
				segs, ok := b.Elems(st, FieldOf(g, l))
				if _, isnil := st.Resolve(FieldOf(g, l)).(Nil); !isnil && (!ok || len(segs) != n || n > 0 && segs[0].Star) {
					return fmt.Sprintf("method N can have %d %s where %d were declared", len(segs), l, n)
				}
				return ""
			}
			if m := first(
				want(b, st, g, "method N", "Comments", comments, "StreamInput", Bool(false), "StreamOutput", stream, "Errors", errs, "Succinct", Bool(false)),
				count("Inputs", ni), count("Outputs", no), annotated(b, st, g, "N", anns...)); m != "" {
				return m
			}
			if k.args != "" {
				args := func(l, p, q string, popt, qopt bool) string {
					pv, i, m := named1(b, st, FieldOf(f, l), "argument", p)
					qv, j, m2 := named1(b, st, FieldOf(f, l), "argument", q)
					if m = first(m, m2); m != "" {
						return m
					}
					if i > j {
						return "arguments can be reordered"
					}
					return first(want(b, st, pv, "argument "+p, "Type.Expr", v[p+".type"], "Optional", Bool(popt)),
						want(b, st, qv, "argument "+q, "Type.Expr", v[q+".type"], "Optional", Bool(qopt)))
				}
				return first(
					want(b, st, f, "method M", "StreamInput", Bool(true), "StreamOutput", Bool(false), "Succinct", Bool(false)),
					args("Inputs", "P", "Q", true, false), args("Outputs", "R", "T", false, true))
			}
			if m := want(b, st, f, "method M", "Comments", lines(b, "M"), "StreamInput", v["in"], "StreamOutput", v["out"], "Errors", []Value{v["E1"], v["E2"]}, "Succinct", Bool(false), "Inputs", none, "Outputs", none); m != "" {
				return m
			}
			return annotated(b, st, f, "M", "X", "Y")
		})
	}
}

// annotated checks the annotations of a method.
func annotated(b *B, st *State, m Value, id string, anns ...string) string {
	ents, rest, ok := b.Ents(st, FieldOf(m, "Annotations"))
	if _, isnil := st.Resolve(FieldOf(m, "Annotations")).(Nil); isnil {
		ok = true
	}
	if !ok || rest != nil || len(ents) != len(anns) {
		return fmt.Sprintf("method %s can have %d annotations where %d were declared", id, len(ents), len(anns))
	}
	for _, e := range ents {
		msg := "an annotation of method " + id + " is not one declared"
		for _, n := range anns {
			if !b.Same(st, e.K, b.Vars[n]) {
				continue
			}
			an, val := e.V, b.Vars[n+".value"]
			if p, ok := st.Resolve(an).(Ptr); ok {
				an = b.Cell(st, p)
			}
			if val == nil {
				val = Str{}
			}
			msg = want(b, st, an, "an annotation", "AnnotationType", b.Vars[n], "Value", val)
		}
		if msg != "" {
			return msg
		}
	}
	return ""
}

// succinct checks methods written with struct names for arguments.
func (c *Ctx) succinct() {
	build := func(in, out bool) func(a *ast) []Value {
		return func(a *ast) []Value {
			b := a.b
			nothing := b.ZStruct(a.t("argumentList"), F{})
			list := func(struc string) Value {
				arg := a.part("ArgumentNode", F{"inlineStruct": a.text(b.Const(struc)), "name": Nil{}, "argumentType": Nil{}, "optional": Bool(false)})
				return b.Struct(a.t("argumentList"), F{"stream": Bool(false), "arguments": b.Seq(a.ptr("ArgumentNode"), arg)})
			}
			f := F{"name": a.word("M"), "comment": Str{}, "proxy": Bool(false), "annotations": Nil{}, "errors": Nil{}, "inputs": nothing, "outputs": nothing}
			if in {
				f["inputs"] = list("GetReq")
			}
			if out {
				f["outputs"] = list("GetResp")
			}
			mk := func(n string) Value {
				return a.part("StructNode", F{"name": a.text(b.Const(n)), "comment": Str{}, "fields": Nil{}})
			}
			s := a.part("ServiceNode", F{"name": a.word("S"), "comment": Str{}, "methods": b.Seq(a.ptr("MethodNode"), a.part("MethodNode", f))})
			return []Value{a.node("StructNode", mk("GetReq")), a.node("ServiceNode", s), a.node("StructNode", mk("GetResp"))}
		}
	}
	if c.ID == "C03" {
		// one direction in succinct form, the other with or without arguments
		for _, in := range []bool{true, false} {
			c.convertTo("one-sided-"+map[bool]string{true: "input", false: "output"}[in], false, build(in, !in), func(b *B, r *Result, s Value) string {
				return "a method succinct in only one direction can be accepted"
			})
		}
		return
	}
	c.convert("succinct", func(a *ast) []Value {
		a.b.E.AnonCap, a.b.E.AppendCap = 2, 8
		return build(true, true)(a)
	}, func(b *B, r *Result, s Value) string {
		st := r.St
		x, _, m := named1(b, st, FieldOf(s, "Services"), "service", "S")
		if m != "" {
			return m
		}
		f, _, m := named1(b, st, FieldOf(x, "Methods"), "method", "M")
		if m != "" {
			return m
		}
		if m := want(b, st, f, "method M", "Succinct", Bool(true), "StreamInput", Bool(false), "StreamOutput", Bool(false)); m != "" {
			return m
		}
		for l, n := range map[string]string{"Inputs": "GetReq", "Outputs": "GetResp"} {
			segs, ok := b.Elems(st, FieldOf(f, l))
			if !ok || len(segs) != 1 || segs[0].Star {
				return "a succinct method can have another number of arguments than one"
			}
			v := segs[0].V
			if p, ok := st.Resolve(v).(Ptr); ok {
				v = b.Cell(st, p)
			}
			arg := strings.ToLower(n[:1]) + n[1:]
			if m := want(b, st, v, "the argument of a succinct method", "Type.Expr", b.Const(n), "Name", b.Const(arg), "Optional", Bool(false)); m != "" {
				return m
			}
		}
		return ""
	})
}

func (c *Ctx) header() {
	keys := []struct{ word, field string }{{"webrpc", "WebrpcVersion"}, {"name", "SchemaName"}, {"version", "SchemaVersion"}, {"basepath", "BasePath"}}
	for _, x := range keys {
		c.convert("header-"+x.word, func(a *ast) []Value {
			d := a.part("DefinitionNode", F{"leftNode": a.text(a.b.Const(x.word)), "rightNode": a.word("the value")})
			o := a.tokenLike("other definition", a.b.Const(x.word))
			other := Star{V: a.node("DefinitionNode", Fresh{T: a.ptr("DefinitionNode"), NonNil: true, Tmpl: &Tmpl{Name: "other definition", F: F{"leftNode": o}}})}
			return []Value{other, a.node("DefinitionNode", d), other}
		}, func(b *B, r *Result, s Value) string {
			return want(b, r.St, s, "the schema", x.field, b.Vars["the value"])
		})
	}
}
