package props

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// validatedLast notes the validations that succeed, and what changes a schema
// after the last of them.
func (c *Ctx) validatedLast(b *B) {
	validate := c.Core.Method(Schema, "WebRPCSchema", "Validate")
	prev := b.E.Hooks.OnResult
	b.E.Hooks.OnResult = func(e *Engine, act *Activation, st *State, ret Value) {
		if prev != nil {
			prev(e, act, st, ret)
		}
		if act.Fn == validate {
			if _, isnil := st.Resolve(ret).(Nil); isnil {
				st.SetMon("validated", "yes")
				st.SetMon("stale", "")
			}
		}
	}
	b.OnChange(func(st *State, t types.Type, field, pos string, p Ptr) {
		if st.Mon("validated") == "" || st.Mon("stale") != "" {
			return
		}
		if n := namedOf(elemOf(t)); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Schema {
			if field == "" {
				field = "an element"
			}
			st.SetMon("stale", field+" of "+n.Obj().Name()+" at "+pos)
		}
	})
}

func elemOf(t types.Type) types.Type {
	for {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		default:
			return t
		}
	}
}

// stale tells what was changed after the last validation.
func stale(st *State) string {
	if m := st.Mon("stale"); m != "" {
		return "the schema can be changed after it was validated: " + m
	}
	return ""
}

// flaw is a way in which a schema is not valid.
type flaw struct {
	name, what string
	build      func(d *doc)
}

// flaws has one for each kind of element, at any place among others.
func flaws() []flaw {
	var out []flaw
	add := func(name, what string, build func(d *doc)) { out = append(out, flaw{name, what, build}) }
	typ := func(d *doc, kind string, f F) {
		f["Kind"] = d.b.Const(kind)
		d.Types = d.among(d.pType, d.typ("type T", f))
	}
	noType := func(d *doc) Value { return d.vtype("reference V", F{"Expr": d.b.Const("")}) }
	add("version", "another webrpc version", func(d *doc) {
		d.header["WebrpcVersion"] = d.b.StrAtom("webrpc version", notRe(`\Av1\z`))
	})
	for _, k := range []string{"struct", "enum", "alias"} {
		add("name-"+k, "an invalid "+k+" name", func(d *doc) { typ(d, k, F{"Name": d.b.StrAtom("T.Name", notRe(`\A\p{Lu}`))}) })
	}
	for _, k := range []string{"struct", "enum"} {
		add("member-"+k, "an invalid member of "+k, func(d *doc) {
			typ(d, k, F{"Fields": d.among(d.pField, d.field("field F", F{"Name": d.b.Const("1")}))})
		})
	}
	add("field-type", "a field without a type expression", func(d *doc) {
		typ(d, "struct", F{"Fields": d.among(d.pField, d.field("field F", F{"Type": noType(d)}))})
	})
	for _, k := range []string{"enum", "alias"} {
		add("type-of-"+k, "an "+k+" without a type expression", func(d *doc) { typ(d, k, F{"Type": noType(d)}) })
	}
	add("error-code", "an invalid error code", func(d *doc) {
		d.Errors = d.among(d.pErr, d.err("error E", F{"Code": d.b.IntAtom("E.Code", Rng{MinI, 0})}))
	})
	add("error-status", "an invalid HTTP status", func(d *doc) {
		d.Errors = d.among(d.pErr, d.err("error E", F{"HTTPStatus": d.b.IntAtom("E.HTTPStatus", Rng{600, MaxI})}))
	})
	add("service-name", "a service without a name", func(d *doc) {
		d.Services = d.among(d.pSvc, d.svc("service S", F{"Name": d.b.Const("")}))
	})
	add("method-name", "a method without a name", func(d *doc) {
		d.Services = d.inService(d.meth("method M", F{"Name": d.b.Const("")}))
	})
	for _, dir := range []string{"Inputs", "Outputs"} {
		add("argument-name-"+dir, "an argument ("+dir+") without a name", func(d *doc) {
			d.Services = d.inService(d.meth("method M", F{dir: d.among(d.pArg, d.arg("argument A", F{"Name": d.b.Const("")}))}))
		})
		add("argument-type-"+dir, "an argument ("+dir+") without a type expression", func(d *doc) {
			d.Services = d.inService(d.meth("method M", F{dir: d.among(d.pArg, d.arg("argument A", F{"Type": noType(d)}))}))
		})
	}
	return out
}

// entry is an exported way to validate or load a document.
type entry struct {
	name string
	path string // of the file, if it is one
}

func init() {
	register("C07", func(c *Ctx) {
		c.Rule("(a) for each kind of element an abstract document with an invalid one among any others is propagated through Validate and through every way to load JSON: no path may return a nil error; (b) webrpc.ParseSchemaFile, validation included, is evaluated on trees of RIDL files with a flaw in the file itself, in an imported file (imported as a whole or in parts), below it, or only in the merged schema: no path may return a nil error; (c) on paths that do, nothing of a schema may be changed after the last validation that succeeded")
		entries := []entry{{"Validate", ""}, {"ParseSchemaJSON", ""}, {"file", "/dir/schema.json"}, {"file2", "/dir/x.gen.json"}}
		for _, en := range entries {
			for _, fl := range flaws() {
				c.flawed(en, fl)
			}
			c.flawed(en, flaw{})
		}
		for _, t := range flawedTrees() {
			c.fileTree(t)
		}
	})
}

// flawed evaluates an entry for documents with a flaw, or without one.
func (c *Ctx) flawed(en entry, fl flaw) {
	name := en.name + " " + fl.name
	if fl.build == nil {
		name = en.name + " accepts"
	}
	c.Scenario(Scen{Name: name, NeedNil: fl.build == nil, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		if !strings.Contains(fl.name, "type") || fl.build == nil {
			b.E.Summarise("(*" + Schema + ".VarType).Parse")
		}
		document := func() Ptr {
			if fl.build != nil {
				fl.build(d)
			}
			return d.schema()
		}
		if en.name == "Validate" {
			s := document()
			return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{s}
		}
		if fl.build == nil {
			c.validatedLast(b)
		}
		b.E.Hooks.OnDecode = func(e *Engine, st *State, t types.Type) Value {
			b.St = st
			s := document()
			p, isP := t.Underlying().(*types.Pointer)
			switch {
			case types.Identical(t, d.tSc):
				return b.Cell(st, s)
			case isP && types.Identical(p.Elem(), d.tSc):
				return s
			}
			st.SetMon("unmodelled", "decoding into "+t.String())
			return nil
		}
		if en.path == "" {
			return c.Core.FuncOf(Schema, "ParseSchemaJSON"), []Value{b.Bytes(b.StrAtom("text"))}
		}
		b.E.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
			switch fn.String() {
			case "path/filepath.Abs":
				k(st, Tuple{args[0], Nil{}})
			case "os.ReadFile":
				b.St = st
				k(st, Tuple{b.Bytes(b.StrAtom("text")), Nil{}})
			default:
				return false
			}
			return true
		}
		return c.Core.FuncOf("github.com/webrpc/webrpc", "ParseSchemaFile"), []Value{b.Const(en.path)}
	}, Check: func(b *B, r *Result) string {
		if fl.build == nil {
			if k, isnil := r.ErrNil(); k && !isnil {
				return ""
			}
			return stale(r.St)
		}
		if k, isnil := r.ErrNil(); !k || isnil {
			return "a schema with " + fl.what + " can be accepted"
		}
		return ""
	}})
}

// flawedTrees are trees of files of which one, or the merged schema, is not valid.
func flawedTrees() []tree {
	var ts []tree
	const hdr = "webrpc = v1\nname = n\nversion = v1\n"
	type part struct {
		name, what, good, bad string
	}
	for _, f := range []part{
		{"type", "a field whose type is not declared", "struct A\n  - f: string\n", "struct A\n  - f: Nope\n"},
		{"twice", "a type declared twice", "struct A\n  - f: string\nstruct B\n  - f: string\n", "struct A\n  - f: string\nstruct A\n  - g: string\n"},
		{"alias", "an alias whose name is not valid", "type A: string\n", "type a: string\n"},
		{"members", "an enum member used twice", "enum E: uint8\n  - a\n  - b\n", "enum E: uint8\n  - a\n  - A\n"},
		{"field", "a field name used twice", "struct A\n  - f: string\n  - g: string\n", "struct A\n  - f: string\n  - F: int\n"},
		{"enum", "an enum of another type", "enum E: uint8\n  - a\n", "enum E: bool\n  - a\n"},
		{"code", "an error code that is not positive", "error 1 X \"t\"\n", "error 0 X \"t\"\n"},
		{"codes", "an error code used twice", "error 1 X \"t\"\nerror 2 Y \"t\"\n", "error 1 X \"t\"\nerror 1 Y \"t\"\n"},
		{"status", "an error with another HTTP status", "error 1 X \"t\" HTTP 404\n", "error 1 X \"t\" HTTP 200\n"},
		{"methods", "a method name used twice", "service V\n  - m()\n  - n()\n", "service V\n  - m()\n  - m()\n"},
		{"nomethods", "a service without methods", "service V\n  - m()\n", "service V\n"},
		{"services", "a service declared twice", "service V\n  - m()\nservice W\n  - m()\n", "service V\n  - m()\nservice V\n  - n()\n"},
		{"input", "an input whose type is not declared", "service V\n  - m(a: string)\n", "service V\n  - m(a: Nope)\n"},
		{"output", "an output whose type is not declared", "service V\n  - m() => (a: string)\n", "service V\n  - m() => (a: []Nope)\n"},
		{"errors", "a method with an error that is not declared", "service V\n  - m() errors X\nerror 1 X \"t\"\n", "service V\n  - m() errors Y\nerror 1 X \"t\"\n"},
	} {
		imp := func(ps ...string) string { return "import\n  - " + strings.Join(ps, "\n  - ") + "\n" }
		part := "import x.ridl\n  - P\n"
		own := "struct Own\n  - f: string\n"
		p, q := "struct P\n  - f: string\n", "struct Q\n  - f: string\n"
		for _, bad := range []bool{true, false} {
			x := f.good
			want, why, name := "ok", "", "good"
			if bad {
				x, want, why, name = f.bad, "", " although one has "+f.what, "bad"
			}
			add := func(place string, files map[string]string) {
				ts = append(ts, tree{plainTree{"files " + f.name + " " + place + " " + name, "main.ridl", files, want}, why, true})
			}
			add("root", map[string]string{"main.ridl": hdr + own + x})
			add("root-imports", map[string]string{"main.ridl": hdr + imp("x.ridl") + x, "x.ridl": hdr + p})
			add("import", map[string]string{"main.ridl": hdr + imp("x.ridl") + own, "x.ridl": hdr + p + x})
			add("part", map[string]string{"main.ridl": hdr + part + own, "x.ridl": hdr + p + x})
			add("second", map[string]string{"main.ridl": hdr + imp("y.ridl", "x.ridl") + own, "x.ridl": hdr + p + x, "y.ridl": hdr + q})
			add("nested", map[string]string{"main.ridl": hdr + imp("y.ridl") + own, "x.ridl": hdr + p + x, "y.ridl": hdr + imp("x.ridl") + q})
			add("nested-part", map[string]string{"main.ridl": hdr + imp("y.ridl") + own, "x.ridl": hdr + p + x, "y.ridl": hdr + part + q})
			add("part-of-nested", map[string]string{"main.ridl": hdr + "import y.ridl\n  - Q\n" + own, "x.ridl": hdr + p + x, "y.ridl": hdr + part + q})
		}
	}
	// only the merged schema is not valid
	for _, m := range []struct{ name, what, x, y string }{
		{"types", "the same type", "struct A\n  - f: string\n", "struct A\n  - g: string\n"},
		{"kinds", "the same type", "struct A\n  - f: string\n", "enum A: uint8\n  - g\n"},
		{"codes", "the same error code", "error 1 X \"t\"\n", "error 1 Y \"t\"\n"},
		{"errors", "the same error", "error 1 X \"t\"\n", "error 2 X \"t\"\n"},
		{"services", "the same service", "service V\n  - m()\n", "service V\n  - n()\n"},
	} {
		for _, order := range []string{"root", "both", "nested"} {
			files := map[string]string{"x.ridl": hdr + m.x, "y.ridl": hdr + m.y}
			switch order {
			case "root":
				files = map[string]string{"main.ridl": hdr + "import\n  - x.ridl\n" + m.y, "x.ridl": hdr + m.x}
			case "both":
				files["main.ridl"] = hdr + "import\n  - x.ridl\n  - y.ridl\n"
			case "nested":
				files["main.ridl"] = hdr + "import\n  - y.ridl\n"
				files["y.ridl"] = hdr + "import\n  - x.ridl\n" + m.y
			}
			ts = append(ts, tree{plainTree{"merged " + m.name + " " + order, "main.ridl", files, ""}, " although two of them declare " + m.what, true})
		}
	}
	return ts
}
