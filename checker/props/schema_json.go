package props

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// contract lists the attributes of a schema that its JSON form has to carry.
var contract = []struct {
	typ    string
	fields []string
}{
	{"WebRPCSchema", []string{"WebrpcVersion", "SchemaName", "SchemaVersion", "BasePath", "Types", "Errors", "Services"}},
	{"Type", []string{"Kind", "Name", "Type", "Fields", "Comments"}},
	{"TypeField", []string{"Name", "Type", "Comments", "Optional", "Value", "Meta"}},
	{"Error", []string{"Code", "Name", "Message", "HTTPStatus"}},
	{"Service", []string{"Name", "Methods", "Comments"}},
	{"Method", []string{"Name", "Annotations", "Comments", "Succinct", "StreamInput", "StreamOutput", "Inputs", "Outputs", "Errors"}},
	{"MethodArgument", []string{"Name", "Type", "Optional"}},
	{"Annotation", []string{"AnnotationType", "Value"}},
}

// jsonField is a field of a struct as encoding/json sees it.
type jsonField struct {
	key    string
	path   string // Go field names
	typ    types.Type
	depth  int
	tagged bool
	str    bool
}

// jsonFields computes the keys of a struct by the rules of encoding/json:
// unexported and "-" fields are left out, untagged embedded structs are
// inlined, and of several fields with one key the shallowest, then the tagged
// one is used, or none if that leaves several.
func jsonFields(t types.Type) (used map[string]jsonField, hidden []jsonField) {
	var all []jsonField
	seen := map[types.Type]bool{}
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			ft := f.Type()
			if p, ok := ft.(*types.Pointer); ok {
				ft = p.Elem()
			}
			_, isStruct := ft.Underlying().(*types.Struct)
			if !f.Exported() && !(f.Embedded() && isStruct) {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			if name == "" && f.Embedded() && isStruct {
				walk(f.Type(), path+f.Name()+".", depth+1)
				continue
			}
			x := jsonField{key: name, path: path + f.Name(), typ: f.Type(), depth: depth, tagged: name != "", str: strings.Contains(","+opts+",", ",string,")}
			if name == "" {
				x.key = f.Name()
			}
			all = append(all, x)
		}
	}
	walk(t, "", 0)
	byKey := map[string][]jsonField{}
	for _, x := range all {
		byKey[x.key] = append(byKey[x.key], x)
	}
	used = map[string]jsonField{}
	for k, l := range byKey {
		sort.SliceStable(l, func(i, j int) bool {
			if l[i].depth != l[j].depth {
				return l[i].depth < l[j].depth
			}
			return l[i].tagged && !l[j].tagged
		})
		if len(l) > 1 && l[0].depth == l[1].depth && l[0].tagged == l[1].tagged {
			hidden = append(hidden, l...)
			continue
		}
		used[k] = l[0]
		hidden = append(hidden, l[1:]...)
	}
	return used, hidden
}

// goField names the field a promoted attribute is.
func goField(t types.Type, name string) (*types.Var, string) {
	o, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	v, ok := o.(*types.Var)
	if !ok {
		return nil, ""
	}
	path, cur := "", t
	for _, i := range idx {
		if p, ok := cur.Underlying().(*types.Pointer); ok {
			cur = p.Elem()
		}
		f := cur.Underlying().(*types.Struct).Field(i)
		if path != "" {
			path += "."
		}
		path += f.Name()
		cur = f.Type()
	}
	return v, path
}

// encodable tells why a type cannot be written to JSON and read back.
func encodable(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return t.String()
		}
	case *types.Chan, *types.Signature:
		return t.String()
	case *types.Pointer:
		return encodable(u.Elem(), seen)
	case *types.Slice:
		return encodable(u.Elem(), seen)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return t.String()
		}
		return encodable(u.Elem(), seen)
	case *types.Interface:
		if u.NumMethods() > 0 {
			return t.String()
		}
	}
	return ""
}

// codecs are the methods by which a type controls its own encoding.
var codecs = []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"}

func init() {
	register("C21", func(c *Ctx) {
		c.Rule("The struct tags of every type the JSON form is made of are read from the type-checked package and resolved by the rules of encoding/json (inlining, shadowing, ambiguous and ignored keys): each contract attribute must have a key of its own, and no type may have an encoding method of its own or promoted from an embedded field, other than a pair whose round trip is decided by abstract execution. By dataflow over SchemaHash and ToJSON, the JSON text is that of the unmodified receiver and the hash is derived from all of it. Validation, run on a schema of which nothing is known, stores to no contract attribute other than the base path and the trimmed error name, so what is read back stays what was written.")
		pkg := c.Core.Pkgs[Schema]
		if pkg == nil {
			panic(Missing{What: Schema})
		}
		keys := 0
		for _, x := range contract {
			x := x
			o := Oblig{Name: "keys-" + x.typ, Verdict: "holds"}
			obj := pkg.Pkg.Scope().Lookup(x.typ)
			if obj == nil {
				panic(Missing{What: Schema + "." + x.typ})
			}
			bad := func(at interface{ Pos() (p int) }, f string, a ...any) {}
			_ = bad
			t := obj.Type()
			used, hidden := jsonFields(t)
			fail := func(v types.Object, f string, a ...any) {
				o.Verdict = "violated"
				c.Violate(o.Name, c.Core.PosString(v.Pos()), fmt.Sprintf(f, a...))
			}
			for _, name := range x.fields {
				v, path := goField(t, name)
				if v == nil {
					fail(obj, "%s has no attribute %s any more", x.typ, name)
					continue
				}
				keys++
				found := false
				for _, u := range used {
					if u.path == path {
						found = true
					}
				}
				if !found {
					why := "it is not written"
					for _, h := range hidden {
						if h.path == path {
							why = fmt.Sprintf("its key %q is also that of another field", h.key)
						}
					}
					fail(v, "the JSON form of a schema does not carry %s.%s: %s", x.typ, name, why)
					continue
				}
				if why := encodable(v.Type(), map[types.Type]bool{}); why != "" {
					fail(v, "%s.%s cannot be written to JSON and read back: %s", x.typ, name, why)
				}
			}
			// own encodings
			ms := types.NewMethodSet(types.NewPointer(t))
			own := map[string]bool{}
			for i := 0; i < ms.Len(); i++ {
				s := ms.At(i)
				for _, n := range codecs {
					if s.Obj().Name() != n {
						continue
					}
					if len(s.Index()) > 1 {
						fail(obj, "%s takes its %s from an embedded field, which replaces all of its JSON form", x.typ, n)
						continue
					}
					own[n] = true
				}
			}
			if own["MarshalJSON"] || own["MarshalText"] {
				c.ownMarshal(x.typ, x.fields)
			}
			if own["UnmarshalJSON"] || own["UnmarshalText"] {
				c.Record(Oblig{Name: "decode-" + x.typ, Verdict: "undecided", Detail: x.typ + " has a decoding method of its own"})
			}
			o.Functions = 1
			c.Record(o)
		}
		c.Counts["json keys"] = keys
		c.jsonText()
		c.varTypeText()
		c.readBack()
		c.validateKeeps()
	})
}

// ownMarshal decides a MarshalJSON method of a contract type: the object it
// encodes has to hold every attribute of the receiver.
func (c *Ctx) ownMarshal(typ string, fields []string) {
	c.Scenario(Scen{Name: "encode-" + typ, Build: func(b *B) (*ssa.Function, []Value) {
		t := b.Type(Schema, typ)
		f := F{}
		for _, n := range fields {
			v, path := goField(t, n)
			if v == nil || strings.Contains(path, ".") {
				continue
			}
			if x, ok := v.Type().Underlying().(*types.Basic); ok {
				switch {
				case x.Info()&types.IsString != 0:
					f[n] = b.StrAtom(n)
				case x.Info()&types.IsBoolean != 0:
					f[n] = b.BoolAtom(n)
				case x.Info()&types.IsInteger != 0:
					f[n] = b.IntAtom(n)
				}
			}
		}
		recv := b.New("the receiver", b.Struct(t, f))
		b.Vars = map[string]Value{"R": recv}
		b.E.Hooks.OnJSON = func(e *Engine, st *State, v Value) {
			v = st.Resolve(v)
			if p, ok := v.(Ptr); ok {
				v = b.Cell(st, p)
			}
			s, ok := v.(Struct)
			if !ok {
				st.SetMon("unmodelled", fmt.Sprintf("an encoding of %s as %T", typ, v))
				return
			}
			used, _ := jsonFields(s.T)
			orig, _ := jsonFields(t)
			whole := b.Cell(st, recv)
			for _, f := range fields {
				_, path := goField(t, f)
				key := ""
				for k, u := range orig {
					if u.path == path {
						key = k
					}
				}
				u, ok := used[key]
				got, want := pathOf(b, st, s, u.path), FieldOf(whole, f)
				if ok && got != nil && b.Same(st, got, want) {
					continue
				}
				_, f1 := got.(Fresh)
				_, f2 := want.(Fresh)
				if _, gone := got.(Nil); got != nil && !gone && (f1 || f2) {
					st.SetMon("unmodelled", "a copy of "+typ)
				}
				st.SetMon("lost", f)
			}
			st.SetMon("encoded", "yes")
		}
		return c.Core.Method(Schema, typ, "MarshalJSON"), []Value{recv}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return ""
		}
		if f := r.St.Mon("lost"); f != "" {
			return "the encoding of " + typ + " does not carry its " + f
		}
		if r.St.Mon("encoded") == "" {
			r.St.SetMon("unmodelled", "an encoding of "+typ)
			return "the encoding of " + typ + " is not understood"
		}
		return ""
	}})
}

func pathOf(b *B, st *State, v Value, path string) Value {
	for _, f := range strings.Split(path, ".") {
		v = st.Resolve(v)
		if p, ok := v.(Ptr); ok {
			v = b.Cell(st, p)
		}
		v = FieldOf(v, f)
		if v == nil {
			return nil
		}
	}
	return v
}

// jsonText decides that the JSON text is the text of the whole schema and
// that the hash is computed from all of it.
func (c *Ctx) jsonText() {
	check := func(name string, f func(b *B, st *State, s, text Str) string) {
		c.Scenario(Scen{Name: name, NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
			d := newDoc(b)
			s := d.schema()
			b.GuardStores(nothing)
			b.Vars = map[string]Value{"S": s}
			return c.Core.Method(Schema, "WebRPCSchema", name), []Value{s}
		}, Check: func(b *B, r *Result) string {
			if k, isnil := r.ErrNil(); k && !isnil {
				return ""
			}
			t, ok := r.Ret.(Tuple)
			if !ok || len(t) != 2 {
				return ""
			}
			s, ok := r.St.Resolve(t[0]).(Str)
			if !ok {
				return name + " can return no text"
			}
			text, ok := b.JSONOf(b.Vars["S"].(Ptr))
			if !ok {
				return name + " can succeed without encoding the schema"
			}
			if m := r.St.Mon("modified"); m != "" {
				return name + " encodes a modified schema: " + m
			}
			return f(b, r.St, b.Text(r.St, s), b.Text(r.St, text))
		}})
	}
	check("ToJSON", func(b *B, st *State, s, text Str) string {
		if len(text.P) == 1 && len(s.P) > 0 && s.P[0] == text.P[0] {
			if len(s.P) == 1 {
				return ""
			}
			if len(s.P) == 2 && s.P[1].Atom == 0 && strings.TrimSpace(s.P[1].C) == "" {
				return ""
			}
		}
		if m := st.Mon("json"); m != "" {
			return "ToJSON can return " + m
		}
		return "ToJSON can return something other than the JSON text of the schema it is called on"
	})
	check("SchemaHash", func(b *B, st *State, s, text Str) string {
		if b.MadeFrom(st, s, text) {
			return ""
		}
		if m := st.Mon("json"); m != "" {
			return "SchemaHash can be computed from " + m
		}
		return "SchemaHash can succeed with a hash that is not computed from the complete JSON text of the schema"
	})
}

// varTypeText decides that a type expression survives writing and reading.
func (c *Ctx) varTypeText() {
	m := c.Core.Method(Schema, "VarType", "MarshalJSON")
	u := c.Core.Method(Schema, "VarType", "UnmarshalJSON")
	if m == nil && u == nil {
		return
	}
	expr := `\A[a-zA-Z0-9_<>,\[\]]+\z`
	c.Scenario(Scen{Name: "write-VarType", NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
		x := b.StrAtom("expr", isRe(expr))
		b.Vars = map[string]Value{"X": x}
		return m, []Value{b.New("the type", b.Struct(b.Type(Schema, "VarType"), F{"Expr": x}))}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return "a type expression cannot be written"
		}
		t, ok := r.Ret.(Tuple)
		if !ok {
			return ""
		}
		want := b.Cat(b.Const(`"`), b.Vars["X"].(Str), b.Const(`"`))
		if got := b.Text(r.St, t[0]); fmt.Sprint(got) != fmt.Sprint(b.Text(r.St, want)) {
			return "a type is not written as its quoted expression"
		}
		return ""
	}})
	c.Scenario(Scen{Name: "read-VarType", NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
		x := b.StrAtom("expr", isRe(expr))
		p := b.New("the type", b.ZStruct(b.Type(Schema, "VarType"), F{}))
		b.Vars = map[string]Value{"X": x, "P": p}
		return u, []Value{p, b.Bytes(b.Cat(b.Const(`"`), x, b.Const(`"`)))}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return "a written type expression can be refused when it is read back"
		}
		if got := FieldOf(b.Cell(r.St, b.Vars["P"].(Ptr)), "Expr"); !b.Same(r.St, got, b.Vars["X"]) {
			return "a type expression can change when it is read back"
		}
		return ""
	}})
}

// readBack decides that the JSON loader returns what was decoded.
func (c *Ctx) readBack() {
	for mask := 0; mask < 8; mask++ {
		c.readBackOf(mask)
	}
}

func (c *Ctx) readBackOf(mask int) {
	c.Scenario(Scen{Name: fmt.Sprintf("ParseSchemaJSON-%d", mask), NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		b.GuardStores(nothing)
		b.Vars = map[string]Value{}
		b.E.Hooks.OnDecode = func(e *Engine, st *State, t types.Type) Value {
			b.St = st
			f := F{}
			for _, n := range contract[0].fields[:4] {
				f[n] = b.StrAtom(n)
			}
			for i, p := range []types.Type{d.pType, d.pErr, d.pSvc} {
				n := contract[0].fields[4+i]
				if mask&(1<<i) == 0 {
					f[n] = Nil{}
					continue
				}
				x := b.New("one of "+n, b.Any(p.(*types.Pointer).Elem()))
				b.Vars[n] = x
				f[n] = b.Seq(p, x)
			}
			s := b.New("the document", b.Struct(d.tSc, f))
			b.Vars["S"] = b.Cell(st, s)
			p, isP := t.Underlying().(*types.Pointer)
			switch {
			case types.Identical(t, d.tSc):
				return b.Cell(st, s)
			case isP && types.Identical(p.Elem(), d.tSc):
				return s
			}
			st.SetMon("unmodelled", "decoding into "+t.String())
			return nil
		}
		b.E.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
			if fn == c.Core.Method(Schema, "WebRPCSchema", "Validate") {
				k(st, Nil{})
				return true
			}
			return false
		}
		return c.Core.FuncOf(Schema, "ParseSchemaJSON"), []Value{b.Bytes(b.StrAtom("text"))}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return ""
		}
		t, ok := r.Ret.(Tuple)
		if !ok {
			return ""
		}
		if m := r.St.Mon("modified"); m != "" {
			return "reading a document back changes " + m
		}
		p, ok := r.St.Resolve(t[0]).(Ptr)
		if !ok {
			return "reading a document can succeed without returning it"
		}
		got, want := b.Cell(r.St, p), b.Vars["S"]
		for _, n := range contract[0].fields {
			same := false
			if _, isList := FieldOf(want, n).(Str); !isList {
				l, ok := b.Elems(r.St, FieldOf(got, n))
				x := b.Vars[n]
				same = ok && (x == nil && len(l) == 0 || x != nil && len(l) == 1 && b.Same(r.St, l[0].V, x))
			} else {
				same = b.Same(r.St, FieldOf(got, n), FieldOf(want, n))
			}
			if !same {
				return "reading a document back changes " + n
			}
		}
		return ""
	}})
}

// validateKeeps decides that validation leaves the contract attributes alone.
func (c *Ctx) validateKeeps() {
	table := map[string]bool{}
	for _, x := range contract {
		t := c.Core.Pkgs[Schema].Pkg.Scope().Lookup(x.typ)
		for _, f := range x.fields {
			v, path := goField(t.Type(), f)
			if v == nil {
				continue
			}
			if i := strings.IndexByte(path, '.'); i > 0 {
				f = path[:i]
			}
			table[x.typ+"."+f] = true
		}
	}
	delete(table, "WebRPCSchema.BasePath")
	delete(table, "Error.Name")
	allowed := func(t types.Type, field string) bool {
		n, ok := t.(*types.Named)
		if !ok {
			return false
		}
		if n.Obj().Name() == "VarType" {
			return field != "Expr"
		}
		return !table[n.Obj().Name()+"."+field]
	}
	run := func(name string, build func(b *B) (*ssa.Function, []Value)) {
		msg := func(st *State) string {
			if st == nil {
				return ""
			}
			if m := st.Mon("modified"); m != "" {
				return "validation changes " + m
			}
			return ""
		}
		c.Scenario(Scen{Name: name, Build: build,
			Check: func(b *B, r *Result) string { return msg(r.St) }})
	}
	run("validate-keeps", func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		b.GuardStores(allowed)
		b.E.Summarise("(*" + Schema + ".VarType).Parse")
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
	})
}
