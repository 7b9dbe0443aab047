package props

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// query is an entry point that must not change what it is given.
type query struct {
	typ, name string
	args      func(d *doc) []Value
}

func init() {
	register("C18", func(c *Ctx) {
		c.Rule("Every query (GetTypeByName, GetServiceByName, SchemaHash, ToJSON, RequiredFields, the bigint helpers, and every String, MarshalJSON, MarshalText, GoString, Format and Error method of the package, enumerated from the type-checked package because the JSON encoder and fmt call them) is propagated from a schema of which nothing is known; every abstract store, map update, delete, clear, in-place append, copy or sort that can change an object that existed before the call is a violation.")
		all := func(d *doc) []Value { return nil }
		str := func(d *doc) []Value { return []Value{d.b.StrAtom("name")} }
		qs := []query{
			{"WebRPCSchema", "GetTypeByName", str}, {"WebRPCSchema", "GetServiceByName", str},
			{"WebRPCSchema", "SchemaHash", all}, {"WebRPCSchema", "ToJSON", all},
			{"Type", "RequiredFields", all},
			{"", "SchemaUsesBigInts", all},
			{"", "SchemaBigIntFieldsByType", func(d *doc) []Value { return []Value{Nil{}} }},
			{"", "SchemaBigIntFieldsByType", func(d *doc) []Value {
				return []Value{d.b.Seq(types.Typ[types.Bool], d.b.BoolAtom("compat"))}
			}},
		}
		printers := map[string]bool{"String": true, "MarshalJSON": true, "MarshalText": true, "GoString": true, "Error": true, "Format": true}
		var extra []string
		pkg := c.Core.Pkgs[Schema]
		if pkg == nil {
			panic(Missing{What: Schema})
		}
		for n, m := range pkg.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(t.Type()))
			for i := 0; i < ms.Len(); i++ {
				f, ok := ms.At(i).Obj().(*types.Func)
				if ok && f.Pkg() != nil && f.Pkg().Path() == Schema && printers[f.Name()] && len(ms.At(i).Index()) == 1 {
					extra = append(extra, n+" "+f.Name())
				}
			}
		}
		sort.Strings(extra)
		for _, x := range extra {
			for i := range x {
				if x[i] == ' ' {
					qs = append(qs, query{x[:i], x[i+1:], all})
				}
			}
		}
		for i, q := range qs {
			name := q.typ + "." + q.name
			if i == 7 {
				name += "-compat"
			}
			c.Scenario(Scen{Name: name, Build: func(b *B) (*ssa.Function, []Value) {
				d := newDoc(b)
				b.GuardStores(nothing)
				if q.typ == "" {
					return c.Core.FuncOf(Schema, q.name), append([]Value{d.schema()}, q.args(d)...)
				}
				fn := c.Core.Method(Schema, q.typ, q.name)
				if fn == nil {
					return nil, nil
				}
				args := append([]Value{b.New("the receiver", b.Any(b.Type(Schema, q.typ)))}, q.args(d)...)
				for len(args) < len(fn.Params) {
					args = append(args, b.Any(fn.Params[len(args)].Type()))
				}
				return fn, args
			}, Check: func(b *B, r *Result) string {
				if m := r.St.Mon("modified"); m != "" {
					return q.name + " can change " + m
				}
				return ""
			}, Out: func(b *B, o *Outcome) string {
				if o.St == nil {
					return ""
				}
				if m := o.St.Mon("modified"); m != "" {
					return q.name + " can change " + m
				}
				return ""
			}})
		}
	})
}
