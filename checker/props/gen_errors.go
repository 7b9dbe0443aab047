package props

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// published lists the built-in errors that generated clients and servers rely
// on: code, name, HTTP status.
var published = []struct {
	code   int64
	name   string
	status int64
}{
	{0, "WebrpcEndpoint", 400},
	{-1, "WebrpcRequestFailed", 400},
	{-2, "WebrpcBadRoute", 404},
	{-3, "WebrpcBadMethod", 405},
	{-4, "WebrpcBadRequest", 400},
	{-5, "WebrpcBadResponse", 500},
	{-6, "WebrpcServerPanic", 500},
	{-7, "WebrpcInternalError", 500},
	{-8, "WebrpcClientAborted", 400},
	{-9, "WebrpcStreamLost", 400},
	{-10, "WebrpcStreamFinished", 200},
}

// builtinErrors judges a table of errors; unknown tells what is not known of it.
func builtinErrors(b *B, st *State, list Value) (wrong, unknown string) {
	segs, ok := b.Elems(st, list)
	if !ok {
		return "", "the table of built-in errors"
	}
	type entry struct {
		code, status int64
		name         string
	}
	var es []entry
	declared := func(v Value) bool {
		for _, d := range b.Vars {
			if v != nil && b.Same(st, v, d) {
				return true
			}
		}
		return false
	}
	for i, s := range segs {
		if s.Star {
			if declared(st.Resolve(s.V)) {
				return "the table has errors the schema declares in it", ""
			}
			return "", "the length of the table of built-in errors"
		}
		v := st.Resolve(s.V)
		switch x := v.(type) {
		case Nil:
			return fmt.Sprintf("entry %d is nil", i), ""
		case Ptr:
			v = b.Cell(st, x)
		}
		for _, f := range []string{"Code", "Name", "HTTPStatus"} {
			if declared(FieldOf(v, f)) {
				return fmt.Sprintf("entry %d depends on what the schema declares", i), ""
			}
		}
		code, ok1 := st.Resolve(FieldOf(v, "Code")).(Int)
		status, ok2 := st.Resolve(FieldOf(v, "HTTPStatus")).(Int)
		name, ok3 := st.Resolve(FieldOf(v, "Name")).(Str)
		n, ok4 := name.Const()
		if !ok1 || !ok2 || !ok3 || !ok4 || !code.IsConst() || !status.IsConst() {
			return "", fmt.Sprintf("entry %d of the table of built-in errors", i)
		}
		es = append(es, entry{code.C, status.C, n})
	}
	for i, e := range es {
		if e.code > 0 {
			return fmt.Sprintf("%s has the positive code %d", e.name, e.code), ""
		}
		if !strings.HasPrefix(e.name, "Webrpc") {
			return fmt.Sprintf("the name %q does not start with Webrpc", e.name), ""
		}
		for _, f := range es[:i] {
			if e.code == f.code {
				return fmt.Sprintf("%s and %s share the code %d", f.name, e.name, e.code), ""
			}
			if strings.EqualFold(e.name, f.name) {
				return fmt.Sprintf("the codes %d and %d share the name %s", f.code, e.code, e.name), ""
			}
		}
	}
	for _, p := range published {
		found := false
		for _, e := range es {
			switch {
			case e.code == p.code && e.name == p.name:
				found = true
				if e.status != p.status {
					return fmt.Sprintf("%s has the HTTP status %d and not %d as published", p.name, e.status, p.status), ""
				}
			case e.code == p.code:
				return fmt.Sprintf("code %d is %s and not %s as published", p.code, e.name, p.name), ""
			case e.name == p.name:
				return fmt.Sprintf("%s has code %d and not %d as published", p.name, e.code, p.code), ""
			}
		}
		if !found {
			return fmt.Sprintf("%s (%d) is missing", p.name, p.code), ""
		}
	}
	return "", ""
}

func init() {
	register("C25", func(c *Ctx) {
		if err := c.LoadGen(); err != nil {
			c.Record(Oblig{Name: "load", Verdict: "undecided", Detail: err.Error()})
			return
		}
		c.Rule("the package initialisers and the generator are evaluated abstractly; the error table that is handed to a template on any path has pairwise distinct codes and (case-insensitively) names, no positive code, only names starting with Webrpc, and every published pair of code and name with its HTTP status; and no path of Validate accepts a declared error with such a code or name")
		c.errorCode()
		c.errorName()
		generate := c.Gen.FuncOf(GenPkg, "Generate")
		c.Scenario(Scen{Name: "declared", Prog: c.Gen, Build: func(b *B) (*ssa.Function, []Value) {
			if c.Gen.Pkgs[GenPkg].Var("WebrpcErrors") == nil {
				panic("the built-in errors are no variable of the package")
			}
			f := c.Gen.FuncOf(GenPkg, "isLocalDir")
			if f == nil {
				panic("no function to start from")
			}
			return f, []Value{b.StrAtom("x")}
		}, Check: func(b *B, r *Result) string {
			wrong, unknown := builtinErrors(b, r.St, b.Global(r.St, GenPkg, "WebrpcErrors"))
			if unknown != "" {
				r.St.SetMon("unmodelled", unknown)
				return unknown
			}
			return wrong
		}})
		handed := 0
		wrong, unknown := "", ""
		c.Scenario(Scen{Name: "handed-to-templates", Prog: c.Gen, Build: func(b *B) (*ssa.Function, []Value) {
			if generate == nil {
				panic(Missing{What: GenPkg + ".Generate"})
			}
			r := &cmdRun{c: c, onCall: func(b *B, e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
				if outer(fn) != "text/template" || fn.Name() != "ExecuteTemplate" && fn.Name() != "Execute" {
					return false
				}
				handed++
				v := st.Resolve(args[len(args)-1])
				if i, ok := v.(Iface); ok {
					v = st.Resolve(i.V)
				}
				if p, ok := v.(Ptr); ok {
					v = b.Cell(st, p)
				}
				list := FieldOf(v, "WebrpcErrors")
				if list == nil {
					unknown = "what the template is given"
					return false
				}
				w, u := builtinErrors(b, st, list)
				if st.Mon("unmodelled") != "" && w != "" {
					w, u = "", "what the template is given"
				}
				if w != "" {
					wrong = w
				}
				if u != "" {
					unknown = u
				}
				return false
			}}
			r.hooks(b)
			var args []Value
			for i := 0; i < generate.Signature.Params().Len(); i++ {
				t := generate.Signature.Params().At(i).Type()
				_, isPtr := t.Underlying().(*types.Pointer)
				if isPtr && typeName(t.(*types.Pointer).Elem()) == "WebRPCSchema" {
					// the schema declares one error
					code, name, status := b.IntAtom("declared code"), b.StrAtom("declared name"), b.IntAtom("declared status")
					decl := b.New("declared error", b.Struct(b.Type(Schema, "Error"), F{"Code": code, "Name": name, "HTTPStatus": status}))
					b.Vars = map[string]Value{"error": decl, "code": code, "name": name, "status": status}
					sc := b.Struct(b.Type(Schema, "WebRPCSchema"), F{"Errors": b.Seq(types.NewPointer(b.Type(Schema, "Error")), decl)})
					args = append(args, b.New("schema", sc))
					continue
				}
				args = append(args, b.E.Inst(b.St, t, isPtr))
			}
			return generate, args
		}, Found: func(b *B) string {
			return wrong // on a path that was followed, whatever became of others
		}, Done: func(b *B, _ []*Result) string {
			switch {
			case wrong != "":
			case unknown != "":
				panic(unknown)
			case handed == 0:
				panic("no template is executed")
			}
			return ""
		}})
	})
}
