package props

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// outer is the package a function (or closure, or instance) belongs to.
func outer(fn *ssa.Function) string {
	for fn != nil {
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Path()
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg().Path()
		}
		fn = fn.Parent()
	}
	return ""
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// anything makes the results of a call to code that is not followed: any
// result, and every error the call can return.
func anything(e *Engine, st *State, fn *ssa.Function, k func(*State, Value), failed func(*State)) {
	res := fn.Signature.Results()
	n := res.Len()
	mk := func(st *State, nonNil bool, err Value) Value {
		t := make(Tuple, n)
		for i := range t {
			t[i] = e.Inst(st, res.At(i).Type(), nonNil)
		}
		if err != nil {
			t[n-1] = err
		}
		switch n {
		case 0:
			return nil
		case 1:
			return t[0]
		}
		return t
	}
	if n == 0 || !isError(res.At(n-1).Type()) {
		k(st, mk(st, true, nil))
		return
	}
	bad := st.Clone()
	k(st, mk(st, true, Nil{}))
	failed(bad)
	k(bad, mk(bad, false, e.ErrorValue(bad, fn.Name())))
}

// library tells whether a call of a library function in the generator or its
// command may fail without the command failing.
func mayFail(caller string, fn *ssa.Function) bool {
	name := fn.String()
	switch {
	case strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "fmt.Print"):
		return true // nobody is left to tell
	case fn.Name() == "Close" || name == "os.Stat" || name == "os.Lstat" || fn.Name() == "Sync":
		return true
	case name == "os.Remove" || name == "os.RemoveAll":
		return true
	}
	if caller == GenPkg {
		// the cache of remote templates, see C23
		switch p := outer(fn); {
		case p == "os", p == "io", p == "io/fs", p == "strconv", p == "time", p == "encoding/json":
			return true
		case p == "path", p == "path/filepath":
			return true
		case strings.Contains(p, "gitfs"), strings.HasSuffix(p, "httpfs/vfsutil"), strings.HasSuffix(p, "httpfs/path/vfspath"):
			return true
		}
	}
	return false
}

// cmdRun evaluates the command. Everything it calls in libraries and in the
// schema packages may succeed or fail; "failed" tells what has failed.
type cmdRun struct {
	c       *Ctx
	written string // output written after a failure, or before the code was generated
	onCall  func(b *B, e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool
}

func fail(st *State, what string) {
	if st.Mon("failed") == "" {
		st.SetMon("failed", what)
	}
}

func (r *cmdRun) hooks(b *B) {
	handling := r.errorHandling()
	b.E.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
		caller := ""
		if act != nil && act.Fn != nil {
			caller = outer(act.Fn)
		}
		if r.onCall != nil && r.onCall(b, e, act, st, fn, args, k) {
			return true
		}
		if v, ok := e.FlagCell(st, fn, args); ok {
			k(st, v)
			return true
		}
		pkg := outer(fn)
		if pkg == CmdPkg || pkg == GenPkg {
			return false
		}
		name := fn.String()
		if fn.Origin() != nil {
			name = fn.Origin().String()
		}
		switch name {
		case "(*flag.FlagSet).Parse":
			if handling != 0 {
				k(st, Nil{}) // does not return after a failure
				return true
			}
			anything(e, st, fn, k, func(s *State) { fail(s, "parsing the flags") })
			return true
		case "os.WriteFile", "os.Create", "os.OpenFile":
			if caller == CmdPkg && r.written == "" && st.Mon("unmodelled") == "" {
				if f := st.Mon("failed"); f != "" && f != "formatting" {
					r.written = "output is written although " + f + " has failed"
				} else if st.Mon("generated") == "" && r.c.Gen.FuncOf(GenPkg, "Generate") != nil {
					r.written = "output is written before the code is generated"
				}
			}
		case "golang.org/x/tools/imports.Process", "go/format.Source":
			anything(e, st, fn, k, func(s *State) { fail(s, "formatting") })
			return true
		}
		if fn.Name() == "ExecuteTemplate" || fn.Name() == "Execute" && pkg == "text/template" {
			e.WriteAny(act, st, args[1], func(s *State) {
				anything(e, s, fn, k, func(s *State) { fail(s, "ExecuteTemplate") })
			})
			return true
		}
		if caller == CmdPkg && printsCode(b, e, st, fn, args) {
			anything(e, st, fn, k, func(s *State) { fail(s, "printing the generated code") })
			return true
		}
		if !strings.HasPrefix(pkg, Root) && (e.HasModel(fn) || fn.Signature.Results().Len() == 0 && fn.Blocks == nil) {
			return false
		}
		if fn.Synthetic != "" && fn.Blocks != nil && fn.Object() == nil {
			return false
		}
		anything(e, st, fn, k, func(s *State) {
			if !mayFail(caller, fn) {
				fail(s, fn.Name())
			}
		})
		return true
	}
	b.E.Hooks.OnResult = func(e *Engine, act *Activation, st *State, ret Value) {
		pkg := outer(act.Fn)
		res := act.Fn.Signature.Results()
		if n := res.Len(); n == 0 || !isError(res.At(n-1).Type()) {
			return
		}
		generate := pkg == GenPkg && act.Fn.Name() == "Generate"
		if pkg != CmdPkg && !generate {
			return
		}
		err := st.Resolve(ret)
		if t, ok := err.(Tuple); ok {
			err = st.Resolve(t[len(t)-1])
		}
		switch isnil, known := ErrIsNil(st, err); {
		case known && isnil && generate:
			st.SetMon("generated", "yes")
		case known && !isnil:
			fail(st, act.Fn.Name())
		}
	}
}

// printsCode tells whether a call prints what Generate has returned to a file.
func printsCode(b *B, e *Engine, st *State, fn *ssa.Function, args []Value) bool {
	name := fn.String()
	if fn.Signature.Results().Len() == 0 || len(args) == 0 {
		return false
	}
	switch {
	case strings.HasPrefix(name, "fmt.Print"):
	case strings.HasPrefix(name, "fmt.Fprint"):
		w, ok := st.Resolve(args[0]).(Iface)
		if !ok || w.T == nil || w.T.String() != "*os.File" {
			return false
		}
		args = args[1:]
	default:
		return false
	}
	code := map[ID]bool{}
	for _, v := range b.CellsOf(st, "GenOutput") {
		atoms(b, st, FieldOf(v, "Code"), code)
	}
	said := map[ID]bool{}
	for _, a := range args {
		atoms(b, st, a, said)
	}
	for id := range said {
		if code[id] {
			return true
		}
	}
	return false
}

// atoms collects the unknown parts of the text in a value.
func atoms(b *B, st *State, v Value, to map[ID]bool) {
	switch x := st.Resolve(v).(type) {
	case Str:
		for _, p := range x.P {
			if p.Atom != 0 {
				to[p.Atom] = true
			}
		}
	case Iface:
		atoms(b, st, x.V, to)
	case Slice:
		if segs, ok := b.Elems(st, x); ok {
			for _, s := range segs {
				if !s.Star {
					atoms(b, st, s.V, to)
				}
			}
		}
		atoms(b, st, b.Text(st, x), to)
	}
}

// errorHandling is how the flag set of the command treats failures: 0 when
// Parse returns the error.
func (r *cmdRun) errorHandling() int64 {
	mode := int64(1)
	for fn := range r.c.Gen.Functions(CmdPkg) {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := call.Common().StaticCallee(); f != nil && (f.String() == "flag.NewFlagSet" || f.String() == "(*flag.FlagSet).Init") {
					if k, ok := call.Common().Args[len(call.Common().Args)-1].(*ssa.Const); ok && k.Int64() == 0 {
						mode = 0
					}
				}
			}
		}
	}
	return mode
}

func exitsZero(o *Outcome, st *State) bool {
	if o.Kind != "exit" {
		return false
	}
	n, ok := st.Resolve(o.Code).(Int)
	return !ok || !n.IsConst() || n.C == 0
}

// command evaluates main: no path on which something failed, or on which
// never holds, ends with status zero.
func (c *Ctx) command(name, never string, set func(b *B, flag func(name string, v Value))) {
	r := &cmdRun{c: c}
	ends := 0
	c.Scenario(Scen{Name: name, Prog: c.Gen, MaxStates: 600000, Build: func(b *B) (*ssa.Function, []Value) {
		r.hooks(b)
		if set != nil {
			set(b, func(name string, v Value) {
				p, ok := b.E.Flags[name]
				if !ok {
					panic("the flag -" + name + " is defined in another way")
				}
				b.SetBase(p, v)
			})
		}
		main := c.Gen.FuncOf(CmdPkg, "main")
		if main == nil {
			panic(Missing{What: CmdPkg + ".main"})
		}
		return main, nil
	}, Check: func(b *B, res *Result) string {
		ends++
		if never != "" {
			return "the command succeeds " + never
		}
		if f := res.St.Mon("failed"); f != "" {
			return "the command succeeds although " + f + " has failed"
		}
		return ""
	}, Out: func(b *B, o *Outcome) string {
		if !exitsZero(o, o.St) {
			return ""
		}
		ends++
		if never != "" {
			return "the command succeeds " + never
		}
		if f := o.St.Mon("failed"); f != "" {
			return "the command exits with status 0 although " + f + " has failed"
		}
		return ""
	}, Done: func(b *B, _ []*Result) string {
		if r.written == "" && never == "" && ends == 0 {
			panic("no successful end was found")
		}
		return r.written
	}})
}

func init() {
	register("C24", func(c *Ctx) {
		if err := c.LoadGen(); err != nil {
			c.Record(Oblig{Name: "load", Verdict: "undecided", Detail: err.Error()})
			return
		}
		c.Rule("dataflow of failures through the command: main and the generator are evaluated abstractly with every flag arbitrary, every call they make into libraries and schema packages either succeeding or failing; no path on which a step failed (flags, loading, filters, templates, execution, formatting, output) may end with status 0, and no output file may be written on it, other than after a failure to format")
		c.command("failures", "", nil)
		text := func(b *B, name string, l ...Lit) Str { return b.StrAtom(name, l...) }
		c.command("no-schema", "without -schema", func(b *B, flag func(string, Value)) {
			flag("version", Bool(false))
			flag("schema", b.Const(""))
		})
		c.command("no-target", "without -target", func(b *B, flag func(string, Value)) {
			flag("version", Bool(false))
			flag("target", b.Const(""))
		})
		c.command("ignore-and-match", "with both -ignore and -match", func(b *B, flag func(string, Value)) {
			flag("version", Bool(false))
			flag("ignore", text(b, "ignore", notRe(`\A\z`)))
			flag("match", text(b, "match", notRe(`\A\z`)))
		})
		for _, with := range []bool{false, true} {
			c.command(fmt.Sprintf("malformed-argument-%v", with), "with an argument that is no option", func(b *B, flag func(string, Value)) {
				str := types.Typ[types.String]
				arg := b.StrAtom("argument", notRe(`\A-`), notRe(`=`))
				if with {
					arg = b.Cat(arg, b.Const("="), b.StrAtom("value"))
				}
				b.SetGlobal("os", "Args", b.Seq(str, b.StrAtom("command"), b.Others(str), arg, b.Others(str)))
			})
		}
		for _, f := range []string{"ignore", "match"} {
			c.command("malformed-"+f, "with a malformed -"+f, func(b *B, flag func(string, Value)) {
				flag("version", Bool(false))
				flag(f, text(b, f, notRe(`\A\z`), notRe(`[@,]`)))
			})
			c.command("malformed-"+f+"-item", "with a malformed item in -"+f, func(b *B, flag func(string, Value)) {
				flag("version", Bool(false))
				item := text(b, f+" item", notRe(`[@,]`))
				flag(f, b.Cat(text(b, "before"), b.Const(","), item, b.Const(","), text(b, "after")))
			})
			c.command("malformed-"+f+"-last", "with a malformed last item in -"+f, func(b *B, flag func(string, Value)) {
				flag("version", Bool(false))
				flag(f, b.Cat(text(b, "before"), b.Const(","), text(b, f+" item", notRe(`[@,]`))))
			})
		}
	})
}
