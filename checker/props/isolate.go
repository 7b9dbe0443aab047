package props

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"webrpcverif/ai"
	"webrpcverif/flow"
)

// loading are the packages that load and process schemas.
var loading = []string{Root, Schema, RIDL, Graph, GenPkg}

// ownFunctions are the functions of the loading packages, whatever further
// packages the tree has under them.
func (c *Ctx) ownFunctions(p *ai.Program) (inits, roots, all []*ssa.Function) {
	for path := range p.Pkgs {
		if !p.Src(path) || !strings.HasPrefix(path, Root) || strings.HasPrefix(path, Root+"/cmd") || strings.HasPrefix(path, Root+"/_examples") || strings.HasPrefix(path, Root+"/tests") {
			continue
		}
		for fn := range p.Functions(path) {
			all = append(all, fn)
			name := fn.Name()
			switch {
			case fn.Parent() != nil:
			case name == "init" || strings.HasPrefix(name, "init#"):
				if name == "init" {
					inits = append(inits, fn)
				}
			case fn.Object() != nil && fn.Object().Exported() && fn.TypeParams().Len() == 0:
				if r := fn.Signature.Recv(); r != nil {
					if n := namedOf(r.Type()); n != nil && n.TypeParams().Len() > 0 {
						continue
					}
				}
				roots = append(roots, fn)
			}
		}
	}
	for _, l := range [][]*ssa.Function{inits, roots, all} {
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	}
	return
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// program is the whole program, or the loading part if the generator cannot be loaded.
func (c *Ctx) program() *ai.Program {
	if err := c.LoadGen(); err != nil {
		c.Record(Oblig{Name: "load-generator", Verdict: "undecided", Detail: err.Error()})
		if err := c.LoadCore(); err != nil {
			panic(err.Error())
		}
		return c.Core
	}
	return c.Gen
}

// processState are library functions that change the process for everyone in it.
var processState = []string{"os.Chdir", "os.Setenv", "os.Unsetenv", "os.Clearenv", "log.SetFlags", "log.SetOutput", "log.SetPrefix", "math/rand.Seed",
	"runtime.GOMAXPROCS", "runtime/debug.Set", "flag.Set", "net/http.Handle", "encoding/gob.Register", "mime.AddExtensionType", "syscall.Umask", "syscall.Chdir", "syscall.Setenv"}

// fileWrites are library functions that leave traces outside the process.
var fileWrites = []string{"os.WriteFile", "os.Create", "os.CreateTemp", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.Link", "os.Symlink", "os.Truncate", "os.Chmod"}

func init() {
	register("C20", func(c *Ctx) {
		c.Rule("points-to and effect analysis (inclusion-based, field-sensitive, two call sites of context) of every function reachable from the exported functions of the loading packages: no instruction that can run after the initialisation of the packages may write to a package variable or to memory that exists since the initialisation, and none may change the state of the process; memory that both a goroutine and the code that started it use may only be written before the goroutine starts or after a synchronisation with it")
		p := c.program()
		inits, roots, _ := c.ownFunctions(p)
		a := flow.New(p.Prog, p.IsSrc, inits, roots)
		where := func(in ssa.Instruction) string { return p.PosString(flow.Pos(in)) }
		trace := func(in *flow.Inst) []string {
			var out []string
			for i, s := range in.Sites {
				if i > 6 {
					break
				}
				out = append(out, "called at "+where(s))
			}
			return out
		}
		// by function: one obligation each
		type verdict struct {
			bad, open []string
			n         int
		}
		by := map[*ssa.Function]*verdict{}
		get := func(fn *ssa.Function) *verdict {
			if by[fn] == nil {
				by[fn] = &verdict{}
			}
			return by[fn]
		}
		runs := 0
		for _, in := range a.Insts {
			if in.Phase == flow.Run {
				runs++
				if p.IsSrc(in.Fn) {
					get(in.Fn)
					c.Funcs[in.Fn.String()] = true
				}
				for i := range in.Callees {
					c.Sites[where(i)] = true
				}
			}
		}
		inCore := func(fn *ssa.Function) bool {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			return fn.Pkg != nil && fn.Pkg.Pkg.Path() != GenPkg
		}
		seen := map[string]bool{}
		for _, e := range a.Effects {
			if e.In.Phase == flow.Init {
				continue
			}
			v := get(e.In.Fn)
			v.n++
			for _, l := range sortedLocs(e.Where) {
				if !l.O.Shared() || l.O.Kind == flow.Func {
					continue
				}
				if e.What == "append" && a.Full(e, l) {
					continue
				}
				if e.In.Phase == flow.Once {
					v.open = append(v.open, fmt.Sprintf("%s at %s runs once, but may depend on what is loaded first", e.What, where(e.At)))
					continue
				}
				key := where(e.At) + l.O.String()
				if seen[key] {
					break
				}
				seen[key] = true
				msg := fmt.Sprintf("%s writes to %s, which all loads share (%s)", e.In.Fn, l.O, e.What)
				v.bad = append(v.bad, msg)
				c.Violate("writes of "+e.In.Fn.String(), where(e.At), msg, trace(e.In)...)
				break
			}
		}
		for _, e := range a.Unknown {
			for _, l := range sortedLocs(e.Where) {
				if e.In.Phase != flow.Init && l.O.Shared() {
					get(e.In.Fn).open = append(get(e.In.Fn).open, fmt.Sprintf("%s at %s may change %s", e.What, where(e.At), l.O))
					break
				}
			}
		}
		for fn := range by {
			for _, blk := range fn.Blocks {
				for _, i := range blk.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() == nil {
						continue
					}
					name := ci.Common().StaticCallee().String()
					bad := false
					for _, x := range processState {
						bad = bad || name == x || strings.HasPrefix(name, x) && (strings.HasSuffix(x, ".Set") || strings.HasSuffix(x, "Handle") || strings.HasSuffix(x, "Register"))
					}
					for _, x := range fileWrites {
						bad = bad || name == x && inCore(fn)
					}
					if bad {
						msg := fmt.Sprintf("%s changes the state of the process or of the file system (%s)", fn, name)
						get(fn).bad = append(get(fn).bad, msg)
						c.Violate("writes of "+fn.String(), where(i), msg)
					}
				}
			}
		}
		for fn, v := range by {
			o := Oblig{Name: "writes of " + fn.String(), Verdict: "holds", Steps: v.n}
			switch {
			case v.bad != nil:
				o.Verdict, o.Detail = "violated", strings.Join(v.bad, "; ")
			case v.open != nil:
				o.Verdict, o.Detail = "undecided", strings.Join(v.open, "; ")
			}
			c.Record(o)
		}
		c.Counts["function instances"] = len(a.Insts)
		c.Counts["writes examined"] = len(a.Effects)
		c.Counts["goroutines"] = len(a.Spawns)
		for _, s := range a.Spawns {
			if s.In.Phase == flow.Init {
				continue
			}
			o := Oblig{Name: "goroutine " + s.Target.Fn.String() + " from " + s.In.Fn.String(), Verdict: "holds"}
			races, open := a.Races(s)
			for _, r := range races {
				msg := fmt.Sprintf("the goroutine and the code that started it use %s at the same time: %s at %s, %s at %s", r.What, r.A, where(r.AAt), r.B, where(r.BAt))
				c.Violate(o.Name, where(r.AAt), msg, "started at "+where(s.At))
				o.Verdict, o.Detail = "violated", msg
			}
			if o.Verdict == "holds" && len(open) > 0 {
				r := open[0]
				o.Verdict, o.Detail = "undecided", fmt.Sprintf("%s: %s at %s, %s at %s are ordered only if every message is the last", r.What, r.A, where(r.AAt), r.B, where(r.BAt))
			}
			c.Record(o)
		}
	})
}

func sortedLocs(m map[flow.Loc]bool) []flow.Loc {
	var out []flow.Loc
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		if x, y := out[i].O.String(), out[j].O.String(); x != y {
			return x < y
		}
		return out[i].Path < out[j].Path
	})
	return out
}
