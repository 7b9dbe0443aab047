package props

import (
	"fmt"
	"go/types"
	"io/fs"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// tree is a set of files that import each other. The names of declarations
// ({x} in the text) are arbitrary.
type plainTree struct {
	name  string
	root  string
	files map[string]string
	want  string // declarations of the merged schema, or "" if the tree has to be rejected
}

type tree struct {
	plainTree
	why  string // why it has to be rejected
	real bool   // evaluate the validation as well, and require that it comes last
}

// cases are the shapes of import trees that are looked at.
func importTrees(thorough bool) []plainTree {
	const hdr = "webrpc = v1\n"
	all := func(p string) string {
		return hdr + fmt.Sprintf("struct {%sS}\n  - {f}: {T}\nenum {%sE}: {B}\n  - {m}\ntype {%sA}: {T}\nerror 1 {%sX} \"{t}\"\nservice {%sV}\n  - {n}({p}: {T})\n", p, p, p, p, p)
	}
	decls := func(p string) []string {
		return []string{"struct {" + p + "S} field {f} : {T}", "enum {" + p + "E} : {B} field {m} = 0", "alias {" + p + "A} : {T}", "error 1 {" + p + "X} \"{t}\" 400", "service {" + p + "V} method {n} ( {p} : {T} ) => ( )"}
	}
	every := func(ps ...string) string {
		var out []string
		for _, p := range ps {
			out = append(out, decls(p)...)
		}
		return strings.Join(out, "\n")
	}
	some := func(p, kinds string) string {
		var out []string
		for i, k := range "SEAXV" {
			if strings.ContainsRune(kinds, k) {
				out = append(out, decls(p)[i])
			}
		}
		return strings.Join(out, "\n")
	}
	imp := func(paths ...string) string { return "import\n  - " + strings.Join(paths, "\n  - ") + "\n" }
	members := func(path string, ms ...string) string {
		out := "import " + path + "\n"
		for _, m := range ms {
			out += "  - {" + m + "}\n"
		}
		return out
	}
	main := hdr + "name = {n}\n"
	end := "struct {S0}\n"
	ts := []plainTree{
		{"all", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl") + end, "x.ridl": all("x")}, "struct {S0}\n" + every("x")},
		{"two", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl", "y.ridl") + end, "x.ridl": all("x"), "y.ridl": all("y")}, "struct {S0}\n" + every("x", "y")},
		{"quoted", "main.ridl", map[string]string{"main.ridl": main + "import \"x.ridl\"\n" + end, "x.ridl": all("x")}, "struct {S0}\n" + every("x")},
		{"twice", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl", "./x.ridl") + end, "x.ridl": all("x")}, "struct {S0}\n" + every("x")},
		{"nested", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl") + end, "x.ridl": hdr + imp("y.ridl") + all("x")[len(hdr):], "y.ridl": all("y")}, "struct {S0}\n" + every("x", "y")},
		{"diamond", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl", "y.ridl") + end, "x.ridl": hdr + imp("z.ridl") + all("x")[len(hdr):], "y.ridl": hdr + imp("z.ridl") + all("y")[len(hdr):], "z.ridl": all("z")}, "struct {S0}\n" + every("x", "y", "z")},
		{"diamond-last", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl", "z.ridl") + end, "x.ridl": hdr + imp("z.ridl") + all("x")[len(hdr):], "z.ridl": all("z")}, "struct {S0}\n" + every("x", "z")},
		{"diamond-first", "main.ridl", map[string]string{"main.ridl": main + imp("z.ridl", "x.ridl") + end, "x.ridl": hdr + imp("z.ridl") + all("x")[len(hdr):], "z.ridl": all("z")}, "struct {S0}\n" + every("x", "z")},
		{"deep-diamond", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl", "y.ridl") + end, "x.ridl": hdr + imp("w.ridl"), "w.ridl": hdr + imp("z.ridl"), "y.ridl": hdr + imp("z.ridl", "w.ridl"), "z.ridl": all("z")}, "struct {S0}\n" + every("z")},
		{"missing", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl", "y.ridl") + end, "x.ridl": all("x")}, ""},
		{"missing-nested", "main.ridl", map[string]string{"main.ridl": main + imp("x.ridl") + end, "x.ridl": hdr + imp("y.ridl")}, ""},
		{"outside", "main.ridl", map[string]string{"main.ridl": main + imp("../x.ridl") + end, "x.ridl": all("x")}, ""},
		{"missing-member", "main.ridl", map[string]string{"main.ridl": main + members("y.ridl", "yS") + end}, ""},
		// paths
		{"dirs", "a/main.ridl", map[string]string{"a/main.ridl": main + imp("b/x.ridl", "../c/y.ridl") + end, "a/b/x.ridl": hdr + imp("z.ridl", "../w.ridl"), "a/b/z.ridl": all("z"), "a/w.ridl": all("w"), "c/y.ridl": hdr + imp("../a/b/z.ridl", "d/v.ridl"), "c/d/v.ridl": all("v"),
			"z.ridl": hdr + "struct {no1S}\n", "a/z.ridl": hdr + "struct {no2S}\n", "w.ridl": hdr + "struct {no3S}\n", "b/x.ridl": hdr + "struct {no4S}\n", "x.ridl": hdr + "struct {no5S}\n", "y.ridl": hdr + "struct {no6S}\n", "d/v.ridl": hdr + "struct {no7S}\n", "a/d/v.ridl": hdr + "struct {no8S}\n", "a/c/y.ridl": hdr + "struct {no9S}\n"},
			"struct {S0}\n" + every("z", "w", "v")},
		{"same-base", "main.ridl", map[string]string{"main.ridl": main + imp("a/x.ridl", "b/x.ridl", "x.ridl") + end, "a/x.ridl": all("a"), "b/x.ridl": all("b"), "x.ridl": all("x")}, "struct {S0}\n" + every("a", "b", "x")},
		{"own-name", "a/x.ridl", map[string]string{"a/x.ridl": main + imp("../x.ridl", "b/x.ridl") + end, "a/b/x.ridl": all("b"), "x.ridl": all("x")}, "struct {S0}\n" + every("b", "x")},
		// members
		{"member-both", "main.ridl", map[string]string{"main.ridl": main + members("x.ridl", "xA") + members("y.ridl", "yS", "yX") + end, "x.ridl": all("x"), "y.ridl": all("y")}, "struct {S0}\n" + some("x", "A") + "\n" + some("y", "SX")},
		{"member-then-all", "main.ridl", map[string]string{"main.ridl": main + members("x.ridl", "xA", "xV") + imp("y.ridl") + end, "x.ridl": all("x"), "y.ridl": hdr + imp("x.ridl")}, "struct {S0}\n" + every("x")},
		{"all-then-member", "main.ridl", map[string]string{"main.ridl": main + imp("y.ridl") + members("x.ridl", "xA", "xV") + end, "x.ridl": all("x"), "y.ridl": hdr + imp("x.ridl")}, "struct {S0}\n" + every("x")},
		{"member-again", "main.ridl", map[string]string{"main.ridl": main + members("x.ridl", "xA", "xV") + members("x.ridl", "xS", "xA") + end, "x.ridl": all("x")}, "struct {S0}\n" + some("x", "SAV")},
		{"member-of-nested", "main.ridl", map[string]string{"main.ridl": main + imp("y.ridl") + end, "x.ridl": all("x"), "y.ridl": hdr + members("x.ridl", "xE", "xX")}, "struct {S0}\n" + some("x", "EX")},
		{"member-through", "main.ridl", map[string]string{"main.ridl": main + members("y.ridl", "xE", "yS") + end, "x.ridl": all("x"), "y.ridl": hdr + imp("x.ridl") + all("y")[len(hdr):]}, "struct {S0}\n" + some("x", "E") + "\n" + some("y", "S")},
		{"member-cached", "main.ridl", map[string]string{"main.ridl": main + imp("y.ridl", "z.ridl") + end, "x.ridl": all("x"), "y.ridl": hdr + members("x.ridl", "xE"), "z.ridl": hdr + members("x.ridl", "xV", "xA")}, "struct {S0}\n" + some("x", "EVA")},
		{"member-none", "main.ridl", map[string]string{"main.ridl": main + members("x.ridl") + end, "x.ridl": all("x")}, "struct {S0}\n" + every("x")},
		{"member-comments", "main.ridl", map[string]string{"main.ridl": main + "import x.ridl # {c1}\n\n  # {c2}\n  - {xS} # {c3}\n\n  - {xX}\n" + end, "x.ridl": all("x")}, "struct {S0}\n" + some("x", "SX")},
		{"list-comments", "main.ridl", map[string]string{"main.ridl": main + "import # {c1}\n\n  # {c2}\n  - x.ridl # {c3}\n\n  - y.ridl\n" + end, "x.ridl": all("x"), "y.ridl": all("y")}, "struct {S0}\n" + every("x", "y")},
	}
	for mask := 1; mask < 32; mask++ {
		var ms []string
		kinds := ""
		for i, k := range "SEAXV" {
			if mask>>i&1 == 1 {
				ms = append(ms, "x"+string(k))
				kinds += string(k)
			}
		}
		if len(ms) > 2 && len(ms) < 5 && !thorough {
			continue
		}
		ts = append(ts, plainTree{"members-" + kinds, "main.ridl", map[string]string{"main.ridl": main + members("x.ridl", ms...) + end, "x.ridl": all("x")}, "struct {S0}\n" + some("x", kinds)})
	}
	// every graph of up to three files, and longer cycles
	names := []string{"main", "x", "y", "z", "v", "w", "u", "t"}
	graph := func(tag string, n int, edge func(i, j int) bool) {
		t := plainTree{name: tag, root: "main.ridl", files: map[string]string{}}
		reach := map[int]bool{}
		cyclic := false
		onPath := map[int]bool{}
		var visit func(i int)
		visit = func(i int) {
			if onPath[i] {
				cyclic = true
				return
			}
			reach[i] = true
			onPath[i] = true
			for j := 0; j < n && !cyclic; j++ {
				if edge(i, j) {
					visit(j)
				}
			}
			onPath[i] = false
		}
		visit(0)
		var want []string
		for i := 0; i < n; i++ {
			src := hdr
			if i == 0 {
				src = main
			}
			var to []string
			for j := 0; j < n; j++ {
				if edge(i, j) {
					to = append(to, names[j]+".ridl")
				}
			}
			if len(to) > 0 {
				src += imp(to...)
			}
			t.files[names[i]+".ridl"] = src + fmt.Sprintf("struct {S%d}\nerror %d {X%d} {t}\nservice {V%d}\n", i, i+1, i, i)
			if reach[i] {
				want = append(want, fmt.Sprintf("struct {S%d}\nerror %d {X%d} \"{t}\" 400\nservice {V%d}", i, i+1, i, i))
			}
		}
		if !cyclic {
			t.want = strings.Join(want, "\n")
		}
		ts = append(ts, t)
	}
	for mask := 0; mask < 512; mask++ {
		edge := func(i, j int) bool { return mask>>(3*i+j)&1 == 1 }
		if !edge(0, 1) && edge(0, 2) || !edge(0, 1) && !edge(0, 2) && mask&^1 != 0 || mask&0o111 != 0 && mask&0o110 != mask&0o111 && mask != 1 {
			continue // the other files are not reached, or a mirror image
		}
		graph(fmt.Sprintf("graph-%03o", mask), 3, edge)
	}
	longest := 5
	if thorough {
		longest = len(names)
	}
	for n := 2; n <= longest; n++ {
		for back := 0; back < n; back++ {
			graph(fmt.Sprintf("cycle-%d-%d", n, back), n, func(i, j int) bool { return j == i+1 || i == n-1 && j == back })
		}
		graph(fmt.Sprintf("chain-%d", n), n, func(i, j int) bool { return j == i+1 })
		graph(fmt.Sprintf("ladder-%d", n), n, func(i, j int) bool { return j > i })
	}
	return ts
}

// fileTree evaluates the loader on a tree of files.
func (c *Ctx) fileTree(t tree) {
	endless := "" // why the loader need not come to an end
	c.Scenario(Scen{Name: t.name, NeedNil: t.want != "", MaxStates: 60000, Done: func(b *B, _ []*Result) string { return endless }, Build: func(b *B) (*ssa.Function, []Value) {
		b.Vars = map[string]Value{}
		a := &ast{b: b, real: t.real}
		x := &text{b: b, a: a}
		newLexer := c.Core.FuncOf(RIDL, "newLexer")
		if newLexer == nil {
			panic("tokens are made in another way")
		}
		var paths []string
		for p := range t.files {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		var kinds []string
		for _, p := range paths {
			x.tokens(t.files[p])
			fs := strings.Fields(t.files[p])
			for i := 1; i < len(fs); i++ {
				switch fs[i-1] {
				case "struct", "enum", "type", "service", "1", "2", "3", "4", "5", "6", "7", "8":
					kinds = append(kinds, "struct "+strings.TrimSuffix(fs[i], ":"))
				}
			}
		}
		sort.Strings(kinds)
		distinct := strings.Join(kinds, " ")
		x.distinct(distinct)
		b.E.LoopCap, b.E.WidenAt, b.E.AppendCap, b.E.AnonCap, b.E.DepthLimit, b.E.Forget, b.E.KeepErrState = 1<<20, 1<<20, 1<<20, 1<<20, 1<<20, false, true
		expr := c.Core.FuncOf(Schema, "ParseVarTypeExpr")
		a.hooks(c, func(st *State, fn *ssa.Function, args []Value) (Value, bool) {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == Schema && fn != expr {
				b.St = st
				x.distinct(distinct)
			}
			if fn == newLexer {
				b.St = st
				x.distinct(distinct)
				s, ok := st.Resolve(args[0]).(Str)
				src, isConst := s.Const()
				if _, known := t.files[src]; !ok || !isConst || !known {
					st.SetMon("unmodelled", "the text of a file")
					return b.New("the token stream", b.ZStruct(a.t("lexer"), F{"tokens": b.Chan(a.t("token"), x.tokens("")...)})), true
				}
				return b.New("the token stream of "+src, b.ZStruct(a.t("lexer"), F{"tokens": b.Chan(a.t("token"), x.tokens(t.files[src])...)})), true
			}
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == RIDL && types.Identical(fn.Signature, unescape) {
				if s, _ := st.Resolve(args[0]).(Str); !isConstStr(s) && x.plain(st, s) {
					return Tuple{s, Nil{}}, true
				}
			}
			return nil, false
		})
		inner := b.E.Hooks.OnCall
		b.E.Hooks.OnCall = func(e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
			switch fn.String() {
			case "io/fs.ReadFile":
			case "io/fs.ValidPath":
				s, _ := st.Resolve(args[0]).(Str)
				p, isConst := s.Const()
				if !isConst {
					return false
				}
				k(st, Bool(fs.ValidPath(p)))
				return true
			case "path/filepath.Abs":
				if s, _ := st.Resolve(args[0]).(Str); !isConstStr(s) {
					return false
				}
				k(st, Tuple{args[0], Nil{}})
				return true
			case "os.DirFS":
				k(st, Fresh{T: fn.Signature.Results().At(0).Type(), NonNil: true})
				return true
			default:
				return inner(e, act, st, fn, args, k)
			}
			b.St = st
			s, _ := st.Resolve(args[1]).(Str)
			p, isConst := s.Const()
			fail := func() {
				k(st, Tuple{Nil{}, e.ErrorValue(st, "no such file")})
			}
			switch {
			case !isConst:
				st.SetMon("unmodelled", "the path of a file")
				fail()
			case t.files[p] == "":
				if t.want != "" && !t.real && st.Mon("unmodelled") == "" {
					endless = "the file " + p + " is looked for, which no import refers to"
					return true
				}
				fail()
			default:
				n := len(st.Mon("read " + p))
				st.SetMon("read "+p, strings.Repeat("x", n+1))
				if n > 2 {
					if st.Mon("unmodelled") == "" {
						endless = "the file " + p + " is read again and again"
					}
					return true
				}
				k(st, Tuple{b.Bytes(b.Const(p)), Nil{}})
			}
			return true
		}
		if t.real {
			c.validatedLast(b)
		}
		return c.Core.FuncOf("github.com/webrpc/webrpc", "ParseSchemaFile"), []Value{b.Const("/" + t.root)}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			if t.want != "" && !t.real {
				return "the files can be rejected"
			}
			return ""
		}
		if t.want == "" {
			return "the files can be accepted" + t.why
		}
		if t.real {
			return stale(r.St)
		}
		tup, _ := r.St.Resolve(r.Ret).(Tuple)
		if len(tup) == 0 {
			return ""
		}
		pr := &printer{b: b, st: r.St}
		got := pr.schema(tup[0])
		if pr.unknown != "" {
			r.St.SetMon("unmodelled", pr.unknown)
			return ""
		}
		g, w := declarations(got), declarations("name = {n} webrpc = v1 "+t.want)
		for i := 0; i < len(g) || i < len(w); i++ {
			switch {
			case i >= len(w) || i < len(g) && g[i] < w[i]:
				return fmt.Sprintf("%q is in the schema and should not be, or more than once", g[i])
			case i >= len(g) || g[i] > w[i]:
				return fmt.Sprintf("%q is missing from the schema", w[i])
			}
		}
		return ""
	}})
}

func isConstStr(s Str) bool {
	_, ok := s.Const()
	return ok
}

// declarations takes a rendering apart, in alphabetical order.
func declarations(s string) []string {
	var out []string
	for _, w := range strings.Fields(s) {
		switch w {
		case "struct", "enum", "alias", "error", "service", "webrpc", "name", "version", "basepath":
			out = append(out, w)
		default:
			if len(out) > 0 {
				out[len(out)-1] += " " + w
			}
		}
	}
	sort.Strings(out)
	return out
}

func init() {
	register("C12", func(c *Ctx) {
		c.Rule("abstract evaluation of webrpc.ParseSchemaFile on sets of files (file access replaced by the set, tokens by the token stream of each file, every declared name arbitrary): for each tree of imports the merged schema must hold exactly the declarations the import lists name, each once; every cycle, missing file and path out of the tree must be rejected; no file may be looked for that no import names, or read without end")
		for _, t := range importTrees(c.Thorough) {
			c.fileTree(tree{plainTree: t})
		}
	})
}
