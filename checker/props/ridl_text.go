package props

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// text builds the token stream of RIDL sources in which {name} stands for any
// word and “name” for any text of a quoted string.
type text struct {
	b    *B
	a    *ast
	punc map[rune]string // token kinds of single characters
}

var punctuation = map[rune]string{
	'\n': "tokenNewLine", '=': "tokenEqual", '(': "tokenOpenParen", ')': "tokenCloseParen", '[': "tokenOpenBracket",
	']': "tokenCloseBracket", '<': "tokenOpenAngleBracket", '>': "tokenCloseAngleBracket", '+': "tokenPlusSign", '-': "tokenMinusSign",
	'#': "tokenHash", ':': "tokenColon", ',': "tokenComma", '|': "tokenBar", '\\': "tokenBackslash", '/': "tokenSlash", '"': "tokenQuote",
	'.': "tokenDot", '?': "tokenQuestionMark", '!': "tokenExtra", '@': "tokenAt", '*': "tokenExtra", ';': "tokenExtra", '$': "tokenExtra",
}

// anyWord is what a placeholder may be: a word without a meaning of its own.
const anyWord = `\A[a-zA-Z0-9_][^\x00 \t\r\n\[\]()<>{}=:¿?¡!,"\\]*\z`

const keywords = `\A(stream|proxy|map|struct|error|errors|enum|import|name|service|basepath|version|type|webrpc|message|HTTP|string)\z`

func (x *text) word(name string) Str {
	if v, ok := x.b.Vars[name]; ok {
		x.b.Constrain(v.(Str), isRe(anyWord), notRe(keywords))
		return v.(Str)
	}
	v := x.b.StrAtom(name, isRe(anyWord), notRe(keywords))
	x.b.Vars[name] = v
	return v
}

var unescape = types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", tString)),
	types.NewTuple(types.NewVar(0, nil, "", tString), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type())), false)

// plain tells whether no part of a text can contain a backslash.
func (x *text) plain(st *State, s Str) bool {
	for _, p := range s.P {
		if x.b.May(st, Str{P: []SPart{p}}, isRe(`\\`)) {
			return false
		}
	}
	return true
}

// distinct tells that the declared names of a kind differ.
func (x *text) distinct(want string) {
	kinds := map[string][]string{}
	fs := strings.Fields(want)
	for i := 1; i < len(fs); i++ {
		k := map[string]string{"struct": "type", "enum": "type", "alias": "type", "service": "service"}[fs[i-1]]
		if strings.HasPrefix(strings.TrimLeft(fs[i], "{lr"), "a") && strings.Contains(fs[i], "=") {
			k = "annotation"
		}
		if k != "" && strings.HasPrefix(fs[i], "{") {
			kinds[k] = append(kinds[k], fs[i][1:strings.Index(fs[i], "}")])
		}
	}
	for _, names := range kinds {
		for i, n := range names {
			for _, m := range names[:i] {
				if n != m {
					x.b.DifferFold(x.word(n), x.word(m))
				}
			}
		}
	}
}

// tokens is the stream for a source.
func (x *text) tokens(src string) []Value {
	b := x.b
	var out []Value
	line, col, pos := 1, 0, 0
	add := func(kind string, val Str) {
		out = append(out, b.ZStruct(x.a.t("token"), F{"tt": b.IntConst(RIDL, kind), "val": val, "line": Int{C: int64(line)}, "col": Int{C: int64(col)}, "pos": Int{C: int64(pos)}}))
	}
	rs := []rune(src)
	isWord := func(r rune) bool {
		return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	}
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		col++
		pos++
		switch {
		case r == ' ' || r == '\t' || r == '\r':
			j := i
			for j < len(rs) && (rs[j] == ' ' || rs[j] == '\t' || rs[j] == '\r') {
				j++
			}
			add("tokenWhitespace", b.Const(string(rs[i:j])))
			i = j - 1
		case r == '{':
			j := i + 1
			for rs[j] != '}' {
				j++
			}
			add("tokenWord", x.word(string(rs[i+1:j])))
			i = j
		case r == '=' && i+1 < len(rs) && rs[i+1] == '>':
			add("tokenRocket", b.Const("=>"))
			i++
		case isWord(r):
			j := i
			for j < len(rs) && !strings.ContainsRune("\x00 \t\r\n[]()<>{}=:¿?¡!,\"", rs[j]) {
				j++
			}
			add("tokenWord", b.Const(string(rs[i:j])))
			i = j - 1
		case punctuation[r] != "":
			add(punctuation[r], b.Const(string(r)))
			if r == '\n' {
				line++
				col = 0
			}
		default:
			add("tokenExtra", b.Const(string(r)))
		}
	}
	add("tokenEOF", Str{})
	return out
}

// load evaluates the loader on the token stream of a source; want is the
// rendering of the schema, or empty if the source has to be rejected.
func (c *Ctx) load(name, src, want string) {
	c.source(name, src, want, want != "", func(got string) string {
		if want == "" {
			return "the source can be accepted"
		}
		if g, w := strings.Fields(got), strings.Fields(want); strings.Join(g, " ") != strings.Join(w, " ") {
			return difference(w, g)
		}
		return ""
	})
}

// source evaluates the loader on the token stream of a source; accept judges
// the rendering of an accepted schema.
func (c *Ctx) source(name, src, kinds string, must bool, accept func(got string) string) {
	c.sourceScen(name, src, kinds, func(s Scen) Scen {
		s.NeedNil = must
		s.Check = func(b *B, r *Result) string {
			if k, isnil := r.ErrNil(); k && !isnil {
				if must {
					return "the source can be rejected"
				}
				return ""
			}
			t, _ := r.St.Resolve(r.Ret).(Tuple)
			if len(t) == 0 {
				return ""
			}
			pr := &printer{b: b, st: r.St}
			got := pr.schema(t[0])
			if pr.unknown != "" {
				r.St.SetMon("unmodelled", pr.unknown)
				return ""
			}
			return accept(got)
		}
		return s
	})
}

// sourceScen schedules the evaluation of the loader on the token stream of a
// source, with what makes an obligation of it.
func (c *Ctx) sourceScen(name, src, kinds string, as func(Scen) Scen) {
	c.Scenario(as(Scen{Name: name, MaxStates: 20000, Build: func(b *B) (*ssa.Function, []Value) {
		b.Vars = map[string]Value{}
		a := &ast{b: b}
		x := &text{b: b, a: a}
		newLexer := c.Core.FuncOf(RIDL, "newLexer")
		if newLexer == nil {
			panic("tokens are made in another way")
		}
		x.tokens(src) // introduces the words
		x.distinct(kinds)
		b.E.LoopCap, b.E.WidenAt, b.E.AppendCap, b.E.AnonCap, b.E.DepthLimit, b.E.Forget, b.E.KeepErrState = 1<<20, 1<<20, 1<<20, 1<<20, 1<<20, false, true
		a.hooks(c, func(st *State, fn *ssa.Function, args []Value) (Value, bool) {
			if fn == newLexer {
				b.St = st
				x.distinct(kinds)
				return b.New("the token stream", b.ZStruct(a.t("lexer"), F{"tokens": b.Chan(a.t("token"), x.tokens(src)...)})), true
			}
			// undoing escapes leaves a text without a backslash alone; that
			// it does is checked on constant texts
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == RIDL && types.Identical(fn.Signature, unescape) {
				s, _ := st.Resolve(args[0]).(Str)
				if _, isConst := s.Const(); !isConst && x.plain(st, s) {
					return Tuple{s, Nil{}}, true
				}
			}
			return nil, false
		})
		p := b.New("the loader", b.Struct(a.t("Parser"), F{"path": b.StrAtom("path")}))
		return c.Core.Method(RIDL, "Parser", "Parse"), []Value{p}
	}}))
}

// difference describes where two renderings part.
func difference(w, g []string) string {
	i := 0
	for i < len(w) && i < len(g) && w[i] == g[i] {
		i++
	}
	cut := func(x []string) string {
		lo, hi := max(0, i-4), min(len(x), i+4)
		if lo >= hi {
			return "nothing"
		}
		return strings.Join(x[lo:hi], " ")
	}
	return fmt.Sprintf("declared: … %s …, in the schema: … %s …", cut(w), cut(g))
}

// printer renders a schema of known shape.
type printer struct {
	b       *B
	st      *State
	unknown string // a part the analysis has no precise content for
}

func (p *printer) vague(what string) string {
	if p.unknown == "" {
		p.unknown = what
	}
	return "<" + what + ">"
}

func (p *printer) str(v Value) string {
	s, ok := p.st.Resolve(v).(Str)
	if !ok {
		return p.vague("a text of the schema")
	}
	out := ""
	for _, x := range s.P {
		if x.Atom == 0 {
			out += x.C
			continue
		}
		n := p.b.E.Decl(x.Atom).Name
		if n == "" {
			n = p.vague("a text of the schema")
		}
		out += "{" + n + "}" + x.Maps
	}
	return strings.ReplaceAll(out, "\n", "⏎")
}

func (p *printer) num(v Value) string {
	switch x := p.st.Resolve(v).(type) {
	case Int:
		if len(x.T) == 0 {
			return fmt.Sprint(x.C)
		}
	case Bool:
		return fmt.Sprint(bool(x))
	}
	return p.vague("a number of the schema")
}

func (p *printer) list(v Value, f func(v Value) string) []string {
	v = p.st.Resolve(v)
	if _, ok := v.(Nil); ok {
		return nil
	}
	segs, ok := p.b.Elems(p.st, v)
	if !ok {
		return []string{p.vague("a list of the schema")}
	}
	var out []string
	for _, s := range segs {
		e := p.st.Resolve(s.V)
		if q, ok := e.(Ptr); ok {
			e = p.b.Cell(p.st, q)
		}
		t := f(e)
		if s.Star {
			t = p.vague("a list of the schema") + t
		}
		out = append(out, t)
	}
	return out
}

func (p *printer) at(v Value, path ...string) Value { return p.b.Follow(p.st, v, path...) }

func (p *printer) flag(v Value, name, word string) string {
	switch p.num(p.at(v, name)) {
	case "false":
		return ""
	case "true":
		return " " + word
	}
	return " " + word + "?"
}

func (p *printer) comments(v Value) string {
	out := ""
	for _, c := range p.list(p.at(v, "Comments"), p.str) {
		out += " // " + c
	}
	return out
}

func (p *printer) kv(v Value) string {
	ents, rest, ok := p.b.Ents(p.st, v)
	if !ok || rest != nil {
		return p.vague("a map of the schema")
	}
	var out []string
	for _, e := range ents {
		x := p.st.Resolve(e.V)
		if i, ok := x.(Iface); ok {
			x = p.st.Resolve(i.V)
		}
		if q, ok := x.(Ptr); ok {
			an := p.b.Cell(p.st, q)
			t := p.str(p.at(an, "AnnotationType"))
			if t != p.str(e.K) {
				t += " under " + p.str(e.K)
			}
			out = append(out, t+"="+p.str(p.at(an, "Value")))
			continue
		}
		out = append(out, p.str(e.K)+"="+p.str(x))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (p *printer) typ(v Value) string {
	if _, ok := p.st.Resolve(p.at(v, "Type")).(Nil); ok {
		return ""
	}
	return " : " + p.str(p.at(v, "Type", "Expr"))
}

func (p *printer) field(v Value) string {
	out := "field " + p.str(p.at(v, "Name")) + p.typ(v) + p.flag(v, "Optional", "optional")
	if val := p.str(p.at(v, "Value")); val != "" {
		out += " = " + val
	}
	for _, m := range p.list(p.at(v, "Meta"), p.kv) {
		out += " + " + m
	}
	return out + p.comments(v)
}

func (p *printer) schema(v Value) string {
	q, ok := p.st.Resolve(v).(Ptr)
	if !ok {
		return "no schema"
	}
	s := p.b.Cell(p.st, q)
	var out []string
	for _, h := range [][2]string{{"webrpc", "WebrpcVersion"}, {"name", "SchemaName"}, {"version", "SchemaVersion"}, {"basepath", "BasePath"}} {
		if x := p.str(p.at(s, h[1])); x != "" {
			out = append(out, h[0]+" = "+x)
		}
	}
	out = append(out, p.list(p.at(s, "Types"), func(v Value) string {
		t := p.str(p.at(v, "Kind")) + " " + p.str(p.at(v, "Name")) + p.typ(v)
		for _, m := range p.list(p.at(v, "Meta"), p.kv) {
			t += " + " + m
		}
		t += p.comments(v)
		return strings.Join(append([]string{t}, p.list(p.at(v, "Fields"), p.field)...), "\n")
	})...)
	out = append(out, p.list(p.at(s, "Errors"), func(v Value) string {
		return "error " + p.num(p.at(v, "Code")) + " " + p.str(p.at(v, "Name")) + " \"" + p.str(p.at(v, "Message")) + "\" " + p.num(p.at(v, "HTTPStatus"))
	})...)
	args := func(v Value) string {
		return p.str(p.at(v, "Name")) + p.typ(v) + p.flag(v, "Optional", "optional")
	}
	out = append(out, p.list(p.at(s, "Services"), func(v Value) string {
		t := []string{"service " + p.str(p.at(v, "Name")) + p.comments(v)}
		t = append(t, p.list(p.at(v, "Methods"), func(m Value) string {
			x := "method " + p.str(p.at(m, "Name")) + p.flag(m, "Succinct", "succinct")
			x += p.flag(m, "StreamInput", "streams") + " ( " + strings.Join(p.list(p.at(m, "Inputs"), args), " , ") + " ) =>"
			x += p.flag(m, "StreamOutput", "streams") + " ( " + strings.Join(p.list(p.at(m, "Outputs"), args), " , ") + " )"
			if e := p.list(p.at(m, "Errors"), p.str); len(e) > 0 {
				x += " errors " + strings.Join(e, " | ")
			}
			if _, isnil := p.st.Resolve(p.at(m, "Annotations")).(Nil); !isnil {
				if kv := p.kv(p.at(m, "Annotations")); kv != "" {
					x += " @ " + kv
				}
			}
			return x + p.comments(m)
		})...)
		return strings.Join(t, "\n")
	})...)
	return strings.Join(out, "\n")
}

// texts are the constructs of the language, with arbitrary words.
func (c *Ctx) texts() {
	for _, t := range ridlTexts {
		c.load("text-"+t[0], t[1], t[2])
	}
	for _, l := range ridlLists {
		for i := range l.items {
			for j := range l.items {
				c.pair(l, i, j, "")
				if c.Thorough {
					c.pair(l, i, j, "\n")
				}
			}
		}
	}
}

// list is a kind of list declarations are written in, with the ways to write
// an item and their renderings; {x} in the source is another word in every
// item.
type list struct {
	name, head, want string
	items            [][2]string
}

// pair checks that of two items next to each other neither takes anything
// from the other.
func (c *Ctx) pair(l list, i, j int, gap string) {
	name := func(s, p string) string { return strings.ReplaceAll(s, "{", "{"+p) }
	src := l.head + name(l.items[i][0], "l") + gap + name(l.items[j][0], "r")
	want := []string{name(l.items[i][1], "l"), name(l.items[j][1], "r")}
	rank := func(s string) int {
		return map[string]int{"alias": 1, "enum": 2, "struct": 3, "error": 4, "service": 5}[strings.Fields(s)[0]]
	}
	if rank(want[0]) > rank(want[1]) {
		want[0], want[1] = want[1], want[0]
	}
	tag := ""
	if gap != "" {
		tag = "-apart"
	}
	c.load(fmt.Sprintf("pair-%s-%d-%d%s", l.name, i, j, tag), src, l.want+" "+want[0]+" "+want[1])
}

var ridlLists = []list{
	{"declaration", "", "", [][2]string{
		{"# {c1}\nstruct {S} # {c2}\n  - {F}?: {T} # {c3}\n    + {k} = {v} # {c4}\n", "struct {S} // {c1} // {c2} field {F} : {T} optional + {k}={v} // {c3}"},
		{"struct {S}\n", "struct {S}"},
		{"struct {S}\n  - {F}: {T}\n", "struct {S} field {F} : {T}"},
		{"enum {E}: {B} # {c1}\n  - {M} = {v} # {c2}\n", "enum {E} : {B} field {M} = {v} // {c2}"},
		{"enum {E}: {B}\n  - {M}\n", "enum {E} : {B} field {M} = 0"},
		{"enum {E}: string\n  - {M}\n", "enum {E} : string field {M} = {M}"},
		{"# {c1}\ntype {A}: {T} # {c2}\n  + {k}.{k2} = {v} # {c3}\n", "alias {A} : {T} + {k}.{k2}={v} // {c1} // {c2}"},
		{"type {A}: {T}\n", "alias {A} : {T}"},
		{"# {c1}\nerror 1 {X} \"{m}\" HTTP 404 # {c2}\n", "error 1 {X} \"{m}\" 404"},
		{"error 2 {X} {m}\n", "error 2 {X} \"{m}\" 400"},
		{"# {c1}\nservice {V} # {c2}\n  @{a}:{b} # {c3}\n  - stream {N}({p}?: {P}) => stream ({q}?: {Q}) errors {X} | {Y} # {c4}\n",
			"service {V} // {c1} // {c2} method {N} streams ( {p} : {P} optional ) => streams ( {q} : {Q} optional ) errors {X} | {Y} @ {a}={b} // {c3} // {c4}"},
		{"service {V}\n", "service {V}"},
		{"service {V}\n  - {N}()\n", "service {V} method {N} ( ) => ( )"},
	}},
	{"field", "struct {S}\n", "struct {S}", [][2]string{
		{"  # {c1}\n  - {F}?: {T} # {c2}\n    + {k} = {v} # {c3}\n", "field {F} : {T} optional + {k}={v} // {c1} // {c2}"},
		{"  - {F}: {T}\n    + {k}.{k2}.{k3} = \"{v},{v2}\"\n    + {k4} = {v3},{v4}\n    + {k5} = -\n", "field {F} : {T} + {k}.{k2}.{k3}={v},{v2} + {k4}={v3},{v4} + {k5}=-"},
		{"  - {F}: {T} # {c1}\n", "field {F} : {T} // {c1}"},
		{"  - {F}?: map<{K},[]map<{K2},{V2}>>\n", "field {F} : map<{K},[]map<{K2},{V2}>> optional"},
		{"  - {F}: [][]{T}\n", "field {F} : [][]{T}"},
		{"  - {F}: {T}\n", "field {F} : {T}"},
	}},
	{"member", "enum {E}: string\n", "enum {E} : string", [][2]string{
		{"  # {c1}\n  - {M} # {c2}\n", "field {M} = {M} // {c1} // {c2}"},
		{"  - {M} = {v} # {c1}\n", "field {M} = {v} // {c1}"},
		{"  - {M} = \"{v},{w}\"\n", "field {M} = {v},{w}"},
		{"  - {M}\n", "field {M} = {M}"},
	}},
	{"method", "service {V}\n", "service {V}", [][2]string{
		{"  # {c1}\n  - {N}({p}: {P}) # {c2}\n", "method {N} ( {p} : {P} ) => ( ) // {c1} // {c2}"},
		{"  - stream {N}({p}?: {P}, {q}: {Q})\n", "method {N} streams ( {p} : {P} optional , {q} : {Q} ) => ( )"},
		{"  - {N}() => stream ({p}: []{P}, {q}?: map<{K},{Q}>)\n", "method {N} ( ) => streams ( {p} : []{P} , {q} : map<{K},{Q}> optional )"},
		{"  - {N}() errors {X} | {Y} | {Z} # {c1}\n", "method {N} ( ) => ( ) errors {X} | {Y} | {Z} // {c1}"},
		{"  - {N}() => ({p}: {P}) errors {X}\n", "method {N} ( ) => ( {p} : {P} ) errors {X}"},
		{"  @{a}\n  - {N}() # {c1}\n", "method {N} ( ) => ( ) @ {a}= // {c1}"},
		{"  # {c1}\n  @{a}:{b} @{a2}:\"{d},{e}\" # {c2}\n  # {c3}\n  - {N}()\n", "method {N} ( ) => ( ) @ {a2}={d},{e} {a}={b} // {c1} // {c2}"},
		{"  - {N}()\n", "method {N} ( ) => ( )"},
		{"  - proxy {N}\n", "method {N} ( ) => ( )"},
		{"  # {c1}\n  @{a}:{b}\n  - proxy {N} # {c2}\n", "method {N} ( ) => ( ) @ {a}={b} // {c1} // {c2}"},
	}},
}

var ridlTexts = [][3]string{
	{"struct", `
# {c1} {c2}
struct {S} # {c3}
  - {F}: {T} # {c4}
  - {G}?: []{U}
    + {k1} = {v1} # {c5}
    + {k2}.{k3} = "{v2},{v3}"
    + {k4} = {v4}
    + {k5} = {v5}
  - {H}: map<{K},{V}>
struct {R}
  - {I}: {T2}
`, `struct {S} // {c1} {c2} // {c3}
field {F} : {T} // {c4}
field {G} : []{U} optional + {k1}={v1} + {k2}.{k3}={v2},{v3} + {k4}={v4} + {k5}={v5}
field {H} : map<{K},{V}>
struct {R} field {I} : {T2}`},
	{"header", `webrpc = {w} # {c1}

name = {n}
version = {v1} # {c2}
basepath = /{b}/{d}

struct {S}
`, `webrpc = {w} name = {n} version = {v1} basepath = /{b}/{d} struct {S}`},
	{"quoted-header", `webrpc = "{w} {x}"
version = "{v1}"`, `webrpc = {w} {x} version = {v1}`},
	{"enum", `# {c1}
enum {E}: {B}
  - {M1} # {c2}
  - {M2} = {v} # {c3}
  # {c4}
  - {M3}

  - {M4}="{q}"
enum {E2}: string # {c5}
  - {M5}
  # {c6}
  - {M6} = {w}`, `enum {E} : {B}
field {M1} = 0 // {c2}
field {M2} = {v} // {c3}
field {M3} = 2 // {c4}
field {M4} = {q}
enum {E2} : string
field {M5} = {M5}
field {M6} = {w} // {c6}`},
	{"alias", `# {c1}
type {A}: {T} # {c2}
  + {k} = {v} # {c3}
type {A2}: []map<{K},[]{V}>
  + {k2}.{k3} = -
type {A3}: {T3}`, `alias {A} : {T} + {k}={v} // {c1} // {c2}
alias {A2} : []map<{K},[]{V}> + {k2}.{k3}=-
alias {A3} : {T3}`},
	{"error", `error 1 {A} "{m1} {m2}" HTTP 404 # {c1}
error 2 {B} {m3} # {c2}
# {c3}
error 03 {C} "{m4}"
struct {S}
`, `struct {S} error 1 {A} "{m1} {m2}" 404 error 2 {B} "{m3}" 400 error 3 {C} "{m4}" 400`},
	{"service", `# {c1}
service {S} # {c2}
  # {c3}
  - {M1}() # {c4}
  - {M2}({p}: {P}, {q}?: []{Q}) => ({r}: {R}, {s}?: map<{K},{V}>) errors {E1} | {E2} # {c5}
  - stream {M3}({t}: {T})
  - {M4}() => stream ({u}?: {U}) errors {E3}
  - stream {M5}({w}: {W}) => stream ()
  - {M7}({a}?: {A}, {b}: {B}, {c}: {C}) => ({d}?: {D}, {e}: {E}) errors {E1} | {E2} | {E3} | {E4}
  - {M8}({f}: {F}) => ({g}: {G})
service {S2}
  - {M6}()
`, `service {S} // {c1} // {c2}
method {M1} ( ) => ( ) // {c3} // {c4}
method {M2} ( {p} : {P} , {q} : []{Q} optional ) => ( {r} : {R} , {s} : map<{K},{V}> optional ) errors {E1} | {E2} // {c5}
method {M3} streams ( {t} : {T} ) => ( )
method {M4} ( ) => streams ( {u} : {U} optional ) errors {E3}
method {M5} streams ( {w} : {W} ) => streams ( )
method {M7} ( {a} : {A} optional , {b} : {B} , {c} : {C} ) => ( {d} : {D} optional , {e} : {E} ) errors {E1} | {E2} | {E3} | {E4}
method {M8} ( {f} : {F} ) => ( {g} : {G} )
service {S2} method {M6} ( ) => ( )`},
	{"annotations", `service {S}
  # {c1}
  @{a1} @{a2}:{v2} # {c2}
  - {M1}() # {c3}
  - {M2}()
  @{a3}:"{v3},{v4}"
  # {c4}
  @{a4}
  - {M3}() => ({p}: {P})
  @{a1}
  - {M4}() # {c5}
  - {M5}()
  @{a1}:{v5} @{a3}
  - {M6}()
  - {M7}()`, `service {S}
method {M1} ( ) => ( ) @ {a1}= {a2}={v2} // {c1} // {c2} // {c3}
method {M2} ( ) => ( )
method {M3} ( ) => ( {p} : {P} ) @ {a3}={v3},{v4} {a4}= // {c4}
method {M4} ( ) => ( ) @ {a1}= // {c5}
method {M5} ( ) => ( )
method {M6} ( ) => ( ) @ {a1}={v5} {a3}=
method {M7} ( ) => ( )`},
	{"mixed", `webrpc = v1
error 1 {X} "{m}"
service {S}
  - {M}({p}: {P})
enum {E}: {B}
  - {V}
struct {T}
  - {F}: {U}
type {A}: {W}
struct {T2}`, `webrpc = v1 alias {A} : {W} enum {E} : {B} field {V} = 0 struct {T} field {F} : {U} struct {T2}
error 1 {X} "{m}" 400 service {S} method {M} ( {p} : {P} ) => ( )`},
	{"escapes", `error 1 {X} "é\"\t"
`, "error 1 {X} \"é\"\t\" 400"},
	{"non-ascii", `struct {S}
  - {F}: {T}
    + {k} = ü
`, "struct {S} field {F} : {T} + {k}=ü"},
	{"spread", "struct {S}\r\n\r\n\t- {F}: map< {K} , {V} >\r\n  # {c1}\r\n\r\n\r\n  - {G}: {T}\r\n\r\nservice {R}\r\n  - {M}( {p}: {P} ,{q}: {Q} )   =>  ( {r}: {O} )\r\n",
		"struct {S} field {F} : map<{K},{V}> field {G} : {T} service {R} method {M} ( {p} : {P} , {q} : {Q} ) => ( {r} : {O} )"},
}
