package props

import (
	"fmt"
	"go/types"
	"maps"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// cacheRun evaluates the loading of remote templates and collects, for every
// path, what is done to the template cache.
//
//	rd:NAME:ok      a file of the cache (or its existence) was read
//	ts              a time was read as a positive number
//	fetch:ok/fail   the remote templates
//	rm:DIR, rm:NAME removal begins; :ok, :gone (there was nothing), :fail
//	w:NAME          writing begins; :ok, :fail. t is a certain template, o any other
//	use:cache, use:remote
type cacheRun struct {
	c    *Ctx
	file Str
	logs map[string]*State
	odd  string
}

func (r *cacheRun) log(st *State, ev string) {
	l := st.Mon("log")
	if l == ev || strings.HasSuffix(l, " "+ev) {
		return
	}
	template := func(ev string) bool { return strings.HasPrefix(ev, "w:o") || strings.HasPrefix(ev, "w:t") }
	evs := strings.Fields(l)
	for i := len(evs) - 1; i >= 0 && template(ev) && template(evs[i]); i-- {
		if evs[i] == ev { // the order of templates does not matter
			return
		}
	}
	st.SetMon("log", strings.TrimSpace(l+" "+ev))
}

func (r *cacheRun) collect(st *State) {
	if _, ok := r.logs[st.Mon("log")]; !ok {
		r.logs[st.Mon("log")] = st
	}
}

// which classifies the path of a file: "" is the cache directory itself.
func (r *cacheRun) which(b *B, st *State, v Value) (string, bool) {
	s, ok := st.Resolve(v).(Str)
	if !ok || len(s.P) == 0 {
		return "", false
	}
	last := s.P[len(s.P)-1]
	if last.Atom == 0 {
		i := strings.LastIndex(last.C, "/")
		if i < 0 {
			if len(s.P) == 1 {
				return last.C, true // relative to the cache, if it is read through it
			}
			return "", false
		}
		return last.C[i+1:], true
	}
	if len(r.file.P) == 1 && last.Atom == r.file.P[0].Atom {
		return "t", true
	}
	if d := b.E.Decl(last.Atom); d != nil && strings.HasPrefix(d.Name, "template file") {
		return "o", true
	}
	return "", true
}

func isCacheFS(st *State, v Value) (cache, known bool) {
	i, ok := st.Resolve(v).(Iface)
	if !ok || i.T == nil {
		return false, false
	}
	return i.T.String() == "net/http.Dir", true
}

// results gives a call its results; the last one is an error or nil.
func results(vs ...Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return Tuple(vs)
}

func (r *cacheRun) onCall(b *B, e *Engine, act *Activation, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) bool {
	caller := ""
	if act != nil && act.Fn != nil {
		caller = outer(act.Fn)
	}
	if caller != GenPkg {
		return false
	}
	res := fn.Signature.Results()
	first := func(st *State) Value { return e.Inst(st, res.At(0).Type(), true) }
	unknown := func() {
		r.odd = "what " + fn.String() + " does to the cache " + fmt.Sprint(st.Resolve(args[0]), " L ", st.Mon("log"))
		st.SetMon("unmodelled", r.odd)
	}
	// failing reports a failing call; how tells what kind of failure it is.
	failing := func(bad *State, how string, vs ...Value) {
		bad.SetMon("errkind", how)
		k(bad, results(append(vs, e.ErrorValue(bad, fn.Name()))...))
	}
	str := types.Typ[types.String]
	name := fn.String()
	switch {
	case name == "os.TempDir":
		k(st, b.Recall(st, b.Vars["tmp"].(Str), notRe(`\A\z`)))
		return true
	case name == "path/filepath.Join" || name == "path.Join":
		segs, ok := b.Elems(st, args[0])
		if !ok {
			return false
		}
		var parts []Str
		for i, s := range segs {
			x, isStr := st.Resolve(s.V).(Str)
			if s.Star || !isStr {
				return false
			}
			if i > 0 {
				parts = append(parts, b.Const("/"))
			}
			parts = append(parts, x)
		}
		k(st, b.CatIn(st, parts...))
		return true
	case name == "strconv.ParseInt" || name == "strconv.Atoi" || name == "strconv.ParseUint":
		for _, ok := range []bool{true, false} {
			s := st.Clone()
			if ok {
				r.log(s, "ts")
				k(s, results(e.SomeInt(s, res.At(0).Type(), Rng{Lo: 1, Hi: MaxI}), Nil{}))
			} else {
				k(s, results(e.SomeInt(s, res.At(0).Type(), Rng{Lo: MinI, Hi: 0}), Nil{}))
			}
		}
		failing(st.Clone(), "other", Int{})
		return true
	case name == "os.IsNotExist", name == "os.IsExist", name == "errors.Is":
		if isnil, known := ErrIsNil(st, args[0]); known && isnil {
			k(st, Bool(false))
			return true
		}
		if name == "os.IsExist" {
			k(st, Bool(false))
			return true
		}
		switch st.Mon("errkind") {
		case "gone":
			k(st, Bool(true))
		case "other":
			k(st, Bool(false))
		default:
			return false
		}
		return true
	case strings.HasSuffix(fn.Name(), "ReadFile") || name == "os.Stat" || name == "os.Lstat" || strings.HasSuffix(outer(fn), "vfsutil") && fn.Name() == "Stat":
		fromCache, file := outer(fn) == "os", args[0]
		if len(args) > 1 {
			cache, known := isCacheFS(st, args[0])
			if !known {
				unknown()
				return false
			}
			fromCache, file = cache, args[1]
		}
		if !fromCache {
			good, bad := st.Clone(), st.Clone()
			k(good, results(first(good), Nil{}))
			failing(bad, "other", e.Inst(bad, res.At(0).Type(), false))
			return true
		}
		which, ok := r.which(b, st, file)
		if !ok {
			unknown()
			return false
		}
		empty := Value(Nil{})
		if which == "" { // the directory
			good := st.Clone()
			k(good, results(first(good), Nil{}))
			gone := st.Clone()
			r.log(gone, "gone")
			failing(gone, "gone", empty)
			failing(st.Clone(), "other", empty)
			return true
		}
		good := st.Clone()
		r.log(good, "rd:"+which+":ok")
		k(good, results(first(good), Nil{}))
		failing(st.Clone(), "gone", empty)
		failing(st.Clone(), "other", empty)
		return true
	case name == "os.Remove" || name == "os.RemoveAll":
		which, ok := r.which(b, st, args[0])
		if !ok {
			unknown()
			return false
		}
		if which == "" {
			which = "DIR"
		}
		r.log(st, "rm:"+which)
		good := st.Clone()
		r.log(good, "rm:"+which+":ok")
		k(good, Nil{})
		if name == "os.Remove" {
			gone := st.Clone()
			r.log(gone, "rm:"+which+":ok")
			failing(gone, "gone")
		}
		bad := st.Clone()
		r.log(bad, "rm:"+which+":fail")
		failing(bad, "other")
		return true
	case name == "os.Mkdir" || name == "os.MkdirAll":
		k(st.Clone(), Nil{})
		failing(st.Clone(), "other")
		return true
	case name == "os.WriteFile":
		which, ok := r.which(b, st, args[0])
		if !ok || which == "" {
			unknown()
			return false
		}
		r.log(st, "w:"+which)
		good := st.Clone()
		r.log(good, "w:"+which+":ok")
		k(good, Nil{})
		bad := st.Clone()
		r.log(bad, "w:"+which+":fail")
		failing(bad, "other")
		return true
	case name == "github.com/posener/gitfs.New":
		good := st.Clone()
		r.log(good, "fetch:ok")
		k(good, results(Iface{T: types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "remote", nil), types.NewStruct(nil, nil), nil)), V: Ptr{Obj: b.Vars["remote"].(Ptr).Obj}}, Nil{}))
		bad := st.Clone()
		r.log(bad, "fetch:fail")
		failing(bad, "other", Nil{})
		return true
	case fn.Name() == "Glob" && len(args) == 2:
		if cache, known := isCacheFS(st, args[0]); known && !cache {
			none := st.Clone()
			k(none, results(b.SeqIn(none, str), Nil{}))
			s := st.Clone()
			k(s, results(b.SeqIn(s, str, Star{V: b.Vars["other"]}, b.Vars["file"], Star{V: b.Vars["other"]}), Nil{}))
			failing(st.Clone(), "other", Nil{})
			return true
		}
	case strings.Contains(outer(fn), "vfstemplate") && strings.HasPrefix(fn.Name(), "Parse"):
		cache, known := isCacheFS(st, args[0])
		switch {
		case !known:
			unknown()
		case cache:
			r.log(st, "use:cache")
		default:
			r.log(st, "use:remote")
		}
		if known { // what follows does not matter here
			r.collect(st)
			return true
		}
		return false
	case outer(fn) == "os" && slices.Contains([]string{"Rename", "Create", "OpenFile", "Symlink", "Link", "Truncate", "CopyFS", "CreateTemp", "MkdirTemp"}, fn.Name()):
		unknown()
	}
	return false
}

// marker is what every use of the cache depends on: the files of the cache
// that were read on all paths before its templates were used.
func (r *cacheRun) marker() (map[string]bool, bool) {
	var m map[string]bool
	used := false
	for l := range r.logs {
		read := map[string]bool{}
		for _, ev := range strings.Fields(l) {
			if strings.HasPrefix(ev, "rd:") {
				read[strings.Split(ev, ":")[1]] = true
			}
			if ev != "use:cache" {
				continue
			}
			if !used {
				m, used = read, true
			} else {
				for n := range m {
					if !read[n] {
						delete(m, n)
					}
				}
			}
			break
		}
	}
	return m, used
}

// judge follows what is done to the cache and tells where a crash or failure
// would leave a cache that is taken for complete and is not.
func judge(l string, marker map[string]bool) string {
	const maybe, absent, present = 0, 1, 2
	m, cleared, written, failed, whole := maybe, false, false, false, true
	fetched, refused, usable := false, false, false
	ts := false
	for _, ev := range strings.Fields(l) {
		p := strings.Split(ev, ":")
		switch p[0] {
		case "rd":
			usable = usable || marker[p[1]]
		case "ts":
			ts = true
		case "gone":
			m, cleared, whole = absent, true, false
		case "fetch":
			fetched, refused = p[1] == "ok", p[1] == "fail"
		case "rm":
			mine := marker[p[1]]
			if len(p) == 2 {
				switch {
				case mine:
				case m == maybe:
					return "the cache is removed while its marker is still there, so an interrupted removal leaves a partial cache that is taken for complete"
				case m == present:
					return "files are removed after the cache was marked as complete"
				}
				if !mine && p[1] == "DIR" {
					whole = false
				}
			} else if p[2] == "ok" {
				if mine {
					m = absent
				}
				if p[1] == "DIR" {
					m, cleared = absent, true
				}
			}
		case "w":
			if len(p) > 2 {
				if p[2] == "fail" {
					failed = true
				} else if p[1] == "t" {
					written = true
				} else if marker[p[1]] {
					m, whole = present, true
				}
				continue
			}
			switch {
			case marker[p[1]] && !fetched:
				return "the cache is marked as complete although nothing was fetched"
			case marker[p[1]] && !cleared:
				return "the cache is marked as complete although old content was not removed"
			case marker[p[1]] && failed:
				return "the cache is marked as complete after writing to it has failed"
			case marker[p[1]] && !written:
				return "the cache is marked as complete before every template is written"
			case marker[p[1]]:
			case m == present:
				return "the cache is written to after it was marked as complete"
			case m == maybe:
				return "the cache is written to while an old marker may still make it usable"
			default:
				whole = false
			}
		case "use":
			if p[1] == "cache" && !whole {
				return "templates are taken from a cache that is not complete"
			}
			return ""
		}
	}
	if refused && usable && ts {
		return "fetching fails and the cache is not used although it is usable"
	}
	return ""
}

func init() {
	register("C23", func(c *Ctx) {
		if err := c.LoadGen(); err != nil {
			c.Record(Oblig{Name: "load", Verdict: "undecided", Detail: err.Error()})
			return
		}
		c.Rule("typestate of the template cache: on every path of the generator the order of what is done to the cache (read, fetch, remove, write, use; each may fail) is collected. The marker is what was read on all paths that use the cache; while it may be there no file is removed or written, it is written last, after old content was removed and every template of the fetched source was written, and a source whose refresh was not completed is not used as a cache; a usable cache is used when fetching fails, and without one the failure is an error")
		r := &cacheRun{c: c, logs: map[string]*State{}}
		c.Scenario(Scen{Name: "refresh-and-use", Prog: c.Gen, Build: func(b *B) (*ssa.Function, []Value) {
			generate := c.Gen.FuncOf(GenPkg, "Generate")
			if generate == nil {
				panic(Missing{What: GenPkg + ".Generate"})
			}
			r.file = b.StrAtom("template file", notRe(`\A\z`))
			b.Vars = map[string]Value{"tmp": b.StrAtom("temporary directory", notRe(`\A\z`)), "file": r.file, "other": b.StrAtom("template file other", notRe(`\A\z`)),
				"remote": b.New("remote", Struct{T: types.NewStruct(nil, nil)})}
			(&cmdRun{c: c, onCall: r.onCall}).hooks(b)
			var args []Value
			for i := 0; i < generate.Signature.Params().Len(); i++ {
				t := generate.Signature.Params().At(i).Type()
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					args = append(args, Value(nil))
					continue
				}
				_, isPtr := t.Underlying().(*types.Pointer)
				args = append(args, b.E.Inst(b.St, t, isPtr))
			}
			for i := range args {
				if args[i] == nil {
					args[i] = b.StrAtom("target", notRe(`\A[./]`), notRe(`\A(json|debug|go|ts|js)\z`))
				}
			}
			return generate, args
		}, Check: func(b *B, res *Result) string {
			r.collect(res.St)
			l := " " + res.St.Mon("log") + " "
			if known, isnil := res.ErrNil(); known && !isnil {
				return ""
			}
			if strings.Contains(l, " fetch:fail ") && !strings.Contains(l, " use:cache ") {
				return "fetching fails and no cache is used, but no error is reported"
			}
			return ""
		}, Done: func(b *B, _ []*Result) string {
			if r.odd != "" {
				panic(r.odd)
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				for l := range r.logs {
					fmt.Println("LOG", l)
				}
			}
			m, used := r.marker()
			if !used {
				panic("no path uses the cache")
			}
			if len(m) == 0 {
				return "the cache is used without reading what tells that it is complete"
			}
			marked, fallback := false, false
			var ls []string
			for l := range r.logs {
				ls = append(ls, l)
			}
			sort.Strings(ls)
			for _, l := range ls {
				for n := range m {
					marked = marked || strings.Contains(l, "w:"+n)
				}
				fallback = fallback || strings.Contains(l, "fetch:fail use:cache")
				if why := judge(l, m); why != "" {
					return why + " (" + l + ")"
				}
			}
			if !marked {
				return "no path marks the cache as complete: the marker that is read (" + strings.Join(slices.Sorted(maps.Keys(m)), ", ") + ") is never written"
			}
			if !fallback {
				return "no path uses the cache when fetching fails"
			}
			return ""
		}})
	})
}
