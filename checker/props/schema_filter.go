package props

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

var tString = types.Typ[types.String]

// occurrences tells where an element with the given name field stands in a
// list: the indices of the segments that hold it; a starred segment counts as
// several.
func occurrences(b *B, st *State, list Value, is func(v Value) bool) (at []int, known bool) {
	segs, ok := b.Elems(st, list)
	if !ok {
		return nil, false
	}
	for i, s := range segs {
		vs := VSet{s.V}
		if x, ok := s.V.(VSet); ok {
			vs = x
		}
		for _, v := range vs {
			if is(v) {
				at = append(at, i)
				if s.Star {
					at = append(at, i)
				}
			}
		}
	}
	return at, true
}

// named recognises pointers to structs with a certain name.
func named(b *B, st *State, name Value) func(v Value) bool {
	return func(v Value) bool {
		p, ok := st.Resolve(v).(Ptr)
		if !ok || p.Path != "" {
			return false
		}
		n := FieldOf(b.Cell(st, p), "Name")
		return n != nil && b.Same(st, n, name)
	}
}

// onlyChanges makes changes of anything but the named fields a violation.
func onlyChanges(b *B, fields ...string) {
	b.GuardStores(func(t types.Type, field string) bool {
		if s, ok := t.(*types.Slice); ok {
			for _, f := range fields {
				if e, ok := s.Elem().(*types.Pointer); ok && f == "[]"+e.Elem().(*types.Named).Obj().Name() {
					return true
				}
			}
			return false
		}
		n, ok := t.(*types.Named)
		if !ok {
			return false
		}
		for _, f := range fields {
			if f == n.Obj().Name()+"."+field {
				return true
			}
		}
		return false
	})
}

// filt is one scenario of a filter.
type filt struct {
	name, what string
	entry      string
	changes    []string
	build      func(d *doc) []Value // further arguments
	check      func(b *B, r *Result, s Value) string
}

func (c *Ctx) filter(f filt) {
	c.Scenario(Scen{Name: f.name, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		b.Vars = map[string]Value{}
		b.Vars["T1"] = d.typ("type T1", F{"Name": b.StrAtom("T1.Name")})
		b.Vars["T2"] = d.typ("type T2", F{"Name": b.StrAtom("T2.Name")})
		b.Vars["E1"] = d.err("error E1", F{})
		b.Vars["E2"] = d.err("error E2", F{})
		d.Types = d.among(d.pType, b.Vars["T1"], b.Vars["T2"])
		d.Errors = d.among(d.pErr, b.Vars["E1"], b.Vars["E2"])
		more := f.build(d)
		onlyChanges(b, f.changes...)
		b.E.AnonCap = 0
		return c.Core.FuncOf(Schema, f.entry), append([]Value{d.schema()}, more...)
	}, Check: func(b *B, r *Result) string {
		if m := r.St.Mon("modified"); m != "" {
			return f.entry + " changes " + m
		}
		p, ok := r.St.Resolve(r.Ret).(Ptr)
		if !ok {
			return f.entry + " can return no schema"
		}
		s := b.Cell(r.St, p)
		for _, l := range [][3]string{{"Types", "T1", "T2"}, {"Errors", "E1", "E2"}} {
			m := inOrder(b, r.St, FieldOf(s, l[0]), b.Vars[l[1]], b.Vars[l[2]])
			if m != "" {
				return f.entry + " can change the list of " + l[0] + ": " + m
			}
		}
		return f.check(b, r, s)
	}, Done: func(b *B, rs []*Result) string {
		if len(rs) == 0 {
			return f.entry + " has no result for " + f.what
		}
		return ""
	}})
}

func isPtr(b *B, st *State, want Value) func(v Value) bool {
	return func(v Value) bool { return st.Resolve(v) == want }
}

// inOrder checks that two elements occur once each, the first before the second.
func inOrder(b *B, st *State, list Value, x, y Value) string {
	i, ok1 := occurrences(b, st, list, isPtr(b, st, x))
	j, ok2 := occurrences(b, st, list, isPtr(b, st, y))
	return ordered(i, j, ok1 && ok2)
}

func ordered(i, j []int, ok bool) string {
	switch {
	case !ok:
		return "it is replaced"
	case len(i) == 0 || len(j) == 0:
		return "an element is dropped"
	case len(i) > 1 || len(j) > 1:
		return "an element is repeated"
	case i[0] >= j[0]:
		return "elements are reordered"
	}
	return ""
}

func init() {
	register("C16", func(c *Ctx) {
		c.Rule("Skolem services and methods among arbitrarily many others, and filters covering every selection or non-selection of them, are propagated through MatchServices, MatchMethodsWithAnnotations and IgnoreMethodsWithAnnotations; in every abstract result the selected ones occur exactly once and in order, the others not at all, the type and error lists are as before, and nothing else was stored to.")
		str := tString
		// the other services (methods) have other names
		svcList := func(d *doc, vs ...Value) Value {
			var not []Value
			for _, k := range []string{"n", "m2"} {
				if v := d.b.Vars[k]; v != nil {
					not = append(not, v)
				}
			}
			other := Fresh{T: d.pSvc, NonNil: true, Tmpl: &Tmpl{Name: "other", F: map[string]Value{"Name": Fresh{T: tString, Not: not}}}}
			l := []Value{Star{V: other}}
			for _, v := range vs {
				l = append(l, v, Star{V: other})
			}
			return d.b.Seq(d.pSvc, l...)
		}
		once := func(b *B, r *Result, list Value, what string, n Value) string {
			at, ok := occurrences(b, r.St, list, named(b, r.St, n))
			switch {
			case !ok:
				return what + " list is unknown"
			case len(at) == 0:
				return "a selected " + what + " can be dropped"
			case len(at) > 1:
				return "a selected " + what + " can be repeated"
			}
			return ""
		}
		never := func(b *B, r *Result, list Value, what string, n Value) string {
			at, ok := occurrences(b, r.St, list, named(b, r.St, n))
			if !ok {
				return what + " list is unknown"
			}
			if len(at) > 0 {
				return "a " + what + " that is not selected can be kept"
			}
			return ""
		}
		svcChanges := []string{"WebRPCSchema.Services", "[]Service"}
		c.filter(filt{name: "service-listed", what: "a listed service", entry: "MatchServices", changes: svcChanges,
			build: func(d *doc) []Value {
				n := d.b.StrAtom("S.Name")
				d.b.Vars["n"] = n
				d.Services = svcList(d, d.svc("service S", F{"Name": n}))
				o := Star{V: Fresh{T: str, Not: []Value{n}}}
				return []Value{d.b.Seq(str, o, n, o)}
			}, check: func(b *B, r *Result, s Value) string {
				return once(b, r, FieldOf(s, "Services"), "service", b.Vars["n"])
			}})
		c.filter(filt{name: "service-listed-twice", what: "a service that is listed twice", entry: "MatchServices", changes: svcChanges,
			build: func(d *doc) []Value {
				n := d.b.StrAtom("S.Name")
				d.b.Vars["n"] = n
				d.Services = svcList(d, d.svc("service S", F{"Name": n}))
				return []Value{d.b.Seq(str, n, n)}
			}, check: func(b *B, r *Result, s Value) string {
				return once(b, r, FieldOf(s, "Services"), "service", b.Vars["n"])
			}})
		c.filter(filt{name: "service-not-listed", what: "a service that is not listed", entry: "MatchServices", changes: svcChanges,
			build: func(d *doc) []Value {
				n := d.b.StrAtom("S.Name")
				d.b.Vars["n"] = n
				d.Services = svcList(d, d.svc("service S", F{"Name": n}))
				o := Fresh{T: str, Not: []Value{n}}
				return []Value{d.b.Seq(str, Star{V: o}, o)}
			}, check: func(b *B, r *Result, s Value) string {
				return never(b, r, FieldOf(s, "Services"), "service", b.Vars["n"])
			}})
		c.filter(filt{name: "service-order", what: "two listed services", entry: "MatchServices", changes: svcChanges,
			build: func(d *doc) []Value {
				n, m := d.b.StrAtom("S.Name"), d.b.StrAtom("U.Name")
				d.b.Differ(n, m)
				d.b.Vars["n"], d.b.Vars["m"], d.b.Vars["m2"] = n, m, m
				d.Services = svcList(d, d.svc("service S", F{"Name": n}), d.svc("service U", F{"Name": m}))
				o := Star{V: Fresh{T: str, Not: []Value{n, m}}}
				return []Value{d.b.Seq(str, o, m, o, n, o)}
			}, check: func(b *B, r *Result, s Value) string {
				i, ok1 := occurrences(b, r.St, FieldOf(s, "Services"), named(b, r.St, b.Vars["n"]))
				j, ok2 := occurrences(b, r.St, FieldOf(s, "Services"), named(b, r.St, b.Vars["m"]))
				if m := ordered(i, j, ok1 && ok2); m != "" {
					return "services are not kept in order: " + m
				}
				return ""
			}})

		// annotation filters
		tAnn := func(d *doc) types.Type { return d.b.Type(Schema, "Annotations") }
		ann := func(d *doc, name, value Value) Value {
			return d.b.New("annotation A", d.b.Struct(d.b.Type(Schema, "Annotation"), F{"AnnotationType": name, "Value": value}))
		}
		filterT := types.NewMap(str, str)
		blank, notBlank := isRe(`\A *\z`), notRe(`\A *\z`)
		type sc struct {
			name    string
			matches bool
			build   func(d *doc) (filter Value, annotations Value)
		}
		scs := []sc{
			{"name-only", true, func(d *doc) (Value, Value) {
				a := d.b.StrAtom("a")
				return d.b.MapOf(filterT, Fresh{T: str}, MapEnt{K: a, V: d.b.StrAtom("blank", blank), Must: true}),
					d.b.MapOf(tAnn(d), Fresh{T: types.NewPointer(d.b.Type(Schema, "Annotation")), NonNil: true}, MapEnt{K: a, V: ann(d, a, d.b.StrAtom("v")), Must: true})
			}},
			{"name-and-value", true, func(d *doc) (Value, Value) {
				a, w := d.b.StrAtom("a"), d.b.StrAtom("w", notBlank)
				return d.b.MapOf(filterT, Fresh{T: str}, MapEnt{K: a, V: w, Must: true}),
					d.b.MapOf(tAnn(d), Fresh{T: types.NewPointer(d.b.Type(Schema, "Annotation")), NonNil: true}, MapEnt{K: a, V: ann(d, a, w), Must: true})
			}},
			{"no-annotation", false, func(d *doc) (Value, Value) {
				return d.b.MapOf(filterT, Fresh{T: str}, MapEnt{K: d.b.StrAtom("a"), V: d.b.StrAtom("w"), Must: true}), d.b.MapOf(tAnn(d), nil)
			}},
			{"nil-annotations", false, func(d *doc) (Value, Value) {
				return d.b.MapOf(filterT, Fresh{T: str}, MapEnt{K: d.b.StrAtom("a"), V: d.b.StrAtom("w"), Must: true}), Nil{}
			}},
			{"other-annotations", false, func(d *doc) (Value, Value) {
				a := d.b.StrAtom("a")
				return d.b.MapOf(filterT, nil, MapEnt{K: a, V: d.b.StrAtom("w"), Must: true}),
					d.b.MapOf(tAnn(d), Fresh{T: types.NewPointer(d.b.Type(Schema, "Annotation")), NonNil: true}, MapEnt{K: a, Absent: true})
			}},
			{"other-value", false, func(d *doc) (Value, Value) {
				a, w, v := d.b.StrAtom("a"), d.b.StrAtom("w", notBlank), d.b.StrAtom("v")
				d.b.Differ(w, v)
				return d.b.MapOf(filterT, nil, MapEnt{K: a, V: w, Must: true}),
					d.b.MapOf(tAnn(d), Fresh{T: types.NewPointer(d.b.Type(Schema, "Annotation")), NonNil: true}, MapEnt{K: a, V: ann(d, a, v), Must: true})
			}},
			{"two-other-values", false, func(d *doc) (Value, Value) {
				a, w, v := d.b.StrAtom("a"), d.b.StrAtom("w", notBlank), d.b.StrAtom("v")
				x, y, z := d.b.StrAtom("x"), d.b.StrAtom("y", notBlank), d.b.StrAtom("z")
				d.b.Differ(w, v)
				d.b.Differ(y, z)
				d.b.Differ(a, x)
				return d.b.MapOf(filterT, nil, MapEnt{K: a, V: w, Must: true}, MapEnt{K: x, V: y, Must: true}),
					d.b.MapOf(tAnn(d), nil, MapEnt{K: a, V: ann(d, a, v), Must: true}, MapEnt{K: x, V: ann(d, x, z), Must: true})
			}},
			{"value-of-the-other", false, func(d *doc) (Value, Value) {
				// the filter wants a:w and x:y, the method has a:y and x:w
				a, w := d.b.StrAtom("a"), d.b.StrAtom("w", notBlank)
				x, y := d.b.StrAtom("x"), d.b.StrAtom("y", notBlank)
				d.b.Differ(w, y)
				d.b.Differ(a, x)
				return d.b.MapOf(filterT, nil, MapEnt{K: a, V: w, Must: true}, MapEnt{K: x, V: y, Must: true}),
					d.b.MapOf(tAnn(d), nil, MapEnt{K: a, V: ann(d, a, y), Must: true}, MapEnt{K: x, V: ann(d, x, w), Must: true})
			}},
			{"second-filter", true, func(d *doc) (Value, Value) {
				a, w := d.b.StrAtom("a"), d.b.StrAtom("w", notBlank)
				x, v, y := d.b.StrAtom("x"), d.b.StrAtom("v", notBlank), d.b.StrAtom("y")
				d.b.Differ(a, x)
				d.b.Differ(v, y)
				return d.b.MapOf(filterT, nil, MapEnt{K: a, V: w, Must: true}, MapEnt{K: x, V: v, Must: true}),
					d.b.MapOf(tAnn(d), nil, MapEnt{K: x, V: ann(d, x, y), Must: true}, MapEnt{K: a, V: ann(d, a, w), Must: true})
			}},
		}
		for _, fn := range []struct {
			entry string
			keep  bool
		}{{"MatchMethodsWithAnnotations", true}, {"IgnoreMethodsWithAnnotations", false}} {
			for _, s := range scs {
				changes := []string{"Service.Methods", "[]Method"}
				verb := map[bool]string{true: "match-", false: "ignore-"}[fn.keep]
				keep := s.matches == fn.keep
				c.filter(filt{name: verb + s.name, what: s.name, entry: fn.entry, changes: changes, build: func(d *doc) []Value {
					f, a := s.build(d)
					n, m := d.b.StrAtom("S.Name"), d.b.StrAtom("M.Name")
					d.b.Vars["n"], d.b.Vars["m"] = n, m
					d.Services = svcList(d, d.svc("service S", F{"Name": n, "Methods": d.among(d.pMeth, d.meth("method M", F{"Name": m, "Annotations": a}))}))
					return []Value{f}
				}, check: func(b *B, r *Result, s Value) string {
					svcs := FieldOf(s, "Services")
					if m := once(b, r, svcs, "service", b.Vars["n"]); m != "" {
						return m
					}
					segs, _ := b.Elems(r.St, svcs)
					at, _ := occurrences(b, r.St, svcs, named(b, r.St, b.Vars["n"]))
					ms := FieldOf(b.Cell(r.St, segs[at[0]].V.(Ptr)), "Methods")
					if keep {
						return once(b, r, ms, "method", b.Vars["m"])
					}
					return never(b, r, ms, "method", b.Vars["m"])
				}})
			}
			// order of kept methods
			c.filter(filt{name: map[bool]string{true: "match", false: "ignore"}[fn.keep] + "-order", what: "two methods", entry: fn.entry, changes: []string{"Service.Methods", "[]Method"}, build: func(d *doc) []Value {
				a := d.b.StrAtom("a")
				mk := func(name string) Value {
					n := d.b.StrAtom(name)
					d.b.Vars[name] = n
					if fn.keep {
						return d.meth(name, F{"Name": n, "Annotations": d.b.MapOf(tAnn(d), nil, MapEnt{K: a, V: ann(d, a, d.b.StrAtom("v")), Must: true})})
					}
					return d.meth(name, F{"Name": n, "Annotations": Nil{}})
				}
				d.b.Vars["n"] = d.b.StrAtom("S.Name")
				d.Services = svcList(d, d.svc("service S", F{"Name": d.b.Vars["n"], "Methods": d.among(d.pMeth, mk("M"), mk("N"))}))
				return []Value{d.b.MapOf(filterT, nil, MapEnt{K: a, V: d.b.StrAtom("blank", blank), Must: true})}
			}, check: func(b *B, r *Result, s Value) string {
				svcs := FieldOf(s, "Services")
				if m := once(b, r, svcs, "service", b.Vars["n"]); m != "" {
					return m
				}
				segs, _ := b.Elems(r.St, svcs)
				at, _ := occurrences(b, r.St, svcs, named(b, r.St, b.Vars["n"]))
				ms := FieldOf(b.Cell(r.St, segs[at[0]].V.(Ptr)), "Methods")
				i, ok1 := occurrences(b, r.St, ms, named(b, r.St, b.Vars["M"]))
				j, ok2 := occurrences(b, r.St, ms, named(b, r.St, b.Vars["N"]))
				if m := ordered(i, j, ok1 && ok2); m != "" {
					return "methods are not kept in order: " + m
				}
				return ""
			}})
			// methods stay in their service
			c.filter(filt{name: map[bool]string{true: "match", false: "ignore"}[fn.keep] + "-two-services", what: "methods of two services", entry: fn.entry, changes: []string{"Service.Methods", "[]Method"}, build: func(d *doc) []Value {
				a := d.b.StrAtom("a")
				mk := func(name string) Value {
					n := d.b.StrAtom(name)
					d.b.Vars[name] = n
					if fn.keep {
						return d.meth(name, F{"Name": n, "Annotations": d.b.MapOf(tAnn(d), nil, MapEnt{K: a, V: ann(d, a, d.b.StrAtom("v")), Must: true})})
					}
					return d.meth(name, F{"Name": n, "Annotations": Nil{}})
				}
				d.b.Vars["n"], d.b.Vars["m2"] = d.b.StrAtom("S.Name"), d.b.StrAtom("U.Name")
				d.b.Differ(d.b.Vars["n"].(Str), d.b.Vars["m2"].(Str))
				d.Services = d.b.Seq(d.pSvc, d.svc("service S", F{"Name": d.b.Vars["n"], "Methods": d.b.Seq(d.pMeth, mk("M"))}), d.svc("service U", F{"Name": d.b.Vars["m2"], "Methods": d.b.Seq(d.pMeth, mk("N"))}))
				return []Value{d.b.MapOf(filterT, nil, MapEnt{K: a, V: d.b.StrAtom("blank", blank), Must: true})}
			}, check: func(b *B, r *Result, s Value) string {
				svcs := FieldOf(s, "Services")
				for _, x := range [][3]string{{"n", "M", "N"}, {"m2", "N", "M"}} {
					if m := once(b, r, svcs, "service", b.Vars[x[0]]); m != "" {
						return m
					}
					segs, _ := b.Elems(r.St, svcs)
					at, _ := occurrences(b, r.St, svcs, named(b, r.St, b.Vars[x[0]]))
					ms := FieldOf(b.Cell(r.St, segs[at[0]].V.(Ptr)), "Methods")
					if m := once(b, r, ms, "method", b.Vars[x[1]]); m != "" {
						return m
					}
					if m := never(b, r, ms, "method", b.Vars[x[2]]); m != "" {
						return "a method can move to another service"
					}
				}
				return ""
			}})
		}
	})
}

// nothing may be stored to.
func nothing(types.Type, string) bool { return false }

var boolT = types.Typ[types.Bool]
