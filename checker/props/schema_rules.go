package props

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// doc builds documents for Validate.
type doc struct {
	b                            *B
	tType, tField, tMeta, tVar   types.Type
	tErr, tSvc, tMeth, tArg, tSc types.Type
	pType, pField, pErr, pSvc    types.Type
	pMeth, pArg, pVar            types.Type
	Types, Errors, Services      Value
	header                       F
	sparse                       bool // there is nothing else in the document
}

func newDoc(b *B) *doc {
	d := &doc{b: b, header: F{}}
	d.tType, d.tField, d.tMeta = b.Type(Schema, "Type"), b.Type(Schema, "TypeField"), b.Type(Schema, "TypeFieldMeta")
	d.tVar, d.tErr, d.tSvc = b.Type(Schema, "VarType"), b.Type(Schema, "Error"), b.Type(Schema, "Service")
	d.tMeth, d.tArg, d.tSc = b.Type(Schema, "Method"), b.Type(Schema, "MethodArgument"), b.Type(Schema, "WebRPCSchema")
	p := func(t types.Type) types.Type { return types.NewPointer(t) }
	d.pType, d.pField, d.pErr, d.pSvc = p(d.tType), p(d.tField), p(d.tErr), p(d.tSvc)
	d.pMeth, d.pArg, d.pVar = p(d.tMeth), p(d.tArg), p(d.tVar)
	return d
}

// among puts the given elements, in order, between any number of others.
func (d *doc) among(elem types.Type, vs ...Value) Value {
	if d.sparse {
		return d.b.Seq(elem, vs...)
	}
	l := []Value{d.b.Others(elem)}
	for _, v := range vs {
		l = append(l, v, d.b.Others(elem))
	}
	return d.b.Seq(elem, l...)
}

func (d *doc) schema() Ptr {
	f := F{}
	for k, v := range d.header {
		f[k] = v
	}
	if d.Types != nil {
		f["Types"] = d.Types
	}
	if d.Errors != nil {
		f["Errors"] = d.Errors
	}
	if d.Services != nil {
		f["Services"] = d.Services
	}
	for _, k := range []string{"Types", "Errors", "Services"} {
		if d.sparse && f[k] == nil {
			f[k] = Nil{}
		}
	}
	return d.b.New("the schema", d.b.Struct(d.tSc, f))
}

// typ is a type declaration with some fields of the Go struct given.
func (d *doc) typ(name string, f F) Ptr   { return d.b.New(name, d.b.Struct(d.tType, f)) }
func (d *doc) field(name string, f F) Ptr { return d.b.New(name, d.b.Struct(d.tField, f)) }
func (d *doc) err(name string, f F) Ptr   { return d.b.New(name, d.b.Struct(d.tErr, f)) }
func (d *doc) svc(name string, f F) Ptr   { return d.b.New(name, d.b.Struct(d.tSvc, f)) }
func (d *doc) meth(name string, f F) Ptr  { return d.b.New(name, d.b.Struct(d.tMeth, f)) }
func (d *doc) arg(name string, f F) Ptr   { return d.b.New(name, d.b.Struct(d.tArg, f)) }
func (d *doc) vtype(name string, f F) Ptr { return d.b.New(name, d.b.Struct(d.tVar, f)) }
func (d *doc) inService(ms ...Value) Value {
	return d.among(d.pSvc, d.svc("service S", F{"Methods": d.among(d.pMeth, ms...)}))
}

func notRe(re string) Lit { return Lit{P: MustRe(re), Neg: true} }
func isRe(re string) Lit  { return Lit{P: MustRe(re)} }

// reject schedules a scenario in which Validate must not succeed.
func (c *Ctx) reject(name, what string, resolveTypes bool, build func(d *doc)) {
	c.Scenario(Scen{Name: name, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		build(d)
		if !resolveTypes {
			b.E.Summarise("(*" + Schema + ".VarType).Parse")
		}
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); !k || isnil {
			return "Validate can succeed for a schema with " + what
		}
		return ""
	}})
}

// accept schedules the control: an unconstrained schema can be accepted.
func (c *Ctx) accept(name string, build func(d *doc)) {
	c.Scenario(Scen{Name: name, NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		build(d)
		b.E.Summarise("(*" + Schema + ".VarType).Parse")
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
	}})
}

func init() {
	register("C01", func(c *Ctx) {
		c.Rule("For each way a declared type can be ill formed (name, kind, alias target, duplicate name) an abstract schema covering every document with that defect, at any position and with any other content, is propagated through WebRPCSchema.Validate; no abstract path may return a nil error.")
		c.reject("name-not-upper", "a type whose name is empty or does not start with an upper-case letter", false, func(d *doc) {
			d.Types = d.among(d.pType, d.typ("type T", F{"Name": d.b.StrAtom("T.Name", notRe(`\A\p{Lu}`))}))
		})
		c.reject("kind", "a type of a kind other than struct, enum and alias", false, func(d *doc) {
			k := d.b.StrAtom("T.Kind", notRe(`\A(struct|enum|alias)\z`))
			d.Types = d.among(d.pType, d.typ("type T", F{"Kind": k}))
		})
		c.reject("alias-without-type", "an alias without an underlying type", false, func(d *doc) {
			d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const("alias"), "Type": Nil{}}))
		})
		c.reject("duplicate-name", "two types whose names are equal ignoring case", false, func(d *doc) {
			n, m := d.b.StrAtom("T.Name"), d.b.StrAtom("U.Name")
			d.b.SameFold(n, m)
			d.Types = d.among(d.pType, d.typ("type T", F{"Name": n}), d.typ("type U", F{"Name": m}))
		})
		c.reject("null-type", "a null type", false, func(d *doc) { d.Types = d.among(d.pType, Nil{}) })
		c.accept("control", func(d *doc) { d.Types = d.among(d.pType, d.typ("type T", F{"Name": d.b.StrAtom("T.Name")})) })
	})

	register("C02", func(c *Ctx) {
		c.Rule("For each rule on struct fields and enum members an abstract schema covering every document that breaks it is propagated through WebRPCSchema.Validate; no abstract path may return a nil error.")
		const ident = `\A[a-zA-Z]+[a-zA-Z0-9_]*\z`
		for _, kind := range []string{"struct", "enum"} {
			c.reject("field-name-"+kind, "a "+kind+" with a field whose name is not valid", false, func(d *doc) {
				f := d.field("field F", F{"Name": d.b.StrAtom("F.Name", notRe(ident))})
				d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const(kind), "Fields": d.among(d.pField, f)}))
			})
			c.reject("duplicate-field-"+kind, "a "+kind+" with two fields whose names are equal ignoring case", false, func(d *doc) {
				n, m := d.b.StrAtom("F.Name"), d.b.StrAtom("G.Name")
				d.b.SameFold(n, m)
				f, g := d.field("field F", F{"Name": n}), d.field("field G", F{"Name": m})
				d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const(kind), "Fields": d.among(d.pField, f, g)}))
			})
			c.reject("null-field-"+kind, "a "+kind+" with a null field", false, func(d *doc) {
				d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const(kind), "Fields": d.among(d.pField, Nil{})}))
			})
		}
		str := types.Typ[types.String]
		meta := func(d *doc, json Value) Value { // metas of which exactly one has a json entry
			other := d.b.MapOf(d.tMeta, Fresh{T: d.tMeta.Underlying().(*types.Map).Elem()}, MapEnt{K: d.b.Const("json"), Absent: true})
			one := d.b.MapOf(d.tMeta, nil, MapEnt{K: d.b.Const("json"), V: json, Must: true})
			return d.b.Seq(d.tMeta, Star{other}, one, Star{other})
		}
		noJSON := func(d *doc) Value {
			other := d.b.MapOf(d.tMeta, Fresh{T: d.tMeta.Underlying().(*types.Map).Elem()}, MapEnt{K: d.b.Const("json"), Absent: true})
			return d.b.Seq(d.tMeta, Star{other})
		}
		structWith := func(d *doc, fs ...Value) {
			d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const("struct"), "Fields": d.among(d.pField, fs...)}))
		}
		c.reject("json-name-not-a-string", "a field whose json name is a number", false, func(d *doc) {
			structWith(d, d.field("field F", F{"Meta": meta(d, Iface{T: types.Typ[types.Float64], V: Opaque{T: types.Typ[types.Float64]}})}))
		})
		c.reject("json-name-bool", "a field whose json name is a boolean", false, func(d *doc) {
			structWith(d, d.field("field F", F{"Meta": meta(d, Iface{T: types.Typ[types.Bool], V: d.b.BoolAtom("json")})}))
		})
		c.reject("json-name-invalid", `a field whose json name is neither "-" nor a valid name`, false, func(d *doc) {
			structWith(d, d.field("field F", F{"Meta": meta(d, Iface{T: str, V: d.b.StrAtom("json", notRe(ident), notRe(`\A-\z`))})}))
		})
		dup := func(d *doc) (Str, Str) {
			n, m := d.b.StrAtom("F.json", notRe(`\A-\z`)), d.b.StrAtom("G.json", notRe(`\A-\z`))
			d.b.SameFold(n, m)
			return n, m
		}
		c.reject("json-name-duplicate", "two fields with the same json name", false, func(d *doc) {
			n, m := dup(d)
			structWith(d, d.field("field F", F{"Meta": meta(d, Iface{T: str, V: n})}), d.field("field G", F{"Meta": meta(d, Iface{T: str, V: m})}))
		})
		c.reject("json-name-equals-later-field", "a field whose json name equals the name of a later field", false, func(d *doc) {
			n, m := dup(d)
			structWith(d, d.field("field F", F{"Meta": meta(d, Iface{T: str, V: n})}), d.field("field G", F{"Name": m, "Meta": noJSON(d)}))
		})
		c.reject("json-name-equals-earlier-field", "a field whose json name equals the name of an earlier field", false, func(d *doc) {
			n, m := dup(d)
			structWith(d, d.field("field F", F{"Name": n, "Meta": noJSON(d)}), d.field("field G", F{"Meta": meta(d, Iface{T: str, V: m})}))
		})
		ints := `u?int(8|16|32|64)?`
		c.reject("enum-base-type", "an enum whose base type is neither an integer nor string", true, func(d *doc) {
			d.Types = d.among(d.pType, d.typ("enum T", F{"Kind": d.b.Const("enum"), "Type": d.vtype("base", F{"Expr": d.b.StrAtom("base", notRe(`\A(`+ints+`|string)\z`))})}))
		})
		c.reject("enum-without-base-type", "an enum without a base type", false, func(d *doc) {
			d.Types = d.among(d.pType, d.typ("enum T", F{"Kind": d.b.Const("enum"), "Type": Nil{}}))
		})
		c.reject("enum-member-without-value", "an enum with a member that has no value", false, func(d *doc) {
			f := d.field("member F", F{"Value": d.b.Const("")})
			d.Types = d.among(d.pType, d.typ("enum T", F{"Kind": d.b.Const("enum"), "Fields": d.among(d.pField, f)}))
		})
		c.reject("enum-member-with-type", "an enum with a member that has a type", false, func(d *doc) {
			f := d.field("member F", F{"Type": d.vtype("V", F{})})
			d.Types = d.among(d.pType, d.typ("enum T", F{"Kind": d.b.Const("enum"), "Fields": d.among(d.pField, f)}))
		})
		c.reject("struct-field-with-value", "a struct with a field that has a value", false, func(d *doc) {
			structWith(d, d.field("field F", F{"Value": d.b.StrAtom("F.Value", notRe(`\A\z`))}))
		})
		c.accept("control-struct", func(d *doc) { structWith(d, d.field("field F", F{"Name": d.b.StrAtom("F.Name")})) })
	})

	register("C03", func(c *Ctx) {
		c.Rule("For each rule on services, methods and arguments an abstract schema covering every document that breaks it is propagated through WebRPCSchema.Validate; no abstract path may return a nil error.")
		c.succinct()
		c.reject("service-name", "a service without a name", false, func(d *doc) {
			d.Services = d.among(d.pSvc, d.svc("service S", F{"Name": d.b.Const("")}))
		})
		c.reject("no-methods", "a service without methods", false, func(d *doc) {
			d.Services = d.among(d.pSvc, d.svc("service S", F{"Methods": d.b.Seq(d.pMeth)}))
		})
		c.reject("nil-methods", "a service without methods", false, func(d *doc) {
			d.Services = d.among(d.pSvc, d.svc("service S", F{"Methods": Nil{}}))
		})
		c.reject("duplicate-service", "two services whose names are equal ignoring case", false, func(d *doc) {
			n, m := d.b.StrAtom("S.Name"), d.b.StrAtom("R.Name")
			d.b.SameFold(n, m)
			d.Services = d.among(d.pSvc, d.svc("service S", F{"Name": n}), d.svc("service R", F{"Name": m}))
		})
		c.reject("method-name", "a method without a name", false, func(d *doc) {
			d.Services = d.inService(d.meth("method M", F{"Name": d.b.Const("")}))
		})
		c.reject("duplicate-method", "two methods of a service whose names are equal ignoring case", false, func(d *doc) {
			n, m := d.b.StrAtom("M.Name"), d.b.StrAtom("N.Name")
			d.b.SameFold(n, m)
			d.Services = d.inService(d.meth("method M", F{"Name": n}), d.meth("method N", F{"Name": m}))
		})
		for _, dir := range []string{"Inputs", "Outputs"} {
			c.reject("argument-name-"+dir, "a method with an argument ("+dir+") without a name", false, func(d *doc) {
				a := d.arg("argument A", F{"Name": d.b.Const("")})
				d.Services = d.inService(d.meth("method M", F{dir: d.among(d.pArg, a)}))
			})
			c.reject("succinct-"+dir, "a succinct method with several "+dir, false, func(d *doc) {
				a, b2 := d.arg("argument A", F{}), d.arg("argument B", F{})
				d.Services = d.inService(d.meth("method M", F{"Succinct": Bool(true), dir: d.among(d.pArg, a, b2)}))
			})
			c.reject("null-argument-"+dir, "a method with a null argument ("+dir+")", false, func(d *doc) {
				d.Services = d.inService(d.meth("method M", F{dir: d.among(d.pArg, Nil{})}))
			})
		}
		c.reject("null-service", "a null service", false, func(d *doc) { d.Services = d.among(d.pSvc, Nil{}) })
		c.reject("null-method", "a null method", false, func(d *doc) { d.Services = d.inService(Nil{}) })
		c.accept("control", func(d *doc) { d.Services = d.inService(d.meth("method M", F{"Name": d.b.StrAtom("M.Name")})) })
	})

	register("C04", func(c *Ctx) {
		c.Rule("For each rule on declared errors an abstract schema covering every document that breaks it is propagated through WebRPCSchema.Validate; no abstract path may return a nil error.")
		bad := c.badError
		c.errorCode()
		bad("message", "without a message", func(d *doc) F { return F{"Message": d.b.Const("")} })
		bad("status-low", "whose HTTP status is below 400", func(d *doc) F { return F{"HTTPStatus": d.b.IntAtom("E.HTTPStatus", Rng{MinI, 399})} })
		bad("status-high", "whose HTTP status is above 599", func(d *doc) F { return F{"HTTPStatus": d.b.IntAtom("E.HTTPStatus", Rng{600, MaxI})} })
		bad("name-empty", "without a name", func(d *doc) F { return F{"Name": d.b.Const("")} })
		c.errorName()
		c.reject("null-error", "a null error", false, func(d *doc) { d.Errors = d.among(d.pErr, Nil{}) })
		c.reject("duplicate-code", "two declared errors with the same code", false, func(d *doc) {
			n := d.b.IntAtom("code")
			d.Errors = d.among(d.pErr, d.err("error E", F{"Code": n}), d.err("error G", F{"Code": n}))
		})
		c.Scenario(Scen{Name: "duplicate-name-after-validation", NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
			d := newDoc(b)
			e, g := d.err("error E", F{"Name": d.b.StrAtom("E.Name")}), d.err("error G", F{"Name": d.b.StrAtom("G.Name")})
			b.Vars = map[string]Value{"E": e, "G": g}
			d.Errors = d.among(d.pErr, e, g)
			b.E.Summarise("(*" + Schema + ".VarType).Parse")
			return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
		}, Check: func(b *B, r *Result) string {
			if k, isnil := r.ErrNil(); k && !isnil {
				return ""
			}
			x := FieldOf(b.Cell(r.St, b.Vars["E"].(Ptr)), "Name")
			y := FieldOf(b.Cell(r.St, b.Vars["G"].(Ptr)), "Name")
			if b.MaySameFold(r.St, x, y) {
				return "Validate can succeed for a schema with two declared errors whose names are equal ignoring case"
			}
			return ""
		}})
		c.reject("duplicate-name", "two declared errors whose names are equal ignoring case", false, func(d *doc) {
			trimmed := notRe(`\A[\s\pZ\x{85}\x0b]|[\s\pZ\x{85}\x0b]\z`)
			n, m := d.b.StrAtom("E.Name", trimmed), d.b.StrAtom("G.Name", trimmed)
			d.b.SameFold(n, m)
			d.Errors = d.among(d.pErr, d.err("error E", F{"Name": n}), d.err("error G", F{"Name": m}))
		})
		c.accept("control", func(d *doc) { d.Errors = d.among(d.pErr, d.err("error E", F{"Name": d.b.StrAtom("E.Name")})) })
	})
}

// badError rejects every schema with a declared error of the given form.
func (c *Ctx) badError(name, what string, f func(d *doc) F) {
	c.reject(name, "a declared error "+what, false, func(d *doc) { d.Errors = d.among(d.pErr, d.err("error E", f(d))) })
}

func (c *Ctx) errorCode() {
	c.badError("code", "whose code is zero or negative", func(d *doc) F { return F{"Code": d.b.IntAtom("E.Code", Rng{MinI, 0})} })
}

func (c *Ctx) errorName() {
	c.Scenario(Scen{Name: "name-after-validation", NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
		d := newDoc(b)
		e := d.err("error E", F{"Name": d.b.StrAtom("E.Name")})
		b.Vars = map[string]Value{"E": e}
		d.Errors = d.among(d.pErr, e)
		b.E.Summarise("(*" + Schema + ".VarType).Parse")
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
	}, Check: func(b *B, r *Result) string {
		if k, isnil := r.ErrNil(); k && !isnil {
			return ""
		}
		n := FieldOf(b.Cell(r.St, b.Vars["E"].(Ptr)), "Name")
		if b.May(r.St, n, notRe(`\A\p{Lu}`)) {
			return "Validate can succeed for a schema with a declared error whose name does not start with an upper-case letter"
		}
		if b.May(r.St, n, isRe(`\A(?i:webrpc)`)) {
			return "Validate can succeed for a schema with a declared error whose name starts with webrpc in some letter case"
		}
		return ""
	}})
}
