package props

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// crashes tells how an abstract path ends the process. Faults that depend on
// something the analysis has no precise value for are not counted.
func crashes(b *B, o *Outcome) string {
	switch {
	case o.Kind == "panic" && !strings.HasPrefix(o.Msg, "possible "):
		return "the process can crash in " + o.Fn.String() + ": " + o.Msg
	case o.Kind == "exit":
		return o.Fn.String() + " can end the process"
	}
	return ""
}

// calm schedules a scenario in which a function must not crash.
func (c *Ctx) calm(name string, deep bool, build func(d *doc) (*ssa.Function, []Value)) {
	c.Scenario(Scen{Name: name, Deep: deep, Build: func(b *B) (*ssa.Function, []Value) {
		return build(newDoc(b))
	}, Out: crashes})
}

// garbled schedules the evaluation of the loader on a source.
func (c *Ctx) garbled(name, src string) {
	if strings.Contains(src, "\\") {
		// escapes are undone in constant texts only
		src = strings.NewReplacer("{", "", "}", "").Replace(src)
	}
	c.sourceScen(name, src, "", func(s Scen) Scen {
		return Scen{Name: name, Build: s.Build, MaxStates: s.MaxStates, Out: crashes}
	})
}

// oddTexts are further sources.
var oddTexts = [][3]string{
	{"meta", "struct {S}\n    + {k} = {v}\n  - {F}: {T}\n"},
	{"succinct", "struct {T}\n  - {F}: string\nservice {S}\n  - {M}({T}) => ({U})\n"},
	{"proxy", "service {S}\n  - proxy {M}({p}: {P})\n"},
	{"comment", "#{c} {d}\n# {e}/{f}\nstruct {S} # {g}\n\n#\n  - {F}: {T} #{h}\n"},
	{"escape", "name = \"{n}\\n\\\"\"\nstruct {S}\n  - {F}: {T}\n    + {k} = \"{v}\\t\"\n"},
	{"mixed", "service {S}\n  - {M}({p}: {P}, {Q}) => ({R})\n"},
}

// tokenSamples has a token of every kind.
const fewSamples = "\n=([-#:,\\\""
const tokenSamples = "\n=()[]<>+-#:,|\\/\".?!@*"

func init() {
	register("C09", func(c *Ctx) {
		c.Rule("no abstract path of validating, decoding, filtering, tree-shaking or loading ends in a nil dereference, an index out of range, a failing assertion, an explicit panic or an exit: for a null at every position of a document, for the documents of the other properties and for the token streams of sources cut off, thinned out or garbled at every token")
		for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12", "C14", "C15", "C16", "C17", "C18", "C21"} {
			c.Reuse(id, func(s Scen) Scen {
				if id == "C05" && strings.HasPrefix(s.Name, "undeclared-") || id == "C07" && !strings.HasPrefix(s.Name, "ParseSchemaJSON ") {
					return Scen{}
				}
				return Scen{Name: s.Name, Build: s.Build, MaxStates: s.MaxStates, Prog: s.Prog, Raw: s.Raw, Deep: !strings.HasPrefix(s.Name, "null-"), Out: crashes}
			})
		}
		c.nulls()
		samples, most := fewSamples, 3
		if c.Tier == "thorough" {
			samples, most = tokenSamples, 5
		}
		for _, t := range append(plainTexts, oddTexts...) {
			toks := split(t[1])
			for i := range toks {
				before, after := strings.Join(toks[:i], ""), strings.Join(toks[i+1:], "")
				c.garbled(fmt.Sprintf("%s-cut-%d", t[0], i), before)
				for n := 1; n <= most && i+n <= len(toks); n++ {
					c.garbled(fmt.Sprintf("%s-without-%d-%d", t[0], i, n), before+strings.Join(toks[i+n:], ""))
				}
				for k, r := range samples {
					c.garbled(fmt.Sprintf("%s-replaced-%d-%d", t[0], i, k), before+string(r)+after)
				}
				c.garbled(fmt.Sprintf("%s-replaced-%d-word", t[0], i), before+"{w}"+after)
				c.garbled(fmt.Sprintf("%s-replaced-%d-rocket", t[0], i), before+"=>"+after)
			}
		}
	})
}

// nulls schedules documents with a null at each position.
func (c *Ctx) nulls() {
	validate := func(d *doc) (*ssa.Function, []Value) {
		if !d.sparse {
			d.b.E.Summarise("(*" + Schema + ".VarType).Parse")
		}
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{d.schema()}
	}
	null := func(name string, build func(d *doc)) {
		for _, sparse := range []bool{false, true} {
			// among others, and alone with types resolved
			id := "null-" + name
			if sparse {
				id += "-alone"
			}
			c.calm(id, true, func(d *doc) (*ssa.Function, []Value) {
				d.sparse = sparse
				build(d)
				return validate(d)
			})
		}
	}
	c.calm("null-document", true, func(d *doc) (*ssa.Function, []Value) {
		return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{Nil{}}
	})
	for _, name := range []string{"MatchServices", "MethodTreeShake", "MatchMethodsWithAnnotations", "IgnoreMethodsWithAnnotations", "SchemaUsesBigInts"} {
		c.calm("null-document-"+name, true, func(d *doc) (*ssa.Function, []Value) {
			fn := c.Core.FuncOf(Schema, name)
			if fn == nil {
				panic(name + " is not there")
			}
			args := []Value{Nil{}}
			for i := 1; i < fn.Signature.Params().Len(); i++ {
				args = append(args, d.b.Any(fn.Signature.Params().At(i).Type()))
			}
			return fn, args
		})
	}
	// what decodes texts takes any text
	for _, recv := range []string{"VarType", "CoreType"} {
		c.calm("decode-"+recv, true, func(d *doc) (*ssa.Function, []Value) {
			fn := c.Core.Method(Schema, recv, "UnmarshalJSON")
			if fn == nil {
				panic(recv + " has no decoder")
			}
			t := d.b.Type(Schema, recv)
			var v Value = d.b.Any(t)
			if _, ok := t.Underlying().(*types.Struct); ok {
				v = d.b.Struct(t, nil)
			}
			return fn, []Value{d.b.New("the value", v), d.b.Bytes(d.b.StrAtom("the JSON text", isRe(`\A(?s:".*"|[^"].*)\z`)))}
		})
	}
	ann := func(d *doc) types.Type { return d.b.Type(Schema, "Annotation") }
	for _, kind := range []string{"struct", "enum", "alias"} {
		fields := func(v Value) func(d *doc) {
			return func(d *doc) {
				d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const(kind), "Fields": d.among(d.pField, v)}))
			}
		}
		null("field-"+kind, fields(Nil{}))
		null("field-type-"+kind, func(d *doc) {
			f := d.field("field F", F{"Type": Nil{}})
			fields(f)(d)
		})
		null("type-"+kind, func(d *doc) {
			d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const(kind), "Type": Nil{}}))
		})
		null("fields-"+kind, func(d *doc) {
			d.Types = d.among(d.pType, d.typ("type T", F{"Kind": d.b.Const(kind), "Fields": Nil{}}))
		})
	}
	null("type", func(d *doc) { d.Types = d.among(d.pType, Nil{}) })
	null("types", func(d *doc) { d.Types = Nil{} })
	null("error", func(d *doc) { d.Errors = d.among(d.pErr, Nil{}) })
	null("errors", func(d *doc) { d.Errors = Nil{} })
	null("service", func(d *doc) { d.Services = d.among(d.pSvc, Nil{}) })
	null("services", func(d *doc) { d.Services = Nil{} })
	null("method", func(d *doc) { d.Services = d.inService(Nil{}) })
	for _, dir := range []string{"Inputs", "Outputs"} {
		null(dir, func(d *doc) { d.Services = d.inService(d.meth("method M", F{dir: Nil{}})) })
		null(dir+"-argument", func(d *doc) {
			d.Services = d.inService(d.meth("method M", F{dir: d.among(d.pArg, Nil{})}))
		})
		null(dir+"-argument-type", func(d *doc) {
			d.Services = d.inService(d.meth("method M", F{dir: d.among(d.pArg, d.arg("argument A", F{"Type": Nil{}}))}))
		})
	}
	null("annotation", func(d *doc) {
		m := d.b.MapOf(types.NewMap(tString, types.NewPointer(ann(d))), nil, MapEnt{K: d.b.StrAtom("annotation"), V: Nil{}, Must: true})
		d.Services = d.inService(d.meth("method M", F{"Annotations": m}))
	})
	null("annotations", func(d *doc) { d.Services = d.inService(d.meth("method M", F{"Annotations": Nil{}})) })
}
