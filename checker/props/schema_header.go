package props

import (
	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

func init() {
	register("C06", func(c *Ctx) {
		c.Rule("An abstract schema covering every document that breaks a header rule is propagated through WebRPCSchema.Validate; no abstract path may return a nil error. For the normal form, the base path that is left in the schema on every nil-error path is required to be empty or to begin and end with a slash.")
		c.reject("webrpc-version", "a webrpc version other than v1", false, func(d *doc) {
			d.header["WebrpcVersion"] = d.b.StrAtom("webrpc version", notRe(`\Av1\z`))
		})
		c.reject("schema-version", "services but no schema version", false, func(d *doc) {
			d.header["SchemaVersion"] = d.b.Const("")
			d.Services = d.among(d.pSvc, d.svc("service S", F{}))
		})
		for _, x := range []struct{ name, re, what string }{
			{"blank", ` `, "a blank"}, {"tab", `\t`, "a tab"}, {"cr", `\r`, "a carriage return"}, {"lf", `\n`, "a line feed"},
			{"query", `\?`, "a query"}, {"fragment", `#`, "a fragment"}, {"scheme", `://`, "a scheme"},
		} {
			c.reject("basepath-"+x.name, "a base path containing "+x.what, false, func(d *doc) {
				d.header["BasePath"] = d.b.StrAtom("base path", isRe(x.re))
			})
		}
		c.Scenario(Scen{Name: "basepath-after-validation", NeedNil: true, Build: func(b *B) (*ssa.Function, []Value) {
			d := newDoc(b)
			d.header["BasePath"] = b.StrAtom("base path")
			b.E.Summarise("(*" + Schema + ".VarType).Parse")
			s := d.schema()
			b.Vars = map[string]Value{"S": s}
			return c.Core.Method(Schema, "WebRPCSchema", "Validate"), []Value{s}
		}, Check: func(b *B, r *Result) string {
			if k, isnil := r.ErrNil(); k && !isnil {
				return ""
			}
			p := FieldOf(b.Cell(r.St, b.Vars["S"].(Ptr)), "BasePath")
			if b.May(r.St, p, notRe(`(?s)\A(|/|/.*/)\z`)) {
				return "Validate can succeed although the base path it leaves is not empty and does not begin and end with a slash"
			}
			return ""
		}})
		c.accept("control", func(d *doc) {})
	})
}
