package props

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

func init() {
	register("C10", func(c *Ctx) {
		c.Rule("the loader is evaluated on the token streams of sources cut off, thinned out and garbled at every token: no path may come back to a state it was in, wait for a message nobody sends, send after the end, or leave a message that nobody takes")
		samples, most := fewSamples, 3
		if c.Tier == "thorough" {
			samples, most = tokenSamples, 5
		}
		for _, t := range append(plainTexts, oddTexts...) {
			toks := split(t[1])
			c.lexes(t[0], t[1])
			for i := range toks {
				c.lexes(fmt.Sprintf("%s-cut-%d", t[0], i), strings.Join(toks[:i], ""))
				before, after := strings.Join(toks[:i], ""), strings.Join(toks[i+1:], "")
				c.ends(fmt.Sprintf("%s-cut-%d", t[0], i), before)
				for n := 1; n <= most && i+n <= len(toks); n++ {
					c.ends(fmt.Sprintf("%s-without-%d-%d", t[0], i, n), before+strings.Join(toks[i+n:], ""))
				}
				for k, r := range samples {
					c.ends(fmt.Sprintf("%s-replaced-%d-%d", t[0], i, k), before+string(r)+after)
				}
				c.ends(fmt.Sprintf("%s-replaced-%d-word", t[0], i), before+"{w}"+after)
				c.ends(fmt.Sprintf("%s-replaced-%d-rocket", t[0], i), before+"=>"+after)
			}
		}
	})
}

// ends schedules the evaluation of the loader on a source, which must have
// exactly one outcome.
func (c *Ctx) ends(name, src string) {
	src = strings.NewReplacer("{", "", "}", "").Replace(src)
	c.sourceScen(name, src, "", oneOutcome)
}

// lexes schedules the evaluation of the lexer on a source.
func (c *Ctx) lexes(name, src string) {
	src = strings.NewReplacer("{", "", "}", "").Replace(src)
	c.Scenario(oneOutcome(Scen{Name: "characters-" + name, MaxStates: 20000, Build: func(b *B) (*ssa.Function, []Value) {
		b.E.LoopCap, b.E.WidenAt, b.E.AppendCap, b.E.AnonCap, b.E.DepthLimit, b.E.Forget, b.E.KeepErrState = 1<<20, 1<<20, 1<<20, 1<<20, 1<<20, false, true
		return c.Core.FuncOf(RIDL, "tokenize"), []Value{b.Bytes(b.Const(src))}
	}}))
}

// oneOutcome makes an obligation of a scenario: it ends, once.
func oneOutcome(s Scen) Scen {
	var lost *Obj
	{
		build := s.Build
		s.Build = func(b *B) (fn *ssa.Function, args []Value) {
			lost = nil
			fn, args = build(b)
			b.E.Endless = true
			b.E.Hooks.OnLost = func(e *Engine, o *Obj) {
				if o.Kind == OChan && len(o.Segs) > 0 {
					lost = o
				}
			}
			return fn, args
		}
		s.Out = func(b *B, o *Outcome) string {
			fn := o.Fn.String()
			switch {
			case o.Kind == "loop":
				return fn + " never ends: it " + o.Msg
			case o.Kind == "deadlock":
				return fn + " can wait forever: " + o.Msg
			case o.Kind == "panic" && strings.Contains(o.Msg, "channel"):
				return fn + " can go on after the end: " + o.Msg
			}
			return ""
		}
		s.Found = func(b *B) string {
			if lost != nil {
				return "there can be more than one outcome: a message of type " + lost.T.String() + " is not taken, its sender waits forever"
			}
			return ""
		}
	}
	return s
}
