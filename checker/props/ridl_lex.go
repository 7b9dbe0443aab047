package props

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "webrpcverif/ai"
)

// The characters that are tokens of their own, with the kind of the token.
var charKinds = map[rune]string{
	' ': "tokenWhitespace", '\t': "tokenWhitespace", '\r': "tokenWhitespace", '\n': "tokenNewLine",
	'=': "tokenEqual", '(': "tokenOpenParen", ')': "tokenCloseParen", '[': "tokenOpenBracket", ']': "tokenCloseBracket",
	'<': "tokenOpenAngleBracket", '>': "tokenCloseAngleBracket", '+': "tokenPlusSign", '-': "tokenMinusSign", '#': "tokenHash",
	':': "tokenColon", '"': "tokenQuote", '\\': "tokenBackslash", '/': "tokenSlash", ',': "tokenComma", '|': "tokenBar",
	'.': "tokenDot", '!': "tokenExtra", '?': "tokenQuestionMark", '@': "tokenAt",
}

const (
	ownChars   = " \t\r\n=()[]<>+-#:\"\\/,|.?@"
	wordChars  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
	breakChars = " \t\r\n=()[]<>:,?\""
)

// lexer checks that the tokens of a source are its characters, each once, in
// order and of the kind the characters say, with their lines. The source is
// some fixed characters with arbitrary ones behind them.
func (c *Ctx) lexer(fixed string, arbitrary int, letters string) {
	var chars []SPart
	c.Scenario(Scen{Name: fmt.Sprintf("characters-%q-%d", fixed, arbitrary), MaxStates: 100000, Build: func(b *B) (*ssa.Function, []Value) {
		b.E.LoopCap, b.E.WidenAt, b.E.AppendCap, b.E.AnonCap, b.E.DepthLimit, b.E.Forget, b.E.KeepErrState = 1<<20, 1<<20, 1<<20, 1<<20, 1<<20, false, true
		var in Str
		chars = nil
		for _, r := range fixed {
			chars = append(chars, SPart{C: string(r)})
		}
		for i := 0; i < arbitrary; i++ {
			lits := []Lit{{P: PLenRange(1, 1)}}
			if letters != "" {
				lits = append(lits, Lit{P: MustRe(`\A[^` + strings.Map(func(r rune) rune {
					if strings.ContainsRune(letters, r) {
						return -1
					}
					return r
				}, wordChars) + `]\z`)})
			}
			chars = append(chars, b.StrAtom(fmt.Sprintf("c%d", i), lits...).P...)
		}
		in.P = chars
		return c.Core.FuncOf(RIDL, "tokenize"), []Value{b.Bytes(in)}
	}, Check: func(b *B, r *Result) string {
		may := func(i int, set string) bool {
			for _, x := range set {
				if b.CharMay(r.St, chars[i], x) {
					return true
				}
			}
			return false
		}
		is := func(i int, set string) bool {
			n := 0
			for x := range charKinds {
				if b.CharMay(r.St, chars[i], x) {
					if !strings.ContainsRune(set, x) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		res, ok := r.St.Resolve(r.Ret).(Tuple)
		if !ok {
			return ""
		}
		segs, ok := b.Elems(r.St, res[0])
		if !ok {
			r.St.SetMon("unmodelled", "the tokens of a source")
			return ""
		}
		pos, line := 0, int64(1)
		for _, sg := range segs {
			tok := b.Value(r.St, sg.V)
			val, ok1 := r.St.Resolve(b.Follow(r.St, tok, "val")).(Str)
			tt, ok2 := r.St.Resolve(b.Follow(r.St, tok, "tt")).(Int)
			at, ok3 := r.St.Resolve(b.Follow(r.St, tok, "line")).(Int)
			if sg.Star || !ok1 || !ok2 || !ok3 || len(tt.T)+len(at.T) > 0 {
				r.St.SetMon("unmodelled", "a token of a source")
				return ""
			}
			start := pos
			for _, p := range val.P {
				if p.Atom != 0 {
					if pos >= len(chars) || chars[pos].Atom != p.Atom || p.Maps != "" {
						return fmt.Sprintf("token %d is not the text at its place", start)
					}
					pos++
					continue
				}
				for _, x := range p.C {
					if pos >= len(chars) || !b.CharMay(r.St, chars[pos], x) {
						return fmt.Sprintf("token %d is not the text at its place", start)
					}
					pos++
				}
			}
			n := pos - start
			if n == 0 {
				return fmt.Sprintf("empty token at %d", start)
			}
			want := ""
			switch {
			case may(start, wordChars):
				want = "tokenWord"
				for i := start + 1; i < pos; i++ {
					if may(i, breakChars) {
						return fmt.Sprintf("character %d does not end the word", i)
					}
				}
			case may(start, ownChars):
				for x, k := range charKinds {
					if b.CharMay(r.St, chars[start], x) {
						want = k
					}
				}
				switch {
				case n == 2 && is(start, "=") && is(start+1, ">"):
					want = "tokenRocket"
				case want == "tokenWhitespace":
					for i := start; i < pos; i++ {
						if !is(i, " \t\r") {
							return fmt.Sprintf("character %d is taken for a blank", i)
						}
					}
				case n > 1:
					return fmt.Sprintf("%d characters in one token at %d", n, start)
				}
			default:
				want = "tokenExtra"
				if n > 1 {
					return fmt.Sprintf("%d characters in one token at %d", n, start)
				}
			}
			if k := b.IntConst(RIDL, want); k.C != tt.C && !(want == "tokenExtra" && b.IntConst(RIDL, "tokenBang").C == tt.C && is(start, "!")) {
				return fmt.Sprintf("the token at %d is not of kind %s", start, want)
			}
			if at.C != line {
				return fmt.Sprintf("the token at %d is in line %d instead of %d", start, at.C, line)
			}
			if want == "tokenNewLine" {
				line++
			}
		}
		if pos < len(chars) {
			return fmt.Sprintf("character %d is in no token", pos)
		}
		return ""
	}})
}

func init() {
	register("C11", func(c *Ctx) {
		c.lexer("", 0, "")
		c.lexer("", 1, "")
		for _, r := range ownChars + "a_\u00e9{\x00!" {
			c.lexer(string(r), 1, "aZ0_")
			if c.Thorough {
				for _, q := range ownChars + "a_\u00e9" {
					c.lexer(string(r)+string(q), 1, "a_")
				}
			}
		}
	})
}
