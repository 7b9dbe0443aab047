package props

import (
	"fmt"
	"strings"
)

// plainTexts contain every construct of the language once.
var plainTexts = [][3]string{
	{"header", "webrpc = {w}\nname = \"{n}\"\nbasepath = /{b}/{d}\n", "webrpc = {w} name = {n} basepath = /{b}/{d}"},
	{"struct", "struct {S}\n  - {F}: {T}\n    + {k}.{k2} = {v}\n  - {G}?: []{U}\n", "struct {S} field {F} : {T} + {k}.{k2}={v} field {G} : []{U} optional"},
	{"map", "struct {S}\n  - {F}: map<{K},{V}>\n", "struct {S} field {F} : map<{K},{V}>"},
	{"enum", "enum {E}: {B}\n  - {M}\n  - {M2} = {v}\n  - {M3} = \"{q}\"\n", "enum {E} : {B} field {M} = 0 field {M2} = {v} field {M3} = {q}"},
	{"alias", "type {A}: {T}\n  + {k} = \"{v}\"\n", "alias {A} : {T} + {k}={v}"},
	{"error", "error 1 {A} \"{m}\" HTTP 404\nerror 2 {B} {m2}\n", "error 1 {A} \"{m}\" 404 error 2 {B} \"{m2}\" 400"},
	{"method", "service {S}\n  - {M}({p}: {P}, {q}?: {Q}) => ({r}: {R}) errors {E1} | {E2}\n", "service {S} method {M} ( {p} : {P} , {q} : {Q} optional ) => ( {r} : {R} ) errors {E1} | {E2}"},
	{"stream", "service {S}\n  - stream {M}({p}: {P}) => stream ({r}: {R})\n  - {N}()\n", "service {S} method {M} streams ( {p} : {P} ) => streams ( {r} : {R} ) method {N} ( ) => ( )"},
	{"annotation", "service {S}\n  @{a1} @{a2}:{v2}\n  @{a3}:\"{v3}\"\n  - {M}()\n", "service {S} method {M} ( ) => ( ) @ {a1}= {a2}={v2} {a3}={v3}"},
}

// split cuts a source into tokens.
func split(src string) []string {
	var out []string
	isWord := func(r rune) bool {
		return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	}
	rs := []rune(src)
	for i := 0; i < len(rs); {
		j := i + 1
		switch {
		case rs[i] == '{':
			for rs[j-1] != '}' {
				j++
			}
		case rs[i] == ' ':
			for j < len(rs) && rs[j] == ' ' {
				j++
			}
		case rs[i] == '=' && j < len(rs) && rs[j] == '>':
			j++
		case isWord(rs[i]):
			for j < len(rs) && isWord(rs[j]) {
				j++
			}
		}
		out = append(out, string(rs[i:j]))
		i = j
	}
	return out
}

func init() {
	register("C11", func(c *Ctx) {
		c.Rule("a source with a word more, or with another word in place of a keyword, is rejected or the word shows in the schema")
		for _, t := range plainTexts {
			toks := split(t[1])
			quoted := false
			for i, tok := range toks {
				at := func(s string) string { return strings.Join(toks[:i], "") + s }
				rest := strings.Join(toks[i:], "")
				after := strings.Join(toks[i+1:], "")
				c.junk(fmt.Sprintf("%s-word-%d", t[0], i), at(" {junk} ")+rest)
				if !quoted {
					c.junk(fmt.Sprintf("%s-string-%d", t[0], i), at(` "{junk}" `)+rest)
				}
				if ch := tok[0] | ' '; ch >= 'a' && ch <= 'z' {
					c.junk(fmt.Sprintf("%s-instead-%d", t[0], i), at("{junk}")+after)
				}
				if !quoted {
					// words end at these characters only
					if prev := strings.TrimSpace(strings.Join(toks[max(0, i-1):i], "")); (prev == "" || !strings.HasSuffix(prev, "}") && !word(prev[0])) && strings.ContainsAny(tok[:1], " \n[]()<>=:?!,\"") {
						c.junk(fmt.Sprintf("%s-attached-%d", t[0], i), at("{junk}")+rest)
					}
					for _, ch := range `=()[]<>+-:/.?!@*;` {
						c.lost(fmt.Sprintf("%s-character-%d-%c", t[0], i, ch), at(string(ch))+rest, t[2])
					}
				}
				if tok == "\"" {
					quoted = !quoted
				}
			}
			c.junk(t[0]+"-end", t[1]+"{junk}")
		}
	})
}

// junk evaluates the loader on a source with an additional word.
func (c *Ctx) junk(name, src string) {
	c.source(name, src, "", false, func(got string) string {
		if !strings.Contains(got, "{junk}") {
			return fmt.Sprintf("%q can be accepted as if it were without {junk}", src)
		}
		return ""
	})
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// lost evaluates the loader on a source with an additional character.
func (c *Ctx) lost(name, src, without string) {
	c.source(name, src, "", false, func(got string) string {
		if strings.Join(strings.Fields(got), " ") == without {
			return fmt.Sprintf("%q can be accepted as if it had a character less", src)
		}
		return ""
	})
}
