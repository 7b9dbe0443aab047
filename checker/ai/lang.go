// Package ai is an abstract interpreter for Go programs in SSA form.
package ai

import (
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

// ---------------------------------------------------------------------------
// Languages. A Pred is a predicate on strings given by a regular expression
// (search semantics, as regexp.MatchString). A Lit is a possibly negated Pred
// applied to a character-wise image of the string. The abstract value of a
// symbolic string is a conjunction of Lits; emptiness is decided by a product
// subset construction over representatives of the character classes.
// ---------------------------------------------------------------------------

type Pred struct {
	Src  string
	prog *syntax.Prog
}

var (
	predMu    sync.Mutex
	predCache = map[string]*Pred{}
)

// Re returns the predicate "the string matches re somewhere".
func Re(re string) (*Pred, error) {
	predMu.Lock()
	defer predMu.Unlock()
	if p, ok := predCache[re]; ok {
		return p, nil
	}
	rx, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		return nil, err
	}
	p := &Pred{Src: re, prog: prog}
	predCache[re] = p
	return p, nil
}

func MustRe(re string) *Pred {
	p, err := Re(re)
	if err != nil {
		panic(err)
	}
	return p
}

func quoteRe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func classRe(chars string) string {
	var b strings.Builder
	b.WriteString("[")
	for _, r := range chars {
		if strings.ContainsRune(`\]^-[`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	b.WriteString("]")
	return b.String()
}

func PExact(s string) *Pred    { return MustRe(`\A(?:` + quoteRe(s) + `)\z`) }
func PPrefix(s string) *Pred   { return MustRe(`\A(?:` + quoteRe(s) + `)`) }
func PSuffix(s string) *Pred   { return MustRe(`(?:` + quoteRe(s) + `)\z`) }
func PContains(s string) *Pred { return MustRe(quoteRe(s)) }
func PAny(chars string) *Pred  { return MustRe(classRe(chars)) }
func PFull(re string) *Pred    { return MustRe(`\A(?s:` + re + `)\z`) }
func PLenRange(lo, hi int) *Pred {
	if hi < 0 {
		return MustRe(`\A(?s:.{` + itoa(lo) + `,})`)
	}
	return MustRe(`\A(?s:.{` + itoa(lo) + `,` + itoa(hi) + `})\z`)
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

type Lit struct {
	Neg  bool
	Maps string // chain of character maps, applied left to right: l=lower u=upper
	P    *Pred
	Pre  string // the predicate applies to Pre + maps(string) + Suf
	Suf  string
}

func (l Lit) key() string {
	s := l.Maps + ":" + l.P.Src
	if l.Pre != "" || l.Suf != "" {
		s += "\x04" + l.Pre + "\x04" + l.Suf
	}
	if l.Neg {
		return "!" + s
	}
	return "=" + s
}

func mapRune(maps string, r rune) rune {
	for i := 0; i < len(maps); i++ {
		switch maps[i] {
		case 'l':
			r = unicode.ToLower(r)
		case 'u':
			r = unicode.ToUpper(r)
		case 't':
			r = unicode.ToTitle(r)
		}
	}
	return r
}

var alphabet = func() []rune {
	var out []rune
	for r := rune(0); r < 128; r++ {
		out = append(out, r)
	}
	return append(out, 'É', 'é', 'ß', 'ı', 'K', 'ſ', '中', '\u2028', '\u00a0', '\u200b', '\u0660', '\ufffd')
}()

// nfa set of a predicate
type nset struct {
	pcs  []uint32
	done bool // match already seen (search semantics)
}

func (p *Pred) closure(in []uint32, begin, end bool) (out []uint32, match bool) {
	seen := make(map[uint32]bool)
	var rec func(pc uint32)
	rec = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := &p.prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			rec(i.Out)
			rec(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			rec(i.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(i.Arg)
			ok := true
			if op&syntax.EmptyBeginText != 0 && !begin {
				ok = false
			}
			if op&syntax.EmptyEndText != 0 && !end {
				ok = false
			}
			if op&(syntax.EmptyBeginLine|syntax.EmptyEndLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				panic("unsupported assertion in regular expression " + p.Src)
			}
			if ok {
				rec(i.Out)
			} else if op&syntax.EmptyEndText != 0 && (op&syntax.EmptyBeginText == 0 || begin) {
				out = append(out, pc) // pending until the end of the text
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range in {
		rec(pc)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return
}

func (p *Pred) start() nset {
	pcs, m := p.closure([]uint32{uint32(p.prog.Start)}, true, false)
	if m {
		return nset{done: true}
	}
	return nset{pcs: pcs}
}

func (p *Pred) step(s nset, r rune) nset {
	if s.done {
		return s
	}
	var next []uint32
	for _, pc := range s.pcs {
		i := &p.prog.Inst[pc]
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if i.MatchRune(r) {
				next = append(next, i.Out)
			}
		}
	}
	next = append(next, uint32(p.prog.Start))
	pcs, m := p.closure(next, false, false)
	if m {
		return nset{done: true}
	}
	return nset{pcs: pcs}
}

func (p *Pred) accepts(s nset, atBegin bool) bool {
	if s.done {
		return true
	}
	_, m := p.closure(s.pcs, atBegin, true)
	return m
}

func (s nset) key() string {
	if s.done {
		return "D"
	}
	b := make([]byte, 0, len(s.pcs)*2)
	for _, pc := range s.pcs {
		b = append(b, byte(pc), byte(pc>>8))
	}
	return string(b)
}

// MatchConst evaluates the predicate on a constant.
func (p *Pred) MatchConst(s string) bool {
	st := p.start()
	n := 0
	for _, r := range s {
		st = p.step(st, r)
		n++
	}
	return p.accepts(st, n == 0)
}

func (l Lit) holdsConst(s string) bool {
	if l.Maps != "" {
		s = strings.Map(func(r rune) rune { return mapRune(l.Maps, r) }, s)
	}
	return l.P.MatchConst(l.Pre+s+l.Suf) != l.Neg
}

func (l Lit) start() nset {
	st := l.P.start()
	for _, r := range l.Pre {
		st = l.P.step(st, r)
	}
	return st
}

func (l Lit) accepts(s nset, begin bool) bool {
	if l.Pre != "" {
		begin = false
	}
	for _, r := range l.Suf {
		s = l.P.step(s, r)
		begin = false
	}
	return l.P.accepts(s, begin) != l.Neg
}

// classesFor groups the alphabet by behaviour with respect to the literals.
func classesFor(lits []Lit) []rune {
	type sig = string
	seen := map[sig]bool{}
	var out []rune
	for _, r := range alphabet {
		var b strings.Builder
		for _, l := range lits {
			m := mapRune(l.Maps, r)
			for i := range l.P.prog.Inst {
				in := &l.P.prog.Inst[i]
				switch in.Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if in.MatchRune(m) {
						b.WriteByte('1')
					} else {
						b.WriteByte('0')
					}
				}
			}
		}
		k := b.String()
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

// automaton over a concatenation of parts: each part is a constant or a
// conjunction of literals (an atom).
type LPart struct {
	Const string
	Lits  []Lit
	Atom  bool
	Maps  string // the atom appears through this character map
}

var (
	satMu    sync.Mutex
	satCache = map[string]bool{}
)

func partsKey(parts []LPart, extra []Lit) string {
	var b strings.Builder
	for _, p := range parts {
		if !p.Atom {
			b.WriteString("c" + p.Const + "\x01")
			continue
		}
		var ks []string
		for _, l := range p.Lits {
			ks = append(ks, l.key())
		}
		sort.Strings(ks)
		b.WriteString("a" + p.Maps + "\x05" + strings.Join(ks, "\x02") + "\x01")
	}
	b.WriteString("\x03")
	var ks []string
	for _, l := range extra {
		ks = append(ks, l.key())
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, "\x02"))
	return b.String()
}

// Sat decides whether some string in the concatenation of parts satisfies all
// of the extra literals.
func Sat(parts []LPart, extra []Lit) bool {
	k := partsKey(parts, extra)
	satMu.Lock()
	v, ok := satCache[k]
	satMu.Unlock()
	if ok {
		return v
	}
	v = sat(parts, extra)
	satMu.Lock()
	satCache[k] = v
	satMu.Unlock()
	return v
}

func sat(parts []LPart, extra []Lit) bool {
	var all []Lit
	all = append(all, extra...)
	for _, p := range parts {
		all = append(all, p.Lits...)
		if p.Maps != "" {
			for _, l := range extra {
				l.Maps = p.Maps + l.Maps
				all = append(all, l)
			}
		}
	}
	classes := classesFor(all)
	type conf struct {
		part  int
		off   int // offset in a const part
		sub   []nset
		first bool // sub at begin of its atom
		ex    []nset
		begin bool
	}
	keyOf := func(c *conf) string {
		var b strings.Builder
		b.WriteString(itoa(c.part) + "," + itoa(c.off) + ",")
		for _, s := range c.sub {
			b.WriteString(s.key() + "\x00|")
		}
		b.WriteString("#")
		for _, s := range c.ex {
			b.WriteString(s.key() + "\x00|")
		}
		if c.begin {
			b.WriteString("B")
		}
		if c.first {
			b.WriteString("F")
		}
		return b.String()
	}
	starts := func(ls []Lit) []nset {
		out := make([]nset, len(ls))
		for i, l := range ls {
			out[i] = l.start()
		}
		return out
	}
	acc := func(ls []Lit, ss []nset, begin bool) bool {
		for i, l := range ls {
			if !l.accepts(ss[i], begin) {
				return false
			}
		}
		return true
	}
	stepAll := func(ls []Lit, ss []nset, r rune) []nset {
		out := make([]nset, len(ls))
		for i, l := range ls {
			out[i] = l.P.step(ss[i], mapRune(l.Maps, r))
		}
		return out
	}
	init := &conf{ex: starts(extra), begin: true}
	if len(parts) > 0 && parts[0].Atom {
		init.sub = starts(parts[0].Lits)
		init.first = true
	}
	seen := map[string]bool{}
	work := []*conf{init}
	n := 0
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		k := keyOf(c)
		if seen[k] {
			continue
		}
		seen[k] = true
		n++
		if n > 200000 {
			return true // give up: over-approximate
		}
		if c.part >= len(parts) {
			if acc(extra, c.ex, c.begin) {
				return true
			}
			continue
		}
		p := parts[c.part]
		advance := func() {
			nc := &conf{part: c.part + 1, ex: c.ex, begin: c.begin}
			if nc.part < len(parts) && parts[nc.part].Atom {
				nc.sub = starts(parts[nc.part].Lits)
				nc.first = true
			}
			work = append(work, nc)
		}
		if !p.Atom {
			if c.off >= len(p.Const) {
				advance()
				continue
			}
			r, sz := utf8.DecodeRuneInString(p.Const[c.off:])
			work = append(work, &conf{part: c.part, off: c.off + sz, ex: stepAll(extra, c.ex, r)})
			continue
		}
		if acc(p.Lits, c.sub, c.first) {
			advance()
		}
		for _, r := range classes {
			work = append(work, &conf{part: c.part, sub: stepAll(p.Lits, c.sub, r), ex: stepAll(extra, c.ex, mapRune(p.Maps, r))})
		}
	}
	return false
}
