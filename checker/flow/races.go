package flow

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pos is the position of an instruction, or of one before it.
func Pos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	for _, x := range i.Operands(nil) {
		if *x != nil && (*x).Pos().IsValid() {
			return (*x).Pos()
		}
	}
	blk := i.Block()
	if blk != nil {
		for _, j := range blk.Instrs {
			if j.Pos().IsValid() {
				return j.Pos()
			}
		}
	}
	return i.Parent().Pos()
}

// Full says that the array an append would extend has no room, so that the
// append copies it.
func (a *Analysis) Full(e *Effect, l Loc) bool {
	c, ok := e.At.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if s, ok := c.Common().Args[0].(*ssa.Slice); ok && s.High != nil {
		return s.Max != nil && s.Max == s.High
	}
	_, ok = l.O.Site.(*ssa.Alloc)
	return ok && l.O.Kind == Alloc
}

// Base follows an address to the variable or object it lies in.
func Base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// Race is a pair of unordered uses.
type Race struct {
	What     string
	A, B     string
	AAt, BAt ssa.Instruction
}

type use struct {
	in    *Inst
	at    ssa.Instruction
	write bool
	where map[Loc]bool
	base  ssa.Value
	what  string
}

func (a *Analysis) uses() map[*Inst]map[ssa.Instruction][]use {
	out := map[*Inst]map[ssa.Instruction][]use{}
	add := func(u use) {
		if out[u.in] == nil {
			out[u.in] = map[ssa.Instruction][]use{}
		}
		out[u.in][u.at] = append(out[u.in][u.at], u)
	}
	for _, e := range a.Effects {
		if e.What == "send" {
			continue
		}
		u := use{in: e.In, at: e.At, write: true, where: e.Where, what: e.What}
		switch i := e.At.(type) {
		case *ssa.Store:
			u.base = Base(i.Addr)
		case *ssa.MapUpdate:
			u.base = Base(i.Map)
		case ssa.CallInstruction:
			if len(i.Common().Args) > 0 {
				u.base = Base(i.Common().Args[0])
			}
		}
		add(u)
	}
	for _, r := range a.Reads {
		u := use{in: r.In, at: r.At, where: r.Where, what: "read"}
		switch i := r.At.(type) {
		case *ssa.UnOp:
			u.base = Base(i.X)
		case *ssa.Lookup:
			u.base = Base(i.X)
		}
		add(u)
	}
	return out
}

// closure collects what runs when a function is called, without (or with)
// the goroutines it starts.
func closure(in *Inst, out map[*Inst]bool, spawned bool) {
	if out[in] {
		return
	}
	out[in] = true
	for i, l := range in.Callees {
		if _, ok := i.(*ssa.Go); ok && !spawned {
			continue
		}
		for _, t := range l {
			closure(t, out, spawned)
		}
	}
}

// sync: the instruction waits for other goroutines.
func syncs(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.UnOp:
		return i.Op == token.ARROW
	case *ssa.Select:
		return i.Blocking
	case ssa.CallInstruction:
		if _, ok := i.(*ssa.Call); !ok {
			return false
		}
		if f := i.Common().StaticCallee(); f != nil {
			n := f.String()
			return strings.HasPrefix(n, "(*sync.") && (strings.HasSuffix(n, "Wait") || strings.HasSuffix(n, "Lock") && !strings.HasSuffix(n, "Unlock")) || strings.HasSuffix(n, "errgroup.Group).Wait")
		}
	}
	return false
}

func locks(fn *ssa.Function) bool {
	for _, blk := range fn.Blocks {
		for _, i := range blk.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.String(), "(*sync.") && strings.HasSuffix(f.String(), "Lock") {
					return true
				}
			}
		}
	}
	return false
}

// after collects what may run after a place: first without any waiting in
// between (plain), and everything (all).
type after struct {
	a          *Analysis
	skip       ssa.Instruction
	plain, all map[*Inst]map[ssa.Instruction]bool
	frames     map[*Inst]map[ssa.Instruction]bool // in the calls that were under way
	memo       map[*Inst]int                      // 1 running, 2 returns without waiting, 3 does not
}

func (w *after) mark(m map[*Inst]map[ssa.Instruction]bool, in *Inst, i ssa.Instruction) {
	if m[in] == nil {
		m[in] = map[ssa.Instruction]bool{}
	}
	m[in][i] = true
}

// walk goes on behind instruction k of a block; it tells whether the
// function can return without waiting.
func (w *after) walk(in *Inst, blk *ssa.BasicBlock, k int, frame bool, seen map[*ssa.BasicBlock]bool) bool {
	for ; k < len(blk.Instrs); k++ {
		i := blk.Instrs[k]
		w.mark(w.plain, in, i)
		if frame {
			w.mark(w.frames, in, i)
		}
		if syncs(i) {
			return false
		}
		if i != w.skip {
			if l := in.Callees[i]; len(l) > 0 {
				if _, ok := i.(*ssa.Go); !ok {
					open := false
					for _, t := range l {
						open = w.enter(t) || open
					}
					if !open {
						return false
					}
				}
			}
		}
		if _, ok := i.(*ssa.Return); ok {
			return true
		}
	}
	ret := false
	for _, s := range blk.Succs {
		if !seen[s] {
			seen[s] = true
			ret = w.walk(in, s, 0, frame, seen) || ret
		}
	}
	return ret
}

func (w *after) enter(t *Inst) bool {
	switch w.memo[t] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	w.memo[t] = 1
	ok := len(t.Fn.Blocks) == 0 || w.walk(t, t.Fn.Blocks[0], 0, false, map[*ssa.BasicBlock]bool{t.Fn.Blocks[0]: true})
	w.memo[t] = 3
	if ok {
		w.memo[t] = 2
	}
	return ok
}

func index(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if j == i {
			return k
		}
	}
	return -1
}

// reaches says that b can run after a within the function, without running stop.
func reaches(a, b, stop ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(blk *ssa.BasicBlock, k int) bool
	scan = func(blk *ssa.BasicBlock, k int) bool {
		for ; k < len(blk.Instrs); k++ {
			if blk.Instrs[k] == b {
				return true
			}
			if stop != nil && blk.Instrs[k] == stop {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return scan(a.Block(), index(a)+1)
}

func overlap(x, y Loc) bool {
	return x.O == y.O && (strings.HasPrefix(x.Path, y.Path) || strings.HasPrefix(y.Path, x.Path))
}

// Races lists the unordered conflicting uses of a goroutine and of the code
// that runs after its start, and those that only a message may order.
func (a *Analysis) Races(s Spawn) (sure, open []Race) {
	uses := a.uses()
	mine := map[*Inst]bool{}
	closure(s.Target, mine, true)
	w := &after{a: a, skip: s.At, plain: map[*Inst]map[ssa.Instruction]bool{}, all: map[*Inst]map[ssa.Instruction]bool{}, frames: map[*Inst]map[ssa.Instruction]bool{}, memo: map[*Inst]int{}}
	// without waiting
	type at struct {
		in *Inst
		i  ssa.Instruction
	}
	seen := map[at]bool{}
	var up func(in *Inst, i ssa.Instruction)
	up = func(in *Inst, i ssa.Instruction) {
		if seen[at{in, i}] {
			return
		}
		seen[at{in, i}] = true
		if w.walk(in, i.Block(), index(i)+1, true, map[*ssa.BasicBlock]bool{}) {
			for c := range in.Callers {
				for site, l := range c.Callees {
					for _, t := range l {
						if t == in {
							up(c, site)
						}
					}
				}
			}
		}
	}
	up(s.In, s.At)
	// at all
	done := map[at]bool{}
	var rest func(in *Inst, i ssa.Instruction)
	whole := map[*Inst]bool{}
	rest = func(in *Inst, i ssa.Instruction) {
		if done[at{in, i}] {
			return
		}
		done[at{in, i}] = true
		for _, blk := range in.Fn.Blocks {
			for _, j := range blk.Instrs {
				if j != i && reaches(i, j, nil) || j == i && reaches(i, j, nil) {
					w.mark(w.all, in, j)
					w.mark(w.frames, in, j)
					if _, ok := j.(*ssa.Go); !ok {
						for _, t := range in.Callees[j] {
							closure(t, whole, false)
						}
					}
				}
			}
		}
		for c := range in.Callers {
			for site, l := range c.Callees {
				for _, t := range l {
					if t == in {
						rest(c, site)
					}
				}
			}
		}
	}
	rest(s.In, s.At)
	for in := range whole {
		for i := range uses[in] {
			w.mark(w.all, in, i)
		}
	}
	again := reaches(s.At, s.At, nil) // several of them run
	var others []use
	var plain []bool
	collect := func(m map[*Inst]map[ssa.Instruction]bool, isPlain bool) {
		for in, l := range m {
			for i := range l {
				if !isPlain && (w.plain[in][i] || mine[in]) {
					continue
				}
				for _, u := range uses[in][i] {
					if v, ok := u.base.(ssa.Instruction); ok && fresh(u.base) {
						// made after the start of the goroutine: not what it was given
						if in != s.In || !reaches(s.At, i, v) {
							continue
						}
					}
					others = append(others, u)
					plain = append(plain, isPlain)
				}
			}
		}
	}
	collect(w.plain, true)
	collect(w.all, false)
	found := map[string]bool{}
	conflict := func(u, o use, sureness bool) {
		for l := range u.where {
			if l.O.In != nil && mine[l.O.In] || l.O.Kind == Func || strings.Contains(l.Path, "{c}") || strings.HasPrefix(typeName(l), "sync.") || strings.HasPrefix(typeName(l), "sync/atomic.") {
				continue
			}
			for m := range o.where {
				if !overlap(l, m) {
					continue
				}
				if !sureness && l.O.In != nil && whole[l.O.In] && !w.frames[o.in][o.at] {
					continue // made anew by what runs later
				}
				r := Race{l.O.String(), u.what, o.what, u.at, o.at}
				key := r.What + r.A + r.B + string(rune(Pos(u.at))) + string(rune(Pos(o.at)))
				if found[key] {
					return
				}
				found[key] = true
				if sureness && !locks(u.in.Fn) && !locks(o.in.Fn) && u.in.Phase != Once && o.in.Phase != Once {
					sure = append(sure, r)
				} else {
					open = append(open, r)
				}
				return
			}
		}
	}
	for in := range mine {
		for _, l := range uses[in] {
			for _, u := range l {
				for k, o := range others {
					if u.write || o.write {
						conflict(u, o, plain[k] && !mine[o.in])
					}
				}
				if again && u.write && !fresh(u.base) {
					// two such goroutines
					for in2 := range mine {
						for _, l2 := range uses[in2] {
							for _, o := range l2 {
								if u.at == o.at && in == in2 && !own(u, s) {
									conflict(u, o, true)
								}
							}
						}
					}
				}
			}
		}
	}
	for _, r := range a.sentThenWritten(mine) {
		sure = append(sure, r)
	}
	for _, l := range [][]Race{sure, open} {
		sort.Slice(l, func(i, j int) bool {
			if Pos(l[i].AAt) != Pos(l[j].AAt) {
				return Pos(l[i].AAt) < Pos(l[j].AAt)
			}
			return Pos(l[i].BAt) < Pos(l[j].BAt)
		})
	}
	return
}

// own: every goroutine started there may well write to memory of its own: an
// element of a slice or map, or what an argument refers to.
func own(u use, s Spawn) bool {
	switch i := u.at.(type) {
	case *ssa.Store:
		v := i.Addr
		for {
			switch x := v.(type) {
			case *ssa.IndexAddr:
				return true
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.FreeVar: // shared, unless made for every round
				return perRound(x, s)
			}
			return true
		}
	case *ssa.MapUpdate:
		if un, ok := i.Map.(*ssa.UnOp); ok {
			if fv, ok := un.X.(*ssa.FreeVar); ok {
				return perRound(fv, s)
			}
		}
		if fv, ok := i.Map.(*ssa.FreeVar); ok {
			return perRound(fv, s)
		}
	}
	return true
}

// perRound says that a captured variable may be another one for each goroutine.
func perRound(fv *ssa.FreeVar, s Spawn) bool {
	if s.Target.Fn != fv.Parent() {
		return true
	}
	c, ok := s.At.(ssa.CallInstruction)
	if !ok {
		return true
	}
	vals := append([]ssa.Value{c.Common().Value}, c.Common().Args...)
	for _, v := range vals {
		mc, ok := v.(*ssa.MakeClosure)
		if !ok || mc.Fn != fv.Parent() {
			continue
		}
		for k, x := range fv.Parent().FreeVars {
			if x == fv {
				def, ok := mc.Bindings[k].(ssa.Instruction)
				return !ok || !reaches(s.At, s.At, def)
			}
		}
	}
	return true
}

func fresh(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	}
	return false
}

func typeName(l Loc) string {
	if t := typeAt(l); t != nil {
		return t.String()
	}
	return ""
}

// sentThenWritten finds values a goroutine sends and goes on to write to.
func (a *Analysis) sentThenWritten(mine map[*Inst]bool) []Race {
	// parameters that are sent
	sent := map[*ssa.Function]map[int]bool{}
	fns := map[*ssa.Function]bool{}
	for in := range mine {
		if a.IsSrc(in.Fn) {
			fns[in.Fn] = true
		}
	}
	type event struct {
		at ssa.Instruction
		v  ssa.Value
	}
	events := func(fn *ssa.Function) []event {
		var out []event
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				switch i := i.(type) {
				case *ssa.Send:
					out = append(out, event{i, Base(i.X)})
				case *ssa.Call:
					if f := i.Common().StaticCallee(); f != nil {
						for k := range sent[f] {
							if k < len(i.Common().Args) {
								out = append(out, event{i, Base(i.Common().Args[k])})
							}
						}
					}
				}
			}
		}
		return out
	}
	for changed := true; changed; {
		changed = false
		for fn := range fns {
			for _, e := range events(fn) {
				for k, p := range fn.Params {
					if e.v == p && !sent[fn][k] {
						if sent[fn] == nil {
							sent[fn] = map[int]bool{}
						}
						sent[fn][k] = true
						changed = true
					}
				}
			}
		}
	}
	var out []Race
	for fn := range fns {
		for _, e := range events(fn) {
			def, _ := e.v.(ssa.Instruction)
			if !fresh(e.v) {
				if _, ok := e.v.(*ssa.Call); !ok {
					continue
				}
			}
			for _, blk := range fn.Blocks {
				for _, i := range blk.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok || Base(st.Addr) != e.v || !reaches(e.at, i, def) {
						continue
					}
					if _, isPtr := e.v.(*ssa.Alloc); isPtr || true {
						out = append(out, Race{"a value that was sent", "store", "send", i, e.at})
					}
				}
			}
		}
	}
	return out
}

// Reach collects what a function in a context calls.
func Reach(in *Inst, out map[*Inst]bool) { closure(in, out, true) }

// Repeats says that an instruction may run again in the same call.
func Repeats(i ssa.Instruction) bool { return reaches(i, i, nil) }
