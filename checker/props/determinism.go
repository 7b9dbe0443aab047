package props

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"webrpcverif/ai"
	"webrpcverif/flow"
)

// chancy is a place whose outcome may differ between runs.
type chancy struct {
	at   ssa.Instruction
	msg  string
	sure bool
}

// region is code that runs once per element, in any order: the body of a loop
// or a function that is called for each element.
type region struct {
	d      *determinism
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock // of a loop
	once   bool            // it ends after the first element
	elems  map[ssa.Value]bool
	key    map[ssa.Value]bool // values that differ between any two elements
	dep    map[ssa.Value]bool // values that depend on the element or on earlier ones
	what   string
	out    []chancy
}

type determinism struct {
	p        *ai.Program
	a        *flow.Analysis
	fns      map[*ssa.Function]bool
	pure     map[*ssa.Function]int
	impure   map[*ssa.Function]map[string]bool
	seen     map[string]bool
	findings map[*ssa.Function][]chancy
	sites    int
}

func (d *determinism) report(fn *ssa.Function, f chancy) {
	k := fmt.Sprint(fn, f.at, f.msg)
	if !d.seen[k] {
		d.seen[k] = true
		d.findings[fn] = append(d.findings[fn], f)
	}
}

func calleeName(i ssa.Instruction) (string, *ssa.Function) {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name(), nil
	}
	fn := c.Common().StaticCallee()
	if fn == nil {
		if c.Common().IsInvoke() {
			return "invoke " + c.Common().Method.Name(), nil
		}
		return "", nil
	}
	if fn.Origin() != nil {
		return fn.Origin().String(), fn
	}
	return fn.String(), fn
}

// loopOf is the innermost loop a block lies in, as a natural loop of the
// header given, or of the nearest dominator that is one.
func loopOf(blk *ssa.BasicBlock) (header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for h := blk; h != nil; h = h.Idom() {
		body := map[*ssa.BasicBlock]bool{}
		var back []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				back = append(back, p)
			}
		}
		if back == nil {
			continue
		}
		body[h] = true
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if body[b] {
				return
			}
			body[b] = true
			for _, p := range b.Preds {
				walk(p)
			}
		}
		for _, b := range back {
			walk(b)
		}
		if body[blk] {
			return h, body
		}
	}
	return nil, nil
}

// inside says that a value is computed in the region.
func (r *region) inside(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	if !ok {
		for _, p := range r.fn.Params {
			if r.header == nil && v == p {
				return true
			}
		}
		return false
	}
	return r.blocks[i.Block()]
}

// spread computes what depends on the element.
func (r *region) spread() {
	r.dep = map[ssa.Value]bool{}
	for v := range r.elems {
		r.dep[v] = true
	}
	outer := map[ssa.Value]bool{} // variables outside that the region writes to
	for blk := range r.blocks {
		for _, i := range blk.Instrs {
			if s, ok := i.(*ssa.Store); ok && !r.inside(flow.Base(s.Addr)) {
				outer[flow.Base(s.Addr)] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for blk := range r.blocks {
			for _, i := range blk.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || r.dep[v] {
					continue
				}
				d := false
				switch i := i.(type) {
				case *ssa.Next, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				case *ssa.Phi:
					for n, e := range i.Edges {
						d = d || r.dep[e] && (i.Block() != r.header || r.blocks[i.Block().Preds[n]])
					}
					if i.Block() != r.header && !d { // chosen by a condition on the element
						first := ssa.Value(nil)
						same := true
						for _, e := range i.Edges {
							if first != nil && !sameConst(first, e) {
								same = false
							}
							first = e
						}
						if !same {
							for b := range r.blocks {
								if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && r.dep[c.Cond] && b.Dominates(i.Block()) && b != i.Block() && !r.postdominated(b, i.Block()) {
									d = true
								}
							}
							if !d {
								for b := range r.blocks {
									if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && r.dep[c.Cond] && b == i.Block().Idom() {
										d = true
									}
								}
							}
						}
					}
				case *ssa.UnOp:
					if i.Op == token.MUL {
						b := flow.Base(i.X)
						d = r.dep[b] || r.dep[i.X] || outer[b]
						if al, ok := b.(*ssa.Alloc); ok && r.inside(b) {
							for _, u := range *al.Referrers() {
								_ = u
							}
							d = d || r.storesDep(b)
						}
						break
					}
					d = r.dep[i.X]
				default:
					for _, x := range i.Operands(nil) {
						d = d || *x != nil && r.dep[*x]
					}
					// memory that was filled from the element
					for _, x := range i.Operands(nil) {
						if *x == nil {
							continue
						}
						if b := flow.Base(*x); r.inside(b) && fresh(b) && r.storesDep(b) {
							d = true
						}
					}
				}
				if d {
					r.dep[v] = true
					changed = true
				}
			}
		}
	}
}

func fresh(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	}
	return false
}

func (r *region) storesDep(base ssa.Value) bool {
	for blk := range r.blocks {
		for _, i := range blk.Instrs {
			if s, ok := i.(*ssa.Store); ok && flow.Base(s.Addr) == base && r.dep[s.Val] {
				return true
			}
		}
	}
	return false
}

func (r *region) postdominated(b, by *ssa.BasicBlock) bool { return false }

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 || !types.Identical(x.Type(), y.Type()) {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == y.Value
	}
	return constant.Compare(x.Value, token.EQL, y.Value)
}

// unique says that a block of the region runs for at most one element: behind
// a test that a value which is different for every element equals a fixed one.
func (r *region) unique(blk *ssa.BasicBlock) bool {
	for b := blk; b != nil && r.blocks[b]; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		p := b.Preds[0]
		c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := c.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if cmp.Op == token.EQL && p.Succs[0] == b || cmp.Op == token.NEQ && p.Succs[1] == b {
			if r.key[cmp.X] && !r.dep[cmp.Y] || r.key[cmp.Y] && !r.dep[cmp.X] {
				return true
			}
		}
	}
	return false
}

// chosen says that a block runs only if a comparison of sizes holds, as when
// the least or greatest element is looked for.
func (r *region) chosen(blk *ssa.BasicBlock) bool {
	for b := blk; b != nil && r.blocks[b]; b = b.Idom() {
		if len(b.Preds) == 0 {
			continue
		}
		for _, p := range b.Preds {
			c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p == r.header {
				continue
			}
			if cmp, ok := c.Cond.(*ssa.BinOp); ok {
				switch cmp.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					return true
				}
			}
			if call, ok := c.Cond.(*ssa.Call); ok {
				if n, _ := calleeName(call); strings.Contains(n, "Before") || strings.Contains(n, "After") {
					return true
				}
			}
		}
	}
	return false
}

// accumulation tells how a value follows from an earlier one of the same
// variable: "same", "list", "text", "number" or "" (not from it).
func (r *region) accumulation(v ssa.Value, isOld func(ssa.Value) bool, seen map[ssa.Value]bool) string {
	if isOld(v) {
		return "same"
	}
	if seen[v] {
		return "same"
	}
	seen[v] = true
	join := func(a, b string) string {
		if a == "same" || a == b {
			return b
		}
		if b == "same" {
			return a
		}
		return ""
	}
	switch i := v.(type) {
	case *ssa.Phi:
		if !r.inside(i) {
			return ""
		}
		k := "same"
		for _, e := range i.Edges {
			x := r.accumulation(e, isOld, seen)
			if x == "" {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					x = "flag"
				}
			}
			k = join(k, x)
		}
		return k
	case *ssa.Call:
		n, _ := calleeName(i)
		if n == "builtin append" {
			if r.accumulation(i.Call.Args[0], isOld, seen) != "" {
				if !r.dependsList(i.Call.Args[1]) {
					return "number"
				}
				return "list"
			}
		}
		if (n == "builtin min" || n == "builtin max") && len(i.Call.Args) > 0 {
			for _, x := range i.Call.Args {
				if r.accumulation(x, isOld, seen) != "" {
					return "number"
				}
			}
		}
	case *ssa.BinOp:
		x, y := r.accumulation(i.X, isOld, seen), r.accumulation(i.Y, isOld, seen)
		if x == "" && y == "" {
			return ""
		}
		b, _ := i.Type().Underlying().(*types.Basic)
		if b == nil {
			return ""
		}
		switch {
		case b.Info()&types.IsString != 0 && i.Op == token.ADD:
			if x != "" && !r.dep[i.Y] || y != "" && !r.dep[i.X] {
				return "number"
			}
			return "text"
		case b.Info()&types.IsFloat != 0:
			return ""
		case i.Op == token.ADD || i.Op == token.MUL || i.Op == token.OR || i.Op == token.AND || i.Op == token.XOR || i.Op == token.SUB && x != "":
			return "number"
		}
	case *ssa.Slice:
		return r.accumulation(i.X, isOld, seen)
	case *ssa.ChangeType:
		return r.accumulation(i.X, isOld, seen)
	}
	return ""
}

// dependsList: the elements of a (variadic) list depend on the element.
func (r *region) dependsList(v ssa.Value) bool {
	b := flow.Base(v)
	return r.dep[v] || r.dep[b] || r.inside(b) && fresh(b) && r.storesDep(b)
}

func (r *region) find(at ssa.Instruction, sure bool, format string, args ...any) {
	r.out = append(r.out, chancy{at, fmt.Sprintf(format, args...) + ", in the order of " + r.what, sure})
}

// check collects what depends on the order of the elements.
func (r *region) check() []chancy {
	r.spread()
	// variables of the loop
	if r.header != nil {
		for _, i := range r.header.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				continue
			}
			used := false
			for _, u := range *phi.Referrers() {
				if !r.blocks[u.Block()] {
					used = true
				}
			}
			kind := "same"
			unique, chosen, dep := true, false, false
			for n, e := range phi.Edges {
				if !r.blocks[phi.Block().Preds[n]] {
					continue
				}
				k := r.accumulation(e, func(v ssa.Value) bool { return v == phi }, map[ssa.Value]bool{})
				if k == "" || kind == "" {
					kind = ""
				} else if k != "same" {
					kind = k
				}
				if k == "" && r.dep[e] {
					dep = true
					for _, src := range r.sources(e, phi, phi.Block().Preds[n]) {
						unique = unique && r.unique(src)
						chosen = chosen || r.chosen(src)
					}
				}
			}
			switch {
			case kind == "list":
				r.d.unordered(r, phi, phi)
			case kind == "text" && used:
				r.find(phi, true, "text is put together")
			case kind == "" && dep && used && !unique:
				r.find(phi, !chosen, "a variable keeps what comes last")
			case kind == "" && dep && !used && !unique:
				r.find(phi, false, "a variable depends on earlier elements")
			}
		}
	}
	for blk := range r.blocks {
		for _, i := range blk.Instrs {
			r.instr(i)
		}
	}
	r.exits()
	sort.Slice(r.out, func(i, j int) bool { return flow.Pos(r.out[i].at) < flow.Pos(r.out[j].at) })
	return r.out
}

// sources are the blocks in which the values are chosen that a variable gets.
func (r *region) sources(v ssa.Value, phi *ssa.Phi, pred *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, pred *ssa.BasicBlock)
	walk = func(v ssa.Value, pred *ssa.BasicBlock) {
		if v == phi || seen[v] {
			return
		}
		if p, ok := v.(*ssa.Phi); ok && r.inside(p) {
			seen[v] = true
			for n, e := range p.Edges {
				walk(e, p.Block().Preds[n])
			}
			return
		}
		if r.dep[v] {
			out = append(out, pred)
		}
	}
	walk(v, pred)
	return out
}

func (r *region) instr(i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Store:
		base := flow.Base(i.Addr)
		if r.inside(base) && fresh(base) || r.dep[base] && !r.variable(i.Addr) {
			return // of the element itself
		}
		if ia := r.counted(i.Addr); ia != nil && !r.dep[base] {
			if r.keyed(i.Addr) || !r.dep[i.Val] {
				return
			}
			switch x := ia.X.(type) {
			case *ssa.MakeSlice, *ssa.Slice, *ssa.Phi, *ssa.Call, *ssa.Extract:
				r.d.list(r.fn, x, i, r, r.what, map[ssa.Value]bool{})
			case *ssa.UnOp:
				r.d.unorderedCell(r, i, x.X)
			default:
				r.find(i, false, "elements are stored")
			}
			return
		}
		if r.dep[i.Addr] && !r.dep[base] {
			if r.keyed(i.Addr) {
				return
			}
			r.find(i, false, "elements are stored")
			return
		}
		k := r.accumulation(i.Val, func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sameAddr(u.X, i.Addr)
		}, map[ssa.Value]bool{})
		switch {
		case k == "list":
			r.d.unorderedCell(r, i, i.Addr)
		case k == "text":
			r.find(i, true, "text is put together")
		case k == "" && r.dep[i.Val] && !r.unique(i.Block()):
			r.find(i, !r.chosen(i.Block()) && r.header != nil, "a variable keeps what comes last")
		}
	case *ssa.MapUpdate:
		if r.inside(i.Map) && (fresh(i.Map) || r.dep[i.Map]) {
			return
		}
		if !r.dep[i.Value] || r.keyValue(i.Key) || r.unique(i.Block()) {
			return
		}
		k := r.accumulation(i.Value, func(v ssa.Value) bool {
			if e, ok := v.(*ssa.Extract); ok {
				v = e.Tuple
			}
			l, ok := v.(*ssa.Lookup)
			return ok && sameValue(l.X, i.Map) && sameValue(l.Index, i.Key)
		}, map[ssa.Value]bool{})
		switch k {
		case "number", "same":
		case "list", "text":
			r.find(i, !r.d.sorts(r.fn), "the entries of a map are put together")
		default:
			r.find(i, !r.dep[i.Key] && !r.chosen(i.Block()), "entries of a map may replace each other")
		}
	case *ssa.Send:
		if r.dep[i.X] {
			r.find(i, true, "messages are sent")
		}
	case *ssa.Go, *ssa.Defer:
		r.find(i, false, "a function is started or deferred")
	case *ssa.Call:
		r.call(i)
	}
}

// variable: the address is a variable the region shares between elements.
func (r *region) variable(addr ssa.Value) bool {
	switch addr.(type) {
	case *ssa.FreeVar, *ssa.Global:
		return true
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && sameValue(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	}
	return sameConst(a, b)
}

func sameValue(a, b ssa.Value) bool { return sameAddr(a, b) }

// keyValue: the value differs between any two elements.
func (r *region) keyValue(v ssa.Value) bool {
	for {
		if r.key[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.BinOp: // with a fixed prefix or suffix
			if x.Op != token.ADD {
				return false
			}
			if !r.dep[x.Y] {
				v = x.X
			} else if !r.dep[x.X] {
				v = x.Y
			} else {
				return false
			}
		default:
			return false
		}
	}
}

func (r *region) keyed(addr ssa.Value) bool {
	for {
		switch x := addr.(type) {
		case *ssa.IndexAddr:
			if r.keyValue(x.Index) {
				return true
			}
			addr = x.X
		case *ssa.FieldAddr:
			addr = x.X
		default:
			return false
		}
	}
}

// counted: the place is an element of a list, a different one each time.
func (r *region) counted(addr ssa.Value) *ssa.IndexAddr {
	for {
		switch x := addr.(type) {
		case *ssa.IndexAddr:
			if i, ok := x.Index.(ssa.Instruction); ok && r.blocks[i.Block()] && !r.keyValue(x.Index) {
				return x
			}
			addr = x.X
		case *ssa.FieldAddr:
			addr = x.X
		default:
			return nil
		}
	}
}

// sorts says that the function sorts something.
func (d *determinism) sorts(fn *ssa.Function) bool {
	for _, blk := range fn.Blocks {
		for _, i := range blk.Instrs {
			if n, _ := calleeName(i); sorting(n) {
				return true
			}
		}
	}
	return false
}

func sorting(n string) bool {
	return strings.HasPrefix(n, "sort.") && n != "sort.Search" && !strings.HasPrefix(n, "sort.Search") || strings.HasPrefix(n, "slices.Sort")
}

// total: a sorting call that leaves one possible order.
func total(n string) bool {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.Sorted":
		return true
	}
	return false
}

func (r *region) call(i *ssa.Call) {
	n, fn := calleeName(i)
	depArgs := false
	for _, x := range i.Call.Args {
		depArgs = depArgs || r.dep[x] || r.dependsList(x)
	}
	if !depArgs && !(fn != nil && r.d.fns[fn]) {
		return
	}
	outer := func(k int) bool {
		if k >= len(i.Call.Args) {
			return false
		}
		b := flow.Base(i.Call.Args[k])
		return !(r.inside(b) && fresh(b)) && !r.dep[b]
	}
	switch {
	case n == "builtin copy" && outer(0):
		r.find(i, false, "elements are copied")
	case strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*bufio.Writer).Write"):
		if outer(0) {
			r.find(i, true, "text is written")
		}
	case strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString":
		b := flow.Base(i.Call.Args[0])
		if u, ok := b.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && (g.Name() == "Stderr" || g.Name() == "Discard") {
				return
			}
		}
		if outer(0) {
			r.find(i, true, "text is written")
		}
	case strings.HasPrefix(n, "fmt.Print"):
		r.find(i, true, "text is printed")
	case strings.HasPrefix(n, "invoke Write"):
		r.find(i, true, "text is written")
	case fn == nil && n == "":
		r.passed(i)
	case fn != nil && r.d.fns[fn]:
		switch e := r.d.effects(fn); {
		case len(e) == 0:
		case e["append"] && depArgs:
			r.find(i, !r.d.sorts(r.fn), "%s is called, which adds to a list", fn.Name())
		case e["text"] && depArgs:
			r.find(i, true, "%s is called, which writes", fn.Name())
		default:
			r.find(i, false, "%s is called, which changes something", fn.Name())
		}
	}
}

// passed: a function is called that is not known here. If it is a parameter,
// the callers tell which functions it may be.
func (r *region) passed(i *ssa.Call) {
	if mc, ok := i.Call.Value.(*ssa.MakeClosure); ok {
		r.d.each(r, mc, i)
		return
	}
	at := -1
	for k, x := range r.fn.Params {
		if i.Call.Value == x {
			at = k
		}
	}
	if at < 0 || r.fn.Parent() != nil || r.fn.Object() == nil || r.fn.Object().Exported() {
		r.find(i, false, "an unknown function is called")
		return
	}
	for g := range r.d.fns {
		for _, blk := range g.Blocks {
			for _, j := range blk.Instrs {
				if c, ok := j.(ssa.CallInstruction); ok && c.Common().StaticCallee() == r.fn && at < len(c.Common().Args) {
					r.d.each(r, c.Common().Args[at], i)
				}
			}
		}
	}
}

// each looks at a function that is called for elements, with given arguments.
func (d *determinism) each(r *region, f ssa.Value, call *ssa.Call) {
	g, _ := f.(*ssa.Function)
	if mc, ok := f.(*ssa.MakeClosure); ok {
		g, _ = mc.Fn.(*ssa.Function)
	}
	if g == nil || len(g.Blocks) == 0 {
		r.find(call, false, "an unknown function is called")
		return
	}
	rr := &region{d: d, fn: g, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, key: map[ssa.Value]bool{}, what: r.what}
	for _, b := range g.Blocks {
		rr.blocks[b] = true
	}
	for k, x := range g.Params {
		if k < len(call.Call.Args) && (r.dep[call.Call.Args[k]] || r.dependsList(call.Call.Args[k])) {
			rr.elems[x] = true
			rr.key[x] = r.keyValue(call.Call.Args[k])
		}
	}
	for _, x := range rr.check() {
		d.report(g, x)
	}
}

// effects of a function on what existed before the call.
func (d *determinism) effects(fn *ssa.Function) map[string]bool {
	if e, ok := d.impure[fn]; ok {
		return e
	}
	e := map[string]bool{}
	d.impure[fn] = e
	var top []*flow.Inst
	for _, in := range d.a.Insts {
		if in.Fn == fn {
			top = append(top, in)
		}
	}
	inner := map[*flow.Inst]bool{}
	for _, in := range top {
		flow.Reach(in, inner)
	}
	for _, x := range d.a.Effects {
		if !inner[x.In] {
			continue
		}
		for l := range x.Where {
			if l.O.In != nil && inner[l.O.In] && l.O.Kind != flow.Ext {
				continue
			}
			switch s := x.At.(type) {
			case *ssa.Store:
				if c, ok := s.Val.(*ssa.Call); ok {
					if n, _ := calleeName(c); n == "builtin append" {
						e["append"] = true
						continue
					}
				}
				e["store"] = true
			case *ssa.Call:
				n, _ := calleeName(s)
				switch {
				case n == "builtin append":
					// the result counts where it is stored
				case strings.Contains(n, "Write") || strings.Contains(n, "Fprint"):
					e["text"] = true
				default:
					e["store"] = true
				}
			default:
				e["store"] = true
			}
		}
	}
	return e
}

// exits looks at what leaves the region early.
func (r *region) exits() {
	if r.header == nil {
		return
	}
	type exit struct {
		at  *ssa.BasicBlock
		val string
	}
	returns := map[string]ssa.Instruction{}
	for blk := range r.blocks {
		for n, s := range blk.Succs {
			if r.blocks[s] || blk == r.header && !(r.once && n == 0) {
				continue
			}
			unique := r.unique(blk) || len(s.Preds) == 1 && r.uniqueEdge(blk, s)
			// values of variables behind the loop
			dep := false
			for _, i := range s.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == blk && r.dep[phi.Edges[k]] {
						dep = true
					}
				}
			}
			if dep && !unique {
				r.find(blk.Instrs[len(blk.Instrs)-1], !r.chosen(blk), "the first element that is found is used")
			}
			// what is done on the way out
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if seen[b] || r.blocks[b] {
					return
				}
				seen[b] = true
				for _, i := range b.Instrs {
					if !unique {
						r.wayOut(i, blk)
					}
					if ret, ok := i.(*ssa.Return); ok {
						sig := ""
						for _, x := range ret.Results {
							if r.reaches(x, map[ssa.Value]bool{}) {
								if !unique {
									r.find(ret, true, "the first element that is found decides what is returned")
								}
								return
							}
							sig += x.String() + " "
						}
						if !unique && len(s.Preds) == 1 {
							returns[sig] = ret
						}
						continue
					}
				}
				for _, t := range b.Succs {
					joins := false
					for _, p := range t.Preds {
						joins = joins || !s.Dominates(p)
					}
					if !joins {
						walk(t)
						continue
					}
					// joins the normal way
					for _, i := range t.Instrs {
						phi, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						for k, p := range t.Preds {
							if p == b && !unique && r.reaches(phi.Edges[k], map[ssa.Value]bool{}) && len(*phi.Referrers()) > 0 {
								r.find(blk.Instrs[len(blk.Instrs)-1], !r.chosen(blk), "the first element that is found is used")
							}
						}
					}
				}
			}
			if len(s.Preds) == 1 {
				walk(s)
			}
		}
	}
	if len(returns) > 1 {
		for _, i := range returns {
			r.find(i, false, "different elements lead to different results")
			break
		}
	}
}

// wayOut looks at what is done with the element at which a loop is left.
func (r *region) wayOut(i ssa.Instruction, from *ssa.BasicBlock) {
	switch i := i.(type) {
	case *ssa.Store:
		b := flow.Base(i.Addr)
		if fresh(b) && !r.inside(b) {
			if al, ok := b.(*ssa.Alloc); !ok || !al.Heap || i.Addr != ssa.Value(al) {
				if !r.before(al) {
					return
				}
			}
		}
		if r.reaches(i.Val, map[ssa.Value]bool{}) {
			r.find(i, !r.chosen(from), "the first element that is found is kept")
		}
	case *ssa.MapUpdate:
		if r.reaches(i.Value, map[ssa.Value]bool{}) || r.reaches(i.Key, map[ssa.Value]bool{}) {
			r.find(i, false, "the first element that is found is kept")
		}
	case *ssa.Call:
		_, fn := calleeName(i)
		if fn == nil || !r.d.fns[fn] || len(r.d.effects(fn)) == 0 {
			return
		}
		for _, x := range i.Call.Args {
			if r.reaches(x, map[ssa.Value]bool{}) {
				r.find(i, false, "%s is called with the first element that is found", fn.Name())
				return
			}
		}
	}
}

// before: a variable that is there before the loop.
func (r *region) before(al *ssa.Alloc) bool {
	return al != nil && r.header != nil && !r.blocks[al.Block()] && al.Block().Dominates(r.header)
}

func (r *region) uniqueEdge(from, to *ssa.BasicBlock) bool {
	c, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := c.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	if cmp.Op == token.EQL && from.Succs[0] == to || cmp.Op == token.NEQ && from.Succs[1] == to {
		return r.key[cmp.X] && !r.dep[cmp.Y] || r.key[cmp.Y] && !r.dep[cmp.X]
	}
	return false
}

// reaches: a value behind the loop is made from one that depends on the element.
func (r *region) reaches(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if r.dep[v] {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok || r.blocks[i.Block()] {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return false
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && r.reaches(s.Val, seen) {
				return true
			}
			if ia, ok := u.(*ssa.IndexAddr); ok {
				for _, w := range *ia.Referrers() {
					if s, ok := w.(*ssa.Store); ok && r.reaches(s.Val, seen) {
						return true
					}
				}
			}
			if ia, ok := u.(*ssa.FieldAddr); ok {
				for _, w := range *ia.Referrers() {
					if s, ok := w.(*ssa.Store); ok && r.reaches(s.Val, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, x := range i.Operands(nil) {
		if r.reaches(*x, seen) {
			return true
		}
	}
	return false
}

// unordered follows a list whose elements are in no particular order.
func (d *determinism) unordered(r *region, list ssa.Value, at ssa.Instruction) {
	d.list(r.fn, list, at, r, r.what, map[ssa.Value]bool{})
}

func (d *determinism) list(fn *ssa.Function, v ssa.Value, at ssa.Instruction, r *region, what string, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	in := func(i ssa.Instruction) bool { return r != nil && r.blocks[i.Block()] && r.fn == i.Parent() }
	// sorted before anything else?
	var sorters []ssa.Instruction
	partial := false
	var aliases []ssa.Value
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		for _, a := range aliases {
			if a == v {
				return
			}
		}
		aliases = append(aliases, v)
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			if in(u) {
				continue
			}
			switch u := u.(type) {
			case *ssa.ChangeType:
				collect(u)
			case *ssa.MakeInterface:
				collect(u)
			case ssa.CallInstruction:
				if n, _ := calleeName(u); sorting(n) {
					sorters = append(sorters, u)
					partial = partial || !total(n) && !d.wholeOrder(u)
				}
			}
		}
	}
	collect(v)
	sorted := func(i ssa.Instruction) bool {
		for _, s := range sorters {
			if s.Block() == i.Block() && before(s, i) || s.Block() != i.Block() && s.Block().Dominates(i.Block()) {
				return true
			}
		}
		return false
	}
	for _, v := range aliases {
		for _, u := range *v.Referrers() {
			if in(u) || u == at {
				continue
			}
			if sorted(u) {
				if partial {
					d.report(fn, chancy{u, "a list is sorted by a part of its elements only, and was collected in the order of " + what, false})
				}
				continue
			}
			switch u := u.(type) {
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.DebugRef:
			case *ssa.BinOp: // nil test
			case *ssa.Phi:
				if !in(u) {
					d.list(fn, u, u, nil, what, seen)
				}
			case *ssa.Slice:
				d.list(fn, u, u, nil, what, seen)
			case *ssa.Return:
				d.returned(fn, u, v, what)
			case ssa.CallInstruction:
				n, callee := calleeName(u)
				switch {
				case n == "builtin len" || n == "builtin cap" || sorting(n):
				case n == "slices.Contains" || n == "slices.ContainsFunc" || n == "slices.Sorted" || n == "slices.Max" || n == "slices.Min" || n == "slices.Clip" && false:
				case n == "builtin append":
					if val, ok := u.(ssa.Value); ok {
						d.list(fn, val, u, nil, what, seen)
					}
				case n == "slices.Clone" || n == "slices.Clip" || n == "slices.Compact" || n == "slices.Concat":
					d.list(fn, u.(ssa.Value), u, nil, what, seen)
				case callee != nil && d.fns[callee]:
					d.report(fn, chancy{u, "a list in the order of " + what + " is passed to " + callee.Name(), false})
				default:
					d.report(fn, chancy{u, "a list in the order of " + what + " is used by " + n, true})
				}
			case *ssa.IndexAddr:
				// a loop over the list?
				if h, body := loopOf(u.Block()); h != nil {
					rr := &region{d: d, fn: fn, blocks: body, header: h, elems: map[ssa.Value]bool{u: true}, key: map[ssa.Value]bool{}, what: what}
					for _, f := range rr.check() {
						d.report(fn, f)
					}
					break
				}
				if c, ok := u.Index.(*ssa.Const); ok && c.Value != nil {
					d.report(fn, chancy{u, "an element of a list in the order of " + what + " is picked", true})
				} else {
					d.report(fn, chancy{u, "an element of a list in the order of " + what + " is picked", false})
				}
			case *ssa.Store:
				if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
					for _, w := range *al.Referrers() {
						if ld, ok := w.(*ssa.UnOp); ok && ld.Op == token.MUL {
							d.cellList(fn, al, ld, what)
						}
					}
				} else if u.Val == v {
					d.report(fn, chancy{u, "a list in the order of " + what + " is stored", !d.sorts(fn)})
				}
			case *ssa.MapUpdate:
				d.report(fn, chancy{u, "a list in the order of " + what + " is stored", !d.sorts(fn)})
			default:
				d.report(fn, chancy{u, "a list in the order of " + what + " is used", false})
			}
		}
	}
}

// wholeOrder: the comparison of a sorting call compares whole elements.
func (d *determinism) wholeOrder(i ssa.CallInstruction) bool {
	args := i.Common().Args
	if len(args) < 2 {
		return false
	}
	f, _ := args[1].(*ssa.Function)
	if mc, ok := args[1].(*ssa.MakeClosure); ok {
		f, _ = mc.Fn.(*ssa.Function)
	}
	if f == nil {
		return false
	}
	n := f.String()
	if f.Origin() != nil {
		n = f.Origin().String()
	}
	if n == "cmp.Compare" || n == "strings.Compare" {
		return true
	}
	if len(f.Blocks) != 1 {
		return false
	}
	// a < b on the parameters or on elements
	whole := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			_, ok := x.X.(*ssa.IndexAddr)
			return ok
		}
		return false
	}
	r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return false
	}
	switch x := r.Results[0].(type) {
	case *ssa.BinOp:
		return whole(x.X) && whole(x.Y)
	case *ssa.Call:
		n, _ := calleeName(x)
		return (n == "cmp.Compare" || n == "strings.Compare" || n == "cmp.Less") && whole(x.Call.Args[0]) && whole(x.Call.Args[1])
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// returned goes on with the callers of a function that returns an unordered list.
func (d *determinism) returned(fn *ssa.Function, ret *ssa.Return, v ssa.Value, what string) {
	k := fmt.Sprint("returned", fn)
	if d.seen[k] {
		return
	}
	d.seen[k] = true
	n := -1
	for i, x := range ret.Results {
		if x == v {
			n = i
		}
	}
	if n < 0 {
		return
	}
	if fn.Object() != nil && fn.Object().Exported() {
		d.report(fn, chancy{ret, "a list in the order of " + what + " is returned", true})
		return
	}
	if fn.Parent() != nil {
		d.report(fn, chancy{ret, "a list in the order of " + what + " is returned by a closure", false})
		return
	}
	for g := range d.fns {
		for _, blk := range g.Blocks {
			for _, i := range blk.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != fn {
					continue
				}
				if len(ret.Results) == 1 {
					d.list(g, c, c, nil, what, map[ssa.Value]bool{})
					continue
				}
				for _, u := range *c.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == n {
						d.list(g, e, e, nil, what, map[ssa.Value]bool{})
					}
				}
			}
		}
	}
}

// unorderedCell: a list kept in a variable or field.
func (d *determinism) unorderedCell(r *region, st *ssa.Store, cell ssa.Value) {
	switch a := cell.(type) {
	case *ssa.FreeVar, *ssa.Alloc:
		// a local variable: its later readings
		cells := []ssa.Value{a}
		fns := []*ssa.Function{r.fn}
		if fv, ok := a.(*ssa.FreeVar); ok {
			cells, fns = nil, nil
			for k, x := range fv.Parent().FreeVars {
				if x != fv {
					continue
				}
				for _, blk := range fv.Parent().Parent().Blocks {
					for _, i := range blk.Instrs {
						if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fv.Parent() {
							cells = append(cells, mc.Bindings[k])
							fns = append(fns, fv.Parent().Parent())
						}
					}
				}
			}
		}
		for n, cell := range cells {
			al, ok := cell.(*ssa.Alloc)
			if !ok {
				r.find(st, false, "a list grows")
				continue
			}
			for _, u := range *al.Referrers() {
				if ld, ok := u.(*ssa.UnOp); ok && !(fns[n] == r.fn && r.blocks[ld.Block()]) {
					d.cellList(fns[n], al, ld, r.what)
				}
			}
		}
	default:
		later := false
		for _, blk := range r.fn.Blocks {
			for _, i := range blk.Instrs {
				if n, _ := calleeName(i); sorting(n) && !r.blocks[blk] {
					later = true
				}
			}
		}
		r.find(st, !later && r.header != nil, "a list grows")
	}
}

// cellList: one reading of a list kept in a local variable.
func (d *determinism) cellList(fn *ssa.Function, cell *ssa.Alloc, ld *ssa.UnOp, what string) {
	k := fmt.Sprint("cell", ld, fn, ld.Pos(), ld.Block(), ld.Name())
	if d.seen[k] {
		return
	}
	d.seen[k] = true
	// is some earlier reading sorted?
	for _, u := range *cell.Referrers() {
		o, ok := u.(*ssa.UnOp)
		if !ok {
			continue
		}
		for _, w := range flatten(o) {
			if n, _ := calleeName(w); sorting(n) && (w.Block() == ld.Block() && before(w, ld) || w.Block() != ld.Block() && w.Block().Dominates(ld.Block())) {
				return
			}
		}
	}
	d.list(fn, ld, ld, nil, what, map[ssa.Value]bool{})
}

func flatten(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		out = append(out, u)
		switch x := u.(type) {
		case *ssa.ChangeType:
			out = append(out, flatten(x)...)
		case *ssa.MakeInterface:
			out = append(out, flatten(x)...)
		}
	}
	return out
}

// chance are library functions whose results differ between runs.
var chance = []string{"time.Now", "time.Since", "time.Until", "math/rand.", "math/rand/v2.", "crypto/rand.", "os.Getpid", "os.Getppid", "os.Hostname", "os.Environ", "os.Getenv", "os.LookupEnv", "os.ExpandEnv", "os.TempDir",
	"runtime.NumGoroutine", "runtime.NumCPU", "runtime.ReadMemStats", "(*math/rand.Rand).", "(*math/rand/v2.Rand).", "hash/maphash.", "os/user.Current"}

func init() {
	register("C19", func(c *Ctx) {
		c.Rule("order-dependence analysis of every loop over a map (and of maps.Keys and the like, sync.Map.Range, messages of several goroutines) in the loading packages and the template functions: what such a loop computes must not depend on the order (entries of maps under the key, sets, counts, tests that hold for some element, and lists that are sorted before use are fine); no value of a clock, a random source or the environment may reach a result; no text may contain the address of memory")
		p := c.program()
		inits, roots, all := c.ownFunctions(p)
		a := flow.New(p.Prog, p.IsSrc, inits, roots)
		d := &determinism{p: p, a: a, fns: map[*ssa.Function]bool{}, impure: map[*ssa.Function]map[string]bool{}, seen: map[string]bool{}, findings: map[*ssa.Function][]chancy{}}
		for _, fn := range all {
			d.fns[fn] = true
		}
		for _, in := range a.Insts { // instances of generic functions, wrappers
			if o := in.Fn.Origin(); o != nil && o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), Root) {
				d.fns[in.Fn] = true
			}
		}
		strict := d.strict()
		for fn := range d.fns {
			if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
				continue
			}
			c.Funcs[fn.String()] = true
			d.function(fn, strict[fn])
		}
		d.goroutines()
		for fn := range d.fns {
			o := Oblig{Name: "order " + fn.String(), Verdict: "holds"}
			fs := d.findings[fn]
			sort.Slice(fs, func(i, j int) bool { return flow.Pos(fs[i].at) < flow.Pos(fs[j].at) })
			for _, f := range fs {
				msg := fmt.Sprintf("%s: %s", fn, f.msg)
				if f.sure {
					c.Violate(o.Name, p.PosString(flow.Pos(f.at)), msg)
					o.Verdict, o.Detail = "violated", msg
				} else if o.Verdict == "holds" {
					o.Verdict, o.Detail = "undecided", p.PosString(flow.Pos(f.at))+": "+msg
				}
			}
			c.Record(o)
		}
		c.Counts["places with an order of their own"] = d.sites
	})
}

// strict are the functions whose results must not depend on the surroundings:
// those of the loading packages and those that templates call. The generator
// proper may look at its cache and its arguments.
func (d *determinism) strict() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if out[fn] || !d.fns[fn] {
			return
		}
		out[fn] = true
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				for _, x := range i.Operands(nil) {
					if g, ok := (*x).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for fn := range d.fns {
		o := fn
		for o.Parent() != nil {
			o = o.Parent()
		}
		if o.Origin() != nil {
			o = o.Origin()
		}
		if o.Pkg != nil && (o.Pkg.Pkg.Path() != GenPkg || o.Name() == "templateFuncMap") {
			add(fn)
		}
	}
	return out
}

func (d *determinism) function(fn *ssa.Function, strict bool) {
	for _, blk := range fn.Blocks {
		for _, i := range blk.Instrs {
			switch i := i.(type) {
			case *ssa.Next:
				rg, ok := i.Iter.(*ssa.Range)
				if !ok || i.IsString {
					continue
				}
				if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				d.sites++
				h, body := loopOf(blk)
				once := h == nil || h != blk
				if once { // just one element, any of them, is used
					h, body = blk, map[*ssa.BasicBlock]bool{blk: true}
				}
				r := &region{once: once, d: d, fn: fn, blocks: body, header: h, elems: map[ssa.Value]bool{}, key: map[ssa.Value]bool{}, what: "a map"}
				for _, u := range *i.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
						r.elems[e] = true
						if e.Index == 1 {
							r.key[e] = true
						}
					}
				}
				for _, f := range r.check() {
					d.report(fn, f)
				}
			case *ssa.Select:
				n := 0
				for _, s := range i.States {
					if s.Dir == types.RecvOnly {
						n++
					}
				}
				if n > 1 {
					d.sites++
					d.report(fn, chancy{i, "one of several messages is taken", false})
				}
			case ssa.CallInstruction:
				d.library(fn, i, strict)
			}
		}
	}
}

func (d *determinism) library(fn *ssa.Function, i ssa.CallInstruction, strict bool) {
	n, _ := calleeName(i)
	switch n {
	case "maps.Keys", "maps.Values", "maps.All":
		d.sites++
		d.sequence(fn, i.(ssa.Value), n)
		return
	case "(reflect.Value).MapKeys":
		d.sites++
		d.list(fn, i.(ssa.Value), i, nil, "a map", map[ssa.Value]bool{})
		return
	case "(reflect.Value).MapRange":
		d.sites++
		d.report(fn, chancy{i, "a map is read by reflection", false})
		return
	case "(*sync.Map).Range":
		d.sites++
		d.yield(fn, i, i.Common().Args[1], "a map")
		return
	}
	if strict {
		for _, x := range chance {
			if n == x || strings.HasSuffix(x, ".") && strings.HasPrefix(n, x) {
				d.sites++
				if v, ok := i.(ssa.Value); ok {
					if at := d.escapes(v, map[ssa.Value]bool{}); at != nil {
						d.report(fn, chancy{at, "a result of " + n + " is used, which differs between runs", true})
					}
				}
			}
		}
	}
	if strings.HasPrefix(n, "fmt.") || n == "errors.New" || strings.HasPrefix(n, "log.") {
		if msg := d.addresses(n, i.Common()); msg != "" && strict {
			d.sites++
			d.report(fn, chancy{i, msg, true})
		}
	}
}

// escapes finds a use of a value that has an effect other than on messages to
// the standard error.
func (d *determinism) escapes(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			if !d.silent(u) {
				return u
			}
		case *ssa.Return:
			fn := u.Parent()
			found := false
			if fn.Parent() == nil && fn.Object() != nil && !fn.Object().Exported() {
				for g := range d.fns {
					for _, blk := range g.Blocks {
						for _, i := range blk.Instrs {
							if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
								found = true
								if at := d.escapes(c, seen); at != nil {
									return at
								}
							}
						}
					}
				}
			}
			if !found {
				return u
			}
		case *ssa.Send, *ssa.MapUpdate, *ssa.Panic:
			return u.(ssa.Instruction)
		case *ssa.MakeClosure:
			for k, x := range u.Bindings {
				if x == v {
					if at := d.escapes(u.Fn.(*ssa.Function).FreeVars[k], seen); at != nil {
						return at
					}
				}
			}
		case *ssa.Store:
			b := flow.Base(u.Addr)
			if u.Val != v {
				continue // a variable the value is kept in gets another one
			}
			if al, ok := b.(*ssa.Alloc); ok && u.Val == v {
				if at := d.escapesAll(al, seen); at != nil {
					return at
				}
				continue
			}
			return u
		case ssa.CallInstruction:
			n, callee := calleeName(u)
			switch {
			case strings.HasPrefix(n, "log.") && !strings.Contains(n, "Fatal") && !strings.Contains(n, "Panic"), strings.HasPrefix(n, "fmt.Fprint"), strings.HasPrefix(n, "fmt.Print"), n == "builtin print", n == "builtin println":
				if strings.HasPrefix(n, "fmt.Print") {
					return u
				}
				if strings.HasPrefix(n, "fmt.Fprint") {
					ld, ok := flow.Base(u.Common().Args[0]).(*ssa.UnOp)
					if !ok {
						return u
					}
					if g, ok := ld.X.(*ssa.Global); !ok || g.Name() != "Stderr" {
						return u
					}
				}
			case callee != nil && d.fns[callee]:
				for k, x := range u.Common().Args {
					if x == v && k < len(callee.Params) {
						if at := d.escapes(callee.Params[k], seen); at != nil {
							return at
						}
					}
				}
			case n == "" || u.Common().IsInvoke() && u.Common().Value != v || keeps(n):
				return u
			default:
				if x, ok := u.(ssa.Value); ok {
					if at := d.escapes(x, seen); at != nil {
						return at
					}
				}
			}
		default:
			if x, ok := u.(ssa.Value); ok {
				if at := d.escapes(x, seen); at != nil {
					return at
				}
			}
		}
	}
	return nil
}

// keeps: a library function that keeps what it is given.
func keeps(n string) bool {
	return strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*bufio.Writer).Write") || n == "io.WriteString" ||
		strings.HasPrefix(n, "(*encoding/json.Encoder)") || strings.HasPrefix(n, "(*sync.Map).") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.")
}

// silent: whichever way a branch goes makes no difference but for messages to
// the standard error.
func (d *determinism) silent(c *ssa.If) bool {
	// the blocks of either side, up to where both meet
	var sides [2]map[*ssa.BasicBlock]bool
	for k, s := range c.Block().Succs {
		sides[k] = map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if !sides[k][b] {
				sides[k][b] = true
				for _, t := range b.Succs {
					walk(t)
				}
			}
		}
		walk(s)
	}
	if sides[0][c.Block()] {
		return false
	}
	only := map[*ssa.BasicBlock]bool{}
	for k := range sides {
		for b := range sides[k] {
			if !sides[1-k][b] {
				only[b] = true
			}
		}
	}
	for b := range only {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Return, *ssa.Panic, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Store:
				if x, ok := flow.Base(i.Addr).(ssa.Instruction); !ok || !only[x.Block()] {
					return false
				}
			case *ssa.Call:
				n, fn := calleeName(i)
				switch {
				case fn != nil && d.fns[fn]:
					if len(d.effects(fn)) > 0 {
						return false
					}
				case strings.HasPrefix(n, "fmt.Fprint"):
					ld, ok := flow.Base(i.Call.Args[0]).(*ssa.UnOp)
					if !ok {
						return false
					}
					if g, ok := ld.X.(*ssa.Global); !ok || g.Name() != "Stderr" {
						return false
					}
				case n == "" || i.Call.IsInvoke() || keeps(n) || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "os."):
					return false
				}
			}
		}
	}
	// values chosen where they meet
	for _, b := range c.Parent().Blocks {
		if only[b] {
			continue
		}
		from := 0
		for _, p := range b.Preds {
			if only[p] || p == c.Block() {
				from++
			}
		}
		if from == 0 {
			continue
		}
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			var first ssa.Value
			for k, p := range b.Preds {
				if only[p] || p == c.Block() {
					if first != nil && !sameConst(first, phi.Edges[k]) {
						return false
					}
					first = phi.Edges[k]
				}
			}
		}
	}
	return true
}

func (d *determinism) escapesAll(al *ssa.Alloc, seen map[ssa.Value]bool) ssa.Instruction {
	return d.escapes(al, seen)
}

// sequence follows maps.Keys(m) and the like.
func (d *determinism) sequence(fn *ssa.Function, v ssa.Value, name string) {
	for _, u := range *v.Referrers() {
		if ct, ok := u.(*ssa.ChangeType); ok {
			d.sequence(fn, ct, name)
			continue
		}
		c, ok := u.(ssa.CallInstruction)
		if !ok {
			d.report(fn, chancy{u, "the elements of a map are passed on", false})
			continue
		}
		if c.Common().Value == v { // for range
			d.yield(fn, c, c.Common().Args[0], "a map")
			continue
		}
		n, callee := calleeName(c)
		switch {
		case n == "slices.Sorted" || n == "maps.Collect" || n == "maps.Insert":
		case n == "slices.SortedFunc" || n == "slices.SortedStableFunc":
			if !d.wholeOrder(c) {
				d.report(fn, chancy{c, "the elements of a map are sorted by a part of them only", false})
			}
		case n == "slices.Collect" || n == "slices.AppendSeq":
			if x, ok := c.(ssa.Value); ok {
				d.list(fn, x, c, nil, "a map", map[ssa.Value]bool{})
			}
		case callee != nil && d.fns[callee]:
			d.report(fn, chancy{c, "the elements of a map are passed to " + n, false})
		default:
			d.report(fn, chancy{c, "the elements of a map are passed to " + n, false})
		}
	}
}

// yield looks at a function that is called for every element.
func (d *determinism) yield(fn *ssa.Function, at ssa.Instruction, f ssa.Value, what string) {
	mc, ok := f.(*ssa.MakeClosure)
	var g *ssa.Function
	if ok {
		g, _ = mc.Fn.(*ssa.Function)
	} else {
		g, _ = f.(*ssa.Function)
	}
	if g == nil || len(g.Blocks) == 0 {
		d.report(fn, chancy{at, "an unknown function is called for the elements of a map", false})
		return
	}
	r := &region{d: d, fn: g, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, key: map[ssa.Value]bool{}, what: what}
	for _, b := range g.Blocks {
		r.blocks[b] = true
	}
	for k, x := range g.Params {
		r.elems[x] = true
		if k == 0 {
			r.key[x] = true
		}
	}
	for _, x := range r.check() {
		d.report(fn, x)
	}
}

// goroutines looks at lists and messages whose order is that of completion.
func (d *determinism) goroutines() {
	for _, s := range d.a.Spawns {
		if s.In.Phase != flow.Run || !flow.Repeats(s.At) {
			continue
		}
		d.sites++
		mine := map[*flow.Inst]bool{}
		flow.Reach(s.Target, mine)
		for _, e := range d.a.Effects {
			if !mine[e.In] {
				continue
			}
			out := false
			for l := range e.Where {
				out = out || !(l.O.In != nil && mine[l.O.In])
			}
			if !out {
				continue
			}
			switch i := e.At.(type) {
			case *ssa.Store:
				if c, ok := i.Val.(*ssa.Call); ok {
					if n, _ := calleeName(c); n == "builtin append" {
						d.report(e.In.Fn, chancy{i, "a list grows in the order in which goroutines get there", !d.sorts(s.In.Fn)})
					}
				}
			case *ssa.Send:
				d.received(e.Where)
			}
		}
	}
}

// received looks at the loops that take messages from a channel.
func (d *determinism) received(where map[flow.Loc]bool) {
	for _, in := range d.a.Insts {
		if !d.fns[in.Fn] {
			continue
		}
		for _, blk := range in.Fn.Blocks {
			for _, i := range blk.Instrs {
				u, ok := i.(*ssa.UnOp)
				if !ok || u.Op != token.ARROW {
					continue
				}
				same := false
				for l := range d.a.Points(in, u.X) {
					same = same || where[flow.Loc{O: l.O, Path: l.Path + "{c}"}]
				}
				if !same {
					continue
				}
				if h, body := loopOf(blk); h != nil {
					r := &region{d: d, fn: in.Fn, blocks: body, header: h, elems: map[ssa.Value]bool{u: true}, key: map[ssa.Value]bool{}, what: "the messages of several goroutines"}
					for _, f := range r.check() {
						d.report(in.Fn, f)
					}
				}
			}
		}
	}
}

// addresses tells whether a formatting call prints the address of memory.
func (d *determinism) addresses(name string, c *ssa.CallCommon) string {
	var format *ssa.Const
	args := c.Args
	for k, x := range args {
		if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 && strings.HasSuffix(name, "f") {
			format, _ = x.(*ssa.Const)
			args = args[k+1:]
			break
		}
	}
	if len(args) == 0 {
		return ""
	}
	vals := variadic(args[len(args)-1])
	if vals == nil {
		return ""
	}
	verbs := []byte{}
	if strings.HasSuffix(name, "f") {
		if format == nil || format.Value == nil {
			return ""
		}
		s := constant.StringVal(format.Value)
		for i := 0; i < len(s); i++ {
			if s[i] != '%' {
				continue
			}
			i++
			for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
				i++
			}
			if i >= len(s) {
				break
			}
			if s[i] == '[' || s[i] == '*' {
				return ""
			}
			if s[i] != '%' {
				verbs = append(verbs, s[i])
			}
		}
	}
	for k, v := range vals {
		verb := byte('v')
		if format != nil {
			if k >= len(verbs) {
				break
			}
			verb = verbs[k]
		}
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		if verb == 'T' {
			continue
		}
		if verb == 'p' || hasAddress(mi.X.Type(), 0, true, map[types.Type]bool{}) {
			return fmt.Sprintf("the address of memory is put into a text (%%%c of a %s)", verb, mi.X.Type())
		}
	}
	return ""
}

func variadic(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				out[n.Int64()] = st.Val
			}
		}
	}
	return out
}

func printsItself(t types.Type) bool {
	for _, x := range []types.Type{t} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "Error", "String", "Format", "GoString":
				return true
			}
		}
	}
	return false
}

// hasAddress: formatting a value of the type shows an address.
func hasAddress(t types.Type, depth int, visible bool, seen map[types.Type]bool) bool {
	if visible && printsItself(t) || seen[t] {
		return false
	}
	seen[t] = true
	defer delete(seen, t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return hasAddress(u.Elem(), depth+1, visible, seen)
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Slice:
		return hasAddress(u.Elem(), depth+1, visible, seen)
	case *types.Array:
		return hasAddress(u.Elem(), depth+1, visible, seen)
	case *types.Map:
		return hasAddress(u.Elem(), depth+1, visible, seen) || hasAddress(u.Key(), depth+1, visible, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if hasAddress(f.Type(), depth+1, visible && f.Exported(), seen) {
				return true
			}
		}
	}
	return false
}
