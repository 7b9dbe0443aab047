package props

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"webrpcverif/ai"
	"webrpcverif/flow"
)

// known is what is known of an error (nil or not) or a condition (false or true).
type known int8

const (
	perhaps known = iota
	no            // nil, false
	yes           // an error, true
)

func (k known) not() known {
	switch k {
	case no:
		return yes
	case yes:
		return no
	}
	return perhaps
}

// facts of a path.
type facts struct {
	vals map[ssa.Value]known     // errors, conditions, and variables that hold such
	kept bool                    // the error was put into a list or the like
	more bool                    // it was tried again, or in another way
	held map[*ssa.Alloc]bool     // lists that hold the error
	tail map[*ssa.BasicBlock]int // how often a block was entered
	eof  map[ssa.Value]bool      // conditions that say that the input ended
}

func (f *facts) clone() *facts {
	g := &facts{vals: make(map[ssa.Value]known, len(f.vals)), kept: f.kept, more: f.more, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
	for k, v := range f.vals {
		g.vals[k] = v
	}
	for k := range f.held {
		g.held[k] = true
	}
	for k := range f.eof {
		g.eof[k] = true
	}
	return g
}

func (f *facts) key() string {
	var out []string
	for k, v := range f.vals {
		if v != perhaps {
			out = append(out, fmt.Sprintf("%s=%d", k.Name(), v))
		}
	}
	sort.Strings(out)
	return fmt.Sprint(strings.Join(out, ","), f.kept, f.more, len(f.held))
}

type swallow struct {
	p       *ai.Program
	own     map[*ssa.Function]bool
	made    map[string]known // results of own functions
	reports map[string]int   // functions that report an argument: 1 yes, 2 no, 3 being looked at
	global  map[*ssa.Global]bool
	tries   map[*ssa.Function]bool
	moves   map[*ssa.Function]int
}

// verdict of a path
type ending struct {
	at   ssa.Instruction
	msg  string
	sure bool
}

func errorIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isError(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// tracked are the types whose values the paths are told apart by.
func tracked(t types.Type) bool {
	switch types.Unalias(t).(type) {
	case *types.Named, *types.Interface, *types.Basic:
	default:
		return false
	}
	if isError(t) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Bool
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i.Empty()
	}
	return false
}

func cellType(v ssa.Value) (types.Type, bool) {
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return p.Elem(), tracked(p.Elem())
	}
	return nil, false
}

// makers are library functions whose result is an error in any case.
func makers(n string) bool {
	return n == "fmt.Errorf" || n == "errors.New"
}

func (s *swallow) eval(f *facts, v ssa.Value) known {
	if k, ok := f.vals[v]; ok {
		return k
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return no
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return yes
			}
			return no
		}
	case *ssa.MakeInterface:
		return yes
	case *ssa.ChangeInterface:
		return s.eval(f, v.X)
	case *ssa.ChangeType:
		return s.eval(f, v.X)
	}
	return perhaps
}

// result of a call that makes or hands on an error.
func (s *swallow) result(f *facts, c *ssa.CallCommon) known {
	n := ""
	fn := c.StaticCallee()
	if fn != nil {
		n = fn.String()
	}
	if makers(n) {
		return yes
	}
	if fn == nil {
		return perhaps
	}
	if errorIndex(fn.Signature) < 0 {
		return perhaps
	}
	if s.own[fn] && len(fn.Blocks) > 0 {
		args := make([]known, len(c.Args))
		for i, x := range c.Args {
			if isError(x.Type()) {
				args[i] = s.eval(f, x)
			}
		}
		return s.summary(fn, args)
	}
	if n == "errors.Unwrap" {
		return perhaps
	}
	if n == "errors.Join" {
		for al := range f.held {
			if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.X == al {
				return yes
			}
		}
		return perhaps
	}
	for _, x := range c.Args { // errors.Wrap and the like
		if isError(x.Type()) && s.eval(f, x) == yes {
			return yes
		}
	}
	return perhaps
}

// summary tells the error a function returns for arguments of which this is known.
func (s *swallow) summary(fn *ssa.Function, args []known) known {
	k := fmt.Sprint(fn, args)
	if r, ok := s.made[k]; ok {
		return r
	}
	s.made[k] = perhaps
	f := &facts{vals: map[ssa.Value]known{}, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != perhaps {
			f.vals[p] = args[i]
		}
	}
	at := errorIndex(fn.Signature)
	out, first := perhaps, true
	whole := s.walk(fn, fn.Blocks[0], 0, f, nil, func(i ssa.Instruction, f *facts) bool {
		ret, ok := i.(*ssa.Return)
		if !ok {
			return false
		}
		v := s.eval(f, ret.Results[at])
		if first {
			out, first = v, false
		} else if out != v {
			out = perhaps
		}
		return true
	})
	if !whole || first {
		out = perhaps
	}
	s.made[k] = out
	return out
}

// sentinel: a package variable that holds an error made at the start, for ever.
func (s *swallow) sentinel(g *ssa.Global) bool {
	if v, ok := s.global[g]; ok {
		return v
	}
	if g.Pkg == nil {
		return false
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), Root) { // io.EOF and so on
		return isError(g.Type().(*types.Pointer).Elem())
	}
	s.global[g] = false
	n, good := 0, true
	for fn := range s.own {
		if fn.Pkg != g.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, x := range i.Operands(nil) {
					if *x != ssa.Value(g) {
						continue
					}
					switch i := i.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						n++
						_, boxed := i.Val.(*ssa.MakeInterface)
						c, ok := i.Val.(*ssa.Call)
						made := ok && s.result(&facts{vals: map[ssa.Value]known{}, held: map[*ssa.Alloc]bool{}}, &c.Call) == yes
						if fn.Name() != "init" || !made && !boxed {
							good = false
						}
					default:
						good = false
					}
				}
			}
		}
	}
	s.global[g] = good && n == 1
	return s.global[g]
}

// walk follows every path from an instruction on. visit is shown the
// instructions and returns true where the path is finished. The result is
// false if there are too many paths.
func (s *swallow) walk(fn *ssa.Function, blk *ssa.BasicBlock, at int, f *facts, cut *ssa.BasicBlock, visit func(ssa.Instruction, *facts) bool) bool {
	type state struct {
		blk *ssa.BasicBlock
		at  int
		f   *facts
	}
	todo := []state{{blk, at, f}}
	seen := map[string]bool{}
	steps := 0
	enter := func(from, to *ssa.BasicBlock, f *facts) {
		f = f.clone()
		vals := map[ssa.Value]known{}
		for _, i := range to.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !tracked(phi.Type()) {
				continue
			}
			for k, p := range to.Preds {
				if p == from {
					vals[phi] = s.eval(f, phi.Edges[k])
				}
			}
		}
		for k, v := range vals {
			f.vals[k] = v
		}
		for v := range f.vals { // what is computed anew
			i, ok := v.(ssa.Instruction)
			if ok && i.Block() == to {
				if _, phi := v.(*ssa.Phi); !phi {
					if _, cell := v.(*ssa.Alloc); !cell {
						delete(f.vals, v)
					}
				}
			}
		}
		k := fmt.Sprint(to.Index, f.key())
		if !seen[k] {
			seen[k] = true
			todo = append(todo, state{to, 0, f})
		}
	}
	for len(todo) > 0 {
		st := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if steps++; steps > 20000 {
			return false
		}
		f := st.f
	instrs:
		for n := st.at; n < len(st.blk.Instrs); n++ {
			i := st.blk.Instrs[n]
			if forks := s.step(f, i); forks != nil {
				for _, g := range forks {
					todo = append(todo, state{st.blk, n + 1, g})
				}
				break
			}
			if visit(i, f) {
				break
			}
			switch i := i.(type) {
			case *ssa.If:
				for k, to := range st.blk.Succs {
					g := s.branch(f, i.Cond, k == 0)
					if g != nil {
						enter(st.blk, to, g)
					}
				}
				break instrs
			case *ssa.Jump:
				enter(st.blk, st.blk.Succs[0], f)
				break instrs
			case *ssa.Return, *ssa.Panic:
				break instrs
			}
		}
	}
	return true
}

// branch are the facts on one side of a condition, nil if it is never taken.
func (s *swallow) branch(f *facts, cond ssa.Value, side bool) *facts {
	want := no
	if side {
		want = yes
	}
	if k := s.eval(f, cond); k != perhaps {
		if k != want {
			return nil
		}
		return f
	}
	g := f.clone()
	g.vals[cond] = want
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			if g2 := s.branch(f, c.X, !side); g2 != nil {
				g2 = g2.clone()
				g2.vals[cond] = want
				return g2
			}
			return nil
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			break
		}
		equal := (c.Op == token.EQL) == side
		for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if !tracked(xy[0].Type()) || s.eval(f, xy[0]) != perhaps {
				continue
			}
			switch y := s.eval(f, xy[1]); {
			case y == no && equal:
				g.vals[xy[0]] = no
			case y == no && !equal:
				g.vals[xy[0]] = yes
			case y == yes && equal:
				g.vals[xy[0]] = yes
			}
		}
	}
	return g
}

// step computes what is known of the result of an instruction. If that differs
// between paths inside of it, there is one outcome for each.
func (s *swallow) step(f *facts, i ssa.Instruction) []*facts {
	switch i := i.(type) {
	case *ssa.Store:
		if _, ok := cellType(i.Addr); ok {
			f.vals[i.Addr] = s.eval(f, i.Val)
			return nil
		}
		if isError(i.Val.Type()) && s.eval(f, i.Val) == yes {
			if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok {
					f.held[al] = true
				}
			}
		}
	case *ssa.Alloc:
		if _, ok := cellType(i); ok {
			f.vals[i] = no
		}
	case *ssa.UnOp:
		switch {
		case !tracked(i.Type()):
		case i.Op == token.NOT:
			f.vals[i] = s.eval(f, i.X).not()
		case i.Op == token.MUL:
			f.vals[i] = perhaps
			if _, ok := cellType(i.X); ok {
				f.vals[i] = f.vals[i.X]
			} else if g, ok := i.X.(*ssa.Global); ok && isError(i.Type()) && s.sentinel(g) {
				f.vals[i] = yes
			}
		}
	case *ssa.BinOp:
		if i.Op != token.EQL && i.Op != token.NEQ || !tracked(i.X.Type()) {
			break
		}
		x, y := s.eval(f, i.X), s.eval(f, i.Y)
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if x != perhaps && y != perhaps {
				f.vals[i] = no
				if (x == y) == (i.Op == token.EQL) {
					f.vals[i] = yes
				}
			}
			break
		}
		k := perhaps
		switch {
		case x == no && y == no:
			k = yes
		case x == no && y == yes, x == yes && y == no:
			k = no
		}
		if i.Op == token.NEQ {
			k = k.not()
		}
		f.vals[i] = k
		if k == perhaps && i.Op == token.EQL && (endOfInput(i.X) || endOfInput(i.Y)) {
			f.eof[i] = true
		}
	case *ssa.Call:
		n, _ := calleeName(i)
		if tracked(i.Type()) {
			f.vals[i] = perhaps
			if isError(i.Type()) {
				f.vals[i] = s.result(f, &i.Call)
			}
			if n == "errors.Is" && endOfInput(i.Call.Args[1]) {
				f.eof[i] = true
			}
		}
		if n == "builtin append" {
			for _, x := range i.Call.Args[1:] {
				if sl, ok := x.(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok && f.held[al] {
						f.kept = true
					}
				}
			}
		}
		// variables that a called closure may set
		for _, x := range append([]ssa.Value{i.Call.Value}, i.Call.Args...) {
			if mc, ok := x.(*ssa.MakeClosure); ok {
				s.assigned(f, mc)
			}
		}
	case *ssa.Extract:
		if tracked(i.Type()) {
			if _, ok := f.vals[i]; !ok {
				f.vals[i] = perhaps
			}
			if c, ok := i.Tuple.(*ssa.Call); ok && isError(i.Type()) {
				f.vals[i] = s.result(f, &c.Call)
			}
		}
	case *ssa.RunDefers:
		return s.deferred(f, i)
	case *ssa.MapUpdate, *ssa.Send:
	case ssa.Value:
		if tracked(i.Type()) {
			switch i.(type) {
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
			default:
				f.vals[i] = perhaps
			}
		}
	}
	return nil
}

func endOfInput(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
			return g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
		}
	}
	return false
}

// assigned forgets the variables that a closure sets.
func (s *swallow) assigned(f *facts, mc *ssa.MakeClosure) {
	fn := mc.Fn.(*ssa.Function)
	for k, x := range mc.Bindings {
		if _, ok := cellType(x); !ok {
			continue
		}
		for _, u := range *fn.FreeVars[k].Referrers() {
			if _, ok := u.(*ssa.Store); ok {
				f.vals[x] = perhaps
			}
		}
	}
}

// deferred runs the deferred closures that set variables of the function.
func (s *swallow) deferred(f *facts, at *ssa.RunDefers) []*facts {
	var out []*facts
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			fn := mc.Fn.(*ssa.Function)
			g := &facts{vals: map[ssa.Value]known{}, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
			sets := false
			for k, x := range mc.Bindings {
				if _, ok := cellType(x); ok {
					g.vals[fn.FreeVars[k]] = f.vals[x]
					for _, u := range *fn.FreeVars[k].Referrers() {
						st, ok := u.(*ssa.Store)
						sets = sets || ok && st.Addr == fn.FreeVars[k]
					}
				}
			}
			if !sets || len(fn.Blocks) == 0 {
				continue
			}
			for _, b := range fn.Blocks { // without a panic, nothing is recovered
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if n, _ := calleeName(c); n == "builtin recover" {
							g.vals[c] = no
						}
					}
				}
			}
			s.walk(fn, fn.Blocks[0], 0, g, nil, func(i ssa.Instruction, g *facts) bool {
				if c, ok := i.(*ssa.Call); ok {
					if n, _ := calleeName(c); n == "builtin recover" {
						g.vals[c] = no
					}
				}
				if _, ok := i.(*ssa.Return); ok {
					h := f.clone()
					for k, x := range mc.Bindings {
						if _, ok := cellType(x); ok {
							h.vals[x] = g.vals[fn.FreeVars[k]]
						}
					}
					out = append(out, h)
					return true
				}
				return false
			})
		}
	}
	return out
}

// reported: a function hands an argument that is an error on to a channel, or
// gives up, whatever happens in it.
func (s *swallow) reporter(fn *ssa.Function, arg int) bool {
	if !s.own[fn] || len(fn.Blocks) == 0 || arg >= len(fn.Params) {
		return false
	}
	k := fmt.Sprint(fn, arg)
	if v := s.reports[k]; v != 0 {
		return v == 1
	}
	s.reports[k] = 3
	f := &facts{vals: map[ssa.Value]known{fn.Params[arg]: yes}, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
	ok := true
	whole := s.walk(fn, fn.Blocks[0], 0, f, nil, func(i ssa.Instruction, f *facts) bool {
		if s.reported(i, f) {
			return true
		}
		if _, ret := i.(*ssa.Return); ret {
			ok = false
			return true
		}
		return false
	})
	s.reports[k] = 2
	if ok && whole {
		s.reports[k] = 1
	}
	return ok && whole
}

// reported: the instruction reports an error, or ends the program.
func (s *swallow) reported(i ssa.Instruction, f *facts) bool {
	switch i := i.(type) {
	case *ssa.Send:
		return s.carries(f, i.X)
	case *ssa.Panic:
		return true
	case *ssa.Call:
		n, fn := calleeName(i)
		if n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || n == "runtime.Goexit" {
			return true
		}
		if fn != nil {
			for k, x := range i.Call.Args {
				if s.carries(f, x) && s.reporter(fn, k) {
					return true
				}
			}
		}
	}
	return false
}

// carries: a value that is an error, or holds one.
func (s *swallow) carries(f *facts, v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok && !isError(v.Type()) {
		if types.Implements(mi.X.Type(), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			return true
		}
		return false
	}
	if i, ok := v.Type().Underlying().(*types.Interface); !ok || !isError(v.Type()) && !i.Empty() {
		return false
	}
	return s.eval(f, v) == yes
}

// lookahead: a function that tries to match input and leaves it alone if it
// cannot, so that a failure of it means that something else has to be tried.
func (s *swallow) lookahead(fn *ssa.Function) bool {
	if !s.own[fn] || fn.Pkg == nil || fn.Pkg.Pkg.Path() != RIDL || errorIndex(fn.Signature) < 0 {
		return false
	}
	if fn.Signature.Variadic() {
		sl := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().(*types.Slice)
		if n := namedOf(sl.Elem()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == RIDL {
			if _, ok := n.Underlying().(*types.Basic); ok {
				return true
			}
		}
	}
	return false
}

// advances: the function may have read on in its input when it fails.
func (s *swallow) advances(fn *ssa.Function) bool {
	if !s.own[fn] {
		return true
	}
	switch s.moves[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	s.moves[fn] = 3
	at := errorIndex(fn.Signature)
	out := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok || out {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !s.reads(g, map[*ssa.Function]bool{}) {
				continue
			}
			f := &facts{vals: map[ssa.Value]known{}, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
			if s.lookahead(g) { // what follows if it succeeds
				s.set(f, c, no)
			}
			s.walk(fn, b, flowIndex(i)+1, f, nil, func(j ssa.Instruction, f *facts) bool {
				if s.lookahead(g) {
					if e, ok := j.(*ssa.Extract); ok && e.Tuple == c && isError(e.Type()) {
						f.vals[e] = no
					}
				}
				if ret, ok := j.(*ssa.Return); ok {
					if at >= 0 && s.eval(f, ret.Results[at]) != no {
						out = true
					}
					return true
				}
				return out
			})
		}
	}
	s.moves[fn] = 2
	if out {
		s.moves[fn] = 1
	}
	return out
}

func (s *swallow) set(f *facts, c *ssa.Call, k known) {
	if isError(c.Type()) {
		f.vals[c] = k
		return
	}
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && isError(e.Type()) {
			f.vals[e] = k
		}
	}
}

func flowIndex(i ssa.Instruction) int {
	for n, x := range i.Block().Instrs {
		if x == i {
			return n
		}
	}
	return 0
}

// reads: the function changes a number in a structure of its package, as a
// parser does when it reads on.
func (s *swallow) reads(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || !s.own[fn] || fn.Pkg == nil || fn.Pkg.Pkg.Path() != RIDL {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
					if bt, ok := i.Val.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						if _, local := flow.Base(fa).(*ssa.Alloc); !local {
							return true
						}
					}
				}
			case ssa.CallInstruction:
				if g := i.Common().StaticCallee(); g != nil && s.reads(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// harmless are library functions that do not fail, or whose failure is no
// failure of a load.
func harmless(c *ssa.CallCommon, n string) bool {
	if strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") {
		return true
	}
	if c.IsInvoke() {
		m := c.Method.Name()
		if m == "Close" {
			return true
		}
		if m == "Write" { // hash.Hash never fails
			t := types.TypeString(c.Value.Type(), nil)
			return strings.HasPrefix(t, "hash.")
		}
	}
	return strings.HasSuffix(n, ".Close") || n == "io.WriteString" || strings.HasPrefix(n, "(crypto/") || strings.HasPrefix(n, "(*crypto/")
}

// mechanism: the function reports failures in another way than by a result.
func (s *swallow) mechanism(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if n := namedOf(fn.Signature.Results().At(i).Type()); n != nil {
			if _, ok := n.Underlying().(*types.Signature); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), Root) {
				return true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil {
				continue
			}
			for k, x := range c.Call.Args {
				if isError(x.Type()) && s.reporter(g, k) {
					return true
				}
			}
		}
	}
	return false
}

// follow looks at every path from a failure on.
func (s *swallow) follow(fn *ssa.Function, start ssa.Instruction, set func(f *facts), isSource func(ssa.Instruction, *facts)) (out []ending) {
	f := &facts{vals: map[ssa.Value]known{}, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
	set(f)
	at := errorIndex(fn.Signature)
	again := s.attempts(start)
	whole := s.walk(fn, start.Block(), flowIndex(start)+1, f, nil, func(i ssa.Instruction, f *facts) bool {
		if isSource != nil {
			isSource(i, f)
		}
		if again[i] {
			f.more = true
		}
		for c := range f.eof {
			if f.vals[c] == yes {
				return true // the input ends, which is no failure
			}
		}
		if s.reported(i, f) {
			return true
		}
		ret, ok := i.(*ssa.Return)
		if !ok {
			return false
		}
		if f.kept {
			out = append(out, ending{ret, "the error is kept in a list; whether that is looked at is not known", false})
			return true
		}
		if at < 0 {
			if s.mechanism(fn) {
				out = append(out, ending{ret, "the function goes on as if nothing had failed", true})
			} else {
				out = append(out, ending{ret, "the function has no error result; whether its caller notices is not known", false})
			}
			return true
		}
		switch s.eval(f, ret.Results[at]) {
		case no:
			out = append(out, ending{ret, "no error is returned", !f.more})
		case perhaps:
			out = append(out, ending{ret, "only the error of another step is returned", !s.fallback(ret.Results[at], start)})
		}
		return true
	})
	if !whole {
		out = append(out, ending{start, "too many paths", false})
	}
	return out
}

// attempts are the calls by which a failed call is tried again or in another
// way: they follow its failure, and are calls of the same function or replace
// its error by theirs.
func (s *swallow) attempts(start ssa.Instruction) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	src, ok := start.(*ssa.Call)
	if !ok {
		return out
	}
	mine := failures(src)
	fn := src.Parent()
	for _, b := range fn.Blocks {
		if !afterFailure(b, mine) {
			continue
		}
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok || c == src || errorIndex(c.Call.Signature()) < 0 {
				continue
			}
			if g := src.Call.StaticCallee(); g != nil && g == c.Call.StaticCallee() {
				out[c] = true
				continue
			}
			theirs := failures(c)
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						continue
					}
					var a, b bool
					for _, e := range phi.Edges {
						a, b = a || mine[e], b || theirs[e]
					}
					if a && b {
						out[c] = true
					}
				}
			}
			for v := range mine {
				for w := range theirs {
					if cell := storedIn(v); cell != nil && cell == storedIn(w) {
						out[c] = true
					}
				}
			}
		}
	}
	return out
}

// failures are the error results of a call.
func failures(c *ssa.Call) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if isError(c.Type()) {
		out[c] = true
		return out
	}
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && isError(e.Type()) {
			out[e] = true
		}
	}
	return out
}

func storedIn(v ssa.Value) ssa.Value {
	for _, u := range *v.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Val == v {
			if _, ok := cellType(st.Addr); ok {
				return st.Addr
			}
		}
	}
	return nil
}

// afterFailure: the block is reached only if one of the errors is not nil.
func afterFailure(b *ssa.BasicBlock, mine map[ssa.Value]bool) bool {
	for ; b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		p := b.Preds[0]
		c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := c.Cond.(*ssa.BinOp)
		if !ok || !(cmp.Op == token.NEQ && p.Succs[0] == b || cmp.Op == token.EQL && p.Succs[1] == b) {
			continue
		}
		for _, x := range []ssa.Value{cmp.X, cmp.Y} {
			if mine[x] {
				return true
			}
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				for v := range mine {
					if cell := storedIn(v); cell != nil && cell == u.X {
						return true
					}
				}
			}
		}
	}
	return false
}

// fallback: the error that is returned may be that of another attempt.
func (s *swallow) fallback(v ssa.Value, start ssa.Instruction) bool {
	src, ok := start.(*ssa.Call)
	if !ok {
		return true
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if walk(e) {
					return true
				}
			}
			return false
		case *ssa.Extract:
			return walk(v.Tuple)
		case *ssa.Call:
			if v == src {
				return true // tried again
			}
			return afterFailure(v.Block(), failures(src))
		case *ssa.UnOp, *ssa.Parameter, *ssa.FreeVar, *ssa.Lookup, *ssa.TypeAssert:
			return true // not known
		}
		return false
	}
	return walk(v)
}

func init() {
	register("C08", func(c *Ctx) {
		c.Rule("typestate of failures: from every call of the loading packages that returns an error, and from every place where an error is made, taken from a message or recovered, each path on which it is not nil must return an error, hand it to a reporter (a function that sends it on), or give up; which values are nil is followed along the path, through variables, deferred functions and wrappers. Trying to match input ahead is no failure")
		p := c.Core
		_, _, all := c.ownFunctions(p)
		s := &swallow{p: p, own: map[*ssa.Function]bool{}, made: map[string]known{}, reports: map[string]int{}, global: map[*ssa.Global]bool{}, tries: map[*ssa.Function]bool{}, moves: map[*ssa.Function]int{}}
		var fns []*ssa.Function
		for _, fn := range all {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == GenPkg {
				continue
			}
			s.own[fn] = true
			fns = append(fns, fn)
		}
		fns = s.loaders(fns)
		followed := 0
		for _, fn := range fns {
			c.Funcs[fn.String()] = true
			names := map[string]int{}
			one := func(at ssa.Instruction, what string, ends []ending) {
				names[what]++
				o := Oblig{Name: fmt.Sprintf("failure of %s in %s #%d", what, fn, names[what]), Verdict: "holds"}
				followed++
				for _, e := range ends {
					msg := fmt.Sprintf("%s: when %s fails, %s (%s)", fn, what, e.msg, p.PosString(flow.Pos(e.at)))
					if e.sure {
						c.Violate(o.Name, p.PosString(flow.Pos(at)), msg)
						o.Verdict, o.Detail = "violated", msg
						break
					}
					if o.Verdict == "holds" {
						o.Verdict, o.Detail = "undecided", msg
					}
				}
				c.Record(o)
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					switch i := i.(type) {
					case *ssa.Call:
						s.source(fn, i, one)
					case *ssa.Go:
						if g := i.Call.StaticCallee(); g != nil && errorIndex(g.Signature) >= 0 {
							one(i, g.Name(), []ending{{i, "its error is lost, as it runs by itself", true}})
						}
					case *ssa.TypeAssert:
						if !i.CommaOk || !isError(i.AssertedType) {
							continue
						}
						ends := s.follow(fn, i, func(f *facts) {}, func(j ssa.Instruction, f *facts) {
							if e, ok := j.(*ssa.Extract); ok && e.Tuple == ssa.Value(i) {
								f.vals[e] = yes
							}
						})
						one(i, "a message that is an error", ends)
					}
				}
			}
		}
		c.Counts["failures followed"] = followed
	})
}

// loaders leaves out functions of the top package that loading does not use.
func (s *swallow) loaders(fns []*ssa.Function) (out []*ssa.Function) {
	used := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if used[fn] || !s.own[fn] {
			return
		}
		used[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, x := range i.Operands(nil) {
					if g, ok := (*x).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != Root || fn.Object() != nil && fn.Object().Exported() && errorIndex(fn.Signature) >= 0 {
			add(fn)
		}
	}
	for _, fn := range fns {
		if used[fn] {
			out = append(out, fn)
		}
	}
	return
}

// source follows the failure of one call.
func (s *swallow) source(fn *ssa.Function, i *ssa.Call, one func(ssa.Instruction, string, []ending)) {
	n, callee := calleeName(i)
	if n == "builtin recover" {
		ends := s.recovered(fn, i)
		one(i, "something that panics", ends)
		return
	}
	at := errorIndex(i.Call.Signature())
	if at < 0 || harmless(&i.Call, n) || fn.Name() == "init" {
		return
	}
	if callee != nil && (s.lookahead(callee) || s.own[callee] && s.summary(callee, make([]known, len(callee.Params))) == no) {
		return // it is a try, or it never fails
	}
	what := n
	if callee != nil {
		what = callee.Name()
		if callee.Pkg != nil && !s.own[callee] {
			what = callee.Pkg.Pkg.Name() + "." + what
		}
	}
	if what == "" {
		what = "an unknown function"
	}
	single := i.Call.Signature().Results().Len() == 1
	used := single && len(*i.Referrers()) > 0
	if !single {
		for _, u := range *i.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == at && len(*e.Referrers()) > 0 {
				used = true
			}
		}
	}
	if single && callee != nil && (n == "errors.Unwrap" || fn.Object() != nil && strings.HasPrefix(n, "errors.")) && !makers(n) {
		return
	}
	ends := s.follow(fn, i, func(f *facts) {
		if single {
			f.vals[i] = yes
		}
	}, func(j ssa.Instruction, f *facts) {
		if e, ok := j.(*ssa.Extract); ok && e.Tuple == ssa.Value(i) && e.Index == at {
			f.vals[e] = yes
		}
	})
	if callee != nil && s.own[callee] && s.reads(callee, map[*ssa.Function]bool{}) && !s.advances(callee) {
		for k := range ends { // it may have been a try
			ends[k].sure = false
		}
	}
	if !used && len(ends) > 0 {
		ends = []ending{{i, "nothing looks at its error", !harmlessCallee(callee, s)}}
	}
	one(i, what, ends)
}

// harmlessCallee: the function never returns an error, or may have tried only.
func harmlessCallee(fn *ssa.Function, s *swallow) bool {
	if fn == nil || !s.own[fn] {
		return false
	}
	if s.summary(fn, make([]known, len(fn.Params))) == no {
		return true
	}
	return s.reads(fn, map[*ssa.Function]bool{}) && !s.advances(fn)
}

// recovered: a function that recovers from a panic must set an error.
func (s *swallow) recovered(fn *ssa.Function, i *ssa.Call) (out []ending) {
	f := &facts{vals: map[ssa.Value]known{i: yes}, held: map[*ssa.Alloc]bool{}, eof: map[ssa.Value]bool{}}
	whole := s.walk(fn, i.Block(), flowIndex(i)+1, f, nil, func(j ssa.Instruction, f *facts) bool {
		if s.reported(j, f) {
			return true
		}
		ret, ok := j.(*ssa.Return)
		if !ok {
			return false
		}
		best := no
		for _, fv := range fn.FreeVars {
			if t, ok := cellType(fv); ok && isError(t) {
				switch f.vals[fv] {
				case yes:
					best = yes
				case perhaps:
					if _, set := f.vals[fv]; set && best == no {
						best = perhaps
					}
				}
			}
		}
		for k, x := range ret.Results {
			_ = k
			if isError(x.Type()) && s.eval(f, x) == yes {
				best = yes
			}
		}
		switch best {
		case no:
			out = append(out, ending{ret, "the function goes on as if nothing had failed", true})
		case perhaps:
			out = append(out, ending{ret, "it is not known whether an error is set", false})
		}
		return true
	})
	if !whole {
		out = append(out, ending{i, "too many paths", false})
	}
	return out
}
