package flow

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *Analysis) call(in *Inst, i ssa.CallInstruction) {
	c := i.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(in, i, b.Name(), c.Args)
		return
	}
	if c.IsInvoke() {
		a.each(a.reg(in, c.Value, ""), func(l Loc) {
			t := typeAt(l)
			if t == nil || l.O.Kind == Func {
				return
			}
			recv := t
			if l.O.Kind != Box {
				recv = types.NewPointer(t)
			}
			fn := a.methodOf(recv, c.Method)
			if fn == nil {
				return
			}
			a.direct(in, i, fn, nil, &l)
		})
		a.library(in, i, nil, c.Method.FullName(), c.Signature())
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		var clo *Loc
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo = &Loc{a.alloc(in, mc, Func, mc.Type(), ""), ""}
		}
		a.direct(in, i, fn, clo, nil)
		return
	}
	a.each(a.reg(in, c.Value, ""), func(l Loc) {
		if l.O.Kind == Func && l.O.Fn != nil {
			a.direct(in, i, l.O.Fn, &l, nil)
		}
	})
}

func (a *Analysis) methodOf(t types.Type, m *types.Func) *ssa.Function {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	sel := a.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return a.Prog.MethodValue(sel)
}

func (a *Analysis) context(in *Inst, i ssa.Instruction) []ssa.Instruction {
	s := append([]ssa.Instruction{i}, in.Sites...)
	if len(s) > a.K {
		s = s[:a.K]
	}
	return s
}

// direct calls a function; clo is the closure, recv the dynamic receiver.
func (a *Analysis) direct(in *Inst, i ssa.CallInstruction, fn *ssa.Function, clo, recv *Loc) {
	c := i.Common()
	if !a.source(fn) {
		if recv == nil {
			a.library(in, i, fn, fn.String(), fn.Signature)
		}
		return
	}
	t := a.enter(in, i, fn, in.Phase, clo)
	if _, ok := i.(*ssa.Go); ok {
		a.spawn(in, i, t)
	}
	params := fn.Params
	if recv != nil {
		p := params[0]
		if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr {
			a.add(a.reg(t, p, ""), *recv)
		} else {
			for _, x := range Leaves(p.Type()) {
				a.edge(a.cell(Loc{recv.O, recv.Path + x.Path}), a.reg(t, p, x.Path))
			}
		}
		params = params[1:]
	}
	for n, p := range params {
		if n >= len(c.Args) {
			break
		}
		for _, x := range Leaves(p.Type()) {
			a.edge(a.reg(in, c.Args[n], x.Path), a.reg(t, p, x.Path))
		}
	}
	if v, ok := i.(ssa.Value); ok {
		a.results(in, v, t)
	}
}

// source says that the body of the function is analysed. Synthetic wrappers
// belong to what they wrap.
func (a *Analysis) source(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if a.IsSrc(fn) {
		return true
	}
	return fn.Pkg == nil && fn.Synthetic != "" && fn.Origin() == nil
}

func (a *Analysis) enter(in *Inst, i ssa.Instruction, fn *ssa.Function, ph Phase, clo *Loc) *Inst {
	t := a.inst(fn, ph, a.context(in, i))
	key := fmt.Sprintf("%d %d %d", in.id, a.idOf(i), t.id)
	if !a.calls[key] {
		a.calls[key] = true
		in.Callees[i] = append(in.Callees[i], t)
		t.Callers[in] = true
	}
	if clo != nil {
		for n, fv := range fn.FreeVars {
			for _, x := range Leaves(fv.Type()) {
				a.edge(a.cell(Loc{clo.O, fmt.Sprintf("#%d%s", n, x.Path)}), a.reg(t, fv, x.Path))
			}
		}
	}
	return t
}

func (a *Analysis) spawn(in *Inst, i ssa.Instruction, t *Inst) {
	for _, s := range a.Spawns {
		if s.In == in && s.At == i && s.Target == t {
			return
		}
	}
	a.Spawns = append(a.Spawns, Spawn{in, i, t})
}

// results copies what the callee returns.
func (a *Analysis) results(in *Inst, v ssa.Value, t *Inst) {
	res := t.Fn.Signature.Results()
	for _, blk := range t.Fn.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for k, x := range r.Results {
			dp := ""
			if res.Len() > 1 {
				dp = fmt.Sprintf("#%d", k)
			}
			for _, l := range Leaves(x.Type()) {
				a.edge(a.reg(t, x, l.Path), a.reg(in, v, dp+l.Path))
			}
		}
	}
}

func (a *Analysis) builtin(in *Inst, i ssa.CallInstruction, name string, args []ssa.Value) {
	v, _ := i.(ssa.Value)
	switch name {
	case "append":
		dst := args[0]
		e := a.effect(in, i, "append", a.reg(in, dst, ""), "[]", nil)
		e.What = "append"
		o := a.alloc(in, v, Alloc, pointee(v.Type()), "")
		a.add(a.reg(in, v, ""), Loc{o, ""})
		a.edge(a.reg(in, dst, ""), a.reg(in, v, ""))
		if sl, ok := args[1].Type().Underlying().(*types.Slice); ok {
			tmp := func(p string) *node { return a.reg(in, v, "+"+p) }
			a.load(a.reg(in, args[1], ""), "[]", sl.Elem(), tmp)
			a.load(a.reg(in, dst, ""), "[]", sl.Elem(), tmp)
			a.store(a.reg(in, v, ""), "[]", sl.Elem(), tmp)
		}
	case "copy":
		e := a.effect(in, i, "copy", a.reg(in, args[0], ""), "[]", nil)
		e.Sure = true
		if sl, ok := args[1].Type().Underlying().(*types.Slice); ok && v != nil {
			tmp := func(p string) *node { return a.reg(in, v, "+"+p) }
			a.load(a.reg(in, args[1], ""), "[]", sl.Elem(), tmp)
			a.store(a.reg(in, args[0], ""), "[]", sl.Elem(), tmp)
		}
	case "delete":
		e := a.effect(in, i, "delete", a.reg(in, args[0], ""), "{v}", nil)
		e.Sure = true
	case "clear":
		e := a.effect(in, i, "clear", a.reg(in, args[0], ""), "", nil)
		e.Sure = true
	case "ssa:wrapnilchk":
		if v != nil {
			a.copyReg(in, v, "", args[0], "", v.Type())
		}
	}
}

// Writers are library functions that write to what an argument refers to.
var writers = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"encoding/json.Unmarshal": {1}, "(*encoding/json.Decoder).Decode": {0, 1}, "(*encoding/json.Decoder).DisallowUnknownFields": {0},
	"(*encoding/json.Decoder).UseNumber": {0},
	"io.ReadFull":                        {1}, "io.ReadAtLeast": {1},
	"(*sync.Map).Store": {0}, "(*sync.Map).LoadOrStore": {0}, "(*sync.Map).LoadAndDelete": {0}, "(*sync.Map).Delete": {0}, "(*sync.Map).Swap": {0},
	"(*sync.Map).CompareAndSwap": {0}, "(*sync.Map).CompareAndDelete": {0}, "(*sync.Map).Clear": {0},
	"(*sync.Pool).Put": {0}, "(*sync/atomic.Value).Store": {0}, "(*sync/atomic.Value).Swap": {0}, "(*sync/atomic.Value).CompareAndSwap": {0},
	"(*regexp.Regexp).Longest": {0}, "(*regexp.Regexp).UnmarshalText": {0},
	"container/heap.Push": {0}, "container/heap.Pop": {0}, "container/heap.Init": {0}, "container/heap.Fix": {0},
	"(*bufio.Reader).Read": {0, 1},
}

// writerPrefixes: every method of these types that is listed writes to its receiver.
var writerPrefixes = []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*container/list.List).", "(*math/rand.Rand).", "(*bufio.Writer).", "(*bufio.Scanner).", "(*text/tabwriter.Writer)."}

var readers = map[string]bool{"String": true, "Len": true, "Cap": true, "Bytes": true, "Front": true, "Back": true, "Available": true, "Text": true, "Err": true}

// safe: methods of these library types can be called at any time on a shared value.
var safe = []string{"(*regexp.Regexp).", "(*strings.Replacer).", "(*text/template.Template).", "(*html/template.Template).", "(*time.Location).", "(*sync.Mutex).", "(*sync.RWMutex).", "(*sync.WaitGroup).", "(*sync.Once).",
	"(*sync.Map).Load", "(*sync.Map).Range", "(*sync.Pool).Get", "(*log.Logger).", "(*os.File).", "(*net/http.Client).", "(*math/big.Int).", "(*time.Time).", "(*reflect.rtype).", "(*embed.FS).", "(embed.FS)", "(*golang.org/x/sync/errgroup.Group).",
	"(*runtime.Func).", "(*flag.FlagSet).", "(*errors.errorString).", "(*sync.Cond)."}

func atomicWrite(name string) bool {
	for _, p := range []string{"sync/atomic.Add", "sync/atomic.Store", "sync/atomic.Swap", "sync/atomic.CompareAndSwap", "sync/atomic.And", "sync/atomic.Or"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.") {
		return !strings.HasSuffix(name, ").Load")
	}
	return false
}

// library is a call of a function whose body is not analysed (nil: any
// implementation of a method).
func (a *Analysis) library(in *Inst, i ssa.CallInstruction, fn *ssa.Function, name string, sig *types.Signature) {
	c := i.Common()
	if fn != nil && fn.Origin() != nil {
		name = fn.Origin().String()
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	wrote := map[int]bool{}
	write := func(k int) {
		if k < len(args) && !wrote[k] {
			wrote[k] = true
			n := a.reg(in, args[k], "")
			if isIface(args[k].Type()) { // what the interface holds
				m := newNode()
				a.each(n, func(l Loc) {
					if l.O.Kind == Box && l.Path == "" {
						a.edge(a.cell(l), m)
						return
					}
					a.add(m, l)
				})
				n = m
			}
			e := a.effect(in, i, "call of "+name, n, "", nil)
			e.Sure, e.Lib = true, true
		}
	}
	for _, k := range writers[name] {
		write(k)
	}
	if atomicWrite(name) {
		write(0)
	}
	isSafe := false
	for _, p := range safe {
		isSafe = isSafe || strings.HasPrefix(name, p)
	}
	for _, p := range writerPrefixes {
		if strings.HasPrefix(name, p) {
			if !readers[name[len(p):]] {
				write(0)
			}
			isSafe = true
		}
	}
	if fn != nil && fn.Signature.Recv() != nil && !wrote[0] && !isSafe {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			a.Unknown = append(a.Unknown, &Effect{In: in, At: i, What: "call of " + name, n: a.reg(in, args[0], ""), Lib: true})
		}
	}
	if name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode" {
		// fills in fresh memory
		a.each(a.reg(in, args[1], ""), func(l Loc) {
			if t := typeAt(l); t != nil && !isIface(t) {
				a.fresh(in, i.(ssa.Instruction), l, t, 0)
			}
		})
	}
	// functions passed are called
	for _, x := range args {
		ph := in.Phase
		if strings.HasPrefix(name, "(*sync.Once).Do") || strings.HasPrefix(name, "sync.OnceValue") || strings.HasPrefix(name, "sync.OnceFunc") {
			if ph == Run {
				ph = Once
			}
		}
		if _, ok := x.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		a.each(a.reg(in, x, ""), func(l Loc) {
			if l.O.Kind != Func || l.O.Fn == nil || !a.source(l.O.Fn) {
				return
			}
			t := a.enter(in, i, l.O.Fn, ph, &l)
			if strings.HasSuffix(name, ".Go") || strings.HasSuffix(name, ".TryGo") || name == "time.AfterFunc" {
				a.spawn(in, i, t)
			}
			for _, p := range t.Fn.Params {
				a.external(a.sub(t, p), p.Type())
				for _, y := range args { // elements of what is passed
					if sl, ok := y.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), p.Type()) {
						a.load(a.reg(in, y, ""), "[]", p.Type(), a.sub(t, p))
					}
				}
			}
		})
	}
	// what is returned is new, or one of the arguments
	v, ok := i.(ssa.Value)
	if !ok {
		return
	}
	res := sig.Results()
	for k := 0; k < res.Len(); k++ {
		dp := ""
		if res.Len() > 1 {
			dp = fmt.Sprintf("#%d", k)
		}
		for _, l := range Leaves(res.At(k).Type()) {
			n := a.reg(in, v, dp+l.Path)
			if e := pointee(l.T); e != nil {
				o := a.alloc(in, v, Lib, e, dp+l.Path)
				a.add(n, Loc{o, ""})
				a.inside(in, v, o, l.T, dp+l.Path, 0)
			}
			for _, x := range args {
				if types.Identical(x.Type(), l.T) || isIface(l.T) && isIface(x.Type()) && !isError(l.T) {
					a.edge(a.reg(in, x, ""), n)
				}
			}
			if name == "(*sync.Pool).Get" || name == "(*sync.Map).Load" || strings.HasPrefix(name, "(*sync/atomic.") {
				// what is kept in a shared container is shared
				a.each(a.reg(in, args[0], ""), func(x Loc) {
					if x.O.Shared() {
						a.add(n, Loc{x.O, x.Path + "{kept}"})
					}
				})
			}
		}
	}
}

func isError(t types.Type) bool { return t.String() == "error" }

// inside gives memory made by a library contents of its own.
func (a *Analysis) inside(in *Inst, v ssa.Value, o *Obj, t types.Type, tag string, depth int) {
	if depth > 2 {
		return
	}
	var e types.Type
	suf := ""
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		e = u.Elem()
		if n, ok := types.Unalias(e).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "webrpc") {
			return
		}
	case *types.Slice:
		e, suf = u.Elem(), "[]"
	case *types.Map:
		e, suf = u.Elem(), "{v}"
	}
	if e == nil {
		return
	}
	for _, l := range Leaves(e) {
		if p := pointee(l.T); p != nil {
			q := a.alloc(in, v, Lib, p, tag+suf+l.Path)
			a.add(a.cell(Loc{o, suf + l.Path}), Loc{q, ""})
			a.inside(in, v, q, l.T, tag+suf+l.Path, depth+1)
		}
	}
}

// fresh fills a place with new memory, as decoding does.
func (a *Analysis) fresh(in *Inst, i ssa.Instruction, l Loc, t types.Type, depth int) {
	v, ok := i.(ssa.Value)
	if !ok || depth > 6 {
		return
	}
	for _, x := range Leaves(t) {
		p := pointee(x.T)
		if p == nil {
			continue
		}
		o := a.newObj(fmt.Sprintf("decoded %d %d %s", in.id, a.idOf(v), x.T.String()), &Obj{Kind: Lib, Site: v, In: in, T: p})
		a.add(a.cell(Loc{l.O, l.Path + x.Path}), Loc{o, ""})
		key := fmt.Sprintf("filled %d", o.id)
		if a.calls[key] {
			continue
		}
		a.calls[key] = true
		switch u := x.T.Underlying().(type) {
		case *types.Pointer:
			a.fresh(in, i, Loc{o, ""}, u.Elem(), depth+1)
		case *types.Slice:
			a.fresh(in, i, Loc{o, "[]"}, u.Elem(), depth+1)
		case *types.Map:
			a.fresh(in, i, Loc{o, "{v}"}, u.Elem(), depth+1)
		}
	}
}
