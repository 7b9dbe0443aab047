package ai

import "go/types"

// errResult replaces the state of a result that reports an error by the state
// at entry: what a failed call left half done is not tracked.
func (e *Engine) errResult(act *Activation, st *State, ret Value) (*State, Value) {
	res := act.Fn.Signature.Results()
	n := res.Len()
	if e.KeepErrState || n == 0 || act.entry == nil || !isErrorType(res.At(n-1).Type()) {
		return st, ret
	}
	var last Value = ret
	tup, isTuple := ret.(Tuple)
	if n > 1 {
		if !isTuple {
			return st, ret
		}
		last = st.resolve(tup[n-1])
	} else {
		last = st.resolve(ret)
	}
	switch x := last.(type) {
	case Unk:
		if a := st.info(x.ID); a == nil || !a.NonNil {
			return st, ret
		}
	case Iface:
	default:
		return st, ret
	}
	ns := act.entry.clone()
	ns.mon = st.mon
	ns.tr = st.tr
	keep := func(v Value) bool {
		if e.plainConst(v) {
			return true
		}
		switch y := v.(type) {
		case Ptr:
			return e.isBase(y.Obj)
		case Iface:
			p, ok := y.V.(Ptr)
			return ok && e.isBase(p.Obj)
		}
		return false
	}
	conv := func(v Value, t types.Type) Value {
		v = st.resolve(v)
		if keep(v) {
			return v
		}
		if isErrorType(t) {
			return e.newErr(ns, "")
		}
		return Fresh{T: t}
	}
	if n == 1 {
		return ns, conv(last, res.At(0).Type())
	}
	out := make(Tuple, n)
	for i := range out {
		out[i] = conv(tup[i], res.At(i).Type())
	}
	out[n-1] = conv(last, res.At(n-1).Type())
	return ns, out
}

// limitDepth cuts recursive structures the call has built: below the second
// object of a type on a path, content is forgotten.
func (e *Engine) limitDepth(act *Activation, st *State, ret Value) Value {
	done := map[ID]int{}
	fromRet := false
	var walk func(v Value, path []types.Type) Value
	var visit func(id ID, path []types.Type)
	srcInput := false
	onPath := func(t types.Type, path []types.Type) int {
		n := 0
		for _, p := range path {
			if types.Identical(p, t) {
				n++
			}
		}
		return n
	}
	walk = func(v Value, path []types.Type) Value {
		return mapValue(v, func(x Value) Value {
			x = st.resolve(x)
			switch p := x.(type) {
			case Ptr:
				if e.isBase(p.Obj) {
					return x
				}
				o := st.heap[p.Obj]
				if o == nil || o.Kind != OCell || o.T == nil {
					return x
				}
				if _, named := o.T.(*types.Named); named && p.Path == "" && !act.entrySet[p.Obj] && o.Name == "" && onPath(o.T, path) >= e.DepthLimit {
					return Fresh{T: types.NewPointer(o.T), NonNil: true}
				}
				if p.Path == "" && e.Forget && len(path) > 0 && !fromRet && (srcInput || o.Input) && !act.entrySet[p.Obj] && o.Name == "" && !e.tracked(st, p) {
					return Fresh{T: types.NewPointer(o.T), NonNil: true}
				}
				visit(p.Obj, path)
			case Slice:
				visit(p.Obj, path)
			case Map:
				visit(p.Obj, path)
			}
			return x
		})
	}
	visit = func(id ID, path []types.Type) {
		if e.isBase(id) {
			return
		}
		o := st.heap[id]
		if o == nil {
			return
		}
		if d, ok := done[id]; ok && d <= len(path) {
			return
		}
		done[id] = len(path)
		if o.Kind == OCell {
			if _, named := o.T.(*types.Named); named {
				path = append(append([]types.Type(nil), path...), o.T)
			}
		}
		n := mapObj(o, func(x Value) Value { return x }, nil)
		save := srcInput
		srcInput = o.Input
		defer func() { srcInput = save }()
		if n.V != nil {
			n.V = walk(n.V, path)
		}
		for i := range n.Segs {
			if n.Segs[i].V != nil {
				n.Segs[i].V = walk(n.Segs[i].V, path)
			}
		}
		for i := range n.Ents {
			if n.Ents[i].V != nil {
				n.Ents[i].V = walk(n.Ents[i].V, path)
			}
		}
		if n.Rest != nil {
			n.Rest = walk(n.Rest, path)
		}
		st.heap[id] = n
	}
	for _, id := range act.entryIDs {
		if e.decl(id).Kind == 0 {
			visit(id, nil)
		} else if a := st.info(id); a != nil && a.Bind != nil && e.decl(id).Kind == 'u' {
			walk(a.Bind, nil)
		}
	}
	if ret == nil {
		return nil
	}
	fromRet = true
	return walk(ret, nil)
}

// forget undoes what a call merely learned about content nobody named.
func (e *Engine) forget(act *Activation, st *State, ret Value) {
	if !e.Forget || act.entry == nil {
		return
	}
	used := map[ID]bool{}
	if ret != nil {
		mapValue(ret, func(v Value) Value {
			v = st.resolve(v)
			e.atomsOf(v, func(id ID) { used[id] = true })
			return v
		})
	}
	for _, id := range act.entryIDs {
		d := e.decl(id)
		if d.Name != "" {
			continue
		}
		if d.Kind != 0 {
			if a := st.info(id); a != nil && a.Bind != nil && d.Kind != 'u' && d.Kind != 's' {
				continue
			}
			if d.Kind == 'b' || used[id] || d.Kind == 'i' && d.T == types.Typ[types.Rune] && e.assoc[id].Kind == "" {
				// characters are remembered, the end of a range loop depends on them
				continue
			}
			a, had := act.entry.at[id]
			cur := st.info(id)
			if d.Kind == 'u' {
				// keep the binding, it may be referred to
				continue
			}
			if cur != nil && cur.Bind != nil {
				continue
			}
			if had {
				st.at[id] = a
			} else {
				delete(st.at, id)
			}
			continue
		}
		o, eo := st.heap[id], act.entry.heap[id]
		if o == nil || eo == nil || o == eo || o.Kind != OCell || o.V == nil {
			continue
		}
		v := e.forgetVal(st, eo.V, o.V, used)
		n := *o
		n.V = v
		st.heap[id] = &n
	}
}

// forgetVal restores unknown parts that are still unknown.
func (e *Engine) forgetVal(st *State, old, cur Value, used map[ID]bool) Value {
	switch o := old.(type) {
	case Fresh:
		c := st.resolve(cur)
		ok := true
		switch x := c.(type) {
		case Str, Int, BAtom, Unk:
			n := 0
			e.atomsOf(x, func(id ID) {
				n++
				if e.decl(id).Name != "" || used[id] {
					ok = false
				}
			})
			if ok && n > 0 {
				if u, isU := x.(Unk); isU {
					a := st.info(u.ID)
					o.NonNil = o.NonNil || a != nil && a.NonNil
					if a != nil && a.Tmpl != nil {
						o.Tmpl = a.Tmpl
					}
				}
				return Fresh{T: o.T, NonNil: o.NonNil, Deep: o.Deep, Tmpl: o.Tmpl}
			}
		}
		return cur
	case Struct:
		c, ok := cur.(Struct)
		if !ok || len(c.F) != len(o.F) {
			return cur
		}
		n := Struct{c.T, append([]Value(nil), c.F...)}
		for i := range n.F {
			n.F[i] = e.forgetVal(st, o.F[i], c.F[i], used)
		}
		return n
	}
	return cur
}

func (e *Engine) atomsOf(v Value, f func(ID)) {
	switch x := v.(type) {
	case Str:
		for _, p := range x.P {
			if p.Atom != 0 {
				f(p.Atom)
			}
		}
	case Int:
		for _, t := range x.T {
			f(t.ID)
		}
	case BAtom:
		f(x.ID)
	case Unk:
		f(x.ID)
	}
}

// widenRet forgets the exact strings a call returns once there are many.
func (e *Engine) widenRet(act *Activation, st *State, ret Value) Value {
	if ret == nil || len(act.Results) <= e.WidenAt {
		return ret
	}
	w := func(v Value) Value {
		if s, ok := v.(Str); ok && !e.tracked(st, s) {
			return e.inst(st, types.Typ[types.String], false)
		}
		return v
	}
	if t, ok := ret.(Tuple); ok {
		out := make(Tuple, len(t))
		for i, v := range t {
			out[i] = w(v)
		}
		return out
	}
	return w(ret)
}

// limitEntry cuts recursive structures reachable from the arguments of a call,
// except the objects that are passed themselves.
func (e *Engine) limitEntry(st *State, args, binds []Value) *State {
	if e.initMode || e.DepthLimit == 0 {
		return st
	}
	prot := map[ID]bool{}
	for _, l := range [][]Value{args, binds} {
		for _, a := range l {
			if p, ok := st.resolve(a).(Ptr); ok {
				prot[p.Obj] = true
			}
		}
	}
	srcInput := false
	var cut map[ID]*Obj
	done := map[ID]int{}
	var visit func(id ID, path []types.Type)
	walk := func(v Value, path []types.Type) (Value, bool) {
		changed := false
		n := mapValue(v, func(x Value) Value {
			x = st.resolve(x)
			switch p := x.(type) {
			case Ptr:
				if e.isBase(p.Obj) {
					return x
				}
				o := st.heap[p.Obj]
				if o == nil || o.Kind != OCell || o.T == nil {
					return x
				}
				if _, named := o.T.(*types.Named); named && p.Path == "" && o.Name == "" {
					n := 0
					for _, q := range path {
						if types.Identical(q, o.T) {
							n++
						}
					}
					if n >= e.DepthLimit || e.Forget && len(path) > 0 && (srcInput || o.Input) && !prot[p.Obj] && !e.tracked(st, p) {
						changed = true
						return Fresh{T: types.NewPointer(o.T), NonNil: true}
					}
				}
				visit(p.Obj, path)
			case Slice:
				visit(p.Obj, path)
			case Map:
				visit(p.Obj, path)
			}
			return x
		})
		return n, changed
	}
	visit = func(id ID, path []types.Type) {
		if e.isBase(id) {
			return
		}
		o := st.heap[id]
		if c, ok := cut[id]; ok {
			o = c
		}
		if o == nil {
			return
		}
		if d, ok := done[id]; ok && d <= len(path) {
			return
		}
		done[id] = len(path)
		if o.Kind == OCell {
			if _, named := o.T.(*types.Named); named {
				path = append(append([]types.Type(nil), path...), o.T)
			}
		}
		save := srcInput
		srcInput = o.Input
		defer func() { srcInput = save }()
		n := *o
		any := false
		do := func(v Value) Value {
			if v == nil {
				return nil
			}
			w, ch := walk(v, path)
			if !ch {
				return v
			}
			any = true
			return w
		}
		n.V = do(o.V)
		n.Segs = append([]Seg(nil), o.Segs...)
		for i := range n.Segs {
			n.Segs[i].V = do(n.Segs[i].V)
		}
		n.Ents = append([]MapEnt(nil), o.Ents...)
		for i := range n.Ents {
			n.Ents[i].V = do(n.Ents[i].V)
		}
		n.Rest = do(o.Rest)
		if any {
			if cut == nil {
				cut = map[ID]*Obj{}
			}
			cut[id] = &n
		}
	}
	for _, l := range [][]Value{args, binds} {
		for _, a := range l {
			walk(a, nil)
		}
	}
	if cut == nil {
		return st
	}
	ns := st.clone()
	for id, o := range cut {
		ns.heap[id] = o
	}
	return ns
}

// Summarise makes calls of the named functions opaque: they may succeed or
// fail, and nothing is known about what they do to anonymous content.
func (e *Engine) Summarise(names ...string) {
	if e.summarised == nil {
		e.summarised = map[string]bool{}
	}
	for _, n := range names {
		e.summarised[n] = true
		e.Models[n] = func(c *CallCtx) { e.havoc(c) }
	}
}

// blur forgets, at loop heads, what was learned about anonymous parts of the
// input that nothing else refers to.
func (e *Engine) blur(st *State, live []bool) {
	if !e.Forget || e.initMode {
		return
	}
	refs := map[ID]int{}
	count := func(v Value) {
		if v == nil {
			return
		}
		mapValue(v, func(x Value) Value {
			switch y := x.(type) {
			case Ptr:
				refs[y.Obj]++
			case Slice:
				refs[y.Obj]++
			case Map:
				refs[y.Obj]++
			case Chan:
				refs[y.Obj]++
			case Iter:
				refs[y.Obj]++
			case Zone:
				refs[y.Obj]++
			case Int:
				if y.Src != 0 {
					refs[y.Src]++
				}
			}
			e.atomsOf(x, func(id ID) { refs[id]++ })
			return x
		})
	}
	for i, v := range st.regs {
		if v != nil && (live == nil || live[i]) {
			count(st.deepResolve(v))
		}
	}
	for i := range st.defers {
		for _, a := range st.defers[i].args {
			count(a)
		}
		count(st.defers[i].fn)
	}
	for _, o := range st.heap {
		count(o.V)
		count(o.Over)
		count(o.Pos)
		for _, s := range o.Segs {
			count(s.V)
		}
		for _, en := range o.Ents {
			count(en.K)
			count(en.V)
		}
		count(o.Rest)
		count(o.RestK)
	}
	// lengths of input sequences, unless something refers to a position in
	// one of the sequences concerned
	held := map[ID]bool{}
	hold := func(v Value) {
		if v == nil {
			return
		}
		mapValue(v, func(x Value) Value {
			switch y := x.(type) {
			case Zone:
				held[y.Obj] = true
			case Int:
				held[y.Src] = true
			}
			return x
		})
	}
	for i, v := range st.regs {
		if v != nil && (live == nil || live[i]) {
			hold(st.deepResolve(v))
		}
	}
	heldSeg := map[ID]bool{} // slices of one array share segments
	for id, o := range st.heap {
		if o.Kind == OSeq && held[id] {
			for _, sg := range o.Segs {
				heldSeg[sg.UID] = true
			}
		}
	}
	for _, o := range st.heap {
		if o.Kind != OSeq {
			continue
		}
		free := true
		for _, sg := range o.Segs {
			if refs[sg.UID] > 0 || heldSeg[sg.UID] {
				free = false
			}
		}
		for _, sg := range o.Segs {
			if sg.Star && e.decl(sg.UID).Loose {
				if a := st.at[sg.UID]; a != nil && a.R != nil && (free || rHull(a.R).Lo > 0) {
					st.at[sg.UID] = &AInfo{R: []Rng{{0, MaxI}}}
				}
			}
		}
	}
	for id, o := range st.heap {
		if o.Kind != OCell || !o.Input {
			continue
		}
		v, ch := e.blurVal(st, o.V, refs)
		if ch {
			n := *o
			n.V = v
			st.heap[id] = &n
		}
	}
}

func (e *Engine) blurVal(st *State, v Value, refs map[ID]int) (Value, bool) {
	switch x := v.(type) {
	case Struct:
		var n *Struct
		for i := range x.F {
			f, ch := e.blurVal(st, x.F[i], refs)
			if ch {
				if fr, ok := f.(Fresh); ok && fr.T == nil {
					fr.T = x.T.Underlying().(*types.Struct).Field(i).Type()
					f = fr
				}
				if n == nil {
					n = &Struct{x.T, append([]Value(nil), x.F...)}
				}
				n.F[i] = f
			}
		}
		if n != nil {
			return *n, true
		}
	case Slice:
		o := st.heap[x.Obj]
		if o == nil || !o.Input || o.Name != "" || o.V != nil || refs[x.Obj] > 1 || e.isBase(x.Obj) || len(o.Segs) == 0 {
			return v, false
		}
		deep := true
		for _, sg := range o.Segs {
			f, ok := sg.V.(Fresh)
			if !ok || !sg.Star || refs[sg.UID] > 0 || len(f.Not) > 0 || f.Tmpl != nil || e.decl(sg.UID).Name != "" {
				return v, false
			}
			deep = deep && f.Deep && f.NonNil
		}
		return Fresh{Deep: deep}, true
	case Str, Int, BAtom, Unk:
		n, ok, nn, deep := 0, true, false, false
		var tm *Tmpl
		e.atomsOf(x, func(id ID) {
			n++
			if e.decl(id).Name != "" || refs[id] > 1 {
				ok = false
			}
			if a := st.info(id); a != nil {
				if a.Bind != nil {
					ok = false
				}
				nn, deep, tm = a.NonNil, a.Deep, a.Tmpl
			}
			if as, isA := e.assoc[id]; isA && e.decl(as.Atom).Name != "" {
				ok = false
			}
		})
		if u, isU := x.(Unk); isU && ok {
			return Fresh{T: u.T, NonNil: nn, Deep: deep, Tmpl: tm}, true
		}
		if ok && n > 0 {
			return Fresh{}, true
		}
	}
	return v, false
}
