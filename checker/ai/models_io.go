package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// hashType stands for the concrete type behind a hash.Hash; a value of it is a
// pointer to a cell with the text written so far.
var hashType = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("hash/model", "model"), "hash", nil), types.Typ[types.String], nil))

// anyMethod finds a method of a dynamic type by name.
func (p *Program) anyMethod(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// writeTo writes text to an io.Writer and passes the error on.
func (e *Engine) writeTo(c *CallCtx, st *State, w Value, text Str, k func(*State, Value)) {
	i, ok := st.resolve(w).(Iface)
	if !ok {
		// not one of the program's own buffers
		bad := st.clone()
		k(bad, e.newErr(bad, "Write"))
		k(st, Nil{})
		return
	}
	if i.T == types.Type(hashType) {
		p := i.V.(Ptr)
		for _, r := range e.load(st, p) {
			old, _ := r.s.resolve(r.v).(Str)
			n := catStr(old, text)
			if tooLong(n) {
				n = c.freshStr(r.s)
			}
			for _, o := range e.store(c.Act, r.s, p, r.s.normStr(n), c.Pos, c.Act.Fn) {
				k(o, Nil{})
			}
		}
		return
	}
	if i.T.String() == "*os.File" {
		k(st, Unk{e.newAtom('u', types.Universe.Lookup("error").Type()), types.Universe.Lookup("error").Type()})
		return
	}
	fn := e.P.anyMethod(i.T, "Write")
	if fn == nil {
		st.SetMon("unmodelled", "write to "+i.T.String())
		k(st, Nil{})
		return
	}
	e.callFn(c.Act, st, fn, []Value{i.V, e.strSeq(st, types.Typ[types.Byte], text)}, nil, c.Pos, func(s *State, r Value) {
		if t, ok := r.(Tuple); ok && len(t) == 2 {
			k(s, s.resolve(t[1]))
			return
		}
		k(s, Nil{})
	})
}

// JSONText is the JSON text of the object a value refers to: one atom per
// object; a local copy of a whole input object has the text of the original.
func (e *Engine) jsonText(c *CallCtx, st *State, v Value) Str {
	v = st.resolve(v)
	if i, ok := v.(Iface); ok {
		v = st.resolve(i.V)
	}
	if e.Hooks.OnJSON != nil {
		e.Hooks.OnJSON(e, st, v)
	}
	var id ID
	var cell Value
	switch x := v.(type) {
	case Ptr:
		if x.Path == "" {
			id = x.Obj
			if o := e.obj(st, id); o != nil && o.Kind == OCell {
				cell = st.deepResolve(o.V)
			}
		}
	case Struct:
		cell = st.deepResolve(x)
	}
	if cell != nil && (id == 0 || !e.obj(st, id).Input) {
		id = 0
		for k, o := range st.heap {
			if o.Input && o.Kind == OCell && o.Name != "" && e.sameVal(st, o.V, cell) {
				id = k
			}
		}
	}
	if id == 0 || !e.obj(st, id).Input {
		if x, ok := cell.(Struct); ok && e.P.isSrcType(x.T) {
			st.SetMon("json", "the JSON of another "+x.T.String())
		} else {
			st.SetMon("unmodelled", c.Name)
		}
		return c.freshStr(st)
	}
	k := assocKey{"json", id, 0, ""}
	a, ok := e.assocID[k]
	if !ok {
		n := ""
		if o := e.obj(st, id); o.Name != "" {
			n = "JSON of " + o.Name
		}
		a = e.newID(AtomDecl{Kind: 's', T: types.Typ[types.String], Name: n})
		e.assocID[k] = a
	}
	if _, known := st.at[a]; !known {
		st.at[a] = &AInfo{Lits: []Lit{{P: PExact(""), Neg: true}}}
	}
	return Str{P: []SPart{{Atom: a}}}
}

// JSONOf is the text jsonText gives for an input object.
func (b *B) JSONOf(p Ptr) (Str, bool) {
	a, ok := b.E.assocID[assocKey{"json", p.Obj, 0, ""}]
	return Str{P: []SPart{{Atom: a}}}, ok
}

// DerivedOf is the string derived from another one, if there is one.
func (b *B) DerivedOf(s Str, what string) (Str, bool) {
	if len(s.P) != 1 || s.P[0].Atom == 0 {
		return Str{}, false
	}
	a, ok := b.E.assocID[assocKey{"str:" + what, s.P[0].Atom, 0, s.P[0].Maps}]
	return Str{P: []SPart{{Atom: a}}}, ok
}

func init() {
	byteT := types.Typ[types.Byte]
	reg("io.WriteString", func(c *CallCtx) {
		n := c.E.strLen(c.St, c.str(1))
		c.E.writeTo(c, c.St, c.Args[0], c.str(1), func(s *State, err Value) { c.K(s, Tuple{n, err}) })
	})
	reg("fmt.Fprint fmt.Fprintln", func(c *CallCtx) {
		c.E.writeTo(c, c.St, c.Args[0], c.freshStr(c.St), func(s *State, err Value) { c.K(s, Tuple{c.E.instPos(s), err}) })
	})
	reg("fmt.Fprintf", func(c *CallCtx) {
		c.E.sprintf(c, c.str(1), c.Args[2], func(s *State, v Value) {
			x, _ := v.(Str)
			c.E.writeTo(c, s, c.Args[0], x, func(s *State, err Value) { c.K(s, Tuple{c.E.instPos(s), err}) })
		})
	})

	// encoding/json
	encT := func(c *CallCtx) (types.Type, int) {
		t := c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "w" {
					return t, i
				}
			}
		}
		return nil, 0
	}
	reg("encoding/json.NewEncoder", func(c *CallCtx) {
		t, i := encT(c)
		if t == nil {
			c.E.havoc(c)
			return
		}
		z := c.E.zero(t).(Struct)
		z.F[i] = c.Args[0]
		c.K(c.St, Ptr{Obj: c.E.newObj(c.St, &Obj{Kind: OCell, T: t, V: z})})
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML (*encoding/json.Encoder).SetIndent", func(c *CallCtx) { c.K(c.St, nil) })
	reg("(*encoding/json.Encoder).Encode", func(c *CallCtx) {
		e := c.E
		e.derefVal(c.Act, c.St, c.Args[0], "encoder", c.Pos, func(st *State, p Ptr) []SV {
			v := e.obj(st, p.Obj)
			w := FieldOf(v.V, "w")
			text := e.jsonText(c, st, c.Args[1])
			bad := st.clone()
			c.K(bad, e.newErr(bad, c.Name))
			if w == nil {
				st.SetMon("unmodelled", c.Name)
				c.K(st, Nil{})
				return nil
			}
			e.writeTo(c, st, w, text, func(s *State, err Value) { c.K(s, err) })
			return nil
		})
	})
	reg("encoding/json.MarshalIndent", func(c *CallCtx) {
		bad := c.St.clone()
		c.K(bad, Tuple{Nil{}, c.E.newErr(bad, c.Name)})
		c.K(c.St, Tuple{c.E.strSeq(c.St, byteT, c.E.jsonText(c, c.St, c.Args[0])), Nil{}})
	})

	// hashes: the digest of a text is a text derived from it
	newHash := func(c *CallCtx) {
		id := c.E.newObj(c.St, &Obj{Kind: OCell, T: types.Typ[types.String], V: Str{}})
		c.K(c.St, Iface{T: hashType, V: Ptr{Obj: id}})
	}
	reg("crypto/sha1.New crypto/sha256.New crypto/sha512.New crypto/md5.New", newHash)
	reg("(hash.Hash).Write (io.Writer).Write", func(c *CallCtx) {
		text := c.E.seqStr(c.St, c.St.resolve(c.Args[1]))
		c.E.writeTo(c, c.St, c.Args[0], text, func(s *State, err Value) { c.K(s, Tuple{c.E.strLen(s, text), err}) })
	})
	reg("(hash.Hash).Sum", func(c *CallCtx) {
		e := c.E
		i, ok := c.St.resolve(c.Args[0]).(Iface)
		if !ok || i.T != types.Type(hashType) {
			e.havoc(c)
			return
		}
		for _, r := range e.load(c.St, i.V.(Ptr)) {
			text, _ := r.s.resolve(r.v).(Str)
			d, _ := e.derivedOf(r.s, text, "digest")
			pre := e.seqStr(r.s, r.s.resolve(c.Args[1]))
			c.K(r.s, e.strSeq(r.s, byteT, catStr(pre, d)))
		}
	})
	reg("(hash.Hash).Reset", func(c *CallCtx) {
		if i, ok := c.St.resolve(c.Args[0]).(Iface); ok && i.T == types.Type(hashType) {
			for _, o := range c.E.store(c.Act, c.St, i.V.(Ptr), Str{}, c.Pos, c.Act.Fn) {
				c.K(o, nil)
			}
			return
		}
		c.E.havoc(c)
	})
	reg("crypto/sha1.Sum crypto/sha256.Sum256 crypto/md5.Sum", func(c *CallCtx) {
		e := c.E
		d, _ := e.derivedOf(c.St, e.seqStr(c.St, c.St.resolve(c.Args[0])), "digest")
		at := c.Sig.Results().At(0).Type().Underlying().(*types.Array)
		a := Array{T: c.Sig.Results().At(0).Type(), E: make([]Value, at.Len())}
		for i := range a.E {
			// the i-th byte of the digest
			k := assocKey{"byte", d.P[0].Atom, i, ""}
			id, ok := e.assocID[k]
			if !ok {
				id = e.newID(AtomDecl{Kind: 'i', T: byteT})
				e.assocID[k] = id
				if e.digest == nil {
					e.digest = map[ID]digestByte{}
				}
				e.digest[id] = digestByte{d, i, len(a.E)}
			}
			if c.St.at[id] == nil {
				c.St.at[id] = &AInfo{R: []Rng{{0, 255}}}
			}
			a.E[i] = atomInt(id)
		}
		c.K(c.St, a)
	})
	reg("encoding/hex.EncodeToString", func(c *CallCtx) {
		d, _ := c.E.derivedOf(c.St, c.E.digestStr(c.St, c.Args[0]), "hex")
		c.K(c.St, d)
	})
	reg("(*encoding/base64.Encoding).EncodeToString", func(c *CallCtx) {
		d, _ := c.E.derivedOf(c.St, c.E.digestStr(c.St, c.Args[1]), "hex")
		c.K(c.St, d)
	})
}

type digestByte struct {
	s    Str
	i, n int
}

// digestStr is the content of a byte sequence or array, recognising a digest.
func (e *Engine) digestStr(st *State, v Value) Str {
	v = st.resolve(v)
	var es []Value
	switch x := v.(type) {
	case Array:
		es = x.E
	case Slice:
		o := e.obj(st, x.Obj)
		if o.V != nil {
			return st.normStr(e.seqStr(st, v))
		}
		for _, sg := range o.Segs {
			if sg.Star {
				es = nil
				break
			}
			es = append(es, sg.V)
		}
	}
	if len(es) > 0 {
		var d digestByte
		ok := true
		for i, x := range es {
			n, isInt := st.resolve(x).(Int)
			if !isInt || n.C != 0 || len(n.T) != 1 {
				ok = false
				break
			}
			b, known := e.digest[n.T[0].ID]
			if !known || b.i != i || b.n != len(es) || i > 0 && b.s.raw() != d.s.raw() {
				ok = false
				break
			}
			d = b
		}
		if ok {
			return d.s
		}
	}
	return st.normStr(e.seqStr(st, v))
}

func (p *Program) isSrcType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, ok = p.Pkgs[n.Obj().Pkg().Path()]
	return ok
}

func init() {
	// slices.DeleteFunc: the kept elements, in order
	reg("slices.DeleteFunc", func(c *CallCtx) {
		e := c.E
		fn, ok := c.St.resolve(c.Args[1]).(Func)
		if !ok {
			e.havoc(c)
			return
		}
		if !e.seqOf(c.St, c.Args[0], func(st *State, id ID) {
			if id == 0 {
				c.K(st, Nil{})
				return
			}
			t := e.seqObj(st, id).T
			segs := append([]Seg(nil), e.seqObj(st, id).Segs...)
			var walk func(st *State, i int, kept []Seg, dropped bool)
			walk = func(st *State, i int, kept []Seg, dropped bool) {
				if i == len(segs) {
					if dropped {
						e.overwritten(c.Act, st, id, c.Pos)
					}
					c.K(st, e.newSeq(st, t, kept))
					return
				}
				sg := segs[i]
				v := e.own(st, sg.V)
				if sg.Star {
					// any of these may go
					try := st.clone()
					e.callFn(c.Act, try, fn.Fn, []Value{e.own(try, sg.V)}, fn.Bind, c.Pos, func(*State, Value) {})
					walk(st, i+1, append(append([]Seg(nil), kept...), Seg{UID: e.starLen(st, 0), Star: true, V: sg.V}), true)
					return
				}
				e.callFn(c.Act, st, fn.Fn, []Value{v}, fn.Bind, c.Pos, func(s *State, r Value) {
					for _, w := range e.forkBool(s, r) {
						if w.v == Value(Bool(true)) {
							walk(w.s, i+1, kept, true)
						} else {
							walk(w.s, i+1, append(append([]Seg(nil), kept...), Seg{UID: sg.UID, V: v}), dropped)
						}
					}
				})
			}
			walk(st, 0, nil, false)
		}) {
			e.havoc(c)
		}
	})
}

func (e *Engine) setOrigin(id ID, s Str) {
	if e.origin == nil {
		e.origin = map[ID]Str{}
	}
	e.origin[id] = s
}

// MadeFrom tells whether a string contains all of another one, or a text
// derived from a text that does.
func (b *B) MadeFrom(st *State, s, src Str) bool {
	s, src = st.normStr(s), st.normStr(src)
	if len(src.P) != 1 {
		return false
	}
	for _, p := range s.P {
		if p.Atom == 0 {
			continue
		}
		if p.Atom == src.P[0].Atom && p.Maps == src.P[0].Maps {
			return true
		}
		if o, ok := b.E.origin[p.Atom]; ok && b.MadeFrom(st, o, src) {
			return true
		}
	}
	return false
}
