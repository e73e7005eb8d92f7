package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prefixClient checks the prefix and disambiguation bytes of names.
type prefixClient struct {
	noClient
	p *Program
}

func isNamed(t types.Type, pkg *types.Package, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() == pkg
}

func (c *prefixClient) announce(t types.Type) bool {
	return isNamed(t, c.p.Main.Pkg, "DisambBytes") || isNamed(t, c.p.Main.Pkg, "PrefixBytes")
}

// After: writing to a hash never fails.
func (c *prefixClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if in.Common().IsInvoke() && len(args) > 0 && types.TypeString(in.Common().Value.Type(), nil) == "hash.Hash" {
		if err := e.errResult(in, res); err != nil {
			st.facts = e.assume(st.facts, e.isNil(err), true)
		}
	}
}

func (c *prefixClient) nonZero(e *Engine, fr *frame, st *State, at ssa.Instruction, v *Term, rule, what string) {
	b := e.elem(v, e.tp.intc(0), types.Typ[types.Byte])
	ok := e.truth(st.facts, e.tp.eq0(toLin(b))) == -1
	e.oblige(fr, st, rule, instrPos(at), what, ok, func() string {
		return "the first byte is " + clip(b.String(), 120) + ", which may be zero"
	})
}

func (c *prefixClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	res := fr.fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if c.announce(res.At(i).Type()) {
			c.nonZero(e, fr, st, at, rs[i], "derived", "the first of the "+res.At(i).Type().(*types.Named).Obj().Name()+" derived from a name is not zero")
		}
	}
}

// fieldByte recognises one of the bytes kept as prefix or disambiguation bytes
// of a type record.
func (c *prefixClient) fieldByte(b *Term) (owner *Term, kind string, idx int64, ok bool) {
	var i, a *Term
	switch {
	case b.op == "elem" && b.args[0].op == "load":
		i, a = b.args[1], b.args[0].args[0]
	case b.op == "load" && b.args[0].op == "indexaddr":
		i, a = b.args[0].args[1], b.args[0].args[0]
	default:
		return
	}
	n, isC := constOf(i)
	if !isC || a.op != "fieldaddr" {
		return
	}
	s := structOf(a.args[0].typ)
	if s == nil {
		return
	}
	t := s.Field(atoi(a.aux)).Type()
	if !c.announce(t) {
		return
	}
	return a.args[0], t.(*types.Named).Obj().Name(), n.Int64(), true
}

// fieldOf reports whether an address is (inside) a prefix or disambiguation
// field of a type record.
func (c *prefixClient) fieldOf(a *Term) (types.Type, bool) {
	_, path := addrRoot(a)
	for i, x := range path {
		if x.op != "fieldaddr" {
			continue
		}
		s := structOf(x.args[0].typ)
		if s == nil {
			continue
		}
		if t := s.Field(atoi(x.aux)).Type(); c.announce(t) {
			return t, i == len(path)-1
		}
	}
	return nil, false
}

// nested lists the prefix and disambiguation bytes inside a stored value.
func (c *prefixClient) nested(e *Engine, v *Term, t types.Type, do func(v *Term, t types.Type)) {
	if c.announce(t) {
		do(v, t)
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if containsType(s.Field(i).Type(), c.announce) {
				c.nested(e, e.field(v, i, s.Field(i).Type()), s.Field(i).Type(), do)
			}
		}
	}
}

func containsType(t types.Type, is func(types.Type) bool) bool {
	if is(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if containsType(s.Field(i).Type(), is) {
				return true
			}
		}
	}
	return false
}

// storeClient checks what is kept as the prefix of a type.
type storeClient struct{ prefixClient }

func (c *storeClient) Return(*Engine, *frame, *State, []*Term, ssa.Instruction) {}

func (c *storeClient) Store(e *Engine, fr *frame, st *State, in *ssa.Store, addr *Term) {
	root, path := addrRoot(addr)
	if _, whole := c.fieldOf(addr); whole || len(path) == 0 || path[len(path)-1].op == "fieldaddr" {
		if len(path) == 0 && root.op == "cell" && c.announce(in.Val.Type()) {
			return // a plain variable
		}
		v := e.val(st, in.Val)
		c.nested(e, v, in.Val.Type(), func(v *Term, t types.Type) {
			if !whole && (v.op == "zeroarr" || v.op == "load") {
				return // no name, or kept from elsewhere
			}
			c.nonZero(e, fr, st, in, v, "kept", "the first of the "+t.(*types.Named).Obj().Name()+" kept for a registered type is not zero")
		})
		return
	}
	if t, _ := c.fieldOf(addr); t != nil {
		// a single byte
		last := path[len(path)-1]
		if i, ok := constOf(last.args[1]); ok && i.Sign() != 0 {
			return
		}
		b := e.val(st, in.Val)
		ok := e.truth(st.facts, e.tp.eq0(toLin(b))) == -1
		e.oblige(fr, st, "kept", instrPos(in), "the first of the "+t.(*types.Named).Obj().Name()+" kept for a registered type is not zero", ok, func() string { return "it is " + clip(b.String(), 120) })
	}
}

func (c *storeClient) Copy(e *Engine, fr *frame, st *State, in ssa.CallInstruction, args []*Term) {
	base, off, _, _ := e.sl(args[0])
	t, _ := c.fieldOf(base)
	if t == nil {
		return
	}
	if o, ok := constOf(off); ok && o.Sign() != 0 {
		return
	}
	sb, so, _, _ := e.sl(args[1])
	b := e.load(st, e.tp.mk("indexaddr", "", types.NewPointer(types.Typ[types.Byte]), sb, so), types.Typ[types.Byte])
	ok := e.truth(st.facts, e.tp.eq0(toLin(b))) == -1
	e.oblige(fr, st, "kept", instrPos(in), "the first of the "+t.(*types.Named).Obj().Name()+" kept for a registered type is not zero", ok, func() string { return "it is " + clip(b.String(), 120) })
}

// announceClient checks what the encoder writes to announce a type.
type announceClient struct {
	prefixClient
	seen int
}

func (c *announceClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	if n := len(rs); n > 0 && e.truth(st.facts, e.isNil(rs[n-1])) != -1 {
		c.complete(e, fr, st, at)
	}
}

// Call: what follows the announcement is the value.
func (c *announceClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	if f := in.Common().StaticCallee(); f != nil && e.contracts[f] != nil {
		c.complete(e, fr, st, in)
	}
}

func (c *announceClient) complete(e *Engine, fr *frame, st *State, at ssa.Instruction) {
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "ann:") {
			s := v.aux
			ok := s == "PrefixBytes4" || s == "zero" || s == "other"
			e.oblige(fr, st, "written", instrPos(at), "an announcement is complete", ok, func() string { return "only " + s + " has been written" })
		}
	}
}

func (c *announceClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	c.prefixClient.After(e, fr, st, in, name, args, res)
	w := strings.HasSuffix(name, ").Write")
	wb := strings.HasSuffix(name, ").WriteByte")
	if !w && !wb || len(args) < 2 {
		return
	}
	if res != nil {
		er := res
		if res.op == "tuple" {
			er = res.args[1]
		}
		if e.truth(st.facts, e.isNil(er)) == -1 {
			return
		}
	}
	k := "ann:" + strconv.Itoa(writerOf(args[0]).id)
	if wb {
		c.byte(e, fr, st, in, k, args[1])
		return
	}
	base, off, n, _ := e.sl(args[1])
	cn, ok := constOf(n)
	if !ok || cn.Int64() > 64 {
		if st.ghost[k] == nil {
			st.ghost[k] = e.tp.mk("const", "other", nil)
		}
		return
	}
	bt := types.Typ[types.Byte]
	for i := int64(0); i < cn.Int64(); i++ {
		c.byte(e, fr, st, in, k, e.load(st, e.tp.mk("indexaddr", "", types.NewPointer(bt), base, e.tp.fromLin(toLin(off).addC(i))), bt))
	}
}

// byte advances the announcement on one writer: it is a zero, the three
// disambiguation bytes and the four prefix bytes of one type, or just the
// four prefix bytes.
func (c *announceClient) byte(e *Engine, fr *frame, st *State, in ssa.Instruction, k string, b *Term) {
	cur, owner := "", (*Term)(nil)
	if g := st.ghost[k]; g != nil {
		cur = g.aux
		if len(g.args) > 0 {
			owner = g.args[0]
		}
	}
	o, kind, i, ok := c.fieldByte(b)
	if !ok {
		nx := "other"
		if v, isC := constOf(b); isC && v.Sign() == 0 && (cur == "" || cur == "other") {
			nx = "zero"
		}
		if cur == "PrefixBytes4" {
			return
		}
		good := cur == "" || cur == "zero" || cur == "other"
		e.oblige(fr, st, "written", instrPos(in), "an announcement is complete", good, func() string { return "only " + cur + " has been written" })
		st.ghost[k] = e.tp.mk("const", nx, nil)
		return
	}
	c.seen++
	good := false
	switch {
	case kind == "DisambBytes" && i == 0:
		good = cur == "zero"
	case kind == "PrefixBytes" && i == 0:
		good = cur == "" || cur == "other" || cur == "DisambBytes3" && o == owner
	default:
		good = cur == kind+strconv.FormatInt(i, 10) && o == owner
	}
	e.oblige(fr, st, "written", instrPos(in), "the announcement is the four prefix bytes, with a zero and the disambiguation bytes of the same type before them if at all", good, func() string {
		return "byte " + strconv.FormatInt(i, 10) + " of the " + kind + " after " + strconv.Quote(cur)
	})
	st.ghost[k] = e.tp.mk("const", kind+strconv.FormatInt(i+1, 10), nil, o)
}

// lookupClient checks how the decoder reads what announces a type.
type lookupClient struct {
	noClient
	p       *Program
	df, pfx int
}

func (c *lookupClient) announced(e *Engine, fr *frame, st *State, at ssa.Instruction, v *Term, t types.Type) {
	var n, lead int64
	switch {
	case isNamed(t, c.p.Main.Pkg, "DisfixBytes"):
		n, lead = 7, 1
	case isNamed(t, c.p.Main.Pkg, "PrefixBytes"):
		n, lead = 4, 0
	default:
		return
	}
	bt := types.Typ[types.Byte]
	var base *Term
	var off *Lin
	why := ""
	for i := int64(0); i < n; i++ {
		b := e.elem(v, e.tp.intc(i), bt)
		if b.op != "load" || b.args[0].op != "indexaddr" {
			why = "byte " + e.tp.intc(i).String() + " is " + clip(b.String(), 100)
			break
		}
		a := b.args[0]
		if base == nil {
			base, off = a.args[0], toLin(a.args[1])
		}
		if a.args[0] != base || !e.entailsEQ(st.facts, toLin(a.args[1]).sub(off).addC(-i)) {
			why = "byte " + e.tp.intc(i).String() + " does not follow the one before in the input: " + clip(b.String(), 100)
			break
		}
	}
	if why == "" && !isTainted(base) {
		why = "the bytes are not input"
	}
	if why == "" {
		first := e.load(st, e.tp.mk("indexaddr", "", types.NewPointer(bt), base, e.tp.fromLin(off.addC(-lead))), bt)
		want := 1
		if lead == 0 {
			want = -1
		}
		if e.truth(st.facts, e.tp.eq0(toLin(first))) != want {
			why = "it is not decided by whether the first byte is zero"
		}
	}
	what := "a type is looked up by its prefix exactly when the input does not start with zero"
	if lead == 1 {
		c.df++
		what = "a type is looked up by the bytes after the leading zero exactly when the input starts with zero"
	} else {
		c.pfx++
	}
	e.oblige(fr, st, "announced", instrPos(at), what, why == "", func() string { return why })
}

func (c *lookupClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	f := in.Common().StaticCallee()
	if f == nil || e.opaqueFn == nil || !e.opaqueFn(f) {
		return
	}
	for i, a := range args {
		if i < len(f.Params) {
			c.announced(e, fr, st, in, a, f.Params[i].Type())
		}
	}
}

func (c *lookupClient) Lookup(e *Engine, fr *frame, st *State, in *ssa.Lookup, key *Term) {
	c.announced(e, fr, st, in, key, in.Index.Type())
}

func init() {
	register(&Check{ID: "C20", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation with byte-precise arrays: the announcements the encoder writes are the prefix bytes, alone or after a zero and the disambiguation bytes of the same type; on every path of every function deriving prefix or disambiguation bytes from a name the first byte is shown not to be zero; the same for every value kept for a registered type; and every lookup of a type by the decoder uses the 7 input bytes after a byte shown to be zero, or 4 input bytes of which the first is shown not to be zero",
		Expl: "derivations from a name, stores to the prefix and disambiguation fields of type records, announcements written by the encoder, lookups by disambiguated or plain prefix in the decoder",
		Trust: []string{
			"writing to a hash never fails",
		},
		Run: func(p *Program, r *Result) {
			c := &prefixClient{p: p}
			e := newEngine(p)
			e.inlineAll = true
			e.preciseBytes = true
			e.client = c
			n := 0
			derive := map[*ssa.Function]bool{}
			for _, f := range p.Funcs {
				if f.Pkg != p.Main || f.Parent() != nil || f.Signature.Recv() != nil || len(f.Params) != 1 || !isStringType(f.Params[0].Type()) {
					continue
				}
				gives := false
				for i := 0; i < f.Signature.Results().Len(); i++ {
					gives = gives || c.announce(f.Signature.Results().At(i).Type())
				}
				if !gives {
					continue
				}
				derive[f] = true
				n++
				e.loopCache = nil
				e.runRoot(f)
			}
			r.take(e, "derived")
			r.floor("functions deriving prefixes", n, 1)

			// what is kept
			s := &storeClient{prefixClient{p: p}}
			e = newEngine(p)
			e.inlineAll = true
			e.preciseBytes = true
			e.client = s
			e.smallLimit = 60
			var ds []*ssa.Function
			for f := range derive {
				ds = append(ds, f)
			}
			parts := reachable(p, ds...)
			e.opaqueFn = func(f *ssa.Function) bool {
				if parts[f] {
					return false
				}
				for g := range reachable(p, f) {
					if derive[g] {
						return false
					}
				}
				return !e.smallFn(f)
			}
			for _, f := range p.Funcs {
				if f.Pkg == p.Main && writesPrefix(f, c) {
					e.loopCache = nil
					e.runRoot(f)
				}
			}
			r.take(e, "kept")

			// what the encoder writes
			a := &announceClient{prefixClient: prefixClient{p: p}}
			he := encodeHalf(p, a, false)
			he.e.preciseBytes = true
			for _, f := range he.fns {
				he.e.loopCache = nil
				he.e.runRoot(f)
			}
			r.take(he.e, "written")
			r.floor("announced bytes", a.seen, 2)

			// what the decoder looks for
			l := &lookupClient{p: p}
			h := decodeHalf(p, l, false)
			h.e.preciseBytes = true
			for _, f := range h.fns {
				h.e.loopCache = nil
				h.e.runRoot(f)
			}
			r.take(h.e, "announced")
			r.floor("lookups by disambiguated prefix", l.df, 1)
			r.floor("lookups by prefix", l.pfx, 1)
		}})
}

// writesPrefix: f stores to a prefix or disambiguation field.
func writesPrefix(f *ssa.Function, c *prefixClient) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || !c.announce(derefType(fa.Type())) {
				continue
			}
			for _, u := range *fa.Referrers() {
				switch u := u.(type) {
				case *ssa.UnOp:
				case *ssa.Store:
					if u.Addr == ssa.Value(fa) {
						return true
					}
				default:
					return true
				}
			}
		}
	}
	return false
}
