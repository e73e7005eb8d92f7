package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// siteID names an instruction within its activation, so that re-interpreting
// the same activation produces the same symbols.
func (fr *frame) siteID(in ssa.Instruction) string {
	n := -1
	if v, ok := in.(ssa.Value); ok {
		n = fr.info.num[v]
	} else {
		b := in.Block()
		for i, x := range b.Instrs {
			if x == in {
				n = 100000 + b.Index*1000 + i
			}
		}
	}
	return fr.callPath + fr.tag + "/" + strconv.Itoa(n)
}

// symAt is a symbol owned by an instruction.
func (e *Engine) symAt(fr *frame, in ssa.Instruction, hint string, k int, t types.Type, taint bool) *Term {
	tt := ""
	if taint {
		tt = "!"
	}
	return e.shaped(fmt.Sprintf("%s%s@%s.%d", hint, tt, fr.siteID(in), k), t, taint)
}

func (e *Engine) shaped(name string, t types.Type, taint bool) *Term {
	if t != nil {
		if u, ok := t.Underlying().(*types.Tuple); ok {
			var fs []*Term
			for i := 0; i < u.Len(); i++ {
				fs = append(fs, e.shaped(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), taint))
			}
			return e.tp.mk("tuple", "", t, fs...)
		}
	}
	return e.tp.named(name, t, taint)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	b := in.Block()
	seen := false
	for _, x := range b.Instrs {
		if x == in {
			seen = true
		}
		if seen && x.Pos().IsValid() {
			return x.Pos()
		}
	}
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return b.Parent().Pos()
}

// block interprets the instructions of b from s and returns the edges taken.
func (e *Engine) block(fr *frame, b *ssa.BasicBlock, s *State) []exitEdge {
	s = s.clone()
	sts := []*State{s}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.steps++
		if e.steps > e.maxSteps {
			if !e.over {
				e.over = true
				e.notes["step budget exhausted in "+fr.chain()] = true
			}
			return nil
		}
		switch in := in.(type) {
		case *ssa.If:
			var out []exitEdge
			for _, st := range sts {
				c := e.val(st, in.Cond)
				if e.condHook != nil {
					e.condHook(st, c)
				}
				tv := e.truth(st.facts, c)
				for k, want := range []bool{true, false} {
					if (tv == 1 && !want) || (tv == -1 && want) {
						continue
					}
					n := st.clone()
					n.facts = e.assume(st.facts, c, want)
					if n.facts.dead {
						continue
					}
					n.path = append(n.path, fmt.Sprintf("%s:%v", lineOf(e.P, in), want))
					n.setCtl(fr, b, c)
					out = append(out, exitEdge{b, b.Succs[k], n})
				}
			}
			return out
		case *ssa.Jump:
			var out []exitEdge
			for _, st := range sts {
				out = append(out, exitEdge{b, b.Succs[0], st})
			}
			return out
		case *ssa.Return:
			for _, st := range sts {
				var rs []*Term
				for _, r := range in.Results {
					rs = append(rs, e.val(st, r))
				}
				e.finish(fr, st, rs, in)
			}
			return nil
		case *ssa.Panic:
			for _, st := range sts {
				e.onPanic(fr, st, in)
			}
			return nil
		}
		var next []*State
		for _, st := range sts {
			next = append(next, e.instr(fr, st, in)...)
		}
		sts = next[:0:0]
		for _, st := range next {
			if !st.facts.dead {
				sts = append(sts, st)
			}
		}
		if len(sts) == 0 {
			return nil
		}
		if len(sts) > 24 {
			sts = e.mergeMid(fr, b, in, sts)
		}
	}
	return nil
}

func lineOf(p *Program, in ssa.Instruction) string {
	return p.pos(instrPos(in))
}

// mergeMid merges states in the middle of a block.
func (e *Engine) mergeMid(fr *frame, b *ssa.BasicBlock, in ssa.Instruction, sts []*State) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := stateKey(s, func(v ssa.Value) (int, bool) { n, ok := fr.info.num[v]; return n, ok })
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, e.mergeFacts(groups[k], 16)...)
	}
	return out
}

func (s *State) setCtl(fr *frame, b *ssa.BasicBlock, c *Term) {
	k := "ctl:" + fr.callPath + ":" + strconv.Itoa(b.Index)
	if isTainted(c) {
		s.ghost[k] = c
	} else {
		delete(s.ghost, k)
	}
}

func (e *Engine) finish(fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	if fr.parent == nil {
		e.client.Return(e, fr, st, rs, at)
	}
	fr.outs = append(fr.outs, Outcome{st: st, results: rs, at: at})
}

func (e *Engine) onPanic(fr *frame, st *State, in ssa.Instruction) {
	e.client.Panic(e, fr, st, in)
	fr.outs = append(fr.outs, Outcome{st: st, panics: true, at: in})
}

func (e *Engine) setv(st *State, v ssa.Value, t *Term) { st.env[v] = t }

// instr interprets one instruction; it owns st.
func (e *Engine) instr(fr *frame, st *State, in ssa.Instruction) []*State {
	one := []*State{st}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := e.tp.mk("cell", in.Comment+"@"+fr.siteID(in), in.Type())
		st.cells[c] = e.zero(derefType(in.Type()))
		delete(st.esc, c)
		e.setv(st, in, c)
	case *ssa.BinOp:
		return e.binop(fr, st, in)
	case *ssa.UnOp:
		return e.unop(fr, st, in)
	case *ssa.ChangeType:
		e.setv(st, in, e.val(st, in.X))
	case *ssa.ChangeInterface:
		e.setv(st, in, e.val(st, in.X))
	case *ssa.Convert:
		return e.convert(fr, st, in)
	case *ssa.MakeInterface:
		x := e.val(st, in.X)
		t := e.tp.mk("iface", types.TypeString(in.X.Type(), nil), in.Type(), x)
		if e.ifaceTypes == nil {
			e.ifaceTypes = map[*Term]types.Type{}
		}
		e.ifaceTypes[t] = in.X.Type()
		e.setv(st, in, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(st, b))
		}
		f := in.Fn.(*ssa.Function)
		t := e.tp.mk("closure", f.String(), in.Type(), bs...)
		t.fn = f
		e.setv(st, in, t)
	case *ssa.MakeMap:
		e.setv(st, in, e.tp.mk("alloc", "map@"+fr.siteID(in), in.Type()))
	case *ssa.MakeChan:
		e.setv(st, in, e.tp.mk("alloc", "chan@"+fr.siteID(in), in.Type()))
	case *ssa.MakeSlice:
		n := e.val(st, in.Len)
		c := e.val(st, in.Cap)
		e.requireGE(fr, st, "makeslice", in.Pos(), "make: length is not negative", toLin(n))
		if n != c {
			e.requireGE(fr, st, "makeslice", in.Pos(), "make: length does not exceed capacity", toLin(c).sub(toLin(n)))
		}
		e.client.Alloc(e, fr, st, in, c)
		taint := isTainted(n) || (e.taintBytes && isByteSlice(in.Type()))
		tt := ""
		if taint {
			tt = "!"
		}
		base := e.tp.mk("alloc", "make"+tt+"@"+fr.siteID(in), in.Type())
		if taint {
			base.taint = 2
		}
		st.facts = e.addGE(e.addGE(st.facts, toLin(n)), toLin(c).sub(toLin(n)))
		e.setv(st, in, e.mkSlice(in.Type(), base, e.tp.intc(0), n, c))
	case *ssa.Slice:
		return e.sliceOp(fr, st, in)
	case *ssa.FieldAddr:
		x := e.val(st, in.X)
		if e.nilDeref(fr, st, in, x) {
			return nil
		}
		e.setv(st, in, e.tp.mk("fieldaddr", strconv.Itoa(in.Field), in.Type(), e.typed(x, in.X.Type())))
	case *ssa.Field:
		e.setv(st, in, e.field(e.val(st, in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		x := e.val(st, in.X)
		i := e.val(st, in.Index)
		var base, off, n *Term
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if e.nilDeref(fr, st, in, x) {
				return nil
			}
			base, off, n = x, e.tp.intc(0), e.lenOf(x, in.X.Type())
		} else {
			base, off, n, _ = e.sl(x)
		}
		e.boundsCheck(fr, st, in, i, n)
		if ic, ok := e.client.(indexClient); ok {
			ic.Index(e, fr, st, in, base, e.tp.fromLin(toLin(off).add(toLin(i))), n)
		}
		e.setv(st, in, e.tp.mk("indexaddr", "", in.Type(), base, e.tp.fromLin(toLin(off).add(toLin(i)))))
	case *ssa.Index:
		x := e.val(st, in.X)
		i := e.val(st, in.Index)
		e.boundsCheck(fr, st, in, i, e.lenOf(x, in.X.Type()))
		if _, ok := in.X.Type().Underlying().(*types.Array); ok {
			e.setv(st, in, e.elem(x, i, in.Type()))
		} else {
			base, off, _, _ := e.sl(x)
			e.setv(st, in, e.tp.mk("strbyte", "", in.Type(), base, e.tp.fromLin(toLin(off).add(toLin(i)))))
		}
	case *ssa.Lookup:
		return e.lookup(fr, st, in)
	case *ssa.MapUpdate:
		e.client.MapUpdate(e, fr, st, in)
		e.bump(st)
		e.bumpKey(st, mapKeyOf(in.Map.Type()))
	case *ssa.Extract:
		e.setv(st, in, e.field(e.val(st, in.Tuple), in.Index, in.Type()))
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, in)
	case *ssa.Range:
		e.setv(st, in, e.tp.mk("range", "", in.Type(), e.val(st, in.X)))
	case *ssa.Next:
		it := e.val(st, in.Iter)
		if in.IsString && it.op == "range" && !onCycle(in.Block()) {
			// the first character
			n := e.strLen(it.args[0])
			first := e.tp.mk("pure", "first rune", types.Typ[types.Rune], it.args[0])
			e.setv(st, in, e.tp.mk("tuple", "", nil, e.tp.ge0(toLin(n).addC(-1)), e.tp.intc(0), first))
			break
		}
		e.setv(st, in, e.symAt(fr, in, "next", 0, in.Type(), isTainted(it)))
	case *ssa.Store:
		p := e.val(st, in.Addr)
		if e.nilDeref(fr, st, in, p) {
			return nil
		}
		e.client.Store(e, fr, st, in, p)
		e.store(st, p, e.val(st, in.Val), in.Val.Type())
	case *ssa.Call:
		return e.call(fr, st, in, in.Common(), in)
	case *ssa.Defer:
		var as []*Term
		for _, a := range in.Call.Args {
			as = append(as, e.val(st, a))
		}
		st.defers = append(st.defers, deferred{call: in, fn: e.val(st, in.Call.Value), args: as})
	case *ssa.RunDefers:
		return e.runDefers(fr, st, in)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		e.notes["unmodelled instruction "+fmt.Sprintf("%T", in)+" at "+lineOf(e.P, in)] = true
		if v, ok := in.(ssa.Value); ok {
			e.setv(st, v, e.symAt(fr, in, "opaque", 0, v.Type(), true))
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			e.setv(st, v, e.symAt(fr, in, "opaque", 0, v.Type(), true))
		}
		e.notes["unmodelled instruction "+fmt.Sprintf("%T", in)+" at "+lineOf(e.P, in)] = true
	}
	return one
}

// typed gives a term a Go type when it has none.
func (e *Engine) typed(t *Term, ty types.Type) *Term {
	if t.typ == nil {
		t.typ = ty
	}
	return t
}

// nilDeref reports (and kills) a definite nil dereference.
func (e *Engine) nilDeref(fr *frame, st *State, in ssa.Instruction, p *Term) bool {
	root, _ := addrRoot(p)
	if root.op == "nil" {
		e.oblige(fr, st, "nilderef", instrPos(in), "pointer is not nil", false, func() string { return "nil pointer dereference" })
		return true
	}
	e.oblige(fr, st, "nilderef", instrPos(in), "pointer is not nil", true, nil)
	return false
}

func (e *Engine) boundsCheck(fr *frame, st *State, in ssa.Instruction, i, n *Term) {
	e.requireGE(fr, st, "index", in.Pos(), "index is not negative", toLin(i))
	e.requireGE(fr, st, "index", in.Pos(), "index is less than length", toLin(n).sub(toLin(i)).addC(-1))
	st.facts = e.addGE(e.addGE(st.facts, toLin(i)), toLin(n).sub(toLin(i)).addC(-1))
}

func (e *Engine) sliceOp(fr *frame, st *State, in *ssa.Slice) []*State {
	x := e.val(st, in.X)
	var base, off, n, cp *Term
	isStr := false
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		if e.nilDeref(fr, st, in, x) {
			return nil
		}
		l := e.lenOf(x, in.X.Type())
		base, off, n, cp = x, e.tp.intc(0), l, l
	case *types.Basic:
		isStr = true
		base, off, n, _ = e.sl(x)
		cp = n
		_ = u
	default:
		base, off, n, cp = e.sl(x)
	}
	lo, hi, mx := e.tp.intc(0), n, cp
	if in.Low != nil {
		lo = e.val(st, in.Low)
	}
	if in.High != nil {
		hi = e.val(st, in.High)
	}
	if in.Max != nil {
		mx = e.val(st, in.Max)
		e.requireGE(fr, st, "slice", in.Pos(), "slice max does not exceed capacity", toLin(cp).sub(toLin(mx)))
	}
	e.requireGE(fr, st, "slice", in.Pos(), "slice low bound is not negative", toLin(lo))
	e.requireGE(fr, st, "slice", in.Pos(), "slice low bound does not exceed high bound", toLin(hi).sub(toLin(lo)))
	lim := mx
	if isStr {
		lim = n
	}
	e.requireGE(fr, st, "slice", in.Pos(), "slice high bound does not exceed capacity", toLin(lim).sub(toLin(hi)))
	st.facts = e.addGE(e.addGE(e.addGE(st.facts, toLin(lo)), toLin(hi).sub(toLin(lo))), toLin(lim).sub(toLin(hi)))
	r := e.mkSlice(in.Type(), base, e.tp.fromLin(toLin(off).add(toLin(lo))), e.tp.fromLin(toLin(hi).sub(toLin(lo))), e.tp.fromLin(toLin(mx).sub(toLin(lo))))
	e.setv(st, in, r)
	e.client.Reslice(e, fr, st, in, x, r)
	return []*State{st}
}

func (e *Engine) lookup(fr *frame, st *State, in *ssa.Lookup) []*State {
	x := e.val(st, in.X)
	k := e.val(st, in.Index)
	if isStringType(in.X.Type()) {
		e.boundsCheck(fr, st, in, k, e.strLen(x))
		base, off, _, _ := e.sl(x)
		e.setv(st, in, e.tp.mk("strbyte", "", in.Type(), base, e.tp.fromLin(toLin(off).add(toLin(k)))))
		return []*State{st}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if l, ok := e.client.(looker); ok {
		l.Lookup(e, fr, st, in, k)
	}
	// which entry is found depends on the key, but its content does not
	taint := isTainted(x)
	mk := func(s *State, present bool) *State {
		var v *Term
		if present {
			v = e.symAt(fr, in, "mapval", 0, mt.Elem(), taint)
			if e.pureFns {
				v = e.tp.mk("mapval", "", mt.Elem(), x, k, e.fine(st, mapKeyOf(in.X.Type())))
			}
			switch mt.Elem().Underlying().(type) {
			case *types.Pointer:
				// values stored in the repository's maps are never nil
				s.facts = e.assume(s.facts, e.isNil(v), false)
			case *types.Slice:
				if e.mapNonEmpty(in.X) {
					s.facts = e.addGE(s.facts, toLin(e.lenOf(v, mt.Elem())).addC(-1))
				}
			}
		} else {
			v = e.zero(mt.Elem())
		}
		if in.CommaOk {
			s.env[in] = e.tp.mk("tuple", "", in.Type(), v, e.tp.boolc(present))
		} else {
			s.env[in] = v
		}
		return s
	}
	// a nil map has no entries
	s2 := st.clone()
	a := e.tp.mk("present", "", nil, x, k, e.fine(st, mapKeyOf(in.X.Type())))
	st.facts = e.assume(st.facts, a, true)
	s2.facts = e.assume(s2.facts, a, false)
	return []*State{mk(st, true), mk(s2, false)}
}

// mapNonEmpty reports whether every value stored in the map field that v was
// loaded from is an append of at least one element.
func (e *Engine) mapNonEmpty(v ssa.Value) bool {
	f := loadedField(v)
	if f == nil {
		return false
	}
	if r, ok := e.nonEmptyMemo[f]; ok {
		return r
	}
	n, ok := 0, true
	for _, fn := range e.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, isM := in.(*ssa.MapUpdate)
				if !isM || loadedField(mu.Map) != f {
					continue
				}
				n++
				c, isC := mu.Value.(*ssa.Call)
				if !isC {
					ok = false
					continue
				}
				bi, isB := c.Call.Value.(*ssa.Builtin)
				if !isB || bi.Name() != "append" || len(c.Call.Args) != 2 {
					ok = false
					continue
				}
				sl, isS := c.Call.Args[1].(*ssa.Slice)
				if !isS {
					ok = false
					continue
				}
				if _, isA := sl.X.(*ssa.Alloc); !isA || sl.High != nil || sl.Low != nil {
					ok = false
				}
			}
		}
	}
	if e.nonEmptyMemo == nil {
		e.nonEmptyMemo = map[*types.Var]bool{}
	}
	e.nonEmptyMemo[f] = ok && n > 0
	return ok && n > 0
}

// loadedField is the struct field v was read from, if any.
func loadedField(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return structOf(fa.X.Type()).Field(fa.Field)
		}
	case *ssa.Field:
		return structOf(v.X.Type()).Field(v.Field)
	}
	return nil
}

func (e *Engine) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) []*State {
	x := e.val(st, in.X)
	if x.op == "iface" && e.ifaceTypes[x] != nil && !types.IsInterface(in.AssertedType) {
		same := types.Identical(e.ifaceTypes[x], in.AssertedType)
		if in.CommaOk {
			v := e.zero(in.AssertedType)
			if same {
				v = x.args[0]
			}
			e.setv(st, in, e.tp.mk("tuple", "", in.Type(), v, e.tp.boolc(same)))
			return []*State{st}
		}
		if same {
			e.setv(st, in, x.args[0])
			return []*State{st}
		}
	}
	taint := isTainted(x)
	if in.CommaOk {
		s2 := st.clone()
		v := e.symAt(fr, in, "assert", 0, in.AssertedType, taint)
		e.setv(st, in, e.tp.mk("tuple", "", in.Type(), v, e.tp.boolc(true)))
		s2.env[in] = e.tp.mk("tuple", "", in.Type(), e.zero(in.AssertedType), e.tp.boolc(false))
		return []*State{st, s2}
	}
	bad := x.op == "nil" || (taint && x.op != "nonnil")
	if types.IsInterface(in.AssertedType) && taint && x.op != "nil" {
		bad = e.truth(st.facts, e.isNil(x)) != -1
	}
	e.oblige(fr, st, "typeassert", in.Pos(), "type assertion cannot fail because of the input", !bad, func() string { return "operand " + x.String() + " depends on the input" })
	e.setv(st, in, e.tp.mk("assert", types.TypeString(in.AssertedType, nil), in.AssertedType, x))
	if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		e.setv(st, in, x)
	}
	return []*State{st}
}

// ---- arithmetic ----

func (e *Engine) inRange(st *State, l *Lin, t types.Type) bool {
	lo, hi, ok := e.tp.intRange(t)
	if !ok {
		return true
	}
	return e.entailsGE(st.facts, l.sub(linBig(lo))) && e.entailsGE(st.facts, linBig(hi).sub(l))
}

// wrapOr keeps the exact value when it provably fits, and is opaque otherwise.
func (e *Engine) wrapOr(st *State, l *Lin, t types.Type, op string, a, b *Term) *Term {
	if e.inRange(st, l, t) {
		return e.tp.fromLin(l)
	}
	if lo, hi, ok := e.tp.intRange(t); ok && e.exactBits {
		w := new(big.Int).Sub(hi, lo)
		w.Add(w, bigOne)
		for _, m := range []*Lin{l.add(linBig(w)), l.sub(linBig(w))} {
			if e.inRange(st, m, t) {
				return e.tp.fromLin(m)
			}
		}
	}
	return e.tp.mk("wrap", op, t, a, b)
}

func (e *Engine) cmpTerm(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if isIntType(t) {
		la, lb := toLin(a), toLin(b)
		switch op {
		case token.EQL:
			return e.tp.eq0(la.sub(lb))
		case token.NEQ:
			return e.tp.not(e.tp.eq0(la.sub(lb)))
		case token.LSS:
			return e.tp.ge0(lb.sub(la).addC(-1))
		case token.LEQ:
			return e.tp.ge0(lb.sub(la))
		case token.GTR:
			return e.tp.ge0(la.sub(lb).addC(-1))
		case token.GEQ:
			return e.tp.ge0(la.sub(lb))
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var c *Term
		switch {
		case isBoolType(t):
			switch {
			case a.op == "bool":
				c = b
				if a.aux != "true" {
					c = e.tp.not(b)
				}
			case b.op == "bool":
				c = a
				if b.aux != "true" {
					c = e.tp.not(a)
				}
			default:
				c = e.tp.eq(a, b)
			}
		case isNilConst(a):
			c = e.isNil(b)
		case isNilConst(b):
			c = e.isNil(a)
		case isStringType(t) && a.op == "const" && b.op == "const":
			c = e.tp.boolc(a == b)
		case isStringType(t) && (a.op == "const" && a.aux == `""`):
			c = e.tp.eq0(toLin(e.strLen(b)))
		case isStringType(t) && (b.op == "const" && b.aux == `""`):
			c = e.tp.eq0(toLin(e.strLen(a)))
		default:
			c = e.tp.eq(a, b)
		}
		if op == token.NEQ {
			c = e.tp.not(c)
		}
		return c
	}
	// ordered comparison of strings or floats
	return e.tp.mk("cmp", op.String(), nil, a, b)
}

func isNilConst(t *Term) bool {
	if t.op == "nil" {
		return true
	}
	return t.op == "slice" && t.args[0].op == "nil"
}

func (e *Engine) binop(fr *frame, st *State, in *ssa.BinOp) []*State {
	a, b := e.val(st, in.X), e.val(st, in.Y)
	t := in.Type()
	one := []*State{st}
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		e.setv(st, in, e.cmpTerm(st, in.Op, a, b, in.X.Type()))
		return one
	}
	if !isIntType(t) {
		if isStringType(t) && in.Op == token.ADD {
			r := e.tp.mk("concat", "", t, a, b)
			e.setv(st, in, r)
			return one
		}
		if isBoolType(t) {
			e.setv(st, in, e.tp.mk("boolop", in.Op.String(), t, a, b))
			return one
		}
		e.setv(st, in, e.tp.mk("binop", in.Op.String(), t, a, b))
		return one
	}
	la, lb := toLin(a), toLin(b)
	ca, aok := constOf(a)
	cb, bok := constOf(b)
	opaque := e.tp.mk("wrap", in.Op.String(), t, a, b)
	var r *Term
	switch in.Op {
	case token.ADD:
		r = e.wrapOr(st, la.add(lb), t, "+", a, b)
	case token.SUB:
		r = e.wrapOr(st, la.sub(lb), t, "-", a, b)
	case token.MUL:
		r = opaque
		if bok && cb.IsInt64() && absI(cb.Int64()) < 1<<30 {
			r = e.wrapOr(st, la.scale(cb.Int64()), t, "*", a, b)
		} else if aok && ca.IsInt64() && absI(ca.Int64()) < 1<<30 {
			r = e.wrapOr(st, lb.scale(ca.Int64()), t, "*", a, b)
		}
	case token.QUO, token.REM:
		if !bok || cb.Sign() == 0 {
			ok := e.truth(st.facts, e.tp.eq0(lb)) == -1
			e.oblige(fr, st, "divide", in.Pos(), "divisor is not zero", ok, func() string { return "divisor " + b.String() + " may be zero" })
		}
		r = opaque
		if bok && cb.Sign() > 0 && e.entailsGE(st.facts, la) {
			if aok {
				if in.Op == token.QUO {
					r = e.tp.bigc(new(big.Int).Quo(ca, cb))
				} else {
					r = e.tp.bigc(new(big.Int).Rem(ca, cb))
				}
			} else {
				q := e.quo(a, b, cb, t)
				if q.op == "shr" {
					q = e.exactShr(st, q, la, int64(cb.BitLen()-1))
				}
				if in.Op == token.QUO {
					r = q
				} else if cb.IsInt64() && cb.Int64() < 1<<40 {
					r = e.tp.fromLin(la.sub(toLin(q).scale(cb.Int64())))
				} else {
					r = e.tp.mk("rem", "", t, a, b)
				}
			}
		}
	case token.SHL:
		r = opaque
		if bok && cb.IsInt64() && cb.Int64() < 62 {
			if aok {
				v := new(big.Int).Lsh(ca, uint(cb.Int64()))
				r = e.wrapOr(st, linBig(v), t, "<<", a, b)
			} else {
				r = e.wrapOr(st, la.scale(1<<uint(cb.Int64())), t, "<<", a, b)
			}
		}
	case token.SHR:
		r = opaque
		if bok && cb.IsInt64() && cb.Sign() >= 0 {
			if aok {
				r = e.tp.bigc(new(big.Int).Rsh(ca, uint(cb.Int64())))
			} else {
				r = e.tp.mk("shr", "", t, a, b)
				r = e.exactShr(st, r, la, cb.Int64())
			}
		}
	case token.AND:
		r = opaque
		switch {
		case aok && bok:
			r = e.tp.bigc(new(big.Int).And(ca, cb))
		case bok && cb.Sign() >= 0:
			r = e.andc(st, a, b, cb, t)
		case aok && ca.Sign() >= 0:
			r = e.andc(st, b, a, ca, t)
		}
	case token.AND_NOT:
		r = opaque
		if bok && cb.Sign() >= 0 {
			// a &^ c == a - (a & c)
			m := e.andc(st, a, b, cb, t)
			r = e.tp.fromLin(la.sub(toLin(m)))
		}
	case token.OR:
		r = opaque
		if aok && bok {
			r = e.tp.bigc(new(big.Int).Or(ca, cb))
		} else if e.entailsGE(st.facts, la) && e.entailsGE(st.facts, lb) {
			r = e.tp.mk("or", "", t, a, b)
			if e.exactBits {
				i, ok := e.bitLen(st, la)
				j, ok2 := e.bitLen(st, lb)
				if ok && ok2 {
					if j > i {
						i = j
					}
					st.facts = e.addGE(e.addGE(st.facts, toLin(r).sub(la)), toLin(r).sub(lb))
					st.facts = e.addGE(st.facts, linBig(pow2(i)).addC(-1).sub(toLin(r)))
				}
			}
		}
	case token.XOR:
		r = opaque
		if aok && bok {
			r = e.tp.bigc(new(big.Int).Xor(ca, cb))
		} else if e.exactBits {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				x, y := p[0], p[1]
				_, hi, _ := e.tp.intRange(t)
				ones := linConst(-1)
				if !signedInt(t) {
					ones = linBig(hi)
				}
				switch {
				case e.entailsEQ(st.facts, toLin(y)):
					r = x
				case e.entailsEQ(st.facts, toLin(y).sub(ones)):
					r = e.tp.fromLin(ones.sub(toLin(x)))
				}
			}
		}
	default:
		r = opaque
	}
	e.setv(st, in, r)
	return one
}

// andc is a & c for a constant c >= 0.
func (e *Engine) andc(st *State, a, c *Term, cv *big.Int, t types.Type) *Term {
	// a & (2^k-1) == a when 0 <= a < 2^k
	m := new(big.Int).Add(cv, bigOne)
	if m.BitLen()-1 == int(m.TrailingZeroBits()) {
		if e.entailsGE(st.facts, toLin(a)) && e.entailsGE(st.facts, linBig(cv).sub(toLin(a))) {
			return a
		}
		// a & (2^k-1) == a - 2^k*floor(a/2^k)
		if k := int64(m.BitLen() - 1); k > 0 && k < 40 {
			return e.tp.fromLin(toLin(a).sub(toLin(e.tp.mk("shr", "", t, a, e.tp.intc(k))).scale(1 << uint(k))))
		}
	}
	return e.tp.mk("andc", "", t, a, c)
}

// quo is a / c for a >= 0 and a constant c > 0.
func (e *Engine) quo(a, c *Term, cv *big.Int, t types.Type) *Term {
	if k := int64(cv.BitLen() - 1); int(k) == int(cv.TrailingZeroBits()) && k < 62 {
		if k == 0 {
			return a
		}
		return e.tp.mk("shr", "", t, a, e.tp.intc(k))
	}
	return e.tp.mk("quo", "", t, a, c)
}

func absI(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func (e *Engine) unop(fr *frame, st *State, in *ssa.UnOp) []*State {
	x := e.val(st, in.X)
	switch in.Op {
	case token.MUL:
		if e.nilDeref(fr, st, in, x) {
			return nil
		}
		if x.op == "indexaddr" && isByteType(in.Type()) {
			e.client.Read(e, fr, st, in, x.args[0], x.args[1], e.tp.intc(1))
		}
		e.setv(st, in, e.typed(e.load(st, x, in.Type()), in.Type()))
	case token.NOT:
		e.setv(st, in, e.tp.not(x))
	case token.SUB:
		if isIntType(in.Type()) {
			e.setv(st, in, e.wrapOr(st, toLin(x).neg(), in.Type(), "neg", x, x))
		} else {
			e.setv(st, in, e.tp.mk("neg", "", in.Type(), x))
		}
	case token.XOR:
		lo, hi, ok := e.tp.intRange(in.Type())
		if ok && lo.Sign() >= 0 {
			e.setv(st, in, e.tp.fromLin(linBig(hi).sub(toLin(x))))
		} else {
			e.setv(st, in, e.tp.fromLin(toLin(x).neg().addC(-1)))
		}
	default:
		e.setv(st, in, e.symAt(fr, in, "recv", 0, in.Type(), true))
	}
	return []*State{st}
}

func (e *Engine) convert(fr *frame, st *State, in *ssa.Convert) []*State {
	x := e.val(st, in.X)
	ft, tt := in.X.Type(), in.Type()
	if isIntType(ft) && isIntType(tt) {
		return e.convInt(fr, st, in, x, ft, tt)
	}
	switch {
	case isByteSlice(ft) && isStringType(tt):
		base, off, n, _ := e.sl(x)
		e.client.Read(e, fr, st, in, base, off, n)
		r := e.tp.mk("slice", "", tt, e.tp.mk("str", "", nil, x, e.epoch(st)), e.tp.intc(0), n, n)
		e.setv(st, in, r)
	case isStringType(ft) && isByteSlice(tt):
		n := e.strLen(x)
		base := e.tp.mk("alloc", "bytes@"+fr.siteID(in), tt, x)
		e.setv(st, in, e.mkSlice(tt, base, e.tp.intc(0), n, n))
	case isStringType(ft) && isStringType(tt):
		e.setv(st, in, x)
	default:
		e.setv(st, in, e.tp.mk("conv", types.TypeString(tt, nil), tt, x))
	}
	return []*State{st}
}

func (e *Engine) convInt(fr *frame, st *State, in *ssa.Convert, x *Term, ft, tt types.Type) []*State {
	l := toLin(x)
	if e.inRange(st, l, tt) {
		e.setv(st, in, x)
		return []*State{st}
	}
	lo, hi, _ := e.tp.intRange(tt)
	flo, fhi, ok := e.tp.intRange(ft)
	if !ok {
		flo, fhi = lo, hi
	}
	var out []*State
	// in range
	s1 := st.clone()
	s1.facts = e.addGE(e.addGE(st.facts, l.sub(linBig(lo))), linBig(hi).sub(l))
	if !s1.facts.dead {
		s1.env[in] = x
		out = append(out, s1)
	}
	width := new(big.Int).Sub(hi, lo)
	width.Add(width, bigOne)
	over := func(below bool) {
		s := st.clone()
		var lim, v *Lin
		if below {
			s.facts = e.addGE(st.facts, linBig(lo).addC(-1).sub(l))
			lim = linBig(flo)
			v = l.add(linBig(width))
		} else {
			s.facts = e.addGE(st.facts, l.sub(linBig(hi)).addC(-1))
			lim = linBig(fhi)
			v = l.sub(linBig(width))
		}
		if s.facts.dead {
			return
		}
		// exact when one wrap is enough for every source value
		ext := lim.add(linConst(0))
		if below {
			ext = ext.add(linBig(width))
		} else {
			ext = ext.sub(linBig(width))
		}
		var r *Term
		if ext.c.Cmp(lo) >= 0 && ext.c.Cmp(hi) <= 0 {
			r = e.tp.fromLin(v)
		} else {
			r = e.tp.mk("trunc", types.TypeString(tt, nil), tt, x)
		}
		s.env[in] = r
		e.client.Wrapped(e, fr, s, in, x, r)
		out = append(out, s)
	}
	if flo.Cmp(lo) < 0 {
		over(true)
	}
	if fhi.Cmp(hi) > 0 {
		over(false)
	}
	return out
}

// ---- defers ----

func (e *Engine) runDefers(fr *frame, st *State, in *ssa.RunDefers) []*State {
	sts := []*State{st}
	var done []*State
	for len(sts) > 0 {
		s := sts[0]
		sts = sts[1:]
		if len(s.defers) <= fr.nd {
			done = append(done, s)
			continue
		}
		d := s.defers[len(s.defers)-1]
		s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
		var next []*State
		if d.fn.op == "closure" || d.fn.op == "func" {
			next = e.callFunc(fr, s, d.call, d.fn.fn, d.args, d.fn.args, nil)
		} else {
			next = e.callNamed(fr, s, d.call, &d.call.Call, d.args, nil)
		}
		sts = append(sts, next...)
	}
	return done
}

// ---- reflect types ----

func staticKind(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8,
			types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint,
			types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64,
			types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
			types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String}
		k, ok := m[u.Kind()]
		return int64(k), ok
	case *types.Slice:
		return int64(reflect.Slice), true
	case *types.Array:
		return int64(reflect.Array), true
	case *types.Struct:
		return int64(reflect.Struct), true
	case *types.Pointer:
		return int64(reflect.Ptr), true
	case *types.Map:
		return int64(reflect.Map), true
	case *types.Signature:
		return int64(reflect.Func), true
	case *types.Chan:
		return int64(reflect.Chan), true
	case *types.Interface:
		return int64(reflect.Interface), true
	}
	return 0, false
}

func (e *Engine) typeTerm(t types.Type) *Term {
	switch u := t.(type) {
	case *types.Pointer:
		return e.tp.mk("ptrto", "", nil, e.typeTerm(u.Elem()))
	}
	r := e.tp.mk("ttype", types.TypeString(t, nil), nil)
	if e.staticTypes == nil {
		e.staticTypes = map[*Term]types.Type{}
	}
	e.staticTypes[r] = t
	return r
}

func (e *Engine) rtype(rv *Term) *Term {
	switch rv.op {
	case "rval":
		return rv.args[0]
	case "rvalueof":
		x := rv.args[0]
		if x.op == "iface" && e.ifaceTypes[x] != nil {
			return e.typeTerm(e.ifaceTypes[x])
		}
	case "load":
		// an element of the list of a map's keys
		if a := rv.args[0]; a.op == "indexaddr" && e.keysOf[a.args[0]] != nil {
			return e.tp.mk("pure", "(reflect.Type).Key", nil, e.rtype(e.keysOf[a.args[0]]))
		}
	}
	return e.tp.mk("rtype", "", nil, rv)
}

func (e *Engine) kindOf(T *Term) *Term {
	switch T.op {
	case "ptrto":
		return e.tp.intc(int64(reflect.Ptr))
	case "sliceof":
		return e.tp.intc(int64(reflect.Slice))
	case "ttype":
		if k, ok := staticKind(e.staticTypes[T]); ok {
			return e.tp.intc(k)
		}
	}
	return e.tp.mk("kind", "", types.Typ[types.Uint], T)
}

func (e *Engine) telem(T *Term) *Term {
	switch T.op {
	case "ptrto", "sliceof":
		return T.args[0]
	case "ttype":
		switch u := e.staticTypes[T].Underlying().(type) {
		case *types.Slice:
			return e.typeTerm(u.Elem())
		case *types.Array:
			return e.typeTerm(u.Elem())
		case *types.Map:
			return e.typeTerm(u.Elem())
		}
	}
	return e.tp.mk("telem", "", nil, T)
}

func (e *Engine) rval(T *Term, rest ...*Term) *Term {
	return e.tp.mk("rval", "", nil, append([]*Term{T}, rest...)...)
}

func (e *Engine) repoch(st *State) *Term {
	if t := st.ghost["repoch"]; t != nil {
		return t
	}
	return e.tp.intc(0)
}

func (e *Engine) rbump(fr *frame, st *State, in ssa.Instruction) {
	st.ghost["repoch"] = e.tp.mk("repoch", fr.siteID(in), nil)
}

func (e *Engine) rlen(st *State, rv *Term) *Term {
	if rv.op == "rmade" {
		return rv.args[1]
	}
	if rv.op == "pure" && rv.aux == "(reflect.Value).Slice" && len(rv.args) >= 3 {
		return e.tp.fromLin(toLin(rv.args[2]).sub(toLin(rv.args[1])))
	}
	T := e.rtype(rv)
	k := e.kindOf(T)
	if e.truth(st.facts, e.tp.eq0(toLin(k).addC(-int64(reflect.Array)))) == 1 {
		return e.tp.mk("rlen", "type", types.Typ[types.Int], T)
	}
	return e.tp.mk("rlen", "", types.Typ[types.Int], rv, e.repoch(st))
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

var _ = strings.HasPrefix

func signedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// exactShr adds what the bit length of a says about r = a >> k.
func (e *Engine) exactShr(st *State, r *Term, a *Lin, k int64) *Term {
	if !e.exactBits || k > 64 {
		return r
	}
	if n, ok := e.bitLen(st, a); ok {
		if int64(n) <= k {
			return e.tp.intc(0)
		}
		st.facts = e.between(st.facts, r, pow2(n-1-int(k)), new(big.Int).Sub(pow2(n-int(k)), bigOne))
		return r
	}
	if e.entailsGE(st.facts, a.neg().addC(-1)) && e.entailsGE(st.facts, a.add(linBig(pow2(int(k))))) {
		return e.tp.intc(-1)
	}
	return r
}

// onCycle: b may run more than once.
func onCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// indexClient is a client that wants to see elements being addressed.
type indexClient interface {
	Index(e *Engine, fr *frame, st *State, in *ssa.IndexAddr, base, idx, n *Term)
}
