package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 14

// call interprets a call; v receives the result.
func (e *Engine) call(fr *frame, st *State, in ssa.CallInstruction, c *ssa.CallCommon, v ssa.Value) []*State {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, in, b.Name(), c, args, v)
	}
	if f := c.StaticCallee(); f != nil {
		var bind []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = e.val(st, mc).args
		}
		return e.callFunc(fr, st, in, f, args, bind, v)
	}
	if !c.IsInvoke() {
		t := e.val(st, c.Value)
		if (t.op == "closure" || t.op == "func") && t.fn != nil {
			return e.callFunc(fr, st, in, t.fn, args, t.args, v)
		}
		if e.closedWorld {
			if fs, ok := e.valueFuncs(c.Signature()); ok && len(fs) > 0 && len(fs) <= 8 {
				var out []*State
				for _, f := range fs {
					out = append(out, e.callFunc(fr, st.clone(), in, f, args, nil, v)...)
				}
				return out
			}
		}
	}
	return e.callNamed(fr, st, in, c, args, v)
}

// valueFuncs lists the functions of this signature that the program uses as
// values; it fails if a closure has the signature.
func (e *Engine) valueFuncs(sig *types.Signature) ([]*ssa.Function, bool) {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	ok := true
	for _, g := range e.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, is := in.(*ssa.MakeClosure); is && types.Identical(mc.Fn.(*ssa.Function).Signature, sig) {
					ok = false
				}
				var direct *ssa.Value
				if c, is := in.(ssa.CallInstruction); is {
					direct = &c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == direct {
						continue
					}
					if f, is := (*op).(*ssa.Function); is && !seen[f] && types.Identical(f.Signature, sig) {
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	return out, ok
}

func (e *Engine) repoFunc(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	for _, p := range e.P.RepoPkgs {
		if f.Pkg == p {
			return true
		}
	}
	return false
}

func (e *Engine) callFunc(fr *frame, st *State, in ssa.CallInstruction, f *ssa.Function, args, bind []*Term, v ssa.Value) []*State {
	name := f.String()
	if !e.repoFunc(f) {
		return e.callNamed(fr, st, in, in.Common(), args, v)
	}
	e.client.Call(e, fr, st, in, name, args)
	if c := e.contracts[f]; c != nil {
		return e.applyContract(fr, st, in, f, c, args, v)
	}
	if e.pureFns && e.pureLeaf(f) && !e.predicate(f) {
		return e.bind(fr, st, in, name, args, v, e.tp.mk("purefn", name, e.resultType(in), args...))
	}
	onStack := 0
	for _, s := range e.stack {
		if s == f {
			onStack++
		}
	}
	taint := false
	for _, a := range append(append([]*Term{}, args...), bind...) {
		if isTainted(a) {
			taint = true
		}
	}
	for _, c := range e.reach(st, append(append([]*Term{}, args...), bind...)...) {
		if isTainted(st.cells[c]) {
			taint = true
		}
	}
	inline := onStack == 0 && fr.depth < maxDepth && (taint || e.inlineAll || e.smallFn(f) || e.predicate(f))
	if e.opaqueFn != nil && e.opaqueFn(f) {
		inline = false
	}
	if !inline {
		if onStack > 0 || fr.depth >= maxDepth {
			if taint {
				e.notes[fmt.Sprintf("call to %s not followed (recursion or depth) in %s", shortName(f), fr.chain())] = true
			}
		}
		return e.opaqueCall(fr, st, in, name, args, v, taint)
	}
	var outer []*Term
	outer = append(outer, fr.outer...)
	for _, t := range st.env {
		outer = append(outer, t)
	}
	outs := e.exec(fr, f, args, bind, st, outer, fr.siteID(in), in)
	var res []*State
	for _, o := range outs {
		if o.panics {
			// nothing in the repository recovers; the panic ends this path
			if len(o.st.defers) > fr.nd {
				// deferred calls of the caller run with the panic
			}
			fr.outs = append(fr.outs, Outcome{st: o.st, panics: true, at: o.at})
			continue
		}
		s := o.st
		s.env = make(map[ssa.Value]*Term, len(st.env)+1)
		for k, t := range st.env {
			s.env[k] = t
		}
		var r *Term
		switch len(o.results) {
		case 0:
		case 1:
			r = o.results[0]
		default:
			r = e.tp.mk("tuple", "", nil, o.results...)
		}
		if v != nil && r != nil {
			s.env[v] = r
		}
		s.path = append(s.path[:len(s.path):len(s.path)], shortName(f)+"@"+lineOf(e.P, o.at))
		e.client.After(e, fr, s, in, name, args, r)
		res = append(res, s)
	}
	return res
}

// smallFn reports whether f and everything it calls in the repository is
// small enough to be interpreted even when it does not see the input.
func (e *Engine) smallFn(f *ssa.Function) bool {
	n, ok := e.inlineSize[f]
	if !ok {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				n += len(b.Instrs)
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil && e.repoFunc(h) {
							walk(h)
						}
					}
				}
			}
		}
		walk(f)
		e.inlineSize[f] = n
	}
	return n <= e.smallLimit
}

// predicate reports whether f only decides about values handed to it: one
// boolean result, no loops, nothing of the repository called.
func (e *Engine) predicate(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 || f.Parent() != nil || len(e.info(f).inner) > 0 {
		return false
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && e.repoFunc(h) {
					return false
				}
			}
		}
	}
	return n <= 200
}

func (e *Engine) resultType(in ssa.CallInstruction) types.Type {
	sig := in.Common().Signature()
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Engine) opaqueCall(fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, v ssa.Value, taint bool) []*State {
	e.havocReach(fr, st, in, taint, args...)
	var r *Term
	if t := e.resultType(in); t != nil {
		r = e.symAt(fr, in, "call:"+short(name), 0, t, taint)
	}
	return e.afterErr(fr, st, in, name, args, v, r)
}

func short(name string) string {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		return name[i+1:]
	}
	return name
}

// afterErr binds the result, splitting on whether a returned error is nil.
func (e *Engine) afterErr(fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, v ssa.Value, r *Term) []*State {
	if v != nil && r != nil {
		st.env[v] = r
	}
	if r == nil {
		e.client.After(e, fr, st, in, name, args, nil)
		return []*State{st}
	}
	et := e.errResult(in, r)
	if et == nil || e.truth(st.facts, e.isNil(et)) != 0 {
		e.client.After(e, fr, st, in, name, args, r)
		return []*State{st}
	}
	s2 := st.clone()
	st.facts = e.assume(st.facts, e.isNil(et), true)
	s2.facts = e.assume(s2.facts, e.isNil(et), false)
	// use an explicit nil on the success path
	r1 := e.withErr(in, r, e.zero(types.Universe.Lookup("error").Type()))
	if v != nil {
		st.env[v] = r1
	}
	e.client.After(e, fr, st, in, name, args, r1)
	e.client.After(e, fr, s2, in, name, args, r)
	return []*State{st, s2}
}

func (e *Engine) withErr(in ssa.CallInstruction, r, err *Term) *Term {
	res := in.Common().Signature().Results()
	if res.Len() == 1 {
		return err
	}
	as := append([]*Term{}, r.args...)
	as[res.Len()-1] = err
	return e.tp.mk("tuple", "", r.typ, as...)
}

// errResult is the term of the last result if it is an error.
func (e *Engine) errResult(in ssa.CallInstruction, r *Term) *Term {
	res := in.Common().Signature().Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return nil
	}
	if res.Len() == 1 {
		return r
	}
	return e.field(r, res.Len()-1, res.At(res.Len()-1).Type())
}

func (e *Engine) bind(fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, v ssa.Value, r *Term) []*State {
	if v != nil && r != nil {
		st.env[v] = r
	}
	e.client.After(e, fr, st, in, name, args, r)
	return []*State{st}
}

// ---- builtins ----

func (e *Engine) builtin(fr *frame, st *State, in ssa.CallInstruction, name string, c *ssa.CallCommon, args []*Term, v ssa.Value) []*State {
	set := func(t *Term) []*State {
		if v != nil {
			st.env[v] = t
		}
		return []*State{st}
	}
	switch name {
	case "len":
		return set(e.lenOf(args[0], c.Args[0].Type()))
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			_, _, _, cp := e.sl(args[0])
			return set(cp)
		}
		return set(e.lenOf(args[0], c.Args[0].Type()))
	case "append":
		_, _, n1, _ := e.sl(args[0])
		n2 := e.lenOf(args[1], c.Args[1].Type())
		sum := toLin(n1).add(toLin(n2))
		taint := isTainted(args[0]) || isTainted(args[1])
		t := c.Args[0].Type()
		if e.taintBytes && isByteSlice(t) {
			taint = true
		}
		tt := ""
		if taint {
			tt = "!"
		}
		if e.preciseBytes {
			if r := e.appendBytes(fr, st, in, args, t); r != nil {
				return set(r)
			}
		}
		base := e.tp.mk("alloc", "append"+tt+"@"+fr.siteID(in), t)
		if taint {
			base.taint = 2
		}
		// the result shares or holds what the operands hold
		e.noteEscapeAll(st, args[1])
		n := e.tp.fromLin(sum)
		cp := e.symAt(fr, in, "cap", 0, types.Typ[types.Int], taint)
		st.facts = e.addGE(st.facts, toLin(cp).sub(sum))
		r := e.mkSlice(t, base, e.tp.intc(0), n, cp)
		e.client.Append(e, fr, st, in, args, r)
		return set(r)
	case "copy":
		_, _, n1, _ := e.sl(args[0])
		n2 := e.lenOf(args[1], c.Args[1].Type())
		if !e.preciseBytes || !e.copyBytes(fr, st, in, args[0], args[1], n2) {
			e.writeBytes(fr, st, in, args[0], isTainted(args[1]))
		}
		e.client.Copy(e, fr, st, in, args)
		var n *Term
		switch {
		case e.entailsGE(st.facts, toLin(n1).sub(toLin(n2))):
			n = n2
		case e.entailsGE(st.facts, toLin(n2).sub(toLin(n1))):
			n = n1
		default:
			n = e.symAt(fr, in, "copied", 0, types.Typ[types.Int], isTainted(n1) || isTainted(n2))
			st.facts = e.addGE(e.addGE(e.addGE(st.facts, toLin(n)), toLin(n1).sub(toLin(n))), toLin(n2).sub(toLin(n)))
		}
		return set(n)
	case "delete":
		e.bump(st)
		e.bumpKey(st, mapKeyOf(c.Args[0].Type()))
		return []*State{st}
	case "panic":
		e.notes["panic builtin call"] = true
		return nil
	case "print", "println", "close":
		return []*State{st}
	case "ssa:wrapnilchk":
		return set(args[0])
	}
	if t := e.resultType(in); t != nil {
		return set(e.symAt(fr, in, "builtin:"+name, 0, t, true))
	}
	e.notes["unmodelled builtin "+name] = true
	return []*State{st}
}

func (e *Engine) noteEscapeAll(st *State, t *Term) {
	for _, c := range e.reach(st, t) {
		st.esc[c] = true
	}
}

// appendBytes is an append of a known small number of bytes to a slice that
// has no room for them.
func (e *Engine) appendBytes(fr *frame, st *State, in ssa.CallInstruction, args []*Term, t types.Type) *Term {
	if !isByteSlice(t) || isStringType(args[1].typ) {
		return nil
	}
	b1, o1, n1, c1 := e.sl(args[0])
	b2, o2, n2, _ := e.sl(args[1])
	l1, ok1 := constOf(n1)
	l2, ok2 := constOf(n2)
	k1, ok3 := constOf(c1)
	if !ok1 || !ok2 || !ok3 || l1.Cmp(k1) != 0 || l1.Int64()+l2.Int64() > 64 || l2.Sign() == 0 {
		return nil
	}
	bt := types.Typ[types.Byte]
	at := types.NewArray(bt, l1.Int64()+l2.Int64())
	cell := e.tp.mk("cell", "append@"+fr.siteID(in), types.NewPointer(at))
	v := e.zero(at)
	pt := types.NewPointer(bt)
	for i := int64(0); i < at.Len(); i++ {
		b, o, d := b1, o1, i
		if i >= l1.Int64() {
			b, o, d = b2, o2, i-l1.Int64()
		}
		x := e.load(st, e.tp.mk("indexaddr", "", pt, b, e.tp.fromLin(toLin(o).addC(d))), bt)
		v = e.tp.mk("arrset", "", at, v, e.tp.intc(i), x)
	}
	st.cells[cell] = v
	n := e.tp.intc(at.Len())
	cp := e.symAt(fr, in, "cap", 0, types.Typ[types.Int], false)
	st.facts = e.addGE(st.facts, toLin(cp).sub(toLin(n)))
	return e.mkSlice(t, cell, e.tp.intc(0), n, cp)
}

// copyBytes copies a known small number of bytes into an array variable, one
// by one.
func (e *Engine) copyBytes(fr *frame, st *State, in ssa.CallInstruction, dst, src, srcLen *Term) bool {
	base, off, n1, _ := e.sl(dst)
	root, _ := addrRoot(base)
	if _, ok := st.cells[root]; !ok {
		return false
	}
	n := n1
	if e.entailsGE(st.facts, toLin(n1).sub(toLin(srcLen))) {
		n = srcLen
	}
	c, ok := constOf(n)
	o, ok2 := constOf(off)
	if !ok || !ok2 || c.Int64() > 64 || isStringType(src.typ) {
		return false
	}
	sb, so, _, _ := e.sl(src)
	bt := types.Typ[types.Byte]
	pt := types.NewPointer(bt)
	var vs []*Term
	for i := int64(0); i < c.Int64(); i++ {
		if e.entailsGE(st.facts, toLin(srcLen).addC(-i-1)) {
			vs = append(vs, e.load(st, e.tp.mk("indexaddr", "", pt, sb, e.tp.fromLin(toLin(so).addC(i))), bt))
		} else {
			vs = append(vs, e.symAt(fr, in, "copiedbyte", int(i), bt, isTainted(src)))
		}
	}
	for i, v := range vs {
		e.store(st, e.tp.mk("indexaddr", "", pt, base, e.tp.intc(o.Int64()+int64(i))), v, bt)
	}
	return true
}

// writeBytes models a write through a slice.
func (e *Engine) writeBytes(fr *frame, st *State, in ssa.CallInstruction, s *Term, taint bool) {
	base, _, _, _ := e.sl(s)
	root, _ := addrRoot(base)
	if cur, ok := st.cells[root]; ok {
		st.cells[root] = e.symAt(fr, in, "written", root.id, derefType(root.typ), taint || isTainted(cur))
		return
	}
	e.bump(st)
}

// havocReach forgets everything an unknown callee could write.
func (e *Engine) havocReach(fr *frame, st *State, in ssa.CallInstruction, taint bool, args ...*Term) {
	var from []*Term
	for _, a := range args {
		if a != nil && a.op == "closure" && a.fn != nil && len(a.fn.FreeVars) == len(a.args) {
			// a variable that the function only reads keeps its value
			for i, x := range a.args {
				if c, ok := st.cells[x]; ok && onlyRead(a.fn.FreeVars[i]) {
					x = c
				}
				from = append(from, x)
			}
			continue
		}
		from = append(from, a)
	}
	for _, c := range e.reach(st, from...) {
		if derefType(c.typ) == nil {
			continue
		}
		st.cells[c] = e.symAt(fr, in, "hav", c.id, derefType(c.typ), taint || isTainted(st.cells[c]))
	}
}

func onlyRead(v *ssa.FreeVar) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

// ---- library models ----

// noFail lists writers whose Write never returns an error.
func noFailWriter(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "*bytes.Buffer" || s == "*strings.Builder" || s == "hash.Hash"
}

var reflectMutators = map[string]bool{"Set": true, "SetBool": true, "SetInt": true, "SetUint": true, "SetFloat": true, "SetString": true,
	"SetBytes": true, "SetLen": true, "SetCap": true, "SetMapIndex": true, "Call": true, "SetComplex": true, "SetZero": true, "Grow": true, "SetPointer": true}

func (e *Engine) callNamed(fr *frame, st *State, in ssa.CallInstruction, c *ssa.CallCommon, args []*Term, v ssa.Value) []*State {
	name := calleeName(c)
	e.client.Call(e, fr, st, in, name, args)
	pos := in.Pos()
	taint := false
	for _, a := range args {
		if isTainted(a) {
			taint = true
		}
	}
	for _, cc := range e.reach(st, args...) {
		if isTainted(st.cells[cc]) {
			taint = true
		}
	}
	rt := e.resultType(in)
	done := func(r *Term) []*State { return e.bind(fr, st, in, name, args, v, r) }
	switch name {
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		_, _, ln, _ := e.sl(args[0])
		tup := rt.(*types.Tuple)
		var out []*State
		for k := 0; k < 3; k++ {
			s := st.clone()
			u := e.symAt(fr, in, "varint", 0, tup.At(0).Type(), taint)
			n := e.symAt(fr, in, "varintlen", 1, tup.At(1).Type(), taint)
			switch k {
			case 0:
				s.facts = e.addGE(s.facts, toLin(n).addC(-1))
				s.facts = e.addGE(s.facts, toLin(ln).sub(toLin(n)))
				s.facts = e.addGE(s.facts, linConst(10).sub(toLin(n)))
			case 1:
				u, n = e.tp.intc(0), e.tp.intc(0)
				s.facts = e.addGE(s.facts, linConst(9).sub(toLin(ln)))
			case 2:
				u = e.tp.intc(0)
				s.facts = e.addGE(s.facts, toLin(n).neg().addC(-1))
				s.facts = e.addGE(s.facts, toLin(ln).add(toLin(n)))
				s.facts = e.addGE(s.facts, toLin(n).addC(11))
			}
			if s.facts.dead {
				continue
			}
			r := e.tp.mk("tuple", "", nil, u, n)
			if v != nil {
				s.env[v] = r
			}
			e.client.After(e, fr, s, in, name, args, r)
			out = append(out, s)
		}
		return out
	case "encoding/binary.AppendUvarint", "encoding/binary.AppendVarint":
		if e.exactBits {
			if k, ok := e.varintLen(st, toLin(args[1]), strings.HasSuffix(name, "AppendVarint")); ok {
				_, _, ln, _ := e.sl(args[0])
				b := e.symAt(fr, in, "appended", 0, rt, taint)
				n := e.tp.fromLin(toLin(ln).addC(k))
				base, off, _, cp := e.sl(b)
				st.facts = e.addGE(st.facts, toLin(cp).sub(toLin(n)))
				return done(e.mkSlice(rt, base, off, n, cp))
			}
		}
	case "encoding/binary.PutUvarint", "encoding/binary.PutVarint":
		_, _, ln, _ := e.sl(args[0])
		x := toLin(args[1])
		ok := e.entailsGE(st.facts, toLin(ln).addC(-10))
		if !ok {
			if n, isC := constOf(ln); isC && n.IsInt64() && n.Int64() >= 1 && n.Int64() < 10 {
				lim := linConst(1 << uint(7*n.Int64())).addC(-1)
				if strings.HasSuffix(name, "PutVarint") {
					h := linConst(1 << uint(7*n.Int64()-1))
					ok = e.entailsGE(st.facts, h.addC(-1).sub(x)) && e.entailsGE(st.facts, x.add(h))
				} else {
					ok = e.entailsGE(st.facts, lim.sub(x))
				}
			}
		}
		e.oblige(fr, st, "index", pos, "buffer holds the varint", ok, func() string { return "buffer of length " + ln.String() + " may be too short for " + args[1].String() })
		e.writeBytes(fr, st, in, args[0], taint)
		if e.exactBits {
			if k, ok := e.varintLen(st, x, strings.HasSuffix(name, "PutVarint")); ok {
				return done(e.tp.intc(k))
			}
		}
		n := e.symAt(fr, in, "putlen", 0, types.Typ[types.Int], taint)
		st.facts = e.addGE(e.addGE(e.addGE(st.facts, toLin(n).addC(-1)), linConst(10).sub(toLin(n))), toLin(ln).sub(toLin(n)))
		st.ghost["put:"+fmt.Sprint(n.id)] = args[1]
		return done(n)
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		sz := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		_, _, ln, _ := e.sl(args[1])
		e.requireGE(fr, st, "index", pos, "enough bytes for the fixed-width integer", toLin(ln).addC(-sz))
		return done(e.tp.mk("fixed", name, rt, args[1], e.epoch(st)))
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64",
		"(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		sz := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		_, _, ln, _ := e.sl(args[1])
		e.requireGE(fr, st, "index", pos, "room for the fixed-width integer", toLin(ln).addC(-sz))
		e.writeBytes(fr, st, in, args[1], taint)
		return done(nil)
	case "io.ReadFull", "io.ReadAtLeast":
		_, _, ln, _ := e.sl(args[1])
		e.writeBytes(fr, st, in, args[1], true)
		tup := rt.(*types.Tuple)
		s2 := st.clone()
		if name == "io.ReadFull" {
			r := e.tp.mk("tuple", "", nil, ln, e.zero(tup.At(1).Type()))
			if v != nil {
				st.env[v] = r
			}
			e.client.After(e, fr, st, in, name, args, r)
		} else {
			n := e.symAt(fr, in, "nread", 0, tup.At(0).Type(), true)
			st.facts = e.addGE(e.addGE(st.facts, toLin(n).sub(toLin(args[2]))), toLin(ln).sub(toLin(n)))
			r := e.tp.mk("tuple", "", nil, n, e.zero(tup.At(1).Type()))
			if v != nil {
				st.env[v] = r
			}
			e.client.After(e, fr, st, in, name, args, r)
		}
		n := e.symAt(fr, in, "nread", 0, tup.At(0).Type(), true)
		s2.facts = e.addGE(e.addGE(s2.facts, toLin(n)), toLin(ln).sub(toLin(n)).addC(-1))
		er := e.nonnilErr(fr, in, true)
		r := e.tp.mk("tuple", "", nil, n, er)
		if v != nil {
			s2.env[v] = r
		}
		e.client.After(e, fr, s2, in, name, args, r)
		return []*State{st, s2}
	case "io.LimitReader":
		return done(e.tp.mk("iface", "limitreader", rt, e.tp.mk("limited", "", nil, args...)))
	case "io/ioutil.ReadAll", "io.ReadAll":
		tup := rt.(*types.Tuple)
		mkr := func(s *State, ok bool) {
			b := e.symAt(fr, in, "readall", 0, tup.At(0).Type(), true)
			_, _, n, _ := e.sl(b)
			if e.P.Sizes.Sizeof(types.Typ[types.Int]) == 8 {
				// an allocation of bytes fits into the address space
				s.facts = e.addGE(s.facts, linConst(1<<48).sub(toLin(n)))
			}
			a := args[0]
			if a.op == "iface" && a.args[0].op == "limited" {
				lim := a.args[0].args[1]
				if e.entailsGE(s.facts, toLin(lim)) {
					s.facts = e.addGE(s.facts, toLin(lim).sub(toLin(n)))
				}
			}
			er := e.zero(tup.At(1).Type())
			if !ok {
				er = e.nonnilErr(fr, in, true)
			}
			r := e.tp.mk("tuple", "", nil, b, er)
			if v != nil {
				s.env[v] = r
			}
			e.client.After(e, fr, s, in, name, args, r)
		}
		s2 := st.clone()
		mkr(st, true)
		mkr(s2, false)
		return []*State{st, s2}
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return done(e.nonnilErr(fr, in, taint))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		return done(args[0])
	case "unicode.IsUpper", "unicode.IsLower":
		if k, ok := constOf(args[0]); ok && k.IsInt64() {
			up := unicode.IsUpper(rune(k.Int64()))
			if name == "unicode.IsLower" {
				up = unicode.IsLower(rune(k.Int64()))
			}
			return done(e.tp.boolc(up))
		}
		return done(e.tp.mk("pure", name, rt, args...))
	case "reflect.DeepEqual":
		return done(e.tp.mk("pure", name, rt, args[0], args[1], e.epoch(st), e.repoch(st)))
	case "bytes.Equal":
		return done(e.tp.mk("byteseq", "", rt, args[0], args[1], e.epoch(st)))
	case "math/bits.Len64", "math/bits.Len32", "math/bits.Len", "math/bits.Len8", "math/bits.Len16":
		if e.exactBits {
			if k, ok := e.bitLen(st, toLin(args[0])); ok {
				return done(e.tp.intc(int64(k)))
			}
		}
		r := e.tp.mk("bitlen", name, rt, args[0])
		st.facts = e.addGE(e.addGE(st.facts, toLin(r)), linConst(64).sub(toLin(r)))
		return done(r)
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		return done(e.tp.mk("pure", name, rt, args...))
	case "(reflect.Value).MapKeys":
		b := e.symAt(fr, in, "mapkeys", 0, rt, taint)
		base, _, n, _ := e.sl(b)
		st.facts = e.addGE(st.facts, toLin(n))
		if e.keysOf == nil {
			e.keysOf = map[*Term]*Term{}
		}
		e.keysOf[base] = args[0]
		return done(b)
	case "reflect.ValueOf":
		return done(e.tp.mk("rvalueof", "", rt, args[0]))
	case "reflect.TypeOf":
		if args[0].op == "iface" && e.ifaceTypes[args[0]] != nil {
			return done(e.typeTerm(e.ifaceTypes[args[0]]))
		}
		return done(e.tp.mk("rtypeof", "", rt, args[0]))
	case "reflect.PtrTo", "reflect.PointerTo":
		return done(e.tp.mk("ptrto", "", rt, args[0]))
	case "reflect.SliceOf":
		return done(e.tp.mk("sliceof", "", rt, args[0]))
	case "reflect.New":
		return done(e.rval(e.tp.mk("ptrto", "", nil, args[0]), e.tp.mk("new", fr.siteID(in), nil)))
	case "reflect.Zero":
		return done(e.rval(args[0], e.tp.mk("zero", "", nil)))
	case "reflect.MakeSlice":
		e.requireGE(fr, st, "makeslice", pos, "reflect.MakeSlice: length is not negative", toLin(args[1]))
		e.requireGE(fr, st, "makeslice", pos, "reflect.MakeSlice: length does not exceed capacity", toLin(args[2]).sub(toLin(args[1])))
		e.client.Alloc(e, fr, st, in, args[2])
		return done(e.tp.mk("rmade", "", rt, args[0], args[1], e.tp.mk("new", fr.siteID(in), nil)))
	case "reflect.MakeMapWithSize":
		e.client.Alloc(e, fr, st, in, args[1])
		return done(e.rval(args[0], e.tp.mk("new", fr.siteID(in), nil)))
	case "reflect.MakeMap":
		return done(e.rval(args[0], e.tp.mk("new", fr.siteID(in), nil)))
	case "reflect.Append", "reflect.AppendSlice":
		return done(e.rval(e.rtype(args[0]), e.tp.mk("appended", fr.siteID(in), nil)))
	case "reflect.Copy":
		e.rbump(fr, st, in)
		return done(e.symAt(fr, in, "copied", 0, rt, taint))
	case "encoding/json.Unmarshal":
		e.havocReach(fr, st, in, true, args[1])
		// a Value passed by Interface() may be written
		e.rbump(fr, st, in)
		return e.afterErr(fr, st, in, name, args, v, e.symAt(fr, in, "jsonerr", 0, rt, true))
	case "(*bytes.Buffer).Len":
		return done(e.memo(st, fr, in, name, rt, args, taint))
	}
	// writers that cannot fail
	if strings.HasSuffix(name, ").Write") || strings.HasSuffix(name, ").WriteString") || strings.HasSuffix(name, ").WriteByte") {
		recv := args[0]
		var recvT types.Type
		if c.IsInvoke() {
			recvT = c.Value.Type()
			if recv.op == "iface" && e.ifaceTypes[recv] != nil {
				recvT = e.ifaceTypes[recv]
			}
		} else {
			recvT = c.Args[0].Type()
		}
		if noFailWriter(recvT) {
			var r *Term
			er := e.zero(types.Universe.Lookup("error").Type())
			if tup, ok := rt.(*types.Tuple); ok {
				n := e.symAt(fr, in, "nwritten", 0, tup.At(0).Type(), false)
				if len(args) > 1 {
					n = e.lenOf(args[1], c.Args[len(c.Args)-1].Type())
				}
				r = e.tp.mk("tuple", "", nil, n, er)
			} else {
				r = er
			}
			return done(r)
		}
		if tup, ok := rt.(*types.Tuple); ok && len(args) > 1 {
			ln := e.lenOf(args[1], c.Args[len(c.Args)-1].Type())
			s2 := st.clone()
			r := e.tp.mk("tuple", "", nil, ln, e.zero(tup.At(1).Type()))
			if v != nil {
				st.env[v] = r
			}
			e.client.After(e, fr, st, in, name, args, r)
			n := e.symAt(fr, in, "nwritten", 0, tup.At(0).Type(), taint)
			s2.facts = e.addGE(e.addGE(s2.facts, toLin(n)), toLin(ln).sub(toLin(n)))
			r2 := e.tp.mk("tuple", "", nil, n, e.nonnilErr(fr, in, taint))
			if v != nil {
				s2.env[v] = r2
			}
			e.client.After(e, fr, s2, in, name, args, r2)
			return []*State{st, s2}
		}
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		return e.reflectValue(fr, st, in, name[len("(reflect.Value)."):], name, args, v, rt, taint)
	}
	if strings.HasPrefix(name, "(reflect.Type).") {
		m := name[len("(reflect.Type)."):]
		T := args[0]
		switch m {
		case "Kind":
			return done(e.kindOf(T))
		case "Elem":
			return done(e.telem(T))
		case "Implements":
			return done(e.tp.mk("implements", "", rt, T, args[1]))
		case "Len":
			return done(e.tp.mk("rlen", "type", rt, T))
		}
		return done(e.memo(st, fr, in, name, rt, args, taint))
	}
	if pureStd(name) {
		r := e.memo(st, fr, in, name, rt, args, taint)
		if name == "(time.Time).Nanosecond" {
			st.facts = e.addGE(e.addGE(st.facts, toLin(r)), linConst(999999999).sub(toLin(r)))
		}
		return done(r)
	}
	e.havocReach(fr, st, in, taint, args...)
	var r *Term
	if rt != nil {
		r = e.symAt(fr, in, "call:"+short(name), 0, rt, taint)
	}
	return e.afterErr(fr, st, in, name, args, v, r)
}

// pureStd lists library functions whose result depends on the argument
// values only.
func pureStd(name string) bool {
	for _, p := range []string{"(time.Time).", "time.Unix", "strings.Split", "strings.Has", "unicode.", "(reflect.StructTag).", "math.", "bits.", "strconv."} {
		if strings.HasPrefix(name, p) {
			return !strings.HasSuffix(name, ".UnmarshalJSON")
		}
	}
	return false
}

func (e *Engine) memo(st *State, fr *frame, in ssa.CallInstruction, name string, rt types.Type, args []*Term, taint bool) *Term {
	if rt == nil {
		return nil
	}
	as := append(append([]*Term{}, args...), e.epoch(st))
	if strings.HasPrefix(name, "(reflect.Type)") || pureStd(name) {
		as = args
	}
	if strings.HasPrefix(name, "(*bytes.Buffer)") {
		return e.symAt(fr, in, "buf", 0, rt, taint)
	}
	if tup, ok := rt.(*types.Tuple); ok {
		var fs []*Term
		for i := 0; i < tup.Len(); i++ {
			fs = append(fs, e.tp.mk("pure", fmt.Sprintf("%s.%d", name, i), tup.At(i).Type(), as...))
		}
		return e.tp.mk("tuple", "", rt, fs...)
	}
	return e.tp.mk("pure", name, rt, as...)
}

func (e *Engine) nonnilErr(fr *frame, in ssa.CallInstruction, taint bool) *Term {
	tt := ""
	if taint {
		tt = "!"
	}
	t := e.tp.mk("nonnil", "err"+tt+"@"+fr.siteID(in), types.Universe.Lookup("error").Type())
	if taint {
		t.taint = 2
	}
	return t
}

func (e *Engine) reflectValue(fr *frame, st *State, in ssa.CallInstruction, m, name string, args []*Term, v ssa.Value, rt types.Type, taint bool) []*State {
	done := func(r *Term) []*State { return e.bind(fr, st, in, name, args, v, r) }
	rv := args[0]
	switch m {
	case "Kind":
		if rv == e.zero(in.Common().Args[0].Type()) {
			return done(e.tp.intc(0))
		}
		return done(e.kindOf(e.rtype(rv)))
	case "Type":
		return done(e.rtype(rv))
	case "Elem":
		T := e.rtype(rv)
		if T.op == "ptrto" {
			return done(e.rval(T.args[0], e.tp.mk("deref", "", nil, rv)))
		}
		k := e.kindOf(T)
		if e.truth(st.facts, e.tp.eq0(toLin(k).addC(-int64(reflect.Ptr)))) == 1 {
			return done(e.rval(e.telem(T), e.tp.mk("deref", "", nil, rv, e.repoch(st))))
		}
		return done(e.tp.mk("relem", "", rt, rv, e.repoch(st)))
	case "Addr":
		return done(e.rval(e.tp.mk("ptrto", "", nil, e.rtype(rv)), e.tp.mk("addr", "", nil, rv)))
	case "Index":
		i := args[1]
		n := e.rlen(st, rv)
		if isTainted(i) || isTainted(n) || e.strictRIndex {
			e.requireGE(fr, st, "index", in.Pos(), "reflect index is not negative", toLin(i))
			e.requireGE(fr, st, "index", in.Pos(), "reflect index is less than length", toLin(n).sub(toLin(i)).addC(-1))
		}
		return done(e.rval(e.telem(e.rtype(rv)), e.tp.mk("ridx", "", nil, rv, i)))
	case "Field":
		return done(e.tp.mk("rfield", "", rt, rv, args[1]))
	case "Len":
		return done(e.rlen(st, rv))
	case "CanAddr", "CanSet", "IsValid", "CanInterface":
		if m == "IsValid" && rv == e.zero(in.Common().Args[0].Type()) {
			return done(e.tp.boolc(false))
		}
		return done(e.tp.mk("pure", m, rt, rv))
	case "IsNil", "IsZero":
		return done(e.tp.mk("ris", m, rt, rv, e.repoch(st)))
	case "Interface":
		return done(e.tp.mk("rinterface", "", rt, rv, e.repoch(st)))
	case "Bytes":
		n := e.rlen(st, rv)
		b := e.tp.mk("rbytes", "", rt, rv)
		return done(e.mkSlice(rt, b, e.tp.intc(0), n, n))
	case "OverflowInt", "OverflowUint":
		if lo, hi, ok := e.kindRange(st, e.rtype(rv)); ok {
			x := toLin(args[1])
			var out []*State
			for i, f := range []*Facts{
				e.addGE(st.facts, linBig(lo).addC(-1).sub(x)),
				e.addGE(st.facts, x.sub(linBig(hi)).addC(-1)),
				e.addGE(e.addGE(st.facts, x.sub(linBig(lo))), linBig(hi).sub(x))} {
				if f.dead || e.entailsGE(f, linConst(-1)) {
					continue
				}
				s := st.clone()
				s.facts = f
				if in.Value() != nil {
					e.setv(s, in.Value(), e.tp.boolc(i < 2))
				}
				out = append(out, s)
			}
			return out
		}
	case "Call":
		e.rbump(fr, st, in)
		r := e.symAt(fr, in, "rcall", 0, rt, false)
		_, _, n, _ := e.sl(r)
		// methods are called with the signature checked at type-info time
		st.facts = e.addGE(st.facts, toLin(n).addC(-1))
		st.facts = e.addGE(st.facts, toLin(n).addC(-2))
		return done(r)
	}
	if reflectMutators[m] {
		e.rbump(fr, st, in)
		var r *Term
		if rt != nil {
			r = e.symAt(fr, in, "r"+m, 0, rt, taint)
		}
		return done(r)
	}
	if rt == nil {
		return done(nil)
	}
	return done(e.tp.mk("pure", name, rt, append(append([]*Term{}, args...), e.repoch(st))...))
}

// kindRange is the range of the integers of the kind of T, or of the kind
// being dispatched on, when that is known.
func (e *Engine) kindRange(st *State, T *Term) (lo, hi *big.Int, ok bool) {
	k := int64(-1)
	if c, isC := constOf(e.kindOf(T)); isC {
		k = c.Int64()
	} else {
		for a, m := range st.facts.mask {
			if l, h := maskRange(m); isKindAtom(a) && dispatchAtom(a) && l == h {
				if k >= 0 && k != int64(l) {
					return nil, nil, false
				}
				k = int64(l)
			}
		}
	}
	if bk, isInt := kindTypes[reflect.Kind(k)]; isInt {
		return e.tp.intRange(types.Typ[bk])
	}
	return nil, nil, false
}

// pureLeaf: f computes its result from its arguments alone and calls nothing.
func (e *Engine) pureLeaf(f *ssa.Function) bool {
	if r, ok := e.pureMemo[f]; ok {
		return r
	}
	if e.pureMemo == nil {
		e.pureMemo = map[*ssa.Function]bool{}
	}
	var value func(t types.Type) bool
	value = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Kind() != types.UnsafePointer
		case *types.Array:
			return value(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if !value(u.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		return false
	}
	ok := f.Parent() == nil && f.Signature.Results().Len() == 1
	for _, p := range f.Params {
		ok = ok && value(p.Type())
	}
	if ok {
		ok = value(f.Signature.Results().At(0).Type())
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				if _, isB := in.Common().Value.(*ssa.Builtin); !isB {
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Panic, *ssa.MakeClosure:
				ok = false
			case *ssa.UnOp:
				if _, isG := in.X.(*ssa.Global); isG {
					ok = false
				}
			case *ssa.Store:
				if _, isG := in.Addr.(*ssa.Global); isG {
					ok = false
				}
			}
		}
	}
	e.pureMemo[f] = ok
	return ok
}
