package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// acctClient follows how far into each byte slice decoding has read. Every
// read must start where the previous one ended (or repeat it); what a decoder
// reports as consumed must be exactly what was read; and a frame copied out of
// the input must be read to its end.
//
// Ghosts per base b of a byte slice:
//
//	cur:b   bytes read and accounted for
//	prev:b  start of the last read, which may be repeated
//	pend:b  extent of a look ahead starting at cur
//	any:b   offsets read by index are not known
//	byte:b  the look ahead is of a single byte read by index
//	flen:b  total length of a frame (weak)
type acctClient struct {
	noClient
	rd       readerClient
	tracked  map[*ssa.Function]bool // functions that read primitives
	roots    map[*ssa.Function]bool
	nReads   map[string]bool
	nReturns int
}

func gk(kind string, b *Term) string { return kind + ":" + strconv.Itoa(b.id) }

// trackable: inputs, and buffers filled while decoding.
func trackable(b *Term) bool {
	switch b.op {
	case "sym":
		return !strings.HasPrefix(b.aux, "lp")
	case "alloc":
		return true
	}
	return false
}

func (a *acctClient) cur(e *Engine, st *State, b *Term) *Lin {
	if c := st.ghost[gk("cur", b)]; c != nil {
		return toLin(c)
	}
	return linConst(0)
}

func eqLin(e *Engine, f *Facts, a, b *Lin) bool {
	d := a.sub(b)
	return e.entailsGE(f, d) && e.entailsGE(f, d.neg())
}

// read records that ext bytes at off of base were interpreted.
func (a *acctClient) read(e *Engine, fr *frame, st *State, at ssa.Instruction, base, off *Term, ext *Lin, peek bool, kind string) {
	if !trackable(base) {
		return
	}
	o, cur := toLin(off), a.cur(e, st, base)
	pend, prev := st.ghost[gk("pend", base)], st.ghost[gk("prev", base)]
	set := func() {
		if peek {
			st.ghost[gk("cur", base)] = off
			st.ghost[gk("pend", base)] = e.tp.fromLin(ext)
		} else {
			st.ghost[gk("cur", base)] = e.tp.fromLin(o.add(ext))
			st.ghost[gk("prev", base)] = off
			delete(st.ghost, gk("pend", base))
		}
		delete(st.ghost, gk("any", base))
		delete(st.ghost, gk("byte", base))
		if kind == "byte" {
			st.ghost[gk("byte", base)] = e.tp.boolc(true)
		}
	}
	within := func(lo, hi *Lin) bool {
		return e.entailsGE(st.facts, o.sub(lo)) && e.entailsGE(st.facts, hi.sub(o).sub(ext))
	}
	ok := true
	switch {
	case peek && prev != nil && within(toLin(prev), cur), peek && pend != nil && within(cur, cur.add(toLin(pend))):
		// repeats a part of the last read
	case eqLin(e, st.facts, o, cur):
		set()
	case pend != nil && eqLin(e, st.facts, o, cur.add(toLin(pend))):
		set()
	case prev != nil && !peek && eqLin(e, st.facts, o, toLin(prev)):
		set()
	case st.ghost[gk("any", base)] != nil && e.entailsGE(st.facts, o.sub(cur)):
		set()
	case peek:
		// a look ahead at an offset that is not followed
		if !e.entailsGE(st.facts, cur.sub(o).addC(-1)) {
			st.ghost[gk("any", base)] = e.tp.boolc(true)
		}
	default:
		ok = false
	}
	if peek {
		return
	}
	a.nReads[lineOf(e.P, at)] = true
	e.oblige(fr, st, "offset", instrPos(at), kind+" starts where the previous read ended", ok, func() string {
		p := ""
		if pend != nil {
			p = ", last look ahead of " + clip(pend.String(), 80)
		}
		return fmt.Sprintf("reads at offset %s, but %s bytes were accounted for%s", clip(o.String(), 120), clip(cur.String(), 120), p)
	})
	if !ok {
		set()
	}
}

// ends is the end of the accounted bytes, and that of a last look ahead.
func (a *acctClient) ends(e *Engine, st *State, b *Term) (must *Lin, may *Lin) {
	cur := a.cur(e, st, b)
	if p := st.ghost[gk("pend", b)]; p != nil {
		return cur, cur.add(toLin(p))
	}
	return cur, nil
}

func inKeyReader(fr *frame) bool {
	for f := fr; f != nil && f.parent != nil; f = f.parent {
		rs := f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if n, ok := rs.At(i).Type().(*types.Named); ok && n.Obj().Name() == "Typ3" {
				return true
			}
		}
	}
	return false
}

func (a *acctClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	a.rd.After(e, fr, st, in, name, args, res)
	switch name {
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		n := toLin(res.args[1])
		if !e.entailsGE(st.facts, n.addC(-1)) {
			return
		}
		b, o, _, _ := e.sl(args[0])
		if c, ok := constOf(o); ok && c.Sign() == 0 && a.lengthFirst(e, fr, b) {
			st.ghost["announced"] = res.args[0]
		}
		a.read(e, fr, st, in, b, o, n, inKeyReader(fr), "varint")
		return
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		sz := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		b, o, _, _ := e.sl(args[1])
		a.read(e, fr, st, in, b, o, linConst(sz), false, "fixed-width integer")
		return
	case "bytes.Equal", "bytes.Compare", "bytes.HasPrefix":
		for i, x := range args[:2] {
			b, o, n, _ := e.sl(x)
			if name == "bytes.HasPrefix" {
				if i == 1 {
					continue
				}
				_, _, n, _ = e.sl(args[1])
			}
			if b.op != "nil" && isTainted(b) {
				a.read(e, fr, st, in, b, o, toLin(n), true, "comparison")
			}
		}
		return
	}
	f := in.Common().StaticCallee()
	if f == nil || e.contracts[f] == nil || !a.tracked[f] {
		return
	}
	bi := bytesParam(f)
	rs := f.Signature.Results()
	ei, ni := rs.Len()-1, -1
	for i := 0; i < rs.Len(); i++ {
		if isIntType(rs.At(i).Type()) {
			ni = i
		}
	}
	if bi < 0 || ei < 0 || !isErrorType(rs.At(ei).Type()) || ni < 0 {
		return
	}
	if e.truth(st.facts, e.isNil(e.field(res, ei, rs.At(ei).Type()))) != 1 {
		return
	}
	b, o, _, _ := e.sl(args[bi])
	a.read(e, fr, st, in, b, o, toLin(e.field(res, ni, rs.At(ni).Type())), false, "nested value")
}

// lengthFirst: the root returns the bytes announced by a length in front of
// its input b.
func (a *acctClient) lengthFirst(e *Engine, fr *frame, b *Term) bool {
	for fr.parent != nil {
		fr = fr.parent
	}
	rs := fr.fn.Signature.Results()
	bi := bytesParam(fr.fn)
	if bi < 0 || rs.Len() != 3 || !isByteSlice(rs.At(0).Type()) && !types.Identical(rs.At(0).Type(), types.Typ[types.String]) {
		return false
	}
	rb, _, _, _ := e.sl(fr.args[bi])
	return rb == b
}

func (a *acctClient) Read(e *Engine, fr *frame, st *State, at ssa.Instruction, base, off, n *Term) {
	a.read(e, fr, st, at, base, off, toLin(n), true, "byte")
}

func (a *acctClient) frame(e *Engine, st *State, base *Term, n *Term) {
	for _, k := range []string{"prev", "pend", "any"} {
		delete(st.ghost, gk(k, base))
	}
	st.ghost[gk("cur", base)] = e.tp.intc(0)
	st.ghost[gk("flen", base)] = n
}

func (a *acctClient) Copy(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term) {
	b, o, n, _ := e.sl(args[1])
	_, _, n1, _ := e.sl(args[0])
	ext := toLin(n)
	if e.entailsGE(st.facts, toLin(n).sub(toLin(n1))) {
		ext = toLin(n1)
	}
	if trackable(b) && isTainted(b) {
		// bytes decoded earlier may be copied to the target as a whole
		_, own := st.ghost[gk("flen", b)]
		a.read(e, fr, st, at, b, o, ext, own, "copy")
	}
	db, do, dn, _ := e.sl(args[0])
	if db.op == "alloc" {
		if c, ok := constOf(do); ok && c.Sign() == 0 {
			a.frame(e, st, db, dn)
		}
	}
}

func (a *acctClient) Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term) {
	if !isByteSlice(at.Common().Args[0].Type()) {
		return
	}
	b, o, n, _ := e.sl(args[1])
	if trackable(b) && isTainted(b) {
		a.read(e, fr, st, at, b, o, toLin(n), false, "append")
	}
	rb, _, rn, _ := e.sl(res)
	a.frame(e, st, rb, rn)
}

// Reslice to the end of the last look ahead accounts for it.
func (a *acctClient) Reslice(e *Engine, fr *frame, st *State, at *ssa.Slice, from, to *Term) {
	b, off, _, _ := e.sl(to)
	if !trackable(b) {
		return
	}
	o, cur := toLin(off), a.cur(e, st, b)
	p := st.ghost[gk("pend", b)]
	switch {
	case eqLin(e, st.facts, o, cur):
		if p == nil {
			delete(st.ghost, gk("prev", b))
		}
	case p != nil && eqLin(e, st.facts, o, cur.add(toLin(p))), st.ghost[gk("any", b)] != nil && e.entailsGE(st.facts, o.sub(cur)):
		st.ghost[gk("cur", b)] = off
		for _, k := range []string{"pend", "prev", "any"} {
			delete(st.ghost, gk(k, b))
		}
	}
}

// frames checks that every frame that was read at all was read to its end.
func (a *acctClient) frames(e *Engine, fr *frame, st *State, at ssa.Instruction, skip map[string]bool) {
	for k, c := range st.ghost {
		if !strings.HasPrefix(k, "cur:") || skip[k] {
			continue
		}
		fl := st.ghost["flen:"+k[4:]]
		if fl == nil {
			continue
		}
		must := toLin(c)
		if must.isConst() && must.c.Sign() == 0 {
			continue
		}
		ok := eqLin(e, st.facts, must, toLin(fl))
		if p := st.ghost["pend:"+k[4:]]; !ok && p != nil {
			ok = eqLin(e, st.facts, must.add(toLin(p)), toLin(fl))
		}
		if !ok && st.ghost["any:"+k[4:]] != nil {
			ok = true
		}
		e.oblige(fr, st, "frame", instrPos(at), "a nested frame is read to its end", ok, func() string {
			return fmt.Sprintf("%s of %s bytes were read", clip(must.String(), 120), clip(fl.String(), 120))
		})
	}
}

func (a *acctClient) Back(e *Engine, fr *frame, head, back *State, l *Loop) {
	skip := map[string]bool{}
	for k := range head.ghost {
		skip[k] = true
	}
	b := l.head
	a.frames(e, fr, back, b.Instrs[len(b.Instrs)-1], skip)
}

func (a *acctClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	a.rd.Return(e, fr, st, rs, at)
	f := fr.fn
	bi := bytesParam(f)
	res := f.Signature.Results()
	ei := res.Len() - 1
	if !a.tracked[f] || ei < 0 || !isErrorType(res.At(ei).Type()) {
		return
	}
	isnil := e.isNil(rs[ei])
	if e.truth(st.facts, isnil) == -1 {
		return
	}
	s2 := st.clone()
	s2.facts = e.assume(st.facts, isnil, true)
	if s2.facts.dead {
		return
	}
	st = s2
	a.nReturns++
	a.frames(e, fr, st, at, map[string]bool{})
	if bi < 0 {
		return
	}
	base, _, ln, _ := e.sl(fr.args[bi])
	must, may := a.ends(e, st, base)
	ni := -1
	for i := 0; i < res.Len()-1; i++ {
		if isIntType(res.At(i).Type()) && types.Identical(res.At(i).Type(), types.Typ[types.Int]) {
			ni = i
		}
	}
	if ni >= 0 {
		n := toLin(rs[ni])
		ok := eqLin(e, st.facts, n, must) || may != nil && eqLin(e, st.facts, n, may)
		if z := must; z.isConst() && z.c.Sign() == 0 && st.ghost[gk("byte", base)] != nil {
			// the only bytes the result can depend on
			ok = may != nil && eqLin(e, st.facts, n, may)
		}
		if !ok && st.ghost[gk("any", base)] != nil {
			ok = e.entailsGE(st.facts, n.sub(must))
		}
		e.oblige(fr, st, "count", instrPos(at), "the reported count is what was read", ok, func() string {
			return fmt.Sprintf("reports %s, but %s bytes were read", clip(n.String(), 120), clip(must.String(), 120))
		})
		if u := st.ghost["announced"]; u != nil {
			l := e.lenOf(rs[0], res.At(0).Type())
			e.oblige(fr, st, "announced", instrPos(at), "as many bytes are returned as were announced", eqLin(e, st.facts, toLin(l), toLin(u)), func() string {
				return fmt.Sprintf("returns %s bytes, but %s were announced", clip(l.String(), 120), clip(u.String(), 120))
			})
		}
		return
	}
	if res.Len() == 1 {
		l := toLin(ln)
		ok := eqLin(e, st.facts, l, must) || may != nil && eqLin(e, st.facts, l, may)
		e.oblige(fr, st, "whole", instrPos(at), "success only if the whole input was consumed", ok, func() string {
			return fmt.Sprintf("%s of %s bytes were read", clip(must.String(), 120), clip(l.String(), 120))
		})
	}
}

// readsPrimitives lists the functions that reach a primitive read.
func readsPrimitives(p *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	direct := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if n == "encoding/binary.Uvarint" || n == "encoding/binary.Varint" || strings.Contains(n, "encoding/binary.littleEndian).Uint") || strings.Contains(n, "encoding/binary.bigEndian).Uint") {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.Funcs {
		for g := range reachable(p, f) {
			if direct(g) {
				out[f] = true
				break
			}
		}
		if bytesParam(f) >= 0 && f.Signature.Results().Len() >= 3 {
			// primitives read by index or copy only
			rs := f.Signature.Results()
			n := rs.Len()
			if isErrorType(rs.At(n-1).Type()) && types.Identical(rs.At(n-2).Type(), types.Typ[types.Int]) {
				out[f] = true
			}
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C10", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation with a read cursor per byte slice: every primitive read starts where the previous one ended, every reported count equals what was read, whole-input operations succeed only at the end of their input, and every frame copied out of the input is read to its end",
		Expl: "every primitive read, every successful return of a decoding function, and every nested frame",
		Trust: []string{
			"encoding/binary reads exactly the bytes it reports",
			"comparisons and single-byte index reads may look ahead without consuming",
		},
		Run: func(p *Program, r *Result) {
			a := &acctClient{tracked: readsPrimitives(p), nReads: map[string]bool{}}
			d := runDecode(p, a)
			r.take(d.e, "offset", "count", "whole", "frame", "announced", "readcount", "object")
			r.floor("primitive reads", len(a.nReads), 10)
			r.floor("successful returns of decoding functions", a.nReturns, 30)
		}})
}

// Start begins counting the bytes of every input slice.
func (a *acctClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	a.rd.Start(e, f, st, args)
	for i, p := range f.Params {
		if isByteSlice(p.Type()) {
			b, _, _, _ := e.sl(args[i])
			st.ghost[gk("cur", b)] = e.tp.intc(0)
		}
	}
}
