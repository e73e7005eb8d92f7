package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// readerClient follows how many bytes were requested and obtained from the
// reader an entry point was given.
//
// Ghosts: rd (bytes obtained), ann (length announced by the prefix), pay
// (bytes obtained since the prefix was complete), last (weak: value of the
// last byte obtained).
type readerClient struct {
	noClient
	nReq, nRet int
	mode       int            // 1: this run has a positive maximum, 2: it has none
	from       map[*Term]bool // memory read into
}

func isReader(t types.Type) bool { return types.TypeString(t, nil) == "io.Reader" }

func readerParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isReader(p.Type()) {
			return i
		}
	}
	return -1
}

func (c *readerClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	if readerParam(f) < 0 {
		return
	}
	st.ghost["rd"] = e.tp.intc(0)
	c.from = map[*Term]bool{}
	for i, p := range f.Params {
		if isIntType(p.Type()) {
			switch mx := toLin(args[i]); c.mode {
			case 1:
				st.facts = e.addGE(st.facts, mx.addC(-1))
			case 2:
				st.facts = e.addGE(st.facts, mx.neg())
			}
		}
	}
}

// source tells whether t is (a limited view of) the root's reader, and the
// limit if there is one.
func (c *readerClient) source(e *Engine, fr *frame, t *Term) (bool, *Term) {
	root := fr
	for root.parent != nil {
		root = root.parent
	}
	i := readerParam(root.fn)
	if i < 0 {
		return false, nil
	}
	r := root.args[i]
	var lim *Term
	for t.op == "iface" && len(t.args) == 1 && t.args[0].op == "limited" {
		if lim == nil {
			lim = t.args[0].args[1]
		}
		t = t.args[0].args[0]
	}
	return t == r, lim
}

// request checks a read of at most m bytes (nil: unlimited).
func (c *readerClient) request(e *Engine, fr *frame, st *State, in ssa.CallInstruction, m *Lin) {
	c.nReq++
	root := fr
	for root.parent != nil {
		root = root.parent
	}
	rd := toLin(st.ghost["rd"])
	for i, p := range root.fn.Params {
		if c.mode == 1 && isIntType(p.Type()) {
			ok := st.facts.dead || m != nil && e.entailsGE(st.facts, toLin(root.args[i]).sub(rd).sub(m))
			e.oblige(fr, st, "maxsize", instrPos(in), "no more than the maximum size is read", ok, func() string {
				return fmt.Sprintf("after %s bytes, reads %s more", clip(rd.String(), 100), limStr(m))
			})
		}
	}
	ann := st.ghost["ann"]
	ok := false
	if ann == nil {
		ok = m != nil && e.entailsGE(st.facts, linConst(1).sub(m))
	} else {
		ok = m != nil && e.entailsGE(st.facts, toLin(ann).sub(toLin(st.ghost["pay"])).sub(m))
	}
	e.oblige(fr, st, "beyond", instrPos(in), "nothing beyond the announced object is read", ok, func() string {
		if ann == nil {
			return "reads " + limStr(m) + " before the length prefix is complete"
		}
		return fmt.Sprintf("reads %s of %s announced bytes", limStr(m), clip(ann.String(), 100))
	})
}

func limStr(m *Lin) string {
	if m == nil {
		return "an unlimited number of bytes"
	}
	return clip(m.String(), 100) + " bytes"
}

func (c *readerClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	if st.ghost["rd"] == nil {
		return
	}
	if f := in.Common().StaticCallee(); f != nil && e.repoFunc(f) {
		return
	}
	for i, a := range args {
		src, lim := c.source(e, fr, a)
		if !src {
			continue
		}
		switch {
		case name == "io.LimitReader":
			return
		case strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "reflect."):
			return
		}
		var m *Lin
		switch {
		case name == "io.ReadFull" || strings.HasSuffix(name, ".Read") && i == 0:
			_, _, n, _ := e.sl(args[1])
			m = toLin(n)
		case name == "io.ReadAtLeast":
			_, _, n, _ := e.sl(args[1])
			m = toLin(n)
		case name == "io.CopyN":
			m = toLin(args[2])
		}
		if lim != nil && e.entailsGE(st.facts, toLin(lim)) {
			if m == nil || !e.entailsGE(st.facts, toLin(lim).sub(m)) {
				m = toLin(lim)
			}
		}
		c.request(e, fr, st, in, m)
	}
}

func (c *readerClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if st.ghost["rd"] == nil {
		return
	}
	if name == "encoding/binary.Uvarint" {
		b, _, _, _ := e.sl(args[0])
		if c.from[b] && e.entailsGE(st.facts, toLin(res.args[1]).addC(-1)) {
			st.ghost["ann"] = res.args[0]
			st.ghost["pay"] = e.tp.intc(0)
		}
		return
	}
	if f := in.Common().StaticCallee(); f != nil && e.repoFunc(f) {
		return
	}
	for i, a := range args {
		src, _ := c.source(e, fr, a)
		if !src || name == "io.LimitReader" || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "reflect.") {
			continue
		}
		var n *Lin
		switch {
		case name == "io.ReadFull" || name == "io.ReadAtLeast" || strings.HasSuffix(name, ".Read") && i == 0:
			n = toLin(e.field(res, 0, types.Typ[types.Int]))
			b, o, ln, _ := e.sl(args[1])
			c.from[b] = true
			st.ghost["last:"] = e.load(st, e.tp.mk("indexaddr", "", nil, b, e.tp.fromLin(toLin(o).add(toLin(ln)).addC(-1))), types.Typ[types.Byte])
			if strings.HasSuffix(name, ".Read") {
				st.facts = e.addGE(e.addGE(st.facts, n), toLin(ln).sub(n))
			}
		case name == "io.CopyN":
			n = toLin(e.field(res, 0, types.Typ[types.Int64]))
		case strings.HasSuffix(name, ".ReadAll"):
			_, _, k, _ := e.sl(e.field(res, 0, types.NewSlice(types.Typ[types.Byte])))
			n = toLin(k)
		default:
			n = toLin(e.symAt(fr, in, "rdunknown", 0, types.Typ[types.Int64], true))
		}
		st.ghost["rd"] = e.tp.fromLin(toLin(st.ghost["rd"]).add(n))
		if p := st.ghost["pay"]; p != nil {
			st.ghost["pay"] = e.tp.fromLin(toLin(p).add(n))
		}
	}
}

// Store: the prefix may be collected byte by byte in another buffer.
func (c *readerClient) Store(e *Engine, fr *frame, st *State, at *ssa.Store, addr *Term) {
	if v := st.ghost["last:"]; v != nil && addr.op == "indexaddr" && e.val(st, at.Val) == v {
		c.from[addr.args[0]] = true
	}
}

// Back: a loop reading the prefix only goes on after a byte that says so.
func (c *readerClient) Back(e *Engine, fr *frame, head, back *State, l *Loop) {
	rh, rb := head.ghost["rd"], back.ghost["rd"]
	if rh == nil || rb == nil || rh == rb || back.ghost["ann"] != nil {
		return
	}
	by := back.ghost["last:"]
	if by == nil {
		return
	}
	ok := e.entailsGE(back.facts, toLin(by).addC(-128))
	if !ok {
		for _, ls := range [][]*Lin{back.facts.nes, back.facts.ges, back.facts.eqs} {
			for _, x := range ls {
				for _, t := range x.atoms {
					if t.op == "andc" && t.args[0] == by {
						if k, isC := constOf(t.args[1]); isC && k.Int64() == 128 && e.truth(back.facts, e.tp.eq0(toLin(t))) == -1 {
							ok = true
						}
					}
				}
			}
		}
	}
	at := l.head.Instrs[len(l.head.Instrs)-1]
	e.oblige(fr, back, "beyond", instrPos(at), "the prefix is read on only after a continuation byte", ok, func() string {
		return "another byte is read although " + clip(by.String(), 80) + " may end the prefix"
	})
}

func (c *readerClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	f := fr.fn
	if st.ghost["rd"] == nil || len(rs) < 2 {
		return
	}
	res := f.Signature.Results()
	ei := res.Len() - 1
	if !isErrorType(res.At(ei).Type()) || !isIntType(res.At(0).Type()) {
		return
	}
	isnil := e.isNil(rs[ei])
	if e.truth(st.facts, isnil) == -1 {
		return
	}
	fs := e.assume(st.facts, isnil, true)
	if fs.dead {
		return
	}
	c.nRet++
	n, rd := toLin(rs[0]), toLin(st.ghost["rd"])
	e.oblige(fr, st, "readcount", instrPos(at), "the reported count is what was read from the reader", eqLin(e, fs, n, rd), func() string {
		return fmt.Sprintf("reports %s, but %s bytes were read", clip(n.String(), 120), clip(rd.String(), 120))
	})
	if a := st.ghost["ann"]; a != nil {
		p := toLin(st.ghost["pay"])
		e.oblige(fr, st, "object", instrPos(at), "the whole announced object was read", eqLin(e, fs, p, toLin(a)), func() string {
			return fmt.Sprintf("%s of %s announced bytes were read", clip(p.String(), 120), clip(a.String(), 120))
		})
	}
}

func init() {
	register(&Check{ID: "C18", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation counting the bytes requested and obtained from the reader: with a positive maximum every request fits into what is left of it, prefix bytes are requested one at a time and only after a continuation byte, and object bytes only up to the announced length",
		Expl: "every request to the reader and every successful return of the reading entry points",
		Trust: []string{
			"io.ReadFull, io.ReadAll, io.LimitReader and binary.Uvarint behave as documented",
			"the reader itself returns no more than was requested",
		},
		Run: func(p *Program, r *Result) {
			c := &readerClient{}
			e := newEngine(p)
			e.taintBytes = true
			e.smallLimit = 60
			e.client = c
			var roots, scc []*ssa.Function
			for _, f := range decodeRoots(p) {
				if readerParam(f) >= 0 {
					roots = append(roots, f)
				}
			}
			for _, f := range recursive(p, reachable(p, roots...)) {
				if bytesParam(f) >= 0 {
					scc = append(scc, f)
				}
			}
			e.inferContracts(scc)
			for _, c.mode = range []int{1, 2} {
				for _, f := range roots {
					e.loopCache = nil
					e.runRoot(f)
				}
			}
			r.take(e, "maxsize", "beyond", "readcount", "object")
			r.floor("reading entry points", len(roots), 2)
			r.floor("requests", c.nReq, 2)
			r.floor("successful returns", c.nRet, 1)
		}})
}
