package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bitLen is the bit length of a value known to lie between two powers of two.
func (e *Engine) bitLen(st *State, l *Lin) (int, bool) {
	for k := 0; k <= 64; k++ {
		if e.entailsGE(st.facts, linBig(pow2(k)).addC(-1).sub(l)) {
			if k == 0 {
				return 0, e.entailsGE(st.facts, l)
			}
			return k, e.entailsGE(st.facts, l.sub(linBig(pow2(k-1))))
		}
	}
	return 0, false
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(bigOne, uint(k)) }

func bytesFor(bits int) int64 {
	if bits == 0 {
		return 1
	}
	return int64(bits+6) / 7
}

// varintLen is the number of bytes the standard library writes for a value.
func (e *Engine) varintLen(st *State, x *Lin, signed bool) (int64, bool) {
	if signed {
		switch {
		case e.entailsGE(st.facts, x):
			x = x.scale(2)
		case e.entailsGE(st.facts, x.neg().addC(-1)):
			x = x.scale(-2).addC(-1)
		default:
			return 0, false
		}
	}
	k, ok := e.bitLen(st, x)
	return bytesFor(k), ok
}

// sizeClient compares a size with the number of bytes written, for arguments
// of one bit length.
type sizeClient struct {
	noClient
	rule  string
	part  string
	bits  int  // of the argument, or of its zigzag form
	neg   bool // a negative argument
	kind  string
	arg   *Term
	bytes bool // the argument is a byte slice
	want  *Lin
	n     int
}

func (c *sizeClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	a := args[len(args)-1]
	if c.bytes {
		_, _, a, _ = e.sl(a)
	}
	lo, hi := new(big.Int), new(big.Int)
	if c.bits > 0 {
		lo = pow2(c.bits - 1)
		hi = new(big.Int).Sub(pow2(c.bits), bigOne)
	}
	want := linConst(bytesFor(c.bits))
	switch {
	case c.kind == "signed" && !c.neg:
		// zigzag form 2a
		want = linConst(bytesFor(c.bits + 1))
		if c.bits == 0 {
			want = linConst(1)
		}
	case c.kind == "signed":
		// zigzag form 2(-a-1)+1
		lo, hi = new(big.Int).Sub(new(big.Int).Neg(hi), bigOne), new(big.Int).Sub(new(big.Int).Neg(lo), bigOne)
		want = linConst(bytesFor(c.bits + 1))
	case c.bytes:
		want = want.add(toLin(a))
	}
	st.facts = e.between(st.facts, a, lo, hi)
	c.want = want
	st.ghost["written"] = e.tp.intc(0)
}

func (c *sizeClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if !strings.HasSuffix(name, ").Write") && !strings.HasSuffix(name, ").WriteByte") && !strings.HasSuffix(name, ").WriteString") && name != "io.WriteString" || len(args) < 2 {
		return
	}
	if res != nil {
		if er := e.errResult(in, res); er != nil && e.truth(st.facts, e.isNil(er)) == -1 {
			return
		}
	}
	n := linConst(1)
	if !strings.HasSuffix(name, ").WriteByte") {
		n = toLin(e.lenOf(args[1], in.Common().Args[len(in.Common().Args)-1].Type()))
	}
	st.ghost["written"] = e.tp.fromLin(toLin(st.ghost["written"]).add(n))
}

func (c *sizeClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	got := linConst(0)
	if isErrorType(fr.fn.Signature.Results().At(len(rs) - 1).Type()) {
		if e.truth(st.facts, e.isNil(rs[len(rs)-1])) == -1 {
			return
		}
		got = toLin(st.ghost["written"])
	} else {
		got = toLin(rs[0])
	}
	c.n++
	ok := e.entailsEQ(st.facts, got.sub(c.want))
	w := "the size"
	if c.rule == "written" {
		w = "the number of bytes written"
	}
	e.oblige(fr, st, c.rule, instrPos(at), w+" is "+c.want.String()+" for "+c.part, ok, func() string { return "it is " + clip(got.String(), 120) })
}

func init() {
	register(&Check{ID: "C32", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of each size helper and of the encoder it speaks for, once for every bit length of the argument (and for both signs): the returned size and the number of bytes written are shown to be the same number for every argument of that bit length",
		Expl: "one obligation for each return of a size helper or encoder and each bit length and sign",
		Trust: []string{
			"binary.PutUvarint and binary.PutVarint write seven bits to a byte, the latter in zigzag form",
			"no byte slice is longer than 2^48 bytes (2^30 on 32-bit targets)",
			"a writer that reports no error has written everything",
		},
		Run: func(p *Program, r *Result) {
			max := 48
			if p.IntBits == 32 {
				max = 30
			}
			for _, x := range []struct {
				fn, rule, kind string
				bytes          bool
				bits           int
			}{
				{"UvarintSize", "size", "", false, 64}, {"EncodeUvarint", "written", "", false, 64},
				{"VarintSize", "size", "signed", false, 63}, {"EncodeVarint", "written", "signed", false, 63},
				{"ByteSliceSize", "size", "", true, max}, {"EncodeByteSlice", "written", "", true, max},
			} {
				f := p.Main.Func(x.fn)
				if f == nil {
					r.undecided("%s was not found", x.fn)
					continue
				}
				for k := 0; k <= x.bits; k++ {
					for _, neg := range []bool{false, true} {
						if neg && x.kind != "signed" {
							continue
						}
						part := fmt.Sprintf("%s of a %s of %d bits", x.fn, "number", k)
						if x.bytes {
							part = fmt.Sprintf("%s of a slice whose length has %d bits", x.fn, k)
						}
						if neg {
							part += ", inverted"
						}
						c := &sizeClient{rule: x.rule, part: part, bits: k, neg: neg, kind: x.kind, bytes: x.bytes}
						e := newEngine(p)
						e.inlineAll = true
						e.exactBits = true
						e.client = c
						e.runRoot(f)
						r.take(e, x.rule)
						if c.n == 0 {
							r.undecided("%s: no return reached", part)
						}
					}
				}
			}
			r.floor("obligations", r.Obligations, 64*4)
		}})
}
