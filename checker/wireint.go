package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wireIntClient checks that integers taken from the input reach their target
// unchanged: what is stored or returned is the number read (or its two's
// complement reinterpretation at the same width), it lies in the range of the
// target, and no conversion that lost bits lies on the way to success.
type wireIntClient struct {
	noClient
	sets, rets int
	narrow     map[string]bool
}

func (w *wireIntClient) Wrapped(e *Engine, fr *frame, st *State, in *ssa.Convert, x, r *Term) {
	if !isTainted(x) {
		return
	}
	fs, ts := e.P.Sizes.Sizeof(in.X.Type()), e.P.Sizes.Sizeof(in.Type())
	if ts >= fs {
		return
	}
	st.ghost["narrow"] = e.tp.boolc(true)
	w.narrow[e.P.pos(instrPos(in))] = true
}

// wireValue: t is a number read from the input, or the reinterpretation of its
// bits at the same width.
func wireValue(e *Engine, t *Term) bool {
	l := toLin(t)
	if l.isConst() {
		return true
	}
	if len(l.atoms) != 1 || l.coefs[0] != 1 {
		return false
	}
	a := l.atoms[0]
	switch a.op {
	case "trunc", "wrap", "andc", "shr", "or", "quo", "rem":
		return false
	}
	if l.c.Sign() == 0 {
		return true
	}
	lo, hi, ok := e.tp.intRange(a.typ)
	if !ok {
		return false
	}
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, bigOne)
	return new(big.Int).Abs(l.c).Cmp(w) == 0
}

var kindTypes = map[reflect.Kind]types.BasicKind{reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16, reflect.Int32: types.Int32,
	reflect.Int64: types.Int64, reflect.Uint: types.Uint, reflect.Uint8: types.Uint8, reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64}

func (w *wireIntClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	m := strings.TrimPrefix(name, "(reflect.Value).")
	if m != "SetInt" && m != "SetUint" || len(args) != 2 {
		return
	}
	x := args[1]
	w.sets++
	e.oblige(fr, st, "value", instrPos(in), "the number stored is the number read", wireValue(e, x), func() string {
		return "stores " + clip(x.String(), 160)
	})
	ok, why := false, "the kind of the target is not known here"
	// checked with reflect itself
	for t, v := range st.facts.lits {
		if t.op == "pure" && t.aux == "(reflect.Value)."+strings.Replace(m, "Set", "Overflow", 1) && t.args[0] == args[0] && t.args[1] == x && !v {
			ok = true
		}
	}
	if !ok {
		var ks []int
		seen := map[int]bool{}
		add := func(k int) {
			if _, isInt := kindTypes[reflect.Kind(k)]; isInt && !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
		if k, isC := constOf(e.kindOf(e.rtype(args[0]))); isC {
			add(int(k.Int64()))
		} else {
			for a, m := range st.facts.mask {
				if isKindAtom(a) {
					if lo, hi := maskRange(m); lo == hi {
						add(int(lo))
					}
				}
			}
		}
		ok = len(ks) > 0
		for _, k := range ks {
			if !e.inRange(st, toLin(x), types.Typ[kindTypes[reflect.Kind(k)]]) {
				ok = false
				why = fmt.Sprintf("%s may not fit into %s", clip(x.String(), 120), reflect.Kind(k))
			}
		}
	}
	e.oblige(fr, st, "range", instrPos(in), "the number stored fits into the target", ok, func() string { return why })
}

func (w *wireIntClient) Back(e *Engine, fr *frame, head, back *State, l *Loop) {
	if back.ghost["narrow"] != nil && head.ghost["narrow"] == nil {
		at := l.head.Instrs[len(l.head.Instrs)-1]
		e.oblige(fr, back, "narrow", instrPos(at), "no input number is cut off", false, func() string {
			return "a number from the input was converted to a type it does not fit into, and decoding goes on"
		})
	}
}

func (w *wireIntClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	f := fr.fn
	res := f.Signature.Results()
	ei := res.Len() - 1
	if ei < 0 || !isErrorType(res.At(ei).Type()) {
		return
	}
	isnil := e.isNil(rs[ei])
	if e.truth(st.facts, isnil) == -1 {
		return
	}
	s2 := st.clone()
	s2.facts = e.assume(st.facts, isnil, true)
	if s2.facts.dead {
		return
	}
	w.rets++
	e.oblige(fr, s2, "narrow", instrPos(at), "no input number is cut off", s2.ghost["narrow"] == nil, func() string {
		return "succeeds after a number from the input was converted to a type it does not fit into"
	})
	if res.Len() == 3 && isIntType(res.At(0).Type()) && isIntType(res.At(1).Type()) && bytesParam(f) >= 0 {
		e.oblige(fr, s2, "value", instrPos(at), "the number returned is the number read", wireValue(e, rs[0]), func() string {
			return "returns " + clip(rs[0].String(), 160)
		})
	}
}

func init() {
	register(&Check{ID: "C15", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of every conversion between integer types on both word sizes: what is stored in the target or returned is the number read (or its reinterpretation at the same width), provably lies in the range of the target's kind, and no path on which a conversion lost bits ends in success",
		Expl: "every integer stored through reflection, every successful return, and every narrowing conversion of a number from the input",
		Trust: []string{
			"encoding/binary returns the number encoded",
			"a value is only decoded with the type information of its own type",
		},
		Run: func(p *Program, r *Result) {
			w := &wireIntClient{narrow: map[string]bool{}}
			d := runDecode(p, w)
			r.take(d.e, "value", "range", "narrow")
			r.floor("integers stored", w.sets, 10)
			r.floor("successful returns", w.rets, 30)
		}})
}
