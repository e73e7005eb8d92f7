package main

import (
	"fmt"
	"math/big"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The documented range of times: year 1 up to but excluding year 10000.
var minTime, maxTime = big.NewInt(-62135596800), big.NewInt(253402300800)

const maxNano = 999999999

// timePair recognises a time built from seconds and nanoseconds.
func timePair(t *Term) (sec, ns *Term, ok bool) {
	for {
		switch {
		case t.op == "iface" || t.op == "rvalueof" || t.op == "conv":
			t = t.args[0]
		case t.op == "pure" && (t.aux == "(time.Time).UTC" || t.aux == "(time.Time).Truncate" || t.aux == "(time.Time).Round"):
			if len(t.args) > 1 {
				if c, isC := constOf(t.args[1]); !isC || c.Sign() > 0 {
					return nil, nil, false
				}
			}
			t = t.args[0]
		case t.op == "pure" && t.aux == "time.Unix" && len(t.args) == 2:
			return t.args[0], t.args[1], true
		default:
			return nil, nil, false
		}
	}
}

func (e *Engine) within(f *Facts, t *Term, lo, hi *big.Int) bool {
	return e.entailsGE(f, toLin(t).sub(linBig(lo))) && e.entailsGE(f, linBig(hi).sub(toLin(t)))
}

func (e *Engine) between(f *Facts, t *Term, lo, hi *big.Int) *Facts {
	return e.addGE(e.addGE(f, toLin(t).sub(linBig(lo))), linBig(hi).sub(toLin(t)))
}

// timeAtoms finds the seconds and nanoseconds of the time being encoded.
func timeAtoms(st *State, items []*Term, of func(t *Term) bool) (s, n *Term) {
	for t := range termsIn(st, items...) {
		if t.op == "pure" && len(t.args) == 1 && of(t.args[0]) {
			switch t.aux {
			case "(time.Time).Unix":
				s = t
			case "(time.Time).Nanosecond":
				n = t
			}
		}
	}
	return
}

func sameTime(t, of *Term) bool {
	for t.op == "pure" && (t.aux == "(time.Time).UTC" || t.aux == "(time.Time).Round" || t.aux == "(time.Time).Truncate") {
		if len(t.args) > 1 {
			if c, isC := constOf(t.args[1]); !isC || c.Sign() > 0 {
				return false
			}
		}
		t = t.args[0]
	}
	return t == of
}

func isTime(t types.Type) bool { return types.TypeString(t, nil) == "time.Time" }

func trace(s *State) string { return strings.Join(lastN(s.path, 10), " ") }

var maxSec = new(big.Int).Sub(maxTime, bigOne)

func encodeTime(p *Program, w *wireClient, h *codecHalf, r *Result, fn *ssa.Function) {
	e := h.e
	e.loopCache = nil
	e.runRoot(fn)
	ti, wi := paramIndex(fn, isTime), paramIndex(fn, isWriterType)
	of := func(t *Term) bool { return sameTime(t, w.args[ti]) }
	fnm := shortName(fn)
	nOK := 0
	for _, pa := range w.paths {
		s := pa.st
		where := p.pos(instrPos(pa.at))
		items := ghostList(s, wkey(w.args[wi]))
		S, N := timeAtoms(s, items, of)
		if !pa.ok {
			if s.ghost["wfail"] != nil {
				continue
			}
			f := s.facts
			if S != nil {
				f = e.between(f, S, minTime, maxSec)
			}
			r.ob("refused", where, fnm, "a time in the documented range is encoded", S != nil && e.infeasible(f), "an error is returned for a time in range although writing did not fail", trace(s))
			continue
		}
		if e.infeasible(s.facts) {
			continue
		}
		nOK++
		r.ob("range", where, fnm, "an encoded time lies in the documented range", S != nil && e.within(s.facts, S, minTime, maxSec), "the seconds are not bounded on a path that succeeds", trace(s))
		ok, why := true, ""
		hasS, hasN := false, false
		for i := 0; i < len(items); i += 2 {
			var key *big.Int
			isC := false
			if items[i].op == "wval" && items[i].aux == "uv" {
				key, isC = constOf(items[i].args[0])
			}
			if !isC || i+1 >= len(items) || items[i+1].op != "wval" || items[i+1].aux != "uv" {
				ok, why = false, "what is written is not understood: "+clip(fmt.Sprint(items), 200)
				break
			}
			v := items[i+1].args[0]
			switch {
			case key.Int64() == 8 && !hasS && !hasN && S != nil && congruent(v, S, 64):
				hasS = true
			case key.Int64() == 16 && !hasN && N != nil && (congruent(v, N, 64) || e.entailsEQ(s.facts, toLin(v).sub(toLin(N)))):
				hasN = true
			default:
				ok, why = false, "written under key "+key.String()+": "+clip(v.String(), 160)
			}
		}
		if ok && !hasS && (S == nil || !e.entailsEQ(s.facts, toLin(S))) {
			ok, why = false, "the seconds are not written although they need not be zero"
		}
		if ok && !hasN && (N == nil || !e.entailsEQ(s.facts, toLin(N))) {
			ok, why = false, "the nanoseconds are not written although they need not be zero"
		}
		r.ob("form", where, fnm, "seconds are written as field one and nanoseconds as field two", ok, why, trace(s))
	}
	r.floor("successful encodings of a time", nOK, 3)
}

func decodeTime(p *Program, w *wireClient, h *codecHalf, r *Result, fn *ssa.Function) {
	e := h.e
	e.loopCache = nil
	e.runRoot(fn)
	bi := bytesParam(fn)
	fnm := shortName(fn)
	in := w.args[bi]
	_, off0, length, _ := e.sl(in)
	two64 := new(big.Int).Lsh(bigOne, 64)
	nOK := 0
	bounded := func(s *State, val *Term) (ok bool, why string) {
		sec, ns, isT := timePair(val)
		if !isT {
			return false, "the time returned is not built from what was read: " + clip(val.String(), 160)
		}
		if !e.within(s.facts, sec, minTime, maxSec) {
			return false, "the seconds are not bounded: " + clip(sec.String(), 120)
		}
		if !e.within(s.facts, ns, new(big.Int), big.NewInt(maxNano)) {
			return false, "the nanoseconds are not bounded: " + clip(ns.String(), 120)
		}
		return true, ""
	}
	for _, pa := range w.paths {
		if !pa.ok || e.infeasible(pa.st.facts) {
			continue
		}
		nOK++
		ok, why := bounded(pa.st, pa.rs[0])
		r.ob("range", p.pos(instrPos(pa.at)), fnm, "a decoded time lies in the documented range", ok, why, trace(pa.st))
	}
	r.floor("successful decodings of a time", nOK, 3)
	// every encoding of a time in range is accepted, and gives that time
	type item struct {
		key int64
		lo  *big.Int
		hi  *big.Int
		sec bool
	}
	secPos := item{8, new(big.Int), maxSec, true}
	secNeg := item{8, new(big.Int).Add(two64, minTime), new(big.Int).Sub(two64, bigOne), true}
	nano := item{16, bigOne, big.NewInt(maxNano), false}
	for _, sc := range [][]item{{}, {secPos}, {secNeg}, {nano}, {secPos, nano}, {secNeg, nano}} {
		name := "an encoding of"
		for _, it := range sc {
			switch {
			case !it.sec:
				name += " nanoseconds"
			case it.lo.Sign() == 0:
				name += " seconds"
			default:
				name += " negative seconds"
			}
		}
		if len(sc) == 0 {
			name += " nothing"
		}
		reached := 0
		for _, pa := range w.paths {
			s := pa.st.clone()
			reads := distinctReads(e, s)
			at := toLin(off0)
			good := true
			var vals []*Term
			for i, rd := range reads {
				b, _, _, _ := e.sl(in)
				if i >= 2*len(sc) || rd.aux != "uv" || rd.args[1] != b || !e.entailsEQ(s.facts, toLin(rd.args[2]).sub(at)) {
					good = false
					break
				}
				at = at.add(toLin(rd.args[3]))
				it := sc[i/2]
				if i%2 == 0 {
					s.facts = e.fix(s.facts, rd.args[0], it.key)
				} else {
					s.facts = e.between(s.facts, rd.args[0], it.lo, it.hi)
				}
				vals = append(vals, rd.args[0])
			}
			// the input ends where the encoding ends
			left := toLin(length).sub(at.sub(toLin(off0)))
			rest := 2*len(sc) - len(reads)
			if !good {
				// reads more than there is, or elsewhere
				if len(reads) > 2*len(sc) {
					continue // the extra read succeeded: not this input
				}
				r.ob("accept", p.pos(instrPos(pa.at)), fnm, name+" is read in order", e.infeasible(s.facts), "a read at a place or of a kind that is not expected: "+clip(fmt.Sprint(reads), 200), trace(s))
				continue
			}
			if rest == 0 {
				s.facts = e.assume(s.facts, e.tp.eq0(left), true)
			} else {
				if s.ghost["rdfail"] != nil {
					continue // the number is there, and can be read
				}
				s.facts = e.addGE(s.facts, left.addC(-int64(rest)))
			}
			if s.facts.dead || e.infeasible(s.facts) {
				continue
			}
			reached++
			if !pa.ok {
				r.ob("accept", p.pos(instrPos(pa.at)), fnm, name+" is accepted", false, "an error is returned", trace(s))
				continue
			}
			sec, ns, isT := timePair(pa.rs[0])
			ok, why := isT && rest == 0, "the time is not read"
			if ok {
				wantN := e.tp.intc(0)
				var wantS *Term = wantN
				for i, it := range sc {
					if it.sec {
						wantS = vals[2*i+1]
					} else {
						wantN = vals[2*i+1]
					}
				}
				if !congruentTo(e, s, sec, wantS) {
					ok, why = false, "the seconds are "+clip(sec.String(), 120)
				} else if !congruentTo(e, s, ns, wantN) {
					ok, why = false, "the nanoseconds are "+clip(ns.String(), 120)
				}
			}
			r.ob("accept", p.pos(instrPos(pa.at)), fnm, name+" gives that time", ok, why, trace(s))
		}
		r.ob("accept", p.pos(fn.Pos()), fnm, name+" reaches the end", reached > 0, "no path accepts it", "")
	}
}

// congruentTo: t = want modulo 2^64, on this path.
func congruentTo(e *Engine, s *State, t, want *Term) bool {
	if congruent(t, want, 64) {
		return true
	}
	m := new(big.Int).Lsh(bigOne, 64)
	for _, c := range []*big.Int{new(big.Int), m, new(big.Int).Neg(m)} {
		if e.entailsEQ(s.facts, toLin(t).sub(toLin(want)).add(linBig(c))) {
			return true
		}
	}
	return false
}

// timeLit: the path handles a value whose type is time.Time.
func timeLit(st *State) bool {
	for t, v := range st.facts.lits {
		if v && t.op == "eq" && strings.Contains(t.String(), "timeType") {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C27", Level: "proof", Archs: intArchs,
		Rule:  "abstract interpretation of the encoder and the decoder of times with linear facts about the numbers written and read: success entails that the seconds lie in the documented range (and the nanoseconds in theirs), failure without a failed write or read is impossible for a time in range, and the seconds and nanoseconds written and read are those of the time; the struct encoder and decoder use them for every time",
		Expl:  "every path of EncodeTime, of DecodeTime under each of the six shapes an encoded time can have, and of the struct encoder and decoder where the type is time.Time",
		Trust: []string{"time.Time.Nanosecond lies in [0, 999999999]", "time.Unix(s, n) has seconds s and nanoseconds n when n lies in that range", "a complete number at the right place can be read"},
		Run:   runTimes})
}

func runTimes(p *Program, r *Result) {
	w := &wireClient{}
	eh, dh := encodeHalf(p, w, false), decodeHalf(p, w, false)
	nE, nD := 0, 0
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sig := f.Signature
		if strings.HasPrefix(f.Name(), "Encode") && sig.Params().Len() == 2 && isWriterType(sig.Params().At(0).Type()) && isTime(sig.Params().At(1).Type()) {
			nE++
			encodeTime(p, w, eh, r, f)
		}
		if strings.HasPrefix(f.Name(), "Decode") && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 3 && isTime(sig.Results().At(0).Type()) {
			nD++
			decodeTime(p, w, dh, r, f)
		}
	}
	r.floor("encoders of times", nE, 1)
	r.floor("decoders of times", nD, 1)
	used := 0
	eh.each(w, func(f *ssa.Function) {
		e := eh.e
		for _, pa := range w.paths {
			s := pa.st
			if !timeLit(s) || e.infeasible(s.facts) {
				continue
			}
			S, _ := timeAtoms(s, s.ghostTerms(), func(t *Term) bool {
				for t.op == "pure" && strings.HasPrefix(t.aux, "(time.Time).") {
					t = t.args[0]
				}
				return strings.Contains(t.String(), "rinterface")
			})
			where := p.pos(instrPos(pa.at))
			if pa.ok {
				used++
				r.ob("range", where, shortName(f), "a time that is encoded lies in the documented range", S != nil && e.within(s.facts, S, minTime, maxSec), "the seconds are not bounded on a path that succeeds", trace(s))
			} else if s.ghost["wfail"] == nil && s.ghost["libfail"] == nil {
				f2 := s.facts
				if S != nil {
					f2 = e.between(f2, S, minTime, maxSec)
				}
				r.ob("refused", where, shortName(f), "a time in the documented range is encoded", S != nil && e.infeasible(f2), "an error is returned for a time in range", trace(s))
			}
		}
	})
	r.floor("successful encodings of a time value", used, 2)
	used = 0
	dh.each(w, func(f *ssa.Function) {
		e := dh.e
		for _, pa := range w.paths {
			s := pa.st
			if !pa.ok || e.infeasible(s.facts) {
				continue
			}
			var set *Term
			for _, v := range ghostList(s, "vsets") {
				if v.op != "set" {
					continue
				}
				if t := v.args[1]; t.op == "rvalueof" && strings.Contains(t.args[0].aux, "time.Time") {
					set = t
				}
			}
			if set == nil && !timeLit(s) {
				continue
			}
			used++
			where := p.pos(instrPos(pa.at))
			if set == nil {
				r.ob("range", where, shortName(f), "a decoded time lies in the documented range", false, "no time is stored", trace(s))
				continue
			}
			sec, ns, isT := timePair(set)
			r.ob("range", where, shortName(f), "a decoded time lies in the documented range",
				isT && e.within(s.facts, sec, minTime, maxSec) && e.within(s.facts, ns, new(big.Int), big.NewInt(maxNano)), "stored: "+clip(set.String(), 160), trace(s))
		}
	})
	r.floor("successful decodings of a time value", used, 2)
}

func (s *State) ghostTerms() []*Term {
	var r []*Term
	for _, t := range s.ghost {
		r = append(r, t)
	}
	return r
}

// fix gives a number from the input a value, and its shifted parts with it.
func (e *Engine) fix(f *Facts, t *Term, v int64) *Facts {
	f = e.assume(f, e.tp.eq0(toLin(t).addC(-v)), true)
	if f.dead {
		return f
	}
	for x := range termsIn(&State{facts: f}) {
		if x.op == "shr" && (x.args[0] == t || e.entailsEQ(f, toLin(x.args[0]).addC(-v))) {
			if k, ok := constOf(x.args[1]); ok && k.IsInt64() && k.Int64() < 64 {
				f = e.assume(f, e.tp.eq0(toLin(x).addC(-(v >> uint(k.Int64())))), true)
			}
		}
	}
	return f
}
