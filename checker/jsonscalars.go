package main

import (
	"fmt"
	"reflect"
	"strings"
)

// ---- scalars in JSON ----

// quotedKinds are written between quotes, because JavaScript numbers cannot
// hold all their values.
var quotedKinds = map[reflect.Kind]bool{reflect.Int: true, reflect.Int64: true, reflect.Uint: true, reflect.Uint64: true}

func init() {
	register(&Check{ID: "C22", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the recursive JSON encoders and decoders, one path set per scalar kind: 64-bit capable integers are written as a quote, the decimal digits of the value and a quote, and are read from what lies between two quotes that were both checked; other scalars are handed whole to the standard package in both directions, with a target of the value's own type that is then stored; no encoding is rejected",
		Expl: "every path of the recursive JSON encoders and decoders for all scalar kinds",
		Trust: []string{
			"encoding/json reads back the scalars that it writes and rejects integers out of range",
			"types with their own MarshalJSON or MarshalAmino are theirs to answer for",
			"a value is only encoded or decoded with the type information of its own type",
		},
		Run: runJSONScalars})
}

// typeTest: a comparison of types, or of the input with a fixed text.
func typeTest(t *Term) bool {
	switch t.op {
	case "byteseq", "implements":
		return true
	case "eq":
		return contains(t, func(t *Term) bool { return t.op == "rtype" || t.op == "rvalueof" })
	}
	return false
}

// ownForm: the path leaves the form to a user's method, to another type, or is
// about a time.
func ownForm(st *State) bool {
	if st.ghost["nest"] != nil {
		return true
	}
	for t, v := range st.facts.lits {
		if v && t.op != "byteseq" && typeTest(t) {
			return true
		}
	}
	return false
}

func runJSONScalars(p *Program, r *Result) {
	w := &wireClient{}
	eh := encodeHalf(p, w, true)
	eh.e.keepLit = typeTest
	opts := map[string]bool{"Unsafe": true}
	wrote, read := map[reflect.Kind]int{}, map[reflect.Kind]int{}
	about := func(e *Engine, pa *wirePath, k reflect.Kind) *State {
		if ownForm(pa.st) {
			return nil
		}
		s := w.under(e, pa.st, k, opts)
		if s == nil || e.infeasible(s.facts) {
			return nil
		}
		return s
	}
	for _, f := range eh.fns {
		wi := paramIndex(f, isWriterType)
		if wi < 0 {
			continue
		}
		eh.e.loopCache = nil
		eh.e.runRoot(f)
		if !handlesScalars(w) {
			continue
		}
		for _, pa := range w.paths {
			where, path := p.pos(instrPos(pa.at)), strings.Join(lastN(pa.st.path, 10), " ")
			for _, k := range scalarKinds {
				s := about(eh.e, pa, k)
				if s == nil {
					continue
				}
				if !pa.ok {
					r.ob("encode", where, shortName(f), "every "+k.String()+" can be encoded", s.ghost["wfail"] != nil || s.ghost["libfail"] != nil, "fails without a write or the library having failed", path)
					continue
				}
				ps := text(ghostList(s, wkey(w.args[wi])))
				if kindsOf(pa.st)&^allScalars != 0 && len(ps) == 1 && ps[0].op == "lit" && ps[0].lit == "null" {
					continue // a nil pointer
				}
				why := scalarText(eh.e, s, ps, k)
				r.ob("encode", where, shortName(f), fmt.Sprintf("%s is written %s", k, map[bool]string{true: "as a quoted decimal", false: "as the standard package does"}[quotedKinds[k]]), why == "", why, path)
				if why == "" {
					wrote[k]++
				}
			}
		}
	}
	for n := range eh.e.notes {
		r.undecided("%s", n)
	}
	dh := decodeHalf(p, w, true)
	e := dh.e
	e.keepLit = typeTest
	for _, f := range dh.fns {
		e.loopCache = nil
		e.runRoot(f)
		in := w.args[bytesParam(f)]
		if !handlesScalars(w) {
			continue
		}
		for _, pa := range w.paths {
			where, path := p.pos(instrPos(pa.at)), strings.Join(lastN(pa.st.path, 10), " ")
			for _, k := range scalarKinds {
				s := about(e, pa, k)
				if s == nil {
					continue
				}
				if !pa.ok {
					// is it an encoding of a value?
					bad := s.ghost["libfail"] == nil && s.ghost["rdfail"] == nil
					if bad {
						_, _, n, _ := e.sl(in)
						f := e.addGE(s.facts, toLin(n).addC(-1))
						if quotedKinds[k] {
							f = quotes(e, s.clone(), in)
						}
						bad = !f.dead && !e.infeasible(f)
					}
					r.ob("decode", where, shortName(f), "every encoded "+k.String()+" is accepted", !bad, "an encoding of some value can be rejected here", path)
					continue
				}
				if isNull(s, in) {
					continue
				}
				why := scalarRead(e, s, in, k)
				r.ob("decode", where, shortName(f), fmt.Sprintf("%s is read %s", k, map[bool]string{true: "from between quotes", false: "as the standard package does"}[quotedKinds[k]]), why == "", why, path)
				if why == "" {
					read[k]++
				}
			}
		}
	}
	for n := range e.notes {
		r.undecided("%s", n)
	}
	for _, k := range scalarKinds {
		r.floor("paths that write a "+k.String(), wrote[k], 1)
		r.floor("paths that read a "+k.String(), read[k], 1)
	}
}

// handlesScalars: the root function treats some scalar kinds itself.
func handlesScalars(w *wireClient) bool {
	for _, pa := range w.paths {
		if k := kindsOf(pa.st); pa.ok && k&^allScalars == 0 && k != 0 && !ownForm(pa.st) {
			return true
		}
	}
	return false
}

// sameValue: a reflected value that is the one under dispatch.
func sameValue(e *Engine, rv *Term) bool {
	T := e.rtype(rv)
	return T.op == "rtype" && dispatchAtom(e.kindOf(T))
}

// scalarText says what is wrong with the text written for a scalar.
func scalarText(e *Engine, s *State, ps []piece, k reflect.Kind) string {
	is := func(p piece) bool {
		return p.op == "dec" && reflectSource(stripConv(p.t), k) && sameValue(e, stripConv(p.t).args[0])
	}
	bad := "writes " + clip(fmt.Sprint(ps), 200)
	if quotedKinds[k] {
		if len(ps) == 3 && ps[0].op == "lit" && ps[0].lit == `"` && is(ps[1]) && ps[2].op == "lit" && ps[2].lit == `"` {
			return ""
		}
		return bad
	}
	if len(ps) != 1 {
		return bad
	}
	switch q := ps[0]; q.op {
	case "dec":
		if is(q) {
			return ""
		}
	case "lit":
		for t, b := range s.facts.lits {
			if k == reflect.Bool && reflectSource(t, k) && sameValue(e, t.args[0]) && q.lit == fmt.Sprint(b) {
				return ""
			}
		}
	case "json":
		x := unwrapIface(q.t)
		if x.op == "rinterface" && sameValue(e, x.args[0]) {
			return ""
		}
		if (signedKind(k) || unsignedKind(k) || k == reflect.Bool || k == reflect.String) && reflectSource(stripConv(x), k) && sameValue(e, stripConv(x).args[0]) {
			return ""
		}
	}
	return bad
}

// quotes adds that the input is something between two quotes.
func quotes(e *Engine, s *State, in *Term) *Facts {
	_, _, n, _ := e.sl(in)
	f := e.addGE(s.facts, toLin(n).addC(-3))
	for _, rd := range ghostList(s, "rd") {
		if rd.op == "rd" && rd.aux == "byte" && (e.atByte(s, in, rd, false) || e.atByte(s, in, rd, true)) {
			f = e.assume(f, e.tp.eq0(toLin(rd.args[0]).addC(-'"')), true)
		}
	}
	return f
}

// atByte: a read of the first or last byte of the input.
func (e *Engine) atByte(s *State, in, rd *Term, last bool) bool {
	b, off, n, _ := e.sl(in)
	l := toLin(rd.args[2]).sub(toLin(off))
	if last {
		l = l.sub(toLin(n)).addC(1)
	}
	return rd.args[1] == b && e.entailsEQ(s.facts, l)
}

// isNull: the whole input is the word null.
func isNull(s *State, in *Term) bool {
	for t, v := range s.facts.lits {
		if v && t.op == "byteseq" {
			for i := range t.args[:2] {
				if t.args[i] == in && contains(t.args[1-i], func(t *Term) bool { s, ok := constString(t); return ok && s == "null" }) {
					return true
				}
			}
		}
	}
	return false
}

// scalarRead says what is wrong with how a scalar was read.
func scalarRead(e *Engine, s *State, in *Term, k reflect.Kind) string {
	var json *Term
	quoted := [2]bool{}
	for _, rd := range ghostList(s, "rd") {
		if rd.op != "rd" {
			return "reads in a loop"
		}
		switch rd.aux {
		case "json":
			if json != nil {
				return "reads the input twice"
			}
			json = rd
		case "byte":
			for i := range quoted {
				if e.atByte(s, in, rd, i == 1) && e.entailsEQ(s.facts, toLin(rd.args[0]).addC(-'"')) {
					quoted[i] = true
				}
			}
		}
	}
	if json == nil {
		return "the input is not read"
	}
	b, off, n, _ := e.sl(in)
	edge := int64(0)
	if quotedKinds[k] {
		if !quoted[0] || !quoted[1] {
			return "accepted without quotes on both sides"
		}
		if !e.entailsGE(s.facts, toLin(n).addC(-2)) {
			return "a single quote may serve as both"
		}
		edge = 1
	}
	if json.args[1] != b || !e.entailsEQ(s.facts, toLin(json.args[2]).sub(toLin(off)).addC(-edge)) || !e.entailsEQ(s.facts, toLin(json.args[3]).sub(toLin(n)).addC(2*edge)) {
		return "the part of the input that is read is not the digits alone"
	}
	// where it goes
	x := unwrapIface(json.args[0])
	if x.op != "rinterface" {
		return "not decoded by reflection"
	}
	ptr := x.args[0]
	T := e.rtype(ptr)
	if T.op != "ptrto" || T.args[0].op != "rtype" || !dispatchAtom(e.kindOf(T.args[0])) {
		return "decoded into a value of another type: " + clip(T.String(), 160)
	}
	if ptr.op == "rval" && len(ptr.args) > 1 && ptr.args[1].op == "addr" {
		return ""
	}
	sets := ghostList(s, "vsets")
	if len(sets) == 0 {
		return "what was decoded is not stored"
	}
	set := sets[len(sets)-1]
	if set.op == "set" && sameValue(e, set.args[0]) && set.args[1].op == "rval" && len(set.args[1].args) > 1 && set.args[1].args[1].op == "deref" && set.args[1].args[1].args[0] == ptr {
		return ""
	}
	return "what is stored is not what was decoded: " + clip(set.String(), 200)
}
