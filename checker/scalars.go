package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// components groups mutually recursive functions.
func components(p *Program, fns []*ssa.Function) [][]*ssa.Function {
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		reach[f] = reachable(p, f)
	}
	done := map[*ssa.Function]bool{}
	var out [][]*ssa.Function
	for _, f := range fns {
		if done[f] {
			continue
		}
		var c []*ssa.Function
		for _, g := range fns {
			if !done[g] && reach[f][g] && reach[g][f] {
				done[g] = true
				c = append(c, g)
			}
		}
		out = append(out, c)
	}
	return out
}

// usesJSON: f or something it calls uses the standard JSON package.
func usesJSON(p *Program, f *ssa.Function) bool {
	for g := range reachable(p, f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n := calleeName(c.Common()); strings.HasPrefix(n, "encoding/json.") {
						return true
					}
				}
			}
		}
	}
	return false
}

// codecHalf is one direction of one format: the engine and the recursive
// functions that do the work.
type codecHalf struct {
	e   *Engine
	fns []*ssa.Function
}

func encodeHalf(p *Program, cl Client, json bool) *codecHalf {
	er := newEncode(p, cl)
	h := &codecHalf{e: er.e}
	for _, c := range components(p, er.scc) {
		if usesJSON(p, c[0]) == json {
			h.fns = append(h.fns, c...)
		}
	}
	return h
}

// decodeHalf prepares an analysis of the recursive decoders where calls among
// them are opaque.
func decodeHalf(p *Program, cl Client, json bool) *codecHalf {
	e := newEngine(p)
	e.taintBytes = true
	e.smallLimit = 60
	e.inlineAll = true
	e.client = cl
	var scc []*ssa.Function
	for _, f := range recursive(p, reachable(p, decodeRoots(p)...)) {
		if bytesParam(f) >= 0 && valueParam(f) >= 0 {
			scc = append(scc, f)
			e.contracts[f] = &Contract{fn: f}
		}
	}
	locks := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		locks[f] = takesLock(p, f)
	}
	e.opaqueFn = func(f *ssa.Function) bool { return locks[f] && !reachesAny(p, f, e.contracts) }
	h := &codecHalf{e: e}
	for _, c := range components(p, scc) {
		if usesJSON(p, c[0]) == json {
			h.fns = append(h.fns, c...)
		}
	}
	return h
}

func (h *codecHalf) each(w *wireClient, do func(f *ssa.Function)) {
	for _, f := range h.fns {
		h.e.loopCache = nil
		h.e.runRoot(f)
		do(f)
	}
}

var allScalars = func() uint64 {
	m := uint64(0)
	for _, k := range scalarKinds {
		m |= 1 << uint(k)
	}
	return m
}()

// ---- one scalar as bytes ----

var primTyp3 = map[string]int64{"uv": 0, "sv": 0, "bool": 0, "le8": 1, "bytes": 2, "le4": 5}
var primBits = map[string]uint{"uv": 64, "le8": 64, "le4": 32}
var primMin = map[string]int64{"uv": 1, "sv": 1, "bool": 1, "le8": 8, "le4": 4, "bytes": 1}

func signedKind(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Int64 }
func unsignedKind(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uint64 }

// source says how the value to be encoded appears in terms.
type source func(t *Term, k reflect.Kind) bool

func reflectSource(t *Term, k reflect.Kind) bool {
	m := ""
	switch {
	case signedKind(k):
		m = "Int"
	case unsignedKind(k):
		m = "Uint"
	case k == reflect.Bool:
		m = "Bool"
	case k == reflect.String:
		m = "String"
	case k == reflect.Float32, k == reflect.Float64:
		m = "Float"
	}
	return t.op == "pure" && t.aux == "(reflect.Value)."+m
}

func paramSource(p *Term) source { return func(t *Term, k reflect.Kind) bool { return t == p } }

// termsIn collects the terms of a state's facts and of given terms.
func termsIn(st *State, ts ...*Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for _, l := range append(append([]*Lin{}, st.facts.ges...), st.facts.eqs...) {
		for _, a := range l.atoms {
			walk(a)
		}
	}
	for t := range st.facts.lits {
		walk(t)
	}
	return seen
}

func stripConv(t *Term) *Term {
	for t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// encodedForm recognises what was written for a scalar of kind k. For a bool
// the form carries the byte and the value.
func encodedForm(e *Engine, st *State, items []*Term, src source, k reflect.Kind) (prim string, bval, bbyte int, why string) {
	if len(items) == 2 && items[0].op == "wval" && items[0].aux == "uv" {
		if it := items[1]; it.op == "wstr" && src(it.args[0], k) {
			if e.entailsEQ(st.facts, toLin(items[0].args[0]).sub(toLin(e.strLen(it.args[0])))) {
				return "bytes", 0, 0, ""
			}
			return "", 0, 0, "the length written is not the length of the string"
		} else if it.op == "wbytes" {
			b, off, n, _ := e.sl(it.args[0])
			z, ok := constOf(off)
			if src(b, k) && ok && z.Sign() == 0 && e.entailsEQ(st.facts, toLin(items[0].args[0]).sub(toLin(n))) {
				return "bytes", 0, 0, ""
			}
		}
	}
	if len(items) != 1 {
		return "", 0, 0, fmt.Sprintf("%d pieces are written: %s", len(items), clip(fmt.Sprint(items), 200))
	}
	it := items[0]
	if len(it.args) == 0 {
		return "", 0, 0, "the bytes written are not understood: " + clip(it.String(), 200)
	}
	v := it.args[0]
	prim = it.aux
	if it.op == "wbyte" {
		prim = "byte"
	} else if it.op != "wval" {
		return "", 0, 0, "the bytes written are not understood: " + clip(it.String(), 200)
	}
	switch {
	case signedKind(k) || unsignedKind(k):
		l := toLin(v)
		if len(l.atoms) != 1 || l.coefs[0] != 1 || !src(l.atoms[0], k) {
			return "", 0, 0, "what is written is not the value: " + clip(v.String(), 160)
		}
		if prim == "sv" && l.c.Sign() != 0 || prim == "byte" || prim != "sv" && !congruent(v, l.atoms[0], primBits[prim]) {
			return "", 0, 0, "what is written is not the value: " + clip(v.String(), 160)
		}
		if lo, _, _ := e.tp.intRange(types.Typ[kindTypes[k]]); prim == "le4" && e.P.Sizes.Sizeof(types.Typ[kindTypes[k]]) > 4 && lo != nil {
			return "", 0, 0, "four bytes cannot hold every value"
		}
		return prim, 0, 0, ""
	case k == reflect.Bool:
		c, ok := constOf(v)
		if !ok || c.Sign() < 0 || c.Int64() > 127 || prim != "uv" && prim != "byte" {
			return "", 0, 0, "what is written is not a constant byte: " + clip(v.String(), 160)
		}
		for t, b := range st.facts.lits {
			if src(t, k) {
				if b {
					bval = 1
				}
				return "bool", bval, int(c.Int64()), ""
			}
		}
		return "", 0, 0, "the byte written does not depend on the value"
	case k == reflect.Float32 || k == reflect.Float64:
		want := map[reflect.Kind][2]string{reflect.Float32: {"math.Float32bits", "le4"}, reflect.Float64: {"math.Float64bits", "le8"}}[k]
		if v.op == "pure" && v.aux == want[0] && prim == want[1] {
			x := v.args[0]
			for x.op == "conv" && (x.aux == "float64" || x.aux == "float32" && k == reflect.Float32) {
				x = x.args[0]
			}
			if src(x, k) {
				return prim, 0, 0, ""
			}
		}
		return "", 0, 0, "the bits written are not those of the value: " + clip(v.String(), 160)
	}
	return "", 0, 0, "not a form for " + k.String()
}

// distinctReads drops repeated reads of the same place, adding that they gave
// the same value.
func distinctReads(e *Engine, s *State) []*Term {
	var out []*Term
	for _, r := range ghostList(s, "rd") {
		if r.op != "rd" {
			r = e.tp.mk("rd", "?", nil, r, r, r, r)
		}
		dup := false
		for _, o := range out {
			if o.args[1] == r.args[1] && o.args[2] == r.args[2] && o.aux == r.aux {
				s.facts = e.assume(s.facts, e.tp.eq0(toLin(o.args[0]).sub(toLin(r.args[0]))), true)
				s.facts = e.assume(s.facts, e.tp.eq0(toLin(o.args[3]).sub(toLin(r.args[3]))), true)
				dup = true
			}
		}
		if !dup {
			out = append(out, r)
		}
	}
	return out
}

// atStart: a read at the beginning of the input.
func atStart(e *Engine, r *Term, in *Term) bool {
	b, off, _, _ := e.sl(in)
	z, ok := constOf(toTerm(e, toLin(r.args[2]).sub(toLin(off))))
	return r.args[1] == b && ok && z.Sign() == 0
}

func toTerm(e *Engine, l *Lin) *Term { return e.tp.fromLin(l) }

// decodedForm recognises how a stored value was read.
func decodedForm(e *Engine, st *State, reads []*Term, val, in *Term, k reflect.Kind) (prim, why string) {
	if len(reads) == 0 {
		return "", "nothing is read"
	}
	r := reads[0]
	if !atStart(e, r, in) {
		return "", "the value is not read from the start of the input"
	}
	if k == reflect.String || k == reflect.Slice {
		if r.aux != "uv" {
			return "", "no length is read"
		}
		b, off, n := e.origin(st, val, 0)
		ib, ioff, _, _ := e.sl(in)
		if k == reflect.Slice && e.entailsEQ(st.facts, toLin(n)) && e.entailsEQ(st.facts, toLin(r.args[0])) {
			return "bytes", ""
		}
		if b == ib && e.entailsEQ(st.facts, toLin(off).sub(toLin(ioff)).sub(toLin(r.args[3]))) && e.entailsEQ(st.facts, toLin(n).sub(toLin(r.args[0]))) {
			return "bytes", ""
		}
		if e.entailsEQ(st.facts, toLin(n)) && e.entailsEQ(st.facts, toLin(r.args[0])) {
			return "bytes", ""
		}
		return "", "the value is not the bytes after the length: " + clip(val.String(), 160)
	}
	if len(reads) != 1 {
		return "", "more than one number is read"
	}
	a := r.args[0]
	switch {
	case signedKind(k) || unsignedKind(k):
		if r.aux == "sv" && val != a || r.aux != "sv" && (primBits[r.aux] == 0 || !congruent(val, a, primBits[r.aux])) {
			return "", "the value stored is not the number read: " + clip(val.String(), 160)
		}
		if !e.inRange(st, toLin(val), types.Typ[kindTypes[k]]) {
			return "", "the value stored may not fit"
		}
		return r.aux, ""
	case k == reflect.Bool:
		if r.aux != "byte" && r.aux != "uv" {
			return "", "not a bool: " + r.aux
		}
		return "bool", ""
	case k == reflect.Float32 || k == reflect.Float64:
		want := map[reflect.Kind][2]string{reflect.Float32: {"math.Float32frombits", "le4"}, reflect.Float64: {"math.Float64frombits", "le8"}}[k]
		x := val
		for x.op == "conv" && (x.aux == "float64" || x.aux == "float32" && k == reflect.Float32) {
			x = x.args[0]
		}
		if x.op == "pure" && x.aux == want[0] && x.args[0] == a && r.aux == want[1] {
			return r.aux, ""
		}
		return "", "the value stored is not the number read: " + clip(val.String(), 160)
	}
	return "", "not a form for " + k.String()
}

// primCases lists constraints covering every encoding of a value of kind k.
func primCases(e *Engine, prim string, k reflect.Kind, bools map[int]int) []func(f *Facts, r *Term) *Facts {
	between := func(lo, hi *big.Int) func(f *Facts, r *Term) *Facts {
		return func(f *Facts, r *Term) *Facts {
			return e.addGE(e.addGE(f, toLin(r.args[0]).sub(linBig(lo))), linBig(hi).sub(toLin(r.args[0])))
		}
	}
	if prim == "bool" {
		var out []func(f *Facts, r *Term) *Facts
		for _, b := range bools {
			out = append(out, between(big.NewInt(int64(b)), big.NewInt(int64(b))))
		}
		return out
	}
	if bk, ok := kindTypes[k]; ok && prim != "bytes" {
		lo, hi, _ := e.tp.intRange(types.Typ[bk])
		if prim == "sv" || lo.Sign() >= 0 {
			return []func(f *Facts, r *Term) *Facts{between(lo, hi)}
		}
		m := new(big.Int).Lsh(bigOne, primBits[prim])
		return []func(f *Facts, r *Term) *Facts{between(new(big.Int), hi),
			between(new(big.Int).Add(m, lo), new(big.Int).Sub(m, bigOne))}
	}
	return []func(f *Facts, r *Term) *Facts{func(f *Facts, r *Term) *Facts { return f }}
}

// rejects: a failing path of a decoder can be taken on a complete encoding of
// some value of kind k.
func rejects(e *Engine, s0 *State, in *Term, prim string, k reflect.Kind, bools map[int]int) bool {
	if s0.ghost["rdfail"] != nil || s0.ghost["libfail"] != nil {
		return false
	}
	s := s0.clone()
	reads := distinctReads(e, s)
	_, _, n, _ := e.sl(in)
	s.facts = e.addGE(s.facts, toLin(n).addC(-primMin[prim]))
	if len(reads) == 0 {
		return !s.facts.dead
	}
	r := reads[0]
	if !atStart(e, r, in) {
		return !s.facts.dead
	}
	for _, c := range primCases(e, prim, k, bools) {
		f := c(s.facts, r)
		if prim == "bytes" {
			f = e.addGE(f, toLin(n).sub(toLin(r.args[3])).sub(toLin(r.args[0])))
		}
		if !f.dead && !e.infeasible(f) {
			return true
		}
	}
	return false
}

// infeasible tries to refute a conjunction that is not obviously empty.
func (e *Engine) infeasible(f *Facts) bool {
	if f.dead {
		return true
	}
	seen := map[*Term]bool{}
	huge := new(big.Int).Lsh(bigOne, 100)
	for _, l := range append(append([]*Lin{}, f.ges...), f.eqs...) {
		for _, a := range l.atoms {
			if !seen[a] {
				seen[a] = true
				if e.entailsGE(f, linAtom(a).sub(linBig(huge))) {
					return true
				}
			}
		}
	}
	return false
}

// ---- the check ----

// optionCombos lists the choices of the fixed-width options.
func optionCombos() []map[string]bool {
	var out []map[string]bool
	for i := 0; i < 4; i++ {
		out = append(out, map[string]bool{"BinFixed32": i&1 != 0, "BinFixed64": i&2 != 0, "Unsafe": true})
	}
	return out
}

func comboName(o map[string]bool) string {
	s := ""
	for _, n := range []string{"BinFixed32", "BinFixed64"} {
		if o[n] {
			s += "+" + n
		}
	}
	return s
}

func paramIndex(f *ssa.Function, ok func(t types.Type) bool) int {
	for i, p := range f.Params {
		if ok(p.Type()) {
			return i
		}
	}
	return -1
}

func isWriterType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "io.Writer" || s == "*bytes.Buffer"
}

func namedAs(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// scalarForm is what one side does for one kind and one choice of options.
type scalarForm struct {
	prims map[string]bool
	bools map[int]int
	n     int
}

func (sf *scalarForm) one() string {
	if len(sf.prims) != 1 {
		return ""
	}
	for p := range sf.prims {
		return p
	}
	return ""
}

func (sf *scalarForm) String() string {
	var ps []string
	for p := range sf.prims {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return strings.Join(ps, " and ")
}

// addInts bounds the source integers of a path by the range of the kind.
func addInts(e *Engine, s *State, items []*Term, src source, k reflect.Kind) {
	if _, ok := kindTypes[k]; !ok {
		return
	}
	for t := range termsIn(s, items...) {
		if src(t, k) {
			s.facts = e.inKind(s.facts, t, k)
		}
	}
}

func encodeForms(e *Engine, w *wireClient, r *Result, fn *ssa.Function, paths []*wirePath, src source, k reflect.Kind, o map[string]bool, byKind bool) *scalarForm {
	sf := &scalarForm{prims: map[string]bool{}, bools: map[int]int{}}
	wi := paramIndex(fn, isWriterType)
	what := k.String() + comboName(o)
	for _, pa := range paths {
		s := pa.st
		if byKind {
			if pa.st.ghost["nest"] != nil || kindsOf(pa.st)&^allScalars != 0 {
				continue
			}
			if s = w.under(e, pa.st, k, o); s == nil {
				continue
			}
		} else {
			s = s.clone()
		}
		items := ghostList(s, wkey(w.args[wi]))
		addInts(e, s, items, src, k)
		if e.infeasible(s.facts) {
			continue
		}
		if !pa.ok {
			if s.ghost["wfail"] == nil && s.ghost["libfail"] == nil {
				r.ob("encode", e.P.pos(instrPos(pa.at)), shortName(fn), "every "+what+" can be encoded", false, "fails without a write having failed", strings.Join(lastN(s.path, 10), " "))
			}
			continue
		}
		prim, bv, bb, why := encodedForm(e, s, items, src, k)
		r.ob("encode", e.P.pos(instrPos(pa.at)), shortName(fn), what+" is written as itself", why == "", why, strings.Join(lastN(s.path, 10), " "))
		if why == "" {
			sf.n++
			sf.prims[prim] = true
			if prim == "bool" {
				if old, ok := sf.bools[bv]; ok && old != bb {
					r.ob("encode", e.P.pos(instrPos(pa.at)), shortName(fn), "each bool has one encoding", false, fmt.Sprintf("%d and %d", old, bb), "")
				}
				sf.bools[bv] = bb
			}
		}
	}
	if sf.prims["bool"] {
		_, a := sf.bools[0]
		_, b := sf.bools[1]
		r.ob("encode", "-", shortName(fn), "both bools are written, differently", a && b && sf.bools[0] != sf.bools[1], fmt.Sprint(sf.bools), "")
	}
	return sf
}

func decodeForms(e *Engine, w *wireClient, r *Result, fn *ssa.Function, paths []*wirePath, enc *scalarForm, k reflect.Kind, o map[string]bool, byKind bool) *scalarForm {
	sf := &scalarForm{prims: map[string]bool{}}
	in := w.args[bytesParam(fn)]
	what := k.String() + comboName(o)
	for _, pa := range paths {
		s := pa.st
		if byKind {
			if pa.st.ghost["nest"] != nil || kindsOf(pa.st)&^allScalars != 0 {
				continue
			}
			if s = w.under(e, pa.st, k, o); s == nil {
				continue
			}
		} else {
			s = s.clone()
		}
		where, path := e.P.pos(instrPos(pa.at)), strings.Join(lastN(s.path, 10), " ")
		if !pa.ok {
			bad := rejects(e, s, in, enc.one(), k, enc.bools)
			r.ob("decode", where, shortName(fn), "every encoded "+what+" is accepted", !bad, "an encoding of some value can be rejected here", path)
			continue
		}
		if e.infeasible(s.facts) {
			continue
		}
		reads := distinctReads(e, s)
		var val *Term
		if byKind {
			sets := ghostList(s, "sets")
			if len(sets) != 1 {
				r.ob("decode", where, shortName(fn), what+" is stored once", false, fmt.Sprintf("stored %d times", len(sets)), path)
				continue
			}
			val = sets[0].args[1]
		} else {
			val = pa.rs[0]
		}
		prim, why := decodedForm(e, s, reads, val, in, k)
		r.ob("decode", where, shortName(fn), what+" is stored as read", why == "", why, path)
		if why == "" {
			sf.n++
			sf.prims[prim] = true
		}
		if prim == "bool" {
			for bv, bb := range enc.bools {
				f := e.assume(s.facts, e.tp.eq0(toLin(reads[0].args[0]).addC(-int64(bb))), true)
				if f.dead || e.infeasible(f) {
					continue
				}
				t := e.truth(f, val)
				r.ob("decode", where, shortName(fn), fmt.Sprintf("byte %d is read as the bool it was written for", bb), t == 2*bv-1, "read as something else", path)
			}
		}
	}
	return sf
}

func init() {
	register(&Check{ID: "C14", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the binary scalar encoders and decoders, one path set per kind and fixed-width option: the form written (uvarint, zigzag varint, fixed width, length and bytes) equals the form read, the number written is the value and the value stored is the number read, no encoding of a value is rejected, the announced wire type is that of the form, and skipping that wire type consumes the form",
		Expl: "every path of the scalar encoders, decoders, the exported Encode*/Decode* pairs, the wire type function, the skipping function and the field key functions, for all kinds and options",
		Trust: []string{
			"encoding/binary and math convert as documented; Varint reads what PutVarint wrote",
			"a value is only encoded or decoded with the type information of its own type",
		},
		Run: runScalars})
}

func runScalars(p *Program, r *Result) {
	w := &wireClient{}
	type side struct {
		fn    *ssa.Function
		paths []*wirePath
		args  []*Term
	}
	collect := func(h *codecHalf) []side {
		var out []side
		h.each(w, func(f *ssa.Function) {
			for _, pa := range w.paths {
				k := kindsOf(pa.st)
				if pa.ok && k&^allScalars == 0 && k != 0 && pa.st.ghost["nest"] == nil {
					out = append(out, side{f, w.paths, w.args})
					return
				}
			}
		})
		for n := range h.e.notes {
			r.undecided("%s", n)
		}
		return out
	}
	eh := encodeHalf(p, w, false)
	encs := collect(eh)
	dh := decodeHalf(p, w, false)
	decs := collect(dh)
	// the wire type function and the skipping function
	var t3fn, skipfn, keyEnc, keyDec *ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil {
			continue
		}
		res := f.Signature.Results()
		isT3 := func(t types.Type) bool { return namedAs(t, "Typ3") }
		rt := paramIndex(f, func(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Type" })
		op := paramIndex(f, func(t types.Type) bool { return namedAs(t, "FieldOptions") })
		switch {
		case rt >= 0 && op >= 0 && res.Len() == 1 && isT3(res.At(0).Type()):
			t3fn = f
		case paramIndex(f, isT3) >= 0 && bytesParam(f) >= 0 && res.Len() == 2 && isIntType(res.At(0).Type()) && isErrorType(res.At(1).Type()):
			skipfn = f
		case paramIndex(f, isT3) >= 0 && paramIndex(f, isWriterType) >= 0 && res.Len() == 1 && len(f.Params) == 3:
			keyEnc = f
		case bytesParam(f) >= 0 && len(f.Params) == 1 && res.Len() == 4 && isT3(res.At(1).Type()):
			keyDec = f
		}
	}
	if len(encs) == 0 || len(decs) == 0 || t3fn == nil || skipfn == nil || keyEnc == nil || keyDec == nil {
		r.undecided("cannot find the scalar encoders (%d), decoders (%d), wire type function, skipping function or field key functions", len(encs), len(decs))
		return
	}
	// what skipping a wire type consumes
	dh.e.runRoot(skipfn)
	skips := map[int64]map[string]bool{}
	ti := paramIndex(skipfn, func(t types.Type) bool { return namedAs(t, "Typ3") })
	skipPaths, skipArgs := w.paths, w.args
	for t := int64(0); t < 8; t++ {
		skips[t] = map[string]bool{}
		for _, pa := range skipPaths {
			s := pa.st.clone()
			s.facts = dh.e.assume(s.facts, dh.e.tp.eq0(toLin(skipArgs[ti]).addC(-t)), true)
			if s.facts.dead || dh.e.infeasible(s.facts) || !pa.ok {
				continue
			}
			skips[t][skipForm(dh.e, s, skipArgs[bytesParam(skipfn)], pa.rs[0])] = true
		}
	}
	// the wire type of each kind
	dh.e.runRoot(t3fn)
	t3paths, t3args := w.paths, w.args
	typ3 := func(k reflect.Kind, o map[string]bool) map[int64]bool {
		out := map[int64]bool{}
		w.root, w.args = t3fn, t3args
		for _, pa := range t3paths {
			s := w.under(dh.e, pa.st, k, o)
			if s == nil || dh.e.infeasible(s.facts) {
				continue
			}
			c, ok := constOf(pa.rs[0])
			if !ok {
				out[-1] = true
				continue
			}
			out[c.Int64()] = true
		}
		return out
	}
	wire := func(k reflect.Kind, o map[string]bool, prim string) {
		what := k.String() + comboName(o)
		ts := typ3(k, o)
		for t := range ts {
			r.ob("wiretype", p.pos(t3fn.Pos()), shortName(t3fn), fmt.Sprintf("%s, written as %s, is announced as wire type %d", what, prim, primTyp3[prim]), t == primTyp3[prim], fmt.Sprintf("announced as %d", t), "")
			for sk := range skips[t] {
				r.ob("skip", p.pos(skipfn.Pos()), shortName(skipfn), fmt.Sprintf("skipping %s consumes its encoding", what), sk == prim || sk == "uv" && (prim == "sv" || prim == "bool"), "consumes "+sk, "")
			}
		}
		r.ob("wiretype", p.pos(t3fn.Pos()), shortName(t3fn), what+" has a wire type that can be skipped", len(ts) == 1 && len(skips[primTyp3[prim]]) == 1, fmt.Sprint(len(ts), " wire types"), "")
	}
	skipErrors(dh.e, r, skipfn, skipPaths, skipArgs, ti)
	for _, o := range optionCombos() {
		for _, k := range scalarKinds {
			ef := &scalarForm{prims: map[string]bool{}, bools: map[int]int{}}
			for _, s := range encs {
				w.root, w.args = s.fn, s.args
				f := encodeForms(eh.e, w, r, s.fn, s.paths, reflectSource, k, o, true)
				merge(ef, f)
			}
			df := &scalarForm{prims: map[string]bool{}}
			for _, s := range decs {
				w.root, w.args = s.fn, s.args
				merge(df, decodeForms(dh.e, w, r, s.fn, s.paths, ef, k, o, true))
			}
			what := k.String() + comboName(o)
			r.ob("agree", p.pos(encs[0].fn.Pos()), shortName(encs[0].fn), what+" is read in the form it is written", ef.one() != "" && ef.one() == df.one(), "written as "+ef.String()+", read as "+df.String(), "")
			if ef.one() != "" {
				wire(k, o, ef.one())
			}
		}
		for _, k := range []reflect.Kind{reflect.Struct, reflect.Interface, reflect.Slice, reflect.Array} {
			wire(k, o, "bytes")
		}
	}
	fieldKeys(eh.e, dh.e, w, r, keyEnc, keyDec)
	primitivePairs(p, eh.e, dh.e, w, r)
	for n := range dh.e.notes {
		r.undecided("%s", n)
	}
}

func merge(a, b *scalarForm) {
	for p := range b.prims {
		a.prims[p] = true
	}
	for k, v := range b.bools {
		a.bools[k] = v
	}
	a.n += b.n
}

// skipForm names what a successful skip consumed.
func skipForm(e *Engine, s *State, in, n *Term) string {
	reads := distinctReads(e, s)
	if len(reads) == 0 {
		// a fixed number of bytes may be skipped without looking at them
		for p, sz := range map[string]int64{"le4": 4, "le8": 8} {
			_, _, ln, _ := e.sl(in)
			if e.entailsEQ(s.facts, toLin(n).addC(-sz)) && e.entailsGE(s.facts, toLin(ln).addC(-sz)) {
				return p
			}
		}
		return "nothing"
	}
	r := reads[0]
	if !atStart(e, r, in) {
		return "something else"
	}
	switch {
	case r.aux == "le4" || r.aux == "le8":
		if e.entailsEQ(s.facts, toLin(n).sub(toLin(r.args[3]))) {
			return r.aux
		}
	case r.aux == "uv" || r.aux == "sv":
		if e.entailsEQ(s.facts, toLin(n).sub(toLin(r.args[3]))) && !e.entailsEQ(s.facts, toLin(r.args[0])) {
			return "uv"
		}
		if r.aux == "uv" && e.entailsEQ(s.facts, toLin(n).sub(toLin(r.args[3])).sub(toLin(r.args[0]))) {
			return "bytes"
		}
	}
	return "something else"
}

// skipErrors: skipping never rejects a complete encoding.
func skipErrors(e *Engine, r *Result, fn *ssa.Function, paths []*wirePath, args []*Term, ti int) {
	in := args[bytesParam(fn)]
	for prim, t := range map[string]int64{"uv": 0, "le8": 1, "bytes": 2, "le4": 5} {
		for _, pa := range paths {
			if pa.ok {
				continue
			}
			s := pa.st.clone()
			s.facts = e.assume(s.facts, e.tp.eq0(toLin(args[ti]).addC(-t)), true)
			if s.facts.dead {
				continue
			}
			bad := rejects(e, s, in, prim, reflect.Invalid, nil)
			r.ob("skip", e.P.pos(instrPos(pa.at)), shortName(fn), fmt.Sprintf("a complete field of wire type %d can be skipped", t), !bad, "it can be rejected here", strings.Join(lastN(s.path, 10), " "))
		}
	}
}

// fieldKeys: the field key read back is the field key written.
func fieldKeys(ee, de *Engine, w *wireClient, r *Result, enc, dec *ssa.Function) {
	ee.runRoot(enc)
	wi := paramIndex(enc, isWriterType)
	ti := paramIndex(enc, func(t types.Type) bool { return namedAs(t, "Typ3") })
	ni := paramIndex(enc, func(t types.Type) bool { return isIntType(t) && !namedAs(t, "Typ3") })
	if ni < 0 {
		r.undecided("field key encoder has no number")
		return
	}
	for _, pa := range w.paths {
		where, path := ee.P.pos(instrPos(pa.at)), strings.Join(lastN(pa.st.path, 10), " ")
		if !pa.ok {
			r.ob("key", where, shortName(enc), "a field key can be written", pa.st.ghost["wfail"] != nil, "fails without a write having failed", path)
			continue
		}
		items := ghostList(pa.st, wkey(w.args[wi]))
		ok := len(items) == 1 && items[0].op == "wval" && items[0].aux == "uv" && packedKey(ee, pa.st, items[0].args[0], w.args[ni], w.args[ti])
		r.ob("key", where, shortName(enc), "the field key is the uvarint of 8*number+type", ok, clip(fmt.Sprint(items), 200), path)
	}
	de.runRoot(dec)
	in := w.args[0]
	n := 0
	for _, pa := range w.paths {
		s := pa.st.clone()
		where, path := de.P.pos(instrPos(pa.at)), strings.Join(lastN(s.path, 10), " ")
		reads := distinctReads(de, s)
		if len(reads) > 0 && (len(reads) != 1 || reads[0].aux != "uv" || !atStart(de, reads[0], in)) {
			r.ob("key", where, shortName(dec), "the field key is one uvarint", false, clip(fmt.Sprint(reads), 200), path)
			continue
		}
		_, _, ln, _ := de.sl(in)
		if !pa.ok {
			bad := s.ghost["rdfail"] == nil
			if bad {
				s.facts = de.addGE(s.facts, toLin(ln).addC(-1))
				if len(reads) == 1 {
					s.facts = de.addGE(s.facts, linBig(new(big.Int).SetUint64(1<<32-1)).sub(toLin(reads[0].args[0])))
				}
				bad = !de.infeasible(s.facts)
			}
			r.ob("key", where, shortName(dec), "every field key that can be written is accepted", !bad, "it can be rejected here", path)
			continue
		}
		n++
		if len(reads) == 0 {
			r.ob("key", where, shortName(dec), "the field key is one uvarint", false, "nothing is read", path)
			continue
		}
		a := reads[0].args[0]
		num := de.tp.mk("shr", "", types.Typ[types.Uint64], a, de.tp.intc(3))
		typ := toLin(a).sub(toLin(num).scale(8))
		ok1 := de.entailsEQ(s.facts, toLin(pa.rs[0]).sub(toLin(num)))
		ok2 := de.entailsEQ(s.facts, toLin(pa.rs[1]).sub(typ))
		r.ob("key", where, shortName(dec), "number and type are the parts of 8*number+type", ok1 && ok2, clip(fmt.Sprint(pa.rs), 200), path)
	}
	r.floor("field key decodings", n, 1)
}

// packedKey: v = 8*num + typ, given that typ is below 8.
func packedKey(e *Engine, st *State, v, num, typ *Term) bool {
	small := e.entailsGE(st.facts, linConst(7).sub(toLin(typ)))
	for t, b := range st.facts.lits {
		if b && t.op == "eq0" && t.args[0].op == "andc" && t.args[0].args[0] == typ {
			if c, ok := constOf(t.args[0].args[1]); ok && c.IsInt64() && c.Int64()|7 == 255 {
				small = true
			}
		}
	}
	for _, l := range st.facts.eqs {
		if len(l.atoms) == 1 && l.c.Sign() == 0 && l.atoms[0].op == "andc" && l.atoms[0].args[0] == typ {
			if c, ok := constOf(l.atoms[0].args[1]); ok && c.IsInt64() && c.Int64()|7 == 255 {
				small = true
			}
		}
	}
	if !small {
		return false
	}
	hi := toLin(num).scale(8)
	if v.op == "or" {
		a, b := v.args[0], v.args[1]
		if b != typ {
			a, b = b, a
		}
		return b == typ && e.entailsEQ(st.facts, toLin(a).sub(hi))
	}
	return e.entailsEQ(st.facts, toLin(v).sub(hi).sub(toLin(typ)))
}

// primitivePairs checks the exported EncodeX and DecodeX.
func primitivePairs(p *Program, ee, de *Engine, w *wireClient, r *Result) {
	encs, decs := map[string]*ssa.Function{}, map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sig := f.Signature
		switch {
		case strings.HasPrefix(f.Name(), "Encode") && sig.Params().Len() == 2 && isWriterType(sig.Params().At(0).Type()) && sig.Results().Len() == 1:
			encs[f.Name()[6:]] = f
		case strings.HasPrefix(f.Name(), "Decode") && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 3:
			decs[f.Name()[6:]] = f
		}
	}
	n := 0
	var names []string
	for x := range encs {
		names = append(names, x)
	}
	sort.Strings(names)
	for _, name := range names {
		ef, df := encs[name], decs[name]
		if df == nil || !types.Identical(ef.Signature.Params().At(1).Type(), df.Signature.Results().At(0).Type()) {
			continue
		}
		t := ef.Signature.Params().At(1).Type()
		sk, ok := staticKind(t)
		k := reflect.Kind(sk)
		if !ok || allScalars&(1<<uint(k)) == 0 && !isByteSlice(t) {
			continue
		}
		n++
		ee.runRoot(ef)
		src := paramSource(w.args[1])
		if isByteSlice(t) {
			b, _, _, _ := ee.sl(w.args[1])
			src = paramSource(b)
		}
		ff := encodeForms(ee, w, r, ef, w.paths, src, k, nil, false)
		de.runRoot(df)
		gf := decodeForms(de, w, r, df, w.paths, ff, k, nil, false)
		r.ob("agree", p.pos(ef.Pos()), shortName(ef), shortName(df)+" reads what "+shortName(ef)+" writes", ff.one() != "" && ff.one() == gf.one(), "written as "+ff.String()+", read as "+gf.String(), "")
	}
	r.floor("exported encoder and decoder pairs", n, 12)
}
