package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entryClient follows the exported entry points down to the four bare
// operations, which are not entered.
type entryClient struct {
	*wireClient
	bare map[*ssa.Function]string
}

func (c *entryClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if f := in.Common().StaticCallee(); f != nil && c.bare[f] != "" {
		as := append([]*Term{}, args...)
		if res != nil {
			as = append(as, res)
		}
		e.push(st, "ops", e.tp.mk("op", c.bare[f], nil, as...))
		c.context(e, st)
		return
	}
	switch name {
	case "encoding/json.Indent":
		if res != nil && isNilConst(res) {
			e.push(st, wkey(args[0]), e.tp.mk("windent", "", nil, args[1:]...))
		} else {
			e.flag(st, "wfail")
		}
		return
	}
	if f := in.Common().StaticCallee(); f == nil || !e.repoFunc(f) {
		for _, a := range args {
			if t := writerOf(a); c.isStream(t, "io.Writer") && res != nil && res.op == "tuple" {
				k := "wn:" + wkey(a)
				n := toLin(res.args[0])
				if p := st.ghost[k]; p != nil {
					n = n.add(toLin(p))
				}
				st.ghost[k] = e.tp.fromLin(n)
			}
			if t := streamOf(a); c.isStream(t, "io.Reader") && res != nil && res.op == "tuple" {
				if et := e.errResult(in, res); et != nil {
					if strings.HasPrefix(name, "io.ReadFull") && st.ghost["cnt"] != nil {
						st.ghost["cnt"] = e.tp.fromLin(toLin(st.ghost["cnt"]).add(toLin(res.args[0])))
					}
					if !isNilConst(et) {
						e.flag(st, "rfail")
					} else if t, ok := res.args[0].typ.(*types.Slice); ok && isByteSlice(t) {
						b, _, n, _ := e.sl(res.args[0])
						e.push(st, "stream", e.tp.mk("got", "", nil, b, n))
					} else if strings.HasPrefix(name, "io.Read") {
						b, _, n, _ := e.sl(args[1])
						e.push(st, "stream", e.tp.mk("got", "", nil, b, n))
					}
				}
			}
		}
	}
	c.wireClient.After(e, fr, st, in, name, args, res)
}

// streamOf strips limits and interface wrapping of a reader.
func streamOf(t *Term) *Term {
	for (t.op == "iface" || t.op == "limited") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

func (c *entryClient) isStream(t *Term, typ string) bool {
	for i, p := range c.root.Params {
		if c.args[i] == t {
			return types.TypeString(p.Type(), nil) == typ
		}
	}
	return false
}

func (c *entryClient) Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term) {
	items := append(c.content(e, st, args[0]), c.content(e, st, args[1])...)
	c.wireClient.Append(e, fr, st, at, args, res)
	b, _, _, _ := e.sl(res)
	var l *Term
	for i, x := range items {
		if i == 0 {
			l = e.tp.mk("wcons", "", nil, x)
		} else {
			l = e.tp.mk("wcons", "", nil, x, l)
		}
	}
	if l != nil {
		st.ghost["bb:"+itoa(b.id)] = l
	}
}

func itoa(i int) string { return fmt.Sprint(i) }

// content describes the bytes of a slice.
func (c *entryClient) content(e *Engine, st *State, x *Term) []*Term {
	if isNilConst(x) {
		return nil
	}
	return c.written(e, st, x, false)
}

// outcome is one way an entry point ends.
type outcome struct {
	st    *State
	rs    []*Term
	ok    bool
	panic bool
	at    ssa.Instruction
}

type entry struct {
	f    *ssa.Function
	name string // without Must
	must bool
	bare string
	form string // "", LengthPrefixed, Writer, Reader, Indent
}

var bareNames = map[string]bool{"MarshalBinaryBare": true, "UnmarshalBinaryBare": true, "MarshalJSON": true, "UnmarshalJSON": true}

// entries lists the exported functions and codec methods named after a bare
// operation.
func entries(p *Program) []*entry {
	var out []*entry
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if f.Signature.Recv() != nil && !isCodecRecv(f) {
			continue
		}
		en := &entry{f: f, name: strings.TrimPrefix(f.Name(), "Must")}
		en.must = en.name != f.Name()
		switch n := en.name; {
		case bareNames[n]:
			en.bare = n
		case strings.HasSuffix(n, "Indent") && bareNames[strings.TrimSuffix(n, "Indent")]:
			en.bare, en.form = strings.TrimSuffix(n, "Indent"), "Indent"
		default:
			m := strings.TrimSuffix(strings.TrimSuffix(n, "Writer"), "Reader")
			en.form = "LengthPrefixed"
			if m != n {
				en.form = n[len(m):]
			}
			en.bare = strings.Replace(m, "LengthPrefixed", "Bare", 1)
			if en.bare == m || !bareNames[en.bare] {
				continue
			}
		}
		out = append(out, en)
	}
	return out
}

// forwards: f does nothing but call one other function of the repository with
// its own parameters, in order, and return what that returns.
func forwards(p *Program, f *ssa.Function) *ssa.Function {
	if len(f.Blocks) != 1 {
		return nil
	}
	var call *ssa.Call
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			if call != nil {
				return nil
			}
			call = in
		case *ssa.Extract, *ssa.Return, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if call == nil {
		return nil
	}
	g := call.Call.StaticCallee()
	if g == nil || g.Pkg != p.Main || len(call.Call.Args) != len(f.Params) || g.Signature.Results().Len() != f.Signature.Results().Len() {
		return nil
	}
	for i, a := range call.Call.Args {
		if a != ssa.Value(f.Params[i]) {
			return nil
		}
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return nil
	}
	for i, r := range ret.Results {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i && x.Tuple == ssa.Value(call) {
			continue
		}
		if r == ssa.Value(call) {
			continue
		}
		return nil
	}
	return g
}

func sameBytes(e *Engine, st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ab, ao, an, _ := e.sl(a)
	bb, bo, bn, _ := e.sl(b)
	return ab == bb && eqLin(e, st.facts, toLin(ao), toLin(bo)) && eqLin(e, st.facts, toLin(an), toLin(bn))
}

type entryRun struct {
	c    *entryClient
	e    *Engine
	en   *entry
	gcdc *ssa.Global
	r    *Result
	n    int
	seen map[*ssa.Global]bool
}

func (x *entryRun) check() {
	f := x.en.f
	x.e.loopCache = nil
	x.e.runRoot(f)
	var outs []*outcome
	for _, pt := range x.c.paths {
		outs = append(outs, &outcome{pt.st, pt.rs, pt.ok, false, pt.at})
	}
	for _, pt := range x.c.panics {
		outs = append(outs, &outcome{pt.st, nil, false, true, pt.at})
	}
	x.r.floor("ends of "+shortName(f), len(outs), 1)
	for _, o := range outs {
		x.n++
		what, why := x.outcome(o)
		w := x.e.P.pos(instrPos(o.at))
		x.r.ob("entry", w, shortName(f), what, why == "", why, "")
	}
}

func (x *entryRun) param(pred func(t types.Type) bool, nth int) *Term {
	for i, p := range x.en.f.Params {
		if i == 0 && x.en.f.Signature.Recv() != nil {
			continue
		}
		if pred(p.Type()) {
			if nth == 0 {
				return x.c.args[i]
			}
			nth--
		}
	}
	return nil
}

func typed(s string) func(types.Type) bool {
	return func(t types.Type) bool { return types.TypeString(t, nil) == s }
}

func emptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// outcome compares one way the entry point ends with what the bare operation
// it wraps did.
func (x *entryRun) outcome(o *outcome) (what, why string) {
	e, c, en := x.e, x.c, x.en
	ops := ghostList(o.st, "ops")
	reader := en.form == "Reader"
	max := x.param(isIntType, 0)
	what = "ends like " + en.bare
	if o.panic && !en.must {
		if reader && max != nil && e.entailsGE(o.st.facts, toLin(max).neg().addC(-1)) {
			return "a negative maximum is refused", ""
		}
		return what, "panics by itself"
	}
	if len(ops) > 1 {
		return what, fmt.Sprintf("calls %d bare operations", len(ops))
	}
	unmarshal := strings.HasPrefix(en.bare, "Un")
	if len(ops) == 0 {
		what = "only what cannot be decoded is refused early"
		if o.ok {
			return what, "succeeds without " + en.bare
		}
		if !unmarshal || en.form == "" {
			return what, "fails without " + en.bare
		}
		return what, x.refusal(o, max)
	}
	op := ops[0]
	if op.op != "op" || op.aux != en.bare {
		return what, "calls " + op.aux
	}
	// the codec
	if en.f.Signature.Recv() != nil {
		if op.args[0] != c.args[0] {
			return what, "works on another codec"
		}
	} else if g := op.args[0]; !x.isDefault(g) {
		return what, "works on " + clip(g.String(), 80) + " instead of the default codec"
	}
	// the arguments and the error
	var er, bz *Term
	val := x.param(emptyIface, 0)
	if unmarshal {
		if op.args[2] != val {
			return what, "decodes into " + clip(op.args[2].String(), 80)
		}
		if len(op.args) < 4 {
			return what, "ignores the error"
		}
		er = op.args[3]
		if s := x.input(o, op.args[1]); s != "" {
			return "the bytes decoded are the ones given", s
		}
	} else {
		if op.args[1] != val {
			return what, "encodes " + clip(op.args[1].String(), 80)
		}
		if len(op.args) < 3 || op.args[2].op != "tuple" {
			return what, "ignores the error"
		}
		bz, er = op.args[2].args[0], op.args[2].args[1]
	}
	if e.truth(o.st.facts, e.isNil(er)) == -1 {
		if o.ok {
			return what, "succeeds although " + en.bare + " failed"
		}
		if n := len(o.rs); en.form == "" && !en.must && n > 0 && o.rs[n-1] != er {
			return what, "returns another error than " + en.bare
		}
		return what, ""
	}
	failed := o.st.ghost["wfail"] != nil
	if !o.ok {
		if failed {
			return what, ""
		}
		return what, "fails although " + en.bare + " succeeded"
	}
	if failed {
		return what, "succeeds although the bytes could not be passed on"
	}
	if unmarshal {
		return what, ""
	}
	what = "the bytes are those of " + en.bare
	var items []*Term
	if en.form == "Writer" {
		w := x.param(typed("io.Writer"), 0)
		if w == nil {
			return what, "no writer"
		}
		items = ghostList(o.st, wkey(w))
		n := o.st.ghost["wn:"+wkey(w)]
		if n == nil || len(o.rs) != 2 || !eqLin(e, o.st.facts, toLin(n), toLin(o.rs[0])) {
			return what, "the number of bytes written is not what is reported"
		}
	} else {
		if len(o.rs) == 0 {
			return what, "no bytes are returned"
		}
		if en.form == "" {
			if !sameBytes(e, o.st, o.rs[0], bz) {
				return what, "returns " + clip(o.rs[0].String(), 120)
			}
			return what, ""
		}
		items = c.content(e, o.st, o.rs[0])
	}
	return what, x.bytes(o, items, bz)
}

func (x *entryRun) isDefault(g *Term) bool {
	if g.op != "load" && g.op != "init" && len(g.args) == 0 {
		return false
	}
	return contains(g, func(t *Term) bool { return t.op == "global" && t.aux == x.gcdc.String() })
}

// bytes compares what is put out with the bytes of the bare operation.
func (x *entryRun) bytes(o *outcome, items []*Term, bz *Term) string {
	e := x.e
	isBare := func(t *Term) bool { return t.op == "wbytes" && sameBytes(e, o.st, t.args[0], bz) }
	var kinds []string
	for _, t := range items {
		kinds = append(kinds, clip(t.op+" "+t.aux, 30))
	}
	got := "puts out [" + strings.Join(kinds, ", ") + "]"
	_, _, n, _ := e.sl(bz)
	empty := e.entailsEQ(o.st.facts, toLin(n))
	switch x.en.form {
	case "Indent":
		pre, ind := x.param(isStringType, 0), x.param(isStringType, 1)
		if len(items) != 1 || items[0].op != "windent" || !sameBytes(e, o.st, items[0].args[0], bz) || items[0].args[1] != pre || items[0].args[2] != ind {
			return got + " instead of the indented bytes"
		}
		return ""
	}
	if len(items) == 0 || items[0].op != "wval" || items[0].aux != "uv" || !eqLin(e, o.st.facts, toLin(items[0].args[0]), toLin(n)) {
		return got + " instead of the length first"
	}
	if empty && len(items) == 1 {
		return ""
	}
	if len(items) != 2 || !isBare(items[1]) {
		return got + " instead of the length and the bare bytes"
	}
	return ""
}

// input checks the bytes passed to a decoding operation.
func (x *entryRun) input(o *outcome, in *Term) string {
	e := x.e
	b, off, n, _ := e.sl(in)
	given := x.param(isByteSlice, 0)
	switch x.en.form {
	case "":
		if given == nil || !sameBytes(e, o.st, in, given) {
			return "decodes " + clip(in.String(), 100)
		}
		return ""
	case "Reader":
		ann := x.announced(o, nil)
		if ann == nil {
			return "the length is not read first"
		}
		if !eqLin(e, o.st.facts, toLin(ann.args[0]), toLin(n)) {
			return "decodes " + clip(toLin(n).String(), 80) + " bytes of " + clip(ann.args[0].String(), 80)
		}
		if e.entailsEQ(o.st.facts, toLin(n)) {
			return ""
		}
		for _, g := range ghostList(o.st, "stream") {
			if g.op == "got" && g.args[0] == b && eqLin(e, o.st.facts, toLin(g.args[1]), toLin(n)) {
				return ""
			}
		}
		return "decodes bytes that were not read"
	}
	if given == nil {
		return "no bytes"
	}
	gb, go_, gn, _ := e.sl(given)
	ann := x.announced(o, gb)
	if ann == nil || !eqLin(e, o.st.facts, toLin(ann.args[2]), toLin(go_)) {
		return "the length is not read first"
	}
	k := toLin(ann.args[3])
	if b != gb || !eqLin(e, o.st.facts, toLin(off), toLin(go_).add(k)) || !eqLin(e, o.st.facts, toLin(n), toLin(gn).sub(k)) {
		return "does not decode all that follows the length"
	}
	if !eqLin(e, o.st.facts, toLin(ann.args[0]), toLin(n)) {
		return "the length is not the number of bytes decoded"
	}
	return ""
}

// announced is the first uvarint read (from base b, if not nil).
func (x *entryRun) announced(o *outcome, b *Term) *Term {
	for _, r := range ghostList(o.st, "rd") {
		if r.op == "rd" && r.aux == "uv" && (b == nil || r.args[1] == b) {
			return r
		}
	}
	return nil
}

// refusal: a failure before anything is decoded has a reason.
func (x *entryRun) refusal(o *outcome, max *Term) string {
	e, f := x.e, o.st.facts
	if o.st.ghost["rdfail"] != nil || o.st.ghost["rfail"] != nil {
		return ""
	}
	given := x.param(isByteSlice, 0)
	if x.en.form == "Reader" {
		r := x.announced(o, nil)
		if r == nil {
			// within the prefix: it must be longer than the maximum
			if max != nil && e.entailsGE(f, toLin(max).addC(-1)) {
				if k := x.obtained(o); k != nil && e.entailsGE(f, k.sub(toLin(max))) {
					return ""
				}
			}
			return "fails before the length is known"
		}
		// too long for the maximum, for this system, or cut off
		u := toLin(r.args[0])
		g := e.addGE(f, linConst(1<<62).scale(2).addC(-1).sub(u))
		if max != nil {
			if e.infeasible(g) {
				return ""
			}
			for _, pos := range []bool{true, false} {
				h := g
				if pos {
					h = e.addGE(h, toLin(max).addC(-1))
					h = e.addGE(h, toLin(max).sub(u).sub(x.obtained(o)))
				} else {
					h = e.addGE(h, toLin(max).neg())
				}
				// what was read is complete
				for _, s := range ghostList(o.st, "stream") {
					if s.op == "got" && s.args[0] != r.args[1] {
						h = e.addGE(h, toLin(s.args[1]).sub(u))
					}
				}
				if !e.infeasible(h) {
					return "fails although the object fits and was read"
				}
			}
			return ""
		}
		return "fails without a reason"
	}
	if given == nil {
		return "fails without a reason"
	}
	gb, _, gn, _ := e.sl(given)
	if e.entailsEQ(f, toLin(gn)) {
		return ""
	}
	r := x.announced(o, gb)
	if r == nil {
		return "fails before the length is known"
	}
	g := e.addGE(f, toLin(gn).sub(toLin(r.args[3])).sub(toLin(r.args[0])))
	g = e.addGE(g, toLin(r.args[0]).sub(toLin(gn)).add(toLin(r.args[3])))
	if !e.infeasible(g) {
		return "fails although the length is right"
	}
	return ""
}

// obtained counts the bytes of the prefix read so far.
func (x *entryRun) obtained(o *outcome) *Lin {
	if t := o.st.ghost["cnt"]; t != nil {
		return toLin(t)
	}
	return nil
}

func (c *entryClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	c.wireClient.Start(e, f, st, args)
	st.ghost["cnt"] = e.tp.intc(0)
}

func init() {
	register(&Check{ID: "C23", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of every entry point down to the four bare operations: each end of each entry point is compared with what the bare operation was given and what it returned",
		Expl: "ends (returns and panics) of the exported marshalling functions and methods",
		Trust: []string{
			"bytes.Buffer, io.ReadAll, io.ReadFull, json.Indent and encoding/binary behave as documented",
		},
		Run: func(p *Program, r *Result) {
			bare := map[*ssa.Function]string{}
			ens := entries(p)
			for _, en := range ens {
				if en.bare == en.name && !en.must && en.f.Signature.Recv() != nil {
					g := en.f
					for i := 0; i < 4; i++ {
						bare[g] = en.bare
						h := forwards(p, g)
						if h == nil {
							break
						}
						delete(bare, g)
						g = h
					}
				}
			}
			r.floor("bare operations", len(bare), 4)
			var def *ssa.Global
			for _, m := range p.Main.Members {
				if g, ok := m.(*ssa.Global); ok && isNamed(derefType(derefType(g.Type())), p.Main.Pkg, "Codec") {
					if def != nil {
						r.undecided("package variables: more than one codec")
					}
					def = g
				}
			}
			if def == nil {
				r.undecided("package variables: no default codec")
				return
			}
			c := &entryClient{wireClient: &wireClient{}, bare: bare}
			e := newEngine(p)
			e.inlineAll = true
			e.smallLimit = 60
			e.client = c
			e.opaqueFn = func(f *ssa.Function) bool { return bare[f] != "" }
			x := &entryRun{c: c, e: e, gcdc: def, r: r}
			k := 0
			for _, en := range ens {
				if bare[en.f] != "" {
					continue
				}
				k++
				x.en = en
				x.check()
			}
			r.floor("entry points", k, 20)
			r.floor("ends", x.n, 40)
		}})
}
