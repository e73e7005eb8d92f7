package main

import (
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// overClient checks that a decoder that succeeds has overwritten its target.
type overClient struct {
	*fieldsClient
	elems int
	ptr   *Term // what an entry point was given
}

// part follows v back to what it is a part of.
func part(v *Term) (*Term, *Term, bool) {
	if v.op == "rval" && len(v.args) == 2 && v.args[1].op == "ridx" {
		v = v.args[1]
	}
	switch v.op {
	case "ridx", "rfield":
		return v.args[0], v.args[1], true
	case "pure":
		if strings.HasSuffix(v.aux, ".Slice") || strings.HasSuffix(v.aux, ".Slice3") {
			return v.args[0], nil, true
		}
	case "rbytes":
		return v.args[0], nil, true
	}
	return nil, nil, false
}

// within: v shares memory with the target.
func (c *overClient) within(e *Engine, st *State, v *Term) bool {
	for i := 0; i < 30; i++ {
		v = e.source(st, v)
		if v == c.value {
			return true
		}
		if p, _, ok := part(v); ok {
			v = p
			continue
		}
		if p := st.ghost["ent:"+strconv.Itoa(v.id)]; p != nil {
			v = p
			continue
		}
		switch v.op {
		case "rvalueof", "rinterface", "iface":
			v = v.args[0]
			continue
		}
		return false
	}
	return false
}

func (c *overClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	switch name {
	case "(reflect.Value).Set":
		if e.source(st, args[0]) == c.value || c.insideOf(e, st, args[0]) {
			// a nil pointer may be replaced by a new one
			ok := !c.within(e, st, args[1])
			c.n++
			e.oblige(fr, st, "over", instrPos(in), "what is stored does not come from the target", ok, func() string {
				return "the target may get back part of what it held: " + clip(args[1].String(), 100)
			})
		}
	case "reflect.Append", "reflect.AppendSlice":
		ok := !c.within(e, st, args[0])
		e.oblige(fr, st, "over", instrPos(in), "lists are built in memory of their own", ok, func() string {
			return "elements are appended to what the target held: " + clip(args[0].String(), 100)
		})
	case "(reflect.Value).SetLen", "(reflect.Value).SetCap", "(reflect.Value).Grow":
		e.oblige(fr, st, "over", instrPos(in), "lists are replaced", !c.within(e, st, args[0]), func() string { return "the list of the target is kept" })
	case "(reflect.Value).SetBytes", "(reflect.Value).SetZero", "(reflect.Value).SetComplex":
		e.push(st, "vsets", e.tp.mk("set", "", nil, args[0]))
	case "reflect.Copy":
		c.copied(e, st, args[0], e.rlen(st, args[1]))
	case "(reflect.Value).Call":
		// a user's method of the value does the work
		var m *Term
		contains(args[0], func(t *Term) bool {
			if t.op == "pure" && strings.HasSuffix(t.aux, ".MethodByName") || t.op == "pure" && strings.HasSuffix(t.aux, ".Method") {
				m = t
				return true
			}
			return false
		})
		if m != nil {
			e.push(st, "vsets", e.tp.mk("set", "", nil, m.args[0]))
		}
	}
	c.fieldsClient.Call(e, fr, st, in, name, args)
}

func (c *overClient) insideOf(e *Engine, st *State, v *Term) bool {
	return c.fieldsClient.inside(e, st, v)
}

// copied: n bytes or elements are copied to dst.
func (c *overClient) copied(e *Engine, st *State, dst, n *Term) {
	if dst.op == "slice" {
		dst = dst.args[0]
	}
	d := dst
	for i := 0; i < 4; i++ {
		d = e.source(st, d)
		if d == c.value {
			break
		}
		p, _, ok := part(d)
		if !ok {
			return
		}
		d = p
	}
	if d != c.value || c.value == nil {
		return
	}
	for _, ln := range c.lengths(e, st) {
		if e.entailsGE(st.facts, toLin(n).sub(toLin(ln))) {
			st.ghost["all"] = e.tp.intc(1)
		}
	}
}

// lengths are the terms that stand for the length of the target.
func (c *overClient) lengths(e *Engine, st *State) []*Term {
	out := []*Term{e.rlen(st, c.value)}
	seen := map[*Term]bool{}
	add := func(x *Term) {
		contains(x, func(t *Term) bool {
			if (t.op == "pure" && strings.HasSuffix(t.aux, "Type).Len") || t.op == "rlen" && t.aux == "type") && !seen[t] && c.ownType(t.args[0]) {
				seen[t] = true
				out = append(out, t)
			}
			return false
		})
	}
	for _, ls := range [][]*Lin{st.facts.eqs, st.facts.ges} {
		for _, l := range ls {
			for _, t := range l.atoms {
				add(t)
			}
		}
	}
	return out
}

// ownType: the type in the type information the root was given, or that of its
// value.
func (c *overClient) ownType(t *Term) bool {
	for i := 0; i < 10; i++ {
		if t == c.info0 {
			return true
		}
		if t.op == "rtype" {
			return t.args[0] == c.value
		}
		if (t.op == "load" || t.op == "field" || t.op == "fieldaddr" || t.op == "iface") && len(t.args) > 0 {
			t = t.args[0]
			continue
		}
		return false
	}
	return false
}

func (c *overClient) Copy(e *Engine, fr *frame, st *State, in ssa.CallInstruction, args []*Term) {
	b, off, n, _ := e.sl(args[0])
	_, _, sn, _ := e.sl(args[1])
	if b.op == "rbytes" {
		if z, ok := constOf(off); ok && z.Sign() == 0 {
			// as much as fits
			for _, ln := range c.lengths(e, st) {
				if e.entailsGE(st.facts, toLin(n).sub(toLin(ln))) && e.entailsGE(st.facts, toLin(sn).sub(toLin(ln))) {
					c.copied(e, st, b, ln)
				}
			}
		}
	}
}

func (c *overClient) Loop(e *Engine, fr *frame, entry, head *State, backs []*State, exits []exitEdge, l *Loop) {
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isReflectValue(ph.Type()) {
			if h, en := head.env[ph], entry.env[ph]; h != nil && en != nil && h != en {
				for _, x := range exits {
					x.st.ghost["ent:"+strconv.Itoa(h.id)] = en
				}
			}
		}
	}
	c.fieldsClient.Loop(e, fr, entry, head, backs, exits, l)
	// the elements of the target
	var idx *Term
	for _, b := range backs {
		for _, x := range c.events(head, b) {
			p, i, ok := part(e.source(b, x))
			if !ok || i == nil || p != c.value || x.op == "rfield" {
				continue
			}
			if v := e.source(b, x); v.op == "rfield" {
				continue
			}
			idx = i
		}
	}
	if idx == nil {
		return
	}
	c.elems++
	var full func(*State, *Term) bool
	why, f := counter(e, idx, e.tp.intc(0), entry, head, backs, exits, l)
	_ = f
	c.say2(e, fr, head, l, "all elements are taken in order", why)
	for _, b := range backs {
		why := "an element is left as it was"
		for _, x := range c.events(head, b) {
			if p, i, ok := part(e.source(b, x)); ok && p == c.value && i == idx {
				why = ""
			}
		}
		c.say2(e, fr, b, l, "each element is set", why)
	}
	full = func(st *State, n *Term) bool { return e.entailsGE(st.facts, toLin(idx).sub(toLin(n))) }
	for _, x := range exits {
		ok := false
		if why == "" {
			for _, n := range c.lengths(e, x.st) {
				ok = ok || full(x.st, n)
			}
		}
		if ok {
			x.st.ghost["all"] = e.tp.intc(1)
		}
	}
}

func (c *overClient) say2(e *Engine, fr *frame, st *State, l *Loop, what, why string) {
	at := l.head.Instrs[0]
	for _, in := range l.head.Instrs {
		if instrPos(in).IsValid() {
			at = in
			break
		}
	}
	e.oblige(fr, st, "over", instrPos(at), what, why == "", func() string { return why })
}

// events are the values set, or handed to a decoder, since the head.
func (c *overClient) events(head, b *State) []*Term {
	var out []*Term
	for _, x := range fresh(head, b, "nest") {
		if x.op == "nest" {
			if f := c.callee(x.aux); f != nil {
				if vi := valueParam(f); vi >= 0 && vi < len(x.args) {
					out = append(out, x.args[vi])
				}
			}
		}
	}
	for _, k := range []string{"vsets", "sets"} {
		for _, x := range fresh(head, b, k) {
			if x.op == "set" {
				out = append(out, x.args[0])
			}
		}
	}
	return out
}

// overwritten: the target of the root was set on this path.
func (c *overClient) overwritten(e *Engine, st *State) bool {
	if st.ghost["all"] != nil || st.ghost["walked"] != nil {
		return true
	}
	if c.value != nil {
		for _, n := range c.lengths(e, st) {
			if e.entailsEQ(st.facts, toLin(n)) {
				return true
			}
		}
	}
	none := &State{ghost: map[string]*Term{}}
	for _, x := range c.events(none, st) {
		v := e.source(st, x)
		if v == c.value || v.op == "rvalueof" && v.args[0] == c.ptr {
			return true
		}
	}
	return false
}

func (c *overClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	c.fieldsClient.Start(e, f, st, args)
	c.info0, c.ptr = nil, nil
	for i, p := range f.Params {
		if emptyIface(p.Type()) {
			c.ptr = args[i]
		}
		if isNamed(derefType(p.Type()), c.p.Main.Pkg, "TypeInfo") {
			c.info0 = args[i]
		}
	}
}

var _ = reflect.Int

func init() {
	register(&Check{ID: "C34", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the recursive binary decoders: every path that succeeds has set the value it was given, handed it to another decoder, or gone through all of its fields or elements, setting each in its turn; what is stored is never part of what the target held, and lists are not appended to it",
		Expl: "success paths, turns of loops over fields and elements, stored values",
		Trust: []string{
			"the type information handed to a decoder describes the type of the value",
		},
		Run: func(p *Program, r *Result) {
			named := fieldInfoType(p)
			if named == nil {
				r.undecided("no field list")
				return
			}
			c := &overClient{fieldsClient: &fieldsClient{wireClient: &wireClient{}, p: p, info: structOf(named), decode: true, over: true}}
			h := decodeHalf(p, c, false)
			h.inlineParts(p, c.isInfo)
			c.contracts = h.e.contracts
			h.e.lineage = true
			h.e.keepLit = fieldTest
			n := 0
			fns := h.fns
			entries := 0
			for _, f := range decodeRoots(p) {
				if valueParam(f) >= 0 || usesJSON(p, f) {
					continue
				}
				for _, x := range f.Params {
					if emptyIface(x.Type()) && reachesAny(p, f, h.e.contracts) {
						fns = append(fns, f)
						entries++
						break
					}
				}
			}
			for _, f := range fns {
				h.e.loopCache = nil
				h.e.runRoot(f)
				for _, pt := range c.paths {
					if !pt.ok {
						continue
					}
					n++
					why := ""
					if !c.overwritten(h.e, pt.st) {
						why = "the target may keep what it held"
					}
					r.ob("set", p.pos(instrPos(pt.at)), shortName(f), "success means that the target was set", why == "", why, strings.Join(lastN(pt.st.path, 12), " "))
				}
			}
			r.take(h.e, "over", "fields")
			r.floor("decoders", len(h.fns), 5)
			r.floor("entry points", entries, 6)
			r.floor("success paths", n, 7)
			r.floor("loops over elements", c.elems, 1)
			r.floor("loops over fields", c.loops, 1)
		}})
}
