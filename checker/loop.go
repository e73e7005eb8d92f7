package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- state leaves ----

// leaf is one component of a state that a loop may change.
type leaf struct {
	key  string
	term *Term
	typ  types.Type
}

func isIntTerm(t *Term) bool {
	return t.op == "lin" || isIntType2(t.typ)
}
func isIntType2(t types.Type) bool { return t != nil && isIntType(t) }

func (e *Engine) leavesOf(prefix string, t *Term, typ types.Type, out *[]leaf) {
	if t == nil {
		return
	}
	if typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Slice:
			b, o, n, c := e.sl(t)
			it := types.Typ[types.Int]
			*out = append(*out, leaf{prefix + ".b", b, nil}, leaf{prefix + ".o", o, it}, leaf{prefix + ".n", n, it}, leaf{prefix + ".c", c, it})
			return
		case *types.Struct:
			if u.NumFields() <= 24 {
				x := e.expand(t, typ)
				if x.op == "struct" && len(x.args) == u.NumFields() {
					for i := 0; i < u.NumFields(); i++ {
						e.leavesOf(fmt.Sprintf("%s.f%d", prefix, i), x.args[i], u.Field(i).Type(), out)
					}
					return
				}
			}
		case *types.Tuple:
			if t.op == "tuple" && len(t.args) == u.Len() {
				for i := 0; i < u.Len(); i++ {
					e.leavesOf(fmt.Sprintf("%s.t%d", prefix, i), t.args[i], u.At(i).Type(), out)
				}
				return
			}
		}
	}
	*out = append(*out, leaf{prefix, t, typ})
}

// rebuild puts replaced leaves back.
func (e *Engine) rebuild(prefix string, t *Term, typ types.Type, rep map[string]*Term) *Term {
	if typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Slice:
			b, o, n, c := e.sl(t)
			any := false
			g := func(k string, x *Term) *Term {
				if r := rep[prefix+k]; r != nil {
					any = true
					return r
				}
				return x
			}
			b, o, n, c = g(".b", b), g(".o", o), g(".n", n), g(".c", c)
			if !any {
				return t
			}
			return e.mkSlice(typ, b, o, n, c)
		case *types.Struct:
			if u.NumFields() <= 24 {
				x := e.expand(t, typ)
				if x.op == "struct" && len(x.args) == u.NumFields() {
					as := make([]*Term, len(x.args))
					any := false
					for i := range as {
						as[i] = e.rebuild(fmt.Sprintf("%s.f%d", prefix, i), x.args[i], u.Field(i).Type(), rep)
						if as[i] != x.args[i] {
							any = true
						}
					}
					if !any {
						return t
					}
					return e.tp.mk("struct", x.aux, x.typ, as...)
				}
			}
		case *types.Tuple:
			if t.op == "tuple" && len(t.args) == u.Len() {
				as := make([]*Term, len(t.args))
				any := false
				for i := range as {
					as[i] = e.rebuild(fmt.Sprintf("%s.t%d", prefix, i), t.args[i], u.At(i).Type(), rep)
					if as[i] != t.args[i] {
						any = true
					}
				}
				if !any {
					return t
				}
				return e.tp.mk("tuple", t.aux, t.typ, as...)
			}
		}
	}
	if r := rep[prefix]; r != nil {
		return r
	}
	return t
}

// stateLeaves lists the parts of st that the loop may change.
func (e *Engine) stateLeaves(fr *frame, l *Loop, head, st *State) []leaf {
	var out []leaf
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t := st.env[ph]; t != nil {
			e.leavesOf(fmt.Sprintf("v%d", fr.info.num[ph]), t, ph.Type(), &out)
		}
	}
	var cs []*Term
	for c := range head.cells {
		if _, ok := st.cells[c]; ok {
			cs = append(cs, c)
		}
	}
	sortTerms(cs)
	for _, c := range cs {
		e.leavesOf(fmt.Sprintf("c%d", c.id), st.cells[c], derefType(c.typ), &out)
	}
	var ks []string
	for k := range head.ghost {
		if !weakGhost(k) {
			if _, ok := st.ghost[k]; ok {
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, leaf{"g" + k, st.ghost[k], nil})
	}
	return out
}

type cand struct {
	name  string
	lin   *Lin  // >= 0
	eq    bool  // = 0
	bterm *Term // boolean term
	bval  bool
}

type invariant struct {
	changed map[string]bool // leaf keys
	taint   map[string]bool
	drop    map[string]bool // ghosts absent at the head
	epoch   bool
	fine    map[string]bool
	esc     map[*Term]bool
	ctl     map[string]*Term
	cands   []*cand
	conds   []*Term
}

func (e *Engine) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := t
	if t.op == "lin" {
		r = e.tp.fromLin(e.substLin(t.lin, m, memo))
	} else if len(t.args) > 0 {
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = e.subst(a, m, memo)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			switch t.op {
			case "ge0":
				r = e.tp.ge0(toLin(as[0]))
			case "eq0":
				r = e.tp.eq0(toLin(as[0]))
			case "not":
				r = e.tp.not(as[0])
			case "eq":
				r = e.tp.eq(as[0], as[1])
			case "isnil":
				r = e.isNil(as[0])
			case "len":
				_, _, r, _ = e.sl(as[0])
			default:
				r = e.tp.mk(t.op, t.aux, t.typ, as...)
				r.fn = t.fn
			}
		}
	}
	memo[t] = r
	return r
}

func (e *Engine) substLin(l *Lin, m map[*Term]*Term, memo map[*Term]*Term) *Lin {
	r := linBig(l.c)
	for i, a := range l.atoms {
		r = r.addScaled(toLin(e.subst(a, m, memo)), l.coefs[i])
	}
	return r
}

// loop solves l from the entry state s (phis of the header already bound).
func (e *Engine) loop(fr *frame, l *Loop, s *State) []exitEdge {
	if e.splitKey == nil {
		out, _ := e.loopFrom(fr, l, s)
		return out
	}
	// the states at the head are kept apart by a key: a turn that comes back
	// with another key enters the loop anew
	var out []exitEdge
	work := []*State{s}
	seen := map[string]int{}
	tag, key := fr.tag, fr.keys[l]
	defer func() { fr.tag, fr.keys[l] = tag, key }()
	if fr.keys == nil {
		fr.keys = map[*Loop]string{}
	}
	for n := 0; len(work) > 0; n++ {
		x := work[0]
		work = work[1:]
		k := e.splitKey(x)
		if seen[k]++; seen[k] > 6 || n > 60 {
			x = e.splitFail(x)
			k = e.splitKey(x)
		}
		fr.tag = tag + "~" + strconv.Itoa(n)
		fr.keys[l] = k
		exits, others := e.loopFrom(fr, l, x)
		out = append(out, exits...)
		if len(others) > 0 {
			work = append(work, e.mergeAt(fr, l.head, others, 12)...)
		}
	}
	return out
}

// ownBack: b comes back with the key its turn began with.
func (e *Engine) ownBack(fr *frame, l *Loop, b *State) bool {
	return e.splitKey == nil || e.splitKey(b) == fr.keys[l]
}

// loopFrom solves l from the entry state s; others are the states that come
// back with another key.
func (e *Engine) loopFrom(fr *frame, l *Loop, s *State) (out []exitEdge, others []*State) {
	if e.preciseBytes && shortCount(l) {
		out, _ := e.unrolled(fr, l, s, 1000)
		return out, nil
	}
	if e.exactBits {
		if out, ok := e.unrolled(fr, l, s, 12); ok {
			return out, nil
		}
	}
	ck := ""
	if e.loopCache == nil {
		e.loopCache = map[string]*invariant{}
	}
	ck = fmt.Sprintf("%s%s|%d|%p|%s|%s", fr.callPath, fr.tag, l.head.Index, fr.fn, stateKey(s, func(v ssa.Value) (int, bool) { n, ok := fr.info.num[v]; return n, ok }), s.facts.key())
	inv := e.loopCache[ck]
	if inv == nil {
		inv = e.solveLoop(fr, l, s)
		e.loopCache[ck] = inv
	}
	h, rep := e.headState(fr, l, s, inv)
	edges := e.region(fr, l, l.head, []pend{{nil, h}})
	var backs []*State
	for _, ed := range edges {
		if ed.to == l.head {
			b := e.phis(fr, l.head, ed.from, ed.st)
			if e.ownBack(fr, l, b) {
				backs = append(backs, b)
			} else {
				others = append(others, b)
			}
			continue
		}
		out = append(out, ed)
	}
	if e.mute == 0 {
		e.progress(fr, l, h, backs, inv, rep)
		for _, b := range backs {
			e.client.Back(e, fr, h, b, l)
		}
		if lc, ok := e.client.(loopClient); ok {
			lc.Loop(e, fr, s, h, backs, out, l)
		}
	}
	return out, others
}

// shortCount: the loop counts from a constant in steps of one, and runs at
// most a few times.
func shortCount(l *Loop) bool {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[l.head.Succs[1]] {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	k, ok := cmp.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() > 8 {
		return false
	}
	one := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		c, ok := b.Y.(*ssa.Const)
		return b.X, ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == 1
	}
	x := cmp.X
	var next ssa.Value
	if y, ok := one(x); ok {
		next, x = x, y
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return false
	}
	for i, p := range l.head.Preds {
		v := ph.Edges[i]
		if !l.blocks[p] {
			c, ok := v.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() < -1 {
				return false
			}
			continue
		}
		if next != nil && v == next {
			continue
		}
		if y, ok := one(v); !ok || next != nil || y != ssa.Value(ph) {
			return false
		}
	}
	return true
}

// unrolled interprets a loop iteration by iteration.
func (e *Engine) unrolled(fr *frame, l *Loop, s *State, max int) ([]exitEdge, bool) {
	var out []exitEdge
	cur := []*State{s}
	for n := 0; len(cur) > 0; n++ {
		if n == max {
			return nil, false
		}
		var backs []*State
		for _, c := range cur {
			for _, ed := range e.region(fr, l, l.head, []pend{{nil, c}}) {
				if ed.to == l.head {
					backs = append(backs, e.phis(fr, l.head, ed.from, ed.st))
				} else {
					out = append(out, ed)
				}
			}
		}
		cur = e.mergeAt(fr, l.head, backs, 12)
	}
	return out, true
}

func (e *Engine) hname(fr *frame, l *Loop, key string, taint bool) string {
	tt := ""
	if taint {
		tt = "!"
	}
	return fmt.Sprintf("lp%s@%s%s/%d:%s", tt, fr.callPath, fr.tag, l.head.Index, key)
}

// headState builds the abstract state at the loop head. The map gives, for
// each changed leaf, its head symbol.
func (e *Engine) headState(fr *frame, l *Loop, s *State, inv *invariant) (*State, map[string]*Term) {
	h := s.clone()
	rep := map[string]*Term{}
	for _, lf := range e.stateLeaves(fr, l, s, s) {
		if !inv.changed[lf.key] {
			continue
		}
		typ := lf.typ
		if typ == nil && isIntTerm(lf.term) {
			typ = types.Typ[types.Int64] // a ghost counter
		}
		taint := inv.taint[lf.key] || isTainted(lf.term)
		x := e.shaped(e.hname(fr, l, lf.key, taint), typ, taint)
		rep[lf.key] = x
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t := h.env[ph]; t != nil {
			h.env[ph] = e.rebuild(fmt.Sprintf("v%d", fr.info.num[ph]), t, ph.Type(), rep)
		}
	}
	for c, t := range h.cells {
		h.cells[c] = e.rebuild(fmt.Sprintf("c%d", c.id), t, derefType(c.typ), rep)
	}
	for k := range h.ghost {
		if r := rep["g"+k]; r != nil {
			h.ghost[k] = r
		}
		if inv.drop[k] {
			delete(h.ghost, k)
		}
	}
	for c := range inv.esc {
		h.esc[c] = true
	}
	for k, v := range inv.ctl {
		h.ghost[k] = v
	}
	for k := range inv.fine {
		h.ghost[k] = e.tp.named(e.hname(fr, l, k, false), nil, false)
	}
	if inv.epoch {
		e.bump(h)
		h.ghost["epoch"] = e.tp.named(e.hname(fr, l, "epoch", false), nil, false)
	}
	// slices keep 0 <= len <= cap
	for k := range rep {
		if strings.HasSuffix(k, ".n") || strings.HasSuffix(k, ".c") {
			p := k[:len(k)-2]
			n, c := e.leafAt(fr, l, h, p+".n"), e.leafAt(fr, l, h, p+".c")
			if n != nil && c != nil {
				h.facts = e.addGE(e.addGE(h.facts, toLin(n)), toLin(c).sub(toLin(n)))
			}
		}
	}
	for _, c := range inv.cands {
		h.facts = e.assumeCand(h.facts, c)
	}
	if e.lineage {
		for _, in := range l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if t, t0 := h.env[ph], s.env[ph]; t != t0 && t0 != nil && isReflectValue(ph.Type()) && elemChain(l, ph) {
				h.ghost["org:"+strconv.Itoa(t.id)] = t0
			}
		}
	}
	return h, rep
}

// loopClient sees every loop as a whole.
type loopClient interface {
	Loop(e *Engine, fr *frame, entry, head *State, backs []*State, exits []exitEdge, l *Loop)
}

// elemChain: around the loop ph only ever becomes what it points to.
func elemChain(l *Loop, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if v == ssa.Value(ph) || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if !l.blocks[v.Block()] {
				return false
			}
			for _, x := range v.Edges {
				if !from(x) {
					return false
				}
			}
			return true
		case *ssa.Call:
			switch calleeName(&v.Call) {
			case "(reflect.Value).Elem", "reflect.Indirect":
				return from(v.Call.Args[0])
			}
		}
		return false
	}
	for i, p := range l.head.Preds {
		if l.blocks[p] && !from(ph.Edges[i]) {
			return false
		}
	}
	return true
}

// source follows a reflect.Value back through pointers and interfaces.
func (e *Engine) source(st *State, v *Term) *Term {
	for i := 0; i < 50; i++ {
		switch {
		case v.op == "relem":
			v = v.args[0]
		case v.op == "rval" && len(v.args) == 2 && (v.args[1].op == "deref" || v.args[1].op == "addr"):
			v = v.args[1].args[0]
		case st.ghost["org:"+strconv.Itoa(v.id)] != nil:
			v = st.ghost["org:"+strconv.Itoa(v.id)]
		default:
			return v
		}
	}
	return v
}

func (e *Engine) leafAt(fr *frame, l *Loop, st *State, key string) *Term {
	for _, lf := range e.stateLeaves(fr, l, st, st) {
		if lf.key == key {
			return lf.term
		}
	}
	return nil
}

func (e *Engine) assumeCand(f *Facts, c *cand) *Facts {
	switch {
	case c.bterm != nil:
		return e.assume(f, c.bterm, c.bval)
	case c.eq:
		return e.addEQ(f, c.lin)
	}
	return e.addGE(f, c.lin)
}

func (e *Engine) holds(f *Facts, c *cand, m map[*Term]*Term) bool {
	memo := map[*Term]*Term{}
	switch {
	case c.bterm != nil:
		t := e.truth(f, e.subst(c.bterm, m, memo))
		return (t == 1) == c.bval && t != 0
	case c.eq:
		l := e.substLin(c.lin, m, memo)
		return e.entailsGE(f, l) && e.entailsGE(f, l.neg())
	}
	return e.entailsGE(f, e.substLin(c.lin, m, memo))
}

func (e *Engine) leafMap(fr *frame, l *Loop, base *State, rep map[string]*Term, st *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, lf := range e.stateLeaves(fr, l, base, st) {
		if r := rep[lf.key]; r != nil {
			m[r] = lf.term
		}
	}
	return m
}

// solveLoop infers what the loop changes and an inductive invariant.
func (e *Engine) solveLoop(fr *frame, l *Loop, s *State) *invariant {
	e.mute++
	defer func() { e.mute-- }()
	inv := &invariant{changed: map[string]bool{}, taint: map[string]bool{}, drop: map[string]bool{}, esc: map[*Term]bool{}, ctl: map[string]*Term{}, fine: map[string]bool{}}
	seenCond := map[*Term]bool{}
	hook := e.condHook
	for round := 0; round < 12; round++ {
		h, _ := e.headState(fr, l, s, inv)
		e.condHook = func(st *State, c *Term) {
			if hook != nil {
				hook(st, c)
			}
			for c.op == "not" {
				c = c.args[0]
			}
			if (c.op == "ge0" || c.op == "eq0") && !seenCond[c] {
				seenCond[c] = true
				inv.conds = append(inv.conds, c)
			}
		}
		backs := e.runBody(fr, l, h)
		e.condHook = hook
		if !e.growInv(fr, l, h, backs, inv) {
			break
		}
		if round == 11 {
			e.notes["loop leaves did not settle at "+e.P.pos(blockPos(l.head))] = true
		}
	}
	// candidates
	h0, rep := e.headState(fr, l, s, inv)
	entry := e.leafMap(fr, l, s, rep, s)
	var cs []*cand
	seen := map[string]bool{}
	add := func(c *cand) {
		k := ""
		if c.lin != nil {
			if c.lin.isConst() {
				return
			}
			k = fmt.Sprint(c.eq) + c.lin.key()
		} else {
			k = fmt.Sprintf("b%d%v", c.bterm.id, c.bval)
		}
		if seen[k] {
			return
		}
		seen[k] = true
		if !e.holds(s.facts, c, entry) {
			return
		}
		cs = append(cs, c)
	}
	var keys []string
	for k := range rep {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var ints []*Term
	for _, k := range keys {
		x := rep[k]
		x0 := entry[x]
		if x0 == nil {
			continue
		}
		if isIntTerm(x0) || isIntTerm(x) {
			ints = append(ints, x)
			add(&cand{name: "ge entry", lin: toLin(x).sub(toLin(x0))})
			add(&cand{name: "le entry", lin: toLin(x0).sub(toLin(x))})
			add(&cand{name: "ge 0", lin: toLin(x)})
			continue
		}
		if x0.op == "bool" {
			add(&cand{name: "bool", bterm: x, bval: x0.aux == "true"})
			continue
		}
		nl := e.isNil(x0)
		switch e.truth(s.facts, nl) {
		case 1:
			add(&cand{name: "nil", bterm: e.isNil(x), bval: true})
		case -1:
			add(&cand{name: "nonnil", bterm: e.isNil(x), bval: false})
		}
	}
	if len(ints) <= 14 {
		for i, x := range ints {
			for _, y := range ints[i+1:] {
				d := toLin(x).sub(toLin(y))
				d0 := toLin(entry[x]).sub(toLin(entry[y]))
				add(&cand{name: "diff", lin: d.sub(d0), eq: true})
				a := toLin(x).add(toLin(y))
				a0 := toLin(entry[x]).add(toLin(entry[y]))
				add(&cand{name: "sum", lin: a.sub(a0), eq: true})
				add(&cand{name: "le", lin: d})
				add(&cand{name: "le", lin: d.neg()})
				if e.splitKey != nil {
					add(&cand{name: "diff ge", lin: d.sub(d0)})
					add(&cand{name: "diff le", lin: d0.sub(d)})
				}
				add(&cand{name: "sum ge", lin: a.sub(a0)})
				add(&cand{name: "sum le", lin: a0.sub(a)})
			}
		}
	}
	xs := map[*Term]bool{}
	for _, x := range rep {
		xs[x] = true
	}
	for _, c := range inv.conds {
		at := map[*Term]bool{}
		atomsOf(c, at)
		hit := false
		for a := range at {
			if xs[a] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		ln := e.unwrapLin(toLin(c.args[0]))
		if c.op == "ge0" {
			add(&cand{name: "cond", lin: ln})
			add(&cand{name: "cond", lin: ln.addC(1)})
			add(&cand{name: "cond", lin: ln.neg()})
			add(&cand{name: "cond", lin: ln.neg().addC(-1)})
		} else {
			add(&cand{name: "cond", lin: ln})
			add(&cand{name: "cond", lin: ln.neg()})
		}
	}
	_ = h0
	inv.cands = cs
	for round := 0; round < 30; round++ {
		h, rep := e.headState(fr, l, s, inv)
		backs := e.runBody(fr, l, h)
		if e.growInv(fr, l, h, backs, inv) {
			// the invariant reveals paths that change more: start over weaker
			continue
		}
		var keep []*cand
		for _, c := range inv.cands {
			ok := true
			for _, b := range backs {
				if !e.holds(b.facts, c, e.leafMap(fr, l, s, rep, b)) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		if len(keep) == len(inv.cands) {
			return inv
		}
		inv.cands = keep
	}
	e.notes["loop invariant did not settle at "+e.P.pos(blockPos(l.head))] = true
	inv.cands = nil
	return inv
}

func (e *Engine) runBody(fr *frame, l *Loop, h *State) []*State {
	outs := fr.outs
	edges := e.region(fr, l, l.head, []pend{{nil, h}})
	fr.outs = outs
	var backs []*State
	for _, ed := range edges {
		if ed.to == l.head {
			if b := e.phis(fr, l.head, ed.from, ed.st); e.ownBack(fr, l, b) {
				backs = append(backs, b)
			}
		}
	}
	return backs
}

// growInv adds what the back edges show to be changed.
func (e *Engine) growInv(fr *frame, l *Loop, h *State, backs []*State, inv *invariant) bool {
	grew := false
	cur := map[string]*Term{}
	for _, lf := range e.stateLeaves(fr, l, h, h) {
		cur[lf.key] = lf.term
	}
	for _, b := range backs {
		for _, lf := range e.stateLeaves(fr, l, h, b) {
			c := cur[lf.key]
			if c == nil {
				continue
			}
			if c != lf.term && !inv.changed[lf.key] {
				inv.changed[lf.key] = true
				grew = true
			}
			if inv.changed[lf.key] && isTainted(lf.term) && !isTainted(c) && !inv.taint[lf.key] {
				inv.taint[lf.key] = true
				grew = true
			}
		}
		for k := range h.ghost {
			if _, ok := b.ghost[k]; !ok && !weakGhost(k) && !inv.drop[k] {
				inv.drop[k] = true
				grew = true
			}
		}
		for k, v := range b.ghost {
			if (strings.HasPrefix(k, "ctl:") || strings.HasPrefix(k, "may:")) && h.ghost[k] == nil && inv.ctl[k] == nil && !ctlInside(fr, l, k) {
				inv.ctl[k] = v
				grew = true
			}
			_ = v
		}
		for k, v := range b.ghost {
			if fineKey(k) && h.ghost[k] != v && !inv.fine[k] {
				inv.fine[k] = true
				grew = true
			}
		}
		if b.ghost["epoch"] != h.ghost["epoch"] && !inv.epoch {
			inv.epoch = true
			grew = true
		}
		for c := range b.esc {
			if _, ok := h.cells[c]; ok && !h.esc[c] && !inv.esc[c] {
				inv.esc[c] = true
				grew = true
			}
		}
	}
	return grew
}

// ctlInside reports whether the recorded branch is re-evaluated in each
// iteration anyway.
func ctlInside(fr *frame, l *Loop, k string) bool { return false }

// progress records whether every iteration gets closer to the end.
func (e *Engine) progress(fr *frame, l *Loop, h *State, backs []*State, inv *invariant, rep map[string]*Term) {
	pos := blockPos(l.head)
	lr := e.loopsDone[l.head]
	if lr == nil {
		lr = &LoopRes{Where: e.P.pos(pos), Fn: shortName(fr.fn), OK: true}
		e.loopsDone[l.head] = lr
	}
	if len(backs) == 0 {
		if lr.Measure == "" {
			lr.Measure = "never repeats"
		}
		return
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				if i, ok2 := e.info(fr.fn).inner[b]; ok2 && i == l {
					lr.Measure = "range iteration"
					return
				}
			}
		}
	}
	// exits decided by the input?
	tainted := e.strictLoops
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]]) {
			continue
		}
		_ = iff
		for _, st := range append([]*State{h}, backs...) {
			for k, v := range st.ghost {
				if v != nil && k == fmt.Sprintf("ctl:%s:%d", fr.callPath, b.Index) {
					tainted = true
				}
			}
		}
	}
	if tainted {
		lr.Tainted = true
	}
	var keys []string
	for k := range rep {
		if rep[k] != nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var bl []map[string]*Term
	for _, b := range backs {
		m := map[string]*Term{}
		for _, lf := range e.stateLeaves(fr, l, h, b) {
			m[lf.key] = lf.term
		}
		bl = append(bl, m)
	}
	for _, k := range keys {
		x := rep[k]
		isInt := isIntTerm(x)
		if !isInt {
			continue
		}
		dec, inc := true, true
		bounded := e.entailsGE(h.facts, toLin(x))
		for i, b := range backs {
			y := bl[i][k]
			if y == nil {
				dec, inc = false, false
				break
			}
			d := toLin(x).sub(toLin(y))
			if !e.entailsGE(b.facts, d.addC(-1)) {
				dec = false
			}
			if !e.entailsGE(b.facts, d.neg().addC(-1)) || !e.bounded(b.facts, x, rep) {
				inc = false
			}
			if !e.entailsGE(b.facts, toLin(x)) {
				bounded = bounded && false
			}
		}
		if dec && bounded {
			lr.Measure = "decreasing " + k + " bounded below"
			return
		}
		if inc {
			lr.Measure = "increasing " + k + " bounded above"
			return
		}
	}
	if !tainted {
		lr.Measure = "number of iterations does not depend on the input"
		return
	}
	lr.OK = false
	if lr.Why == "" {
		lr.Why = "no measure shown to make progress on every iteration, and the exit depends on the input (" + fr.chain() + ")"
	}
}

// bounded reports an upper bound on x by a quantity the loop does not change.
func (e *Engine) bounded(f *Facts, x *Term, rep map[string]*Term) bool {
	ch := map[*Term]bool{}
	for _, r := range rep {
		ch[r] = true
	}
	try := func(l *Lin) bool {
		if coefOf(l, x) >= 0 {
			return false
		}
		for i, a := range l.atoms {
			if a == x {
				continue
			}
			set := map[*Term]bool{}
			atomsOf(a, set)
			for s := range set {
				if ch[s] && s != x {
					return false
				}
			}
			_ = i
		}
		return true
	}
	for _, l := range f.ges {
		if try(l) {
			return true
		}
	}
	for _, l := range f.eqs {
		if try(l) || try(l.neg()) {
			return true
		}
	}
	return false
}

// unwrapLin reads possibly wrapping sums as exact; only used to propose
// candidates, which are then checked.
func (e *Engine) unwrapLin(l *Lin) *Lin {
	r := linBig(l.c)
	for i, a := range l.atoms {
		m := linAtom(a)
		if a.op == "wrap" && (a.aux == "+" || a.aux == "-") {
			k := int64(1)
			if a.aux == "-" {
				k = -1
			}
			m = e.unwrapLin(toLin(a.args[0])).addScaled(e.unwrapLin(toLin(a.args[1])), k)
		}
		r = r.addScaled(m, l.coefs[i])
	}
	return r
}
