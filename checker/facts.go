package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Facts is an immutable conjunction: linear equalities and inequalities,
// disequalities, truth of boolean atoms, and finite-domain masks for
// enumerated atoms (reflect.Kind values).
type Facts struct {
	eqs  []*Lin // = 0
	ges  []*Lin // >= 0
	nes  []*Lin // != 0
	mask map[*Term]uint64
	lits map[*Term]bool
	dead bool
	keyc string
}

func emptyFacts() *Facts { return &Facts{mask: map[*Term]uint64{}, lits: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{eqs: f.eqs[:len(f.eqs):len(f.eqs)], ges: f.ges[:len(f.ges):len(f.ges)], nes: f.nes[:len(f.nes):len(f.nes)], dead: f.dead}
	g.mask = make(map[*Term]uint64, len(f.mask))
	for k, v := range f.mask {
		g.mask[k] = v
	}
	g.lits = make(map[*Term]bool, len(f.lits))
	for k, v := range f.lits {
		g.lits[k] = v
	}
	return g
}

// key is a canonical rendering, used to compare states.
func (f *Facts) key() string {
	if f.keyc != "" {
		return f.keyc
	}
	var parts []string
	for _, l := range f.eqs {
		parts = append(parts, "="+l.key())
	}
	for _, l := range f.ges {
		parts = append(parts, ">"+l.key())
	}
	for _, l := range f.nes {
		parts = append(parts, "!"+l.key())
	}
	for k, v := range f.lits {
		parts = append(parts, "b"+strconv.Itoa(k.id)+strconv.FormatBool(v))
	}
	for k, v := range f.mask {
		parts = append(parts, "m"+strconv.Itoa(k.id)+":"+strconv.FormatUint(v, 16))
	}
	sort.Strings(parts)
	f.keyc = strings.Join(parts, ";") + ";"
	return f.keyc
}

func isKindAtom(t *Term) bool { return t.op == "kind" }

const numKinds = 27

// addGE adds l >= 0.
func (e *Engine) addGE(f *Facts, l *Lin) *Facts {
	if f.dead {
		return f
	}
	l = tighten(l)
	if l.isConst() {
		if l.c.Sign() >= 0 {
			return f
		}
		g := f.clone()
		g.dead = true
		return g
	}
	if e.entailsGE(f, l) {
		return f
	}
	g := f.clone()
	// equality?
	if e.entailsGE(f, l.neg()) {
		g.eqs = append(g.eqs, l)
	} else {
		g.ges = append(g.ges, l)
	}
	if e.entailsGE(g, linConst(-1)) {
		g.dead = true
		return g
	}
	return e.recheckNE(g, l)
}

func (e *Engine) addEQ(f *Facts, l *Lin) *Facts {
	if f.dead {
		return f
	}
	if l.isConst() {
		if l.c.Sign() == 0 {
			return f
		}
		g := f.clone()
		g.dead = true
		return g
	}
	if len(l.atoms) == 1 && isKindAtom(l.atoms[0]) {
		return e.kindEq(f, l, true)
	}
	g := f.clone()
	g.eqs = append(g.eqs, l)
	if e.entailsGE(g, linConst(-1)) {
		g.dead = true
		return g
	}
	for _, ne := range g.nes {
		if shares(ne, l) && e.entailsGE(g, ne) && e.entailsGE(g, ne.neg()) {
			g.dead = true
			return g
		}
	}
	return e.recheckNE(g, l)
}

func (e *Engine) kindEq(f *Facts, l *Lin, eq bool) *Facts {
	a := l.atoms[0]
	v := new(big.Int).Neg(l.c)
	if l.coefs[0] == -1 {
		v.Set(l.c)
	}
	m, ok := f.mask[a]
	if !ok {
		m = 1<<numKinds - 1
	}
	var bit uint64
	if v.IsInt64() && v.Int64() >= 0 && v.Int64() < numKinds {
		bit = 1 << uint(v.Int64())
	}
	if eq {
		m &= bit
	} else {
		m &^= bit
	}
	g := f.clone()
	g.mask[a] = m
	if m == 0 {
		g.dead = true
	}
	return g
}

func (e *Engine) addNE(f *Facts, l *Lin) *Facts {
	if f.dead {
		return f
	}
	if l.isConst() {
		if l.c.Sign() != 0 {
			return f
		}
		g := f.clone()
		g.dead = true
		return g
	}
	if len(l.atoms) == 1 && isKindAtom(l.atoms[0]) {
		return e.kindEq(f, l, false)
	}
	ge := e.entailsGE(f, l)
	le := e.entailsGE(f, l.neg())
	switch {
	case ge && le:
		g := f.clone()
		g.dead = true
		return g
	case ge:
		return e.addGE(f, l.addC(-1))
	case le:
		return e.addGE(f, l.neg().addC(-1))
	}
	g := f.clone()
	g.nes = append(g.nes, l)
	return g
}

func shares(a, b *Lin) bool {
	i, j := 0, 0
	for i < len(a.atoms) && j < len(b.atoms) {
		switch {
		case a.atoms[i] == b.atoms[j]:
			return true
		case a.atoms[i].id < b.atoms[j].id:
			i++
		default:
			j++
		}
	}
	return false
}

// recheckNE strengthens disequalities touching l into strict inequalities.
func (e *Engine) recheckNE(g *Facts, l *Lin) *Facts {
	for i, ne := range g.nes {
		if !shares(ne, l) {
			continue
		}
		ge := e.entailsGE(g, ne)
		le := e.entailsGE(g, ne.neg())
		if ge && le {
			h := g.clone()
			h.dead = true
			return h
		}
		if ge || le {
			h := g.clone()
			h.nes = append(append([]*Lin{}, g.nes[:i]...), g.nes[i+1:]...)
			s := ne.addC(-1)
			if le {
				s = ne.neg().addC(-1)
			}
			return e.addGE(h, s)
		}
	}
	return g
}

// assume adds the truth (val) of boolean term b.
func (e *Engine) assume(f *Facts, b *Term, val bool) *Facts {
	if f.dead {
		return f
	}
	switch b.op {
	case "bool":
		if (b.aux == "true") == val {
			return f
		}
		g := f.clone()
		g.dead = true
		return g
	case "not":
		return e.assume(f, b.args[0], !val)
	case "ge0":
		l := toLin(b.args[0])
		if val {
			return e.addGE(f, l)
		}
		return e.addGE(f, l.neg().addC(-1))
	case "eq0":
		l := toLin(b.args[0])
		if val {
			return e.addEQ(f, l)
		}
		return e.addNE(f, l)
	}
	if v, ok := f.lits[b]; ok {
		if v == val {
			return f
		}
		g := f.clone()
		g.dead = true
		return g
	}
	g := f.clone()
	g.lits[b] = val
	return g
}

// truth evaluates b under f: 1 true, -1 false, 0 unknown.
func (e *Engine) truth(f *Facts, b *Term) int {
	switch b.op {
	case "bool":
		if b.aux == "true" {
			return 1
		}
		return -1
	case "not":
		return -e.truth(f, b.args[0])
	case "ge0":
		l := toLin(b.args[0])
		if e.entailsGE(f, l) {
			return 1
		}
		if e.entailsGE(f, l.neg().addC(-1)) {
			return -1
		}
		return 0
	case "eq0":
		l := toLin(b.args[0])
		if len(l.atoms) == 1 && isKindAtom(l.atoms[0]) {
			if e.kindEq(f, l, true).dead {
				return -1
			}
			if e.kindEq(f, l, false).dead {
				return 1
			}
			return 0
		}
		if e.entailsGE(f, l.addC(-1)) || e.entailsGE(f, l.neg().addC(-1)) {
			return -1
		}
		if e.entailsGE(f, l) && e.entailsGE(f, l.neg()) {
			return 1
		}
		for _, ne := range f.nes {
			d := ne.sub(l)
			if d.isConst() && d.c.Sign() == 0 {
				return -1
			}
			d = ne.add(l)
			if d.isConst() && d.c.Sign() == 0 {
				return -1
			}
		}
		return 0
	}
	if v, ok := f.lits[b]; ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// tighten divides by the gcd of the coefficients, rounding the constant down.
func tighten(l *Lin) *Lin {
	if len(l.atoms) == 0 {
		return l
	}
	g := int64(0)
	for _, c := range l.coefs {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return l
	}
	r := &Lin{atoms: l.atoms, coefs: make([]int64, len(l.coefs)), c: new(big.Int)}
	for i, c := range l.coefs {
		r.coefs[i] = c / g
	}
	m := new(big.Int)
	r.c.DivMod(l.c, big.NewInt(g), m) // floor for positive divisor
	return r
}

type fmKey struct{ f, q string }

// entailsGE decides f |= q >= 0 by Fourier-Motzkin elimination over the
// constraints connected to q. It is sound and may answer false when it gives up.
func (e *Engine) entailsGE(f *Facts, q *Lin) bool {
	if f.dead {
		return true
	}
	if q.isConst() && q.c.Sign() >= 0 {
		return true
	}
	k := fmKey{f.key(), q.key()}
	if v, ok := e.fmCache[k]; ok {
		return v
	}
	r := e.fm(f, q)
	e.fmCache[k] = r
	return r
}

func (e *Engine) fm(f *Facts, q *Lin) bool {
	e.fmQueries++
	goal := q.neg().addC(-1) // assume q <= -1, look for contradiction
	// cone of influence
	in := map[*Term]bool{}
	var work []*Term
	addAtoms := func(l *Lin) {
		for _, a := range l.atoms {
			if !in[a] {
				in[a] = true
				work = append(work, a)
			}
		}
	}
	cons := append([]*Lin{}, f.ges...)
	used := make([]bool, len(cons))
	eqs := append([]*Lin{}, f.eqs...)
	usedE := make([]bool, len(eqs))
	if goal.isConst() {
		// consistency check: take everything
		for _, l := range cons {
			addAtoms(l)
		}
		for _, l := range eqs {
			addAtoms(l)
		}
	} else {
		addAtoms(goal)
	}
	var ges, qs []*Lin
	seenAx := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for i, l := range cons {
			if !used[i] && touches(l, in) {
				used[i] = true
				ges = append(ges, l)
				addAtoms(l)
				changed = true
			}
		}
		for i, l := range eqs {
			if !usedE[i] && touches(l, in) {
				usedE[i] = true
				qs = append(qs, l)
				addAtoms(l)
				changed = true
			}
		}
		for len(work) > 0 {
			a := work[len(work)-1]
			work = work[:len(work)-1]
			if seenAx[a] {
				continue
			}
			seenAx[a] = true
			ax := e.atomAxioms(a)
			for _, l := range ax {
				ges = append(ges, l)
				addAtoms(l)
				changed = true
			}
			if m, ok := f.mask[a]; ok {
				if lo, hi := maskRange(m); true {
					ges = append(ges, linAtom(a).addC(-lo), linConst(hi).sub(linAtom(a)))
				}
			}
		}
	}
	ges = append(ges, goal)
	return infeasible(qs, ges)
}

func maskRange(m uint64) (lo, hi int64) {
	lo = -1
	for i := int64(0); i < numKinds; i++ {
		if m&(1<<uint(i)) != 0 {
			if lo < 0 {
				lo = i
			}
			hi = i
		}
	}
	return
}

func touches(l *Lin, in map[*Term]bool) bool {
	for _, a := range l.atoms {
		if in[a] {
			return true
		}
	}
	return false
}

func substitute(l *Lin, a *Term, k int64, def *Lin) *Lin {
	// l contains k*a ; replace a by def
	return l.addScaled(linAtom(a), -k).addScaled(def, k)
}

func coefOf(l *Lin, a *Term) int64 {
	for i, x := range l.atoms {
		if x == a {
			return l.coefs[i]
		}
	}
	return 0
}

func infeasible(eqs, ges []*Lin) bool {
	// Gaussian elimination with unit coefficients.
	eqs = append([]*Lin{}, eqs...)
	for {
		idx := -1
		var at *Term
		var k int64
		for i, q := range eqs {
			if q == nil {
				continue
			}
			if q.isConst() {
				if q.c.Sign() != 0 {
					return true
				}
				eqs[i] = nil
				continue
			}
			for j, c := range q.coefs {
				if c == 1 || c == -1 {
					idx, at, k = i, q.atoms[j], c
					break
				}
			}
			if idx >= 0 {
				break
			}
		}
		if idx < 0 {
			break
		}
		q := eqs[idx]
		eqs[idx] = nil
		// k*at + rest = 0 -> at = -rest/k
		rest := q.addScaled(linAtom(at), -k)
		def := rest.scale(-k) // k in {1,-1}
		for i, r := range eqs {
			if r == nil {
				continue
			}
			if c := coefOf(r, at); c != 0 {
				eqs[i] = substitute(r, at, c, def)
			}
		}
		for i, r := range ges {
			if c := coefOf(r, at); c != 0 {
				ges[i] = substitute(r, at, c, def)
			}
		}
	}
	for _, q := range eqs {
		if q != nil {
			ges = append(ges, q, q.neg())
		}
	}
	return fmElim(ges)
}

func fmElim(ges []*Lin) bool {
	const limit = 3000
	seen := map[string]bool{}
	cur := ges[:0:0]
	push := func(l *Lin) bool { // returns true on contradiction
		l = tighten(l)
		if l.isConst() {
			return l.c.Sign() < 0
		}
		k := l.key()
		if seen[k] {
			return false
		}
		seen[k] = true
		cur = append(cur, l)
		return false
	}
	for _, l := range ges {
		if push(l) {
			return true
		}
	}
	total := 0
	for {
		cnt := map[*Term][2]int{}
		for _, l := range cur {
			for i, a := range l.atoms {
				c := cnt[a]
				if l.coefs[i] > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[a] = c
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Term
		bestCost := 1 << 60
		for a, c := range cnt {
			cost := c[0]*c[1] - c[0] - c[1]
			if cost < bestCost || (cost == bestCost && a.id < best.id) {
				best, bestCost = a, cost
			}
		}
		var pos, neg, rest []*Lin
		for _, l := range cur {
			switch c := coefOf(l, best); {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		total += len(pos) * len(neg)
		if total > limit {
			return false
		}
		seen = map[string]bool{}
		cur = nil
		for _, l := range rest {
			if push(l) {
				return true
			}
		}
		for _, p := range pos {
			cp := coefOf(p, best)
			for _, n := range neg {
				cn := -coefOf(n, best)
				if cp > 1<<20 || cn > 1<<20 {
					continue
				}
				if push(p.scale(cn).addScaled(n, cp)) {
					return true
				}
			}
		}
	}
}
