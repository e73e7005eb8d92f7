package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// staticCallees lists the repository functions f calls directly (including
// the bodies of closures it creates).
func staticCallees(p *Program, f *ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil {
					set[g] = true
				}
			}
		}
	}
	var r []*ssa.Function
	for g := range set {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// reachable lists the repository functions reachable from roots.
func reachable(p *Program, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, g := range staticCallees(p, f) {
			walk(g)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

// recursive lists, among fns, those on a call cycle.
func recursive(p *Program, fns map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range fns {
		hit := false
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for _, h := range staticCallees(p, g) {
				if h == f {
					hit = true
				}
				if !seen[h] {
					seen[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		if hit {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func bytesParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isByteSlice(p.Type()) {
			return i
		}
	}
	return -1
}

// newContract proposes postconditions for f from the shape of its signature.
func newContract(e *Engine, f *ssa.Function) *Contract {
	c := &Contract{fn: f}
	res := f.Signature.Results()
	bi := bytesParam(f)
	ei := -1
	if n := res.Len(); n > 0 && isErrorType(res.At(n-1).Type()) {
		ei = n - 1
	}
	type guardFn func(e *Engine, args []*Term) *Term
	addLin := func(name string, onlyOK bool, mk func(args, rs []*Term) *Lin, guards ...guardFn) {
		cl := &Clause{name: name, alive: true}
		skip := func(e *Engine, fs *Facts, rs []*Term) int {
			if !onlyOK || ei < 0 {
				return -1
			}
			return -e.truth(fs, e.isNil(rs[ei]))
		}
		cl.apply = func(e *Engine, fs *Facts, args, rs []*Term) []*Facts {
			if skip(e, fs, rs) != -1 {
				return []*Facts{fs}
			}
			cur := fs
			var out []*Facts
			for _, g := range guards {
				t := g(e, args)
				if e.truth(cur, t) == 0 {
					out = append(out, e.assume(cur, t, false))
				}
				cur = e.assume(cur, t, true)
			}
			if !cur.dead {
				out = append(out, e.addGE(cur, mk(args, rs)))
			} else if len(out) == 0 {
				out = append(out, fs)
			}
			return out
		}
		cl.check = func(e *Engine, fs *Facts, args, rs []*Term) bool {
			if skip(e, fs, rs) == 1 {
				return true
			}
			for _, g := range guards {
				fs = e.assume(fs, g(e, args), true)
			}
			if fs.dead {
				return true
			}
			return e.entailsGE(fs, mk(args, rs))
		}
		c.clauses = append(c.clauses, cl)
	}
	for i := 0; i < res.Len(); i++ {
		if !isIntType(res.At(i).Type()) {
			continue
		}
		i := i
		addLin(fmt.Sprintf("result %d >= 0", i), false, func(a, r []*Term) *Lin { return toLin(r[i]) })
		if bi < 0 {
			continue
		}
		ln := func(e *Engine, a []*Term) *Term { _, _, n, _ := e.sl(a[bi]); return n }
		addLin(fmt.Sprintf("result %d <= len(bytes)", i), false, func(a, r []*Term) *Lin { return toLin(ln(e, a)).sub(toLin(r[i])) })
		if ei < 0 {
			continue
		}
		addLin(fmt.Sprintf("err==nil: result %d >= 0", i), true, func(a, r []*Term) *Lin { return toLin(r[i]) })
		addLin(fmt.Sprintf("err==nil: result %d <= len(bytes)", i), true, func(a, r []*Term) *Lin { return toLin(ln(e, a)).sub(toLin(r[i])) })
		nonEmpty := func(e *Engine, a []*Term) *Term { return e.tp.ge0(toLin(ln(e, a)).addC(-1)) }
		one := func(a, r []*Term) *Lin { return toLin(r[i]).addC(-1) }
		addLin(fmt.Sprintf("err==nil, bytes not empty: result %d >= 1", i), true, one, nonEmpty)
		for j, p := range f.Params {
			if !isBoolType(p.Type()) {
				continue
			}
			j := j
			for _, want := range []bool{true, false} {
				want := want
				addLin(fmt.Sprintf("err==nil, bytes not empty, %s==%v: result %d >= 1", p.Name(), want, i), true, one, func(e *Engine, a []*Term) *Term {
					if want {
						return a[j]
					}
					return e.tp.not(a[j])
				}, nonEmpty)
			}
		}
	}
	return c
}

// applyContract replaces a call by what is known about the callee.
func (e *Engine) applyContract(fr *frame, st *State, in ssa.CallInstruction, f *ssa.Function, c *Contract, args []*Term, v ssa.Value) []*State {
	c.used++
	taint := false
	for _, a := range args {
		if isTainted(a) {
			taint = true
		}
	}
	for _, cc := range e.reach(st, args...) {
		if isTainted(st.cells[cc]) {
			taint = true
		}
	}
	e.havocReach(fr, st, in, taint, args...)
	e.bumpAll(st, fr.siteID(in))
	e.rbump(fr, st, in)
	name := f.String()
	t := e.resultType(in)
	if t == nil {
		return e.bind(fr, st, in, name, args, v, nil)
	}
	r := e.symAt(fr, in, "call:"+short(name), 0, t, taint)
	finish := func(s *State, r *Term) []*State {
		rs := []*Term{r}
		if tup, ok := t.(*types.Tuple); ok {
			rs = nil
			for i := 0; i < tup.Len(); i++ {
				rs = append(rs, e.field(r, i, tup.At(i).Type()))
			}
		}
		fs := []*Facts{s.facts}
		for _, cl := range c.clauses {
			if cl.alive {
				var nx []*Facts
				for _, f := range fs {
					nx = append(nx, cl.apply(e, f, args, rs)...)
				}
				fs = nx
			}
		}
		var out []*State
		for i, f := range fs {
			if f.dead {
				continue
			}
			t := s
			if i < len(fs)-1 {
				t = s.clone()
			}
			t.facts = f
			if v != nil {
				t.env[v] = r
			}
			e.client.After(e, fr, t, in, name, args, r)
			out = append(out, t)
		}
		return out
	}
	et := e.errResult(in, r)
	if et == nil {
		return finish(st, r)
	}
	s2 := st.clone()
	st.facts = e.assume(st.facts, e.isNil(et), true)
	s2.facts = e.assume(s2.facts, e.isNil(et), false)
	out := finish(st, e.withErr(in, r, e.zero(types.Universe.Lookup("error").Type())))
	return append(out, finish(s2, r)...)
}

// contractClient tests candidate postconditions at the returns of its root.
type contractClient struct {
	noClient
	c     *Contract
	dropd int
}

func (k *contractClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	for _, cl := range k.c.clauses {
		if cl.alive && !cl.check(e, st.facts, fr.args, rs) {
			cl.alive = false
			k.dropd++
			if e.trace {
				fmt.Printf("DROP %s: %q at %s  results %v\n   path %v\n", shortName(k.c.fn), cl.name, lineOf(e.P, at), rs, lastN(st.path, 14))
			}
		}
	}
}

// inferContracts finds the postconditions of the recursive functions that
// survive being assumed at every recursive call.
func (e *Engine) inferContracts(fns []*ssa.Function) {
	for _, f := range fns {
		if e.contracts[f] == nil {
			e.contracts[f] = newContract(e, f)
		}
	}
	old := e.client
	e.mute++
	for round := 0; round < 12; round++ {
		dropped := 0
		for _, f := range fns {
			k := &contractClient{c: e.contracts[f]}
			e.client = k
			e.loopCache = nil
			e.runRoot(f)
			dropped += k.dropd
		}
		if dropped == 0 {
			break
		}
	}
	e.loopCache = nil
	e.mute--
	e.client = old
}

// starter is a client that prepares the initial state of a root.
type starter interface {
	Start(e *Engine, f *ssa.Function, st *State, args []*Term)
}

// runRoot interprets f with symbolic arguments; byte slices and readers hold
// untrusted input.
func (e *Engine) runRoot(f *ssa.Function) []Outcome {
	st := newState()
	args := e.rootArgs(st, f)
	e.root = f
	st.ghost["epoch"] = e.tp.named("epoch0", nil, false)
	if i, ok := e.client.(starter); ok {
		i.Start(e, f, st, args)
	}
	return e.exec(nil, f, args, nil, st, args, shortName(f), nil)
}

func (e *Engine) rootArgs(st *State, f *ssa.Function) []*Term {
	var args []*Term
	for i, p := range f.Params {
		name := fmt.Sprintf("%s.%s", shortName(f), p.Name())
		taint := e.taintParam(f, i)
		var a *Term
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok && e.ownedParam(f, i) {
			a = e.tp.mk("cell", "param:"+name, t)
			st.cells[a] = e.tp.named("*"+name, pt.Elem(), taint)
			args = append(args, a)
			continue
		}
		tt := ""
		if taint {
			tt = "!"
		}
		a = e.tp.named(name+tt, t, taint)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			st.facts = e.assume(st.facts, e.isNil(a), false)
		}
		args = append(args, a)
	}
	return args
}

// taintParam reports whether a root parameter carries untrusted input.
func (e *Engine) taintParam(f *ssa.Function, i int) bool {
	if e.taintRule != nil {
		return e.taintRule(f, i)
	}
	t := f.Params[i].Type()
	if isByteSlice(t) {
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && isByteSlice(p.Elem()) {
		return true
	}
	return types.TypeString(t, nil) == "io.Reader"
}

// ownedParam: pointer parameters to plain data that the callee may write
// through are modelled as cells.
func (e *Engine) ownedParam(f *ssa.Function, i int) bool {
	p, ok := f.Params[i].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().Underlying().(type) {
	case *types.Basic, *types.Slice:
		return true
	}
	return false
}
