package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cdInfo is the control dependence of blocks of one function.
type cdInfo struct {
	direct map[*ssa.BasicBlock][]*ssa.BasicBlock
	reach  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func controlDeps(fn *ssa.Function) *cdInfo {
	n := len(fn.Blocks)
	// post-dominator sets, with a virtual exit (index n)
	full := func() []bool {
		b := make([]bool, n+1)
		for i := range b {
			b[i] = true
		}
		return b
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = full()
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var nw []bool
			if len(b.Succs) == 0 {
				nw = make([]bool, n+1)
				nw[n] = true
			} else {
				nw = full()
				for _, s := range b.Succs {
					for j := range nw {
						nw[j] = nw[j] && pd[s.Index][j]
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					pd[i] = nw
					changed = true
					break
				}
			}
		}
	}
	ci := &cdInfo{direct: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 {
			continue
		}
		for _, t := range fn.Blocks {
			dep := false
			for _, s := range b.Succs {
				if pd[s.Index][t.Index] {
					dep = true
				}
			}
			if dep && (b == t || !pd[b.Index][t.Index]) {
				ci.direct[t] = append(ci.direct[t], b)
			}
		}
	}
	for _, b := range fn.Blocks {
		r := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{b}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if r[x] {
				continue
			}
			r[x] = true
			work = append(work, x.Succs...)
		}
		ci.reach[b] = r
	}
	return ci
}

// pureReturn: a block that only returns.
func pureReturn(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.Return, *ssa.RunDefers, *ssa.DebugRef, *ssa.Jump:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// leavesEarly: every path from alt ends the function without coming back to
// the blocks shared with the other branch.
func (ci *cdInfo) leavesEarly(alt *ssa.BasicBlock) bool {
	for x := range ci.reach[alt] {
		if !alt.Dominates(x) && !pureReturn(x) {
			return false
		}
	}
	return true
}

// deciders lists the branches that decide whether target runs: the directly
// controlling ones, and those further out that are not mere early returns.
func (ci *cdInfo) deciders(target *ssa.BasicBlock) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var walk func(t *ssa.BasicBlock, direct bool)
	walk = func(t *ssa.BasicBlock, direct bool) {
		for _, b := range ci.direct[t] {
			if seen[b] {
				continue
			}
			seen[b] = true
			early := false
			if !direct {
				for _, s := range b.Succs {
					if !ci.reach[s][target] && ci.leavesEarly(s) {
						early = true
					}
				}
			}
			if !early {
				out = append(out, b)
			}
			walk(b, false)
		}
	}
	walk(target, true)
	return out
}

func (e *Engine) cd(fn *ssa.Function) *cdInfo {
	if e.cdMemo == nil {
		e.cdMemo = map[*ssa.Function]*cdInfo{}
	}
	if c := e.cdMemo[fn]; c != nil {
		return c
	}
	c := controlDeps(fn)
	e.cdMemo[fn] = c
	return c
}

// inputDecides returns the first branch depending on the input that decides
// whether the instruction runs, or "".
func (e *Engine) inputDecides(fr *frame, st *State, at ssa.Instruction) string {
	for f := fr; f != nil; f = f.parent {
		ds := e.cd(f.fn).deciders(at.Block())
		for _, b := range ds {
			if c := st.ghost["ctl:"+f.callPath+":"+strconv.Itoa(b.Index)]; c != nil {
				return e.P.pos(instrPos(b.Instrs[len(b.Instrs)-1])) + " on " + clip(c.String(), 160)
			}
		}
		if len(ds) > 0 || f.callSite == nil {
			return ""
		}
		at = f.callSite
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// decodeClient raises the obligations of the decoding properties.
type decodeClient struct {
	noClient
	framing bool
	maxSize bool
}

func (d *decodeClient) Panic(e *Engine, fr *frame, st *State, at ssa.Instruction) {
	why := e.inputDecides(fr, st, at)
	e.oblige(fr, st, "panic", instrPos(at), "explicit panic is not decided by the input", why == "", func() string {
		return "reached through the branch at " + why
	})
}

func (d *decodeClient) Alloc(e *Engine, fr *frame, st *State, at ssa.Instruction, size *Term) {
	if !isTainted(size) {
		e.oblige(fr, st, "alloc", instrPos(at), "allocation size is bounded by data already in memory", true, nil)
		return
	}
	ok := false
	l := toLin(size)
	for _, n := range e.inputLens(st, fr, size) {
		// at most a small multiple of bytes actually present
		if e.entailsGE(st.facts, n.scale(64).addC(1024).sub(l)) {
			ok = true
			break
		}
	}
	if !ok && e.entailsGE(st.facts, linConst(1<<16).sub(l)) {
		ok = true
	}
	e.oblige(fr, st, "alloc", instrPos(at), "allocation size is bounded by data already in memory", ok, func() string {
		return "size " + clip(size.String(), 120) + " is not bounded by the length of any input held in memory"
	})
}

// inputLens lists lengths of byte sequences present in the state.
func (e *Engine) inputLens(st *State, fr *frame, size *Term) []*Lin {
	set := map[*Term]bool{}
	atomsOf(size, set)
	for f := fr; f != nil; f = f.parent {
		for _, a := range f.args {
			atomsOf(a, set)
			if a.op == "slice" {
				set[a.args[2]] = true
			}
			if a.op == "sym" && a.typ != nil && isByteSlice(a.typ) {
				_, _, n, _ := e.sl(a)
				set[n] = true
			}
		}
	}
	for _, t := range st.env {
		if t.op == "slice" {
			set[t.args[2]] = true
			atomsOf(t.args[2], set)
		} else if t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Slice); ok {
				_, _, n, _ := e.sl(t)
				set[n] = true
			}
		}
	}
	var r []*Lin
	for _, c := range st.cells {
		if c.op == "slice" && c.args[0].op != "nil" {
			r = append(r, toLin(c.args[2]))
		}
	}
	for f := fr; f != nil; f = f.parent {
		for _, a := range f.args {
			if a.op == "slice" && a.args[0].op != "nil" {
				r = append(r, toLin(a.args[2]))
			}
		}
	}
	for _, l := range append(append([]*Lin{}, st.facts.ges...), st.facts.eqs...) {
		for _, a := range l.atoms {
			set[a] = true
		}
	}
	var ts []*Term
	for t := range set {
		if t.op == "len" || t.op == "rlen" {
			ts = append(ts, t)
		}
	}
	sortTerms(ts)
	for _, t := range ts {
		r = append(r, linAtom(t))
	}
	return r
}

// decodeRoots lists the entry points that take untrusted bytes.
func decodeRoots(p *Program) []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		n := f.Name()
		if strings.HasPrefix(n, "Must") || (f.Signature.Recv() != nil && !isCodecRecv(f)) {
			continue
		}
		in, out := false, false
		for i := range f.Params {
			t := f.Params[i].Type()
			if isByteSlice(t) || types.TypeString(t, nil) == "io.Reader" {
				in = true
			}
		}
		if r := f.Signature.Results(); r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
			out = true
		}
		// an encoder takes a writer
		for i := range f.Params {
			if types.TypeString(f.Params[i].Type(), nil) == "io.Writer" {
				in = false
			}
		}
		if in && out {
			roots = append(roots, f)
		}
	}
	return roots
}

func isCodecRecv(f *ssa.Function) bool {
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Codec"
}

// decodeRun is one analysis of every decoding entry point.
type decodeRun struct {
	e     *Engine
	roots []*ssa.Function
	scc   []*ssa.Function
}

func runDecode(p *Program, cl Client) *decodeRun {
	e := newEngine(p)
	e.taintBytes = true
	e.smallLimit = 60
	e.client = cl
	r := &decodeRun{e: e, roots: decodeRoots(p)}
	for _, f := range recursive(p, reachable(p, r.roots...)) {
		if bytesParam(f) >= 0 {
			r.scc = append(r.scc, f)
		}
	}
	e.inferContracts(r.scc)
	for _, f := range append(append([]*ssa.Function{}, r.roots...), r.scc...) {
		e.loopCache = nil
		e.runRoot(f)
	}
	return r
}

func (r *decodeRun) rootNames() []string {
	var ns []string
	for _, f := range r.roots {
		ns = append(ns, shortName(f))
	}
	sort.Strings(ns)
	return ns
}

var _ = fmt.Sprint
