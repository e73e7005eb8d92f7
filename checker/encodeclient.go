package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// encodeRoots lists the exported entry points that produce encoded bytes.
func encodeRoots(p *Program) []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if f.Signature.Recv() != nil && !isCodecRecv(f) {
			continue
		}
		n := f.Signature.Results().Len()
		if n == 0 || !isErrorType(f.Signature.Results().At(n-1).Type()) {
			continue
		}
		out := n == 2 && isByteSlice(f.Signature.Results().At(0).Type())
		for i := range f.Params {
			if types.TypeString(f.Params[i].Type(), nil) == "io.Writer" {
				out = true
			}
		}
		for i := range f.Params {
			if isByteSlice(f.Params[i].Type()) && n > 1 {
				out = false
			}
		}
		if out {
			roots = append(roots, f)
		}
	}
	return roots
}

func isReflectValue(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Value" }

// valueParam is the index of the reflect.Value a recursive function works on.
func valueParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isReflectValue(p.Type()) {
			return i
		}
	}
	return -1
}

type encodeRun struct {
	e     *Engine
	roots []*ssa.Function
	scc   []*ssa.Function
}

// newEncode prepares an analysis of the encoding entry points; the recursive
// encoders are analysed one by one.
func newEncode(p *Program, cl Client) *encodeRun {
	e := newEngine(p)
	e.inlineAll = true
	e.smallLimit = 60
	e.client = cl
	e.taintRule = func(f *ssa.Function, i int) bool { return false }
	codec := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		codec[f] = takesLock(p, f)
	}
	e.opaqueFn = func(f *ssa.Function) bool { return codec[f] && !reachesAny(p, f, e.contracts) }
	r := &encodeRun{e: e, roots: encodeRoots(p)}
	for _, f := range recursive(p, reachable(p, r.roots...)) {
		if valueParam(f) >= 0 {
			r.scc = append(r.scc, f)
			e.contracts[f] = newContract(e, f)
		}
	}
	return r
}

// takesLock: f, or a function it calls, takes a lock (it consults or changes
// what is registered with the codec).
func takesLock(p *Program, f *ssa.Function) bool {
	for g := range reachable(p, f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch calleeName(c.Common()) {
					case "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Lock":
						return true
					}
				}
			}
		}
	}
	return false
}

func reachesAny(p *Program, f *ssa.Function, set map[*ssa.Function]*Contract) bool {
	for g := range reachable(p, f) {
		if set[g] != nil {
			return true
		}
	}
	return false
}

func (r *encodeRun) run(fs ...*ssa.Function) {
	for _, f := range fs {
		r.e.loopCache = nil
		r.e.runRoot(f)
	}
}
