package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// apiRoots lists everything a user of the package can call.
func apiRoots(p *Program, lf *lflow) []*ssa.Function {
	obtainable := func(n *types.Named) bool {
		if !lf.reg[n] || n == lf.codec {
			return true
		}
		for _, f := range p.Funcs {
			if f.Pkg != p.Main || f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
				continue
			}
			if f.Signature.Recv() != nil && !isCodecRecv(f) {
				continue
			}
			rs := f.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				t := rs.At(i).Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if t == n {
					return true
				}
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			n, ok := derefType(r.Type()).(*types.Named)
			if !ok || !obtainable(n) {
				continue
			}
		}
		roots = append(roots, f)
	}
	return roots
}

var lflowMemo = map[*Program]*lflow{}

func isRegisterRoot(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "Register")
}

func runLockflow(p *Program, r *Result) (*lflow, []*ssa.Function) {
	lf := lflowMemo[p]
	if lf == nil {
		lf = newLflow(p)
		lflowMemo[p] = lf
		if lf.codec != nil {
			lf.run(apiRoots(p, lf), isRegisterRoot)
		}
	}
	var ns []string
	for n := range lf.notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		r.undecided("%s", n)
	}
	for f := range lf.fns {
		r.Units[shortName(f)] = true
	}
	return lf, apiRoots(p, lf)
}

func sortedViol(lf *lflow, rules ...string) []*lviol {
	var out []*lviol
	for _, v := range lf.viol {
		for _, w := range rules {
			if v.rule == w {
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].pos != out[j].pos {
			return out[i].pos < out[j].pos
		}
		return out[i].msg < out[j].msg
	})
	return out
}

var lockTrust = []string{
	"user-supplied callbacks (readers, writers, conversion methods) may panic but do not themselves use the codec while it calls them under its lock",
	"sync.RWMutex implements mutual exclusion",
}

func init() {
	register(&Check{ID: "C01", Level: "proof",
		Rule:  "context-sensitive lock-state dataflow over every exported operation: registry state is every field, map, slice element or package variable that is modified after its construction; each access to it happens with the codec's lock held, for writing when it modifies",
		Expl:  "every load, store, map operation and address-taking of registry state reachable from an exported operation is an obligation",
		Trust: append([]string{"objects are private to an operation from their allocation until they are stored in shared memory"}, lockTrust...),
		Run: func(p *Program, r *Result) {
			lf, roots := runLockflow(p, r)
			prot := map[string]bool{}
			for _, k := range lf.accOrder {
				a := lf.accs[k]
				if a.write && !a.fresh && !a.init {
					prot[a.target] = true
				}
			}
			var ts []string
			for t := range prot {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			n := 0
			for _, k := range lf.accOrder {
				a := lf.accs[k]
				if !prot[a.target] || a.init {
					continue
				}
				n++
				ok, need, verb := true, "held", "read"
				if a.write {
					need, verb = "held for writing", "written"
				}
				if !a.fresh {
					for m := range a.modes {
						if m == '-' || (a.write && m != 'W') {
							ok = false
						}
					}
				}
				r.ob("access", p.pos(a.pos), shortName(a.fn), a.target+" is "+verb+" with the lock "+need, ok,
					"it can be reached with lock state "+modeNames(a.modes), "")
			}
			r.Samples = append(r.Samples, "registry state: "+strings.Join(ts, ", "))
			// a codec must not be copied: its lock would be copied with it
			for _, fn := range p.Funcs {
				if fn.Pkg != p.Main {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && types.Identical(u.Type(), lf.codec) {
							r.ob("copy", p.pos(u.Pos()), shortName(fn), "a codec is not copied by value", false, "the copy shares maps with the original under a different lock", "")
						}
					}
				}
			}
			r.floor("kinds of registry state", len(prot), 5)
			r.floor("accesses to registry state", n, 15)
			r.floor("entry points", len(roots), 60)
		}})
	register(&Check{ID: "C02", Level: "proof",
		Rule:  "context-sensitive lock-state dataflow over every exported operation, including its panicking paths and deferred calls: the lock is never acquired while held, never released while not held, and free at every exit",
		Expl:  "every lock operation and every exit (normal or by panic) of every exported operation is an obligation",
		Trust: lockTrust,
		Run: func(p *Program, r *Result) {
			lf, roots := runLockflow(p, r)
			for pos := range lf.nLockOps {
				r.Obligations++
				r.Discharged++
				_ = pos
			}
			r.Counts["lock operations"] = len(lf.nLockOps)
			for _, v := range sortedViol(lf, "relock", "unlock", "leak") {
				r.ob(v.rule, p.pos(v.pos), shortName(v.fn), "lock operation", false, v.msg, "")
			}
			for _, f := range roots {
				for _, e := range lf.exits[f] {
					kind := "returns"
					if e.panics {
						kind = "panics"
					}
					ok := len(e.st.modes) == 0
					r.ob("exit", p.pos(f.Pos()), shortName(f), "the lock is free when the operation "+kind, ok,
						fmt.Sprintf("still held (%v) when it %s at %s", modesOf(e.st), kind, p.pos(e.why)), "")
				}
			}
			r.floor("lock operations", len(lf.nLockOps), 8)
			r.floor("entry points", len(roots), 60)
		}})
	register(&Check{ID: "C03", Level: "proof",
		Rule:  "lock-state dataflow: in every exported Register function each write to registry state comes after the sealed flag was seen unset in the same critical section, the function returns normally only after that, Seal sets the flag, and nothing clears it",
		Expl:  "every write of registry state reachable from a registration, every normal return of a registration and of Seal, and every store to the sealed flag is an obligation",
		Trust: lockTrust,
		Run: func(p *Program, r *Result) {
			lf, roots := runLockflow(p, r)
			nw, nr, ns := 0, 0, 0
			for _, k := range lf.accOrder {
				a := lf.accs[k]
				if !a.write || a.init || a.fresh {
					continue
				}
				nw++
				r.ob("write", p.pos(a.pos), shortName(a.fn), a.target+" is written by a registration only after the seal was checked under the same lock", !a.noChk,
					"reached in a registration without such a check", "")
			}
			for _, v := range sortedViol(lf, "unseal") {
				r.ob("unseal", p.pos(v.pos), shortName(v.fn), "a sealed codec stays sealed", false, v.msg, "")
			}
			for _, f := range roots {
				reg := isRegisterRoot(f)
				if !reg && f.Name() != "Seal" {
					continue
				}
				for _, e := range lf.exits[f] {
					if e.panics {
						continue
					}
					if reg {
						nr++
						r.ob("return", p.pos(f.Pos()), shortName(f), "returns normally only if the codec was seen unsealed", e.st.ever, "it can return without that check at "+p.pos(e.why), "")
					} else {
						ns++
						r.ob("seal", p.pos(f.Pos()), shortName(f), "returns only after setting the sealed flag", e.st.sset, "it can return without setting it at "+p.pos(e.why), "")
					}
				}
			}
			r.floor("registry writes", nw, 6)
			r.floor("registration returns", nr, 2)
			r.floor("returns of Seal", ns, 1)
			r.floor("stores to the sealed flag", len(lf.sealVal), 1)
		}})
}

func modeNames(m map[byte]bool) string {
	var s []string
	if m['-'] {
		s = append(s, "not held")
	}
	if m['R'] {
		s = append(s, "held for reading")
	}
	if m['W'] {
		s = append(s, "held for writing")
	}
	return strings.Join(s, " or ")
}

func modesOf(s *lst) string {
	var o []string
	for k, v := range s.modes {
		o = append(o, k+":"+string(v))
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}
