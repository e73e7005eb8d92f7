package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// regClient follows the writes a registration makes to the codec.
type regClient struct {
	noClient
	lf      *lflow
	updates int
	writes  int
	returns int
	panics  int
	absent  bool              // raise C05 obligations
	trace   bool              // raise C04 obligations
	maps    map[string]string // type of codec map -> field
}

// codecMaps lists the map fields of Codec by map type.
func codecMaps(lf *lflow) map[string]string {
	m := map[string]string{}
	st := lf.codec.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			m[tstr(mt)] = st.Field(i).Name()
		}
	}
	return m
}

// shared: the object a term denotes existed before the operation or has been
// stored where others can see it.
func (e *Engine) shared(st *State, root *Term) bool {
	if _, ok := st.cells[root]; ok {
		return st.esc[root]
	}
	switch root.op {
	case "makemap", "make", "alloc", "cell":
		return st.esc[root]
	}
	return true
}

func (c *regClient) wrote(e *Engine, st *State) { st.ghost["may:wrote"] = e.tp.boolc(true) }

func (c *regClient) MapUpdate(e *Engine, fr *frame, st *State, at *ssa.MapUpdate) {
	mt := at.Map.Type().Underlying().(*types.Map)
	if !c.lf.regMaps[tstr(mt)] {
		return
	}
	m := e.val(st, at.Map)
	if !e.shared(st, m) {
		return
	}
	c.wrote(e, st)
	f := c.maps[tstr(mt)]
	if f == "" {
		return
	}
	k := e.val(st, at.Key)
	st.ghost["up:"+f] = k
	if c.absent {
		c.updates++
		p := e.tp.mk("present", "", nil, m, k, e.fine(st, mapKeyOf(at.Map.Type())))
		ok := e.truth(st.facts, p) < 0
		e.oblige(fr, st, "absent", at.Pos(), "an entry is added to "+f+" only when the key was found absent under the same lock", ok, func() string {
			if os.Getenv("VDBG") != "" {
				fmt.Println("NEED", p)
				for l, v := range st.facts.lits {
					fmt.Println("   lit", l, v)
				}
			}
			return "key " + clip(k.String(), 160) + " may already be present"
		})
	}
}

func (c *regClient) Store(e *Engine, fr *frame, st *State, at *ssa.Store, p *Term) {
	root, path := addrRoot(p)
	if !e.shared(st, root) || len(path) == 0 {
		return
	}
	last := path[len(path)-1]
	if last.op == "fieldaddr" {
		if n, ok := derefType(last.args[0].typ).(*types.Named); !ok || !c.lf.reg[n] {
			return
		}
	} else if et := derefType(p.typ); !c.lf.interestingObj(et) {
		return
	}
	c.writes++
	c.wrote(e, st)
}

func (c *regClient) Call(e *Engine, fr *frame, st *State, call ssa.CallInstruction, callee string, args []*Term) {
	switch callee {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
		// other goroutines may have run until now
		e.bumpAll(st, "")
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RUnlock":
		e.bumpAll(st, "")
	}
}

func (c *regClient) Panic(e *Engine, fr *frame, st *State, at ssa.Instruction) {
	if !c.trace {
		return
	}
	c.panics++
	ok := st.ghost["may:wrote"] == nil
	e.oblige(fr, st, "trace", instrPos(at), "a registration that panics has not modified the codec yet", ok, func() string {
		return "the panic can be reached after the codec was modified"
	})
}

func (c *regClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	if fr.parent != nil || !c.absent || !strings.HasPrefix(fr.fn.Name(), "Register") {
		return
	}
	c.returns++
	// a concrete registration takes the name
	for i, p := range fr.fn.Params {
		if !isStringType(p.Type()) {
			continue
		}
		for _, f := range c.maps {
			e.oblige(fr, st, "complete", fr.fn.Pos(), "a successful registration is entered in "+f, st.ghost["up:"+f] != nil, func() string {
				return "it can return without adding an entry, so that a later conflict goes unnoticed"
			})
			if f2 := st.ghost["up:"+f]; f2 != nil && f2.typ != nil && isStringType(f2.typ) {
				e.oblige(fr, st, "complete", fr.fn.Pos(), "the entry in "+f+" is under the registered name", f2 == fr.args[i], func() string {
					return fmt.Sprintf("the key is %s", clip(f2.String(), 120))
				})
			}
		}
	}
	if st.ghost["up:"+c.maps["map[reflect.Type]*amino.TypeInfo"]] == nil {
		e.oblige(fr, st, "complete", fr.fn.Pos(), "a successful registration is entered in the table of types", false, nil)
	}
}

// registryRoots: the exported registration methods, and every other function
// that takes the lock and may add to the codec's maps.
func registryRoots(p *Program, lf *lflow) (regs, others []*ssa.Function) {
	maps := codecMaps(lf)
	adds := func(f *ssa.Function) bool {
		for g := range reachable(p, f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && maps[tstr(mu.Map.Type().Underlying())] != "" {
						return true
					}
				}
			}
		}
		return false
	}
	locks := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && (g.String() == "(*sync.RWMutex).Lock" || g.String() == "(*sync.Mutex).Lock") {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg == p.Main && isCodecMethod(f) && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && isRegisterRoot(f) && adds(f) {
			regs = append(regs, f)
			for g := range reachable(p, f) {
				seen[g] = true
			}
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg == p.Main && f.Parent() == nil && !seen[f] && locks(f) && adds(f) {
			others = append(others, f)
		}
	}
	return
}

func runRegistry(p *Program, r *Result, c *regClient, withOthers bool) *Engine {
	c.lf = newLflow(p)
	c.maps = codecMaps(c.lf)
	e := newEngine(p)
	e.inlineAll = true
	e.pureFns = true
	e.client = c
	regs, others := registryRoots(p, c.lf)
	for _, f := range regs {
		e.loopCache = nil
		e.runRoot(f)
	}
	if withOthers {
		for _, f := range others {
			e.loopCache = nil
			e.runRoot(f)
		}
	}
	r.floor("registration entry points", len(regs), 2)
	return e
}

func init() {
	register(&Check{ID: "C04", Level: "proof",
		Rule:  "abstract interpretation of the registration entry points: on every path, no explicit panic is reachable after the first write to the codec or to a type record visible through it",
		Expl:  "every explicit panic reachable from a registration is an obligation",
		Trust: []string{"library calls made after the first write do not panic"},
		Run: func(p *Program, r *Result) {
			c := &regClient{trace: true}
			e := runRegistry(p, r, c, false)
			r.take(e, "trace")
			r.floor("panics", r.Obligations, 5)
			r.floor("writes", c.writes, 1)
		}})
	register(&Check{ID: "C05", Level: "proof",
		Rule:  "abstract interpretation of every function that adds to the codec's tables: each entry is added only on paths where its key was looked up and found absent under the same lock, and a registration returns normally only after entering type, name and disambiguation-plus-prefix bytes in their tables",
		Expl:  "every map update of the codec's tables and every normal return of a registration is an obligation",
		Trust: []string{"map keys that are equal terms are equal values"},
		Run: func(p *Program, r *Result) {
			c := &regClient{absent: true}
			e := runRegistry(p, r, c, true)
			r.take(e, "absent", "complete")
			r.floor("table updates", c.updates, 4)
			r.floor("returns of registrations", c.returns, 2)
		}})
}
