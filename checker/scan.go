package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scanClient raises the obligations of the scanning tool.
type scanClient struct{ decodeClient }

// Start assumes that the process has a name.
func (c *scanClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	strs := types.NewSlice(types.Typ[types.String])
	a := e.load(st, e.tp.mk("global", "os.Args", types.NewPointer(strs)), strs)
	st.facts = e.addGE(st.facts, toLin(e.lenOf(a, strs)).addC(-1))
}

// Panic: the tool's treatment of text that is not hexadecimal is not its
// treatment of bytes.
func (c *scanClient) Panic(e *Engine, fr *frame, st *State, at ssa.Instruction) {
	err := st.ghost["hexerr"]
	e.oblige(fr, st, "panic", instrPos(at), "explicit panic is not reached", err != nil && e.truth(st.facts, e.isNil(err)) == -1, func() string {
		return "reached for some input"
	})
}

// After remembers whether the input was hexadecimal.
func (c *scanClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if strings.HasPrefix(name, "encoding/hex.Decode") {
		if err := e.errResult(in, res); err != nil {
			st.ghost["hexerr"] = err
		}
	}
}

func init() {
	register(&Check{ID: "C29", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the aminoscan tool from its main function, with arbitrary bytes: every index, slice, make, division, nil dereference, type assertion and explicit panic in the tool is shown safe on every path, and every loop has a measure that gets strictly closer to a bound",
		Expl: "every potentially panicking construct and every loop of the cmd/aminoscan package",
		Trust: []string{
			"text that is not hexadecimal is not part of this property (the tool panics on it)",
			"the functions of the amino package that the tool calls, and the standard library, return normally",
			"os.Args holds at least the program's name",
		},
		Run: func(p *Program, r *Result) {
			var root *ssa.Function
			for _, f := range p.Funcs {
				if f.Name() == "main" && f.Parent() == nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/cmd/aminoscan") {
					root = f
				}
			}
			if root == nil {
				r.undecided("the aminoscan tool was not found")
				return
			}
			e := newEngine(p)
			e.taintBytes = true
			e.inlineAll = true
			e.strictLoops = true
			e.closedWorld = true
			e.opaqueFn = func(f *ssa.Function) bool { return f.Pkg == p.Main }
			e.client = &scanClient{}
			var scc []*ssa.Function
			for _, f := range recursive(p, reachable(p, root)) {
				if f.Pkg == root.Pkg {
					scc = append(scc, f)
				}
			}
			e.inferContracts(scc)
			for _, f := range append([]*ssa.Function{root}, scc...) {
				e.loopCache = nil
				e.runRoot(f)
			}
			r.take(e, "index", "slice", "makeslice", "divide", "nilderef", "typeassert", "panic")
			for _, l := range e.loopsDone {
				r.ob("loop", l.Where, l.Fn, "loop makes progress ("+l.Measure+")", l.OK, l.Why, "")
			}
			r.floor("obligations", r.Obligations, 60)
			r.floor("loops", len(e.loopsDone), 2)
		}})
}
