package main

import (
	"strings"
)

// take copies the engine's obligations whose rule is listed.
func (r *Result) take(e *Engine, rules ...string) {
	want := map[string]bool{}
	for _, x := range rules {
		want[x] = true
	}
	for _, o := range e.oblOrder {
		if !want[o.Rule] {
			continue
		}
		r.ob(o.Rule, o.Where, o.Fn, o.What, o.Fails == 0, o.Why, o.Path)
	}
	for f := range e.visited {
		r.Units[shortName(f)] = true
	}
	for n := range e.notes {
		if strings.HasPrefix(n, "step budget") || strings.Contains(n, "not followed") || strings.Contains(n, "did not settle") || strings.HasPrefix(n, "unmodelled") {
			r.undecided("%s", n)
		}
	}
}

var intArchs = []string{"amd64", "386"}

func init() {
	register(&Check{ID: "C06", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of every decoding entry point with arbitrary input bytes: each index, slice, make, integer division, dereference of a definitely nil pointer and type assertion is shown safe on every path, and no explicit panic is decided by the input",
		Expl: "every potentially panicking construct reachable from a decoding entry point is an obligation, discharged by linear-inequality reasoning over all inputs",
		Trust: []string{
			"user-defined UnmarshalAmino and UnmarshalJSON methods do not panic",
			"the target type and the registered types are supported (panics decided by types alone are the caller's mistake)",
			"stack depth and memory exhaustion are outside this property",
		},
		Run: func(p *Program, r *Result) {
			d := runDecode(p, &decodeClient{})
			r.take(d.e, "index", "slice", "makeslice", "divide", "nilderef", "typeassert", "panic")
			r.floor("decoding entry points", len(d.roots), 20)
			r.floor("panic obligations", r.Obligations, 300)
		}})
	register(&Check{ID: "C07", Level: "proof", Archs: intArchs,
		Rule:  "abstract interpretation: every allocation whose size depends on the input is bounded, on every path, by a constant or a constant multiple of the length of bytes already held in memory",
		Expl:  "every make, reflect.MakeSlice and similar reachable from a decoding entry point",
		Trust: []string{"allocations inside the standard library are proportional to the data given to it"},
		Run: func(p *Program, r *Result) {
			d := runDecode(p, &decodeClient{})
			r.take(d.e, "alloc")
			r.floor("sized allocations", r.Obligations, 1)
		}})
	register(&Check{ID: "C08", Level: "proof", Archs: intArchs,
		Rule:  "abstract interpretation: every loop reachable from a decoding entry point whose exit depends on the input has an integer measure that gets strictly closer to a bound in every iteration",
		Expl:  "each loop is an obligation; recursion consumes a strictly shorter input or descends the type",
		Trust: []string{"loops whose exit does not depend on the input follow the (finite) structure of a Go type"},
		Run: func(p *Program, r *Result) {
			d := runDecode(p, &decodeClient{})
			n := 0
			for _, l := range d.e.loopsDone {
				r.ob("loop", l.Where, l.Fn, "loop makes progress ("+l.Measure+")", l.OK, l.Why, "")
				if l.Tainted {
					n++
				}
			}
			r.take(d.e)
			r.floor("loops", len(d.e.loopsDone), 8)
			r.floor("input-driven loops", n, 3)
		}})
}
