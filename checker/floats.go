package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// floatClient follows where floats are turned into bytes or back, and which
// field options are handed to nested operations.
type floatClient struct {
	noClient
	p     *Program
	root  *ssa.Function
	args  []*Term
	seen  int
	calls int
	ctor  int
}

func (c *floatClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	c.root, c.args = f, args
}

// optionParams lists the parameters of f that are field options.
func optionParams(f *ssa.Function) []int {
	var r []int
	for i, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Struct); ok && hasField(s, "Unsafe") {
			r = append(r, i)
		}
	}
	return r
}

func hasField(s *types.Struct, name string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// unsafeParam is the options parameter of f that decides about floats: the
// only one, or the one that is passed on.
func (c *floatClient) unsafeParams(e *Engine, f *ssa.Function, args []*Term) []*Term {
	var r []*Term
	for _, i := range optionParams(f) {
		s := f.Params[i].Type().Underlying().(*types.Struct)
		if t := fieldByName(e, args[i], s, "Unsafe"); t != nil {
			r = append(r, t)
		}
	}
	return r
}

func (c *floatClient) allowed(e *Engine, st *State) bool {
	for _, t := range c.unsafeParams(e, c.root, c.args) {
		if e.truth(st.facts, t) == 1 {
			return true
		}
	}
	return false
}

const floatMask = 1<<uint(reflect.Float32) | 1<<uint(reflect.Float64) | 1<<uint(reflect.Complex64) | 1<<uint(reflect.Complex128)
const compositeMask = 1<<uint(reflect.Slice) | 1<<uint(reflect.Array) | 1<<uint(reflect.Map) | 1<<uint(reflect.Struct) | 1<<uint(reflect.Interface) | 1<<uint(reflect.Ptr)

// mayHoldFloat: a value of static type t can hold a float.
func mayHoldFloat(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsFloat|types.IsComplex) != 0
	case *types.Pointer:
		return mayHoldFloat(u.Elem(), seen)
	case *types.Slice:
		return mayHoldFloat(u.Elem(), seen)
	case *types.Array:
		return mayHoldFloat(u.Elem(), seen)
	case *types.Map:
		return mayHoldFloat(u.Elem(), seen) || mayHoldFloat(u.Key(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayHoldFloat(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Interface:
		return true
	}
	return false
}

// floatValue says whether a value given to a library encoder, decoder or
// formatter may hold a float here.
func (c *floatClient) floatValue(e *Engine, st *State, x *Term, t types.Type) bool {
	fromReflect := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "rinterface" {
			fromReflect = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(x)
	if fromReflect {
		for a, k := range st.facts.mask {
			if isKindAtom(a) && !dispatchAtom(a) && uint64(k)&^(1<<uint(reflect.Uint8)) == 0 {
				return false // a list of bytes
			}
		}
		return e.valueKinds(st, x)&(floatMask|compositeMask) != 0
	}
	if d := e.ifaceTypes[x]; d != nil {
		t = d
	}
	return t == nil || mayHoldFloat(t, map[types.Type]bool{})
}

// valueKinds is the set of kinds that the value taken out of reflection in x
// can have.
func (e *Engine) valueKinds(st *State, x *Term) uint64 {
	m, dispatched, n := uint64(0), false, 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "rinterface" {
			n++
			T := e.rtype(t.args[0])
			for T.op == "ptrto" {
				T = T.args[0]
			}
			if st := e.staticTypes[T]; T.op == "ttype" && st != nil && !mayHoldFloat(st, map[types.Type]bool{}) {
				return
			}
			k := e.kindOf(T)
			dispatched = dispatched || dispatchAtom(k)
			if v, ok := constOf(k); ok {
				m |= 1 << uint(v.Int64())
			} else if q, ok := st.facts.mask[k]; ok {
				m |= q
			} else {
				m = ^uint64(0)
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(x)
	if n == 0 {
		return ^uint64(0)
	}
	if dispatched {
		m &= kindsOf(st)
	}
	return m
}

// concrete is the static type of the value wrapped into an interface argument.
func concrete(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v.Type()
		}
	}
}

func (c *floatClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	event := func(what string) {
		c.seen++
		e.oblige(fr, st, "float", instrPos(in), what+" only where the field is marked unsafe", c.allowed(e, st), func() string {
			return name + " is reached although the options need not be unsafe"
		})
	}
	switch name {
	case "(reflect.Value).Float", "(reflect.Value).SetFloat", "(reflect.Value).Complex", "(reflect.Value).SetComplex",
		"math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits", "strconv.ParseFloat", "strconv.FormatFloat", "strconv.AppendFloat":
		event("a float is converted")
		return
	case "(reflect.Value).Field", "(reflect.Value).FieldByIndex", "(reflect.Value).FieldByName":
		e.flag(st, "fld")
	case "encoding/json.Marshal", "encoding/json.Unmarshal", "encoding/json.MarshalIndent":
		i := 0
		if name == "encoding/json.Unmarshal" {
			i = 1
		}
		if c.floatValue(e, st, args[i], concrete(in.Common().Args[i])) {
			event("a value that may hold a float is converted")
		}
		return
	}
	f := in.Common().StaticCallee()
	if f == nil || e.contracts[f] == nil || len(optionParams(f)) == 0 {
		return
	}
	c.calls++
	own := c.unsafeParams(e, c.root, c.args)
	ps := optionParams(f)
	for j, t := range c.unsafeParams(e, f, args) {
		ok, why := false, ""
		if v := e.truth(st.facts, t); v == -1 {
			ok = true
		} else if st.ghost["fld"] != nil {
			ok = fieldRecord(t) || !c.relevant(f, ps[j])
			why = "a field's value is handled with options that are not its own: " + clip(t.String(), 120)
		} else {
			for _, o := range own {
				ok = ok || o == t
			}
			why = "the options passed on are not the ones received: " + clip(t.String(), 120)
		}
		e.oblige(fr, st, "options", instrPos(in), "nested values are handled with the unsafe mark of their field", ok, func() string { return why })
	}
}

// fieldRecord: a boolean loaded from a record in memory (a struct's field
// list), not from a parameter.
func fieldRecord(t *Term) bool {
	switch t.op {
	case "load":
		return true
	case "field", "elem":
		return fieldRecord(t.args[0])
	}
	return false
}

// relevant: the options in parameter i are looked at or passed on by f.
func (c *floatClient) relevant(f *ssa.Function, i int) bool {
	if len(optionParams(f)) == 1 {
		return true
	}
	refs := f.Params[i].Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			// spilled parameter: used when its copy is loaded or addressed
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == f.Params[i] {
				for _, u := range *a.Referrers() {
					if u != r {
						return true
					}
				}
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

// unsafeStores checks that the unsafe mark is only set for an unsafe tag.
type tagClient struct {
	noClient
	n int
}

func (c *tagClient) Store(e *Engine, fr *frame, st *State, at *ssa.Store, addr *Term) {
	fa, ok := at.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if s.Field(fa.Field).Name() != "Unsafe" {
		return
	}
	v := e.val(st, at.Val)
	if e.truth(st.facts, v) == -1 {
		return
	}
	c.n++
	if e.truth(st.facts, e.load(st, addr, at.Val.Type())) == 1 {
		return // it was set already
	}
	tagged := false
	for _, t := range append(litsTrue(st), v) {
		tagged = tagged || strings.Contains(t.String(), "\"unsafe\"")
	}
	e.oblige(fr, st, "mark", at.Pos(), "a field is marked unsafe only because of its tag", tagged, func() string { return "the mark is set without an unsafe tag" })
}

func litsTrue(st *State) []*Term {
	var r []*Term
	for t, v := range st.facts.lits {
		if v {
			r = append(r, t)
		}
	}
	return r
}

func init() {
	register(&Check{ID: "C16", Level: "proof", Archs: intArchs,
		Rule:  "abstract interpretation of the recursive encoders and decoders: every conversion of a float, and every call of the standard JSON package on a value that may hold one, is reached only where the unsafe mark of the function's own field options is set; nested calls pass on the mark received or that of the field's own record; entry points start without it; the mark is set only for an unsafe tag",
		Expl:  "all paths of every recursive encoder and decoder in both formats, of the functions that call them, and of every function that stores the mark",
		Trust: []string{"user-defined MarshalJSON, UnmarshalJSON and repr conversions are the user's own", "the type information describes the value's own type"},
		Run:   runFloats})
}

func runFloats(p *Program, r *Result) {
	cl := &floatClient{p: p}
	var es []*Engine
	in := map[*ssa.Function]bool{}
	for _, js := range []bool{false, true} {
		for _, h := range []*codecHalf{encodeHalf(p, cl, js), decodeHalf(p, cl, js)} {
			for _, f := range h.fns {
				in[f] = true
				h.e.loopCache = nil
				h.e.runRoot(f)
			}
			// those who call them
			for _, f := range p.Funcs {
				if f.Pkg == p.Main && !in[f] && callsAny(f, h.e.contracts) && h.e.contracts[f] == nil {
					h.e.loopCache = nil
					h.e.runRoot(f)
				}
			}
			es = append(es, h.e)
		}
	}
	for _, e := range es {
		r.take(e, "float", "options")
	}
	r.floor("float conversions", cl.seen, 6)
	r.floor("nested calls", cl.calls, 12)
	tc := &tagClient{}
	te := newEngine(p)
	te.inlineAll = true
	te.smallLimit = 60
	te.client = tc
	te.opaqueFn = func(f *ssa.Function) bool { return in[f] }
	for _, f := range p.Funcs {
		if storesField(f, "Unsafe") {
			te.runRoot(f)
		}
	}
	r.take(te, "mark")
	r.floor("places setting the mark", tc.n, 1)
}

func callsAny(f *ssa.Function, set map[*ssa.Function]*Contract) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && set[g] != nil {
					return true
				}
			}
		}
	}
	return false
}

func storesField(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && st.Field(fa.Field).Name() == name {
						return true
					}
				}
			}
		}
	}
	return false
}
