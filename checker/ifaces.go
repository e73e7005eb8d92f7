package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values stored while decoding ----

// ifaceClient checks what can end up in interface values when decoding, and
// what is taken out of them when encoding.
type ifaceClient struct {
	noClient
	p        *Program
	decode   bool
	lookups  map[*ssa.Function]bool
	selected int
	contents int
}

// infoResult: f returns a record of type information that it looks up by
// something other than the type itself.
func infoResult(p *Program, f *ssa.Function) bool {
	if f == nil || f.Pkg != p.Main {
		return false
	}
	rs := f.Signature.Results()
	has := false
	for i := 0; i < rs.Len(); i++ {
		has = has || isInfoPtr(rs.At(i).Type()) || types.TypeString(rs.At(i).Type(), nil) == "reflect.Type"
	}
	if !has {
		return false
	}
	for _, q := range f.Params {
		if types.TypeString(q.Type(), nil) == "reflect.Type" {
			return false
		}
	}
	return true
}

// isInfoPtr: a pointer to the record that says whether a type is registered.
func isInfoPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	return ok && fieldPath(s, "Registered") != nil
}

// fieldPath lists the indices leading to a field through embedded structs.
func fieldPath(s *types.Struct, name string) []int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if es, ok := f.Type().Underlying().(*types.Struct); ok {
				if q := fieldPath(es, name); q != nil {
					return append([]int{i}, q...)
				}
			}
		}
	}
	return nil
}

// loadField loads a field of the record that x points to.
func (e *Engine) loadField(st *State, x *Term, t types.Type, name string) *Term {
	s := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	a := e.typed(x, t)
	var ft types.Type
	for _, i := range fieldPath(s, name) {
		ft = s.Field(i).Type()
		a = e.tp.mk("fieldaddr", strconv.Itoa(i), types.NewPointer(ft), a)
		s, _ = ft.Underlying().(*types.Struct)
	}
	return e.load(st, a, ft)
}

// contains looks for a term below t.
func contains(t *Term, ok func(t *Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if ok(t) {
			return true
		}
		if t.op == "lin" {
			for _, a := range t.lin.atoms {
				if walk(a) {
					return true
				}
			}
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (c *ifaceClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if f := in.Common().StaticCallee(); c.decode && infoResult(c.p, f) && e.opaqueFn(f) {
		c.lookups[f] = true
	}
	if !c.decode && name == "(reflect.Value).Elem" && res != nil && res.op == "relem" {
		e.flag(st, "content")
	}
}

func (c *ifaceClient) lookedUp(t *Term) bool {
	return contains(t, func(t *Term) bool {
		if t.op != "sym" || !strings.HasPrefix(t.aux, "call:") {
			return false
		}
		for f := range c.lookups {
			if strings.HasPrefix(t.aux, "call:"+short(f.String())) {
				return true
			}
		}
		return false
	})
}

func (c *ifaceClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	if !c.decode {
		c.encodeCall(e, fr, st, in, args)
		return
	}
	switch name {
	case "(reflect.Value).Set", "(reflect.Value).SetMapIndex":
		tgt, val := args[0], args[len(args)-1]
		tt, tv := e.rtype(tgt), e.rtype(val)
		if name != "(reflect.Value).Set" {
			tt = e.telem(tt)
		}
		if tt == tv || val.op == "rval" && len(val.args) > 1 && val.args[1].op == "zero" {
			return
		}
		switch {
		case c.lookedUp(tv):
			c.selected++
			ok := e.truth(st.facts, e.tp.mk("implements", "", types.Typ[types.Bool], tv, tt)) == 1
			if !ok {
				for t, v := range st.facts.lits {
					if v && t.op == "implements" && t.args[0] == tv && t.args[1] == tt {
						ok = true
					}
				}
			}
			e.oblige(fr, st, "implements", instrPos(in), "a value whose type the input selects is only stored where the type implements the interface", ok, func() string {
				return clip(tv.String(), 120) + " is not known to implement the target's type"
			})
		case tv.op == "ttype":
			if e.kindExcludes(st, tt, reflect.Interface) {
				return
			}
			ok := freshTarget(in.Common().Args[0], map[ssa.Value]bool{})
			for t, v := range st.facts.lits {
				// the type was compared with that of a sample
				ok = ok || v && t.op == "eq" && contains(t, func(t *Term) bool { return t.op == "global" || t.op == "load" || t.op == "ttype" })
			}
			e.oblige(fr, st, "fixed", instrPos(in), "a value of a fixed type is only stored where the target has that type", ok, func() string {
				return "stores a " + clip(tv.String(), 120) + " without comparing types"
			})
		case contains(tv, func(t *Term) bool { return t.op == "rvalueof" || t.op == "rinterface" }):
			e.oblige(fr, st, "fixed", instrPos(in), "what is stored has a known type", e.kindExcludes(st, tt, reflect.Interface), func() string {
				return "the value stored may have any type: " + clip(val.String(), 120)
			})
		}
	case "encoding/json.Unmarshal":
		if !contains(args[1], func(t *Term) bool { return t.op == "rinterface" }) {
			return
		}
		for a, k := range st.facts.mask {
			if isKindAtom(a) && !dispatchAtom(a) && !contains(a, func(t *Term) bool { return t.op == "tkey" }) && uint64(k)&^(1<<uint(reflect.Uint8)) == 0 {
				return // a list of bytes
			}
		}
		ok := e.valueKinds(st, args[1])&compositeMask&^(1<<uint(reflect.Ptr)) == 0
		e.oblige(fr, st, "library", instrPos(in), "values that may hold interfaces are not left to the standard JSON package", ok, func() string {
			return "the value handed over may hold an interface"
		})
	}
}

// freshTarget: v is a part of what reflect.New made in the same function.
func freshTarget(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !freshTarget(x, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := v.Common().StaticCallee()
		if f == nil {
			return false
		}
		switch f.String() {
		case "reflect.New":
			return true
		case "(reflect.Value).Elem", "(reflect.Value).Field", "(reflect.Value).Index":
			return freshTarget(v.Common().Args[0], seen)
		}
	}
	return false
}

func (e *Engine) kindExcludes(st *State, T *Term, k reflect.Kind) bool {
	return e.truth(st.facts, e.tp.eq0(toLin(e.kindOf(T)).addC(-int64(k)))) == -1
}

// encodeCall: what an interface holds is only encoded when its type is
// registered.
func (c *ifaceClient) encodeCall(e *Engine, fr *frame, st *State, in ssa.CallInstruction, args []*Term) {
	f := in.Common().StaticCallee()
	if f == nil || e.contracts[f] == nil || st.ghost["content"] == nil {
		return
	}
	for i, q := range f.Params {
		if isInfoPtr(q.Type()) {
			c.contents++
			t := e.loadField(st, args[i], q.Type(), "Registered")
			e.oblige(fr, st, "registered", instrPos(in), "what an interface value holds is only encoded when its type is registered", e.truth(st.facts, t) == 1, func() string {
				return "the type information need not be that of a registered type"
			})
		}
	}
}

// ---- where the records looked up come from ----

// infoClient collects what is entered in the codec's collections of records.
type infoClient struct {
	noClient
	p       *Program
	entries []infoEntry
	found   []infoEntry      // what lookups return
	mapOf   map[*Term]string // collections that new maps become
}

type infoEntry struct {
	field string // collection
	from  string // collection the record was taken from
	reg   bool   // the record says it is registered
	where string
	fn    string
	why   string
	local *Term // the map entered, if new
	src   *Term // the new map it was taken from
}

// infoElem is the record type held by a collection.
func infoElem(t types.Type) types.Type {
	for {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			if isInfoPtr(t) {
				return t
			}
			return nil
		}
	}
}

// collection names the field that a record or collection was taken from.
func collection(t *Term) string {
	for {
		switch t.op {
		case "fieldaddr":
			s, ok := derefType(t.args[0].typ).Underlying().(*types.Struct)
			if !ok {
				return ""
			}
			if f := s.Field(atoi(t.aux)); infoElem(f.Type()) != nil && !isInfoPtr(f.Type()) {
				return types.TypeString(derefType(t.args[0].typ), func(*types.Package) string { return "" }) + "." + f.Name()
			}
			return ""
		case "load", "indexaddr", "elem", "mapval", "slice", "field":
			t = t.args[0]
		default:
			return ""
		}
	}
}

// newMap is the freshly made map that a record or collection was taken from.
func newMap(t *Term) *Term {
	for {
		switch t.op {
		case "alloc":
			if strings.HasPrefix(t.aux, "map@") {
				return t
			}
			return nil
		case "load", "indexaddr", "elem", "mapval", "slice", "field":
			t = t.args[0]
		default:
			return nil
		}
	}
}

func (c *infoClient) enter(e *Engine, fr *frame, st *State, at ssa.Instruction, field string, v *Term, t types.Type) {
	switch {
	case isInfoPtr(t):
		if isNilConst(v) {
			return
		}
		c.entries = append(c.entries, infoEntry{field: field, from: collection(v), reg: e.truth(st.facts, e.loadField(st, v, t, "Registered")) == 1, where: e.P.pos(instrPos(at)), fn: shortName(fr.fn), why: clip(v.String(), 120), src: newMap(v)})
	default:
		// a list: what it was and what was added to it
		b, _, n, _ := e.sl(v)
		if g := st.ghost["ap:"+strconv.Itoa(b.id)]; g != nil {
			for _, x := range ghostListTerm(g) {
				if x.op == "apbase" {
					c.enter(e, fr, st, at, field, x.args[0], t)
				} else {
					c.enter(e, fr, st, at, field, x, infoElem(t))
				}
			}
			return
		}
		if e.entailsEQ(st.facts, toLin(n)) {
			return
		}
		c.entries = append(c.entries, infoEntry{field: field, from: collection(b), where: e.P.pos(instrPos(at)), fn: shortName(fr.fn), why: clip(v.String(), 120), src: newMap(b)})
	}
}

func (c *infoClient) Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term) {
	t := at.Common().Args[0].Type()
	if infoElem(t) == nil {
		return
	}
	b, _, _, _ := e.sl(res)
	key := "ap:" + strconv.Itoa(b.id)
	delete(st.ghost, key)
	e.push(st, key, e.tp.mk("apbase", "", nil, args[0]))
	more, _, n, _ := e.sl(args[1])
	if _, ok := constOf(n); ok && collection(more) == "" {
		for _, x := range e.variadic(st, args[1]) {
			if x == args[1] {
				x = e.tp.mk("apbase", "", nil, x)
			}
			e.push(st, key, x)
		}
	} else {
		e.push(st, key, e.tp.mk("apbase", "", nil, args[1]))
	}
}

func (c *infoClient) MapUpdate(e *Engine, fr *frame, st *State, at *ssa.MapUpdate) {
	mt := at.Map.Type().Underlying().(*types.Map)
	if infoElem(mt) == nil {
		return
	}
	f := collection(e.val(st, at.Map))
	n := len(c.entries)
	c.enter(e, fr, st, at, f, e.val(st, at.Value), mt.Elem())
	if f == "" {
		for i := range c.entries[n:] {
			c.entries[n+i].local = e.val(st, at.Map)
		}
	}
}

func (c *infoClient) Store(e *Engine, fr *frame, st *State, at *ssa.Store, addr *Term) {
	t := at.Val.Type()
	if isInfoPtr(t) || infoElem(t) == nil {
		return
	}
	if addr.op == "fieldaddr" {
		if f := collection(addr); f != "" {
			if _, isMap := t.Underlying().(*types.Map); isMap {
				if v := e.val(st, at.Val); v.op == "alloc" && strings.HasPrefix(v.aux, "map@") {
					c.mapOf[v] = f
				} else if !isNilConst(v) {
					c.entries = append(c.entries, infoEntry{field: f, from: collection(v), where: e.P.pos(at.Pos()), fn: shortName(fr.fn), why: clip(v.String(), 120)})
				}
				return
			}
			c.enter(e, fr, st, at, f, e.val(st, at.Val), t)
		}
	}
}

func (c *infoClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	if fr.parent != nil {
		return
	}
	res := fr.fn.Signature.Results()
	s := st
	if n := res.Len(); n > 0 && isErrorType(res.At(n-1).Type()) {
		s = st.clone()
		s.facts = e.assume(st.facts, e.isNil(rs[n-1]), true)
		if s.facts.dead {
			return
		}
	}
	for i := 0; i < res.Len(); i++ {
		if isInfoPtr(res.At(i).Type()) {
			v := rs[i]
			c.found = append(c.found, infoEntry{from: collection(v), reg: !isNilConst(v) && e.truth(s.facts, e.loadField(s, v, res.At(i).Type(), "Registered")) == 1, where: e.P.pos(instrPos(at)), fn: shortName(fr.fn), why: clip(v.String(), 120)})
		}
	}
}

func init() {
	register(&Check{ID: "C17", Level: "proof", Archs: intArchs,
		Rule:  "abstract interpretation of the recursive decoders: a value whose type comes from a lookup by name or prefix is stored only on paths where its type was found to implement the target's type, and nothing else of unknown type is stored; every lookup returns a record taken from collections that, over all writers, only receive records marked as registered (or taken from each other); of the recursive encoders: the content of an interface is passed on only where its record is marked as registered",
		Expl:  "every reflect store and library decode in the recursive decoders, every lookup, every update of the collections of type records, and every nested call of the recursive encoders on the content of an interface",
		Trust: []string{"reflect's Implements is right", "what user-defined UnmarshalJSON and UnmarshalAmino do is the user's own"},
		Run:   runIfaces})
}

func runIfaces(p *Program, r *Result) {
	lookups := map[*ssa.Function]bool{}
	n := 0
	for _, js := range []bool{false, true} {
		c := &ifaceClient{p: p, decode: true, lookups: lookups}
		h := decodeHalf(p, c, js)
		for _, f := range h.fns {
			h.e.loopCache = nil
			h.e.runRoot(f)
		}
		r.take(h.e, "implements", "fixed", "library")
		n += c.selected
		c2 := &ifaceClient{p: p}
		h = encodeHalf(p, c2, js)
		for _, f := range h.fns {
			h.e.loopCache = nil
			h.e.runRoot(f)
		}
		r.take(h.e, "registered")
		r.floor("contents of interfaces encoded", c2.contents, 1)
	}
	r.floor("stores of values selected by the input", n, 4)
	r.floor("lookups of type records", len(lookups), 2)

	ic := &infoClient{p: p, mapOf: map[*Term]string{}}
	e := newEngine(p)
	e.inlineAll = true
	e.pureFns = true
	e.client = ic
	for _, f := range p.Funcs {
		if lookups[f] {
			e.loopCache = nil
			e.runRoot(f)
		}
	}
	found := ic.found
	entered := func() {
		for i, x := range ic.entries {
			if x.local != nil {
				ic.entries[i].field = ic.mapOf[x.local]
				if t := x.local; ic.entries[i].field == "" {
					ic.entries[i].field = "a local map " + t.String()
				}
			}
			if x.from == "" && x.src != nil {
				ic.entries[i].from = ic.mapOf[x.src]
			}
		}
	}
	ic.found = nil
	regs, others := registryRoots(p, newLflow(p))
	for _, f := range append(regs, others...) {
		e.loopCache = nil
		e.runRoot(f)
	}
	r.take(e)
	entered()
	need := map[string]bool{}
	for _, x := range found {
		r.ob("lookup", x.where, x.fn, "a lookup returns a record from the codec's collections", x.reg || x.from != "", "returns "+x.why, "")
		if !x.reg {
			need[x.from] = true
		}
	}
	r.floor("successful lookups", len(found), 3)
	for changed := true; changed; {
		changed = false
		for _, x := range ic.entries {
			if need[x.field] && !x.reg && x.from != "" && !need[x.from] {
				need[x.from] = true
				changed = true
			}
		}
	}
	k := 0
	for _, x := range ic.entries {
		if !need[x.field] {
			continue
		}
		k++
		r.ob("registered", x.where, x.fn, "only records of registered types are entered in "+x.field, x.reg || need[x.from] && x.from != "", "enters "+x.why, "")
	}
	r.floor("updates of the collections", k, 4)
}
