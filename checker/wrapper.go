package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// arrival is a path that reaches the coding of a value.
type arrival struct {
	info, value *shp
	bare        sv
	fixed       string // the options of the value that change its wire type
	input       sv
	keys        []int64 // the constant bytes written directly before the value
	reads       []string
	st          *shapeState
	pos         token.Pos
}

// half is what one side does with a value of one shape.
type wrapHalf struct {
	arrive []arrival
	ends   int // paths that return before
	fail   string
}

type wrapRun struct {
	p     *Program
	disp  *ssa.Function
	units map[*ssa.Function]bool
	paths int
}

func paramOf(f *ssa.Function, is func(t types.Type) bool) int {
	for i, p := range f.Params {
		if is(p.Type()) {
			return i
		}
	}
	return -1
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// optsOf describes the field options of a value that change its wire type.
func optsOf(v sv) string {
	switch o := v.(type) {
	case svStruct:
		return fmt.Sprintf("fixed64=%v fixed32=%v", o.f["BinFixed64"], o.f["BinFixed32"])
	case svOutStruct:
		return o.key
	}
	return fmt.Sprint(v)
}

func (w *wrapRun) eval(root *ssa.Function, args []sv, other *shp) *wrapHalf {
	h := &wrapHalf{}
	p := w.p
	e := &shapeEval{p: p, other: other, units: w.units, flags: map[string]sv{"IsAminoMarshaler": svBool(false), "IsAminoUnmarshaler": svBool(false)}}
	d := w.disp
	iv, ii, ib, io := valueParam(d), paramOf(d, func(t types.Type) bool { return isTypeInfo(t, p) }), paramOf(d, isBool), paramOf(d, func(t types.Type) bool { return isNamed(t, p.Main.Pkg, "FieldOptions") })
	in := bytesParam(d)
	e.stop = func(fn *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool {
		if fn != d {
			return false
		}
		a := arrival{bare: args[ib], st: st, pos: pos}
		if t, ok := args[ii].(svInfo); ok && t.path == "" {
			a.info = t.s
		}
		if rv, ok := args[iv].(svRV); ok {
			a.value = rv.s
		}
		if io >= 0 {
			a.fixed = optsOf(args[io])
		}
		if in >= 0 {
			a.input = args[in]
		}
		for _, ev := range st.events {
			switch ev.op {
			case "key":
				a.keys = append(a.keys, ev.num)
			case "raw":
				a.keys = nil
			case "read":
				a.reads = append(a.reads, ev.what)
			}
		}
		h.arrive = append(h.arrive, a)
		return true
	}
	e.run(root, args, nil, &shapeState{mem: map[string]sv{}, facts: map[string]interval{}}, func(res []sv, st *shapeState) { h.ends++ })
	h.fail = e.fail
	w.paths += len(h.arrive) + h.ends
	return h
}

// form is how a value of some shape is written at the top.
type form struct {
	wrapped bool
	key     int64
	bare    sv
	fixed   string
}

func (f form) String() string {
	if f.wrapped {
		return fmt.Sprintf("field %d with wire type %d, value coded with bare=%v", f.key>>3, f.key&7, f.bare)
	}
	return fmt.Sprintf("no field key, value coded with bare=%v", f.bare)
}

// args prepares the arguments of a function.
func (w *wrapRun) args(f *ssa.Function, set func(i int, t types.Type) sv) []sv {
	e := &shapeEval{p: w.p}
	var r []sv
	for i, pa := range f.Params {
		v := set(i, pa.Type())
		if v == nil {
			v = e.unknown(pa.Type(), pa.Name())
		}
		r = append(r, v)
	}
	return r
}

func (w *wrapRun) top(root *ssa.Function, s *shp) *wrapHalf {
	return w.eval(root, w.args(root, func(i int, t types.Type) sv {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return svDyn{s}
		}
		return nil
	}), nil)
}

// contents evaluates the coding of an interface that holds a value of shape s.
func (w *wrapRun) contents(s *shp, depth int, bare bool, fopts sv) *wrapHalf {
	iface := &shp{kind: reflect.Interface}
	return w.eval(w.disp, w.args(w.disp, func(i int, t types.Type) sv {
		switch {
		case isReflectValue(t):
			return svRV{s: iface, dyn: ptrTo(s, depth), id: "iface", addr: true}
		case isTypeInfo(t, w.p):
			return svInfo{s: iface}
		case isBool(t):
			return svBool(bare)
		case isNamed(t, w.p.Main.Pkg, "FieldOptions"):
			return fopts
		}
		return nil
	}), s)
}

// supported: the coder of values gets somewhere with values of shape s.
func (w *wrapRun) supported(s *shp) bool {
	ok := false
	e := &shapeEval{p: w.p, other: s, units: w.units, flags: map[string]sv{"IsAminoMarshaler": svBool(false), "IsAminoUnmarshaler": svBool(false)}}
	e.stop = func(fn *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool {
		if valueParam(fn) < 0 || fn == w.disp {
			return false
		}
		for i := range fn.Params {
			if isTypeInfo(fn.Params[i].Type(), w.p) {
				ok = true // a coder of its own
				return true
			}
		}
		return false
	}
	args := w.args(w.disp, func(i int, t types.Type) sv {
		switch {
		case isReflectValue(t):
			return svRV{s: s, id: "value", addr: true}
		case isTypeInfo(t, w.p):
			return svInfo{s: s}
		}
		return nil
	})
	e.run(w.disp, args, nil, &shapeState{mem: map[string]sv{}, facts: map[string]interval{}}, func(res []sv, st *shapeState) {
		if n := len(res); n > 0 {
			if t, isTerm := res[n-1].(svTerm); !isTerm || !strings.HasPrefix(t.key, "error#") {
				ok = true
			}
		}
	})
	return ok || e.fail != ""
}

// written is the one form in which all paths write the value.
func (h *wrapHalf) written() (forms []form) {
	for _, a := range h.arrive {
		f := form{bare: a.bare, fixed: a.fixed}
		if n := len(a.keys); n > 0 {
			f.wrapped, f.key = true, a.keys[n-1]
		}
		dup := false
		for _, g := range forms {
			dup = dup || g == f
		}
		if !dup {
			forms = append(forms, f)
		}
	}
	sort.Slice(forms, func(i, j int) bool { return forms[i].String() < forms[j].String() })
	return forms
}

// keyRead finds the field key that a path has read and what it has found out
// about it.
func (a *arrival) keyRead() (read bool, num, typ int64, numKnown, typKnown bool) {
	for _, rd := range a.reads {
		if !strings.HasPrefix(rd, "DecodeUvarint ") {
			continue
		}
		read = true
		id := strings.TrimPrefix(rd, "DecodeUvarint ")
		val := func(key string) (int64, bool) {
			iv, ok := a.st.facts[key]
			return iv.lo, ok && iv.hasHi && iv.lo == iv.hi
		}
		k := fmt.Sprint(svTerm{key: id})
		if n, ok := val(id); ok {
			num, typ, numKnown, typKnown = n>>3, n&7, true, true
			continue
		}
		num, numKnown = val("(" + k + " >> 3)")
		typ, typKnown = val("(" + k + " & 7)")
	}
	return
}

// empty: the path knows that nothing is left of some input.
func (a *arrival) empty() bool {
	for _, ev := range a.st.events {
		if ev.op == "len" {
			return true
		}
	}
	return false
}

// zeroInput: the value is decoded from one zero byte made up for it.
func (a *arrival) zeroInput() bool {
	s, ok := a.input.(svSlice)
	if !ok || s.cell == nil {
		return false
	}
	n, ok := s.n.(svInt)
	if !ok || n != 1 {
		return false
	}
	b, ok := a.st.mem[fmt.Sprintf("%s.%d", s.cell.path, s.from)].(svInt)
	return ok && b == 0
}

func init() {
	register(&Check{ID: "C25", Level: "proof", Archs: intArchs,
		Rule: "MarshalBinaryBare, UnmarshalBinaryBare and the coders of interface contents are evaluated abstractly over every shape of type (kind, element kinds, pointers), everything but the shape being unknown, up to the coding of the value itself; for each shape all paths of the encoder write the value in one form (field key or none, wire type, length-prefixing), and every path of the decoder that gets to the value has read exactly that field key, checked both its parts, and decodes the value in the same form; without a key only where nothing is left to read; values read through an interface likewise",
		Expl: "every combination of a type shape, pointer depth and entry point, and every path from the entry point to the coding of the value",
		Trust: []string{
			"a type description found for a type describes that type without its pointers (C05)",
			"the coders of values read what they write for the same length-prefixing (C10, C14)",
			"pointers to interfaces are not supported (codec.go, MARKER)",
		},
		Run: runWrapper,
	})
}

func runWrapper(p *Program, r *Result) {
	enc, dec := p.lookup(p.Main, "Codec.MarshalBinaryBare"), p.lookup(p.Main, "Codec.UnmarshalBinaryBare")
	if enc == nil || dec == nil {
		r.undecided("MarshalBinaryBare or UnmarshalBinaryBare was not found")
		return
	}
	units := map[*ssa.Function]bool{}
	E := &wrapRun{p: p, units: units, disp: dispatcher(p, recursive(p, reachable(p, enc)))}
	D := &wrapRun{p: p, units: units, disp: dispatcher(p, recursive(p, reachable(p, dec)))}
	for _, w := range []*wrapRun{E, D} {
		if w.disp == nil || valueParam(w.disp) < 0 || paramOf(w.disp, isBool) < 0 || paramOf(w.disp, func(t types.Type) bool { return isTypeInfo(t, p) }) < 0 {
			r.undecided("the function that codes a value of any type was not found")
			return
		}
	}
	if bytesParam(D.disp) < 0 {
		r.undecided("the function that decodes a value of any type was not found")
		return
	}
	if isTypeInfo(E.disp.Params[0].Type(), p) || E.disp == D.disp {
		r.undecided("encoder and decoder are not told apart")
		return
	}
	compare := func(s *shp, forms []form, h *wrapHalf, what string, fn *ssa.Function) {
		name := shortName(fn)
		if h.fail != "" {
			r.undecided("%s, %s: %s", what, s, h.fail)
			return
		}
		where := p.pos(fn.Pos())
		if len(forms) == 0 {
			return // not written at all
		}
		want := forms[0]
		without, with := 0, 0
		for i := range h.arrive {
			a := &h.arrive[i]
			at := p.pos(a.pos)
			path := strings.Join(a.st.path, " > ")
			read, num, typ, nk, tk := a.keyRead()
			r.ob("value", at, name, what+": the value decoded is one of the type", a.info != nil && a.info.eq(s) && a.value.deref().eq(s), fmt.Sprintf("%s is decoded as %s into %s", s, a.info, a.value), path)
			r.ob("bare", at, name, what+": the value is decoded with the length-prefixing it is encoded with", a.bare == want.bare, fmt.Sprintf("%s: written as %s; decoded with bare=%v", s, want, a.bare), path)
			r.ob("options", at, name, what+": the value is decoded with the options it is encoded with", a.fixed == want.fixed, fmt.Sprintf("%s: written with %s, decoded with %s", s, want.fixed, a.fixed), path)
			switch {
			case read:
				with++
				r.ob("key", at, name, what+": a field key is read only for values written with one", want.wrapped, fmt.Sprintf("%s: written as %s; a field key is read", s, want), path)
				if want.wrapped {
					r.ob("number", at, name, what+": the field number read is the one written", nk && num == want.key>>3, fmt.Sprintf("%s: written as %s; the number read is %s", s, want, knownOr(num, nk)), path)
					r.ob("type", at, name, what+": the wire type read is the one written", tk && typ == want.key&7, fmt.Sprintf("%s: written as %s; the wire type read is %s", s, want, knownOr(typ, tk)), path)
				}
			case want.wrapped:
				without++
				r.ob("key", at, name, what+": the field key of values written with one is read, unless nothing is left", a.empty() && a.zeroInput(), fmt.Sprintf("%s: written as %s; decoded without reading a key", s, want), path)
			default:
				with++
			}
		}
		r.ob("decoded", where, name, what+": values of the shape are decoded", with > 0, fmt.Sprintf("%s: no path of the decoder gets to the value", s), "")
		if want.wrapped {
			r.ob("empty", where, name, what+": an empty value, which is not written at all, is decoded", without > 0, fmt.Sprintf("%s: no path of the decoder gets to the value without a field key", s), "")
		}
	}
	fopts := func(bare bool, w *wrapRun) sv {
		io := paramOf(w.disp, func(t types.Type) bool { return isNamed(t, p.Main.Pkg, "FieldOptions") })
		if io < 0 {
			return nil
		}
		t := w.disp.Params[io].Type()
		if bare {
			// as the entry points pass them
			return (&shapeEval{p: p}).zero(t)
		}
		return (&shapeEval{p: p}).unknown(t, "the options of the field")
	}
	var shapes []*shp
	for _, s := range allShapes() {
		if E.supported(s) {
			shapes = append(shapes, s)
		}
	}
	coded := 0
	top := map[*shp][]form{}
	for _, s := range shapes {
		for d := 0; d <= 2; d++ {
			h := E.top(enc, ptrTo(s, d))
			if h.fail != "" {
				r.undecided("MarshalBinaryBare, %s: %s", s, h.fail)
				return
			}
			forms := h.written()
			if d == 0 {
				top[s] = forms
				for _, f := range forms {
					if s.kind == reflect.Interface {
						zero := optsOf(fopts(true, E))
						r.ob("options", p.pos(enc.Pos()), shortName(enc), "MarshalBinaryBare: interfaces are written without options", f.fixed == zero, f.fixed, "")
					}
				}
				if len(forms) > 0 {
					coded++
				}
			}
			for _, a := range h.arrive {
				r.ob("value", p.pos(a.pos), shortName(enc), "MarshalBinaryBare: the value encoded is described by its own type", a.info != nil && a.info.eq(s) && a.value.eq(s), fmt.Sprintf("%s is encoded as %s with the description of %s", s, a.value, a.info), strings.Join(a.st.path, " > "))
			}
			r.ob("one", p.pos(enc.Pos()), shortName(enc), "MarshalBinaryBare: values of one shape are written in one form", len(forms) <= 1 && (len(forms) == 0) == (len(top[s]) == 0) && (len(forms) == 0 || forms[0] == top[s][0]), fmt.Sprintf("%s at pointer depth %d: %v, at depth 0: %v", s, d, forms, top[s]), "")
			if len(forms) == 1 && forms[0].wrapped {
				r.ob("number", p.pos(enc.Pos()), shortName(enc), "MarshalBinaryBare: the field number is 1", forms[0].key>>3 == 1 && forms[0].key < 128, fmt.Sprintf("%s: %v", s, forms[0]), "")
			}
		}
		for d := 0; d <= 2; d++ {
			if d > 0 && s.kind == reflect.Interface {
				continue
			}
			compare(s, top[s], D.top(dec, ptrTo(s, d+1)), fmt.Sprintf("UnmarshalBinaryBare at pointer depth %d", d), dec)
		}
	}
	for _, bare := range []bool{true, false} {
		for _, s := range shapes {
			if s.kind == reflect.Interface {
				continue // not in an interface
			}
			for d := 0; d <= 1; d++ {
				h := E.contents(s, d, bare, fopts(bare, E))
				if h.fail != "" {
					r.undecided("interface contents, %s: %s", s, h.fail)
					return
				}
				forms := h.written()
				want := top[s]
				what := fmt.Sprintf("interface contents with bare=%v", bare)
				for _, a := range h.arrive {
					r.ob("value", p.pos(a.pos), shortName(E.disp), what+": the value encoded is described by its own type", a.info != nil && a.info.eq(s) && a.value.eq(s), fmt.Sprintf("%s is encoded as %s with the description of %s", s, a.value, a.info), strings.Join(a.st.path, " > "))
				}
				if bare {
					r.ob("one", p.pos(E.disp.Pos()), shortName(E.disp), what+": written as MarshalBinaryBare writes the value itself", len(want) == 0 || len(forms) == 1 && forms[0] == want[0], fmt.Sprintf("%s: %v, by itself: %v", s, forms, want), "")
				} else {
					r.ob("one", p.pos(E.disp.Pos()), shortName(E.disp), what+": values of one shape are written in one form", len(forms) <= 1, fmt.Sprintf("%s: %v", s, forms), "")
					want = forms
				}
				if d == 0 && len(want) > 0 {
					compare(s, want, D.contents(s, 0, bare, fopts(bare, D)), what, D.disp)
				}
			}
		}
	}
	for f := range units {
		r.Units[shortName(f)] = true
	}
	r.Counts["type shapes"] = len(shapes)
	r.Counts["paths evaluated"] = E.paths + D.paths
	r.floor("shapes of types that are encoded", coded, 20)
}

func knownOr(n int64, ok bool) string {
	if ok {
		return fmt.Sprint(n)
	}
	return "not checked"
}
