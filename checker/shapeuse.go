package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// useRun evaluates one direction of one format over every shape of type: the
// coder of values is evaluated in every state in which it is called.
type useRun struct {
	p      *Program
	r      *Result
	name   string
	entry  *ssa.Function
	disp   *ssa.Function
	decode bool
	json   bool
	shapes []*shp
	seen   map[string]bool
	queue  []useState
	uses   int
	calls  int
	units  map[*ssa.Function]bool
	unpack map[string]map[string]sv
	ifaces map[string]bool // fields that may be set in descriptions of interfaces
}

// useState is a state in which the coder of values is called.
type useState struct {
	rv   svRV
	info *shp
	from string
	path string
}

func (s useState) key() string {
	return fmt.Sprintf("%s addr=%v described as %s", s.rv.s, s.rv.addr, s.info)
}

func (u *useRun) eval(fn *ssa.Function, args []sv, facts map[string]interval, what string, dyn *shp) {
	d := u.disp
	iv, ii := valueParam(d), paramOf(d, func(t types.Type) bool { return isTypeInfo(t, u.p) })
	e := &shapeEval{p: u.p, units: u.units, widen: true, dyn: dyn, other: dyn.deref()}
	e.fieldFlags, e.infoFlags = u.fieldFlag, u.infoFlag
	e.held = func(st *shapeState, id string, s *shp) {
		// nil pointers in interfaces are not allowed
		st.facts["nil("+id+")"] = interval{0, 0, true, nil}
		st.facts["nil("+id+".e)"] = interval{0, 0, true, nil}
	}
	misused := 0
	e.misused = func(st *shapeState, use string, pos token.Pos) {
		misused++
		u.r.ob("use", u.p.pos(pos), lastOf(st.path, shortName(fn)), u.name+": values are used as their kind allows", false, what+": "+use, strings.Join(st.path, " > "))
	}
	e.panics = func(st *shapeState, f *ssa.Function, pos token.Pos) {
		if !pos.IsValid() {
			pos = f.Pos()
		}
		u.r.ob("panic", u.p.pos(pos), shortName(f), u.name+": values of supported types are not answered with a panic", false, what+" ends in a panic", strings.Join(st.path, " > "))
	}
	e.opaque = func(g *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool {
		if g != d {
			return false
		}
		u.calls++
		s := useState{from: what, path: strings.Join(st.path, " > ")}
		s.rv, _ = args[iv].(svRV)
		info, _ := args[ii].(svInfo)
		s.info = info.s
		ok := s.rv.s != nil && s.info != nil && info.path == "" && (s.rv.s.kind == reflect.Invalid || s.rv.s.deref().eq(s.info))
		u.r.ob("described", u.p.pos(pos), lastOf(st.path, shortName(fn)), u.name+": a value is coded by the description of its own type", ok, fmt.Sprintf("%s: a value of type %s is coded by the description of %s", what, s.rv.s, s.info), strings.Join(st.path, " > "))
		key := s.key()
		if ok && s.rv.s.kind == reflect.Invalid {
			key += s.path // one for every way it gets there
		}
		if ok && !u.seen[key] {
			u.seen[key] = true
			u.queue = append(u.queue, s)
		}
		return true
	}
	st := &shapeState{mem: map[string]sv{}, facts: facts}
	n := 0
	e.run(fn, args, nil, st, func(res []sv, st *shapeState) { n++ })
	u.uses += e.uses
	u.r.Obligations += e.uses
	u.r.Discharged += e.uses - misused
	if e.fail != "" {
		u.r.undecided("%s, %s: %s", u.name, what, e.fail)
	}
}

// fieldFlag is what the description of a struct says of its fields of type s,
// where that follows from the type.
func (u *useRun) fieldFlag(s *shp, name string) sv {
	if s == nil {
		return nil
	}
	key := s.String()
	if u.unpack[key] == nil {
		said := map[string]sv{}
		u.unpack[key] = said
		for _, f := range u.p.Funcs {
			// the functions that describe structs
			if f.Pkg != u.p.Main || f.Blocks == nil || f.Signature.Results().Len() == 0 || !isNamed(f.Signature.Results().At(0).Type(), u.p.Main.Pkg, "StructInfo") {
				continue
			}
			e := &shapeEval{p: u.p, units: u.units, widen: true}
			e.opaque = func(g *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool {
				// what is read off the tags of the field does not follow from its type
				for i := range g.Params {
					if types.TypeString(g.Params[i].Type(), nil) == "reflect.Type" {
						return false
					}
				}
				return true
			}
			e.appended = func(t types.Type, v sv) {
				w, ok := v.(svStruct)
				if !ok || !isNamed(t, u.p.Main.Pkg, "FieldInfo") {
					return
				}
				for f, x := range w.f {
					if _, isBool := x.(svBool); !isBool {
						x = svTerm{}
					}
					if o, ok := said[f]; ok && o != x {
						x = svTerm{}
					}
					said[f] = x
				}
			}
			args := u.args(f, func(t types.Type) sv {
				if types.TypeString(t, nil) == "reflect.Type" {
					return svRT{&shp{kind: reflect.Struct, elem: s}}
				}
				return nil
			})
			e.run(f, args, nil, &shapeState{mem: map[string]sv{}, facts: map[string]interval{}}, func([]sv, *shapeState) {})
			if e.fail != "" {
				u.r.undecided("%s, %s: %s", shortName(f), s, e.fail)
			}
		}
	}
	if b, ok := u.unpack[key][name].(svBool); ok {
		return b
	}
	return nil
}

// infoFlag is what the description of an interface says of it.
func (u *useRun) infoFlag(s *shp, name string) sv {
	if s == nil || s.kind != reflect.Interface {
		return nil
	}
	if u.ifaces == nil {
		u.ifaces = map[string]bool{}
		for _, f := range u.p.Funcs {
			// the functions that describe types
			if f.Pkg != u.p.Main || f.Blocks == nil || f.Signature.Results().Len() == 0 || !isTypeInfo(f.Signature.Results().At(0).Type(), u.p) ||
				paramOf(f, func(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Type" }) < 0 {
				continue
			}
			e := &shapeEval{p: u.p, units: u.units, widen: true}
			e.stored = func(fa *ssa.FieldAddr, v sv) {
				if v != svBool(false) {
					u.ifaces[fieldName(derefType(fa.X.Type()), fa.Field)] = true
				}
			}
			args := u.args(f, func(t types.Type) sv {
				if types.TypeString(t, nil) == "reflect.Type" {
					return svRT{s}
				}
				return nil
			})
			e.run(f, args, nil, &shapeState{mem: map[string]sv{}, facts: map[string]interval{}}, func([]sv, *shapeState) {})
			if e.fail != "" {
				u.r.undecided("%s, %s: %s", shortName(f), s, e.fail)
			}
		}
	}
	if !u.ifaces[name] {
		return svBool(false)
	}
	return nil
}

func lastOf(path []string, or string) string {
	if len(path) == 0 {
		return or
	}
	return path[len(path)-1]
}

func (u *useRun) args(f *ssa.Function, set func(t types.Type) sv) []sv {
	return (&wrapRun{p: u.p}).args(f, func(i int, t types.Type) sv { return set(t) })
}

// visit evaluates the coder of values in state s.
func (u *useRun) visit(s useState) {
	dyns := []*shp{nil}
	if s.rv.s.deref().kind == reflect.Interface {
		dyns = nil
		for _, c := range u.shapes {
			if c.kind != reflect.Interface && c.kind != reflect.Ptr {
				dyns = append(dyns, c, ptrTo(c, 1))
			}
		}
	}
	for _, dyn := range dyns {
		what := s.rv.s.String()
		if s.rv.s.kind == reflect.Invalid {
			what = "no value at all, for " + s.from + " by way of " + s.path + ","
		}
		if dyn != nil {
			what += " holding " + dyn.String()
		}
		rv := s.rv
		rv.id, rv.dyn = "value", dyn
		args := u.args(u.disp, func(t types.Type) sv {
			switch {
			case isReflectValue(t):
				return rv
			case isTypeInfo(t, u.p):
				return svInfo{s: s.info}
			}
			return nil
		})
		u.eval(u.disp, args, map[string]interval{}, what, dyn)
	}
}

// supported lists the shapes that are built from supported kinds.
func (u *useRun) supported() {
	kind := func(s *shp) bool {
		ok := false
		e := &shapeEval{p: u.p, units: u.units, widen: true, flags: map[string]sv{"IsAminoMarshaler": svBool(false), "IsAminoUnmarshaler": svBool(false)}}
		e.stop = func(fn *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool {
			if fn == u.disp {
				return true
			}
			if valueParam(fn) < 0 {
				return false
			}
			for i := range fn.Params {
				if isTypeInfo(fn.Params[i].Type(), u.p) {
					ok = true
					return true
				}
			}
			return false
		}
		args := u.args(u.disp, func(t types.Type) sv {
			switch {
			case isReflectValue(t):
				return svRV{s: s, id: "value", addr: true}
			case isTypeInfo(t, u.p):
				return svInfo{s: s}
			}
			return nil
		})
		// what is answered with a panic is not supported
		returns := 0
		e.run(u.disp, args, nil, &shapeState{mem: map[string]sv{}, facts: map[string]interval{}}, func(res []sv, st *shapeState) {
			if n := len(res); n > 0 {
				if t, isTerm := res[n-1].(svTerm); !isTerm || !strings.HasPrefix(t.key, "error#") {
					returns++
				}
			}
		})
		panics := 0
		e2 := *e
		e2.panics = func(*shapeState, *ssa.Function, token.Pos) { panics++ }
		e2.run(u.disp, args, nil, &shapeState{mem: map[string]sv{}, facts: map[string]interval{}}, func([]sv, *shapeState) {})
		return ok || returns > 0 && panics == 0
	}
	var leaf []*shp
	for k := reflect.Bool; k < reflect.UnsafePointer; k++ {
		s := &shp{kind: k}
		switch k {
		case reflect.Array, reflect.Slice, reflect.Ptr, reflect.Map:
			continue
		case reflect.Struct:
			s.elem = &shp{kind: reflect.Int64}
		}
		if kind(s) {
			leaf = append(leaf, s)
		}
	}
	of := func(k reflect.Kind, s *shp) *shp { return &shp{kind: k, elem: s} }
	var next []*shp
	list := []reflect.Kind{reflect.Slice, reflect.Array, reflect.Struct}
	if kind(of(reflect.Map, leaf[0])) {
		list = append(list, reflect.Map)
	}
	for _, l := range leaf {
		next = append(next, l)
		if l.kind != reflect.Interface {
			next = append(next, ptrTo(l, 1), ptrTo(l, 2))
		}
		for _, k := range list {
			next = append(next, of(k, l))
			if k != reflect.Struct {
				next = append(next, ptrTo(of(k, l), 1))
			}
		}
	}
	next = append(next, timeShape, ptrTo(timeShape, 1), of(reflect.Slice, timeShape), of(reflect.Slice, ptrTo(timeShape, 1)))
	u.shapes = append(u.shapes, next...)
	// what is nested twice: structs of everything, and the rest of one type
	// of every way of writing it
	for _, k := range list {
		for _, s := range next {
			in := s
			for in.elem != nil && in != timeShape {
				in = in.elem
			}
			if k == reflect.Struct || in == timeShape || in.kind == reflect.Uint8 || in.kind == reflect.Int64 || in.kind == reflect.String || in.kind == reflect.Interface {
				u.shapes = append(u.shapes, of(k, s))
			}
		}
	}
	u.r.floor("kinds supported by "+u.name, len(leaf), 12)
}

func (u *useRun) run() {
	u.seen, u.unpack = map[string]bool{}, map[string]map[string]sv{}
	u.supported()
	for _, s := range u.shapes {
		for d := 0; d <= 1; d++ {
			if d > 0 && s.deref().kind == reflect.Interface {
				continue
			}
			arg := ptrTo(s, d)
			facts := map[string]interval{}
			if u.decode {
				arg = ptrTo(s, 1+d)
				facts["nil(arg)"] = interval{0, 0, true, nil}
			} else if !u.json {
				// documented: nil pointers cannot be marshalled by themselves
				for id, t := "arg", arg; t.kind == reflect.Ptr; id, t = id+".e", t.elem {
					facts["nil("+id+")"] = interval{0, 0, true, nil}
				}
			}
			if arg.kind == reflect.Interface {
				continue // cannot be passed
			}
			args := u.args(u.entry, func(t types.Type) sv {
				if _, ok := t.Underlying().(*types.Interface); ok {
					return svDyn{arg}
				}
				return nil
			})
			u.eval(u.entry, args, facts, "a "+arg.String()+" passed to "+shortName(u.entry), nil)
		}
	}
	for len(u.queue) > 0 {
		s := u.queue[0]
		u.queue = u.queue[1:]
		u.visit(s)
	}
	u.r.Counts["operations of reflect on values, "+u.name] += u.uses
	u.r.Counts["states of the coder, "+u.name] += len(u.seen)
	u.r.floor("operations of reflect, "+u.name, u.uses, 100)
	u.r.floor("states of the coder, "+u.name, len(u.seen), 100)
}

func init() {
	register(&Check{ID: "C35", Level: "proof", Archs: []string{"amd64"},
		Rule: "The four functions that code a value of any type (binary and JSON, encoding and decoding) are evaluated from the entry points of the codec over an abstract domain of types: every supported kind, pointers to it, and lists, arrays, maps and structs of these to two levels, with every state (type, addressability, description) in which they are called again taken up in turn until no new one comes up. Numbers, contents and flags are unknown; branches on them are taken both ways and loops are widened. use: every operation of reflect.Value and reflect.Type must be one the kind, addressability and element type of its operand support, and what is held in an interface is not taken for anything or handed to its methods (it may hold nothing, and is coded under the name of its type). panic: no path may end in an explicit panic that was decided by the type of the value or by a nil pointer. described: a value is only coded by the description of its own type.",
		Expl: "evaluation of the coder over abstract types, to a fixpoint",
		Trust: []string{
			"a type description found for a type describes that type without its pointers (C05)",
			"types nested deeper than two levels behave as their parts do: a coder sees one type and its elements",
			"nil pointers are neither passed to binary marshalling nor held in interfaces, and there are no pointers to interfaces (codec.go, MARKER)",
			"the methods of user types do not panic",
		},
		Run: func(p *Program, r *Result) {
			var wg sync.WaitGroup
			var runs []*useRun
			for _, h := range []struct {
				entry, name  string
				json, decode bool
			}{
				{"Codec.MarshalBinaryBare", "binary encoding", false, false},
				{"Codec.UnmarshalBinaryBare", "binary decoding", false, true},
				{"Codec.MarshalJSON", "JSON encoding", true, false},
				{"Codec.UnmarshalJSON", "JSON decoding", true, true},
			} {
				f := p.lookup(p.Main, h.entry)
				if f == nil {
					r.undecided("%s was not found", h.entry)
					continue
				}
				u := &useRun{p: p, r: newResult(r.Rule), name: h.name, entry: f, json: h.json, decode: h.decode, units: map[*ssa.Function]bool{}}
				u.disp = dispatcher(p, recursive(p, reachable(p, f)))
				if u.disp == nil || valueParam(u.disp) < 0 || paramOf(u.disp, func(t types.Type) bool { return isTypeInfo(t, p) }) < 0 {
					r.undecided("%s: the function that codes a value of any type was not found", h.name)
					continue
				}
				runs = append(runs, u)
				wg.Add(1)
				go func() {
					defer wg.Done()
					u.run()
				}()
			}
			wg.Wait()
			for _, u := range runs {
				for f := range u.units {
					r.Units[shortName(f)] = true
				}
				r.merge(u.r, "")
			}
		},
	})
}
