package main

import (
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// copyClient checks that what a deep copy is made of comes from memory of its
// own.
type copyClient struct {
	noClient
	flow *aliasFlow
	orig map[*Term]bool // the parameters that are, or are parts of, the original
	ours map[*Term]bool // the other parameters
	n    int
	rets int
	root *ssa.Function
	set  map[*ssa.Function]bool
	// the recursive functions that return values; what they return is checked
	// to be a copy, assuming so of the calls they make
	makers map[string]bool
	made   map[*ssa.Function]bool
}

const plainKinds = 1<<uint(reflect.Bool) | 1<<uint(reflect.Int) | 1<<uint(reflect.Int8) | 1<<uint(reflect.Int16) | 1<<uint(reflect.Int32) | 1<<uint(reflect.Int64) |
	1<<uint(reflect.Uint) | 1<<uint(reflect.Uint8) | 1<<uint(reflect.Uint16) | 1<<uint(reflect.Uint32) | 1<<uint(reflect.Uint64) | 1<<uint(reflect.Uintptr) |
	1<<uint(reflect.Float32) | 1<<uint(reflect.Float64) | 1<<uint(reflect.Complex64) | 1<<uint(reflect.Complex128) | 1<<uint(reflect.String)

func (c *copyClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	c.orig, c.ours = map[*Term]bool{}, map[*Term]bool{}
	for i, p := range f.Params {
		if c.flow.labOf(p)&inMem != 0 {
			c.orig[args[i]] = true
		} else {
			c.ours[args[i]] = true
		}
	}
}

// origin says where the memory of v is: "original", "copy" or "" (not known).
func (c *copyClient) origin(e *Engine, st *State, v *Term) string {
	for i := 0; i < 40; i++ {
		v = e.source(st, v)
		if c.orig[v] {
			return "original"
		}
		if c.ours[v] {
			return "copy"
		}
		switch v.op {
		case "rvalueof", "rinterface", "iface", "conv":
			v = v.args[0]
			continue
		case "ridx", "rfield", "rbytes", "elem", "load", "indexaddr", "field", "fieldaddr", "slice":
			if e.keysOf[v] != nil {
				v = e.keysOf[v]
				continue
			}
			v = v.args[0]
			continue
		case "rmade", "new", "zero", "appended", "alloc", "cell", "make", "zeroarr":
			return "copy"
		case "const", "int", "nil", "true", "false", "str":
			return "copy"
		case "rval":
			if len(v.args) == 2 {
				v = v.args[1]
				continue
			}
		case "pure":
			if strings.HasPrefix(v.aux, "(reflect.Value).") || strings.HasPrefix(v.aux, "(*reflect.MapIter).") {
				v = v.args[0]
				continue
			}
		case "sym":
			if e.keysOf[v] != nil {
				v = e.keysOf[v]
				continue
			}
			if strings.Contains(v.String(), "rcall") {
				return "copy" // a method of the user
			}
			if name, _, ok := strings.Cut(strings.TrimPrefix(v.aux, "call:"), "@"); ok && c.makers[name] {
				return "copy" // by induction: see Return
			}
		case "base":
			v = v.args[0]
			continue
		}
		break
	}
	if strings.Contains(v.String(), "rcall") {
		return "copy"
	}
	return ""
}

// plain: a value of this kind refers to nothing that can be changed.
func (c *copyClient) plain(e *Engine, st *State, T *Term) bool {
	k := e.kindOf(T)
	if n, ok := constOf(k); ok {
		return n.Sign() >= 0 && n.Cmp(big.NewInt(64)) < 0 && plainKinds>>uint(n.Int64())&1 == 1
	}
	if m, ok := st.facts.mask[k]; ok && m != 0 && m&^plainKinds == 0 {
		return true
	}
	// a time is a plain value
	for t, b := range st.facts.lits {
		if b && t.op == "eq" && contains(t, func(x *Term) bool { return x == T }) && contains(t, func(x *Term) bool { return x.op == "global" && isTimeVar(x.aux) }) {
			return true
		}
	}
	return false
}

func isTimeVar(s string) bool { return strings.HasSuffix(s, "timeType") }

func (c *copyClient) holds(e *Engine, fr *frame, st *State, in ssa.Instruction, what string, v *Term) {
	c.n++
	o := c.origin(e, st, v)
	ok := o == "copy"
	if o == "original" && v.op != "slice" {
		ok = c.plain(e, st, e.rtype(v))
	}
	if o == "original" && v.typ != nil && !canRef(v.typ) {
		ok = true
	}
	e.oblige(fr, st, "share", instrPos(in), what+" does not share memory with the original", ok, func() string {
		if o == "" {
			return "it is not known where this comes from: " + clip(v.String(), 120)
		}
		return "this is part of the original: " + clip(v.String(), 120)
	})
}

func (c *copyClient) elems(e *Engine, fr *frame, st *State, in ssa.Instruction, what string, v *Term) {
	c.n++
	o := c.origin(e, st, v)
	ok := o == "copy"
	if o == "original" {
		ok = c.plain(e, st, e.telem(e.rtype(v)))
	}
	e.oblige(fr, st, "share", instrPos(in), what+" do not share memory with the original", ok, func() string {
		return "elements that may refer to memory of the original are copied as they are: " + clip(v.String(), 120)
	})
}

func (c *copyClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	switch name {
	case "(reflect.Value).Set":
		c.holds(e, fr, st, in, "what is stored", args[1])
	case "(reflect.Value).SetMapIndex":
		c.holds(e, fr, st, in, "the value of an entry", args[2])
	case "(reflect.Value).SetBytes":
		c.holds(e, fr, st, in, "what is stored", args[1])
	case "(reflect.Value).SetPointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		e.oblige(fr, st, "share", instrPos(in), "memory is only used with its type", false, func() string { return name })
	case "reflect.Copy":
		c.elems(e, fr, st, in, "copied elements", args[1])
	case "reflect.AppendSlice":
		c.own(e, fr, st, in, args[0])
		c.elems(e, fr, st, in, "appended elements", args[1])
	case "reflect.Append":
		c.own(e, fr, st, in, args[0])
		for _, v := range e.variadic(st, args[1]) {
			c.holds(e, fr, st, in, "an appended element", v)
		}
	}
	g := in.Common().StaticCallee()
	if g == nil || !c.set[g] || in.Common().IsInvoke() {
		return
	}
	for i, p := range g.Params {
		if i < len(args) && types.TypeString(p.Type(), nil) == "reflect.Value" && c.flow.labOf(p)&inMem == 0 {
			c.own(e, fr, st, in, args[i])
		}
	}
}

// own: v, which is going to be written, is not part of the original.
func (c *copyClient) own(e *Engine, fr *frame, st *State, in ssa.Instruction, v *Term) {
	c.n++
	o := c.origin(e, st, v)
	e.oblige(fr, st, "share", instrPos(in), "the copy is made in memory of its own", o == "copy", func() string {
		return "this may be part of the original: " + clip(v.String(), 120)
	})
}

func (c *copyClient) Return(e *Engine, fr *frame, st *State, res []*Term, at ssa.Instruction) {
	if fr.fn != c.root && !c.made[fr.fn] || len(res) == 0 {
		return
	}
	c.rets++
	v := res[0]
	if e.truth(st.facts, e.isNil(v)) == 1 {
		return
	}
	o := c.origin(e, st, v)
	ok := o == "copy"
	if o == "original" && fr.fn != c.root {
		ok = c.plain(e, st, e.rtype(v))
	} else if o == "original" {
		ok = c.plain(e, st, e.rtype(e.tp.mk("rvalueof", "", nil, v)))
		if v.op == "iface" && e.ifaceTypes[v] != nil && !canRef(e.ifaceTypes[v]) {
			ok = true
		}
		if !ok {
			// o itself, after a look at its type
			for p := range c.orig {
				if c.plain(e, st, e.rtype(e.tp.mk("rvalueof", "", nil, p))) {
					ok = true
				}
			}
		}
	}
	e.oblige(fr, st, "share", instrPos(at), "the result does not share memory with the original", ok, func() string {
		return "the result is " + clip(v.String(), 120)
	})
}

// Store: Go values of the original are not kept in the copy.
func (c *copyClient) Store(e *Engine, fr *frame, st *State, in *ssa.Store, addr *Term) {
	if c.flow.labOf(in.Val)&inMem == 0 {
		return
	}
	switch x := in.Addr.(type) {
	case *ssa.Alloc:
		return
	case *ssa.FreeVar:
		return
	case *ssa.IndexAddr:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return // arguments of a call
		}
	}
	if types.TypeString(in.Val.Type(), nil) == "reflect.Value" {
		return // lists of values to work on
	}
	c.holds(e, fr, st, in, "what is stored", e.val(st, in.Val))
}

func (c *copyClient) MapUpdate(e *Engine, fr *frame, st *State, in *ssa.MapUpdate) {
	e.oblige(fr, st, "share", instrPos(in), "what is stored does not share memory with the original", c.flow.labOf(in.Value)&inMem == 0, func() string {
		return in.String()
	})
}

func (c *copyClient) Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term) {
	cc := at.Common()
	et := elemType(cc.Args[0].Type())
	if types.TypeString(et, nil) == "reflect.Value" {
		return
	}
	e.oblige(fr, st, "share", instrPos(at), "lists of the copy are made in memory of their own", c.flow.labOf(cc.Args[0])&inMem == 0, func() string { return at.String() })
	if canRef(et) {
		e.oblige(fr, st, "share", instrPos(at), "appended elements do not share memory with the original", c.flow.labOf(cc.Args[1])&(inMem|holds) == 0, func() string { return at.String() })
	}
}

func (c *copyClient) Copy(e *Engine, fr *frame, st *State, in ssa.CallInstruction, args []*Term) {
	cc := in.Common()
	if canRef(elemType(cc.Args[0].Type())) {
		e.oblige(fr, st, "share", instrPos(in), "copied elements do not share memory with the original", c.flow.labOf(cc.Args[1])&(inMem|holds) == 0, func() string { return in.String() })
	}
}

func init() {
	register(&Check{ID: "C19", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the functions that deep copying reaches, with arbitrary originals: everything that is stored in the copy (reflect setters, copies, appends, map entries, Go stores) comes from memory made for it, from the user's own copy method, or is a part of the original whose kind, on that path, refers to nothing that can be changed (numbers, booleans, strings, times); every copy is made in memory that is not part of the original; the result of the entry point is such a copy",
		Expl: "every place where the functions reachable from DeepCopy store, copy, append, or hand on memory to be filled; every return of DeepCopy",
		Trust: []string{
			"results of the user's DeepCopy and MarshalAmino methods, and what UnmarshalAmino makes of them, are the user's responsibility; map keys may be shared",
			"a time's location is never changed",
		},
		Run: func(p *Program, r *Result) {
			root := p.lookup(p.Main, "DeepCopy")
			if root == nil {
				r.undecided("DeepCopy was not found")
				return
			}
			flow := newAliasFlow(p, r, "", "the original", []*ssa.Function{root})
			flow.ignoreSet = true
			for _, pa := range root.Params {
				flow.add(pa, inMem)
			}
			flow.spread()
			c := &copyClient{flow: flow, root: root, set: flow.set}
			e := newEngine(p)
			e.client = c
			e.lineage = true
			scc := recursive(p, reachable(p, root))
			e.inferContracts(scc)
			done := false
			for _, f := range scc {
				done = done || f == root
			}
			if !done {
				scc = append(scc, root)
			}
			c.makers, c.made = map[string]bool{}, map[*ssa.Function]bool{}
			for _, f := range scc {
				if rs := f.Signature.Results(); rs.Len() == 1 && canRef(rs.At(0).Type()) {
					c.makers[short(f.String())], c.made[f] = true, true
				}
			}
			for _, f := range scc {
				e.loopCache = nil
				e.runRoot(f)
			}
			r.take(e, "share")
			r.floor("places where the copy is filled", c.n, 15)
			r.floor("returns of DeepCopy", c.rets, 1)
		},
	})
}
