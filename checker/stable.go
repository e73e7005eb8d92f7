package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// freshFuncs lists repo functions whose every returned pointer (result 0) is
// a new allocation that nothing else has seen.
func freshFuncs(p *Program) map[*ssa.Function]bool {
	fresh := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		fresh[fn] = true
	}
	var isFresh func(v ssa.Value, seen map[ssa.Value]bool) bool
	isFresh = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !isFresh(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return v.Value == nil
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil {
				return fresh[f]
			}
		case *ssa.UnOp:
			// load of a local variable that only ever holds fresh pointers
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != a || !isFresh(r.Val, seen) {
							return false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
					default:
						return false
					}
				}
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if !fresh[fn] {
				continue
			}
			ok := fn.Signature.Results().Len() > 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if r, isR := in.(*ssa.Return); isR && ok {
						if len(r.Results) == 0 || !isFresh(r.Results[0], map[ssa.Value]bool{}) {
							ok = false
						}
					}
				}
			}
			if !ok {
				fresh[fn] = false
				changed = true
			}
		}
	}
	return fresh
}

// isFreshPtr reports whether v points to an object allocated by the running
// function (or by a callee that always returns new objects).
func isFreshPtr(v ssa.Value, fresh map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isFreshPtr(v.X, fresh, seen)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return isFreshPtr(v.X, fresh, seen)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !isFreshPtr(e, fresh, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return fresh[f]
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, isS := r.(*ssa.Store); isS && st.Addr == a {
					if !isFreshPtr(st.Val, fresh, seen) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

// stableFields lists the struct fields (of named repo types) that are only
// ever written while the object is being constructed: every store goes
// through a pointer to a new allocation.
func stableFields(p *Program) map[*types.Var]bool {
	fresh := freshFuncs(p)
	all := map[*types.Var]bool{}
	bad := map[*types.Var]bool{}
	var markAll func(t types.Type)
	markAll = func(t types.Type) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				bad[s.Field(i)] = true
				markAll(s.Field(i).Type())
			}
		}
	}
	for _, sp := range p.RepoPkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if s, ok := t.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						all[s.Field(i)] = true
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if isFreshPtr(in.Addr, fresh, map[ssa.Value]bool{}) {
						continue
					}
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						s := structOf(fa.X.Type())
						bad[s.Field(fa.Field)] = true
					}
					markAll(in.Val.Type())
				case *ssa.FieldAddr:
					// address escaping into a call or a store
					s := structOf(in.X.Type())
					f := s.Field(in.Field)
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Store:
							if r.Val == in {
								bad[f] = true
							}
						case *ssa.Slice:
							// arrays sliced for reading
						default:
							if !isFreshPtr(in.X, fresh, map[ssa.Value]bool{}) {
								bad[f] = true
							}
						}
					}
				}
			}
		}
	}
	for f := range bad {
		delete(all, f)
	}
	return all
}

var stableGlobalMemo = map[*Program]map[*ssa.Global]bool{}

// stableGlobals lists package variables only written by initialisers.
func stableGlobals(p *Program) map[*ssa.Global]bool {
	if m := stableGlobalMemo[p]; m != nil {
		return m
	}
	m := map[*ssa.Global]bool{}
	for _, sp := range p.RepoPkgs {
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m[g] = true
			}
		}
	}
	for _, fn := range p.Funcs {
		isInit := fn.Name() == "init" || (len(fn.Name()) > 5 && fn.Name()[:5] == "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && !isInit {
						m[g] = false
					}
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Call, *ssa.MakeClosure, *ssa.Slice:
					if isInit {
						continue
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							m[g] = false
						}
					}
				}
			}
		}
	}
	stableGlobalMemo[p] = m
	return m
}
