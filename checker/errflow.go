package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errflow follows every error through one function at a time. Each call that
// reports an error is taken to succeed and to fail; after a failure every
// normal return must carry an error known to be non-nil. Callees are assumed
// to obey the same rule, which their own analysis establishes.

type ef struct {
	p       *Program
	viol    map[string]*efViol
	srcs    map[token.Pos]string // error sources seen
	rets    map[*ssa.Function]int
	live    *lflow
	budget  int
	notes   map[string]bool
	depth   int
	sums    map[*ssa.Function][]byte
	mention map[*ssa.Function]map[ssa.Value]int
}

type efViol struct {
	fn   *ssa.Function
	src  token.Pos
	what string
	ret  token.Pos
}

// abstract values: 0 unknown; 'n' nil; 'N' non-nil; 't','f'; '0' zero, '+' positive, '-' negative
type efs struct {
	env    map[ssa.Value]byte
	cell   map[ssa.Value]byte   // by allocation
	tup    map[ssa.Value][]byte // tuples
	outs   map[ssa.Value]byte   // reflect.Call results: verdict of the user's method
	ln     map[ssa.Value]byte   // sign of the length of a slice
	pend   ssa.Instruction      // first failure not yet reported
	defers []*ssa.Defer
	bind   map[ssa.Value]ssa.Value // free variable -> allocation
}

func (s *efs) clone() *efs {
	n := &efs{env: map[ssa.Value]byte{}, cell: map[ssa.Value]byte{}, tup: map[ssa.Value][]byte{}, outs: map[ssa.Value]byte{}, ln: map[ssa.Value]byte{}, pend: s.pend, bind: s.bind}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cell {
		n.cell[k] = v
	}
	for k, v := range s.tup {
		n.tup[k] = v
	}
	for k, v := range s.outs {
		n.outs[k] = v
	}
	for k, v := range s.ln {
		n.ln[k] = v
	}
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

func (e *ef) key(s *efs) string {
	var p []string
	for k, v := range s.env {
		if v != 0 {
			p = append(p, fmt.Sprintf("e%d%c", e.live.vid(k), v))
		}
	}
	for k, v := range s.cell {
		if v != 0 {
			p = append(p, fmt.Sprintf("c%d%c", e.live.vid(k), v))
		}
	}
	for k, v := range s.tup {
		p = append(p, fmt.Sprintf("t%d%q", e.live.vid(k), v))
	}
	for k, v := range s.outs {
		p = append(p, fmt.Sprintf("o%d%c", e.live.vid(k), v))
	}
	for k, v := range s.ln {
		p = append(p, fmt.Sprintf("l%d%c", e.live.vid(k), v))
	}
	sort.Strings(p)
	k := strings.Join(p, ";")
	if s.pend != nil {
		k += fmt.Sprintf("|p%d", s.pend.Pos())
	}
	for _, d := range s.defers {
		k += fmt.Sprintf("|d%d", d.Pos())
	}
	return k
}

func newErrflow(p *Program) *ef {
	return &ef{p: p, viol: map[string]*efViol{}, srcs: map[token.Pos]string{}, rets: map[*ssa.Function]int{},
		live: &lflow{p: p, valID: map[ssa.Value]int{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}, notes: map[string]bool{}, sums: map[*ssa.Function][]byte{}}
}

func efTracked(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger) != 0
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

func (e *ef) val(s *efs, v ssa.Value) byte {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return 0
			}
			return 'n'
		}
		switch c.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(c.Value) {
				return 't'
			}
			return 'f'
		case constant.Int:
			switch constant.Sign(c.Value) {
			case 0:
				return '0'
			case 1:
				return '+'
			default:
				return '-'
			}
		}
		return 0
	}
	if g, ok := v.(*ssa.Global); ok {
		_ = g
		return 'N'
	}
	return s.env[v]
}

// allocOf resolves an address to the allocation it denotes.
func (e *ef) allocOf(s *efs, v ssa.Value) ssa.Value {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar, *ssa.Parameter:
		if b := s.bind[v]; b != nil {
			return b
		}
	}
	return nil
}

// neverFails lists calls whose error result is always nil.
func neverFails(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return strings.HasPrefix(types.TypeString(cc.Value.Type(), nil), "hash.Hash")
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	n := f.String()
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "fmt.Print"):
		return true
	case strings.HasPrefix(n, "fmt.Fprint") && len(cc.Args) > 0:
		w := cc.Args[0]
		if mi, ok := w.(*ssa.MakeInterface); ok {
			t := types.TypeString(mi.X.Type(), nil)
			if t == "*bytes.Buffer" || t == "*strings.Builder" {
				return true
			}
			if u, ok := mi.X.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
					return true
				}
			}
		}
	}
	return false
}

// makesError lists library calls that build errors rather than report them.
func makesError(n string) (made, wraps bool) {
	switch n {
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true, false
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Cause", "errors.Unwrap":
		return false, true
	}
	return false, false
}

// errIndex is the position of the error among the results, or -1.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func (e *ef) function(fn *ssa.Function) {
	s := &efs{env: map[ssa.Value]byte{}, cell: map[ssa.Value]byte{}, tup: map[ssa.Value][]byte{}, outs: map[ssa.Value]byte{}, ln: map[ssa.Value]byte{}, bind: map[ssa.Value]ssa.Value{}}
	e.budget = 400000
	ei := errIndex(fn.Signature)
	var byRef []ssa.Value
	for _, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isErrorType(pt.Elem()) {
			s.bind[p] = p
			byRef = append(byRef, p)
		}
	}
	for _, o := range e.body(fn, s, 0) {
		e.rets[fn]++
		if o.s.pend == nil {
			continue
		}
		ok := false
		if ei >= 0 && o.res[ei] == 'N' {
			ok = true
		}
		for _, p := range byRef {
			ok = ok || o.s.cell[p] == 'N'
		}
		if !ok {
			k := fmt.Sprintf("%d", o.s.pend.Pos())
			if e.viol[k] == nil {
				e.viol[k] = &efViol{fn: fn, src: instrPos(o.s.pend), what: e.srcs[instrPos(o.s.pend)], ret: o.at}
			}
		}
	}
	if e.budget <= 0 {
		e.notes["step budget exhausted in "+shortName(fn)] = true
	}
}

type efOut struct {
	s   *efs
	res []byte
	at  token.Pos
}

// body interprets fn from s; panicking paths are dropped.
func (e *ef) body(fn *ssa.Function, in *efs, depth int) []efOut {
	live := e.live.liveness(fn)
	seen := map[*ssa.BasicBlock]map[string]bool{}
	type pt struct {
		b, pred *ssa.BasicBlock
		s       *efs
	}
	outs := map[string]efOut{}
	work := []pt{{fn.Blocks[0], nil, in}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		s := p.s.clone()
		if p.pred != nil {
			pi := 0
			for j, q := range p.b.Preds {
				if q == p.pred {
					pi = j
				}
			}
			up := map[ssa.Value]byte{}
			for _, x := range p.b.Instrs {
				if ph, ok := x.(*ssa.Phi); ok {
					up[ph] = e.val(s, ph.Edges[pi])
				}
			}
			for k, v := range up {
				s.env[k] = v
			}
			own := func(v ssa.Value) bool { return v.Parent() == fn }
			for v := range s.env {
				if own(v) && !live[p.b][v] {
					delete(s.env, v)
				}
			}
			for v := range s.ln {
				if own(v) && !live[p.b][v] {
					delete(s.ln, v)
				}
			}
			for v := range s.tup {
				if own(v) && !live[p.b][v] {
					delete(s.tup, v)
				}
			}
			for v := range s.outs {
				if own(v) && !live[p.b][v] {
					delete(s.outs, v)
				}
			}
		}
		k := e.key(s)
		if seen[p.b] == nil {
			seen[p.b] = map[string]bool{}
		}
		if seen[p.b][k] {
			continue
		}
		seen[p.b][k] = true
		states := []*efs{s}
		for _, x := range p.b.Instrs[:len(p.b.Instrs)-1] {
			var next []*efs
			for _, st := range states {
				e.budget--
				if e.budget < 0 {
					return nil
				}
				next = append(next, e.instr(fn, st, x, depth)...)
			}
			if len(next) > 1 {
				u := map[string]bool{}
				var d []*efs
				for _, st := range next {
					kk := e.key(st)
					if !u[kk] {
						u[kk] = true
						d = append(d, st)
					}
				}
				next = d
			}
			states = next
		}
		last := p.b.Instrs[len(p.b.Instrs)-1]
		for _, st := range states {
			switch x := last.(type) {
			case *ssa.Jump:
				work = append(work, pt{p.b.Succs[0], p.b, st})
			case *ssa.If:
				switch e.val(st, x.Cond) {
				case 't':
					work = append(work, pt{p.b.Succs[0], p.b, st})
				case 'f':
					work = append(work, pt{p.b.Succs[1], p.b, st})
				default:
					t, f := st.clone(), st.clone()
					e.refine(t, x.Cond, true)
					e.refine(f, x.Cond, false)
					work = append(work, pt{p.b.Succs[0], p.b, t}, pt{p.b.Succs[1], p.b, f})
				}
			case *ssa.Return:
				res := make([]byte, len(x.Results))
				for i, r := range x.Results {
					res[i] = e.val(st, r)
				}
				kk := string(res) + "|" + e.key(st)
				outs[kk] = efOut{st, res, x.Pos()}
			}
		}
	}
	var ks []string
	for k := range outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []efOut
	for _, k := range ks {
		r = append(r, outs[k])
	}
	return r
}

func (e *ef) refine(s *efs, cond ssa.Value, val bool) {
	if val {
		s.env[cond] = 't'
	} else {
		s.env[cond] = 'f'
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			e.refine(s, c.X, !val)
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && e.val(s, x) == 0 {
			cands := []byte{'-', '0', '+'}
			var lenArg ssa.Value
			if lc, ok := x.(*ssa.Call); ok {
				if bi, ok := lc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					lenArg = lc.Call.Args[0]
				}
			}
			if lenArg != nil || b.Info()&types.IsUnsigned != 0 {
				cands = cands[1:]
			}
			var left []byte
			want := byte('f')
			if val {
				want = 't'
			}
			for _, k := range cands {
				s.env[x] = k
				if r := e.compare(s, c); r == 0 || r == want {
					left = append(left, k)
				}
			}
			delete(s.env, x)
			if len(left) == 1 {
				s.env[x] = left[0]
				if lenArg != nil {
					s.ln[lenArg] = left[0]
				}
			}
			return
		}
		if (c.Op == token.EQL || c.Op == token.NEQ) && e.val(s, x) == 0 {
			eq := (c.Op == token.EQL) == val
			switch e.val(s, y) {
			case 'n':
				if eq {
					s.env[x] = 'n'
				} else {
					s.env[x] = 'N'
				}
			case '0':
				if _, isC := y.(*ssa.Const); isC && eq {
					s.env[x] = '0'
				}
			}
		}
	}
}

func (e *ef) source(in ssa.Instruction, what string) {
	e.srcs[instrPos(in)] = what
}

func (e *ef) instr(fn *ssa.Function, s *efs, in ssa.Instruction, depth int) []*efs {
	one := []*efs{s}
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		delete(s.cell, x)
		switch t := derefType(x.Type()).Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
			s.cell[x] = 'n'
		case *types.Basic:
			if t.Info()&types.IsBoolean != 0 {
				s.cell[x] = 'f'
			} else if t.Info()&types.IsInteger != 0 {
				s.cell[x] = '0'
			}
		}
		s.env[x] = 'N'
	case *ssa.Store:
		if a := e.allocOf(s, x.Addr); a != nil {
			if v := e.val(s, x.Val); v != 0 {
				s.cell[a] = v
			} else {
				delete(s.cell, a)
			}
		}
	case *ssa.UnOp:
		delete(s.env, x)
		switch x.Op {
		case token.MUL:
			if a := e.allocOf(s, x.X); a != nil {
				if v := s.cell[a]; v != 0 && efTracked(x.Type()) {
					s.env[x] = v
				}
			} else if ia, ok := x.X.(*ssa.IndexAddr); ok {
				// element of the results of a reflective call
				if v, ok := s.outs[ia.X]; ok {
					s.outs[x] = v
				}
			} else if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) {
				_ = g
				s.env[x] = 'N'
			}
		case token.NOT:
			switch e.val(s, x.X) {
			case 't':
				s.env[x] = 'f'
			case 'f':
				s.env[x] = 't'
			}
		case token.SUB:
			if r, ok := map[byte]byte{'0': '0', '+': '-', '-': '+'}[e.val(s, x.X)]; ok {
				s.env[x] = r
			}
		}
	case *ssa.BinOp:
		delete(s.env, x)
		if r := e.compare(s, x); r != 0 {
			s.env[x] = r
		} else if r := arith(x.Op, e.val(s, x.X), e.val(s, x.Y)); r != 0 {
			s.env[x] = r
		}
	case *ssa.Extract:
		delete(s.env, x)
		if t, ok := s.tup[x.Tuple]; ok && t[x.Index] != 0 {
			s.env[x] = t[x.Index]
		}
	case *ssa.MakeInterface:
		s.env[x] = 'N'
	case *ssa.ChangeInterface:
		e.copy(s, x, x.X)
	case *ssa.ChangeType:
		e.copy(s, x, x.X)
	case *ssa.Convert:
		delete(s.env, x)
		// only widening keeps the sign
		if f, ok := x.X.Type().Underlying().(*types.Basic); ok {
			if t, ok := x.Type().Underlying().(*types.Basic); ok && f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0 {
				if v := e.val(s, x.X); v == '0' || (v != 0 && (f.Info()&types.IsUnsigned == t.Info()&types.IsUnsigned || (v == '+' && f.Info()&types.IsUnsigned == 0)) && e.p.Sizes.Sizeof(t) >= e.p.Sizes.Sizeof(f)) {
					s.env[x] = v
				}
			}
		}
	case *ssa.TypeAssert:
		delete(s.env, x)
		delete(s.tup, x)
		v := e.val(s, x.X)
		if x.CommaOk {
			if v == 'n' {
				s.tup[x] = []byte{'n', 'f'}
			} else if s.outs[x.X] == 'N' && isErrorType(x.AssertedType) {
				s.tup[x] = []byte{'N', 't'}
			}
		} else if v == 'N' && types.IsInterface(x.AssertedType) {
			s.env[x] = 'N'
		}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
		s.env[x.(ssa.Value)] = 'N'
	case *ssa.Defer:
		s.defers = append(s.defers, x)
		if len(s.defers) > 8 {
			return nil
		}
	case *ssa.RunDefers:
		cur := one
		ds := s.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*efs
			for _, st := range cur {
				st.defers = nil
				next = append(next, e.call(fn, st, ds[i], nil, depth)...)
			}
			cur = next
		}
		return cur
	case *ssa.Go:
	case *ssa.Call:
		return e.call(fn, s, x, x, depth)
	default:
		if v, ok := in.(ssa.Value); ok {
			delete(s.env, v)
		}
	}
	return one
}

func (e *ef) copy(s *efs, dst, src ssa.Value) {
	if v := e.val(s, src); v != 0 {
		s.env[dst] = v
	} else {
		delete(s.env, dst)
	}
}

func (e *ef) compare(s *efs, x *ssa.BinOp) byte {
	a, b := e.val(s, x.X), e.val(s, x.Y)
	tf := func(v bool) byte {
		if v {
			return 't'
		}
		return 'f'
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		eq := 0
		switch {
		case a == 'n' && b == 'n':
			eq = 1
		case (a == 'n' && b == 'N') || (a == 'N' && b == 'n'):
			eq = -1
		case (a == 't' || a == 'f') && (b == 't' || b == 'f'):
			eq = -1
			if a == b {
				eq = 1
			}
		}
		if eq != 0 {
			return tf((eq == 1) == (x.Op == token.EQL))
		}
	}
	// integer against a constant
	lo := func(v byte, w ssa.Value) (int64, int64, bool) {
		const big = int64(1) << 40
		if c, ok := w.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(c.Value); ok && i < big && i > -big {
				return i, i, true
			}
			return 0, 0, false
		}
		switch v {
		case '0':
			return 0, 0, true
		case '+':
			return 1, big, true
		case '-':
			return -big, -1, true
		}
		if b, ok := w.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return 0, big, true
		}
		return 0, 0, false
	}
	al, ah, ok1 := lo(a, x.X)
	bl, bh, ok2 := lo(b, x.Y)
	if !ok1 || !ok2 {
		return 0
	}
	switch x.Op {
	case token.EQL:
		if al == ah && bl == bh {
			return tf(al == bl)
		}
		if ah < bl || bh < al {
			return 'f'
		}
	case token.NEQ:
		if al == ah && bl == bh {
			return tf(al != bl)
		}
		if ah < bl || bh < al {
			return 't'
		}
	case token.LSS:
		if ah < bl {
			return 't'
		}
		if al >= bh {
			return 'f'
		}
	case token.LEQ:
		if ah <= bl {
			return 't'
		}
		if al > bh {
			return 'f'
		}
	case token.GTR:
		if al > bh {
			return 't'
		}
		if ah <= bl {
			return 'f'
		}
	case token.GEQ:
		if al >= bh {
			return 't'
		}
		if ah < bl {
			return 'f'
		}
	}
	return 0
}

// call models a call; v is nil for deferred calls.
func (e *ef) call(fn *ssa.Function, s *efs, in ssa.CallInstruction, v *ssa.Call, depth int) []*efs {
	cc := in.Common()
	if v != nil {
		delete(s.env, v)
		delete(s.tup, v)
		delete(s.outs, v)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && v != nil {
			if l := s.ln[cc.Args[0]]; l != 0 {
				s.env[v] = l
			}
		}
		return []*efs{s}
	}
	name := calleeName(cc)
	// a function literal, or a helper that is given an error: interpreted here
	var g *ssa.Function
	var binds []ssa.Value
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		g = mc.Fn.(*ssa.Function)
		binds = mc.Bindings
	} else if f := cc.StaticCallee(); f != nil && f.Blocks != nil && e.inRepo(f) {
		for _, p := range f.Params {
			if isErrorType(p.Type()) {
				g = f
			} else if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isErrorType(pt.Elem()) {
				g = f
			}
		}
		if f.Parent() != nil {
			g = f
		}
		if f.Signature.Results().Len() > 0 && smallLeaf(f) {
			g = f
		}
	}
	if g != nil && depth < 4 && e.inRepo(g) {
		n := s.clone()
		n.defers = nil
		nb := map[ssa.Value]ssa.Value{}
		for k, b := range s.bind {
			nb[k] = b
		}
		for i, fv := range g.FreeVars {
			if i < len(binds) {
				if a := e.allocOf(s, binds[i]); a != nil {
					nb[fv] = a
				} else {
					n.env[fv] = e.val(s, binds[i])
				}
			}
		}
		n.bind = nb
		for i, p := range g.Params {
			if i < len(cc.Args) {
				n.env[p] = e.val(s, cc.Args[i])
				if a := e.allocOf(s, cc.Args[i]); a != nil {
					nb[p] = a
				}
			}
		}
		var out []*efs
		for _, o := range e.body(g, n, depth+1) {
			r := s.clone()
			r.pend = o.s.pend
			for k, c := range o.s.cell {
				if k.Parent() != g {
					r.cell[k] = c
				}
			}
			for k := range r.cell {
				if _, ok := o.s.cell[k]; !ok {
					delete(r.cell, k)
				}
			}
			if v != nil {
				if len(o.res) == 1 {
					if o.res[0] != 0 {
						r.env[v] = o.res[0]
					}
				} else if len(o.res) > 1 {
					r.tup[v] = o.res
				}
			}
			// a failure inside that was reported to us is ours to report
			out = append(out, r)
		}
		return out
	}
	// variables whose address is passed on may change
	for _, a := range cc.Args {
		if al := e.allocOf(s, a); al != nil {
			delete(s.cell, al)
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if al := e.allocOf(s, mi.X); al != nil {
				delete(s.cell, al)
			}
		}
	}
	if mc, ok := closureArg(cc); ok {
		for _, b := range mc.Bindings {
			if al := e.allocOf(s, b); al != nil {
				delete(s.cell, al)
			}
		}
	}
	if made, wraps := makesError(name); made {
		if v != nil {
			s.env[v] = 'N'
		}
		return []*efs{s}
	} else if wraps {
		if v != nil {
			e.copy(s, v, cc.Args[0])
		}
		return []*efs{s}
	}
	fail := func(st *efs) {
		if st.pend == nil {
			st.pend = in
		}
	}
	switch name {
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		e.source(in, "malformed varint reported by "+name)
		var out []*efs
		for _, sg := range []byte{'+', '0', '-'} {
			n := s.clone()
			if v != nil {
				n.tup[v] = []byte{0, sg}
				if sg != '+' {
					n.tup[v][0] = '0'
				}
			}
			if sg != '+' {
				fail(n)
			}
			out = append(out, n)
		}
		return out
	case "(reflect.Value).Call":
		if noErrorMethod(cc.Args[0]) {
			return []*efs{s}
		}
		e.source(in, "error returned by a user's method")
		a, b := s.clone(), s.clone()
		if v != nil {
			a.outs[v], b.outs[v] = 'n', 'N'
			a.ln[v], b.ln[v] = '+', '+' // the method has results
		}
		fail(b)
		return []*efs{a, b}
	case "(reflect.Value).Interface", "(reflect.Value).IsNil":
		if o, ok := s.outs[cc.Args[0]]; ok && v != nil {
			if name == "(reflect.Value).Interface" {
				s.env[v] = o
				s.outs[v] = o
			} else if o == 'n' {
				s.env[v] = 't'
			} else {
				s.env[v] = 'f'
			}
		}
		return []*efs{s}
	}
	ei := errIndex(cc.Signature())
	if ei < 0 {
		if v != nil {
			switch v.Type().Underlying().(type) {
			case *types.Basic:
			default:
			}
		}
		return []*efs{s}
	}
	// methods of errors and formatting do not report failures
	if cc.IsInvoke() && isErrorType(cc.Value.Type()) {
		return []*efs{s}
	}
	set := func(st *efs, b byte) *efs {
		if v == nil {
			return st
		}
		if cc.Signature().Results().Len() == 1 {
			st.env[v] = b
		} else {
			t := make([]byte, cc.Signature().Results().Len())
			t[ei] = b
			st.tup[v] = t
		}
		return st
	}
	if neverFails(cc) {
		return []*efs{set(s, 'n')}
	}
	e.source(in, "error reported by "+name)
	ok, bad := s.clone(), s
	set(ok, 'n')
	set(bad, 'N')
	if f := cc.StaticCallee(); f != nil && f.Blocks != nil && e.inRepo(f) && v != nil {
		if sum := e.onError(f, ei); sum != nil {
			bad.tup[v] = sum
		}
	}
	fail(bad)
	return []*efs{ok, bad}
}

func closureArg(cc *ssa.CallCommon) (*ssa.MakeClosure, bool) {
	for _, a := range cc.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			return mc, true
		}
	}
	return nil, false
}

func (e *ef) inRepo(f *ssa.Function) bool {
	for _, sp := range e.p.RepoPkgs {
		if f.Pkg == sp {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C09", Level: "proof",
		Rule:  "error-flow analysis of every function of the package: each call that reports an error (or a malformed varint, or an error returned by a user's method called by reflection) is followed on its failing outcome, and every normal return reachable from there returns an error known to be non-nil",
		Expl:  "every error source is an obligation; a function may rely on its callees reporting their failures, which their own analysis establishes",
		Trust: []string{"bytes.Buffer, strings.Builder, hash.Hash and printing to standard output do not fail"},
		Run: func(p *Program, r *Result) {
			e := newErrflow(p)
			for _, fn := range p.Funcs {
				if fn.Pkg != p.Main || fn.Parent() != nil || fn.Synthetic != "" {
					continue
				}
				e.function(fn)
				r.Units[shortName(fn)] = true
			}
			bad := map[token.Pos]*efViol{}
			for _, v := range e.viol {
				bad[v.src] = v
			}
			var ps []token.Pos
			for ps1 := range e.srcs {
				ps = append(ps, ps1)
			}
			sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
			for _, q := range ps {
				v := bad[q]
				if v == nil {
					r.ob("error", p.pos(q), "", e.srcs[q]+" makes the operation fail", true, "", "")
					continue
				}
				r.ob("error", p.pos(q), shortName(v.fn), v.what+" makes the operation fail", false,
					"after this failure the function can return success at "+p.pos(v.ret), "")
			}
			for n := range e.notes {
				r.undecided("%s", n)
			}
			r.floor("error sources", len(ps), 120)
		}})
}

// arith gives the sign of a sum or difference of integers that cannot overflow
// (lengths and counts of bytes).
func arith(op token.Token, a, b byte) byte {
	switch op {
	case token.ADD:
		switch {
		case b == '0':
			return a
		case a == '0':
			return b
		case a == b:
			return a
		}
	case token.SUB:
		switch {
		case b == '0':
			return a
		case a == '+' && b == '-', a == '-' && b == '+':
			return a
		}
	}
	return 0
}

// smallLeaf reports a short helper without loops that calls nothing of the
// repository itself.
func smallLeaf(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			n++
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg {
					return false
				}
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok && errIndex(c.Common().Signature()) >= 0 {
					if made, wraps := makesError(calleeName(c.Common())); !made && !wraps {
						return false
					}
				}
			}
		}
	}
	return n < 80
}

// noErrorMethod reports a reflective method whose name says it is one that
// returns no error.
func noErrorMethod(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		n := calleeName(&v.Call)
		if n == "(reflect.Value).MethodByName" {
			if c, ok := v.Call.Args[1].(*ssa.Const); ok && c.Value != nil {
				return constant.StringVal(c.Value) == "DeepCopy"
			}
		}
	}
	return false
}

// onError gives what is known of the results of f when it reports an error.
func (e *ef) onError(f *ssa.Function, ei int) []byte {
	if s, ok := e.sums[f]; ok {
		return s
	}
	e.sums[f] = nil
	if f.Signature.Results().Len() < 2 || len(f.Blocks) > 60 {
		return nil
	}
	saved := e.budget
	e.budget = 40000
	in := &efs{env: map[ssa.Value]byte{}, cell: map[ssa.Value]byte{}, tup: map[ssa.Value][]byte{}, outs: map[ssa.Value]byte{}, ln: map[ssa.Value]byte{}, bind: map[ssa.Value]ssa.Value{}}
	var sum []byte
	for _, o := range e.body(f, in, 3) {
		if o.res[ei] == 'n' {
			continue
		}
		if sum == nil {
			sum = append([]byte{}, o.res...)
			continue
		}
		for i := range sum {
			if sum[i] != o.res[i] {
				sum[i] = 0
			}
		}
	}
	if e.budget <= 0 {
		sum = nil
	}
	e.budget = saved
	if sum != nil {
		sum[ei] = 'N'
	}
	e.sums[f] = sum
	return sum
}
