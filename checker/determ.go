package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// orderFlow follows sequences whose order is not determined: the keys of a
// map, and whatever is collected while iterating over one.
type orderFlow struct {
	p    *Program
	r    *Result
	e    *Engine
	set  map[*ssa.Function]bool
	fns  []*ssa.Function
	fam  map[ssa.Value]ssa.Value // union-find
	un   map[ssa.Value]bool      // roots of families without an order
	srcs map[*ssa.Function][]ssa.Instruction
	par  map[*ssa.Parameter]bool
	ret  map[*ssa.Function]map[int]bool
	sort map[*ssa.Function]map[int]bool // parameters that are in order when the function returns
	wr   map[*ssa.Function]bool         // writes output
	loop map[*Loop]bool                 // iterate in no particular order
	n    int
}

func (o *orderFlow) find(v ssa.Value) ssa.Value {
	for {
		w, ok := o.fam[v]
		if !ok || w == v {
			return v
		}
		v = w
	}
}

func (o *orderFlow) union(a, b ssa.Value) {
	a, b = o.find(a), o.find(b)
	if a != b {
		o.fam[a] = b
		if o.un[a] {
			o.un[b] = true
		}
	}
}

func isSeq(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

// cellOf is the variable that v is the address of, if it holds a sequence.
func cellOf(v ssa.Value) ssa.Value {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok && isSeq(pt.Elem()) {
			return v
		}
	}
	return nil
}

// families joins the values of f that are the same sequence.
func (o *orderFlow) families(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if isSeq(x.Type()) {
					for _, v := range x.Edges {
						if _, c := v.(*ssa.Const); !c {
							o.union(x, v)
						}
					}
				}
			case *ssa.Slice:
				if isSeq(x.Type()) {
					o.union(x, x.X)
				}
			case *ssa.ChangeType:
				if isSeq(x.Type()) {
					o.union(x, x.X)
				}
			case *ssa.MakeInterface:
				if isSeq(x.X.Type()) {
					o.union(x, x.X)
				}
			case *ssa.ChangeInterface:
				o.union(x, x.X)
			case *ssa.UnOp:
				if c := cellOf(x.X); c != nil && x.Op == token.MUL {
					o.union(x, c)
				}
			case *ssa.Store:
				if c := cellOf(x.Addr); c != nil {
					if _, k := x.Val.(*ssa.Const); !k {
						o.union(c, x.Val)
					}
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					if cellOf(v) != nil || isSeq(v.Type()) {
						o.union(g.FreeVars[i], v)
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if _, c := x.Call.Args[0].(*ssa.Const); !c {
						o.union(x, x.Call.Args[0])
					}
				}
			}
		}
	}
}

func (o *orderFlow) inner(in ssa.Instruction) *Loop {
	return o.e.info(in.Parent()).inner[in.Block()]
}

// unordered is the innermost loop around in that has no order.
func (o *orderFlow) unordered(in ssa.Instruction) *Loop {
	for l := o.inner(in); l != nil; l = l.parent {
		if o.loop[l] {
			return l
		}
	}
	return nil
}

// loopFor marks the loop that in drives.
func (o *orderFlow) loopFor(in ssa.Instruction) bool {
	l := o.inner(in)
	if l == nil {
		return false
	}
	if !o.loop[l] {
		o.loop[l] = true
	}
	return true
}

func (o *orderFlow) source(v ssa.Value, in ssa.Instruction) bool {
	ch := false
	r := o.find(v)
	if !o.un[r] {
		o.un[r] = true
		ch = true
	}
	for _, x := range o.srcs[in.Parent()] {
		if x == in {
			return ch
		}
	}
	o.srcs[in.Parent()] = append(o.srcs[in.Parent()], in)
	return true
}

// unorderedCall: results in no particular order.
func unorderedCall(name string) bool {
	switch name {
	case "(reflect.Value).MapKeys", "maps.Keys", "maps.Values", "maps.All", "(*sync.Map).Range":
		return true
	}
	return false
}

// sorts: does the call put family r in order?  The argument index is returned.
func (o *orderFlow) sorts(c *ssa.CallCommon) (int, bool) {
	g := c.StaticCallee()
	if g == nil {
		return 0, false
	}
	name := g.String()
	if g.Origin() != nil {
		name = g.Origin().String()
	}
	switch name {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return 0, o.plain(c.Args[0])
	case "sort.Slice", "sort.SliceStable":
		return 0, o.less(c.Args[1], c.Args[0], 0)
	case "slices.SortFunc", "slices.SortStableFunc":
		return 0, o.less(c.Args[1], c.Args[0], 1)
	case "sort.Sort", "sort.Stable":
		mi, ok := c.Args[0].(*ssa.MakeInterface)
		if !ok {
			return 0, false
		}
		if n, ok := mi.X.Type().(*types.Named); ok {
			if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
				return 0, n.Obj().Name() == "StringSlice" || n.Obj().Name() == "IntSlice"
			}
			for _, m := range []types.Type{n, types.NewPointer(n)} {
				sel := o.p.Prog.MethodSets.MethodSet(m).Lookup(n.Obj().Pkg(), "Less")
				if sel != nil {
					if f := o.p.Prog.MethodValue(sel); f != nil {
						return 0, o.lessFn(f, 1, 0, nil)
					}
				}
			}
		}
		return 0, false
	}
	for i := range o.sort[g] {
		return i, true
	}
	return 0, false
}

// plain: the elements are compared as a whole.
func (o *orderFlow) plain(v ssa.Value) bool {
	if s, ok := v.Type().Underlying().(*types.Slice); ok {
		_, b := s.Elem().Underlying().(*types.Basic)
		return b
	}
	return false
}

func (o *orderFlow) less(v, seq ssa.Value, kind int) bool {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return o.lessFn(x.Fn.(*ssa.Function), 0, kind, seq)
	case *ssa.Function:
		return o.lessFn(x, 0, kind, seq)
	case *ssa.ChangeType:
		return o.less(x.X, seq, kind)
	}
	return false
}

// lessFn: f compares two elements by all they contain.  Elements are given by
// index (kind 0, two parameters after skip) or directly (kind 1).
func (o *orderFlow) lessFn(f *ssa.Function, skip, kind int, seq ssa.Value) bool {
	if f == nil || f.Blocks == nil || len(f.Params) != skip+2 {
		return false
	}
	a, b := f.Params[skip], f.Params[skip+1]
	full := false
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		ea, eb, ok := comparison(ret.Results[0])
		if !ok {
			return false
		}
		sa, isElem, whole := o.elemExpr(ea, a, b, kind, seq)
		sb, isElem2, _ := o.elemExpr(eb, b, a, kind, seq)
		if !isElem || !isElem2 || sa != sb {
			sa, isElem, whole = o.elemExpr(ea, b, a, kind, seq)
			sb, isElem2, _ = o.elemExpr(eb, a, b, kind, seq)
			if !isElem || !isElem2 || sa != sb {
				return false
			}
		}
		if whole {
			full = true
			continue
		}
		// a partial comparison decides only when the parts differ
		if len(blk.Preds) != 1 {
			return false
		}
		p := blk.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(c.Op == token.NEQ && p.Succs[0] == blk || c.Op == token.EQL && p.Succs[1] == blk) {
			return false
		}
		sx, e1, _ := o.elemExpr(c.X, a, b, kind, seq)
		sy, e2, _ := o.elemExpr(c.Y, b, a, kind, seq)
		if !e1 || !e2 {
			sx, e1, _ = o.elemExpr(c.X, b, a, kind, seq)
			sy, e2, _ = o.elemExpr(c.Y, a, b, kind, seq)
		}
		if !e1 || !e2 || sx != sy || sx != sa {
			return false
		}
	}
	return full
}

// comparison splits a comparison into what is compared.
func comparison(v ssa.Value) (a, b ssa.Value, ok bool) {
	cmp := func(c *ssa.Call) (ssa.Value, ssa.Value, bool) {
		g := c.Call.StaticCallee()
		if g == nil {
			return nil, nil, false
		}
		n := g.String()
		if g.Origin() != nil {
			n = g.Origin().String()
		}
		switch n {
		case "strings.Compare", "cmp.Compare", "bytes.Compare", "cmp.Less":
			return c.Call.Args[0], c.Call.Args[1], true
		}
		return nil, nil, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.LSS && x.Op != token.GTR {
			return nil, nil, false
		}
		if k, isC := x.Y.(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.Int {
			if n, _ := constant.Int64Val(k.Value); n == 0 {
				if c, isCall := x.X.(*ssa.Call); isCall {
					return cmp(c)
				}
			}
		}
		return x.X, x.Y, true
	case *ssa.Call:
		return cmp(x)
	}
	return nil, nil, false
}

// elemExpr writes v down as an expression of the element chosen by self.
// whole: it contains all that the element contains.
func (o *orderFlow) elemExpr(v ssa.Value, self, other ssa.Value, kind int, seq ssa.Value) (s string, isElem, whole bool) {
	if v == self && kind == 1 {
		return "e", true, true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", false, false
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && kind == 0 && ia.Index == self {
			if seq != nil && o.find(ia.X) != o.find(seq) {
				return "", false, false
			}
			return "e", true, true
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			s, e, w := o.elemAddr(fa.X, self, kind, seq)
			return s + "." + fmt.Sprint(fa.Field), e, w && o.keyField(fa.X, fa.Field)
		}
	case *ssa.Field:
		s, e, w := o.elemExpr(x.X, self, other, kind, seq)
		return s + "." + fmt.Sprint(x.Field), e, w && o.keyField(x.X, x.Field)
	case *ssa.Call:
		n := calleeName(&x.Call)
		if len(x.Call.Args) != 1 && !x.Call.IsInvoke() {
			return "", false, false
		}
		arg := x.Call.Value
		if !x.Call.IsInvoke() {
			arg = x.Call.Args[0]
		}
		s, e, w := o.elemExpr(arg, self, other, kind, seq)
		switch n {
		case "(reflect.Value).String", "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Interface":
		default:
			w = false
		}
		return n + "(" + s + ")", e, w
	case *ssa.TypeAssert:
		return o.elemExpr(x.X, self, other, kind, seq)
	case *ssa.Convert:
		s, e, w := o.elemExpr(x.X, self, other, kind, seq)
		from, _ := x.X.Type().Underlying().(*types.Basic)
		str := from != nil && from.Info()&types.IsString != 0
		return "conv(" + s + ")", e, w && (str || isByteSlice(x.X.Type()))
	case *ssa.ChangeType:
		return o.elemExpr(x.X, self, other, kind, seq)
	}
	return "", false, false
}

func (o *orderFlow) elemAddr(v ssa.Value, self ssa.Value, kind int, seq ssa.Value) (string, bool, bool) {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		if kind == 0 && x.Index == self {
			return "e", true, true
		}
	case *ssa.FieldAddr:
		s, e, w := o.elemAddr(x.X, self, kind, seq)
		return s + "." + fmt.Sprint(x.Field), e, w && o.keyField(x.X, x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return o.elemAddr(x.X, self, kind, seq)
		}
	case *ssa.Alloc:
		// a parameter spilled into a variable
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x && st.Val == self && kind == 1 {
				return "e", true, true
			}
		}
	}
	return "", false, false
}

// keyField: field i of the elements only ever holds the key of an entry.
func (o *orderFlow) keyField(v ssa.Value, i int) bool {
	t := derefType(v.Type())
	found := false
	for _, f := range o.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != i || !types.Identical(derefType(fa.X.Type()), t) {
					continue
				}
				found = true
				if !o.fromKey(st.Val, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return found
}

// fromKey: v is the key of an entry, or its text.
func (o *orderFlow) fromKey(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "(*reflect.MapIter).Key":
			return true
		case "(reflect.Value).String", "(reflect.Value).Interface", "(reflect.Value).Int", "(reflect.Value).Uint":
			return o.fromKey(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return o.un[o.find(ia.X)]
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && !n.IsString {
			return x.Index == 1
		}
	case *ssa.TypeAssert:
		return o.fromKey(x.X, seen)
	case *ssa.Convert:
		from, _ := x.X.Type().Underlying().(*types.Basic)
		return from != nil && from.Info()&types.IsString != 0 && o.fromKey(x.X, seen)
	case *ssa.ChangeType:
		return o.fromKey(x.X, seen)
	case *ssa.MakeInterface:
		return o.fromKey(x.X, seen)
	}
	return false
}

// inOrder: on every way from a source of the family to at, the family is
// sorted.  A sequence of at most one element needs no sorting.
func (o *orderFlow) inOrder(fam ssa.Value, at ssa.Instruction, fromEntry bool) bool {
	f := at.Parent()
	bad := false
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs) && !bad; i++ {
			in := b.Instrs[i]
			if in == at {
				bad = true
				return
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, isDefer := in.(*ssa.Defer); isDefer {
					continue
				}
				if k, ok := o.sorts(c.Common()); ok && k < len(c.Common().Args) && o.find(c.Common().Args[k]) == fam {
					return
				}
			}
		}
		var short *ssa.BasicBlock
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			short = o.shortEdge(iff, fam)
		}
		for _, s := range b.Succs {
			if s != short && !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	if fromEntry {
		walk(f.Blocks[0], 0)
	}
	for _, src := range o.srcs[f] {
		v, ok := src.(ssa.Value)
		if ok && o.find(v) != fam {
			continue
		}
		if !ok {
			st := src.(*ssa.Store)
			if o.find(st.Addr.(*ssa.IndexAddr).X) != fam {
				continue
			}
		}
		for i, in := range src.Block().Instrs {
			if in == src {
				walk(src.Block(), i+1)
			}
		}
	}
	return !bad
}

// shortEdge is the successor taken only when the family has at most one
// element.
func (o *orderFlow) shortEdge(iff *ssa.If, fam ssa.Value) *ssa.BasicBlock {
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	ln := func(v ssa.Value) bool {
		x, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := x.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && o.find(x.Call.Args[0]) == fam
	}
	num := func(v ssa.Value) (int64, bool) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		n, ok := constant.Int64Val(k.Value)
		return n, ok
	}
	op := c.Op
	n, isN := num(c.Y)
	if !isN || !ln(c.X) {
		n, isN = num(c.X)
		if !isN || !ln(c.Y) {
			return nil
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	s := iff.Block().Succs
	switch {
	case op == token.LSS && n <= 2, op == token.LEQ && n <= 1, op == token.EQL && n <= 1:
		return s[0]
	case op == token.GEQ && n <= 2, op == token.GTR && n <= 1, op == token.NEQ && n <= 1:
		return s[1]
	}
	return nil
}

// spread finds everything without an order, to a fixed point.
func (o *orderFlow) spread() {
	for changed := true; changed; {
		changed = false
		for _, f := range o.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if o.step(f, in) {
						changed = true
					}
				}
			}
			for i, p := range f.Params {
				if o.par[p] && !o.sort[f][i] && o.sorter(f, p) {
					if o.sort[f] == nil {
						o.sort[f] = map[int]bool{}
					}
					o.sort[f][i] = true
					changed = true
				}
			}
		}
	}
}

func (o *orderFlow) sorters() int {
	n := 0
	for _, m := range o.sort {
		n += len(m)
	}
	return n
}

func (o *orderFlow) sorter(f *ssa.Function, p *ssa.Parameter) bool {
	n := 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if !o.inOrder(o.find(p), ret, true) {
				return false
			}
		}
	}
	return n > 0
}

// tainted: v is without an order where in uses it.
func (o *orderFlow) tainted(v ssa.Value, in ssa.Instruction) bool {
	fam := o.find(v)
	if !o.un[fam] {
		return false
	}
	entry := false
	f := in.Parent()
	for _, p := range f.Params {
		if o.par[p] && o.find(p) == fam {
			entry = true
		}
	}
	for _, fv := range f.FreeVars {
		if o.find(fv) == fam {
			entry = true
		}
	}
	return !o.inOrder(fam, in, entry)
}

func (o *orderFlow) step(f *ssa.Function, in ssa.Instruction) bool {
	ch := false
	switch x := in.(type) {
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			_ = rg
			if l := o.inner(in); l != nil && !o.loop[l] {
				o.loop[l] = true
				ch = true
			}
		}
	case *ssa.IndexAddr:
		if !isSeq(x.X.Type()) && !isSeq(derefType(x.X.Type())) || !o.un[o.find(x.X)] || onlyStored(x) {
			break
		}
		if l := o.inner(in); l != nil && !o.loop[l] && o.tainted(x.X, in) {
			o.loop[l] = true
			ch = true
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if l := o.unordered(in); l != nil && !o.madeIn(ia.X, l) {
				ch = o.source(ia.X, x) || ch
			}
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if isSeq(v.Type()) && o.tainted(v, in) {
				if o.ret[f] == nil {
					o.ret[f] = map[int]bool{}
				}
				if !o.ret[f][i] {
					o.ret[f][i] = true
					ch = true
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && o.ret[g][x.Index] {
				ch = o.source(x, x) || ch
			}
		}
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return ch
	}
	cc := c.Common()
	name := calleeName(cc)
	if name == "(*reflect.MapIter).Next" {
		if l := o.inner(in); l != nil && !o.loop[l] {
			o.loop[l] = true
			ch = true
		}
	}
	v, isVal := in.(ssa.Value)
	if isVal && unorderedCall(name) {
		ch = o.source(v, in) || ch
	}
	if isVal && name == "builtin.append" {
		if o.unordered(in) != nil {
			ch = o.source(v, in) || ch
		} else if len(cc.Args) > 1 && o.tainted(cc.Args[1], in) {
			ch = o.source(v, in) || ch
		}
	}
	if g := cc.StaticCallee(); g != nil && o.set[g] {
		if isVal && o.ret[g][0] && g.Signature.Results().Len() == 1 {
			ch = o.source(v, in) || ch
		}
		for i, a := range cc.Args {
			if i < len(g.Params) && isSeq(a.Type()) && !o.par[g.Params[i]] && o.tainted(a, in) {
				o.par[g.Params[i]] = true
				o.un[o.find(g.Params[i])] = true
				ch = true
			}
		}
	}
	return ch
}

func onlyStored(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != x {
			return false
		}
	}
	return true
}

// madeIn: the memory of v is made anew in each turn of l.
func (o *orderFlow) madeIn(v ssa.Value, l *Loop) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return l.blocks[x.Block()]
	case *ssa.MakeSlice:
		return l.blocks[x.Block()]
	case *ssa.Slice:
		return o.madeIn(x.X, l)
	case *ssa.FieldAddr:
		return o.madeIn(x.X, l)
	case *ssa.IndexAddr:
		return o.madeIn(x.X, l)
	}
	return false
}

// report raises an obligation for each use of a sequence without an order,
// and for each effect of a loop without one.
func (o *orderFlow) report(f *ssa.Function) {
	ob := func(in ssa.Instruction, what string, ok bool, why string) {
		o.n++
		o.r.ob("order", o.p.pos(instrPos(in)), shortName(f), what, ok, why, "")
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				v := *op
				if fam := o.find(v); !o.un[fam] {
					continue
				}
				if o.comparator(f) {
					continue
				}
				ob(in, "the order of the entries of a map does not matter here", o.allowed(f, in, v) || !o.tainted(v, in), "the sequence is used before it is put in an order that its contents determine: "+in.String())
			}
			if l := o.unordered(in); l != nil {
				if why := o.effect(in, l); why != "" {
					ob(in, "the order of the turns does not matter", false, why)
				}
			}
		}
	}
	for l := range o.loop {
		if l.head.Parent() == f {
			ob(l.head.Instrs[0], "a loop over the entries of a map", true, "")
		}
	}
}

// comparator: f is given to a sorting function.
func (o *orderFlow) comparator(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for _, r := range *mc.Referrers() {
				c, ok := r.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					return false
				}
				g := c.Call.StaticCallee()
				if g.Origin() != nil {
					g = g.Origin()
				}
				if g.Pkg == nil || g.Pkg.Pkg.Path() != "sort" && g.Pkg.Pkg.Path() != "slices" {
					return false
				}
			}
			return true
		}
	}
	return false
}

// allowed: the use does not look at the order.
func (o *orderFlow) allowed(f *ssa.Function, in ssa.Instruction, v ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.DebugRef, *ssa.MakeClosure:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL && cellOf(x.X) != nil
	case *ssa.Store:
		if cellOf(x.Addr) != nil {
			return true
		}
		_, ia := x.Addr.(*ssa.IndexAddr)
		return ia && x.Addr != v && x.Val != v
	case *ssa.IndexAddr:
		return onlyStored(x) || o.unordered(in) != nil
	case *ssa.BinOp:
		return x.Op == token.EQL || x.Op == token.NEQ
	case *ssa.Return:
		return true
	case *ssa.Extract:
		return true
	case ssa.CallInstruction:
		cc := x.Common()
		if rv, ok := in.(ssa.Value); ok && rv == v {
			return true
		}
		switch calleeName(cc) {
		case "builtin.len", "builtin.cap", "builtin.append":
			return true
		}
		if _, ok := o.sorts(cc); ok {
			return true
		}
		if g := cc.StaticCallee(); g != nil && o.set[g] {
			return true
		}
		if g := cc.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
			return true // an order, if not one that is known to be good enough
		}
	}
	return false
}

// effect says what the instruction does that depends on the order of turns.
func (o *orderFlow) effect(in ssa.Instruction, l *Loop) string {
	switch x := in.(type) {
	case *ssa.Store:
		if o.madeIn(x.Addr, l) {
			return ""
		}
		if _, ok := x.Addr.(*ssa.IndexAddr); ok {
			return ""
		}
		if a, ok := x.Addr.(*ssa.Alloc); ok {
			t := derefType(a.Type())
			if isErrorType(t) || isSeq(t) {
				return ""
			}
			if _, ok := x.Val.(*ssa.Const); ok {
				return ""
			}
			if o.accumulates(x.Val, func(v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				return ok && u.X == a
			}) {
				return ""
			}
		}
		return "the last turn decides what is stored: " + x.String()
	case *ssa.Phi:
		if x.Block() != l.head {
			return ""
		}
		t := x.Type()
		if isErrorType(t) || isSeq(t) {
			return ""
		}
		for i, v := range x.Edges {
			if !l.blocks[x.Block().Preds[i]] {
				continue
			}
			if _, ok := v.(*ssa.Const); ok || v == x {
				continue
			}
			if !o.accumulates(v, func(v ssa.Value) bool { return v == x }) {
				return "a turn depends on the turns before it"
			}
		}
	case *ssa.Return:
		for _, v := range x.Results {
			if isErrorType(v.Type()) {
				continue
			}
			if _, ok := v.(*ssa.Const); ok {
				continue
			}
			if vi, ok := v.(ssa.Instruction); ok && l.blocks[vi.Block()] {
				if _, phi := v.(*ssa.Phi); !phi {
					return "the turn that comes first decides the result"
				}
			}
		}
	case *ssa.Send, *ssa.Go, *ssa.Defer:
		return "an effect in each turn"
	case *ssa.Call:
		cc := x.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return ""
		}
		g := cc.StaticCallee()
		name := calleeName(cc)
		if g != nil && o.set[g] {
			if o.wr[g] {
				return "output is produced in the order of the turns: " + name
			}
			return ""
		}
		if pureLib(cc, name) {
			return ""
		}
		return "an effect in each turn: " + name
	}
	return ""
}

// accumulates: a sum, a maximum or the like.
func (o *orderFlow) accumulates(v ssa.Value, old func(ssa.Value) bool) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return false
		}
		switch x.Op {
		case token.ADD, token.OR, token.XOR, token.AND, token.MUL:
			return old(x.X) || old(x.Y) || o.accumulates(x.X, old) || o.accumulates(x.Y, old)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); ok || old(e) {
				continue
			}
			if !o.accumulates(e, old) {
				return false
			}
		}
		return true
	}
	return false
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "bytes": true, "errors": true, "unicode": true, "unicode/utf8": true,
	"math": true, "math/bits": true, "github.com/pkg/errors": true, "encoding/hex": true, "encoding/base64": true, "path": true}

// pureLib: a library function without effects.
func pureLib(cc *ssa.CallCommon, name string) bool {
	if cc.IsInvoke() {
		t := types.TypeString(cc.Value.Type(), nil)
		return t == "reflect.Type" || t == "error" || strings.HasPrefix(name, "(fmt.Stringer)")
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	pkg := ""
	if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	if pkg == "reflect" {
		m := g.Name()
		return !strings.HasPrefix(m, "Set") && m != "Call" && m != "CallSlice" && m != "Send" && m != "Grow" && m != "Clear" && m != "Copy"
	}
	if pkg == "fmt" {
		return strings.HasPrefix(g.Name(), "Sprint") || g.Name() == "Errorf"
	}
	if pkg == "time" {
		return true
	}
	if g.Signature.Recv() != nil {
		return false
	}
	return purePkgs[pkg]
}

// writesOutput: functions that write, or that store into values.
func writesOutput(fns []*ssa.Function) map[*ssa.Function]bool {
	wr := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if wr[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := calleeName(c.Common())
					i := strings.LastIndex(n, ".")
					m := n[i+1:]
					if g := c.Common().StaticCallee(); g != nil && wr[g] || strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Fprint") || m == "Encode" ||
						strings.HasPrefix(n, "(reflect.Value).Set") || m == "ReadFrom" || n == "dynamic" {
						wr[f] = true
						changed = true
					}
				}
			}
		}
	}
	return wr
}

// deniedCall: functions whose results differ from run to run.
func deniedCall(cc *ssa.CallCommon, name string) string {
	if name == "dynamic" || strings.HasPrefix(name, "builtin.") {
		return ""
	}
	pkg := ""
	if g := cc.StaticCallee(); g != nil {
		if g.Origin() != nil {
			g = g.Origin()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			pkg = g.Object().Pkg().Path()
		}
	} else if cc.IsInvoke() && cc.Method.Pkg() != nil {
		pkg = cc.Method.Pkg().Path()
	}
	switch pkg {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "random"
	case "os", "os/exec", "os/user", "net", "syscall", "runtime", "runtime/debug", "runtime/pprof", "internal/cpu":
		return "depends on the process"
	case "unique", "weak":
		return "depends on memory"
	}
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.NewTimer", "time.After", "time.Tick":
		return "depends on the clock"
	case "(time.Time).Local", "time.LoadLocation", "(time.Time).Zone":
		return "depends on the time zone of the process"
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).InterfaceData":
		return "a memory address"
	case "(reflect.Value).Cap":
		return "the capacity is not part of the value"
	case "reflect.Select", "(reflect.Value).Recv", "(reflect.Value).TryRecv":
		return "depends on scheduling"
	case "(*sync.Map).Range":
		return "the order of a map"
	}
	if strings.HasPrefix(name, "sync/atomic.Load") || strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ".Load") {
		return "depends on what else has run"
	}
	return ""
}

// addressUse: the address is only compared with zero.
func nilTest(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok {
			k, ok = b.X.(*ssa.Const)
		}
		if !ok || k.Value != nil && constant.Sign(k.Value) != 0 {
			return false
		}
	}
	return true
}

// addressText: values of this static type may print as an address.
func addressText(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	if named, ok := t.(*types.Named); ok {
		if o := named.Obj(); o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Type" {
			return false
		}
		for i := 0; i < named.NumMethods(); i++ {
			if m := named.Method(i).Name(); m == "String" || m == "Error" {
				return false
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Slice:
		return addressText(x.Elem(), depth+1)
	case *types.Array:
		return addressText(x.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if addressText(x.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Interface:
		return !types.Implements(t, errorIface())
	}
	return true
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// onlyReported: the text goes into an error, a panic or the log.
func onlyReported(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Panic, *ssa.DebugRef:
		case *ssa.MakeInterface:
			if !onlyReported(x, seen) {
				return false
			}
		case *ssa.Phi:
			if !onlyReported(x, seen) {
				return false
			}
		case *ssa.BinOp:
			if !onlyReported(x, seen) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			for _, r2 := range *ia.X.Referrers() {
				if s, ok := r2.(*ssa.Slice); ok && !onlyReported(s, seen) {
					return false
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch {
			case n == "errors.New" || n == "fmt.Errorf" || strings.HasPrefix(n, "github.com/pkg/errors."):
			case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "github.com/davecgh/go-spew"):
			case strings.HasPrefix(n, "fmt.Sprint"):
				if !onlyReported(x, seen) {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// variadicTypes are the static types of the values given to a formatting call.
func variadicTypes(v ssa.Value) (out []types.Type, ok bool) {
	if k, isC := v.(*ssa.Const); isC && k.Value == nil {
		return nil, true
	}
	s, isS := v.(*ssa.Slice)
	if !isS {
		return nil, false
	}
	a, isA := s.X.(*ssa.Alloc)
	if !isA {
		return nil, false
	}
	for _, r := range *a.Referrers() {
		ia, isI := r.(*ssa.IndexAddr)
		if !isI {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, isSt := r2.(*ssa.Store); isSt {
				if mi, isM := st.Val.(*ssa.MakeInterface); isM {
					out = append(out, mi.X.Type())
				} else {
					out = append(out, st.Val.Type())
				}
			}
		}
	}
	return out, true
}

// stateOwner names the long-lived record or variable that addr is part of.
func (o *orderFlow) stateOwner(addr ssa.Value, fresh map[*ssa.Function]bool) string {
	for {
		switch x := addr.(type) {
		case *ssa.Global:
			return x.Name()
		case *ssa.FieldAddr:
			if isFreshPtr(x.X, fresh, map[ssa.Value]bool{}) {
				return ""
			}
			if n, ok := derefType(x.X.Type()).(*types.Named); ok && n.Obj().Pkg() == o.p.Main.Pkg {
				return n.Obj().Name()
			}
			addr = x.X
		case *ssa.IndexAddr:
			if isFreshPtr(x, fresh, map[ssa.Value]bool{}) {
				return ""
			}
			addr = x.X
		case *ssa.UnOp:
			addr = x.X
		default:
			return ""
		}
	}
}

// typeRecord: t holds nothing but descriptions of types.
func typeRecord(p *Program, t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		n, ok := x.Elem().(*types.Named)
		return ok && n.Obj().Pkg() == p.Main.Pkg && n.Obj().Name() == "TypeInfo"
	case *types.Slice:
		return typeRecord(p, x.Elem())
	case *types.Map:
		return typeRecord(p, x.Elem())
	}
	return false
}

func (o *orderFlow) effects(f *ssa.Function, fresh map[*ssa.Function]bool) {
	p, r := o.p, o.r
	ob := func(in ssa.Instruction, rule, what string, ok bool, why string) {
		r.ob(rule, p.pos(instrPos(in)), shortName(f), what, ok, why, "")
	}
	calls := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
				ob(in, "schedule", "encoding does not depend on scheduling", false, in.String())
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ob(in, "schedule", "encoding does not depend on scheduling", false, in.String())
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok && typeRecord(p, x.Type()) {
					ob(in, "registry", "the order in which types were registered does not matter", false, "an element of a list of registered types is read: "+ia.String())
				}
			case *ssa.Convert:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
					if ft, ok := x.X.Type().Underlying().(*types.Basic); ok && ft.Kind() == types.UnsafePointer {
						ob(in, "address", "encoding does not depend on memory addresses", nilTest(x), in.String())
					}
				}
			case *ssa.Store:
				if own := o.stateOwner(x.Addr, fresh); own != "" {
					ob(in, "state", "encoding leaves no trace but descriptions of types", typeRecord(p, x.Val.Type()) && own != "TypeInfo" && own != "FieldInfo", "writes "+own)
				}
			case *ssa.MapUpdate:
				if o.stateOwner(x.Map, fresh) != "" {
					ok := typeRecord(p, x.Value.Type())
					ob(in, "state", "encoding leaves no trace but descriptions of types", ok, "writes an entry of "+x.Map.Type().String())
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			calls++
			cc := c.Common()
			name := calleeName(cc)
			if why := deniedCall(cc, name); why != "" {
				v, isVal := in.(ssa.Value)
				ob(in, "call", "encoding does not depend on the run", isVal && why == "a memory address" && nilTest(v), name+": "+why)
			}
			if (strings.HasPrefix(name, "(*sync.Map).Store") || strings.HasPrefix(name, "(*sync.Map).LoadOrStore") || strings.HasPrefix(name, "(*sync.Map).Swap")) && len(cc.Args) == 3 {
				mi, ok := cc.Args[2].(*ssa.MakeInterface)
				ob(in, "state", "encoding leaves no trace but descriptions of types", ok && typeRecord(p, mi.X.Type()), name)
			}
			if strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "sync/atomic.Load") || strings.HasPrefix(name, "(*sync/atomic.") && !strings.HasSuffix(name, "Load") {
				v, isVal := in.(ssa.Value)
				used := isVal && v.Referrers() != nil && len(*v.Referrers()) > 0
				ob(in, "state", "encoding does not depend on what else has run", !used, name)
			}
			// formatted text
			if strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "fmt.Sprint") || strings.HasPrefix(name, "fmt.Append") {
				va, isVal := in.(ssa.Value)
				if strings.HasPrefix(name, "fmt.Sprint") && isVal && onlyReported(va, map[ssa.Value]bool{}) {
					continue
				}
				ts, ok := variadicTypes(cc.Args[len(cc.Args)-1])
				why := "what is formatted is not known"
				for _, t := range ts {
					if addressText(t, 0) {
						ok = false
						why = "formats a " + t.String() + ", which may print as an address"
					}
				}
				for _, a := range cc.Args {
					if k, isC := a.(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
						ok, why = false, "formats an address"
					}
				}
				ob(in, "format", "formatted text shows no address", ok, why)
			}
		}
	}
	if calls > 0 {
		r.ob("call", p.pos(f.Pos()), shortName(f), fmt.Sprintf("%d calls lead to nothing that differs from run to run", calls), true, "", "")
	}
}

// keysClient checks that map keys are text when they are listed.
type keysClient struct {
	*wireClient
	n int
}

func (c *keysClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	c.wireClient.After(e, fr, st, in, name, args, res)
	if name != "(reflect.Value).MapKeys" && name != "(reflect.Value).MapRange" {
		return
	}
	c.n++
	ok := false
	for t, m := range st.facts.mask {
		if m == 1<<24 && t.op == "kind" && contains(t.args[0], func(x *Term) bool { return x.op == "pure" && strings.HasSuffix(x.aux, ".Key") }) {
			ok = true
		}
	}
	e.oblige(fr, st, "keys", instrPos(in), "the keys that are put in order are text", ok, func() string {
		return "keys of another kind have no text to compare"
	})
}

func init() {
	register(&Check{ID: "C13", Level: "proof", Archs: []string{"amd64"},
		Rule: "effect and order analysis of everything marshalling reaches: no call, conversion or formatting whose outcome differs from run to run (clock, randomness, process, addresses, scheduling); nothing is remembered between calls except descriptions of types, and no list of registered types is read by position; a sequence collected from a map is not read, written or handed on before it is sorted by a comparison of whole keys, and loops over maps have no effect that depends on the order of their turns; abstract interpretation shows that the keys that are sorted are text",
		Expl: "every function reachable from a marshalling entry point; every use of a sequence that comes from iterating over a map",
		Trust: []string{
			"user methods (MarshalAmino, MarshalJSON, String) and the standard library's encoders are deterministic",
			"sorting functions of the standard library sort",
		},
		Run: func(p *Program, r *Result) {
			var roots []*ssa.Function
			for _, f := range encodeRoots(p) {
				n := 0
				for _, pa := range f.Params {
					if t := types.TypeString(pa.Type(), nil); t != "io.Writer" && (f.Signature.Recv() == nil || pa != f.Params[0]) {
						n++
					}
				}
				if n > 0 {
					roots = append(roots, f)
				}
			}
			o := &orderFlow{p: p, r: r, e: newEngine(p), set: map[*ssa.Function]bool{}, fam: map[ssa.Value]ssa.Value{}, un: map[ssa.Value]bool{},
				srcs: map[*ssa.Function][]ssa.Instruction{}, par: map[*ssa.Parameter]bool{}, ret: map[*ssa.Function]map[int]bool{},
				sort: map[*ssa.Function]map[int]bool{}, loop: map[*Loop]bool{}}
			for f := range reachable(p, roots...) {
				if f.Blocks != nil && f.Pkg == p.Main {
					o.set[f] = true
					o.fns = append(o.fns, f)
				}
			}
			sort.Slice(o.fns, func(i, j int) bool {
				if o.fns[i].Pos() != o.fns[j].Pos() {
					return o.fns[i].Pos() < o.fns[j].Pos()
				}
				return o.fns[i].String() < o.fns[j].String()
			})
			for _, f := range o.fns {
				o.families(f)
			}
			o.wr = writesOutput(o.fns)
			for n := -1; n != o.sorters(); {
				n = o.sorters()
				o.un, o.srcs, o.par = map[ssa.Value]bool{}, map[*ssa.Function][]ssa.Instruction{}, map[*ssa.Parameter]bool{}
				o.ret, o.loop = map[*ssa.Function]map[int]bool{}, map[*Loop]bool{}
				o.spread()
			}
			fresh := freshFuncs(p)
			for _, f := range o.fns {
				o.effects(f, fresh)
				o.report(f)
			}
			r.floor("functions that marshalling reaches", len(o.fns), 50)
			r.floor("uses of sequences that come from maps", o.n, 3)

			c := &keysClient{wireClient: &wireClient{}}
			h := encodeHalf(p, c, true)
			for _, f := range h.fns {
				h.e.loopCache = nil
				h.e.runRoot(f)
			}
			r.take(h.e, "keys")
			r.floor("listings of map keys", c.n, 1)
		},
	})
}
