package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file evaluates functions over shapes of types. What code finds out
// about a type (kinds, elements, pointers) is concrete here, lengths and
// numbers are intervals, and everything else is unknown: both ways of a branch
// on something unknown are followed. Run over every shape, it decides what
// code does for every type, however its conditions are written.

// shp is the shape of a type; a nil shape is a type nothing is known about.
type shp struct {
	kind reflect.Kind
	elem *shp
	name string
}

func (s *shp) String() string {
	if s == nil {
		return "?"
	}
	switch s.kind {
	case reflect.Ptr:
		return "*" + s.elem.String()
	case reflect.Slice:
		return "[]" + s.elem.String()
	case reflect.Array:
		return "[N]" + s.elem.String()
	}
	if s.name != "" {
		return s.name
	}
	switch {
	case s.kind == reflect.Map && s.elem != nil:
		return "map of " + s.elem.String()
	case s.kind == reflect.Struct && s.elem != nil:
		return "struct{" + s.elem.String() + "}"
	}
	return s.kind.String()
}

func (s *shp) deref() *shp {
	for s != nil && s.kind == reflect.Ptr {
		s = s.elem
	}
	return s
}

func (s *shp) eq(o *shp) bool {
	if s == nil || o == nil {
		return s == o
	}
	return s == o || s.kind == o.kind && s.elem.eq(o.elem) && s.name == o.name
}

func ptrTo(s *shp, depth int) *shp {
	for ; depth > 0; depth-- {
		s = &shp{kind: reflect.Ptr, elem: s}
	}
	return s
}

// abstract values
type (
	sv     interface{}
	svInt  int64
	svBool bool
	svStr  string
	svNil  struct{}
	// svTerm is an unknown scalar (or anything else unknown) plus a constant.
	svTerm struct {
		key string
		off int64
	}
	svRV struct {
		s   *shp
		dyn *shp // for interfaces: what is in it
		id  string
		// addr: the value is addressable
		addr bool
	}
	svRT  struct{ s *shp }
	svDyn struct{ s *shp } // an interface{} holding a value of the shape
	// svInfo is the description of a type, or of a field of type s.
	svInfo struct {
		s     *shp
		path  string // a field of the description
		field string // identifies the description of a field
	}
	svCell  struct{ path string } // an address of memory of this run
	svOut   struct{ path string } // an address of memory from outside
	svSlice struct {
		n    sv       // its length
		cell *svCell  // what it shows, if it is memory of this run
		from int64    // where it starts in the cell
		base string   // identifies the memory, otherwise
		elem sv       // what its elements are, if they are all alike
		skip []string // what it was moved over by
	}
	svStruct struct{ f map[string]sv }
	svTuple  []sv
	svFunc   struct {
		fn   *ssa.Function
		bind []sv
	}
	// svHold is the address of something that holds v.
	svHold struct{ v sv }
	svWrap struct {
		v sv
		t types.Type
	}
)

type interval struct {
	lo, hi int64
	hasHi  bool
	ne     []int64
}

// sev is something that happened on a path.
type sev struct {
	op   string // "key", "raw", "read", "empty"
	num  int64
	what string
	pos  token.Pos
}

type shapeState struct {
	mem    map[string]sv
	facts  map[string]interval
	events []sev
	path   []string
}

func (st *shapeState) clone() *shapeState {
	n := &shapeState{mem: make(map[string]sv, len(st.mem)), facts: make(map[string]interval, len(st.facts)), events: st.events[:len(st.events):len(st.events)], path: st.path[:len(st.path):len(st.path)]}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	return n
}

func (st *shapeState) event(op string, num int64, what string, pos token.Pos) {
	st.events = append(st.events, sev{op, num, what, pos})
}

// shapeEval runs functions over shapes.
type shapeEval struct {
	p *Program
	// stop, when it returns true, ends the path at the call.
	stop func(fn *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool
	// stored is called with what is stored in fields of structs
	stored func(fa *ssa.FieldAddr, v sv)
	// infoFlags is what the description of a type says of it
	infoFlags func(s *shp, name string) sv
	// opaque reports whether fn is called for results nothing is known about
	opaque func(fn *ssa.Function, args []sv, st *shapeState, pos token.Pos) bool
	// flags sets fields of type infos that are known.
	flags map[string]sv
	// other is the type that a description found without its type describes.
	other *shp
	steps int
	ids   int
	fail  string
	deep  int
	units map[*ssa.Function]bool
	uses  int
	// how the paths that were not stopped end
	ended func(st *shapeState, res []sv, panics bool)
	// widen generalizes loops; without it they are followed as they are
	widen bool
	// dyn is what the interfaces inside values hold
	dyn *shp
	// held is told of what is taken out of an interface
	held func(st *shapeState, id string, s *shp)
	// appended is told of what is appended to slices
	appended func(t types.Type, v sv)
	// fieldFlags sets fields of descriptions of fields, by type
	fieldFlags func(s *shp, name string) sv
	// misused is told of operations that values do not support
	misused func(st *shapeState, what string, pos token.Pos)
	// panics is told of explicit panics that types or nil pointers decide
	panics func(st *shapeState, fn *ssa.Function, pos token.Pos)
}

const shapeSteps = 400000

func (e *shapeEval) undecided(f string, a ...interface{}) {
	if e.fail == "" {
		e.fail = fmt.Sprintf(f, a...)
	}
}

func (e *shapeEval) fresh(tag string) string {
	e.ids++
	return tag + "#" + strconv.Itoa(e.ids)
}

func isTypeInfo(t types.Type, p *Program) bool {
	return isNamed(derefType(t), p.Main.Pkg, "TypeInfo")
}

// unknown is a value of type t nothing is known about.
func (e *shapeEval) unknown(t types.Type, key string) sv {
	switch {
	case isReflectValue(t):
		return svRV{id: key}
	case types.TypeString(t, nil) == "reflect.Type":
		return svTerm{key: key}
	}
	if tu, ok := t.(*types.Tuple); ok {
		var r svTuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, e.unknown(tu.At(i).Type(), key+"."+strconv.Itoa(i)))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return svOut{key}
	case *types.Slice:
		return svSlice{n: svTerm{key: "len(" + key + ")"}, base: key}
	case *types.Struct:
		if _, ok := t.(*types.Named); ok || u != nil {
			return svOutStruct{key, t}
		}
	}
	return svTerm{key: key}
}

// svOutStruct is a struct value nothing is known about.
type svOutStruct struct {
	key string
	t   types.Type
}

func (e *shapeEval) zero(t types.Type) sv {
	if isReflectValue(t) {
		return svRV{s: &shp{kind: reflect.Invalid}, id: "zero"}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return svBool(false)
		case u.Info()&types.IsInteger != 0:
			return svInt(0)
		case u.Info()&types.IsString != 0:
			return svStr("")
		}
		return svTerm{key: "zero"}
	case *types.Slice:
		return svSlice{n: svInt(0), base: "nil"}
	case *types.Struct:
		f := map[string]sv{}
		for i := 0; i < u.NumFields(); i++ {
			f[u.Field(i).Name()] = e.zero(u.Field(i).Type())
		}
		return svStruct{f}
	case *types.Array:
		return svStruct{map[string]sv{}}
	}
	return svNil{}
}

type shapeFrame struct {
	fn   *ssa.Function
	env  map[ssa.Value]sv
	prev *ssa.BasicBlock
	bind []sv
	n    map[*ssa.BasicBlock]int
	snap map[*ssa.BasicBlock]*shapeSnap
	last string               // what decided the last branch
	by   map[ssa.Value]string // what decided a condition
	seen map[string]bool      // states at heads of loops, on all paths
	born int                  // what was named before the function was entered
}

// shapeSnap is a state at the head of a loop.
type shapeSnap struct {
	phis  map[*ssa.Phi]sv
	mem   map[string]sv
	facts map[string]interval
}

// reprShape is the type that stands for another one.
var reprShape = &shp{kind: reflect.Struct, elem: &shp{kind: reflect.Int64}, name: "repr"}

func (fr *shapeFrame) clone() *shapeFrame {
	n := &shapeFrame{seen: fr.seen, born: fr.born, fn: fr.fn, prev: fr.prev, bind: fr.bind, env: make(map[ssa.Value]sv, len(fr.env)), n: map[*ssa.BasicBlock]int{}, last: fr.last, by: make(map[ssa.Value]string, len(fr.by))}
	for k, v := range fr.by {
		n.by[k] = v
	}
	if fr.snap != nil {
		n.snap = map[*ssa.BasicBlock]*shapeSnap{}
		for k, v := range fr.snap {
			n.snap[k] = v
		}
	}
	for k, v := range fr.env {
		n.env[k] = v
	}
	for k, v := range fr.n {
		n.n[k] = v
	}
	return n
}

func (fr *shapeFrame) decidedBy(v ssa.Value, c sv) string {
	if t, ok := c.(svTerm); ok {
		if strings.HasPrefix(t.key, "nil(") {
			return "nil"
		}
		return "unknown"
	}
	if by, ok := fr.by[v]; ok {
		return by
	}
	return "type"
}

// run evaluates fn and calls done for every path that returns.
func (e *shapeEval) run(fn *ssa.Function, args, bind []sv, st *shapeState, done func(res []sv, st *shapeState)) {
	if e.fail != "" {
		return
	}
	if e.deep > 24 {
		e.undecided("calls nest too deeply in %s", shortName(fn))
		return
	}
	e.units[fn] = true
	fr := &shapeFrame{seen: map[string]bool{}, born: e.ids, fn: fn, env: map[ssa.Value]sv{}, bind: bind, n: map[*ssa.BasicBlock]int{}, by: map[ssa.Value]string{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.env[f] = bind[i]
		}
	}
	e.deep++
	e.block(fr, fn.Blocks[0], st, done)
	e.deep--
}

func (e *shapeEval) block(fr *shapeFrame, b *ssa.BasicBlock, st *shapeState, done func([]sv, *shapeState)) {
	fr.n[b]++
	if fr.n[b] > 9 {
		e.undecided("a loop in %s does not end", shortName(fr.fn))
		return
	}
	// phis take their values all at once
	vals := map[*ssa.Phi]sv{}
	i := 0
	for ; i < len(b.Instrs); i++ {
		ph, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range b.Preds {
			if pr == fr.prev {
				vals[ph] = e.val(fr, ph.Edges[k])
				fr.by[ph] = fr.decidedBy(ph.Edges[k], vals[ph])
			}
		}
	}
	if e.widen && isLoopHead(b) && !e.atHead(fr, b, vals, st) {
		return
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
	e.instrs(fr, b, i, st, done)
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// atHead generalizes the state at the head of a loop, so that what follows is
// evaluated for every later iteration as well. It returns false when that has
// been done already.
func (e *shapeEval) atHead(fr *shapeFrame, b *ssa.BasicBlock, vals map[*ssa.Phi]sv, st *shapeState) bool {
	inside := fr.prev != nil && b.Dominates(fr.prev)
	old := fr.snap[b]
	if !inside {
		old = nil
		fr.n[b] = 1
	}
	if fr.snap == nil {
		fr.snap = map[*ssa.BasicBlock]*shapeSnap{}
	}
	save := func() {
		n := &shapeSnap{phis: map[*ssa.Phi]sv{}, mem: map[string]sv{}, facts: map[string]interval{}}
		for k, v := range vals {
			n.phis[k] = v
		}
		for k, v := range st.mem {
			n.mem[k] = v
		}
		for k, v := range st.facts {
			n.facts[k] = v
		}
		fr.snap[b] = n
	}
	if old == nil {
		save()
		return true
	}
	// a loop over the structure of a type is followed as it is
	for ph, v := range vals {
		if moved(old.phis[ph], v) {
			save()
			return true
		}
	}
	for k, v := range st.mem {
		if o, ok := old.mem[k]; ok && moved(o, v) {
			save()
			return true
		}
	}
	same := true
	for ph, v := range vals {
		if g, ok := e.join(old.phis[ph], v); !ok {
			vals[ph], same = g, false
		} else {
			vals[ph] = old.phis[ph]
		}
	}
	var keys []string
	for k := range old.mem {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v, ok := st.mem[k]
		if !ok {
			same = false
			continue
		}
		if g, ok := e.join(old.mem[k], v); !ok {
			st.mem[k], same = g, false
		} else {
			st.mem[k] = old.mem[k]
		}
	}
	for k, iv := range old.facts {
		if n, ok := st.facts[k]; !ok || n.lo != iv.lo || n.hi != iv.hi || n.hasHi != iv.hasHi || len(n.ne) != len(iv.ne) {
			same = false
		}
	}
	if same {
		return false
	}
	for k, iv := range st.facts {
		if o, ok := old.facts[k]; !ok || o.lo != iv.lo || o.hi != iv.hi || o.hasHi != iv.hasHi || len(o.ne) != len(iv.ne) {
			delete(st.facts, k)
		}
	}
	// the same state, reached another way
	var sig strings.Builder
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			fmt.Fprintf(&sig, "%s=%v|%T;", ph.Name(), vals[ph], vals[ph])
		}
	}
	for _, k := range keys {
		if v, ok := st.mem[k]; ok {
			fmt.Fprintf(&sig, "%s=%v|%T;", k, v, v)
		}
	}
	var fs []string
	for k, iv := range st.facts {
		fs = append(fs, fmt.Sprint(k, iv))
	}
	sort.Strings(fs)
	sig.WriteString(strings.Join(fs, ";"))
	names := map[string]string{}
	canon := freshID.ReplaceAllStringFunc(sig.String(), func(x string) string {
		if n, err := strconv.Atoi(x[1:]); err != nil || n <= fr.born {
			return x
		}
		if names[x] == "" {
			names[x] = "#n" + strconv.Itoa(len(names))
		}
		return names[x]
	})
	at := fmt.Sprintf("%d:%s", b.Index, canon)
	if fr.seen[at] {
		return false
	}
	fr.seen[at] = true
	save()
	return true
}

var freshID = regexp.MustCompile(`#[0-9]+`)

// moved: both are values or types, of different shapes.
func moved(a, b sv) bool {
	switch x := a.(type) {
	case svRV:
		y, ok := b.(svRV)
		return ok && !x.s.eq(y.s)
	case svRT:
		y, ok := b.(svRT)
		return ok && !x.s.eq(y.s)
	}
	return false
}

// join generalizes two values; ok says that the first is general enough.
func (e *shapeEval) join(a, b sv) (sv, bool) {
	any := func(v sv) bool {
		t, ok := v.(svTerm)
		return ok && strings.HasPrefix(t.key, "any#")
	}
	switch x := a.(type) {
	case svRV:
		if y, ok := b.(svRV); ok {
			if x.id == y.id || strings.HasPrefix(x.id, "any#") && (!x.addr || y.addr) {
				return a, true
			}
			return svRV{s: x.s, id: e.fresh("any"), addr: x.addr && y.addr}, false
		}
	case svSlice:
		if y, ok := b.(svSlice); ok {
			if strings.HasPrefix(x.base, "any#") || x.cell == nil && y.cell == nil && x.base == y.base && x.n == y.n || x.cell != nil && y.cell != nil && *x.cell == *y.cell && x.from == y.from && x.n == y.n {
				return a, true
			}
			id := e.fresh("any")
			return svSlice{n: svTerm{key: "len(" + id + ")"}, base: id, elem: x.elem}, false
		}
	case svStruct:
		if y, ok := b.(svStruct); ok {
			ok := true
			r := svStruct{map[string]sv{}}
			for k, v := range x.f {
				g, o := e.join(v, y.f[k])
				r.f[k] = g
				ok = ok && o
			}
			return r, ok
		}
	case svInfo:
		if y, ok := b.(svInfo); ok && x.s.eq(y.s) && x.path == y.path && (x.field == "") == (y.field == "") {
			return a, true // descriptions of fields tell nothing but their type
		}
	case svTuple, svFunc:
		if fmt.Sprint(a) == fmt.Sprint(b) {
			return a, true
		}
	default:
		if any(a) {
			return a, true
		}
		if _, bad := b.(svTuple); !bad && fmt.Sprint(a) == fmt.Sprint(b) {
			return a, true
		}
	}
	if any(a) {
		return a, true
	}
	return svTerm{key: e.fresh("any")}, false
}

func (e *shapeEval) goTo(fr *shapeFrame, from, to *ssa.BasicBlock, st *shapeState, done func([]sv, *shapeState)) {
	fr.prev = from
	e.block(fr, to, st, done)
}

// instrs continues at instruction i of b.
func (e *shapeEval) instrs(fr *shapeFrame, b *ssa.BasicBlock, i int, st *shapeState, done func([]sv, *shapeState)) {
	for ; i < len(b.Instrs); i++ {
		if e.fail != "" {
			return
		}
		e.steps++
		if e.steps > shapeSteps {
			e.undecided("%s has too many paths", shortName(fr.fn))
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			cond := e.val(fr, in.Cond)
			by := fr.decidedBy(in.Cond, cond)
			e.branch(cond, st, in.Pos(), func(c bool, st *shapeState, last bool) {
				f := fr
				if !last {
					f = fr.clone()
				}
				f.last = by
				k := 1
				if c {
					k = 0
				}
				e.goTo(f, b, b.Succs[k], st, done)
			})
			return
		case *ssa.Jump:
			e.goTo(fr, b, b.Succs[0], st, done)
			return
		case *ssa.Return:
			var res []sv
			for _, x := range in.Results {
				res = append(res, e.val(fr, x))
			}
			e.deep--
			done(res, st)
			e.deep++
			return
		case *ssa.Panic:
			if e.ended != nil {
				e.ended(st, nil, true)
			}
			if e.panics != nil && fr.last != "unknown" {
				e.panics(st, fr.fn, in.Pos())
			}
			return
		case *ssa.BinOp:
			i, x, y := i, e.val(fr, in.X), e.val(fr, in.Y)
			by := "type"
			for _, o := range []sv{x, y} {
				switch o.(type) {
				case svTerm, svSlice, svOut, svOutStruct:
					by = "unknown"
				}
			}
			e.binop(in, x, y, st, func(v sv, st *shapeState, last bool) {
				f := fr
				if !last {
					f = fr.clone()
				}
				f.env[in] = v
				f.by[in] = by
				e.instrs(f, b, i+1, st, done)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.NOT {
				i, by := i, fr.decidedBy(in.X, e.val(fr, in.X))
				e.branch(e.val(fr, in.X), st, in.Pos(), func(c bool, st *shapeState, last bool) {
					f := fr
					if !last {
						f = fr.clone()
					}
					f.env[in] = svBool(!c)
					f.by[in] = by
					e.instrs(f, b, i+1, st, done)
				})
				return
			}
			fr.env[in] = e.unop(fr, in, st)
		case *ssa.Call:
			i := i
			e.call(fr, in, st, func(v sv, st *shapeState, last bool) {
				f := fr
				if !last {
					f = fr.clone()
				}
				f.env[in] = v
				e.instrs(f, b, i+1, st, done)
			})
			return
		case *ssa.Store:
			v := e.val(fr, in.Val)
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && e.stored != nil {
				e.stored(fa, v)
			}
			e.store(st, e.val(fr, in.Addr), v)
		case *ssa.Alloc:
			c := svCell{e.fresh("cell")}
			fr.env[in] = c
			e.store(st, c, e.zero(derefType(in.Type())))
		case *ssa.DebugRef, *ssa.RunDefers, *ssa.Defer, *ssa.Go, *ssa.MapUpdate, *ssa.Send:
		case ssa.Value:
			fr.env[in] = e.value(fr, in, st)
		}
	}
}

func (e *shapeEval) val(fr *shapeFrame, v ssa.Value) sv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return svBool(constant.BoolVal(x.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return svInt(n)
			}
			return svTerm{key: x.Value.ExactString()}
		case constant.String:
			return svStr(constant.StringVal(x.Value))
		}
		return svTerm{key: x.Value.ExactString()}
	case *ssa.Function:
		return svFunc{fn: x}
	case *ssa.Global:
		if types.TypeString(derefType(x.Type()), nil) == "reflect.Type" {
			if s := e.p.typeVar(x); s != nil {
				return svHold{svRT{s}}
			}
		}
		return svOut{"global " + x.Name()}
	case *ssa.Builtin:
		return svTerm{key: x.Name()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return e.unknown(v.Type(), e.fresh("v"))
}

// branch follows both ways of c that are possible.
func (e *shapeEval) branch(c sv, st *shapeState, pos token.Pos, k func(c bool, st *shapeState, last bool)) {
	if b, ok := c.(svBool); ok {
		k(bool(b), st, true)
		return
	}
	t, ok := c.(svTerm)
	if !ok {
		t = svTerm{key: e.fresh("cond")}
	}
	if iv, ok := st.facts[t.key]; ok && iv.hasHi && iv.lo == iv.hi {
		k(iv.lo == 1, st, true)
		return
	}
	other := st.clone()
	st.facts[t.key] = interval{1, 1, true, nil}
	other.facts[t.key] = interval{0, 0, true, nil}
	k(true, st, false)
	k(false, other, true)
}

func (e *shapeEval) factsOf(st *shapeState, key string) interval {
	if iv, ok := st.facts[key]; ok {
		return iv
	}
	iv := interval{lo: -1 << 62}
	if strings.HasPrefix(key, "len(") {
		iv.lo = 0
	}
	return iv
}

func (e *shapeEval) binop(in *ssa.BinOp, x, y sv, st *shapeState, k func(v sv, st *shapeState, last bool)) {
	xi, xc := x.(svInt)
	yi, yc := y.(svInt)
	xt, xu := x.(svTerm)
	yt, yu := y.(svTerm)
	cmp := map[token.Token]bool{token.EQL: true, token.NEQ: true, token.LSS: true, token.LEQ: true, token.GTR: true, token.GEQ: true}[in.Op]
	key := func(v sv) string { return fmt.Sprint(v) }
	if !cmp {
		switch {
		case xc && yc:
			v := constant.BinaryOp
			var r constant.Value
			a, b := constant.MakeInt64(int64(xi)), constant.MakeInt64(int64(yi))
			switch in.Op {
			case token.SHL, token.SHR:
				if yi < 0 || yi > 63 {
					k(svTerm{key: e.fresh("shift")}, st, true)
					return
				}
				r = constant.Shift(a, in.Op, uint(yi))
			case token.QUO, token.REM:
				if yi == 0 {
					return // panics
				}
				op := in.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				r = v(a, op, b)
			case token.AND_NOT:
				r = v(a, in.Op, b)
			default:
				r = v(a, in.Op, b)
			}
			if n, ok := constant.Int64Val(r); ok {
				k(svInt(n), st, true)
				return
			}
			k(svTerm{key: r.ExactString()}, st, true)
			return
		case xu && yc && in.Op == token.ADD:
			k(svTerm{xt.key, xt.off + int64(yi)}, st, true)
			return
		case xu && yc && in.Op == token.SUB:
			k(svTerm{xt.key, xt.off - int64(yi)}, st, true)
			return
		case xc && yu && in.Op == token.ADD:
			k(svTerm{yt.key, yt.off + int64(xi)}, st, true)
			return
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			// & and | on booleans do not exist
			k(svTerm{key: e.fresh("bool")}, st, true)
			return
		}
		a, b := key(x), key(y)
		switch in.Op {
		case token.MUL, token.AND, token.OR, token.XOR, token.ADD:
			if xc {
				a, b = b, a
			}
		case token.QUO:
			// dividing by a power of two is a shift, for what is not negative
			if yc && yi > 0 && yi&(yi-1) == 0 {
				n := 0
				for 1<<uint(n) < int64(yi) {
					n++
				}
				k(svTerm{key: "(" + a + " >> " + strconv.Itoa(n) + ")"}, st, true)
				return
			}
		case token.REM:
			if yc && yi > 0 && yi&(yi-1) == 0 {
				k(svTerm{key: "(" + a + " & " + strconv.Itoa(int(yi-1)) + ")"}, st, true)
				return
			}
		}
		k(svTerm{key: "(" + a + " " + in.Op.String() + " " + b + ")"}, st, true)
		return
	}
	if xc && yc {
		k(svBool(constant.Compare(constant.MakeInt64(int64(xi)), in.Op, constant.MakeInt64(int64(yi)))), st, true)
		return
	}
	if a, ok := x.(svBool); ok {
		if b, ok := y.(svBool); ok {
			k(svBool((a == b) == (in.Op == token.EQL)), st, true)
			return
		}
	}
	if a, ok := x.(svStr); ok {
		if b, ok := y.(svStr); ok && (in.Op == token.EQL || in.Op == token.NEQ) {
			k(svBool((a == b) == (in.Op == token.EQL)), st, true)
			return
		}
	}
	// booleans compared with constants
	if b, ok := y.(svBool); ok && xu {
		e.branch(x, st, in.Pos(), func(c bool, st *shapeState, last bool) { k(svBool((c == bool(b)) == (in.Op == token.EQL)), st, last) })
		return
	}
	if b, ok := x.(svBool); ok && yu {
		e.branch(y, st, in.Pos(), func(c bool, st *shapeState, last bool) { k(svBool((c == bool(b)) == (in.Op == token.EQL)), st, last) })
		return
	}
	op := in.Op
	if xc && yu {
		x, y, xi, yi, xc, yc, xt, yt, xu, yu = y, x, yi, xi, yc, xc, yt, xt, yu, xu
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if xu && yc && isInteger(in.X.Type()) {
		e.compare(op, xt, int64(yi), st, in.Pos(), k)
		return
	}
	if xu && yu && xt.key == yt.key {
		k(svBool(constant.Compare(constant.MakeInt64(xt.off), op, constant.MakeInt64(yt.off))), st, true)
		return
	}
	// nil
	if eq, known := e.same(x, y); known && (op == token.EQL || op == token.NEQ) {
		k(svBool(eq == (op == token.EQL)), st, true)
		return
	}
	if op == token.EQL || op == token.NEQ {
		a, b := key(x), key(y)
		if a > b {
			a, b = b, a
		}
		e.branch(svTerm{key: "(" + a + " == " + b + ")"}, st, in.Pos(), func(c bool, st *shapeState, last bool) {
			k(svBool(c == (op == token.EQL)), st, last)
		})
		return
	}
	e.branch(svTerm{key: e.fresh("cmp")}, st, in.Pos(), func(c bool, st *shapeState, last bool) { k(svBool(c), st, last) })
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// same compares what is not a number.
func (e *shapeEval) same(x, y sv) (eq, known bool) {
	if _, ok := y.(svNil); ok {
		x, y = y, x
	}
	if _, ok := x.(svNil); ok {
		switch v := y.(type) {
		case svNil:
			return true, true
		case svInfo, svRT, svCell, svRV, svWrap, svFunc, svDyn:
			return false, true
		case svTerm:
			if strings.HasPrefix(v.key, "error#") {
				return false, true
			}
		}
		return false, false
	}
	// a nil slice
	if s, ok := x.(svSlice); ok {
		if t, ok := y.(svSlice); ok && (s.base == "nil" || t.base == "nil") {
			if t.base != "nil" {
				s, t = t, s
			}
			if s.base == "nil" {
				return true, true
			}
			if s.cell != nil {
				return false, true
			}
		}
		return false, false
	}
	if a, ok := x.(svRT); ok {
		if b, ok := y.(svRT); ok && a.s != nil && b.s != nil {
			if a.s == b.s {
				return true, true
			}
			if !a.s.eq(b.s) {
				return false, true
			}
		}
	}
	return false, false
}

// compare decides x op n, or follows both possibilities.
func (e *shapeEval) compare(op token.Token, x svTerm, n int64, st *shapeState, pos token.Pos, k func(v sv, st *shapeState, last bool)) {
	n -= x.off
	iv := e.factsOf(st, x.key)
	split := func(op token.Token) (interval, bool) {
		r := iv
		r.ne = append([]int64(nil), iv.ne...)
		setHi := func(h int64) {
			if !r.hasHi || h < r.hi {
				r.hi, r.hasHi = h, true
			}
		}
		switch op {
		case token.EQL:
			if n > r.lo {
				r.lo = n
			}
			setHi(n)
			if r.lo != n {
				return r, false
			}
		case token.NEQ:
			r.ne = append(r.ne, n)
		case token.LSS:
			setHi(n - 1)
		case token.LEQ:
			setHi(n)
		case token.GTR:
			if n+1 > r.lo {
				r.lo = n + 1
			}
		case token.GEQ:
			if n > r.lo {
				r.lo = n
			}
		}
		for ch := true; ch; {
			ch = false
			for _, x := range r.ne {
				if x == r.lo {
					r.lo++
					ch = true
				}
				if r.hasHi && x == r.hi {
					r.hi--
					ch = true
				}
			}
			if r.hasHi && r.hi < r.lo {
				return r, false
			}
		}
		return r, !r.hasHi || r.lo <= r.hi
	}
	neg := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	yes, can := split(op)
	no, cannot := split(neg)
	// taking a number apart says something of the number
	note := func(st *shapeState, iv interval) {
		if strings.HasPrefix(x.key, "len(") && iv.hasHi && iv.lo == iv.hi {
			st.event("len", iv.lo, x.key, pos)
		}
	}
	switch {
	case can && cannot:
		o := st.clone()
		st.facts[x.key] = yes
		note(st, yes)
		o.facts[x.key] = no
		note(o, no)
		k(svBool(true), st, false)
		k(svBool(false), o, true)
	case can:
		k(svBool(true), st, true)
	case cannot:
		k(svBool(false), st, true)
	}
}

// memory

func (e *shapeEval) store(st *shapeState, addr, v sv) {
	c, ok := addr.(svCell)
	if !ok {
		return
	}
	for k := range st.mem {
		if strings.HasPrefix(k, c.path+".") {
			delete(st.mem, k)
		}
	}
	delete(st.mem, c.path)
	if s, ok := v.(svStruct); ok {
		st.mem[c.path] = svStruct{}
		for f, x := range s.f {
			e.store(st, svCell{c.path + "." + f}, x)
		}
		return
	}
	st.mem[c.path] = v
}

func (e *shapeEval) load(st *shapeState, path string, t types.Type) sv {
	v, ok := st.mem[path]
	if ok {
		if _, isStruct := v.(svStruct); !isStruct {
			return v
		}
		f := map[string]sv{}
		u, isSt := t.Underlying().(*types.Struct)
		if isSt {
			for i := 0; i < u.NumFields(); i++ {
				f[u.Field(i).Name()] = e.load(st, path+"."+u.Field(i).Name(), u.Field(i).Type())
			}
			return svStruct{f}
		}
		var keys []string
		for k := range st.mem {
			if strings.HasPrefix(k, path+".") && !strings.Contains(k[len(path)+1:], ".") {
				keys = append(keys, k)
			}
		}
		for _, k := range keys {
			f[k[len(path)+1:]] = st.mem[k]
		}
		return svStruct{f}
	}
	// part of a whole that was stored
	for i := len(path) - 1; i > 0; i-- {
		if path[i] != '.' {
			continue
		}
		if w, ok := st.mem[path[:i]]; ok {
			return e.part(w, strings.Split(path[i+1:], "."), t)
		}
	}
	return e.unknown(t, e.fresh("mem"))
}

// part is a field of a struct value.
func (e *shapeEval) part(w sv, fields []string, t types.Type) sv {
	for n, f := range fields {
		switch x := w.(type) {
		case svStruct:
			v, ok := x.f[f]
			if !ok {
				if _, err := strconv.Atoi(f); err == nil {
					return e.zero(t)
				}
				return e.unknown(t, e.fresh("field"))
			}
			w = v
		case svInfo:
			w = svInfo{x.s, x.path + "." + f, x.field}
		case svOutStruct:
			if n == len(fields)-1 {
				return e.unknown(t, x.key+"."+strings.Join(fields[n:], "."))
			}
			return e.unknown(t, x.key+"."+strings.Join(fields[n:], "."))
		default:
			return e.unknown(t, e.fresh("field"))
		}
	}
	if i, ok := w.(svInfo); ok {
		return e.infoField(i, t)
	}
	return w
}

// infoField is the content of a field of a type info.
func (e *shapeEval) infoField(i svInfo, t types.Type) sv {
	f := i.path[strings.LastIndex(i.path, ".")+1:]
	if types.TypeString(t, nil) == "reflect.Type" {
		if f == "Type" {
			return svRT{i.s}
		}
		if strings.HasSuffix(f, "ReprType") {
			return svRT{reprShape}
		}
	}
	if isReflectValue(t) {
		return svRV{s: i.s, id: e.fresh(f)}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && i.s != nil && isNamed(sl.Elem(), e.p.Main.Pkg, "FieldInfo") {
		return svSlice{n: svTerm{key: "len(" + f + ")"}, base: f, elem: svInfo{s: i.s.elem, field: "?"}}
	}
	if v, ok := e.flags[f]; ok {
		return v
	}
	if i.field == "" && e.infoFlags != nil && isBool(t) {
		if v := e.infoFlags(i.s, f); v != nil {
			return v
		}
	}
	if i.field != "" && e.fieldFlags != nil {
		if v := e.fieldFlags(i.s, f); v != nil {
			return v
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return i
	}
	return e.unknown(t, i.field+"info("+i.s.String()+")"+i.path)
}

func (e *shapeEval) unop(fr *shapeFrame, in *ssa.UnOp, st *shapeState) sv {
	x := e.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		switch a := x.(type) {
		case svCell:
			return e.load(st, a.path, in.Type())
		case svInfo:
			if a.path == "" {
				return a
			}
			return e.infoField(a, in.Type())
		case svHold:
			return a.v
		case svOut:
			key := e.fresh(a.path)
			if strings.HasPrefix(a.path, "elem ") {
				key = a.path
			}
			return e.unknown(in.Type(), key)
		}
		return e.unknown(in.Type(), e.fresh("load"))
	case token.SUB:
		if n, ok := x.(svInt); ok {
			return svInt(-n)
		}
	}
	return e.unknown(in.Type(), e.fresh("unop"))
}

func fieldName(t types.Type, i int) string {
	if st, ok := derefType(t).Underlying().(*types.Struct); ok {
		return st.Field(i).Name()
	}
	return strconv.Itoa(i)
}

// value evaluates what neither branches nor calls.
func (e *shapeEval) value(fr *shapeFrame, v ssa.Value, st *shapeState) sv {
	switch in := v.(type) {
	case *ssa.FieldAddr:
		f := fieldName(in.X.Type(), in.Field)
		switch a := e.val(fr, in.X).(type) {
		case svCell:
			return svCell{a.path + "." + f}
		case svInfo:
			return svInfo{a.s, a.path + "." + f, a.field}
		case svOut:
			return svOut{a.path + "." + f}
		}
	case *ssa.Field:
		return e.part(e.val(fr, in.X), []string{fieldName(in.X.Type(), in.Field)}, in.Type())
	case *ssa.IndexAddr:
		x, i := e.val(fr, in.X), e.val(fr, in.Index)
		n, known := i.(svInt)
		switch a := x.(type) {
		case svCell:
			if known {
				return svCell{a.path + "." + strconv.Itoa(int(n))}
			}
		case svSlice:
			switch x := a.elem.(type) {
			case svInfo:
				x.field = e.fresh("field")
				return x
			case svRV:
				x.id = e.fresh("elem")
				return svHold{x}
			}
			if known && a.cell != nil {
				return svCell{a.cell.path + "." + strconv.Itoa(int(n+svInt(a.from)))}
			}
			if known {
				return svOut{"elem " + a.base + "[" + strconv.Itoa(int(n)) + "]"}
			}
		}
		return svOut{e.fresh("elem")}
	case *ssa.Extract:
		if t, ok := e.val(fr, in.Tuple).(svTuple); ok && in.Index < len(t) {
			return t[in.Index]
		}
	case *ssa.Convert:
		x := e.val(fr, in.X)
		if n, ok := x.(svInt); ok && isInteger(in.Type()) {
			return truncTo(n, in.Type())
		}
		if isInteger(in.Type()) && isInteger(in.X.Type()) {
			return x
		}
		if s, ok := x.(svSlice); ok {
			if isByteSlice(in.Type()) {
				return s
			}
		}
		return e.unknown(in.Type(), e.fresh("conv"))
	case *ssa.ChangeType:
		return e.val(fr, in.X)
	case *ssa.ChangeInterface:
		return e.val(fr, in.X)
	case *ssa.MakeInterface:
		x := e.val(fr, in.X)
		switch x.(type) {
		case svRT, svDyn:
			return x
		}
		return svWrap{x, in.X.Type()}
	case *ssa.TypeAssert:
		x := e.val(fr, in.X)
		if w, ok := x.(svWrap); ok && types.Identical(w.t, in.AssertedType) {
			if in.CommaOk {
				return svTuple{w.v, svBool(true)}
			}
			return w.v
		}
		if _, ok := x.(svRT); ok && !in.CommaOk {
			return x
		}
		if d, ok := x.(svDyn); ok && !in.CommaOk && d.s != nil && e.misused != nil {
			e.uses++
			switch {
			case d.s.kind == reflect.Interface:
				e.misused(st, "what is held in an interface, if anything, is taken for "+types.TypeString(in.AssertedType, nil), in.Pos())
			case !types.IsInterface(in.AssertedType) && !(isNamedType(in.AssertedType, "time", "Time") && d.s.eq(timeShape)):
				e.misused(st, "a value of type "+d.s.String()+" is taken for "+types.TypeString(in.AssertedType, nil), in.Pos())
			}
		}
		if types.IsInterface(in.AssertedType) && !in.CommaOk {
			return svTerm{key: e.fresh("error")} // not nil, or it panics
		}
		return e.unknown(in.Type(), e.fresh("assert"))
	case *ssa.Slice:
		return e.slice(fr, in, st)
	case *ssa.MakeSlice:
		c := svCell{e.fresh("made")}
		st.mem[c.path] = svStruct{}
		return svSlice{n: e.val(fr, in.Len), cell: &c}
	case *ssa.MakeClosure:
		f := svFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, e.val(fr, b))
		}
		return f
	case *ssa.Lookup:
		// a description of a type is that of the type it is filed under
		t := in.Type()
		if tu, ok := t.(*types.Tuple); ok {
			t = tu.At(0).Type()
		}
		if isTypeInfo(t, e.p) {
			info := sv(svInfo{s: e.other})
			if rt, ok := e.val(fr, in.Index).(svRT); ok {
				info = svInfo{s: rt.s}
			}
			if in.CommaOk {
				return svTuple{info, svTerm{key: e.fresh("ok")}}
			}
			return info
		}
	}
	return e.unknown(v.Type(), e.fresh("val"))
}

func truncTo(n svInt, t types.Type) sv {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Uint8:
		return svInt(uint8(n))
	case types.Uint16:
		return svInt(uint16(n))
	case types.Uint32:
		return svInt(uint32(n))
	case types.Int8:
		return svInt(int8(n))
	case types.Int16:
		return svInt(int16(n))
	case types.Int32:
		return svInt(int32(n))
	}
	return n
}

func (e *shapeEval) slice(fr *shapeFrame, in *ssa.Slice, st *shapeState) sv {
	x := e.val(fr, in.X)
	lo, hi := sv(svInt(0)), sv(nil)
	if in.Low != nil {
		lo = e.val(fr, in.Low)
	}
	if in.High != nil {
		hi = e.val(fr, in.High)
	}
	var s svSlice
	switch a := x.(type) {
	case svSlice:
		s = a
	case svCell:
		at, ok := derefType(in.X.Type()).Underlying().(*types.Array)
		if !ok {
			return e.unknown(in.Type(), e.fresh("slice"))
		}
		s = svSlice{n: svInt(at.Len()), cell: &a}
	default:
		return e.unknown(in.Type(), e.fresh("slice"))
	}
	s.skip = append([]string(nil), s.skip...)
	if hi != nil {
		s.n = hi
		if s.cell == nil {
			s.base = s.base + "[:" + fmt.Sprint(hi) + "]"
		}
	}
	if n, ok := lo.(svInt); ok {
		if n == 0 {
			return s
		}
		s.from += int64(n)
		switch l := s.n.(type) {
		case svInt:
			s.n = l - n
		case svTerm:
			s.n = svTerm{l.key, l.off - int64(n)}
		}
		if s.cell == nil {
			s.base = s.base + "[" + strconv.Itoa(int(n)) + ":]"
		}
		return s
	}
	s.skip = append(s.skip, fmt.Sprint(lo))
	s.cell = nil
	s.base = e.fresh(s.base + "[" + fmt.Sprint(lo) + ":]")
	s.n = svTerm{key: "len(" + s.base + ")"}
	return s
}

func (e *shapeEval) results(t types.Type, vals ...sv) sv {
	if len(vals) == 1 {
		return vals[0]
	}
	return svTuple(vals)
}

// call evaluates a call; k continues after it.
func (e *shapeEval) call(fr *shapeFrame, in *ssa.Call, st *shapeState, k func(v sv, st *shapeState, last bool)) {
	cc := in.Common()
	var args []sv
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a))
	}
	unk := func() { k(e.unknown(in.Type(), e.fresh("call")), st, true) }
	if cc.IsInvoke() {
		k(e.invoke(fr, in, e.val(fr, cc.Value), args, st), st, true)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		k(e.builtin(b.Name(), in, args, st), st, true)
		return
	}
	var fn *ssa.Function
	var bind []sv
	if f, ok := e.val(fr, cc.Value).(svFunc); ok {
		fn, bind = f.fn, f.bind
	}
	if fn == nil {
		unk()
		return
	}
	if v, ok := e.intrinsic(fn, in, args, st, k); ok {
		if v != nil {
			k(v, st, true)
		}
		return
	}
	if fn.Blocks == nil {
		unk()
		return
	}
	if e.stop != nil && e.stop(fn, args, st, in.Pos()) {
		return
	}
	if e.opaque != nil && e.opaque(fn, args, st, in.Pos()) {
		for _, a := range args {
			if rv, ok := a.(svRV); ok {
				// may have been set
				for f := range st.facts {
					if strings.HasPrefix(f, "nil("+rv.id) {
						delete(st.facts, f)
					}
				}
			}
		}
		unk()
		return
	}
	outer := st.path[:len(st.path):len(st.path)]
	st.path = append(outer, shortName(fn))
	e.run(fn, args, bind, st, func(res []sv, st *shapeState) {
		st.path = outer
		var v sv
		switch len(res) {
		case 0:
		case 1:
			v = res[0]
		default:
			v = svTuple(res)
		}
		k(v, st, false)
	})
}

// written records bytes that are written.
func (e *shapeEval) written(v sv, st *shapeState, pos token.Pos) {
	s, ok := v.(svSlice)
	if !ok || s.cell == nil {
		if c, ok := v.(svInt); ok {
			st.event("key", int64(c), "", pos)
			return
		}
		st.event("raw", 0, fmt.Sprint(v), pos)
		return
	}
	n, ok := s.n.(svInt)
	if ok && n == 0 {
		return
	}
	if ok && n == 1 {
		if b, ok := st.mem[s.cell.path+"."+strconv.Itoa(int(s.from))].(svInt); ok {
			st.event("key", int64(b), "", pos)
			return
		}
	}
	st.event("raw", 0, "", pos)
}

func (e *shapeEval) builtin(name string, in *ssa.Call, args []sv, st *shapeState) sv {
	switch name {
	case "len":
		switch s := args[0].(type) {
		case svSlice:
			return s.n
		case svStr:
			return svInt(len(s))
		}
		return svTerm{key: "len(" + e.fresh("v") + ")"}
	case "append":
		if sl, ok := in.Type().Underlying().(*types.Slice); ok && e.appended != nil && len(args) == 2 {
			if t, ok := args[1].(svSlice); ok && t.cell != nil {
				e.appended(sl.Elem(), e.load(st, t.cell.path+"."+strconv.Itoa(int(t.from)), sl.Elem()))
			}
		}
		if s, ok := args[0].(svSlice); ok && len(args) == 2 {
			if n, ok := s.n.(svInt); ok && n == 0 {
				if t, ok := args[1].(svSlice); ok {
					return t
				}
			}
		}
	}
	if in.Type() == nil {
		return nil
	}
	return e.unknown(in.Type(), e.fresh(name))
}

func (e *shapeEval) invoke(fr *shapeFrame, in *ssa.Call, recv sv, args []sv, st *shapeState) sv {
	name := in.Common().Method.Name()
	if types.TypeString(in.Common().Value.Type(), nil) == "reflect.Type" {
		var s *shp
		id := fmt.Sprint(recv)
		if rt, ok := recv.(svRT); ok {
			s = rt.s
			if ks, ok := typeUses[name]; ok && s != nil && ks>>uint(s.kind)&1 == 0 && e.misused != nil {
				e.misused(st, "reflect.Type."+name+" of "+s.String(), in.Pos())
			}
			id = rt.s.String()
		}
		return e.typeMethod(name, s, id, in.Type(), args)
	}
	if strings.HasPrefix(name, "Write") && len(args) == 1 {
		e.written(args[0], st, in.Pos())
	}
	return e.unknown(in.Type(), e.fresh(name))
}

func (e *shapeEval) typeMethod(name string, s *shp, id string, t types.Type, args []sv) sv {
	switch name {
	case "Kind":
		if s != nil {
			return svInt(s.kind)
		}
		return svTerm{key: "kind(" + id + ")"}
	case "Elem":
		if s != nil {
			return svRT{s.elem}
		}
	case "Key":
		return svRT{keyShape}
	case "Field":
		if s != nil && s.elem != nil {
			return svStruct{map[string]sv{"Type": svRT{s.elem}}}
		}
	case "Implements", "AssignableTo", "ConvertibleTo", "Comparable":
		return svTerm{key: fmt.Sprintf("%s(%s, %v)", name, id, args)}
	}
	return e.unknown(t, e.fresh(name))
}

// intrinsic evaluates calls of functions whose meaning is known. It returns
// false for all others; a nil value when it has called k itself.
func (e *shapeEval) intrinsic(fn *ssa.Function, in *ssa.Call, args []sv, st *shapeState, k func(v sv, st *shapeState, last bool)) (sv, bool) {
	name := fn.String()
	sig := fn.Signature
	if strings.HasPrefix(name, "(reflect.Value).") {
		rv, ok := args[0].(svRV)
		if !ok {
			rv = svRV{id: e.fresh("rv")}
		}
		e.checkUse(fn.Name(), rv, args, st, in)
		switch fn.Name() {
		case "Kind":
			if rv.s != nil {
				return svInt(rv.s.kind), true
			}
			return svTerm{key: "kind(" + rv.id + ")"}, true
		case "Type":
			if rv.s == nil {
				return svTerm{key: "type(" + rv.id + ")"}, true
			}
			return svRT{rv.s}, true
		case "Elem":
			if rv.s != nil && rv.s.kind == reflect.Ptr {
				return svRV{s: rv.s.elem, id: rv.id + ".e", addr: true}, true
			}
			if rv.s != nil && rv.s.kind == reflect.Interface && e.held != nil {
				e.held(st, rv.id+".e", rv.dyn)
			}
			return svRV{s: rv.dyn, id: rv.id + ".e"}, true
		case "Index", "Field":
			if rv.s != nil {
				r := svRV{s: rv.s.elem, id: e.fresh(rv.id + ".i"), addr: rv.addr || rv.s.kind == reflect.Slice}
				if rv.s.kind == reflect.String {
					r.s = &shp{kind: reflect.Uint8}
				}
				if r.s != nil && r.s.kind == reflect.Interface {
					r.dyn = e.dyn
				}
				return r, true
			}
		case "MapIndex":
			if rv.s != nil && rv.s.kind == reflect.Map {
				return svRV{s: rv.s.elem, dyn: e.dyn, id: e.fresh(rv.id + ".m")}, true
			}
		case "MethodByName", "Method":
			return svRV{s: &shp{kind: reflect.Func}, id: e.fresh("method")}, true
		case "MapKeys":
			id := e.fresh("keys")
			return svSlice{n: svTerm{key: "len(" + id + ")"}, base: id, elem: svRV{s: keyShape, id: id}}, true
		case "Call":
			id := e.fresh("results")
			return svSlice{n: svTerm{key: "len(" + id + ")"}, base: id, elem: svRV{s: reprShape, id: id}}, true
		case "Addr":
			return svRV{s: ptrTo(rv.s, 1), id: rv.id + ".a"}, true
		case "IsValid":
			return svBool(rv.s == nil || rv.s.kind != reflect.Invalid), true
		case "IsNil":
			return svTerm{key: "nil(" + rv.id + ")"}, true
		case "CanAddr", "CanSet":
			if rv.s != nil {
				return svBool(rv.addr), true
			}
		case "Interface":
			return svDyn{rv.s}, true
		case "Slice":
			if rv.s != nil && rv.s.kind == reflect.Array {
				return svRV{s: &shp{kind: reflect.Slice, elem: rv.s.elem}, id: e.fresh("slice")}, true
			}
			return svRV{s: rv.s, id: e.fresh("slice")}, true
		case "Set":
			delete(st.facts, "nil("+rv.id+")")
			if v, ok := args[1].(svRV); ok {
				if iv, ok := st.facts["nil("+v.id+")"]; ok {
					st.facts["nil("+rv.id+")"] = iv
				}
			}
			return svTuple{}, true
		}
		return e.unknown(in.Type(), e.fresh(fn.Name())), true
	}
	switch name {
	case "reflect.ValueOf":
		switch d := args[0].(type) {
		case svDyn:
			return svRV{s: d.s, id: "arg"}, true
		case svWrap:
			if s := shapeOfType(d.t, 0); s != nil {
				return svRV{s: s, id: e.fresh("rv")}, true
			}
		}
		return svRV{id: e.fresh("rv")}, true
	case "reflect.TypeOf":
		if d, ok := args[0].(svDyn); ok {
			return svRT{d.s}, true
		}
		return svTerm{key: e.fresh("rt")}, true
	case "reflect.Indirect":
		if rv, ok := args[0].(svRV); ok && rv.s != nil {
			if rv.s.kind == reflect.Ptr {
				return svRV{s: rv.s.elem, id: rv.id + ".e", addr: true}, true
			}
			return rv, true
		}
		return svRV{id: e.fresh("rv")}, true
	case "reflect.SliceOf":
		if rt, ok := args[0].(svRT); ok {
			return svRT{&shp{kind: reflect.Slice, elem: rt.s}}, true
		}
	case "reflect.Append", "reflect.AppendSlice":
		if rv, ok := args[0].(svRV); ok {
			e.checkUse(fn.Name(), rv, args, st, in)
			return svRV{s: rv.s, id: e.fresh("app")}, true
		}
	case "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize":
		if rt, ok := args[0].(svRT); ok {
			e.checkUse(fn.Name(), svRV{s: rt.s}, args, st, in)
			id := e.fresh("made")
			st.facts["nil("+id+")"] = interval{0, 0, true, nil}
			return svRV{s: rt.s, id: id}, true
		}
	case "reflect.New":
		if rt, ok := args[0].(svRT); ok {
			id := e.fresh("new")
			st.facts["nil("+id+")"] = interval{0, 0, true, nil}
			return svRV{s: ptrTo(rt.s, 1), id: id}, true
		}
		return svRV{id: e.fresh("new")}, true
	case "reflect.Zero":
		if rt, ok := args[0].(svRT); ok {
			return svRV{s: rt.s, id: e.fresh("zero")}, true
		}
		return svRV{id: e.fresh("zero")}, true
	case "reflect.PtrTo", "reflect.PointerTo":
		if rt, ok := args[0].(svRT); ok {
			return svRT{ptrTo(rt.s, 1)}, true
		}
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.Errorf":
		return svTerm{key: e.fresh("error")}, true
	case "encoding/binary.PutUvarint":
		s, _ := args[0].(svSlice)
		if n, ok := args[1].(svInt); ok && n >= 0 && n < 128 && s.cell != nil {
			st.mem[s.cell.path+"."+strconv.Itoa(int(s.from))] = n
			return svInt(1), true
		}
		if s.cell != nil {
			e.store(st, *s.cell, svTerm{key: e.fresh("uvarint")})
		}
		return svTerm{key: e.fresh("n")}, true
	case "encoding/binary.Uvarint":
		id := e.fresh("DecodeUvarint")
		st.event("read", 0, "DecodeUvarint "+id, in.Pos())
		return svTuple{svTerm{key: id}, svTerm{key: id + ".n"}}, true
	case "bytes.NewBuffer":
		return svOut{e.fresh("buffer")}, true
	}
	if fn.Pkg != nil && fn.Pkg != e.p.Main && fn.Blocks == nil {
		if strings.HasPrefix(fn.Name(), "Write") && sig.Recv() != nil && len(args) == 2 {
			e.written(args[1], st, in.Pos())
		}
		return nil, false
	}
	if fn.Pkg == e.p.Main && sig.Recv() == nil && fn.Object() != nil && fn.Object().Exported() {
		res := sig.Results()
		// the scalar encoders
		if strings.HasPrefix(fn.Name(), "Encode") && len(args) == 2 && types.TypeString(sig.Params().At(0).Type(), nil) == "io.Writer" {
			if n, ok := args[1].(svInt); ok && fn.Name() == "EncodeUvarint" && n >= 0 && n < 128 {
				st.event("key", int64(n), "", in.Pos())
			} else {
				st.event("raw", 0, fn.Name(), in.Pos())
			}
			return e.unknown(in.Type(), e.fresh("err")), true
		}
		if strings.HasPrefix(fn.Name(), "Decode") && len(args) == 1 && isByteSlice(sig.Params().At(0).Type()) {
			id := e.fresh(fn.Name())
			st.event("read", 0, fn.Name()+" "+id, in.Pos())
			_ = res
			v := e.unknown(in.Type(), id)
			if t, ok := v.(svTuple); ok && res.Len() > 0 && isInteger(res.At(0).Type()) {
				t[0] = svTerm{key: id}
			}
			return v, true
		}
	}
	// descriptions of types
	if fn.Pkg == e.p.Main && sig.Results().Len() > 0 && sig.Results().Len() <= 2 && isTypeInfo(sig.Results().At(0).Type(), e.p) {
		if _, ptr := sig.Results().At(0).Type().Underlying().(*types.Pointer); ptr {
			info := svInfo{s: e.other}
			for i, a := range args {
				switch x := a.(type) {
				case svRT:
					info = svInfo{s: x.s.deref()}
				case svTerm:
					if types.TypeString(fn.Params[i].Type(), nil) == "reflect.Type" {
						info = svInfo{}
					}
				}
			}
			if sig.Results().Len() == 1 {
				return info, true
			}
			return svTuple{info, e.unknown(sig.Results().At(1).Type(), e.fresh("err"))}, true
		}
	}
	return nil, false
}

// dispatcher is the function that every cycle of the recursive functions goes
// through and that calls most of the others.
func dispatcher(p *Program, scc []*ssa.Function) *ssa.Function {
	in := map[*ssa.Function]bool{}
	for _, f := range scc {
		in[f] = true
	}
	var best *ssa.Function
	most := -1
	for _, f := range scc {
		without := map[*ssa.Function]bool{}
		for _, g := range scc {
			if g != f {
				without[g] = true
			}
		}
		cyclic := false
		for g := range without {
			seen := map[*ssa.Function]bool{}
			var walk func(h *ssa.Function)
			walk = func(h *ssa.Function) {
				for _, c := range staticCallees(p, h) {
					if c == g {
						cyclic = true
					}
					if without[c] && !seen[c] {
						seen[c] = true
						walk(c)
					}
				}
			}
			walk(g)
		}
		if cyclic {
			continue
		}
		n := 0
		for _, c := range staticCallees(p, f) {
			if in[c] {
				n++
			}
		}
		if n > most {
			best, most = f, n
		}
	}
	return best
}

// allShapes lists the shapes of types that are told apart: every kind, lists
// of every kind, and lists of pointers and lists to every kind.
func allShapes() []*shp {
	var leaf []*shp
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		switch k {
		case reflect.Array, reflect.Slice, reflect.Ptr:
			continue
		}
		leaf = append(leaf, &shp{kind: k})
	}
	out := append([]*shp(nil), leaf...)
	list := []reflect.Kind{reflect.Array, reflect.Slice}
	for _, k := range list {
		for _, l := range leaf {
			out = append(out, &shp{kind: k, elem: l}, &shp{kind: k, elem: ptrTo(l, 1)})
			for _, k2 := range list {
				out = append(out, &shp{kind: k, elem: &shp{kind: k2, elem: l}}, &shp{kind: k, elem: ptrTo(&shp{kind: k2, elem: l}, 1)}, &shp{kind: k, elem: &shp{kind: k2, elem: ptrTo(l, 1)}})
			}
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var keyShape = &shp{kind: reflect.String}

func kinds(ks ...reflect.Kind) uint64 {
	var m uint64
	for _, k := range ks {
		m |= 1 << uint(k)
	}
	return m
}

var (
	intKinds   = kinds(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	uintKinds  = kinds(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	floatKinds = kinds(reflect.Float32, reflect.Float64)
	anyKind    = ^kinds(reflect.Invalid)
	nilKinds   = kinds(reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer)
)

// valueUses lists the kinds of values that have a method of reflect.Value.
var valueUses = map[string]uint64{
	"Int": intKinds, "SetInt": intKinds, "OverflowInt": intKinds,
	"Uint": uintKinds, "SetUint": uintKinds, "OverflowUint": uintKinds,
	"Float": floatKinds, "SetFloat": floatKinds, "OverflowFloat": floatKinds,
	"Bool": kinds(reflect.Bool), "SetBool": kinds(reflect.Bool),
	"SetString": kinds(reflect.String), "SetBytes": kinds(reflect.Slice),
	"Bytes": kinds(reflect.Slice, reflect.Array),
	"Len":   kinds(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String),
	"Cap":   kinds(reflect.Array, reflect.Chan, reflect.Slice),
	"Index": kinds(reflect.Array, reflect.Slice, reflect.String),
	"Slice": kinds(reflect.Array, reflect.Slice, reflect.String),
	"IsNil": nilKinds, "Elem": kinds(reflect.Interface, reflect.Ptr),
	"Field": kinds(reflect.Struct), "NumField": kinds(reflect.Struct),
	"MapKeys": kinds(reflect.Map), "MapIndex": kinds(reflect.Map), "MapRange": kinds(reflect.Map), "SetMapIndex": kinds(reflect.Map),
	"SetLen": kinds(reflect.Slice), "SetCap": kinds(reflect.Slice),
	"Type": anyKind, "Interface": anyKind, "Set": anyKind, "Addr": anyKind, "IsZero": anyKind, "MethodByName": anyKind, "NumMethod": anyKind, "Convert": anyKind, "Call": anyKind,
	"Append": kinds(reflect.Slice), "AppendSlice": kinds(reflect.Slice), "MakeSlice": kinds(reflect.Slice), "MakeMap": kinds(reflect.Map), "MakeMapWithSize": kinds(reflect.Map),
}

var typeUses = map[string]uint64{
	"Elem": kinds(reflect.Array, reflect.Chan, reflect.Map, reflect.Ptr, reflect.Slice),
	"Key":  kinds(reflect.Map), "Len": kinds(reflect.Array),
	"Field": kinds(reflect.Struct), "NumField": kinds(reflect.Struct),
}

// checkUse reports an operation that the value does not support.
func (e *shapeEval) checkUse(name string, rv svRV, args []sv, st *shapeState, in *ssa.Call) {
	if e.misused == nil {
		return
	}
	bad := func(f string, a ...interface{}) { e.misused(st, fmt.Sprintf(f, a...), in.Pos()) }
	e.uses++
	ks, ok := valueUses[name]
	if !ok {
		return
	}
	if rv.s == nil {
		bad("reflect.Value.%s of a value of unknown type", name)
		return
	}
	if rv.s.name == "repr" {
		if rv.s.kind == reflect.Struct && name != "Field" {
			ks = anyKind
		}
	}
	if ks>>uint(rv.s.kind)&1 == 0 {
		bad("reflect.Value.%s of a value of type %s", name, rv.s)
		return
	}
	switch name {
	case "MethodByName", "Method":
		if rv.s.kind == reflect.Interface {
			bad("reflect.Value.%s of an interface, which may hold nothing", name)
		}
	case "Bytes", "SetBytes":
		if rv.s.elem != nil && rv.s.elem.kind != reflect.Uint8 {
			bad("reflect.Value.%s of a value of type %s", name, rv.s)
		}
	case "Slice":
		if rv.s.kind == reflect.Array && !rv.addr {
			bad("reflect.Value.Slice of an array that is not addressable")
		}
	case "Addr":
		if !rv.addr {
			bad("reflect.Value.Addr of a value that is not addressable")
		}
	case "Call":
		return
	}
	if strings.HasPrefix(name, "Set") && name != "SetMapIndex" && !rv.addr {
		bad("reflect.Value.%s of a value that is not addressable", name)
	}
	if name == "SetMapIndex" {
		if iv, ok := st.facts["nil("+rv.id+")"]; !ok || iv.hi != 0 || !iv.hasHi {
			bad("reflect.Value.SetMapIndex of a map that may be nil")
		}
		if v, ok := args[2].(svRV); ok && !assignable(v.s, rv.s.elem) {
			bad("a value of type %s is put in a %s", v.s, rv.s)
		}
	}
	if name == "Set" {
		if v, ok := args[1].(svRV); ok && !assignable(v.s, rv.s) {
			bad("a value of type %s is set to one of type %s", rv.s, v.s)
		}
	}
	if name == "Append" {
		if sl, ok := args[1].(svSlice); ok && sl.cell != nil {
			if v, ok := st.mem[sl.cell.path+"."+strconv.Itoa(int(sl.from))].(svRV); ok && !assignable(v.s, rv.s.elem) {
				bad("a value of type %s is appended to a %s", v.s, rv.s)
			}
		}
	}
}

func assignable(v, t *shp) bool {
	if v == nil || t == nil {
		return false
	}
	return v.eq(t) || t.kind == reflect.Interface || v.name != "" || t.name != ""
}

var timeShape = &shp{kind: reflect.Struct, elem: &shp{kind: reflect.Int64}, name: "time"}

// shapeOfType is the shape of a type of Go.
func shapeOfType(t types.Type, depth int) *shp {
	if isNamedType(t, "time", "Time") {
		return timeShape
	}
	s := &shp{}
	if n, ok := t.(*types.Named); ok {
		s.name = n.Obj().Name()
	}
	if depth > 3 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for k := reflect.Bool; k <= reflect.Complex128; k++ {
			if k.String() == u.Name() {
				s.kind = k
			}
		}
		if u.Kind() == types.String {
			s.kind = reflect.String
		}
		if s.kind == reflect.Invalid {
			return nil
		}
		return s
	case *types.Pointer:
		s.kind, s.elem = reflect.Ptr, shapeOfType(u.Elem(), depth+1)
	case *types.Slice:
		s.kind, s.elem = reflect.Slice, shapeOfType(u.Elem(), depth+1)
	case *types.Array:
		s.kind, s.elem = reflect.Array, shapeOfType(u.Elem(), depth+1)
	case *types.Interface:
		s.kind = reflect.Interface
		return s
	case *types.Struct:
		s.kind, s.elem = reflect.Struct, &shp{kind: reflect.Int64}
	default:
		return nil
	}
	if s.elem == nil {
		return nil
	}
	return s
}

// typeVar is the type that a package variable of type reflect.Type is
// initialized with.
func (p *Program) typeVar(g *ssa.Global) *shp {
	if g.Pkg == nil || g.Pkg != p.Main {
		return nil
	}
	var found *shp
	n := 0
	for _, f := range p.Main.Members {
		fn, ok := f.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				n++
				v := st.Val
				elems := 0
				for {
					c, ok := v.(*ssa.Call)
					if !ok {
						break
					}
					cc := c.Common()
					if cc.IsInvoke() && cc.Method.Name() == "Elem" {
						elems++
						v = cc.Value
						continue
					}
					if calleeName(cc) == "reflect.TypeOf" && len(cc.Args) == 1 {
						if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
							found = shapeOfType(mi.X.Type(), 0)
						}
					}
					break
				}
				for ; elems > 0 && found != nil; elems-- {
					found = found.elem
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return found
}

func isNamedType(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}
