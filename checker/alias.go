package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a value has to do with the memory that is watched.
const (
	inMem  uint8 = 1 // refers to the memory itself
	holds  uint8 = 2 // refers to memory in which such references are kept
	pooled uint8 = 4 // memory that is kept for later use
)

// aliasFlow follows references to some memory through a set of functions:
// flow-insensitive, with one summary per function.
type aliasFlow struct {
	p     *Program
	r     *Result
	rule  string // prefix of the rules
	mem   string // what is watched, for messages
	fns   []*ssa.Function
	set   map[*ssa.Function]bool
	lab   map[ssa.Value]uint8
	cell  map[ssa.Value]uint8   // variables: what they contain
	tup   map[ssa.Value][]uint8 // results of calls with several results
	ret   map[*ssa.Function][]uint8
	fresh map[*ssa.Function]bool

	bytesOnly bool // only bytes are protected against writes
	ignoreSet bool // what reflect setters store is not followed
	noSet     bool // no reference may be stored in a reflect.Value
	ch        bool
	sinks     int
	clos      map[*ssa.Function][]*ssa.MakeClosure
}

func newAliasFlow(p *Program, r *Result, rule, mem string, roots []*ssa.Function) *aliasFlow {
	a := &aliasFlow{p: p, r: r, rule: rule, mem: mem, set: map[*ssa.Function]bool{}, lab: map[ssa.Value]uint8{}, cell: map[ssa.Value]uint8{}, tup: map[ssa.Value][]uint8{},
		ret: map[*ssa.Function][]uint8{}, fresh: freshFuncs(p), clos: map[*ssa.Function][]*ssa.MakeClosure{}}
	for f := range reachable(p, roots...) {
		if f.Blocks != nil && f.Pkg == p.Main {
			a.set[f] = true
			a.fns = append(a.fns, f)
		}
	}
	sort.Slice(a.fns, func(i, j int) bool {
		if a.fns[i].Pos() != a.fns[j].Pos() {
			return a.fns[i].Pos() < a.fns[j].Pos()
		}
		return a.fns[i].String() < a.fns[j].String()
	})
	for _, f := range a.fns {
		a.ret[f] = make([]uint8, f.Signature.Results().Len())
	}
	return a
}

// canRef: values of type t can refer to memory that can be written.
func canRef(t types.Type) bool { return canRefN(t, 0) }

func canRefN(t types.Type, n int) bool {
	if n > 8 {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Array:
		return canRefN(x.Elem(), n+1)
	case *types.Struct:
		if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == "time" {
			return false
		}
		for i := 0; i < x.NumFields(); i++ {
			if canRefN(x.Field(i).Type(), n+1) {
				return true
			}
		}
		return false
	case *types.Interface:
		return types.TypeString(t, nil) != "reflect.Type"
	case *types.Tuple:
		return true
	}
	return true
}

func (a *aliasFlow) add(v ssa.Value, l uint8) {
	if l == 0 || v == nil {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if !canRef(v.Type()) {
		return
	}
	if a.lab[v]&l != l {
		a.lab[v] |= l
		a.ch = true
	}
}

// keep records that something with label l is stored at addr, which makes all
// that addr is part of hold it.
func (a *aliasFlow) keep(addr ssa.Value, l uint8) {
	if l&(inMem|holds) != 0 {
		l = l&pooled | holds
	}
	for i := 0; i < 20; i++ {
		a.add(addr, l)
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.ChangeType:
			addr = x.X
		case *ssa.MakeInterface:
			addr = x.X
		case *ssa.TypeAssert:
			addr = x.X
		case *ssa.Extract:
			addr = x.Tuple
		case *ssa.Phi:
			for _, e := range x.Edges {
				if a.labOf(e)&l != l {
					a.keep(e, l)
				}
			}
			return
		case *ssa.UnOp:
			// what a variable points to
			addr = x.X
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasPrefix(n, "(reflect.Value).") && len(x.Call.Args) > 0 {
				addr = x.Call.Args[0]
				continue
			}
			if n == "reflect.ValueOf" || n == "reflect.Indirect" {
				addr = x.Call.Args[0]
				continue
			}
			return
		default:
			return
		}
	}
}

func (a *aliasFlow) labOf(v ssa.Value) uint8 {
	if v == nil {
		return 0
	}
	if !canRef(v.Type()) {
		return 0
	}
	l := a.lab[v]
	if c := a.cell[v]; c != 0 {
		l |= c & pooled
		if c&(inMem|holds) != 0 {
			l |= holds
		}
	}
	return l
}

// variable: v is the address of a variable.
func variable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}

// inside: what is read through a reference with label l.
func inside(l uint8) uint8 {
	if l&holds != 0 {
		l |= inMem
	}
	return l
}

// spread computes the labels.
func (a *aliasFlow) spread() {
	for a.ch = true; a.ch; {
		a.ch = false
		for _, f := range a.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.step(f, in)
				}
			}
		}
	}
}

func (a *aliasFlow) setCell(v ssa.Value, l uint8) {
	if a.cell[v]&l != l {
		a.cell[v] |= l
		a.ch = true
	}
}

func (a *aliasFlow) both(x, y ssa.Value) {
	if variable(x) && variable(y) {
		a.setCell(x, a.cell[y])
		a.setCell(y, a.cell[x])
		a.add(x, a.lab[y])
		a.add(y, a.lab[x])
		return
	}
	a.add(x, a.labOf(y))
	a.add(y, a.labOf(x))
}

func (a *aliasFlow) step(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.add(x, a.labOf(e))
		}
	case *ssa.Slice:
		if k, ok := x.Max.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
			break // no memory at all
		}
		a.add(x, a.labOf(x.X))
	case *ssa.ChangeType:
		a.add(x, a.labOf(x.X))
	case *ssa.ChangeInterface:
		a.add(x, a.labOf(x.X))
	case *ssa.MakeInterface:
		a.add(x, a.labOf(x.X))
	case *ssa.SliceToArrayPointer:
		a.add(x, a.labOf(x.X))
	case *ssa.Convert:
		if canRef(x.X.Type()) && !isString(x.X.Type()) {
			a.add(x, a.labOf(x.X))
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			a.tuple(x, 0, a.labOf(x.X))
		} else {
			a.add(x, a.labOf(x.X))
		}
	case *ssa.Field:
		a.add(x, a.labOf(x.X))
	case *ssa.Index:
		a.add(x, a.labOf(x.X))
	case *ssa.FieldAddr:
		a.add(x, a.labOf(x.X))
	case *ssa.IndexAddr:
		a.add(x, a.labOf(x.X))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if variable(x.X) {
				a.add(x, a.cell[x.X]|inside(a.lab[x.X]))
			} else {
				a.add(x, inside(a.labOf(x.X)))
			}
		}
	case *ssa.Lookup:
		if x.CommaOk {
			a.tuple(x, 0, inside(a.labOf(x.X)))
		} else {
			a.add(x, inside(a.labOf(x.X)))
		}
	case *ssa.Range:
		a.add2(x, inside(a.labOf(x.X)))
	case *ssa.Next:
		if !x.IsString {
			a.tuple(x, 1, a.lab[x.Iter])
			a.tuple(x, 2, a.lab[x.Iter])
		}
	case *ssa.Extract:
		if t := a.tup[x.Tuple]; x.Index < len(t) {
			a.add(x, t[x.Index])
		}
	case *ssa.Store:
		if l := a.labOf(x.Val); l != 0 {
			if variable(x.Addr) {
				a.setCell(x.Addr, l)
			} else {
				a.keep(x.Addr, l)
			}
		}
	case *ssa.MapUpdate:
		if l := a.labOf(x.Value) | a.labOf(x.Key); l != 0 {
			a.keep(x.Map, l)
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, v := range x.Bindings {
			a.both(g.FreeVars[i], v)
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if l := a.labOf(v); l&^a.ret[f][i] != 0 {
				a.ret[f][i] |= l
				a.ch = true
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		a.call(in, c)
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// add2 labels values whose type is not a Go type.
func (a *aliasFlow) add2(v ssa.Value, l uint8) {
	if a.lab[v]&l != l {
		a.lab[v] |= l
		a.ch = true
	}
}

func (a *aliasFlow) tuple(v ssa.Value, i int, l uint8) {
	if l == 0 {
		return
	}
	t := a.tup[v]
	for len(t) <= i {
		t = append(t, 0)
	}
	if t[i]&l != l {
		t[i] |= l
		a.ch = true
	}
	a.tup[v] = t
}

// result labels result i of a call.
func (a *aliasFlow) result(in ssa.Instruction, i int, l uint8) {
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	if _, multi := v.Type().(*types.Tuple); multi {
		a.tuple(v, i, l)
	} else if i == 0 {
		a.add(v, l)
	}
}

// libKind says what a library function does with the references it is given.
type libKind struct {
	aliases []int // arguments that the first result refers to
	writes  []int // arguments whose memory is written
	keeps   int   // 1+index of the argument in which the others are kept
	known   bool
}

func libEffect(cc *ssa.CallCommon, name string) libKind {
	all := func() libKind { return libKind{known: true} }
	al := func(i ...int) libKind { return libKind{known: true, aliases: i} }
	wr := func(i ...int) libKind { return libKind{known: true, writes: i} }
	if cc.IsInvoke() {
		t := types.TypeString(cc.Value.Type(), nil)
		switch cc.Method.Name() {
		case "Read", "ReadAt":
			return libKind{known: true, writes: []int{1}}
		case "Write", "WriteString", "WriteByte", "Close", "Len", "ReadByte", "UnmarshalJSON", "UnmarshalText", "UnmarshalBinary", "Error", "String":
			return all()
		case "MarshalJSON", "MarshalText", "MarshalBinary":
			return al(0)
		}
		if t == "reflect.Type" || t == "error" {
			return all()
		}
		return libKind{}
	}
	g := cc.StaticCallee()
	if g == nil {
		return libKind{}
	}
	if g.Origin() != nil {
		g = g.Origin()
		name = g.String()
	}
	pkg := ""
	if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	m := g.Name()
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(m, p) {
				return true
			}
		}
		return false
	}
	recv := g.Signature.Recv() != nil
	switch pkg {
	case "fmt":
		if has("Append") {
			return libKind{known: true, aliases: []int{0}, writes: []int{0}}
		}
		if has("Sscan", "Fscan", "Scan") {
			return libKind{}
		}
		return all()
	case "errors", "github.com/pkg/errors", "github.com/davecgh/go-spew/spew", "strconv", "strings", "unicode", "unicode/utf8", "math", "math/bits", "time", "hash/crc32", "crypto/sha256", "log":
		if has("Append", "Put") {
			return libKind{known: true, aliases: []int{0}, writes: []int{0}}
		}
		if pkg == "unicode/utf8" && m == "EncodeRune" {
			return wr(0)
		}
		return all()
	case "encoding/binary":
		if has("Put") {
			if recv && len(cc.Args) > 2 {
				return wr(1)
			}
			return wr(0)
		}
		if has("Append") {
			return libKind{known: true, aliases: []int{0}, writes: []int{0}}
		}
		if m == "Read" {
			return wr(2)
		}
		return all()
	case "encoding/hex", "encoding/base64":
		i := 0
		if recv {
			i = 1
		}
		switch {
		case m == "Encode" || m == "Decode":
			return wr(i)
		case has("Append"):
			return libKind{known: true, aliases: []int{i}, writes: []int{i}}
		}
		return all()
	case "encoding/json":
		return all()
	case "bytes":
		if recv {
			switch {
			case m == "Bytes" || m == "Next" || m == "AvailableBuffer":
				return al(0)
			case has("Write") && m != "WriteTo", m == "ReadFrom":
				return libKind{known: true, keeps: -1}
			case m == "Read" || m == "ReadAt":
				return wr(1)
			}
			return all()
		}
		switch {
		case has("Trim", "Split", "Fields", "Cut", "NewBuffer", "NewReader", "Lines", "Title"):
			return al(0)
		case m == "Map", has("To", "Replace"):
			return al(0)
		}
		return all()
	case "slices":
		switch {
		case m == "Clone", has("Equal", "Compare", "Contains", "Index", "IsSorted", "Max", "Min", "BinarySearch", "Concat", "Repeat"):
			return all()
		case m == "Clip", m == "Grow":
			return al(0)
		}
		return libKind{known: true, aliases: []int{0}, writes: []int{0}}
	case "sort":
		if has("Search", "IsSorted", "SliceIsSorted", "StringsAreSorted") {
			return all()
		}
		return wr(0)
	case "io":
		switch {
		case m == "ReadFull" || m == "ReadAtLeast":
			return wr(1)
		}
		return all()
	case "io/ioutil", "os":
		return all()
	case "sync":
		if m == "Get" {
			return all()
		}
		if m == "Put" || has("Store", "Swap", "LoadOrStore") {
			return libKind{known: true, keeps: 1}
		}
		if recv {
			return al(0)
		}
	case "sync/atomic":
		if has("Store", "Swap") {
			return libKind{known: true, keeps: 1}
		}
		return al(0)
	case "reflect":
		if !recv {
			switch m {
			case "ValueOf", "Indirect":
				return al(0)
			case "Append":
				return libKind{known: true, aliases: []int{0, 1}, writes: []int{0}}
			case "AppendSlice":
				return libKind{known: true, aliases: []int{0}, writes: []int{0}, keeps: 1}
			case "Copy":
				return libKind{known: true, writes: []int{0}, keeps: 1}
			case "Swapper":
				return wr(0)
			case "DeepEqual", "TypeOf", "New", "Zero", "MakeSlice", "MakeMap", "MakeMapWithSize", "PtrTo", "PointerTo", "SliceOf", "MapOf", "ArrayOf", "TypeFor":
				return all()
			}
			return libKind{}
		}
		switch {
		case m == "Set" || m == "SetMapIndex" || m == "SetBytes":
			return libKind{known: true, writes: []int{0}, keeps: 1}
		case has("Set"), m == "Grow", m == "Clear":
			return wr(0)
		case m == "Call" || m == "CallSlice":
			return al(0, 1)
		case m == "Send":
			return libKind{}
		}
		return al(0)
	}
	return libKind{}
}

// made: v is a pointer to a new variable.
func made(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeName(&x.Call)
		return n == "reflect.New" || n == "(reflect.Value).Addr"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !made(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		var refs *[]ssa.Instruction
		if al, ok := x.X.(*ssa.Alloc); ok {
			refs = al.Referrers()
		}
		if refs == nil {
			return false
		}
		n := 0
		for _, r := range *refs {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x.X {
				n++
				if !made(st.Val, depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// reflected: the label of what a method of a reflect.Value returns.
func reflected(name string, arg ssa.Value, l uint8) uint8 {
	switch name {
	case "(reflect.Value).MapKeys", "(reflect.Value).Call", "(reflect.Value).CallSlice":
		// a new slice
		if l&(inMem|holds) != 0 {
			return l&pooled | holds
		}
		return l
	case "(reflect.Value).Elem", "reflect.Indirect":
		if made(arg, 0) {
			return l
		}
		return inside(l)
	case "(reflect.Value).Index", "(reflect.Value).Bytes", "(reflect.Value).Slice", "(reflect.Value).Slice3",
		"(reflect.Value).MapIndex", "(reflect.Value).MapRange", "(*reflect.MapIter).Key", "(*reflect.MapIter).Value":
		return inside(l)
	}
	return l
}

func (a *aliasFlow) call(in ssa.Instruction, c ssa.CallInstruction) {
	cc := c.Common()
	name := calleeName(cc)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			l := a.labOf(cc.Args[0])
			if len(cc.Args) > 1 && canRef(elemType(cc.Args[0].Type())) {
				l |= a.labOf(cc.Args[1]) &^ 0
			}
			a.result(in, 0, l)
			if canRef(elemType(cc.Args[0].Type())) && len(cc.Args) > 1 {
				if k := a.labOf(cc.Args[1]); k != 0 {
					a.keep(cc.Args[0], k)
				}
			}
		case "copy":
			if canRef(elemType(cc.Args[0].Type())) {
				if k := a.labOf(cc.Args[1]); k != 0 {
					a.keep(cc.Args[0], k)
				}
			}
		}
		return
	}
	var g *ssa.Function
	var free []ssa.Value
	switch v := cc.Value.(type) {
	case *ssa.MakeClosure:
		g = v.Fn.(*ssa.Function)
		free = v.Bindings
	default:
		if !cc.IsInvoke() {
			g = cc.StaticCallee()
		}
	}
	_ = free
	if g != nil && a.set[g] {
		for i, p := range g.Params {
			if i >= len(cc.Args) {
				break
			}
			a.add(p, a.labOf(cc.Args[i]))
			// what the callee stores through a pointer is there afterwards
			if back := a.labOf(p) & (holds | pooled); back != 0 && a.labOf(cc.Args[i])&back != back {
				switch p.Type().Underlying().(type) {
				case *types.Pointer, *types.Map:
					a.keep(cc.Args[i], back)
				case *types.Struct:
					if types.TypeString(p.Type(), nil) == "reflect.Value" {
						a.keep(cc.Args[i], back)
					}
				}
			}
		}
		for i, l := range a.ret[g] {
			a.result(in, i, l)
		}
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	if name == "dynamic" {
		// a function value: the methods of the user
		var l uint8
		for _, x := range args {
			l |= a.labOf(x)
		}
		if v, ok := in.(ssa.Value); ok {
			if t, ok := v.Type().(*types.Tuple); ok {
				for i := 0; i < t.Len(); i++ {
					a.result(in, i, inside(l))
				}
			} else {
				a.result(in, 0, inside(l))
			}
		}
		return
	}
	if name == "(*sync.Pool).Get" {
		a.result(in, 0, pooled)
		return
	}
	k := libEffect(cc, name)
	for _, i := range k.aliases {
		if i < len(args) {
			a.result(in, 0, reflected(name, args[i], a.labOf(args[i])))
		}
	}
	if strings.HasPrefix(name, "bytes.NewBuffer") || strings.HasPrefix(name, "bytes.NewReader") {
		if l := a.labOf(args[0]); l != 0 {
			a.result(in, 0, holds|l&pooled)
		}
	}
	if strings.HasPrefix(name, "(*bytes.Buffer).") && len(k.aliases) > 0 {
		a.result(in, 0, inside(a.labOf(args[0])))
	}
	if strings.HasPrefix(name, "(*sync.Pool).Put") && len(args) > 1 {
		a.pool(args[1])
	}
	if a.ignoreSet {
		return
	}
	if k.keeps == 1 && len(args) > 1 && strings.HasPrefix(name, "(reflect.Value).") || name == "reflect.Copy" || name == "reflect.AppendSlice" {
		var l uint8
		for _, x := range args[1:] {
			l |= a.labOf(x)
		}
		if l != 0 {
			a.keep(args[0], l)
		}
	}
}

// pool: v is given away for later use, and with it all that it was made from.
func (a *aliasFlow) pool(v ssa.Value) {
	for i := 0; i < 10 && v != nil; i++ {
		a.add(v, pooled)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					a.add(st.Val, pooled)
				}
			}
			return
		default:
			return
		}
	}
}

func elemType(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Pointer:
		return elemType(x.Elem())
	}
	return types.Typ[types.Byte]
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// local: addr is part of a variable of the running function, or of something
// it has just made.
func (a *aliasFlow) local(addr ssa.Value) (root ssa.Value, ok bool) {
	for i := 0; i < 20; i++ {
		switch x := addr.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.FreeVar, *ssa.Parameter:
			return x, true
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && a.fresh[g] {
				return x, true
			}
			return x, false
		case *ssa.UnOp:
			// a pointer kept in a local variable
			if al, isA := x.X.(*ssa.Alloc); isA && isFreshPtr(x, a.fresh, map[ssa.Value]bool{}) {
				return al, true
			}
			if fv, isF := x.X.(*ssa.FreeVar); isF {
				return fv, true
			}
			if al, isA := x.X.(*ssa.Alloc); isA {
				// a slice or map kept in a local variable
				switch derefType(al.Type()).Underlying().(type) {
				case *types.Slice, *types.Map:
					return al, true
				}
			}
			return x, false
		case *ssa.Phi:
			for _, e := range x.Edges {
				if _, c := e.(*ssa.Const); c {
					continue
				}
				if e == addr {
					continue
				}
				switch e.(type) {
				case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Parameter, *ssa.Call, *ssa.Phi:
				default:
					return x, false
				}
			}
			return x, true
		default:
			return addr, false
		}
	}
	return addr, false
}

// report raises the obligations: at every store, library call and return.
func (a *aliasFlow) report(roots map[*ssa.Function]bool, returned func(t types.Type) bool) {
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.sink(f, in, roots, returned)
			}
		}
	}
}

func (a *aliasFlow) ob(f *ssa.Function, in ssa.Instruction, rule, what string, ok bool, why string) {
	a.sinks++
	a.r.ob(a.rule+rule, a.p.pos(instrPos(in)), shortName(f), what, ok, why, "")
}

func (a *aliasFlow) sink(f *ssa.Function, in ssa.Instruction, roots map[*ssa.Function]bool, returned func(t types.Type) bool) {
	switch x := in.(type) {
	case *ssa.Store:
		if l := a.labOf(x.Addr); !a.bytesOnly || isByte(x.Val.Type()) {
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				a.ob(f, in, "write", "does not write to "+a.mem, l&inMem == 0, in.String())
			}
		}
		if l := a.labOf(x.Val); l&(inMem|holds) != 0 && !a.bytesOnly {
			root, ok := a.local(x.Addr)
			_ = root
			a.ob(f, in, "retain", "references to "+a.mem+" stay in local variables", ok, "stored in "+x.Addr.String())
		}
	case *ssa.MapUpdate:
		if l := a.labOf(x.Value) | a.labOf(x.Key); l&(inMem|holds) != 0 && !a.bytesOnly {
			_, ok := a.local(x.Map)
			a.ob(f, in, "retain", "references to "+a.mem+" stay in local variables", ok, "stored in a map")
		}
		if l := a.labOf(x.Map); !a.bytesOnly {
			a.ob(f, in, "write", "does not write to "+a.mem, l&inMem == 0, in.String())
		}
	case *ssa.Send:
		a.ob(f, in, "retain", "references to "+a.mem+" are not sent away", a.labOf(x.X) == 0, in.String())
	case *ssa.Convert:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
			a.ob(f, in, "unsafe", "memory is only used with its type", false, in.String())
		}
	case *ssa.Return:
		if !roots[f] {
			break
		}
		for _, v := range x.Results {
			if returned(v.Type()) {
				l := a.labOf(v)
				what := a.mem
				if l&pooled != 0 {
					what = "memory that is kept for later use"
				}
				a.ob(f, in, "return", "what is returned does not share "+what, l == 0, v.String()+" is returned")
			}
		}
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := c.Common()
	name := calleeName(cc)
	args := cc.Args
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if !a.bytesOnly || isByte(elemType(args[0].Type())) {
				full := false
				if s, isS := args[0].(*ssa.Slice); isS && s.Max != nil && s.Max == s.High {
					full = true // no room: the contents are copied
				}
				a.ob(f, in, "write", "does not write to "+a.mem, full || a.labOf(args[0])&inMem == 0, "appends to "+args[0].String())
			}
		case "copy", "clear":
			if !a.bytesOnly || isByte(elemType(args[0].Type())) {
				a.ob(f, in, "write", "does not write to "+a.mem, a.labOf(args[0])&inMem == 0, "writes to "+args[0].String())
			}
		case "delete":
			if !a.bytesOnly {
				a.ob(f, in, "write", "does not write to "+a.mem, a.labOf(args[0])&inMem == 0, "deletes from "+args[0].String())
			}
		}
		if strings.HasPrefix(bi.Name(), "String") || bi.Name() == "SliceData" || bi.Name() == "Slice" || bi.Name() == "Add" {
			a.ob(f, in, "unsafe", "memory is only used with its type", false, in.String())
		}
		return
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && a.set[mc.Fn.(*ssa.Function)] {
		return
	}
	if g := cc.StaticCallee(); g != nil && a.set[g] && !cc.IsInvoke() {
		return
	}
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	var l uint8
	for _, x := range args {
		l |= a.labOf(x)
	}
	if l == 0 {
		return
	}
	if name == "dynamic" {
		return // methods of the user
	}
	k := libEffect(cc, name)
	if !k.known && !a.bytesOnly {
		a.ob(f, in, "call", "what "+name+" does with "+a.mem+" is known", false, "not known")
		return
	}
	for _, i := range k.writes {
		if i < len(args) && !(a.bytesOnly && strings.HasPrefix(name, "(reflect.Value).")) {
			a.ob(f, in, "write", "does not write to "+a.mem, a.labOf(args[i])&inMem == 0, name+" writes to it")
		}
	}
	if k.keeps == -1 { // a buffer that writes behind what it holds
		a.ob(f, in, "write", "does not write to "+a.mem, a.labOf(args[0])&(holds|inMem) == 0, name+" may write behind it")
	}
	if k.keeps == 1 && len(args) > 1 {
		var l uint8
		for _, x := range args[1:] {
			l |= a.labOf(x)
		}
		if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "reflect.") {
			bytesCopied := false
			if strings.HasPrefix(name, "reflect.") {
				if vo, isC := args[1].(*ssa.Call); isC && calleeName(&vo.Call) == "reflect.ValueOf" {
					if mi, isM := vo.Call.Args[0].(*ssa.MakeInterface); isM && isSeq(mi.X.Type()) && !canRef(elemType(mi.X.Type())) {
						bytesCopied = true
					}
				}
			}
			if a.noSet {
				a.ob(f, in, "retain", "references to "+a.mem+" are not stored in the target", bytesCopied || l&(inMem|holds) == 0, name)
			}
		} else if !a.bytesOnly {
			a.ob(f, in, "retain", "references to "+a.mem+" are not kept", l&(inMem|holds) == 0, name)
		}
	}
	if name == "reflect.Append" && a.noSet {
		a.ob(f, in, "retain", "references to "+a.mem+" are not stored in the target", l&(inMem|holds) == 0, name)
	}
}

func init() {
	register(&Check{ID: "C11", Level: "proof", Archs: []string{"amd64"},
		Rule: "alias analysis of everything decoding reaches: every reference to the memory of the input bytes is followed through variables, slices, structures, closures, reflection and calls; no instruction writes through such a reference or appends to it, none is stored in the target, in a global, in a map or in anything else that is not a local variable, none is returned by an entry point, and library functions that are given one are known to leave it alone",
		Expl: "every store, append, copy, library call and return in the functions reachable from a decoding entry point",
		Trust: []string{
			"user methods (UnmarshalJSON, UnmarshalAmino) copy what they keep, as encoding/json asks them to",
			"the table of library functions (which write to, return or keep their arguments) is right",
		},
		Run: func(p *Program, r *Result) {
			roots := decodeRoots(p)
			a := newAliasFlow(p, r, "", "the input", roots)
			a.noSet = true
			is := map[*ssa.Function]bool{}
			n := 0
			for _, f := range roots {
				is[f] = true
				for _, pa := range f.Params {
					if isByteSlice(pa.Type()) {
						a.add(pa, inMem)
						n++
					}
				}
			}
			a.spread()
			a.report(is, canRef)
			for _, f := range roots {
				for _, pa := range f.Params {
					if !isByteSlice(pa.Type()) && !containsCodec(p, pa.Type()) && canRef(pa.Type()) {
						r.ob("retain", p.pos(f.Pos()), shortName(f), "what the caller gave as "+pa.Name()+" holds no references to the input", a.labOf(pa)&(inMem|holds) == 0, "a reference is stored there", "")
					}
				}
			}
			for f := range a.set {
				r.Units[shortName(f)] = true
			}
			r.floor("entry points that take bytes", n, 15)
			r.floor("places where references could get away", a.sinks, 100)
		},
	})
	register(&Check{ID: "C12", Level: "proof", Archs: []string{"amd64"},
		Rule: "alias analysis of everything marshalling reaches, for three kinds of memory: that of the value, that of the codec and of package variables, and memory that is pooled. No instruction writes through a reference to the value (stores, appends, copies, reflect Set methods on anything but a private copy) or to bytes of the codec; bytes returned by an entry point share memory with none of the three",
		Expl: "every store, append, copy, reflect setter, library call and return in the functions reachable from a marshalling entry point",
		Trust: []string{
			"user methods (MarshalJSON, MarshalAmino) do not modify the value, and writers do not keep what they are given",
			"the table of library functions (which write to, return or keep their arguments) is right",
		},
		Run: func(p *Program, r *Result) {
			roots := encodeRoots(p)
			is := map[*ssa.Function]bool{}
			for _, f := range roots {
				is[f] = true
			}
			// the value
			a := newAliasFlow(p, r, "", "the value", roots)
			n := 0
			for _, f := range roots {
				for _, pa := range f.Params {
					if types.TypeString(pa.Type(), nil) == "io.Writer" || containsCodec(p, pa.Type()) {
						continue
					}
					if canRef(pa.Type()) {
						a.add(pa, inMem)
						n++
					}
				}
			}
			a.spread()
			a.report(is, isByteSlice)
			r.floor("entry points that take a value", n, 8)
			r.floor("places where the value could be written", a.sinks, 50)
			// the codec
			b := newAliasFlow(p, r, "codec-", "memory of the codec", roots)
			b.bytesOnly = true
			for _, f := range roots {
				for _, pa := range f.Params {
					if containsCodec(p, pa.Type()) {
						b.add(pa, inMem)
					}
				}
			}
			for _, f := range b.fns {
				for _, blk := range f.Blocks {
					for _, in := range blk.Instrs {
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Global); ok {
								b.add(g, inMem)
							}
						}
					}
				}
			}
			b.spread()
			b.report(is, isByteSlice)
			for f := range a.set {
				r.Units[shortName(f)] = true
			}
			r.floor("places where memory of the codec could get out", b.sinks, 10)
		},
	})
}

func containsCodec(p *Program, t types.Type) bool {
	n, ok := derefType(t).(*types.Named)
	return ok && n.Obj().Pkg() == p.Main.Pkg && n.Obj().Name() == "Codec"
}
