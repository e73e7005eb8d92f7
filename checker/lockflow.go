package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockflow is a context-sensitive dataflow analysis of the codec's lock: for
// every function, entry lock state and abstract arguments it computes the set
// of exits (normal and by panic) with the lock state there, and records every
// access to registry state together with the lock state it happens in.

// av is an abstract value.
type av struct {
	k    byte // n nil, N non-nil, t/f bool, s sealed flag, S negated sealed flag, a address in a tracked allocation, l lock, c closure, T tuple
	site ssa.Value
	path string
	fn   *ssa.Function
	args []*av
	id   int
}

type lflow struct {
	p        *Program
	avs      map[string]*av
	valID    map[ssa.Value]int
	locks    map[string]bool
	codec    *types.Named
	reg      map[types.Type]bool // struct types reachable from Codec
	regMaps  map[string]bool     // map types held by them
	regElems map[string]bool     // slice element types held by them
	sealedF  map[*types.Var]bool
	sums     map[string]*lsum
	changed  bool
	accs     map[string]*lacc
	accOrder []string
	viol     map[string]*lviol
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	addrFns  []*ssa.Function
	ifaces   []types.Type
	notes    map[string]bool
	exits    map[*ssa.Function][]*lexit
	nLockOps map[token.Pos]bool
	fns      map[*ssa.Function]bool
	depth    int
	sealVal  map[token.Pos]bool
}

type lacc struct {
	target string
	write  bool
	fresh  bool
	modes  map[byte]bool // '-', 'R', 'W'
	noChk  bool          // write in a registration without a prior check of the seal
	pos    token.Pos
	fn     *ssa.Function
	init   bool
}

type lviol struct {
	rule, msg string
	pos       token.Pos
	fn        *ssa.Function
}

type lexit struct {
	panics bool
	st     *lst
	ret    *av
	why    token.Pos
}

type lsum struct {
	exits map[string]*lexit
	busy  bool
	round int
}

// lst is the state at a program point.
type lst struct {
	modes  map[string]byte
	chk    bool // seal seen open since the lock was taken
	ever   bool // seal seen open while locked, at some time
	sset   bool // sealed flag set
	reg    bool // inside a registration
	recd   bool // recover() executed
	fresh  map[ssa.Value]bool
	mem    map[string]memEnt
	env    map[ssa.Value]*av
	defers []*ldefer
}

type memEnt struct {
	site ssa.Value
	v    *av
}

type ldefer struct {
	in   *ssa.Defer
	fn   *av
	args []*av
}

func (s *lst) clone() *lst {
	n := *s
	n.modes = map[string]byte{}
	for k, v := range s.modes {
		n.modes[k] = v
	}
	n.fresh = map[ssa.Value]bool{}
	for k := range s.fresh {
		n.fresh[k] = true
	}
	n.mem = map[string]memEnt{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.env = map[ssa.Value]*av{}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]*ldefer(nil), s.defers...)
	return &n
}

func (s *lst) mode() byte {
	m := byte('-')
	for _, v := range s.modes {
		if v == 'W' {
			return 'W'
		}
		m = v
	}
	return m
}

func (lf *lflow) vid(v ssa.Value) int {
	if id, ok := lf.valID[v]; ok {
		return id
	}
	lf.valID[v] = len(lf.valID) + 1
	return len(lf.valID)
}

func (lf *lflow) mk(k byte, site ssa.Value, path string, fn *ssa.Function, args ...*av) *av {
	var b strings.Builder
	fmt.Fprintf(&b, "%c%d|%s|%p", k, lf.vidOr(site), path, fn)
	for _, a := range args {
		if a == nil {
			b.WriteString(",_")
		} else {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	if a := lf.avs[b.String()]; a != nil {
		return a
	}
	a := &av{k: k, site: site, path: path, fn: fn, args: args, id: len(lf.avs) + 1}
	lf.avs[b.String()] = a
	return a
}

func (lf *lflow) vidOr(v ssa.Value) int {
	if v == nil {
		return 0
	}
	return lf.vid(v)
}

func aid(a *av) int {
	if a == nil {
		return 0
	}
	return a.id
}

func (lf *lflow) key(s *lst) string {
	var p []string
	for k, v := range s.modes {
		p = append(p, "m"+k+string(v))
	}
	for v := range s.fresh {
		p = append(p, fmt.Sprintf("f%d", lf.vid(v)))
	}
	for k, v := range s.mem {
		if v.v != nil {
			p = append(p, fmt.Sprintf("M%s=%d", k, v.v.id))
		}
	}
	for k, v := range s.env {
		if v != nil {
			p = append(p, fmt.Sprintf("e%d=%d", lf.vid(k), v.id))
		}
	}
	sort.Strings(p)
	for _, d := range s.defers {
		x := fmt.Sprintf("D%d:%d", d.in.Pos(), aid(d.fn))
		for _, a := range d.args {
			x += fmt.Sprintf(",%d", aid(a))
		}
		p = append(p, x)
	}
	return fmt.Sprintf("%v%v%v%v%v|", s.chk, s.ever, s.sset, s.reg, s.recd) + strings.Join(p, ";")
}

func newLflow(p *Program) *lflow {
	lf := &lflow{p: p, avs: map[string]*av{}, valID: map[ssa.Value]int{}, locks: map[string]bool{},
		reg: map[types.Type]bool{}, regMaps: map[string]bool{}, regElems: map[string]bool{}, sealedF: map[*types.Var]bool{},
		sums: map[string]*lsum{}, accs: map[string]*lacc{}, viol: map[string]*lviol{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, notes: map[string]bool{},
		exits: map[*ssa.Function][]*lexit{}, nLockOps: map[token.Pos]bool{}, fns: map[*ssa.Function]bool{}, sealVal: map[token.Pos]bool{}}
	if t, ok := p.Main.Members["Codec"].(*ssa.Type); ok {
		lf.codec, _ = t.Type().(*types.Named)
	}
	if lf.codec == nil {
		lf.notes["type Codec not found"] = true
		return lf
	}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != p.Main.Pkg || lf.reg[n] {
				return
			}
			if st, ok := n.Underlying().(*types.Struct); ok {
				lf.reg[n] = true
				for i := 0; i < st.NumFields(); i++ {
					walk(st.Field(i).Type())
				}
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			lf.regElems[tstr(u.Elem())] = true
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			lf.regMaps[tstr(u)] = true
			walk(u.Key())
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	walk(lf.codec)
	delete(lf.regElems, "byte")
	delete(lf.regElems, "uint8")
	// the sealed flag: bool fields of Codec set by Seal
	for _, fn := range p.Funcs {
		if fn.Name() != "Seal" || !isCodecMethod(fn) {
			continue
		}
		for f := range reachable(p, fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), lf.codec) {
							if v := structOf(fa.X.Type()).Field(fa.Field); isBoolType(v.Type()) {
								lf.sealedF[v] = true
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if isCall && call.Common().Value == f {
							continue
						}
						lf.addrFns = append(lf.addrFns, f)
					}
				}
			}
		}
	}
	return lf
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isCodecMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && isCodecRecv(f)
}

// interesting: values of this type are tracked.
func (lf *lflow) interesting(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Bool || u.Kind() == types.UntypedBool
	case *types.Pointer:
		return lf.interestingObj(u.Elem())
	case *types.Signature:
		return true
	case *types.Interface:
		return true
	case *types.Map:
		return lf.regMaps[tstr(u)]
	case *types.Slice:
		return lf.regElems[tstr(u.Elem())]
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if lf.interesting(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (lf *lflow) interestingObj(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && lf.reg[n] {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != lf.p.Main.Pkg {
			return false
		}
		return true
	case *types.Array:
		return lf.regElems[tstr(u.Elem())] || lf.interestingObj(u.Elem())
	default:
		return lf.interesting(t)
	}
}

// liveIn computes the SSA values used at or after each block.
func (lf *lflow) liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m := lf.live[fn]; m != nil {
		return m
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for j, q := range s.Preds {
					if q == b {
						pi = j
					}
				}
				phis := map[ssa.Value]bool{}
				for _, x := range s.Instrs {
					if ph, ok := x.(*ssa.Phi); ok {
						phis[ph] = true
						if pi >= 0 {
							l[ph.Edges[pi]] = true
						}
					}
				}
				for v := range in[s] {
					if !phis[v] {
						l[v] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					if _, isPhi := x.(*ssa.Phi); !isPhi {
						delete(l, v)
					}
				}
				if _, isPhi := x.(*ssa.Phi); isPhi {
					l[x.(ssa.Value)] = true
					continue
				}
				for _, op := range x.Operands(nil) {
					if *op != nil {
						l[*op] = true
					}
				}
			}
			if len(l) != len(in[b]) {
				in[b] = l
				ch = true
			}
		}
	}
	lf.live[fn] = in
	return in
}

func (lf *lflow) val(s *lst, v ssa.Value) *av {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return nil
			}
			if _, ok := v.Type().Underlying().(*types.Array); ok {
				return nil
			}
			return lf.mk('n', nil, "", nil)
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return lf.mk('t', nil, "", nil)
			}
			return lf.mk('f', nil, "", nil)
		}
		return nil
	case *ssa.Function:
		return lf.mk('c', nil, "", v)
	case *ssa.Global:
		return lf.mk('g', v, "", nil)
	}
	return s.env[v]
}

func (lf *lflow) set(s *lst, v ssa.Value, a *av) {
	if a == nil {
		delete(s.env, v)
		return
	}
	s.env[v] = a
}

func memKey(lf *lflow, site ssa.Value, path string) string {
	return fmt.Sprintf("%d%s", lf.vid(site), path)
}

// escape publishes what a refers to.
func (lf *lflow) escape(s *lst, a *av) {
	if a == nil {
		return
	}
	switch a.k {
	case 'a':
		if !s.fresh[a.site] {
			return
		}
		delete(s.fresh, a.site)
		for _, m := range s.mem {
			if m.site == a.site {
				lf.escape(s, m.v)
			}
		}
	case 'c', 'T', 'i':
		for _, x := range a.args {
			lf.escape(s, x)
		}
	}
}

// reachSites adds the allocations reachable from a.
func (lf *lflow) reachSites(s *lst, a *av, out map[ssa.Value]bool) {
	if a == nil {
		return
	}
	if a.k == 'a' && !out[a.site] {
		out[a.site] = true
		for _, m := range s.mem {
			if m.site == a.site {
				lf.reachSites(s, m.v, out)
			}
		}
	}
	for _, x := range a.args {
		lf.reachSites(s, x, out)
	}
}

func (lf *lflow) prune(s *lst, keep map[ssa.Value]bool) {
	for v := range s.fresh {
		if !keep[v] {
			delete(s.fresh, v)
		}
	}
	for k, m := range s.mem {
		if !keep[m.site] {
			delete(s.mem, k)
		}
	}
}

func (lf *lflow) access(fn *ssa.Function, s *lst, pos token.Pos, target string, write, fresh bool) {
	k := fmt.Sprintf("%d|%s|%v|%s", pos, target, write, shortName(fn))
	a := lf.accs[k]
	if a == nil {
		a = &lacc{target: target, write: write, fresh: true, modes: map[byte]bool{}, pos: pos, fn: fn,
			init: fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")}
		lf.accs[k] = a
		lf.accOrder = append(lf.accOrder, k)
	}
	if fresh {
		return
	}
	a.fresh = false
	a.modes[s.mode()] = true
	if write && s.reg && !s.chk {
		a.noChk = true
	}
}

func (lf *lflow) violate(rule string, fn *ssa.Function, pos token.Pos, msg string) {
	k := fmt.Sprintf("%s|%d|%s", rule, pos, msg)
	if lf.viol[k] == nil {
		lf.viol[k] = &lviol{rule: rule, msg: msg, pos: pos, fn: fn}
	}
}

func isMutexType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func isSyncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

// fieldTargets names the fields of registry structs inside a value of type t.
func (lf *lflow) structFields(t types.Type, out *[]string) {
	n, _ := t.(*types.Named)
	st, ok := t.Underlying().(*types.Struct)
	if !ok || n == nil || !lf.reg[n] {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isSyncType(f.Type()) {
			continue
		}
		*out = append(*out, n.Obj().Name()+"."+f.Name())
		lf.structFields(f.Type(), out)
	}
}

// targets of a load or store of type t through addr, and whether the object
// is private to the running operation.
func (lf *lflow) targets(s *lst, addr ssa.Value, t types.Type) (out []string, fresh bool) {
	root := addr
	var fa *ssa.FieldAddr
	first := true
	for {
		switch x := root.(type) {
		case *ssa.FieldAddr:
			if first {
				fa = x
			}
			first = false
			root = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				root = x.X
				first = first && true
				continue
			}
			if first {
				et := x.X.Type().Underlying().(*types.Slice).Elem()
				if lf.regElems[tstr(et)] {
					out = append(out, "elements of []"+tstr(et))
				}
			}
			root = x.X
		}
		break
	}
	if a := lf.val(s, root); a != nil && a.k == 'a' && s.fresh[a.site] {
		fresh = true
	}
	if root != addr {
		if c := lf.contents(root); c != "" {
			out = append(out, c)
		}
	}
	if g, ok := root.(*ssa.Global); ok && g.Pkg != nil && lf.isRepo(g.Pkg) {
		out = append(out, "variable "+g.Name())
	}
	if fa != nil {
		if n, ok := derefType(fa.X.Type()).(*types.Named); ok && lf.reg[n] {
			f := structOf(fa.X.Type()).Field(fa.Field)
			if !isSyncType(f.Type()) {
				out = append(out, n.Obj().Name()+"."+f.Name())
			}
		}
	}
	lf.structFields(t, &out)
	return out, fresh
}

func (lf *lflow) isRepo(sp *ssa.Package) bool {
	for _, q := range lf.p.RepoPkgs {
		if q == sp {
			return true
		}
	}
	return false
}

// contents names the shared variable or registry field whose slice, pointer or
// interface value v is, or "".
func (lf *lflow) contents(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				switch a := x.X.(type) {
				case *ssa.Global:
					if a.Pkg != nil && lf.isRepo(a.Pkg) {
						return "contents of " + a.Name()
					}
				case *ssa.FieldAddr:
					return lf.fieldContents(a)
				}
				return ""
			}
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			switch a := x.X.(type) {
			case *ssa.Global:
				if a.Pkg != nil && lf.isRepo(a.Pkg) {
					return "contents of " + a.Name()
				}
			case *ssa.FieldAddr:
				return lf.fieldContents(a)
			}
		}
		return ""
	}
}

func (lf *lflow) fieldContents(a *ssa.FieldAddr) string {
	n, ok := derefType(a.X.Type()).(*types.Named)
	if !ok || !lf.reg[n] {
		return ""
	}
	f := structOf(a.X.Type()).Field(a.Field)
	if sl, ok := f.Type().Underlying().(*types.Slice); ok && lf.regElems[tstr(sl.Elem())] {
		return "" // element accesses of registry slices have their own rule
	}
	return "contents of " + n.Obj().Name() + "." + f.Name()
}

// mutableRecv: methods of external type t may modify their receiver.
func mutableRecv(t types.Type) bool {
	switch tstr(t) {
	case "error", "reflect.Type", "reflect.Value", "time.Time", "time.Duration", "*time.Location", "*regexp.Regexp", "reflect.Kind", "*strings.Replacer":
		return false
	}
	if isSyncType(derefType(t)) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// sharedArgs records modifications of shared objects by external calls.
func (lf *lflow) sharedArgs(fn *ssa.Function, s *lst, pos token.Pos, cc *ssa.CallCommon, name, pkg string) {
	rec := func(v ssa.Value) {
		if c := lf.contents(v); c != "" {
			lf.access(fn, s, pos, c, true, false)
		}
		// the address of a shared variable itself
		if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && lf.isRepo(g.Pkg) && !isSyncType(derefType(g.Type())) {
			lf.access(fn, s, pos, "variable "+g.Name(), true, false)
		}
	}
	if pkg == "sync/atomic" || pkg == "sync" {
		return
	}
	if cc.IsInvoke() {
		if mutableRecv(cc.Value.Type()) {
			rec(cc.Value)
		}
	} else if cc.Signature().Recv() != nil && len(cc.Args) > 0 && mutableRecv(cc.Args[0].Type()) {
		rec(cc.Args[0])
	}
	if strings.Contains(name, ".Put") || strings.HasSuffix(name, ".Read") || strings.HasPrefix(name, "io.Read") || strings.HasSuffix(name, ".Sum") {
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok {
				rec(a)
			}
		}
	}
}

// mapTarget names the registry map v is, or "".
func (lf *lflow) mapTarget(s *lst, v ssa.Value) (string, bool) {
	a := lf.val(s, v)
	if a != nil && a.k == 'a' && s.fresh[a.site] {
		return "map " + tstr(v.Type().Underlying()), true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && lf.isRepo(g.Pkg) {
			return "contents of " + g.Name(), false
		}
	}
	if m, ok := v.Type().Underlying().(*types.Map); ok && lf.regMaps[tstr(m)] {
		return "map " + tstr(m), false
	}
	return "", false
}

// dropSealed forgets what is known of the sealed flag.
func (lf *lflow) dropSealed(s *lst) {
	s.chk = false
	var clean func(a *av) *av
	clean = func(a *av) *av {
		if a == nil || a.k == 's' || a.k == 'S' {
			return nil
		}
		if len(a.args) > 0 {
			ch := false
			args := make([]*av, len(a.args))
			for i, x := range a.args {
				args[i] = clean(x)
				ch = ch || args[i] != x
			}
			if ch {
				return lf.mk(a.k, a.site, a.path, a.fn, args...)
			}
		}
		return a
	}
	for k, v := range s.env {
		if c := clean(v); c == nil {
			delete(s.env, k)
		} else {
			s.env[k] = c
		}
	}
	for k, v := range s.mem {
		if c := clean(v.v); c != v.v {
			s.mem[k] = memEnt{v.site, c}
		}
	}
}

type lctx struct {
	fn    *ssa.Function
	exits map[string]*lexit
	keep  map[ssa.Value]bool // allocations of the caller
}

func (lf *lflow) exit(c *lctx, s *lst, panics bool, ret *av, why token.Pos) {
	e := s.clone()
	e.env = map[ssa.Value]*av{}
	e.defers = nil
	if panics {
		e.recd = false
		ret = nil
	}
	keep := map[ssa.Value]bool{}
	for v := range c.keep {
		keep[v] = true
	}
	lf.reachSites(e, ret, keep)
	lf.prune(e, keep)
	k := fmt.Sprintf("%v|%d|", panics, aid(ret)) + lf.key(e)
	if c.exits[k] == nil {
		c.exits[k] = &lexit{panics: panics, st: e, ret: ret, why: why}
		lf.changed = true
	}
}

// analyse returns the exits of fn entered in state s with the given values.
func (lf *lflow) analyse(fn *ssa.Function, s *lst, args, binds []*av) map[string]*lexit {
	lf.fns[fn] = true
	in := s.clone()
	in.env = map[ssa.Value]*av{}
	in.defers = nil
	in.recd = false
	for i, p := range fn.Params {
		if i < len(args) {
			lf.set(in, p, args[i])
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			lf.set(in, f, binds[i])
		}
	}
	keep := map[ssa.Value]bool{}
	for _, a := range in.env {
		lf.reachSites(in, a, keep)
	}
	lf.prune(in, keep)
	key := fmt.Sprintf("%p|", fn) + lf.key(in)
	sum := lf.sums[key]
	if sum == nil {
		sum = &lsum{exits: map[string]*lexit{}, round: -1}
		lf.sums[key] = sum
	}
	if sum.busy || sum.round == lf.depth {
		return sum.exits
	}
	sum.busy = true
	lf.body(&lctx{fn: fn, exits: sum.exits, keep: keep}, in)
	sum.busy = false
	sum.round = lf.depth
	return sum.exits
}

type lpoint struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	s    *lst
}

func (lf *lflow) body(c *lctx, in *lst) {
	live := lf.liveness(c.fn)
	seen := map[*ssa.BasicBlock]map[string]bool{}
	work := []lpoint{{c.fn.Blocks[0], nil, in}}
	for len(work) > 0 {
		pt := work[len(work)-1]
		work = work[:len(work)-1]
		s := pt.s
		if pt.pred != nil {
			pi := -1
			for j, q := range pt.b.Preds {
				if q == pt.pred {
					pi = j
				}
			}
			up := map[ssa.Value]*av{}
			var phs []ssa.Value
			for _, x := range pt.b.Instrs {
				if ph, ok := x.(*ssa.Phi); ok {
					phs = append(phs, ph)
					if lf.interesting(ph.Type()) {
						up[ph] = lf.val(s, ph.Edges[pi])
					}
				}
			}
			s = s.clone()
			for _, ph := range phs {
				lf.set(s, ph, up[ph])
			}
			for v := range s.env {
				if !live[pt.b][v] {
					delete(s.env, v)
				}
			}
			keep := map[ssa.Value]bool{}
			for v := range c.keep {
				keep[v] = true
			}
			for _, a := range s.env {
				lf.reachSites(s, a, keep)
			}
			for _, d := range s.defers {
				lf.reachSites(s, d.fn, keep)
				for _, a := range d.args {
					lf.reachSites(s, a, keep)
				}
			}
			lf.prune(s, keep)
		}
		k := lf.key(s)
		if seen[pt.b] == nil {
			seen[pt.b] = map[string]bool{}
		}
		if seen[pt.b][k] {
			continue
		}
		seen[pt.b][k] = true
		if len(seen[pt.b]) > 3000 {
			lf.notes["too many states in "+shortName(c.fn)] = true
			return
		}
		states := []*lst{s.clone()}
		for i, x := range pt.b.Instrs {
			if i == len(pt.b.Instrs)-1 {
				break
			}
			var next []*lst
			ns := map[string]bool{}
			for _, st := range states {
				for _, r := range lf.instr(c, st, x) {
					if len(states) > 1 || len(next) > 0 {
						kk := lf.key(r)
						if ns[kk] {
							continue
						}
						ns[kk] = true
					}
					next = append(next, r)
				}
			}
			states = next
		}
		last := pt.b.Instrs[len(pt.b.Instrs)-1]
		for _, st := range states {
			switch x := last.(type) {
			case *ssa.Jump:
				work = append(work, lpoint{pt.b.Succs[0], pt.b, st})
			case *ssa.If:
				t, f := lf.branch(st, x.Cond)
				if t != nil {
					work = append(work, lpoint{pt.b.Succs[0], pt.b, t})
				}
				if f != nil {
					work = append(work, lpoint{pt.b.Succs[1], pt.b, f})
				}
			case *ssa.Return:
				var ret *av
				any := false
				as := make([]*av, len(x.Results))
				for i, r := range x.Results {
					as[i] = lf.val(st, r)
					any = any || as[i] != nil
				}
				if len(as) == 1 {
					ret = as[0]
				} else if any {
					ret = lf.mk('T', nil, "", nil, as...)
				}
				lf.exit(c, st, false, ret, x.Pos())
			case *ssa.Panic:
				lf.panicExit(c, st, x.Pos())
			default:
				lf.notes[fmt.Sprintf("unexpected terminator in %s", shortName(c.fn))] = true
			}
		}
	}
}

// branch refines st by the condition.
func (lf *lflow) branch(st *lst, cond ssa.Value) (t, f *lst) {
	a := lf.val(st, cond)
	if a != nil {
		switch a.k {
		case 't':
			return st, nil
		case 'f':
			return nil, st
		case 's', 'S':
			t, f = st.clone(), st.clone()
			open, shut := f, t
			if a.k == 'S' {
				open, shut = t, f
			}
			shut.sset = true
			if open.mode() != '-' {
				open.chk, open.ever = true, true
			}
			return t, f
		}
	}
	t, f = st.clone(), st.clone()
	tr, fa := lf.mk('t', nil, "", nil), lf.mk('f', nil, "", nil)
	v := cond
	neg := false
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			if neg {
				t.env[v], f.env[v] = fa, tr
			} else {
				t.env[v], f.env[v] = tr, fa
			}
			neg = !neg
			v = u.X
			continue
		}
		break
	}
	set := func(s *lst, val bool) {
		if val {
			s.env[v] = tr
		} else {
			s.env[v] = fa
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, y := b.X, b.Y
			if isNilC(x) {
				x, y = y, x
			}
			if isNilC(y) && lf.val(s, x) == nil {
				if (b.Op == token.EQL) == val {
					s.env[x] = lf.mk('n', nil, "", nil)
				} else {
					s.env[x] = lf.mk('N', nil, "", nil)
				}
			}
		}
	}
	set(t, !neg)
	set(f, neg)
	return t, f
}

func isNilC(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value != nil {
		return false
	}
	switch c.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// panicExit unwinds the function's own deferred calls.
func (lf *lflow) panicExit(c *lctx, s *lst, why token.Pos) {
	type pd struct {
		s      *lst
		panics bool
	}
	cur := []pd{{s.clone(), true}}
	cur[0].s.recd = false
	for len(cur) > 0 {
		x := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		if len(x.s.defers) == 0 {
			if x.panics {
				lf.exit(c, x.s, true, nil, why)
			} else {
				lf.exit(c, x.s, false, nil, why)
			}
			continue
		}
		d := x.s.defers[len(x.s.defers)-1]
		x.s.defers = x.s.defers[:len(x.s.defers)-1]
		for _, r := range lf.callAV(c, x.s, d.in, d.in.Common(), d.fn, d.args) {
			n := r.st
			p := x.panics
			if r.panics {
				p = true
			} else if n.recd {
				p = false
			}
			n.recd = false
			cur = append(cur, pd{n, p})
		}
	}
}

type lres struct {
	st     *lst
	ret    *av
	panics bool
	why    token.Pos
}

func (lf *lflow) instr(c *lctx, s *lst, in ssa.Instruction) []*lst {
	one := []*lst{s}
	fn := c.fn
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		if lf.interestingObj(derefType(x.Type())) {
			lf.newSite(s, x)
		}
	case *ssa.MakeMap:
		if lf.interesting(x.Type()) {
			lf.newSite(s, x)
		}
	case *ssa.MakeSlice:
		if lf.interesting(x.Type()) {
			lf.newSite(s, x)
		}
	case *ssa.FieldAddr:
		a := lf.val(s, x.X)
		ft := structOf(x.X.Type()).Field(x.Field)
		switch {
		case isMutexType(ft.Type()):
			n := "?"
			if nt, ok := derefType(x.X.Type()).(*types.Named); ok {
				n = nt.Obj().Name()
			}
			lf.set(s, x, lf.mk('l', nil, n+"."+ft.Name(), nil))
		case a != nil && a.k == 'a':
			lf.set(s, x, lf.mk('a', a.site, fmt.Sprintf("%s.%d", a.path, x.Field), nil))
		default:
			// the address of registry state may leave the function
			lf.addrEscapes(fn, s, x)
		}
	case *ssa.IndexAddr:
		if a := lf.val(s, x.X); a != nil && a.k == 'a' {
			lf.set(s, x, lf.mk('a', a.site, a.path+"[]", nil))
		}
	case *ssa.Slice:
		if a := lf.val(s, x.X); a != nil && a.k == 'a' && lf.interesting(x.Type()) {
			lf.set(s, x, a)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			tg, fresh := lf.targets(s, x.X, x.Type())
			for _, t := range tg {
				lf.access(fn, s, x.Pos(), t, false, fresh)
			}
			a := lf.val(s, x.X)
			if a != nil && a.k == 'a' && !strings.Contains(a.path, "[]") {
				if m, ok := s.mem[memKey(lf, a.site, a.path)]; ok {
					lf.set(s, x, m.v)
					break
				}
			}
			lf.set(s, x, nil)
			if fa, ok := x.X.(*ssa.FieldAddr); ok && s.mode() != '-' {
				if lf.sealedF[structOf(fa.X.Type()).Field(fa.Field)] {
					lf.set(s, x, lf.mk('s', nil, "", nil))
				}
			}
		case token.NOT:
			if a := lf.val(s, x.X); a != nil {
				if r, ok := map[byte]byte{'t': 'f', 'f': 't', 's': 'S', 'S': 's'}[a.k]; ok {
					lf.set(s, x, lf.mk(r, nil, "", nil))
				}
			}
		case token.ARROW:
		}
	case *ssa.BinOp:
		lf.set(s, x, nil)
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := lf.val(s, x.X), lf.val(s, x.Y)
			if a != nil && b != nil {
				if a.k == 't' || a.k == 'f' || a.k == 'n' {
					a, b = b, a
				}
				eq := 0
				var r *av
				switch b.k {
				case 'n':
					if a.k == 'n' {
						eq = 1
					} else if a.k == 'N' || a.k == 'a' || a.k == 'c' || a.k == 'l' {
						eq = -1
					}
				case 't', 'f':
					if a.k == 't' || a.k == 'f' {
						eq = -1
						if a.k == b.k {
							eq = 1
						}
					} else if a.k == 's' || a.k == 'S' {
						pos := (b.k == 't') == (x.Op == token.EQL)
						k := a.k
						if !pos {
							k = map[byte]byte{'s': 'S', 'S': 's'}[k]
						}
						r = lf.mk(k, nil, "", nil)
					}
				}
				if eq != 0 {
					k := byte('f')
					if (eq == 1) == (x.Op == token.EQL) {
						k = 't'
					}
					r = lf.mk(k, nil, "", nil)
				}
				lf.set(s, x, r)
			}
		}
	case *ssa.Store:
		t := derefType(x.Addr.Type())
		tg, fresh := lf.targets(s, x.Addr, t)
		for _, g := range tg {
			lf.access(fn, s, x.Pos(), g, true, fresh)
		}
		v := lf.val(s, x.Val)
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !fresh && lf.sealedF[structOf(fa.X.Type()).Field(fa.Field)] {
			lf.sealVal[x.Pos()] = true
			if v != nil && v.k == 't' {
				s.sset = true
			} else {
				lf.violate("unseal", fn, x.Pos(), "the sealed flag of an existing codec is given a value other than true")
			}
		}
		if !fresh && types.Identical(t, lf.codec) {
			lf.violate("unseal", fn, x.Pos(), "an existing codec is overwritten as a whole")
		}
		a := lf.val(s, x.Addr)
		if a != nil && a.k == 'a' && !strings.Contains(a.path, "[]") {
			if s.fresh[a.site] {
				if v != nil {
					s.mem[memKey(lf, a.site, a.path)] = memEnt{a.site, v}
				} else {
					delete(s.mem, memKey(lf, a.site, a.path))
				}
				pre := memKey(lf, a.site, a.path) + "."
				for k, m := range s.mem {
					if m.site == a.site && strings.HasPrefix(k, pre) {
						delete(s.mem, k)
					}
				}
				break
			}
			// a captured variable: still tracked, but shared
			if v != nil {
				s.mem[memKey(lf, a.site, a.path)] = memEnt{a.site, v}
			} else {
				delete(s.mem, memKey(lf, a.site, a.path))
			}
		}
		lf.escape(s, v)
	case *ssa.MapUpdate:
		if g, fresh := lf.mapTarget(s, x.Map); g != "" {
			lf.access(fn, s, x.Pos(), g, true, fresh)
			if !fresh {
				lf.escape(s, lf.val(s, x.Value))
				lf.escape(s, lf.val(s, x.Key))
			}
		} else {
			lf.escape(s, lf.val(s, x.Value))
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if g, fresh := lf.mapTarget(s, x.X); g != "" {
				lf.access(fn, s, x.Pos(), g, false, fresh)
			}
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if g, fresh := lf.mapTarget(s, x.X); g != "" {
				lf.access(fn, s, x.Pos(), g, false, fresh)
			}
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			if g, fresh := lf.mapTarget(s, r.X); g != "" {
				lf.access(fn, s, r.Pos(), g, false, fresh)
			}
		}
	case *ssa.Send:
		lf.escape(s, lf.val(s, x.X))
	case *ssa.MakeClosure:
		bs := make([]*av, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = lf.val(s, b)
		}
		lf.set(s, x, lf.mk('c', nil, "", x.Fn.(*ssa.Function), bs...))
	case *ssa.MakeInterface:
		a := lf.val(s, x.X)
		r := lf.mk('N', nil, "", nil)
		if a != nil && (a.k == 'a' || a.k == 'c') {
			r = lf.mk('i', nil, "", nil, a)
		}
		lf.set(s, x, r)
		// formatting such a value calls its String method
		for _, m := range lf.stringers(x.X.Type()) {
			if printedOnly(x) {
				for _, e := range sortedExits(lf.analyse(m, s, []*av{a}, nil)) {
					_ = e
				}
			}
		}
	case *ssa.ChangeInterface:
		lf.set(s, x, lf.val(s, x.X))
	case *ssa.ChangeType:
		lf.set(s, x, lf.val(s, x.X))
	case *ssa.TypeAssert:
		lf.set(s, x, nil)
		if a := lf.val(s, x.X); a != nil && a.k == 'i' && !x.CommaOk {
			lf.set(s, x, a.args[0])
		}
	case *ssa.Extract:
		lf.set(s, x, nil)
		if a := lf.val(s, x.Tuple); a != nil && a.k == 'T' {
			lf.set(s, x, a.args[x.Index])
		}
	case *ssa.Go:
		n := s.clone()
		n.modes = map[string]byte{}
		n.chk = false
		cc := x.Common()
		f, args := lf.callee(s, cc)
		for _, a := range args {
			lf.escape(s, a)
			lf.escape(n, a)
		}
		lf.escape(s, f)
		lf.escape(n, f)
		for _, r := range lf.callAV(c, n, x, cc, f, args) {
			if r.st.mode() != '-' {
				lf.violate("leak", fn, x.Pos(), "a goroutine ends with the codec's lock held")
			}
		}
	case *ssa.Defer:
		f, args := lf.callee(s, x.Common())
		s.defers = append(s.defers, &ldefer{x, f, args})
		if len(s.defers) > 12 {
			lf.notes["unbounded defers in "+shortName(fn)] = true
			return nil
		}
	case *ssa.RunDefers:
		cur := one
		for {
			var next []*lst
			more := false
			for _, st := range cur {
				if len(st.defers) == 0 {
					next = append(next, st)
					continue
				}
				more = true
				d := st.defers[len(st.defers)-1]
				st.defers = st.defers[:len(st.defers)-1]
				for _, r := range lf.callAV(c, st, d.in, d.in.Common(), d.fn, d.args) {
					if r.panics {
						lf.panicExit(c, r.st, r.why)
					} else {
						r.st.recd = false
						next = append(next, r.st)
					}
				}
			}
			cur = next
			if !more {
				return cur
			}
		}
	case *ssa.Call:
		f, args := lf.callee(s, x.Common())
		var out []*lst
		for _, r := range lf.callAV(c, s, x, x.Common(), f, args) {
			if r.panics {
				lf.panicExit(c, r.st, r.why)
				continue
			}
			if lf.interesting(x.Type()) {
				lf.set(r.st, x, r.ret)
			} else {
				lf.set(r.st, x, nil)
			}
			out = append(out, r.st)
		}
		return out
	default:
		if v, ok := in.(ssa.Value); ok {
			lf.set(s, v, nil)
		}
	}
	return one
}

func (lf *lflow) newSite(s *lst, v ssa.Value) {
	for k, m := range s.mem {
		if m.site == v {
			delete(s.mem, k)
		}
	}
	s.fresh[v] = true
	s.env[v] = lf.mk('a', v, "", nil)
	if al, ok := v.(*ssa.Alloc); ok {
		switch t := derefType(al.Type()).Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Slice:
			s.mem[memKey(lf, v, "")] = memEnt{v, lf.mk('n', nil, "", nil)}
		case *types.Basic:
			if t.Kind() == types.Bool {
				s.mem[memKey(lf, v, "")] = memEnt{v, lf.mk('f', nil, "", nil)}
			}
		}
	}
}

// addrEscapes records a write for registry state whose address is passed on.
func (lf *lflow) addrEscapes(fn *ssa.Function, s *lst, x *ssa.FieldAddr) {
	f := structOf(x.X.Type()).Field(x.Field)
	n, ok := derefType(x.X.Type()).(*types.Named)
	if !ok || !lf.reg[n] || isSyncType(f.Type()) {
		return
	}
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Slice:
		case *ssa.Store:
			if r.Val == x {
				lf.access(fn, s, x.Pos(), n.Obj().Name()+"."+f.Name(), true, false)
			}
		case ssa.CallInstruction:
			cc := r.Common()
			if g := cc.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sync" || g.Pkg.Pkg.Path() == "sync/atomic") {
				continue
			}
			if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == x && lf.p.inMain(g) {
				continue // a method of the repository: analysed itself
			}
			lf.access(fn, s, x.Pos(), n.Obj().Name()+"."+f.Name(), true, false)
		default:
			if _, ok := f.Type().Underlying().(*types.Struct); !ok {
				lf.access(fn, s, x.Pos(), n.Obj().Name()+"."+f.Name(), true, false)
			}
		}
	}
}

// stringers lists the repo String methods that formatting a value of t runs
// and that read registry maps.
func (lf *lflow) stringers(t types.Type) []*ssa.Function {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	n, ok := t.(*types.Named)
	if !ok || !lf.reg[n] {
		return nil
	}
	var out []*ssa.Function
	for _, m := range []string{"String", "Error", "GoString", "Format"} {
		for _, pt := range []types.Type{n, types.NewPointer(n)} {
			if sel := lf.p.Prog.MethodSets.MethodSet(pt).Lookup(lf.p.Main.Pkg, m); sel != nil {
				if f := lf.p.Prog.MethodValue(sel); f != nil && f.Blocks != nil && f.Synthetic == "" {
					out = append(out, f)
					break
				}
			}
		}
	}
	return out
}

// printedOnly: the interface value goes to a formatting call.
func printedOnly(x *ssa.MakeInterface) bool {
	var toFmt func(v ssa.Value, d int) bool
	toFmt = func(v ssa.Value, d int) bool {
		if d > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if ia, ok := r.Addr.(*ssa.IndexAddr); ok && r.Val == v {
					if toFmt(ia.X, d+1) {
						return true
					}
				}
			case *ssa.Slice:
				if toFmt(r, d+1) {
					return true
				}
			case ssa.CallInstruction:
				if f := r.Common().StaticCallee(); f != nil && f.Pkg != nil {
					switch f.Pkg.Pkg.Path() {
					case "fmt", "log", "github.com/pkg/errors":
						return true
					}
				}
			}
		}
		return false
	}
	return toFmt(x, 0)
}

func sortedExits(m map[string]*lexit) []*lexit {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*lexit, len(ks))
	for i, k := range ks {
		out[i] = m[k]
	}
	return out
}

// callee evaluates the called function and its arguments.
func (lf *lflow) callee(s *lst, cc *ssa.CallCommon) (*av, []*av) {
	var args []*av
	for _, a := range cc.Args {
		args = append(args, lf.val(s, a))
	}
	if cc.IsInvoke() {
		return nil, append([]*av{lf.val(s, cc.Value)}, args...)
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			return lf.val(s, mc), args
		}
		return lf.mk('c', nil, "", f), args
	}
	return lf.val(s, cc.Value), args
}

func (lf *lflow) lockOf(a *av, v ssa.Value) string {
	if a != nil && a.k == 'l' {
		return a.path
	}
	if a != nil && a.k == 'g' {
		return a.site.Name()
	}
	if a != nil && a.k == 'a' {
		return "local"
	}
	return "?"
}

// callAV runs a call and yields its outcomes, in the caller's state.
func (lf *lflow) callAV(c *lctx, s *lst, in ssa.CallInstruction, cc *ssa.CallCommon, f *av, args []*av) []lres {
	fn := c.fn
	pos := in.Pos()
	if !pos.IsValid() {
		pos = instrPos(in)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return lf.builtin(c, s, in, b, cc, args)
	}
	var fns []*av
	name := ""
	switch {
	case cc.IsInvoke():
		name = calleeName(cc)
		for _, m := range lf.implementers(cc) {
			fns = append(fns, lf.mk('c', nil, "", m))
		}
	case f != nil && f.k == 'c':
		fns = append(fns, f)
	case f != nil && f.k == 'n':
		return []lres{{st: s.clone(), panics: true, why: pos}}
	default:
		name = "dynamic"
		sig := cc.Signature()
		seen := map[*ssa.Function]bool{}
		for _, g := range lf.addrFns {
			if !seen[g] && g.Blocks != nil && g.Pkg != nil && lf.isRepo(g.Pkg) && types.Identical(g.Signature, sig) {
				seen[g] = true
				fns = append(fns, lf.mk('c', nil, "", g))
			}
		}
	}
	var out []lres
	external := false
	for _, fa := range fns {
		g := fa.fn
		if g.Blocks == nil || (g.Pkg != nil && !lf.isRepo(g.Pkg)) {
			out = append(out, lf.external(c, s.clone(), in, cc, g, args)...)
			continue
		}
		out = append(out, lf.enter(s, g, args, fa.args)...)
	}
	if len(fns) == 0 {
		external = true
	}
	if cc.IsInvoke() && len(fns) > 0 {
		external = true
	}
	if external {
		lf.sharedArgs(fn, s, pos, cc, name, "")
		n := s.clone()
		// a closure handed to code we do not see may be called there
		out = append(out, lf.runArgs(c, n, args)...)
		if !quietInvoke(name) {
			out = append(out, lres{st: s.clone(), panics: true, why: pos})
		}
	}
	return out
}

// enter analyses a repo function called from state s.
func (lf *lflow) enter(s *lst, g *ssa.Function, args, binds []*av) []lres {
	reach := map[ssa.Value]bool{}
	for _, a := range append(append([]*av{}, args...), binds...) {
		lf.reachSites(s, a, reach)
	}
	var out []lres
	for _, e := range sortedExits(lf.analyse(g, s, args, binds)) {
		n := s.clone()
		n.modes = map[string]byte{}
		for k, v := range e.st.modes {
			n.modes[k] = v
		}
		n.chk, n.ever, n.sset, n.recd = e.st.chk, e.st.ever, e.st.sset, e.st.recd || s.recd
		// lock releases inside the callee invalidate what was read before
		if s.mode() == '-' || e.st.mode() == '-' {
			c, ev := n.chk, n.ever
			lf.dropSealed(n)
			n.chk, n.ever = c, ev
		}
		for v := range reach {
			delete(n.fresh, v)
		}
		for k, m := range n.mem {
			if reach[m.site] {
				delete(n.mem, k)
			}
		}
		for v := range e.st.fresh {
			n.fresh[v] = true
		}
		for k, m := range e.st.mem {
			n.mem[k] = m
		}
		out = append(out, lres{st: n, ret: e.ret, panics: e.panics, why: e.why})
	}
	return out
}

// runArgs runs closures passed to external code zero or one time.
func (lf *lflow) runArgs(c *lctx, s *lst, args []*av) []lres {
	out := []lres{{st: s}}
	for _, a := range args {
		if a != nil && a.k == 'i' {
			a = a.args[0]
		}
		if a == nil || a.k != 'c' || a.fn == nil || a.fn.Blocks == nil || a.fn.Pkg == nil || !lf.isRepo(a.fn.Pkg) {
			continue
		}
		var next []lres
		for _, r := range out {
			if r.panics {
				next = append(next, r)
				continue
			}
			next = append(next, r)
			for _, q := range lf.enter(r.st, a.fn, make([]*av, len(a.fn.Params)), a.args) {
				q.ret = nil
				next = append(next, q)
			}
		}
		out = next
	}
	return out
}

func (lf *lflow) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if n, ok := cc.Value.Type().(*types.Named); ok {
		if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
			return nil
		}
	}
	var out []*ssa.Function
	for _, sp := range lf.p.RepoPkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, pt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(pt, it) {
					if sel := lf.p.Prog.MethodSets.MethodSet(pt).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
						if f := lf.p.Prog.MethodValue(sel); f != nil && f.Blocks != nil {
							out = append(out, f)
						}
					}
					break
				}
			}
		}
	}
	return out
}

// quietInvoke: interface methods that never panic on valid receivers.
func quietInvoke(name string) bool {
	if strings.HasPrefix(name, "(error).") || strings.HasPrefix(name, "(hash.Hash).") {
		return true
	}
	if i := strings.Index(name, "(reflect.Type)."); i == 0 {
		switch strings.TrimPrefix(name, "(reflect.Type).") {
		case "Elem", "Key", "Field", "In", "Out", "NumField", "NumIn", "NumOut", "Len", "Implements":
			// panic when called on the wrong kind; callers test the kind
			return true
		}
		return true
	}
	return false
}

func (lf *lflow) builtin(c *lctx, s *lst, in ssa.CallInstruction, b *ssa.Builtin, cc *ssa.CallCommon, args []*av) []lres {
	fn := c.fn
	pos := instrPos(in)
	switch b.Name() {
	case "recover":
		s.recd = true
	case "append":
		var r *av
		if sl, ok := cc.Args[0].(*ssa.Slice); ok {
			if c := lf.contents(sl); c != "" {
				lf.access(fn, s, pos, c, true, false)
			}
		}
		if len(args) > 0 && args[0] != nil {
			if args[0].k == 'a' && s.fresh[args[0].site] {
				r = args[0]
			} else if args[0].k == 'n' {
				if v := in.Value(); v != nil && lf.interesting(v.Type()) {
					lf.newSite(s, v)
					r = s.env[v]
				}
			}
		}
		if len(args) > 1 && r == nil {
			lf.escape(s, args[1])
		}
		return []lres{{st: s, ret: r}}
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			if g, fresh := lf.mapTarget(s, cc.Args[0]); g != "" {
				lf.access(fn, s, pos, g, false, fresh)
			}
		}
	case "delete", "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			if g, fresh := lf.mapTarget(s, cc.Args[0]); g != "" {
				lf.access(fn, s, pos, g, true, fresh)
			}
		}
	case "copy":
		if c := lf.contents(cc.Args[0]); c != "" {
			lf.access(fn, s, pos, c, true, false)
		}
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && lf.regElems[tstr(sl.Elem())] {
			a := args[0]
			lf.access(fn, s, pos, "elements of []"+tstr(sl.Elem()), true, a != nil && a.k == 'a' && s.fresh[a.site])
		}
	}
	return []lres{{st: s}}
}

// external models a function outside the repository.
func (lf *lflow) external(c *lctx, s *lst, in ssa.CallInstruction, cc *ssa.CallCommon, g *ssa.Function, args []*av) []lres {
	fn := c.fn
	pos := in.Pos()
	if !pos.IsValid() {
		pos = instrPos(in)
	}
	name := g.String()
	if g.Synthetic != "" && strings.Contains(g.Name(), "$bound") {
		name = strings.TrimSuffix(name, "$bound")
	}
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	} else if o := g.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).RLock",
		"(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RUnlock":
		var a *av
		if len(args) > 0 {
			a = args[0]
		}
		l := lf.lockOf(a, nil)
		lf.nLockOps[pos] = true
		op := name[strings.LastIndex(name, ".")+1:]
		cur := s.modes[l]
		switch op {
		case "Lock":
			if cur != 0 {
				lf.violate("relock", fn, pos, "the lock "+l+" is acquired while it is already held ("+string(cur)+")")
				return nil
			}
			lf.dropSealed(s)
			s.modes[l] = 'W'
		case "RLock":
			if cur != 0 {
				lf.violate("relock", fn, pos, "the lock "+l+" is acquired for reading while it is already held ("+string(cur)+")")
				return nil
			}
			lf.dropSealed(s)
			s.modes[l] = 'R'
		case "Unlock":
			if cur != 'W' {
				lf.violate("unlock", fn, pos, "the lock "+l+" is released for writing while not held for writing")
				return nil
			}
			delete(s.modes, l)
			lf.dropSealed(s)
		case "RUnlock":
			if cur != 'R' {
				lf.violate("unlock", fn, pos, "the lock "+l+" is released for reading while not held for reading")
				return nil
			}
			delete(s.modes, l)
			lf.dropSealed(s)
		}
		return []lres{{st: s}}
	case "(*sync.RWMutex).TryLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryRLock", "(*sync.RWMutex).RLocker":
		lf.notes["lock operation not modelled: "+name] = true
	}
	var ret *av
	if v := in.Value(); v != nil && isErrorType(v.Type()) {
		switch name {
		case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			ret = lf.mk('N', nil, "", nil)
		}
	}
	lf.sharedArgs(fn, s, pos, cc, name, pkg)
	switch pkg {
	case "sync", "sync/atomic":
		for _, a := range args {
			lf.escape(s, a)
		}
	case "sort":
		// sorts in place
		if len(cc.Args) > 0 {
			v := cc.Args[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
			}
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && lf.regElems[tstr(sl.Elem())] {
				a := lf.val(s, v)
				lf.access(fn, s, pos, "elements of []"+tstr(sl.Elem()), true, a != nil && a.k == 'a' && s.fresh[a.site])
			}
		}
	}
	out := lf.runArgs(c, s.clone(), args)
	for i := range out {
		if !out[i].panics {
			out[i].ret = ret
		}
	}
	if mayPanicExternal(pkg, name) {
		out = append(out, lres{st: s.clone(), panics: true, why: pos})
	}
	return out
}

func mayPanicExternal(pkg, name string) bool {
	switch pkg {
	case "reflect":
		return strings.HasPrefix(name, "(reflect.Value).") && !strings.HasSuffix(name, ".Kind") && !strings.HasSuffix(name, ".IsValid") && !strings.HasSuffix(name, ".Type")
	case "io", "encoding/json", "io/ioutil", "encoding/binary":
		return true
	}
	return false
}

// run analyses every entry point of the package to a fixpoint.
func (lf *lflow) run(roots []*ssa.Function, isReg func(*ssa.Function) bool) {
	for lf.depth = 1; lf.depth < 30; lf.depth++ {
		lf.changed = false
		for _, f := range roots {
			s := &lst{modes: map[string]byte{}, fresh: map[ssa.Value]bool{}, mem: map[string]memEnt{}, env: map[ssa.Value]*av{}, reg: isReg(f)}
			ex := lf.analyse(f, s, nil, nil)
			lf.exits[f] = sortedExits(ex)
		}
		if !lf.changed {
			return
		}
	}
	lf.notes["lock analysis did not settle"] = true
}
