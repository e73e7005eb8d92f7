package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is a forward abstract interpreter over SSA. The abstract state is a
// disjunction (trace partition) of: an environment of terms, abstract memory
// cells, and a conjunction of linear constraints. Loops are solved to an
// inductive invariant by candidate elimination; recursive functions are
// replaced by inferred contracts.
type Engine struct {
	P  *Program
	tp *TermPool

	fmCache   map[fmKey]bool
	fmQueries int

	mute     int // >0 while inferring invariants: obligations are not recorded
	obls     map[oblKey]*Obl
	oblOrder []*Obl

	contracts  map[*ssa.Function]*Contract // functions replaced by contracts at call sites
	client     Client
	stable     map[*types.Var]bool // struct fields never written after construction
	finfo      map[*ssa.Function]*fnInfo
	inlineSize map[*ssa.Function]int
	stack      []*ssa.Function
	root       *ssa.Function
	notes      map[string]bool // imprecision notes (state explosion etc.)
	trace      bool
	visited    map[*ssa.Function]bool // functions interpreted (inlined or root)
	nStates    int
	loopsDone  map[*ssa.BasicBlock]*LoopRes
	fieldVarOf map[string]*types.Var
	steps      int
	maxSteps   int
	over       bool

	taintBytes bool // byte slices allocated while decoding hold input
	inlineAll  bool
	smallLimit int
	// splitKey keeps states at loop heads apart; splitFail gives up on a state
	// whose key keeps coming back
	splitKey     func(*State) string
	splitFail    func(*State) *State
	strictRIndex bool
	lineage      bool // values reached through pointers in a loop are traced back
	opaqueFn     func(*ssa.Function) bool
	closedWorld  bool // unknown function values are functions of the program
	preciseBytes bool // copies of a few bytes into an array are tracked byte by byte
	exactBits    bool // ranges of one bit length are followed exactly
	strictLoops  bool // every loop needs a measure, whatever decides its exit
	condHook     func(st *State, c *Term)
	ifaceTypes   map[*Term]types.Type
	keysOf       map[*Term]*Term    // lists of map keys
	keepLit      func(t *Term) bool // tests to remember about values no longer in use
	staticTypes  map[*Term]types.Type
	nonEmptyMemo map[*types.Var]bool
	loopCache    map[string]*invariant
	taintRule    func(*ssa.Function, int) bool
	pureFns      bool // calls of pure leaf functions are uninterpreted terms
	pureMemo     map[*ssa.Function]bool
	varID        map[*types.Var]int
	cdMemo       map[*ssa.Function]*cdInfo
}

// Client observes the analysis and raises obligations.
type Client interface {
	// Return is called at every return (or panic) of the root function.
	Return(e *Engine, fr *frame, st *State, results []*Term, at ssa.Instruction)
	// Call is called for every call before it is modelled.
	Call(e *Engine, fr *frame, st *State, call ssa.CallInstruction, callee string, args []*Term)
	// After is called after a call was modelled, with its result.
	After(e *Engine, fr *frame, st *State, call ssa.CallInstruction, callee string, args []*Term, res *Term)
	// Back is called at loop back edges in the final (recording) pass.
	Back(e *Engine, fr *frame, head, back *State, loop *Loop)
	// Panic is called at every explicit panic.
	Panic(e *Engine, fr *frame, st *State, at ssa.Instruction)
	// Alloc is called for allocations whose size is computed.
	Alloc(e *Engine, fr *frame, st *State, at ssa.Instruction, size *Term)
	Reslice(e *Engine, fr *frame, st *State, at *ssa.Slice, from, to *Term)
	MapUpdate(e *Engine, fr *frame, st *State, at *ssa.MapUpdate)
	Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term)
	Copy(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term)
	// Store is called before a store.
	Store(e *Engine, fr *frame, st *State, at *ssa.Store, addr *Term)
	// Wrapped is called when a conversion changes the value of an integer.
	Wrapped(e *Engine, fr *frame, st *State, at *ssa.Convert, from, to *Term)
	// Read is called when n bytes at an offset of a byte slice are read by an
	// index expression or a conversion to string.
	Read(e *Engine, fr *frame, st *State, at ssa.Instruction, base, off, n *Term)
}

type noClient struct{}

func (noClient) Return(*Engine, *frame, *State, []*Term, ssa.Instruction)                   {}
func (noClient) Panic(*Engine, *frame, *State, ssa.Instruction)                             {}
func (noClient) Call(*Engine, *frame, *State, ssa.CallInstruction, string, []*Term)         {}
func (noClient) After(*Engine, *frame, *State, ssa.CallInstruction, string, []*Term, *Term) {}
func (noClient) Back(*Engine, *frame, *State, *State, *Loop)                                {}
func (noClient) Alloc(*Engine, *frame, *State, ssa.Instruction, *Term)                      {}
func (noClient) Reslice(*Engine, *frame, *State, *ssa.Slice, *Term, *Term)                  {}
func (noClient) MapUpdate(*Engine, *frame, *State, *ssa.MapUpdate)                          {}
func (noClient) Append(*Engine, *frame, *State, ssa.CallInstruction, []*Term, *Term)        {}
func (noClient) Copy(*Engine, *frame, *State, ssa.CallInstruction, []*Term)                 {}
func (noClient) Store(*Engine, *frame, *State, *ssa.Store, *Term)                           {}
func (noClient) Wrapped(*Engine, *frame, *State, *ssa.Convert, *Term, *Term)                {}
func (noClient) Read(*Engine, *frame, *State, ssa.Instruction, *Term, *Term, *Term)         {}

type oblKey struct {
	rule string
	pos  token.Pos
	what string
}

// Obl is a proof obligation attached to a construct of the source.
type Obl struct {
	Rule, Where, Fn, What string
	Checks, Fails         int
	Why                   string
	Path                  string
	Kept                  bool
}

// LoopRes records termination evidence for a loop.
type LoopRes struct {
	Where, Fn string
	OK        bool
	Measure   string
	Why       string
	Tainted   bool
}

// Contract is the set of inferred clauses for a recursive function.
type Contract struct {
	fn      *ssa.Function
	clauses []*Clause
	used    int
}

// Clause is one candidate postcondition; test must hold at every return.
type Clause struct {
	name  string
	alive bool
	// apply adds the clause to f for the given arguments and results.
	apply func(e *Engine, f *Facts, args, res []*Term) []*Facts
	// check decides the clause at a return.
	check func(e *Engine, f *Facts, args, res []*Term) bool
}

// Event is a client-defined observation along a path.
type Event struct {
	prev *Event
	kind string
	args []*Term
	pos  token.Pos
	call ssa.CallInstruction
	n    int
}

func (ev *Event) list() []*Event {
	var r []*Event
	for x := ev; x != nil; x = x.prev {
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

// State is one disjunct of the abstract state.
type State struct {
	env    map[ssa.Value]*Term
	cells  map[*Term]*Term
	esc    map[*Term]bool
	facts  *Facts
	ghost  map[string]*Term
	events *Event
	defers []deferred
	path   []string
}

func (s *State) clone() *State {
	t := &State{facts: s.facts, events: s.events}
	t.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		t.env[k] = v
	}
	t.cells = make(map[*Term]*Term, len(s.cells))
	for k, v := range s.cells {
		t.cells[k] = v
	}
	t.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		t.ghost[k] = v
	}
	t.esc = make(map[*Term]bool, len(s.esc))
	for k := range s.esc {
		t.esc[k] = true
	}
	t.defers = s.defers[:len(s.defers):len(s.defers)]
	t.path = s.path[:len(s.path):len(s.path)]
	return t
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, cells: map[*Term]*Term{}, esc: map[*Term]bool{}, facts: emptyFacts(), ghost: map[string]*Term{}}
}

// frame is one activation (root or inlined).
type frame struct {
	fn       *ssa.Function
	info     *fnInfo
	parent   *frame
	args     []*Term
	outer    []*Term        // terms the callers still need
	entry    map[*Term]bool // cells existing at entry
	depth    int
	nd       int // number of caller defers
	outs     []Outcome
	callPath string
	callSite ssa.Instruction
	tag      string           // which turns of the enclosing loops, with splitKey
	keys     map[*Loop]string // the key those turns began with
}

// Outcome is one way a function can finish.
type Outcome struct {
	st      *State
	results []*Term
	panics  bool
	at      ssa.Instruction
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*Loop // by header
	inner  map[*ssa.BasicBlock]*Loop // innermost loop of a block
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
	num    map[ssa.Value]int
}

// Loop is a natural loop.
type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

func newEngine(p *Program) *Engine {
	e := &Engine{P: p, tp: newPool(p.Sizes), fmCache: map[fmKey]bool{}, obls: map[oblKey]*Obl{},
		contracts: map[*ssa.Function]*Contract{}, client: noClient{}, finfo: map[*ssa.Function]*fnInfo{},
		inlineSize: map[*ssa.Function]int{}, notes: map[string]bool{}, visited: map[*ssa.Function]bool{},
		loopsDone: map[*ssa.BasicBlock]*LoopRes{}, maxSteps: 3000000}
	e.stable = stableFields(p)
	e.trace = os.Getenv("VTRACE") != ""
	return e
}

func (e *Engine) atomAxioms(a *Term) []*Lin {
	var r []*Lin
	add := func(l *Lin) { r = append(r, l) }
	if lo, hi, ok := e.tp.intRange(a.typ); ok {
		add(linAtom(a).sub(linBig(lo)))
		add(linBig(hi).sub(linAtom(a)))
	}
	switch a.op {
	case "len", "cap", "rlen":
		add(linAtom(a))
		if a.op == "cap" {
			add(linAtom(a).sub(toLin(e.tp.mk("len", "", types.Typ[types.Int], a.args[0]))))
		}
	case "kind":
		add(linAtom(a))
		add(linConst(numKinds - 1).sub(linAtom(a)))
	case "shr": // a = floor(x / 2^k)
		k, _ := constOf(a.args[1])
		if k.IsInt64() && k.Int64() < 62 {
			m := int64(1) << uint(k.Int64())
			x := toLin(a.args[0])
			add(x.sub(linAtom(a).scale(m)))
			add(linAtom(a).scale(m).addC(m - 1).sub(x))
		}
	case "andc": // x & c, c >= 0 constant
		c, _ := constOf(a.args[1])
		add(linAtom(a))
		add(linBig(c).sub(linAtom(a)))
		if lo, _, ok := e.tp.intRange(a.typ); ok && lo.Sign() >= 0 {
			add(toLin(a.args[0]).sub(linAtom(a)))
		}
	case "quo": // x / c for x >= 0, c > 0
		c, _ := constOf(a.args[1])
		if c.IsInt64() && c.Int64() < 1<<40 {
			x := toLin(a.args[0])
			add(x.sub(linAtom(a).scale(c.Int64())))
			add(linAtom(a).scale(c.Int64()).addC(c.Int64() - 1).sub(x))
		}
	case "rem":
		c, _ := constOf(a.args[1])
		add(linAtom(a))
		add(linBig(c).addC(-1).sub(linAtom(a)))
	case "or":
		add(linAtom(a).sub(toLin(a.args[0])))
		add(linAtom(a).sub(toLin(a.args[1])))
		add(toLin(a.args[0]).add(toLin(a.args[1])).sub(linAtom(a)))
	}
	return r
}

// ---- function structure ----

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi := e.finfo[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{},
		livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}, num: map[ssa.Value]int{}}
	e.finfo[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	// natural loops
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := fi.loops[s]
				if lp == nil {
					lp = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, lp := range fi.loops {
		for b := range lp.blocks {
			cur := fi.inner[b]
			if cur == nil || len(lp.blocks) < len(cur.blocks) {
				fi.inner[b] = lp
			}
		}
	}
	for _, lp := range fi.loops {
		for _, o := range fi.loops {
			if o != lp && o.blocks[lp.head] && (lp.parent == nil || len(o.blocks) < len(lp.parent.blocks)) {
				lp.parent = o
			}
		}
	}
	n := 0
	for _, p := range fn.Params {
		fi.num[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.num[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.num[v] = n
				n++
			}
		}
	}
	// liveness
	gen := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	kill := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.order {
		g, k := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, tracked := fi.num[*op]; tracked && !k[*op] {
						g[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				k[v] = true
			}
		}
		gen[b], kill[b] = g, k
		fi.livein[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			li := fi.livein[b]
			add := func(v ssa.Value) {
				if !li[v] {
					li[v] = true
					changed = true
				}
			}
			for v := range gen[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range fi.livein[s] {
					if !kill[b][v] {
						add(v)
					}
				}
				idx := -1
				for j, p := range s.Preds {
					if p == b {
						idx = j
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := ph.Edges[idx]; v != nil {
						if _, tr := fi.num[v]; tr && !kill[b][v] {
							add(v)
						}
					}
				}
			}
			// phis of b are defined at entry, keep them live from here
		}
	}
	return fi
}

// ---- values ----

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return e.tp.intc(0)
		case u.Info()&types.IsBoolean != 0:
			return e.tp.boolc(false)
		case u.Info()&types.IsString != 0:
			return e.tp.mk("const", `""`, t)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return e.tp.mk("nil", "", t)
		}
		return e.tp.mk("const", "0.0", t)
	case *types.Slice:
		z := e.tp.intc(0)
		return e.tp.mk("slice", "", t, e.tp.mk("nil", "", t), z, z, z)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return e.tp.mk("struct", types.TypeString(t, nil), t, fs...)
	case *types.Array:
		return e.tp.mk("zeroarr", types.TypeString(t, nil), t)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, e.zero(u.At(i).Type()))
		}
		return e.tp.mk("tuple", "", t, fs...)
	}
	return e.tp.mk("nil", "", t)
}

func (e *Engine) freshOf(hint string, t types.Type, taint bool) *Term {
	if t == nil {
		return e.tp.sym(hint, nil, taint)
	}
	switch u := t.Underlying().(type) {
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, e.freshOf(fmt.Sprintf("%s.%d", hint, i), u.At(i).Type(), taint))
		}
		return e.tp.mk("tuple", "", t, fs...)
	}
	return e.tp.sym(hint, t, taint)
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.tp.boolc(constant.BoolVal(c.Value))
	case constant.Int:
		if isIntType(t) {
			if v, ok := constant.Val(c.Value).(*big.Int); ok {
				return e.tp.bigc(v)
			}
			if i, ok := constant.Int64Val(c.Value); ok {
				return e.tp.intc(i)
			}
		}
	case constant.String:
		return e.tp.mk("const", c.Value.ExactString(), types.Typ[types.String])
	}
	return e.tp.mk("const", c.Value.ExactString(), t)
}

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constTerm(v)
	case *ssa.Global:
		return e.tp.mk("global", v.String(), v.Type())
	case *ssa.Function:
		t := e.tp.mk("func", v.String(), v.Type())
		t.fn = v
		return t
	case *ssa.Builtin:
		return e.tp.mk("builtin", v.Name(), nil)
	}
	if t := st.env[v]; t != nil {
		return t
	}
	// Not computed on this path (should not happen); be conservative.
	t := e.freshOf("undef:"+v.Name(), v.Type(), true)
	st.env[v] = t
	return t
}

func (e *Engine) field(t *Term, i int, ft types.Type) *Term {
	switch t.op {
	case "struct":
		return t.args[i]
	case "tuple":
		return t.args[i]
	}
	return e.tp.mk("field", fmt.Sprint(i), ft, t)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// expand turns an opaque struct term into an explicit one.
func (e *Engine) expand(t *Term, typ types.Type) *Term {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok || t.op == "struct" {
		return t
	}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, e.field(t, i, s.Field(i).Type()))
	}
	return e.tp.mk("struct", types.TypeString(typ, nil), typ, fs...)
}

// slice components
func (e *Engine) sl(t *Term) (base, off, ln, cp *Term) {
	if t.op == "slice" {
		return t.args[0], t.args[1], t.args[2], t.args[3]
	}
	if t.op == "const" {
		n := e.strLen(t)
		return t, e.tp.intc(0), n, n
	}
	if t.op == "nil" {
		z := e.tp.intc(0)
		return t, z, z, z
	}
	return t, e.tp.intc(0), e.tp.mk("len", "", types.Typ[types.Int], t), e.tp.mk("cap", "", types.Typ[types.Int], t)
}

func (e *Engine) mkSlice(typ types.Type, base, off, ln, cp *Term) *Term {
	return e.tp.mk("slice", "", typ, base, off, ln, cp)
}

func (e *Engine) strLen(t *Term) *Term {
	switch t.op {
	case "const":
		v := constant.MakeFromLiteral(t.aux, token.STRING, 0)
		if v.Kind() == constant.String {
			return e.tp.intc(int64(len(constant.StringVal(v))))
		}
	case "slice":
		return t.args[2]
	}
	return e.tp.mk("len", "", types.Typ[types.Int], t)
}

// lenOf is len(v) for a value of type t.
func (e *Engine) lenOf(v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		_, _, l, _ := e.sl(v)
		return l
	case *types.Basic:
		return e.strLen(v)
	case *types.Array:
		return e.tp.intc(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return e.tp.intc(a.Len())
		}
	}
	return e.tp.mk("len", "", types.Typ[types.Int], v)
}

func (e *Engine) isNil(t *Term) *Term {
	switch t.op {
	case "nil":
		return e.tp.boolc(true)
	case "cell", "fieldaddr", "indexaddr", "closure", "func", "iface", "global", "alloc", "nonnil":
		return e.tp.boolc(false)
	case "slice":
		b := t.args[0]
		switch b.op {
		case "nil":
			return e.tp.boolc(true)
		case "sym", "load", "field":
			if t.typ != nil {
				return e.tp.mk("isnil", "", nil, b)
			}
		case "alloc", "cell":
			return e.tp.boolc(false)
		}
		return e.tp.mk("isnil", "", nil, b)
	}
	return e.tp.mk("isnil", "", nil, t)
}

// ---- memory ----

// addrRoot splits an address into its root and the access path.
func addrRoot(p *Term) (root *Term, path []*Term) {
	for p.op == "fieldaddr" || p.op == "indexaddr" {
		path = append(path, p)
		p = p.args[0]
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	return p, path
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) epoch(st *State) *Term {
	if t := st.ghost["epoch"]; t != nil {
		return t
	}
	return e.tp.intc(0)
}

func (e *Engine) bump(st *State) {
	st.ghost["epoch"] = e.tp.sym("epoch", nil, false)
	for k := range st.ghost {
		if strings.HasPrefix(k, "mem:") {
			delete(st.ghost, k)
		}
	}
}

// fineKey: ghosts holding the version of one kind of memory: "gep" of
// everything, "fe:" of one struct field, "me:" of one type of map.
func fineKey(k string) bool {
	return k == "gep" || strings.HasPrefix(k, "fe:") || strings.HasPrefix(k, "me:")
}

// bumpAll forgets what is known of all memory.
func (e *Engine) bumpAll(st *State, hint string) {
	e.bump(st)
	for k := range st.ghost {
		if fineKey(k) {
			delete(st.ghost, k)
		}
	}
	if hint != "" {
		st.ghost["epoch"] = e.tp.named("epoch@"+hint, nil, false)
		st.ghost["gep"] = e.tp.named("gep@"+hint, nil, false)
	} else {
		st.ghost["gep"] = e.tp.sym("gep", nil, false)
	}
}

func (e *Engine) bumpKey(st *State, k string) { st.ghost[k] = e.tp.sym("ep", nil, false) }

func (e *Engine) fine(st *State, k string) *Term {
	g, f := st.ghost["gep"], st.ghost[k]
	z := e.tp.intc(0)
	if g == nil {
		g = z
	}
	if f == nil {
		f = z
	}
	return e.tp.mk("ep", "", nil, g, f)
}

func (e *Engine) fieldKey(v *types.Var) string {
	if e.varID == nil {
		e.varID = map[*types.Var]int{}
	}
	id, ok := e.varID[v]
	if !ok {
		id = len(e.varID) + 1
		e.varID[v] = id
	}
	return "fe:" + strconv.Itoa(id)
}

func mapKeyOf(t types.Type) string { return "me:" + types.TypeString(t.Underlying(), nil) }

// version is the version of the memory at an address.
func (e *Engine) version(st *State, path []*Term, typ types.Type) *Term {
	if n := len(path); n > 0 && path[n-1].op == "fieldaddr" && typ != nil {
		switch typ.Underlying().(type) {
		case *types.Struct, *types.Array:
		default:
			if s := structOf(path[n-1].args[0].typ); s != nil {
				return e.fine(st, e.fieldKey(s.Field(atoi(path[n-1].aux))))
			}
		}
	}
	return e.epoch(st)
}

// bumpStore records a write through an address.
func (e *Engine) bumpStore(st *State, path []*Term, typ types.Type) {
	e.bump(st)
	n := len(path)
	if n > 0 && path[n-1].op == "indexaddr" {
		return
	}
	if n > 0 && path[n-1].op == "fieldaddr" {
		if s := structOf(path[n-1].args[0].typ); s != nil {
			e.bumpKey(st, e.fieldKey(s.Field(atoi(path[n-1].aux))))
			e.bumpFields(st, typ)
			return
		}
	}
	e.bumpAll(st, "")
}

func (e *Engine) bumpFields(st *State, t types.Type) {
	if t == nil {
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			e.bumpKey(st, e.fieldKey(s.Field(i)))
			e.bumpFields(st, s.Field(i).Type())
		}
	}
}

func (e *Engine) load(st *State, p *Term, typ types.Type) *Term {
	root, path := addrRoot(p)
	if c, ok := st.cells[root]; ok {
		cur := c
		ct := derefType(root.typ)
		for _, a := range path {
			if a.op == "fieldaddr" {
				s := structOf(ct)
				i := atoi(a.aux)
				cur = e.field(cur, i, s.Field(i).Type())
				ct = s.Field(i).Type()
			} else {
				at, _ := ct.Underlying().(*types.Array)
				if at == nil {
					return e.tp.mk("elem", "", typ, cur, a.args[1])
				}
				cur = e.elem(cur, a.args[1], at.Elem())
				ct = at.Elem()
			}
		}
		return cur
	}
	if m := st.ghost[fmt.Sprintf("mem:%d", p.id)]; m != nil {
		return m
	}
	// stable fields and globals are independent of the epoch
	if len(path) > 0 && e.stableAddr(path) {
		return e.tp.mk("load", "", typ, p)
	}
	if root.op == "global" && len(path) == 0 && e.stableGlobal(root) {
		if isErrorType(typ) && (e.errorGlobal(root) || stdSentinels[root.aux]) {
			return e.tp.mk("nonnil", root.aux, typ)
		}
		return e.tp.mk("load", "", typ, p)
	}
	if root.op == "slicebase" || (len(path) > 0 && path[0].op == "indexaddr") {
		// element of a slice: reading bytes of an immutable-in-practice input
		return e.tp.mk("load", "", typ, p, e.version(st, path, typ))
	}
	return e.tp.mk("load", "", typ, p, e.version(st, path, typ))
}

func (e *Engine) elem(arr, idx *Term, et types.Type) *Term {
	switch arr.op {
	case "zeroarr":
		return e.zero(et)
	case "arrset":
		if arr.args[1] == idx {
			return arr.args[2]
		}
		if _, ok := constOf(arr.args[1]); ok {
			if _, ok2 := constOf(idx); ok2 {
				return e.elem(arr.args[0], idx, et)
			}
		}
	}
	return e.tp.mk("elem", "", et, arr, idx)
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

func (e *Engine) stableAddr(path []*Term) bool {
	for _, a := range path {
		if a.op == "fieldaddr" {
			if s := structOf(a.args[0].typ); s != nil {
				if e.stable[s.Field(atoi(a.aux))] {
					continue
				}
			}
		}
		return false
	}
	return true
}

func (e *Engine) stableGlobal(g *Term) bool {
	for _, sp := range e.P.RepoPkgs {
		for _, m := range sp.Members {
			if gv, ok := m.(*ssa.Global); ok && gv.String() == g.aux {
				return stableGlobals(e.P)[gv]
			}
		}
	}
	return true // globals of dependencies: assumed constant
}

var stdSentinels = map[string]bool{"io.EOF": true, "io.ErrUnexpectedEOF": true, "io.ErrShortBuffer": true, "io.ErrShortWrite": true, "io.ErrNoProgress": true, "bytes.ErrTooLarge": true}

// errorGlobal: a package variable whose only value is a freshly made error.
func (e *Engine) errorGlobal(g *Term) bool {
	for _, sp := range e.P.RepoPkgs {
		for _, m := range sp.Members {
			gv, ok := m.(*ssa.Global)
			if !ok || gv.String() != g.aux {
				continue
			}
			init := sp.Func("init")
			n, good := 0, 0
			if init == nil {
				return false
			}
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(gv) {
						continue
					}
					n++
					switch v := s.Val.(type) {
					case *ssa.Call:
						switch calleeName(v.Common()) {
						case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
							good++
						}
					case *ssa.MakeInterface:
						if _, isPtr := v.X.Type().Underlying().(*types.Pointer); !isPtr {
							good++
						}
					}
				}
			}
			return n > 0 && n == good
		}
	}
	return false
}

func (e *Engine) store(st *State, p, v *Term, typ types.Type) {
	root, path := addrRoot(p)
	if c, ok := st.cells[root]; ok {
		st.cells[root] = e.update(c, derefType(root.typ), path, v)
		e.noteEscape(st, root, v)
		return
	}
	e.bumpStore(st, path, typ)
	st.ghost[fmt.Sprintf("mem:%d", p.id)] = v
	for _, c := range e.reach(st, v) {
		st.esc[c] = true
	}
}

func (e *Engine) noteEscape(st *State, root, v *Term) {
	if st.esc[root] {
		for _, c := range e.reach(st, v) {
			st.esc[c] = true
		}
	}
}

func (e *Engine) update(c *Term, ct types.Type, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	a := path[0]
	if a.op == "fieldaddr" {
		s := structOf(ct)
		c = e.expand(c, ct)
		i := atoi(a.aux)
		args := append([]*Term{}, c.args...)
		args[i] = e.update(args[i], s.Field(i).Type(), path[1:], v)
		return e.tp.mk("struct", c.aux, c.typ, args...)
	}
	idx := a.args[1]
	if at, ok := ct.Underlying().(*types.Array); ok {
		if len(path) > 1 {
			v = e.update(e.elem(c, idx, at.Elem()), at.Elem(), path[1:], v)
		}
		return e.tp.mk("arrset", "", ct, c, idx, v)
	}
	return e.tp.mk("havoc", "", ct, c, v)
}

// reach lists the cells reachable from a term.
func (e *Engine) reach(st *State, ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "cell" {
			if c, ok := st.cells[t]; ok {
				out = append(out, t)
				walk(c)
			}
			return
		}
		if t.op == "lin" {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// ---- obligations ----

func (e *Engine) where(fr *frame, ps token.Pos) string {
	return e.P.pos(ps)
}

// oblige records that cond must hold in st.
func (e *Engine) oblige(fr *frame, st *State, rule string, ps token.Pos, what string, ok bool, why func() string) {
	if e.mute > 0 {
		return
	}
	k := oblKey{rule, ps, what}
	o := e.obls[k]
	if o == nil {
		fn := "?"
		if fr != nil {
			fn = shortName(fr.fn)
		}
		o = &Obl{Rule: rule, Where: e.P.pos(ps), Fn: fn, What: what}
		e.obls[k] = o
		e.oblOrder = append(e.oblOrder, o)
	}
	o.Checks++
	if !ok {
		o.Fails++
		if o.Why == "" {
			o.Why = why()
			o.Path = fr.chain() + " [" + strings.Join(lastN(st.path, 12), " ") + "]"
		}
	}
}

func lastN(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (fr *frame) chain() string {
	var parts []string
	for f := fr; f != nil; f = f.parent {
		parts = append(parts, shortName(f.fn))
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " > ")
}

// requireGE obliges l >= 0.
func (e *Engine) requireGE(fr *frame, st *State, rule string, ps token.Pos, what string, l *Lin) bool {
	if e.mute > 0 {
		return true
	}
	ok := e.entailsGE(st.facts, l)
	e.oblige(fr, st, rule, ps, what, ok, func() string { return "cannot show " + l.String() + " >= 0" })
	return ok
}

// ---- driver ----

type pend struct {
	pred *ssa.BasicBlock
	st   *State
}

// exec interprets fn from st and returns its outcomes.
func (e *Engine) exec(parent *frame, fn *ssa.Function, args, bind []*Term, st *State, outer []*Term, site string, at ssa.Instruction) []Outcome {
	fr := &frame{fn: fn, info: e.info(fn), parent: parent, args: args, outer: outer, entry: map[*Term]bool{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	fr.callPath = site
	fr.callSite = at
	e.visited[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for c := range st.cells {
		fr.entry[c] = true
	}
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	fr.nd = len(s.defers)
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		s.env[p] = bind[i]
	}
	exits := e.region(fr, nil, fn.Blocks[0], []pend{{nil, s}})
	if len(exits) > 0 {
		panic("region exits at top level")
	}
	// drop dead cells and merge equal outcomes
	var outs []Outcome
	for _, o := range fr.outs {
		o.st.env = map[ssa.Value]*Term{}
		e.gc(fr, o.st, append(append([]*Term{}, o.results...), outer...))
		outs = append(outs, o)
	}
	return e.mergeOutcomes(outs)
}

func (e *Engine) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]int{}
	var order []string
	for i, o := range outs {
		var b strings.Builder
		fmt.Fprintf(&b, "%v|", o.panics)
		for _, r := range o.results {
			fmt.Fprintf(&b, "%d,", r.id)
		}
		b.WriteString(stateKey(o.st, nil))
		k := b.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var res []Outcome
	for _, k := range order {
		var sts []*State
		for _, i := range groups[k] {
			sts = append(sts, outs[i].st)
		}
		for _, s := range e.mergeFacts(sts, 16) {
			o := outs[groups[k][0]]
			o.st = s
			res = append(res, o)
		}
	}
	return res
}

// gc drops cells allocated by this activation that nobody can reach, and
// facts about dead atoms.
func (e *Engine) gc(fr *frame, st *State, roots []*Term) {
	var rs []*Term
	rs = append(rs, roots...)
	for c := range fr.entry {
		if _, ok := st.cells[c]; ok {
			rs = append(rs, c)
		}
	}
	for c := range st.esc {
		rs = append(rs, c)
	}
	for _, d := range st.defers {
		rs = append(rs, d.fn)
		rs = append(rs, d.args...)
	}
	for _, v := range st.env {
		rs = append(rs, v)
	}
	for k, v := range st.ghost {
		if !weakGhost(k) || (e.pureFns && fineKey(k)) || (e.preciseBytes && k == "epoch") {
			rs = append(rs, v)
		}
	}
	for ev := st.events; ev != nil; ev = ev.prev {
		rs = append(rs, ev.args...)
	}
	live := map[*Term]bool{}
	for _, c := range e.reach(st, rs...) {
		live[c] = true
	}
	for c := range st.cells {
		if !live[c] {
			delete(st.cells, c)
		} else {
			rs = append(rs, st.cells[c])
		}
	}
	st.facts = e.pruneFacts(st.facts, rs)
}

// atomsOf collects every subterm of t (including atoms of linear terms).
func atomsOf(t *Term, set map[*Term]bool) {
	if t == nil || set[t] {
		return
	}
	set[t] = true
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			atomsOf(a, set)
		}
		return
	}
	for _, a := range t.args {
		atomsOf(a, set)
	}
}

func (e *Engine) pruneFacts(f *Facts, roots []*Term) *Facts {
	live := map[*Term]bool{}
	for _, r := range roots {
		atomsOf(r, live)
	}
	for _, fr := range e.rootTerms() {
		atomsOf(fr, live)
	}
	// an atom built from live subterms is live (it can be rebuilt)
	var derived func(t *Term) bool
	memo := map[*Term]bool{}
	derived = func(t *Term) bool {
		if live[t] {
			return true
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		r := false
		if t.op == "lin" {
			r = true
			for _, a := range t.lin.atoms {
				if !derived(a) {
					r = false
				}
			}
		} else if len(t.args) > 0 {
			r = true
			for _, a := range t.args {
				if !derived(a) {
					r = false
				}
			}
		} else if t.op != "sym" {
			r = true // constants, globals
		}
		memo[t] = r
		return r
	}
	g := emptyFacts()
	g.dead = f.dead
	// transitive closure over linear constraints
	all := append(append(append([]*Lin{}, f.eqs...), f.ges...), f.nes...)
	for changed := true; changed; {
		changed = false
		for _, l := range all {
			any := false
			for _, a := range l.atoms {
				if derived(a) {
					any = true
				}
			}
			if any {
				for _, a := range l.atoms {
					if !live[a] && !derived(a) {
						live[a] = true
						memo = map[*Term]bool{}
						changed = true
					}
				}
			}
		}
	}
	keep := func(l *Lin) bool {
		for _, a := range l.atoms {
			if derived(a) {
				return true
			}
		}
		return len(l.atoms) == 1 && e.keepLit != nil && e.keepLit(l.atoms[0])
	}
	for _, l := range f.eqs {
		if keep(l) {
			g.eqs = append(g.eqs, l)
		}
	}
	for _, l := range f.ges {
		if keep(l) {
			g.ges = append(g.ges, l)
		}
	}
	for _, l := range f.nes {
		if keep(l) {
			g.nes = append(g.nes, l)
		}
	}
	for t, v := range f.lits {
		if derived(t) || e.keepLit != nil && e.keepLit(t) {
			g.lits[t] = v
		}
	}
	for t, v := range f.mask {
		if derived(t) {
			g.mask[t] = v
		}
	}
	return g
}

func (e *Engine) rootTerms() []*Term { return nil }

// weakGhost lists ghosts that do not distinguish states.
func weakGhost(k string) bool {
	return k == "epoch" || fineKey(k) || strings.HasPrefix(k, "mem:") || strings.HasPrefix(k, "ctl:") || strings.HasPrefix(k, "put:") || strings.HasPrefix(k, "flen:") || strings.HasPrefix(k, "last:") || strings.HasPrefix(k, "rdbuf:")
}

// stateKey identifies everything in a state except its facts.
func stateKey(st *State, live func(v ssa.Value) (int, bool)) string {
	var parts []string
	if live != nil {
		for v, t := range st.env {
			if n, ok := live(v); ok {
				parts = append(parts, fmt.Sprintf("v%d=%d", n, t.id))
			}
		}
	}
	for c, t := range st.cells {
		parts = append(parts, fmt.Sprintf("c%d=%d", c.id, t.id))
	}
	for k, t := range st.ghost {
		if weakGhost(k) {
			continue
		}
		parts = append(parts, fmt.Sprintf("g%s=%d", k, t.id))
	}
	for c := range st.esc {
		parts = append(parts, fmt.Sprintf("e%d", c.id))
	}
	sort.Strings(parts)
	var b strings.Builder
	b.WriteString(strings.Join(parts, ";"))
	for ev := st.events; ev != nil; ev = ev.prev {
		b.WriteString("|" + ev.kind)
		for _, a := range ev.args {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	for _, d := range st.defers {
		fmt.Fprintf(&b, "|d%d", d.fn.id)
	}
	return b.String()
}

// mergeFacts reduces states that differ only in their facts.
func (e *Engine) mergeFacts(sts []*State, limit int) []*State {
	var out []*State
	for _, s := range sts {
		if s.facts.dead {
			continue
		}
		merged := false
		for i, o := range out {
			if m, ok := e.mergePair(o, s); ok {
				out[i] = m
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	for len(out) > limit {
		// lossy join of the two last
		a, b := out[len(out)-2], out[len(out)-1]
		out = out[:len(out)-2]
		out = append(out, e.joinFacts(a, b))
	}
	return out
}

func unifyEpoch(e *Engine, a, b *State) *State {
	var c *State
	own := func() {
		if c == nil {
			c = a.clone()
		}
	}
	same := a.ghost["epoch"] == b.ghost["epoch"]
	for k, v := range a.ghost {
		if strings.HasPrefix(k, "mem:") && b.ghost[k] != v {
			same = false
		}
		if strings.HasPrefix(k, "put:") && b.ghost[k] != v {
			own()
			delete(c.ghost, k)
		}
	}
	for k, v := range b.ghost {
		if strings.HasPrefix(k, "ctl:") && a.ghost[k] == nil {
			own()
			c.ghost[k] = v
		}
	}
	if !same {
		own()
		e.bump(c)
	}
	for k, v := range a.ghost {
		if fineKey(k) && b.ghost[k] != v {
			own()
			e.bumpKey(c, k)
		}
	}
	for k := range b.ghost {
		if fineKey(k) && a.ghost[k] == nil {
			own()
			e.bumpKey(c, k)
		}
	}
	if c == nil {
		return a
	}
	return c
}

// mergePair merges exactly: subsumption, union of one kind mask, or a
// literal that takes both values.
func (e *Engine) mergePair(a, b *State) (*State, bool) {
	ka, kb := a.facts.key(), b.facts.key()
	if ka == kb {
		return unifyEpoch(e, a, b), true
	}
	if subset(a.facts, b.facts) {
		return unifyEpoch(e, a, b), true
	}
	if subset(b.facts, a.facts) {
		return unifyEpoch(e, b, a), true
	}
	// one differing mask
	fa, fb := a.facts, b.facts
	if sameLins(fa, fb) {
		diffL, diffM := 0, 0
		var lt, mt *Term
		for t, v := range fa.lits {
			if w, ok := fb.lits[t]; !ok || w != v {
				diffL++
				lt = t
				if !ok {
					diffL += 10
				}
			}
		}
		for t := range fb.lits {
			if _, ok := fa.lits[t]; !ok {
				diffL += 10
			}
		}
		for t, v := range fa.mask {
			if w, ok := fb.mask[t]; !ok || w != v {
				diffM++
				mt = t
				if !ok {
					diffM += 10
				}
			}
		}
		for t := range fb.mask {
			if _, ok := fa.mask[t]; !ok {
				diffM += 10
			}
		}
		if diffL == 0 && diffM == 1 {
			c := unifyEpoch(e, a, b).clone()
			c.facts = fa.clone()
			c.facts.mask[mt] = fa.mask[mt] | fb.mask[mt]
			return c, true
		}
		if diffL == 1 && diffM == 0 {
			c := unifyEpoch(e, a, b).clone()
			c.facts = fa.clone()
			delete(c.facts.lits, lt)
			return c, true
		}
	}
	return nil, false
}

func sameLins(a, b *Facts) bool {
	f := func(x, y []*Lin) bool {
		if len(x) != len(y) {
			return false
		}
		m := map[string]int{}
		for _, l := range x {
			m[l.key()]++
		}
		for _, l := range y {
			m[l.key()]--
			if m[l.key()] < 0 {
				return false
			}
		}
		return true
	}
	return f(a.eqs, b.eqs) && f(a.ges, b.ges) && f(a.nes, b.nes)
}

// subset reports whether every fact of a is a fact of b (so a is weaker).
func subset(a, b *Facts) bool {
	has := func(ls []*Lin) map[string]bool {
		m := map[string]bool{}
		for _, l := range ls {
			m[l.key()] = true
		}
		return m
	}
	chk := func(x, y []*Lin) bool {
		if len(x) > len(y) {
			return false
		}
		m := has(y)
		for _, l := range x {
			if !m[l.key()] {
				return false
			}
		}
		return true
	}
	if !chk(a.eqs, b.eqs) || !chk(a.ges, b.ges) || !chk(a.nes, b.nes) {
		return false
	}
	for t, v := range a.lits {
		if w, ok := b.lits[t]; !ok || w != v {
			return false
		}
	}
	for t, v := range a.mask {
		w, ok := b.mask[t]
		if !ok || w&^v != 0 {
			return false
		}
	}
	return true
}

// joinFacts keeps what both states know.
func (e *Engine) joinFacts(a, b *State) *State {
	e.notes["lossy join"] = true
	c := unifyEpoch(e, a, b).clone()
	g := emptyFacts()
	for _, l := range a.facts.eqs {
		if e.entailsGE(b.facts, l) && e.entailsGE(b.facts, l.neg()) {
			g.eqs = append(g.eqs, l)
		} else {
			if e.entailsGE(b.facts, l) {
				g.ges = append(g.ges, l)
			}
			if e.entailsGE(b.facts, l.neg()) {
				g.ges = append(g.ges, l.neg())
			}
		}
	}
	for _, l := range a.facts.ges {
		if e.entailsGE(b.facts, l) {
			g.ges = append(g.ges, l)
		}
	}
	for _, l := range b.facts.ges {
		if e.entailsGE(a.facts, l) && !e.entailsGE(g, l) {
			g.ges = append(g.ges, l)
		}
	}
	for _, l := range b.facts.eqs {
		for _, m := range []*Lin{l, l.neg()} {
			if e.entailsGE(a.facts, m) && !e.entailsGE(g, m) {
				g.ges = append(g.ges, m)
			}
		}
	}
	for _, l := range a.facts.nes {
		if e.truth(b.facts, e.tp.eq0(l)) == -1 {
			g.nes = append(g.nes, l)
		}
	}
	for t, v := range a.facts.lits {
		if w, ok := b.facts.lits[t]; ok && w == v {
			g.lits[t] = v
		}
	}
	for t, v := range a.facts.mask {
		if w, ok := b.facts.mask[t]; ok {
			g.mask[t] = v | w
		}
	}
	c.facts = g
	return c
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// region interprets the blocks of lp (or the whole function when lp is nil)
// starting at start, and returns the edges that leave the region; edges back to
// the region's header are returned too.
func (e *Engine) region(fr *frame, lp *Loop, start *ssa.BasicBlock, in []pend) []exitEdge {
	pending := map[*ssa.BasicBlock][]pend{start: in}
	var exits []exitEdge
	first := true
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fr.info.rpo[x] < fr.info.rpo[b] {
				b = x
			}
		}
		ps := pending[b]
		delete(pending, b)
		// evaluate phis
		var sts []*State
		for _, p := range ps {
			s := p.st
			if p.pred != nil {
				s = e.phis(fr, b, p.pred, s)
			}
			sts = append(sts, s)
		}
		var edges []exitEdge
		if l := fr.info.loops[b]; l != nil && !(first && lp != nil && l == lp) {
			sts = e.mergeAt(fr, b, sts, 12)
			for _, s := range sts {
				edges = append(edges, e.loop(fr, l, s)...)
			}
		} else {
			if !first || lp == nil {
				sts = e.mergeAt(fr, b, sts, 48)
			}
			for _, s := range sts {
				edges = append(edges, e.block(fr, b, s)...)
			}
		}
		first = false
		for _, ed := range edges {
			if ed.st.facts.dead {
				continue
			}
			if lp != nil && (ed.to == lp.head || !lp.blocks[ed.to]) {
				exits = append(exits, ed)
				continue
			}
			pending[ed.to] = append(pending[ed.to], pend{ed.from, ed.st})
		}
	}
	return exits
}

func (e *Engine) phis(fr *frame, b, pred *ssa.BasicBlock, s *State) *State {
	idx := -1
	for j, p := range b.Preds {
		if p == pred {
			idx = j
		}
	}
	vals := map[ssa.Value]*Term{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.val(s, ph.Edges[idx])
	}
	if len(vals) == 0 {
		return s
	}
	t := s.clone()
	for k, v := range vals {
		t.env[k] = v
	}
	return t
}

// mergeAt prunes dead values and merges equal states at a block entry.
func (e *Engine) mergeAt(fr *frame, b *ssa.BasicBlock, sts []*State, limit int) []*State {
	live := fr.info.livein[b]
	isLive := func(v ssa.Value) bool {
		if live[v] {
			return true
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
			return true
		}
		return false
	}
	for i, s := range sts {
		t := s.clone()
		for v := range t.env {
			if !isLive(v) {
				delete(t.env, v)
			}
		}
		e.gc(fr, t, fr.outer)
		sts[i] = t
	}
	if len(sts) < 2 {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		if s.facts.dead {
			continue
		}
		k := stateKey(s, func(v ssa.Value) (int, bool) { n, ok := fr.info.num[v]; return n, ok })
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, e.mergeFacts(groups[k], 12)...)
	}
	if len(out) > limit*8 {
		e.notes[fmt.Sprintf("state explosion at %s (%d states)", e.P.pos(blockPos(b)), len(out))] = true
	}
	return out
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// looker is a client that looks at map lookups.
type looker interface {
	Lookup(e *Engine, fr *frame, st *State, in *ssa.Lookup, key *Term)
}
