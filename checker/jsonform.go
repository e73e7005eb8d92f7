package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- JSON text as an automaton ----
//
// A state is a stack of open contexts, the current one last, and what has
// been begun inside it, after a bar. The contexts:
//
//	S  a value is expected          D  the value is complete
//	a  after [                      w  after an element     e  after its comma
//	o  after {                      k  after a key          c  after its colon
//	v  after a field's value        x  after its comma
//
// Begun: "v or "k inside a string (value or key), \v and \k after a backslash
// in it, u for the rest of an escape, # a number that may go on, and a part of
// a word. A state that begins with ! is an error and says which.

const jsonStart, jsonDone = "S|", "D|"

type jsonState struct {
	stack string
	sub   string
}

func parseJSONState(s string) jsonState {
	i := strings.IndexByte(s, '|')
	return jsonState{s[:i], s[i+1:]}
}

func (j jsonState) String() string { return j.stack + "|" + j.sub }

func (j jsonState) top() byte { return j.stack[len(j.stack)-1] }

func (j jsonState) with(c byte) jsonState {
	return jsonState{j.stack[:len(j.stack)-1] + string(c), j.sub}
}

// begin: a value begins; after is the state when it is complete.
func (j jsonState) begin() (after jsonState, ok bool) {
	switch j.top() {
	case 'S':
		return j.with('D'), true
	case 'a', 'e':
		return j.with('w'), true
	case 'c':
		return j.with('v'), true
	}
	return j, false
}

func (j jsonState) describe() string {
	if strings.HasPrefix(j.sub, "\"") || strings.HasPrefix(j.sub, "\\") || strings.HasPrefix(j.sub, "u") {
		return "inside a string"
	}
	if j.sub != "" && j.sub != "#" {
		return "inside the word " + j.sub
	}
	switch j.top() {
	case 'S':
		return "where a value is expected"
	case 'D':
		return "after the end of the value"
	case 'a':
		return "after ["
	case 'w':
		return "after an element"
	case 'e':
		return "after the comma of a list"
	case 'o':
		return "after {"
	case 'k':
		return "after a name"
	case 'c':
		return "after a colon"
	case 'v':
		return "after the value of a field"
	case 'x':
		return "after the comma of an object"
	}
	return "?"
}

func jsonErr(what string, j jsonState) string { return "!" + what + " is written " + j.describe() }

var jsonWords = []string{"null", "true", "false"}

// jsonLit follows fixed text.
func jsonLit(s, lit string) string {
	if strings.HasPrefix(s, "!") {
		return s
	}
	j := parseJSONState(s)
	for i := 0; i < len(lit); i++ {
		c := lit[i]
		bad := func() string { return jsonErr(string([]byte{c}), j) }
		switch {
		case strings.HasPrefix(j.sub, "\""):
			k := j.sub[1:]
			switch {
			case c == '"':
				j.sub = ""
			case c == '\\':
				j.sub = "\\" + k
			case c < 0x20:
				return bad()
			}
			continue
		case strings.HasPrefix(j.sub, "\\"):
			k := j.sub[1:]
			switch {
			case strings.IndexByte(`"\/bfnrt`, c) >= 0:
				j.sub = "\"" + k
			case c == 'u':
				j.sub = "u0" + k
			default:
				return bad()
			}
			continue
		case strings.HasPrefix(j.sub, "u") && len(j.sub) == 3:
			if !strings.ContainsRune("0123456789abcdefABCDEF", rune(c)) {
				return bad()
			}
			if j.sub[1] == '3' {
				j.sub = "\"" + j.sub[2:]
			} else {
				j.sub = "u" + string(j.sub[1]+1) + j.sub[2:]
			}
			continue
		case j.sub != "" && j.sub != "#":
			w := j.sub + string(c)
			ok := false
			for _, x := range jsonWords {
				if x == w {
					w, ok = "", true
					break
				}
				ok = ok || strings.HasPrefix(x, w)
			}
			if !ok {
				return bad()
			}
			j.sub = w
			continue
		}
		if j.sub == "#" && (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+') {
			return "!a number is continued by fixed text"
		}
		j.sub = ""
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
		case c == '{' || c == '[':
			after, ok := j.begin()
			if !ok {
				return bad()
			}
			in := "o"
			if c == '[' {
				in = "a"
			}
			if len(after.stack) > 40 {
				return "!too many open braces"
			}
			j = jsonState{after.stack + in, ""}
		case c == '}':
			if j.top() != 'o' && j.top() != 'v' {
				return bad()
			}
			j.stack = j.stack[:len(j.stack)-1]
		case c == ']':
			if j.top() != 'a' && j.top() != 'w' {
				return bad()
			}
			j.stack = j.stack[:len(j.stack)-1]
		case c == ',':
			switch j.top() {
			case 'v':
				j = j.with('x')
			case 'w':
				j = j.with('e')
			default:
				return bad()
			}
		case c == ':':
			if j.top() != 'k' {
				return bad()
			}
			j = j.with('c')
		case c == '"':
			if t := j.top(); t == 'o' || t == 'x' {
				j = j.with('k')
				j.sub = "\"k"
				continue
			}
			after, ok := j.begin()
			if !ok {
				return bad()
			}
			j = after
			j.sub = "\"v"
		case c == 'n' || c == 't' || c == 'f':
			after, ok := j.begin()
			if !ok {
				return bad()
			}
			j = after
			j.sub = string(c)
		case c >= '0' && c <= '9':
			k := i
			for k < len(lit) && lit[k] >= '0' && lit[k] <= '9' {
				k++
			}
			after, ok := j.begin()
			if !ok || k > i+1 && c == '0' {
				return bad()
			}
			j = after
			j.sub = "#"
			i = k - 1
		default:
			return bad()
		}
	}
	return j.String()
}

// jsonValue follows one complete value.
func jsonValue(s, what string, isString bool) string {
	if strings.HasPrefix(s, "!") {
		return s
	}
	j := parseJSONState(s)
	if j.sub != "" && j.sub != "#" {
		return jsonErr(what, j)
	}
	if t := j.top(); t == 'o' || t == 'x' {
		if !isString {
			return "!" + what + ", which need not be a string, is written as a name"
		}
		return jsonState{j.with('k').stack, ""}.String()
	}
	after, ok := j.begin()
	if !ok {
		return jsonErr(what, j)
	}
	return jsonState{after.stack, ""}.String()
}

// jsonDec follows a decimal number.
func jsonDec(s string) string {
	if strings.HasPrefix(s, "!") {
		return s
	}
	j := parseJSONState(s)
	if strings.HasPrefix(j.sub, "\"") {
		return s
	}
	if j.sub != "" {
		return jsonErr("a number", j)
	}
	after, ok := j.begin()
	if !ok {
		return jsonErr("a number", j)
	}
	return jsonState{after.stack, "#"}.String()
}

// jsonEnd: the text ends here with exactly one value.
func jsonEnd(s string) bool { return s == jsonDone || s == "D|#" }

// formClient follows what is written to every writer through the automaton.
type formClient struct {
	wireClient
	trace func(string)
	ret   func(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction)
	n     int
}

const formKey = "js:"

// stateOf is the automaton state of a writer.
func (c *formClient) stateOf(st *State, k string) string {
	if t := st.ghost[formKey+k]; t != nil {
		return t.aux
	}
	return jsonStart
}

// pending lists errors that must be nil for the state to be right.
func (c *formClient) pending(st *State, k string) []*Term {
	if t := st.ghost[formKey+k]; t != nil {
		return t.args
	}
	return nil
}

func (c *formClient) put(e *Engine, st *State, k, s string, pend []*Term) {
	if strings.HasPrefix(c.stateOf(st, k), "!") {
		return
	}
	var ps []*Term
	if strings.HasPrefix(s, "!") {
		pend = nil
	}
	for _, p := range pend {
		if e.truth(st.facts, e.isNil(p)) != 1 {
			ps = append(ps, p)
		}
	}
	if len(ps) > 3 {
		s, ps = "!errors of earlier writes are not looked at", nil
	}
	st.ghost[formKey+k] = e.tp.mk("js", s, nil, ps...)
}

// settle drops the errors known to be nil.
func (c *formClient) settle(e *Engine, st *State) {
	for k, t := range st.ghost {
		if strings.HasPrefix(k, formKey) && len(t.args) > 0 {
			c.put(e, st, k[len(formKey):], t.aux, t.args)
		}
	}
}

func (c *formClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	c.wireClient.Start(e, f, st, args)
	for i, p := range f.Params {
		if isWriter(p.Type()) {
			c.put(e, st, wkey(args[i]), jsonStart, nil)
		}
	}
}

func isWriter(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "io.Writer" || s == "*bytes.Buffer" || s == "*bufio.Writer" || s == "*strings.Builder"
}

func (c *formClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		c.wireClient.Call(e, fr, st, in, name, args)
	}
}

func (c *formClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if f := in.Common().StaticCallee(); f != nil && e.contracts[f] != nil {
		for i, p := range f.Params {
			if i >= len(args) || !isWriter(p.Type()) {
				continue
			}
			k := wkey(args[i])
			c.n++
			pend := c.pending(st, k)
			if er := e.errResult(in, res); er != nil {
				pend = append(pend[:len(pend):len(pend)], er)
			}
			c.step(e, fr, st, in, k, piece{op: "nest"}, pend)
		}
		return
	}
	fail := st.ghost["wfail"]
	c.wireClient.After(e, fr, st, in, name, args, res)
	if st.ghost["wfail"] != fail && fail == nil {
		delete(st.ghost, "wfail")
		if len(args) > 0 && !isBuffer(args[0]) {
			k := wkey(args[0])
			c.put(e, st, k, "!a failed write is not reported", nil)
		}
	}
	delete(st.ghost, "libfail")
	delete(st.ghost, "wctx")
	delete(st.ghost, "rd")
	if name == "(*bytes.Buffer).Bytes" || name == "(*bytes.Buffer).String" {
		b, _, _, _ := e.sl(res)
		st.ghost["bb:"+strconv.Itoa(b.id)] = e.tp.mk("wcons", "", nil, e.tp.mk("wform", c.stateOf(st, wkey(args[0])), nil, c.pending(st, wkey(args[0]))...))
	}
	if name == "encoding/json.Indent" && res != nil && isNilConst(res) {
		c.feed(e, fr, st, in, wkey(args[0]), c.written(e, st, args[1], false))
	}
	for k := range st.ghost {
		if !strings.HasPrefix(k, "wl:") {
			continue
		}
		items := ghostList(st, k)
		delete(st.ghost, k)
		c.feed(e, fr, st, in, k, items)
	}
}

func isBuffer(t *Term) bool {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t.typ != nil && (types.TypeString(t.typ, nil) == "*bytes.Buffer" || types.TypeString(t.typ, nil) == "*strings.Builder")
}

func (c *formClient) feed(e *Engine, fr *frame, st *State, in ssa.CallInstruction, k string, items []*Term) {
	for _, it := range items {
		c.n++
		if it.op == "wform" {
			p := piece{op: "json", t: it}
			if !jsonEnd(it.aux) {
				p = piece{op: "unknown", t: it}
				if strings.HasPrefix(it.aux, "!") {
					c.put(e, st, k, it.aux, nil)
					continue
				}
			}
			c.step(e, fr, st, in, k, p, append(c.pending(st, k), it.args...))
			continue
		}
		if it.op == "wtrunc" {
			if len(it.args) == 0 {
				c.put(e, st, k, jsonStart, nil)
				continue
			}
			if n, ok := constOf(it.args[0]); ok && n.Sign() == 0 {
				c.put(e, st, k, jsonStart, nil)
				continue
			}
		}
		for _, p := range text([]*Term{it}) {
			c.step(e, fr, st, in, k, p, c.pending(st, k))
		}
	}
}

// step moves a writer's automaton over one piece of text.
func (c *formClient) step(e *Engine, fr *frame, st *State, in ssa.CallInstruction, k string, p piece, pend []*Term) {
	s := c.stateOf(st, k)
	if strings.HasPrefix(s, "!") {
		return
	}
	inStr := strings.HasPrefix(parseJSONState(s).sub, "\"")
	t := s
	switch p.op {
	case "lit":
		t = jsonLit(s, p.lit)
	case "dec":
		t = jsonDec(s)
	case "nest":
		t = jsonValue(s, "a value", false)
	case "json":
		t = jsonValue(s, "a value", stringArg(p.t))
	case "bytes":
		if byMarshaler(p.t) {
			t = jsonValue(s, "what a MarshalJSON method returns", false)
		} else {
			t = "!text that is not known to be well-formed is written: " + clip(p.t.String(), 80)
		}
	default:
		if x := c.resolve(e, st, p.t); x != nil {
			c.feed(e, fr, st, in, k, []*Term{x})
			return
		}
		switch {
		case p.t != nil && p.t.op == "pure" && safeText[p.t.aux] && inStr:
		case p.t != nil && p.t.op == "pure" && p.t.aux == "strconv.FormatBool":
			t = jsonValue(s, "a boolean", false)
		case inStr:
			t = "!text that is not escaped is written inside a string"
		default:
			t = "!text that is not known to be well-formed is written"
		}
	}
	if strings.HasPrefix(t, "!") {
		if in != nil {
			t += " (" + e.P.pos(in.Pos()) + ")"
		}
	}
	c.put(e, st, k, t, pend)
}

// changed: bytes that a ghost describes are overwritten.
func (c *formClient) changed(st *State, addr *Term) {
	root, _ := addrRoot(addr)
	delete(st.ghost, "jm:"+strconv.Itoa(root.id))
	delete(st.ghost, "bb:"+strconv.Itoa(root.id))
}

func (c *formClient) Store(e *Engine, fr *frame, st *State, in *ssa.Store, addr *Term) {
	c.wireClient.Store(e, fr, st, in, addr)
	c.changed(st, addr)
}

func (c *formClient) Copy(e *Engine, fr *frame, st *State, in ssa.CallInstruction, args []*Term) {
	c.wireClient.Copy(e, fr, st, in, args)
	b, _, _, _ := e.sl(args[0])
	c.changed(st, b)
}

// resolve: t, a string or the bytes of one, is known to hold what an item says.
func (c *formClient) resolve(e *Engine, st *State, t *Term) *Term {
	for t != nil {
		if x := st.ghost["jm:"+strconv.Itoa(t.id)]; x != nil {
			return e.tp.mk("wjson", "", nil, x)
		}
		if x := st.ghost["bb:"+strconv.Itoa(t.id)]; x != nil && len(ghostListTerm(x)) == 1 {
			return ghostListTerm(x)[0]
		}
		switch t.op {
		case "slice":
			b, o, n, _ := e.sl(t)
			src := b
			if b.op == "str" {
				src = b.args[0]
			}
			if z, ok := constOf(o); !ok || z.Sign() != 0 || !e.entailsEQ(st.facts, toLin(n).sub(toLin(e.strLen(b)))) && !e.entailsEQ(st.facts, toLin(n).sub(toLin(e.lenOf(src, types.NewSlice(types.Typ[types.Byte]))))) {
				return nil
			}
			t = b
		case "str", "conv":
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

var safeText = map[string]bool{
	"(*encoding/base64.Encoding).EncodeToString": true,
	"encoding/hex.EncodeToString":                true,
	"strconv.FormatBool":                         true,
}

// stringArg: json.Marshal of t gives a string.
func stringArg(t *Term) bool {
	for t.op == "iface" {
		t = t.args[0]
	}
	if t.op == "pure" && t.aux == "(reflect.Value).String" {
		return true
	}
	b, ok := t.typ.(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// byMarshaler: the bytes come from a MarshalJSON method of a user's type.
func byMarshaler(t *Term) bool {
	return contains(t, func(x *Term) bool {
		return x.op == "sym" && strings.Contains(x.aux, "MarshalJSON")
	})
}

func (c *formClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	if e.mute > 0 {
		return
	}
	n := len(rs)
	res := fr.fn.Signature.Results()
	s := st.clone()
	if n > 0 && isErrorType(res.At(n-1).Type()) {
		s.facts = e.assume(st.facts, e.isNil(rs[n-1]), true)
		if s.facts.dead {
			return
		}
	}
	c.settle(e, s)
	c.ret(e, fr, s, rs, at)
}

type formFail struct{ where, fn, why, path string }

func init() {
	register(&Check{ID: "C21", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the JSON encoders with an automaton for JSON text per writer (a stack of open braces and brackets and what may follow): every path of every recursive encoder that returns without an error has written exactly one value, assuming so of the encoders it calls; loops are solved separately for every state of the automaton at their head; text from outside is only written through json.Marshal, as decimal numbers, or by a user's MarshalJSON method, and names only as JSON strings; the bytes returned by the entry points are such a value",
		Expl: "every write and every nested call on the paths of the encoders reachable from MarshalJSON and MarshalJSONIndent",
		Trust: []string{
			"json.Marshal and a user's MarshalJSON method return one well-formed value when they succeed, and json.Indent keeps it so",
			"the prefix and indent given to MarshalJSONIndent are white space",
		},
		Run: func(p *Program, r *Result) { wellFormed(p, r) },
	})
}

func wellFormed(p *Program, r *Result) {
	cl := &formClient{}
	e := newEngine(p)
	e.inlineAll = true
	e.smallLimit = 60
	e.client = cl
	e.taintRule = func(f *ssa.Function, i int) bool { return false }
	var roots []*ssa.Function
	for _, n := range []string{"Codec.MarshalJSON", "Codec.MustMarshalJSON", "Codec.MarshalJSONIndent", "MarshalJSON", "MarshalJSONIndent"} {
		f := p.lookup(p.Main, n)
		if f == nil {
			r.undecided(n + " was not found")
			return
		}
		roots = append(roots, f)
	}
	codec := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		codec[f] = takesLock(p, f)
	}
	e.opaqueFn = func(f *ssa.Function) bool { return codec[f] && !reachesAny(p, f, e.contracts) && !writes(p, f) }
	// the functions assumed to write one value; one that does not is followed
	// into instead
	var cut []*ssa.Function
	for _, f := range recursive(p, reachable(p, roots...)) {
		for _, pa := range f.Params {
			if isWriter(pa.Type()) {
				cut = append(cut, f)
				e.contracts[f] = newContract(e, f)
				break
			}
		}
	}
	e.splitKey = func(st *State) string {
		var ks []string
		for k, t := range st.ghost {
			if strings.HasPrefix(k, formKey) {
				s := k + "=" + t.aux
				for _, a := range t.args {
					s += "," + strconv.Itoa(a.id)
				}
				ks = append(ks, s)
			}
		}
		sort.Strings(ks)
		return strings.Join(ks, ";")
	}
	e.splitFail = func(st *State) *State {
		s := st.clone()
		for k := range s.ghost {
			if strings.HasPrefix(k, formKey) {
				s.ghost[k] = e.tp.mk("js", "!the loop could not be followed", nil)
			}
		}
		return s
	}
	var fails []formFail
	cl.ret = func(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
		f := fr.fn
		var states []string
		var pends []*Term
		w := false
		for i, pa := range f.Params {
			if isWriter(pa.Type()) {
				w = true
				k := wkey(fr.args[i])
				states = append(states, cl.stateOf(st, k))
				pends = append(pends, cl.pending(st, k)...)
			}
		}
		if !w {
			items := cl.written(e, st, rs[0], false)
			k := "result"
			cl.put(e, st, k, jsonStart, nil)
			for _, it := range items {
				cl.feed(e, fr, st, nil, k, []*Term{it})
			}
			cl.settle(e, st)
			states = append(states, cl.stateOf(st, k))
			pends = cl.pending(st, k)
		}
		why := ""
		for _, s := range states {
			switch {
			case strings.HasPrefix(s, "!"):
				why = s[1:]
			case !jsonEnd(s):
				why = "the text ends " + parseJSONState(s).describe()
			case len(pends) > 0:
				why = "the error of a nested call may be lost"
			}
		}
		if why != "" {
			fails = append(fails, formFail{e.P.pos(instrPos(at)), shortName(f), why, strings.Join(lastN(st.path, 12), " ")})
		}
		cl.n++
	}
	var first []formFail
	seen := map[string]bool{}
	failed := false
	for round := 0; !failed; round++ {
		bad := map[*ssa.Function]bool{}
		for _, f := range cut {
			fails = nil
			e.loopCache = nil
			e.runRoot(f)
			for _, x := range fails {
				bad[f] = true
				// following into the function did not help
				failed = failed || seen[x.why] || round > 4
				first = append(first, x)
			}
		}
		if len(bad) == 0 {
			break
		}
		for _, x := range first {
			seen[x.why] = true
		}
		// follow into those that fail on their own
		var keep, drop []*ssa.Function
		for _, f := range cut {
			own := bad[f]
			for _, g := range cut {
				own = own && (g == f || !bad[g] || !calls(f, g))
			}
			if own {
				drop = append(drop, f)
			} else {
				keep = append(keep, f)
			}
		}
		failed = failed || len(drop) == 0
		for _, f := range drop {
			c := e.contracts[f]
			delete(e.contracts, f)
			if recurses(f, e.contracts) {
				e.contracts[f] = c
				failed = true
			}
		}
		if !failed {
			cut = keep
		}
	}
	if failed {
		for _, x := range first {
			r.ob("well-formed", x.where, x.fn, "exactly one value is written", false, x.why, x.path)
		}
		return
	}
	fails = nil
	for _, f := range roots {
		e.loopCache = nil
		e.runRoot(f)
	}
	for _, x := range append(first, fails...) {
		if len(fails) > 0 {
			r.ob("well-formed", x.where, x.fn, "exactly one value is written", false, x.why, x.path)
		}
	}
	for _, f := range cut {
		r.ob("well-formed", p.pos(f.Pos()), shortName(f), "exactly one value is written", true, "", "")
	}
	for _, f := range roots {
		r.ob("well-formed", p.pos(f.Pos()), shortName(f), "the result is exactly one value", len(fails) == 0, "see above", "")
	}
	r.floor("writes", cl.n, 30)
	r.floor("encoders that write one value", len(cut), 1)
}

// writes: f can write to a writer it is given.
func writes(p *Program, f *ssa.Function) bool {
	for _, pa := range f.Params {
		if isWriter(pa.Type()) {
			return true
		}
	}
	return false
}

// calls: f contains a call of g.
func calls(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// recurses: f can reach itself without passing a function of set.
func recurses(f *ssa.Function, set map[*ssa.Function]*Contract) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var h *ssa.Function
				switch x := in.(type) {
				case ssa.CallInstruction:
					h = x.Common().StaticCallee()
				case *ssa.MakeClosure:
					h = x.Fn.(*ssa.Function)
				}
				if h == f {
					return true
				}
				if h == nil || set[h] != nil || seen[h] || h.Pkg != f.Pkg {
					continue
				}
				seen[h] = true
				if walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}
