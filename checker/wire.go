package main

import (
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wirePath is one way a root function can return, with what it wrote and read
// on the way.
type wirePath struct {
	st *State
	rs []*Term
	ok bool // the error result is nil
	at ssa.Instruction
}

// wireClient records what every path of a root function writes to its writer,
// reads from its input, and stores in its target.
type wireClient struct {
	noClient
	root   *ssa.Function
	args   []*Term
	paths  []*wirePath
	panics []*wirePath

	fmtAt   ssa.Instruction
	fmtArgs []*Term
}

func (w *wireClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	w.root, w.args, w.paths, w.panics = f, args, nil, nil
}

func (w *wireClient) Return(e *Engine, fr *frame, st *State, rs []*Term, at ssa.Instruction) {
	if e.mute > 0 {
		return
	}
	n := len(rs)
	res := fr.fn.Signature.Results()
	if n == 0 || !isErrorType(res.At(n-1).Type()) {
		w.paths = append(w.paths, &wirePath{st.clone(), rs, true, at})
		return
	}
	isnil := e.isNil(rs[n-1])
	for _, v := range []bool{true, false} {
		s := st.clone()
		s.facts = e.assume(st.facts, isnil, v)
		if !s.facts.dead {
			w.paths = append(w.paths, &wirePath{s, rs, v, at})
		}
	}
}

func (w *wireClient) Panic(e *Engine, fr *frame, st *State, at ssa.Instruction) {
	if e.mute > 0 {
		return
	}
	w.panics = append(w.panics, &wirePath{st.clone(), nil, false, at})
}

// ---- lists kept in ghosts ----

func (e *Engine) push(st *State, key string, item *Term) {
	prev := st.ghost[key]
	if prev == nil {
		st.ghost[key] = e.tp.mk("wcons", "", nil, item)
		return
	}
	st.ghost[key] = e.tp.mk("wcons", "", nil, item, prev)
}

func ghostList(st *State, key string) []*Term {
	var r []*Term
	for t := st.ghost[key]; t != nil; {
		if t.op != "wcons" { // what a loop did
			r = append(r, t)
			break
		}
		r = append(r, t.args[0])
		if len(t.args) < 2 {
			break
		}
		t = t.args[1]
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (e *Engine) flag(st *State, name string) { st.ghost[name] = e.tp.boolc(true) }

// writerOf strips the interface wrapping of a writer.
func writerOf(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

func wkey(t *Term) string { return "wl:" + strconv.Itoa(writerOf(t).id) }

// context keeps states apart that differ in the kind under dispatch or in the
// options.
func (w *wireClient) context(e *Engine, st *State) {
	var parts []string
	for a, m := range st.facts.mask {
		if isKindAtom(a) && m&(m-1) == 0 {
			parts = append(parts, strconv.Itoa(a.id)+"="+strconv.FormatUint(uint64(m), 16))
		}
	}
	for t, v := range st.facts.lits {
		if t.op == "field" {
			parts = append(parts, strconv.Itoa(t.id)+"="+strconv.FormatBool(v))
		}
	}
	sort.Strings(parts)
	st.ghost["wctx"] = e.tp.mk("const", "ctx:"+strings.Join(parts, ","), nil)
}

func fixedName(name string) (string, bool) {
	for _, p := range []string{"(encoding/binary.littleEndian).", "(encoding/binary.bigEndian)."} {
		if strings.HasPrefix(name, p) {
			r := name[len(p):]
			en := "le"
			if strings.Contains(p, "big") {
				en = "be"
			}
			for _, b := range []string{"16", "32", "64"} {
				if strings.HasSuffix(r, b) {
					n, _ := strconv.Atoi(b)
					return r[:len(r)-2] + ":" + en + strconv.Itoa(n/8), true
				}
			}
		}
	}
	return "", false
}

func (w *wireClient) Store(e *Engine, fr *frame, st *State, at *ssa.Store, addr *Term) {
	root, _ := addrRoot(addr)
	delete(st.ghost, "enc:"+strconv.Itoa(root.id))
	delete(st.ghost, "cpy:"+strconv.Itoa(root.id))
}

func (w *wireClient) Copy(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term) {
	db, do, dn, _ := e.sl(args[0])
	root, _ := addrRoot(db)
	delete(st.ghost, "enc:"+strconv.Itoa(root.id))
	delete(st.ghost, "cpy:"+strconv.Itoa(root.id))
	sn := e.lenOf(args[1], at.Common().Args[1].Type())
	if z, ok := constOf(do); ok && z.Sign() == 0 && e.entailsEQ(st.facts, toLin(dn).sub(toLin(sn))) {
		st.ghost["cpy:"+strconv.Itoa(root.id)] = args[1]
	}
}

func (w *wireClient) Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term) {
	_, _, n, _ := e.sl(args[0])
	rb, _, _, _ := e.sl(res)
	if e.entailsEQ(st.facts, toLin(n)) {
		st.ghost["cpy:"+strconv.Itoa(rb.id)] = args[1]
	} else {
		delete(st.ghost, "cpy:"+strconv.Itoa(rb.id))
	}
}

func (e *Engine) entailsEQ(f *Facts, l *Lin) bool {
	return e.entailsGE(f, l) && e.entailsGE(f, l.neg())
}

// origin follows copies of byte slices (or strings made from them) back to
// where the bytes came from.
func (e *Engine) origin(st *State, x *Term, depth int) (base, off, n *Term) {
	base, off, n, _ = e.sl(x)
	if depth > 8 {
		return
	}
	if base.op == "str" {
		return e.origin(st, base.args[0], depth+1)
	}
	root, _ := addrRoot(base)
	if c := st.ghost["cpy:"+strconv.Itoa(root.id)]; c != nil {
		b2, o2, n2 := e.origin(st, c, depth+1)
		if o, ok := constOf(off); ok && o.Sign() == 0 && e.entailsEQ(st.facts, toLin(n).sub(toLin(n2))) {
			return b2, o2, n2
		}
	}
	return
}

// written describes the bytes of a slice passed to a writer.
func (w *wireClient) written(e *Engine, st *State, x *Term, isStr bool) []*Term {
	if isStr {
		return []*Term{e.tp.mk("wstr", "", nil, x)}
	}
	base, off, n, _ := e.sl(x)
	if c, ok := constOf(n); ok && c.Sign() == 0 {
		return nil
	}
	root, _ := addrRoot(base)
	if z, ok := constOf(off); ok && z.Sign() == 0 {
		if r := st.ghost["enc:"+strconv.Itoa(root.id)]; r != nil && e.entailsEQ(st.facts, toLin(r.args[1]).sub(toLin(n))) {
			return []*Term{e.tp.mk("wval", r.aux, nil, r.args[0])}
		}
		if r := st.ghost["bb:"+strconv.Itoa(base.id)]; r != nil {
			return ghostListTerm(r)
		}
		if base.op == "alloc" && strings.HasPrefix(base.aux, "bytes@") && len(base.args) == 1 {
			return []*Term{e.tp.mk("wstr", "", nil, base.args[0])}
		}
		if r := st.ghost["jm:"+strconv.Itoa(base.id)]; r != nil {
			return []*Term{e.tp.mk("wjson", "", nil, r)}
		}
	}
	if c, ok := constOf(n); ok && c.IsInt64() && c.Int64() <= 16 {
		if o, ok := constOf(off); ok && o.IsInt64() {
			var out []*Term
			for i := int64(0); i < c.Int64(); i++ {
				b := e.load(st, e.tp.mk("indexaddr", "", types.NewPointer(types.Typ[types.Byte]), base, e.tp.intc(o.Int64()+i)), types.Typ[types.Byte])
				out = append(out, e.tp.mk("wbyte", "", nil, b))
			}
			return out
		}
	}
	return []*Term{e.tp.mk("wbytes", "", nil, x)}
}

func ghostListTerm(t *Term) []*Term {
	s := &State{ghost: map[string]*Term{"x": t}}
	if t.op == "const" {
		return nil
	}
	return ghostList(s, "x")
}

var scalarSetters = map[string]bool{"SetInt": true, "SetUint": true, "SetBool": true, "SetFloat": true, "SetString": true}

func (w *wireClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	if m := strings.TrimPrefix(name, "(reflect.Value)."); m != name {
		if scalarSetters[m] && len(args) == 2 {
			e.push(st, "sets", e.tp.mk("set", m, nil, args[0], args[1]))
			w.context(e, st)
		} else if m == "Set" && len(args) == 2 {
			e.push(st, "vsets", e.tp.mk("set", m, nil, args[0], args[1]))
		}
		return
	}
	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		// the arguments as they are before the call
		w.fmtAt, w.fmtArgs = in, append(append([]*Term{}, args[1:len(args)-1]...), e.variadic(st, args[len(args)-1])...)
	}
	if f := in.Common().StaticCallee(); f != nil && e.contracts[f] != nil {
		e.push(st, "nest", e.tp.mk("nest", f.String(), nil, args...))
		w.context(e, st)
		for i, p := range f.Params {
			if types.TypeString(p.Type(), nil) == "io.Writer" || types.TypeString(p.Type(), nil) == "*bytes.Buffer" {
				e.push(st, wkey(args[i]), e.tp.mk("wnest", f.String(), nil, args...))
			}
		}
	}
}

func (w *wireClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if fx, ok := fixedName(name); ok {
		i := strings.Index(fx, ":")
		kind, prim := fx[:i], fx[i+1:]
		sz := int64(prim[2] - '0')
		switch kind {
		case "PutUint":
			b, off, _, _ := e.sl(args[1])
			root, _ := addrRoot(b)
			if z, ok := constOf(off); ok && z.Sign() == 0 {
				st.ghost["enc:"+strconv.Itoa(root.id)] = e.tp.mk("wenc", prim, nil, args[2], e.tp.intc(sz))
			}
		case "AppendUint":
			b, _, _, _ := e.sl(res)
			_, _, n, _ := e.sl(args[1])
			if z, ok := constOf(n); ok && z.Sign() == 0 {
				st.facts = e.addGE(e.addGE(st.facts, toLin(e.lenOf(res, in.Value().Type())).addC(-sz)), toLin(e.lenOf(res, in.Value().Type())).neg().addC(sz))
				st.ghost["enc:"+strconv.Itoa(b.id)] = e.tp.mk("wenc", prim, nil, args[2], e.tp.intc(sz))
			}
		case "Uint":
			b, off, _, _ := e.sl(args[1])
			e.push(st, "rd", e.tp.mk("rd", prim, nil, res, b, off, e.tp.intc(sz)))
			w.context(e, st)
		}
		return
	}
	switch name {
	case "encoding/binary.PutUvarint", "encoding/binary.PutVarint":
		prim := "uv"
		if strings.HasSuffix(name, "PutVarint") {
			prim = "sv"
		}
		b, off, _, _ := e.sl(args[0])
		root, _ := addrRoot(b)
		if z, ok := constOf(off); ok && z.Sign() == 0 {
			st.ghost["enc:"+strconv.Itoa(root.id)] = e.tp.mk("wenc", prim, nil, args[1], res)
		}
		return
	case "encoding/binary.AppendUvarint", "encoding/binary.AppendVarint":
		prim := "uv"
		if strings.HasSuffix(name, "AppendVarint") {
			prim = "sv"
		}
		_, _, n, _ := e.sl(args[0])
		if z, ok := constOf(n); ok && z.Sign() == 0 {
			b, _, rn, _ := e.sl(res)
			st.ghost["enc:"+strconv.Itoa(b.id)] = e.tp.mk("wenc", prim, nil, args[1], rn)
		}
		return
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		prim := "uv"
		if strings.HasSuffix(name, ".Varint") {
			prim = "sv"
		}
		if !e.entailsGE(st.facts, toLin(res.args[1]).addC(-1)) {
			e.flag(st, "rdfail")
			return
		}
		b, off, _, _ := e.sl(args[0])
		e.push(st, "rd", e.tp.mk("rd", prim, nil, res.args[0], b, off, res.args[1]))
		w.context(e, st)
		return
	case "(*bytes.Buffer).Bytes":
		b, _, _, _ := e.sl(res)
		l := st.ghost[wkey(args[0])]
		if l == nil {
			l = e.tp.mk("const", "empty", nil)
		}
		st.ghost["bb:"+strconv.Itoa(b.id)] = l
		return
	case "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Reset":
		e.push(st, wkey(args[0]), e.tp.mk("wtrunc", "", nil, args[1:]...))
		return
	case "encoding/json.Marshal":
		if res != nil && res.op == "tuple" {
			if isNilConst(res.args[1]) {
				b, _, _, _ := e.sl(res.args[0])
				st.ghost["jm:"+strconv.Itoa(b.id)] = args[0]
			} else {
				e.flag(st, "libfail")
			}
		}
		return
	case "encoding/json.Unmarshal":
		if res != nil {
			if isNilConst(res) {
				b, off, n := e.origin(st, args[0], 0)
				e.push(st, "rd", e.tp.mk("rd", "json", nil, args[1], b, off, n))
				w.context(e, st)
			} else {
				e.flag(st, "libfail")
			}
		}
		return
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		fail := res != nil && res.op == "tuple" && !isNilConst(res.args[1])
		if fail {
			e.flag(st, "wfail")
			return
		}
		if name == "io.WriteString" {
			e.push(st, wkey(args[0]), e.tp.mk("wstr", "", nil, args[1]))
		} else {
			var fa []*Term
			if w.fmtAt == in {
				fa = w.fmtArgs
			}
			e.push(st, wkey(args[0]), e.tp.mk("wfmt", name, nil, fa...))
		}
		w.context(e, st)
		return
	}
	if strings.HasSuffix(name, ").Write") || strings.HasSuffix(name, ").WriteString") || strings.HasSuffix(name, ").WriteByte") {
		var er *Term
		if res != nil {
			er = res
			if res.op == "tuple" {
				er = res.args[1]
			}
		}
		if er != nil && !isNilConst(er) {
			e.flag(st, "wfail")
			return
		}
		if len(args) > 1 {
			k := wkey(args[0])
			if strings.HasSuffix(name, "WriteByte") {
				e.push(st, k, e.tp.mk("wbyte", "", nil, args[1]))
			} else {
				for _, it := range w.written(e, st, args[1], strings.HasSuffix(name, "WriteString")) {
					e.push(st, k, it)
				}
			}
			w.context(e, st)
		}
		return
	}
	// a failure reported by a part that is not followed
	if res != nil && in.Value() != nil {
		if et := e.errResult(in, res); et != nil && !isNilConst(et) && et.op != "nonnil" {
			if f := in.Common().StaticCallee(); f == nil || !e.repoFunc(f) || e.contracts[f] != nil || (e.opaqueFn != nil && e.opaqueFn(f)) {
				e.flag(st, "libfail")
			}
		}
		if name == "(reflect.Value).Call" {
			e.flag(st, "libfail")
		}
		if in.Common().IsInvoke() {
			if et := e.errResult(in, res); et != nil && !isNilConst(et) {
				e.flag(st, "libfail")
			}
		}
	}
}

// variadic lists the elements of a variadic argument.
func (e *Engine) variadic(st *State, x *Term) []*Term {
	base, off, n, _ := e.sl(x)
	c, ok := constOf(n)
	o, ok2 := constOf(off)
	if !ok || !ok2 || !c.IsInt64() || c.Int64() > 16 || o.Sign() != 0 {
		return []*Term{x}
	}
	var out []*Term
	for i := int64(0); i < c.Int64(); i++ {
		out = append(out, e.load(st, e.tp.mk("indexaddr", "", nil, base, e.tp.intc(i)), types.NewInterfaceType(nil, nil)))
	}
	return out
}

func (w *wireClient) Read(e *Engine, fr *frame, st *State, at ssa.Instruction, base, off, n *Term) {
	if c, ok := constOf(n); !ok || c.Cmp(bigOne) != 0 {
		return
	}
	u, ok := at.(*ssa.UnOp)
	if !ok {
		return
	}
	v := e.load(st, e.val(st, u.X), u.Type())
	it := e.tp.mk("rd", "byte", nil, v, base, off, n)
	for _, x := range ghostList(st, "rd") {
		if x == it {
			return
		}
	}
	e.push(st, "rd", it)
	w.context(e, st)
}

// ---- what a path is about ----

var scalarKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
	reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String}

// dispatchAtom: a kind atom about the value's own type, not a part of it.
func dispatchAtom(a *Term) bool {
	if !isKindAtom(a) {
		return false
	}
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.op {
		case "telem", "tkey", "relem", "ridx", "rfield", "indexaddr":
			ok = false
		case "pure":
			ok = ok && !strings.HasPrefix(t.aux, "(reflect.Type).")
		case "sym":
			if strings.HasPrefix(t.aux, "call:") {
				ok = false
			}
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(a)
	return ok
}

// kindsOf is the set of kinds (bit mask) the dispatched type can have on a
// path.
func kindsOf(st *State) uint64 {
	m := ^uint64(0)
	for a, x := range st.facts.mask {
		if dispatchAtom(a) {
			m &= uint64(x)
		}
	}
	return m
}

// optionArgs lists the parameters of the root holding field options.
func (w *wireClient) option(e *Engine, st *State, name string) *Term {
	for i, p := range w.root.Params {
		s, ok := p.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if t := fieldByName(e, w.args[i], s, name); t != nil {
			return t
		}
	}
	return nil
}

func fieldByName(e *Engine, x *Term, s *types.Struct, name string) *Term {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == name {
			return e.field(x, i, f.Type())
		}
		if f.Embedded() {
			if es, ok := f.Type().Underlying().(*types.Struct); ok {
				if t := fieldByName(e, e.field(x, i, f.Type()), es, name); t != nil {
					return t
				}
			}
		}
	}
	return nil
}

// under restricts a path to one kind and one choice of options; nil when the
// path is then impossible.
func (w *wireClient) under(e *Engine, st *State, k reflect.Kind, opts map[string]bool) *State {
	if kindsOf(st)&(1<<uint(k)) == 0 {
		return nil
	}
	s := st.clone()
	for a := range st.facts.mask {
		if dispatchAtom(a) {
			s.facts = e.assume(s.facts, e.tp.eq0(toLin(a).addC(-int64(k))), true)
		}
	}
	for n, v := range opts {
		if t := w.option(e, st, n); t != nil {
			s.facts = e.assume(s.facts, t, v)
		}
	}
	if s.facts.dead {
		return nil
	}
	return s
}

// inKind adds that an integer lies in the range of a kind.
func (e *Engine) inKind(f *Facts, t *Term, k reflect.Kind) *Facts {
	bk, ok := kindTypes[k]
	if !ok {
		return f
	}
	lo, hi, _ := e.tp.intRange(types.Typ[bk])
	return e.addGE(e.addGE(f, toLin(t).sub(linBig(lo))), linBig(hi).sub(toLin(t)))
}

// congruent: t = a + c with c a multiple of 2^bits.
func congruent(t, a *Term, bits uint) bool {
	d := toLin(t).sub(toLin(a))
	if !d.isConst() {
		return false
	}
	m := new(big.Int).Lsh(bigOne, bits)
	return new(big.Int).Mod(d.c, m).Sign() == 0
}
