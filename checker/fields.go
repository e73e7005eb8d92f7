package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldsClient follows loops over the fields of a struct type, and loops over
// the list of fields kept for it.
type fieldsClient struct {
	*wireClient
	p                *Program
	info             *types.Struct // FieldInfo
	decode, json     bool
	loops, n         int
	value            *Term // the value the root works on
	contracts        map[*ssa.Function]*Contract
	over             bool  // only whether the fields are set matters
	info0            *Term // the type information given to the root
	builds, complete int
}

// fieldInfoType is the type of the entries of the list of fields.
func fieldInfoType(p *Program) *types.Named {
	if o := p.Main.Pkg.Scope().Lookup("FieldInfo"); o != nil {
		if n, ok := o.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

func (c *fieldsClient) isInfo(t types.Type) bool {
	return isNamed(derefType(t), c.p.Main.Pkg, "FieldInfo")
}

func (c *fieldsClient) Call(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term) {
	if name == "(reflect.Type).Field" && len(args) == 2 {
		e.push(st, "fget", e.tp.mk("fget", "", nil, args...))
	}
	c.wireClient.Call(e, fr, st, in, name, args)
}

func (c *fieldsClient) After(e *Engine, fr *frame, st *State, in ssa.CallInstruction, name string, args []*Term, res *Term) {
	if name == "(reflect.Type).Field" && res != nil {
		// no field has an empty name
		st.facts = e.addGE(st.facts, toLin(e.strLen(e.field(res, 0, types.Typ[types.String]))).addC(-1))
	}
	c.wireClient.After(e, fr, st, in, name, args, res)
}

func (c *fieldsClient) Append(e *Engine, fr *frame, st *State, at ssa.CallInstruction, args []*Term, res *Term) {
	if s, ok := at.Common().Args[0].Type().Underlying().(*types.Slice); ok && c.isInfo(s.Elem()) {
		as := []*Term{args[0], res}
		base, off, n, _ := e.sl(args[1])
		if k, ok := constOf(n); ok && k.IsInt64() && k.Int64() <= 4 {
			for i := int64(0); i < k.Int64(); i++ {
				as = append(as, e.load(st, e.tp.mk("indexaddr", "", nil, base, e.tp.fromLin(toLin(off).addC(i))), s.Elem()))
			}
		}
		e.push(st, "fapp", e.tp.mk("fapp", "", nil, as...))
	}
	c.wireClient.Append(e, fr, st, at, args, res)
}

func (c *fieldsClient) Lookup(e *Engine, fr *frame, st *State, in *ssa.Lookup, key *Term) {
	if isStringType(in.Index.Type()) {
		e.push(st, "lookup", e.tp.mk("key", "", nil, key))
	}
}

// fresh lists what happened since the head of the loop.
func fresh(head, back *State, key string) []*Term {
	l := ghostList(back, key)
	old := ghostList(head, key)
	if len(old) <= len(l) {
		same := true
		for i := range old {
			same = same && old[i] == l[i]
		}
		if same {
			return l[len(old):]
		}
	}
	var out []*Term
	for _, x := range l {
		if x.op != "sym" {
			out = append(out, x)
		}
	}
	return out
}

// counter checks that idx runs through 0, 1, …, n-1 in the loop.
func counter(e *Engine, idx, n *Term, entry, head *State, backs []*State, exits []exitEdge, l *Loop) (why string, full func(x *State) bool) {
	li := toLin(idx)
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p := head.env[ph]
		if p == nil || !isIntType(ph.Type()) {
			continue
		}
		d := li.sub(toLin(p))
		if !d.isConst() {
			continue
		}
		s := entry.env[ph]
		if s == nil || !eqLin(e, entry.facts, toLin(s).add(d), linConst(0)) {
			return "does not start with the first field", nil
		}
		for _, b := range backs {
			if nx := b.env[ph]; nx == nil || !eqLin(e, b.facts, toLin(nx), toLin(p).addC(1)) {
				return "does not go on with the next field", nil
			}
		}
		return "", func(x *State) bool { return e.entailsGE(x.facts, li.sub(toLin(n))) }
	}
	return "is not taken one after the other", nil
}

func (c *fieldsClient) Loop(e *Engine, fr *frame, entry, head *State, backs []*State, exits []exitEdge, l *Loop) {
	// the list of fields being made
	var got *Term
	for _, b := range backs {
		for _, g := range fresh(head, b, "fget") {
			if g.op == "fget" {
				got = g
			}
		}
	}
	if got != nil {
		c.buildLoop(e, fr, entry, head, backs, exits, l, got)
		return
	}
	// the list of fields being used
	c.useLoop(e, fr, entry, head, backs, exits, l)
}

func (c *fieldsClient) Index(e *Engine, fr *frame, st *State, in *ssa.IndexAddr, base, idx, n *Term) {
	if c.isInfo(in.Type()) {
		t := e.tp.mk("fidx", "", nil, base, idx, n)
		if len(ghostList(st, "fidx")) == 0 || ghostList(st, "fidx")[len(ghostList(st, "fidx"))-1] != t {
			e.push(st, "fidx", t)
		}
	}
}

func (c *fieldsClient) say(e *Engine, fr *frame, st *State, l *Loop, what, why string) {
	c.n++
	at := l.head.Instrs[0]
	for _, in := range l.head.Instrs {
		if instrPos(in).IsValid() {
			at = in
			break
		}
	}
	e.oblige(fr, st, "fields", instrPos(at), what, why == "", func() string { return why })
}

// ---- making the list ----

// exported tells whether the field is known to be exported (1), known not to
// be (-1), or neither.
func (c *fieldsClient) exported(e *Engine, st *State, field *Term) int {
	name, pkg := e.field(field, 0, types.Typ[types.String]), e.field(field, 1, types.Typ[types.String])
	n := e.strLen(pkg)
	if e.entailsGE(st.facts, toLin(n).addC(-1)) {
		return -1
	}
	if e.entailsEQ(st.facts, toLin(e.strLen(name))) {
		return -1 // no field has an empty name
	}
	for t, v := range st.facts.lits {
		lit := 1
		if !v {
			lit = -1
		}
		if t.op == "eq" && contains(t, func(x *Term) bool { return x == pkg }) && contains(t, func(x *Term) bool { return x.op == "const" && x.aux == `""` }) {
			return lit
		}
		if isExportTest(t) && contains(t, func(x *Term) bool { return x == name || x == field }) {
			return lit
		}
	}
	if e.entailsEQ(st.facts, toLin(n)) {
		return 1
	}
	return 0
}

func isExportTest(t *Term) bool {
	for _, s := range []string{"unicode.IsUpper", "ast.IsExported", "token.IsExported", "StructField).IsExported"} {
		if strings.Contains(t.aux, s) {
			return true
		}
	}
	return false
}

// tagged: what is known of the test whether the json tag is "-".
func (c *fieldsClient) tag(e *Engine, field *Term, key string) func(t *Term) bool {
	tag := e.field(field, 3, nil)
	return func(t *Term) bool {
		return t.op == "pure" && t.aux == "(reflect.StructTag).Get" && len(t.args) >= 2 && t.args[0] == tag && t.args[1].aux == strconv.Quote(key)
	}
}

func (c *fieldsClient) dash(e *Engine, st *State, field *Term) int {
	isTag := c.tag(e, field, "json")
	for t, v := range st.facts.lits {
		if t.op != "eq" || len(t.args) != 2 {
			continue
		}
		a, b := t.args[0], t.args[1]
		if a.op == "const" {
			a, b = b, a
		}
		if b.op == "const" && b.aux == `"-"` && isTag(a) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

func (c *fieldsClient) buildLoop(e *Engine, fr *frame, entry, head *State, backs []*State, exits []exitEdge, l *Loop, got *Term) {
	c.builds++
	rt, idx := got.args[0], got.args[1]
	field := e.tp.mk("pure", "(reflect.Type).Field", nil, got.args...)
	for _, b := range backs {
		contains2 := func(t *Term) {
			contains(t, func(x *Term) bool {
				if x.op == "pure" && x.aux == "(reflect.Type).Field" && len(x.args) >= 2 && x.args[0] == rt && x.args[1] == idx {
					field = x
					return true
				}
				return false
			})
		}
		for t := range b.facts.lits {
			contains2(t)
		}
		for _, x := range fresh(head, b, "fapp") {
			contains2(x)
		}
	}
	n := e.tp.mk("pure", "(reflect.Type).NumField", types.Typ[types.Int], rt)
	for _, b := range backs {
		for _, ls := range [][]*Lin{b.facts.ges, b.facts.eqs} {
			for _, x := range ls {
				for _, t := range x.atoms {
					if t.op == "pure" && t.aux == "(reflect.Type).NumField" && t.args[0] == rt {
						n = t
					}
				}
			}
		}
	}
	why, full := counter(e, idx, n, entry, head, backs, exits, l)
	c.say(e, fr, head, l, "all fields are considered in order", why)
	for _, b := range backs {
		apps := fresh(head, b, "fapp")
		ex, ds := c.exported(e, b, field), c.dash(e, b, field)
		switch len(apps) {
		case 0:
			why := ""
			if ex != -1 && ds != 1 {
				why = "a field is left out that may be exported and wanted"
			}
			c.say(e, fr, b, l, "only unexported and unwanted fields are left out", why)
		case 1:
			c.say(e, fr, b, l, "each listed field is described by its own entry", c.entry(e, b, apps[0], field, idx, ex, ds))
		default:
			c.say(e, fr, b, l, "each field is listed once", "a field is listed more than once")
		}
	}
	for _, x := range exits {
		// the fields listed so far
		if full != nil && full(x.st) {
			x.st.ghost["listed"] = rt
		} else {
			delete(x.st.ghost, "listed")
		}
	}
}

func (c *fieldsClient) entry(e *Engine, st *State, app, field, idx *Term, ex, ds int) string {
	if ex != 1 {
		return "a field may be listed that is not exported"
	}
	if ds != -1 {
		return "a field may be listed that is marked json:\"-\""
	}
	if len(app.args) != 3 {
		return "the entry is not known"
	}
	el := app.args[2]
	if f := c.of(e, el, "Index"); f == nil || !eqLin(e, st.facts, toLin(f), toLin(idx)) {
		return "the entry has another index"
	}
	if f := c.of(e, el, "Type"); f == nil || f != e.field(field, 2, nil) && !(f.op == "field" && f.aux == "2" && f.args[0] == field) {
		return "the entry has another type"
	}
	_, _, n, _ := e.sl(app.args[0])
	f := c.of(e, el, "BinFieldNum")
	for f != nil && strings.HasPrefix(f.op, "trunc") {
		f = f.args[0] // there are not that many fields
	}
	if f != nil && f.op == "wrap" && f.aux == "+" && len(f.args) == 2 {
		var sum *Lin
		for _, a := range f.args {
			for strings.HasPrefix(a.op, "trunc") {
				a = a.args[0]
			}
			if sum == nil {
				sum = toLin(a)
			} else {
				sum = sum.add(toLin(a))
			}
		}
		f = e.tp.fromLin(sum)
	}
	if f == nil || !eqLin(e, st.facts, toLin(f), toLin(n).addC(1)) {
		return "the field number is not one more than the number of fields before: " + clip(fmt.Sprint(f), 80)
	}
	name := c.of(e, el, "JSONName")
	own := func(t *Term) bool { return t.op == "field" && t.aux == "0" && t.args[0] == field }
	if name == nil {
		return "the JSON name is not known"
	}
	if !own(name) && !contains(name, c.tag(e, field, "json")) {
		return "the JSON name is neither that of the field nor that of its tag: " + clip(fullTerm(name), 120)
	}
	return ""
}

func fullTerm(t *Term) string { return t.String() }

// of is a field of an entry, by name, also if embedded.
func (c *fieldsClient) of(e *Engine, el *Term, name string) *Term {
	return namedField(e, el, c.info, name)
}

func namedField(e *Engine, x *Term, s *types.Struct, name string) *Term {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == name {
			return e.field(x, i, f.Type())
		}
		if f.Embedded() {
			if in, ok := f.Type().Underlying().(*types.Struct); ok {
				if t := namedField(e, e.field(x, i, f.Type()), in, name); t != nil {
					return t
				}
			}
		}
	}
	return nil
}

// ---- using the list ----

// elemOf recognises parts of the entry at position idx of the list at base.
type elemOf struct {
	c    *fieldsClient
	e    *Engine
	base *Term
	idx  *Lin
}

func (m *elemOf) addr(t *Term) bool {
	if t.op != "indexaddr" || t.args[0] != m.base {
		return false
	}
	d := toLin(t.args[1]).sub(m.idx)
	return d.isConst() && d.c.Sign() == 0
}

// part tells which field of the entry t is.
func (m *elemOf) part(t *Term) string {
	s, names, ok := m.path(t)
	_ = s
	if !ok || len(names) == 0 {
		return ""
	}
	return names[len(names)-1]
}

func (m *elemOf) path(t *Term) (types.Type, []string, bool) {
	switch {
	case t.op == "load" && m.addr(t.args[0]):
		return m.c.info, nil, true
	case m.addr(t):
		return m.c.info, nil, true
	case t.op == "field" || t.op == "fieldaddr" || t.op == "load":
		if len(t.args) == 0 {
			return nil, nil, false
		}
		if t.op == "load" {
			return m.path(t.args[0])
		}
		in, names, ok := m.path(t.args[0])
		if !ok {
			return nil, nil, false
		}
		s, isS := in.Underlying().(*types.Struct)
		i, err := strconv.Atoi(t.aux)
		if !isS || err != nil || i >= s.NumFields() {
			return nil, nil, false
		}
		return s.Field(i).Type(), append(names, s.Field(i).Name()), true
	}
	return nil, nil, false
}

func (m *elemOf) is(t *Term, name string) bool { return t != nil && m.part(t) == name }

// known is the truth of a boolean field of the entry.
func (m *elemOf) known(st *State, name string) int {
	for t, v := range st.facts.lits {
		if m.is(t, name) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

func (c *fieldsClient) useLoop(e *Engine, fr *frame, entry, head *State, backs []*State, exits []exitEdge, l *Loop) {
	var idx, base, n *Term
	for _, b := range backs {
		for _, x := range fresh(head, b, "fidx") {
			if x.op != "fidx" {
				continue
			}
			if idx != nil && (idx != x.args[1] || base != x.args[0]) {
				c.say(e, fr, b, l, "all fields are taken in order", "more than one position is in use")
				return
			}
			base, idx, n = x.args[0], x.args[1], x.args[2]
		}
	}
	if idx == nil {
		return
	}
	c.loops++
	why, full := counter(e, idx, n, entry, head, backs, exits, l)
	if why == "" && !strings.Contains(base.String(), "info") && !contains(base, func(t *Term) bool { return t.op == "fieldaddr" || t.op == "load" }) {
		why = "the list is not the one kept for the type"
	}
	c.say(e, fr, head, l, "all fields are taken in order", why)
	for _, b := range backs {
		m := &elemOf{c, e, base, toLin(idx)}
		c.say(e, fr, b, l, c.what(), c.turn(e, fr, head, b, m))
	}
	for _, x := range exits {
		if full != nil && full(x.st) {
			x.st.ghost["walked"] = base
		} else {
			delete(x.st.ghost, "walked")
		}
	}
}

func (c *fieldsClient) what() string {
	switch {
	case c.decode:
		return "each field is set once, from its own key or to its default"
	}
	return "each field is written once under its own key, or is empty"
}

// turn checks one turn of the loop over the list.
func (c *fieldsClient) turn(e *Engine, fr *frame, head, b *State, m *elemOf) string {
	own := func(v *Term) bool {
		v = e.source(b, v)
		return v.op == "rfield" && v.args[0] == c.value && m.is(v.args[1], "Index")
	}
	var nests, sets []*Term
	for _, x := range fresh(head, b, "nest") {
		if x.op == "nest" {
			nests = append(nests, x)
		}
	}
	for _, k := range []string{"vsets", "sets"} {
		for _, x := range fresh(head, b, k) {
			if x.op == "set" && c.inside(e, b, x.args[0]) {
				sets = append(sets, x)
			}
		}
	}
	if c.over {
		var mine []*Term
		for _, x := range nests {
			if f := c.callee(x.aux); f != nil {
				if vi := valueParam(f); vi >= 0 && own(x.args[vi]) {
					mine = append(mine, x)
				}
			}
		}
		return c.decodeTurn(e, head, b, m, own, mine, sets)
	}
	for _, x := range nests {
		f := c.callee(x.aux)
		if f == nil {
			return "calls an unknown part"
		}
		vi := valueParam(f)
		if vi < 0 || vi >= len(x.args) {
			continue
		}
		v := x.args[vi]
		if v == e.zero(f.Params[vi].Type()) && c.isNil(e, b, own) {
			// the value behind a nil pointer
		} else if !own(v) {
			return "works on " + clip(e.source(b, v).String(), 100) + " instead of the field"
		}
		opts, num, hasNum := false, false, false
		for i, p := range f.Params {
			if i >= len(x.args) {
				break
			}
			if m.is(x.args[i], "FieldOptions") {
				opts = true
			}
			if bk, ok := p.Type().Underlying().(*types.Basic); ok && bk.Kind() == types.Uint32 {
				hasNum = true
				num = num || m.is(x.args[i], "BinFieldNum")
			}
		}
		if !opts {
			return "the options of the field are not passed on"
		}
		if hasNum && !num {
			return "the field is written under another number"
		}
	}
	if len(nests) > 1 {
		return "the field is handled more than once"
	}
	if c.decode {
		return c.decodeTurn(e, head, b, m, own, nests, sets)
	}
	// encoding
	if c.json {
		keys := 0
		for k := range b.ghost {
			if !strings.HasPrefix(k, "wl:") {
				continue
			}
			for _, x := range fresh(head, b, k) {
				if x.op == "wjson" {
					a := x.args[0]
					if a.op == "iface" {
						a = a.args[0]
					}
					if m.is(a, "JSONName") {
						keys++
					} else {
						return "another name is written"
					}
				}
			}
		}
		if keys > 1 {
			return "the name is written more than once"
		}
		if keys == 1 {
			if len(nests) == 0 && !c.isNil(e, b, own) {
				return "the name is written without the value"
			}
			return ""
		}
		if len(nests) > 0 {
			return "the value is written without the name"
		}
		if m.known(b, "JSONOmitEmpty") != 1 {
			return "a field is left out that is not to be omitted when empty"
		}
		if !c.empty(e, b, own, true) {
			return "a field is left out that may not be empty"
		}
		return ""
	}
	if len(nests) == 1 {
		return ""
	}
	if c.nilPointer(e, b, own) {
		return "" // which has no value to write, empty or not
	}
	if m.known(b, "WriteEmpty") != -1 {
		return "a field is left out that may have to be written"
	}
	if !c.empty(e, b, own, false) {
		return "a field is left out that may not be empty"
	}
	return ""
}

// inside: v is part of the value the root works on.
func (c *fieldsClient) inside(e *Engine, st *State, v *Term) bool {
	for i := 0; i < 20; i++ {
		v = e.source(st, v)
		if v == c.value {
			return true
		}
		if v.op != "rfield" && v.op != "ridx" && v.op != "relem" || len(v.args) == 0 {
			return false
		}
		v = v.args[0]
	}
	return false
}

func (c *fieldsClient) callee(name string) *ssa.Function {
	for f := range c.contracts {
		if f.String() == name {
			return f
		}
	}
	return nil
}

func (c *fieldsClient) isNil(e *Engine, st *State, own func(*Term) bool) bool {
	for t, v := range st.facts.lits {
		if v && t.op == "ris" && own(t.args[0]) {
			return true
		}
		if !v && t.op == "pure" && strings.HasSuffix(t.aux, "IsValid") && own(t.args[0]) {
			return true // what is behind a nil pointer
		}
	}
	return false
}

func (c *fieldsClient) nilPointer(e *Engine, st *State, own func(*Term) bool) bool {
	for t, v := range st.facts.lits {
		if v && t.op == "ris" && own(t.args[0]) {
			k := e.kindOf(e.rtype(t.args[0]))
			n, ok := constOf(k)
			m, masked := st.facts.mask[k]
			if ok {
				m, masked = 1<<uint(n.Int64()), true
			}
			if !masked || m == 1<<uint(reflect.Ptr) {
				return true // not the slice or map that is nil
			}
		}
		if !v && t.op == "pure" && strings.HasSuffix(t.aux, "IsValid") && own(t.args[0]) {
			return true // what is behind a nil pointer
		}
	}
	return false
}

// empty: the value is known to be one the decoder sets by itself.
func (c *fieldsClient) empty(e *Engine, st *State, own func(*Term) bool, json bool) bool {
	if c.isNil(e, st, own) {
		return true
	}
	for _, l := range st.facts.eqs {
		if len(l.atoms) != 1 || l.c.Sign() != 0 {
			continue
		}
		t := l.atoms[0]
		switch {
		case t.op == "rlen" && own(t.args[0]):
			return true
		case t.op == "pure" && (strings.HasSuffix(t.aux, "Int") || strings.HasSuffix(t.aux, "Uint")) && own(t.args[0]):
			return true
		}
	}
	for t, v := range st.facts.lits {
		switch {
		case !v && t.op == "pure" && strings.HasSuffix(t.aux, "Bool") && own(t.args[0]):
			return true
		case json && v && strings.Contains(t.aux, "reflect.DeepEqual"):
			if contains(t, func(x *Term) bool { return own(x) }) {
				return true
			}
		}
	}
	return false
}

func (c *fieldsClient) decodeTurn(e *Engine, head, b *State, m *elemOf, own func(*Term) bool, nests, sets []*Term) string {
	if c.over {
		for _, x := range sets {
			if own(x.args[0]) {
				return ""
			}
		}
		if len(nests) == 0 {
			return "the field is left as it is"
		}
		return ""
	}
	for _, x := range sets {
		if !own(x.args[0]) {
			return "something else than the field is set"
		}
	}
	if c.json {
		keys := 0
		for _, x := range fresh(head, b, "lookup") {
			if x.op == "key" {
				if !m.is(x.args[0], "JSONName") {
					return "another name is looked up"
				}
				keys++
			}
		}
		if keys == 0 {
			return "the name is not looked up"
		}
		if len(nests)+len(sets) == 0 && m.known(b, "JSONOmitEmpty") != 1 {
			return "the field is left as it is"
		}
		return ""
	}
	if len(nests)+len(sets) == 0 {
		return "the field is left as it is"
	}
	if len(nests) == 1 && m.known(b, "UnpackedList") != 1 && !c.ownKey(e, head, b, m) {
		return "the field may be decoded from what is written under another number"
	}
	return ""
}

// ownKey: the number read is that of the entry.
func (c *fieldsClient) ownKey(e *Engine, head, b *State, m *elemOf) bool {
	read := map[*Term]bool{}
	for _, x := range fresh(head, b, "rd") {
		if x.op == "rd" && x.aux == "uv" {
			read[x.args[0]] = true
		}
	}
	var nums, vals []*Term
	seen := map[*Term]bool{}
	for _, ls := range [][]*Lin{b.facts.eqs, b.facts.ges, b.facts.nes} {
		for _, l := range ls {
			for _, t := range l.atoms {
				if seen[t] {
					continue
				}
				seen[t] = true
				if m.is(t, "BinFieldNum") {
					nums = append(nums, t)
				} else if contains(t, func(x *Term) bool { return read[x] }) && t.op != "sym" {
					vals = append(vals, t)
				}
			}
		}
	}
	for _, x := range nums {
		for _, v := range vals {
			if eqLin(e, b.facts, toLin(x), toLin(v)) {
				return true
			}
		}
	}
	return false
}

func (c *fieldsClient) Start(e *Engine, f *ssa.Function, st *State, args []*Term) {
	c.wireClient.Start(e, f, st, args)
	c.value = nil
	if i := valueParam(f); i >= 0 {
		c.value = args[i]
	}
}

var _ = reflect.Int
var _ = sort.Strings

func init() {
	register(&Check{ID: "C28", Level: "proof", Archs: intArchs,
		Rule: "abstract interpretation of the loop that lists the fields of a struct type and of every loop over such a list: every turn lists the field under the next number unless it is unexported or unwanted; every turn of every encoder and decoder handles the listed field, under its own number or name, once; and success is only possible after the last field",
		Expl: "turns and ends of the loops over fields, in the type information and in both directions of both formats",
		Trust: []string{
			"reflect.Type.Field and NumField behave as documented",
		},
		Run: func(p *Program, r *Result) {
			named := fieldInfoType(p)
			if named == nil {
				r.undecided("no field list")
				return
			}
			info, _ := named.Underlying().(*types.Struct)
			// the list
			c := &fieldsClient{wireClient: &wireClient{}, p: p, info: info}
			e := newEngine(p)
			e.inlineAll = true
			e.smallLimit = 60
			e.client = c
			e.keepLit = fieldTest
			k := 0
			for _, f := range p.Funcs {
				if f.Pkg != p.Main || f.Parent() != nil || !makesFieldList(c, f) {
					continue
				}
				k++
				e.loopCache = nil
				e.runRoot(f)
				for _, pt := range c.paths {
					why := ""
					if pt.ok && pt.st.ghost["listed"] == nil {
						why = "the list may be incomplete"
					}
					r.ob("list", p.pos(instrPos(pt.at)), shortName(f), "the list is complete", why == "", why, "")
				}
			}
			r.take(e, "fields")
			r.floor("functions listing fields", k, 1)
			r.floor("loops listing fields", c.builds, 1)
			// its uses
			loops := 0
			for _, js := range []bool{false, true} {
				for _, dec := range []bool{false, true} {
					c := &fieldsClient{wireClient: &wireClient{}, p: p, info: info, decode: dec, json: js}
					var h *codecHalf
					if dec {
						h = decodeHalf(p, c, js)
					} else {
						h = encodeHalf(p, c, js)
					}
					h.inlineParts(p, c.isInfo)
					c.contracts = h.e.contracts
					h.e.lineage = true
					h.e.keepLit = fieldTest
					for _, f := range h.fns {
						before := c.loops
						h.e.loopCache = nil
						h.e.runRoot(f)
						if c.loops == before {
							continue
						}
						for _, pt := range c.paths {
							why := ""
							if pt.ok && pt.st.ghost["walked"] == nil && !timeCase(pt.st) {
								why = "succeeds before the last field"
							}
							r.ob("walk", p.pos(instrPos(pt.at)), shortName(f), "success means that all fields were handled", why == "", why, "")
						}
					}
					r.take(h.e, "fields")
					if c.loops > 0 {
						loops++
					}
				}
			}
			r.floor("walks over fields", loops, 4)
		}})
}

// fieldTest: tests that decide what is done about a field.
func fieldTest(t *Term) bool {
	if t.op == "pure" {
		for _, m := range []string{"Int", "Uint", "Bool", "IsValid"} {
			if strings.HasSuffix(t.aux, m) {
				return true
			}
		}
	}
	return t.op == "ris" || t.op == "rlen" || t.op == "pure" && isExportTest(t) || strings.Contains(t.aux, "reflect.DeepEqual")
}

// timeCase: the type is known to be the one that is not encoded by fields.
func timeCase(st *State) bool {
	for t, v := range st.facts.lits {
		if v && t.op == "eq" && contains(t, func(x *Term) bool { return x.op == "global" && strings.Contains(x.aux, "time") }) {
			return true
		}
	}
	return false
}

// makesFieldList: f asks a type for its fields and makes entries of them.
func makesFieldList(c *fieldsClient, f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if containsType(t, func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && isNamed(s.Elem(), c.p.Main.Pkg, "FieldInfo")
		}) {
			for g := range reachable(c.p, f) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "(reflect.Type).Field" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// inlineParts makes the analysis follow the calls of functions that only exist
// as the body of a loop of another one, or that are given an entry of the list.
func (h *codecHalf) inlineParts(p *Program, isInfo func(types.Type) bool) {
	sites := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						sites[g] = append(sites[g], ci)
					}
				}
			}
		}
	}
	part := map[*ssa.Function]bool{}
	for f := range h.e.contracts {
		for _, x := range f.Params {
			if isInfo(x.Type()) {
				part[f] = true
			}
		}
		if s := sites[f]; len(s) == 1 && onCycle(s[0].Block()) && s[0].Parent() != f {
			part[f] = true
		}
	}
	cs := map[*ssa.Function]*Contract{}
	for f, c := range h.e.contracts {
		if !part[f] {
			cs[f] = c
		}
	}
	h.e.contracts = cs
	var fns []*ssa.Function
	for _, f := range h.fns {
		if !part[f] {
			fns = append(fns, f)
		}
	}
	h.fns = fns
}
