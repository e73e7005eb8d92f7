package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value. Integer values are linear expressions
// over atoms; everything else is an uninterpreted term, a structured value
// (slice, struct, closure, address) or a constant.
type Term struct {
	id    int
	op    string
	aux   string
	args  []*Term
	lin   *Lin       // op "lin"
	typ   types.Type // Go type, used for the range of integer atoms
	fn    *ssa.Function
	taint int8 // memo: 0 unknown, 1 no, 2 yes
}

// Lin is sum(coef*atom) + c.
type Lin struct {
	atoms []*Term // sorted by id
	coefs []int64
	c     *big.Int
}

// TermPool interns terms for one analysis.
type TermPool struct {
	tab   map[string]*Term
	n     int
	fresh int
	sizes types.Sizes
}

func newPool(s types.Sizes) *TermPool { return &TermPool{tab: map[string]*Term{}, sizes: s} }

func (tp *TermPool) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t := tp.tab[k]; t != nil {
		return t
	}
	tp.n++
	t := &Term{id: tp.n, op: op, aux: aux, args: append([]*Term(nil), args...), typ: typ}
	tp.tab[k] = t
	return t
}

// sym makes a fresh symbol.
func (tp *TermPool) sym(hint string, typ types.Type, tainted bool) *Term {
	tp.fresh++
	t := tp.mk("sym", fmt.Sprintf("%s#%d", hint, tp.fresh), typ)
	if tainted {
		t.taint = 2
	} else {
		t.taint = 1
	}
	return t
}

// named makes (or finds) a symbol with a fixed name.
func (tp *TermPool) named(name string, typ types.Type, tainted bool) *Term {
	t := tp.mk("sym", name, typ)
	if tainted {
		t.taint = 2
	} else if t.taint == 0 {
		t.taint = 1
	}
	return t
}

func isTainted(t *Term) bool {
	if t == nil {
		return false
	}
	if t.taint != 0 {
		return t.taint == 2
	}
	r := false
	if t.op == "lin" {
		for _, a := range t.lin.atoms {
			if isTainted(a) {
				r = true
				break
			}
		}
	}
	for _, a := range t.args {
		if r {
			break
		}
		if isTainted(a) {
			r = true
		}
	}
	if r {
		t.taint = 2
	} else {
		t.taint = 1
	}
	return r
}

// ---- linear expressions ----

var bigOne = big.NewInt(1)

func linConst(c int64) *Lin  { return &Lin{c: big.NewInt(c)} }
func linBig(c *big.Int) *Lin { return &Lin{c: new(big.Int).Set(c)} }
func linAtom(a *Term) *Lin   { return &Lin{atoms: []*Term{a}, coefs: []int64{1}, c: new(big.Int)} }
func (l *Lin) isConst() bool { return len(l.atoms) == 0 }

func (l *Lin) addScaled(m *Lin, k int64) *Lin {
	r := &Lin{c: new(big.Int)}
	r.c.Mul(m.c, big.NewInt(k))
	r.c.Add(r.c, l.c)
	i, j := 0, 0
	for i < len(l.atoms) || j < len(m.atoms) {
		switch {
		case j >= len(m.atoms) || (i < len(l.atoms) && l.atoms[i].id < m.atoms[j].id):
			r.atoms = append(r.atoms, l.atoms[i])
			r.coefs = append(r.coefs, l.coefs[i])
			i++
		case i >= len(l.atoms) || m.atoms[j].id < l.atoms[i].id:
			r.atoms = append(r.atoms, m.atoms[j])
			r.coefs = append(r.coefs, k*m.coefs[j])
			j++
		default:
			c := l.coefs[i] + k*m.coefs[j]
			if c != 0 {
				r.atoms = append(r.atoms, l.atoms[i])
				r.coefs = append(r.coefs, c)
			}
			i++
			j++
		}
	}
	return r
}
func (l *Lin) add(m *Lin) *Lin { return l.addScaled(m, 1) }
func (l *Lin) sub(m *Lin) *Lin { return l.addScaled(m, -1) }
func (l *Lin) addC(k int64) *Lin {
	r := &Lin{atoms: l.atoms, coefs: l.coefs, c: new(big.Int).Add(l.c, big.NewInt(k))}
	return r
}
func (l *Lin) neg() *Lin { return linConst(0).addScaled(l, -1) }
func (l *Lin) scale(k int64) *Lin {
	if k == 0 {
		return linConst(0)
	}
	return linConst(0).addScaled(l, k)
}
func (l *Lin) key() string {
	var b strings.Builder
	for i, a := range l.atoms {
		b.WriteString(strconv.FormatInt(l.coefs[i], 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte('+')
	}
	b.WriteString(l.c.String())
	return b.String()
}

func (l *Lin) String() string {
	var parts []string
	for i, a := range l.atoms {
		s := a.String()
		switch l.coefs[i] {
		case 1:
		case -1:
			s = "-" + s
		default:
			s = fmt.Sprintf("%d*%s", l.coefs[i], s)
		}
		parts = append(parts, s)
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, l.c.String())
	}
	return strings.Join(parts, "+")
}

func (tp *TermPool) fromLin(l *Lin) *Term {
	if len(l.atoms) == 1 && l.coefs[0] == 1 && l.c.Sign() == 0 {
		return l.atoms[0]
	}
	k := "lin|" + l.key()
	if t := tp.tab[k]; t != nil {
		return t
	}
	tp.n++
	t := &Term{id: tp.n, op: "lin", lin: l}
	tp.tab[k] = t
	return t
}
func (tp *TermPool) intc(c int64) *Term    { return tp.fromLin(linConst(c)) }
func (tp *TermPool) bigc(c *big.Int) *Term { return tp.fromLin(linBig(c)) }
func toLin(t *Term) *Lin {
	if t.op == "lin" {
		return t.lin
	}
	return linAtom(t)
}

func constOf(t *Term) (*big.Int, bool) {
	if t.op == "lin" && t.lin.isConst() {
		return t.lin.c, true
	}
	return nil, false
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case "lin":
		return t.lin.String()
	case "sym", "const", "global", "type":
		return t.aux
	case "bool":
		return t.aux
	}
	var b strings.Builder
	b.WriteString(t.op)
	if t.aux != "" {
		b.WriteString("." + t.aux)
	}
	if len(t.args) > 0 {
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(',')
			}
			s := a.String()
			if len(s) > 120 {
				s = s[:117] + "..."
			}
			b.WriteString(s)
		}
		b.WriteByte(')')
	}
	return b.String()
}

// ---- booleans ----
// "bool" true/false; "ge0"(lin) meaning lin>=0; "eq0"(lin); "not"(b); any
// other op is an atom.

func (tp *TermPool) boolc(b bool) *Term {
	if b {
		return tp.mk("bool", "true", nil)
	}
	return tp.mk("bool", "false", nil)
}
func (tp *TermPool) not(b *Term) *Term {
	switch b.op {
	case "bool":
		return tp.boolc(b.aux != "true")
	case "not":
		return b.args[0]
	}
	return tp.mk("not", "", nil, b)
}
func (tp *TermPool) ge0(l *Lin) *Term {
	if l.isConst() {
		return tp.boolc(l.c.Sign() >= 0)
	}
	return tp.mk("ge0", "", nil, tp.fromLin(l))
}
func (tp *TermPool) eq0(l *Lin) *Term {
	if l.isConst() {
		return tp.boolc(l.c.Sign() == 0)
	}
	// canonical sign
	if l.coefs[0] < 0 {
		l = l.neg()
	}
	return tp.mk("eq0", "", nil, tp.fromLin(l))
}
func (tp *TermPool) eq(a, b *Term) *Term {
	if a == b {
		return tp.boolc(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tp.mk("eq", "", nil, a, b)
}

// intRange gives the range of an integer type.
func (tp *TermPool) intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(tp.sizes.Sizeof(b)) * 8
	if b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune {
		return nil, nil, false
	}
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bigOne, bits), bigOne), true
	}
	h := new(big.Int).Lsh(bigOne, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne), true
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }
