package main

import (
	"strconv"
	"strings"
)

// ---- text written ----

// piece is a part of the text written: fixed text, or something else.
type piece struct {
	op  string // lit, dec, json, nest, bytes, unknown
	lit string
	t   *Term
}

func (p piece) String() string {
	switch p.op {
	case "lit":
		return strconv.Quote(p.lit)
	case "unknown", "bytes":
		return p.op + "(" + clip(p.t.String(), 100) + ")"
	}
	return p.op
}

func constString(t *Term) (string, bool) {
	if t.op != "const" {
		return "", false
	}
	s, err := strconv.Unquote(t.aux)
	return s, err == nil
}

func unwrapIface(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// textOf describes a string.
func textOf(t *Term) []piece {
	if s, ok := constString(t); ok {
		return []piece{{op: "lit", lit: s}}
	}
	switch t.op {
	case "concat":
		return append(textOf(t.args[0]), textOf(t.args[1])...)
	case "conv", "iface":
		return textOf(t.args[0])
	case "pure", "purefn":
		switch t.aux {
		case "strconv.FormatInt", "strconv.FormatUint":
			if b, ok := constOf(t.args[1]); ok && b.Int64() == 10 {
				return []piece{{op: "dec", t: t.args[0]}}
			}
		case "strconv.Itoa":
			return []piece{{op: "dec", t: t.args[0]}}
		}
	case "sprintf":
		return fmtPieces("fmt.Sprintf", t.args, t)
	}
	return []piece{{op: "unknown", t: t}}
}

func isNumber(t *Term) bool {
	return isIntType(t.typ) || t.op == "pure" && (t.aux == "(reflect.Value).Int" || t.aux == "(reflect.Value).Uint")
}

// fmtPieces describes formatted output.
func fmtPieces(fn string, args []*Term, t *Term) []piece {
	unknown := []piece{{op: "unknown", t: t}}
	if !strings.HasSuffix(fn, "f") {
		if len(args) == 1 {
			a := unwrapIface(args[0])
			if isNumber(a) {
				return []piece{{op: "dec", t: a}}
			}
			return textOf(a)
		}
		return unknown
	}
	if len(args) == 0 {
		return unknown
	}
	f, ok := constString(args[0])
	if !ok {
		return unknown
	}
	args = args[1:]
	var out []piece
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out = append(out, piece{op: "lit", lit: f})
			break
		}
		if i > 0 {
			out = append(out, piece{op: "lit", lit: f[:i]})
		}
		if i+1 >= len(f) {
			return unknown
		}
		c := f[i+1]
		f = f[i+2:]
		if c == '%' {
			out = append(out, piece{op: "lit", lit: "%"})
			continue
		}
		if len(args) == 0 {
			return unknown
		}
		a := args[0]
		args = args[1:]
		switch c {
		case 'd', 'v', 's':
			b := unwrapIface(a)
			isNum := isNumber(b)
			switch {
			case c != 's' && isNum:
				out = append(out, piece{op: "dec", t: b})
			case c != 'd' && !isNum && !(c == 'v' && b.typ != nil && isByteSlice(b.typ)):
				out = append(out, textOf(b)...)
			default:
				return unknown
			}
		default:
			return unknown
		}
	}
	if len(args) != 0 {
		return unknown
	}
	return out
}

// text describes what items recorded by a wireClient write.
func text(items []*Term) []piece {
	var out []piece
	for _, it := range items {
		var ps []piece
		switch it.op {
		case "wstr":
			ps = textOf(it.args[0])
		case "wbyte":
			if c, ok := constOf(it.args[0]); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < 256 {
				ps = []piece{{op: "lit", lit: string([]byte{byte(c.Int64())})}}
			}
		case "wfmt":
			ps = fmtPieces(it.aux, it.args, it)
		case "wjson":
			ps = []piece{{op: "json", t: it.args[0]}}
		case "wnest":
			ps = []piece{{op: "nest", t: it}}
		case "wbytes":
			ps = []piece{{op: "bytes", t: it.args[0]}}
		}
		if ps == nil {
			ps = []piece{{op: "unknown", t: it}}
		}
		for _, p := range ps {
			if n := len(out); p.op == "lit" && n > 0 && out[n-1].op == "lit" {
				out[n-1].lit += p.lit
			} else {
				out = append(out, p)
			}
		}
	}
	return out
}
