package main

// Writes abstract stylesheets and selectors as CSS text, in many spellings.

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Style says how freely the text is written.
type Style struct {
	rng          *rand.Rand
	ws           int  // percent: unusual whitespace where it is optional
	comments     int  // percent: comments where whitespace may stand
	cases        int  // percent: unusual case of keywords and property names
	escapes      int  // percent: unnecessary or hexadecimal escapes in names
	empties      int  // percent: empty rules between the others
	escapedNames int  // percent: escapes in the names of custom properties
	sep          bool // the separators: ';' and '}' written in unusual ways
}

func plainStyle(rng *rand.Rand) *Style { return &Style{rng: rng} }
func mildStyle(rng *rand.Rand) *Style {
	return &Style{rng: rng, ws: 10, comments: 3, cases: 5, escapes: 5, empties: 3, sep: true}
}
func wildStyle(rng *rand.Rand) *Style {
	return &Style{rng: rng, ws: 45, comments: 25, cases: 30, escapes: 5, empties: 25, sep: true}
}
func importantStyle(rng *rand.Rand) *Style {
	return &Style{rng: rng, ws: 25, comments: 15, cases: 30, sep: true}
}
func escapeStyle(rng *rand.Rand) *Style {
	return &Style{rng: rng, ws: 5, comments: 2, escapes: 50, sep: true}
}

func (st *Style) p(percent int) bool { return percent > 0 && st.rng.Intn(100) < percent }
func (st *Style) pick(xs ...string) string {
	return xs[st.rng.Intn(len(xs))]
}

// opt is optional whitespace (or a comment)
func (st *Style) opt() string {
	s := ""
	if st.p(st.ws) {
		s += st.pick(" ", "\n", "\t", "  ", "\r\n", "\f", " \n  ", "\n\n\t")
	}
	if st.p(st.comments) {
		s += st.comment()
	}
	if s != "" && st.p(st.ws) {
		s += st.pick(" ", "\n", "\t")
	}
	return s
}

func (st *Style) comment() string {
	return st.pick("/**/", "/* c */", "/* } */", "/* ; */", "/* a { color: red } */", "/* , */", "/***/", "/* \" */", "/* ' */", "/* :x( */", "/* é */", "/*\n*/")
}

// optws is optional whitespace without comments
func (st *Style) optws() string {
	if st.p(st.ws) {
		return st.pick(" ", "\n", "\t", "  ", "\r\n", "\f", " \n  ")
	}
	return ""
}

// must is whitespace that separates
func (st *Style) must() string {
	if st.p(st.ws) {
		return st.pick("  ", "\n", "\t", " \t ", "\r\n", "\f", " \n  ")
	}
	return " "
}

// kw writes an ASCII keyword in some case
func (st *Style) kw(s string) string {
	if !st.p(st.cases) {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' && st.rng.Intn(2) == 0 {
			b[i] = c - 32
		}
	}
	return string(b)
}

func isNameStart(c rune) bool {
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c >= 0x80
}
func isName(c rune) bool { return isNameStart(c) || c == '-' || '0' <= c && c <= '9' }
func isHex(c rune) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

// escRune writes one rune as an escape
func (st *Style) escRune(c rune, next rune, forceHex bool) string {
	literal := c >= ' ' && c != 0x7f && !isHex(c)
	if literal && !forceHex && (st.escapes == 0 || st.rng.Intn(2) == 0) {
		return "\\" + string(c)
	}
	// what ends a hexadecimal escape
	end := " "
	if st.escapes > 0 && st.rng.Intn(3) == 0 {
		end = st.pick("\t", "\n", "\f", "\r", "\r\n")
		if end == "\r" && next == 0 { // an LF might follow
			end = "\r\n"
		}
	}
	h := fmt.Sprintf("%x", c)
	if st.rng.Intn(3) == 0 {
		h = strings.ToUpper(h)
	}
	switch st.rng.Intn(4) {
	case 0:
		h = strings.Repeat("0", 6-len(h)) + h
		if next == ' ' || next == 0 { // also after six digits a space would belong to the escape
			return "\\" + h + end
		}
		return "\\" + h + st.pick("", end)
	case 1:
		for len(h) < 6 && st.rng.Intn(2) == 0 {
			h = "0" + h
		}
	}
	if len(h) < 6 && (isHex(next) || st.rng.Intn(2) == 0) || next == ' ' || next == 0 {
		return "\\" + h + end
	}
	return "\\" + h
}

// ident writes an identifier
func (st *Style) ident(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, c := range rs {
		next := rune(0)
		if i+1 < len(rs) {
			next = rs[i+1]
		}
		need := !isName(c)
		if '0' <= c && c <= '9' && (i == 0 || i == 1 && rs[0] == '-') {
			need = true
		}
		if c == '-' && i == 0 && len(rs) == 1 {
			need = true
		}
		if c == '-' && i == 0 && next == '-' && len(rs) == 2 {
			// "--" alone
			need = true
		}
		if need || st.p(st.escapes) {
			b.WriteString(st.escRune(c, next, c == '\n' || c == '\r' || c == '\f'))
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// str writes a string
func (st *Style) str(s string) string {
	q := st.pick(`"`, `'`)
	var b strings.Builder
	b.WriteString(q)
	rs := []rune(s)
	for i, c := range rs {
		next := rune(0)
		if i+1 < len(rs) {
			next = rs[i+1]
		}
		switch {
		case c == '\n' || c == '\r' || c == '\f' || c == 0:
			b.WriteString(st.escRune(c, next, true))
		case string(c) == q || c == '\\':
			b.WriteString("\\" + string(c))
		case st.p(st.escapes):
			b.WriteString(st.escRune(c, next, false))
		default:
			b.WriteRune(c)
		}
	}
	b.WriteString(q)
	return b.String()
}

// identOK reports whether s can be written as an unquoted attribute value
func identOK(s string) bool {
	return s != "" && utf8.ValidString(s)
}

func (st *Style) nth(s *Sel) string {
	if s.A == 0 && s.B == 1 && st.rng.Intn(2) == 0 {
		n := "first-"
		if s.Last {
			n = "last-"
		}
		if s.Of {
			return ":" + st.kw(n+"of-type")
		}
		return ":" + st.kw(n+"child")
	}
	name := "nth-"
	if s.Last {
		name += "last-"
	}
	if s.Of {
		name += "of-type"
	} else {
		name += "child"
	}
	arg := ""
	switch {
	case s.A == 2 && s.B == 1 && st.rng.Intn(2) == 0:
		arg = st.kw("odd")
	case s.A == 2 && s.B == 0 && st.rng.Intn(2) == 0:
		arg = st.kw("even")
	case s.A == 0 && st.rng.Intn(2) == 0:
		arg = fmt.Sprint(s.B)
		if s.B >= 0 && st.p(20) {
			arg = "+" + arg
		}
	default:
		switch {
		case s.A == 1 && st.rng.Intn(2) == 0:
			arg = st.pick("n", "+n")
		case s.A == -1 && st.rng.Intn(2) == 0:
			arg = "-n"
		default:
			arg = fmt.Sprint(s.A) + "n"
		}
		arg = st.kw(arg)
		w := ""
		if st.p(st.ws) {
			w = " "
		}
		switch {
		case s.B > 0:
			arg += w + "+" + w + fmt.Sprint(s.B)
		case s.B < 0:
			arg += w + "-" + w + fmt.Sprint(-s.B)
		case st.rng.Intn(2) == 0:
			arg += w + "+" + w + "0"
		}
	}
	return ":" + st.kw(name) + "(" + st.optws() + arg + st.optws() + ")"
}

// Sel writes a selector
func (st *Style) Sel(s *Sel) string {
	switch s.K {
	case "class":
		return "." + st.ident(s.V)
	case "tag":
		return st.ident(s.V)
	case "id":
		return "#" + st.ident(s.V)
	case "attr":
		o := "[" + st.optws() + st.ident(s.Key)
		if s.Op != "" {
			o += st.optws() + s.Op + st.optws()
			if !s.I && identOK(s.Val) && st.rng.Intn(3) == 0 {
				o += st.ident(s.Val)
			} else {
				o += st.str(s.Val)
			}
			if s.I {
				o += st.pick(" i", "i", " I", " i ")
			}
		}
		return o + st.optws() + "]"
	case "ps":
		return ":" + st.kw(s.V)
	case "pel":
		return "::" + st.kw(s.V)
	case "nth":
		return st.nth(s)
	case "fn":
		parts := make([]string, len(s.Args))
		for i, a := range s.Args {
			parts[i] = st.optws() + st.Sel(a) + st.optws()
		}
		return ":" + st.kw(s.V) + "(" + strings.Join(parts, ",") + ")"
	case "cmp":
		if len(s.Parts) == 0 && s.Pe == "" {
			return "*"
		}
		o := ""
		if (len(s.Parts) == 0 || s.Parts[0].K != "tag") && st.p(8) {
			o = "*"
		}
		for _, p := range s.Parts {
			o += st.Sel(p)
		}
		if s.Pe != "" {
			switch s.Pe {
			case "before", "after", "first-letter", "first-line":
				o += st.pick("::", "::", ":") + st.kw(s.Pe)
			default:
				o += "::" + st.kw(s.Pe)
			}
		}
		return o
	case "comb":
		if s.C == " " {
			return st.Sel(s.L) + st.must() + st.Sel(s.R)
		}
		a, b := st.optws(), st.optws()
		if st.ws == 0 {
			a, b = " ", " "
		}
		return st.Sel(s.L) + a + s.C + b + st.Sel(s.R)
	case "bad", "ext":
		return s.V
	}
	panic("selector kind " + s.K)
}

func (st *Style) Decl(d *Decl) string {
	var b strings.Builder
	if strings.HasPrefix(d.P, "--") {
		if st.escapedNames > 0 {
			b.WriteString("--" + (&Style{rng: st.rng, escapes: st.escapedNames}).ident(d.P[2:]))
		} else {
			b.WriteString(noEscapes(st).ident(d.P))
		}
	} else {
		b.WriteString(st.kw(d.P))
	}
	b.WriteString(st.optws() + ":" + st.opt())
	for i, t := range d.tok {
		switch {
		case t == " ":
			b.WriteString(st.must())
		case i > 0 && d.tok[i-1] != " ":
			b.WriteString(st.opt() + t)
		default:
			b.WriteString(t)
		}
	}
	if d.I {
		b.WriteString(st.opt() + "!" + st.opt() + st.kw("important"))
	}
	return b.String()
}

func noEscapes(st *Style) *Style {
	c := *st
	c.escapes = 0
	return &c
}

func (st *Style) Decls(ds []*Decl) string {
	var b strings.Builder
	for i, d := range ds {
		b.WriteString(st.opt() + st.Decl(d) + st.optws())
		last := i == len(ds)-1
		if !last || !st.sep || st.rng.Intn(2) == 0 {
			b.WriteString(";")
			for st.sep && st.p(st.ws/3) {
				b.WriteString(st.optws() + ";")
			}
		}
	}
	return b.String()
}

func (st *Style) cond(c string) string {
	if c == "" {
		return ""
	}
	// whitespace in a condition may be longer
	var b strings.Builder
	for _, r := range c {
		switch r {
		case ' ':
			b.WriteString(st.must())
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Sheet writes a stylesheet
func (st *Style) Sheet(items []*Item) string {
	var b strings.Builder
	for _, it := range items {
		b.WriteString(st.opt())
		if st.p(st.empties) {
			b.WriteString(st.pick("p{}", "p { }", "p{;}", "p,div{}", "@media print{}", "h1{\n}") + st.opt())
		}
		switch it.T {
		case "rule":
			for i, s := range it.Sels {
				if i > 0 {
					b.WriteString(st.optws() + "," + st.optws())
				}
				b.WriteString(st.Sel(s))
			}
			b.WriteString(st.optws() + "{" + st.Decls(it.Decls) + st.opt() + "}")
		case "at":
			b.WriteString("@" + st.kw(it.Kind))
			if it.Cond != "" {
				b.WriteString(st.must() + st.cond(it.Cond))
			}
			b.WriteString(st.optws() + "{" + st.Sheet(it.Body) + "}")
		default:
			b.WriteString(it.Text)
		}
	}
	b.WriteString(st.opt())
	return b.String()
}
