package main

// Selectors on documents: matching, printing, specificity.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// DocNode is a node of a document; see spec/Selectors.tla.
type DocNode struct {
	T     string `json:"t"`
	P     int    `json:"p"`
	Tag   string `json:"tag"`
	Attrs []KV   `json:"attrs"`
	Text  string `json:"text"`
}

// build makes the nodes of a document
func build(d []*DocNode) []*html.Node {
	out := make([]*html.Node, len(d))
	for i, n := range d {
		h := &html.Node{}
		switch n.T {
		case "doc":
			h.Type = html.DocumentNode
		case "el":
			h.Type, h.Data, h.DataAtom = html.ElementNode, n.Tag, atom.Lookup([]byte(n.Tag))
			for _, a := range n.Attrs {
				h.Attr = append(h.Attr, html.Attribute{Key: a.K, Val: a.V})
			}
		case "text":
			h.Type, h.Data = html.TextNode, n.Text
		case "comment":
			h.Type, h.Data = html.CommentNode, n.Text
		}
		out[i] = h
		if n.P > 0 {
			out[n.P-1].AppendChild(h)
		}
	}
	return out
}

type Report struct {
	Err   string `json:"err"`
	Str   string `json:"str"`
	Spec  [3]int `json:"spec"`
	Pe    string `json:"pe"`
	All   []int  `json:"all"`
	Query int    `json:"query"`
	Below []int  `json:"below"`
}

type Use struct {
	Sel  *Sel    `json:"sel"`
	Text string  `json:"text"`
	A    *Report `json:"a"`
	B    *Report `json:"b"`
}

type Found struct {
	All   []int `json:"all"`
	Again []int `json:"again"`
	Query int   `json:"query"`
	Below []int `json:"below"`
}

type SelRecord struct {
	Doc   []*DocNode `json:"doc,omitempty"`
	D     int        `json:"d,omitempty"`
	From  int        `json:"from"`
	Uses  []*Use     `json:"uses,omitempty"`
	Found []*Found   `json:"found,omitempty"`
	Less  [][]int    `json:"less,omitempty"`
	Crash string     `json:"crash"`
}

type docIndex struct {
	nodes []*html.Node
	at    map[*html.Node]int
}

func newDocIndex(d []*DocNode) *docIndex {
	x := &docIndex{nodes: build(d), at: map[*html.Node]int{}}
	for i, n := range x.nodes {
		x.at[n] = i + 1
	}
	return x
}

func (x *docIndex) indices(ns []*html.Node) []int {
	out := []int{}
	for _, n := range ns {
		out = append(out, x.at[n])
	}
	return out
}

// matches lists the nodes that match, by Match or by Filter
func (x *docIndex) matches(m cascadia.Matcher, filter bool) []int {
	if filter {
		return x.indices(cascadia.Filter(x.nodes, m))
	}
	out := []int{}
	for i, n := range x.nodes {
		if m.Match(n) {
			out = append(out, i+1)
		}
	}
	return out
}

func (x *docIndex) query(m cascadia.Matcher, from int) (int, []int) {
	q := 0
	if n := cascadia.Query(x.nodes[from-1], m); n != nil {
		q = x.at[n]
	}
	return q, x.indices(cascadia.QueryAll(x.nodes[from-1], m))
}

// parse gives a selector to one of the parsers that accept it
func parseSel(text string, how int, pe bool) (cascadia.Sel, error) {
	if pe {
		how |= 1
	}
	switch how % 4 {
	case 0:
		return cascadia.Parse(text)
	case 1:
		return cascadia.ParseWithPseudoElement(text)
	case 2:
		g, err := cascadia.ParseGroup(text)
		if err != nil {
			return nil, err
		}
		if len(g) != 1 {
			return nil, fmt.Errorf("%d selectors", len(g))
		}
		return g[0], nil
	default:
		g, err := cascadia.ParseGroupWithPseudoElements(text)
		if err != nil {
			return nil, err
		}
		if len(g) != 1 {
			return nil, fmt.Errorf("%d selectors", len(g))
		}
		return g[0], nil
	}
}

func report(x *docIndex, from int, s cascadia.Sel, err error) *Report {
	r := &Report{All: []int{}, Below: []int{}}
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "error"
		}
		return r
	}
	sp := s.Specificity()
	r.Str, r.Spec, r.Pe = s.String(), [3]int{sp[0], sp[1], sp[2]}, s.PseudoElement()
	r.All = x.matches(s, from%2 == 0)
	r.Query, r.Below = x.query(s, from)
	return r
}

// element is the pseudo-element of a tree, for the choice of a parser
func hasElement(s *Sel) bool {
	switch s.K {
	case "comb":
		return hasElement(s.L) || hasElement(s.R)
	case "cmp":
		return s.Pe != ""
	}
	return false
}

// use parses and uses selectors; several at a time are also used as a group
func selUses(rec *SelRecord, sels []*Sel, st *Style, rng *rand.Rand) {
	x := newDocIndex(rec.Doc)
	var parsed []cascadia.Sel
	for _, s := range sels {
		u := &Use{Sel: s, Text: st.opt2(rng) + st.Sel(s) + st.opt2(rng)}
		rec.Uses = append(rec.Uses, u)
		u.A, u.B = &Report{All: []int{}, Below: []int{}}, &Report{All: []int{}, Below: []int{}}
		how := rng.Intn(4)
		rec.Crash = guarded(func() {
			a, err := parseSel(u.Text, how, hasElement(s))
			u.A = report(x, rec.From, a, err)
			if err != nil {
				return
			}
			parsed = append(parsed, a)
			b, err := parseSel(u.A.Str, rng.Intn(4), hasElement(s))
			u.B = report(x, rec.From, b, err)
		})
		if rec.Crash != "" {
			rec.Crash = fmt.Sprintf("%q: %s", u.Text, rec.Crash)
			return
		}
	}
	if len(parsed) < len(sels) {
		return
	}
	for _, a := range parsed {
		row := []int{}
		for j, b := range parsed {
			if a.Specificity().Less(b.Specificity()) {
				row = append(row, j+1)
			}
		}
		rec.Less = append(rec.Less, row)
	}
}

func (st *Style) opt2(rng *rand.Rand) string {
	if rng.Intn(100) < st.ws {
		return []string{" ", "\n", "\t ", "/* x */"}[rng.Intn(4)]
	}
	return ""
}

type selWorld struct {
	Docs [][]*DocNode `json:"docs"`
	Sels []*Sel       `json:"sels"`
}

func selectorWorld(file string, seed int64, emit func(any)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var w selWorld
	fatal(json.Unmarshal(b, &w))
	rng := rand.New(rand.NewSource(seed))
	// the selectors themselves, a few at a time, on some document
	for i := 0; i < len(w.Sels); i += 40 {
		rec := &SelRecord{Doc: w.Docs[rng.Intn(len(w.Docs))]}
		rec.From = 1 + rng.Intn(len(rec.Doc))
		st := plainStyle(rng)
		if rng.Intn(2) == 0 {
			st = wildStyle(rng)
			st.comments = 0
		}
		selUses(rec, w.Sels[i:min(i+40, len(w.Sels))], st, rng)
		emit(rec)
		if rec.Crash != "" {
			return
		}
	}
	as := make([]cascadia.Sel, len(w.Sels))
	bs := make([]cascadia.Sel, len(w.Sels))
	st := plainStyle(rng)
	for i, s := range w.Sels {
		// what does not parse is reported above
		if as[i], err = parseSel(st.Sel(s), i, hasElement(s)); err != nil {
			return
		}
		if bs[i], err = parseSel(as[i].String(), i+1, hasElement(s)); err != nil {
			return
		}
	}
	for i, d := range w.Docs {
		x := newDocIndex(d)
		rec := &SelRecord{D: i + 1, From: 1 + rng.Intn(min(len(d), 3))}
		for j := range as {
			f := &Found{All: []int{}, Again: []int{}, Below: []int{}}
			rec.Crash = guarded(func() {
				f.All, f.Again = x.matches(as[j], i%2 == 0), x.matches(bs[j], false)
				f.Query, f.Below = x.query(as[j], rec.From)
			})
			rec.Found = append(rec.Found, f)
			if rec.Crash != "" {
				rec.Crash = fmt.Sprintf("%s: %s", as[j], rec.Crash)
				break
			}
		}
		emit(rec)
		if rec.Crash != "" {
			return
		}
	}
}

// ---- random selectors and documents -----------------------------------------

type selGen struct {
	*rand.Rand
	names, vals, tags, keys []string
}

var oddStrings = []string{"", "a", "ab", "A", "a b", "a-b", "a-", "-a", " ", "\t", "a\nb", "a\rb", "a\fb", "\"", "'", "\\", "a\\", "a\"b", "a'b", "]", "[a]", "é", "É", "日本", "a;b", "{", "}", "/*", "*/",
	"a/*b", "\x01", "a\x1fb", "\x7f", "1", "0", "-", "--", "-1", "a i", "i", "\\61", "😀", "\u00a0x", "\u2028", "ſ", "K", "k", "K", "ß", "(", ")", ":", "url(x)", "\ufffd", "<b>", "&amp;", "a,b", "#", "!", "\u0080"}

func newSelGen(rng *rand.Rand) *selGen {
	g := &selGen{Rand: rng}
	if rng.Intn(2) == 0 {
		g.names = sample(rng, append(append([]string{}, trickyNames...), oddNames...), 3)
	} else {
		g.names = sample(rng, plainNames, 3)
	}
	if rng.Intn(40) == 0 {
		g.names = append(g.names, longName+"a", longName+"b")
	}
	g.vals = sample(rng, oddStrings, 3)
	g.tags = sample(rng, []string{"p", "b", "div", "x-y", "é", "li", "fieldset", "input", "option", "optgroup", "legend", "a", "select", "button", "h1", "x_1", "x-k", "x-K", "ſ", "s", "É", "i", "İ"}, 3)
	g.keys = sample(rng, []string{"data-x", "title", "name", "x", "é", "a:b", "-x", "_", "x.y", "1a", "k", "K", "É"}, 2)
	return g
}

var oddNames = []string{"a\tb"[:1], "\x1f", "a\x1f1", "9\x019", "é\x02a", "--", "---", "-é", "-\x01", "a\u0085", "x\\y z"[:3], "\ufffd", "-1a", "--1", "1-", "_1"}

func (g *selGen) name() string  { return pickStr(g.Rand, g.names) }
func (g *selGen) pc(p int) bool { return g.Intn(100) < p }

func (g *selGen) simple(depth int, top bool) *Sel {
	for {
		switch g.Intn(14) {
		case 0, 1:
			return class(g.name())
		case 2:
			return id(g.name())
		case 3, 4:
			op := pickStr(g.Rand, []string{"", "=", "!=", "~=", "|=", "^=", "$=", "*=", "*="})
			if op == "" {
				return attr(pickStr(g.Rand, g.keys), "", "", false)
			}
			return attr(pickStr(g.Rand, append([]string{"class"}, g.keys...)), op, g.value(), g.pc(35))
		case 5, 6:
			return nth(g.Intn(7)-3, g.Intn(8)-3, g.pc(40), g.pc(40))
		case 7:
			return ps(pickStr(g.Rand, pseudoPool))
		case 8:
			return ps(pickStr(g.Rand, []string{"enabled", "disabled", "checked", "empty", "root", "only-child", "only-of-type", "input", "link"}))
		case 9, 10, 11:
			if depth == 0 {
				continue
			}
			args := []*Sel{}
			for k := 1 + g.Intn(1+g.Intn(3)); k > 0; k-- {
				args = append(args, g.complex(depth-1, false))
			}
			return fn(pickStr(g.Rand, []string{"is", "where", "not", "has", "has", "not", "haschild"}), args...)
		case 12:
			if top && g.pc(30) {
				return pel(pickStr(g.Rand, webkitPool))
			}
		case 13:
			if top && g.pc(40) {
				return g.extension()
			}
		}
	}
}

// value is an attribute value: one of the pool, a part of it, or in another case
func (g *selGen) value() string {
	v := pickStr(g.Rand, g.vals)
	rs := []rune(v)
	switch g.Intn(6) {
	case 0:
		return strings.ToUpper(v)
	case 1:
		if len(rs) > 1 {
			return string(rs[:1+g.Intn(len(rs)-1)])
		}
	case 2:
		if len(rs) > 1 {
			return string(rs[1+g.Intn(len(rs)-1):])
		}
	}
	return v
}

// extension makes a selector whose matching is not specified
func (g *selGen) extension() *Sel {
	v := pickStr(g.Rand, g.vals)
	st := plainStyle(g.Rand)
	switch g.Intn(5) {
	case 0:
		return &Sel{K: "ext", V: ":contains(" + st.str(v) + ")"}
	case 1:
		return &Sel{K: "ext", V: ":containsOwn(" + st.str(v) + ")"}
	case 2:
		return &Sel{K: "ext", V: ":matches(" + pickStr(g.Rand, []string{`^\d+$`, `a[bc]d`, `(x|y)*`, `\pL`, `\s`, `(?i)q`, ` a `, `"`, `'a\'`}) + ")"}
	case 3:
		return &Sel{K: "ext", V: "[x#=" + pickStr(g.Rand, []string{`^\d+$`, `a[bc]d`, `(x|y)*`, `(?i)q`, `"a"`, `a{2,3}`}) + "]"}
	default:
		return &Sel{K: "ext", V: ":lang(" + pickStr(g.Rand, []string{"en", "de-CH", "zh", "x-1"}) + ")"}
	}
}

func (g *selGen) compound(depth int, top bool) *Sel {
	var parts []*Sel
	if g.pc(40) {
		parts = append(parts, tag(pickStr(g.Rand, g.tags)))
	}
	for k := g.Intn(4); k > 0; k-- {
		parts = append(parts, g.simple(depth, top))
	}
	pe := ""
	if top && g.pc(8) {
		pe = pickStr(g.Rand, pePool)
	}
	return cmp(pe, parts...)
}

func (g *selGen) complex(depth int, top bool) *Sel {
	s := g.compound(depth, false)
	n := g.Intn(1 + g.Intn(4))
	if n == 0 && top {
		return g.compound(depth, true)
	}
	for ; n > 0; n-- {
		s = comb(pickStr(g.Rand, []string{" ", ">", "+", "~"}), s, g.compound(depth, top && n == 1))
	}
	return s
}

// strings of a selector that documents should use
func (g *selGen) document(n int) []*DocNode {
	d := []*DocNode{{T: "doc", Attrs: []KV{}}}
	if g.pc(20) {
		d = append(d, &DocNode{T: "comment", P: 1, Attrs: []KV{}, Text: "c"})
	}
	d = append(d, g.element(1))
	path := []int{len(d)}
	for len(d) < n {
		// somewhere on the path to the last node
		path = path[:1+g.Intn(len(path))]
		if g.pc(40) || g.Intn(len(path)+1) > 0 {
			path = path[:max(1, len(path)-g.Intn(2))]
		}
		p := path[len(path)-1]
		switch g.Intn(8) {
		case 0:
			d = append(d, &DocNode{T: "text", P: p, Attrs: []KV{}, Text: pickStr(g.Rand, []string{" ", "\n\t", "x", "\u00a0", "a b", "\f", "\u2003", "\u0085", ""})})
		case 1:
			if g.pc(40) {
				d = append(d, &DocNode{T: "comment", P: p, Attrs: []KV{}, Text: "c"})
			}
		default:
			d = append(d, g.element(p))
			path = append(path, len(d))
		}
	}
	return d
}

func (g *selGen) element(p int) *DocNode {
	e := &DocNode{T: "el", P: p, Tag: pickStr(g.Rand, g.tags), Attrs: []KV{}}
	add := func(k, v string) { e.Attrs = append(e.Attrs, KV{k, v}) }
	if g.pc(55) {
		ws := []string{" ", "  ", "\t", "\n ", "\f", "\r\n"}
		v := ""
		if g.pc(20) {
			v = pickStr(g.Rand, ws)
		}
		for k := g.Intn(4); k > 0; k-- {
			nm := g.name()
			switch g.Intn(10) {
			case 0:
				nm += "x"
			case 1:
				nm = strings.ToUpper(nm)
			case 2:
				nm += "\u00a0" + g.name()
			}
			v += nm
			if k > 1 || g.pc(20) {
				v += pickStr(g.Rand, ws)
			}
		}
		add("class", v)
	}
	if g.pc(25) {
		v := g.name()
		if g.pc(20) {
			v += pickStr(g.Rand, []string{" ", " x", "x"})
		}
		add("id", v)
	}
	for _, k := range g.keys {
		if g.pc(40) {
			v := g.value()
			switch g.Intn(10) {
			case 0:
				v += "-" + g.value()
			case 1:
				v += " " + g.value()
			case 2:
				v = "\t" + v
			case 3:
				v += g.value()
			}
			// values of nothing but other spaces are left out
			if strings.Trim(v, " \t\r\n\f") != "" && strings.TrimSpace(v) == "" {
				v = "x"
			}
			add(k, v)
		}
	}
	for _, k := range []string{"disabled", "checked", "selected", "href"} {
		if g.pc(15) {
			add(k, "")
		}
	}
	if g.pc(15) {
		add("type", pickStr(g.Rand, []string{"checkbox", "radio", "Radio", "text", "CHECKBOX", "checkbox "}))
	}
	g.Shuffle(len(e.Attrs), func(i, j int) { e.Attrs[i], e.Attrs[j] = e.Attrs[j], e.Attrs[i] })
	return e
}

// heavy makes selectors with many parts
func (g *selGen) heavy() []*Sel {
	rep := func(s *Sel, n int) *Sel {
		parts := []*Sel{}
		for i := 0; i < n; i++ {
			parts = append(parts, s)
		}
		return cmp("", parts...)
	}
	n := 9 + g.Intn(300)
	i, c := id("i"), class("c")
	s := []*Sel{rep(i, 2), rep(i, 1), rep(c, n), rep(c, n+1), cmp("", append([]*Sel{i}, rep(c, 10+g.Intn(250)).Parts...)...), i, c, tag("p")}
	chain := tag("p")
	for k := 0; k < n%100; k++ {
		chain = comb(" ", chain, tag("p"))
	}
	return append(s, chain, comb(">", rep(c, n), rep(c, n)))
}

func selectors(n int, seed int64, emit func(any)) {
	for k := 0; k < n; k++ {
		rng := rand.New(rand.NewSource(seed*1000003 + int64(k)))
		g := newSelGen(rng)
		rec := &SelRecord{Doc: g.document(3 + g.Intn(14))}
		rec.From = 1 + g.Intn(len(rec.Doc))
		if g.pc(50) {
			rec.From = 1
		}
		var ss []*Sel
		if k%50 == 49 {
			ss = g.heavy()
		} else {
			for i := 0; i < 8; i++ {
				ss = append(ss, g.complex(1+g.Intn(3), true))
			}
		}
		st := plainStyle(rng)
		switch g.Intn(4) {
		case 0:
			st = wildStyle(rng)
			st.comments = 0
		case 1:
			st = escapeStyle(rng)
			st.comments = 0
		case 2:
			st = mildStyle(rng)
			st.comments = 0
		}
		selUses(rec, ss, st, rng)
		emit(rec)
		if rec.Crash != "" {
			return
		}
	}
}
