package main

// Random stylesheets, selectors and class lists.

import (
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var corpusDir string

var families map[string][]string // shorthand -> longhands
var familyNames []string
var allProps []string

func loadCorpus() {
	b, err := os.ReadFile(filepath.Join(corpusDir, "families.json"))
	fatal(err)
	fatal(json.Unmarshal(b, &families))
	for f := range families {
		familyNames = append(familyNames, f)
	}
	sort.Strings(familyNames)
	b, err = os.ReadFile(filepath.Join(corpusDir, "properties.txt"))
	fatal(err)
	allProps = strings.Fields(string(b))
}

// Profile says what stylesheets and lists look like, in percent.
type Profile struct {
	Tricky    int // classes with names that need escapes or resemble each other
	Long      int // classes with long names
	Short     int // sessions about the longhands of one shorthand
	Imp       int // declarations with !important
	Custom    int // declarations of custom properties
	Vars      int // values that use custom properties
	At        int // rules in @media or @supports
	Deep      int // at-rules in at-rules
	Pseudo    int // classes with pseudo-classes
	PE        int // classes with pseudo-elements
	Struct    int // selectors with further parts
	Lists     int // rules with selector lists
	Bad       int // selectors that are not supported
	Junk      int // parts that have to be ignored
	NoDecl    int // rules without declarations
	Undefined int // undefined classes in lists
	Again     int // classes that are defined again
	Classes   int // number of classes of a session
	MaxDecls  int
	MaxList   int
	Style     string // how sheets are written
	// pools, for profiles about one kind of circumstance
	Lean bool // few properties, so that many conflicts arise
}

type Gen struct {
	*rand.Rand
	pr      Profile
	classes []string // classes the sheets are about
	others  []string // classes that only occur as further parts of selectors
	unknown []string
	props   []string
	customs []string
	conds   []*Item
	pseudos []*Sel
	pes     []string
	tmpl    []*Sel // structural selectors several classes share; the class is called hole
}

func (g *Gen) pc(percent int) bool { return percent > 0 && g.Intn(100) < percent }

func pickStr(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

func sample(r *rand.Rand, xs []string, n int) []string {
	p := r.Perm(len(xs))
	if n > len(xs) {
		n = len(xs)
	}
	out := make([]string, 0, n)
	for _, i := range p[:n] {
		out = append(out, xs[i])
	}
	return out
}

var plainNames = []string{"a", "b", "c", "d", "e", "f", "g", "ab", "a-b", "a-b-c", "b-a", "p-4", "p-40", "px-4", "m-2", "m-20", "-m-2", "text-red", "text-red-500", "text", "red", "flex", "block", "A", "B", "Ab", "is", "not", "hover", "x1", "x2", "_x", "w-full", "before", "media", "important"}
var trickyNames = []string{
	"md:p-4", "hover:p-4", "p-4", "md:hover:p-4", "w-1/2", "w-1", "1", "2xl", "2xl:p-4", "-1", "p-0.5", "p-0", "[color:red]", "w-[3px]", "w-[calc(1px+2px)]",
	"bg-[url('a.png')]", "a\\b", "a\\", "\\", "a.b", "a", "b", ".a", "a.", "#a", "a#b", "!p-4", "p-4!", "p-4", "(a)", "a(b)", "a)", "(", "a,b", ",", "a;b", ";", "a{b", "{", "}", "a}",
	"a@b", "@a", "a&b", "&", "*", "*:p-4", "a*", "a|b", "~a", "a~b", "a^b", "a$b", "a=b", "a\"b", "\"", "'", "a'b", "a%b", "50%", "+a", "a+b", "a>b", ">", "<a", "a<b", "a?b", "`a", "a:b", "a:", ":a", ":hover", "a::b",
	"é", "日本", "日", "ß", "ñandú", "a\u00a0b", "a\u2028b", "😀", "x😀y", "A", "É", "group-hover:a", "[&>p]:a", "[&_p]:a", "data-[x='1']:a", "supports-[display:grid]:a", "min-[640px]:a", "a/b/c", "/", "/*", "*/", "a/*b", "//",
	"a\x01b", "a\x7fb", "0", "00", "a0", "\\61", "e1", "1e", "a-", "-a", "--a", "a--b", "_", "__", "a_b", "-_",
}
var longName = strings.Repeat("[mask-image:linear-gradient(black,transparent)]/", 6)

var longNames []string

func init() {
	for _, c := range []string{"a", "b", "é"} {
		longNames = append(longNames, longName+c, c+longName, strings.Repeat(c, 260), strings.Repeat(longName, 15)+c)
	}
}

var markers = []string{"dark", "group", "peer", "rtl", "prose"}

var simpleProps = []string{"color", "display", "opacity", "z-index", "cursor", "width", "fill", "stroke", "position", "visibility", "-webkit-font-smoothing", "unknown-prop", "float"}

var condPool = []*Item{
	{Kind: "media", Cond: "(min-width:640px)"},
	{Kind: "media", Cond: "(min-width:768px)"},
	{Kind: "media", Cond: "(min-width:64px)"},
	{Kind: "media", Cond: "print"},
	{Kind: "media", Cond: "screen and (max-width:1px)"},
	{Kind: "media", Cond: "(hover:hover)"},
	{Kind: "media", Cond: "not all and (min-width:640px)"},
	{Kind: "media", Cond: "(prefers-color-scheme:dark)"},
	{Kind: "media", Cond: "print,screen"},
	{Kind: "media", Cond: ""},
	{Kind: "supports", Cond: "(display:grid)"},
	{Kind: "supports", Cond: "not (display:grid)"},
	{Kind: "supports", Cond: "(min-width:640px)"},
	{Kind: "supports", Cond: "(hover:hover)"},
}

var pseudoPool = []string{"hover", "focus", "active", "visited", "target", "read-only", "popover-open", "focus-within", "focus-visible", "autofill", "modal", "fullscreen", "first-child", "last-child", "first-of-type", "last-of-type", "only-child", "only-of-type", "empty", "root", "link", "enabled", "disabled", "checked"}
var pePool = []string{"before", "after", "marker", "placeholder", "selection", "first-line", "first-letter", "backdrop", "cue", "grammar-error", "spelling-error"}
var webkitPool = []string{"-webkit-scrollbar", "-webkit-scrollbar-thumb", "-webkit-file-upload-button", "-webkit-search-decoration", "-moz-placeholder", "-moz-focusring"}

// session starts a new session: it picks the pools
func newGen(rng *rand.Rand, pr Profile) *Gen {
	g := &Gen{Rand: rng, pr: pr}
	n := pr.Classes
	if n == 0 {
		n = 6
	}
	seen := map[string]bool{}
	for len(g.classes) < n {
		pool := plainNames
		if g.pc(pr.Tricky) {
			pool = trickyNames
		}
		if g.pc(pr.Long) {
			pool = longNames
		}
		c := pickStr(rng, pool)
		if !seen[c] {
			seen[c] = true
			g.classes = append(g.classes, c)
		}
	}
	for _, m := range sample(rng, markers, 2) {
		if !seen[m] {
			seen[m] = true
			g.others = append(g.others, m)
		}
	}
	for len(g.unknown) < 2 {
		pool := plainNames
		if g.pc(pr.Tricky) {
			pool = trickyNames
		}
		c := pickStr(rng, pool)
		if !seen[c] {
			seen[c] = true
			g.unknown = append(g.unknown, c)
		}
	}
	if g.pc(pr.Short) {
		f := pickStr(rng, familyNames)
		// the family of one of its longhands, too: shorthands that overlap
		long := families[f]
		g.props = append(g.props, f)
		g.props = append(g.props, sample(rng, long, 3)...)
		for _, o := range rng.Perm(len(familyNames)) {
			other := familyNames[o]
			for _, l := range families[other] {
				if other != f && contains(long, l) {
					g.props = append(g.props, other)
					break
				}
			}
			if len(g.props) > 6 {
				break
			}
		}
		g.props = append(g.props, pickStr(rng, simpleProps))
	} else {
		g.props = sample(rng, simpleProps, 2+rng.Intn(3))
		if g.pc(30) {
			g.props = append(g.props, pickStr(rng, allProps))
		}
	}
	g.customs = sample(rng, []string{"--x", "--y", "--xy", "--x-y", "--X", "--tw-ring", "--tw-ring-color", "--é", "--_", "--x1", "--color"}, 3)
	if g.pc(25) {
		g.customs = append(g.customs, pickStr(rng, []string{"--a.b", "--w/2", "--a:b", "--a+b", "--x!"}))
	}
	if g.pc(10) {
		long := "--" + strings.Repeat("long-name-of-a-property-", []int{2, 11, 50}[g.Intn(3)])
		g.customs = append(g.customs, long+"a", long+"b")
	}
	perm := rng.Perm(len(condPool))
	for _, i := range perm[:2+rng.Intn(2)] {
		g.conds = append(g.conds, condPool[i])
	}
	for _, p := range sample(rng, pseudoPool, 2) {
		g.pseudos = append(g.pseudos, ps(p))
	}
	if g.pc(40) {
		g.pseudos = append(g.pseudos, g.functional(1))
	}
	if g.pc(20) {
		g.pseudos = append(g.pseudos, nth(g.Intn(4)-1, g.Intn(5)-2, g.pc(30), g.pc(30)))
	}
	if g.pc(5) {
		g.pseudos = append(g.pseudos, ps(pickStr(rng, []string{"-moz-placeholder", "-moz-focusring", "-moz-ui-invalid"})))
	}
	if g.pc(15) {
		g.pseudos = append(g.pseudos, pel(pickStr(rng, webkitPool)))
	}
	g.pseudos = distinct(g.pseudos)
	g.pes = sample(rng, pePool, 2)
	for i := 0; i < 2; i++ {
		g.tmpl = append(g.tmpl, g.structural(hole, ""))
	}
	return g
}

const hole = "\x00hole"

// fill puts the class c into a structural template
func fill(s *Sel, c string) *Sel {
	t := *s
	if s.K == "class" && s.V == hole {
		t.V = c
	}
	t.Args, t.Parts = nil, nil
	for _, a := range s.Args {
		t.Args = append(t.Args, fill(a, c))
	}
	for _, p := range s.Parts {
		t.Parts = append(t.Parts, fill(p, c))
	}
	if s.L != nil {
		t.L, t.R = fill(s.L, c), fill(s.R, c)
	}
	return &t
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func selKey(s *Sel) string {
	b, err := json.Marshal(s)
	fatal(err)
	return string(b)
}

func distinct(xs []*Sel) []*Sel {
	seen := map[string]bool{}
	out := xs[:0:0]
	for _, x := range xs {
		if k := selKey(x); !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	}
	return out
}

// functional makes a functional pseudo-class without classes
func (g *Gen) functional(depth int) *Sel {
	arg := func() *Sel {
		switch g.Intn(6) {
		case 0:
			return tag(pickStr(g.Rand, []string{"p", "div", "img", "li"}))
		case 1:
			return attr("hidden", "", "", false)
		case 2:
			return attr("type", "=", pickStr(g.Rand, []string{"text", "a b", "1"}), g.pc(20))
		case 3:
			return id(pickStr(g.Rand, []string{"main", "x"}))
		default:
			return ps(pickStr(g.Rand, pseudoPool))
		}
	}
	n := 1
	if g.pc(40) {
		n = 2
	}
	var args []*Sel
	for i := 0; i < n; i++ {
		a := arg()
		if g.pc(20) {
			a = cmp("", distinct([]*Sel{a, ps(pickStr(g.Rand, pseudoPool))})...)
		}
		args = append(args, a)
	}
	args = distinct(args)
	return fn(pickStr(g.Rand, []string{"is", "where", "not", "not", "has"}), args...)
}

// plain makes a class with pseudo-classes and pseudo-elements
func (g *Gen) plain(c string) *Sel {
	parts := []*Sel{class(c)}
	if g.pc(g.pr.Pseudo) {
		n := 1
		if g.pc(40) {
			n = 2
		}
		for _, i := range g.Perm(len(g.pseudos)) {
			if len(parts) > n {
				break
			}
			parts = append(parts, g.pseudos[i])
		}
	}
	pe := ""
	if g.pc(g.pr.PE) {
		pe = pickStr(g.Rand, g.pes)
	}
	return cmp(pe, parts...)
}

// structural makes a selector with the class and further parts
func (g *Gen) structural(c, other string) *Sel {
	cl := class(c)
	marker := func() *Sel {
		if len(g.others) == 0 {
			return tag("div")
		}
		return class(pickStr(g.Rand, g.others))
	}
	pseudo := func() *Sel { return g.pseudos[g.Intn(len(g.pseudos))] }
	pe := ""
	if g.pc(15) {
		pe = pickStr(g.Rand, g.pes)
	}
	cb := pickStr(g.Rand, []string{" ", ">", "+", "~"})
	switch g.Intn(19) {
	case 0:
		return comb(" ", marker(), cl)
	case 1:
		return comb(cb, cmp("", marker(), pseudo()), cl)
	case 2:
		return comb("~", comb(">", cl, fn("not", attr("hidden", "", "", false))), fn("not", attr("hidden", "", "", false)))
	case 3:
		return comb(cb, cl, cmp(pe, tag(pickStr(g.Rand, []string{"p", "li", "a"}))))
	case 4:
		return cmp(pe, tag(pickStr(g.Rand, []string{"ul", "button"})), cl)
	case 5:
		return cmp(pe, id("main"), cl)
	case 6:
		return comb(" ", attr("dir", "=", pickStr(g.Rand, []string{"rtl", "ltr"}), false), cl)
	case 7:
		return cmp(pe, cl, attr(pickStr(g.Rand, []string{"open", "data-x"}), "", "", false))
	case 8:
		return fn("is", comb(" ", marker(), cl))
	case 9:
		return cmp(pe, cl, fn("is", comb(" ", marker(), cmp("", []*Sel{}...))))
	case 10:
		return cmp(pe, cl, marker())
	case 11:
		return cmp(pe, marker(), cl)
	case 12:
		return fn("where", cl)
	case 13:
		return comb(cb, cl, cmp(pe, []*Sel{}...))
	case 14:
		return cmp(pe, cl, fn("not", marker()))
	case 15:
		return cmp(pe, fn(pickStr(g.Rand, []string{"is", "where"}), marker(), cl), pseudo())
	case 16:
		if other != "" && other != c {
			return comb(cb, cl, class(other))
		}
		return comb(cb, cl, marker())
	case 17:
		if other != "" && other != c {
			return cmp(pe, cl, class(other))
		}
		return cmp(pe, cl, pseudo(), marker())
	default:
		return comb(cb, comb(" ", marker(), tag("div")), cmp(pe, cl, pseudo()))
	}
}

var badSelectors = []string{":unknown", "::unknown", ":nth-child(2x)", ":has(> a)", ":is()", " >", " + > b", "..b", "[x", "[x=]", "::before:hover", ":hover::before::after", " & b", ":nth-child(2n of a)", "[a%=b]", ":not(:foo)", ":is(a", "::part(x)", ":dir(rtl)"}

func (g *Gen) selector(c string) *Sel {
	if g.pc(g.pr.Bad) {
		st := plainStyle(g.Rand)
		t := pickStr(g.Rand, badSelectors)
		if strings.Contains(t, "[x") || strings.HasSuffix(t, "(a") {
			t = ":unknown"
		}
		return bad("." + st.ident(c) + t)
	}
	if g.pc(g.pr.Struct) {
		if g.pc(55) {
			return fill(g.tmpl[g.Intn(len(g.tmpl))], c)
		}
		return g.structural(c, pickStr(g.Rand, g.classes))
	}
	return g.plain(c)
}

func varUse(name string, st *Style, fallback []string) []string {
	t := []string{st.kw("var") + "(", noEscapes(st).ident(name)}
	if fallback != nil {
		t = append(t, ",")
		t = append(t, fallback...)
	}
	return append(t, ")")
}

var longText = strings.Repeat("abcdefghijklmnopqrstuvwxyz0123456789+/", 80)

func (g *Gen) value(st *Style, vars bool) (tok []string, used []string) {
	simple := [][]string{{"red"}, {"1px"}, {"0", " ", "auto"}, {"#fff"}, {"rgb(", "1", ",", "2", ",", "3", ")"}, {"calc(", "1px", " ", "+", " ", "2px", ")"}, {"1.5em"}, {"url(x.png)"}, {"\"a b\""}, {"none"}, {"\"!important\""}, {"important"}, {"inherit"}, {"-1px"}, {"50%"},
		{`"\\"`}, {`"a\\b"`, " ", `'\\\\'`}, {`"\""`}, {`x\!important`},
		{"initial"}, {"unset"}, {"revert"}, {"revert-layer"}, {"INHERIT"}, {"0"}, {"1"}, {"auto"}, {"normal"}, {"transparent"}, {"currentColor"}, {"#0000"}, {"1e3px"}, {"+.5em"}, {"-0"}, {"U+0-7F"}, {"\"\""}, {"''"},
		{"a", ",", "b"}, {"url(\"a b;}{\")"}, {"env(", "x", ",", "1px", ")"}, {"[a]"}, {"[", "a", " ", "b", "]", " ", "1fr"}, {"a/b"}, {"url(data:image/png;base64," + longText + ")"}, {`"` + longText + `"`}, {"é"}, {"😀"}, {"variable(", "--x", ")"}, {"--x"}, {"x", "(", "--y", ")"}, {"important", " ", "x"}, {"attr(", "var", ")"}}
	if vars && g.pc(g.pr.Vars) {
		n := 1
		if g.pc(25) {
			n = 2
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				tok = append(tok, " ")
			}
			a := pickStr(g.Rand, g.customs)
			used = append(used, a)
			switch g.Intn(4) {
			case 0:
				tok = append(tok, varUse(a, st, simple[g.Intn(len(simple))])...)
			case 1:
				b := pickStr(g.Rand, g.customs)
				used = append(used, b)
				tok = append(tok, varUse(a, st, varUse(b, st, nil))...)
			case 2:
				tok = append(tok, "calc(")
				tok = append(tok, varUse(a, st, nil)...)
				tok = append(tok, " ", "*", " ", "2", ")")
			default:
				tok = append(tok, varUse(a, st, nil)...)
			}
		}
		return tok, used
	}
	return simple[g.Intn(len(simple))], nil
}

func (g *Gen) decl(st *Style) *Decl {
	d := &Decl{Vars: []string{}}
	if g.pc(g.pr.Custom) {
		d.P = pickStr(g.Rand, g.customs)
	} else {
		d.P = pickStr(g.Rand, g.props)
	}
	d.I = g.pc(g.pr.Imp)
	tok, used := g.value(st, true)
	d.tok = tok
	d.Vars = append(d.Vars, used...)
	d.setVal()
	return d
}

// setVal derives the text of the value from its tokens
func (d *Decl) setVal() {
	v := strings.Join(d.tok, "")
	v = canonValue(v)
	if strings.Contains(v, "\\") {
		v = unescapeLiteral(v)
	}
	if d.I {
		v += "!important"
	}
	d.Val = v
}

func (g *Gen) decls(st *Style) []*Decl {
	if g.pc(g.pr.NoDecl) {
		return []*Decl{}
	}
	n := 1
	if g.pr.MaxDecls > 1 {
		n += g.Intn(g.pr.MaxDecls)
	}
	out := []*Decl{}
	for i := 0; i < n; i++ {
		out = append(out, g.decl(st))
	}
	return out
}

func (g *Gen) rule(st *Style, c string) *Item {
	it := &Item{T: "rule", Sels: []*Sel{g.selector(c)}, Decls: g.decls(st)}
	for g.pc(g.pr.Lists) && len(it.Sels) < 4 {
		var s *Sel
		if g.pc(15) {
			s = cmp("", tag(pickStr(g.Rand, []string{"p", "h1", "a"})), ps(pickStr(g.Rand, pseudoPool)))
		} else {
			s = g.selector(pickStr(g.Rand, g.classes))
		}
		if g.pc(50) {
			it.Sels = append(it.Sels, s)
		} else {
			it.Sels = append([]*Sel{s}, it.Sels...)
		}
	}
	return it
}

func (g *Gen) wrap(it *Item) *Item {
	if !g.pc(g.pr.At) {
		return it
	}
	c := g.conds[g.Intn(len(g.conds))]
	w := &Item{T: "at", Kind: c.Kind, Cond: c.Cond, Body: []*Item{it}}
	for g.pc(g.pr.Deep) {
		c := g.conds[g.Intn(len(g.conds))]
		w = &Item{T: "at", Kind: c.Kind, Cond: c.Cond, Body: []*Item{w}}
	}
	return w
}

func (g *Gen) junk() *Item {
	st := plainStyle(g.Rand)
	c := func() string {
		xs := append(append([]string{}, g.classes...), g.unknown...)
		return "." + st.ident(pickStr(g.Rand, xs))
	}
	p := pickStr(g.Rand, g.props)
	r := c() + "{" + p + ":junk}"
	t := pickStr(g.Rand, []string{
		"@font-face{font-family:x;src:url(x.woff)}",
		"@font-face { font-family: x; src: url(\"x.woff\") format('woff'), url(y) }",
		"@keyframes k{from{color:red}50%{color:blue;opacity:0}to{color:green}}",
		"@-webkit-keyframes k{0%{" + p + ":1}}",
		"@layer base{" + r + "}",
		"@layer a,b;",
		"@layer base{" + r + "@media print{" + r + r + "}" + r + "}",
		"@import url(x.css);",
		"@import \"x.css\" screen;",
		"@namespace svg url(http://x);",
		"@page :first{margin:1in}",
		"@container (min-width:1px){" + r + "}",
		"@container x (min-width:1px){@supports (display:grid){" + r + "@font-face{font-family:y}}" + r + "}",
		"@property --x{syntax:'*';inherits:false}",
		"@unknown foo{" + r + "@unknown bar{" + r + "}" + r + "}",
		"@unknown foo;",
		"@counter-style x{system:cyclic;symbols:\"x\"}",
		"@starting-style{" + r + "}",
		"@scope (.x) to (.y){" + r + "}",
		"@view-transition{navigation:auto}",
		"@charset \"utf-8\";",
		"@media-foo x{" + r + "}",
		"@supportsx (a:b){" + r + "}",
		"<!--",
		"-->",
		"/* " + r + " */",
	})
	return &Item{T: "junk", Text: t}
}

// sheet makes a stylesheet that defines the given classes
func (g *Gen) sheet(st *Style, classes []string) []*Item {
	var items []*Item
	for _, i := range g.Perm(len(classes)) {
		c := classes[i]
		if g.pc(g.pr.Junk) {
			items = append(items, g.junk())
		}
		items = append(items, g.wrap(g.rule(st, c)))
		if g.pc(g.pr.Again) {
			items = append(items, g.wrap(g.rule(st, pickStr(g.Rand, classes))))
		}
	}
	if g.pc(g.pr.Junk) {
		items = append(items, g.junk())
	}
	// rules in one at-rule together
	if g.pc(g.pr.At) && len(items) > 2 {
		i := g.Intn(len(items) - 1)
		c := g.conds[g.Intn(len(g.conds))]
		w := &Item{T: "at", Kind: c.Kind, Cond: c.Cond, Body: append([]*Item{}, items[i:i+2]...)}
		ok := true
		for _, it := range w.Body {
			ok = ok && (it.T != "junk" || strings.HasPrefix(it.Text, "@") && strings.HasSuffix(it.Text, "}"))
		}
		if ok {
			items = append(append(append([]*Item{}, items[:i]...), w), items[i+2:]...)
		}
	}
	return items
}

// list makes a class list
func (g *Gen) list() []string {
	max := g.pr.MaxList
	if max == 0 {
		max = 7
	}
	n := g.Intn(max + 1)
	if n < 2 && g.pc(80) {
		n += 2
	}
	out := []string{}
	for i := 0; i < n; i++ {
		switch {
		case g.pc(g.pr.Undefined):
			out = append(out, pickStr(g.Rand, g.unknown))
		case g.pc(g.pr.Struct/3) && len(g.others) > 0:
			out = append(out, pickStr(g.Rand, g.others))
		default:
			out = append(out, pickStr(g.Rand, g.classes))
		}
	}
	return out
}

func (g *Gen) style() *Style {
	switch g.pr.Style {
	case "mild":
		return mildStyle(g.Rand)
	case "wild":
		return wildStyle(g.Rand)
	case "important":
		return importantStyle(g.Rand)
	case "escape":
		return escapeStyle(g.Rand)
	}
	return plainStyle(g.Rand)
}
