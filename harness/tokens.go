package main

// Stylesheets as sequences of pieces (spec/Tokens.tla): regular ones of the specification, and wild ones.

import (
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing/iotest"

	merge "github.com/tylantz/go-tailwind-merge"
)

type tokenWorld struct {
	Text    map[string]string `json:"text"`
	Regular []string          `json:"regular"`
	Context [][]string        `json:"contexts"`
	Base    []*Item           `json:"base"`
	Good    []*Item           `json:"good"`
	Lists   [][]string        `json:"lists"`
	names   map[string]bool
	all     []string
	base    string
	good    string
}

type TokenRecord struct {
	ID     int        `json:"id"`
	Toks   []string   `json:"toks"`
	Text   string     `json:"text"`
	Inline bool       `json:"inline"`
	Err    bool       `json:"err"`
	Msg    string     `json:"msg"`
	Crash  string     `json:"crash"`
	Rules  []RuleView `json:"rules"`
	Extra  int        `json:"extra"`
	Outs   [][]string `json:"outs"`
	GErr   bool       `json:"gerr"`
	GRules []RuleView `json:"grules"`
	GOuts  [][]string `json:"gouts"`
}

func fixDecls(items []*Item) {
	for _, it := range items {
		fixDecls(it.Body)
		for _, d := range it.Decls {
			d.tok = []string{strings.TrimSuffix(d.Val, "!important")}
		}
	}
}

// tokenBench is a Merger that has the rules of base
type tokenBench struct {
	w  *tokenWorld
	mg *merge.Merger
}

func (b *tokenBench) renew() {
	b.mg = merge.NewMerger(nil, true)
	fatal(b.mg.AddRules(strings.NewReader(b.w.base), false))
}

func (b *tokenBench) observe() (views []RuleView, extra int, outs [][]string) {
	views = []RuleView{}
	for _, v := range rulesOf(b.mg) {
		if b.w.names[v.C] {
			views = append(views, v)
		} else {
			extra++
		}
	}
	for _, l := range b.w.Lists {
		outs = append(outs, splitOut(b.mg.Merge(strings.Join(l, " "))))
	}
	return
}

func (b *tokenBench) try(rec *TokenRecord, rd io.Reader) {
	if b.mg == nil {
		b.renew()
	}
	rec.Rules, rec.GRules, rec.Outs, rec.GOuts = []RuleView{}, []RuleView{}, [][]string{}, [][]string{}
	rec.Crash = guarded(func() {
		err := b.mg.AddRules(rd, rec.Inline)
		rec.Err = err != nil
		if err != nil {
			rec.Msg = err.Error()
			if len(rec.Msg) > 200 {
				rec.Msg = rec.Msg[:200]
			}
		}
		rec.Rules, rec.Extra, rec.Outs = b.observe()
		// every class can be merged
		names := []string{}
		for c := range b.mg.Rules() {
			names = append(names, c)
		}
		sort.Strings(names)
		b.mg.Merge(strings.Join(append(names, names...), " "))
		rec.GErr = b.mg.AddRules(strings.NewReader(b.w.good), false) != nil
		rec.GRules, _, rec.GOuts = b.observe()
		b.mg.AddRules(strings.NewReader(b.w.base), false)
	})
	if rec.Crash != "" || rec.Extra > 0 || rec.GErr {
		b.mg = nil
	}
}

const oddBytes = "\x00\xff\x80\xc3\\\"'{}()[];:@"

// mutate changes a text in a few places
func mutate(rng *rand.Rand, s string, pieces []string) string {
	b := []byte(s)
	for k := 1 + rng.Intn(4); k > 0; k-- {
		at := rng.Intn(len(b) + 1)
		switch rng.Intn(7) {
		case 0: // delete
			end := min(len(b), at+1+rng.Intn(4))
			b = append(b[:at:at], b[end:]...)
		case 1: // insert a piece
			b = append(b[:at:at], append([]byte(pickStr(rng, pieces)), b[at:]...)...)
		case 2: // a byte
			b = append(b[:at:at], append([]byte{byte(rng.Intn(256))}, b[at:]...)...)
		case 3: // truncate
			b = b[:at]
		case 4: // replace
			if at < len(b) {
				b[at] = byte(rng.Intn(256))
			}
		case 5: // duplicate
			end := min(len(b), at+rng.Intn(30))
			b = append(b[:end:end], append(append([]byte{}, b[at:end]...), b[end:]...)...)
		default: // an odd byte
			b = append(b[:at:at], append([]byte{oddBytes[rng.Intn(len(oddBytes))]}, b[at:]...)...)
		}
	}
	return string(b)
}

// richSheet has all kinds of parts
func richSheet() string {
	return `@charset "utf-8";@import url(x.css) screen;<!--/* c */.a\:b,.\31 \/2:hover>p~[x="y" i]+#q::before{color:red!important;--x: {a:b} ;width:calc(1px + var(--x,var(--y)));}` +
		`@media (min-width:1px) and print{.c:not(.d,:is(e f)):nth-child(2n + 1){background:url("x(y).png"),url(z);content:"\"\a b"}@supports not (a:b){.e:where(.f .g)::placeholder{*zoom:1;filter:progid:x(y=1)}}}` +
		`@font-face{font-family:x;src:url(x) format('y')}@keyframes k{from{top:0}50%{top:1px}}@layer z{.h{color:red}}@page :first{margin:1in}-->.i{unicode-range:U+0-7F;margin:-1px +.5em 1e3px}`
}

func tokens(worldFile, seqFile string, n, limit int, seed int64, emit func(*TokenRecord)) {
	b, err := os.ReadFile(worldFile)
	fatal(err)
	w := &tokenWorld{names: map[string]bool{}}
	fatal(json.Unmarshal(b, w))
	st := plainStyle(rand.New(rand.NewSource(seed)))
	fixDecls(w.Base)
	fixDecls(w.Good)
	w.base, w.good = st.Sheet(w.Base), st.Sheet(w.Good)
	for _, it := range w.Base {
		w.names[it.Sels[0].V] = true
	}
	for t := range w.Text {
		w.all = append(w.all, t)
	}
	sort.Strings(w.all)
	sort.Strings(w.Regular)
	var pieces []string
	for _, t := range w.all {
		pieces = append(pieces, w.Text[t])
	}

	var make []func(rng *rand.Rand) (*TokenRecord, io.Reader)
	write := func(toks []string, sep func(i int) string) string {
		var b strings.Builder
		for i, t := range toks {
			if i > 0 {
				b.WriteString(sep(i))
			}
			b.WriteString(w.Text[t])
		}
		return b.String()
	}
	add := func(toks []string, inline bool) {
		make = append(make, func(rng *rand.Rand) (*TokenRecord, io.Reader) {
			tight := rng.Intn(2) == 0
			text := write(toks, func(int) string {
				if tight {
					return ""
				}
				return pickStr(rng, []string{"", " ", "\n"})
			})
			rec := &TokenRecord{Toks: toks, Text: text, Inline: inline}
			if rng.Intn(4) == 0 {
				return rec, iotest.OneByteReader(strings.NewReader(text))
			}
			return rec, strings.NewReader(text)
		})
	}
	raw := func(text func(rng *rand.Rand) string) {
		make = append(make, func(rng *rand.Rand) (*TokenRecord, io.Reader) {
			t := text(rng)
			rec := &TokenRecord{Toks: []string{"?"}, Text: t, Inline: rng.Intn(12) == 0}
			if len(t) > 5000 {
				rec.Text = t[:5000] + "..."
			}
			return rec, strings.NewReader(t)
		})
	}
	rng := rand.New(rand.NewSource(seed))
	// the sequences of the specification
	if seqFile != "" {
		b, err = os.ReadFile(seqFile)
		fatal(err)
		var seqs [][]string
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var s []string
			fatal(json.Unmarshal([]byte(l), &s))
			seqs = append(seqs, s)
		}
		if limit > 0 && len(seqs) > limit {
			rng.Shuffle(len(seqs), func(i, j int) { seqs[i], seqs[j] = seqs[j], seqs[i] })
			seqs = seqs[:limit]
		}
		for _, s := range seqs {
			add(s, false)
		}
	}
	if n > 0 {
		// all short sequences of any pieces
		add([]string{}, false)
		for _, s := range w.all {
			add([]string{s}, false)
			add([]string{s}, true)
			for _, t := range w.all {
				add([]string{s, t}, false)
			}
		}
		// pieces in every context, also as the end of the text
		for _, c := range w.Context {
			for _, s := range pieces {
				for _, t := range append([]string{""}, sample(rng, pieces, len(pieces)*n/200000)...) {
					one, two := c[0]+s+t+c[1], c[0]+s+t
					raw(func(*rand.Rand) string { return one })
					raw(func(*rand.Rand) string { return two })
				}
			}
		}
		// a stylesheet with all kinds of parts, ending after each byte, and with odd bytes in each place
		rich := richSheet()
		for i := 0; i <= len(rich); i++ {
			t := rich[:i]
			raw(func(*rand.Rand) string { return t })
			odd := "\x00\xff\\\"'{}()[];:@/!\n"
			if n < 100000 {
				odd = string(odd[rng.Intn(len(odd))])
			}
			for k := range odd {
				a, b := t+odd[k:k+1]+rich[i:], t+odd[k:k+1]+rich[min(i+1, len(rich)):]
				raw(func(*rand.Rand) string { return a })
				raw(func(*rand.Rand) string { return b })
			}
		}
		// what nests deeply or is long
		const deep = 300000
		for _, t := range []string{
			".a" + strings.Repeat(":not(", deep) + "b" + strings.Repeat(")", deep) + "{color:red}",
			".a" + strings.Repeat(":is(", deep) + ".b" + strings.Repeat(")", deep) + "{color:red}",
			".a" + strings.Repeat(":has(", deep) + ".b{color:red}",
			".a" + strings.Repeat("(", deep) + strings.Repeat(")", deep) + "{color:red}",
			strings.Repeat("@media x{", 50000) + ".a{color:red}" + strings.Repeat("}", 50000),
			strings.Repeat("@foo{", deep), strings.Repeat("{", deep), strings.Repeat("[", deep), strings.Repeat("}", deep),
			".a{color:" + strings.Repeat("var(", 20000) + "--x" + strings.Repeat(")", 20000) + "}",
			".a{color:" + strings.Repeat("var(--x,", 20000) + "1" + strings.Repeat(")", 20000) + "}",
			".a{color:" + strings.Repeat("!/**/", 20000) + "}", ".a{" + strings.Repeat("color:red;", 20000) + "}",
			".a" + strings.Repeat(" b", 2000) + "{color:red}", ".a" + strings.Repeat(",.b", 5000) + "{color:red}",
			".a" + strings.Repeat("\\", 20001) + "{color:red}", strings.Repeat("\x00", 5000), strings.Repeat("\\", 5001),
			strings.Repeat("a:b;", 5000), "/*" + strings.Repeat("/*", 50000), strings.Repeat("<!--", 5000), strings.Repeat("@", 5000),
			".a:matches(" + strings.Repeat("(", 3000) + strings.Repeat(")", 3000) + "){color:red}", ".a:matches(a{1000}{1000}){color:red}",
			"." + strings.Repeat("a", 200000) + "{color:red}", ".a{--" + strings.Repeat("x", 200000) + ":1}",
		} {
			raw(func(*rand.Rand) string { return t })
		}
	}
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0: // longer sequences
			make = append(make, func(rng *rand.Rand) (*TokenRecord, io.Reader) {
				k := 3 + rng.Intn(12)
				odd := 1 + rng.Intn(60)
				toks := []string{}
				for len(toks) < k {
					if rng.Intn(100) < odd {
						toks = append(toks, pickStr(rng, w.all))
					} else {
						toks = append(toks, pickStr(rng, w.Regular))
					}
				}
				text := write(toks, func(int) string { return pickStr(rng, []string{"", "", "", " ", "\n"}) })
				return &TokenRecord{Toks: append(toks, "?"), Text: text, Inline: rng.Intn(12) == 0}, strings.NewReader(text)
			})
		case 1: // generated stylesheets with errors
			raw(func(rng *rand.Rand) string {
				g := newGen(rng, with(base, func(p *Profile) { p.Classes, p.Junk, p.Bad = 1+rng.Intn(4), 20, 10 }))
				st := g.style()
				return mutate(rng, st.Sheet(g.sheet(st, g.classes)), pieces)
			})
		default: // any bytes
			raw(func(rng *rand.Rand) string {
				k := rng.Intn(60)
				b := []byte{}
				for len(b) < k {
					switch rng.Intn(3) {
					case 0:
						b = append(b, byte(rng.Intn(256)))
					case 1:
						const odd = "{}()[]:;.,#@!\"'\\/*-<> \n\tab1"
						b = append(b, odd[rng.Intn(len(odd))])
					default:
						b = append(b, pickStr(rng, pieces)...)
					}
				}
				return string(b)
			})
		}
	}
	const chunk = 300
	chunks := (len(make) + chunk - 1) / chunk
	slots := parallelChunks(chunks, func(c int) []*TokenRecord {
		bench := &tokenBench{w: w}
		var out []*TokenRecord
		for i := c * chunk; i < min(len(make), (c+1)*chunk); i++ {
			rec, rd := make[i](rand.New(rand.NewSource(seed*1000003 + int64(i))))
			rec.ID = i + 1
			bench.try(rec, rd)
			out = append(out, rec)
			if strings.HasPrefix(rec.Crash, "did not return") {
				break
			}
		}
		return out
	})
	for c := 0; c < chunks; c++ {
		for _, rec := range <-slots[c] {
			if rec.Crash == "" && len(rec.Text) > 300 && rec.Toks[len(rec.Toks)-1] == "?" {
				rec.Text = rec.Text[:300] + "..."
			}
			emit(rec)
			if strings.HasPrefix(rec.Crash, "did not return") {
				return
			}
		}
	}
}

func parallelChunks[T any](n int, mk func(i int) T) []chan T {
	slots := make([]chan T, n)
	for i := range slots {
		slots[i] = make(chan T, 1)
	}
	next := make(chan int, n)
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	for w := 0; w < 8; w++ {
		go func() {
			for i := range next {
				slots[i] <- mk(i)
			}
		}()
	}
	return slots
}
