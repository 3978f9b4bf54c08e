package main

// Sessions for each property.

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
)

var base = Profile{Tricky: 20, Long: 2, Short: 40, Imp: 12, Custom: 12, Vars: 20, At: 25, Deep: 20, Pseudo: 25, PE: 10, Struct: 15,
	Lists: 15, NoDecl: 4, Undefined: 10, Again: 15, Classes: 6, MaxDecls: 3, MaxList: 7, Style: "mild"}

func with(p Profile, f func(*Profile)) Profile {
	f(&p)
	return p
}

// lean sessions have few properties and circumstances, so that most classes compete
func lean(p Profile) Profile {
	return with(p, func(p *Profile) {
		p.At, p.Pseudo, p.PE, p.Struct = p.At/3, p.Pseudo/3, p.PE/3, p.Struct/3
		p.Short = 50 + p.Short/2
		p.Tricky /= 2
	})
}

// start makes a Merger with one or two sheets
func start(g *Gen, r *recorder, m int) {
	r.New(m, true, nil, "none")
	sheets := 1
	if g.pc(30) {
		sheets = 2
	}
	for i := 0; i < sheets; i++ {
		st := g.style()
		sheet := g.sheet(st, g.classes)
		r.Add(m, sheet, st.Sheet(sheet), "ok")
	}
}

// plainSession: one Merger and many lists
func plainSession(rng *rand.Rand, n int, pr Profile, merges int) *Session {
	if rng.Intn(2) == 0 {
		pr = lean(pr)
	}
	g := newGen(rng, pr)
	r := newRecorder(n)
	start(g, r, 1)
	for i := 0; i < merges; i++ {
		r.MergeList(1, g.list())
	}
	return r.s
}

type sessionMaker func(rng *rand.Rand, n int) *Session

func simple(merges int, f func(*Profile)) sessionMaker {
	pr := with(base, f)
	return func(rng *rand.Rand, n int) *Session { return plainSession(rng, n, pr, merges) }
}

var profiles = map[string]sessionMaker{
	"C01": simple(12, func(p *Profile) {}),
	"C02": simple(12, func(p *Profile) { p.Custom = 3; p.Undefined = 3 }),
	"C03": func(rng *rand.Rand, n int) *Session {
		pr := with(base, func(p *Profile) {
			p.Imp, p.Custom, p.Vars, p.Short, p.NoDecl, p.Undefined = 0, 0, 0, 0, 0, 0
			p.At, p.Deep, p.Pseudo, p.PE, p.Struct, p.MaxDecls, p.Lists = 45, 40, 45, 20, 35, 1, 5
			p.Classes = 8
		})
		g := newGen(rng, pr)
		g.props = g.props[:1]
		g.conds, g.pes = g.conds[:2], g.pes[:1]
		if len(g.pseudos) > 2 {
			g.pseudos = g.pseudos[:2]
		}
		r := newRecorder(n)
		start(g, r, 1)
		for i := 0; i < 12; i++ {
			r.MergeList(1, g.list())
		}
		return r.s
	},
	"C04": simple(12, func(p *Profile) {
		p.Imp, p.Custom, p.At, p.Pseudo, p.Struct, p.Short, p.Tricky, p.NoDecl = 45, 6, 15, 15, 5, 60, 5, 1
		p.Style = "important"
	}),
	"C05": simple(12, func(p *Profile) {
		p.Custom, p.Vars, p.Imp, p.At, p.Pseudo, p.Struct, p.Short, p.Tricky = 50, 65, 8, 20, 20, 5, 10, 5
	}),
	"C06": simple(14, func(p *Profile) {
		p.Short, p.At, p.Pseudo, p.PE, p.Struct, p.Imp, p.Custom, p.Vars, p.Lists, p.Tricky = 100, 4, 4, 0, 0, 8, 0, 0, 10, 0
		p.Classes = 8
	}),
	"C07": textSession,
	"C08": steadySession,
	"C09": stagedSession,
	"C10": cachedSession,
	"C11": historySession,
	"C12": faultSession,
	"C14": func(rng *rand.Rand, n int) *Session {
		pr := with(base, func(p *Profile) { p.Junk, p.Bad, p.Lists, p.Custom, p.At = 55, 25, 35, 3, 35 })
		if rng.Intn(2) == 0 {
			pr = lean(pr)
		}
		g := newGen(rng, pr)
		r := newRecorder(n)
		start(g, r, 1)
		r.Rules(1)
		for i := 0; i < 8; i++ {
			r.MergeList(1, g.list())
		}
		return r.s
	},
	"C17": func(rng *rand.Rand, n int) *Session {
		pr := with(base, func(p *Profile) {
			p.Tricky, p.Struct, p.Custom, p.Imp, p.Short, p.At, p.Pseudo, p.Lists = 90, 25, 0, 0, 0, 10, 20, 20
			p.Style = "escape"
		})
		g := newGen(rng, pr)
		r := newRecorder(n)
		start(g, r, 1)
		r.Rules(1)
		for i := 0; i < 6; i++ {
			r.MergeList(1, g.list())
		}
		return r.s
	},
	"C18": func(rng *rand.Rand, n int) *Session {
		pr := with(base, func(p *Profile) {
			p.Struct, p.Lists, p.Custom, p.Vars, p.MaxDecls, p.Style = 50, 40, 25, 25, 5, "mild"
		})
		g := newGen(rng, pr)
		r := newRecorder(n)
		start(g, r, 1)
		r.Rules(1)
		return r.s
	},
	"C24": func(rng *rand.Rand, n int) *Session {
		pr := with(base, func(p *Profile) {
			p.Struct, p.Lists, p.Custom, p.Vars, p.MaxDecls, p.Tricky, p.PE = 30, 30, 25, 25, 4, 40, 20
		})
		g := newGen(rng, pr)
		r := newRecorder(n)
		start(g, r, 1)
		r.New(2, true, nil, "none")
		r.Print(1, 2, rng, 0)
		for i := 0; i < 5; i++ {
			r.MergeList(2, g.list())
		}
		return r.s
	},
	"C22":      independentSession,
	"big":      bigSession,
	"many":     manySession(base),
	"manyvars": manySession(with(base, func(p *Profile) { p.Custom, p.Vars = 40, 60 })),
	"long":     longSession,
	"confused": confusedSession,
	"C23":      spellingSession,
}

// steadySession: Mergers with the same rules merge the same lists, in different orders
func steadySession(rng *rand.Rand, n int) *Session {
	g := newGen(rng, lean(base))
	r := newRecorder(n)
	r.s.Steady = true
	kinds := []string{"none", "none", "simple", "lossy"}
	for m := 1; m <= 4; m++ {
		kind := kinds[rng.Intn(len(kinds))]
		r.New(m, m%2 == 0, newCache(kind, rng.Int63()), kind)
	}
	sheets := 1 + rng.Intn(2)
	for i := 0; i < sheets; i++ {
		st := g.style()
		sheet := g.sheet(st, g.classes)
		css := st.Sheet(sheet)
		for m := 1; m <= 4; m++ {
			r.Add(m, sheet, css, "ok")
		}
	}
	var lists [][]string
	for i := 0; i < 4; i++ {
		lists = append(lists, g.list())
	}
	for round := 0; round < 2; round++ {
		for _, i := range rng.Perm(len(lists) * 4) {
			l, m := lists[i/4], 1+i%4
			out := r.MergeList(m, l)
			if r.ks[m] && rng.Intn(3) == 0 {
				r.Again(m, out, len(r.s.Ev))
			}
		}
	}
	return r.s
}

// stagedSession: lists merged at once and in stages
func stagedSession(rng *rand.Rand, n int) *Session {
	pr := with(lean(base), func(p *Profile) { p.Custom, p.Vars, p.Imp, p.MaxList = 0, 0, 20, 8 })
	g := newGen(rng, pr)
	r := newRecorder(n)
	start(g, r, 1)
	for i := 0; i < 6; i++ {
		l := g.list()
		out := r.MergeList(1, l)
		at := len(r.s.Ev)
		if out == nil && r.dead {
			break
		}
		for k := 0; k <= len(l); k++ {
			if len(l) > 4 && rng.Intn(2) == 0 {
				continue
			}
			o := r.MergeList(1, l[:k])
			pre := len(r.s.Ev)
			r.Stage(1, append(append([]string{}, o...), l[k:]...), at, pre)
		}
	}
	return r.s
}

// cachedSession: a Merger with a cache and, for every call, fresh Mergers without
func cachedSession(rng *rand.Rand, n int) *Session {
	pr := with(lean(base), func(p *Profile) { p.Classes = 5 })
	g := newGen(rng, pr)
	r := newRecorder(n)
	r.s.Steady = true
	ks := rng.Intn(3) > 0
	kind := []string{"simple", "simple", "map", "lossy"}[rng.Intn(4)]
	r.New(1, ks, newCache(kind, rng.Int63()), kind)
	type added struct {
		sheet []*Item
		css   string
	}
	var good []added
	fresh := 1
	renew := func() {
		fresh++
		r.New(fresh, ks, nil, "none")
		for _, a := range good {
			r.Add(fresh, a.sheet, a.css, "ok")
		}
	}
	var lists [][]string
	for i := 0; i < 4; i++ {
		lists = append(lists, g.list())
	}
	// lists that are near each other
	l := lists[0]
	lists = append(lists, append(append([]string{}, l...), g.classes[0]))
	if len(l) > 1 {
		sw := append([]string{}, l...)
		sw[0], sw[len(sw)-1] = sw[len(sw)-1], sw[0]
		lists = append(lists, sw)
	}
	// the same classes with more whitespace
	renew()
	for step := 0; step < 14; step++ {
		switch k := rng.Intn(10); {
		case k < 2 || step == 0:
			st := g.style()
			some := sample(rng, g.classes, 1+rng.Intn(len(g.classes)))
			sheet := g.sheet(st, some)
			css := st.Sheet(sheet)
			r.Add(1, sheet, css, "ok")
			good = append(good, added{sheet, css})
			renew()
		case k == 2:
			st := g.style()
			sheet := g.sheet(st, g.classes)
			css := st.Sheet(sheet)
			r.AddFrom(1, sheet, &pieceReader{data: []byte(css), failAt: rng.Intn(len(css) + 1)}, css, "fail")
		default:
			l := lists[rng.Intn(len(lists))]
			text := strings.Join(l, " ")
			switch rng.Intn(6) {
			case 0:
				text = " " + text
			case 1:
				text = strings.Join(l, "  ")
			case 2:
				text = strings.Join(l, "\t")
			}
			if len(l) < 2 {
				text = strings.Join(l, " ")
			}
			var out []string
			if rng.Intn(2) == 0 {
				out = r.Merge(1, l, text)
				r.MergeList(fresh, l)
			} else {
				r.MergeList(fresh, l)
				out = r.Merge(1, l, text)
			}
			if rng.Intn(3) == 0 { // what it returned, as it is and in another order
				out = append([]string{}, out...)
				if rng.Intn(4) == 0 {
					rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
				}
				r.MergeList(1, out)
				r.MergeList(fresh, out)
			}
		}
	}
	return r.s
}

// historySession: several sheets, also at once
func historySession(rng *rand.Rand, n int) *Session {
	pr := with(lean(base), func(p *Profile) {
		p.Custom, p.Vars, p.Imp, p.Classes, p.MaxDecls, p.NoDecl = 0, 0, 0, 5, 2, 5
	})
	g := newGen(rng, pr)
	r := newRecorder(n)
	r.New(1, true, nil, "none")
	kind := []string{"none", "simple"}[rng.Intn(2)]
	r.New(2, true, newCache(kind, 1), kind)
	var all []*Item
	text := ""
	for i := 0; i < 2+rng.Intn(4); i++ {
		st := g.style()
		sheet := g.sheet(st, sample(rng, g.classes, 1+rng.Intn(len(g.classes))))
		if rng.Intn(8) == 0 {
			sheet = nil
		}
		css := st.Sheet(sheet)
		if rng.Intn(6) == 0 {
			r.AddFrom(1, sheet, &pieceReader{data: []byte(css), failAt: rng.Intn(len(css) + 1)}, css, "fail")
			r.Rules(1)
			continue
		}
		r.Add(1, sheet, css, "ok")
		all = append(all, sheet...)
		text += css
		r.MergeList(1, g.list())
		r.Rules(1)
	}
	r.Add(2, all, text, "ok")
	r.Rules(2)
	for i := 0; i < 5; i++ {
		l := g.list()
		r.MergeList(1, l)
		r.MergeList(2, l)
	}
	return r.s
}

// independentSession: Mergers with different rules, used in turn
func independentSession(rng *rand.Rand, n int) *Session {
	pr := with(lean(base), func(p *Profile) {
		p.Custom, p.Vars, p.Imp, p.Struct, p.Classes, p.Tricky, p.Style = 0, 0, 0, 5, 5, 0, "plain"
	})
	g := newGen(rng, pr)
	r := newRecorder(n)
	made := 0
	for step := 0; step < 16; step++ {
		if made < 2 || made < 4 && rng.Intn(5) == 0 {
			made++
			kind := []string{"none", "simple", "simple", "map"}[rng.Intn(4)]
			r.New(made, rng.Intn(2) == 0, newCache(kind, 1), kind)
			continue
		}
		m := 1 + rng.Intn(made)
		switch rng.Intn(4) {
		case 0:
			st := g.style()
			sheet := g.sheet(st, sample(rng, g.classes, 1+rng.Intn(len(g.classes))))
			css := st.Sheet(sheet)
			// the text lies in the middle of a buffer of the caller
			buf := []byte("head{}" + css + "tail{}")
			before := string(buf)
			part := buf[6 : 6+len(css)]
			switch rng.Intn(3) {
			case 0:
				r.AddFrom(m, sheet, bytes.NewBuffer(part), css, "ok")
			case 1:
				r.AddFrom(m, sheet, bytes.NewReader(part), css, "ok")
			default:
				r.AddFrom(m, sheet, &pieceReader{data: part, failAt: -1}, css, "ok")
			}
			r.Same(m, "the bytes of the caller", before, string(buf))
			if !r.dead {
				// they belong to the caller: what happens to them later does not matter
				for i := range buf {
					buf[i] = '}'
				}
			}
			r.Rules(m)
		default:
			if r.dead {
				return r.s
			}
			l := g.list()
			before := dumpRules(r.mergers[m])
			r.MergeList(m, l)
			if !r.dead {
				r.Same(m, "the rules around Merge", before, dumpRules(r.mergers[m]))
			}
		}
	}
	for m := 1; m <= made; m++ {
		r.Rules(m)
	}
	return r.s
}

// spellingSession: one sheet written in different ways
func spellingSession(rng *rand.Rand, n int) *Session {
	pr := with(base, func(p *Profile) { p.Tricky, p.Struct = 15, 25 })
	if rng.Intn(2) == 0 {
		pr = lean(pr)
	}
	g := newGen(rng, pr)
	r := newRecorder(n)
	r.s.Steady = true
	sheet := g.sheet(plainStyle(rng), g.classes)
	styles := []*Style{plainStyle(rng), wildStyle(rng), wildStyle(rng)}
	for m := 1; m <= 3; m++ {
		r.New(m, true, nil, "none")
		r.Add(m, sheet, styles[m-1].Sheet(sheet), "ok")
	}
	for i := 0; i < 8; i++ {
		l := g.list()
		for m := 1; m <= 3; m++ {
			r.MergeList(m, l)
		}
	}
	return r.s
}

// faultSession: readers that fail or deliver their data in pieces, and sheets that cannot be parsed
func faultSession(rng *rand.Rand, n int) *Session {
	pr := with(lean(base), func(p *Profile) {
		p.Custom, p.Vars, p.Imp, p.Classes, p.Tricky, p.MaxDecls = 0, 0, 0, 4, 0, 2
	})
	g := newGen(rng, pr)
	r := newRecorder(n)
	kind := []string{"none", "simple"}[rng.Intn(2)]
	r.New(1, true, newCache(kind, 1), kind)
	st := g.style()
	sheet := g.sheet(st, g.classes[:2])
	r.Add(1, sheet, st.Sheet(sheet), "ok")
	l := append([]string{}, g.classes...)
	r.MergeList(1, l)
	for step := 0; step < 4; step++ {
		st := g.style()
		sheet := g.sheet(st, sample(rng, g.classes, 2))
		css := st.Sheet(sheet)
		pieces := func(failAt int) *pieceReader {
			p := &pieceReader{data: []byte(css), failAt: failAt, with: rng.Intn(2) == 0, zeros: rng.Intn(4) == 0}
			switch rng.Intn(3) {
			case 0:
				for range css {
					p.sizes = append(p.sizes, 1)
				}
			case 1:
				for i := 0; i < len(css); i += 3 {
					p.sizes = append(p.sizes, 1+rng.Intn(9))
				}
			}
			return p
		}
		before := css
		switch rng.Intn(5) {
		case 0, 1:
			at := rng.Intn(len(css) + 1)
			if rng.Intn(4) == 0 {
				at = len(css)
			}
			p := pieces(at)
			r.AddFrom(1, sheet, p, css, "fail")
			r.Same(1, "the data of the caller", before, string(p.data))
		case 2:
			p := pieces(-1)
			r.AddFrom(1, sheet, p, css, "ok")
			r.Same(1, "the data of the caller", before, string(p.data))
		case 3:
			// something broken in the middle, which defines nothing
			broken := []string{"p{color}", "p{color red}", "p{:}", "p{color:red;}}", "}", "p{;:x}", "@media{", "p{--}", "@media (x){p{color}}", "p{a:b;c}", ")", "p{(}", "p{color:[}", "@font-face{src}", "p{\"}", "p{!}", "p{0:1}"}
			b := pickStr(rng, broken)
			css2 := css + b
			if rng.Intn(2) == 0 {
				css2 = b + css
			}
			if strings.ContainsAny(b, "([\"") || b == "@media{" {
				css2 = css + b
			}
			r.AddFrom(1, sheet, strings.NewReader(css2), css2, "any")
		default:
			buf := []byte("a{}" + css + "b{}")
			whole := string(buf)
			r.AddFrom(1, sheet, bytes.NewBuffer(buf[3:3+len(css)]), css, "ok")
			r.Same(1, "the data of the caller", whole, string(buf))
		}
		r.Rules(1)
		r.MergeList(1, l)
		r.MergeList(1, g.list())
	}
	return r.s
}

func makeSessions(name string, seed int64, n int, emit func(*Session)) {
	mk, ok := profiles[name]
	if !ok {
		fatal(fmt.Errorf("no profile %q", name))
	}
	parallel(n, func(i int) *Session {
		return mk(rand.New(rand.NewSource(seed*1000003+int64(i))), i+1)
	}, emit)
}

// parallel makes n sessions and emits them in order, up to the first call that did not return
func parallel(n int, mk func(i int) *Session, emit func(*Session)) {
	const workers = 8
	slots := make([]chan *Session, n)
	for i := range slots {
		slots[i] = make(chan *Session, 1)
	}
	var next, stop atomic.Int64
	for w := 0; w < workers; w++ {
		go func() {
			for stop.Load() == 0 {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				slots[i] <- mk(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		s := <-slots[i]
		emit(s)
		for _, e := range s.Ev {
			if c, _ := e["crash"].(string); strings.HasPrefix(c, "did not return") {
				stop.Store(1)
				return // it is still running
			}
		}
	}
}
