package main

// Long lists, and lists that are easily confused.

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/rand"
	"strings"
)

// longSession: lists with many classes; the n-th session has its own length
func longSession(rng *rand.Rand, n int) *Session {
	lengths := []int{255, 256, 257, 300, 511, 513, 1030, 2050, 66000}
	long := lengths[(n-1)%len(lengths)]
	r := newRecorder(n)
	known := min(long, 150)
	var sheet []*Item
	name := func(i int) string { return fmt.Sprintf("k%d", i) }
	for i := 0; i < known; i++ {
		it := &Item{T: "rule", Sels: []*Sel{class(name(i))}, Decls: []*Decl{decl(fmt.Sprintf("p%d", i*2/3))}}
		if i%5 == 0 {
			it.Decls = append(it.Decls, decl("color"))
		}
		sheet = append(sheet, it)
	}
	r.New(1, true, newCache("simple", 1), "simple")
	r.New(2, false, nil, "none")
	css := plainStyle(rng).Sheet(sheet)
	r.Add(1, sheet, css, "ok")
	r.Add(2, sheet, css, "ok")
	lists := 3
	if long > 3000 {
		lists = 1
	}
	for k := 0; k < lists; k++ {
		var l []string
		for i := 0; i < long; i++ {
			l = append(l, fmt.Sprintf("u%d", i))
		}
		// known classes anywhere, some of them twice unless the list is very long
		for _, i := range rng.Perm(long)[:min(long/2, known)] {
			l[i] = name(rng.Intn(known))
		}
		if long > 3000 {
			seen := map[string]bool{}
			for i, c := range l {
				if seen[c] {
					l[i] = fmt.Sprintf("v%d", i)
				}
				seen[l[i]] = true
			}
		} else if k > 0 {
			for i := 0; i < 20; i++ {
				l[rng.Intn(long)] = l[rng.Intn(long)]
			}
		}
		out := r.MergeList(1, l)
		at := len(r.s.Ev)
		if long <= 3000 {
			r.Again(1, out, at)
		}
		if long <= 600 {
			// in two stages
			o := r.MergeList(1, l[:long/2])
			r.Stage(1, append(append([]string{}, o...), l[long/2:]...), at, len(r.s.Ev))
		}
		r.MergeList(2, l)
	}
	return r.s
}

// confusedSession: one Merger with a cache and lists that differ in a little, or in nothing that a bad key would see
func confusedSession(rng *rand.Rand, n int) *Session {
	r := newRecorder(n)
	r.New(1, true, newCache("simple", 1), "simple")
	var sheet []*Item
	var names []string
	for i := 0; i < 60; i++ {
		c := fmt.Sprintf("%c%c%d", 'a'+rng.Intn(26), 'a'+rng.Intn(26), i)
		names = append(names, c)
		if i%3 > 0 {
			sheet = append(sheet, &Item{T: "rule", Sels: []*Sel{class(c)}, Decls: []*Decl{decl(fmt.Sprintf("p%d", i%7))}})
		}
	}
	css := plainStyle(rng).Sheet(sheet)
	r.Add(1, sheet, css, "ok")
	var lists [][]string
	// long lists that differ in one place
	var long []string
	for i := 0; i < 120; i++ {
		long = append(long, fmt.Sprintf("u%03d", i))
	}
	lists = append(lists, long)
	for _, at := range []int{0, 1, 7, 8, 15, 16, 31, 59, 60, 63, 64, 90, 118, 119} {
		l := append([]string{}, long...)
		l[at] = strings.ToUpper(l[at])
		lists = append(lists, l)
		m := append([]string{}, long...)
		m[at], m[(at+1)%120] = m[(at+1)%120], m[at]
		lists = append(lists, m, long[:at+1], long[at:])
	}
	// words that collide under the usual hashes
	for _, p := range colliding(rng, names) {
		lists = append(lists, strings.Fields(p[0]), strings.Fields(p[1]))
	}
	// the same words in every order, and parts of it
	w := names[:4]
	for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 1}, {1, 0}, {0, 1, 1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 0}, {0, 1, 2, 3}, {3, 1, 2, 0}} {
		var l []string
		for _, i := range p {
			l = append(l, w[i])
		}
		lists = append(lists, l)
	}
	for round := 0; round < 2; round++ {
		for _, i := range rng.Perm(len(lists)) {
			r.MergeList(1, lists[i])
		}
	}
	return r.s
}

// colliding finds pairs of lists of the names that collide under the usual hashes
func colliding(rng *rand.Rand, names []string) (pairs [][2]string) {
	hashes := []func(string) uint32{
		func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
		func(s string) uint32 { return crc32.Checksum([]byte(s), crc32.MakeTable(crc32.Castagnoli)) },
		func(s string) uint32 { return adler32.Checksum([]byte(s)) },
		func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() },
		func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
		func(s string) uint32 { h := fnv.New64(); h.Write([]byte(s)); return uint32(h.Sum64()) },
		func(s string) uint32 { h := fnv.New64a(); h.Write([]byte(s)); return uint32(h.Sum64()) },
		func(s string) uint32 {
			h := uint32(0)
			for i := 0; i < len(s); i++ {
				h = h*31 + uint32(s[i])
			}
			return h
		},
		func(s string) uint32 {
			h := uint32(5381)
			for i := 0; i < len(s); i++ {
				h = h*33 + uint32(s[i])
			}
			return h
		},
	}
	texts := make([]string, 150000)
	for i := range texts {
		texts[i] = strings.Join(sample(rng, names, 4), " ")
	}
	for _, h := range hashes {
		seen := map[uint32]string{}
		found := 0
		for _, t := range texts {
			k := h(t)
			if o, ok := seen[k]; ok && o != t && found < 4 {
				pairs = append(pairs, [2]string{o, t})
				found++
			}
			seen[k] = t
		}
	}
	return pairs
}

// manySession: many classes with rules of all kinds, and lists of many of them
func manySession(pr Profile) sessionMaker {
	return func(rng *rand.Rand, n int) *Session {
		pr.Classes, pr.MaxList = 12, 20+rng.Intn(150)
		g := newGen(rng, pr)
		more := []int{5, 25, 60, 130}[n%4]
		for i := 0; i < more; i++ {
			g.classes = append(g.classes, fmt.Sprintf("k%d", i))
		}
		if rng.Intn(2) == 0 {
			g.props = append(g.props, sample(rng, allProps, more/4)...)
			for i := 0; i < more/10; i++ {
				g.customs = append(g.customs, fmt.Sprintf("--v%d", i))
			}
		}
		r := newRecorder(n)
		start(g, r, 1)
		for i := 0; i < 4; i++ {
			r.MergeList(1, g.list())
		}
		return r.s
	}
}

// filler: text of about n bytes that defines no class
func filler(kind, n int) string {
	unit := []string{"p{color:red}", " ", "/*.x{}*/", "\n", "p,q r>s{width:1px;height:2px}", "@font-face{src:url(x)}", ";"}
	switch k := kind % 12; k {
	case 6:
		return "/*" + strings.Repeat("x", n) + "*/"
	case 7:
		return "p{content:\"" + strings.Repeat("x", n) + "\"}"
	case 8:
		return "p" + strings.Repeat(",p", n/2) + "{color:red}"
	case 9:
		return "@media print{" + strings.Repeat("p{color:red}", n/12) + "}"
	case 10:
		return "p{" + strings.Repeat("color:red;", n/10) + "}"
	case 11:
		return "@layer x{" + strings.Repeat(".x{color:red}", n/13) + "}"
	default:
		return strings.Repeat(unit[k], n/len(unit[k])+1)
	}
}

// bigSession: large stylesheets, whole and failing at their end
func bigSession(rng *rand.Rand, n int) *Session {
	g := newGen(rng, with(lean(base), func(p *Profile) { p.Classes, p.Tricky = 5, 0 }))
	r := newRecorder(n)
	kind := []string{"none", "simple"}[rng.Intn(2)]
	r.New(1, true, newCache(kind, 1), kind)
	size := []int{4000, 4096, 16384, 32768, 65536, 66000, 140000, 1 << 20, 1<<20 + 1<<17, 4 << 20}[n%10]
	if size > 200000 && n/10%3 > 0 {
		size /= 10
	}
	l := append([]string{}, g.classes...)
	for step := 0; step < 3; step++ {
		st := plainStyle(rng)
		a, b := g.sheet(st, sample(rng, g.classes, 3)), g.sheet(st, sample(rng, g.classes, 3))
		f := filler(n/10+step*5+n, size+rng.Intn(9)-4)
		ca, cb := st.Sheet(a), st.Sheet(b)
		text := ca + f + cb
		short := fmt.Sprintf("%s(%d bytes: %.20q ... %q)%s", ca, len(f), f, f[max(0, len(f)-10):], cb)
		sheet := append(append([]*Item{}, a...), b...)
		switch k := (n + step) % 4; k {
		case 0:
			p := &pieceReader{data: []byte(text), failAt: len(text) - rng.Intn(len(cb)+1), with: rng.Intn(2) == 0}
			r.AddFrom(1, sheet, p, short, "fail")
		case 1:
			r.AddFrom(1, sheet, strings.NewReader(text+"p{color}"), short+"p{color}", "fail")
		default:
			r.AddFrom(1, sheet, strings.NewReader(text), short, "ok")
		}
		r.Rules(1)
		r.MergeList(1, l)
	}
	return r.s
}
