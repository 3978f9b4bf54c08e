package main

// Stylesheets as Tailwind makes them: utilities in variants (spec/Tailwind.tla), and real output of Tailwind.

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"strings"
)

type utility struct {
	Class  string `json:"class"`
	Family string `json:"family"`
	Kind   string `json:"kind"`
	Item   *Item  `json:"item"`
}

func randomList(rng *rand.Rand, classes []string, max int) []string {
	l := make([]string, 2+rng.Intn(max-1))
	for i := range l {
		switch rng.Intn(20) {
		case 0:
			l[i] = pickStr(rng, []string{"unknown", "dark", "group", "peer", "x"})
		default:
			l[i] = classes[rng.Intn(len(classes))]
		}
	}
	return l
}

func utilities(file string, n int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var all []*utility
	fatal(json.Unmarshal(b, &all))
	by := map[string]map[string][]*utility{} // family, kind
	var fams, kinds []string
	seen := map[string]bool{}
	for _, u := range all {
		fillValues([]*Item{u.Item})
		if by[u.Family] == nil {
			by[u.Family] = map[string][]*utility{}
			fams = append(fams, u.Family)
		}
		if !seen[u.Kind] {
			seen[u.Kind] = true
			kinds = append(kinds, u.Kind)
		}
		by[u.Family][u.Kind] = append(by[u.Family][u.Kind], u)
	}
	parallel(n, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		r := newRecorder(s + 1)
		r.s.Steady = true
		st := plainStyle(rng)
		if s%2 == 1 {
			st = mildStyle(rng)
		}
		// some utilities of a family in a few kinds of circumstances
		fam := by[fams[s%len(fams)]]
		var us []*utility
		pick := map[int]bool{}
		size := 6 + rng.Intn(5)
		for k, ks := 0, rng.Perm(len(kinds)); k < len(ks) && len(us) < 36; k++ {
			list := fam[kinds[ks[k]]]
			for len(pick) < size && len(pick) < len(list) {
				pick[rng.Intn(len(list))] = true
			}
			for i, u := range list {
				if pick[i] {
					us = append(us, u)
				}
			}
		}
		rng.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
		r.New(1, rng.Intn(2) == 0, newCache(pickStr(rng, []string{"none", "simple", "map", "lossy"}), seed+int64(s)), "")
		cut := len(us)
		if rng.Intn(3) == 0 {
			cut = rng.Intn(len(us))
		}
		var classes []string
		of := map[string][]string{}
		for _, part := range [][]*utility{us[:cut], us[cut:]} {
			if len(part) == 0 {
				continue
			}
			var sheet []*Item
			for _, u := range part {
				sheet = append(sheet, u.Item)
				classes = append(classes, u.Class)
				of[u.Kind] = append(of[u.Kind], u.Class)
			}
			r.Add(1, sheet, st.Sheet(sheet), "ok")
		}
		for i := 0; i < 25; i++ {
			// lists of one kind, of two, of all
			some := classes
			if i%3 < 2 {
				some = of[us[rng.Intn(len(us))].Kind]
			}
			if i%3 < 1 {
				some = append(append([]string{}, some...), of[us[rng.Intn(len(us))].Kind]...)
			}
			r.MergeList(1, randomList(rng, some, 9))
		}
		if s%8 == 0 {
			r.Rules(1)
		}
		return r.s
	}, emit)
}

type corpusItem struct {
	Item *Item  `json:"item"`
	Src  string `json:"src"`
}

// corpus uses real output of Tailwind: parts of it in any order, and now and then all of it as it is
func corpus(file, css, mode string, n int, seed int64, emit func(*Session)) {
	f, err := os.Open(file)
	fatal(err)
	defer f.Close()
	var all []*corpusItem
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var it corpusItem
		fatal(json.Unmarshal(sc.Bytes(), &it))
		all = append(all, &it)
	}
	fatal(sc.Err())
	whole, err := os.ReadFile(css)
	fatal(err)
	byProp := map[string][]*corpusItem{}
	var props []string
	var walk func(top, it *corpusItem)
	walk = func(top, it *corpusItem) {
		for _, d := range it.Item.Decls {
			key := strings.SplitN(strings.TrimLeft(d.P, "-"), "-", 2)[0]
			if byProp[key] == nil {
				props = append(props, key)
			}
			byProp[key] = append(byProp[key], top)
		}
		for _, b := range it.Item.Body {
			walk(top, &corpusItem{Item: b})
		}
	}
	for _, it := range all {
		walk(it, it)
	}
	parallel(n, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*104729 + int64(s)))
		r := newRecorder(s + 1)
		r.s.Steady = true
		r.New(1, rng.Intn(2) == 0, newCache(pickStr(rng, []string{"none", "simple", "map", "lossy"}), seed+int64(s)), "")
		var chosen []*corpusItem
		if s%64 == 63 {
			chosen = all
			r.Add(1, itemsOf(all), string(whole), "ok")
		} else {
			for k := 0; k < 3; k++ {
				group := byProp[props[rng.Intn(len(props))]]
				for j := 0; j < 12; j++ {
					chosen = append(chosen, group[rng.Intn(len(group))])
				}
			}
			for j := 0; j < 6; j++ {
				chosen = append(chosen, all[rng.Intn(len(all))])
			}
			rng.Shuffle(len(chosen), func(i, j int) { chosen[i], chosen[j] = chosen[j], chosen[i] })
			cut := len(chosen) - rng.Intn(3)*rng.Intn(len(chosen)/2)
			for _, part := range [][]*corpusItem{chosen[:cut], chosen[cut:]} {
				if len(part) == 0 {
					continue
				}
				text := ""
				for _, c := range part {
					text += c.Src + pickStr(rng, []string{"\n", "", "\n\n", "\r\n"})
				}
				r.Add(1, itemsOf(part), text, "ok")
			}
		}
		var classes []string
		for _, c := range chosen {
			classes = append(classes, classesIn(c.Item)...)
		}
		if len(classes) < 2 {
			classes = append(classes, "x", "y")
		}
		m := 1
		if mode == "print" && len(chosen) < len(all) {
			m = 2
			r.New(2, true, nil, "none")
			r.Print(1, 2, rng, 0)
		}
		for i := 0; i < 25; i++ {
			r.MergeList(m, randomList(rng, classes, 12))
		}
		r.Rules(1)
		return r.s
	}, emit)
}

func itemsOf(cs []*corpusItem) []*Item {
	var out []*Item
	for _, c := range cs {
		out = append(out, c.Item)
	}
	return out
}

func classesIn(it *Item) []string {
	var out []string
	var walk func(s *Sel)
	walk = func(s *Sel) {
		if s == nil {
			return
		}
		if s.K == "class" {
			out = append(out, s.V)
		}
		for _, p := range s.Parts {
			walk(p)
		}
		for _, p := range s.Args {
			walk(p)
		}
		walk(s.L)
		walk(s.R)
	}
	for _, s := range it.Sels {
		walk(s)
	}
	for _, b := range it.Body {
		out = append(out, classesIn(b)...)
	}
	return out
}
