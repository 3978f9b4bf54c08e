package main

// Selectors by structure (spec/Structures.tla) and parts that have no effect (spec/AtRules.tla).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
)

const structureHole = "#"

// holes counts the classes to be filled in, in the order of the text
func holes(s *Sel) int {
	n := 0
	if s.K == "class" && s.V == structureHole {
		n = 1
	}
	for _, x := range s.Parts {
		n += holes(x)
	}
	for _, x := range s.Args {
		n += holes(x)
	}
	if s.L != nil {
		n += holes(s.L) + holes(s.R)
	}
	return n
}

// name fills the holes in, in the order of the text
// and text into strings
func nameHoles(s *Sel, text string, names []string) (*Sel, []string) {
	t := *s
	if s.K == "attr" && s.Val == "."+structureHole {
		t.Val = text
	}
	if s.K == "class" && s.V == structureHole {
		t.V, names = names[0], names[1:]
	}
	t.Parts, t.Args = nil, nil
	for _, x := range s.Parts {
		var y *Sel
		y, names = nameHoles(x, text, names)
		t.Parts = append(t.Parts, y)
	}
	for _, x := range s.Args {
		var y *Sel
		y, names = nameHoles(x, text, names)
		t.Args = append(t.Args, y)
	}
	if s.L != nil {
		t.L, names = nameHoles(s.L, text, names)
		t.R, names = nameHoles(s.R, text, names)
	}
	return &t, names
}

// what a name may continue with
var longer = []string{"x", "-", "_", "5", "Z", "é", ":", "a", "z", "A", "0", "9", ".x", "\u0080", "👍", "-1"}

// what precedes the name of the class in a string
var texts = []string{".", "\".", "\\.", " .", "'."}

func structures(file, mode string, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var all []*Sel
	fatal(json.Unmarshal(b, &all))
	rand.New(rand.NewSource(seed)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if limit > 0 && len(all) > limit {
		all = all[:limit]
	}
	// "-" is escaped where a class is printed
	name := func(c rune, i, h int) string { return fmt.Sprintf("%c%d%s%d", c, i, []string{"h", "-"}[i/4%2], h) }
	const chunk = 25
	n := (len(all) + chunk - 1) / chunk
	parallel(n, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		r := newRecorder(s + 1)
		r.New(1, true, nil, "none")
		var sheet []*Item
		var classes []string
		for i, sel := range all[s*chunk : min(len(all), (s+1)*chunk)] {
			k := holes(sel)
			last := k - 1
			if k > 1 {
				last = k // and with one class in all the holes
			}
			for h := 0; h <= last; h++ {
				for copy := 0; copy < 2; copy++ {
					names := make([]string, k)
					for j := range names {
						names[j] = fmt.Sprintf("m%d", j)
						if k := names[j]; i%4 < 3 {
							// what precedes the dot of the next class; names that contain the name of the class of one of the two rules
							names[j] = []string{k + "\\", k + "." + name('a', i, h), name('a', i, h) + longer[(i/4+j)%len(longer)]}[i%4]
						}
					}
					own := name('a'+rune(copy), i, h)
					if h < k {
						names[h] = own
					} else {
						for j := range names {
							names[j] = own
						}
					}
					classes = append(classes, own)
					filled, _ := nameHoles(sel, texts[i%len(texts)]+name('a', i, h)+[]string{"", "\\", "\""}[i%3], names)
					d := &Decl{P: "color", Vars: []string{}, tok: []string{fmt.Sprintf("c%d-%d-%d", i, h, copy)}}
					d.setVal()
					sheet = append(sheet, &Item{T: "rule", Sels: []*Sel{filled}, Decls: []*Decl{d}})
				}
			}
		}
		rng.Shuffle(len(sheet), func(i, j int) { sheet[i], sheet[j] = sheet[j], sheet[i] })
		st := plainStyle(rng)
		r.Add(1, sheet, st.Sheet(sheet), "ok")
		r.Rules(1)
		m := 1
		if mode == "print" {
			m = 2
			r.New(2, true, nil, "none")
			r.Print(1, 2, rng, 30)
		}
		classes = append(classes, "m0", "m1", "m2", "m3")
		for k := 0; k < 2; k++ {
			rng.Shuffle(len(classes), func(i, j int) { classes[i], classes[j] = classes[j], classes[i] })
			r.MergeList(m, append([]string{}, classes...))
		}
		return r.s
	}, emit)
}

// putJunk replaces the junk in a sheet
func putJunk(items []*Item, text string) []*Item {
	var out []*Item
	for _, it := range items {
		c := *it
		c.Body = putJunk(it.Body, text)
		if it.T == "junk" {
			c.Text = text
		}
		out = append(out, &c)
	}
	return out
}

func atRules(file string, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var w struct {
		Texts  []string  `json:"texts"`
		Nested []string  `json:"nested"`
		Sheets [][]*Item `json:"sheets"`
	}
	fatal(json.Unmarshal(b, &w))
	type pair struct{ text, sheet int }
	texts := append(append([]string{}, w.Texts...), w.Nested...)
	var all []pair
	for i := range texts {
		for s := range w.Sheets {
			all = append(all, pair{i, s})
		}
	}
	for _, s := range w.Sheets {
		fixDecls(s)
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if limit > 0 && len(all) > limit {
		all = all[:limit]
	}
	const chunk = 200
	n := (len(all) + chunk - 1) / chunk
	parallel(n, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		r := newRecorder(s + 1)
		r.New(1, true, nil, "none")
		for _, p := range all[s*chunk : min(len(all), (s+1)*chunk)] {
			sheet := putJunk(w.Sheets[p.sheet], texts[p.text])
			r.Add(1, sheet, plainStyle(rng).Sheet(sheet), "ok")
			r.Rules(1)
			r.MergeList(1, []string{"n", "b", "c", "d", "e"})
		}
		return r.s
	}, emit)
}
