package main

// Sequential histories of the specification (spec/Calls.tla).

import (
	"encoding/json"
	"math/rand"
	"os"
	"strings"
)

func callSheets() [][]*Item {
	r := func(c string, ds ...*Decl) *Item {
		return &Item{T: "rule", Sels: []*Sel{class(c)}, Decls: ds}
	}
	imp := func(p string) *Decl {
		d := decl(p)
		d.I = true
		d.setVal()
		return d
	}
	return [][]*Item{
		{r("a", decl("color")), r("b", decl("color")), r("c", decl("color"), decl("height"))},
		{r("a", decl("width"))},
		{r("b", decl("height")), r("d", decl("color"))},
		{r("a")},
		{r("c", imp("color")), r("b", decl("color"))},
	}
}

var callLists = [][]string{{"a", "b", "c"}, {"c", "b", "a", "d"}, {"a", "b", "c"}}
var callTexts = []string{"a b c", "c b a d", " a\tb  c"}

// forgetful is a plain cache that drops an entry when told to
type forgetful struct{ mapCache }

func (c *forgetful) forget() {
	best := ""
	for k := range c.m {
		if best == "" || k < best {
			best = k
		}
	}
	delete(c.m, best)
}

func calls(file string, limit int, seed int64, cached bool, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var all [][][]any
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var s [][]any
		fatal(json.Unmarshal([]byte(l), &s))
		all = append(all, s)
	}
	if limit > 0 && len(all) > limit {
		rng := rand.New(rand.NewSource(seed))
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:limit]
	}
	sheets := callSheets()
	st := plainStyle(rand.New(rand.NewSource(seed)))
	var texts []string
	for _, s := range sheets {
		texts = append(texts, st.Sheet(s))
	}
	parallel(len(all), func(n int) *Session {
		r := newRecorder(n + 1)
		r.s.Steady = true
		mergers := 1
		for _, c := range all[n] {
			mergers = max(mergers, int(c[2].(float64)))
		}
		caches := map[int]*forgetful{}
		for m := 1; m <= mergers; m++ {
			ks := (n+m)%3 != 0
			if !cached {
				r.New(m, ks, nil, "none")
			} else if (n+m)%2 == 0 {
				r.New(m, ks, newCache("simple", 0), "simple")
			} else {
				caches[m] = &forgetful{mapCache{m: map[string]string{}}}
				r.New(m, ks, caches[m], "map")
			}
			r.Add(m, sheets[0], texts[0], "ok")
		}
		for _, c := range all[n] {
			i, m := int(c[1].(float64)), int(c[2].(float64))
			switch c[0].(string) {
			case "add":
				r.Add(m, sheets[i-1], texts[i-1], "ok")
			case "fail":
				t := texts[i-1]
				r.AddFrom(m, sheets[i-1], &pieceReader{data: []byte(t), failAt: len(t) - 1, with: n%2 == 0}, t, "fail")
			case "merge":
				r.Merge(m, callLists[i-1], callTexts[i-1])
			case "forget":
				if caches[m] != nil {
					caches[m].forget()
				}
			}
		}
		for m := 1; m <= mergers; m++ {
			for i := range callLists {
				r.Merge(m, callLists[i], callTexts[i])
			}
			r.Rules(m)
		}
		return r.s
	}, emit)
}
