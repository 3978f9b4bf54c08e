package main

// A class that is defined twice (spec/Redefinitions.tla).

import (
	"encoding/json"
	"math/rand"
	"os"
)

type redefinition struct {
	Context []*Item   `json:"context"`
	Pairs   [][]*Item `json:"pairs"`
	Classes []string  `json:"classes"`
}

func redefinitions(file string, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var w redefinition
	fatal(json.Unmarshal(b, &w))
	fillValues(w.Context)
	for _, p := range w.Pairs {
		fillValues(p)
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(w.Pairs), func(i, j int) { w.Pairs[i], w.Pairs[j] = w.Pairs[j], w.Pairs[i] })
	pairs := w.Pairs
	if limit > 0 && len(pairs) > limit {
		pairs = pairs[:limit]
	}
	const chunk = 10
	parallel((len(pairs)+chunk-1)/chunk, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		r := newRecorder(s + 1)
		for i, p := range pairs[s*chunk : min(len(pairs), (s+1)*chunk)] {
			st := plainStyle(rng)
			m := i + 1
			r.New(m, true, newCache("simple", 1), "simple")
			try := func() {
				for _, c := range w.Classes {
					r.MergeList(m, []string{"a", c})
					r.MergeList(m, []string{c, "a"})
				}
				l := append([]string{"a"}, w.Classes...)
				rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				r.MergeList(m, l)
			}
			switch rng.Intn(3) {
			case 0: // one stylesheet
				all := append(append([]*Item{}, w.Context...), p...)
				r.Add(m, all, st.Sheet(all), "ok")
			case 1: // the context between the two
				r.Add(m, p[:1], st.Sheet(p[:1]), "ok")
				r.Add(m, w.Context, st.Sheet(w.Context), "ok")
				try()
				r.Add(m, p[1:], st.Sheet(p[1:]), "ok")
			case 2:
				r.Add(m, w.Context, st.Sheet(w.Context), "ok")
				r.Add(m, p[:1], st.Sheet(p[:1]), "ok")
				r.MergeList(m, append([]string{"a"}, w.Classes...))
				r.Add(m, p[1:], st.Sheet(p[1:]), "ok")
			}
			try()
			r.Rules(m)
		}
		return r.s
	}, emit)
}
