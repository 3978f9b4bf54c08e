package main

// Stylesheets whose slots are filled in all ways (spec/Spellings.tla).

import (
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"strings"
)

type spelled struct {
	Sheet []*Item    `json:"sheet"`
	Slots [][]string `json:"slots"`
}

// text fills the slots; choice says which slots are not filled in the plain way
func (w *spelled) text(choice map[int]int) string {
	var b strings.Builder
	for i, s := range w.Slots {
		b.WriteString(s[choice[i]])
	}
	return b.String()
}

func spellings(file string, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var ws []*spelled
	fatal(json.Unmarshal(b, &ws))
	type job struct {
		w *spelled
		c map[int]int
	}
	var singles, pairs []job
	for _, w := range ws {
		for i, s := range w.Slots {
			for k := 1; k < len(s); k++ {
				singles = append(singles, job{w, map[int]int{i: k}})
				for j := i + 1; j < len(w.Slots); j++ {
					for l := 1; l < len(w.Slots[j]); l++ {
						pairs = append(pairs, job{w, map[int]int{i: k, j: l}})
					}
				}
			}
		}
	}
	rng := rand.New(rand.NewSource(seed))
	rng.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	if limit > 0 && len(pairs) > limit {
		pairs = pairs[:limit]
	}
	jobs := append(singles, pairs...)
	// and many slots at once
	for k := 0; k < len(jobs)/8; k++ {
		w := ws[rng.Intn(len(ws))]
		c := map[int]int{}
		for i, s := range w.Slots {
			if rng.Intn(2) == 0 {
				c[i] = rng.Intn(len(s))
			}
		}
		jobs = append(jobs, job{w, c})
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].w == ws[0] && jobs[j].w != ws[0] })
	const chunk = 100
	parallel((len(jobs)+chunk-1)/chunk, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		r := newRecorder(s + 1)
		r.s.Steady = true
		lists := map[*spelled][][]string{}
		for _, j := range jobs[s*chunk : min(len(jobs), (s+1)*chunk)] {
			if lists[j.w] == nil {
				var classes []string
				for _, it := range j.w.Sheet {
					classes = append(classes, classesIn(it)...)
				}
				// every class before and after every other, in a few lists
				for i := 0; i < 4; i++ {
					var l []string
					for _, k := range rng.Perm(len(classes)) {
						l = append(l, classes[k])
					}
					lists[j.w] = append(lists[j.w], l, l[:2], l[2:5])
				}
				r.try(j.w, map[int]int{}, lists[j.w])
			}
			r.try(j.w, j.c, lists[j.w])
		}
		return r.s
	}, emit)
}

func (r *recorder) try(w *spelled, c map[int]int, lists [][]string) {
	r.New(1, true, nil, "none")
	r.Add(1, w.Sheet, w.text(c), "ok")
	for _, l := range lists {
		r.MergeList(1, l)
	}
}
