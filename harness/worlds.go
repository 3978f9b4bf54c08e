package main

// Small worlds of the specification (spec/Worlds.tla), tried exhaustively.

import (
	"encoding/json"
	"math/rand"
	"os"
	"strings"
)

type World struct {
	Sheet   []*Item  `json:"sheet"`
	Classes []string `json:"classes"`
}

// fillValues gives the declarations values
func fillValues(items []*Item) {
	for _, it := range items {
		fillValues(it.Body)
		for _, d := range it.Decls {
			if len(d.tok) > 0 {
				continue
			}
			for i, v := range d.Vars {
				if i > 0 {
					d.tok = append(d.tok, " ")
				}
				d.tok = append(d.tok, "var(", v, ")")
			}
			if len(d.tok) == 0 {
				d.tok = []string{"1px"}
			}
			d.setVal()
		}
	}
}

func worlds(file, mode string, length, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var w World
	fatal(json.Unmarshal(b, &w))
	fillValues(w.Sheet)
	n := len(w.Classes)
	total := 0
	for k, p := 2, n*n; k <= length; k, p = k+1, p*n {
		total += p
	}
	// the list with number i
	list := func(i int) []string {
		k, p := 2, n*n
		for i >= p {
			i -= p
			k, p = k+1, p*n
		}
		out := make([]string, k)
		for j := range out {
			out[j] = w.Classes[i%n]
			i /= n
		}
		return out
	}
	rng := rand.New(rand.NewSource(seed))
	var numbers []int
	if limit <= 0 || total <= limit {
		for i := 0; i < total; i++ {
			numbers = append(numbers, i)
		}
	} else {
		for i := 0; i < limit; i++ {
			numbers = append(numbers, rng.Intn(total))
		}
	}
	chunk := 250
	if mode == "whole" {
		chunk = 3
	}
	sessions := (len(numbers) + chunk - 1) / chunk
	parallel(sessions, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		r := newRecorder(s + 1)
		r.New(1, true, nil, "none")
		// the order of the rules does not matter
		sheet := make([]*Item, len(w.Sheet))
		for i, j := range rng.Perm(len(w.Sheet)) {
			sheet[i] = w.Sheet[j]
		}
		st := plainStyle(rng)
		css := st.Sheet(sheet)
		r.AddFrom(1, sheet, strings.NewReader(css), css, "ok")
		for _, i := range numbers[s*chunk : min(len(numbers), (s+1)*chunk)] {
			l := list(i)
			if mode == "whole" { // most of the classes
				l = nil
				for _, k := range rng.Perm(n) {
					if k < 3 || rng.Intn(150) > 0 {
						l = append(l, w.Classes[k])
					}
				}
			}
			out := r.MergeList(1, l)
			at := len(r.s.Ev)
			switch mode {
			case "again":
				r.Again(1, out, at)
			case "staged":
				for k := 2; k < len(l); k++ {
					o := r.MergeList(1, l[:k])
					pre := len(r.s.Ev)
					r.Stage(1, append(append([]string{}, o...), l[k:]...), at, pre)
				}
			}
		}
		return r.s
	}, emit)
}
