package main

// Custom properties under many names, used in many ways (spec/VarNames.tla).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func varNames(file string, size int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var w struct {
		Names  []string `json:"names"`
		Uses   []string `json:"uses"`
		NoUses []string `json:"nouses"`
	}
	fatal(json.Unmarshal(b, &w))
	forms := append(append([]string{}, w.Uses...), w.NoUses...)
	const chunk = 24
	parts := (len(w.Names) + chunk - 1) / chunk
	perm := rand.New(rand.NewSource(seed)).Perm(len(w.Names))
	parallel(parts*len(forms)*size, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		form := forms[s%len(forms)]
		part := s / len(forms) % parts
		st := plainStyle(rng)
		spell := &Style{rng: rng, escapes: []int{0, 15, 60}[rng.Intn(3)]}
		decl := func(p, val string, vars ...string) *Decl {
			d := &Decl{P: p, Vars: append([]string{}, vars...), tok: []string{val}}
			d.setVal()
			return d
		}
		var sheet []*Item
		var setters, users []string
		rule := func(c string, d *Decl) {
			sheet = append(sheet, &Item{T: "rule", Sels: []*Sel{class(c)}, Decls: []*Decl{d}})
		}
		for i, j := range perm[part*chunk : min(len(perm), (part+1)*chunk)] {
			name := w.Names[j]
			var used []string
			if s%len(forms) < len(w.Uses) {
				used = []string{name}
				if strings.Contains(form, "--unset") {
					used = append(used, "--unset")
				}
			}
			val := strings.ReplaceAll(form, "N", "--"+spell.ident(name[2:]))
			c := fmt.Sprintf("s%d", i)
			rule(c, &Decl{P: name, Vars: []string{}, tok: []string{"1px"}})
			setters = append(setters, c)
			c = fmt.Sprintf("u%d", i)
			if rng.Intn(2) == 0 {
				rule(c, decl("color", val, used...))
			} else { // by another custom property
				z := fmt.Sprintf("--z%d", i)
				rule(c, decl("color", "var("+z+")", z))
				c = fmt.Sprintf("z%d", i)
				rule(c, decl(z, val, used...))
				setters = append(setters, c)
				c = fmt.Sprintf("u%d", i)
			}
			users = append(users, c)
		}
		for _, it := range sheet {
			it.Decls[0].setVal()
		}
		st.escapedNames = spell.escapes
		r := newRecorder(s + 1)
		r.New(1, true, nil, "none")
		css := st.Sheet(sheet)
		r.AddFrom(1, sheet, strings.NewReader(css), css, "ok")
		for _, u := range users {
			rng.Shuffle(len(setters), func(i, j int) { setters[i], setters[j] = setters[j], setters[i] })
			k := rng.Intn(len(setters) + 1)
			r.MergeList(1, append(append(append([]string{}, setters[:k]...), u), setters[k:]...))
		}
		return r.s
	}, emit)
}
