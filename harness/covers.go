package main

// Pairs of properties and sets of longhands against shorthands.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
)

func coverNames() []string {
	seen := map[string]bool{}
	var names []string
	add := func(p string) {
		if !seen[p] && p != "--*" {
			seen[p] = true
			names = append(names, p)
		}
	}
	for _, p := range allProps {
		add(p)
	}
	for _, f := range familyNames {
		add(f)
		for _, l := range families[f] {
			add(l)
		}
	}
	for _, p := range []string{"fill", "stroke", "unknown-prop", "-x-y", "borde", "border-", "margin-to", "x"} {
		add(p)
	}
	sort.Strings(names)
	return names
}

func covers(seed int64, n int, namesFile string, emit func(any)) {
	names := coverNames()
	b, err := json.Marshal(names)
	fatal(err)
	fatal(os.WriteFile(namesFile, b, 0o644))
	var css strings.Builder
	for i, p := range names {
		fmt.Fprintf(&css, ".p%d{%s:x}\n", i, p)
	}
	var m *merge.Merger
	if c := guarded(func() {
		m = merge.NewMerger(nil, true)
		if err := m.AddRules(strings.NewReader(css.String()), false); err != nil {
			panic(err)
		}
	}); c != "" {
		emit(Event{"op": "pairs", "p": "", "over": []string{}, "odd": []string{}, "crash": c})
		return
	}
	for i, p := range names {
		over, odd := []string{}, []string{}
		crash := guarded(func() {
			for j, q := range names {
				if i == j {
					continue
				}
				a, b := fmt.Sprintf("p%d", i), fmt.Sprintf("p%d", j)
				switch m.Merge(a + " " + b) {
				case b:
					over = append(over, q)
				case a + " " + b:
				default:
					odd = append(odd, q)
				}
			}
		})
		emit(Event{"op": "pairs", "p": p, "over": over, "odd": odd, "crash": crash})
	}
	index := map[string]int{}
	for i, p := range names {
		index[p] = i
	}
	set := func(p string, later []string) {
		list := []string{fmt.Sprintf("p%d", index[p])}
		for _, q := range later {
			list = append(list, fmt.Sprintf("p%d", index[q]))
		}
		var out string
		crash := guarded(func() { out = m.Merge(strings.Join(list, " ")) })
		dropped := !contains(strings.Fields(out), list[0])
		emit(Event{"op": "set", "p": p, "later": later, "dropped": dropped, "crash": crash})
	}
	rng := rand.New(rand.NewSource(seed))
	for _, f := range familyNames {
		long := families[f]
		set(f, long)
		for k := range long {
			rest := append(append([]string{}, long[:k]...), long[k+1:]...)
			if len(rest) > 0 {
				set(f, rest)
			}
		}
		// mixtures of longhands and shorthands that overlap with this one
		var near []string
		for _, o := range familyNames {
			for _, l := range families[o] {
				if o != f && contains(long, l) {
					near = append(near, o)
					break
				}
			}
		}
		near = append(near, long...)
		for k := 0; k < n; k++ {
			later := sample(rng, near, 1+rng.Intn(len(near)))
			if len(later) > 0 {
				set(f, later)
			}
		}
	}
}
