package main

// Names of classes in every spelling (spec/Ident.tla).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
)

type IdentRecord struct {
	ID    int     `json:"id"`
	Text  []rune  `json:"text"`
	CSS   string  `json:"css"`
	Extra [][]int `json:"extra"`
	Err   bool    `json:"err"`
	Msg   string  `json:"msg"`
	Crash string  `json:"crash"`
	Names [][]int `json:"names"`
}

// where a class may stand; what follows it is no whitespace and no hexadecimal digit
var identContexts = [][]string{
	{".", "{", ""}, {"p.", "{", ""}, {".", ":hover{", ""}, {".x .", "{", "x"}, {".", ">p{", ""}, {":is(.", ",.y){", "y"}, {".", ".y{", "y"},
	{".y,.", "{", "y"}, {".", ",.y{", "y"}, {"p>.", "::before{", ""}, {":where(p ~ .", "){", ""}, {".y+.", "[x]{", "y"}, {"#i.", "{", ""},
	{":is(.", "):hover{", ""}, {".y.", ":not(.z){", "y"},
}

func codes(s string) []int {
	out := []int{}
	for _, c := range s {
		out = append(out, int(c))
	}
	return out
}

func idents(file string, world string, length, limit int, allContexts bool, seed int64, emit func(*IdentRecord)) {
	rng := rand.New(rand.NewSource(seed))
	var texts []string
	if world == "hex" {
		values := []int{0, 1, 9, 0xa, 0xc, 0xd, 0x20, 0x22, 0x2d, 0x2e, 0x30, 0x39, 0x3a, 0x41, 0x5c, 0x5f, 0x61, 0x7f, 0x80, 0xa0, 0xad, 0xe9, 0x2028, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff, 0x110000, 0xffffff}
		for _, v := range values {
			for width := 1; width <= 6; width++ {
				for _, format := range []string{"%0*x", "%0*X"} {
					h := fmt.Sprintf(format, width, v)
					if len(h) != width {
						continue
					}
					for _, before := range []string{"", "a", "-", "--", "1", "\\:", "\\31 "} {
						for _, end := range []string{"", " ", "\t", "\n", "\f", "\r", "\r\n", "  "} {
							for _, after := range []string{"", "b", "g", "1", "-", "\\.", "\\62", "é"} {
								texts = append(texts, before+"\\"+h+end+after)
							}
						}
					}
				}
			}
		}
	} else {
		b, err := os.ReadFile(file)
		fatal(err)
		var w map[string][]rune
		fatal(json.Unmarshal(b, &w))
		level := []string{""}
		for k := 1; k <= length; k++ {
			var next []string
			for _, t := range level {
				for _, c := range w[world] {
					next = append(next, t+string(c))
				}
			}
			texts = append(texts, next...)
			level = next
		}
	}
	rng.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
	if limit > 0 && len(texts) > limit {
		texts = texts[:limit]
	}
	per := 1
	if allContexts {
		per = len(identContexts)
	}
	total := len(texts) * per
	const chunk = 400
	chunks := (total + chunk - 1) / chunk
	slots := parallelChunks(chunks, func(c int) []*IdentRecord {
		var out []*IdentRecord
		mg := merge.NewMerger(nil, true)
		for i := c * chunk; i < min(total, (c+1)*chunk); i++ {
			text := texts[i/per]
			x := identContexts[i%len(identContexts)]
			value := fmt.Sprintf("v%d", i)
			rec := &IdentRecord{ID: i + 1, Text: []rune(text), CSS: x[0] + text + x[1] + "color:" + value + "}", Extra: [][]int{}, Names: [][]int{}}
			if x[2] != "" {
				rec.Extra = append(rec.Extra, codes(x[2]))
			}
			rec.Crash = guarded(func() {
				if err := mg.AddRules(strings.NewReader(rec.CSS), false); err != nil {
					rec.Err, rec.Msg = true, err.Error()
				}
			})
			if rec.Crash == "" {
				for name, rule := range mg.Rules() {
					if len(rule.Declarations) == 1 && rule.Declarations[0].Value == value {
						rec.Names = append(rec.Names, codes(name))
					}
				}
			}
			out = append(out, rec)
			if strings.HasPrefix(rec.Crash, "did not return") {
				break
			}
		}
		return out
	})
	for c := 0; c < chunks; c++ {
		for _, rec := range <-slots[c] {
			emit(rec)
			if strings.HasPrefix(rec.Crash, "did not return") {
				return
			}
		}
	}
}
