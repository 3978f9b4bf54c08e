package main

// Class lists as raw texts.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"unicode/utf8"

	merge "github.com/tylantz/go-tailwind-merge"
)

// chars splits a text into characters; bytes that are not UTF-8 stand for themselves
func chars(s string) []string {
	out := []string{}
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		switch {
		case r == utf8.RuneError && n == 1:
			out = append(out, fmt.Sprintf(`\x%02X`, s[0]))
		case r == utf8.RuneError:
			out = append(out, `\uFFFD`)
		case r == 0:
			out = append(out, `\0`)
		default:
			out = append(out, s[:n])
		}
		s = s[n:]
	}
	return out
}

var oddSpaces = []string{"\v", "\u00a0", "\u0085", "\u2003", "\u2028", "\u3000", "\ufeff", "\x00", "\x1c", "\x1f", "\u200b", "\u1680", "\xff", "\xa0", "\x85"}
var htmlSpaces = []string{" ", "\t", "\n", "\f", "\r", "\r\n", "  ", " \t ", "\n\n"}

func textSession(rng *rand.Rand, n int) *Session {
	pr := with(lean(base), func(p *Profile) { p.Tricky, p.Classes, p.Undefined, p.Long = 40, 6, 25, 0 })
	g := newGen(rng, pr)
	// names with characters that look like separators
	for i := 0; i < 2; i++ {
		sp := pickStr(rng, oddSpaces[:8])
		if sp == "\x00" {
			continue
		}
		g.classes = append(g.classes, pickStr(rng, plainNames)+sp+pickStr(rng, plainNames))
	}
	r := newRecorder(n)
	r.New(1, true, nil, "none")
	r.New(2, false, nil, "none")
	st := g.style()
	sheet := g.sheet(st, g.classes)
	css := st.Sheet(sheet)
	r.Add(1, sheet, css, "ok")
	r.Add(2, sheet, css, "ok")
	for i := 0; i < 10 && !r.dead; i++ {
		l := g.list()
		switch rng.Intn(8) {
		case 0:
			l = nil
		case 1:
			l = l[:min(len(l), 1)]
		}
		var b strings.Builder
		if rng.Intn(4) == 0 {
			b.WriteString(pickStr(rng, htmlSpaces))
		}
		for k, c := range l {
			if k > 0 {
				sep := " "
				if rng.Intn(3) == 0 {
					sep = pickStr(rng, htmlSpaces)
				}
				if rng.Intn(14) == 0 {
					sep = pickStr(rng, oddSpaces) // not a separator
				}
				b.WriteString(sep)
			}
			b.WriteString(c)
			if rng.Intn(25) == 0 {
				b.WriteString(pickStr(rng, oddSpaces))
			}
		}
		if rng.Intn(4) == 0 {
			b.WriteString(pickStr(rng, htmlSpaces))
		}
		text := b.String()
		m := 1 + rng.Intn(2)
		r.text(m, text)
	}
	return r.s
}

// the characters that spec/Texts.tla gives names to
var charNames = map[string]string{
	"NBSP": "\u00a0", "VT": "\v", "NEL": "\u0085", "U+2028": "\u2028", "U+3000": "\u3000", "U+00E9": "\u00e9", "U+0301": "\u0301",
	"BAD": "\xff", "U+FFFD": "\ufffd", "NUL": "\x00", "US": "\x1f", "ZWSP": "\u200b", "BOM": "\ufeff",
}

func (r *recorder) text(m int, text string) {
	if r.dead {
		return
	}
	var out string
	crash := guarded(func() { out = r.mergers[m].Merge(text) })
	r.add(Event{"op": "text", "m": m, "in": chars(text), "out": chars(out), "text": text, "result": out}, crash)
}

// allTexts: one Merger with a cache merges all texts of a few characters
func allTexts(file string, thorough bool, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var w struct {
		Chars    []string   `json:"chars"`
		Quick    int        `json:"quick"`
		Thorough int        `json:"thorough"`
		Words    [][]string `json:"words"`
	}
	fatal(json.Unmarshal(b, &w))
	length := w.Quick
	if thorough {
		length = w.Thorough
	}
	char := func(c string) string {
		if s, ok := charNames[c]; ok {
			return s
		}
		return c
	}
	rng := rand.New(rand.NewSource(seed))
	var sheet []*Item
	for i, word := range w.Words {
		text := ""
		for _, c := range word {
			text += char(c)
		}
		if strings.ContainsAny(text, "\x00\xff") || i%5 == 4 {
			continue // no stylesheet can define it; and some are unknown
		}
		d := &Decl{P: []string{"color", "width"}[len(word)-1], Vars: []string{}, tok: []string{"1px"}}
		d.setVal()
		sheet = append(sheet, &Item{T: "rule", Sels: []*Sel{class(text)}, Decls: []*Decl{d}})
	}
	st := plainStyle(rng)
	css := st.Sheet(sheet)
	var texts []string
	level := []string{""}
	for k := 1; k <= length; k++ {
		var next []string
		for _, t := range level {
			for _, c := range w.Chars {
				next = append(next, t+char(c))
			}
		}
		texts = append(texts, next...)
		level = next
	}
	texts = append(texts, "")
	// one Merger has seen all of them; what it answers is recorded in several sessions
	const parts = 16
	var sessions []*Session
	mg := merge.NewMerger(merge.NewCache(), true)
	for s := 0; s < parts; s++ {
		r := newRecorder(s + 1)
		r.s.Ev = append(r.s.Ev, Event{"op": "new", "m": 1, "ks": true, "cache": "simple", "crash": ""})
		r.mergers[1], r.ks[1] = mg, true
		if s == 0 {
			r.Add(1, sheet, css, "ok")
		} else {
			r.s.Ev = append(r.s.Ev, Event{"op": "add", "m": 1, "sheet": sheet, "want": "ok", "err": false, "css": css, "crash": ""})
		}
		sessions = append(sessions, r.s)
		if s == 0 && r.dead {
			emit(r.s)
			return
		}
	}
	r := newRecorder(0)
	r.mergers[1] = mg
	for _, i := range rng.Perm(len(texts)) {
		r.text(1, texts[i])
	}
	for i, e := range r.s.Ev {
		s := sessions[i%parts]
		s.Ev = append(s.Ev, e)
	}
	for _, s := range sessions {
		emit(s)
	}
}
