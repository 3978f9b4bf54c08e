package main

// Readers that behave in every way spec/Readers.tla allows, and that fail at every byte.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
)

type emptyError struct{}

func (emptyError) Error() string { return "" }

type likeEOF struct{}

func (likeEOF) Error() string        { return "like EOF" }
func (likeEOF) Is(target error) bool { return target == io.EOF }

var readErrors = map[string]error{
	"": nil, "eof": io.EOF, "error": errors.New("EOF"), "unexpected": io.ErrUnexpectedEOF, "wrapped": fmt.Errorf("read: %w", io.EOF),
	"empty": emptyError{}, "is": likeEOF{},
}

// scripted answers calls of Read as the script says; a piece may need several calls when the buffer is short
type scripted struct {
	pieces []string
	errs   []error
	buf    string
	err    error
	open   bool
}

func (s *scripted) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if !s.open {
		if len(s.pieces) == 0 {
			return 0, errors.New("read after the end")
		}
		s.buf, s.err = s.pieces[0], s.errs[0]
		s.pieces, s.errs = s.pieces[1:], s.errs[1:]
		s.open = true
	}
	n := copy(p, s.buf)
	s.buf = s.buf[n:]
	if s.buf == "" {
		s.open = false
		return n, s.err
	}
	return n, nil
}

func readers(file string, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	type script struct {
		Script [][]any `json:"script"`
		Rules  int     `json:"rules"`
		OK     bool    `json:"ok"`
	}
	var all []script
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var s script
		fatal(json.Unmarshal([]byte(l), &s))
		all = append(all, s)
	}
	rng := rand.New(rand.NewSource(seed))
	rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if limit > 0 && len(all) > limit {
		all = all[:limit]
	}
	names := []string{"a", "b", "c"}
	sheetOf := func(rules int, value string) []*Item {
		var items []*Item
		for i := 0; i < rules; i++ {
			d := &Decl{P: []string{"color", "width", "color"}[i%3], Vars: []string{}, tok: []string{value}}
			d.setVal()
			items = append(items, &Item{T: "rule", Sels: []*Sel{class(names[i])}, Decls: []*Decl{d}})
		}
		return items
	}
	const chunk = 100
	n := (len(all) + chunk - 1) / chunk
	id := 0
	parallel(n, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		st := plainStyle(rng)
		r := newRecorder(s + 1)
		kind := []string{"none", "simple"}[s%2]
		r.New(1, true, newCache(kind, 1), kind)
		base := sheetOf(3, "base")
		r.Add(1, base, st.Sheet(base), "ok")
		for i, sc := range all[s*chunk : min(len(all), (s+1)*chunk)] {
			value := fmt.Sprintf("v%d", s*chunk+i)
			whole := sheetOf(3, value)
			var parts []string
			for k := range whole {
				t := st.Sheet(whole[k : k+1])
				at := 1 + rng.Intn(len(t)-1)
				parts = append(parts, t[:at], t[at:])
			}
			rd := &scripted{}
			css := ""
			for _, c := range sc.Script {
				k := int(c[0].(float64))
				piece := strings.Join(parts[:k], "")
				parts = parts[k:]
				css += piece
				rd.pieces = append(rd.pieces, piece)
				rd.errs = append(rd.errs, readErrors[c[1].(string)])
			}
			want := "fail"
			if sc.OK {
				want = "ok"
			}
			r.AddFrom(1, whole[:sc.Rules], rd, css, want)
			if !r.dead {
				r.s.Ev[len(r.s.Ev)-1]["script"] = fmt.Sprint(sc.Script)
			}
			r.Rules(1)
			r.MergeList(1, []string{"a", "b", "c", "d"})
		}
		return r.s
	}, emit)
	id = n
	// a failure at every byte
	sheet := sheetOf(3, "never")
	sheet = append(sheet, &Item{T: "at", Kind: "media", Cond: "print", Body: sheetOf(2, "never")}, sheet[0])
	text := plainStyle(rng).Sheet(sheet)
	const positions = 40
	count := (len(text) + positions) / positions
	parallel(count, func(s int) *Session {
		r := newRecorder(id + s + 1)
		r.New(1, true, newCache("simple", 1), "simple")
		base := sheetOf(2, "base")
		r.Add(1, base, plainStyle(rand.New(rand.NewSource(1))).Sheet(base), "ok")
		for at := s * positions; at <= len(text) && at < (s+1)*positions; at++ {
			for k, sizes := range [][]int{nil, {1, 2, 3, 5, 8, 13}, {at}} {
				p := &pieceReader{data: []byte(text), failAt: at, with: (at+k)%2 == 0, sizes: sizes, zeros: k == 1}
				r.AddFrom(1, sheet, p, text[:at], "fail")
				r.Rules(1)
			}
			r.MergeList(1, []string{"c", "b", "a", "b"})
		}
		return r.s
	}, emit)
}

// shape is an item of spec/Faults.tla
type shape struct {
	K string   `json:"k"`
	B []*shape `json:"b"`
}

// faults adds stylesheets with one fault and looks at what is left of the rules
func faults(file string, limit int, seed int64, emit func(*Session)) {
	b, err := os.ReadFile(file)
	fatal(err)
	var cases []struct {
		Sheet []*shape `json:"sheet"`
		Texts []string `json:"texts"`
		OK    bool     `json:"ok"`
	}
	fatal(json.Unmarshal(b, &cases))
	type pick struct{ c, t int }
	var all []pick
	for i, c := range cases {
		for t := range c.Texts {
			all = append(all, pick{i, t})
		}
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if limit > 0 && len(all) > limit {
		all = all[:limit]
	}
	const chunk = 100
	parallel((len(all)+chunk-1)/chunk, func(s int) *Session {
		rng := rand.New(rand.NewSource(seed*7919 + int64(s)))
		st := plainStyle(rng)
		r := newRecorder(s + 1)
		kind := []string{"none", "simple"}[s%2]
		r.New(1, true, newCache(kind, 1), kind)
		rule := func(c, val string) *Item {
			d := &Decl{P: pickStr(rng, []string{"color", "width"}), Vars: []string{}, tok: []string{val}}
			d.setVal()
			return &Item{T: "rule", Sels: []*Sel{class(c)}, Decls: []*Decl{d}}
		}
		base := []*Item{rule("a", "base"), rule("b", "base")}
		r.Add(1, base, st.Sheet(base), "ok")
		list := []string{"n", "a", "b", "c", "d", "a"}
		for k, p := range all[s*chunk : min(len(all), (s+1)*chunk)] {
			c := cases[p.c]
			var items func(x []*shape) []*Item
			items = func(x []*shape) []*Item {
				out := []*Item{}
				for _, y := range x {
					switch y.K {
					case "rule":
						out = append(out, rule(pickStr(rng, []string{"b", "c", "d"}), fmt.Sprintf("v%d", k)))
					case "fault":
						out = append(out, &Item{T: "junk", Text: c.Texts[p.t]})
					case "layer":
						out = append(out, &Item{T: "junk", Text: "@layer x{" + st.Sheet(items(y.B)) + "}"})
					default:
						out = append(out, &Item{T: "at", Kind: y.K, Cond: pickStr(rng, []string{"print", "(x:y)"}), Body: items(y.B)})
					}
				}
				return out
			}
			sheet := items(c.Sheet)
			css := st.Sheet(sheet)
			want := "fail"
			if c.OK {
				want = "ok"
			}
			r.Add(1, sheet, css, want)
			r.Rules(1)
			r.MergeList(1, list)
		}
		return r.s
	}, emit)
}
