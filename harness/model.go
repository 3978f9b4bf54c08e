package main

// The abstract syntax that the specification (spec/Sheet.tla) and the harness share.

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Sel is a selector tree; see spec/Sheet.tla for the fields of each kind.
type Sel struct {
	K     string
	V     string // class, tag, id, ps, fn, bad
	Key   string // attr
	Op    string
	Val   string
	I     bool
	A, B  int // nth
	Last  bool
	Of    bool
	Args  []*Sel // fn
	Parts []*Sel // cmp
	Pe    string
	C     string // comb
	L, R  *Sel
}

func sels(s []*Sel) []*Sel {
	if s == nil {
		return []*Sel{}
	}
	return s
}

func (s *Sel) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": s.K}
	switch s.K {
	case "class", "tag", "id", "ps", "pel", "ext", "bad":
		m["v"] = s.V
	case "attr":
		m["key"], m["op"], m["val"], m["i"] = s.Key, s.Op, s.Val, s.I
	case "nth":
		m["a"], m["b"], m["last"], m["of"] = s.A, s.B, s.Last, s.Of
	case "fn":
		m["v"], m["args"] = s.V, sels(s.Args)
	case "cmp":
		m["parts"], m["pe"] = sels(s.Parts), s.Pe
	case "comb":
		m["c"], m["l"], m["r"] = s.C, s.L, s.R
	default:
		return nil, fmt.Errorf("selector kind %q", s.K)
	}
	return json.Marshal(m)
}

func (s *Sel) UnmarshalJSON(b []byte) error {
	var m struct {
		K     string `json:"k"`
		V     string `json:"v"`
		Key   string `json:"key"`
		Op    string `json:"op"`
		Val   string `json:"val"`
		I     bool   `json:"i"`
		A     int    `json:"a"`
		B     int    `json:"b"`
		Last  bool   `json:"last"`
		Of    bool   `json:"of"`
		Args  []*Sel `json:"args"`
		Parts []*Sel `json:"parts"`
		Pe    string `json:"pe"`
		C     string `json:"c"`
		L     *Sel   `json:"l"`
		R     *Sel   `json:"r"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*s = Sel(m)
	return nil
}

// Decl is a declaration. Tok holds the value as tokens that may be separated by whitespace.
type Decl struct {
	P    string   `json:"p"`
	I    bool     `json:"i"`
	Vars []string `json:"vars"`
	Val  string   `json:"val"` // the text of the value without whitespace
	tok  []string
}

// MarshalJSON adds the value as a sequence of tokens
func (d *Decl) MarshalJSON() ([]byte, error) {
	toks := []string{}
	for _, t := range d.tok {
		if strings.Contains(t, "\\") {
			t = unescapeLiteral(t)
		}
		toks = append(toks, t)
	}
	if d.I {
		toks = append(toks, "!", "important")
	}
	return json.Marshal(map[string]any{"p": d.P, "i": d.I, "vars": d.Vars, "val": d.Val, "toks": toks})
}

// Item is a part of a stylesheet.
type Item struct {
	T     string  `json:"t"`
	Sels  []*Sel  `json:"sels,omitempty"`
	Decls []*Decl `json:"decls,omitempty"`
	Kind  string  `json:"kind,omitempty"`
	Cond  string  `json:"cond,omitempty"`
	Body  []*Item `json:"body,omitempty"`
	Text  string  `json:"text,omitempty"` // junk
}

func (it *Item) MarshalJSON() ([]byte, error) {
	m := map[string]any{"t": it.T}
	switch it.T {
	case "rule":
		d := it.Decls
		if d == nil {
			d = []*Decl{}
		}
		m["sels"], m["decls"] = it.Sels, d
	case "at":
		b := it.Body
		if b == nil {
			b = []*Item{}
		}
		m["kind"], m["cond"], m["body"] = it.Kind, it.Cond, b
	}
	return json.Marshal(m)
}

// RuleView is a registered rule as the library shows it.
type RuleView struct {
	C     string     `json:"c"`
	Decls []DeclView `json:"decls"`
}

type DeclView struct {
	P   string `json:"p"`
	Val string `json:"val"` // without whitespace
	Raw string `json:"raw"` // as it is
}

// Event is a recorded call.
type Event map[string]any

// Session is a recorded session.
type Session struct {
	ID     int     `json:"id"`
	Steady bool    `json:"steady"`
	Ev     []Event `json:"ev"`
}

// constructors

func class(v string) *Sel { return &Sel{K: "class", V: v} }
func tag(v string) *Sel   { return &Sel{K: "tag", V: v} }
func id(v string) *Sel    { return &Sel{K: "id", V: v} }
func ps(v string) *Sel {
	switch v {
	case "first-child":
		return &Sel{K: "nth", A: 0, B: 1}
	case "last-child":
		return &Sel{K: "nth", A: 0, B: 1, Last: true}
	case "first-of-type":
		return &Sel{K: "nth", A: 0, B: 1, Of: true}
	case "last-of-type":
		return &Sel{K: "nth", A: 0, B: 1, Last: true, Of: true}
	}
	return &Sel{K: "ps", V: v}
}
func pel(v string) *Sel                { return &Sel{K: "pel", V: v} }
func nth(a, b int, last, of bool) *Sel { return &Sel{K: "nth", A: a, B: b, Last: last, Of: of} }
func attr(key, op, val string, i bool) *Sel {
	return &Sel{K: "attr", Key: key, Op: op, Val: val, I: i}
}
func fn(name string, args ...*Sel) *Sel { return &Sel{K: "fn", V: name, Args: args} }
func comb(c string, l, r *Sel) *Sel     { return &Sel{K: "comb", C: c, L: l, R: r} }
func bad(text string) *Sel              { return &Sel{K: "bad", V: text} }

// cmp makes a compound; a single part without pseudo-element stays itself
func cmp(pe string, parts ...*Sel) *Sel {
	if len(parts) == 1 && pe == "" {
		return parts[0]
	}
	return &Sel{K: "cmp", Parts: parts, Pe: pe}
}
