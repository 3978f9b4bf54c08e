package main

// Runs calls on the real library and records what they return.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	merge "github.com/tylantz/go-tailwind-merge"
)

func init() {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
}

const callTimeout = 20 * time.Second

// guarded runs f and reports a panic or that it did not return
func guarded(f func()) (crash string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(callTimeout)
	defer t.Stop()
	select {
	case c := <-done:
		return c
	case <-t.C:
		return "did not return within " + callTimeout.String()
	}
}

// caches

// lossyCache is a correct cache that forgets entries at any moment
type lossyCache struct {
	mu  sync.Mutex
	m   map[string]string
	rng *rand.Rand
}

func (c *lossyCache) Get(k string) (string, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.rng.Intn(3) == 0 {
		delete(c.m, k)
	}
	v, ok := c.m[k]
	return v, ok
}
func (c *lossyCache) Set(k, v string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.rng.Intn(4) != 0 {
		c.m[k] = v
	}
}
func (c *lossyCache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[string]string{}
}

// mapCache is a plain correct cache of our own
type mapCache struct {
	mu sync.Mutex
	m  map[string]string
}

func (c *mapCache) Get(k string) (string, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v, ok := c.m[k]
	return v, ok
}
func (c *mapCache) Set(k, v string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m[k] = v
}
func (c *mapCache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[string]string{}
}

func newCache(kind string, seed int64) merge.Cache {
	switch kind {
	case "simple":
		return merge.NewCache()
	case "map":
		return &mapCache{m: map[string]string{}}
	case "lossy":
		return &lossyCache{m: map[string]string{}, rng: rand.New(rand.NewSource(seed))}
	}
	return nil
}

// readers

// pieceReader delivers its data in pieces, and possibly fails
type pieceReader struct {
	data   []byte
	sizes  []int // sizes of the pieces; the rest comes at once
	failAt int   // fail when this many bytes have been delivered; -1: never
	with   bool  // deliver the last data together with the final error
	zeros  bool  // now and then deliver nothing
	off, n int
	tick   int
}

var errReader = errors.New("reader failed")

func (r *pieceReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	r.tick++
	if r.zeros && r.tick%3 == 1 {
		return 0, nil
	}
	end := len(r.data)
	fin := io.EOF
	if r.failAt >= 0 {
		end, fin = r.failAt, errReader
	}
	if r.off >= end {
		return 0, fin
	}
	k := end - r.off
	if r.n < len(r.sizes) && r.sizes[r.n] < k {
		k = r.sizes[r.n]
		if k <= 0 {
			k = 1
		}
	}
	r.n++
	if k > len(p) {
		k = len(p)
	}
	copy(p, r.data[r.off:r.off+k])
	r.off += k
	if r.off >= end && r.with {
		return k, fin
	}
	return k, nil
}

// recorder runs a session

type recorder struct {
	s       *Session
	mergers map[int]*merge.Merger
	ks      map[int]bool
	dead    bool // a call crashed: the session ends
}

func newRecorder(id int) *recorder {
	return &recorder{s: &Session{ID: id, Ev: []Event{}}, mergers: map[int]*merge.Merger{}, ks: map[int]bool{}}
}

func (r *recorder) add(e Event, crash string) {
	e["crash"] = crash
	if crash != "" {
		r.dead = true
	}
	r.s.Ev = append(r.s.Ev, e)
}

func (r *recorder) New(m int, ks bool, cache merge.Cache, kind string) {
	if r.dead {
		return
	}
	var mg *merge.Merger
	crash := guarded(func() { mg = merge.NewMerger(cache, ks) })
	r.mergers[m], r.ks[m] = mg, ks
	r.add(Event{"op": "new", "m": m, "ks": ks, "cache": kind}, crash)
}

// Add adds a stylesheet given as text; sheet is what it means
func (r *recorder) Add(m int, sheet []*Item, css string, want string) {
	r.AddFrom(m, sheet, strings.NewReader(css), css, want)
}

func (r *recorder) AddFrom(m int, sheet []*Item, rd io.Reader, css string, want string) {
	if r.dead {
		return
	}
	var err error
	crash := guarded(func() { err = r.mergers[m].AddRules(rd, false) })
	if sheet == nil {
		sheet = []*Item{}
	}
	e := Event{"op": "add", "m": m, "sheet": sheet, "want": want, "err": err != nil, "css": css}
	if err != nil {
		e["msg"] = err.Error()
	}
	r.add(e, crash)
}

// Merge merges a list given as text; in are its classes
func (r *recorder) Merge(m int, in []string, text string) []string {
	if r.dead {
		return nil
	}
	var out string
	crash := guarded(func() { out = r.mergers[m].Merge(text) })
	res := splitOut(out)
	if len(in) < 2 {
		res = in // the text as a whole is compared
	}
	r.add(Event{"op": "merge", "m": m, "in": nonNil(in), "out": nonNil(res), "short": len(in) >= 2 || out == text, "text": text, "result": out}, crash)
	return res
}

func (r *recorder) MergeList(m int, in []string) []string {
	return r.Merge(m, in, strings.Join(in, " "))
}

func splitOut(out string) []string {
	if out == "" {
		return []string{}
	}
	return strings.Split(out, " ")
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// Stage merges a list whose prefix has been replaced by its merged form
func (r *recorder) Stage(m int, in []string, at, pre int) {
	if r.dead {
		return
	}
	var out string
	text := strings.Join(in, " ")
	crash := guarded(func() { out = r.mergers[m].Merge(text) })
	r.add(Event{"op": "stage", "m": m, "in": nonNil(in), "out": splitOut(out), "at": at, "pre": pre, "text": text}, crash)
}

// Again merges a result again
func (r *recorder) Again(m int, in []string, at int) {
	if r.dead {
		return
	}
	var out string
	text := strings.Join(in, " ")
	crash := guarded(func() { out = r.mergers[m].Merge(text) })
	r.add(Event{"op": "again", "m": m, "in": nonNil(in), "out": splitOut(out), "at": at, "text": text}, crash)
}

// Same records two texts that must be equal
func (r *recorder) Same(m int, what, before, after string) {
	if r.dead {
		return
	}
	r.add(Event{"op": "same", "m": m, "what": what, "before": before, "after": after}, "")
}

var cssComment = regexp.MustCompile(`(?s)/\*.*?\*/`)
var cssSpace = regexp.MustCompile(`[ \t\r\n\f]+`)
var importantEnd = regexp.MustCompile(`(?i)!important$`)

// canonValue removes what does not matter in the text of a value
func canonValue(v string) string {
	v = cssComment.ReplaceAllString(v, "")
	v = cssSpace.ReplaceAllString(v, "")
	return importantEnd.ReplaceAllString(v, "!important")
}

var spacedComment = regexp.MustCompile(`(?s)(?: ?/\*.*?\*/)+ ?`)
var importantKeyword = regexp.MustCompile(`(?i)![ ]?important$`)

// rawValue is the text of a value without comments, with the keyword in lower case
func rawValue(v string) string {
	v = strings.TrimSpace(spacedComment.ReplaceAllStringFunc(v, func(c string) string {
		if strings.HasPrefix(c, " ") || strings.HasSuffix(c, " ") {
			return " "
		}
		return ""
	}))
	return importantKeyword.ReplaceAllStringFunc(v, strings.ToLower)
}

func unescapeLiteral(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// Rules records the registered rules
func (r *recorder) Rules(m int) {
	if r.dead {
		return
	}
	var views []RuleView
	crash := guarded(func() { views = rulesOf(r.mergers[m]) })
	r.add(Event{"op": "rules", "m": m, "rules": views}, crash)
}

// Print adds printed rules of a Merger to another one (at most limit, if not 0), and records the rules that makes
func (r *recorder) Print(m, into int, rng *rand.Rand, limit int) {
	if r.dead {
		return
	}
	texts := map[string]string{}
	crash := guarded(func() {
		for c, rule := range r.mergers[m].Rules() {
			texts[c] = rule.ToCssFormat()
		}
	})
	names := make([]string, 0, len(texts))
	for c := range texts {
		names = append(names, c)
	}
	sort.Strings(names)
	if limit > 0 && len(names) > limit {
		rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:limit]
	}
	for _, c := range names {
		var err error
		if crash == "" {
			crash = guarded(func() { err = r.mergers[into].AddRules(strings.NewReader(texts[c]), false) })
		}
		r.add(Event{"op": "print", "m": m, "into": into, "c": c, "text": texts[c], "err": err != nil}, crash)
		if r.dead {
			return
		}
	}
	r.Rules(into)
}

func rulesOf(mg *merge.Merger) []RuleView {
	views := []RuleView{}
	rules := mg.Rules()
	names := make([]string, 0, len(rules))
	for c := range rules {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		v := RuleView{C: c, Decls: []DeclView{}}
		for _, d := range rules[c].Declarations {
			p := d.Property
			if strings.HasPrefix(p, "--") {
				p = unescapeLiteral(p)
			}
			v.Decls = append(v.Decls, DeclView{P: p, Val: canonValue(d.Value), Raw: rawValue(d.Value)})
		}
		views = append(views, v)
	}
	return views
}

// dumpRules is a text with everything the registered rules show
func dumpRules(mg *merge.Merger) string {
	rules := mg.Rules()
	names := make([]string, 0, len(rules))
	for c := range rules {
		names = append(names, c)
	}
	sort.Strings(names)
	var b bytes.Buffer
	for _, c := range names {
		fmt.Fprintf(&b, "%q %q %q %q\n", c, rules[c].GetSelector(), rules[c].GetCondition(), rules[c].Declarations)
	}
	return b.String()
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}
