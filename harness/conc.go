package main

// Concurrent calls on one Merger: schedules forced from outside, and free running threads.

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	merge "github.com/tylantz/go-tailwind-merge"
)

// History is a recorded history of concurrent calls on one Merger or cache.
type History struct {
	ID    int         `json:"id"`
	KS    bool        `json:"ks"`
	Kind  string      `json:"kind"` // the cache
	Init  [][2]string `json:"init"`
	Sched []int       `json:"sched,omitempty"`
	Ev    []Event     `json:"ev"`
	Crash string      `json:"crash"`
}

// ---- the stylesheets and lists of these histories

const maxSheets = 6

func decl(p string) *Decl {
	d := &Decl{P: p, Vars: []string{}, tok: []string{"1px"}}
	d.setVal()
	return d
}

var versionProps = []string{"", "width", "height", "opacity", "z-index", "order", "top"}

// concSheets: sheet 1 is there from the beginning, each of the others shows in the results
func concSheets() (sheets [][]*Item, texts []string) {
	r := func(c, p string) *Item {
		return &Item{T: "rule", Sels: []*Sel{class(c)}, Decls: []*Decl{decl(p)}}
	}
	base := []*Item{r("k", "color"), r("m", "color")}
	for i := 2; i <= maxSheets; i++ {
		base = append(base, r(fmt.Sprintf("q%d", i), versionProps[i]))
	}
	sheets = append(sheets, base)
	for i := 2; i <= maxSheets; i++ {
		sheets = append(sheets, []*Item{
			r(fmt.Sprintf("s%d", i), "color"),
			r("r", versionProps[i]),
			r(fmt.Sprintf("t%d", i), "color"),
		})
	}
	st := plainStyle(rand.New(rand.NewSource(1)))
	for i, s := range sheets {
		t := st.Sheet(s)
		if i > 0 {
			// many other rules between the first and the last, so that it takes a while to add them
			parts := []string{st.Sheet(s[:1])}
			for j := 0; j < 150; j++ {
				parts = append(parts, fmt.Sprintf(".other-%d-%d{color:red}", i, j))
			}
			parts = append(parts, st.Sheet(s[1:]))
			t = strings.Join(parts, "")
		}
		texts = append(texts, t)
	}
	return
}

func concList(n int) []string {
	l := []string{"r"}
	for i := 2; i <= maxSheets; i++ {
		if n%2 == 1 {
			l = append(l, fmt.Sprintf("s%d", i), fmt.Sprintf("t%d", i))
		} else {
			l = append(l, fmt.Sprintf("t%d", i), fmt.Sprintf("s%d", i))
		}
	}
	return append(l, fmt.Sprintf("q%d", 2+(n-1)%(maxSheets-1)), []string{"k", "m"}[n%2])
}

// ---- recording

type histRec struct {
	mu sync.Mutex
	h  *History
}

func (r *histRec) call(p int, e Event) Event {
	r.mu.Lock()
	defer r.mu.Unlock()
	e["k"], e["p"] = "call", p
	r.h.Ev = append(r.h.Ev, e)
	return e
}

func (r *histRec) ret(p int, e Event, set func(Event)) {
	r.mu.Lock()
	defer r.mu.Unlock()
	set(e)
	r.h.Ev = append(r.h.Ev, Event{"k": "ret", "p": p})
}

func (r *histRec) crash(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.h.Crash == "" {
		r.h.Crash = what
	}
}

// snapshot copies the history: calls that have not returned have no result yet
func (r *histRec) snapshot() *History {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := *r.h
	c.Ev = make([]Event, len(r.h.Ev))
	for i, e := range r.h.Ev {
		m := Event{}
		for k, v := range e {
			m[k] = v
		}
		if m["op"] == "merge" && m["out"] == nil {
			m["out"] = []string{}
		}
		if m["op"] == "add" && m["err"] == nil {
			m["err"] = true
		}
		c.Ev[i] = m
	}
	return &c
}

// bench is a Merger that is used for many histories, one after another, as it takes long to make
// one; each history has classes of its own.
type bench struct {
	mg    *merge.Merger
	cache *gateCache
	ks    bool
	kind  string
	used  int
	texts []string
	mark  string // the prefix of the classes of the current history
}

func newBench(ks bool, kind string, seed int64) *bench {
	b := &bench{ks: ks, kind: kind}
	if inner := newCache(kind, seed); inner != nil {
		b.cache = &gateCache{inner: inner}
		b.mg = merge.NewMerger(b.cache, ks)
	} else {
		b.mg = merge.NewMerger(nil, ks)
	}
	_, b.texts = concSheets()
	return b
}

func (b *bench) begin(g *gates) {
	b.used++
	b.mark = fmt.Sprintf("h%d-", b.used)
	if b.cache != nil {
		b.cache.g = g
	}
}

func (b *bench) text(sheet int) string {
	t := strings.ReplaceAll(b.texts[sheet-1], ".", "."+b.mark)
	return strings.ReplaceAll(t, b.mark+"other", "other") // nobody asks for these
}

func doMerge(r *histRec, p int, b *bench, list []string) {
	text := b.mark + strings.Join(list, " "+b.mark)
	e := r.call(p, Event{"op": "merge", "in": list})
	out := b.mg.Merge(text)
	r.ret(p, e, func(e Event) {
		res := splitOut(out)
		for i := range res {
			res[i] = strings.TrimPrefix(res[i], b.mark)
		}
		e["out"] = res
	})
}

func doAdd(r *histRec, p int, b *bench, sheet int, rd io.Reader) {
	e := r.call(p, Event{"op": "add", "sheet": sheet})
	err := b.mg.AddRules(rd, false)
	r.ret(p, e, func(e Event) { e["err"] = err != nil })
}

// protect runs f; a panic becomes a crash of the history
func protect(r *histRec, f func()) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 2000)
			r.crash(fmt.Sprintf("panic: %v %s", x, buf[:runtime.Stack(buf, false)]))
		}
	}()
	f()
}

// ---- forced schedules

func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	return n
}

type gates struct {
	ids    sync.Map // goroutine -> process
	grant  []chan struct{}
	events chan gateEvent
	open   atomic.Bool // all gates are open
}

type gateEvent struct {
	p    int
	done bool
}

func (g *gates) pass() {
	if g == nil || g.open.Load() {
		return
	}
	if p, ok := g.ids.Load(goid()); ok {
		g.events <- gateEvent{p: p.(int)}
		<-g.grant[p.(int)]
	}
}

type gateCache struct {
	g     *gates
	inner merge.Cache
}

func (c *gateCache) Get(k string) (string, bool) {
	c.g.pass()
	v, ok := c.inner.Get(k)
	if !ok {
		c.g.pass()
	}
	return v, ok
}
func (c *gateCache) Set(k, v string) { c.g.pass(); c.inner.Set(k, v) }
func (c *gateCache) Clear()          { c.g.pass(); c.inner.Clear() }

type gateReader struct {
	g    *gates
	data string
	fail bool
	done bool
}

func (r *gateReader) Read(p []byte) (int, error) {
	if !r.done {
		r.g.pass()
		r.done = true
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	if len(r.data) > 0 {
		return n, nil
	}
	if r.fail {
		return n, errReader
	}
	return n, io.EOF
}

type progCall struct {
	op   string
	list int
}

func parsePrograms(s string) (out [][]progCall) {
	var raw [][][]any
	fatal(json.Unmarshal([]byte(s), &raw))
	for _, p := range raw {
		var calls []progCall
		for _, c := range p {
			pc := progCall{op: c[0].(string)}
			if pc.op == "merge" {
				pc.list = int(c[1].(float64))
			}
			calls = append(calls, pc)
		}
		out = append(out, calls)
	}
	return
}

const blockedAfter = 1500 * time.Microsecond

// forced runs the programs as the schedule says
func forced(n int, programs [][]progCall, sched []int, b *bench) *History {
	h := &History{ID: n, KS: b.ks, Kind: b.kind, Sched: sched, Ev: []Event{}, Init: [][2]string{}}
	r := &histRec{h: h}
	g := &gates{events: make(chan gateEvent, len(programs)*2)}
	for range programs {
		g.grant = append(g.grant, make(chan struct{}, 1))
	}
	b.begin(g)
	protect(r, func() {
		doAdd(r, 0, b, 1, strings.NewReader(b.text(1)))
		doMerge(r, 0, b, concList(2))
	})
	sheet := 1
	for i, prog := range programs {
		var numbers []int // of the sheets
		for _, c := range prog {
			if c.op != "merge" {
				sheet++
			}
			numbers = append(numbers, sheet)
		}
		go func() {
			g.ids.Store(goid(), i)
			protect(r, func() {
				for j, c := range prog {
					g.pass()
					switch c.op {
					case "merge":
						doMerge(r, i+1, b, concList(c.list))
					case "add":
						doAdd(r, i+1, b, numbers[j], &gateReader{g: g, data: b.text(numbers[j])})
					case "fail":
						t := b.text(numbers[j])
						doAdd(r, i+1, b, numbers[j], &gateReader{g: g, data: t[:len(t)*2/3], fail: true})
					}
				}
			})
			g.events <- gateEvent{i, true}
		}()
	}
	const (
		running = iota
		atGate
		finished
	)
	state := make([]int, len(programs))
	take := func(e gateEvent) {
		if e.done {
			state[e.p] = finished
		} else {
			state[e.p] = atGate
		}
	}
	for range programs { // everybody comes to the first gate
		take(<-g.events)
	}
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	// go lets p go on until its next gate, its end, or until it seems to be blocked
	goOn := func(p int) {
		if state[p] != atGate {
			return
		}
		state[p] = running
		g.grant[p] <- struct{}{}
		timer.Reset(blockedAfter)
		for state[p] == running {
			select {
			case e := <-g.events:
				take(e)
			case <-timer.C:
				return
			}
		}
	}
	for _, p := range sched {
		for more := true; more; {
			select {
			case e := <-g.events:
				take(e)
			default:
				more = false
			}
		}
		goOn(p - 1)
	}
	// let all of them end
	deadline := time.NewTimer(callTimeout)
	defer deadline.Stop()
	for left := true; left; {
		left = false
		moved := false
		for p := range state {
			if state[p] == atGate {
				goOn(p)
				moved = true
			}
		}
		for p := range state {
			left = left || state[p] != finished
		}
		if left && !moved {
			select {
			case e := <-g.events:
				take(e)
			case <-deadline.C:
				r.crash("a call did not return within " + callTimeout.String())
				return r.snapshot()
			}
		}
	}
	g.open.Store(true)
	fin := make(chan struct{})
	go func() {
		protect(r, func() {
			for l := 1; l <= 3; l++ {
				doMerge(r, 0, b, concList(l))
			}
		})
		close(fin)
	}()
	select {
	case <-fin:
	case <-time.After(callTimeout):
		r.crash("a call did not return within " + callTimeout.String())
	}
	return r.snapshot()
}

// inParallel makes histories, many at a time, and emits them in order; it stops at a crash
func inParallel(n, workers int, kinds []string, mk func(i int, b *bench) *History, emit func(*History)) {
	slots := make([]chan *History, n)
	for i := range slots {
		slots[i] = make(chan *History, 1)
	}
	var next, stop atomic.Int64
	for w := 0; w < workers; w++ {
		go func() {
			var b *bench
			made := w
			for stop.Load() == 0 {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if kinds != nil && (b == nil || b.used >= 200) {
					b = newBench(made%3 != 2, kinds[made%len(kinds)], int64(made))
					made += workers + 1
				}
				slots[i] <- mk(i, b)
			}
		}()
	}
	for i := 0; i < n; i++ {
		h := <-slots[i]
		emit(h)
		if h.Crash != "" {
			stop.Store(1)
			return
		}
	}
}

// schedules replays schedules of the specification; the file has one per line, as JSON arrays
func schedules(programs, file string, limit int, seed int64, emit func(*History)) {
	progs := parsePrograms(programs)
	b, err := os.ReadFile(file)
	fatal(err)
	var scheds [][]int
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var s []int
		fatal(json.Unmarshal([]byte(l), &s))
		scheds = append(scheds, s)
	}
	if limit > 0 && len(scheds) > limit {
		rng := rand.New(rand.NewSource(seed))
		rng.Shuffle(len(scheds), func(i, j int) { scheds[i], scheds[j] = scheds[j], scheds[i] })
		scheds = scheds[:limit]
	}
	inParallel(len(scheds), 48, []string{"simple", "map"}, func(i int, b *bench) *History {
		return forced(i+1, progs, scheds[i], b)
	}, emit)
}

// randomSchedules makes larger programs and random schedules
func randomSchedules(n int, seed int64, emit func(*History)) {
	inParallel(n, 48, []string{"simple", "map", "lossy"}, func(i int, b *bench) *History {
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		adds := 0
		var progs [][]progCall
		total := 0
		for p := 0; p < 2+rng.Intn(3); p++ {
			var prog []progCall
			for c := 0; c < 1+rng.Intn(4); c++ {
				switch k := rng.Intn(10); {
				case k < 3 && adds < maxSheets-1:
					adds++
					op := "add"
					if rng.Intn(4) == 0 {
						op = "fail"
					}
					prog = append(prog, progCall{op: op})
				default:
					prog = append(prog, progCall{op: "merge", list: 1 + rng.Intn(3)})
				}
				total += 4
			}
			progs = append(progs, prog)
		}
		var sched []int
		for len(sched) < total {
			p := 1 + rng.Intn(len(progs))
			for k := 1 + rng.Intn(4); k > 0; k-- {
				sched = append(sched, p)
			}
		}
		return forced(i+1, progs, sched, b)
	}, emit)
}

// ---- free running threads

func stress(n int, seed int64, emit func(*History)) {
	inParallel(n, 3, []string{"simple", "none", "map", "lossy"}, func(i int, b *bench) *History {
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		h := &History{ID: i + 1, KS: b.ks, Kind: b.kind, Ev: []Event{}, Init: [][2]string{}}
		r := &histRec{h: h}
		b.begin(nil)
		protect(r, func() { doAdd(r, 0, b, 1, strings.NewReader(b.text(1))) })
		var wg sync.WaitGroup
		start := make(chan struct{})
		workers := 3 + rng.Intn(4)
		sheet := 1
		for w := 0; w < workers; w++ {
			type op struct {
				progCall
				sheet int
				yield int
			}
			var ops []op
			for k := 0; k < 3+rng.Intn(4); k++ {
				o := op{yield: rng.Intn(4)}
				switch {
				case rng.Intn(4) == 0 && sheet < maxSheets:
					sheet++
					o.op, o.sheet = "add", sheet
					if rng.Intn(4) == 0 {
						o.op = "fail"
					}
				default:
					o.op, o.list = "merge", 1+rng.Intn(3)
				}
				ops = append(ops, o)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				protect(r, func() {
					for _, o := range ops {
						for y := 0; y < o.yield; y++ {
							runtime.Gosched()
						}
						switch o.op {
						case "merge":
							doMerge(r, w+1, b, concList(o.list))
						case "add":
							doAdd(r, w+1, b, o.sheet, strings.NewReader(b.text(o.sheet)))
						case "fail":
							t := b.text(o.sheet)
							doAdd(r, w+1, b, o.sheet, &pieceReader{data: []byte(t), failAt: len(t) * 2 / 3})
						}
					}
				})
			}()
		}
		close(start)
		fin := make(chan struct{})
		go func() {
			wg.Wait()
			protect(r, func() {
				for l := 1; l <= 3; l++ {
					doMerge(r, 0, b, concList(l))
				}
			})
			close(fin)
		}()
		select {
		case <-fin:
		case <-time.After(callTimeout):
			r.crash("a call did not return within " + callTimeout.String())
		}
		return r.snapshot()
	}, emit)
}

// ---- the built-in cache

func cacheStress(n int, seed int64, emit func(*History)) {
	var words []string
	for i := 0; i < 60; i++ {
		words = append(words, fmt.Sprintf("%c%c%d", 'a'+i%26, 'a'+i*7%26, i))
	}
	pairs := colliding(rand.New(rand.NewSource(seed)), words)
	long := strings.Repeat("p-4 ", 700)
	pairs = append(pairs, [2]string{long + "1" + long, long + "2" + long}, [2]string{long + "1", long + "2"}, [2]string{"1" + long, "2" + long})
	inParallel(n, 3, nil, func(i int, _ *bench) *History {
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		h := &History{ID: i + 1, Kind: "simple", Ev: []Event{}, Init: [][2]string{}}
		r := &histRec{h: h}
		c := merge.NewCache()
		pool := []string{"a", "a ", " a", "b", "", "a b", "b a", "A", "a\x00", "a\tb", "é", "e\u0301", strings.Repeat("x ", 3000), strings.Repeat("x ", 3000) + "y", strings.Repeat("y ", 40000), "\xff", "\xfe"}
		name := func(k string) string { // in the record
			if len(k) > 40 {
				return fmt.Sprintf("%q... of %d bytes, SHA-1 %x", k[:10], len(k), sha1.Sum([]byte(k)))
			}
			return fmt.Sprintf("%q", k)
		}
		keys := sample(rng, pool, 3+rng.Intn(3))
		if i%10 == 0 { // keys that collide under the usual hashes, or in most of their characters
			keys = nil
			for _, k := range rng.Perm(len(pairs))[:2] {
				keys = append(keys, pairs[k][:]...)
			}
		}
		prefill := 0
		switch k := rng.Intn(300); {
		case k < 100:
			prefill = 300
		case k < 200:
			prefill = 3000
		case k == 200:
			prefill = 200000
		}
		protect(r, func() {
			for k := 0; k < prefill; k++ {
				c.Set(fmt.Sprintf("key %d", k), "old")
			}
			// a generation of the sync.Map that has been read
			for k := 0; k < prefill; k += 7 {
				c.Get(fmt.Sprintf("key %d", k))
			}
		})
		if prefill > 0 {
			keys = nil
			for _, k := range []int{0, prefill / 4, prefill / 2, prefill - 1} {
				keys = append(keys, fmt.Sprintf("key %d", k))
			}
		}
		rng.Shuffle(len(keys), func(a, b int) { keys[a], keys[b] = keys[b], keys[a] })
		for _, k := range keys {
			if prefill > 0 {
				h.Init = append(h.Init, [2]string{name(k), "old"})
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		workers := 2 + rng.Intn(4)
		for w := 0; w < workers; w++ {
			var ops []Event
			var opKeys []string
			for k := 0; k < 4+rng.Intn(6); k++ {
				key := keys[rng.Intn(len(keys))]
				opKeys = append(opKeys, key)
				switch x := rng.Intn(10); {
				case x < 2 && (prefill == 0 || w == 0):
					ops = append(ops, Event{"op": "clear"})
				case x < 5 || x == 5 && w == 1:
					ops = append(ops, Event{"op": "set", "key": name(key), "val": []string{fmt.Sprintf("%d.%d", w, k), ""}[rng.Intn(20)/19]})
				default:
					ops = append(ops, Event{"op": "get", "key": name(key), "ok": false, "val": ""})
				}
			}
			yields := rng.Intn(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				protect(r, func() {
					for k, o := range ops {
						for y := 0; y < yields; y++ {
							runtime.Gosched()
						}
						e := r.call(w+1, o)
						switch o["op"] {
						case "clear":
							c.Clear()
							r.ret(w+1, e, func(Event) {})
						case "set":
							c.Set(opKeys[k], o["val"].(string))
							r.ret(w+1, e, func(Event) {})
						default:
							v, ok := c.Get(opKeys[k])
							r.ret(w+1, e, func(e Event) { e["ok"], e["val"] = ok, v })
						}
					}
				})
			}()
		}
		close(start)
		fin := make(chan struct{})
		go func() {
			wg.Wait()
			protect(r, func() {
				sort.Strings(keys)
				for _, k := range keys {
					e := r.call(0, Event{"op": "get", "key": name(k), "ok": false, "val": ""})
					v, ok := c.Get(k)
					r.ret(0, e, func(e Event) { e["ok"], e["val"] = ok, v })
				}
			})
			close(fin)
		}()
		select {
		case <-fin:
		case <-time.After(callTimeout):
			r.crash("a call did not return within " + callTimeout.String())
		}
		return r.snapshot()
	}, emit)
}

func writeSheets(file string) {
	sheets, _ := concSheets()
	b, err := json.Marshal(sheets)
	fatal(err)
	fatal(os.WriteFile(file, b, 0o644))
}
