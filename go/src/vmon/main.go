package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"iter"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one failed case. ID names the specific case; a pinned case (one listed in known_findings.txt) has a
// name of its own, all others are suite#index.
type Violation struct {
	ID    string `json:"id"`
	Suite string `json:"suite"`
	Index int    `json:"index"`
	What  string `json:"what"`
	Case  string `json:"case"`
}

type Result struct {
	Prop       string           `json:"prop"`
	Done       bool             `json:"done"`
	Cases      int64            `json:"cases"`
	Distinct   []string         `json:"distinct"`
	DistinctN  int              `json:"distinct_n"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Suppressed int64            `json:"suppressed"`
}

type Run struct {
	prop, tier string
	seed       uint64
	shard, of  int
	only       string // replay: suite
	onlyIdx    int
	status     *os.File
	mu         sync.Mutex
	res        Result
	distinct   map[uint64]struct{}
	perSuite   map[string]int
	samplesBy  map[string]int
	cur        atomic.Value // string
	ticks      int64
	limit      int64
	out        string
	notes      []string
}

type T struct {
	run    *Run
	Suite  string
	Idx    int
	R      *Rng
	desc   func() string
	id     string
	fails  int
	mu     sync.Mutex
	pinWhy string
	turn   func()
}

func (r *Run) thorough() bool { return r.tier == "thorough" }

// N picks the number of cases by tier.
func (r *Run) N(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	switch r.prop {
	case "C17", "C18", "C19", "C20", "C27", "C28", "C29", "C31", "C32":
		return quick // these take their time
	}
	if n := 5 * quick; quick < thorough && n < thorough {
		return n
	} else if quick < thorough {
		return thorough
	}
	return quick
}

func (r *Run) skip(suite string, idx int) bool {
	if r.only != "" {
		return !(suite == r.only && (r.onlyIdx < 0 || idx == r.onlyIdx))
	}
	if r.of > 1 {
		h := hashStr(1469598103934665603, suite) + uint64(idx)*0x9E3779B97F4A7C15
		return int((h>>20)%uint64(r.of)) != r.shard
	}
	return false
}

// Cases runs n cases of a suite.
func (r *Run) Cases(suite string, n int, f func(t *T)) {
	for i := 0; i < n; i++ {
		r.Case(suite, i, f)
	}
}

func (r *Run) tooMany(suite string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := len(r.res.Violations)
	// what hangs takes its time: no need to see it again and again
	return r.perSuite[suite] >= 8 || n >= 60 || n > 0 && r.tier != "thorough" && time.Since(started) > 100*time.Second
}

func (r *Run) Case(suite string, idx int, f func(t *T)) {
	if r.skip(suite, idx) || r.tooMany(suite) {
		return
	}
	t := &T{run: r, Suite: suite, Idx: idx, R: caseRng(r.seed, suite, idx)}
	name := fmt.Sprintf("%s#%d", suite, idx)
	r.cur.Store(name)
	atomic.StoreInt64(&r.ticks, 0)
	if r.status != nil {
		b := make([]byte, 200)
		copy(b, name)
		r.status.WriteAt(b, 0)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if s, ok := e.(stepLimit); ok {
					t.Fail("endless loop: %s", string(s))
					return
				}
				t.Fail("panic: %v\n%s", e, trimStack(string(debug.Stack())))
			}
		}()
		f(t)
	}()
	r.mu.Lock()
	r.res.Cases++
	r.mu.Unlock()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines) && len(out) < 14; i++ {
		l := strings.TrimSpace(lines[i])
		if strings.Contains(l, "/thrift/") || strings.Contains(l, "/simple/") || strings.HasPrefix(l, "thrift.") || strings.Contains(l, "vmon/") {
			out = append(out, l)
		}
	}
	return strings.Join(out, " | ")
}

// Desc says how to print the case if it fails.
func (t *T) Desc(f func() string) { t.desc = f }

// Turn lets the other parts of a case that was started with Together go on.
func (t *T) Turn() {
	if t.turn != nil {
		t.turn()
	}
}

// Together runs several parts of one case in turns, a part at a time up to its next call of Turn.
func (t *T) Together(fs ...func()) {
	type part struct {
		next func() (struct{}, bool)
		turn func()
		desc func() string
	}
	var ps []*part
	for _, f := range fs {
		f, p := f, new(part)
		p.next, _ = iter.Pull(func(yield func(struct{}) bool) {
			p.turn = func() { yield(struct{}{}) }
			t.turn = p.turn
			f()
		})
		ps = append(ps, p)
	}
	all := append([]*part(nil), ps...)
	for len(ps) > 0 {
		i := t.R.Intn(len(ps))
		p := ps[i]
		t.turn, t.desc = p.turn, p.desc
		_, more := p.next()
		p.desc = t.desc
		if !more {
			ps = append(ps[:i], ps[i+1:]...)
		}
	}
	t.turn = nil
	t.desc = func() string {
		var l []string
		for _, p := range all {
			if p.desc != nil {
				l = append(l, p.desc())
			}
		}
		return strings.Join(l, " || ")
	}
}

// Pin gives the case a stable identity of its own, so that it can be listed as a known finding.
func (t *T) Pin(id string) { t.id = id }

func (t *T) Failed() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.fails > 0 }

func (t *T) Fail(format string, args ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.fails++
	if t.fails > 1 {
		return
	}
	d := ""
	if t.desc != nil {
		func() {
			defer func() { recover() }()
			d = t.desc()
		}()
	}
	if len(d) > 3000 {
		d = d[:3000] + "..."
	}
	what := fmt.Sprintf(format, args...)
	if len(what) > 4000 {
		what = what[:4000] + "..."
	}
	id := t.id
	if id == "" {
		id = fmt.Sprintf("%s#%d", t.Suite, t.Idx)
	}
	t.run.mu.Lock()
	t.run.perSuite[t.Suite]++
	t.run.res.Violations = append(t.run.res.Violations, Violation{ID: id, Suite: t.Suite, Index: t.Idx, What: what, Case: d})
	t.run.mu.Unlock()
}

// Seen records one distinct observation (a structure, a schedule, a fault point...) that the monitors judged.
func (t *T) Seen(h uint64) {
	t.run.mu.Lock()
	t.run.distinct[h^hashStr(1469598103934665603, t.Suite)] = struct{}{}
	t.run.mu.Unlock()
}

func (t *T) Count(k string, n int) { t.run.Count(k, n) }

func (r *Run) Count(k string, n int) {
	r.mu.Lock()
	r.res.Counters[k] += int64(n)
	r.mu.Unlock()
}

func (t *T) Sample(format string, args ...interface{}) {
	r := t.run
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.samplesBy[t.Suite] >= 1 {
		return
	}
	r.samplesBy[t.Suite]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	r.res.Samples = append(r.res.Samples, t.Suite+": "+s)
}

func (r *Run) write(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.Prop = r.prop
	r.res.DistinctN = len(r.distinct)
	r.res.Distinct = nil
	for h := range r.distinct {
		r.res.Distinct = append(r.res.Distinct, fmt.Sprintf("%x", h))
		if len(r.res.Distinct) >= 400000 {
			break
		}
	}
	sort.Strings(r.res.Distinct)
	b, _ := json.Marshal(&r.res)
	os.WriteFile(r.out, b, 0644)
}

func rssMB() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, rss int64
	fmt.Sscan(string(b), &a, &rss)
	return rss * int64(os.Getpagesize()) >> 20
}

func (r *Run) watchdog() {
	for {
		time.Sleep(time.Second)
		n := atomic.AddInt64(&r.ticks, 1)
		rss := rssMB()
		if n < atomic.LoadInt64(&r.limit) && rss < 3000 {
			continue
		}
		name, _ := r.cur.Load().(string)
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		what := fmt.Sprintf("the case did not finish within %d seconds", n)
		if rss >= 3000 {
			what = fmt.Sprintf("the case uses %d MB of memory", rss)
		}
		suite, idx := name, 0
		if k := strings.LastIndex(name, "#"); k >= 0 {
			suite = name[:k]
			fmt.Sscan(name[k+1:], &idx)
		}
		r.mu.Lock()
		r.res.Violations = append(r.res.Violations, Violation{ID: name, Suite: suite, Index: idx, What: what, Case: hangStacks(string(buf))})
		r.mu.Unlock()
		r.write(true)
		os.Exit(0)
	}
}

func hangStacks(s string) string {
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "/thrift/") || strings.Contains(g, "/simple/") {
			keep = append(keep, g)
		}
		if len(keep) >= 6 {
			break
		}
	}
	s = strings.Join(keep, "\n\n")
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

var started = time.Now()

var props = map[string]func(r *Run){}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	status := flag.String("status", "", "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	only := flag.String("only", "", "suite to replay")
	onlyIdx := flag.Int("index", -1, "")
	limit := flag.Int64("limit", 120, "")
	flag.Parse()
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	r := &Run{prop: *prop, tier: *tier, seed: *seed, shard: *shard, of: *of, only: *only, onlyIdx: *onlyIdx, out: *out, limit: *limit,
		distinct: map[uint64]struct{}{}, perSuite: map[string]int{}, samplesBy: map[string]int{}}
	r.res.Counters = map[string]int64{}
	if *status != "" {
		r.status, _ = os.OpenFile(*status, os.O_CREATE|os.O_RDWR, 0644)
	}
	debug.SetMaxStack(256 << 20)
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
		lim.Cur = lim.Max
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	}
	r.cur.Store("start#0")
	go r.watchdog()
	f(r)
	r.write(true)
}
