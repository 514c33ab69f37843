package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// A Scenario is a workload with its oracle. Run executes as the first
// simulated goroutine; everything it does is decided by the run's tape.
type Scenario struct {
	Name     string
	Race     bool   // also meaningful under the race detector
	Weight   int    // share of the runs of its property (default 1)
	MaxSteps uint64 // scheduling points before the fair phase (default 20000)
	Strict   bool   // only strategy choice; reserved
	Seq      bool   // single client: no scheduling strategies needed
	Run      func(r *R)
}

var scenarios = map[string][]*Scenario{}

func register(prop string, s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 20000
	}
	scenarios[prop] = append(scenarios[prop], s)
}

// R is one run.
type R struct {
	class   string // violation class, stable under shrinking
	msg     string
	log     []string
	clients [64]*Client
	nc      int
	sync    byte
	mainEnd bool
	nontriv bool
	probes  map[string]int
	pcount  [64]int
	pname   [64]string
	np      int
}

type Client struct {
	Name string
	Dom  uint32
	done bool
}

// Fail records a violation. Only the first one counts.
//
//go:norace
func (r *R) Fail(class, format string, args ...any) {
	if r.class == "" {
		r.class = class
		r.msg = fmt.Sprintf(format, args...)
	}
}

// NonTriv marks the run as exercising real concurrency (or faults).
//
//go:norace
func (r *R) NonTriv() { r.nontriv = true }

//go:norace
func (r *R) Failed() bool { return r.class != "" }

// Logf adds a line to the history shown with a violation. Main goroutine only.
func (r *R) Logf(format string, args ...any) {
	if len(r.log) < 400 {
		r.log = append(r.log, fmt.Sprintf(format, args...))
	}
}

// Probe counts a rare condition. Callable from anywhere.
//
//go:norace
func (r *R) Probe(name string) {
	for i := 0; i < r.np; i++ {
		if r.pname[i] == name {
			r.pcount[i]++
			return
		}
	}
	if r.np < len(r.pname) {
		r.pname[r.np] = name
		r.pcount[r.np] = 1
		r.np++
	}
}

// Choose makes a recorded choice in [0,n); 0 should be the simplest.
func (r *R) Choose(n int) int { return int(runtime.SimChoose(uint32(n))) }

// Range makes a recorded choice in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.Choose(hi-lo+1) }

// Chance is true with probability num/den when generated; false is simplest.
func (r *R) Chance(num, den int) bool { return r.Choose(den) >= den-num }

// Pick chooses an index by weight; index 0 should be the simplest.
func (r *R) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := r.Choose(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Perm is a recorded permutation of 0..n-1.
func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + r.Choose(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Yield is a scheduling point of the harness.
func (r *R) Yield() { runtime.SimYield(0) }

//go:norace
func (c *Client) setDone() { c.done = true }

//go:norace
func (c *Client) Done() bool { return c.done }

// Go starts a client goroutine in domain dom.
func (r *R) Go(name string, dom uint32, f func()) *Client {
	c := &Client{Name: name, Dom: dom}
	r.addClient(c)
	runtime.SimGo(dom, func() {
		runtime.SimYield(0)
		f()
		c.setDone()
		raceRelease(&r.sync)
	})
	return c
}

//go:norace
func (r *R) addClient(c *Client) {
	if r.nc < len(r.clients) {
		r.clients[r.nc] = c
		r.nc++
	}
}

// Publish makes what the calling goroutine wrote visible to main.
func (r *R) Publish() { raceRelease(&r.sync) }

// Settle waits until nothing else in the simulation can run.
func (r *R) Settle() {
	runtime.SimSettle()
	raceAcquire(&r.sync)
}

// Stuck returns the names of clients that have not finished.
func (r *R) Stuck() []string {
	var s []string
	for i := 0; i < r.nc; i++ {
		if !r.clients[i].Done() && !runtime.SimDead(r.clients[i].Dom) {
			s = append(s, r.clients[i].Name)
		}
	}
	return s
}

// Join settles and fails the run if a client is stuck. It reports whether all finished.
func (r *R) Join() bool {
	r.Settle()
	if s := r.Stuck(); len(s) > 0 {
		r.Fail("stuck", "blocked forever: %s\n%s", strings.Join(s, ", "), stacks())
		return false
	}
	return true
}

func stacks() string {
	buf := make([]byte, 32<<10)
	n := runtime.SimStacks(buf)
	return string(buf[:n])
}

// Log is a preallocated append-only list written by simulated goroutines
// without creating races or happens-before edges.
type Log[T any] struct {
	buf []T
	n   int
}

func NewLog[T any](n int) *Log[T] { return &Log[T]{buf: make([]T, n)} }

//go:norace
func (l *Log[T]) Add(v T) int {
	if l.n >= len(l.buf) {
		return -1
	}
	l.buf[l.n] = v
	l.n++
	return l.n - 1
}

//go:norace
func (l *Log[T]) Set(i int, v T) {
	if i >= 0 {
		l.buf[i] = v
	}
}

//go:norace
func (l *Log[T]) Len() int { return l.n }

//go:norace
func (l *Log[T]) All() []T { return l.buf[:l.n] }

// Cell is a counter shared by simulated goroutines without synchronisation.
type Cell struct{ v int }

//go:norace
func (c *Cell) Add(d int) int { c.v += d; return c.v }

//go:norace
func (c *Cell) Get() int { return c.v }

//go:norace
func (c *Cell) Set(v int) { c.v = v }

func stamp() uint64 { return runtime.SimStamp() }

// ---- linearizability ----

const pending = ^uint64(0)

// Op is one operation of a history.
type Op struct {
	Client    int
	Call, Ret uint64 // event numbers; Ret == pending if it never returned
	In, Out   any
	Desc      string
}

// Model is a sequential specification. Step returns the possible next states;
// for a pending operation (out == nil and done == false) every outcome counts.
type Model struct {
	Init any
	Step func(state any, op *Op) []any
	Key  func(state any) string
}

// linearizable searches for a legal sequential order (Wing and Gong, with
// memoisation). ok is false only if no order exists; incomplete reports that
// the search was abandoned.
func linearizable(ops []*Op, m Model) (ok, incomplete bool) {
	n := len(ops)
	if n == 0 {
		return true, false
	}
	if n > 63 {
		return true, true
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	must := uint64(0)
	for i, o := range ops {
		if o.Ret != pending {
			must |= 1 << i
		}
	}
	type mk struct {
		done uint64
		st   string
	}
	seen := map[mk]struct{}{}
	budget := 2000000
	var rec func(done uint64, st any) bool
	rec = func(done uint64, st any) bool {
		if done&must == must {
			return true
		}
		k := mk{done, m.Key(st)}
		if _, dup := seen[k]; dup {
			return false
		}
		seen[k] = struct{}{}
		budget--
		if budget < 0 {
			return true
		}
		minRet := pending
		for i := 0; i < n; i++ {
			if done&(1<<i) == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 {
				continue
			}
			if ops[i].Call > minRet {
				break
			}
			for _, ns := range m.Step(st, ops[i]) {
				if rec(done|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	ok = rec(0, m.Init)
	if budget < 0 {
		return true, true
	}
	return ok, false
}

func describeOps(ops []*Op) string {
	var b strings.Builder
	s := append([]*Op(nil), ops...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Call < s[j].Call })
	for _, o := range s {
		ret := fmt.Sprint(o.Ret)
		if o.Ret == pending {
			ret = "-"
		}
		fmt.Fprintf(&b, "  client %d [%d,%s] %s\n", o.Client, o.Call, ret, o.Desc)
	}
	return b.String()
}

// overlaps reports whether any two operations of different clients overlap.
func overlaps(ops []*Op) bool {
	for i, a := range ops {
		for _, b := range ops[i+1:] {
			if a.Client != b.Client && a.Call < b.Ret && b.Call < a.Ret {
				return true
			}
		}
	}
	return false
}

func runtimeLive(dom uint32) int { return runtime.SimLive(dom) }
