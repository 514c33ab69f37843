package main

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
)

// ---- sequential model of the LRU cache ----

type lruEnt struct {
	key, val, used int
	lo, hi         int64 // bounds of the expiry instant (monotonic ns)
}

type lruState struct {
	ents []lruEnt // most recent first
}

func (s lruState) find(k int) int {
	for i, e := range s.ents {
		if e.key == k {
			return i
		}
	}
	return -1
}

func (s lruState) without(i int) lruState {
	n := make([]lruEnt, 0, len(s.ents))
	n = append(n, s.ents[:i]...)
	return lruState{append(n, s.ents[i+1:]...)}
}

func (s lruState) front(e lruEnt) lruState {
	n := make([]lruEnt, 0, len(s.ents)+1)
	n = append(n, e)
	return lruState{append(n, s.ents...)}
}

type lruIn struct {
	kind   string // get, mget, set, mset, del
	keys   []int
	vals   []int
	ttl    time.Duration
	t0, t1 int64 // monotonic clock at call and return
}

type lruOut struct {
	vals []int
	oks  []bool
	bad  string // anything unexpected: error, wrong length
}

type lruModel struct{ cap, max int }

func satAdd(a int64, d time.Duration) int64 {
	s := a + int64(d)
	if d > 0 && s < a {
		return 1<<63 - 1
	}
	return s
}

// get applies a lookup with a known result; ok is false if the result is impossible.
func (m lruModel) get(s lruState, k, v int, hit bool, t0, t1 int64) (lruState, bool) {
	i := s.find(k)
	if i < 0 {
		return s, !hit && v == 0
	}
	e := s.ents[i]
	rest := s.without(i)
	if m.max > 0 && e.used >= m.max {
		return rest, !hit && v == 0
	}
	if hit {
		if t0 > e.hi || v != e.val { // certainly expired
			return s, false
		}
		e.used++
		return rest.front(e), true
	}
	if t1 < e.lo || v != 0 { // certainly alive
		return s, false
	}
	return rest, true
}

func (m lruModel) set(s lruState, k, v int, ttl time.Duration, t0, t1 int64) lruState {
	if i := s.find(k); i >= 0 {
		s = s.without(i)
	}
	s = s.front(lruEnt{k, v, 0, satAdd(t0, ttl), satAdd(t1, ttl)})
	if len(s.ents) > m.cap {
		s.ents = s.ents[:m.cap]
	}
	return s
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

var permTable = [][][]int{perms(0), perms(1), perms(2), perms(3), perms(4)}

func (m lruModel) step(s lruState, in lruIn, out lruOut) []lruState {
	if out.bad != "" {
		return nil
	}
	switch in.kind {
	case "get", "mget":
		for i, k := range in.keys {
			var ok bool
			if s, ok = m.get(s, k, out.vals[i], out.oks[i], in.t0, in.t1); !ok {
				return nil
			}
		}
		return []lruState{s}
	case "set":
		return []lruState{m.set(s, in.keys[0], in.vals[0], in.ttl, in.t0, in.t1)}
	case "mset":
		var res []lruState
		seen := map[string]bool{}
		for _, p := range permTable[len(in.keys)] {
			n := s
			for _, i := range p {
				n = m.set(n, in.keys[i], in.vals[i], in.ttl, in.t0, in.t1)
			}
			if k := n.String(); !seen[k] {
				seen[k] = true
				res = append(res, n)
			}
		}
		return res
	case "del":
		for _, k := range in.keys {
			if i := s.find(k); i >= 0 {
				s = s.without(i)
			}
		}
		return []lruState{s}
	}
	return nil
}

func (s lruState) String() string {
	var b strings.Builder
	for _, e := range s.ents {
		fmt.Fprintf(&b, "%d=%d/%d/%d/%d;", e.key, e.val, e.used, e.lo, e.hi)
	}
	return b.String()
}

func (m lruModel) model() Model {
	return Model{
		Init: lruState{},
		Key:  func(s any) string { return s.(lruState).String() },
		Step: func(s any, op *Op) []any {
			var r []any
			for _, n := range m.step(s.(lruState), op.In.(lruIn), op.Out.(lruOut)) {
				r = append(r, n)
			}
			return r
		},
	}
}

// lruAPI hides the key and value types.
type lruAPI struct {
	get  func(k int) (int, bool, error)
	mget func(ks []int) ([]int, []bool, error)
	set  func(k, v int, ttl time.Duration) error
	mset func(ks, vs []int, ttl time.Duration) error
	del  func(ks []int) error
}

func adaptCache[K comparable, V any](c cachex.Cache[K, V], kt func(int) K, vt func(int) V, vf func(V) int) lruAPI {
	ctx := context.Background()
	conv := func(ks []int) []K {
		out := make([]K, len(ks))
		for i, k := range ks {
			out[i] = kt(k)
		}
		return out
	}
	return lruAPI{
		get: func(k int) (int, bool, error) {
			v, ok, err := c.Get(ctx, kt(k))
			return vf(v), ok, err
		},
		mget: func(ks []int) ([]int, []bool, error) {
			vs, oks, err := c.MGet(ctx, conv(ks)...)
			var out []int
			for _, v := range vs {
				out = append(out, vf(v))
			}
			return out, oks, err
		},
		set: func(k, v int, ttl time.Duration) error { return c.Set(ctx, kt(k), vt(v), ttl) },
		mset: func(ks, vs []int, ttl time.Duration) error {
			m := make(map[K]V, len(ks))
			for i, k := range ks {
				m[kt(k)] = vt(vs[i])
			}
			return c.MSet(ctx, m, ttl)
		},
		del: func(ks []int) error { return c.Delete(ctx, conv(ks)...) },
	}
}

func newLRU(kind, cap, max int) lruAPI {
	id := func(i int) int { return i }
	switch kind {
	case 1:
		return adaptCache[string, *int](cachex.NewLRUCacheV2[string, *int](cap, max), func(i int) string { return fmt.Sprint("key", i) },
			func(i int) *int { return &i }, func(p *int) int {
				if p == nil {
					return 0
				}
				return *p
			})
	case 2:
		return adaptCache[any, any](cachex.NewLRUCacheV2[any, any](cap, max), func(i int) any {
			switch i % 3 {
			case 0:
				return i / 3
			case 1:
				return fmt.Sprint(i / 3)
			}
			return int64(i / 3)
		}, func(i int) any { return i }, func(v any) int {
			if v == nil {
				return 0
			}
			return v.(int)
		})
	}
	return adaptCache[int, int](cachex.NewLRUCacheV2[int, int](cap, max), id, id, id)
}

func (a *lruAPI) do(in *lruIn) lruOut {
	var out lruOut
	var err error
	in.t0 = runtime.SimMono()
	switch in.kind {
	case "get":
		v, ok, e := a.get(in.keys[0])
		out.vals, out.oks, err = []int{v}, []bool{ok}, e
	case "mget":
		out.vals, out.oks, err = a.mget(in.keys)
		if len(out.vals) != len(in.keys) || len(out.oks) != len(in.keys) {
			out.bad = fmt.Sprintf("MGet of %d keys returned %d values and %d flags", len(in.keys), len(out.vals), len(out.oks))
		}
	case "set":
		err = a.set(in.keys[0], in.vals[0], in.ttl)
	case "mset":
		err = a.mset(in.keys, in.vals, in.ttl)
	case "del":
		err = a.del(in.keys)
	}
	in.t1 = runtime.SimMono()
	if err != nil {
		out.bad = "unexpected error " + err.Error()
	}
	return out
}

func descLRU(in lruIn, out lruOut) string {
	s := fmt.Sprintf("%s %v", in.kind, in.keys)
	if len(in.vals) > 0 {
		s += fmt.Sprintf("=%v ttl %v", in.vals, in.ttl)
	}
	if in.kind == "get" || in.kind == "mget" {
		s += fmt.Sprintf(" -> %v %v", out.vals, out.oks)
	}
	return s + fmt.Sprintf(" at %v", time.Duration(in.t1)) + " " + out.bad
}

func genLRU(r *R, keys int, val *int, ttls []time.Duration, mix []int) lruIn {
	in := lruIn{kind: []string{"get", "set", "mget", "mset", "del"}[r.Pick(mix...)]}
	n := 1
	switch in.kind {
	case "mget":
		n = r.Choose(4)
		if n == 0 && r.Choose(4) != 3 {
			n = 2
		}
	case "mset":
		n = r.Range(1, 3)
	case "del":
		n = r.Pick(1, 6, 2, 1)
	}
	if in.kind != "mset" && n > 1 && r.Choose(30) == 29 {
		n = r.Range(4, 14)
	}
	for i := 0; i < n; i++ {
		k := r.Choose(keys)
		if in.kind == "mset" {
			dup := false
			for _, x := range in.keys {
				dup = dup || x == k
			}
			if dup {
				continue
			}
		}
		in.keys = append(in.keys, k)
	}
	if in.kind == "set" || in.kind == "mset" {
		in.ttl = ttls[r.Choose(len(ttls))]
		for range in.keys {
			*val++
			v := *val
			if r.Choose(12) == 11 {
				v = 0 // the zero value is a value
			}
			in.vals = append(in.vals, v)
		}
	}
	return in
}

type lruRec struct {
	client    int
	in        lruIn
	out       lruOut
	call, ret uint64
}

var lruMixes = [][]int{{4, 4, 3, 3, 1}, {6, 4, 1, 1, 1}, {2, 1, 5, 4, 1}, {3, 3, 0, 0, 2}, {1, 5, 1, 2, 3}}

const day = 24 * time.Hour

func init() {
	register("L01", &Scenario{Name: "concurrent", Race: true, MaxSteps: 40000, Run: func(r *R) {
		m := lruModel{cap: r.Range(1, 4), max: r.Pick(5, 2, 2, 1)}
		api := newLRU(r.Choose(3), m.cap, m.max)
		keys := r.Range(1, 5)
		ttls := []time.Duration{time.Hour, time.Hour, time.Minute, 20 * time.Millisecond}
		mix := lruMixes[r.Choose(len(lruMixes))]
		log := NewLog[lruRec](64)
		val := 0
		exec := func(c int, in lruIn) {
			call := stamp()
			i := log.Add(lruRec{client: c, in: in, call: call, ret: pending})
			r.Yield()
			out := api.do(&in)
			r.Yield()
			log.Set(i, lruRec{c, in, out, call, stamp()})
		}
		for i, n := 0, r.Choose(5); i < n; i++ {
			exec(0, genLRU(r, keys, &val, ttls, lruMixes[4]))
		}
		clients, per := r.Range(2, 4), r.Range(1, 3)
		for c := 1; c <= clients; c++ {
			c := c
			var plan []lruIn
			var sleeps []time.Duration
			for i := 0; i < per; i++ {
				plan = append(plan, genLRU(r, keys, &val, ttls, mix))
				var d time.Duration
				if r.Choose(12) == 11 {
					d = time.Duration(r.Range(1, 30)) * time.Millisecond
				}
				sleeps = append(sleeps, d)
			}
			r.Go(fmt.Sprintf("client %d", c), 1, func() {
				for i, in := range plan {
					if sleeps[i] > 0 {
						time.Sleep(sleeps[i])
					}
					exec(c, in)
				}
			})
		}
		if !r.Join() {
			return
		}
		all := make([]int, keys)
		for i := range all {
			all[i] = i
		}
		exec(0, lruIn{kind: "mget", keys: all})
		var ops []*Op
		for _, x := range log.All() {
			ops = append(ops, &Op{Client: x.client, Call: x.call, Ret: x.ret, In: x.in, Out: x.out, Desc: descLRU(x.in, x.out)})
		}
		if overlaps(ops) {
			r.NonTriv()
		}
		r.Logf("capacity %d, usage limit %d\n%s", m.cap, m.max, describeOps(ops))
		ok, inc := linearizable(ops, m.model())
		if inc {
			r.Probe("linearizability search abandoned")
		}
		if !ok {
			r.Fail("linearizability", "no one-at-a-time order of the calls explains the results of the cache")
		}
	}})

	register("L02", &Scenario{Name: "history", Race: false, Seq: true, Weight: 8000, MaxSteps: 200000, Run: func(r *R) {
		m := lruModel{cap: r.Range(1, 5), max: r.Pick(4, 1, 2, 2)}
		if r.Choose(12) == 11 {
			m.cap = r.Range(6, 40)
		}
		if r.Choose(400) == 399 {
			refused := func(capacity int) (ok bool) {
				defer func() { ok = recover() != nil }()
				newLRU(0, capacity, m.max)
				return false
			}
			for _, c := range []int{0, -1, -m.cap} {
				if !refused(c) {
					r.Fail("lru-capacity", "a cache of capacity %d was created", c)
					return
				}
			}
			r.Probe("capacity refused")
		}
		api := newLRU(r.Choose(3), m.cap, m.max)
		keys := r.Range(1, m.cap+3)
		if m.cap > 5 {
			keys = m.cap + r.Choose(10)
		}
		runtime.SimSetJumpP(0)
		runtime.SimSetStepCost([]int64{0, 0, 7, 1000}[r.Choose(4)])
		var ttls []time.Duration
		switch r.Choose(4) {
		case 0:
			ttls = []time.Duration{time.Hour}
		case 1:
			ttls = []time.Duration{time.Hour, 10 * time.Millisecond, 20 * time.Millisecond}
		case 2:
			ttls = []time.Duration{5 * time.Millisecond, 10 * time.Millisecond, 15 * time.Millisecond}
		case 3:
			ttls = []time.Duration{time.Hour, 36500 * day, 1<<63 - 1, time.Nanosecond, 0, -time.Second, 10 * time.Millisecond, 3 * time.Second}
		}
		mix := lruMixes[r.Choose(len(lruMixes))]
		wall := r.Choose(2) == 1
		states := []lruState{{}}
		n := r.Range(5, 60)
		val := 0
		jumped := false
		for i := 0; i < n; i++ {
			switch r.Pick(8, 2, 1, 1) {
			case 1:
				runtime.SimAdvance(int64(r.Choose(6)) * 5e6)
			case 2:
				runtime.SimAdvance(int64(r.Choose(5)) * 1e9)
			case 3:
				if wall {
					// The wall clock jumps; elapsed time does not.
					d := []time.Duration{time.Second, -time.Second, day, -day, 400 * day, -10 * time.Millisecond, 10 * time.Millisecond}[r.Choose(7)]
					runtime.SimWallJump(int64(d))
					jumped = true
					r.Probe("fault: wall clock jump")
				}
			}
			in := genLRU(r, keys, &val, ttls, mix)
			if jumped && in.ttl == 1<<63-1 {
				in.ttl = 36500 * day // the standard library falls back to wall time beyond the range of its monotonic clock
			}
			out := api.do(&in)
			r.Logf("%s", descLRU(in, out))
			next := map[string]lruState{}
			for _, s := range states {
				for _, t := range m.step(s, in, out) {
					next[t.String()] = t
				}
			}
			if len(next) == 0 {
				cls := "lru-model"
				if out.bad != "" {
					cls = "lru-result"
				}
				var exp []string
				for _, s := range states {
					exp = append(exp, s.String())
				}
				r.Fail(cls, "operation %d contradicts the model: %s\npossible contents before it (key=value/uses/expiry from/to, most recent first): %v", i, descLRU(in, out), exp)
				return
			}
			ks := make([]string, 0, len(next))
			for k := range next {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			states = states[:0]
			for _, k := range ks {
				states = append(states, next[k])
				if len(states) > 200 {
					return
				}
			}
		}
		r.NonTriv()
	}})
}
