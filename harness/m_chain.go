package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
)

// Chain and the MGet helper over scripted levels.

type chainKey struct{}

type levelCall struct {
	level  int
	client int // from the context; -1 if the context was lost
	kind   string
	keys   []int
	vals   map[int]int
	ttl    time.Duration
	own    time.Duration // the ttl of the level
	err    error
}

const chainKeys = 40 // most runs use the first five only

// fakeLevel is a cache whose contents never change: writes are recorded only.
type fakeLevel struct {
	r      *R
	idx    int
	nk     int
	zero   [chainKeys]bool // the value is the zero value
	has    [chainKeys]bool
	getErr [chainKeys]error
	mget   int // 0 plain, 1 fails without results, 2 fails with results, 3 short results, 4 no results
	short  int
	mErr   error
	setErr error
	mset   error
	del    error
	stall  int
	ttl    time.Duration
	log    *Log[levelCall]
}

func (l *fakeLevel) val(k int) int {
	if l.zero[k] {
		return 0
	}
	return (l.idx+1)*100 + k
}

func (l *fakeLevel) rec(ctx context.Context, c levelCall) {
	c.level = l.idx
	c.own = l.ttl
	c.client = -1
	if ctx != nil {
		if v, ok := ctx.Value(chainKey{}).(int); ok {
			c.client = v
			if d, ok := ctx.Deadline(); ok != (v%2 == 1) || ok && !d.Equal(chainDeadline) || (ctx.Err() != nil) != (v >= 100) {
				c.client = -1
			}
			c.client %= 100
		}
	}
	l.log.Add(c)
	for i := 0; i < l.stall; i++ {
		l.r.Yield()
	}
	if l.stall == 3 {
		time.Sleep(time.Second)
	}
}

func (l *fakeLevel) Get(ctx context.Context, k int) (int, bool, error) {
	l.rec(ctx, levelCall{kind: "get", keys: []int{k}, err: l.getErr[k]})
	if l.getErr[k] != nil {
		return 0, false, l.getErr[k]
	}
	if l.has[k] {
		return l.val(k), true, nil
	}
	return 0, false, nil
}

func (l *fakeLevel) MGet(ctx context.Context, ks ...int) ([]int, []bool, error) {
	c := levelCall{kind: "mget", keys: append([]int(nil), ks...)}
	if l.mget == 1 || l.mget == 2 {
		c.err = l.mErr
	}
	l.rec(ctx, c)
	if l.mget == 1 {
		switch l.short { // what comes with the error means nothing
		case 1:
			return make([]int, len(ks)), nil, l.mErr
		case 2:
			return nil, make([]bool, len(ks)), l.mErr
		}
		return nil, nil, l.mErr
	}
	if l.mget == 4 {
		return nil, nil, nil
	}
	n := len(c.keys)
	if l.mget == 3 && n > l.short {
		n = l.short
	}
	vs, oks := make([]int, n), make([]bool, n)
	for i := 0; i < n; i++ {
		if l.has[c.keys[i]] {
			vs[i], oks[i] = l.val(c.keys[i]), true
		}
	}
	return vs, oks, c.err
}

func (l *fakeLevel) Set(ctx context.Context, k, v int, ttl time.Duration) error {
	l.rec(ctx, levelCall{kind: "set", vals: map[int]int{k: v}, ttl: ttl, err: l.setErr})
	return l.setErr
}

func (l *fakeLevel) MSet(ctx context.Context, kvs map[int]int, ttl time.Duration) error {
	m := map[int]int{}
	for k := 0; k < chainKeys; k++ {
		if v, ok := kvs[k]; ok {
			m[k] = v
		}
	}
	if len(m) != len(kvs) {
		m[-1] = len(kvs)
	}
	l.rec(ctx, levelCall{kind: "mset", vals: m, ttl: ttl, err: l.mset})
	return l.mset
}

func (l *fakeLevel) Delete(ctx context.Context, ks ...int) error {
	l.rec(ctx, levelCall{kind: "del", keys: append([]int(nil), ks...), err: l.del})
	return l.del
}

// seen is what a level answers for key k when asked for keys at once; the
// second result is false if it has no (valid) answer for position i.
func (l *fakeLevel) seen(i, k int) bool {
	switch l.mget {
	case 1, 4:
		return false
	case 3:
		return i < l.short && l.has[k]
	}
	return l.has[k]
}

func descCall(c levelCall) string {
	s := fmt.Sprintf("  level %d: %s", c.level, c.kind)
	if c.keys != nil {
		s += fmt.Sprint(" ", c.keys)
	}
	if c.vals != nil {
		s += fmt.Sprint(" ", descMap(c.vals), " ttl ", c.ttl)
	}
	return s + fmt.Sprintf(" (client %d) -> error %v", c.client, c.err)
}

func descMap(m map[int]int) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := "{"
	for _, k := range ks {
		s += fmt.Sprintf("%d:%d ", k, m[k])
	}
	return strings.TrimSpace(s) + "}"
}

type chainRes struct {
	vals []int
	oks  []bool
	err  error
	done bool
}

// chainCtx is the context of client c, with or without deadline, possibly
// cancelled already (which is for the levels to notice, not for the chain).
func chainCtx(c int, cancelled bool) context.Context {
	v := c
	if cancelled {
		v += 100
	}
	ctx := context.WithValue(context.Background(), chainKey{}, v)
	if v%2 == 1 {
		ctx = deadlineCtx{ctx}
	}
	ctx, cancel := context.WithCancel(ctx)
	if cancelled {
		cancel()
	}
	return ctx
}

var errLevelCause = errors.New("backend is down")

// levelErr is an error without a text.
type levelErr struct{ _ int }

func (*levelErr) Error() string { return "" }

var chainDeadline = time.Unix(1<<32, 0)

// deadlineCtx announces a deadline without needing a timer.
type deadlineCtx struct{ context.Context }

func (deadlineCtx) Deadline() (time.Time, bool) { return chainDeadline, true }

func genLevels(r *R, log *Log[levelCall], errp int) ([]*fakeLevel, *cachex.Chain[int, int]) {
	n := r.Range(1, 4)
	nk := 5
	switch r.Choose(50) {
	case 49:
		nk = chainKeys
	case 48:
		n = r.Range(5, 9)
	}
	if r.Choose(30) == 29 {
		n = 0
	}
	// Levels may fail with different errors of the same text, or for the same reason.
	like := r.Choose(5)
	cause := []error{errLevelCause, context.Canceled, context.DeadlineExceeded, fs.ErrNotExist, io.EOF}[r.Choose(5)]
	failure := func(what string, i int) error {
		switch like {
		case 2:
			return errors.New(what + " failed")
		case 3:
			return fmt.Errorf("%s failed: %w", what, cause)
		case 4:
			return &levelErr{}
		}
		return fmt.Errorf("%s of level %d failed", what, i)
	}
	var ls []*fakeLevel
	ch := &cachex.Chain[int, int]{}
	for i := 0; i < n; i++ {
		l := &fakeLevel{r: r, idx: i, log: log, nk: nk, mErr: failure("mget", i)}
		for k := range l.has[:nk] {
			l.has[k] = r.Choose(3) == 2
			l.zero[k] = r.Choose(8) == 7
			if r.Choose(errp) == errp-1 {
				l.getErr[k] = failure("get", i)
			}
		}
		if r.Choose(errp) == errp-1 {
			l.mget = r.Range(1, 4)
			l.short = r.Choose(4)
			r.Probe("fault: batch read error or partial result")
		}
		if r.Choose(errp) == errp-1 {
			l.setErr = failure("set", i)
			r.Probe("fault: write error")
		}
		if r.Choose(errp) == errp-1 {
			l.mset = failure("mset", i)
			r.Probe("fault: write error")
		}
		if r.Choose(errp) == errp-1 {
			l.del = failure("delete", i)
			r.Probe("fault: delete error")
		}
		if r.Choose(6) == 5 {
			l.stall = r.Range(1, 3)
			r.Probe("fault: stalled level")
		}
		// a ttl of 0 or less means what the level makes of it
		l.ttl = []time.Duration{time.Duration(i+1) * time.Minute, 0, -1, time.Nanosecond, math.MaxInt64}[r.Choose(9)%5]
		ls = append(ls, l)
		ch.Caches = append(ch.Caches, &cachex.ChainItem[int, int]{Cache: l, TTL: l.ttl})
	}
	return ls, ch
}

// writesOf collects what was written to each level by client c; it reports a
// problem if a write is not one of want.
func checkRefill(calls []levelCall, want map[[3]int]bool) string {
	got := map[[3]int]bool{}
	for _, c := range calls {
		if c.kind == "del" {
			return "a read deleted something:\n" + descCall(c)
		}
		if c.kind != "set" && c.kind != "mset" {
			continue
		}
		if c.ttl != c.own {
			return fmt.Sprintf("level %d was refilled with ttl %v instead of its own %v", c.level, c.ttl, c.own)
		}
		for k, v := range c.vals {
			if !want[[3]int{c.level, k, v}] {
				return fmt.Sprintf("level %d was refilled with key %d = %d, which no level below it answered", c.level, k, v)
			}
			got[[3]int{c.level, k, v}] = true
		}
	}
	for k := 0; k < chainKeys; k++ {
		for w := range want {
			if w[1] == k && !got[w] {
				return fmt.Sprintf("level %d was not refilled with key %d = %d", w[0], w[1], w[2])
			}
		}
	}
	return ""
}

func init() {
	register("H01", &Scenario{Name: "reads", Race: true, Weight: 9000, MaxSteps: 40000, Run: func(r *R) {
		log := NewLog[levelCall](512)
		ls, ch := genLevels(r, log, 4)
		ch.ContinueOnReadErr = r.Choose(2) == 1
		clients := r.Pick(0, 4, 1, 1)
		type req struct {
			keys      []int
			batch     bool
			cancelled bool
		}
		nk := 5
		if len(ls) > 0 {
			nk = ls[0].nk
		}
		var reqs []req
		res := make([]chainRes, clients)
		for c := 0; c < clients; c++ {
			q := req{batch: r.Choose(2) == 1}
			n := 1
			if q.batch {
				n = r.Range(0, 6)
				if nk > 5 {
					n = r.Range(0, 2*nk)
				}
			}
			for i := 0; i < n; i++ {
				q.keys = append(q.keys, r.Choose(nk))
			}
			q.cancelled = r.Choose(6) == 5
			reqs = append(reqs, q)
		}
		ask := func(c int) {
			q := reqs[c]
			ctx := chainCtx(c, q.cancelled)
			if q.batch {
				in := append([]int(nil), q.keys...)
				vs, oks, err := ch.MGet(ctx, in...)
				setChainRes(res, c, chainRes{vs, oks, err, true})
				for i := range in {
					if in[i] != q.keys[i] {
						r.Fail("chain-keys", "MGet changed the caller's keys")
					}
				}
				return
			}
			v, ok, err := ch.Get(ctx, q.keys[0])
			setChainRes(res, c, chainRes{[]int{v}, []bool{ok}, err, true})
		}
		if clients == 1 {
			ask(0)
		} else {
			for c := 0; c < clients; c++ {
				c := c
				r.Go(fmt.Sprintf("client %d", c), 1, func() { ask(c) })
			}
		}
		if !r.Join() {
			return
		}
		if len(ls) > 1 {
			r.NonTriv()
		}
		for _, l := range ls {
			r.Logf("level %d: has %v, get errors %v, mget behaviour %d (short %d)", l.idx, l.has, l.getErr, l.mget, l.short)
		}
		for c := 0; c < clients; c++ {
			q, got := reqs[c], res[c]
			var calls []levelCall
			for _, x := range log.All() {
				if x.client == c {
					calls = append(calls, x)
				}
				if x.client < 0 {
					r.Fail("chain-context", "a level did not get the caller's context:\n%s", descCall(x))
				}
			}
			name := "Get"
			if q.batch {
				name = "MGet"
			}
			r.Logf("client %d: %s(%v), continue on error %v -> %v %v %v", c, name, q.keys, ch.ContinueOnReadErr, got.vals, got.oks, got.err)
			for _, x := range calls {
				r.Logf("%s", descCall(x))
			}
			if s := checkRead(ls, ch.ContinueOnReadErr, q.keys, q.batch, got, calls); s != "" {
				r.Fail("chain-read", "%s(%v) of client %d: %s", name, q.keys, c, s)
				return
			}
		}
	}})

	register("H02", &Scenario{Name: "writes", Race: true, Weight: 8000, MaxSteps: 40000, Run: func(r *R) {
		log := NewLog[levelCall](512)
		ls, ch := genLevels(r, log, 3)
		ch.ContinueOnReadErr = r.Choose(2) == 1
		clients := r.Pick(0, 4, 1, 1)
		type req struct {
			kind string
			keys []int
			kvs  map[int]int

			cancelled bool
		}
		nk := 5
		if len(ls) > 0 {
			nk = ls[0].nk
		}
		var reqs []req
		res := make([]chainRes, clients)
		for c := 0; c < clients; c++ {
			q := req{kind: []string{"set", "mset", "del"}[r.Choose(3)]}
			n := 1
			if q.kind != "set" {
				n = r.Range(0, 5)
				if nk > 5 {
					n = r.Range(0, 2*nk)
				}
			}
			q.cancelled = r.Choose(6) == 5
			q.kvs = map[int]int{}
			for i := 0; i < n; i++ {
				k := r.Choose(nk)
				q.keys = append(q.keys, k)
				q.kvs[k] = 1000*(c+1) + i
				if r.Choose(12) == 11 {
					q.kvs[k] = 0
				}
			}
			reqs = append(reqs, q)
		}
		do := func(c int) {
			q := reqs[c]
			ctx := chainCtx(c, q.cancelled)
			var err error
			switch q.kind {
			case "set":
				err = ch.Set(ctx, q.keys[0], q.kvs[q.keys[0]], time.Hour)
			case "mset":
				err = ch.MSet(ctx, q.kvs, time.Hour)
			case "del":
				err = ch.Delete(ctx, q.keys...)
			}
			setChainRes(res, c, chainRes{err: err, done: true})
		}
		if clients == 1 {
			do(0)
		} else {
			for c := 0; c < clients; c++ {
				c := c
				r.Go(fmt.Sprintf("client %d", c), 1, func() { do(c) })
			}
		}
		if !r.Join() {
			return
		}
		if len(ls) > 1 {
			r.NonTriv()
		}
		for c := 0; c < clients; c++ {
			q := reqs[c]
			r.Logf("client %d: %s %v %s -> %v", c, q.kind, q.keys, descMap(q.kvs), res[c].err)
			want := map[[3]int]bool{}
			dels := map[[2]int]bool{}
			var fails []error
			for _, x := range log.All() {
				if x.client < 0 {
					r.Fail("chain-context", "a level did not get the caller's context:\n%s", descCall(x))
				}
				if x.client != c {
					continue
				}
				r.Logf("%s", descCall(x))
				if x.err != nil {
					fails = append(fails, x.err)
				}
				switch x.kind {
				case "set", "mset":
					if q.kind == "del" || x.ttl != x.own {
						r.Fail("chain-write", "wrong write to level %d (its own ttl is %v):\n%s", x.level, x.own, descCall(x))
						return
					}
					for k, v := range x.vals {
						want[[3]int{x.level, k, v}] = true
					}
				case "del":
					for _, k := range x.keys {
						dels[[2]int{x.level, k}] = true
					}
				}
			}
			n := 0
			for _, l := range ls {
				if q.kind == "del" {
					for k := range q.kvs {
						if !dels[[2]int{l.idx, k}] {
							r.Fail("chain-write", "%s(%v): key %d was not deleted from level %d", q.kind, q.keys, k, l.idx)
							return
						}
						n++
					}
					continue
				}
				for k, v := range q.kvs {
					if !want[[3]int{l.idx, k, v}] {
						r.Fail("chain-write", "%s(%s): level %d did not get key %d = %d", q.kind, descMap(q.kvs), l.idx, k, v)
						return
					}
					n++
				}
			}
			if n != len(want)+len(dels) {
				r.Fail("chain-write", "%s(%s): levels got more than was asked for", q.kind, descMap(q.kvs))
				return
			}
			if (res[c].err == nil) != (len(fails) == 0) {
				r.Fail("chain-write-error", "%s(%v) returned %v; failures of levels: %v", q.kind, q.keys, res[c].err, fails)
				return
			}
			for _, f := range fails {
				if !errors.Is(res[c].err, f) {
					r.Fail("chain-write-error", "%s(%v) returned %v, which does not include %v", q.kind, q.keys, res[c].err, f)
					return
				}
			}
		}
	}})

	register("H02", &Scenario{Name: "mget helper", Race: true, Weight: 4000, MaxSteps: 40000, Run: func(r *R) {
		log := NewLog[levelCall](64)
		nk, most := 5, 6
		if r.Choose(30) == 29 {
			nk, most = chainKeys, 2*chainKeys
		}
		l := &fakeLevel{r: r, log: log, nk: nk, mErr: errors.New("mget failed")}
		for k := range l.has[:nk] {
			l.has[k] = r.Choose(2) == 1
			l.zero[k] = r.Choose(8) == 7
		}
		if r.Choose(2) == 1 {
			l.mget = r.Range(1, 4)
			l.short = r.Choose(4)
			r.Probe("fault: batch read error or partial result")
		}
		var keys []int
		for i, n := 0, r.Choose(most+1); i < n; i++ {
			keys = append(keys, r.Choose(nk))
		}
		res, err := cachex.MGet[int, int](chainCtx(0, r.Choose(6) == 5), l, keys...)
		r.NonTriv()
		wantErr := error(nil)
		if (l.mget == 1 || l.mget == 2) && log.Len() > 0 {
			wantErr = l.mErr
		}
		r.Logf("MGet(%v) with behaviour %d (short %d), has %v -> error %v", keys, l.mget, l.short, l.has, err)
		if (err == nil) != (wantErr == nil) || wantErr != nil && !errors.Is(err, wantErr) {
			r.Fail("mget-helper", "MGet returned error %v, want %v", err, wantErr)
			return
		}
		var hits, misses []int
		stop := r.Choose(len(keys) + 2)
		for i, k := range keys {
			if l.seen(i, k) {
				hits = append(hits, i)
			} else {
				misses = append(misses, i)
			}
		}
		eq := func(what string, got []int, pos []int) {
			ok := len(got) == len(pos)
			for i := 0; ok && i < len(got); i++ {
				ok = got[i] == keys[pos[i]]
			}
			if !ok {
				r.Fail("mget-helper", "%s gives %v for keys %v, of which positions %v were hit", what, got, keys, hits)
			}
		}
		// several goroutines may look at the same result
		check := func() {
			eq("HitKeys", res.HitKeys(), hits)
			eq("MissKeys", res.MissKeys(), misses)
			h, m := res.HitMissKeys()
			eq("HitMissKeys (hits)", h, hits)
			eq("HitMissKeys (misses)", m, misses)
			mv := res.HitMapValues()
			n := 0
			for _, p := range hits {
				if v, ok := mv[keys[p]]; !ok || v != l.val(keys[p]) {
					r.Fail("mget-helper", "HitMapValues gives %v for key %d", v, keys[p])
				}
				dup := false
				for _, q := range hits {
					if q < p && keys[q] == keys[p] {
						dup = true
					}
				}
				if !dup {
					n++
				}
			}
			if n != len(mv) {
				r.Fail("mget-helper", "HitMapValues has %d keys, want %d", len(mv), n)
			}
			i := 0
			res.Range(func(k int, hit bool, v int) bool {
				if i >= len(keys) || k != keys[i] || hit != l.seen(i, keys[i]) || hit && v != l.val(k) || !hit && v != 0 {
					r.Fail("mget-helper", "Range gives key %d hit %v value %d at position %d of %v", k, hit, v, i, keys)
				}
				i++
				r.Yield()
				return i != stop
			})
			if want := stopAt(len(keys), stop); i != want {
				r.Fail("mget-helper", "Range made %d calls, want %d", i, want)
			}
			i = 0
			res.RangeHit(func(k int, v int) bool {
				if i >= len(hits) || k != keys[hits[i]] || v != l.val(k) {
					r.Fail("mget-helper", "RangeHit gives key %d value %d as hit %d of %v", k, v, i, hits)
				}
				i++
				r.Yield()
				return i != stop
			})
			if want := stopAt(len(hits), stop); i != want {
				r.Fail("mget-helper", "RangeHit made %d calls, want %d", i, want)
			}
			i = 0
			res.RangeMiss(func(k int) bool {
				if i >= len(misses) || k != keys[misses[i]] {
					r.Fail("mget-helper", "RangeMiss gives key %d as miss %d of %v", k, i, misses)
				}
				i++
				r.Yield()
				return i != stop
			})
			if want := stopAt(len(misses), stop); i != want {
				r.Fail("mget-helper", "RangeMiss made %d calls, want %d", i, want)
			}
		}
		if r.Choose(4) == 3 {
			r.Go("reader 1", 1, check)
			r.Go("reader 2", 1, check)
			r.Join()
			return
		}
		check()
	}})
}

func stopAt(n, stop int) int {
	if stop > 0 && stop < n {
		return stop
	}
	return n
}

//go:norace
func setChainRes(res []chainRes, c int, x chainRes) { res[c] = x }

// checkRead is the executable reference of Chain.Get and Chain.MGet.
func checkRead(ls []*fakeLevel, cont bool, keys []int, batch bool, got chainRes, calls []levelCall) string {
	want := map[[3]int]bool{}
	if !batch {
		k := keys[0]
		var err error
		found := -1
		asked := 0
		for i, l := range ls {
			asked = i + 1
			err = l.getErr[k]
			if err == nil && l.has[k] {
				found = i
				break
			}
			if err != nil && !cont {
				break
			}
		}
		if s := checkAsked(calls, keys, asked); s != "" {
			return s
		}
		if found >= 0 {
			if !got.oks[0] || got.vals[0] != ls[found].val(k) || got.err != nil {
				return fmt.Sprintf("returned %d, %v, %v; level %d has %d", got.vals[0], got.oks[0], got.err, found, ls[found].val(k))
			}
			for i := 0; i < found; i++ {
				want[[3]int{i, k, ls[found].val(k)}] = true
			}
		} else {
			if got.oks[0] || got.vals[0] != 0 {
				return fmt.Sprintf("returned %d, %v although no level consulted has it", got.vals[0], got.oks[0])
			}
			if got.err != err && !(got.err != nil && err != nil && errors.Is(got.err, err)) {
				return fmt.Sprintf("returned error %v; the last level consulted gave %v", got.err, err)
			}
		}
		return checkRefill(calls, want)
	}
	if len(keys) == 0 {
		if got.err != nil || len(got.vals) != 0 || len(got.oks) != 0 {
			return fmt.Sprintf("returned %v %v %v for no keys", got.vals, got.oks, got.err)
		}
		return ""
	}
	// What every level was really asked decides what short results mean.
	vals := map[int]int{}
	rest := append([]int(nil), keys...)
	var err error
	at := 0
	for i, l := range ls {
		if len(rest) == 0 {
			break
		}
		var asked *levelCall
		for at < len(calls) {
			if calls[at].level == i && calls[at].kind == "mget" {
				asked = &calls[at]
				break
			}
			at++
		}
		if asked == nil {
			return fmt.Sprintf("level %d was not consulted for %v", i, rest)
		}
		for _, k := range rest {
			if !containsInt(asked.keys, k) {
				return fmt.Sprintf("level %d was not consulted for key %d", i, k)
			}
		}
		for _, k := range asked.keys {
			if !containsInt(rest, k) {
				return fmt.Sprintf("level %d was consulted for key %d although a level above has it or it was not requested", i, k)
			}
		}
		err = asked.err
		if err != nil && !cont {
			if got.err == nil || !errors.Is(got.err, err) {
				return fmt.Sprintf("returned error %v; level %d failed with %v", got.err, i, err)
			}
			for _, ok := range got.oks {
				if ok {
					return "returned hits together with the failure"
				}
			}
			return checkRefill2(ls, calls, want, i)
		}
		for j, k := range asked.keys {
			if _, dup := vals[k]; !dup && l.seen(j, k) {
				vals[k] = l.val(k)
				for u := 0; u < i; u++ {
					want[[3]int{u, k, l.val(k)}] = true
				}
			}
		}
		var next []int
		for _, k := range rest {
			if _, ok := vals[k]; !ok {
				next = append(next, k)
			}
		}
		// a level that answered some copies of a key only may be asked again below
		rest = next
	}
	for _, c := range calls[at:] {
		_ = c
	}
	if len(got.vals) != len(keys) || len(got.oks) != len(keys) {
		return fmt.Sprintf("returned %d values and %d flags for %d keys", len(got.vals), len(got.oks), len(keys))
	}
	for i, k := range keys {
		v, ok := vals[k]
		if got.oks[i] != ok || got.vals[i] != v {
			return fmt.Sprintf("position %d (key %d) is %d, %v; want %d, %v", i, k, got.vals[i], got.oks[i], v, ok)
		}
	}
	if got.err != err && !(got.err != nil && err != nil && errors.Is(got.err, err)) {
		return fmt.Sprintf("returned error %v; the last level consulted gave %v", got.err, err)
	}
	return checkRefill2(ls, calls, want, -1)
}

func checkRefill2(ls []*fakeLevel, calls []levelCall, want map[[3]int]bool, last int) string {
	if last >= 0 {
		for _, c := range calls {
			if c.kind == "mget" && c.level > last {
				return fmt.Sprintf("level %d was consulted after level %d failed", c.level, last)
			}
		}
	}
	return checkRefill(calls, want)
}

func containsInt(s []int, x int) bool {
	for _, v := range s {
		if v == x {
			return true
		}
	}
	return false
}

// checkAsked verifies that exactly the first n levels were asked for keys, in order.
func checkAsked(calls []levelCall, keys []int, n int) string {
	next := 0
	for _, c := range calls {
		if c.kind != "get" && c.kind != "mget" {
			continue
		}
		if c.level != next {
			return fmt.Sprintf("level %d was consulted where level %d was next", c.level, next)
		}
		next++
	}
	if next != n {
		return fmt.Sprintf("%d levels were consulted, want %d", next, n)
	}
	return ""
}

var _ = runtime.SimMono

// ---- chains of real caches ----

type realLeaf struct {
	vals map[string]int
	exp  map[string]int64
}

// realLevel is a level of a chain of real caches with its model.
type realLevel struct {
	cache cachex.Cache[string, int]
	ttl   time.Duration
	leaf  *realLeaf // nil for NoCache and nested chains
	subs  []*realLevel
	name  string
}

func (l *realLevel) get(k string) (int, bool) {
	if l.leaf != nil {
		if e, ok := l.leaf.exp[k]; ok && runtime.SimMono() < e {
			return l.leaf.vals[k], true
		}
		return 0, false
	}
	for i, s := range l.subs {
		if v, ok := s.get(k); ok {
			for _, u := range l.subs[:i] {
				u.set(k, v, u.ttl)
			}
			return v, true
		}
	}
	return 0, false
}

func (l *realLevel) set(k string, v int, ttl time.Duration) {
	if l.leaf != nil {
		l.leaf.vals[k] = v
		l.leaf.exp[k] = satAdd(runtime.SimMono(), ttl)
	}
	for _, s := range l.subs {
		s.set(k, v, s.ttl)
	}
}

func (l *realLevel) del(k string) {
	if l.leaf != nil {
		delete(l.leaf.exp, k)
	}
	for _, s := range l.subs {
		s.del(k)
	}
}

func (l *realLevel) leaves(out []*realLevel) []*realLevel {
	if l.leaf != nil {
		return append(out, l)
	}
	for _, s := range l.subs {
		out = s.leaves(out)
	}
	return out
}

func genReal(r *R, n, depth int, count *int) (levels []*realLevel, items []*cachex.ChainItem[string, int]) {
	ttls := []time.Duration{time.Hour, time.Second, time.Minute, 10 * time.Millisecond, 500 * time.Hour}
	for i := 0; i < n; i++ {
		*count++
		// Odd lifetimes, even steps of time: no read at the very moment of expiry.
		l := &realLevel{ttl: ttls[r.Choose(len(ttls))] + 1}
		kind := r.Pick(4, 3, 1, 2)
		if kind == 3 && depth > 0 {
			kind = 0
		}
		switch kind {
		case 0:
			l.cache = cachex.NewLRUCacheV2[string, int](100, 0)
			l.leaf = &realLeaf{map[string]int{}, map[string]int64{}}
			l.name = "LRU"
		case 1:
			l.cache = &cachex.FileStore[string, int]{Dir: fmt.Sprintf("/level%d", *count), GCCycle: time.Duration(r.Choose(2)) * time.Second}
			l.leaf = &realLeaf{map[string]int{}, map[string]int64{}}
			l.name = "file"
		case 2:
			l.cache = &cachex.NoCache[string, int]{}
			l.name = "none"
		case 3:
			var subItems []*cachex.ChainItem[string, int]
			l.subs, subItems = genReal(r, r.Range(1, 2), depth+1, count)
			l.cache = &cachex.Chain[string, int]{Caches: subItems, ContinueOnReadErr: r.Chance(1, 2)}
			l.name = "chain("
			for _, s := range l.subs {
				l.name += " " + s.name
			}
			l.name += " )"
		}
		l.name += "/" + l.ttl.String()
		levels = append(levels, l)
		items = append(items, &cachex.ChainItem[string, int]{Cache: l.cache, TTL: l.ttl})
	}
	return
}

func chainReal(r *R) {
	runtime.SimSetStepCost(0)
	runtime.SimSetJumpP(0)
	count := 0
	levels, items := genReal(r, r.Range(1, 4), 0, &count)
	c := &cachex.Chain[string, int]{Caches: items, ContinueOnReadErr: r.Chance(1, 2)}
	top := &realLevel{subs: levels}
	leaves := top.leaves(nil)
	keys := []string{"a", "b", "c", ""}
	ctx := context.Background()
	next := 0
	var hist []string
	bad := func(format string, args ...any) {
		desc := ""
		for _, l := range levels {
			desc += " " + l.name
		}
		r.Fail("chain", "levels%s: %s\nhistory:\n  %s", desc, fmt.Sprintf(format, args...), strings.Join(hist, "\n  "))
	}
	log := func(format string, args ...any) { hist = append(hist, fmt.Sprintf(format, args...)) }
	if len(levels) > 1 {
		r.NonTriv()
	}
	for n := r.Range(2, 14); n > 0 && !r.Failed(); n-- {
		k := keys[r.Choose(len(keys))]
		switch r.Pick(4, 4, 3, 2, 2, 4, 3) {
		case 0:
			v, ok, err := c.Get(ctx, k)
			w, wok := top.get(k)
			log("Get(%q) -> %d, %v, %v", k, v, ok, err)
			if err != nil || ok != wok || v != w {
				bad("Get(%q) returned %d, %v, %v; want %d, %v", k, v, ok, err, w, wok)
				return
			}
		case 1:
			next++
			err := c.Set(ctx, k, next, time.Nanosecond)
			top.set(k, next, 0)
			log("Set(%q, %d)", k, next)
			if err != nil {
				bad("Set: %v", err)
				return
			}
		case 2:
			var q []string
			for i := r.Range(1, 5); i > 0; i-- {
				q = append(q, keys[r.Choose(len(keys))])
			}
			vs, oks, err := c.MGet(ctx, q...)
			log("MGet(%q) -> %v, %v, %v", q, vs, oks, err)
			if err != nil || len(vs) != len(q) || len(oks) != len(q) {
				bad("MGet(%q): %d values, %d flags, error %v", q, len(vs), len(oks), err)
				return
			}
			for i, k := range q {
				w, wok := top.get(k)
				if vs[i] != w || oks[i] != wok {
					bad("MGet(%q) position %d: %d, %v; want %d, %v", q, i, vs[i], oks[i], w, wok)
					return
				}
			}
		case 3:
			kvs := map[string]int{}
			for i := r.Range(1, 3); i > 0; i-- {
				next++
				k := keys[r.Choose(len(keys))]
				kvs[k] = next
				top.set(k, next, 0)
			}
			log("MSet(%v)", kvs)
			if err := c.MSet(ctx, kvs, time.Nanosecond); err != nil {
				bad("MSet: %v", err)
				return
			}
		case 4:
			q := []string{k}
			if r.Chance(1, 2) {
				q = append(q, keys[r.Choose(len(keys))])
			}
			log("Delete(%q)", q)
			if err := c.Delete(ctx, q...); err != nil {
				bad("Delete: %v", err)
				return
			}
			for _, k := range q {
				top.del(k)
			}
		case 5: // somebody else writes to or deletes from one level
			if len(leaves) == 0 {
				continue
			}
			i := r.Choose(len(leaves))
			l := leaves[i]
			if r.Chance(1, 3) {
				log("level %d (%s): Delete(%q)", i, l.name, k)
				if err := l.cache.Delete(ctx, k); err != nil {
					bad("Delete on a level: %v", err)
					return
				}
				l.del(k)
			} else {
				next++
				ttl := []time.Duration{time.Minute, time.Second, time.Hour, 0}[r.Choose(4)] + 1
				log("level %d (%s): Set(%q, %d, %v)", i, l.name, k, next, ttl)
				if err := l.cache.Set(ctx, k, next, ttl); err != nil {
					bad("Set on a level: %v", err)
					return
				}
				l.set(k, next, ttl)
			}
		case 6:
			d := []time.Duration{time.Second, 10 * time.Millisecond, time.Minute, time.Hour, time.Millisecond, time.Second - 2, 2 * time.Second}[r.Choose(7)]
			runtime.SimAdvance(int64(d))
			log("%v pass", d)
		}
		r.Settle()
	}
	// Every level holds what the model says.
	for i, l := range leaves {
		for _, k := range keys {
			v, ok, err := l.cache.Get(ctx, k)
			w, wok := l.get(k)
			if err != nil || ok != wok || v != w {
				bad("at the end level %d (%s) has %d, %v, %v for %q; want %d, %v", i, l.name, v, ok, err, k, w, wok)
				return
			}
		}
	}
	r.Settle()
	for _, h := range hist {
		r.Logf("%s", h)
	}
}

func init() {
	register("H01", &Scenario{Name: "chain of real caches", Seq: true, Weight: 3000, Run: chainReal})
}
