package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"math/bits"
	"runtime"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"
)

// Rare runs of a size where bounded tables, narrow counters and batches of a
// fixed length would show. They are long, so a check performs few of them: the
// other scenarios of their property have weights in the thousands.

// largeSize picks a size at or about a boundary.
func largeSize(r *R) int {
	p := []int{128, 256, 512, 1024, 2048, 4096, 8192}[r.Pick(3, 4, 3, 3, 2, 3, 2)]
	switch r.Choose(5) {
	case 0:
		return p
	case 1:
		return p + 1
	case 2:
		return p - 1
	case 3:
		return 100 + r.Choose(100)
	}
	return p + r.Choose(p)
}

func largeBytes(r *R, n int) []byte {
	b := make([]byte, n)
	a, c := byte(r.Choose(256)), byte(r.Choose(256))
	switch r.Choose(4) {
	case 0: // empty but for a few bits
		for i := 0; i < 4; i++ {
			b[r.Choose(n)] |= 1 << r.Choose(8)
		}
	case 1: // nearly full
		for i := range b {
			b[i] = 0xff
		}
		b[r.Choose(n)] = a
	default:
		x := uint32(a)<<8 | uint32(c) | 1
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
	}
	return b
}

func largeDiff(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("it has %d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d is %08b, want %08b", i, len(got), got[i], want[i])
		}
	}
	return ""
}

func largeBits(r *R) {
	n := largeSize(r)
	if r.Choose(6) == 5 {
		n = 65536 - 2 + r.Choose(5000)
	}
	st := largeBytes(r, n)
	b := bitset.New(append([]byte(nil), st...)...)
	r.Probe("set of hundreds of bytes or more")
	r.NonTriv()
	offset := func() int {
		t := len(st) * 8
		switch r.Choose(6) {
		case 0:
			return r.Choose(t)
		case 1:
			return t - 1 - r.Choose(20)
		case 2:
			return -1 - r.Choose(t)
		case 3:
			return -t + r.Choose(20) - 2
		case 4: // about a power of two
			p := 1 << (6 + r.Choose(14))
			return p - 2 + r.Choose(4)
		}
		return t + r.Choose(40) - 4
	}
	bit := func(i int) bool { return st[i/8]>>(7-uint(i%8))&1 == 1 }
	var hist []string
	bad := func(format string, args ...any) {
		r.Fail("bits-large", "%s\nset of %d bytes; history: %v", fmt.Sprintf(format, args...), len(st), hist)
	}
	for i, k := 0, r.Range(4, 24); i < k && !r.Failed(); i++ {
		t := len(st) * 8
		switch r.Pick(6, 5, 4, 3, 1, 1, 1, 1) {
		case 0:
			o := offset()
			if r.Choose(12) == 11 && t < 400000 {
				o = t + r.Choose(70000)
			}
			v := r.Choose(3) != 2
			hist = append(hist, fmt.Sprintf("Set(%d, %v)", o, v))
			old, err := b.Set(o, v)
			if o < 0 {
				o += t
			}
			if o < 0 {
				if err == nil || old {
					bad("Set below the first bit returned %v, %v", old, err)
				}
				break
			}
			if o/8 >= len(st) {
				st = append(st, make([]byte, o/8+1-len(st))...)
			}
			if err != nil || old != bit(o) {
				bad("Set(%d) returned %v, %v; the bit was %v", o, old, err, bit(o))
			}
			m := byte(1) << (7 - uint(o%8))
			st[o/8] &^= m
			if v {
				st[o/8] |= m
			}
		case 1:
			o := offset()
			w := o
			if w < 0 {
				w += t
			}
			want := w >= 0 && w < t && bit(w)
			if got := b.Get(o); got != want {
				bad("Get(%d) = %v", o, got)
			}
		case 2, 3:
			lo, hi := offset(), offset()
			if r.Choose(3) == 0 {
				lo, hi = 0, -1
			}
			s, e, ok := bitRange(string(st), lo, hi)
			if i%2 == 0 {
				want := 0
				for j := s; ok && j <= e; {
					if j%8 == 0 && j+7 <= e {
						want += bits.OnesCount8(st[j/8])
						j += 8
						continue
					}
					if bit(j) {
						want++
					}
					j++
				}
				if got := b.Count(lo, hi); got != want {
					bad("Count(%d, %d) = %d, want %d", lo, hi, got, want)
				}
				break
			}
			var want []byte
			if ok {
				want = make([]byte, (e-s+8)/8)
				for j := s; j <= e; j++ {
					if bit(j) {
						want[(j-s)/8] |= 1 << (7 - uint((j-s)%8))
					}
				}
			}
			if d := largeDiff(b.Sub(lo, hi).Bytes(), want); d != "" {
				bad("Sub(%d, %d): %s", lo, hi, d)
			}
		case 4:
			w := make([]byte, len(st))
			for j := range st {
				w[j] = ^st[j]
			}
			if d := largeDiff(b.Not().Bytes(), w); d != "" {
				bad("Not: %s", d)
			}
		case 5:
			if got := b.Size(); got != t {
				bad("Size = %d", got)
			}
			if len(st) > 9000 {
				break
			}
			_, want := bsApply(string(st), bsIn{kind: "string"})
			if got := b.String(); got != want {
				bad("String is wrong")
			}
			x, err := bitset.NewFromHex(want)
			if err != nil || largeDiff(x.Bytes(), st) != "" {
				bad("NewFromHex(String()) is another set, %v", err)
			}
			_, want = bsApply(string(st), bsIn{kind: "binary", sep: " "})
			if got := b.Binary(" "); got != want {
				bad("Binary is wrong")
			}
		case 6:
			stop := r.Choose(t)
			j, wrong := 0, -1
			b.Range(func(i int, v bool) bool {
				if i != j || i >= t || v != bit(i) {
					wrong = i
					return false
				}
				j++
				return i != stop
			})
			if wrong >= 0 || j != stop+1 {
				bad("Range to %d went wrong at %d (bit %d)", stop, j, wrong)
			}
		case 7:
			if r.Choose(3) == 2 {
				hist = append(hist, "Clear")
				b.Clear()
				st = make([]byte, len(st))
			}
		}
	}
	if !r.Failed() {
		if d := largeDiff(b.Bytes(), st); d != "" {
			bad("at the end: %s", d)
		}
	}
}

func largeCombine(r *R) {
	n := r.Range(2, 4)
	var raw [][]byte
	var sets []*bitset.BitSet
	for i := 0; i < n; i++ {
		k := largeSize(r)
		if i > 0 && r.Choose(2) == 1 {
			k = len(raw[0])
		}
		if r.Choose(8) == 7 {
			k = 65536 - 2 + r.Choose(3000)
		}
		b := largeBytes(r, k)
		raw = append(raw, b)
		sets = append(sets, bitset.New(append([]byte(nil), b...)...))
	}
	r.Probe("sets of hundreds of bytes or more")
	r.NonTriv()
	for j := r.Range(2, 8); j > 0; j-- {
		kind := []string{"and", "or", "xor", "andnot"}[r.Choose(4)]
		me := r.Choose(n)
		xs, desc := []string{string(raw[me])}, fmt.Sprintf("set%d.%s(", me, kind)
		var args []*bitset.BitSet
		for k := r.Range(1, 3); k > 0; k-- {
			a := r.Choose(n)
			args = append(args, sets[a])
			xs = append(xs, string(raw[a]))
			desc += fmt.Sprintf(" set%d", a)
		}
		var x *bitset.BitSet
		switch kind {
		case "and":
			x = sets[me].And(args...)
		case "or":
			x = sets[me].Or(args...)
		case "xor":
			x = sets[me].Xor(args...)
		case "andnot":
			x = sets[me].AndNot(args...)
		}
		want := []byte(bsCombine(kind, xs))
		lens := ""
		for i := range raw {
			lens += fmt.Sprintf(" %d", len(raw[i]))
		}
		if d := largeDiff(x.Bytes(), want); d != "" {
			r.Fail("combine-large", "%s ) over sets of%s bytes: %s", desc, lens, d)
			return
		}
		for i := range raw {
			if d := largeDiff(sets[i].Bytes(), raw[i]); d != "" {
				r.Fail("combine-large", "%s ) over sets of%s bytes changed set%d: %s", desc, lens, i, d)
				return
			}
		}
		if r.Choose(3) == 2 { // go on with the result
			raw[me], sets[me] = want, x
		}
	}
}

// ---- L02 ----

func largeLRUCap(r *R) {
	c := largeSize(r)
	if c > 4200 {
		c = 1000
	}
	max := []int{0, 0, 3}[r.Choose(3)]
	kind := r.Choose(3)
	api := newLRU(kind, c, max)
	runtime.SimSetStepCost(0)
	r.Probe("capacity of hundreds or thousands")
	r.NonTriv()
	order := make([]int, 0, c+1) // least recent first
	val := map[int]int{}
	uses := map[int]int{}
	drop := func(k int) {
		for i, x := range order {
			if x == k {
				order = append(order[:i], order[i+1:]...)
				break
			}
		}
		delete(val, k)
		delete(uses, k)
	}
	put := func(k, v int) bool {
		if err := api.set(k, v, time.Hour); err != nil {
			r.Fail("lru-large", "Set: %v", err)
			return false
		}
		if _, ok := val[k]; ok {
			drop(k)
		}
		order, val[k], uses[k] = append(order, k), v, 0
		if len(order) > c {
			k0 := order[0]
			delete(val, k0)
			delete(uses, k0)
			order = order[1:]
		}
		return true
	}
	get := func(k int) bool {
		v, ok, err := api.get(k)
		w, wok := val[k]
		if wok && max > 0 && uses[k] >= max {
			w, wok = 0, false
			drop(k)
		}
		if err != nil || ok != wok || v != w {
			r.Fail("lru-large", "capacity %d, usage limit %d, %d entries: Get(%d) returned %d, %v, %v; want %d, %v", c, max, len(order), k, v, ok, err, w, wok)
			return false
		}
		if wok {
			u := uses[k] + 1
			drop(k)
			order, val[k], uses[k] = append(order, k), w, u
		}
		return true
	}
	for i := 0; i < c; i++ {
		if !put(i, i+1) {
			return
		}
	}
	for i, n := 0, r.Range(10, 60); i < n; i++ {
		ok := true
		switch r.Pick(3, 3, 1, 1) {
		case 0:
			ok = get(r.Choose(c + 10))
		case 1:
			ok = put(c+r.Choose(100), 100000+i)
		case 2:
			ok = put(r.Choose(c), 200000+i)
		case 3:
			k := r.Choose(c)
			if err := api.del([]int{k}); err != nil {
				r.Fail("lru-large", "Delete: %v", err)
				return
			}
			if _, in := val[k]; in {
				drop(k)
			}
		}
		if !ok {
			return
		}
	}
	// Everything in it, in whatever way it is asked for.
	if r.Choose(2) == 1 {
		ks := make([]int, 0, c+100)
		for k := 0; k < c+100; k++ {
			ks = append(ks, k)
		}
		vs, oks, err := api.mget(ks)
		if err != nil || len(vs) != len(ks) || len(oks) != len(ks) {
			r.Fail("lru-large", "MGet of %d keys: %d values, %d flags, %v", len(ks), len(vs), len(oks), err)
			return
		}
		for i, k := range ks {
			w, wok := val[k]
			if wok && max > 0 && uses[k] >= max {
				w, wok = 0, false
			}
			if vs[i] != w || oks[i] != wok {
				r.Fail("lru-large", "capacity %d, %d entries: MGet of %d keys gave %d, %v for key %d; want %d, %v", c, len(order), len(ks), vs[i], oks[i], k, w, wok)
				return
			}
		}
		return
	}
	for k := 0; k < c+100; k++ {
		if !get(k) {
			return
		}
	}
}

func largeLRUUses(r *R) {
	max := []int{127, 128, 255, 256, 257, 300, 512, 1000, 1024, 4096}[r.Choose(10)]
	if r.Choose(8) == 7 {
		max = []int{32768, 65535, 65536, 65537, 70000}[r.Choose(5)]
	}
	if r.Choose(6) == 5 {
		max = 0
	}
	api := newLRU(r.Choose(3), r.Range(1, 4), max)
	runtime.SimSetStepCost(0)
	r.Probe("usage limit of hundreds or thousands")
	r.NonTriv()
	n := max
	if max == 0 {
		n = 300 + r.Choose(1000)
		if r.Choose(6) == 5 {
			n = 66000
		}
	}
	for round := r.Choose(2); round >= 0; round-- {
		if err := api.set(1, 7, time.Hour); err != nil {
			r.Fail("lru-large", "Set: %v", err)
			return
		}
		for i := 0; i < n; i++ {
			var v int
			var ok bool
			var err error
			if i%16 == 5 {
				var vs []int
				var oks []bool
				vs, oks, err = api.mget([]int{1})
				if len(vs) == 1 && len(oks) == 1 {
					v, ok = vs[0], oks[0]
				}
			} else {
				v, ok, err = api.get(1)
			}
			if v != 7 || !ok || err != nil {
				r.Fail("lru-large", "usage limit %d: read %d of a live entry returned %d, %v, %v", max, i+1, v, ok, err)
				return
			}
		}
		if max > 0 {
			for i := 0; i < 2; i++ {
				if v, ok, err := api.get(1); ok || v != 0 || err != nil {
					r.Fail("lru-large", "usage limit %d: one more read returned %d, %v, %v", max, v, ok, err)
					return
				}
			}
		}
	}
}

// ---- H01, H02: batches of hundreds of keys ----

func largeBatch(r *R) {
	levels := r.Range(2, 4)
	var lru []*cachex.LRUCacheV2[int, int]
	ch := &cachex.Chain[int, int]{ContinueOnReadErr: r.Choose(2) == 1}
	n := 101 + r.Choose(200)
	if r.Choose(3) == 2 {
		n = []int{255, 256, 257, 511, 513, 1000, 1024, 1025, 1500}[r.Choose(9)]
	}
	// Level i, from the bottom, holds every key that its multiplier picks.
	has := make([][]bool, levels)
	ctx := context.Background()
	for i := 0; i < levels; i++ {
		c := cachex.NewLRUCacheV2[int, int](4000, 0)
		lru = append(lru, c)
		ch.Caches = append(ch.Caches, &cachex.ChainItem[int, int]{Cache: c, TTL: time.Hour})
		has[i] = make([]bool, n)
		m, a := 1+r.Choose(5), r.Choose(5)
		if i < levels-1 {
			m++
		}
		for k := 0; k < n; k++ {
			if (k+a)%m == 0 {
				has[i][k] = true
				_ = c.Set(ctx, k, k*10+1, time.Hour)
			}
		}
	}
	runtime.SimSetStepCost(0)
	r.Probe("batch of hundreds of keys")
	r.NonTriv()
	keys := make([]int, n)
	step := []int{1, 7, 11}[r.Choose(3)]
	for bits := n; bits%step == 0 && step > 1; {
		step = 1
	}
	for i := range keys {
		keys[i] = i * step % n
	}
	if r.Choose(3) == 2 { // some twice
		for i := 0; i < n; i += 50 {
			keys = append(keys, i)
		}
	}
	state := func(i, k int) (int, bool) {
		v, ok, err := lru[i].Get(ctx, k)
		if err != nil {
			r.Fail("chain-large", "Get on level %d: %v", i, err)
		}
		return v, ok
	}
	switch r.Pick(4, 2, 2) {
	case 0:
		vs, oks, err := ch.MGet(ctx, keys...)
		if err != nil || len(vs) != len(keys) || len(oks) != len(keys) {
			r.Fail("chain-large", "MGet of %d keys: %d values, %d flags, %v", len(keys), len(vs), len(oks), err)
			return
		}
		for i, k := range keys {
			at := -1
			for l := range has {
				if has[l][k] {
					at = l
					break
				}
			}
			want := 0
			if at >= 0 {
				want = k*10 + 1
			}
			if vs[i] != want || oks[i] != (at >= 0) {
				r.Fail("chain-large", "MGet of %d keys over %d levels, position %d: %d, %v; want %d, %v", len(keys), levels, i, vs[i], oks[i], want, at >= 0)
				return
			}
		}
		r.Settle()
		for k := 0; k < n; k++ {
			deep := -1
			for l := range has {
				if has[l][k] {
					deep = l
					break
				}
			}
			for l := range has {
				v, ok := state(l, k)
				want := has[l][k] || l < deep
				if ok != want || ok && v != k*10+1 {
					r.Fail("chain-large", "after an MGet of %d keys over %d levels, key %d on level %d: %d, %v; it is first on level %d", len(keys), levels, k, l, v, ok, deep)
					return
				}
			}
		}
	case 1:
		kvs := map[int]int{}
		for k := 0; k < n; k++ {
			kvs[k] = k*3 + 2
		}
		if err := ch.MSet(ctx, kvs, 0); err != nil {
			r.Fail("chain-large", "MSet of %d keys: %v", n, err)
			return
		}
		for l := range has {
			for k := 0; k < n; k++ {
				if v, ok := state(l, k); !ok || v != k*3+2 {
					r.Fail("chain-large", "after an MSet of %d keys, key %d on level %d: %d, %v", n, k, l, v, ok)
					return
				}
			}
		}
	case 2:
		del := keys[:n-r.Choose(30)]
		gone := map[int]bool{}
		for _, k := range del {
			gone[k] = true
		}
		if err := ch.Delete(ctx, del...); err != nil {
			r.Fail("chain-large", "Delete of %d keys: %v", len(del), err)
			return
		}
		for l := range has {
			for k := 0; k < n; k++ {
				if _, ok := state(l, k); ok != (has[l][k] && !gone[k]) {
					r.Fail("chain-large", "after a Delete of %d keys, key %d on level %d: %v; was %v, deleted %v", len(del), k, l, ok, has[l][k], gone[k])
					return
				}
			}
		}
	}
}

// ---- R01, R02: thousands of items ----

type largeMR struct {
	mapped  []int32
	recv    []int32
	running int
	most    int
	nrecv   int
	late    int // mapper calls after the return
	ret     bool
}

//go:norace
func (m *largeMR) start(i int) {
	m.mapped[i]++
	m.running++
	if m.running > m.most {
		m.most = m.running
	}
	if m.ret {
		m.late++
	}
}

//go:norace
func (m *largeMR) end() { m.running-- }

//go:norace
func (m *largeMR) got(i int) {
	if i >= 0 && i < len(m.recv) {
		m.recv[i]++
	}
	m.nrecv++
}

var errLarge = errors.New("large: enough")

func largeItems(stop bool) func(r *R) {
	return func(r *R) {
		n := 200 + r.Choose(400)
		if r.Choose(3) == 2 {
			n = []int{1000, 1023, 1024, 1025, 2500, 4097}[r.Choose(6)]
		}
		w := []int{0, 1, 2, 3, 8, 16, 17, 64}[r.Choose(8)]
		eff := w
		var opts []mr.Option
		if w > 0 {
			opts = append(opts, mr.WithWorkers(w))
		} else {
			eff = 16
		}
		m := &largeMR{mapped: make([]int32, n), recv: make([]int32, n)}
		yield := r.Choose(4)
		outs := r.Choose(4) // each item has 1 output, or sometimes none or two
		count := func(i int) int {
			if outs == 3 {
				return (i * 7 / 3) % 3
			}
			return 1
		}
		at := -1
		if stop {
			at = n/2 + r.Choose(n/2)
		}
		gen := func(src chan<- int) {
			for i := 0; i < n; i++ {
				src <- i
			}
		}
		work := func(i int) {
			m.start(i)
			if yield > 0 && i%yield == 0 {
				r.Yield()
			}
			m.end()
		}
		mapper := func(i int, wr mr.Writer[int], cancel func(error)) {
			work(i)
			if i == at {
				cancel(errLarge)
				return
			}
			for k := count(i); k > 0; k-- {
				wr.Write(i)
			}
		}
		api := r.Choose(4)
		name := []string{"MapReduce", "MapReduceVoid", "ForEach", "MapReduceChan"}[api]
		if stop && api == 2 {
			api, name = 0, "MapReduce"
		}
		desc := fmt.Sprintf("%s of %d items, %d workers", name, n, eff)
		r.Probe("hundreds or thousands of items")
		r.NonTriv()
		var v int
		var err error
		reduce := func(pipe <-chan int, wr mr.Writer[int], cancel func(error)) {
			for x := range pipe {
				m.got(x)
			}
			if wr != nil {
				wr.Write(m.nrecv + 1)
			}
		}
		switch api {
		case 0:
			v, err = mr.MapReduce[int, int, int](gen, mapper, reduce, opts...)
		case 1:
			err = mr.MapReduceVoid[int, int](gen, mapper, func(pipe <-chan int, cancel func(error)) { reduce(pipe, nil, cancel) }, opts...)
		case 2:
			mr.ForEach[int](gen, work, opts...)
		case 3:
			src := make(chan int)
			r.Go("source feeder", 1, func() {
				gen(src)
				close(src)
			})
			v, err = mr.MapReduceChan[int, int, int](src, mapper, reduce, opts...)
		}
		m.setRet()
		if stop {
			if err != errLarge || v != 0 {
				r.Fail("mr-large", "%s: cancelled with an error by the mapper of item %d, it returned %d, %v", desc, at, v, err)
			}
			if !r.Join() {
				return
			}
			r.Settle()
			for i, c := range m.mapped {
				if c > 1 {
					r.Fail("mr-large", "%s: item %d mapped %d times", desc, i, c)
				}
			}
			if m.most > eff {
				r.Fail("mr-large", "%s: %d mappers at once", desc, m.most)
			}
			return
		}
		total := 0
		for i, c := range m.mapped {
			if c != 1 {
				r.Fail("mr-large", "%s: item %d mapped %d times", desc, i, c)
				return
			}
			want := int32(count(i))
			if api != 2 && m.recv[i] != want {
				r.Fail("mr-large", "%s: item %d wrote %d outputs, the reducer received %d", desc, i, want, m.recv[i])
				return
			}
			total += int(want)
		}
		if m.most > eff {
			r.Fail("mr-large", "%s: %d mappers at once", desc, m.most)
		}
		if err != nil {
			r.Fail("mr-large", "%s returned error %v", desc, err)
		}
		if (api == 0 || api == 3) && v != total+1 {
			r.Fail("mr-large", "%s returned %d, the reducer wrote %d", desc, v, total+1)
		}
		r.Join()
	}
}

//go:norace
func (m *largeMR) setRet() { m.ret = true }

// ---- K01: long texts ----

func largeCrypt(r *R) {
	src := &entSource{r: r}
	old := rand.Reader
	rand.Reader = src
	defer func() { rand.Reader = old }()
	n := largeSize(r)
	if r.Choose(3) == 2 {
		n = []int{16383, 16384, 32769, 65535, 65536, 65537, 100003, 200000}[r.Choose(8)]
	}
	plain := largeBytes(r, n)
	key := randBytes(r, []int{16, 24, 32}[r.Choose(3)])
	mode, enc := r.Choose(3), r.Choose(3)
	name := fmt.Sprintf("%s encryption of %d bytes, key %d bytes", modeNames[mode], n, len(key))
	r.Probe("text of thousands of bytes")
	r.NonTriv()
	src.arm(1, nil)
	text := libEncrypt(mode, key, plain, enc)
	raw, err := decText(text, enc == 1)
	if err != nil {
		r.Fail("encrypt-large", "%s: result is not properly encoded: %v", name, err)
		return
	}
	var iv []byte
	if mode != 0 {
		iv, _ = src.taken(1)
		if len(iv) != 16 || len(raw) < 16 || !bytes.Equal(raw[:16], iv) {
			r.Fail("encrypt-large", "%s: the IV is not the entropy that was drawn for it", name)
			return
		}
	}
	if d := largeDiff(raw, refEncrypt(mode, key, iv, plain)); d != "" {
		r.Fail("encrypt-large", "%s: result differs from the reference: %s", name, d)
		return
	}
	back, err := libDecrypt(mode, key, text, enc)
	if err != nil {
		r.Fail("encrypt-large", "%s: decrypting fails: %v", name, err)
		return
	}
	if d := largeDiff(back, plain); d != "" {
		r.Fail("encrypt-large", "%s: decrypted: %s", name, d)
	}
}

// ---- Z01: long buffers and permutations ----

func largeRand(r *R) {
	n := largeSize(r)
	if r.Choose(4) == 3 {
		n = 65536 - 3 + r.Choose(6000)
	}
	perm := func(p []int) string {
		if len(p) != n {
			return fmt.Sprintf("%d elements", len(p))
		}
		seen := make([]bool, n)
		same := 0
		for i, v := range p {
			if v < 0 || v >= n || seen[v] {
				return fmt.Sprintf("element %d is %d", i, v)
			}
			seen[v] = true
			if i == v {
				same++
			}
		}
		if same > 40 { // one is to be expected
			return fmt.Sprintf("%d elements stayed in their place", same)
		}
		return ""
	}
	p := make([]int, n+2)
	for i := range p {
		p[i] = i
	}
	r.Probe("thousands of elements")
	r.NonTriv()
	what, bad := "", ""
	switch r.Pick(1, 1, 1, 3) {
	case 0:
		what, bad = "Perm", perm(fastrand.Perm(n))
	case 1:
		what = "Shuffle"
		fastrand.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
		bad = perm(p[:n])
	case 2:
		what, bad = "gslice.Shuffle", perm(gslice.Shuffle(p[:n]))
	case 3:
		what = "Read"
		off := r.Choose(16)
		buf := make([]byte, off+n+16)
		k, err := fastrand.Read(buf[off : off+n])
		if k != n || err != nil {
			bad = fmt.Sprintf("returned %d, %v", k, err)
			break
		}
		for i := range buf {
			if (i < off || i >= off+n) && buf[i] != 0 {
				bad = fmt.Sprintf("changed byte %d outside %d to %d", i, off, off+n)
			}
		}
		// 16 bytes in a row do not occur twice, nor are they all zero.
		seen := map[[16]byte]int{{}: -1}
		for i := off; i+16 <= off+n; i += 16 {
			var w [16]byte
			copy(w[:], buf[i:])
			if j, ok := seen[w]; ok {
				bad = fmt.Sprintf("bytes %d to %d are those at %d (-1: zeros)", i, i+16, j)
			}
			seen[w] = i
		}
		var w [16]byte
		copy(w[:], buf[off+n-16:])
		if w == [16]byte{} {
			bad = "the last 16 bytes are zero"
		}
	}
	if p[n] != n || p[n+1] != n+1 {
		bad = "wrote beyond its slice"
	}
	if bad != "" {
		r.Fail("rand-large", "%s of %d: %s", what, n, bad)
	}
}

// ---- F04: long values and keys ----

func largeFile(r *R) {
	fileDisk(r)
	ctx := context.Background()
	size := func() int {
		if r.Choose(3) == 2 {
			return []int{32768, 65000, 65535, 65536, 65537, 131072, 300000, 1<<20 + 3}[r.Choose(8)]
		}
		return largeSize(r)
	}
	r.Probe("value of thousands of bytes")
	r.NonTriv()
	s := &cachex.FileStore[string, []byte]{Dir: fileDir}
	keys := []string{"k", string(bytes.Repeat([]byte("long key "), 100+r.Choose(1000))), "other"}
	want := map[string][]byte{}
	for i, n := 0, r.Range(2, 6); i < n; i++ {
		k := keys[r.Choose(len(keys))]
		v := largeBytes(r, size())
		if r.Choose(5) == 4 {
			v = []byte{1, 2, 3} // a short one over a long one
		}
		if r.Choose(3) == 2 {
			err := s.MSet(ctx, map[string][]byte{k: v}, time.Hour)
			if err != nil {
				r.Fail("error", "MSet of %d bytes: %v", len(v), err)
				return
			}
		} else if err := s.Set(ctx, k, v, time.Hour); err != nil {
			r.Fail("error", "Set of %d bytes: %v", len(v), err)
			return
		}
		want[k] = v
		for _, k := range keys {
			got, ok, err := s.Get(ctx, k)
			w, wok := want[k]
			if d := largeDiff(got, w); d != "" || ok != wok || err != nil {
				r.Fail("value", "Get of a value of %d bytes (key of %d bytes): %v, %v, %s", len(w), len(k), ok, err, d)
				return
			}
		}
	}
	got, oks, err := s.MGet(ctx, keys...)
	if err != nil || len(got) != 3 || len(oks) != 3 {
		r.Fail("value", "MGet: %d values, %d flags, %v", len(got), len(oks), err)
		return
	}
	for i, k := range keys {
		w, wok := want[k]
		if d := largeDiff(got[i], w); d != "" || oks[i] != wok {
			r.Fail("value", "MGet of a value of %d bytes: %v, %s", len(w), oks[i], d)
			return
		}
	}
	// A batch of hundreds.
	many := &cachex.FileStore[int, string]{Dir: fileDir + "/many"}
	n := 100 + r.Choose(300)
	kvs := map[int]string{}
	ks := make([]int, n)
	for i := range ks {
		ks[i] = i
		kvs[i] = fmt.Sprint("v", i)
	}
	if err := many.MSet(ctx, kvs, time.Hour); err != nil {
		r.Fail("error", "MSet of %d keys: %v", n, err)
		return
	}
	vs, oks, err := many.MGet(ctx, ks...)
	if err != nil || len(vs) != n || len(oks) != n {
		r.Fail("value", "MGet of %d keys: %d values, %d flags, %v", n, len(vs), len(oks), err)
		return
	}
	for i := range ks {
		if !oks[i] || vs[i] != fmt.Sprint("v", i) {
			r.Fail("value", "MGet of %d keys, position %d: %q, %v", n, i, vs[i], oks[i])
			return
		}
	}
	if err := many.Delete(ctx, ks[:n-1]...); err != nil {
		r.Fail("error", "Delete of %d keys: %v", n-1, err)
	}
	_, oks, _ = many.MGet(ctx, ks...)
	for i := range oks {
		if oks[i] != (i == n-1) {
			r.Fail("isolation", "after a Delete of %d of %d keys, key %d: %v", n-1, n, i, oks[i])
			return
		}
	}
}

// ---- M01, M02: long histories of one client, over few keys or thousands ----

func mapLong(large, visits bool) func(r *R) {
	return func(r *R) {
		kind := []int{0, 2, 3, 0, 1, 5, 6}[r.Choose(7)]
		w := &mapWorkload{r: r, keys: r.Range(1, 8)}
		n := r.Range(20, 120)
		if large {
			kind = []int{0, 2, 3}[r.Choose(3)]
			w.keys = []int{33, 65, 129, 257, 300, 520, 1025, 2100}[r.Choose(8)]
			n = r.Range(200, 1500)
			r.Probe("dozens to thousands of keys")
		}
		w.api = newMapAPI(kind)
		mix := mapMixes[r.Choose(len(mapMixes))]
		st := make([]mapState, w.keys)
		last := make([]int, w.keys)
		var hist []string
		bad := func(format string, args ...any) {
			if len(hist) > 60 {
				hist = hist[len(hist)-60:]
			}
			r.Fail("map-history", "%s\n%d keys; the last operations: %v", fmt.Sprintf(format, args...), w.keys, hist)
		}
		step := func(in mapIn) bool {
			out := w.api.do(in)
			op := mapRec{in: in, out: out}.op()
			hist = append(hist, op.Desc)
			next := mapModel.Step(st[in.Key], op)
			if len(next) == 0 {
				bad("%s contradicts the history: the key was %+v", op.Desc, st[in.Key])
				return false
			}
			st[in.Key] = next[0].(mapState)
			w.note(last, in, out)
			return true
		}
		scan := func(stop int) bool {
			seen := make([]bool, w.keys)
			i := 0
			ok := true
			w.api.rng(func(k, v int) bool {
				i++
				if visits && (k < 0 || k >= w.keys || seen[k] || !st[k].Present || st[k].Val != v || stop > 0 && i > stop) {
					bad("Range visited key %d with %d (visit %d of at most %d)", k, v, i, stop)
					ok = false
					return false
				}
				if visits {
					seen[k] = true
				}
				return i != stop
			})
			for k := range st {
				if visits && ok && stop == 0 && st[k].Present && !seen[k] {
					bad("Range did not visit key %d", k)
					return false
				}
			}
			hist = append(hist, fmt.Sprintf("Range(stop %d)", stop))
			return ok
		}
		if large { // all or many of the keys first
			part := r.Range(w.keys/2, w.keys)
			for k := 0; k < part; k++ {
				if !step(mapIn{Kind: "store", Key: k, Val: w.cnt.Add(1)}) {
					return
				}
			}
		}
		r.NonTriv()
		for i := 0; i < n; i++ {
			switch r.Pick(20, 1, 1, 1) {
			case 1:
				if !scan(0) {
					return
				}
				continue
			case 2: // reads of what may not be there: they promote
				for j := r.Range(1, 12); j > 0; j-- {
					if !step(mapIn{Kind: "load", Key: r.Choose(w.keys)}) {
						return
					}
				}
				continue
			case 3:
				if !scan(1 + r.Choose(w.keys)) {
					return
				}
				continue
			}
			if !step(w.gen(mix, last)) {
				return
			}
		}
		if r.Choose(2) == 1 && !scan(0) {
			return
		}
		for k := range st {
			if !step(mapIn{Kind: "load", Key: k}) {
				return
			}
		}
		scan(0)
	}
}

func init() {
	big := uint64(40000000)
	for i, id := range []string{"M01", "M02"} {
		register(id, &Scenario{Name: "long history", Seq: true, Weight: 120, MaxSteps: big, Run: mapLong(false, i == 1)})
		register(id, &Scenario{Name: "many keys", Seq: true, Weight: 1, MaxSteps: big, Run: mapLong(true, i == 1)})
	}
	register("B01", &Scenario{Name: "large", Seq: true, Weight: 4, MaxSteps: big, Run: largeBits})
	register("B02", &Scenario{Name: "large", Seq: true, Weight: 3, MaxSteps: big, Run: largeCombine})
	register("L02", &Scenario{Name: "large capacity", Seq: true, Weight: 5, MaxSteps: big, Run: largeLRUCap})
	register("L02", &Scenario{Name: "many uses", Seq: true, Weight: 4, MaxSteps: big, Run: largeLRUUses})
	register("H01", &Scenario{Name: "large batches", Seq: true, Weight: 5, MaxSteps: big, Run: largeBatch})
	register("H02", &Scenario{Name: "large batches", Seq: true, Weight: 5, MaxSteps: big, Run: largeBatch})
	register("R01", &Scenario{Name: "many items", Weight: 5, MaxSteps: big, Run: largeItems(false)})
	register("R02", &Scenario{Name: "many items", Weight: 4, MaxSteps: big, Run: largeItems(true)})
	register("S01", &Scenario{Name: "large", Seq: true, Weight: 3, MaxSteps: big, Run: func(r *R) {
		r.Logf("entropy %s", pickEntropy(r))
		r.Probe("hundreds or thousands of keys")
		keys := r.Range(300, 2500)
		skipRun(r, func(i int) int { return i }, keys, r.Range(40, 160), [][]int{{2, 1, 1, 1, 1, 8, 1, 0}, {2, 1, 1, 1, 1, 4, 1, 0}}[r.Choose(2)])
	}})
	register("K01", &Scenario{Name: "long texts", Seq: true, Weight: 6, MaxSteps: big, Run: largeCrypt})
	register("Z01", &Scenario{Name: "large", Seq: true, Weight: 2, MaxSteps: big, Run: largeRand})
	register("F04", &Scenario{Name: "long values", Seq: true, Weight: 12, MaxSteps: big, Run: largeFile})
}
