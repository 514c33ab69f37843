package main

import (
	"fmt"
	"unsafe"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
)

// Operations on one key of a map.
type mapIn struct {
	Kind string
	Key  int
	Val  int // value written / new value
	Old  int
}

type mapOut struct {
	Val int
	Ok  bool
}

type mapState struct {
	Present bool
	Val     int
}

var mapModel = Model{
	Init: mapState{},
	Key: func(s any) string {
		m := s.(mapState)
		return fmt.Sprint(m.Present, m.Val)
	},
	Step: func(s any, op *Op) []any {
		m := s.(mapState)
		in := op.In.(mapIn)
		want := mapOut{}
		next := m
		switch in.Kind {
		case "load":
			if m.Present {
				want = mapOut{m.Val, true}
			}
		case "store":
			next = mapState{true, in.Val}
		case "swap":
			if m.Present {
				want = mapOut{m.Val, true}
			}
			next = mapState{true, in.Val}
		case "loadorstore":
			if m.Present {
				want = mapOut{m.Val, true}
			} else {
				want = mapOut{in.Val, false}
				next = mapState{true, in.Val}
			}
		case "loadanddelete":
			if m.Present {
				want = mapOut{m.Val, true}
			}
			next = mapState{}
		case "delete":
			next = mapState{}
		case "cas":
			if m.Present && m.Val == in.Old {
				want.Ok = true
				next = mapState{true, in.Val}
			}
		case "cad":
			if m.Present && m.Val == in.Old {
				want.Ok = true
				next = mapState{}
			}
		}
		if op.Ret == pending {
			return []any{next, m}
		}
		if op.Out.(mapOut) != want {
			return nil
		}
		return []any{next}
	},
}

// mapAPI adapts maps of several key and value types to ints.
type mapAPI struct {
	load, loadAndDelete func(k int) (int, bool)
	store               func(k, v int)
	del                 func(k int)
	swap, loadOrStore   func(k, v int) (int, bool)
	cas                 func(k, o, n int) bool
	cad                 func(k, o int) bool
	rng                 func(f func(k, v int) bool)
	noCompare           bool
}

func adaptMap[K comparable, V any](m *gsync.Map[K, V], kt func(int) K, kf func(K) int, vt func(int) V, vf func(V) int) mapAPI {
	vo := func(v V, ok bool) (int, bool) {
		return vf(v), ok
	}
	return mapAPI{
		load:          func(k int) (int, bool) { return vo(m.Load(kt(k))) },
		loadAndDelete: func(k int) (int, bool) { return vo(m.LoadAndDelete(kt(k))) },
		store:         func(k, v int) { m.Store(kt(k), vt(v)) },
		del:           func(k int) { m.Delete(kt(k)) },
		swap:          func(k, v int) (int, bool) { return vo(m.Swap(kt(k), vt(v))) },
		loadOrStore:   func(k, v int) (int, bool) { return vo(m.LoadOrStore(kt(k), vt(v))) },
		cas:           func(k, o, n int) bool { return m.CompareAndSwap(kt(k), vt(o), vt(n)) },
		cad:           func(k, o int) bool { return m.CompareAndDelete(kt(k), vt(o)) },
		rng:           func(f func(k, v int) bool) { m.Range(func(k K, v V) bool { return f(kf(k), vf(v)) }) },
	}
}

type mkey struct {
	A string
	B int
}

func newMapAPI(kind int) mapAPI {
	id := func(i int) int { return i }
	switch kind {
	case 1:
		ks := [...]string{"", "a", "key-2", "κ3", "4", "5", "6", "7"}
		return adaptMap(new(gsync.Map[string, string]), func(i int) string { return ks[i] },
			func(s string) int {
				for i, k := range ks {
					if k == s {
						return i
					}
				}
				return -1
			},
			func(i int) string {
				if i == 0 {
					return ""
				}
				return fmt.Sprintf("v%d", i)
			},
			func(s string) int {
				if s == "" {
					return 0
				}
				n := 0
				for _, c := range s[1:] {
					n = n*10 + int(c-'0')
				}
				return n
			})
	case 2: // interface values of mixed types: equality needs type and value
		return adaptMap(new(gsync.Map[mkey, any]), func(i int) mkey { return mkey{"x", i} }, func(k mkey) int { return k.B },
			func(i int) any {
				switch i % 3 {
				case 0:
					if i == 0 {
						return nil
					}
					return i
				case 1:
					return int64(i)
				}
				return mkey{"v", i}
			},
			func(v any) int {
				switch v := v.(type) {
				case int:
					return v
				case int64:
					return int(v)
				case mkey:
					return v.B
				}
				return 0
			})
	case 3: // struct values
		return adaptMap(new(gsync.Map[any, mkey]), func(i int) any {
			if i%2 == 0 {
				return i
			}
			return fmt.Sprint(i)
		}, func(k any) int {
			switch k := k.(type) {
			case int:
				return k
			case string:
				n := 0
				fmt.Sscan(k, &n)
				return n
			}
			return -1
		}, func(i int) mkey {
			if i == 0 {
				return mkey{}
			}
			return mkey{"s", i}
		}, func(v mkey) int { return v.B })
	case 4: // values without a size: only presence matters
		return adaptMap(new(gsync.Map[int8, struct{}]), func(i int) int8 { return int8(i) }, func(k int8) int { return int(k) },
			func(int) struct{} { return struct{}{} }, func(struct{}) int { return 0 })
	case 5: // values that cannot be compared: all operations but the two comparing ones
		ks := [...]string{"", "a", "key-2", "\xff3", "4", "5", "6", "7"}
		api := adaptMap(new(gsync.Map[string, []byte]), func(i int) string { return ks[i] },
			func(s string) int {
				for i, k := range ks {
					if k == s {
						return i
					}
				}
				return -1
			},
			func(i int) []byte {
				if i == 0 {
					return nil
				}
				return []byte{byte(i >> 8), byte(i)}
			},
			func(b []byte) int {
				if b == nil {
					return 0
				}
				return int(b[0])<<8 | int(b[1])
			})
		api.noCompare = true
		return api
	case 6: // pointers to equal contents: they are different values
		return adaptMap(new(gsync.Map[uint16, *mkey]), func(i int) uint16 { return uint16(i) << 8 },
			func(k uint16) int { return int(k >> 8) },
			func(i int) *mkey {
				if i == 0 {
					return nil
				}
				return &mapPointees[i%len(mapPointees)]
			},
			func(p *mkey) int {
				if p == nil {
					return 0
				}
				return int((uintptr(unsafe.Pointer(p)) - uintptr(unsafe.Pointer(&mapPointees[0]))) / unsafe.Sizeof(mapPointees[0]))
			})
	}
	return adaptMap(new(gsync.Map[int, int]), id, id, id, id)
}

var mapPointees [1024]mkey

var mapKinds = []string{"load", "store", "delete", "loadorstore", "loadanddelete", "swap", "cas", "cad"}

func (a *mapAPI) do(in mapIn) mapOut {
	var o mapOut
	switch in.Kind {
	case "load":
		o.Val, o.Ok = a.load(in.Key)
	case "store":
		a.store(in.Key, in.Val)
	case "delete":
		a.del(in.Key)
	case "loadorstore":
		o.Val, o.Ok = a.loadOrStore(in.Key, in.Val)
	case "loadanddelete":
		o.Val, o.Ok = a.loadAndDelete(in.Key)
	case "swap":
		o.Val, o.Ok = a.swap(in.Key, in.Val)
	case "cas":
		o.Ok = a.cas(in.Key, in.Old, in.Val)
	case "cad":
		o.Ok = a.cad(in.Key, in.Old)
	}
	return o
}

type mapRec struct {
	client    int
	in        mapIn
	out       mapOut
	call, ret uint64
}

func (m mapRec) op() *Op {
	d := fmt.Sprintf("%s(k%d", m.in.Kind, m.in.Key)
	switch m.in.Kind {
	case "store", "swap", "loadorstore":
		d += fmt.Sprintf(", %d)", m.in.Val)
	case "cas":
		d += fmt.Sprintf(", old %d, new %d)", m.in.Old, m.in.Val)
	case "cad":
		d += fmt.Sprintf(", old %d)", m.in.Old)
	default:
		d += ")"
	}
	if m.ret != pending {
		d += fmt.Sprintf(" = %d,%v", m.out.Val, m.out.Ok)
	}
	return &Op{Client: m.client, Call: m.call, Ret: m.ret, In: m.in, Out: m.out, Desc: d}
}

// mapWorkload runs a random concurrent history and checks it per key.
type mapWorkload struct {
	r     *R
	api   mapAPI
	log   *Log[mapRec]
	keys  int
	clash Cell
	cnt   Cell

	noValue bool // all values are the same
}

// kind picks the types of the map and, now and then, many keys.
func (w *mapWorkload) kind() int {
	k := w.r.Choose(4)
	switch w.r.Choose(12) {
	case 11:
		k, w.noValue = 4, true
	case 10:
		k = 5
	case 9:
		k = 6
	}
	if k != 1 && k != 5 && w.r.Choose(40) == 39 {
		w.keys = w.r.Range(9, 30)
	}
	return k
}

// prefix is the number of operations before clients start.
func (w *mapWorkload) prefix(n int) int {
	if w.keys > 8 {
		return w.r.Range(w.keys, 3*w.keys)
	}
	return w.r.Choose(n)
}

// exec performs one operation and records it.
func (w *mapWorkload) exec(client int, in mapIn) mapOut {
	i := w.log.Add(mapRec{client: client, in: in, call: stamp(), ret: pending})
	w.r.Yield()
	out := w.api.do(in)
	w.log.Set(i, mapRec{client: client, in: in, out: out, call: w.callOf(i), ret: stamp()})
	return out
}

//go:norace
func (w *mapWorkload) callOf(i int) uint64 {
	if i < 0 {
		return 0
	}
	return w.log.buf[i].call
}

// gen draws one operation. last is the value this client last saw per key.
func (w *mapWorkload) gen(mix []int, last []int) mapIn {
	r := w.r
	in := mapIn{Kind: mapKinds[r.Pick(mix...)], Key: r.Choose(w.keys)}
	in.Val = w.cnt.Add(1)
	switch r.Choose(4) {
	case 0, 1:
		in.Old = last[in.Key]
	case 2:
		if n := w.cnt.Get(); n > 1 {
			in.Old = 1 + r.Choose(n)
		}
	case 3:
		in.Old = 0
	}
	if r.Choose(8) == 7 { // values may repeat: A-B-A
		in.Val = 1 + r.Choose(in.Val)
	}
	if r.Choose(16) == 15 {
		in.Val = 0 // the zero value is a value
	}
	if w.noValue {
		in.Val, in.Old = 0, 0
	}
	if w.api.noCompare {
		switch in.Kind {
		case "cas":
			in.Kind = "swap"
		case "cad":
			in.Kind = "loadanddelete"
		}
	}
	return in
}

var mapMixes = [][]int{
	{4, 4, 2, 2, 2, 2, 2, 2},
	{6, 3, 3, 0, 0, 0, 0, 0},
	{3, 2, 1, 4, 4, 0, 0, 0},
	{2, 2, 0, 0, 0, 2, 6, 4},
	{2, 1, 3, 3, 1, 3, 1, 1},
	{1, 3, 4, 0, 2, 1, 3, 3},
	{8, 1, 2, 1, 1, 1, 1, 1},
}

func (w *mapWorkload) note(last []int, in mapIn, out mapOut) {
	switch in.Kind {
	case "load", "loadorstore":
		last[in.Key] = out.Val
	case "store", "swap":
		last[in.Key] = in.Val
	case "cas":
		if out.Ok {
			last[in.Key] = in.Val
		}
	}
}

func (w *mapWorkload) verify(extra []*Op) {
	r := w.r
	recs := w.log.All()
	byKey := make([][]*Op, w.keys)
	for _, m := range recs {
		byKey[m.in.Key] = append(byKey[m.in.Key], m.op())
	}
	for _, o := range extra {
		k := o.In.(mapIn).Key
		if k < 0 || k >= w.keys {
			r.Fail("range-key", "Range produced a key that was never stored: %s", o.Desc)
			return
		}
		byKey[k] = append(byKey[k], o)
	}
	for k, ops := range byKey {
		if overlaps(ops) {
			r.nontriv = true
		}
		ok, inc := linearizable(ops, mapModel)
		if inc {
			r.Probe("linearizability search abandoned")
		}
		if !ok {
			r.Fail("linearizability", "no one-at-a-time order explains the results on key %d", k)
			r.Logf("%s", describeOps(ops))
			return
		}
		if k == 0 {
			r.Logf("%s", describeOps(ops))
		}
	}
}

func init() {
	register("M01", &Scenario{Name: "ops", Race: true, Weight: 3000, MaxSteps: 20000, Run: func(r *R) {
		w := &mapWorkload{r: r, log: NewLog[mapRec](400), keys: r.Range(1, 4)}
		w.api = newMapAPI(w.kind())
		mix := mapMixes[r.Choose(len(mapMixes))]
		clients := r.Range(2, 4)
		per := r.Range(1, 5)
		last := make([]int, w.keys)
		for i, n := 0, w.prefix(8); i < n; i++ { // sequential prefix: promotions, deletions, expunged keys
			if r.Choose(6) == 5 {
				w.api.rng(func(k, v int) bool { return true })
				continue
			}
			in := w.gen(mapMixes[1+r.Choose(2)*3], last)
			w.note(last, in, w.exec(0, in))
		}
		plans := make([][]mapIn, clients)
		for c := range plans {
			for i := 0; i < per; i++ {
				if r.Choose(10) == 9 {
					plans[c] = append(plans[c], mapIn{Kind: "range"})
				} else {
					plans[c] = append(plans[c], w.gen(mix, last))
				}
			}
		}
		for c := range plans {
			c := c
			r.Go(fmt.Sprintf("client %d", c+1), 1, func() {
				mine := append([]int(nil), last...)
				for _, in := range plans[c] {
					if in.Kind == "range" {
						r.Yield()
						w.api.rng(func(k, v int) bool { r.Yield(); return true })
						continue
					}
					if in.Kind == "cas" || in.Kind == "cad" {
						if in.Old == last[in.Key] && mine[in.Key] != 0 {
							in.Old = mine[in.Key]
						}
					}
					w.note(mine, in, w.exec(c+1, in))
				}
			})
		}
		if !r.Join() {
			return
		}
		for k := 0; k < w.keys; k++ {
			w.exec(0, mapIn{Kind: "load", Key: k})
		}
		w.verify(nil)
	}})

	// CAS-heavy counters: every successful CompareAndSwap is one increment.
	register("M01", &Scenario{Name: "cas-counter", Race: true, Weight: 1000, MaxSteps: 30000, Run: func(r *R) {
		api := newMapAPI(r.Choose(4))
		clients := r.Range(2, 5)
		per := r.Range(1, 4)
		if r.Choose(2) == 1 {
			api.store(1, 1)
			api.rng(func(k, v int) bool { return true })
		}
		var ok Cell
		api.store(0, 1)
		for i, n := 0, r.Choose(4); i < n; i++ {
			api.load(0)
		}
		noise := r.Choose(3)
		for c := 0; c < clients; c++ {
			c := c
			r.Go(fmt.Sprintf("counter %d", c), 1, func() {
				for i := 0; i < per; {
					v, present := api.load(0)
					if !present {
						r.Fail("lost-key", "a key that is never deleted is absent")
						return
					}
					r.Yield()
					if api.cas(0, v, v+1) {
						ok.Add(1)
						i++
					} else {
						r.NonTriv()
					}
					switch noise {
					case 1:
						api.store(2+c%2, v)
					case 2:
						api.loadOrStore(2+c%2, v)
						api.del(2 + c%2)
					}
				}
			})
		}
		if !r.Join() {
			return
		}
		v, present := api.load(0)
		r.Logf("%d clients x %d increments: counter %d", clients, per, v)
		if !present || v != 1+ok.Get() || ok.Get() != clients*per {
			r.Fail("lost-update", "%d successful CompareAndSwap increments from 1, but the counter is %d (present %v)", ok.Get(), v, present)
		}
	}})

	rangeScenario := func(name string, reentrant bool) *Scenario {
		return &Scenario{Name: name, Race: true, Weight: 2000, MaxSteps: 20000, Run: func(r *R) {
			w := &mapWorkload{r: r, log: NewLog[mapRec](500), keys: r.Range(1, 5)}
			w.api = newMapAPI(w.kind())
			mix := mapMixes[r.Choose(len(mapMixes))]
			last := make([]int, w.keys)
			for i, n := 0, w.prefix(9); i < n; i++ {
				if r.Choose(6) == 5 {
					w.api.rng(func(k, v int) bool { return true })
					continue
				}
				in := w.gen(mapMixes[1+r.Choose(2)*3], last)
				w.note(last, in, w.exec(0, in))
			}
			type visit struct {
				k, v int
				at   uint64
			}
			type rangeRec struct {
				call, ret uint64
				visits    *Log[visit]
				stopped   bool
				client    int
			}
			ranges := NewLog[*rangeRec](16)
			doRange := func(client int, stopAfter int, inner []mapIn) {
				rr := &rangeRec{call: stamp(), visits: NewLog[visit](64), client: client}
				ranges.Add(rr)
				r.Yield()
				n := 0
				stopped := false
				w.api.rng(func(k, v int) bool {
					if stopped {
						r.Fail("range-after-stop", "Range called its function again after it returned false")
					}
					rr.visits.Add(visit{k, v, stamp()})
					r.Yield()
					if n < len(inner) {
						w.exec(client, inner[n])
					}
					n++
					if n > 60 {
						r.Fail("range-repeat", "Range calls its function without end")
						return false
					}
					if n == stopAfter {
						stopped = true
						return false
					}
					return true
				})
				setRange(&rr.ret, &rr.stopped, stopped)
			}
			rangers := r.Range(1, 2)
			writers := r.Range(1, 3)
			for c := 0; c < rangers; c++ {
				c := c
				stopAfter := 0
				if r.Choose(4) == 3 {
					stopAfter = r.Range(1, 3)
				}
				var inner []mapIn
				if reentrant {
					for i, n := 0, r.Range(1, 4); i < n; i++ {
						inner = append(inner, w.gen(mix, last))
					}
				}
				times := r.Range(1, 2)
				r.Go(fmt.Sprintf("ranger %d", c), 1, func() {
					for i := 0; i < times; i++ {
						doRange(c+1, stopAfter, inner)
					}
				})
			}
			for c := 0; c < writers; c++ {
				c := c
				var plan []mapIn
				for i, n := 0, r.Range(1, 5); i < n; i++ {
					plan = append(plan, w.gen(mix, last))
				}
				r.Go(fmt.Sprintf("writer %d", c), 1, func() {
					for _, in := range plan {
						w.exec(10+c, in)
					}
				})
			}
			if !r.Join() || r.Failed() {
				return
			}
			doRange(0, 0, nil) // a quiescent Range must see exactly the contents
			for k := 0; k < w.keys; k++ {
				w.exec(0, mapIn{Kind: "load", Key: k})
			}
			var extra []*Op
			for i, rr := range ranges.All() {
				seen := map[int]bool{}
				for _, v := range rr.visits.All() {
					if seen[v.k] {
						r.Fail("range-repeat", "one Range visited key %d twice", v.k)
					}
					seen[v.k] = true
					in := mapIn{Kind: "load", Key: v.k}
					extra = append(extra, &Op{Client: 100 + i, Call: rr.call, Ret: v.at, In: in, Out: mapOut{v.v, true}, Desc: fmt.Sprintf("Range#%d by client %d visited k%d=%d", i, rr.client, v.k, v.v)})
				}
				if !rr.stopped {
					for k := 0; k < w.keys; k++ {
						if !seen[k] {
							extra = append(extra, &Op{Client: 100 + i, Call: rr.call, Ret: rr.ret, In: mapIn{Kind: "load", Key: k}, Out: mapOut{}, Desc: fmt.Sprintf("Range#%d by client %d did not visit k%d", i, rr.client, k)})
						}
					}
				}
			}
			w.verify(extra)
		}}
	}
	register("M02", rangeScenario("range", false))
	register("M02", rangeScenario("range-reentrant", true))
}

//go:norace
func setRange(ret *uint64, st *bool, stopped bool) {
	*ret = stamp()
	*st = stopped
}
