package main

import (
	"errors"
	"fmt"
	"runtime"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
)

// poolLedger knows, for every object of the run, who has it. Objects are
// compared by identity. Its methods run without scheduling points.
type poolEnt struct {
	ident uintptr // identity of pointers and arrays, or the number inside a value
	pool  int
	held  bool // by a client
	inn   int  // times available in the pool
	want  string
}

type poolLedger struct {
	ents [256]poolEnt
	n    int
	bad  string
	gets int
	hits int
}

//go:norace
func (l *poolLedger) fresh(pool int, ident uintptr) {
	if l.n < len(l.ents) {
		l.ents[l.n] = poolEnt{ident: ident, pool: pool}
		l.n++
	}
}

//go:norace
func (l *poolLedger) find(pool int, ident uintptr) *poolEnt {
	for i := l.n - 1; i >= 0; i-- {
		if l.ents[i].ident == ident && l.ents[i].pool == pool {
			return &l.ents[i]
		}
	}
	return nil
}

// got records that a client was handed an object; made says whether the
// constructor made it for this very call.
//
//go:norace
func (l *poolLedger) got(client, pool int, ident uintptr, desc string, made bool) {
	l.gets++
	e := l.find(pool, ident)
	if e == nil {
		l.fail(fmt.Sprintf("client %d: Get on pool %d returned an object that was never put into it nor made by its constructor (%s)", client, pool, desc))
		return
	}
	if made {
		if e.held || e.inn > 0 {
			l.fail(fmt.Sprintf("client %d: constructor result handed out twice (%s)", client, desc))
		}
		e.held = true
		return
	}
	if e.inn == 0 {
		if e.held {
			l.fail(fmt.Sprintf("client %d: Get on pool %d returned an object that is in use (%s)", client, pool, desc))
		} else {
			l.fail(fmt.Sprintf("client %d: Get on pool %d returned an object more often than it was put (%s)", client, pool, desc))
		}
		return
	}
	l.hits++
	e.inn--
	e.held = true
	if e.want != desc {
		l.fail(fmt.Sprintf("client %d: object changed inside pool %d: put as %s, returned as %s", client, pool, e.want, desc))
	}
}

//go:norace
func (l *poolLedger) put(pool int, ident uintptr, desc string) {
	e := l.find(pool, ident)
	if e == nil {
		l.fresh(pool, ident)
		e = l.find(pool, ident)
	}
	if e != nil {
		e.held = false
		e.inn++
		e.want = desc
	}
}

//go:norace
func (l *poolLedger) fail(s string) {
	if l.bad == "" {
		l.bad = s
	}
}

//go:norace
func (l *poolLedger) full() bool { return l.n > len(l.ents)-8 }

type poolObj struct {
	id   int
	data int
}

type poolVal struct {
	id   int
	data int
}

type poolErr struct{ id int }

func (e *poolErr) Error() string { return fmt.Sprint("pooled error ", e.id) }

// poolAPI: get hands out something to hold; put returns it (changed on the way).
type poolAPI struct {
	get func(c int) any
	put func(c int, x any)
}

func init() {
	pools := func(r *R, led *poolLedger, ids *Cell, kind, idx int) poolAPI {
		var made [64]Cell // constructor results of the call a client is in
		_ = made
		switch kind {
		case 0: // pointers
			p := gpool.New(func() *poolObj {
				o := &poolObj{id: ids.Add(1)}
				led.fresh(idx, uintptr(unsafe.Pointer(o)))
				r.Yield()
				return o
			})
			return poolAPI{func(c int) any {
				o := p.Get()
				if o == nil {
					led.fail("Get returned nil")
					return nil
				}
				// A fresh object has never been written by a client.
				led.got(c, idx, uintptr(unsafe.Pointer(o)), fmt.Sprintf("object %d data %d", o.id, o.data), o.data == 0)
				return o
			}, func(c int, x any) {
				o := x.(*poolObj)
				r.Yield()
				o.data++
				led.put(idx, uintptr(unsafe.Pointer(o)), fmt.Sprintf("object %d data %d", o.id, o.data))
				p.Put(o)
			}}
		case 1: // plain values
			p := gpool.New(func() poolVal {
				v := poolVal{id: ids.Add(1)}
				led.fresh(idx, uintptr(v.id))
				r.Yield()
				return v
			})
			return poolAPI{func(c int) any {
				v := p.Get()
				led.got(c, idx, uintptr(v.id), fmt.Sprintf("value %d data %d", v.id, v.data), v.data == 0)
				return v
			}, func(c int, x any) {
				v := x.(poolVal)
				v.data++
				led.put(idx, uintptr(v.id), fmt.Sprintf("value %d data %d", v.id, v.data))
				p.Put(v)
			}}
		case 2: // an interface type whose constructor may give nil
			fresh := r.Choose(2)
			var made Cell
			p := gpool.New(func() error {
				made.Add(1)
				if fresh == 1 {
					return nil
				}
				e := &poolErr{ids.Add(1)}
				led.fresh(idx, uintptr(unsafe.Pointer(e)))
				return e
			})
			return poolAPI{func(c int) any {
				v := p.Get()
				var e *poolErr
				if !errors.As(v, &e) {
					if v != nil || fresh != 1 {
						led.fail(fmt.Sprintf("client %d: Get returned %v", c, v))
					}
					return nil
				}
				ent := led.find(idx, uintptr(unsafe.Pointer(e)))
				led.got(c, idx, uintptr(unsafe.Pointer(e)), fmt.Sprintf("error %d", e.id), ent != nil && ent.want == "")
				return e
			}, func(c int, x any) {
				e, _ := x.(*poolErr)
				if e == nil {
					e = &poolErr{ids.Add(1)}
				}
				led.put(idx, uintptr(unsafe.Pointer(e)), fmt.Sprintf("error %d", e.id))
				p.Put(e)
			}}
		}
		size := []int{1, 2, 5, 0, 16, 64, 300, 1024, 4096, 10000, 70000}[r.Pick(80, 80, 60, 40, 20, 20, 10, 10, 10, 2, 1)]
		p := gpool.NewArrayPool[int](uint(size))
		ident := func(s []int) uintptr {
			if cap(s) == 0 {
				return 0
			}
			return uintptr(unsafe.Pointer(&s[:1][0]))
		}
		desc := func(s []int) string {
			if len(s) > 8 {
				sum := 0
				for i, v := range s {
					sum += v * (i + 1)
				}
				return fmt.Sprintf("slice %v... sum %d len %d cap %d", s[:8], sum, len(s), cap(s))
			}
			return fmt.Sprintf("slice %v cap %d", s, cap(s))
		}
		var modes [64]int
		for i := range modes {
			modes[i] = r.Pick(5, 2, 2, 1, 1)
		}
		turn := &Cell{}
		return poolAPI{func(c int) any {
			s := p.Get()
			if size == 0 && cap(s) == 0 {
				if len(s) != 0 || s == nil {
					led.fail("fresh slice of capacity 0 is nil")
				}
				return s
			}
			id := ident(s)
			if e := led.find(idx, id); e == nil {
				if len(s) != 0 || cap(s) != size {
					led.fail(fmt.Sprintf("client %d: fresh slice has length %d and capacity %d, want 0 and %d", c, len(s), cap(s), size))
				}
				led.fresh(idx, id)
				led.got(c, idx, id, desc(s), true)
				return s
			}
			led.got(c, idx, id, desc(s), false)
			return s
		}, func(c int, x any) {
			s := x.([]int)
			if cap(s) == 0 {
				s = make([]int, 0, 2)
			}
			if len(s) == cap(s) {
				s = s[:0]
			}
			r.Yield()
			switch modes[turn.Add(1)%64] {
			case 0:
				s = append(s, ids.Add(1))
			case 1: // empty, with whatever is behind
				s = s[:0]
			case 2: // as it is
			case 3: // in full
				s = s[:cap(s)]
				s[len(s)-1] = ids.Add(1)
			case 4: // grown
				s = append(s, make([]int, cap(s)-len(s)+1)...)
			}
			led.put(idx, ident(s), desc(s))
			p.Put(s)
		}}
	}
	register("P01", &Scenario{Name: "holders", Race: true, MaxSteps: 40000, Run: func(r *R) {
		led := &poolLedger{}
		ids := &Cell{}
		n := r.Range(1, 2)
		var apis []poolAPI
		kind := r.Choose(4)
		for i := 0; i < n; i++ {
			apis = append(apis, pools(r, led, ids, kind, i))
		}
		type step struct {
			kind, pool int // 0 get, 1 put, 2 garbage collection, 3 put a new one
		}
		clients, per := r.Range(2, 5), r.Range(1, 8)
		gcs := r.Choose(3)
		for c := 1; c <= clients; c++ {
			c := c
			var plan []step
			for i := 0; i < per; i++ {
				s := step{r.Choose(2), r.Choose(n)}
				if gcs > 0 && r.Choose(12) == 11 {
					s.kind = 2
				}
				if kind == 3 && r.Choose(8) == 7 {
					s.kind = 3
				}
				plan = append(plan, s)
			}
			r.Go(fmt.Sprintf("client %d", c), 1, func() {
				var held [2][8]any
				var cnt [2]int
				for _, s := range plan {
					switch s.kind {
					case 2:
						r.Probe("fault: pools emptied")
						runtime.SimClearPools(gcs)
						continue
					case 3: // an array that did not come from the pool
						apis[s.pool].put(c, make([]int, 0, 3))
						continue
					case 1:
						if k := cnt[s.pool]; k > 0 {
							cnt[s.pool]--
							apis[s.pool].put(c, held[s.pool][k-1])
							continue
						}
					}
					x := apis[s.pool].get(c)
					if x != nil {
						held[s.pool][cnt[s.pool]] = x
						cnt[s.pool]++
					}
					r.Yield()
				}
				r.Yield()
				for p := 0; p < n; p++ {
					for i := 0; i < cnt[p]; i++ {
						apis[p].put(c, held[p][i])
					}
				}
			})
		}
		if !r.Join() {
			return
		}
		// Drain: everything the pools still hold comes out once and unchanged.
		for p := range apis {
			for i := 0; i < 12; i++ {
				apis[p].get(0)
			}
		}
		if led.hits > 0 {
			r.NonTriv()
			r.Probe("object reused")
		}
		r.Logf("kind %d, pools %d, clients %d: %d Gets, %d reused", kind, n, clients, led.gets, led.hits)
		if led.bad != "" {
			r.Fail("pool-ownership", "%s", led.bad)
		}
	}})
}
