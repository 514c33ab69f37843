package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/library/stringx"
)

// Containers and helpers that promise nothing about concurrency except that
// reading together, and using different instances together, is harmless.
//
// Every result is compared with what an independent model says, or, where the
// function is its own definition (text helpers), with the result of the same
// call made alone.

// An acc is one read-only call on shared inputs. call must not format, append
// to shared slices or use maps of the harness that others write.
type acc struct {
	name string
	call func() any
	want any              // expected result; nil: whatever the call returns alone
	show func(any) string // canonical form; nil: display
}

type sharedThing struct {
	name string
	accs []acc
	same func() string // describes the inputs; must not change
	text *string       // the input, if there is nothing but it
}

func display(v any) string {
	switch x := v.(type) {
	case []int:
		if x == nil {
			return "nil slice"
		}
	case []string:
		if x == nil {
			return "nil slice"
		}
	case []byte:
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(v)
}

// sorted is the canonical form of slices whose order is unspecified.
func sorted(v any) string {
	switch x := v.(type) {
	case []int:
		y := append([]int(nil), x...)
		sort.Ints(y)
		return fmt.Sprint(y)
	case []string:
		y := append([]string(nil), x...)
		sort.Strings(y)
		return fmt.Sprintf("%q", y)
	case []gconstraints.Entry[int, int]:
		y := append([]gconstraints.Entry[int, int](nil), x...)
		sort.Slice(y, func(i, j int) bool { return y[i].Key < y[j].Key })
		return fmt.Sprint(y)
	}
	return display(v)
}

type two struct{ a, b any }

// ints draws a slice with guarded spare capacity.
func pureInts(r *R, max int) []int {
	n := r.Choose(max + 1)
	if r.Choose(40) == 39 {
		n = r.Range(max, 5*max+20)
		if r.Choose(8) == 7 {
			n = r.Range(100, 700)
		}
	}
	s := make([]int, n, n+r.Choose(5))
	span := []int{10, 3, 100}[r.Choose(3)]
	for i := range s {
		s[i] = r.Choose(span)
	}
	for i := n; i < cap(s); i++ {
		s[:cap(s)][i] = -7000 - i
	}
	return s
}

func fullInts(s []int) string { return fmt.Sprint(len(s), s[:cap(s)]) }

func clone(s []int) []int { return append([]int{}, s...) }

// scribble uses a result the way its owner may.
func scribble(s []int) {
	for i := range s {
		s[i] = -9999
	}
	s = append(s, -9998, -9997)
	_ = s
}

func listValues(l *glist.List[int]) []int {
	var s []int
	for e := l.Front(); e != nil; e = e.Next() {
		s = append(s, e.Value)
	}
	return s
}

func rev(s []int) []int {
	t := make([]int, 0, len(s))
	for i := len(s) - 1; i >= 0; i-- {
		t = append(t, s[i])
	}
	return t
}

func uniq(s []int, f func(int) int) []int {
	t := []int{}
	for i, v := range s {
		dup := false
		for _, w := range s[:i] {
			if f(w) == f(v) {
				dup = true
			}
		}
		if !dup {
			t = append(t, v)
		}
	}
	return t
}

func sharedList(r *R) *sharedThing {
	l := glist.New[int]()
	var m []int
	n := r.Range(0, 6)
	if r.Choose(80) == 79 {
		n = r.Range(30, 200)
	}
	for i := 0; i < n; i++ {
		if r.Choose(2) == 0 {
			l.PushBack(i)
			m = append(m, i)
		} else {
			l.PushFront(i)
			m = append([]int{i}, m...)
		}
	}
	t := &sharedThing{name: "list", same: func() string { return fmt.Sprint(listValues(l), l.Len()) }}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f})
	}
	add("Len", len(m), func() any { return l.Len() })
	add("walk forwards", m, func() any { return listValues(l) })
	add("walk backwards", rev(m), func() any {
		s := make([]int, 0, 8)
		for e := l.Back(); e != nil; e = e.Prev() {
			s = append(s, e.Value)
		}
		return s
	})
	add("Range", m, func() any {
		var s []int
		l.Range(func(e *glist.Element[int]) { s = append(s, e.Value) })
		return s
	})
	add("PushBackList of it twice", append(append([]int{5}, m...), m...), func() any {
		p := glist.New[int]()
		p.PushBack(5)
		p.PushBackList(l)
		p.PushBackList(l)
		s := listValues(p)
		p.Init()
		return s
	})
	add("PushFrontList of it", append(clone(m), 5), func() any {
		p := glist.New[int]()
		p.PushBack(5)
		p.PushFrontList(l)
		s := listValues(p)
		for p.Len() > 0 {
			p.Remove(p.Front())
		}
		return s
	})
	if n > 0 {
		add("refused operations", m, func() any {
			p := glist.New[int]()
			x := p.PushBack(1)
			if p.InsertBefore(2, l.Front()) != nil || p.InsertAfter(2, l.Back()) != nil {
				return "an element of another list was accepted"
			}
			p.MoveToFront(l.Back())
			p.MoveToBack(l.Front())
			p.MoveBefore(l.Back(), x)
			p.MoveAfter(x, l.Front())
			if p.Remove(l.Front()) != m[0] || p.Len() != 1 {
				return "Remove of another list's element"
			}
			return listValues(l)
		})
	}
	return t
}

func sharedQueue(r *R) *sharedThing {
	s := pureInts(r, 6)
	before := fullInts(s)
	q := gqueue.Gen(s)
	m := clone(s)
	for i := r.Choose(3); i > 0; i-- {
		q.Push(i)
		m = append(m, i)
	}
	if r.Choose(3) == 2 && len(m) > 0 {
		q.Pop()
		m = m[1:]
	}
	t := &sharedThing{name: "queue", same: func() string { return fmt.Sprint(gqueue.PeekAll(q), q.Len(), fullInts(s) == before) }}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f})
	}
	add("Len", len(m), func() any { return q.Len() })
	add("IsEmpty", len(m) == 0, func() any { return gqueue.IsEmpty(q) })
	add("PeekAll", m, func() any {
		s := gqueue.PeekAll(q)
		c := clone(s)
		scribble(s)
		return c
	})
	if len(m) > 0 {
		add("Peek", two{m[0], nil}, func() any { v, err := gqueue.Peek(q); return two{v, err} })
	} else {
		add("Peek", two{0, gqueue.ErrorEmptyQueue}, func() any { v, err := gqueue.Peek(q); return two{v, err} })
	}
	return t
}

func ringValues(g *gring.Ring[int]) []int {
	var s []int
	g.Do(func(v any) { s = append(s, v.(int)) })
	return s
}

func sharedRing(r *R) *sharedThing {
	n := r.Range(1, 6)
	g := gring.New[int](n)
	for i := 0; i < n; i++ {
		g.Value = i
		g = g.Next()
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	t := &sharedThing{name: "ring", same: func() string { return fmt.Sprint(ringValues(g), g.Len()) }}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f})
	}
	add("Len", n, func() any { return g.Len() })
	add("Do", all, func() any { return ringValues(g) })
	k := r.Choose(9) - 4
	add(fmt.Sprintf("Move(%d)", k), ((k%n)+n)%n, func() any { return g.Move(k).Value })
	add("Next", 1%n, func() any { return g.Next().Value })
	add("Prev", n-1, func() any { return g.Prev().Value })
	add("Prev of Next", 0, func() any { return g.Next().Prev().Value })
	add("walk backwards", two{0, n}, func() any {
		p, c := g.Prev(), 1
		for p != g {
			p = p.Prev()
			c++
		}
		return two{p.Value, c}
	})
	add("New is separate", []int{9}, func() any {
		h := gring.New[int](3)
		h.Value = 9
		h.Unlink(2)
		return ringValues(h)
	})
	return t
}

func sharedSet(r *R) *sharedThing {
	src := pureInts(r, 8)
	s := gset.NewSetWithSize[int](r.Choose(4))
	for _, v := range src {
		gset.Add(s, v)
	}
	m := uniq(src, func(i int) int { return i })
	t := &sharedThing{name: "set", same: func() string { return sorted(gset.Items(s)) + fmt.Sprint(len(s)) }}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f, show: sorted})
	}
	add("Len", len(m), func() any { return gset.Len(s) })
	for _, x := range []int{0, 1, r.Choose(100)} {
		x := x
		add(fmt.Sprintf("Contains(%d)", x), indexOf(m, x) >= 0, func() any { return gset.Contains(s, x) })
	}
	add("Items", m, func() any {
		it := gset.Items(s)
		c := clone(it)
		scribble(it)
		return c
	})
	return t
}

func indexOf(s []int, x int) int {
	for i, v := range s {
		if v == x {
			return i
		}
	}
	return -1
}

func sharedMap(r *R) *sharedThing {
	mk := func() (map[int]int, []gconstraints.Entry[int, int]) {
		m := map[int]int{}
		var es []gconstraints.Entry[int, int]
		for i, n := 0, r.Choose(7); i < n; i++ {
			e := gconstraints.Entry[int, int]{Key: r.Choose(6), Value: r.Choose(4)}
			es = append(es, e)
			m[e.Key] = e.Value
		}
		return m, es
	}
	m, es := mk()
	o, _ := mk()
	if r.Choose(2) == 1 { // the same keys, perhaps another value
		o = map[int]int{}
		for i := 0; i < 6; i++ {
			if v, ok := m[i]; ok {
				o[i] = v
				if r.Choose(6) == 5 {
					o[i]++
				}
			}
		}
	}
	var keys, vals []int
	var ents []gconstraints.Entry[int, int]
	for i := 0; i < 6; i++ {
		if v, ok := m[i]; ok {
			keys = append(keys, i)
			vals = append(vals, v)
			ents = append(ents, gconstraints.Entry[int, int]{Key: i, Value: v})
		}
	}
	eq := func(same func(a, b int) bool) bool {
		if len(m) != len(o) {
			return false
		}
		for _, e := range ents {
			if w, ok := o[e.Key]; !ok || !same(e.Value, w) {
				return false
			}
		}
		return true
	}
	near := func(a, b int) bool { return a-b < 2 && b-a < 2 }
	text := fmt.Sprint(m, o, es)
	t := &sharedThing{name: "map", same: func() string {
		if s := fmt.Sprint(m, o, es); s != text {
			return s
		}
		return text
	}}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f, show: sorted})
	}
	add("Keys", keys, func() any { s := gmap.Keys(m); c := clone(s); scribble(s); return c })
	add("Values", vals, func() any { s := gmap.Values(m); c := clone(s); scribble(s); return c })
	add("Len", len(m), func() any { return gmap.Len(m) })
	x := r.Choose(7)
	_, has := m[x]
	add(fmt.Sprintf("Contains(%d)", x), has, func() any { return gmap.Contains(m, x) })
	add("Copy", ents, func() any {
		c := gmap.Copy(m)
		e := gmap.Map2Entries(c)
		c[1000] = 1
		gmap.Clear(c)
		return e
	})
	add("Map2Entries", ents, func() any { return gmap.Map2Entries(m) })
	add("Entries2Map", ents, func() any {
		c := gmap.Entries2Map(es)
		e := gmap.Map2Entries(c)
		gmap.Clear(c)
		return e
	})
	add("Equal", eq(func(a, b int) bool { return a == b }), func() any { return gmap.Equal(m, o) })
	add("Equal with itself", true, func() any { return gmap.Equal(m, m) })
	add("EqualWithFunc", eq(near), func() any { return gmap.EqualWithFunc(m, o, near) })
	return t
}

func sharedSlice(r *R) *sharedThing {
	a, b := pureInts(r, 7), pureInts(r, 7)
	switch r.Choose(5) {
	case 1:
		b = clone(a)
	case 2:
		a = nil
	case 3:
		b = nil
	case 4:
		sort.Ints(a)
	}
	t := &sharedThing{name: "slice", same: func() string { return fullInts(a) + fullInts(b) }}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f})
	}
	own := func(s []int) any { // the caller owns the result: changing it must not matter
		if s == nil {
			return s
		}
		c := clone(s)
		scribble(s)
		return c
	}
	var cp any = []int(nil)
	if a != nil {
		cp = clone(a)
	}
	add("Copy", cp, func() any { return own(gslice.Copy(a)) })
	eq := len(a) == len(b)
	for i := 0; eq && i < len(a); i++ {
		eq = a[i] == b[i]
	}
	add("Equal", eq, func() any { return gslice.Equal(a, b) })
	add("EqualWithFunc", eq, func() any { return gslice.EqualWithFunc(a, b, func(x, y int) bool { return x == y }) })
	x := r.Choose(10)
	add(fmt.Sprintf("Index(%d)", x), indexOf(a, x), func() any { return gslice.Index(a, x) })
	add(fmt.Sprintf("Contains(%d)", x), indexOf(a, x) >= 0, func() any { return gslice.Contains(a, x) })
	add("IndexWithFunc", indexOf(a, x), func() any { return gslice.IndexWithFunc(a, func(v int) bool { return v == x }) })
	add("ContainsWithFunc", indexOf(a, x) >= 0, func() any { return gslice.ContainsWithFunc(a, func(v int) bool { return v == x }) })
	add("Len", len(a), func() any { return gslice.Len(a) })
	u := uniq(a, func(i int) int { return i })
	add("Unique", two{u, len(u)}, func() any { s, n := gslice.Unique(a); return two{own(s), n} })
	v := uniq(a, func(i int) int { return i % 3 })
	add("UniqueWithFunc", two{v, len(v)}, func() any {
		s, n := gslice.UniqueWithFunc(a, func(i int) int { return i % 3 })
		return two{own(s), n}
	})
	add("Merge", append(clone(a), b...), func() any { return own(gslice.Merge(a, b)) })
	add("Merge with itself", append(clone(a), a...), func() any { return own(gslice.Merge(a, a)) })
	add("IsSorted", sort.IntsAreSorted(a), func() any { return gslice.IsSorted(a) })
	add("IsSortedFunc", sort.IntsAreSorted(a), func() any { return gslice.IsSortedFunc(a, func(x, y int) bool { return x < y }) })
	mx, mn := 0, 0
	for i, y := range a {
		if i == 0 || y > mx {
			mx = y
		}
		if i == 0 || y < mn {
			mn = y
		}
	}
	add("MaxCollection", mx, func() any { return gnumerics.MaxCollection(a) })
	add("MinCollection", mn, func() any { return gnumerics.MinCollection(a) })
	add("MaxBy", mx, func() any { return gnumerics.MaxBy(a, func(x, y int) bool { return x > y }) })
	add("MinBy", mn, func() any { return gnumerics.MinBy(a, func(x, y int) bool { return x < y }) })
	p, q := r.Choose(5), r.Choose(5)
	hi, lo := p, q
	if q > p {
		hi, lo = q, p
	}
	add("Max and Min", two{hi, lo}, func() any { return two{gnumerics.Max(p, q), gnumerics.Min(p, q)} })
	add("ToPtr, ToValue", two{p, 0}, func() any {
		v := gconstraints.ToPtr(p)
		w := gconstraints.ToValue(v)
		*v = 77
		return two{w, gconstraints.ToValue[int](nil)}
	})
	add("Empty, IsEmpty, Pack", two{two{"", p == 0}, two{p, q}}, func() any {
		k, w := gconstraints.Pack(p, q).Unpack()
		return two{two{gconstraints.Empty[string](), gconstraints.IsEmpty(p) && !gconstraints.IsNotEmpty(p)}, two{k, w}}
	})
	return t
}

func lessInt(a, b int) bool { return a < b }

// pureSize draws the range of keys and the number of operations on them.
func pureSize(r *R) (int, int) {
	if r.Choose(80) == 79 {
		return 400, r.Range(60, 300)
	}
	return 12, r.Range(0, 10)
}

func sharedTree(r *R) *sharedThing {
	t := rbt.New[int, int](lessInt)
	m := map[int]int{}
	span, n := pureSize(r)
	for i := 0; i < n; i++ {
		k := r.Choose(span)
		if r.Choose(4) == 3 {
			t.Delete(k)
			delete(m, k)
		} else {
			t.Insert(k, 100+i)
			m[k] = 100 + i
		}
	}
	pick := func(ok func(k int) bool) (ks, vs []int) {
		ks, vs = []int{}, []int{}
		for k := -1; k < span+2; k++ {
			if v, in := m[k]; in && ok(k) {
				ks = append(ks, k)
				vs = append(vs, v)
			}
		}
		return
	}
	ks, vs := pick(func(int) bool { return true })
	th := &sharedThing{name: "tree", same: func() string { return fmt.Sprint(t.Keys(), t.Values(), t.Len(), t.String()) }}
	add := func(name string, want any, f func() any) {
		th.accs = append(th.accs, acc{name: name, want: want, call: f})
	}
	add("Keys", ks, func() any { s := t.Keys(); c := clone(s); scribble(s); return c })
	add("Values", vs, func() any { s := t.Values(); c := clone(s); scribble(s); return c })
	var pairs []two
	for i := range ks {
		pairs = append(pairs, two{ks[i], vs[i]})
	}
	add("Nodes", pairs, func() any {
		var s []two
		for _, p := range t.Nodes() {
			k, v := p.Unpack()
			s = append(s, two{k, v})
		}
		return s
	})
	add("Len, Empty", two{len(ks), len(ks) == 0}, func() any { return two{t.Len(), t.Empty()} })
	x := r.Choose(span)
	_, has := m[x]
	add(fmt.Sprintf("Search(%d)", x), has, func() any { return t.Search(x) })
	add(fmt.Sprintf("Get(%d)", x), m[x], func() any { return t.Get(x) })
	_, even := pick(func(k int) bool { return k%2 == 0 })
	add("GetIf", even, func() any { return t.GetIf(func(k int) bool { return k%2 == 0 }) })
	lo, hi := r.Choose(span), r.Choose(span)
	if lo > hi {
		lo, hi = hi, lo
	}
	// The results are trees of their own: changing them must not matter.
	sub := func(s *rbt.RbTree[int, int]) any {
		k := s.Keys()
		for _, x := range k {
			s.Update(x, -5)
		}
		for i, x := range k {
			if i%2 == 0 {
				s.Delete(x)
			}
		}
		s.Insert(50, 50)
		s.Clear()
		return k
	}
	for _, inc := range []bool{false, true} {
		inc := inc
		// With equal bounds and one of them exclusive the tree and its documentation disagree; both ends alike here.
		w, _ := pick(func(k int) bool { return k > lo && k < hi || inc && (k == lo || k == hi) })
		add(fmt.Sprintf("SubTree(%d,%d,%v)", lo, hi, inc), w, func() any { return sub(t.SubTree(lo, inc, hi, inc)) })
		w, _ = pick(func(k int) bool { return k < lo || inc && k == lo })
		add(fmt.Sprintf("LeftSubTree(%d,%v)", lo, inc), w, func() any { return sub(t.LeftSubTree(lo, inc)) })
		w, _ = pick(func(k int) bool { return k > lo || inc && k == lo })
		add(fmt.Sprintf("RightSubTree(%d,%v)", lo, inc), w, func() any { return sub(t.RightSubTree(lo, inc)) })
	}
	add("String", nil, func() any { return t.String() })
	return th
}

func sharedSkip(r *R) *sharedThing {
	l := gskiplist.New[int, skipEnt]()
	var m skipModel
	span, n := pureSize(r)
	for i := 0; i < n; i++ {
		k := r.Choose(span)
		if r.Choose(4) == 3 {
			l.Delete(k)
			m.del(k)
		} else {
			l.Insert(k, skipEnt{k, i})
			m.put(k, i)
		}
	}
	t := &sharedThing{name: "skip list", same: func() string { return l.String() + fmt.Sprint(l.GetNodeCount()) }}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f})
	}
	add("count", two{len(m), len(m) == 0}, func() any { return two{l.GetNodeCount(), l.IsEmpty()} })
	for i := 0; i < 2; i++ {
		x := r.Choose(span + 1)
		j, has := m.at(x)
		var w, g any = two{skipEnt{}, false}, nil
		if has {
			w = two{m[j], true}
		}
		if j < len(m) {
			g = two{m[j], two{m[(j+1)%len(m)], m[(j+len(m)-1)%len(m)]}}
		} else {
			g = "none"
		}
		add(fmt.Sprintf("Find(%d)", x), w, func() any { v, ok := l.Find(x); return two{v, ok} })
		add(fmt.Sprintf("FindGreaterOrEqual(%d)", x), g, func() any {
			e, ok := l.FindGreaterOrEqual(x)
			if !ok {
				return "none"
			}
			return two{e.GetValue(), two{l.Next(e).GetValue(), l.Prev(e).GetValue()}}
		})
	}
	if len(m) > 0 {
		add("walk", two{m[0], []skipEnt(m)}, func() any {
			e := l.GetSmallestNode()
			first := e.GetValue()
			s := make([]skipEnt, 0, len(m))
			for i := 0; i < len(m); i++ {
				s = append(s, e.GetValue())
				e = l.Next(e)
			}
			return two{first, s}
		})
		add("largest", m[len(m)-1], func() any { return l.GetLargestNode().GetValue() })
	}
	add("String", nil, func() any { return l.String() })
	return t
}

var textParts = []string{"xx_", "Yy", "id", "_id", "http", "URL", "__", "1_2", " ", "  ", "\n", "\t \n", "\r\n\r\n", "&#5496;", "&#7c;", `\u5496`, `\u7c`, `"`, "<b>", "\x01", "\u2028", "é", "\xff", "0", "A", "z!", "\\", "user_api_json"}

func sharedText(r *R) *sharedThing {
	var parts []string
	most := 5
	if r.Choose(30) == 29 {
		most = 60
		if r.Choose(8) == 7 {
			most = 800
		}
	}
	for i, n := 0, r.Range(0, most); i < n; i++ {
		parts = append(parts, textParts[r.Choose(len(textParts))])
	}
	return textOf(r, strings.Join(parts, ""))
}

// textAlike is a text that differs little from another one.
func textAlike(r *R, s string) string {
	b := []byte(s)
	at := func() int { return r.Choose(len(b)) }
	if len(b) == 0 {
		return textParts[r.Choose(len(textParts))]
	}
	switch r.Choose(6) {
	case 1:
		b[len(b)-1] ^= 1
	case 2:
		b[0] ^= 0x20
	case 3:
		b[at()] = byte(r.Choose(128))
	case 4:
		i, j := at(), at()
		b[i], b[j] = b[j], b[i]
	case 5:
		return s + textParts[r.Choose(len(textParts))]
	default:
		// other contents of the same length
		n := len(b)
		for b = b[:0]; len(b) < n; {
			b = append(b, textParts[r.Choose(len(textParts))]...)
		}
		b = b[:n]
	}
	return string(b)
}

func textOf(r *R, text string) *sharedThing {
	s := string(append([]byte(nil), text...)) // not the constant: it may not be written
	keep := text + "!"
	b := make([]byte, len(s), len(s)+8)
	copy(b, s)
	for i := len(s); i < cap(b); i++ {
		b[:cap(b)][i] = 0xA5
	}
	t := &sharedThing{name: fmt.Sprintf("text %q", s), text: &text, same: func() string {
		return fmt.Sprintf("%q %q %v", s, b[:cap(b)], s+"!" == keep)
	}}
	add := func(name string, want any, f func() any) {
		t.accs = append(t.accs, acc{name: name, want: want, call: f})
	}
	add("SnakeString", nil, func() any { return stringx.SnakeString(s) })
	add("CamelString", nil, func() any { return stringx.CamelString(s) })
	add("LintCamelString", nil, func() any { return stringx.LintCamelString(s) })
	add("HTMLEntityToUTF8", nil, func() any { return stringx.HTMLEntityToUTF8(s, 16) })
	add("HTMLEntityToUTF8/10", nil, func() any { return stringx.HTMLEntityToUTF8(s, 10) })
	add("CodePointToUTF8/10", nil, func() any { return stringx.CodePointToUTF8(s, 10) })
	add("CodePointToUTF8", nil, func() any { return stringx.CodePointToUTF8(s, 16) })
	add("SpaceInOne", nil, func() any { return stringx.SpaceInOne(s) })
	add("Indent", nil, func() any { return stringx.Indent(s, "> ") })
	add("Indent/tab", nil, func() any { return stringx.Indent(s, "\t") })
	esc := r.Choose(2) == 1
	add("StringMarshalJSON", nil, func() any {
		j := stringx.StringMarshalJSON(s, esc)
		c := string(j)
		for i := range j {
			j[i] = '#'
		}
		_ = append(j, "####"...)
		return c
	})
	add("CheckPassword", nil, func() any {
		return two{password.CheckPassword(s, password.N|password.L|password.S, 1, 20), password.CheckPassword(s, password.LorU, 0)}
	})
	m5, s1, s2, s5 := md5.Sum([]byte(s)), sha1.Sum([]byte(s)), sha256.Sum256([]byte(s)), sha512.Sum512([]byte(s))
	add("Md5", hex.EncodeToString(m5[:]), func() any { return cryptox.Md5(b) })
	add("Sha1", hex.EncodeToString(s1[:]), func() any { return cryptox.Sha1(b) })
	add("Sha256", hex.EncodeToString(s2[:]), func() any { return cryptox.Sha256(b) })
	add("Sha512", hex.EncodeToString(s5[:]), func() any { return cryptox.Sha512(b) })
	h6, h3 := fnv.New64a(), fnv.New32a()
	h6.Write(b)
	h3.Write(b)
	add("Fnv1aToUint64", h6.Sum64(), func() any { return cryptox.Fnv1aToUint64(b) })
	add("Fnv1aToUint32", h3.Sum32(), func() any { return cryptox.Fnv1aToUint32(b) })
	add("StringToSlice", s, func() any { return string(unsafex.StringToSlice(s)) })
	add("SliceToString", s, func() any { return strings.Clone(unsafex.SliceToString(b)) })
	return t
}

var sharedKinds = []func(*R) *sharedThing{sharedList, sharedQueue, sharedRing, sharedSet, sharedMap, sharedSlice, sharedTree, sharedSkip, sharedText, sharedText}

// pcall makes a call and turns a panic into a result.
func pcall(f func() any) (v any) {
	defer func() {
		if e := recover(); e != nil {
			v = pureErr{e}
		}
	}()
	return f()
}

type pureErr struct{ v any }

func (p pureErr) String() string { return "panic: " + safeString(p.v) }

type pureCall struct {
	t   *sharedThing
	a   *acc
	c   int
	got any
}

func (a *acc) form(v any) string {
	if p, ok := v.(pureErr); ok {
		return p.String()
	}
	if a.show != nil {
		return a.show(v)
	}
	return display(v)
}

// ---- instances of their own ----

// An inst applies operations to one or two private instances and answers what a
// model of them answers.
type instOp struct{ op, a, b, c int }

type inst interface {
	do(o instOp) any
}

type listInst struct {
	l [2]*glist.List[int]
	e []*glist.Element[int] // every element made so far
}

func (x *listInst) do(o instOp) any {
	l := x.l[o.a%2]
	elem := func(i int) *glist.Element[int] {
		if len(x.e) == 0 {
			return nil
		}
		return x.e[i%len(x.e)]
	}
	made := func(e *glist.Element[int]) any {
		if e == nil {
			return "refused"
		}
		x.e = append(x.e, e)
		return e.Value
	}
	e, f := elem(o.b), elem(o.c)
	if e == nil {
		o.op %= 2
	}
	switch o.op {
	case 0:
		return made(l.PushBack(o.c))
	case 1:
		return made(l.PushFront(o.c))
	case 2:
		return made(l.InsertBefore(o.c, e))
	case 3:
		return made(l.InsertAfter(o.c, e))
	case 4:
		return l.Remove(e)
	case 5:
		l.MoveToFront(e)
	case 6:
		l.MoveToBack(e)
	case 7:
		l.MoveBefore(e, f)
	case 8:
		l.MoveAfter(e, f)
	case 9:
		if l.Len() < 40 {
			l.PushBackList(x.l[o.b%2])
		}
	case 10:
		if l.Len() < 40 {
			l.PushFrontList(x.l[o.b%2])
		}
	}
	return two{listValues(x.l[0]), two{listValues(x.l[1]), two{x.l[0].Len(), x.l[1].Len()}}}
}

// listModel keeps each list as the numbers of its elements.
type listModel struct {
	l    [2][]int // element numbers; -1: copied element, unreachable
	v    []int    // value of each reachable element
	anon map[int]int
	next int
	nl   int // elements handed out
}

func (x *listModel) vals(i int) []int {
	var s []int
	for _, e := range x.l[i] {
		s = append(s, x.val(e))
	}
	return s
}

func (x *listModel) val(e int) int {
	if e < 0 {
		return x.anon[e]
	}
	return x.v[e]
}

func (x *listModel) do(o instOp) any {
	li := o.a % 2
	at := func(i, e int) int { return indexOf(x.l[i], e) }
	ins := func(pos, e int) {
		s := append([]int{}, x.l[li][:pos]...)
		s = append(s, e)
		x.l[li] = append(s, x.l[li][pos:]...)
	}
	cut := func(pos int) {
		s := append([]int{}, x.l[li][:pos]...)
		x.l[li] = append(s, x.l[li][pos+1:]...)
	}
	fresh := func() int { x.v = append(x.v, o.c); return len(x.v) - 1 }
	e, f := 0, 0
	if len(x.v) == 0 {
		o.op %= 2
	} else {
		e, f = o.b%len(x.v), o.c%len(x.v)
	}
	switch o.op {
	case 0:
		ins(len(x.l[li]), fresh())
		return o.c
	case 1:
		ins(0, fresh())
		return o.c
	case 2, 3:
		p := at(li, e)
		if p < 0 {
			return "refused"
		}
		ins(p+o.op-2, fresh())
		return o.c
	case 4:
		if p := at(li, e); p >= 0 {
			cut(p)
		}
		return x.v[e]
	case 5, 6:
		if p := at(li, e); p >= 0 {
			cut(p)
			if o.op == 5 {
				ins(0, e)
			} else {
				ins(len(x.l[li]), e)
			}
		}
	case 7, 8:
		if p := at(li, e); p >= 0 && e != f && at(li, f) >= 0 {
			cut(p)
			ins(at(li, f)+o.op-7, e)
		}
	case 9, 10:
		if len(x.l[li]) < 40 {
			var c []int
			for _, y := range x.l[o.b%2] {
				x.next--
				x.anon[x.next] = x.val(y)
				c = append(c, x.next)
			}
			if o.op == 9 {
				x.l[li] = append(append([]int{}, x.l[li]...), c...)
			} else {
				x.l[li] = append(c, x.l[li]...)
			}
		}
	}
	return two{x.vals(0), two{x.vals(1), two{len(x.l[0]), len(x.l[1])}}}
}

type queueInst struct{ q [2]*gqueue.Queue[int] }

func (x *queueInst) do(o instOp) any {
	q := x.q[o.a%2]
	switch o.op % 6 {
	case 0, 1:
		if err := q.Push(o.b); err != nil {
			return err
		}
	case 2, 3:
		v, err := q.Pop()
		return two{v, err}
	case 4:
		if o.b%4 == 0 {
			gqueue.Clear(q)
		}
	case 5:
		if o.b%3 == 0 {
			s := []int{}
			for v := range gqueue.Iterator(q) {
				s = append(s, v)
			}
			return s
		}
	}
	v, err := gqueue.Peek(q)
	return two{gqueue.PeekAll(x.q[0]), two{gqueue.PeekAll(x.q[1]), two{v, err}}}
}

type queueModel struct{ q [2][]int }

func (x *queueModel) do(o instOp) any {
	q := &x.q[o.a%2]
	switch o.op % 6 {
	case 0, 1:
		*q = append(clone(*q), o.b)
	case 2, 3:
		if len(*q) == 0 {
			return two{0, gqueue.ErrorEmptyQueue}
		}
		v := (*q)[0]
		*q = (*q)[1:]
		return two{v, nil}
	case 4:
		if o.b%4 == 0 {
			*q = nil
		}
	case 5:
		if o.b%3 == 0 {
			s := clone(*q)
			*q = nil
			return s
		}
	}
	peek := two{0, gqueue.ErrorEmptyQueue}
	if len(*q) > 0 {
		peek = two{(*q)[0], nil}
	}
	return two{clone(x.q[0]), two{clone(x.q[1]), peek}}
}

type heapInst struct{ h [2]*gheap.Heap[int] }

func (x *heapInst) do(o instOp) any {
	h := x.h[o.a%2]
	switch {
	case o.op%8 == 7:
		d := []int{o.a, o.b, o.c, o.b ^ o.c, o.a}[:1+o.b%5]
		x.h[o.a%2] = gheap.NewWithData(clone(d), lessInt)
		return len(d)
	case o.op%2 == 0 || o.c < 0:
		gheap.Push(h, o.b)
		return o.b
	}
	return gheap.Pop(h)
}

type heapModel struct{ h [2][]int }

func (x *heapModel) do(o instOp) any {
	h := &x.h[o.a%2]
	switch {
	case o.op%8 == 7:
		*h = []int{o.a, o.b, o.c, o.b ^ o.c, o.a}[:1+o.b%5]
		sort.Ints(*h)
		return len(*h)
	case o.op%2 == 0 || o.c < 0:
		*h = append(clone(*h), o.b)
		sort.Ints(*h)
		return o.b
	}
	v := (*h)[0]
	*h = (*h)[1:]
	return v
}

type sliceInst struct{ s [2][]int }

func (x *sliceInst) do(o instOp) any {
	s, t := x.s[o.a%2], x.s[1-o.a%2]
	odd := false
	switch o.op % 5 {
	case 0, 1:
		s = append(s, o.b%6)
	case 2:
		q := gslice.Reverse(s)
		odd = len(q) != len(s) || len(s) > 0 && &q[0] != &s[0]
		s = q
	case 3:
		s, _ = gslice.Unique(s)
	case 4:
		s = gslice.Merge(s, t)
		if len(s) > 12 {
			s = s[:12]
		}
	}
	x.s[o.a%2] = s
	return two{two{odd, gslice.IsSorted(s)}, two{clone(s), clone(t)}}
}

type sliceModel struct{ s [2][]int }

func (x *sliceModel) do(o instOp) any {
	s, t := clone(x.s[o.a%2]), x.s[1-o.a%2]
	switch o.op % 5 {
	case 0, 1:
		s = append(s, o.b%6)
	case 2:
		s = rev(s)
	case 3:
		s = uniq(s, func(i int) int { return i })
	case 4:
		s = append(s, t...)
		if len(s) > 12 {
			s = s[:12]
		}
	}
	x.s[o.a%2] = s
	return two{two{false, sort.IntsAreSorted(s)}, two{clone(s), clone(t)}}
}

type mapInst struct{ m [2]map[int]int }

func (x *mapInst) do(o instOp) any {
	m, t := x.m[o.a%2], x.m[1-o.a%2]
	switch o.op % 6 {
	case 0, 1, 2:
		m[o.b%7] = o.c
	case 3:
		delete(m, o.b%7)
	case 4:
		if o.c%3 == 0 {
			gmap.Clear(m)
		}
	case 5:
		m = gmap.Copy(t)
		if m == nil {
			m = map[int]int{}
		}
		m[o.b%7]++
		x.m[o.a%2] = m
	}
	k, v := gmap.Keys(m), gmap.Values(t)
	sort.Ints(k)
	sort.Ints(v)
	return two{two{clone(k), clone(v)}, gmap.Equal(m, t)}
}

type pureMapModel struct{ m [2][7]mapSlot }

type mapSlot struct {
	v  int
	ok bool
}

func (x *pureMapModel) do(o instOp) any {
	m, t := &x.m[o.a%2], &x.m[1-o.a%2]
	switch o.op % 6 {
	case 0, 1, 2:
		m[o.b%7] = mapSlot{o.c, true}
	case 3:
		m[o.b%7] = mapSlot{}
	case 4:
		if o.c%3 == 0 {
			*m = [7]mapSlot{}
		}
	case 5:
		*m = *t
		m[o.b%7] = mapSlot{m[o.b%7].v + 1, true}
	}
	k, v := []int{}, []int{}
	for i := range m {
		if m[i].ok {
			k = append(k, i)
		}
		if t[i].ok {
			v = append(v, t[i].v)
		}
	}
	sort.Ints(v)
	return two{two{k, v}, *m == *t}
}

type setInst struct{ s [2]gset.Set[int] }

func (x *setInst) do(o instOp) any {
	s := x.s[o.a%2]
	switch o.op % 4 {
	case 0, 1:
		return gset.Add(s, o.b%8)
	case 2:
		return gset.Remove(s, o.b%8)
	case 3:
		if o.c%4 == 0 {
			gset.Clear(s)
		}
	}
	return two{items(gset.Items(x.s[0])), two{items(gset.Items(x.s[1])), two{gset.Len(s), gset.Contains(s, o.b%8)}}}
}

func items(s []int) []int {
	c := clone(s)
	sort.Ints(c)
	return c
}

type setModel struct{ s [2]uint }

func (x *setModel) do(o instOp) any {
	s := &x.s[o.a%2]
	switch o.op % 4 {
	case 0, 1:
		*s |= 1 << (o.b % 8)
		return true
	case 2:
		*s &^= 1 << (o.b % 8)
		return true
	case 3:
		if o.c%4 == 0 {
			*s = 0
		}
	}
	list := func(u uint) []int {
		l := []int{}
		for i := 0; i < 8; i++ {
			if u>>i&1 == 1 {
				l = append(l, i)
			}
		}
		return l
	}
	return two{list(x.s[0]), two{list(x.s[1]), two{len(list(*s)), *s>>(o.b%8)&1 == 1}}}
}

type treeInst struct{ t [2]*rbt.RbTree[int, int] }

func (x *treeInst) do(o instOp) any {
	t := x.t[o.a%2]
	k := o.b % 12
	switch o.op {
	case 0, 1, 2, 3:
		return t.Insert(k, o.c)
	case 4, 5, 6:
		return t.Delete(k)
	case 7:
		v, ok := t.Update(k, o.c)
		if !ok {
			v = 0
		}
		return two{v, ok}
	case 8:
		if o.c%5 == 0 {
			t.Clear()
		}
	case 9: // the other one becomes a part of this one
		x.t[1-o.a%2] = t.RightSubTree(k, true)
	case 10:
		x.t[1-o.a%2] = t.LeftSubTree(k, false)
	}
	return two{two{x.t[0].Keys(), x.t[0].Values()}, two{two{x.t[1].Keys(), x.t[1].Values()}, two{t.Len(), two{t.Get(k), t.Search(k)}}}}
}

type treeModel struct{ t [2]skipModel }

func (x *treeModel) do(o instOp) any {
	t := &x.t[o.a%2]
	k := o.b % 12
	i, ok := t.at(k)
	old := 0
	if ok {
		old = (*t)[i].v
	}
	switch o.op {
	case 0, 1, 2, 3:
		t.put(k, o.c)
		return old
	case 4, 5, 6:
		t.del(k)
		return old
	case 7:
		if ok {
			t.put(k, o.c)
		}
		return two{old, ok}
	case 8:
		if o.c%5 == 0 {
			*t = nil
		}
	case 9:
		x.t[1-o.a%2] = append(skipModel(nil), (*t)[i:]...)
	case 10:
		x.t[1-o.a%2] = append(skipModel(nil), (*t)[:i]...)
	}
	kv := func(m skipModel) two {
		ks, vs := []int{}, []int{}
		for _, e := range m {
			ks = append(ks, e.k)
			vs = append(vs, e.v)
		}
		return two{ks, vs}
	}
	i, ok = t.at(k)
	old = 0
	if ok {
		old = (*t)[i].v
	}
	return two{kv(x.t[0]), two{kv(x.t[1]), two{len(*t), two{old, ok}}}}
}

type skipInst struct {
	l [2]*gskiplist.SkipList[int, skipEnt]
}

func (x *skipInst) do(o instOp) any {
	l := x.l[o.a%2]
	k := o.b % 12
	switch o.op {
	case 0, 1, 2, 3, 9, 10:
		l.Insert(k, skipEnt{k, o.c})
	case 4, 5, 6:
		l.Delete(k)
	case 7:
		return l.ChangeValue(k, skipEnt{k, o.c})
	}
	walk := func(l *gskiplist.SkipList[int, skipEnt]) []skipEnt {
		s := []skipEnt{}
		if l.IsEmpty() {
			return s
		}
		e := l.GetSmallestNode()
		for i := 0; i < l.GetNodeCount(); i++ {
			s = append(s, e.GetValue())
			e = l.Next(e)
		}
		return s
	}
	v, ok := l.Find(k)
	return two{walk(x.l[0]), two{walk(x.l[1]), two{v, ok}}}
}

type skipListModel struct{ l [2]skipModel }

func (x *skipListModel) do(o instOp) any {
	l := &x.l[o.a%2]
	k := o.b % 12
	_, ok := l.at(k)
	switch o.op {
	case 0, 1, 2, 3, 9, 10:
		l.put(k, o.c)
	case 4, 5, 6:
		l.del(k)
	case 7:
		if ok {
			l.put(k, o.c)
		}
		return ok
	}
	i, ok := l.at(k)
	var v skipEnt
	if ok {
		v = (*l)[i]
	}
	return two{append([]skipEnt{}, x.l[0]...), two{append([]skipEnt{}, x.l[1]...), two{v, ok}}}
}

// ringInst: rings made of five elements each, relinked within themselves.
type ringInst struct{ e [2][]*gring.Ring[int] }

func (x *ringInst) do(o instOp) any {
	e := x.e[o.a%2]
	p, q := e[o.b%len(e)], e[o.c%len(e)]
	switch o.op % 4 {
	case 0:
		p.Link(q)
	case 1:
		p.Unlink(o.c % 4)
	case 2:
		p.Value += 100
	}
	return two{ringValues(x.e[0][0]), two{ringValues(x.e[1][0]), two{ringValues(p), p.Len()}}}
}

// ringModel is a textbook circular list by index.
type ringModel struct {
	next, prev [2][]int
	v          [2][]int
}

func (x *ringModel) link(i, r, s int) {
	n, p := x.next[i][r], x.prev[i][s]
	x.next[i][r] = s
	x.prev[i][s] = r
	x.prev[i][n] = p
	x.next[i][p] = n
}

func (x *ringModel) vals(i, at int) []int {
	s := []int{x.v[i][at]}
	for p := x.next[i][at]; p != at; p = x.next[i][p] {
		s = append(s, x.v[i][p])
	}
	return s
}

func (x *ringModel) do(o instOp) any {
	i := o.a % 2
	n := len(x.v[i])
	p, q := o.b%n, o.c%n
	switch o.op % 4 {
	case 0:
		x.link(i, p, q)
	case 1:
		if k := o.c % 4; k > 0 {
			t := p
			for j := 0; j <= k; j++ {
				t = x.next[i][t]
			}
			x.link(i, p, t)
		}
	case 2:
		x.v[i][p] += 100
	}
	return two{x.vals(0, 0), two{x.vals(1, 0), two{x.vals(i, p), len(x.vals(i, p))}}}
}

type instKind struct {
	name  string
	make  func() inst
	model func() inst
}

var instKinds = []instKind{
	{"list", func() inst { return &listInst{l: [2]*glist.List[int]{glist.New[int](), new(glist.List[int])}} }, func() inst { return &listModel{anon: map[int]int{}} }},
	{"queue", func() inst { return &queueInst{[2]*gqueue.Queue[int]{gqueue.New[int](), gqueue.New[int]()}} }, func() inst { return &queueModel{} }},
	{"heap", func() inst { return &heapInst{[2]*gheap.Heap[int]{gheap.New(lessInt), gheap.New(lessInt)}} }, func() inst { return &heapModel{} }},
	{"slice", func() inst { return &sliceInst{} }, func() inst { return &sliceModel{} }},
	{"map", func() inst { return &mapInst{[2]map[int]int{{}, {}}} }, func() inst { return &pureMapModel{} }},
	{"set", func() inst { return &setInst{[2]gset.Set[int]{gset.NewSet[int](), gset.NewSetWithSize[int](3)}} }, func() inst { return &setModel{} }},
	{"tree", func() inst {
		return &treeInst{[2]*rbt.RbTree[int, int]{rbt.New[int, int](lessInt), rbt.New[int, int](lessInt)}}
	}, func() inst { return &treeModel{} }},
	{"skip list", func() inst {
		return &skipInst{[2]*gskiplist.SkipList[int, skipEnt]{gskiplist.New[int, skipEnt](), gskiplist.New[int, skipEnt]()}}
	}, func() inst { return &skipListModel{} }},
	{"ring", func() inst {
		x := &ringInst{}
		for i := range x.e {
			g := gring.New[int](5)
			for j := 0; j < 5; j++ {
				g.Value = j
				x.e[i] = append(x.e[i], g)
				g = g.Next()
			}
		}
		return x
	}, func() inst {
		x := &ringModel{}
		for i := range x.v {
			for j := 0; j < 5; j++ {
				x.v[i] = append(x.v[i], j)
				x.next[i] = append(x.next[i], (j+1)%5)
				x.prev[i] = append(x.prev[i], (j+4)%5)
			}
		}
		return x
	}},
}

func init() {
	register("X01", &Scenario{Name: "shared", Race: true, MaxSteps: 200000, Weight: 3, Run: func(r *R) {
		var things []*sharedThing
		for i, n := 0, 1+r.Choose(2); i < n; i++ {
			things = append(things, sharedKinds[r.Choose(len(sharedKinds))](r))
		}
		// Texts that are like each other.
		texts := things[0].text != nil && r.Choose(2) == 1
		if texts {
			things = things[:1]
			for i := r.Range(1, 3); i > 0; i-- {
				things = append(things, textOf(r, textAlike(r, *things[0].text)))
			}
		}
		pristine := true
		for _, t := range things {
			pristine = pristine && t.text != nil
		}
		before := make([]string, len(things))
		for i, t := range things {
			before[i] = t.same()
		}
		var calls []*pureCall
		clients, per := r.Range(2, 4), r.Range(1, 4)
		focus := r.Choose(2) == 1
		one := 0
		for c := 0; c < clients; c++ {
			for i := 0; i < per; i++ {
				t := things[r.Choose(len(things))]
				k := r.Choose(len(t.accs))
				if focus { // all callers use the same function
					if len(calls) == 0 {
						one = k
					}
					if !texts {
						t = things[0]
					}
					k = one % len(t.accs)
				}
				calls = append(calls, &pureCall{t: t, a: &t.accs[k], c: c})
			}
		}
		alone := r.Choose(2) // when the call is made alone: before or after
		solo := func() {
			for _, p := range calls {
				if p.a.want == nil {
					if pristine { // nothing remembered from other calls
						runtime.SimResetGlobals()
					}
					p.a.want = p.a.form(pcall(p.a.call))
					p.a.show2()
				}
			}
		}
		if alone == 0 {
			solo()
			if pristine {
				runtime.SimResetGlobals()
			}
		}
		for c := 0; c < clients; c++ {
			mine := calls[c*per : (c+1)*per]
			r.Go(fmt.Sprintf("client %d", c), 1, func() {
				for _, p := range mine {
					r.Yield()
					v := pcall(p.a.call)
					setGot(p, v)
				}
			})
		}
		if !r.Join() {
			return
		}
		if alone == 1 {
			solo()
		}
		for i, t := range things {
			r.Logf("%s: %s", t.name, before[i])
		}
		for _, p := range calls {
			r.Logf("  client %d %s.%s = %s", p.c, p.t.name, p.a.name, p.a.form(p.got))
		}
		r.NonTriv()
		for _, p := range calls {
			want := p.a.wantForm()
			if got := p.a.form(p.got); got != want {
				r.Fail("wrong-result", "%s.%s returned %s to a concurrent caller, expected %s", p.t.name, p.a.name, got, want)
				return
			}
		}
		for i, t := range things {
			if s := t.same(); s != before[i] {
				r.Fail("input-changed", "%s changed under read-only calls from\n%s to\n%s", t.name, before[i], s)
				return
			}
		}
	}})
	register("X01", &Scenario{Name: "separate", Race: true, MaxSteps: 200000, Weight: 2, Run: func(r *R) {
		type worker struct {
			kind instKind
			x, m inst
			ops  []instOp
			want []string
			got  []any
		}
		var ws []*worker
		kind := instKinds[r.Choose(len(instKinds))]
		n := r.Range(2, 4)
		for c := 0; c < n; c++ {
			if r.Choose(4) == 3 {
				kind = instKinds[r.Choose(len(instKinds))]
			}
			w := &worker{kind: kind, x: kind.make(), m: kind.model()}
			for i, k := 0, r.Range(1, 14); i < k; i++ {
				o := instOp{r.Choose(11), r.Choose(2), r.Choose(24), r.Choose(24)}
				if hm, ok := w.m.(*heapModel); ok && len(hm.h[o.a]) == 0 {
					o.c = -1 // nothing to pop
					if o.op%8 == 7 {
						o.op = 0
					}
				}
				w.ops = append(w.ops, o)
				w.want = append(w.want, display(w.m.do(o)))
			}
			w.got = make([]any, len(w.ops))
			ws = append(ws, w)
		}
		for c, w := range ws {
			w := w
			r.Go(fmt.Sprintf("client %d (%s)", c, w.kind.name), 1, func() {
				for i, o := range w.ops {
					r.Yield()
					o := o
					v := pcall(func() any { return w.x.do(o) })
					setAny(w.got, i, v)
				}
			})
		}
		if !r.Join() {
			return
		}
		r.NonTriv()
		for c, w := range ws {
			for i, o := range w.ops {
				r.Logf("client %d %s op %v = %s", c, w.kind.name, o, display(w.got[i]))
				if g := display(w.got[i]); g != w.want[i] {
					r.Fail("wrong-result", "client %d, %s of its own: operation %d %v answered\n%s, expected\n%s", c, w.kind.name, i, o, g, w.want[i])
					return
				}
			}
		}
	}})
}

// show2 marks a result that was already put into its canonical form.
func (a *acc) show2() { a.want = soloForm(a.want.(string)) }

type soloForm string

func (a *acc) wantForm() string {
	if s, ok := a.want.(soloForm); ok {
		return string(s)
	}
	return a.form(a.want)
}

//go:norace
func setGot(p *pureCall, v any) { p.got = v }

//go:norace
func setAny(s []any, i int, v any) { s[i] = v }
