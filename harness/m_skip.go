package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
)

// The skip list against a sorted slice, under hostile sources of randomness.

type skipEnt struct{ k, v int }

type skipModel []skipEnt

func (m skipModel) at(k int) (int, bool) {
	i := sort.Search(len(m), func(i int) bool { return m[i].k >= k })
	return i, i < len(m) && m[i].k == k
}

func (m *skipModel) put(k, v int) {
	i, ok := m.at(k)
	if ok {
		(*m)[i].v = v
		return
	}
	*m = append(*m, skipEnt{})
	copy((*m)[i+1:], (*m)[i:])
	(*m)[i] = skipEnt{k, v}
}

func (m *skipModel) del(k int) {
	if i, ok := m.at(k); ok {
		*m = append((*m)[:i], (*m)[i+1:]...)
	}
}

var entropyNames = []string{"uniform", "all zeros", "all ones", "alternating extremes", "single bits set", "single bits clear", "half degenerate", "mostly one word", "small words", "large words"}

// pickEntropy makes the source of randomness hostile in one of several ways.
func pickEntropy(r *R) string {
	mode := r.Choose(len(entropyNames))
	words := uint32(0)
	if mode != 0 {
		drawn := runtime.SimEntropy(0)
		words = uint32(drawn) + []uint32{1, 2, 4, 8, 16, 40, 80, 200}[r.Choose(8)]
		r.Probe("fault: entropy " + entropyNames[mode])
	}
	runtime.SimEntropy(uint32(mode) | words<<8)
	return entropyNames[mode]
}

// skipRun plays one history. kf must be strictly increasing.
func skipRun[K gconstraints.Ordered](r *R, kf func(int) K, keys, n int, mix []int) {
	l := gskiplist.New[K, skipEnt]()
	var m skipModel
	val := 0
	bad := func(format string, args ...any) {
		var p []string
		for _, e := range m {
			p = append(p, fmt.Sprintf("%v=%d", kf(e.k), e.v))
		}
		r.Fail("skiplist-model", "%s\nexpected contents: %s", fmt.Sprintf(format, args...), strings.Join(p, " "))
	}
	node := func(what string, e *gskiplist.SkipListElement[K, skipEnt], i int) bool {
		if i < 0 {
			if e != nil {
				bad("%s is %v in an empty list", what, e.GetValue())
				return false
			}
			return true
		}
		if e == nil {
			bad("%s is nil, want key %v", what, kf(m[i].k))
			return false
		}
		if e.GetValue() != m[i] {
			bad("%s holds %v, want %v", what, e.GetValue(), m[i])
			return false
		}
		return true
	}
	walk := func() bool {
		if l.GetNodeCount() != len(m) || l.IsEmpty() != (len(m) == 0) {
			bad("count %d, empty %v; want %d elements", l.GetNodeCount(), l.IsEmpty(), len(m))
			return false
		}
		if !node("the smallest node", l.GetSmallestNode(), min1(0, len(m))) || !node("the largest node", l.GetLargestNode(), len(m)-1) {
			return false
		}
		if len(m) == 0 {
			return true
		}
		e := l.GetSmallestNode()
		for i := 1; i <= len(m); i++ {
			e = l.Next(e)
			if !node(fmt.Sprintf("step %d forwards", i), e, i%len(m)) {
				return false
			}
		}
		e = l.GetLargestNode()
		for i := len(m) - 2; i >= -1; i-- {
			e = l.Prev(e)
			if !node(fmt.Sprintf("step %d backwards", len(m)-1-i), e, (i+len(m))%len(m)) {
				return false
			}
		}
		return true
	}
	// Elements obtained earlier keep their place for as long as their key is not deleted.
	held := map[int]*gskiplist.SkipListElement[K, skipEnt]{}
	del := func(k int) {
		l.Delete(kf(k))
		m.del(k)
		delete(held, k)
	}
	checkHeld := func() bool {
		for i, x := range m {
			e := held[x.k]
			if e == nil {
				continue
			}
			if !node("an element held for a while", e, i) || !node("Next of an element held for a while", l.Next(e), (i+1)%len(m)) ||
				!node("Prev of an element held for a while", l.Prev(e), (i+len(m)-1)%len(m)) {
				return false
			}
		}
		return true
	}
	// bulk reports every key: what is found and what is the next one.
	probeAll := func() bool {
		for k := -1; k <= keys; k++ {
			i, ok := m.at(k)
			v, found := l.Find(kf(k))
			if found != ok || ok && v != m[i] || !ok && v != (skipEnt{}) {
				bad("Find(%v) = %v, %v", kf(k), v, found)
				return false
			}
			e, ok2 := l.FindGreaterOrEqual(kf(k))
			if ok2 != (i < len(m)) || ok2 && e.GetValue() != m[i] {
				bad("FindGreaterOrEqual(%v) = %v, %v", kf(k), e.GetValue(), ok2)
				return false
			}
		}
		return true
	}
	every := []int{1, 3, 10, n}[r.Choose(4)]
	if keys > 100 {
		every = n
	}
	for i := 0; i < n; i++ {
		k := r.Choose(keys)
		switch r.Pick(mix...) {
		case 0:
			val++
			r.Logf("Insert(%v, %d)", kf(k), val)
			l.Insert(kf(k), skipEnt{k, val})
			m.put(k, val)
		case 1:
			r.Logf("Delete(%v)", kf(k))
			del(k)
		case 2:
			val++
			_, ok := m.at(k)
			got := l.ChangeValue(kf(k), skipEnt{k, val})
			r.Logf("ChangeValue(%v, %d) = %v", kf(k), val, got)
			if got != ok {
				bad("ChangeValue(%v) = %v", kf(k), got)
				return
			}
			if ok {
				m.put(k, val)
			}
		case 3:
			j, ok := m.at(k)
			v, found := l.Find(kf(k))
			r.Logf("Find(%v) = %v %v", kf(k), v, found)
			if found != ok || ok && v != m[j] || !ok && v != (skipEnt{}) {
				bad("Find(%v) = %v, %v", kf(k), v, found)
				return
			}
		case 4:
			j, _ := m.at(k)
			e, found := l.FindGreaterOrEqual(kf(k))
			r.Logf("FindGreaterOrEqual(%v) = %v %v", kf(k), e.GetValue(), found)
			if found != (j < len(m)) || found && e.GetValue() != m[j] {
				bad("FindGreaterOrEqual(%v) = %v, %v", kf(k), e.GetValue(), found)
				return
			}
			if found && len(held) < 6 {
				held[m[j].k] = e
			}
			if found && (!node("Next of it", l.Next(e), (j+1)%len(m)) || !node("Prev of it", l.Prev(e), (j+len(m)-1)%len(m))) {
				return
			}
		case 5: // a run of one operation
			step, cnt := []int{1, -1, 2, 3}[r.Choose(4)], r.Range(2, 12)
			if keys > 500 {
				cnt *= 4
			}
			if keys > 100 {
				cnt *= 10
			}
			remove := r.Choose(3) == 2
			r.Logf("%d keys from %v step %d, delete %v", cnt, kf(k), step, remove)
			for j := 0; j < cnt; j++ {
				x := ((k+j*step)%keys + keys) % keys
				if remove {
					del(x)
				} else {
					val++
					l.Insert(kf(x), skipEnt{x, val})
					m.put(x, val)
				}
			}
		case 6:
			r.Logf("entropy becomes %s", pickEntropy(r))
		case 7:
			if s := l.String(); s == "" {
				bad("String is empty")
				return
			}
		}
		if i%every == every-1 {
			if !walk() || !probeAll() || !checkHeld() {
				return
			}
		}
	}
	if walk() && probeAll() && checkHeld() {
		r.NonTriv()
	}
}

func min1(a, b int) int {
	if b == 0 {
		return -1
	}
	return a
}

func init() {
	register("S01", &Scenario{Name: "history", Seq: true, Weight: 5000, MaxSteps: 4000000, Run: func(r *R) {
		r.Logf("entropy %s", pickEntropy(r))
		keys := []int{8, 3, 16, 30, 100}[r.Choose(5)]
		n := r.Range(4, 60)
		if r.Choose(200) == 199 {
			keys, n = r.Range(200, 500), r.Range(40, 120)
		}
		mix := [][]int{{6, 3, 1, 1, 1, 1, 1, 1}, {4, 5, 0, 0, 1, 0, 1, 0}, {3, 1, 1, 1, 2, 4, 1, 0}, {8, 1, 0, 0, 0, 0, 2, 0}}[r.Choose(4)]
		switch r.Choose(4) {
		case 0:
			skipRun(r, func(i int) int { return i }, keys, n, mix)
		case 1:
			skipRun(r, func(i int) string { return fmt.Sprintf("%03d", i+1) }, keys, n, mix)
		case 2:
			skipRun(r, func(i int) float64 { return float64(i)*0.5 - 3 }, keys, n, mix)
		case 3:
			skipRun(r, func(i int) int { return (i - keys/2) * 1000 }, keys, n, mix)
		}
	}})
}
