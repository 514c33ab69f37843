package main

import (
	"fmt"
	"math"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/hack/fastrand"
)

// fastrand under hostile entropy: ranges, permutations, exact fills; under
// uniform entropy: distribution.

// randCall calls one function and returns what is wrong with its result.
func randCall(kind int, a uint64, buf []byte, off, ln int) string {
	switch kind {
	case 0:
		n := int32(a & (1<<31 - 1))
		if n == 0 {
			n = 1
		}
		if v := fastrand.Int31n(n); v < 0 || v >= n {
			return fmt.Sprintf("Int31n(%d) = %d", n, v)
		}
	case 1:
		n := int64(a & (1<<63 - 1))
		if n == 0 {
			n = 1
		}
		if v := fastrand.Int63n(n); v < 0 || v >= n {
			return fmt.Sprintf("Int63n(%d) = %d", n, v)
		}
	case 2:
		n := int(a & (1<<63 - 1))
		if n == 0 {
			n = 1
		}
		if v := fastrand.Intn(n); v < 0 || v >= n {
			return fmt.Sprintf("Intn(%d) = %d", n, v)
		}
	case 3:
		n := uint32(a)
		if n == 0 {
			n = 1
		}
		if v := fastrand.Uint32n(n); v >= n {
			return fmt.Sprintf("Uint32n(%d) = %d", n, v)
		}
	case 4:
		n := a
		if n == 0 {
			n = 1
		}
		if v := fastrand.Uint64n(n); v >= n {
			return fmt.Sprintf("Uint64n(%d) = %d", n, v)
		}
	case 5:
		n := uint(a)
		if n == 0 {
			n = 1
		}
		if v := fastrand.Uintn(n); v >= n {
			return fmt.Sprintf("Uintn(%d) = %d", n, v)
		}
	case 6:
		if v := fastrand.Float64(); !(v >= 0 && v < 1) {
			return fmt.Sprintf("Float64() = %v", v)
		}
	case 7:
		if v := fastrand.Float32(); !(v >= 0 && v < 1) {
			return fmt.Sprintf("Float32() = %v", v)
		}
	case 8:
		if v := fastrand.Int(); v < 0 {
			return fmt.Sprintf("Int() = %v", v)
		}
		if v := fastrand.Int31(); v < 0 {
			return fmt.Sprintf("Int31() = %v", v)
		}
		if v := fastrand.Int63(); v < 0 {
			return fmt.Sprintf("Int63() = %v", v)
		}
		fastrand.Uint()
		fastrand.Uint32()
		fastrand.Uint64()
	case 9:
		n := int(a % 400)
		if s := isPerm(fastrand.Perm(n), n); s != "" {
			return fmt.Sprintf("Perm(%d): %s", n, s)
		}
	case 10:
		n := int(a % 400)
		p := make([]int, n+2)
		for i := range p {
			p[i] = i - 1
		}
		bad := ""
		fastrand.Shuffle(n, func(i, j int) {
			if i < 0 || i >= n || j < 0 || j >= n {
				bad = fmt.Sprintf("Shuffle(%d) swaps %d and %d", n, i, j)
				return
			}
			p[i+1], p[j+1] = p[j+1], p[i+1]
		})
		if bad != "" {
			return bad
		}
		if s := isPerm(p[1:n+1], n); s != "" {
			return fmt.Sprintf("Shuffle(%d): %s", n, s)
		}
	case 11:
		n := int(a % 400)
		p := make([]int, n+3)
		for i := range p {
			p[i] = i
		}
		q := gslice.Shuffle(p[:n])
		if len(q) != n || n > 0 && &q[0] != &p[0] {
			return fmt.Sprintf("gslice.Shuffle of %d elements did not return its argument", n)
		}
		if s := isPerm(q, n); s != "" {
			return fmt.Sprintf("gslice.Shuffle of %d elements: %s", n, s)
		}
		for i := n; i < len(p); i++ {
			if p[i] != i {
				return "gslice.Shuffle wrote beyond its slice"
			}
		}
	case 12:
		for i := range buf {
			buf[i] = byte(0xa0 + i%7)
		}
		p := buf[off : off+ln]
		if a%4 == 0 {
			p = buf[off : off+ln : off+ln]
		}
		n, err := fastrand.Read(p)
		if n != ln || err != nil {
			return fmt.Sprintf("Read of %d bytes = %d, %v", ln, n, err)
		}
		for i := range buf {
			if (i < off || i >= off+ln) && buf[i] != byte(0xa0+i%7) {
				return fmt.Sprintf("Read of bytes %d to %d changed byte %d", off, off+ln, i)
			}
		}
	}
	return ""
}

func isPerm(p []int, n int) string {
	if len(p) != n {
		return fmt.Sprintf("%d elements instead of %d", len(p), n)
	}
	var seen [400]bool
	for _, v := range p {
		if v < 0 || v >= n || seen[v] {
			return fmt.Sprintf("%v is not a permutation", p)
		}
		seen[v] = true
	}
	return ""
}

var randBounds = []uint64{1, 2, 3, 5, 7, 10, 64, 1 << 30, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 29, 1<<32 - 1, 1 << 32, 1<<32 + 1,
	3 << 60, 1 << 62, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 6, 9, 100, 1000003}

// chiBad tells whether counts are so uneven that chance cannot explain it
// (well below one in 10^15 for a uniform source).
func chiBad(counts []int, total int) (float64, bool) {
	k := float64(len(counts) - 1)
	e := float64(total) / float64(len(counts))
	x := 0.0
	for _, c := range counts {
		d := float64(c) - e
		x += d * d / e
	}
	z := (math.Cbrt(x/k) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
	return z, z > 9
}

func init() {
	register("Z01", &Scenario{Name: "hostile entropy", Race: true, Weight: 6000, MaxSteps: 400000, Run: func(r *R) {
		r.Logf("entropy %s", pickEntropy(r))
		bad := NewLog[string](16)
		work := func(n int) func() {
			type call struct {
				kind    int
				a       uint64
				off, ln int
			}
			var plan []call
			for i := 0; i < n; i++ {
				c := call{kind: r.Choose(13), a: randBounds[r.Choose(len(randBounds))]}
				if c.kind >= 9 {
					c.a = uint64(r.Choose(40))
					if r.Choose(40) == 39 {
						c.a = uint64(r.Choose(400))
					}
				}
				c.off, c.ln = r.Choose(17), r.Choose(40)
				if r.Choose(40) == 39 {
					c.ln = r.Choose(700)
				}
				plan = append(plan, c)
			}
			return func() {
				var buf [720]byte
				for _, c := range plan {
					if s := randCall(c.kind, c.a, buf[:], c.off, c.ln); s != "" {
						bad.Add(s)
						return
					}
				}
			}
		}
		if r.Choose(3) != 0 {
			work(r.Range(1, 30))()
		} else {
			for c, n := 1, r.Range(2, 4); c <= n; c++ {
				r.Go(fmt.Sprintf("client %d", c), 1, work(r.Range(1, 10)))
			}
			if !r.Join() {
				return
			}
		}
		r.NonTriv()
		if bad.Len() > 0 {
			r.Fail("rand-result", "%s", bad.All()[0])
		}
	}})
	register("Z01", &Scenario{Name: "invalid bounds", Seq: true, MaxSteps: 10000, Weight: 100, Run: func(r *R) {
		calls := []struct {
			name string
			f    func()
		}{
			{"Int31n(0)", func() { fastrand.Int31n(0) }},
			{"Int31n(-1)", func() { fastrand.Int31n(-1) }},
			{"Int31n(min)", func() { fastrand.Int31n(math.MinInt32) }},
			{"Int63n(0)", func() { fastrand.Int63n(0) }},
			{"Int63n(-5)", func() { fastrand.Int63n(-5) }},
			{"Int63n(min)", func() { fastrand.Int63n(math.MinInt64) }},
			{"Intn(0)", func() { fastrand.Intn(0) }},
			{"Intn(-1)", func() { fastrand.Intn(-1) }},
			{"Intn(min)", func() { fastrand.Intn(math.MinInt64) }},
			{"Intn(-1<<32)", func() { fastrand.Intn(-1 << 32) }},
			{"Shuffle(-1)", func() { fastrand.Shuffle(-1, func(i, j int) {}) }},
			{"Shuffle(min)", func() { fastrand.Shuffle(math.MinInt64, func(i, j int) {}) }},
		}
		pickEntropy(r)
		c := calls[r.Choose(len(calls))]
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			c.f()
			return false
		}()
		r.NonTriv()
		if !panicked {
			r.Fail("rand-bounds", "%s did not panic", c.name)
		}
	}})
	register("Z01", &Scenario{Name: "uniform", Seq: true, MaxSteps: 4000000, Weight: 200, Run: func(r *R) {
		r.NonTriv()
		// counts of one statistic over many draws
		draws := 3000
		what := ""
		var counts []int
		run := func(name string, cells int, f func() int) {
			what = name
			counts = make([]int, cells)
			for i := 0; i < draws; i++ {
				counts[f()]++
			}
		}
		cells := []int{2, 3, 5, 7, 16}[r.Choose(5)]
		small := func() (string, func(n int) int) {
			switch r.Choose(6) {
			case 0:
				return "Int31n", func(n int) int { return int(fastrand.Int31n(int32(n))) }
			case 1:
				return "Int63n", func(n int) int { return int(fastrand.Int63n(int64(n))) }
			case 2:
				return "Intn", fastrand.Intn
			case 3:
				return "Uint32n", func(n int) int { return int(fastrand.Uint32n(uint32(n))) }
			case 4:
				return "Uint64n", func(n int) int { return int(fastrand.Uint64n(uint64(n))) }
			}
			return "Uintn", func(n int) int { return int(fastrand.Uintn(uint(n))) }
		}
		cover := false // every cell must be met; how often is not specified
		switch r.Choose(9) {
		case 7: // large bounds of the unsigned generators
			n := []uint64{3 << 29, 1<<31 - 1, 1 << 30, 1<<30 + 1, 1<<32 - 1, 3 << 30, 1 << 31, 1<<31 + 1, 3 << 60, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 3 << 62, 1<<64 - 1, 1 << 33, 1<<40 + 1}[r.Choose(17)]
			f, name := fastrand.Uint64n, "Uint64n"
			switch {
			case n < 1<<32 && r.Choose(2) == 1:
				f, name = func(n uint64) uint64 { return uint64(fastrand.Uint32n(uint32(n))) }, "Uint32n"
			case r.Choose(2) == 1:
				f, name = func(n uint64) uint64 { return uint64(fastrand.Uintn(uint(n))) }, "Uintn"
			}
			cover = true
			if r.Choose(2) == 0 {
				run(fmt.Sprintf("%s(%d) by size", name, n), cells, func() int {
					c := int(float64(f(n)) / float64(n) * float64(cells))
					if c >= cells {
						c = cells - 1
					}
					return c
				})
			} else {
				run(fmt.Sprintf("%s(%d) by residue", name, n), cells, func() int { return int(f(n) % uint64(cells)) })
			}
		case 8: // the finer digits of the floats
			cover = true
			if r.Choose(2) == 0 {
				sh := r.Range(1, 53)
				run(fmt.Sprintf("binary digit %d of Float64", sh), 2, func() int { return int(uint64(math.Ldexp(fastrand.Float64(), sh)) & 1) })
			} else {
				sh := r.Range(1, 24)
				run(fmt.Sprintf("binary digit %d of Float32", sh), 2, func() int {
					return int(uint64(math.Ldexp(float64(fastrand.Float32()), sh)) & 1)
				})
			}
		case 0:
			name, f := small()
			n := r.Range(2, 40)
			run(fmt.Sprintf("%s(%d)", name, n), n, func() int { return f(n) })
		case 1: // large bounds, high-order cells and residues
			if r.Choose(8) == 7 {
				draws = 40000 // for the biases that need several rejected words
			}
			n := []int64{3 << 29, 1<<31 - 1, 1 << 30, 1<<30 + 1, 5 << 28, 3 << 60, 3 << 61, 1<<62 + 1, 1<<63 - 1, 1 << 62, 5 << 60, 1 << 31, 1<<31 + 1, 3 << 30}[r.Choose(14)]
			f, name := fastrand.Int63n, "Int63n"
			switch {
			case n < 1<<31 && r.Choose(2) == 1:
				f, name = func(n int64) int64 { return int64(fastrand.Int31n(int32(n))) }, "Int31n"
			case r.Choose(2) == 1:
				f, name = func(n int64) int64 { return int64(fastrand.Intn(int(n))) }, "Intn"
			}
			if r.Choose(2) == 0 {
				run(fmt.Sprintf("%s(%d) by size", name, n), cells, func() int {
					c := int(float64(f(n)) / float64(n) * float64(cells))
					if c >= cells {
						c = cells - 1
					}
					return c
				})
			} else {
				run(fmt.Sprintf("%s(%d) by residue", name, n), cells, func() int { return int(f(n) % int64(cells)) })
			}
		case 2:
			if r.Choose(2) == 0 {
				run("Float64", cells, func() int { return int(fastrand.Float64() * float64(cells)) })
			} else {
				run("Float32", cells, func() int {
					c := int(float64(fastrand.Float32()) * float64(cells))
					if c == cells {
						c--
					}
					return c
				})
			}
		case 3: // every bit of the unbounded generators
			bit := r.Choose(64)
			switch r.Choose(6) {
			case 0:
				bit %= 32
				run(fmt.Sprint("bit ", bit, " of Uint32"), 2, func() int { return int(fastrand.Uint32() >> uint(bit) & 1) })
			case 1:
				run(fmt.Sprint("bit ", bit, " of Uint64"), 2, func() int { return int(fastrand.Uint64() >> uint(bit) & 1) })
			case 2:
				run(fmt.Sprint("bit ", bit, " of Uint"), 2, func() int { return int(uint64(fastrand.Uint()) >> uint(bit) & 1) })
			case 3:
				bit %= 31
				run(fmt.Sprint("bit ", bit, " of Int31"), 2, func() int { return int(fastrand.Int31() >> uint(bit) & 1) })
			case 4:
				bit %= 63
				run(fmt.Sprint("bit ", bit, " of Int63"), 2, func() int { return int(fastrand.Int63() >> uint(bit) & 1) })
			case 5:
				bit %= 63
				run(fmt.Sprint("bit ", bit, " of Int"), 2, func() int { return fastrand.Int() >> uint(bit) & 1 })
			}
		case 4: // whole permutations
			n := r.Range(2, 4)
			fact := []int{1, 1, 2, 6, 24}[n]
			rank := func(p []int) int {
				k := 0
				for i := range p {
					c := 0
					for _, x := range p[i+1:] {
						if x < p[i] {
							c++
						}
					}
					k = k*(len(p)-i) + c
				}
				return k
			}
			fresh := func() []int { return []int{0, 1, 2, 3}[:n] }
			switch r.Choose(3) {
			case 0:
				run(fmt.Sprintf("Perm(%d)", n), fact, func() int { return rank(fastrand.Perm(n)) })
			case 1:
				run(fmt.Sprintf("Shuffle(%d)", n), fact, func() int {
					p := fresh()
					fastrand.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
					return rank(p)
				})
			case 2:
				run(fmt.Sprintf("gslice.Shuffle of %d", n), fact, func() int { return rank(gslice.Shuffle(fresh())) })
			}
		case 5: // where one element of a longer permutation goes
			n := r.Range(5, 20)
			x := r.Choose(n)
			pos := func(p []int) int {
				for i, v := range p {
					if v == x {
						return i
					}
				}
				return 0
			}
			if r.Choose(2) == 0 {
				run(fmt.Sprintf("place of %d in Perm(%d)", x, n), n, func() int { return pos(fastrand.Perm(n)) })
			} else {
				run(fmt.Sprintf("place of %d in a shuffle of %d", x, n), n, func() int {
					p := make([]int, n)
					for i := range p {
						p[i] = i
					}
					return pos(gslice.Shuffle(p))
				})
			}
		case 6: // every bit of every byte Read fills
			ln := r.Range(1, 40)
			if r.Choose(8) == 7 {
				ln = r.Range(41, 700)
			}
			i, bit := r.Choose(ln), r.Choose(8)
			buf := make([]byte, ln)
			run(fmt.Sprintf("bit %d of byte %d of Read(%d)", bit, i, ln), 2, func() int {
				buf[i] = 0
				fastrand.Read(buf)
				return int(buf[i] >> uint(bit) & 1)
			})
		}
		if cover {
			for c, n := range counts {
				if n == 0 {
					r.Fail("rand-cover", "%s: cell %d of %d was never met in %d draws from a uniform source: %v", what, c, len(counts), draws, counts)
				}
			}
			return
		}
		z, bad := chiBad(counts, draws)
		r.Logf("%s: %v, z=%.1f", what, counts, z)
		if bad {
			r.Fail("rand-uniform", "%s is not uniform for a uniform source: counts %v in %d draws (%.1f standard deviations)", what, counts, draws, z)
		}
	}})
}
