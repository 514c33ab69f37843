From cb7c5bb3f22628a7d46c54a4d8a074a12d7fb671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 01/27] fix: sync.Map CompareAndSwap and CompareAndDelete
 compare the old value

---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From 8556e208cd138d6f36716ad3e4f69c25aae55b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 02/27] fix: sync.Map no longer trips checkptr with values
 larger than an interface

---
 gogenerics/gconcurrent/sync/map.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 91c1596..2098aff 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -99,7 +99,28 @@ type entry[V any] struct {
 	// p != expunged. If unsafe.Pointer(p) == expunged, an entry's associated value can be updated
 	// only after first setting m.dirty[key] = e so that lookups using the dirty
 	// map find the entry.
-	p atomic.Pointer[V]
+	p pointer[V]
+}
+
+// pointer is an atomic *V that may also hold expunged. It is not an
+// atomic.Pointer because with a V larger than what expunged points to the
+// conversion to *V would make checkptr (go build -race) end the program.
+type pointer[V any] struct {
+	p unsafe.Pointer
+}
+
+func asPointer[V any](p unsafe.Pointer) *V { return *(**V)(unsafe.Pointer(&p)) }
+
+func (x *pointer[V]) Load() *V { return asPointer[V](atomic.LoadPointer(&x.p)) }
+
+func (x *pointer[V]) Store(v *V) { atomic.StorePointer(&x.p, unsafe.Pointer(v)) }
+
+func (x *pointer[V]) Swap(v *V) *V {
+	return asPointer[V](atomic.SwapPointer(&x.p, unsafe.Pointer(v)))
+}
+
+func (x *pointer[V]) CompareAndSwap(old, new *V) bool {
+	return atomic.CompareAndSwapPointer(&x.p, unsafe.Pointer(old), unsafe.Pointer(new))
 }
 
 func newEntry[V any](i V) *entry[V] {
@@ -190,7 +211,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 // If the entry was previously expunged, it must be added to the dirty map
 // before m.mu is unlocked.
 func (e *entry[V]) unexpungeLocked() (wasExpunged bool) {
-	return e.p.CompareAndSwap((*V)(expunged), nil)
+	return e.p.CompareAndSwap(asPointer[V](expunged), nil)
 }
 
 // swapLocked unconditionally swaps a value into the entry.
@@ -515,7 +536,7 @@ func (m *Map[K, V]) dirtyLocked() {
 func (e *entry[V]) tryExpungeLocked() (isExpunged bool) {
 	p := e.p.Load()
 	for p == nil {
-		if e.p.CompareAndSwap(nil, (*V)(expunged)) {
+		if e.p.CompareAndSwap(nil, asPointer[V](expunged)) {
 			return true
 		}
 		p = e.p.Load()
-- 
2.43.0


From e7df05051e1acb5f80441c9e86273314f0015a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 03/27] fix: mr hands over a panic without blocking and without
 losing it

A panic recovered after the caller had stopped listening blocked its
goroutine forever, and with it the caller when it was the reducer's.
---
 gogenerics/gconcurrent/mr/mr.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..f4ceccf 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,7 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -127,7 +127,13 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
-				return
+				// everything has ended, a panic must not be missed
+				select {
+				case v := <-panicChan.channel:
+					panic(v)
+				default:
+					return
+				}
 			}
 		}
 	}
@@ -137,7 +143,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +151,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -379,13 +385,19 @@ func (gw guardedWriter[T]) Write(v T) {
 	}
 }
 
+// onceChan keeps the first value written to it. Its channel must have a buffer
+// of one, so that a write never blocks, even when nobody reads the value.
 type onceChan struct {
 	channel chan any
-	wrote   int32
+}
+
+func newOnceChan() *onceChan {
+	return &onceChan{channel: make(chan any, 1)}
 }
 
 func (oc *onceChan) write(val any) {
-	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
-		oc.channel <- val
+	select {
+	case oc.channel <- val:
+	default:
 	}
 }
-- 
2.43.0


From 76d6d11e2b266869d5c85ebf2a415dbab057bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 04/27] fix: mr decides its result when the processing has
 ended

The output channel was closed while the reducer could be writing to it, a
reducer was left blocked after context expiry, cancel calls made after the
reducer's write were ignored, and the context's end could be reported as a
success computed from part of the data.
---
 gogenerics/gconcurrent/mr/mr.go | 78 +++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index f4ceccf..909178d 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -159,15 +159,9 @@ func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reduce
 func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, mapper MapperFunc[T, U],
 	reducer ReducerFunc[U, V], opts ...Option) (val V, err error) {
 	options := buildOptions(opts...)
-	// output is used to write the final result
+	// output is used to write the final result, it is never closed because the
+	// reducer may be writing to it when the processing is cancelled
 	output := make(chan V)
-	defer func() {
-		// reducer can only write once, if more, panic
-		for range output {
-			panic("more than one element written in reducer")
-		}
-	}()
-
 	// collector is used to collect data from mapper, and consume in reducer
 	collector := make(chan U, options.workers)
 	// if done is closed, all mappers and reducer should stop processing
@@ -179,7 +173,6 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
-			close(output)
 		})
 	}
 	cancel := once(func(err error) {
@@ -217,25 +210,51 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		workers:   options.workers,
 	})
 
-	select {
-	case <-options.ctx.Done():
-		cancel(context.DeadlineExceeded)
-		err = context.DeadlineExceeded
-	case v := <-panicChan.channel:
-		// drain output here, otherwise for loop panic in defer
-		drain(output)
-		panic(v)
-	case v, ok := <-output:
-		if e := retErr.Load(); e != nil {
-			err = e
-		} else if ok {
-			val = v
-		} else {
-			err = ErrReduceNoOutput
+	var zero V
+	written := 0
+	for {
+		select {
+		case <-options.ctx.Done():
+			cancel(context.DeadlineExceeded)
+			// an earlier cancel takes precedence
+			return zero, retErr.Load()
+		case v := <-panicChan.channel:
+			// let the reducer end before panicking
+			for {
+				select {
+				case <-output:
+				case <-done:
+					panic(v)
+				}
+			}
+		case v := <-output:
+			if written++; written == 1 {
+				val = v
+			}
+		case <-done:
+			// the reducer has ended, or the processing was cancelled
+			select {
+			case v := <-panicChan.channel:
+				panic(v)
+			default:
+			}
+			if e := retErr.Load(); e != nil {
+				return zero, e
+			}
+			if options.ctx.Err() != nil {
+				return zero, context.DeadlineExceeded
+			}
+			switch written {
+			case 0:
+				return zero, ErrReduceNoOutput
+			case 1:
+				return val, nil
+			default:
+				// reducer can only write once, if more, panic
+				panic("more than one element written in reducer")
+			}
 		}
 	}
-
-	return
 }
 
 // MapReduceVoid maps all elements generated from given generate,
@@ -381,7 +400,12 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+
+	select {
+	case <-gw.ctx.Done():
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
-- 
2.43.0


From 5b7e3e641cdbe6c43597a3a29ab4fce6365afa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 05/27] fix: mr.MapReduceVoid and Finish return the cancelling
 error whatever it wraps

---
 gogenerics/gconcurrent/mr/mr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 909178d..98f2418 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -263,10 +263,10 @@ func MapReduceVoid[T, U any](generate GenerateFunc[T], mapper MapperFunc[T, U],
 	reducer VoidReducerFunc[U], opts ...Option) error {
 	_, err := MapReduce(generate, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
 		reducer(input, cancel)
+		// any output will do, so that ErrReduceNoOutput is only returned
+		// when it was passed to cancel
+		writer.Write(nil)
 	}, opts...)
-	if errors.Is(err, ErrReduceNoOutput) {
-		return nil
-	}
 
 	return err
 }
-- 
2.43.0


From 43a4fd74ca5dad5a18c51ca64d6f1fe00d907a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 06/27] fix: LRUCacheV2.MGet takes the lock

---
 library/cachex/lrucache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..5420a9a 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,9 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From 277143f7c516c75e0adaa8203fc02de08ae6d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 07/27] fix: AtomicError accepts errors of different types

---
 gogenerics/gconstraints/errors.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..8517526 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,25 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorHolder
+}
+
+// errorHolder gives all errors stored in an atomic.Value the same concrete type.
+type errorHolder struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorHolder{err: err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorHolder).err
 	}
 	return nil
 }
-- 
2.43.0


From 7c5119ac73ecb2ac807538547feb1401a16857e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 08/27] fix: BitSet.Count and Sub handle ranges within a byte
 and unaligned ranges

---
 library/bitset/bitset.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..a4cc336 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi >> sbi >> (7 - ebi))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
@@ -349,15 +352,16 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
-	pre := b.set[sgi] << sbi
-	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
-		pre = v << sbi
+	n := egi*8 + ebi - (sgi*8 + sbi) + 1
+	for i := uint(0); i < (n+7)/8; i++ {
+		v := b.set[sgi+i] << sbi
+		if sgi+i < egi {
+			v |= b.set[sgi+i+1] >> (8 - sbi)
+		}
+		newBitSet.set = append(newBitSet.set, v)
 	}
-	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
-		newBitSet.set = append(newBitSet.set, last<<sbi)
+	if tail := n % 8; tail != 0 {
+		newBitSet.set[len(newBitSet.set)-1] &= 0xff << (8 - tail)
 	}
 	return newBitSet
 }
-- 
2.43.0


From 09d81b49aef08cbca53cb4239c49565c1c0f3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 09/27] fix: BitSet combinations lock their operands once and
 in one order

---
 library/bitset/bitset.go | 47 ++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index a4cc336..b5f0ded 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -6,7 +6,9 @@ import (
 	"errors"
 	"fmt"
 	"math/bits"
+	"sort"
 	"sync"
+	"sync/atomic"
 
 	"github.com/miniLCT/gosb/hack/unsafex"
 )
@@ -16,6 +18,40 @@ import (
 type BitSet struct {
 	set []byte
 	mu  sync.RWMutex
+	id  atomic.Uint64 // lock order, assigned on first use
+}
+
+var lastID atomic.Uint64
+
+// lockID returns the position of b in the order in which several bit sets are locked.
+func (b *BitSet) lockID() uint64 {
+	if b.id.Load() == 0 {
+		b.id.CompareAndSwap(0, lastID.Add(1))
+	}
+	return b.id.Load()
+}
+
+// rLockAll locks b and bitSets for reading, each of them once and always in
+// the same order, so that concurrent callers and writers cannot block each other forever.
+func (b *BitSet) rLockAll(bitSets []*BitSet) (unlock func()) {
+	all := make([]*BitSet, 0, len(bitSets)+1)
+	all = append(append(all, b), bitSets...)
+	sort.Slice(all, func(i, j int) bool {
+		return all[i].lockID() < all[j].lockID()
+	})
+	locked := all[:0]
+	for _, g := range all {
+		if n := len(locked); n > 0 && locked[n-1] == g {
+			continue
+		}
+		g.mu.RLock()
+		locked = append(locked, g)
+	}
+	return func() {
+		for _, g := range locked {
+			g.mu.RUnlock()
+		}
+	}
 }
 
 // New creates a bit set object.
@@ -187,20 +223,16 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
+	defer b.rLockAll(bitSets)()
 	var (
 		maxLen  = len(b.set)
 		minLen  = maxLen
 		currLen int
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
@@ -248,14 +280,11 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	defer b.rLockAll(bitSets)()
 	var (
 		maxLen, currLen = len(b.set), 0
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
-- 
2.43.0


From bae261c941de2a470a2d949913896aa2e7286283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 10/27] fix: Pool.Get returns a nil interface value made by the
 constructor

---
 gogenerics/gcontainers/gpool/syncpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gpool/syncpool.go b/gogenerics/gcontainers/gpool/syncpool.go
index 2cb4561..7d3bb13 100644
--- a/gogenerics/gcontainers/gpool/syncpool.go
+++ b/gogenerics/gcontainers/gpool/syncpool.go
@@ -21,7 +21,9 @@ func New[T any](fn func() T) Pool[T] {
 
 // Get is a generic wrapper around sync.Pool's Get method.
 func (p *Pool[T]) Get() T {
-	return p.pool.Get().(T)
+	// T may be an interface type and the object a nil interface value
+	x, _ := p.pool.Get().(T)
+	return x
 }
 
 // Put is a generic wrapper around sync.Pool's Put method.
-- 
2.43.0


From 790a9bc7c9068f3a0e0a5b333c9524e04cac98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 11/27] fix: fastrand.Uint and Uintn link with Go 1.22 and
 later

---
 hack/fastrand/runtime19.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hack/fastrand/runtime19.go b/hack/fastrand/runtime19.go
index 6244da5..3e883d0 100644
--- a/hack/fastrand/runtime19.go
+++ b/hack/fastrand/runtime19.go
@@ -13,5 +13,7 @@ func runtimefastrand() uint32
 //go:linkname runtimefastrand64 runtime.fastrand64
 func runtimefastrand64() uint64
 
-//go:linkname runtimefastrandu runtime.fastrandu
-func runtimefastrandu() uint
+// runtimefastrandu is not linked to runtime.fastrandu, which Go 1.22 removed.
+func runtimefastrandu() uint {
+	return uint(runtimefastrand64())
+}
-- 
2.43.0


From 68fb9ce6daf625e97b0e75e755e0d3fd35d2c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 12/27] fix: AESEncrypt and AESCBCEncrypt leave the caller's
 spare capacity alone

---
 library/cryptox/cryptox.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..9d88227 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -203,10 +203,13 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// Copy: the caller's spare capacity is not ours to write to.
+	padded := make([]byte, len(plainText), len(plainText)+int(n))
+	copy(padded, plainText)
 	for i := byte(0); i < n; i++ {
-		plainText = append(plainText, n)
+		padded = append(padded, n)
 	}
-	return plainText
+	return padded
 }
 
 func pkcs5Unpadding(r []byte) ([]byte, error) {
-- 
2.43.0


From 750e643b2052a6fa37e121e5e3266cee8970bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 13/27] fix: AESDecrypt returns an error for a ciphertext of
 partial blocks

---
 library/cryptox/cryptox.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index 9d88227..697d41d 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,10 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// ECB mode always works in whole blocks.
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From 9445ef8e1635f61c1eceb87ad6130320f46e86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 14/27] fix: AES decryption rejects padding lengths that no
 encryption produces

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index 697d41d..2628081 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -222,7 +222,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || l-last < 0 {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 5d9fa660f0b77f0cac8a4913f9b86af88e5bd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 15/27] fix: Chain.MGet answers every position of a repeated
 key

---
 library/cachex/cache.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..13df7fd 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,10 +157,16 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
+	// Query each distinct key once; the result goes to all its positions.
+	indexMap := make(map[K][]int, length)
+	distinct := make([]K, 0, length)
 	for i, k := range keys {
-		indexMap[k] = i
+		if _, ok := indexMap[k]; !ok {
+			distinct = append(distinct, k)
+		}
+		indexMap[k] = append(indexMap[k], i)
 	}
+	keys = distinct
 	values := make([]V, length)
 	status := make([]bool, length)
 	var err error
@@ -176,9 +182,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		}
 		for j := 0; j < len(oks); j++ {
 			if oks[j] {
-				keyIndex := indexMap[keys[j]]
-				values[keyIndex] = vals[j]
-				status[keyIndex] = true
+				for _, keyIndex := range indexMap[keys[j]] {
+					values[keyIndex] = vals[j]
+					status[keyIndex] = true
+				}
 			}
 		}
 		// Set the content queried from the next-level cache to the upper-level cache
-- 
2.43.0


From 7cdb282c5c53da9acb87907feafeebb416befe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 16/27] fix: MGetResult counts keys without a result as missed

---
 library/cachex/cache.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index 13df7fd..b000663 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -310,10 +310,20 @@ type MGetResult[K comparable, V any] struct {
 	hits   []bool
 }
 
+// at returns the result for the key at idx. Keys for which the cache returned
+// nothing, because the read failed for example, are not hit.
+func (mr MGetResult[K, V]) at(idx int) (value V, hit bool) {
+	if idx < len(mr.hits) && idx < len(mr.values) && mr.hits[idx] {
+		return mr.values[idx], true
+	}
+	return value, false
+}
+
 // Range traverses all results.
 func (mr MGetResult[K, V]) Range(fn func(key K, hit bool, value V) bool) {
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if !fn(mr.keys[idx], mr.hits[idx], mr.values[idx]) {
+		value, hit := mr.at(idx)
+		if !fn(mr.keys[idx], hit, value) {
 			return
 		}
 	}
@@ -322,10 +332,11 @@ func (mr MGetResult[K, V]) Range(fn func(key K, hit bool, value V) bool) {
 // RangeHit traverses all results hit by the cache.
 func (mr MGetResult[K, V]) RangeHit(fn func(key K, Value V) bool) {
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if !mr.hits[idx] {
+		value, hit := mr.at(idx)
+		if !hit {
 			continue
 		}
-		if !fn(mr.keys[idx], mr.values[idx]) {
+		if !fn(mr.keys[idx], value) {
 			return
 		}
 	}
@@ -334,7 +345,7 @@ func (mr MGetResult[K, V]) RangeHit(fn func(key K, Value V) bool) {
 // RangeMiss traverses all results missed by the cache.
 func (mr MGetResult[K, V]) RangeMiss(fn func(key K) bool) {
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if mr.hits[idx] {
+		if _, hit := mr.at(idx); hit {
 			continue
 		}
 		if !fn(mr.keys[idx]) {
@@ -378,7 +389,7 @@ func (mr MGetResult[K, V]) HitMissKeys() (hit []K, miss []K) {
 	hit = make([]K, 0, len(mr.keys))
 	miss = make([]K, 0, len(mr.keys))
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if mr.hits[idx] {
+		if _, ok := mr.at(idx); ok {
 			hit = append(hit, mr.keys[idx])
 		} else {
 			miss = append(miss, mr.keys[idx])
-- 
2.43.0


From 292e226d2d35f2e52c220a3f55d35aac1dd0c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 17/27] fix: FileStore no longer tears or loses values under
 concurrent use

---
 library/cachex/file.go | 50 +++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..7ca135c 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -38,6 +39,10 @@ type FileStore[K comparable, V any] struct {
 
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
+
+	// mu keeps readers from seeing half-written files and
+	// the removal of dead entries from hitting newly written ones
+	mu sync.RWMutex
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
@@ -62,27 +67,40 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mu.RLock()
+	val, ok, dead, err := f.loadFile(fp)
+	f.mu.RUnlock()
+	if !dead {
+		return val, ok, err
+	}
+
+	// the entry may have been rewritten in the meantime
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	val, ok, dead, err = f.loadFile(fp)
+	if dead {
+		_ = os.Remove(fp)
+	}
+	return val, ok, err
+}
+
+// loadFile reads an entry; dead reports that it is expired or damaged and should be removed
+func (f *FileStore[K, V]) loadFile(fp string) (val V, ok bool, dead bool, err error) {
 	content, err := os.ReadFile(fp)
 	if err != nil {
-		var emp V
 		if os.IsNotExist(err) {
-			return emp, false, nil
+			err = nil
 		}
-		return emp, false, err
+		return val, false, false, err
 	}
 	item := &fileCacheItem[K, V]{}
-	err = json.Unmarshal(content, &item)
-	if err != nil {
-		_ = os.Remove(fp)
-		var emp V
-		return emp, false, err
+	if err = json.Unmarshal(content, &item); err != nil {
+		return val, false, true, err
 	}
-	if item.Alive() {
-		return item.Data, true, nil
+	if !item.Alive() {
+		return val, false, true, nil
 	}
-	_ = os.Remove(fp)
-	var emp V
-	return emp, false, err
+	return item.Data, true, false, nil
 }
 
 var errDirEmpty = errors.New("cache Dir is empty")
@@ -105,6 +123,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil {
 		return err
 	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	dir := filepath.Dir(fp)
 	_, err = os.Stat(dir)
 	if err != nil && os.IsNotExist(err) {
@@ -170,6 +190,8 @@ func (f *FileStore[K, V]) Delete(ctx context.Context, keys ...K) error {
 		return nil
 	}
 	var errs []error
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	for _, k := range keys {
 		fp := f.getFilePath(k)
 		err := os.Remove(fp)
@@ -234,6 +256,8 @@ func (f *FileStore[K, V]) Purge() error {
 	if f.Dir == "" {
 		return errDirEmpty
 	}
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-- 
2.43.0


From 24b679d1fc1caa93159e490415c9fa3ff00f79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 18/27] fix: FileStore cleaning leaves files that are not cache
 entries alone

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 7ca135c..34bb70d 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -243,7 +243,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From 8db58e6d269ac0850fa79d67542ed501576e4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 19/27] fix: FileStore cleans at most once per cycle, whatever
 the cycle

---
 library/cachex/file.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 34bb70d..5853e02 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -212,8 +212,7 @@ func (f *FileStore[K, V]) gc() {
 		return
 	}
 
-	if f.lastGC.Load() == 0 {
-		f.lastGC.Store(time.Now().Unix())
+	if f.lastGC.CompareAndSwap(0, time.Now().UnixNano()) {
 		return
 	}
 
@@ -222,15 +221,20 @@ func (f *FileStore[K, V]) gc() {
 		cycle = time.Minute
 	}
 
-	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+	due := func() bool {
+		return time.Now().UnixNano()-f.lastGC.Load() >= int64(cycle)
+	}
+	if !due() || !f.gcStatus.CompareAndSwap(false, true) {
 		return
 	}
-	if !f.gcStatus.CompareAndSwap(false, true) {
+	// another goroutine may have cleaned since the time was compared
+	if !due() {
+		f.gcStatus.Store(false)
 		return
 	}
 	go func() {
 		defer func() {
-			f.lastGC.Store(time.Now().Unix())
+			f.lastGC.Store(time.Now().UnixNano())
 			f.gcStatus.Store(false)
 			_ = recover()
 		}()
-- 
2.43.0


From 815da27f9882149805ff97a4d05e4b27a7a0d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 20/27] fix: FileStore keeps values whose ttl reaches beyond
 the representable time

---
 library/cachex/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 5853e02..063114c 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -117,7 +118,10 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 		Data: value,
 		Key:  key,
 		TTL:  int64(ttl),
-		Exp:  time.Now().Add(ttl).UnixNano(),
+		Exp:  time.Now().UnixNano() + int64(ttl),
+	}
+	if ttl > 0 && item.Exp < 0 {
+		item.Exp = math.MaxInt64
 	}
 	content, err := json.MarshalIndent(item, "", "  ")
 	if err != nil {
-- 
2.43.0


From 2ddeefb4753c0870140a21a1f1b16b4ea8f0e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 21/27] fix: FileStore keeps distinct keys in distinct files

---
 library/cachex/file.go | 55 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 063114c..48a790e 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -11,6 +11,8 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -47,14 +49,63 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	str := fmt.Sprint(key)
 	h := md5.New()
-	h.Write([]byte(str))
+	h.Write([]byte(keyString(key)))
 	s := hex.EncodeToString(h.Sum(nil))
 	fp := filepath.Join(f.Dir, s[:3], s[3:6], s[6:9], s[9:12], s[12:15], s[16:])
 	return fp + cacheFileExt
 }
 
+// keyString returns a text that differs for different keys.
+//
+// Keys of pointer-like types are told apart by what fmt prints for them.
+func keyString[K comparable](key K) string {
+	v := reflect.ValueOf(&key).Elem()
+	if v.Kind() == reflect.String {
+		return v.String()
+	}
+	var sb strings.Builder
+	writeKey(&sb, v)
+	return sb.String()
+}
+
+func writeKey(sb *strings.Builder, v reflect.Value) {
+	switch v.Kind() {
+	case reflect.String:
+		sb.WriteString(strconv.Quote(v.String()))
+	case reflect.Bool:
+		sb.WriteString(strconv.FormatBool(v.Bool()))
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		sb.WriteString(strconv.FormatInt(v.Int(), 10))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
+	case reflect.Float32, reflect.Float64:
+		// adding 0 makes -0, which equals 0, look like it
+		sb.WriteString(strconv.FormatFloat(v.Float()+0, 'g', -1, v.Type().Bits()))
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			writeKey(sb, v.Field(i))
+			sb.WriteByte(' ')
+		}
+	case reflect.Array:
+		for i := 0; i < v.Len(); i++ {
+			writeKey(sb, v.Index(i))
+			sb.WriteByte(' ')
+		}
+	case reflect.Interface:
+		if v.IsNil() {
+			sb.WriteString("nil")
+			return
+		}
+		v = v.Elem()
+		fmt.Fprintf(sb, "%s.%s(", v.Type().PkgPath(), v.Type())
+		writeKey(sb, v)
+		sb.WriteByte(')')
+	default:
+		fmt.Fprint(sb, v)
+	}
+}
+
 // Get Read the content from the cache
 // Return values:
 //
-- 
2.43.0


From 905afc481f7f392d54905c30adc51ba9cf92ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 22/27] fix: FileStore.Purge reports directories it could not
 read and ignores entries already gone

---
 library/cachex/file.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 48a790e..cde647b 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -320,12 +320,12 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
-			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
-				errTotal++
-				lastErr = e
-			}
+		if err == nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
+			err = os.Remove(path)
+		}
+		if err != nil && !os.IsNotExist(err) {
+			errTotal++
+			lastErr = err
 		}
 		return nil
 	})
-- 
2.43.0


From 99ce249a15b15811fb5b519eff347bce4d1ea40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 23/27] fix: gslice.Merge returns a new slice and leaves its
 arguments' spare capacity alone

---
 gogenerics/gcontainers/gslice/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..e30f18f 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,7 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	return append(Copy(s1), s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From af10de91f43d814392044d743d42259c2652508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 24/27] fix: gmap.Equal compares the two maps

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From 3c75c585a74a60ca0d0935bb6efb0caa0ea9dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 25/27] fix: FileStore treats an entry holding null as damaged
 instead of panicking

---
 library/cachex/file.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index cde647b..1945ef9 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -119,9 +119,7 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
-	f.mu.RLock()
-	val, ok, dead, err := f.loadFile(fp)
-	f.mu.RUnlock()
+	val, ok, dead, err := f.loadFileShared(fp)
 	if !dead {
 		return val, ok, err
 	}
@@ -136,6 +134,12 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 	return val, ok, err
 }
 
+func (f *FileStore[K, V]) loadFileShared(fp string) (val V, ok bool, dead bool, err error) {
+	f.mu.RLock()
+	defer f.mu.RUnlock() // also when the decoding of a value panics
+	return f.loadFile(fp)
+}
+
 // loadFile reads an entry; dead reports that it is expired or damaged and should be removed
 func (f *FileStore[K, V]) loadFile(fp string) (val V, ok bool, dead bool, err error) {
 	content, err := os.ReadFile(fp)
@@ -145,7 +149,7 @@ func (f *FileStore[K, V]) loadFile(fp string) (val V, ok bool, dead bool, err er
 		}
 		return val, false, false, err
 	}
-	item := &fileCacheItem[K, V]{}
+	var item fileCacheItem[K, V]
 	if err = json.Unmarshal(content, &item); err != nil {
 		return val, false, true, err
 	}
-- 
2.43.0


From da5e304f834df278fac3c710b60d9330bb9fc089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 26/27] fix: file store cleaning goes on past a value whose
 decoding panics

---
 library/cachex/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 1945ef9..85eca4a 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -303,6 +303,10 @@ func (f *FileStore[K, V]) gc() {
 
 func (f *FileStore[K, V]) scanExpire() {
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+		// a value whose decoding panics must not keep the other files from being cleaned
+		defer func() {
+			_ = recover()
+		}()
 		if err != nil {
 			return nil
 		}
-- 
2.43.0


From 08b79b6c0ea1a21af215817b53b5606021509d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:07 +0000
Subject: [PATCH 27/27] fix: FileStore cleans and purges a directory that is a
 symbolic link

filepath.WalkDir does not enter a root that is a symbolic link, so with such
a Dir background cleaning removed nothing and Purge returned nil although
every key stayed readable.
---
 library/cachex/file.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 85eca4a..f3d5b3d 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -301,8 +301,18 @@ func (f *FileStore[K, V]) gc() {
 	}()
 }
 
+// walk calls fn for everything in Dir, as filepath.WalkDir would if Dir were not a symbolic link
+func (f *FileStore[K, V]) walk(fn fs.WalkDirFunc) {
+	root, err := filepath.EvalSymlinks(f.Dir)
+	if err != nil {
+		_ = fn(f.Dir, nil, err)
+		return
+	}
+	_ = filepath.WalkDir(root, fn)
+}
+
 func (f *FileStore[K, V]) scanExpire() {
-	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+	f.walk(func(path string, d fs.DirEntry, err error) error {
 		// a value whose decoding panics must not keep the other files from being cleaned
 		defer func() {
 			_ = recover()
@@ -327,7 +337,7 @@ func (f *FileStore[K, V]) Purge() error {
 	defer f.mu.Unlock()
 	var lastErr error
 	var errTotal int
-	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+	f.walk(func(path string, d fs.DirEntry, err error) error {
 		if err == nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			err = os.Remove(path)
 		}
-- 
2.43.0

