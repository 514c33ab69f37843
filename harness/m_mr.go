package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
)

// ---- workload description ----

type mrAct struct {
	kind  int // 0 nothing, 1 yield, 2 sleep, 3 write, 4 cancel, 5 panic
	err   error
	val   int // value written
	pan   any
	sleep time.Duration
	times int
}

const (
	actNone = iota
	actYield
	actSleep
	actWrite
	actCancel
	actPanic
	actBlock // until the call has returned
)

type mrPlan struct {
	api     int // 0 MapReduce, 1 MapReduceChan, 2 MapReduceVoid, 3 ForEach
	n       int
	workers int // effective bound
	opt     bool
	wopt    int
	genActs [][]mrAct // before each item, and one after the last
	mapActs [][]mrAct
	// The reducer performs redActs[k] after having received k values.
	readN   int // values read before returning; -1 reads to the end
	redActs map[int][]mrAct
	redEnd  []mrAct
	ctxKind int // 0 none, 1 never ending, 2 cancelled by a client, 3 timeout, 4 already ended
	ctxAt   int // yields before the client cancels
	ctxDur  time.Duration
	ctxSlp  bool
	srcBuf  int
	withVal bool // custom context type
}

type mrCancel struct {
	err         error
	start, end  uint64
	seq         uint32
	late        bool // another cancel call was already waiting inside when this one started
	ctxEndAfter bool // the context had ended when cancel returned
}

// mrRec is what is observed during one call. All fields are written through
// norace methods.
type mrRec struct {
	r           *R
	p           *mrPlan
	mapped      []int
	mapEnd      []int
	running     int
	maxRunning  int
	sent        int
	genEnd      bool
	recv        *Log[int]
	wrote       *Log[int]
	pipeClosed  bool
	redStarted  int
	redEnd      bool
	redCtxEnded bool
	redWrites   *Log[int]
	cancels     *Log[mrCancel]
	panics      *Log[any]
	returned    bool
	retStamp    uint64
	val         int
	err         error
	panicked    bool
	panVal      any
	ctxAtRet    bool
	runAtRet    int
	redAtRet    bool
	mapsAtRet   int
	ctx         context.Context
	dom         uint32
	gate        chan struct{} // closed when the call has returned
}

//go:norace
func (m *mrRec) mapStart(i int) {
	if i < 0 || i >= len(m.mapped) {
		m.r.Fail("mr-invented-item", "a mapper was called with item %d, which was never generated", i)
		return
	}
	m.mapped[i]++
	m.running++
	if m.running > m.maxRunning {
		m.maxRunning = m.running
	}
}

//go:norace
func (m *mrRec) mapDone(i int) {
	m.running--
	if i >= 0 && i < len(m.mapEnd) {
		m.mapEnd[i]++
	}
}

//go:norace
func (m *mrRec) incSent() { m.sent++ }

//go:norace
func (m *mrRec) setGenEnd() { m.genEnd = true }

//go:norace
func (m *mrRec) setRed(ended bool) { m.redEnd, m.redCtxEnded = true, ended }

//go:norace
func (m *mrRec) incRed() { m.redStarted++ }

//go:norace
func (m *mrRec) setPipeClosed() { m.pipeClosed = true }

//go:norace
func (m *mrRec) setRet(v int, err error) {
	m.returned, m.retStamp, m.val, m.err = true, stamp(), v, err
	m.runAtRet, m.redAtRet = m.running, m.redEnd
}

//go:norace
func (m *mrRec) setPan(v any) {
	m.panicked, m.panVal = true, v
	m.retStamp = stamp()
	m.runAtRet, m.redAtRet = m.running, m.redEnd
}

//go:norace
func (m *mrRec) setCtxAtRet(b bool) { m.ctxAtRet = b }

func (m *mrRec) ctxEnded() bool { return m.ctx != nil && m.ctx.Err() != nil }

type panicPtr struct{ id int }

type sliceErr []int // uncomparable error type

func (e sliceErr) Error() string { return fmt.Sprint("slice error ", []int(e)) }

type structErr struct{ id int }

func (e structErr) Error() string { return fmt.Sprint("struct error ", e.id) }

func mrError(r *R, id int) error {
	switch r.Choose(9) {
	case 1:
		return &structErr{id}
	case 2:
		return structErr{id}
	case 3:
		return mr.ErrReduceNoOutput
	case 4:
		return fmt.Errorf("wrap %d: %w", id, mr.ErrReduceNoOutput)
	case 5:
		return mr.ErrCancelWithNil
	case 6:
		return context.Canceled
	case 7:
		return sliceErr{id}
	case 8:
		return fmt.Errorf("wrap %d: %w", id, context.DeadlineExceeded)
	}
	return errors.New(fmt.Sprint("error ", id))
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func samePanic(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil {
		return true
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

type mrKnobs struct {
	apis             []int
	cancel, pan, ctx int // chance in 16 that the kind is enabled in a run
	multi            int // chance in 16 of more than one reducer write
	early            int
	ctxNever         bool
	ctxEnds          bool // the context is sure to end
	block            int  // chance in 16 that a mapper or the reducer runs until the call has returned
}

func (m *mrRec) do(acts []mrAct, w mr.Writer[int], cancel func(error), log *Log[int]) {
	for i := range acts {
		a := &acts[i]
		switch a.kind {
		case actYield:
			for k := 0; k < a.times; k++ {
				m.r.Yield()
			}
		case actSleep:
			time.Sleep(a.sleep)
		case actWrite:
			log.Add(a.val)
			m.r.Yield()
			if w != nil {
				w.Write(a.val)
			}
			m.r.Yield()
		case actCancel:
			if cancel == nil {
				continue
			}
			k := m.addCancel(a.err)
			m.r.Yield()
			cancel(a.err)
			ended := m.ctxEnded()
			m.endCancel(k, ended)
		case actBlock:
			<-m.gate
		case actPanic:
			m.panics.Add(a.pan)
			m.r.Yield()
			panic(a.pan)
		}
	}
}

// addCancel records that a cancel call starts. A call that starts while an
// earlier one is already waiting inside cancel cannot be the first one.
//
//go:norace
func (m *mrRec) addCancel(err error) int {
	late := false
	for i := 0; i < m.cancels.n; i++ {
		c := &m.cancels.buf[i]
		if c.end == pending && runtime.SimWaiting(c.seq) {
			late = true
		}
	}
	if late {
		m.r.Probe("second cancel while the first waits")
	}
	return m.cancels.Add(mrCancel{err: err, start: stamp(), end: pending, ctxEndAfter: true, seq: runtime.SimSelf(), late: late})
}

//go:norace
func (m *mrRec) endCancel(k int, ended bool) {
	if k >= 0 {
		c := &m.cancels.buf[k]
		c.end, c.ctxEndAfter = stamp(), ended
	}
}

func genMR(r *R, k mrKnobs, seq int) *mrPlan {
	p := &mrPlan{redActs: map[int][]mrAct{}}
	p.api = k.apis[r.Choose(len(k.apis))]
	switch r.Pick(12, 3, 1) {
	case 0:
		p.n = r.Choose(5)
	case 1:
		p.n = r.Choose(12)
	case 2:
		p.n = r.Range(12, 24)
	}
	large := r.Choose(1000) == 999
	p.workers = 16
	switch r.Pick(2, 6) {
	case 0:
		if r.Choose(4) == 3 {
			p.n = r.Range(17, 24)
		}
	case 1:
		p.opt = true
		p.wopt = []int{1, 2, 3, 4, 0, -3, 6, 17}[r.Pick(6, 8, 5, 3, 1, 1, 1, 1)]
		p.workers = p.wopt
		if p.wopt < 1 {
			p.workers = 1
		}
	}
	if large {
		p.n = r.Range(50, 300)
		if p.opt && r.Choose(2) == 1 {
			p.wopt = []int{40, 100, 270, 1000}[r.Choose(4)]
			p.workers = p.wopt
		}
	}
	crowd := p.n > p.workers && r.Choose(2) == 1 // all mappers want to run at once
	canCancel := r.Chance(k.cancel, 16)
	canPanic := r.Chance(k.pan, 16)
	multi := r.Chance(k.multi, 16)
	early := r.Chance(k.early, 16)
	hasCtx := r.Chance(k.ctx, 16)
	errID := seq * 10000
	out := seq * 10000
	pause := func(acts []mrAct) []mrAct {
		switch r.Pick(6, 3, 2) {
		case 1:
			acts = append(acts, mrAct{kind: actYield, times: r.Range(1, 6)})
		case 2:
			acts = append(acts, mrAct{kind: actSleep, sleep: time.Duration(1+r.Choose(40)) * time.Millisecond})
		}
		return acts
	}
	fault := func(acts []mrAct, cancelOK bool, den int) []mrAct {
		if canCancel && cancelOK && r.Chance(1, den) {
			errID++
			a := mrAct{kind: actCancel}
			if r.Choose(6) != 5 {
				a.err = mrError(r, errID)
			}
			acts = append(acts, a)
			acts = pause(acts)
		}
		if canPanic && r.Chance(1, den) {
			errID++
			a := mrAct{kind: actPanic}
			switch r.Choose(4) {
			case 0:
				a.pan = fmt.Sprint("panic ", errID)
			case 1:
				a.pan = &panicPtr{errID}
			case 2:
				a.pan = fmt.Errorf("panic error %d", errID)
			case 3:
				a.pan = []int{errID}
			}
			acts = append(acts, a)
		}
		return acts
	}
	for i := 0; i <= p.n; i++ {
		var a []mrAct
		if !crowd && r.Choose(3) == 2 {
			a = pause(a)
		}
		a = fault(a, false, 12)
		p.genActs = append(p.genActs, a)
	}
	for i := 0; i < p.n; i++ {
		var a []mrAct
		if crowd {
			a = append(a, mrAct{kind: actSleep, sleep: time.Duration(50+r.Choose(10)) * time.Millisecond})
		} else {
			a = pause(a)
		}
		a = fault(a, p.api != 3, 10)
		if r.Chance(k.block, 16) {
			a = append(a, mrAct{kind: actBlock})
		}
		if p.api != 3 {
			for o, outs := 0, r.Pick(3, 8, 3, 1); o < outs; o++ {
				out++
				a = append(a, mrAct{kind: actWrite, val: out})
				if r.Choose(3) == 2 {
					a = pause(a)
				}
				a = fault(a, true, 14)
			}
		}
		if r.Choose(3) == 2 {
			a = pause(a)
		}
		p.mapActs = append(p.mapActs, a)
	}
	p.readN = -1
	if early {
		p.readN = r.Choose(4)
	}
	writes := 1
	switch {
	case p.api == 2:
		writes = 0
	case multi:
		writes = r.Range(2, 4)
	case r.Choose(5) == 4:
		writes = 0
	}
	for i := 0; i < writes; i++ {
		v := r.Choose(3) // zero is a value
		if v > 0 {
			v = seq*10000 + 5000 + i
		}
		a := mrAct{kind: actWrite, val: v}
		if r.Choose(3) == 0 {
			p.redEnd = append(p.redEnd, a)
		} else {
			at := r.Choose(4)
			p.redActs[at] = append(p.redActs[at], a)
		}
	}
	for i := 0; i < 3; i++ {
		var a []mrAct
		if r.Choose(3) == 2 {
			a = pause(a)
		}
		a = fault(a, true, 8)
		if len(a) > 0 {
			at := r.Choose(5)
			p.redActs[at] = append(p.redActs[at], a...)
		}
	}
	if r.Choose(3) == 2 {
		p.redEnd = pause(p.redEnd)
	}
	p.redEnd = fault(p.redEnd, true, 8)
	if k.block > 0 {
		if !k.ctxEnds { // somebody must cancel
			a := mrAct{kind: actCancel}
			if r.Choose(4) != 3 {
				errID++
				a.err = mrError(r, errID)
			}
			p.redActs[0] = append(pause(nil), a)
		}
		if r.Chance(k.block, 16) {
			p.redEnd = append(p.redEnd, mrAct{kind: actBlock})
		}
	}
	if hasCtx {
		p.ctxKind = 1
		switch {
		case k.ctxEnds:
			p.ctxKind += 1 + r.Choose(3)
		case !k.ctxNever:
			p.ctxKind += r.Choose(4)
		}
		p.ctxAt = r.Choose(60)
		p.ctxDur = time.Duration(1+r.Choose(100)) * time.Millisecond
		p.ctxSlp = r.Choose(2) == 1
	}
	p.srcBuf = r.Choose(3)
	return p
}

// run performs the call in the current goroutine and records what happens.
func (m *mrRec) run() {
	r, p := m.r, m.p
	var opts []mr.Option
	if p.opt {
		opts = append(opts, mr.WithWorkers(p.wopt))
	}
	switch p.ctxKind {
	case 1:
		m.ctx = context.Background()
	case 2:
		c, cancel := context.WithCancel(context.Background())
		m.ctx = c
		r.Go("context canceller", m.dom, func() {
			if p.ctxSlp {
				time.Sleep(p.ctxDur)
			}
			for i := 0; i < p.ctxAt; i++ {
				r.Yield()
			}
			cancel()
		})
	case 3:
		c, cancel := context.WithTimeout(context.Background(), p.ctxDur)
		m.ctx = c
		_ = cancel
	case 4:
		c, cancel := context.WithCancel(context.Background())
		cancel()
		m.ctx = c
	}
	if m.ctx != nil {
		opts = append(opts, mr.WithContext(m.ctx))
	}
	generate := func(src chan<- int) {
		for i := 0; i < p.n; i++ {
			m.do(p.genActs[i], nil, nil, nil)
			src <- i
			m.incSent()
		}
		m.do(p.genActs[p.n], nil, nil, nil)
		m.setGenEnd()
	}
	mapper := func(i int, w mr.Writer[int], cancel func(error)) {
		m.mapStart(i)
		defer m.mapDone(i)
		r.Yield()
		if i >= 0 && i < len(p.mapActs) {
			m.do(p.mapActs[i], w, cancel, m.wrote)
		}
		r.Yield()
	}
	reducer := func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		m.incRed()
		defer func() {
			m.setRed(m.ctxEnded())
		}()
		k := 0
		m.do(p.redActs[0], w, cancel, m.redWrites)
		for p.readN < 0 || k < p.readN {
			v, ok := <-pipe
			if !ok {
				m.setPipeClosed()
				break
			}
			m.recv.Add(v)
			k++
			r.Yield()
			m.do(p.redActs[k], w, cancel, m.redWrites)
		}
		for i := k + 1; i < 6; i++ {
			m.do(p.redActs[i], w, cancel, m.redWrites)
		}
		m.do(p.redEnd, w, cancel, m.redWrites)
	}
	defer func() {
		if v := recover(); v != nil {
			m.setPan(v)
		}
		m.setCtxAtRet(m.ctxEnded())
		close(m.gate)
	}()
	var v int
	var err error
	switch p.api {
	case 0:
		v, err = mr.MapReduce[int, int, int](generate, mapper, reducer, opts...)
	case 1:
		src := make(chan int, p.srcBuf)
		r.Go("source feeder", m.dom, func() {
			for i := 0; i < p.n; i++ {
				for _, a := range p.genActs[i] {
					if a.kind != actPanic {
						m.do([]mrAct{a}, nil, nil, nil)
					}
				}
				src <- i
				m.incSent()
			}
			m.setGenEnd()
			close(src)
		})
		v, err = mr.MapReduceChan[int, int, int](src, mapper, reducer, opts...)
	case 2:
		err = mr.MapReduceVoid[int, int](generate, mapper, func(pipe <-chan int, cancel func(error)) {
			reducer(pipe, nil, cancel)
		}, opts...)
	case 3:
		mr.ForEach[int](generate, func(i int) { mapper(i, nil, nil) }, opts...)
	}
	m.setRet(v, err)
}

func (m *mrRec) describe() string {
	p := m.p
	s := fmt.Sprintf("%s: %d items, workers %d, ctx kind %d, reducer reads %d\n", []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach"}[p.api], p.n, p.workers, p.ctxKind, p.readN)
	s += fmt.Sprintf("  sent %d, mapped %v, max running %d, outputs written %v, received by reducer %v, pipe closed %v\n", m.sent, m.mapped[:p.n], m.maxRunning, m.wrote.All(), m.recv.All(), m.pipeClosed)
	s += fmt.Sprintf("  reducer wrote %v, reducer done %v, cancels %v, panics %v\n", m.redWrites.All(), m.redEnd, m.cancels.All(), m.panics.All())
	if m.panicked {
		s += fmt.Sprintf("  call panicked: %v", m.panVal)
	} else {
		s += fmt.Sprintf("  call returned: value %d, error %v", m.val, m.err)
	}
	s += fmt.Sprintf(" (context ended by then: %v)", m.ctxAtRet)
	return s
}

// verify checks a finished call.
func (m *mrRec) verify() {
	r, p := m.r, m.p
	cancels := m.cancels.All()
	var before []mrCancel // cancel calls started before the call returned
	for _, c := range cancels {
		if c.start < m.retStamp {
			before = append(before, c)
		}
	}
	panics := m.panics.All()
	clean := len(before) == 0 && len(panics) == 0 && !m.ctxAtRet
	multi := len(m.redWrites.All()) > 1
	fail := func(class, f string, a ...any) {
		r.Fail(class, f, a...)
	}
	for i := 0; i < p.n; i++ {
		if m.mapped[i] > 1 {
			fail("mr-mapped-twice", "item %d was mapped %d times", i, m.mapped[i])
		}
	}
	if m.maxRunning > p.workers {
		fail("mr-workers", "%d mappers ran at once, the bound is %d", m.maxRunning, p.workers)
	}
	if m.maxRunning == p.workers && p.n > p.workers {
		r.Probe("worker bound reached")
	}
	if m.redStarted > 1 {
		fail("mr-reducer-twice", "the reducer ran %d times", m.redStarted)
	}
	written := map[int]int{}
	for _, v := range m.wrote.All() {
		written[v]++
	}
	got := map[int]int{}
	for _, v := range m.recv.All() {
		got[v]++
		if got[v] > written[v] {
			fail("mr-delivery", "value %d was delivered %d times to the reducer but written %d times", v, got[v], written[v])
		}
	}
	complete := func(why string) {
		for i := 0; i < p.n; i++ {
			if m.mapped[i] != 1 {
				fail("mr-not-mapped", "%s but item %d was mapped %d times", why, i, m.mapped[i])
			}
		}
		if p.api != 3 && p.readN < 0 {
			if !m.pipeClosed {
				fail("mr-pipe-open", "%s but the reducer's pipe was not closed", why)
			}
			for v, n := range written {
				if got[v] != n {
					fail("mr-lost-output", "%s but mapper output %d was written and delivered %d times", why, v, got[v])
				}
			}
		}
		if m.runAtRet != 0 {
			fail("mr-early-return", "%s while %d mappers were running", why, m.runAtRet)
		}
		if p.api != 3 && !m.redAtRet {
			fail("mr-early-return", "%s before the reducer returned", why)
		}
	}
	if m.panicked {
		if len(panics) == 0 && !multi {
			fail("mr-invented-panic", "the call panicked with %v although no user code panicked", m.panVal)
			return
		}
		ok := multi
		for _, v := range panics {
			if samePanic(v, m.panVal) {
				ok = true
			}
		}
		if !ok {
			fail("mr-wrong-panic", "the call panicked with %v, which is none of the panic values %v", m.panVal, panics)
		}
		r.Probe("call panicked")
		return
	}
	if clean {
		if multi {
			fail("mr-multi-write", "the reducer wrote %v and the call returned (%d, %v) instead of panicking", m.redWrites.All(), m.val, m.err)
			return
		}
		complete("the call returned")
		w := m.redWrites.All()
		switch {
		case p.api >= 2:
			if m.err != nil {
				fail("mr-result", "unexpected error %v", m.err)
			}
		case len(w) == 1:
			if m.err != nil || m.val != w[0] {
				fail("mr-result", "the reducer wrote %d and the call returned (%d, %v)", w[0], m.val, m.err)
			}
		default:
			if m.err != mr.ErrReduceNoOutput {
				fail("mr-result", "the reducer wrote nothing and the call returned (%d, %v)", m.val, m.err)
			}
		}
		return
	}
	if p.api == 3 {
		if !m.ctxAtRet {
			fail("mr-swallowed-panic", "user code panicked with %v but ForEach returned", panics)
		}
		return
	}
	if len(panics) > 0 && len(before) == 0 && !m.ctxAtRet {
		fail("mr-swallowed-panic", "user code panicked with %v but the call returned (%d, %v)", panics, m.val, m.err)
		return
	}
	if m.err == nil || m.err == mr.ErrReduceNoOutput && p.api < 2 && !hasErr(before, mr.ErrReduceNoOutput) {
		switch {
		case len(before) > 0:
			fail("mr-cancel-lost", "cancel was called with %v and the call returned (%d, %v)", before[0].err, m.val, m.err)
		case len(panics) > 0:
			fail("mr-swallowed-panic", "user code panicked with %v but the call returned (%d, %v)", panics, m.val, m.err)
		case m.redCtxEnded:
			fail("mr-ctx-lost", "the context ended before the reducer returned and the call returned (%d, %v)", m.val, m.err)
		case multi:
			fail("mr-multi-write", "the reducer wrote %v and the call returned (%d, %v)", m.redWrites.All(), m.val, m.err)
		default:
			complete("the call reported success")
			w := m.redWrites.All()
			if p.api < 2 && (len(w) == 1 && (m.err != nil || m.val != w[0]) || len(w) == 0 && m.err == nil) {
				fail("mr-result", "the reducer wrote %v and the call returned (%d, %v)", w, m.val, m.err)
			}
		}
		return
	}
	// An error: it must be that of a first cancel, or the context's.
	strictCancel := false
	for _, c := range before {
		first := !c.late
		for _, d := range before {
			if d.end < c.start {
				first = false
			}
		}
		want := c.err
		if want == nil {
			want = mr.ErrCancelWithNil
		}
		if first && sameErr(want, m.err) {
			r.Probe("cancel reported")
			return
		}
		if c.end < m.retStamp && !c.ctxEndAfter {
			strictCancel = true
		}
	}
	if m.ctxAtRet && m.err == context.DeadlineExceeded && !strictCancel {
		r.Probe("context expiry reported")
		return
	}
	fail("mr-wrong-error", "the call returned error %v; first cancel calls: %v; context ended: %v", m.err, before, m.ctxAtRet)
}

func hasErr(cs []mrCancel, e error) bool {
	for _, c := range cs {
		if c.err == e {
			return true
		}
	}
	return false
}

func mrScenario(name string, weight int, k mrKnobs, calls int) *Scenario {
	return &Scenario{Name: name, Race: true, Weight: weight, MaxSteps: 600000, Run: func(r *R) {
		n := 1
		if calls > 1 {
			n = r.Range(1, calls)
		}
		// follow: the last caller makes another call once its first has returned.
		follow := r.Choose(8) == 7
		callers := n
		if follow {
			n++
		}
		var recs []*mrRec
		for i := 0; i < n; i++ {
			p := genMR(r, k, i+1)
			m := &mrRec{r: r, p: p, recv: NewLog[int](128 + 4*p.n), wrote: NewLog[int](128 + 4*p.n), redWrites: NewLog[int](16),
				cancels: NewLog[mrCancel](64 + 6*p.n), panics: NewLog[any](64 + 6*p.n), dom: uint32(1 + i), gate: make(chan struct{}),
				mapped: make([]int, p.n), mapEnd: make([]int, p.n)}
			recs = append(recs, m)
			if m.p.n > 0 {
				r.NonTriv()
			}
		}
		for i := 0; i < callers; i++ {
			m := recs[i]
			if !follow || i < callers-1 {
				r.Go(fmt.Sprintf("caller %d", i+1), m.dom, m.run)
				continue
			}
			next := recs[i+1]
			next.dom = m.dom
			r.Go(fmt.Sprintf("caller %d", i+1), m.dom, func() {
				m.run()
				next.run()
			})
		}
		r.Settle()
		for _, m := range recs {
			r.Logf("%s", m.describe())
		}
		if r.Failed() || !r.Join() {
			return
		}
		for _, m := range recs {
			m.verify()
			if left := runtimeLive(m.dom); left != 0 {
				r.Fail("mr-leak", "%d goroutine(s) of the call remain blocked after it returned\n%s", left, stacks())
			}
			if !m.genEnd && m.sent < m.p.n && len(m.panics.All()) == 0 {
				r.Fail("mr-generator-blocked", "the generator could send only %d of %d items", m.sent, m.p.n)
			}
		}
	}}
}

// ---- Finish and FinishVoid ----

type finFn struct {
	kind    int // 0 nil, 1 error, 2 panic
	err     error
	pan     any
	acts    []mrAct
	started Cell
	ended   Cell
}

func finishScenario(name string, weight int, void, barrier, faults bool) *Scenario {
	return &Scenario{Name: name, Race: true, Weight: weight, MaxSteps: 300000, Run: func(r *R) {
		n := r.Choose(7)
		if r.Choose(12) == 11 {
			n = r.Range(16, 20) // more functions than the default number of workers
			if r.Choose(50) == 49 {
				n = []int{33, 65, 100, 129, 257, 300}[r.Choose(6)]
			}
		}
		fns := make([]*finFn, n)
		m := &mrRec{r: r, p: &mrPlan{}, panics: NewLog[any](n), cancels: NewLog[mrCancel](n)}
		for i := range fns {
			f := &finFn{}
			fns[i] = f
			switch r.Pick(4, 2, 2) {
			case 1:
				f.acts = append(f.acts, mrAct{kind: actYield, times: r.Range(1, 5)})
			case 2:
				f.acts = append(f.acts, mrAct{kind: actSleep, sleep: time.Duration(1+r.Choose(20)) * time.Millisecond})
			}
			if faults {
				f.kind = r.Pick(6, 4, 1)
				if void && f.kind == 1 {
					f.kind = 0
				}
			}
			switch f.kind {
			case 1:
				f.err = mrError(r, i+1)
			case 2:
				f.pan = &panicPtr{i}
			}
		}
		if n > 1 {
			r.NonTriv()
		}
		gate := make(chan struct{})
		arrived := &Cell{}
		body := func(i int) error {
			f := fns[i]
			f.started.Add(1)
			defer f.ended.Add(1)
			r.Yield()
			if barrier { // every function waits for all the others
				if arrived.Add(1) == n {
					close(gate)
				}
				<-gate
			}
			m.do(f.acts, nil, nil, nil)
			if f.kind == 2 {
				m.panics.Add(f.pan)
				panic(f.pan)
			}
			r.Yield()
			return f.err
		}
		endedAtRet := &Cell{}
		r.Go("caller", 1, func() {
			defer func() {
				if v := recover(); v != nil {
					m.setPan(v)
				}
			}()
			var err error
			if void {
				var l []func()
				for i := range fns {
					i := i
					l = append(l, func() { _ = body(i) })
				}
				mr.FinishVoid(l...)
			} else {
				var l []func() error
				for i := range fns {
					i := i
					l = append(l, func() error { return body(i) })
				}
				err = mr.Finish(l...)
			}
			for _, f := range fns {
				endedAtRet.Add(f.ended.Get())
			}
			m.setRet(0, err)
		})
		if !r.Join() {
			return
		}
		var kinds []int
		for _, f := range fns {
			kinds = append(kinds, f.kind)
		}
		r.Logf("%d functions, kinds %v (0 nil, 1 error, 2 panic), barrier %v: error %v, panic %v", n, kinds, barrier, m.err, m.panVal)
		if left := runtimeLive(1); left != 0 {
			r.Fail("mr-leak", "%d goroutine(s) of the call remain blocked after it returned\n%s", left, stacks())
		}
		failed := false
		for i, f := range fns {
			if c := f.started.Get(); c > 1 {
				r.Fail("finish-twice", "function %d was run %d times", i, c)
			}
			if f.kind == 1 && f.started.Get() > 0 {
				failed = true
			}
		}
		panics := m.panics.All()
		if m.panicked {
			ok := false
			for _, v := range panics {
				ok = ok || samePanic(v, m.panVal)
			}
			if !ok {
				r.Fail("mr-wrong-panic", "the call panicked with %v; user panics: %v", m.panVal, panics)
			}
			return
		}
		if m.err == nil {
			if len(panics) > 0 {
				r.Fail("mr-swallowed-panic", "functions panicked with %v but the call returned nil", panics)
			}
			if failed {
				r.Fail("finish-lost-error", "a function failed but Finish returned nil")
			}
			for i, f := range fns {
				if f.started.Get() != 1 {
					r.Fail("finish-not-run", "the call returned nil but function %d was run %d times", i, f.started.Get())
				}
			}
			if endedAtRet.Get() != n {
				r.Fail("finish-early", "the call returned nil when only %d of %d functions had returned", endedAtRet.Get(), n)
			}
			return
		}
		for _, f := range fns {
			if f.kind == 1 && f.started.Get() > 0 && sameErr(f.err, m.err) {
				return
			}
		}
		r.Fail("finish-wrong-error", "Finish returned %v (%T), which no function returned", m.err, m.err)
	}}
}

func init() {
	all := []int{0, 1, 2}
	register("R01", mrScenario("plain", 12000, mrKnobs{apis: []int{0, 1, 2, 3}, early: 3}, 2))
	register("R01", mrScenario("never-ending context", 4000, mrKnobs{apis: []int{0, 1, 2, 3}, early: 3, ctx: 16, ctxNever: true}, 1))
	register("R02", mrScenario("cancel", 5000, mrKnobs{apis: all, cancel: 14, early: 3}, 1))
	register("R02", mrScenario("context", 5000, mrKnobs{apis: all, ctx: 15, early: 3}, 1))
	register("R02", mrScenario("cancel-and-context", 2500, mrKnobs{apis: all, cancel: 12, ctx: 12, early: 3}, 1))
	register("R02", mrScenario("context-ends-while-mappers-run", 2500, mrKnobs{apis: all, ctx: 16, ctxEnds: true, cancel: 4, early: 3, block: 8}, 1))
	register("R02", mrScenario("cancel-while-mappers-run", 2500, mrKnobs{apis: all, cancel: 8, ctx: 4, early: 3, block: 8}, 1))
	register("R03", mrScenario("panic", 3, mrKnobs{apis: []int{0, 1, 2, 3}, pan: 14, early: 3, multi: 2}, 1))
	register("R03", mrScenario("multi-write", 1, mrKnobs{apis: []int{0, 1}, multi: 15, early: 4}, 1))
	register("R03", mrScenario("panic-with-cancel-and-context", 2, mrKnobs{apis: []int{0, 1, 2, 3}, pan: 14, cancel: 8, ctx: 8, multi: 2, early: 3}, 1))
	register("R03", finishScenario("finish-panics", 1, false, false, true))
	register("R03", finishScenario("finishvoid-panics", 1, true, false, true))
	register("R04", mrScenario("everything", 3, mrKnobs{apis: []int{0, 1, 2, 3}, pan: 7, cancel: 8, ctx: 8, multi: 4, early: 5}, 2))
	register("R04", finishScenario("finish", 1, false, false, true))
	register("R04", finishScenario("finishvoid", 1, true, false, true))
	register("R05", finishScenario("finish", 3, false, false, true))
	register("R05", finishScenario("finish-barrier", 1, false, true, false))
	register("R05", finishScenario("finishvoid", 1, true, false, false))
	register("R05", finishScenario("finishvoid-barrier", 1, true, true, false))
	register("R05", mrScenario("void", 2, mrKnobs{apis: []int{2}, cancel: 12, early: 3}, 1))
}
