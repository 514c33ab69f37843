package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Cfg is the part of a run that is not on the tape. It is derived from the
// seed when a run is generated and stored in the replay file.
type Cfg struct {
	Seed     uint64 `json:"seed"`
	Strategy uint32 `json:"strategy"`
	P        uint32 `json:"p"`
	JumpP    uint32 `json:"jump_p"`
	StepCost int64  `json:"step_cost_ns"`
	Depth    uint32 `json:"depth"`
	EstSteps uint32 `json:"est_steps"`
}

// Request to execute one given run.
type Request struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Race     bool     `json:"race_detector"`
	Cfg      Cfg      `json:"config"`
	Gen      bool     `json:"generate"` // generate choices from the seed instead of replaying the tape
	Tape     []uint32 `json:"tape"`
	// Prefix lists run indices executed before it in the same process, for the
	// rare violation that needs what earlier runs left behind.
	Prefix []uint64 `json:"prefix,omitempty"`
	Base   uint64   `json:"base_seed,omitempty"`
}

// Result of one run.
type Result struct {
	Class    string                     `json:"class"`
	Msg      string                     `json:"msg,omitempty"`
	Log      []string                   `json:"log,omitempty"`
	Hash     uint64                     `json:"hash"`
	Steps    uint64                     `json:"steps"`
	Switches uint64                     `json:"switches"`
	Elapsed  int64                      `json:"sim_ns"`
	Stop     uint32                     `json:"stop"`
	Nontriv  bool                       `json:"nontrivial"`
	Tape     []uint32                   `json:"tape,omitempty"`
	Arity    []uint32                   `json:"-"`
	Trace    []uint64                   `json:"trace,omitempty"`
	Probes   map[string]int             `json:"-"`
	Faults   [runtime.SimNFaults]uint64 `json:"-"`
	Jumps    uint64                     `json:"-"`
	Gs       uint32                     `json:"-"`
}

var (
	tapeOut  = make([]uint32, 1<<20)
	arityOut = make([]uint32, 1<<20)
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// genCfg derives the scheduling strategy of a run from its seed (swarm style).
func genCfg(s *Scenario, seed uint64) Cfg {
	c := Cfg{Seed: seed}
	x := mix(seed)
	next := func(n uint64) uint64 { x = mix(x); return (x >> 20) % n }
	switch next(10) {
	case 0, 1, 2, 3:
		c.Strategy = 0
		c.P = uint32(1) << (7 + next(9))
	case 4, 5, 6:
		c.Strategy = 1
		c.Depth = uint32(1 + next(6))
		c.EstSteps = uint32(1) << (4 + next(8))
	case 7:
		c.Strategy = 2
	case 8:
		c.Strategy = 3
		c.P = uint32(1) << (5 + next(8))
	case 9:
		c.Strategy = 4
		c.P = uint32(1) << (6 + next(8))
	}
	switch next(4) {
	case 0:
		c.JumpP = 0
	case 1:
		c.JumpP = 1 << 6
	case 2:
		c.JumpP = 1 << 10
	case 3:
		c.JumpP = 1 << 13
	}
	switch next(3) {
	case 0:
		c.StepCost = 0
	case 1:
		c.StepCost = 100
	case 2:
		c.StepCost = 20000
	}
	if s.Seq {
		c.Strategy, c.P = 3, 0
	}
	return c
}

var runErr error

// runOne executes one run and returns its result.
func runOne(s *Scenario, c Cfg, tape []uint32, replay bool, trace []uint64) *Result {
	runtime.SimFSReset()
	r := &R{}
	cfg := runtime.SimConfig{
		Seed: c.Seed, Replay: replay, TapeIn: tape, TapeOut: tapeOut, ArityOut: arityOut,
		MaxSteps: s.MaxSteps, FairMax: 4*s.MaxSteps + 100000, Strategy: c.Strategy, P: c.P, JumpP: c.JumpP,
		StepCost: c.StepCost, Depth: c.Depth, EstSteps: c.EstSteps, TraceOut: trace,
	}
	races := raceErrors()
	stop := runtime.SimRun(&cfg, func() {
		s.Run(r)
		r.mainEnd = true
		raceRelease(&r.sync)
	})
	raceAcquire(&r.sync)
	var info runtime.SimInfo
	runtime.SimGetInfo(&info)
	res := &Result{Stop: stop, Hash: info.Hash, Steps: info.Steps, Switches: info.Switches, Elapsed: info.Elapsed, Jumps: info.Jumps, Gs: info.Goroutines}
	var crashText string
	if stop == 2 {
		v, fatal, st := runtime.SimCrashInfo()
		kind := "panic"
		if fatal {
			kind = "fatal"
		}
		crashText = fmt.Sprintf("%s: %s\n%s", kind, safeString(v), st)
	}
	var stk string
	if stop == 1 && !r.mainEnd && r.class == "" || stop == 3 {
		stk = stacks()
	}
	for i := 0; i < runtime.SimNFaults; i++ {
		res.Faults[i] = runtime.SimFSCount(i)
	}
	runtime.SimEnd()
	switch stop {
	case 1:
		if !r.mainEnd && r.class == "" {
			r.class = "stuck"
			r.msg = "the main client is blocked forever\n" + stk
		}
	case 2:
		if r.class == "" {
			r.class = "crash"
			r.msg = crashText
		} else {
			r.msg += "\nthen " + crashText
		}
	case 3:
		if r.class == "" {
			r.class = "livelock"
			r.msg = "no quiescence within the step budget although scheduling became fair\n" + stk
		}
	case 4:
		runErr = fmt.Errorf("simulator table overflow in scenario %s, seed %d", s.Name, c.Seed)
	}
	if d := raceErrors() - races; d > 0 {
		if r.class == "" {
			r.class = "race"
			r.msg = fmt.Sprintf("%d data race(s) reported by the race detector", d)
		} else {
			r.msg += fmt.Sprintf("\nand %d data race(s)", d)
		}
	}
	res.Class, res.Msg, res.Log, res.Nontriv = r.class, r.msg, r.log, r.nontriv
	if r.np > 0 {
		res.Probes = map[string]int{}
		for i := 0; i < r.np; i++ {
			res.Probes[r.pname[i]] = r.pcount[i]
		}
	}
	res.Tape = tapeOut[:info.OutLen]
	res.Arity = arityOut[:info.OutLen]
	if trace != nil {
		res.Trace = trace[:info.TraceLen]
	}
	return res
}

func safeString(v any) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("%T (unprintable)", v)
		}
	}()
	if e, ok := v.(error); ok {
		return e.Error()
	}
	return fmt.Sprint(v)
}

func findScenario(prop, name string) *Scenario {
	for _, s := range scenarios[prop] {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// runScenario returns the scenario and seed of run index i of a property.
func runScenario(prop string, base, i uint64, only string) (*Scenario, uint64) {
	seed := mix(mix(base) ^ mix(i*0x9e37+uint64(len(prop))) ^ hashString(prop))
	list := scenarios[prop]
	if only != "" {
		return findScenario(prop, only), seed
	}
	t := 0
	for _, s := range list {
		if !raceMode || s.Race {
			t += s.Weight
		}
	}
	v := int(i % uint64(t))
	for _, s := range list {
		if raceMode && !s.Race {
			continue
		}
		if v < s.Weight {
			return s, seed
		}
		v -= s.Weight
	}
	return list[0], seed
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type batchOut struct {
	Done      uint64            `json:"done"` // runs executed
	Next      uint64            `json:"next"` // next index to run
	Steps     uint64            `json:"steps"`
	Switches  uint64            `json:"switches"`
	SimNS     int64             `json:"sim_ns"`
	Jumps     uint64            `json:"jumps"`
	Gs        uint64            `json:"goroutines"`
	Nontriv   uint64            `json:"nontrivial"`
	Probes    map[string]int    `json:"probes"`
	Faults    map[string]uint64 `json:"faults"`
	Scen      map[string]uint64 `json:"scenarios"`
	Strat     map[string]uint64 `json:"strategies"`
	Use       map[string]uint64 `json:"step_use"` // longest run, in percent of the step budget
	Pairs     []byte            `json:"pairs"`
	Violation *Violation        `json:"violation,omitempty"`
	Sample    *Sample           `json:"sample,omitempty"`
	HashSum   uint64            `json:"hash_sum"`
	Error     string            `json:"error,omitempty"`
}

type Violation struct {
	Index uint64  `json:"index"`
	Req   Request `json:"request"`
	Res   Result  `json:"result"`
}

type Sample struct {
	Index uint64   `json:"index"`
	Req   Request  `json:"request"`
	Steps uint64   `json:"steps"`
	Log   []string `json:"log"`
}

var faultNames = map[int]string{
	runtime.SimFaultEIORead: "EIO on read", runtime.SimFaultEIOWrite: "EIO on write", runtime.SimFaultEIOMeta: "EIO on metadata",
	runtime.SimFaultENOSPC: "ENOSPC", runtime.SimFaultEACCES: "EACCES", runtime.SimFaultEINTR: "EINTR",
	runtime.SimFaultShortWrite: "short write", runtime.SimFaultShortRead: "short read", runtime.SimFaultTornWrite: "torn write window",
	runtime.SimFaultLatency: "stalled system call", runtime.SimFaultKill: "process kill", runtime.SimFaultPowerLoss: "power loss",
	runtime.SimFaultLostSector: "lost sector", runtime.SimFaultLostMeta: "lost metadata operation", runtime.SimFaultEMFILE: "EMFILE",
	runtime.SimFaultCloseErr: "EIO on close",
}

func batch(prop string, base, start, stride, end uint64, only, hashFile string, deadline time.Time, trace bool) {
	out := batchOut{Probes: map[string]int{}, Faults: map[string]uint64{}, Scen: map[string]uint64{}, Strat: map[string]uint64{}, Use: map[string]uint64{}}
	var hashes []uint64
	w := bufio.NewWriter(os.Stdout)
	i := start
	var sinceGC int
	var prefix []uint64
	var marker [16]byte
	mk, _ := os.OpenFile(hashFile+".cur", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	for ; i < end; i += stride {
		if time.Now().After(deadline) {
			break
		}
		s, seed := runScenario(prop, base, i, only)
		c := genCfg(s, seed)
		if mk != nil {
			binary.LittleEndian.PutUint64(marker[:], i)
			mk.WriteAt(marker[:8], 0)
		}
		res := runOne(s, c, nil, false, nil)
		out.Done++
		if runErr != nil {
			out.Error = runErr.Error()
			break
		}
		out.Steps += res.Steps
		out.Switches += res.Switches
		out.SimNS += res.Elapsed / 1000
		out.Jumps += res.Jumps
		out.Gs += uint64(res.Gs)
		out.Scen[s.Name]++
		out.Strat[[]string{"uniform", "priority (PCT)", "site-biased", "fifo", "starvation"}[c.Strategy]]++
		if u := 100 * res.Steps / (5*s.MaxSteps + 100000); u > out.Use[s.Name] {
			out.Use[s.Name] = u
		}
		if res.Nontriv {
			out.Nontriv++
			hashes = append(hashes, res.Hash)
		}
		out.HashSum += mix(res.Hash ^ i)
		for k, v := range res.Probes {
			out.Probes[k] += v
		}
		for k, v := range res.Faults {
			if v > 0 {
				out.Faults[faultNames[k]] += v
			}
		}
		if trace {
			fmt.Fprintf(os.Stderr, "%d %s %x %d %s\n", i, s.Name, res.Hash, res.Steps, res.Class)
		}
		if res.Class != "" {
			v := &Violation{Index: i, Res: *res}
			v.Req = Request{Prop: prop, Scenario: s.Name, Race: raceMode, Cfg: c, Tape: append([]uint32(nil), res.Tape...), Prefix: append([]uint64(nil), prefix...), Base: base}
			v.Res.Tape = nil
			out.Violation = v
			i += stride
			break
		}
		if out.Sample == nil && res.Nontriv && len(res.Log) > 0 && out.Done > 3 {
			out.Sample = &Sample{Index: i, Steps: res.Steps, Log: res.Log, Req: Request{Prop: prop, Scenario: s.Name, Race: raceMode, Cfg: c, Gen: true}}
		}
		prefix = append(prefix, i)
		sinceGC++
		if sinceGC >= 400 {
			sinceGC = 0
			runtime.GC()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if runtime.NumGoroutine() > 3000 || ms.HeapAlloc > 1<<30 {
				i += stride
				break
			}
		} else if sinceGC%40 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 256<<20 {
				sinceGC = 399
			}
		}
	}
	out.Next = i
	var pairs [8192]byte
	runtime.SimPairs(&pairs)
	out.Pairs = pairs[:]
	if hashFile != "" {
		b := make([]byte, 8*len(hashes))
		for k, h := range hashes {
			binary.LittleEndian.PutUint64(b[8*k:], h)
		}
		os.WriteFile(hashFile, b, 0o644)
	}
	js, _ := json.Marshal(out)
	w.Write(js)
	w.WriteByte('\n')
	w.Flush()
}

func execRequest(q *Request, trace bool) *Result {
	s := findScenario(q.Prop, q.Scenario)
	if s == nil {
		fmt.Fprintf(os.Stderr, "sim: unknown scenario %s/%s\n", q.Prop, q.Scenario)
		os.Exit(3)
	}
	for n, i := range q.Prefix {
		ps, seed := runScenario(q.Prop, q.Base, i, "")
		runOne(ps, genCfg(ps, seed), nil, false, nil)
		if n%400 == 399 {
			runtime.GC()
		}
	}
	var tr []uint64
	if trace {
		tr = make([]uint64, 20000)
	}
	return runOne(s, q.Cfg, q.Tape, !q.Gen, tr)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(128 << 20)
	mode := flag.String("mode", "batch", "")
	prop := flag.String("prop", "", "")
	only := flag.String("scenario", "", "")
	base := flag.Uint64("base", 1, "")
	start := flag.Uint64("start", 0, "")
	stride := flag.Uint64("stride", 1, "")
	end := flag.Uint64("end", 100, "")
	secs := flag.Float64("secs", 60, "")
	hashes := flag.String("hashes", "", "")
	reqFile := flag.String("req", "", "")
	trace := flag.Bool("trace", false, "")
	flag.Parse()

	switch *mode {
	case "list":
		type sc struct {
			Prop, Name   string
			Race, HasPln bool
		}
		var l []sc
		for p, ss := range scenarios {
			for _, s := range ss {
				l = append(l, sc{Prop: p, Name: s.Name, Race: s.Race})
			}
		}
		json.NewEncoder(os.Stdout).Encode(l)
	case "batch":
		if len(scenarios[*prop]) == 0 {
			fmt.Fprintf(os.Stderr, "sim: no scenario for %s\n", *prop)
			os.Exit(3)
		}
		batch(*prop, *base, *start, *stride, *end, *only, *hashes, time.Now().Add(time.Duration(*secs*float64(time.Second))), *trace)
	case "run":
		q := readReq(*reqFile)
		res := execRequest(q, *trace)
		if runErr != nil {
			fmt.Fprintln(os.Stderr, "sim:", runErr)
			os.Exit(3)
		}
		json.NewEncoder(os.Stdout).Encode(res)
	case "describe":
		s, seed := runScenario(*prop, *base, *start, *only)
		json.NewEncoder(os.Stdout).Encode(Request{Prop: *prop, Scenario: s.Name, Race: raceMode, Cfg: genCfg(s, seed), Gen: true, Base: *base})
	case "shrink":
		q := readReq(*reqFile)
		shrink(q, time.Now().Add(time.Duration(*secs*float64(time.Second))))
	default:
		fmt.Fprintln(os.Stderr, "sim: bad mode")
		os.Exit(3)
	}
}

func readReq(f string) *Request {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(3)
	}
	var q Request
	if err := json.Unmarshal(b, &q); err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(3)
	}
	return &q
}

// shrink minimises the tape of a failing run: fewer and smaller choices while
// the same class of violation remains.
func shrink(q *Request, deadline time.Time) {
	s := findScenario(q.Prop, q.Scenario)
	ref := execRequest(q, false)
	runErr = nil
	class := ref.Class
	cur := append([]uint32(nil), ref.Tape...)
	tries := 0
	last := time.Now()
	try := func(t []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		if tries%200 == 0 || time.Since(last) > time.Second {
			runtime.GC()
			last = time.Now()
			if runtime.NumGoroutine() > 6000 {
				deadline = time.Now()
			}
		}
		res := runOne(s, q.Cfg, t, true, nil)
		bad := runErr != nil
		runErr = nil
		if bad || res.Class != class {
			return false
		}
		n := append([]uint32(nil), res.Tape...)
		for len(n) > 0 && n[len(n)-1] == 0 {
			n = n[:len(n)-1]
		}
		if len(n) > len(t) {
			n = append([]uint32(nil), t...)
		}
		cur = n
		return true
	}
	weight := func(t []uint32) (int, int) {
		nz := 0
		for _, v := range t {
			if v != 0 {
				nz++
			}
		}
		return len(t), nz
	}
	if class == "" {
		fmt.Println("{}")
		return
	}
	try(append([]uint32(nil), cur...))
	for {
		l0, z0 := weight(cur)
		// Everything after a point becomes zero.
		lo, hi := 0, len(cur)
		for lo < hi {
			mid := (lo + hi) / 2
			if try(append([]uint32(nil), cur[:mid]...)) {
				hi = mn(mid, len(cur))
			} else {
				lo = mid + 1
			}
		}
		for size := (len(cur) + 1) / 2; size >= 1; size /= 2 {
			for at := 0; at < len(cur); {
				e := mn(at+size, len(cur))
				t := append(append([]uint32(nil), cur[:at]...), cur[e:]...)
				if try(t) {
					continue
				}
				z := append([]uint32(nil), cur...)
				zero := true
				for k := at; k < e; k++ {
					if z[k] != 0 {
						zero = false
					}
					z[k] = 0
				}
				if !zero && try(z) {
					at += size
					continue
				}
				at += size
			}
			if time.Now().After(deadline) {
				break
			}
		}
		for at := 0; at < len(cur); at++ {
			for at < len(cur) && cur[at] > 1 {
				z := append([]uint32(nil), cur...)
				z[at] /= 2
				if !try(z) {
					z = append([]uint32(nil), cur...)
					z[at]--
					if !try(z) {
						break
					}
				}
			}
		}
		l1, z1 := weight(cur)
		if l1 == l0 && z1 == z0 || time.Now().After(deadline) {
			break
		}
	}
	out := *q
	out.Gen = false
	out.Tape = cur
	out.Prefix = nil
	js, _ := json.Marshal(map[string]any{"request": out, "tries": tries, "class": class})
	fmt.Println(string(js))
}

var _ = strings.TrimSpace

func mn(a, b int) int {
	if a < b {
		return a
	}
	return b
}
