package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type simCfg struct {
	Seed     uint64 `json:"seed"`
	Strategy uint32 `json:"strategy"`
	P        uint32 `json:"p"`
	JumpP    uint32 `json:"jump_p"`
	StepCost int64  `json:"step_cost_ns"`
	Depth    uint32 `json:"depth"`
	EstSteps uint32 `json:"est_steps"`
}

type request struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Race     bool     `json:"race_detector"`
	Cfg      simCfg   `json:"config"`
	Gen      bool     `json:"generate"`
	Tape     []uint32 `json:"tape"`
	Prefix   []uint64 `json:"prefix,omitempty"`
	Base     uint64   `json:"base_seed,omitempty"`
}

type result struct {
	Class    string   `json:"class"`
	Msg      string   `json:"msg,omitempty"`
	Log      []string `json:"log,omitempty"`
	Hash     uint64   `json:"hash"`
	Steps    uint64   `json:"steps"`
	Switches uint64   `json:"switches"`
	Elapsed  int64    `json:"sim_ns"`
	Stop     uint32   `json:"stop"`
	Tape     []uint32 `json:"tape,omitempty"`
	Trace    []uint64 `json:"trace,omitempty"`
}

type batchOut struct {
	Done      uint64            `json:"done"`
	Next      uint64            `json:"next"`
	Steps     uint64            `json:"steps"`
	Switches  uint64            `json:"switches"`
	SimNS     int64             `json:"sim_ns"` // microseconds
	Jumps     uint64            `json:"jumps"`
	Gs        uint64            `json:"goroutines"`
	Nontriv   uint64            `json:"nontrivial"`
	Probes    map[string]int    `json:"probes"`
	Faults    map[string]uint64 `json:"faults"`
	Scen      map[string]uint64 `json:"scenarios"`
	Use       map[string]uint64 `json:"step_use"`
	Strat     map[string]uint64 `json:"strategies"`
	Pairs     []byte            `json:"pairs"`
	Violation *violation        `json:"violation,omitempty"`
	Sample    *sample           `json:"sample,omitempty"`
	HashSum   uint64            `json:"hash_sum"`
	Error     string            `json:"error,omitempty"`
}

type violation struct {
	Index uint64  `json:"index"`
	Req   request `json:"request"`
	Res   result  `json:"result"`
}

type sample struct {
	Index uint64   `json:"index"`
	Req   request  `json:"request"`
	Steps uint64   `json:"steps"`
	Log   []string `json:"log"`
}

// total accumulates the batches of one check.
type total struct {
	batchOut
	hashes  map[uint64]struct{}
	pairs   [8192]byte
	samples []*sample
	plain   uint64
	race    uint64
}

func (t *total) add(b *batchOut, race bool, hashFile string) {
	t.Done += b.Done
	if race {
		t.race += b.Done
	} else {
		t.plain += b.Done
	}
	t.Steps += b.Steps
	t.Switches += b.Switches
	t.SimNS += b.SimNS
	t.Jumps += b.Jumps
	t.Gs += b.Gs
	t.Nontriv += b.Nontriv
	t.HashSum += b.HashSum
	merge := func(dst *map[string]uint64, src map[string]uint64) {
		if *dst == nil {
			*dst = map[string]uint64{}
		}
		for k, v := range src {
			(*dst)[k] += v
		}
	}
	merge(&t.Faults, b.Faults)
	merge(&t.Scen, b.Scen)
	merge(&t.Strat, b.Strat)
	if t.Use == nil {
		t.Use = map[string]uint64{}
	}
	for k, v := range b.Use {
		if v > t.Use[k] {
			t.Use[k] = v
		}
	}
	if t.Probes == nil {
		t.Probes = map[string]int{}
	}
	for k, v := range b.Probes {
		t.Probes[k] += v
	}
	for i, x := range b.Pairs {
		if i < len(t.pairs) {
			t.pairs[i] |= x
		}
	}
	if b.Sample != nil && len(t.samples) < 3 {
		t.samples = append(t.samples, b.Sample)
	}
	if hb, err := os.ReadFile(hashFile); err == nil {
		for i := 0; i+8 <= len(hb); i += 8 {
			t.hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
	}
}

// child runs a simulation binary; crash is its stderr if it died or hung.
func (b *builder) child(ctx context.Context, race bool, timeout time.Duration, args ...string) (out []byte, stderr string, hung bool, err error) {
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(cctx, b.bin(race), args...)
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	cmd.Dir = b.dir
	cmd.Env = []string{"TZ=UTC", "PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "GOTRACEBACK=system",
		"GODEBUG=gcshrinkstackoff=1,asyncpreemptoff=1",
		"GORACE=exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 history_size=3"}
	err = cmd.Run()
	if ctx.Err() == nil && cctx.Err() != nil {
		return so.Bytes(), se.String(), true, errors.New("timed out")
	}
	return so.Bytes(), se.String(), false, err
}

type outcome struct {
	viol *violation
	race bool
	text string // stderr of the child that found it
}

type checkErr struct{ msg string }

func (e *checkErr) Error() string { return e.msg }

// explore runs indices [0,n) of a property on the worker processes.
func (b *builder) explore(p *propPlan, race bool, base, n uint64, secs float64, scenario string, t *total, workers int) (*outcome, error) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var mu sync.Mutex
	var found *outcome
	var failed error
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			next := uint64(w)
			first := next
			for next < n && ctx.Err() == nil && time.Now().Before(deadline) {
				left := time.Until(deadline).Seconds()
				hf := filepath.Join(b.dir, fmt.Sprintf("hashes.%s.%v.%d", p.id, race, w))
				first = next
				out, se, hung, err := b.child(ctx, race, time.Duration((left+60)*float64(time.Second)),
					"-mode", "batch", "-prop", p.id, "-base", fmt.Sprint(base), "-start", fmt.Sprint(next), "-stride", fmt.Sprint(workers),
					"-end", fmt.Sprint(n), "-secs", fmt.Sprintf("%.2f", left), "-hashes", hf, "-scenario", scenario)
				if ctx.Err() != nil {
					return
				}
				var bo batchOut
				if err != nil || json.Unmarshal(out, &bo) != nil {
					v, e := b.confirmCrash(p, race, base, first, uint64(workers), hf+".cur", scenario, se, hung)
					mu.Lock()
					if v != nil && found == nil {
						found = v
					} else if e != nil && failed == nil {
						failed = e
					}
					mu.Unlock()
					cancel()
					return
				}
				mu.Lock()
				t.add(&bo, race, hf)
				if bo.Error != "" && failed == nil {
					failed = &checkErr{bo.Error}
				}
				if bo.Violation != nil && (found == nil || bo.Violation.Index < found.viol.Index) {
					found = &outcome{viol: bo.Violation, race: race, text: se}
				}
				mu.Unlock()
				os.Remove(hf)
				os.Remove(hf + ".cur")
				if bo.Violation != nil || bo.Error != "" {
					cancel()
					return
				}
				if bo.Next <= next {
					mu.Lock()
					failed = &checkErr{"a batch made no progress"}
					mu.Unlock()
					cancel()
					return
				}
				next = bo.Next
			}
		}()
	}
	wg.Wait()
	if found != nil {
		return found, nil
	}
	return nil, failed
}

// confirmCrash decides whether the death of a child is a violation: the run it
// was executing must kill a fresh process again.
func (b *builder) confirmCrash(p *propPlan, race bool, base, first, stride uint64, cur, scenario, se string, hung bool) (*outcome, error) {
	mk, err := os.ReadFile(cur)
	if err != nil || len(mk) < 8 {
		return nil, &checkErr{"simulation process died at start:\n" + tail(se, 3000)}
	}
	i := binary.LittleEndian.Uint64(mk)
	if strings.Contains(se, "sim: ") {
		return nil, &checkErr{fmt.Sprintf("run %d: %s", i, firstLines(se, 30))}
	}
	out, se2, _, err := b.child(context.Background(), race, time.Minute, "-mode", "describe", "-prop", p.id, "-base", fmt.Sprint(base), "-start", fmt.Sprint(i), "-scenario", scenario)
	var q request
	if err != nil || json.Unmarshal(out, &q) != nil {
		return nil, &checkErr{"cannot describe run: " + se2}
	}
	res, text, e := b.exec(&q, race, false, 120*time.Second)
	if e == nil && res != nil && res.Class == "" && !hung && scenario == "" {
		// Perhaps it needs what earlier runs of that process left behind.
		for k := first; k < i; k += stride {
			q.Prefix = append(q.Prefix, k)
		}
		res, text, e = b.exec(&q, race, false, 300*time.Second)
	}
	if e == nil && (res == nil || res.Class != "") {
		class := "process-crash"
		if res != nil {
			class = res.Class
		} else if strings.HasPrefix(text, "HUNG") {
			class = "hang"
		}
		return &outcome{viol: &violation{Index: i, Req: q, Res: result{Class: class, Msg: firstLines(text, 60)}}, race: race, text: text}, nil
	}
	if hung {
		return nil, &checkErr{fmt.Sprintf("run %d did not finish in time and does so alone", i)}
	}
	return nil, &checkErr{fmt.Sprintf("run %d killed its process but does not alone:\n%s", i, firstLines(se, 40))}
}

// exec executes one request in a fresh process. A nil result without error
// means the process died (text says how).
func (b *builder) exec(q *request, race, trace bool, timeout time.Duration) (*result, string, error) {
	f, err := os.CreateTemp(b.dir, "req")
	if err != nil {
		return nil, "", err
	}
	defer os.Remove(f.Name())
	js, _ := json.Marshal(q)
	f.Write(js)
	f.Close()
	args := []string{"-mode", "run", "-req", f.Name()}
	if trace {
		args = append(args, "-trace")
	}
	out, se, hung, err := b.child(context.Background(), race, timeout, args...)
	if hung {
		return nil, "HUNG: the run does not end\n" + se, nil
	}
	var r result
	if err != nil || json.Unmarshal(out, &r) != nil {
		if strings.Contains(se, "sim: ") {
			return nil, se, &checkErr{firstLines(se, 30)}
		}
		return nil, se, nil
	}
	return &r, se, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// raceReport extracts the first data race report from the detector's output.
func raceReport(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	return firstLines(s, 60)
}

type replayFile struct {
	Property  string   `json:"property"`
	Class     string   `json:"violation"`
	Message   string   `json:"message"`
	Race      string   `json:"race_report,omitempty"`
	History   []string `json:"history"`
	Scenario  string   `json:"scenario"`
	Seed      uint64   `json:"verif_seed"`
	Index     uint64   `json:"run_index"`
	Steps     uint64   `json:"scheduling_points"`
	Switches  uint64   `json:"context_switches"`
	Shrunk    bool     `json:"minimised"`
	OrigTape  int      `json:"choices_before_minimising"`
	Tape      int      `json:"choices"`
	Nonzero   int      `json:"nonzero_choices"`
	Request   request  `json:"request"`
	Schedule  []string `json:"schedule"`
	ReplayCmd string   `json:"replay_cmd"`
}

// report confirms, minimises and writes a violation. It returns the replay
// path, or "" if the violation could not be reproduced in a fresh process.
func (b *builder) report(p *propPlan, o *outcome, seed uint64) (string, *replayFile, error) {
	v := o.viol
	q := v.Req
	if !q.Gen {
		prefix := q.Prefix
		ok := false
		// Alone first, then after some of the runs that preceded it in its process.
		for _, n := range []int{0, 0, 1, 4, 16, 64, 256, 1024, 8192, len(prefix)} {
			if n > len(prefix) {
				continue
			}
			q.Prefix = prefix[len(prefix)-n:]
			if n == 0 {
				q.Prefix = nil
			}
			res, text, err := b.exec(&q, o.race, false, 300*time.Second)
			if err != nil {
				return "", nil, err
			}
			if res != nil && res.Class == v.Res.Class {
				ok = true
				v.Res.Msg, v.Res.Log = res.Msg, res.Log
				if o.race {
					o.text = text
				}
				break
			}
		}
		if !ok {
			return "", nil, &checkErr{fmt.Sprintf("violation %s of run %d (scenario %s) does not reproduce in a fresh process:\n%s", v.Res.Class, v.Index, q.Scenario, v.Res.Msg)}
		}
	}
	rf := &replayFile{Property: p.id, Class: v.Res.Class, Message: v.Res.Msg, History: v.Res.Log, Scenario: q.Scenario, Seed: seed, Index: v.Index, OrigTape: len(q.Tape)}
	final := q
	if !q.Gen && q.Prefix == nil {
		f := filepath.Join(b.dir, "shrink.json")
		js, _ := json.Marshal(q)
		os.WriteFile(f, js, 0o644)
		out, _, _, err := b.child(context.Background(), o.race, 90*time.Second, "-mode", "shrink", "-req", f, "-secs", "25")
		os.Remove(f)
		var sh struct {
			Request request `json:"request"`
			Class   string  `json:"class"`
		}
		if err == nil && json.Unmarshal(out, &sh) == nil && sh.Class == v.Res.Class {
			res, text, err := b.exec(&sh.Request, o.race, false, 120*time.Second)
			if err == nil && res != nil && res.Class == v.Res.Class {
				final = sh.Request
				rf.Shrunk = true
				rf.Message, rf.History = res.Msg, res.Log
				if o.race {
					o.text = text
				}
			}
		}
	}
	rf.Race = raceReport(o.text)
	if res, _, err := b.exec(&final, o.race, true, 120*time.Second); err == nil && res != nil {
		rf.Steps, rf.Switches = res.Steps, res.Switches
		rf.Schedule = b.schedule(res.Trace)
	}
	rf.Request = final
	rf.Tape = len(final.Tape)
	for _, x := range final.Tape {
		if x != 0 {
			rf.Nonzero++
		}
	}
	dir := filepath.Join(b.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.id, strconv.FormatUint(seed, 10), v.Index))
	rf.ReplayCmd = "./check replay " + path
	js, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, js, 0o644); err != nil {
		return "", nil, err
	}
	return path, rf, nil
}

// schedule prints which goroutine ran where, one line per uninterrupted stretch.
func (b *builder) schedule(tr []uint64) []string {
	name := func(s uint32) string {
		switch {
		case s == 0:
			return "harness"
		case s >= 1<<20:
			k := s - 1<<20
			if k >= 1024 {
				return "inside write"
			}
			if k >= 512 {
				return fmt.Sprintf("after syscall %d", k-512)
			}
			return fmt.Sprintf("before syscall %d", k)
		case int(s) <= len(b.sites):
			return b.sites[s-1]
		}
		return fmt.Sprint(s)
	}
	var out []string
	for i := 0; i < len(tr); {
		g := tr[i] >> 32
		j := i
		for j+1 < len(tr) && tr[j+1]>>32 == g {
			j++
		}
		a, z := name(uint32(tr[i])), name(uint32(tr[j]))
		if a == z {
			out = append(out, fmt.Sprintf("g%d %s", g, a))
		} else {
			out = append(out, fmt.Sprintf("g%d %s .. %s (%d points)", g, a, z, j-i+1))
		}
		i = j + 1
		if len(out) > 600 {
			out = append(out, "...")
			break
		}
	}
	return out
}

func popcount(b []byte) int {
	n := 0
	for _, x := range b {
		for ; x != 0; x &= x - 1 {
			n++
		}
	}
	return n
}

// check decides one property.
func (b *builder) check(id string) int {
	start := time.Now()
	p := planFor(id)
	if p == nil {
		die(fmt.Errorf("no check for property %q", id))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			if iv, e2 := strconv.ParseInt(s, 10, 64); e2 == nil {
				v = uint64(iv)
			} else {
				v = 0
				for _, c := range s {
					v = v*131 + uint64(c)
				}
			}
		}
		seed = v
	}
	fmt.Printf("check %s tier=%s VERIF_SEED=%d\n", id, tier, seed)
	needPlain, needRace := p.plain > 0, p.race > 0
	if err := b.build(needPlain, needRace); err != nil {
		die(err)
	}
	buildS := time.Since(start).Seconds()
	mult, secs := 1.0, 150.0
	if tier == "thorough" {
		mult, secs = 25, 1500
	}
	if s := os.Getenv("SIM_MULT"); s != "" {
		mult, _ = strconv.ParseFloat(s, 64)
	}
	if s := os.Getenv("SIM_SECS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	workers := runtime.NumCPU()
	if s := os.Getenv("SIM_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	t := &total{hashes: map[uint64]struct{}{}}
	simStart := time.Now()
	var o *outcome
	var err error
	if needPlain {
		o, err = b.explore(p, false, seed, uint64(float64(p.plain)*mult), secs, os.Getenv("SIM_SCENARIO"), t, workers)
	}
	if o == nil && err == nil && needRace {
		o, err = b.explore(p, true, seed, uint64(float64(p.race)*mult), secs, os.Getenv("SIM_SCENARIO"), t, workers)
	}
	simS := time.Since(simStart).Seconds()
	if err != nil {
		die(err)
	}
	var path string
	var rf *replayFile
	if o != nil && os.Getenv("SIM_FAST") != "" {
		fmt.Printf("VIOLATION property=%s (not minimised)\n", id)
		return 1
	}
	if o != nil {
		path, rf, err = b.report(p, o, seed)
		if err != nil {
			die(err)
		}
	}
	nviol := 0
	if o != nil {
		nviol = 1
	}
	b.evidence(p, tier, seed, t, buildS, simS, time.Since(start).Seconds(), nviol, path)
	if o != nil {
		fmt.Printf("scenario %s, run %d: %s\n%s\n", rf.Scenario, rf.Index, rf.Class, firstLines(rf.Message, 40))
		for _, l := range rf.History {
			fmt.Println("  " + l)
		}
		if rf.Race != "" {
			fmt.Println(rf.Race)
		}
		fmt.Printf("minimised to %d choices (%d non-zero) from %d\n", rf.Tape, rf.Nonzero, rf.OrigTape)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	for _, l := range p.required {
		if t.Probes[l] == 0 && t.Faults[l] == 0 && os.Getenv("SIM_SCENARIO") == "" {
			fmt.Printf("WARNING: %q was never reached\n", l)
		}
	}
	fmt.Printf("ok %s: %d runs (%d plain, %d with race detector), %d distinct non-trivial, %.0fs build, %.0fs simulation\n", id, t.Done, t.plain, t.race, len(t.hashes), buildS, simS)
	return 0
}

func (b *builder) evidence(p *propPlan, tier string, seed uint64, t *total, buildS, simS, wall float64, nviol int, replay string) {
	samples := []any{}
	for _, s := range t.samples {
		samples = append(samples, map[string]any{"run_index": s.Index, "scenario": s.Req.Scenario, "run_seed": fmt.Sprintf("%#x", s.Req.Cfg.Seed), "race_detector": s.Req.Race, "scheduling_points": s.Steps, "history": s.Log})
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no non-trivial run recorded a history"})
	}
	perHour := 0.0
	if simS > 0 {
		perHour = float64(t.Done) / simS * 3600
	}
	faults := map[string]any{}
	for k, v := range t.Faults {
		faults[k] = v
	}
	probes := map[string]int{}
	var kinds []string
	for k, v := range t.Probes {
		if f, ok := strings.CutPrefix(k, "fault: "); ok {
			faults[f] = v
		} else {
			probes[k] = v
		}
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	faults["clock jumps to the next timer"] = t.Jumps
	cov := map[string]any{
		"evaluations":                        t.Done,
		"distinct_nontrivial":                len(t.hashes),
		"rule":                               "one evaluation is one simulated run (one seed). " + p.rule + " Distinct runs are counted by a 64-bit hash of every choice and every (goroutine, statement) scheduling point executed.",
		"samples":                            samples,
		"runs_per_hour":                      int64(perHour),
		"seeds_per_hour":                     int64(perHour),
		"runs_plain":                         t.plain,
		"runs_race_detector":                 t.race,
		"scheduling_points":                  t.Steps,
		"context_switches":                   t.Switches,
		"simulated_goroutines":               t.Gs,
		"simulated_seconds":                  float64(t.SimNS) / 1e6,
		"faults_injected":                    faults,
		"probes":                             probes,
		"scenarios":                          t.Scen,
		"strategies":                         t.Strat,
		"longest_run_percent_of_step_budget": t.Use,
		"distinct_preemption_pairs": map[string]any{
			"count":   popcount(t.pairs[:]),
			"measure": "distinct (statement preempted at, statement resumed at) pairs, hashed to 65536 buckets",
		},
		"real_components": p.real,
		"stub_components": p.stub,
		"build_s":         buildS,
		"simulation_s":    simS,
	}
	ev := map[string]any{
		"property":   p.id,
		"tier":       tier,
		"seed":       int64(seed & (1<<62 - 1)),
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     wall,
		"violations": nviol,
		"assumptions": []string{
			"sequential consistency between scheduling points; unsynchronised accesses are found by the race detector on the same schedules",
			"preemption happens between statements, between operands of && and ||, at system calls and at blocking operations of the code under test",
		},
	}
	if replay != "" {
		ev["replay"] = replay
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(b.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), js, 0o644); err != nil {
		die(err)
	}
}

// replay reruns a replay file; exit 1 if it still fails.
func (b *builder) replay(path string) int {
	js, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	var rf replayFile
	if err := json.Unmarshal(js, &rf); err != nil {
		die(err)
	}
	if err := b.build(!rf.Request.Race, rf.Request.Race); err != nil {
		die(err)
	}
	res, text, err := b.exec(&rf.Request, rf.Request.Race, false, 300*time.Second)
	if err != nil {
		die(err)
	}
	if res == nil {
		fmt.Println(firstLines(text, 60))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	if res.Class == "" {
		fmt.Println("the recorded run no longer violates", rf.Property)
		return 0
	}
	fmt.Printf("%s\n%s\n", res.Class, res.Msg)
	for _, l := range res.Log {
		fmt.Println("  " + l)
	}
	if r := raceReport(text); r != "" {
		fmt.Println(r)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// selftest runs the same seeds in different batchings and compares hashes.
func (b *builder) selftest(n uint64) int {
	if err := b.build(true, true); err != nil {
		die(err)
	}
	bad := 0
	for i := range plans {
		p := &plans[i]
		for _, race := range []bool{false, true} {
			if race && p.race == 0 || !race && p.plain == 0 {
				continue
			}
			var sums []uint64
			m := n
			if race {
				m = n / 4
			}
			for _, workers := range []int{1, 3, 8} {
				t := &total{hashes: map[uint64]struct{}{}}
				o, err := b.explore(p, race, 77, m, 600, "", t, workers)
				if err != nil || o != nil {
					fmt.Println(p.id, race, "violation or error during selftest:", err, o != nil)
					bad++
				}
				sums = append(sums, t.HashSum)
			}
			if sums[0] != sums[1] || sums[0] != sums[2] {
				fmt.Println(p.id, "race", race, "NOT DETERMINISTIC", sums)
				bad++
			} else {
				fmt.Println(p.id, "race", race, "deterministic over", m, "seeds, 12 processes, 3 batchings")
			}
		}
	}
	if bad > 0 {
		return 3
	}
	return 0
}
