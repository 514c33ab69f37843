package main

// propPlan says how much of what a check runs.
type propPlan struct {
	id         string
	plain      int // quick runs without race detector
	race       int // quick runs with race detector
	rule       string
	required   []string // probes that must be hit on a clean pass
	real, stub []string
}

func planFor(id string) *propPlan {
	for i := range plans {
		if plans[i].id == id {
			return &plans[i]
		}
	}
	return nil
}

var realAll = []string{"the package under test, compiled from /repo's working tree", "Go standard library (sync, sync/atomic, container/list, encoding/json, os, context, ...)", "Go runtime channels, select, timers, memory allocator"}
var stubSched = []string{"Go scheduler choice of the next goroutine, sysmon and preemption signals", "clocks, runtime random source and map iteration seeds"}
var stubDisk = append(append([]string{}, stubSched...), "operating system file calls (in-memory disk with page cache, journal and fault injection)")

var plans = []propPlan{
	{id: "M01", plain: 2500000, race: 300000, rule: "Cases are drawn from the seed: goroutine count, operations, keys, values, schedule. A run is non-trivial if operations of different goroutines overlapped.", real: realAll, stub: stubSched},
	{id: "M02", plain: 2500000, race: 300000, rule: "Cases are drawn from the seed: contents, rangers, writers, what the callback does, schedule. A run is non-trivial if operations of different goroutines overlapped.", real: realAll, stub: stubSched},
	{id: "R01", plain: 2500000, race: 200000, rule: "Cases are drawn from the seed: API, items, workers, outputs, pauses, reducer behaviour, contexts that never end, schedule. A run is non-trivial if it has at least one item (or two functions).", real: realAll, stub: stubSched},
	{id: "R02", plain: 2500000, race: 200000, rule: "Cases are drawn from the seed: API, items, workers, outputs, pauses, reducer behaviour, cancel calls and context ends, schedule. A run is non-trivial if it has at least one item (or two functions).", real: realAll, stub: stubSched},
	{id: "R03", plain: 2500000, race: 200000, rule: "Cases are drawn from the seed: API, items, workers, outputs, pauses, reducer behaviour, panics, cancels, context ends, schedule. A run is non-trivial if it has at least one item (or two functions).", real: realAll, stub: stubSched},
	{id: "R04", plain: 2500000, race: 200000, rule: "Cases are drawn from the seed: API, items, workers, outputs, pauses, reducer behaviour, panics, cancels, context ends, schedule. A run is non-trivial if it has at least one item (or two functions).", real: realAll, stub: stubSched},
	{id: "R05", plain: 2500000, race: 200000, rule: "Cases are drawn from the seed: API, items, workers, outputs, pauses, reducer behaviour, errors, cancels, schedule. A run is non-trivial if it has at least one item (or two functions).", real: realAll, stub: stubSched},
	{id: "L01", plain: 800000, race: 120000, rule: "Cases are drawn from the seed: capacity, usage limit, contents, clients' operations, pauses, schedule. A run is non-trivial if operations of different clients overlapped.", real: realAll, stub: stubSched},
	{id: "L02", plain: 1200000, rule: "Cases are drawn from the seed: capacity, usage limit, operations, clock advances and wall-clock jumps. Every run with at least five operations is non-trivial.", real: realAll, stub: stubSched},
	{id: "E01", plain: 1200000, race: 150000, rule: "Cases are drawn from the seed: error types, clients' operations, schedule. A run is non-trivial if operations of different clients overlapped.", real: realAll, stub: stubSched},
	{id: "B01", plain: 1200000, race: 120000, rule: "Cases are drawn from the seed: contents, clients' operations and offsets, what callers do with results, schedule. A run is non-trivial if operations of different clients overlapped (or, for single-client histories, always).", real: realAll, stub: stubSched},
	{id: "B02", plain: 1200000, race: 120000, rule: "Cases are drawn from the seed: number and contents of sets, operand lists, writers, schedule. A run is non-trivial if operations of different clients overlapped.", real: realAll, stub: stubSched},
	{id: "P01", plain: 2500000, race: 250000, rule: "Cases are drawn from the seed: pool type, number of pools, clients' Gets and Puts, moments at which the pools are emptied, schedule. A run is non-trivial if a Get returned an object that had been Put.", required: []string{"object reused"}, real: realAll, stub: append([]string{"garbage collector emptying sync.Pool (done by the simulator at chosen moments)"}, stubSched...)},
	{id: "S01", plain: 400000, rule: "Cases are drawn from the seed: key type and count, history, entropy streams and the moments they change. Every completed run is non-trivial.", real: realAll, stub: append([]string{"runtime.fastrand and fastrand64 (entropy streams chosen by the simulator)"}, stubSched...)},
	{id: "Z01", plain: 1500000, race: 150000, rule: "Cases are drawn from the seed: entropy stream, functions, bounds, lengths, callers, schedule; distribution runs make 3000 draws. Every run is non-trivial.", real: realAll, stub: append([]string{"runtime.fastrand, fastrand64 and fastrandu (entropy streams chosen by the simulator)"}, stubSched...)},
	{id: "K01", plain: 1500000, race: 150000, rule: "Cases are drawn from the seed: mode, key and text sizes, encoding, fragmentation and failure of the entropy source, callers, schedule. Every run is non-trivial.", required: []string{"fault: entropy source failure", "fault: short entropy reads"}, real: realAll, stub: append([]string{"crypto/rand.Reader (scripted entropy source)"}, stubSched...)},
	{id: "K02", plain: 3000000, race: 200000, rule: "Cases are drawn from the seed: mode, sizes, encoding, damage to stored bytes and characters, keys, callers, schedule. A run is non-trivial if the stored data or key was damaged.", required: []string{"fault: bit flip", "fault: truncation", "fault: forged padding"}, real: realAll, stub: stubSched},
	{id: "H01", plain: 2000000, race: 200000, rule: "Cases are drawn from the seed: levels, their contents, errors, partial results and stalls, requested keys, callers, schedule. A run is non-trivial if the chain has at least two levels.", real: realAll, stub: append([]string{"cache levels of the scripted scenarios"}, stubDisk...)},
	{id: "H02", plain: 2000000, race: 200000, rule: "Cases are drawn from the seed: levels, failing subsets, keys and values, callers, schedule. A run is non-trivial if the chain has at least two levels (or the helper is examined).", real: realAll, stub: append([]string{"cache levels of the scripted scenarios"}, stubDisk...)},
	{id: "F01", plain: 1000000, race: 80000, rule: "Cases are drawn from the seed: keys, clients' operations, ttls, cleaning cycle, stalls, pauses, schedule at system-call granularity. A run is non-trivial if operations of different clients on one key overlapped.", required: []string{"stalled system call", "torn write window"}, real: realAll, stub: stubDisk},
	{id: "F02", plain: 1400000, rule: "Cases are drawn from the seed: keys, clients' operations, fault kinds and rates, kill points, power losses and what they lose, schedule. A run is non-trivial if a fault struck.", required: []string{"process kill", "power loss", "EIO on read", "EIO on write", "EIO on metadata", "ENOSPC", "EACCES", "EMFILE", "EIO on close", "short write"}, real: realAll, stub: stubDisk},
	{id: "F03", plain: 600000, race: 50000, rule: "Cases are drawn from the seed: ttls, cycle, operations, clock advances and wall-clock jumps, foreign files, schedule. A run is non-trivial if time passed (or at least two cleanings ran).", required: []string{"cleaning"}, real: realAll, stub: stubDisk},
	{id: "F04", plain: 600000, race: 50000, rule: "Cases are drawn from the seed: key type, keys, operations, refusing entries and directories, clients, schedule. A run is non-trivial if it uses several keys, refusing entries or overlapping clients.", real: realAll, stub: stubDisk},
	{id: "X01", plain: 2400000, race: 200000, rule: "Cases are drawn from the seed: shared instances and inputs, read-only calls on them, private instances and operations on them, callers, schedule. Every completed run is non-trivial.", real: realAll, stub: stubSched},
}
