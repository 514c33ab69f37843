package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// edit replaces the n-th (or, with all, every) occurrence of old by new; the
// number of occurrences is asserted so that a toolchain change is noticed.
type edit struct {
	file     string
	old, new string
	count    int // expected number of occurrences; 0 means 1
}

var goEdits = []edit{
	// goroutine and timer bookkeeping
	{file: "runtime/runtime2.go", old: "	valgrindStackID uintptr\n}", new: "	valgrindStackID uintptr\n\n	simEpoch uint32\n	simSeq   uint32\n	simPrio  uint32\n	simSite  uint32\n	simDom   uint16\n}"},
	{file: "runtime/time.go", old: "	isSending atomic.Int32\n}", new: "	isSending atomic.Int32\n\n	simEpoch uint32\n	simDom   uint16\n}"},
	{file: "runtime/time.go", old: "	gp.timer.reset(gp.sleepWhen, 0)\n	return true", new: "	gp.timer.simEpoch, gp.timer.simDom = gp.simEpoch, gp.simDom\n	gp.timer.reset(gp.sleepWhen, 0)\n	return true"},
	{file: "runtime/time.go", old: "	t.lock()\n	t.trace(\"modify\")", new: "	t.lock()\n	simTimerOwner(t)\n	t.trace(\"modify\")"},
	{file: "runtime/time.go", old: "		badTimer()\n	}\n\n	f := t.f\n", new: "		badTimer()\n	}\n	if simTimerDead(t) {\n		t.period = 0\n		t.f = simNopTimer\n	}\n	simOwnE, simOwnD := t.simEpoch, t.simDom\n\n	f := t.f\n"},
	{file: "runtime/time.go", old: "	f(arg, seq, delay)\n", new: "	sim.tEpoch, sim.tDom = simOwnE, simOwnD\n	f(arg, seq, delay)\n	sim.tEpoch, sim.tDom = 0, 0\n"},

	// scheduler
	{file: "runtime/proc.go", old: "const haveSysmon = GOARCH != \"wasm\"", new: "const haveSysmon = false"},
	{file: "runtime/proc.go", old: "func runqput(pp *p, gp *g, next bool) {\n", new: "func runqput(pp *p, gp *g, next bool) {\n	if gp.simEpoch != 0 {\n		simEnqueue(gp)\n		return\n	}\n"},
	{file: "runtime/proc.go", old: "	assertLockHeld(&sched.lock)\n\n	sched.runq.pushBack(gp)\n", new: "	assertLockHeld(&sched.lock)\n	if gp.simEpoch != 0 {\n		simEnqueue(gp)\n		return\n	}\n\n	sched.runq.pushBack(gp)\n"},
	{file: "runtime/proc.go", old: "	assertLockHeld(&sched.lock)\n\n	sched.runq.push(gp)\n", new: "	assertLockHeld(&sched.lock)\n	if gp.simEpoch != 0 {\n		simEnqueue(gp)\n		return\n	}\n\n	sched.runq.push(gp)\n"},
	{file: "runtime/proc.go", old: "	// Set up race context.\n	if raceenabled {\n		newg.racectx = racegostart(callerpc)", new: "	simNewG(newg, callergp)\n\n	// Set up race context.\n	if raceenabled {\n		newg.racectx = racegostart(callerpc)"},
	{file: "runtime/proc.go", old: "	casgstatus(gp, _Grunning, _Gdead)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n", new: "	simExitG(gp)\n	casgstatus(gp, _Grunning, _Gdead)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n"},
	{file: "runtime/proc.go", old: "	// Poll network.\n	// This netpoll is only an optimization before", new: "	if sim.active {\n		if gp, again := simPick(); gp != nil {\n			return gp, false, false\n		} else if again {\n			goto top\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before"},
	{file: "runtime/proc.go", old: "		newg = malg(stackMin)\n", new: "		newg = malg(simStackSize)\n"},
	{file: "runtime/stack.go", old: "var startingStackSize uint32 = fixedStack", new: "var startingStackSize uint32 = simStackSize"},

	// crashes
	{file: "runtime/panic.go", old: "	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return", new: "	if gp.simEpoch != 0 {\n		runningPanicDefers.Add(-1)\n		simCrash(e, false)\n	}\n	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return"},
	{file: "runtime/panic.go", old: "func sync_fatal(s string) {\n", new: "func sync_fatal(s string) {\n	simFatal(s)\n"},
	{file: "runtime/panic.go", old: "func internal_sync_fatal(s string) {\n", new: "func internal_sync_fatal(s string) {\n	simFatal(s)\n"},
	{file: "runtime/panic.go", old: "func maps_fatal(s string) {\n", new: "func maps_fatal(s string) {\n	simFatal(s)\n"},

	// randomness
	{file: "runtime/rand.go", old: "	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", new: "	seed := &globalRand.seed\n	if simTrue {\n		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n	} else if len(startupRand) >= 16 &&"},
	{file: "runtime/rand.go", old: "	mp := getg().m\n	c := &mp.chacha8\n	for {", new: "	if getg().simEpoch != 0 && sim.active {\n		return simInternalRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {"},
	{file: "runtime/rand.go", old: "func legacy_fastrand() uint32 {\n", new: "func legacy_fastrand() uint32 {\n	if getg().simEpoch != 0 && sim.active {\n		return uint32(simUserRand())\n	}\n"},
	{file: "runtime/rand.go", old: "func legacy_fastrandn(n uint32) uint32 {\n", new: "func legacy_fastrandn(n uint32) uint32 {\n	if getg().simEpoch != 0 && sim.active {\n		return uint32((uint64(uint32(simUserRand())) * uint64(n)) >> 32)\n	}\n"},
	{file: "runtime/rand.go", old: "func legacy_fastrand64() uint64 {\n", new: "func legacy_fastrand64() uint64 {\n	if getg().simEpoch != 0 && sim.active {\n		return simUserRand()\n	}\n"},
	{file: "runtime/select.go", old: "		j := cheaprandn(uint32(norder + 1))\n", new: "		var j uint32\n		if gp.simEpoch != 0 {\n			j = SimChoose(uint32(norder + 1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},

	// clocks
	{file: "runtime/time_nofake.go", old: "	return nanotime1()\n", new: "	if sim.active {\n		return sim.mono\n	}\n	return nanotime1()\n"},
	{file: "runtime/time_linux_amd64.s", old: "TEXT time·now<ABIInternal>(SB),NOSPLIT,$16-24", new: "TEXT ·simRealNow<ABIInternal>(SB),NOSPLIT,$16-24"},
	{file: "runtime/timeasm.go", old: "func time_now() (sec int64, nsec int32, mono int64)\n", new: "func time_now() (sec int64, nsec int32, mono int64) {\n	if sim.active {\n		return simNow()\n	}\n	return simRealNow()\n}\n\nfunc simRealNow() (sec int64, nsec int32, mono int64)\n"},
	{file: "time/time.go", old: "var startNano int64 = runtimeNano() - 1", new: "var startNano int64 = 1"},

	// system calls
	{file: "syscall/syscall_linux.go", old: "func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", new: "func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if simIntercept(trap, a1) {\n		var e uintptr\n		r1, r2, e = simSyscall(trap, a1, a2, a3, a4, a5, a6)\n		return r1, r2, Errno(e)\n	}\n"},
	{file: "syscall/syscall_linux.go", old: "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n", new: "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n	if simIntercept(trap, a1) {\n		var e uintptr\n		r1, r2, e = simSyscall(trap, a1, a2, a3, 0, 0, 0)\n		return r1, r2, Errno(e)\n	}\n"},
	{file: "syscall/syscall_linux.go", old: "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", new: "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if simIntercept(trap, a1) {\n		var e uintptr\n		r1, r2, e = simSyscall(trap, a1, a2, a3, a4, a5, a6)\n		return r1, r2, Errno(e)\n	}\n"},
	{file: "syscall/syscall_linux.go", old: "func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n", new: "func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n\nfunc simIntercept(trap, a1 uintptr) bool\nfunc simSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr)\n"},
}

// goFiles are added to the standard library of the simulation build.
var goFiles = map[string]string{
	"runtime/zz_sim.go":   "simrt/runtime_sim.go.txt",
	"runtime/zz_simfs.go": "simrt/runtime_simfs.go.txt",
}

// patchGo writes the patched standard library files to dir and adds them to
// the overlay.
func patchGo(goroot, verif, dir string, overlay map[string]string) error {
	files := map[string]string{}
	for _, e := range goEdits {
		src, ok := files[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", e.file))
			if err != nil {
				return err
			}
			src = string(b)
		}
		want := e.count
		if want == 0 {
			want = 1
		}
		if n := strings.Count(src, e.old); n != want {
			return fmt.Errorf("toolchain patch: %s: %d occurrences of %q, want %d", e.file, n, e.old, want)
		}
		files[e.file] = strings.ReplaceAll(src, e.old, e.new)
	}
	for name, src := range files {
		out := filepath.Join(dir, "go", name)
		if err := writeFile(out, src); err != nil {
			return err
		}
		overlay[filepath.Join(goroot, "src", name)] = out
	}
	for name, from := range goFiles {
		overlay[filepath.Join(goroot, "src", name)] = filepath.Join(verif, from)
	}
	return nil
}

func writeFile(path, data string) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, []byte(data), 0o644)
}
