package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
)

// ---- shared pieces of the file store scenarios ----

// fileDir is the directory as the stores of the run name it, diskDir its path on
// the simulated disk.
var fileDir, diskDir string

// fileDirs are the ways in which a directory is named.
var fileDirs = []struct{ given, disk, link, target string }{
	{given: "/data/cache", disk: "/data/cache"},
	{given: "/data/link", disk: "/data/cache", link: "/data/link", target: "/data/cache"},
	{given: "/data/link/", disk: "/data/cache", link: "/data/link", target: "cache"},
	{given: "/data/here/sub", disk: "/vol/1/sub", link: "/data/here", target: "../vol/1"},
	{given: "/data/.hidden", disk: "/data/.hidden"},
	{given: "/data/my.cache", disk: "/data/my.cache"},
	{given: "/data/cache/", disk: "/data/cache"},
	{given: "data/cache", disk: "/data/cache"},
	{given: "./x/../data//cache/.", disk: "/data/cache"},
	{given: "/data/a b[c]*?%2f", disk: "/data/a b[c]*?%2f"},
	{given: "/data/x.cache/y/z", disk: "/data/x.cache/y/z"},
	{given: "cache", disk: "/cache"},
}

// chooseDir decides where the stores of the run keep their files.
func chooseDir(r *R) {
	d := fileDirs[0]
	if r.Choose(3) == 2 {
		d = fileDirs[r.Choose(len(fileDirs))]
	}
	fileDir, diskDir = d.given, d.disk
	if d.given != d.disk {
		runtime.SimFSMkdir("/x")
		r.Probe("directory given by another name")
	}
	diskMkdir(diskDir[:strings.LastIndexByte(diskDir, '/')])
	if d.link != "" {
		diskMkdir("/data")
		diskMkdir(diskDir)
		runtime.SimFSSymlink(d.target, d.link)
		r.Probe("directory behind a symbolic link")
	}
}

// diskMkdir makes a directory and those above it.
func diskMkdir(d string) {
	for i := 1; i < len(d); i++ {
		if d[i] == '/' {
			runtime.SimFSMkdir(d[:i])
		}
	}
	if d != "" {
		runtime.SimFSMkdir(d)
	}
}

func fileDisk(r *R) {
	chooseDir(r)
	if r.Chance(1, 2) {
		runtime.SimFSMkdir(diskDir)
	}
}

// zeroVal is the number of the zero value, which may be stored like any other.
const zeroVal = 1 << 21

// fileValue numbers the next value to store.
func fileValue(r *R, next *int) int {
	if r.Choose(16) == 15 {
		return zeroVal
	}
	*next++
	return *next
}

// fileVal makes a value whose length varies with v, so that mixtures show.
func fileVal(v int) string {
	if v == zeroVal {
		return ""
	}
	n := (v * 37) % 90
	if v%17 == 16 {
		n += 5000
	}
	if v%5 == 4 {
		n += 700
	}
	return fmt.Sprintf("<%d:%s:%d>", v, strings.Repeat(string(rune('a'+v%26)), n), v)
}

// fileNum is the inverse of fileVal; -1 for anything that is not one of its results.
func fileNum(s string) int {
	if s == "" {
		return zeroVal
	}
	if len(s) < 2 || s[0] != '<' {
		return -1
	}
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return -1
	}
	v, err := strconv.Atoi(s[1:i])
	if err != nil || v < 0 || v > 1<<20 || fileVal(v) != s {
		return -1
	}
	return v
}

func fileKey(k int) string {
	return [...]string{"k", "k1", "key-2", "κ3", "", "k 5", "a/b", "k1.cache"}[k]
}

// ---- F01: per-key linearizability with expiry ----

type fileIn struct {
	kind   string // get, set, del
	val    int
	ttl    time.Duration
	t0, t1 int64 // wall clock at call and return
}

type fileOut struct {
	val int
	ok  bool
}

type fileState struct {
	present bool
	val     int
	lo, hi  int64 // bounds of the expiry instant
}

var fileModel = Model{
	Init: fileState{},
	Key:  func(s any) string { return fmt.Sprint(s) },
	Step: func(s any, op *Op) []any {
		st := s.(fileState)
		in := op.In.(fileIn)
		switch in.kind {
		case "set":
			return []any{fileState{true, in.val, satAdd(in.t0, in.ttl), satAdd(in.t1, in.ttl)}}
		case "del":
			return []any{fileState{}}
		}
		out := op.Out.(fileOut)
		if out.ok {
			if !st.present || st.val != out.val || in.t0 >= st.hi {
				return nil
			}
			return []any{st}
		}
		if st.present && in.t1 < st.lo {
			return nil
		}
		return []any{fileState{}}
	},
}

type fileOp struct {
	client    int
	call, ret uint64
	kind      string
	keys      []int
	vals      []int
	ttl       time.Duration
	t0, t1    int64
	ovals     [4]int
	ooks      [4]bool
	bad       string
}

type fileStore interface {
	Get(ctx context.Context, key string) (string, bool, error)
	Set(ctx context.Context, key, value string, ttl time.Duration) error
	MGet(ctx context.Context, keys ...string) ([]string, []bool, error)
	MSet(ctx context.Context, kvs map[string]string, ttl time.Duration) error
	Delete(ctx context.Context, keys ...string) error
	Purge() error
}

//go:norace
func (o *fileOp) begin() {
	o.t0 = runtime.SimWall()
	o.call = stamp()
}

//go:norace
func (o *fileOp) end() {
	o.ret = stamp()
	o.t1 = runtime.SimWall()
}

//go:norace
func (o *fileOp) res(i int, v string, ok bool) {
	o.ooks[i] = ok
	o.ovals[i] = 0
	if ok {
		o.ovals[i] = fileNum(v)
	} else if v != "" {
		o.bad = "a miss came with value " + strconv.Quote(v)
	}
}

//go:norace
func (o *fileOp) fail(s string) { o.bad = s }

// fileDo performs o on s. names and kvs are prepared by the caller so that no
// map or slice is shared between goroutines.
func fileDo(s fileStore, o *fileOp, names []string, kvs map[string]string) {
	ctx := context.Background()
	o.begin()
	switch o.kind {
	case "get":
		v, ok, err := s.Get(ctx, names[0])
		o.end()
		if err != nil {
			o.fail("error: " + err.Error())
			return
		}
		o.res(0, v, ok)
	case "mget":
		vs, oks, err := s.MGet(ctx, names...)
		o.end()
		if err != nil {
			o.fail("error: " + err.Error())
			return
		}
		if len(vs) != len(names) || len(oks) != len(names) {
			o.fail(fmt.Sprintf("%d values and %d flags for %d keys", len(vs), len(oks), len(names)))
			return
		}
		for i := range names {
			o.res(i, vs[i], oks[i])
		}
	case "set":
		err := s.Set(ctx, names[0], fileVal(o.vals[0]), o.ttl)
		o.end()
		if err != nil {
			o.fail("error: " + err.Error())
		}
	case "mset":
		err := s.MSet(ctx, kvs, o.ttl)
		o.end()
		if err != nil {
			o.fail("error: " + err.Error())
		}
	case "del":
		err := s.Delete(ctx, names...)
		o.end()
		if err != nil {
			o.fail("error: " + err.Error())
		}
	case "purge":
		err := s.Purge()
		o.end()
		if err != nil {
			o.fail("error: " + err.Error())
		}
	}
}

func (o *fileOp) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", o.kind)
	for i, k := range o.keys {
		fmt.Fprintf(&b, " %q", fileKey(k))
		if len(o.vals) > 0 {
			fmt.Fprintf(&b, "=%d", o.vals[i])
		}
	}
	if o.kind == "set" || o.kind == "mset" {
		fmt.Fprintf(&b, " ttl %v", o.ttl)
	}
	if o.bad != "" {
		return b.String() + " -> " + o.bad
	}
	if o.kind == "get" || o.kind == "mget" {
		for i := range o.keys {
			fmt.Fprintf(&b, " -> (%d,%v)", o.ovals[i], o.ooks[i])
		}
	}
	fmt.Fprintf(&b, " [wall %+.6fs..%+.6fs]", float64(o.t0-1700000000e9)/1e9, float64(o.t1-1700000000e9)/1e9)
	return b.String()
}

// genFileOp draws an operation; next numbers the values.
func genFileOp(r *R, nk int, next *int, ttls []time.Duration, purge bool) *fileOp {
	o := &fileOp{}
	w := []int{4, 5, 2, 2, 3, 0}
	if purge {
		w[5] = 4
	}
	switch r.Pick(w...) {
	case 0:
		o.kind = "get"
		o.keys = []int{r.Choose(nk)}
	case 1:
		o.kind = "set"
		o.keys = []int{r.Choose(nk)}
	case 2:
		o.kind = "mget"
		for i := r.Range(1, 4); i > 0; i-- {
			o.keys = append(o.keys, r.Choose(nk))
		}
	case 3:
		o.kind = "mset"
		n := r.Range(1, nk)
		o.keys = r.Perm(nk)[:n]
	case 4:
		o.kind = "del"
		for i := r.Range(1, 2); i > 0; i-- {
			o.keys = append(o.keys, r.Choose(nk))
		}
	case 5:
		o.kind = "purge"
	}
	if o.kind == "set" || o.kind == "mset" {
		for range o.keys {
			o.vals = append(o.vals, fileValue(r, next))
		}
		o.ttl = ttls[r.Choose(len(ttls))]
	}
	return o
}

func (o *fileOp) args() (names []string, kvs map[string]string) {
	for _, k := range o.keys {
		names = append(names, fileKey(k))
	}
	if o.kind == "mset" {
		kvs = map[string]string{}
		for i, k := range o.keys {
			kvs[fileKey(k)] = fileVal(o.vals[i])
		}
	}
	return
}

// fileHistory checks per-key linearizability of completed operations.
func fileHistory(r *R, nk int, all []*fileOp) {
	var ops []*Op
	for _, o := range all {
		if o.bad != "" {
			r.Fail("result", "client %d: %v", o.client, o)
			return
		}
	}
	for k := 0; k < nk; k++ {
		ops = ops[:0]
		for _, o := range all {
			add := func(in fileIn, out fileOut) {
				in.t0, in.t1 = o.t0, o.t1
				ops = append(ops, &Op{Client: o.client, Call: o.call, Ret: o.ret, In: in, Out: out, Desc: o.String()})
			}
			if o.kind == "purge" {
				add(fileIn{kind: "del"}, fileOut{})
			}
			for i, ok := range o.keys {
				if ok != k {
					continue
				}
				switch o.kind {
				case "get", "mget":
					add(fileIn{kind: "get"}, fileOut{o.ovals[i], o.ooks[i]})
				case "set", "mset":
					add(fileIn{kind: "set", val: o.vals[i], ttl: o.ttl}, fileOut{})
				case "del":
					add(fileIn{kind: "del"}, fileOut{})
				}
			}
		}
		if overlaps(ops) {
			r.NonTriv()
		}
		ok, inc := linearizable(ops, fileModel)
		if inc {
			r.Probe("history search given up")
		}
		if !ok {
			r.Fail("history", "no one-at-a-time order explains the results for key %q:\n%s", fileKey(k), describeOps(ops))
			return
		}
	}
}

// fileConc runs concurrent clients on one store and a healthy disk.
func fileConc(r *R, purge bool) {
	fileDisk(r)
	nk := r.Range(1, 3)
	cycles := []time.Duration{0, time.Nanosecond, time.Millisecond, 20 * time.Millisecond, 3 * time.Second}
	cycle := cycles[r.Choose(len(cycles))]
	ttls := [][]time.Duration{
		{time.Hour},
		{time.Hour, 5 * time.Millisecond, 50 * time.Microsecond},
		{time.Hour, 30 * time.Millisecond, 2 * time.Second, time.Nanosecond, 0},
	}[r.Choose(3)]
	store := &cachex.FileStore[string, string]{Dir: fileDir, GCCycle: cycle}
	var all []*fileOp
	next := 0
	r.Logf("cycle %v, %d keys", cycle, nk)
	for i := r.Range(0, 2); i > 0; i-- {
		o := genFileOp(r, nk, &next, ttls, false)
		n, m := o.args()
		fileDo(store, o, n, m)
		all = append(all, o)
	}
	if r.Chance(1, 3) {
		runtime.SimAdvance(int64(r.Choose(4)) * int64(time.Second))
	}
	if r.Chance(1, 2) {
		runtime.SimFSFault(runtime.SimFaultLatency, 1<<uint(9+r.Choose(6)))
	}
	if r.Chance(1, 3) {
		runtime.SimFSFault(runtime.SimFaultTornWrite, 1<<uint(11+r.Choose(5)))
		runtime.SimFSFault(runtime.SimFaultShortRead, 1<<13)
		runtime.SimFSFault(runtime.SimFaultShortWrite, 1<<13)
	}
	for c := r.Range(2, 4); c > 0; c-- {
		var mine []*fileOp
		var names [][]string
		var kvs []map[string]string
		var pauses []time.Duration
		for i := r.Range(1, 5); i > 0; i-- {
			o := genFileOp(r, nk, &next, ttls, purge)
			o.client = c
			n, m := o.args()
			mine = append(mine, o)
			names = append(names, n)
			kvs = append(kvs, m)
			p := time.Duration(0)
			if r.Chance(1, 4) {
				p = []time.Duration{time.Microsecond, time.Millisecond, 20 * time.Millisecond, time.Second}[r.Choose(4)]
			}
			pauses = append(pauses, p)
		}
		all = append(all, mine...)
		r.Go(fmt.Sprintf("client %d", c), 0, func() {
			for i, o := range mine {
				if pauses[i] > 0 {
					time.Sleep(pauses[i])
				}
				fileDo(store, o, names[i], kvs[i])
			}
		})
	}
	if !r.Join() {
		return
	}
	runtime.SimFSFault(runtime.SimFaultLatency, 0)
	for k := 0; k < nk; k++ {
		o := &fileOp{kind: "get", keys: []int{k}}
		fileDo(store, o, []string{fileKey(k)}, nil)
		r.Settle()
		all = append(all, o)
	}
	for _, o := range all {
		r.Logf("client %d [%d,%d] %v", o.client, o.call, o.ret, o)
	}
	fileHistory(r, nk, all)
}

// ---- F02: crashes and disk errors ----

const absentV, damagedV = -1, -2

type fkey struct {
	cand map[int]bool // values, absentV, damagedV
	ever map[int]bool
	desc []string
}

func (k *fkey) set(vs ...int) {
	k.cand = map[int]bool{}
	for _, v := range vs {
		k.cand[v] = true
	}
}

func (k *fkey) String() string {
	var s []string
	for v := range k.cand {
		switch v {
		case absentV:
			s = append(s, "absent")
		case damagedV:
			s = append(s, "damaged")
		default:
			s = append(s, strconv.Itoa(v))
		}
	}
	sort.Strings(s)
	return "{" + strings.Join(s, " ") + "}"
}

func (k *fkey) uncertain(vs ...int) {
	for _, v := range vs {
		k.cand[v] = true
	}
}

type crashOp struct {
	kind string // get, set, del, mget, mset
	keys []int
	vals []int
}

// note records one finished step of a key's history.
func (k *fkey) note(format string, args ...any) {
	k.desc = append(k.desc, fmt.Sprintf(format, args...)+" => "+k.String())
}

func fileCrash(r *R) {
	fileDisk(r)
	nk := r.Range(1, 4)
	keys := make([]*fkey, nk)
	for i := range keys {
		keys[i] = &fkey{ever: map[int]bool{}}
		keys[i].set(absentV)
	}
	next := 0
	mode := r.Pick(2, 3, 3, 2) // kills, errors, both, power losses
	const ttl = 1000 * time.Hour
	ctx := context.Background()
	bad := func(k int, class, format string, args ...any) {
		r.Fail(class, "key %q: %s\nhistory of the key:\n  %s", fileKey(k), fmt.Sprintf(format, args...), strings.Join(keys[k].desc, "\n  "))
	}
	// result of a read of key k; faulty if an error was injected meanwhile.
	read := func(k int, v string, ok bool, err error, faulty bool, what string) {
		key := keys[k]
		switch {
		case err != nil:
			if faulty {
				r.Probe("read error under fault")
				key.note("%s failed under fault: %v", what, err)
				return
			}
			if !key.cand[damagedV] {
				bad(k, "error", "%s returned error %v although no fault struck it and the entry cannot be damaged (candidates %v)", what, err, key)
				return
			}
			r.Probe("damaged entry reported")
			key.set(absentV)
			key.note("%s reported damage: %v", what, err)
		case ok:
			n := fileNum(v)
			if n < 0 {
				bad(k, "torn", "%s returned %.60q, which was never set", what, v)
				return
			}
			if !key.cand[n] {
				bad(k, "stale", "%s returned value %d, admissible %v", what, n, key)
				return
			}
			key.set(n)
			key.note("%s -> %d", what, n)
		default:
			if faulty && !key.cand[absentV] && !key.cand[damagedV] {
				key.note("%s missed under fault", what)
				return
			}
			if !key.cand[absentV] && !key.cand[damagedV] {
				bad(k, "lost", "%s missed, admissible %v", what, key)
				return
			}
			if faulty {
				key.note("%s missed under fault", what)
				return
			}
			key.set(absentV)
			key.note("%s missed", what)
		}
	}
	rounds := r.Range(1, 4)
	for round := 1; round <= rounds && !r.Failed(); round++ {
		dom := uint32(round)
		runtime.SimResetGlobals()
		store := &cachex.FileStore[string, string]{Dir: fileDir, GCCycle: []time.Duration{0, time.Nanosecond, time.Millisecond}[r.Choose(3)]}
		kill := mode != 1 && r.Chance(2, 3)
		if mode == 1 || mode == 2 || mode == 3 && r.Chance(1, 3) {
			style := r.Choose(8)
			p := func() uint32 { return 1 << uint(8+r.Choose(8)) }
			set := func(kinds ...int) {
				for _, k := range kinds {
					runtime.SimFSFault(k, p())
				}
			}
			switch style {
			case 0:
				set(runtime.SimFaultEIORead)
			case 1:
				set(runtime.SimFaultEIOWrite)
			case 2:
				set(runtime.SimFaultENOSPC)
			case 3:
				set(runtime.SimFaultEIOMeta, runtime.SimFaultEACCES)
			case 4:
				set(runtime.SimFaultEINTR, runtime.SimFaultEMFILE)
			case 5:
				set(runtime.SimFaultShortWrite, runtime.SimFaultShortRead, runtime.SimFaultENOSPC)
			case 6:
				set(runtime.SimFaultCloseErr)
			case 7:
				set(runtime.SimFaultEIORead, runtime.SimFaultEIOWrite, runtime.SimFaultEIOMeta, runtime.SimFaultENOSPC, runtime.SimFaultShortWrite, runtime.SimFaultCloseErr)
			}
		}
		if r.Chance(1, 3) {
			runtime.SimFSFault(runtime.SimFaultTornWrite, 1<<13)
		}
		nc := 1
		if nk > 1 {
			nc = r.Range(1, nk)
		}
		for c := 0; c < nc; c++ {
			var own []int
			for k := c; k < nk; k += nc {
				own = append(own, k)
			}
			var ops []crashOp
			for i := r.Range(1, 6); i > 0; i-- {
				var o crashOp
				switch r.Pick(5, 4, 1, 1, 1) {
				case 0:
					o.kind = "set"
				case 1:
					o.kind = "get"
				case 2:
					o.kind = "del"
				case 3:
					o.kind = "mset"
				case 4:
					o.kind = "mget"
				}
				o.keys = []int{own[r.Choose(len(own))]}
				if o.kind[0] == 'm' || o.kind == "del" && r.Chance(1, 3) {
					o.keys = nil
					for _, i := range r.Perm(len(own))[:r.Range(1, len(own))] {
						o.keys = append(o.keys, own[i])
					}
				}
				for range o.keys {
					o.vals = append(o.vals, fileValue(r, &next))
				}
				ops = append(ops, o)
			}
			r.Go(fmt.Sprintf("round %d client %d", round, c), dom, func() {
				for _, o := range ops {
					if r.Failed() {
						return
					}
					before := runtime.SimFSErrors()
					faulty := func() bool { return runtime.SimFSErrors() != before }
					k := o.keys[0]
					var names []string
					for _, k := range o.keys {
						names = append(names, fileKey(k))
					}
					switch o.kind {
					case "get":
						v, ok, err := store.Get(ctx, fileKey(k))
						read(k, v, ok, err, faulty(), "Get")
					case "mget":
						vs, oks, err := store.MGet(ctx, names...)
						if err != nil {
							dmg := false
							for _, k := range o.keys {
								dmg = dmg || keys[k].cand[damagedV]
							}
							if !faulty() && !dmg {
								bad(k, "error", "MGet(%q) returned error %v although no fault struck it and no entry can be damaged", names, err)
							}
							// A damaged entry may have been dropped.
							for _, k := range o.keys {
								if keys[k].cand[damagedV] {
									keys[k].uncertain(absentV)
									keys[k].note("MGet failed: %v", err)
								}
							}
							continue
						}
						if len(vs) != len(names) || len(oks) != len(names) {
							bad(k, "torn", "MGet of %d keys returned %d values, %d flags", len(names), len(vs), len(oks))
							return
						}
						f := faulty()
						for i, k := range o.keys {
							read(k, vs[i], oks[i], nil, f, "MGet")
						}
					case "set", "mset":
						old := map[int]map[int]bool{}
						kvs := map[string]string{}
						for i, k := range o.keys {
							key := keys[k]
							old[k] = key.cand
							key.cand = map[int]bool{}
							for v := range old[k] {
								key.cand[v] = true
							}
							key.uncertain(o.vals[i], absentV, damagedV)
							key.ever[o.vals[i]] = true
							kvs[fileKey(k)] = fileVal(o.vals[i])
							key.note("%s %d begins", o.kind, o.vals[i])
						}
						var err error
						if o.kind == "set" {
							err = store.Set(ctx, fileKey(k), fileVal(o.vals[0]), ttl)
						} else {
							err = store.MSet(ctx, kvs, ttl)
						}
						if err != nil {
							if !faulty() {
								bad(k, "error", "%s(%q) returned error %v although no fault struck it", o.kind, names, err)
								return
							}
							r.Probe("write error reported")
							for _, k := range o.keys {
								keys[k].note("%s failed: %v", o.kind, err)
							}
							continue
						}
						for i, k := range o.keys {
							keys[k].set(o.vals[i])
							keys[k].note("%s acknowledged", o.kind)
						}
					case "del":
						for _, k := range o.keys {
							keys[k].uncertain(absentV)
							keys[k].note("Delete begins")
						}
						err := store.Delete(ctx, names...)
						if err != nil {
							if !faulty() {
								bad(k, "error", "Delete(%q) returned error %v although no fault struck it", names, err)
								return
							}
							for _, k := range o.keys {
								keys[k].note("Delete failed: %v", err)
							}
							continue
						}
						for _, k := range o.keys {
							keys[k].set(absentV)
							keys[k].note("Delete acknowledged")
						}
					}
				}
			})
		}
		if kill {
			runtime.SimKillAfter(dom, uint64(1+r.Choose([]int{30, 120, 500}[r.Choose(3)])))
		}
		r.Settle()
		if r.Failed() {
			return
		}
		if kill && !runtime.SimDead(dom) {
			runtime.SimKill(dom) // at rest
		}
		if s := r.Stuck(); len(s) > 0 {
			r.Fail("stuck", "blocked forever: %s\n%s", strings.Join(s, ", "), stacks())
			return
		}
		if kill {
			runtime.SimFSKill(dom)
			r.NonTriv()
			for _, k := range keys {
				k.note("-- process killed")
			}
			if mode == 3 && r.Chance(2, 3) {
				runtime.SimFSPowerLoss()
				for _, k := range keys {
					for v := range k.ever {
						k.cand[v] = true
					}
					k.uncertain(absentV, damagedV)
					k.note("-- power loss")
				}
			}
		} else {
			runtime.SimKill(dom)
			runtime.SimFSKill(dom)
		}
		for k := 0; k < runtime.SimNFaults; k++ {
			runtime.SimFSFault(k, 0)
		}
	}
	if runtime.SimFSErrors() > 0 {
		r.NonTriv()
	}
	// Faults have stopped: everything works again.
	runtime.SimResetGlobals()
	store := &cachex.FileStore[string, string]{Dir: fileDir}
	for _, k := range r.Perm(nk) {
		key := keys[k]
		v, ok, err := store.Get(ctx, fileKey(k))
		read(k, v, ok, err, false, "Get after the faults")
		if r.Failed() {
			return
		}
		v, ok, err = store.Get(ctx, fileKey(k))
		if err != nil {
			bad(k, "unhealed", "second read after the faults failed: %v", err)
			return
		}
		read(k, v, ok, err, false, "second Get after the faults")
		next++
		if err := store.Set(ctx, fileKey(k), fileVal(next), ttl); err != nil {
			bad(k, "unhealed", "Set after the faults failed: %v", err)
			return
		}
		key.set(next)
		v, ok, err = store.Get(ctx, fileKey(k))
		read(k, v, ok, err, false, "Get after Set")
		if r.Failed() {
			return
		}
	}
	for k := range keys {
		v, ok, err := store.Get(ctx, fileKey(k))
		read(k, v, ok, err, false, "last Get")
	}
	r.Settle()
}

// ---- F03: expiry and cleaning ----

var fileTTLs = []time.Duration{
	time.Hour, time.Second, time.Minute, 59 * time.Second, 1500 * time.Millisecond, 900 * time.Millisecond, time.Millisecond,
	1, 0, -time.Second, 24 * time.Hour, 365 * 24 * time.Hour, 100 * 365 * 24 * time.Hour, 250 * 365 * 24 * time.Hour, 1<<63 - 1,
}

var fileCycles = []time.Duration{0, time.Second, 1500 * time.Millisecond, time.Minute, time.Hour, time.Millisecond, 300 * time.Millisecond, 999 * time.Millisecond, 2 * time.Second}

// foreign are files that are no cache entries, by their place below the directory.
var foreign = map[string]string{
	"README":                   "hello",
	"config.json":              `{"Data":1,"Exp":0}`,
	"notes/today.txt":          "",
	"0a1/b2c/cache":            "not an entry",
	"0a1/b2c/entry.cache.bak":  `{"Data":"x","Key":"k","TTL":1,"Exp":1}`,
	"0a1/b2c/d3e/.cachelisten": "{",
	"0a1/old.cache/notes":      `{"Data":"x","Key":"k","TTL":1,"Exp":1}`,
}

// beside are files outside the directory.
var beside = map[string]string{
	"/elsewhere/0a1/entry.cache": `{"Data":"x","Key":"k","TTL":1,"Exp":1}`,
	"/elsewhere/README":          "hello",
}

// addForeign makes the directory and puts things into it that are no cache entries.
func addForeign(r *R) []string {
	diskMkdir(diskDir)
	names := make([]string, 0, len(foreign))
	for n := range foreign {
		names = append(names, n)
	}
	sort.Strings(names)
	var used []string
	for _, n := range names {
		if !r.Chance(1, 2) {
			continue
		}
		p := diskDir + "/" + n
		diskMkdir(p[:strings.LastIndexByte(p, '/')])
		runtime.SimFSWrite(p, []byte(foreign[n]))
		used = append(used, n)
	}
	if r.Choose(4) == 3 { // a link to a directory elsewhere
		for n, c := range beside {
			diskMkdir(n[:strings.LastIndexByte(n, '/')])
			runtime.SimFSWrite(n, []byte(c))
		}
		runtime.SimFSSymlink("/elsewhere", diskDir+"/mnt")
		r.Probe("foreign link in the directory")
	}
	return used
}

func checkForeign(r *R, used []string) {
	for _, n := range used {
		if b, ok := runtime.SimFSRead(diskDir + "/" + n); !ok || string(b) != foreign[n] {
			r.Fail("foreign", "file %s, which is not a cache entry, was removed or changed", n)
			return
		}
	}
	if runtime.SimFSExists("/elsewhere") {
		for n, c := range beside {
			if b, ok := runtime.SimFSRead(n); !ok || string(b) != c {
				r.Fail("foreign", "file %s outside the directory, to which a foreign link in it leads, was removed or changed", n)
				return
			}
		}
	}
}

// entryFiles lists the files below the store's directory that are not foreign.
func entryFiles() []string {
	var s []string
	runtime.SimFSWalk(func(p string, dir bool) {
		if !dir && strings.HasPrefix(p, diskDir+"/") {
			if _, f := foreign[p[len(diskDir)+1:]]; !f {
				s = append(s, p)
			}
		}
	})
	return s
}

func rootListings() []runtime.SimListing {
	ino := runtime.SimFSIno(fileDir)
	var out []runtime.SimListing
	for _, l := range runtime.SimFSListings() {
		if ino != 0 && l.Ino == ino {
			out = append(out, l)
		}
	}
	return out
}

// addObstacles makes entries and directories that cleaning cannot read; they
// must not keep it from cleaning the others.
func addObstacles(r *R) map[string]bool {
	obst := map[string]bool{}
	if r.Choose(3) != 2 {
		return obst
	}
	for i := r.Range(1, 4); i > 0; i-- {
		if r.Choose(4) == 3 {
			d := fmt.Sprintf("%s/%04x", diskDir, r.Choose(256)) // no name the store uses
			if runtime.SimFSExists(d) {
				continue
			}
			diskMkdir(d)
			runtime.SimFSBad(d, runtime.SimBadList)
			r.Probe("unlistable directory")
			continue
		}
		had := map[string]bool{}
		for _, f := range entryFiles() {
			had[f] = true
		}
		// a key of its own, written by an earlier process
		key := fmt.Sprint("obstacle", i, r.Choose(50))
		old := &cachex.FileStore[string, string]{Dir: fileDir}
		if old.Set(context.Background(), key, fileVal(1), []time.Duration{time.Hour, -time.Second}[r.Choose(2)]) != nil {
			continue
		}
		for _, f := range entryFiles() {
			if had[f] {
				continue
			}
			obst[f] = true
			switch r.Choose(4) {
			case 0:
				runtime.SimFSBad(f, runtime.SimBadRead)
				r.Probe("unreadable entry")
			case 1:
				runtime.SimFSBad(f, runtime.SimBadRead|runtime.SimBadUnlink)
				r.Probe("unreadable entry")
			case 2:
				runtime.SimFSBad(f, runtime.SimBadUnlink)
				r.Probe("unremovable entry")
			case 3:
				runtime.SimFSWrite(f, []byte([]string{"", "{", "null", "[]", "{}", `{"Data":1,"Key":2}`, "x"}[r.Choose(7)]))
				r.Probe("damaged entry")
			}
		}
	}
	return obst
}

type expEnt struct {
	val   int
	exp   int64
	maybe bool // expired at some moment at which it may have been removed
}

func fileExpiry(r *R) {
	runtime.SimSetStepCost(0)
	runtime.SimSetJumpP(0)
	chooseDir(r)
	used := addForeign(r)
	obst := addObstacles(r)
	cycle := fileCycles[r.Choose(len(fileCycles))]
	eff := int64(cycle)
	if eff <= 0 {
		eff = int64(time.Minute)
	}
	store := &cachex.FileStore[string, string]{Dir: fileDir, GCCycle: cycle}
	ctx := context.Background()
	nk := r.Range(1, 4)
	ents := map[int]*expEnt{}
	next := 0
	var hist []string
	bad := func(class, format string, args ...any) {
		r.Fail(class, "cycle %v: %s\nhistory:\n  %s", cycle, fmt.Sprintf(format, args...), strings.Join(hist, "\n  "))
	}
	log := func(format string, args ...any) {
		hist = append(hist, fmt.Sprintf("[%+.9fs] ", float64(runtime.SimWall()-1700000000e9)/1e9)+fmt.Sprintf(format, args...))
	}
	alive := func(k int) bool { e := ents[k]; return e != nil && runtime.SimWall() < e.exp }
	taint := func() {
		for k, e := range ents {
			if !alive(k) {
				e.maybe = true
			}
		}
	}
	seen := 0               // root listings already accounted for
	last := int64(-1 << 62) // wall time of the last cleaning, or of the first operation
	started := false
	back := false // the clock went back since then
	lastStart := int64(-1 << 62)
	check := func(k int, v string, ok bool, err error, what string) bool {
		e := ents[k]
		if err != nil {
			bad("error", "%s(%q) returned error %v on a healthy disk", what, fileKey(k), err)
			return false
		}
		log("%s(%q) -> %.8q, %v", what, fileKey(k), v, ok)
		if ok {
			switch {
			case e == nil:
				bad("value", "%s(%q) returned a value that was never set or was deleted", what, fileKey(k))
			case !alive(k):
				bad("expired", "%s(%q) served a value that expired %v ago", what, fileKey(k), time.Duration(runtime.SimWall()-e.exp))
			case fileNum(v) != e.val:
				bad("value", "%s(%q) returned %.40q, the value set is %d", what, fileKey(k), v, e.val)
			}
			if !r.Failed() {
				e.maybe = false
			}
		} else {
			if v != "" {
				bad("value", "a miss came with value %q", v)
			}
			if alive(k) && !e.maybe {
				bad("lost", "%s(%q) missed although the value set expires only in %v", what, fileKey(k), time.Duration(e.exp-runtime.SimWall()))
			}
			delete(ents, k)
		}
		return !r.Failed()
	}
	for n := r.Range(3, 16); n > 0 && !r.Failed(); n-- {
		isOp := true
		switch r.Pick(4, 4, 3, 1, 2, 1) {
		case 0:
			k := r.Choose(nk)
			ttl := fileTTLs[r.Choose(len(fileTTLs))]
			v := fileValue(r, &next)
			var err error
			if r.Chance(1, 4) {
				err = store.MSet(ctx, map[string]string{fileKey(k): fileVal(v)}, ttl)
			} else {
				err = store.Set(ctx, fileKey(k), fileVal(v), ttl)
			}
			log("Set(%q, %d, %v)", fileKey(k), v, ttl)
			if err != nil {
				bad("error", "Set returned %v on a healthy disk", err)
				return
			}
			ents[k] = &expEnt{val: v, exp: satAdd(runtime.SimWall(), ttl)}
		case 1:
			k := r.Choose(nk)
			v, ok, err := store.Get(ctx, fileKey(k))
			if !check(k, v, ok, err, "Get") {
				return
			}
		case 2:
			isOp = false
			// Near an expiry or a cleaning, or anywhere.
			now := runtime.SimWall()
			d := int64(0)
			switch r.Choose(4) {
			case 0:
				d = int64([]time.Duration{time.Second, time.Millisecond, 250 * time.Millisecond, time.Minute, time.Hour, 24 * time.Hour}[r.Choose(6)])
			case 1:
				if e := ents[r.Choose(nk)]; e != nil && e.exp > now && e.exp-now < 400*24*int64(time.Hour) {
					d = e.exp - now + int64(r.Choose(3)) - 1
				}
			case 2:
				if started {
					d = last + eff - now + int64(r.Choose(3)) - 1
				}
			case 3:
				d = int64(r.Choose(3000)) * int64(time.Millisecond)
			}
			if d < 0 {
				d = 0
			}
			runtime.SimAdvance(d)
			log("%v pass", time.Duration(d))
			r.NonTriv()
		case 3:
			isOp = false
			d := int64([]time.Duration{time.Second, time.Minute, time.Hour, 30 * 24 * time.Hour, 300 * time.Millisecond}[r.Choose(5)])
			if r.Chance(1, 2) {
				d = -d
				back = true
				taint()
			}
			runtime.SimWallJump(d)
			log("the wall clock jumps by %v", time.Duration(d))
			r.Probe("wall clock jump")
			r.NonTriv()
		case 4:
			var ks []int
			var names []string
			for i := r.Range(1, 3); i > 0; i-- {
				ks = append(ks, r.Choose(nk))
				names = append(names, fileKey(ks[len(ks)-1]))
			}
			vs, oks, err := store.MGet(ctx, names...)
			if err != nil || len(vs) != len(ks) || len(oks) != len(ks) {
				bad("error", "MGet returned %d values, %d flags, error %v on a healthy disk", len(vs), len(oks), err)
				return
			}
			for i, k := range ks {
				if !check(k, vs[i], oks[i], nil, "MGet") {
					return
				}
			}
		case 5:
			k := r.Choose(nk)
			if err := store.Delete(ctx, fileKey(k)); err != nil {
				bad("error", "Delete returned %v on a healthy disk", err)
				return
			}
			log("Delete(%q)", fileKey(k))
			delete(ents, k)
		}
		r.Settle()
		if !isOp {
			continue
		}
		taint()
		now := runtime.SimWall()
		due := started && !back && now-last >= eff
		ls := rootListings()
		if len(ls) > seen {
			r.Probe("cleaning")
			for _, l := range ls[seen:] {
				log("a cleaning starts")
				if !back && l.Wall-lastStart < eff && lastStart > -1<<62 {
					bad("cycle", "a cleaning started %v after the previous one", time.Duration(l.Wall-lastStart))
					return
				}
				lastStart = l.Wall
			}
			seen = len(ls)
			last, back = now, false
		}
		if !started {
			started, last = true, now
		}
		if due {
			var files []string
			for _, f := range entryFiles() {
				if !obst[f] {
					files = append(files, f)
				}
			}
			live := 0
			for k := range ents {
				if alive(k) {
					live++
				}
			}
			if len(files) > live {
				bad("garbage", "a cleaning was due (a cycle has passed and an operation was performed) but %d entry files remain for %d live entries", len(files), live)
				return
			}
		}
		// No live entry lost its file.
		checkForeign(r, used)
		if r.Failed() {
			bad("foreign", "")
			r.msg += "\nhistory:\n  " + strings.Join(hist, "\n  ")
			return
		}
	}
	for k := 0; k < nk && !r.Failed(); k++ {
		v, ok, err := store.Get(ctx, fileKey(k))
		check(k, v, ok, err, "last Get")
	}
	r.Settle()
	for _, h := range hist {
		r.Logf("%s", h)
	}
}

// fileCleaning: concurrent callers and cleanings, time only moving forward.
func fileCleaning(r *R) {
	chooseDir(r)
	used := addForeign(r)
	cycle := []time.Duration{time.Second, time.Millisecond, 300 * time.Millisecond, 1500 * time.Millisecond, 0}[r.Choose(5)]
	eff := int64(cycle)
	if eff <= 0 {
		eff = int64(time.Minute)
	}
	store := &cachex.FileStore[string, string]{Dir: fileDir, GCCycle: cycle}
	ctx := context.Background()
	next := 0
	for k := 0; k < 4; k++ {
		ttl := time.Duration(eff/2 + 1)
		if k%2 == 0 {
			ttl = 1000 * time.Hour
		}
		if err := store.Set(ctx, fileKey(k), fileVal(k), ttl); err != nil {
			r.Fail("error", "Set: %v", err)
			return
		}
	}
	if r.Chance(1, 2) {
		runtime.SimFSFault(runtime.SimFaultLatency, 1<<uint(9+r.Choose(7)))
	}
	pre := time.Duration(eff)
	if r.Chance(1, 3) {
		pre = pre - 1 - time.Duration(r.Choose(1000))
	}
	if r.Chance(3, 4) {
		runtime.SimAdvance(int64(pre))
	}
	for c := r.Range(2, 4); c > 0; c-- {
		type step struct {
			kind  int
			key   string
			pause time.Duration
			val   string
		}
		var steps []step
		for i := r.Range(1, 5); i > 0; i-- {
			s := step{kind: r.Choose(4), key: fileKey(r.Choose(4))}
			if r.Chance(1, 2) {
				s.pause = time.Duration(int64(r.Choose(5)) * eff / 4)
			}
			next++
			s.val = fileVal(next)
			steps = append(steps, s)
		}
		r.Go(fmt.Sprintf("client %d", c), 0, func() {
			for _, s := range steps {
				if s.pause > 0 {
					time.Sleep(s.pause)
				}
				var err error
				switch s.kind {
				case 0, 1:
					_, _, err = store.Get(ctx, s.key)
				case 2:
					err = store.Set(ctx, s.key, s.val, 1000*time.Hour)
				case 3:
					_, _, err = store.MGet(ctx, s.key)
				}
				if err != nil {
					r.Fail("error", "%v on a healthy disk", err)
					return
				}
			}
		})
	}
	if !r.Join() || r.Failed() {
		return
	}
	runtime.SimFSFault(runtime.SimFaultLatency, 0)
	// Once more: a cycle passes, an operation is performed.
	r.Settle()
	if err := store.Set(ctx, fileKey(4), fileVal(0), time.Duration(eff/2+1)); err != nil {
		r.Fail("error", "%v on a healthy disk", err)
		return
	}
	r.Settle() // the end of a cleaning counts
	time.Sleep(time.Duration(eff) + time.Millisecond)
	if _, _, err := store.Get(ctx, "absent"); err != nil {
		r.Fail("error", "%v on a healthy disk", err)
		return
	}
	r.Settle()
	ls := rootListings()
	for i := 1; i < len(ls); i++ {
		r.NonTriv()
		r.Probe("cleaning")
		if d := ls[i].Wall - ls[i-1].Wall; d < eff {
			r.Fail("cycle", "cycle %v: a cleaning started %v after the previous one", time.Duration(eff), time.Duration(d))
			return
		}
	}
	// Overlap: a cleaner still lists directories after another one has begun.
	root := runtime.SimFSIno(fileDir)
	cur := uint32(0)
	for _, l := range runtime.SimFSListings() {
		if l.Ino == root {
			cur = l.Seq
		} else if cur != 0 && l.Seq != cur {
			r.Fail("overlap", "two cleanings run at the same time")
			return
		}
	}
	if len(ls) == 0 {
		r.Fail("garbage", "no cleaning although several cycles passed")
		return
	}
	for _, p := range entryFiles() {
		b, _ := runtime.SimFSRead(p)
		_ = b
	}
	live := 0
	for k := 0; k < 4; k++ {
		_, ok, err := store.Get(ctx, fileKey(k))
		if err != nil {
			r.Fail("error", "%v on a healthy disk", err)
			return
		}
		if ok {
			live++
		} else if k%2 == 0 {
			r.Fail("lost", "key %q, which does not expire, is gone", fileKey(k))
			return
		}
	}
	if n := len(entryFiles()); n > live {
		r.Fail("garbage", "%d entry files for %d live entries after a cleaning was due", n, live)
		return
	}
	checkForeign(r, used)
}

// moody is a value that can be written but whose decoding may panic.
type moody struct {
	N   int
	Bad bool
}

func (m *moody) UnmarshalJSON(b []byte) error {
	var x struct {
		N   int
		Bad bool
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if x.Bad {
		panic("moody value")
	}
	m.N = x.N
	return nil
}

// fileMoody: entries whose decoding panics do not keep the store from working,
// nor the cleaning from removing the other expired entries.
func fileMoody(r *R) {
	runtime.SimSetStepCost(0)
	fileDisk(r)
	cycle := fileCycles[r.Choose(len(fileCycles))]
	eff := cycle
	if eff <= 0 {
		eff = time.Minute
	}
	store := &cachex.FileStore[string, moody]{Dir: fileDir, GCCycle: cycle}
	ctx := context.Background()
	var hist []string
	bad := func(class, format string, args ...any) {
		r.Fail(class, "cycle %v: %s\nhistory:\n  %s", cycle, fmt.Sprintf(format, args...), strings.Join(hist, "\n  "))
	}
	log := func(format string, args ...any) { hist = append(hist, fmt.Sprintf(format, args...)) }
	type ent struct {
		v     moody
		short bool
	}
	ents := map[string]ent{}
	var names []string
	for i := r.Range(2, 8); i > 0; i-- {
		names = append(names, fmt.Sprint("key", r.Choose(1000)))
	}
	for round := r.Range(1, 3); round > 0 && !r.Failed(); round-- {
		for i := r.Range(1, 6); i > 0; i-- {
			k := names[r.Choose(len(names))]
			e := ent{moody{r.Choose(100), r.Choose(3) == 2}, r.Choose(2) == 1}
			ttl := 1000000 * eff
			if e.short {
				ttl = eff/2 + 1
			}
			log("Set(%q, %+v, %v)", k, e.v, ttl)
			if err := store.Set(ctx, k, e.v, ttl); err != nil {
				bad("error", "Set: %v", err)
				return
			}
			ents[k] = e
		}
		if len(ents) > 1 {
			r.NonTriv()
		}
		if r.Choose(2) == 1 {
			k := names[r.Choose(len(names))]
			func() {
				defer func() {
					if v := recover(); v != nil {
						log("Get(%q) panics", k)
					}
				}()
				v, ok, err := store.Get(ctx, k)
				log("Get(%q) -> %+v, %v, %v", k, v, ok, err)
				if e, has := ents[k]; err != nil || ok != has || ok && v != e.v {
					bad("value", "Get(%q) returned %+v, %v, %v; want %+v, %v", k, v, ok, err, e.v, has)
				}
			}()
		}
		r.Settle()
		runtime.SimAdvance(int64(eff))
		for k, e := range ents {
			if e.short && !e.v.Bad {
				delete(ents, k)
			}
		}
		_, ok, err := store.Get(ctx, "absent")
		log("%v pass; Get(absent) -> %v, %v", eff, ok, err)
		if ok || err != nil {
			bad("error", "Get of an absent key returned %v, %v", ok, err)
			return
		}
		r.Settle()
		// entries whose decoding panics may stay or go once expired
		n, most := len(entryFiles()), len(ents)
		if n > most {
			bad("garbage", "a cleaning was due but %d entry files remain for %d entries that are alive or cannot be decoded", n, most)
			return
		}
		for k, e := range ents {
			if e.v.Bad {
				continue
			}
			if v, ok, err := store.Get(ctx, k); err != nil || !ok || v != e.v {
				bad("lost", "Get(%q) returned %+v, %v, %v; the value set is %+v", k, v, ok, err, e.v)
				return
			}
		}
	}
	for _, h := range hist {
		r.Logf("%s", h)
	}
}

// ---- F04: distinct keys, batches, purge ----

type structKey struct{ A, B string }
type nestedKey struct {
	P structKey
	N int
	f bool
}
type pairKey struct{ A, B int }
type oddKey struct {
	N uint8
	T bool
	F float64
	I int
}
type mixKey struct {
	X any
	S string
}
type verboseKey int

func (verboseKey) String() string { return "key" }

type loudKey string

func (loudKey) String() string { return "LOUD" }

// fileIsolation runs a sequential history over many distinct keys.
func fileIsolation[K comparable](r *R, ks []K) {
	fileDisk(r)
	store := &cachex.FileStore[K, int]{Dir: fileDir}
	ctx := context.Background()
	m := map[K]int{}
	next := 0
	nk := r.Range(2, len(ks))
	sub := r.Perm(len(ks))[:nk]
	ttl := 1000 * time.Hour
	var hist []string
	bad := func(format string, args ...any) {
		r.Fail("isolation", "%T keys: %s\nhistory:\n  %s", ks[0], fmt.Sprintf(format, args...), strings.Join(hist, "\n  "))
	}
	look := func(k K, v int, ok bool, what string) bool {
		w, wok := m[k]
		if ok != wok || v != w {
			bad("%s(%#v) returned %d, %v; want %d, %v", what, k, v, ok, w, wok)
			return false
		}
		return true
	}
	for n := r.Range(2, 14); n > 0 && !r.Failed(); n-- {
		k := ks[sub[r.Choose(nk)]]
		switch r.Pick(5, 3, 1, 2, 2) {
		case 0:
			next++
			if err := store.Set(ctx, k, next, ttl); err != nil {
				bad("Set(%#v): %v", k, err)
				return
			}
			m[k] = next
			hist = append(hist, fmt.Sprintf("Set(%#v, %d)", k, next))
		case 1:
			v, ok, err := store.Get(ctx, k)
			if err != nil {
				bad("Get(%#v): %v", k, err)
				return
			}
			if !look(k, v, ok, "Get") {
				return
			}
		case 2:
			del := []K{k}
			if r.Chance(1, 2) {
				del = append(del, ks[sub[r.Choose(nk)]])
			}
			if err := store.Delete(ctx, del...); err != nil {
				bad("Delete(%#v): %v", del, err)
				return
			}
			hist = append(hist, fmt.Sprintf("Delete(%#v)", del))
			for _, d := range del {
				delete(m, d)
			}
		case 3:
			kvs := map[K]int{}
			for i := r.Range(1, 4); i > 0; i-- {
				next++
				kvs[ks[sub[r.Choose(nk)]]] = next
			}
			if err := store.MSet(ctx, kvs, ttl); err != nil {
				bad("MSet(%#v): %v", kvs, err)
				return
			}
			hist = append(hist, fmt.Sprintf("MSet(%#v)", kvs))
			for k, v := range kvs {
				m[k] = v
			}
		case 4:
			var q []K
			for i := r.Range(1, 5); i > 0; i-- {
				q = append(q, ks[sub[r.Choose(nk)]])
			}
			vs, oks, err := store.MGet(ctx, q...)
			if err != nil || len(vs) != len(q) || len(oks) != len(q) {
				bad("MGet(%#v): %d values, %d flags, error %v", q, len(vs), len(oks), err)
				return
			}
			for i := range q {
				if !look(q[i], vs[i], oks[i], fmt.Sprintf("MGet position %d ", i)) {
					return
				}
			}
		}
	}
	fresh := &cachex.FileStore[K, int]{Dir: fileDir}
	for _, i := range sub {
		v, ok, err := fresh.Get(ctx, ks[i])
		if err != nil {
			bad("Get(%#v): %v", ks[i], err)
			return
		}
		if !look(ks[i], v, ok, "Get from a new store") {
			return
		}
	}
	r.Settle()
	r.NonTriv()
	for _, h := range hist {
		r.Logf("%s", h)
	}
}

// fileMany stores so many keys that any narrow name would be shared by two.
func fileMany(r *R) {
	fileDisk(r)
	ctx := context.Background()
	store := &cachex.FileStore[int, int]{Dir: fileDir}
	n := 1 << uint(r.Range(11, 13))
	base, mul := r.Choose(1<<20), []int{1, 10, 4096, 1 << 20}[r.Choose(4)]
	for i := 0; i < n; i++ {
		if err := store.Set(ctx, base+i*mul, i, time.Hour); err != nil {
			r.Fail("error", "Set: %v", err)
			return
		}
	}
	r.Probe("thousands of keys")
	r.NonTriv()
	for i := 0; i < n; i++ {
		v, ok, err := store.Get(ctx, base+i*mul)
		if err != nil || !ok || v != i {
			r.Fail("isolation", "with %d keys set, Get(%d) returned %d, %v, %v instead of %d", n, base+i*mul, v, ok, err, i)
			return
		}
	}
	if err := store.Delete(ctx, base); err != nil {
		r.Fail("error", "Delete: %v", err)
	}
	if _, ok, _ := store.Get(ctx, base+mul); !ok {
		r.Fail("isolation", "Delete(%d) removed key %d", base, base+mul)
	}
}

// ---- F04: values of many types ----

type omitVal struct {
	A int               `json:"a,omitempty"`
	B string            `json:",omitempty"`
	M map[string]int    `json:",omitempty"`
	L []int             `json:",omitempty"`
	P *int              `json:",omitempty"`
	S map[string][]byte `json:",omitempty"`
}

func ptr(i int) *int { return &i }

// fileTyped plays a history whose values come from gen; misuse changes a value in
// the hands of its owner, which must not change what the store answers.
func fileTyped[V any](r *R, gen func(n int) V, misuse func(V)) {
	fileDisk(r)
	store := &cachex.FileStore[string, V]{Dir: fileDir}
	ctx := context.Background()
	want := map[string]int{} // number of the value, which gen remakes at will
	next := 0
	ttl := 1000 * time.Hour
	var hist []string
	keys := []string{"a", "b", "c", "d"}[:r.Range(1, 4)]
	look := func(what, k string, v V, ok bool) bool {
		n, wok := want[k]
		var w V
		if wok {
			w = gen(n)
		}
		if ok != wok || !reflect.DeepEqual(v, w) {
			r.Fail("value", "%s(%q) returned %+v, %v; want %+v, %v\nhistory:\n  %s", what, k, v, ok, w, wok, strings.Join(hist, "\n  "))
			return false
		}
		misuse(v)
		return true
	}
	for n := r.Range(2, 12); n > 0; n-- {
		k := keys[r.Choose(len(keys))]
		switch r.Pick(4, 3, 3, 3, 1) {
		case 0:
			next++
			v := gen(next)
			hist = append(hist, fmt.Sprintf("Set(%q, %+v)", k, v))
			if err := store.Set(ctx, k, v, ttl); err != nil {
				r.Fail("error", "Set(%q, %+v): %v", k, v, err)
				return
			}
			want[k] = next
			misuse(v)
		case 1:
			v, ok, err := store.Get(ctx, k)
			if err != nil {
				r.Fail("error", "Get(%q): %v", k, err)
				return
			}
			if !look("Get", k, v, ok) {
				return
			}
		case 2:
			var q []string
			for i := r.Range(1, 5); i > 0; i-- {
				q = append(q, keys[r.Choose(len(keys))])
			}
			vs, oks, err := store.MGet(ctx, q...)
			if err != nil || len(vs) != len(q) || len(oks) != len(q) {
				r.Fail("error", "MGet(%q): %d values, %d flags, error %v", q, len(vs), len(oks), err)
				return
			}
			for i := range q {
				if !look(fmt.Sprintf("MGet position %d ", i), q[i], vs[i], oks[i]) {
					return
				}
			}
		case 3:
			kvs := map[string]V{}
			for _, i := range r.Perm(len(keys))[:r.Range(1, len(keys))] {
				next++
				kvs[keys[i]] = gen(next)
				want[keys[i]] = next
			}
			hist = append(hist, fmt.Sprintf("MSet(%+v)", kvs))
			if err := store.MSet(ctx, kvs, ttl); err != nil {
				r.Fail("error", "MSet(%+v): %v", kvs, err)
				return
			}
			for _, k := range keys {
				if v, ok := kvs[k]; ok {
					misuse(v)
				}
			}
		case 4:
			hist = append(hist, fmt.Sprintf("Delete(%q)", k))
			if err := store.Delete(ctx, k); err != nil {
				r.Fail("error", "Delete(%q): %v", k, err)
				return
			}
			delete(want, k)
		}
	}
	r.Settle()
	r.NonTriv()
}

// fileUnencodable: values that cannot be written are refused and leave the rest alone.
func fileUnencodable(r *R) {
	fileDisk(r)
	store := &cachex.FileStore[string, any]{Dir: fileDir}
	ctx := context.Background()
	keys := []string{"a", "b", "c", "d", "e"}[:r.Range(1, 5)]
	want := map[string]any{}
	bads := []any{make(chan int), math.NaN(), func() {}, math.Inf(1), map[string]any{"x": make(chan int)}}
	for n, v := r.Range(2, 8), 0; n > 0; n-- {
		kvs := map[string]any{}
		nbad := 0
		for _, i := range r.Perm(len(keys))[:r.Range(1, len(keys))] {
			v++
			kvs[keys[i]] = float64(v)
			if r.Choose(3) == 2 {
				kvs[keys[i]] = bads[r.Choose(len(bads))]
				nbad++
			} else {
				want[keys[i]] = float64(v)
			}
		}
		var err error
		what := "MSet"
		if len(kvs) == 1 && r.Choose(2) == 1 {
			what = "Set"
			for k, v := range kvs {
				err = store.Set(ctx, k, v, time.Hour)
			}
		} else {
			err = store.MSet(ctx, kvs, time.Hour)
		}
		desc := ""
		for _, k := range keys {
			if v, ok := kvs[k].(float64); ok {
				desc += fmt.Sprintf(" %s=%v", k, v)
			} else if _, ok := kvs[k]; ok {
				desc += fmt.Sprintf(" %s=(%T)", k, kvs[k])
			}
		}
		r.Logf("%s(%s) -> failed %v", what, desc, err != nil)
		if (err != nil) != (nbad > 0) {
			r.Fail("error", "%s of%s with %d values that cannot be encoded returned error %v", what, desc, nbad, err)
			return
		}
		for _, k := range keys {
			got, ok, err := store.Get(ctx, k)
			w, wok := want[k]
			if err != nil || ok != wok || got != w {
				r.Fail("value", "after %s(%s), Get(%q) returned %v, %v, %v; want %v, %v", what, desc, k, got, ok, err, w, wok)
				return
			}
		}
	}
	r.Settle()
	r.NonTriv()
}

func fileValueTypes(r *R) {
	switch r.Choose(8) {
	case 0:
		fileTyped(r, func(n int) omitVal {
			var o omitVal
			if n%2 == 1 {
				o.A = n
			}
			if n%3 == 1 {
				o.B = fmt.Sprint("b", n)
			}
			if n%4 == 1 {
				o.M = map[string]int{fmt.Sprint("k", n%5): n}
			}
			if n%5 == 1 {
				o.L = []int{n, n + 1}[:1+n%2]
			}
			if n%7 < 3 {
				o.P = ptr(n)
			}
			if n%6 == 1 {
				o.S = map[string][]byte{"s": {byte(n), 1}}
			}
			return o
		}, func(v omitVal) {
			for k := range v.M {
				v.M[k] = -1
			}
			for i := range v.L {
				v.L[i] = -1
			}
			if v.P != nil {
				*v.P = -1
			}
		})
	case 1:
		fileTyped(r, func(n int) map[string]int {
			if n%7 == 0 {
				return nil
			}
			m := map[string]int{}
			for i := 0; i < n%4; i++ {
				m[fmt.Sprint("k", (n+i)%6)] = n
			}
			return m
		}, func(v map[string]int) {
			if v != nil {
				v["x"] = -1
			}
		})
	case 2:
		fileTyped(r, func(n int) []int {
			if n%7 == 0 {
				return nil
			}
			l := []int{}
			for i := 0; i < n%6; i++ {
				l = append(l, n*10+i)
			}
			return l
		}, func(v []int) {
			for i := range v {
				v[i] = -1
			}
		})
	case 3:
		fileTyped(r, func(n int) []byte {
			b := make([]byte, n%7*(1+n%5*100))
			for i := range b {
				b[i] = byte(n + i*i)
			}
			return b
		}, func(v []byte) {
			for i := range v {
				v[i] = 0xee
			}
		})
	case 4:
		fileTyped(r, func(n int) *omitVal {
			if n%3 == 0 {
				return nil
			}
			return &omitVal{A: n % 4, B: []string{"", "x", "y"}[n%3]}
		}, func(v *omitVal) {
			if v != nil {
				v.A, v.B = -1, "changed"
			}
		})
	case 5:
		fileTyped(r, func(n int) any {
			switch n % 6 {
			case 0:
				return nil
			case 1:
				return float64(n)
			case 2:
				return fmt.Sprint(n)
			case 3:
				return map[string]any{"a": float64(n), "b": []any{nil, "x"}}
			case 4:
				return []any{}
			}
			return n%4 == 1
		}, func(v any) {
			if m, ok := v.(map[string]any); ok {
				m["a"] = "changed"
			}
		})
	case 6:
		fileTyped(r, func(n int) float64 {
			return []float64{0, 1.5, -1e300, 1e-300, 1.0 / 3, 1 << 53, math.MaxFloat64}[n%7]
		}, func(float64) {})
	case 7:
		fileUnencodable(r)
	}
}

// fileSplitKeys uses keys of several texts whose texts, joined in one way or
// another, look alike: the same words split at different places.
func fileSplitKeys(r *R) {
	pick := func(ss []string) string { return ss[r.Choose(len(ss))] }
	quote := pick([]string{"", "\"", "\"", "'", "`", "\\\"", "\x00", "|"})
	sep := quote + pick([]string{" ", " ", ",", ", ", ":", "|", "/", "\x00", "-", "_", "", "\t", "\n", ";", "#", "\x1f", "} {", "] [", ".", "=", " B:", ", B:", "\\", "%", "+", "&", ") ("}) + quote
	words := []string{"", "a", "b", "ab", "\"", "\\", " ", "1", "\\\""}
	x, y, z := pick(words), pick(words), pick(words)
	w := pick(words)
	seen := map[[3]string]bool{}
	var threes [][3]string
	add := func(a, b, c string) {
		k := [3]string{a, b, c}
		if !seen[k] {
			seen[k] = true
			threes = append(threes, k)
		}
	}
	add(x+sep+y, z, w)
	add(x, y+sep+z, w)
	add(x, y, z+sep+w)
	add(x+sep+y+sep+z, w, "")
	add("", x+sep+y+sep+z, w)
	add(x, y, z)
	add(x+y, z, w)
	add(x, y+z, w)
	add(z, y, x)
	if len(threes) < 2 {
		add("p", "q", "r")
		add("q", "p", "r")
	}
	// the same as keys of two texts, whose third stays the same
	var twos [][2]string
	seen2 := map[[2]string]bool{}
	for _, k := range [][2]string{{x + sep + y, z}, {x, y + sep + z}, {x + y, z}, {x, y + z}, {z, x + y}, {x + sep + y + sep + z, ""}, {"", x + sep + y + sep + z}, {"p", "q"}, {"q", "p"}} {
		if !seen2[k] {
			seen2[k] = true
			twos = append(twos, k)
		}
	}
	r.Probe("keys split at different places")
	switch r.Choose(5) {
	case 0:
		fileIsolation(r, twos)
	case 1:
		fileIsolation(r, threes)
	case 2:
		var ks []structKey
		for _, k := range twos {
			ks = append(ks, structKey{k[0], k[1]})
		}
		fileIsolation(r, ks)
	case 3:
		var ks []mixKey
		for _, k := range twos {
			ks = append(ks, mixKey{k[0], k[1]})
		}
		fileIsolation(r, ks)
	case 4:
		var ks []any
		for _, k := range twos {
			ks = append(ks, k, structKey{k[0], k[1]})
		}
		ks = append(ks, x+sep+y, quote+x+sep+y+quote, threes[0], threes[1])
		uniq := map[any]bool{}
		var us []any
		for _, k := range ks {
			if !uniq[k] {
				uniq[k] = true
				us = append(us, k)
			}
		}
		fileIsolation(r, us)
	}
}

func fileKeyTypes(r *R) {
	runtime.SimSetStepCost(0)
	switch r.Choose(18) {
	case 15, 16, 17:
		fileSplitKeys(r)
	case 13:
		fileIsolation(r, []pairKey{{1, 23}, {12, 3}, {0, 0}, {-1, 2}, {1, -2}, {-12, 0}, {123, 0}, {0, 123}, {1, 2}, {2, 1}})
	case 14:
		fileIsolation(r, []oddKey{{1, true, 1, 1}, {11, true, 1, 1}, {1, true, 11, 1}, {1, true, 1, 11}, {1, true, 1.1, 1}, {1, false, 1, 1}, {1, true, 1, -1}, {1, true, -1, 1}, {1, true, 1e21, 1}})
	case 0:
		ks := []string{"", " ", "a", "A", " a", "a ", "a b", "a\x00b", "a\x00", "a/b", "../a", "..", "a.cache", "\xff", "\xfe", "é", "e\u0301", "<nil>", "0", "00", "true", strings.Repeat("x", 5000), strings.Repeat("x", 5001), "a\nb", "\"a\""}
		fileIsolation(r, ks)
	case 1:
		var ks []int
		for i := -20; i < 60; i++ {
			ks = append(ks, i)
		}
		fileIsolation(r, append(ks, 1<<62, -1<<63, 1<<31, 1<<32, 256, 1000))
	case 2:
		fileIsolation(r, []structKey{{"", ""}, {"a", "b"}, {"b", "a"}, {"a b", ""}, {"", "a b"}, {"a", " b"}, {"a ", "b"}, {"a} {", "b"}, {"a", "} {b"}, {"ab", ""}, {"\"a\"", "b"}, {"a,b", "c"}, {"a", "b,c"}})
	case 3:
		fileIsolation(r, [][2]string{{"", ""}, {"a", "b"}, {"a b", ""}, {"", "a b"}, {"a", "b "}, {"a b", " "}, {"a ", "b"}, {"] [", ""}, {"", "] ["}})
	case 4:
		fileIsolation(r, []any{1, "1", int8(1), int64(1), uint(1), 1.0, true, "true", nil, "<nil>", "", structKey{"a", "b"}, "{a b}", [2]string{"a", "b"}, "[a b]", float32(1), verboseKey(1), loudKey("1")})
	case 5:
		fileIsolation(r, []mixKey{{1, "a"}, {"1", "a"}, {int8(1), "a"}, {1.0, "a"}, {nil, "a"}, {"<nil>", "a"}, {"1 a", ""}, {structKey{"a", "b"}, ""}, {"{a b}", ""}, {verboseKey(1), "a"}})
	case 6:
		fileIsolation(r, []verboseKey{0, 1, 2, 3, -1})
	case 7:
		fileIsolation(r, []loudKey{"", "a", "b", "LOUD", "loud"})
	case 8:
		fileIsolation(r, []nestedKey{{structKey{"a", "b"}, 1, false}, {structKey{"a", "b"}, 1, true}, {structKey{"a", "b"}, 12, false}, {structKey{"a b", ""}, 1, false}, {structKey{"a", "b} 1"}, 1, false}, {structKey{"a", ""}, -1, true}})
	case 9:
		fileIsolation(r, []float64{0, 1, -1, 0.1, 1e300, 1e-300, 1.5, 0.30000000000000004, 0.3, 100000000000000000000, 1 << 53, 1<<53 + 2, 123456789, 123456788})
	case 10:
		fileIsolation(r, []bool{false, true})
	case 11:
		fileIsolation(r, [][3]int{{1, 2, 3}, {12, 3, 0}, {1, 23, 0}, {-1, 2, 3}, {1, -2, 3}, {0, 0, 0}})
	case 12:
		var ks []uint16
		for i := 0; i < 60; i++ {
			ks = append(ks, uint16(i*i*17))
		}
		fileIsolation(r, ks)
	}
}

// fileErrs collects the distinct path errors wrapped anywhere in err.
func fileErrs(err error, seen map[string]bool) {
	if err == nil {
		return
	}
	switch e := err.(type) {
	case *fs.PathError:
		seen[e.Error()] = true
	case *os.LinkError:
		seen[e.Error()] = true
	}
	switch e := err.(type) {
	case interface{ Unwrap() error }:
		fileErrs(e.Unwrap(), seen)
	case interface{ Unwrap() []error }:
		for _, s := range e.Unwrap() {
			fileErrs(s, seen)
		}
	}
}

// includes reports whether err contains the failure a single call reports.
func includes(err, single error) bool {
	if err == nil {
		return false
	}
	if errors.Is(err, single) || strings.Contains(err.Error(), single.Error()) {
		return true
	}
	a, b := map[string]bool{}, map[string]bool{}
	fileErrs(err, a)
	fileErrs(single, b)
	if len(b) == 0 {
		return true // nothing to compare
	}
	for s := range b {
		if !a[s] {
			return false
		}
	}
	return true
}

// fileBatch: some entries refuse some operations; batches act on all others.
func fileBatch(r *R) {
	runtime.SimSetStepCost(0)
	fileDisk(r)
	var used []string
	if r.Choose(4) == 3 {
		used = addForeign(r)
	}
	ctx := context.Background()
	store := &cachex.FileStore[string, string]{Dir: fileDir}
	nk := r.Range(1, 6)
	ttl := 1000 * time.Hour
	m := map[int]int{}
	path := map[int]string{}
	next := 0
	var hist []string
	bad := func(class, format string, args ...any) {
		r.Fail(class, "%s\nhistory:\n  %s", fmt.Sprintf(format, args...), strings.Join(hist, "\n  "))
	}
	log := func(format string, args ...any) { hist = append(hist, fmt.Sprintf(format, args...)) }
	for k := 0; k < nk; k++ {
		had := map[string]bool{}
		for _, f := range entryFiles() {
			had[f] = true
		}
		next++
		if err := store.Set(ctx, fileKey(k), fileVal(next), ttl); err != nil {
			bad("error", "Set: %v", err)
			return
		}
		m[k] = next
		for _, f := range entryFiles() {
			if !had[f] {
				path[k] = f
			}
		}
	}
	if len(path) != nk {
		r.Probe("entry files not identifiable")
		return
	}
	refuse := map[int]uint32{}
	inode := map[int]uint64{}
	// A replaced entry no longer refuses anything.
	refuses := func(k int, op uint32) bool {
		return refuse[k]&op != 0 && runtime.SimFSIno(path[k]) == inode[k]
	}
	for i := r.Range(1, 4); i > 0; i-- {
		k := r.Choose(nk)
		ops := []uint32{runtime.SimBadWrite, runtime.SimBadUnlink, runtime.SimBadRead, runtime.SimBadWrite | runtime.SimBadUnlink, runtime.SimBadRead | runtime.SimBadUnlink | runtime.SimBadWrite}[r.Choose(5)]
		refuse[k] = ops
		inode[k] = runtime.SimFSIno(path[k])
		runtime.SimFSBad(path[k], ops)
		log("entry %q refuses %s", fileKey(k), badOps(ops))
	}
	r.NonTriv()
	pick := func() []int { return r.Perm(nk)[:r.Range(1, nk)] }
	state := func(k int) { // what a read must say about a readable key
		if refuses(k, runtime.SimBadRead) {
			return
		}
		v, ok, err := store.Get(ctx, fileKey(k))
		w, wok := m[k]
		if err != nil || ok != wok || ok && fileNum(v) != w {
			bad("batch", "then Get(%q) returned %.20q, %v, %v; want %d, %v", fileKey(k), v, ok, err, w, wok)
		}
	}
	for n := r.Range(1, 4); n > 0 && !r.Failed(); n-- {
		ks := pick()
		var names []string
		for _, k := range ks {
			names = append(names, fileKey(k))
		}
		fails := func(op uint32) (f []int) {
			for _, k := range ks {
				if refuses(k, op) {
					f = append(f, k)
				}
			}
			return
		}
		switch r.Pick(3, 3, 3, 2) {
		case 0: // MSet
			f := fails(runtime.SimBadWrite)
			singles := map[int]error{}
			for _, k := range f {
				err := store.Set(ctx, fileKey(k), fileVal(m[k]), ttl)
				if err == nil {
					bad("batch", "Set(%q) returned nil although the entry cannot be written", fileKey(k))
					return
				}
				singles[k] = err
			}
			kvs := map[string]string{}
			for _, k := range ks {
				next++
				kvs[fileKey(k)] = fileVal(next)
				if !refuses(k, runtime.SimBadWrite) {
					m[k] = next
				}
			}
			err := store.MSet(ctx, kvs, ttl)
			log("MSet(%q) -> %v", names, err)
			if (err != nil) != (len(f) > 0) {
				bad("batch", "MSet of %d keys returned %v, %d of them cannot be written", len(ks), err, len(f))
				return
			}
			for _, k := range f {
				if !includes(err, singles[k]) {
					bad("batch", "the error of MSet does not include the failure of key %q (%v): %v", fileKey(k), singles[k], err)
					return
				}
			}
		case 1: // Delete
			f := fails(runtime.SimBadUnlink)
			singles := map[int]error{}
			for _, k := range f {
				err := store.Delete(ctx, fileKey(k))
				if err == nil {
					bad("batch", "Delete(%q) returned nil although the entry cannot be removed", fileKey(k))
					return
				}
				singles[k] = err
			}
			for _, k := range ks {
				if !refuses(k, runtime.SimBadUnlink) {
					delete(m, k)
				}
			}
			err := store.Delete(ctx, names...)
			log("Delete(%q) -> %v", names, err)
			if (err != nil) != (len(f) > 0) {
				bad("batch", "Delete of %d keys returned %v, %d of them cannot be removed", len(ks), err, len(f))
				return
			}
			for _, k := range f {
				if !includes(err, singles[k]) {
					bad("batch", "the error of Delete does not include the failure of key %q (%v): %v", fileKey(k), singles[k], err)
					return
				}
			}
		case 2: // MGet
			f := fails(runtime.SimBadRead)
			vs, oks, err := store.MGet(ctx, names...)
			log("MGet(%q) -> %v, %v", names, oks, err)
			if (err != nil) != (len(f) > 0) {
				bad("batch", "MGet of %d keys returned error %v, Get fails for %d of them", len(ks), err, len(f))
				return
			}
			if err == nil {
				if len(vs) != len(ks) || len(oks) != len(ks) {
					bad("batch", "MGet of %d keys returned %d values, %d flags", len(ks), len(vs), len(oks))
					return
				}
				for i, k := range ks {
					w, wok := m[k]
					if oks[i] != wok || wok && fileNum(vs[i]) != w {
						bad("batch", "MGet position %d (%q): %.20q, %v; want %d, %v", i, fileKey(k), vs[i], oks[i], w, wok)
						return
					}
				}
			}
		case 3: // Purge
			var blocked string
			if r.Chance(1, 3) { // a directory on the way to an entry cannot be listed
				p := path[ks[0]]
				if runtime.SimFSExists(p) {
					cuts := []int{}
					for i := len(diskDir); i < len(p); i++ {
						if p[i] == '/' {
							cuts = append(cuts, i)
						}
					}
					blocked = p[:cuts[r.Choose(len(cuts))]]
					runtime.SimFSBad(blocked, []uint32{runtime.SimBadList, runtime.SimBadRead}[r.Choose(2)])
					log("directory %s cannot be listed", blocked)
				}
			}
			f := 0
			for k := 0; k < nk; k++ {
				under := blocked != "" && strings.HasPrefix(path[k], blocked+"/")
				if runtime.SimFSExists(path[k]) && (refuses(k, runtime.SimBadUnlink) || under) {
					f++
				}
			}
			err := store.Purge()
			log("Purge() -> %v", err)
			if blocked != "" {
				runtime.SimFSBad(blocked, 0)
			}
			if f > 0 && err == nil {
				bad("purge", "Purge returned nil although %d entries could not be removed", f)
				return
			}
			if f == 0 && err != nil {
				bad("purge", "Purge returned %v although every entry can be removed", err)
				return
			}
			for k := 0; k < nk; k++ {
				if !runtime.SimFSExists(path[k]) || err == nil {
					delete(m, k)
				} else if !refuses(k, runtime.SimBadUnlink) && (blocked == "" || !strings.HasPrefix(path[k], blocked+"/")) {
					bad("purge", "Purge left key %q, which it could remove", fileKey(k))
					return
				}
			}
		}
		for k := 0; k < nk && !r.Failed(); k++ {
			state(k)
		}
	}
	r.Settle()
	if checkForeign(r, used); r.Failed() {
		return
	}
	for _, h := range hist {
		r.Logf("%s", h)
	}
}

func badOps(ops uint32) string {
	var s []string
	for i, n := range []string{"reading", "writing", "removal", "stat", "listing", "creation"} {
		if ops&(1<<uint(i)) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, ", ")
}

func init() {
	register("F01", &Scenario{Name: "clients of one store", Race: true, Run: func(r *R) { fileConc(r, false) }})
	register("F02", &Scenario{Name: "crashes and disk errors", Run: fileCrash})
	register("F03", &Scenario{Name: "expiry and cleaning", Seq: true, Weight: 6, Run: fileExpiry})
	register("F03", &Scenario{Name: "values whose decoding panics", Seq: true, Weight: 1, Run: fileMoody})
	register("F03", &Scenario{Name: "concurrent cleaning", Race: true, Weight: 3, Run: fileCleaning})
	register("F04", &Scenario{Name: "thousands of keys", Seq: true, Weight: 1, MaxSteps: 40000000, Run: fileMany})
	register("F04", &Scenario{Name: "distinct keys", Seq: true, Weight: 16000, Run: fileKeyTypes})
	register("F04", &Scenario{Name: "batches over failing entries", Seq: true, Weight: 8000, Run: fileBatch})
	register("F04", &Scenario{Name: "values of many types", Seq: true, Weight: 4000, Run: fileValueTypes})
	register("F04", &Scenario{Name: "purge among clients", Race: true, Weight: 8000, Run: func(r *R) { fileConc(r, true) }})
}
