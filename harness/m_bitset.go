package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/miniLCT/gosb/library/bitset"
)

// ---- reference model: a bit set is a string of bytes, most significant bit first ----

func bitAt(s string, i int) bool { return s[i/8]>>(7-uint(i%8))&1 == 1 }

func bitRange(s string, start, end int) (int, int, bool) {
	n := len(s) * 8
	if start < 0 {
		start += n
	}
	if end < 0 {
		end += n
	}
	if start < 0 {
		start = 0
	}
	if end >= n {
		end = n - 1
	}
	return start, end, start < n && start <= end
}

func packBits(bs []bool) string {
	out := make([]byte, (len(bs)+7)/8)
	for i, b := range bs {
		if b {
			out[i/8] |= 1 << (7 - uint(i%8))
		}
	}
	return string(out)
}

type bsIn struct {
	kind string
	set  int
	a, b int
	v    bool
	sep  string
	args []int
	mode int // what the caller does with a returned object: 0 nothing, 1 writes to it, 2 looks at it again at the end
}

type bsOut struct {
	s   string
	bad string
}

func bitStr(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// bsApply is the sequential specification of the operations on one set.
func bsApply(s string, in bsIn) (string, string) {
	n := len(s) * 8
	switch in.kind {
	case "set":
		o := in.a
		if o < 0 {
			o += n
		}
		if o < 0 {
			return s, "error"
		}
		b := []byte(s)
		for o/8 >= len(b) {
			b = append(b, 0)
		}
		old := bitAt(string(b), o)
		m := byte(1) << (7 - uint(o%8))
		b[o/8] &^= m
		if in.v {
			b[o/8] |= m
		}
		return string(b), bitStr(old)
	case "get":
		o := in.a
		if o < 0 {
			o += n
		}
		return s, bitStr(o >= 0 && o < n && bitAt(s, o))
	case "count":
		c := 0
		if st, en, ok := bitRange(s, in.a, in.b); ok {
			for i := st; i <= en; i++ {
				if bitAt(s, i) {
					c++
				}
			}
		}
		return s, fmt.Sprint(c)
	case "size":
		return s, fmt.Sprint(n)
	case "bytes":
		return s, s
	case "string":
		return s, hex.EncodeToString([]byte(s))
	case "binary":
		var p []string
		for i := 0; i < len(s); i++ {
			p = append(p, fmt.Sprintf("%08b", s[i]))
		}
		return s, strings.Join(p, in.sep)
	case "not":
		b := []byte(s)
		for i := range b {
			b[i] = ^b[i]
		}
		return s, string(b)
	case "sub":
		var bs []bool
		if st, en, ok := bitRange(s, in.a, in.b); ok {
			for i := st; i <= en; i++ {
				bs = append(bs, bitAt(s, i))
			}
		}
		return s, packBits(bs)
	case "range":
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%d%s,", i, bitStr(bitAt(s, i)))
			if i == in.a {
				break
			}
		}
		return s, b.String()
	case "clear":
		return strings.Repeat("\x00", len(s)), ""
	}
	return s, "?"
}

func bsCombine(kind string, xs []string) string {
	m := 0
	for _, x := range xs {
		if len(x) > m {
			m = len(x)
		}
	}
	at := func(x string, i int) byte {
		if i < len(x) {
			return x[i]
		}
		return 0
	}
	out := make([]byte, m)
	for i := range out {
		v := at(xs[0], i)
		for _, x := range xs[1:] {
			switch kind {
			case "and":
				v &= at(x, i)
			case "or":
				v |= at(x, i)
			case "xor":
				v ^= at(x, i)
			case "andnot":
				v &^= at(x, i)
			}
		}
		out[i] = v
	}
	return string(out)
}

type bsKept struct {
	bs   *bitset.BitSet
	raw  []byte
	str  string
	want string
	op   string
}

// bsExec performs one operation on the real sets.
func bsExec(r *R, sets []*bitset.BitSet, in bsIn, kept *Log[bsKept]) bsOut {
	b := sets[in.set]
	var out bsOut
	obj := func(x *bitset.BitSet) {
		if x == nil {
			out.bad = "returned nil"
			return
		}
		raw := x.Bytes()
		out.s = string(raw)
		switch in.mode {
		case 1:
			for i := 0; i < len(raw)*8; i++ {
				x.Set(i, !bitAt(out.s, i))
			}
		case 2:
			kept.Add(bsKept{bs: x, want: out.s, op: in.kind})
		}
	}
	switch in.kind {
	case "set":
		old, err := b.Set(in.a, in.v)
		out.s = bitStr(old)
		if err != nil {
			out.s = "error"
			if old {
				out.s = "error and true"
			}
		}
	case "get":
		out.s = bitStr(b.Get(in.a))
	case "count":
		out.s = fmt.Sprint(b.Count(in.a, in.b))
	case "size":
		out.s = fmt.Sprint(b.Size())
	case "bytes":
		raw := b.Bytes()
		out.s = string(raw)
		switch in.mode {
		case 1:
			for i := range raw {
				raw[i] ^= 0xff
			}
		case 2:
			kept.Add(bsKept{raw: raw, want: out.s, op: in.kind})
		}
	case "string", "binary":
		s := ""
		if in.kind == "string" {
			s = b.String()
		} else {
			s = b.Binary(in.sep)
		}
		out.s = strings.Clone(s)
		kept.Add(bsKept{str: s, want: out.s, op: in.kind})
	case "not":
		obj(b.Not())
	case "sub":
		obj(b.Sub(in.a, in.b))
	case "range":
		var sb strings.Builder
		b.Range(func(i int, t bool) bool {
			fmt.Fprintf(&sb, "%d%s,", i, bitStr(t))
			if i%5 == 2 {
				r.Yield()
			}
			return i != in.a
		})
		out.s = sb.String()
	case "clear":
		b.Clear()
	default:
		var args []*bitset.BitSet
		for _, a := range in.args {
			args = append(args, sets[a])
		}
		var x *bitset.BitSet
		switch in.kind {
		case "and":
			x = b.And(args...)
		case "or":
			x = b.Or(args...)
		case "xor":
			x = b.Xor(args...)
		case "andnot":
			x = b.AndNot(args...)
		}
		if len(args) == 0 {
			if x != b {
				out.bad = "without arguments it did not return the receiver"
			}
			return out
		}
		for _, a := range sets {
			if x == a {
				out.bad = "returned one of its operands"
				return out
			}
		}
		obj(x)
	}
	return out
}

func bsDesc(in bsIn, out bsOut) string {
	s := fmt.Sprintf("set%d.%s", in.set, in.kind)
	switch in.kind {
	case "set":
		s += fmt.Sprintf("(%d,%v)", in.a, in.v)
	case "get":
		s += fmt.Sprintf("(%d)", in.a)
	case "count", "sub":
		s += fmt.Sprintf("(%d,%d)", in.a, in.b)
	case "range":
		s += fmt.Sprintf("(stop at %d)", in.a)
	case "and", "or", "xor", "andnot":
		s += fmt.Sprintf("(%v)", in.args)
	}
	switch in.kind {
	case "bytes", "not", "sub", "and", "or", "xor", "andnot":
		return s + fmt.Sprintf(" -> %08b %s", []byte(out.s), out.bad)
	}
	return s + " -> " + out.s + " " + out.bad
}

func (k *bsKept) check(r *R) {
	got := k.str
	if k.bs != nil {
		got = string(k.bs.Bytes())
	} else if k.raw != nil {
		got = string(k.raw)
	}
	if got != k.want {
		r.Fail("result-changed", "a result of %s changed after it was returned: it was %08b and became %08b", k.op, []byte(k.want), []byte(got))
	}
}

type bsState []string

func (s bsState) key() string { return strings.Join(s, "|") + fmt.Sprint(len(s[0])) }

func bsModel(init bsState) Model {
	return Model{
		Init: init,
		Key: func(s any) string {
			var b strings.Builder
			for _, x := range s.(bsState) {
				fmt.Fprintf(&b, "%x|", x)
			}
			return b.String()
		},
		Step: func(s any, op *Op) []any {
			in, out := op.In.(bsIn), op.Out.(bsOut)
			if out.bad != "" {
				return nil
			}
			st := s.(bsState)
			switch in.kind {
			case "and", "or", "xor", "andnot":
				if len(in.args) == 0 {
					return []any{st}
				}
				xs := []string{st[in.set]}
				for _, a := range in.args {
					xs = append(xs, st[a])
				}
				if bsCombine(in.kind, xs) != out.s {
					return nil
				}
				return []any{st}
			}
			ns, want := bsApply(st[in.set], in)
			if want != out.s {
				return nil
			}
			if ns == st[in.set] {
				return []any{st}
			}
			n := append(bsState{}, st...)
			n[in.set] = ns
			return []any{n}
		},
	}
}

var bsKinds = []string{"set", "get", "count", "size", "bytes", "binary", "string", "not", "sub", "range", "clear"}

func genBits(r *R, maxBytes int) []byte {
	b := make([]byte, r.Choose(maxBytes+1))
	for i := range b {
		switch r.Choose(5) {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(1 << r.Choose(8))
		default:
			b[i] = byte(r.Choose(256))
		}
	}
	return b
}

func genOffset(r *R, bytes int) int {
	n := bytes*8 + 8
	switch r.Choose(8) {
	case 0, 1, 2, 3:
		return r.Choose(n)
	case 4, 5:
		return -1 - r.Choose(n)
	case 6:
		return []int{0, 7, 8, 15, 16, -8, -7, -9, -16, 23}[r.Choose(10)]
	}
	return []int{-100, 1000, 63, 64, -1, 31, 32}[r.Choose(7)]
}

func genBS(r *R, bytes int, w []int) bsIn {
	in := bsIn{kind: bsKinds[r.Pick(w...)], mode: r.Choose(3)}
	switch in.kind {
	case "set":
		in.v = r.Choose(3) != 2
		in.a = genOffset(r, bytes)
		if in.a > 300 {
			in.a = 40
		}
	case "get":
		in.a = genOffset(r, bytes)
	case "count", "sub":
		in.a, in.b = genOffset(r, bytes), genOffset(r, bytes)
		if r.Choose(3) == 0 {
			in.b = in.a + r.Choose(12)
			if in.a < 0 && in.b >= 0 {
				in.b = -1
			}
		}
	case "range":
		in.a = -1
		if r.Choose(3) == 2 {
			in.a = r.Choose(bytes*8 + 1)
		}
	case "binary":
		in.sep = []string{"", " ", "-+", "0", "1"}[r.Choose(5)]
	}
	return in
}

var bsMixes = [][]int{
	{6, 2, 2, 1, 2, 1, 1, 2, 2, 1, 1},
	{8, 0, 3, 0, 3, 0, 0, 0, 0, 3, 2},
	{5, 0, 0, 1, 1, 2, 2, 3, 3, 1, 1},
	{4, 4, 4, 1, 0, 0, 0, 0, 4, 0, 0},
}

func newBits(r *R, b []byte) *bitset.BitSet {
	if len(b) == 0 && r.Choose(2) == 1 {
		return &bitset.BitSet{}
	}
	if r.Choose(2) == 1 {
		x, err := bitset.NewFromHex(hex.EncodeToString(b))
		if err != nil {
			r.Fail("newfromhex", "NewFromHex(%x): %v", b, err)
			return bitset.New(b...)
		}
		return x
	}
	if r.Choose(3) == 2 { // over a slice with something behind it
		return bitset.New(append(append([]byte(nil), b...), 0xff, 0xa5, 0xff, 0xff, 0x81)[:len(b)]...)
	}
	return bitset.New(append([]byte(nil), b...)...)
}

type bsRec struct {
	client    int
	in        bsIn
	out       bsOut
	call, ret uint64
}

func bsRun(r *R, inits bsState, plans [][]bsIn) {
	var sets []*bitset.BitSet
	for _, s := range inits {
		sets = append(sets, newBits(r, []byte(s)))
	}
	log := NewLog[bsRec](64)
	kept := NewLog[bsKept](128)
	exec := func(c int, in bsIn) {
		call := stamp()
		i := log.Add(bsRec{client: c, in: in, call: call, ret: pending})
		r.Yield()
		out := bsExec(r, sets, in, kept)
		r.Yield()
		log.Set(i, bsRec{c, in, out, call, stamp()})
	}
	for i, plan := range plans {
		c, plan := i+1, plan
		r.Go(fmt.Sprintf("client %d", c), 1, func() {
			for _, in := range plan {
				exec(c, in)
			}
		})
	}
	joined := r.Join()
	if joined {
		for i := range sets {
			exec(0, bsIn{kind: "bytes", set: i, mode: 2})
		}
	}
	var ops []*Op
	for _, x := range log.All() {
		ops = append(ops, &Op{Client: x.client, Call: x.call, Ret: x.ret, In: x.in, Out: x.out, Desc: bsDesc(x.in, x.out)})
	}
	r.Logf("initially %s\n%s", describeBits(inits), describeOps(ops))
	if !joined {
		return
	}
	if overlaps(ops) {
		r.NonTriv()
	}
	for i := range kept.All() {
		kept.All()[i].check(r)
	}
	ok, inc := linearizable(ops, bsModel(inits))
	if inc {
		r.Probe("linearizability search abandoned")
	}
	if !ok {
		r.Fail("linearizability", "no one-at-a-time order of the calls explains the results (see the history)")
	}
}

func describeBits(s bsState) string {
	var p []string
	for i, x := range s {
		p = append(p, fmt.Sprintf("set%d=%08b", i, []byte(x)))
	}
	return strings.Join(p, " ")
}

func init() {
	register("B01", &Scenario{Name: "concurrent", Race: true, Weight: 6000, MaxSteps: 40000, Run: func(r *R) {
		bytes := r.Choose(4)
		if r.Choose(12) == 11 {
			bytes = r.Range(4, 40)
		}
		init := bsState{string(genBits(r, bytes))}
		mix := bsMixes[r.Choose(len(bsMixes))]
		clients, per := r.Range(2, 4), r.Range(1, 4)
		var plans [][]bsIn
		for c := 0; c < clients; c++ {
			var p []bsIn
			for i := 0; i < per; i++ {
				p = append(p, genBS(r, len(init[0]), mix))
			}
			plans = append(plans, p)
		}
		bsRun(r, init, plans)
	}})
	register("B01", &Scenario{Name: "sequential", Seq: true, Weight: 2000, MaxSteps: 200000, Run: func(r *R) {
		st := string(genBits(r, []int{0, 1, 2, 3, 4, 9, 8, 16, 20, 70}[r.Choose(10)]))
		sets := []*bitset.BitSet{newBits(r, []byte(st))}
		kept := NewLog[bsKept](128)
		mix := bsMixes[r.Choose(len(bsMixes))]
		r.Logf("initially %08b", []byte(st))
		for i, n := 0, r.Range(3, 30); i < n; i++ {
			in := genBS(r, len(st), mix)
			out := bsExec(r, sets, in, kept)
			r.Logf("%s", bsDesc(in, out))
			ns, want := bsApply(st, in)
			if out.bad != "" || out.s != want {
				r.Fail("bits-model", "operation %d: %s\nthe model gives %q on contents %08b", i, bsDesc(in, out), want, []byte(st))
				return
			}
			st = ns
		}
		for i := range kept.All() {
			kept.All()[i].check(r)
		}
		r.NonTriv()
	}})
	register("B02", &Scenario{Name: "combine", Race: true, Weight: 6000, MaxSteps: 40000, Run: func(r *R) {
		n := r.Range(2, 4)
		maxBytes := 3
		if r.Choose(8) == 7 {
			maxBytes = []int{8, 9, 17, 34}[r.Choose(4)]
		}
		var init bsState
		for i := 0; i < n; i++ {
			init = append(init, string(genBits(r, maxBytes)))
		}
		gen := func() bsIn {
			switch r.Pick(6, 4, 1) {
			case 1:
				in := bsIn{kind: "set", set: r.Choose(n), a: r.Choose(8*maxBytes + 4), v: r.Choose(2) == 0}
				if r.Choose(3) == 2 {
					in.a = -1 - r.Choose(9)
				}
				if r.Choose(8) == 7 {
					in.kind = "clear"
				}
				return in
			case 2:
				in := genBS(r, maxBytes, bsMixes[0])
				in.set = r.Choose(n)
				return in
			}
			in := bsIn{kind: []string{"and", "or", "xor", "andnot"}[r.Choose(4)], set: r.Choose(n), mode: r.Choose(3)}
			for i, k := 0, r.Pick(0, 5, 4, 2, 1); i < k; i++ {
				in.args = append(in.args, r.Choose(n))
			}
			if r.Choose(16) == 15 {
				in.args = nil
			}
			return in
		}
		clients, per := r.Range(2, 4), r.Range(1, 3)
		var plans [][]bsIn
		for c := 0; c < clients; c++ {
			var p []bsIn
			for i := 0; i < per; i++ {
				p = append(p, gen())
			}
			plans = append(plans, p)
		}
		bsRun(r, init, plans)
	}})
}
