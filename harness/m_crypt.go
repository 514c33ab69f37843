package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/miniLCT/gosb/library/cryptox"
)

// ---- reference implementation on top of the standard library ----

var modeNames = []string{"ECB", "CBC", "CTR"}

func encText(b []byte, b64 bool) []byte {
	if b64 {
		return []byte(base64.RawURLEncoding.EncodeToString(b))
	}
	return []byte(hex.EncodeToString(b))
}

func decText(b []byte, b64 bool) ([]byte, error) {
	if b64 {
		return base64.RawURLEncoding.DecodeString(string(b))
	}
	return hex.DecodeString(string(b))
}

func refEncrypt(mode int, key, iv, plain []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	if mode == 2 {
		out := append(append([]byte(nil), iv...), plain...)
		cipher.NewCTR(blk, iv).XORKeyStream(out[16:], out[16:])
		return out
	}
	n := 16 - len(plain)%16
	p := append(append([]byte(nil), plain...), bytes.Repeat([]byte{byte(n)}, n)...)
	if mode == 1 {
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
		return append(append([]byte(nil), iv...), p...)
	}
	for i := 0; i < len(p); i += 16 {
		blk.Encrypt(p[i:i+16], p[i:i+16])
	}
	return p
}

func refDecrypt(mode int, key, text []byte, b64 bool) ([]byte, error) {
	b, err := decText(text, b64)
	if err != nil {
		return nil, err
	}
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	var iv []byte
	if mode != 0 {
		if len(b) < 16 {
			return nil, errors.New("no IV")
		}
		iv, b = b[:16], b[16:]
	}
	if mode == 2 {
		cipher.NewCTR(blk, iv).XORKeyStream(b, b)
		return b, nil
	}
	if len(b)%16 != 0 || len(b) == 0 {
		return nil, errors.New("not whole blocks")
	}
	if mode == 1 {
		cipher.NewCBCDecrypter(blk, iv).CryptBlocks(b, b)
	} else {
		for i := 0; i < len(b); i += 16 {
			blk.Decrypt(b[i:i+16], b[i:i+16])
		}
	}
	n := int(b[len(b)-1])
	if n < 1 || n > 16 || !bytes.Equal(b[len(b)-n:], bytes.Repeat([]byte{byte(n)}, n)) {
		return nil, errors.New("bad padding")
	}
	return b[:len(b)-n], nil
}

func libEncrypt(mode int, key, plain []byte, enc int) []byte {
	f := []func([]byte, []byte, ...bool) []byte{cryptox.AESEncrypt, cryptox.AESCBCEncrypt, cryptox.AESCTREncrypt}[mode]
	switch enc {
	case 1:
		return f(key, plain, true)
	case 2:
		return f(key, plain, false)
	}
	return f(key, plain)
}

func libDecrypt(mode int, key, text []byte, enc int) ([]byte, error) {
	f := []func([]byte, []byte, ...bool) ([]byte, error){cryptox.AESDecrypt, cryptox.AESCBCDecrypt, cryptox.AESCTRDecrypt}[mode]
	switch enc {
	case 1:
		return f(key, text, true)
	case 2:
		return f(key, text, false)
	}
	return f(key, text)
}

// ---- the entropy source ----

type entRead struct {
	n   int
	err error
}

// entSource serves every goroutine from its own script and remembers what it gave.
type entSource struct {
	r     *R
	who   [16]uint32
	plan  [16][]entRead
	step  [16]int
	given [16][64]byte
	n     [16]int
	fail  [16]bool
	salt  byte
}

//go:norace
func (s *entSource) arm(c int, plan []entRead) {
	s.who[c] = runtime.SimSelf()
	s.plan[c] = plan
	s.step[c] = 0
	s.n[c] = 0
	s.fail[c] = false
}

//go:norace
func (s *entSource) taken(c int) ([]byte, bool) {
	out := make([]byte, s.n[c])
	copy(out, s.given[c][:s.n[c]])
	return out, s.fail[c]
}

//go:norace
func (s *entSource) next(p []byte) (int, error) {
	me := runtime.SimSelf()
	c := 0
	for c < len(s.who)-1 && s.who[c] != me {
		c++
	}
	st := entRead{n: len(p)}
	if s.step[c] < len(s.plan[c]) {
		st = s.plan[c][s.step[c]]
		s.step[c]++
	}
	n := st.n
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		b := byte(runtime.SimRand())
		p[i] = b
		if s.n[c] < len(s.given[c]) {
			s.given[c][s.n[c]] = b
			s.n[c]++
		}
	}
	if st.err != nil {
		s.fail[c] = true
	}
	return n, st.err
}

func (s *entSource) Read(p []byte) (int, error) {
	s.r.Yield()
	n, err := s.next(p)
	s.r.Yield()
	return n, err
}

var errEntropy = errors.New("entropy source failed")

func genEntropy(r *R) []entRead {
	var plan []entRead
	switch r.Choose(6) {
	case 0: // whole
		return nil
	case 1: // fragments
		for i, n := 0, r.Range(1, 16); i < n; i++ {
			plan = append(plan, entRead{r.Range(0, 9), nil})
		}
		r.Probe("fault: short entropy reads")
	case 2, 3: // fragments, then failure
		for i, n := 0, r.Range(0, 4); i < n; i++ {
			plan = append(plan, entRead{r.Range(0, 6), nil})
		}
		plan = append(plan, entRead{r.Choose(17), []error{errEntropy, io.EOF, io.ErrUnexpectedEOF}[r.Choose(3)]})
		r.Probe("fault: entropy source failure")
	case 4: // failure at once
		plan = append(plan, entRead{0, []error{errEntropy, io.EOF}[r.Choose(2)]})
		r.Probe("fault: entropy source failure")
	case 5: // everything together with an error, or one byte short
		plan = append(plan, entRead{r.Range(15, 16), io.EOF})
		r.Probe("fault: entropy source failure")
	}
	return plan
}

// guarded returns b inside a bigger array and a check that nothing of it changed.
func guarded(b []byte, spare int) ([]byte, func() string) {
	full := make([]byte, 8+len(b)+spare)
	for i := range full {
		full[i] = byte(0xc0 + i%13)
	}
	copy(full[8:], b)
	orig := append([]byte(nil), full...)
	return full[8 : 8+len(b) : len(full)], func() string {
		for i := range full {
			if full[i] != orig[i] {
				where := "contents"
				if i < 8 {
					where = "memory before the buffer"
				} else if i >= 8+len(b) {
					where = "spare capacity"
				}
				return fmt.Sprintf("byte %d (%s) changed from %#x to %#x", i-8, where, orig[i], full[i])
			}
		}
		return ""
	}
}

func randBytes(r *R, n int) []byte {
	b := make([]byte, n)
	switch r.Choose(4) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 16
		}
	default:
		for i := range b {
			b[i] = byte(runtime.SimRand())
		}
	}
	return b
}

func genLen(r *R) int {
	if r.Choose(60) == 59 {
		return []int{511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097}[r.Choose(10)]
	}
	switch r.Choose(3) {
	case 0:
		return []int{0, 1, 15, 16, 17, 31, 32, 33, 48}[r.Choose(9)]
	case 1:
		return r.Choose(70)
	}
	return r.Choose(300)
}

type cryptRec struct {
	desc string
	got  []byte
	want []byte
}

func init() {
	register("K01", &Scenario{Name: "encrypt", Race: true, Weight: 5000, MaxSteps: 100000, Run: func(r *R) {
		src := &entSource{r: r}
		old := rand.Reader
		rand.Reader = src
		defer func() { rand.Reader = old }()
		clients := 1
		if r.Choose(2) == 1 {
			clients = r.Range(2, 4)
		}
		nbuf := r.Range(1, 3)
		var plains, keys [][]byte
		var undo []func()
		var checks []func() string
		for i := 0; i < nbuf; i++ {
			p, c1 := guarded(randBytes(r, genLen(r)), r.Choose(3)*20)
			kb := randBytes(r, []int{16, 24, 32}[r.Choose(3)])
			if i > 0 && r.Choose(3) == 2 {
				// a key much like the one before: a common prefix, or one byte apart
				copy(kb, keys[i-1])
				if r.Choose(2) == 1 {
					kb[r.Choose(len(kb))] ^= byte(1 + r.Choose(255))
				}
			}
			k, c2 := guarded(kb, r.Choose(2)*40)
			if len(p) == 0 && r.Choose(2) == 1 {
				p = nil
			}
			plains, keys = append(plains, p), append(keys, k)
			checks = append(checks, c1, c2)
		}
		bad := NewLog[string](32)
		kept := NewLog[cryptRec](64)
		type call struct {
			mode, enc, buf, scribble int
			plan                     []entRead
			rewrite, at              int
		}
		client := func(c int, plan []call) func() {
			return func() {
				for _, x := range plan {
					src.arm(c, x.plan)
					key, plain := keys[x.buf], plains[x.buf]
					if clients == 1 && x.rewrite != 0 {
						// The caller uses its own buffer for another key (or plaintext) now.
						b := [][]byte{key, plain}[x.rewrite-1]
						if len(b) > 0 {
							at := x.at % len(b)
							b[at] ^= 0x5a
							undo = append(undo, func() { b[at] ^= 0x5a })
							r.Probe("caller's buffer reused with other content")
						}
					}
					var text []byte
					panicked := func() (p bool) {
						defer func() { p = recover() != nil }()
						text = libEncrypt(x.mode, key, plain, x.enc)
						return false
					}()
					name := fmt.Sprintf("%s encryption of %d bytes, key %d bytes", modeNames[x.mode], len(plain), len(key))
					given, failed := src.taken(c)
					var iv []byte
					if x.mode != 0 {
						if len(given) < 16 && failed {
							if !panicked {
								bad.Add(fmt.Sprintf("%s returned a ciphertext although the entropy source failed after %d bytes", name, len(given)))
								return
							}
							continue
						}
						if !panicked && len(given) != 16 {
							bad.Add(fmt.Sprintf("%s drew %d bytes of entropy instead of 16", name, len(given)))
							return
						}
						iv = given
					}
					if panicked {
						bad.Add(fmt.Sprintf("%s panicked although the entropy source delivered %d bytes", name, len(given)))
						return
					}
					raw, err := decText(text, x.enc == 1)
					if err != nil {
						bad.Add(fmt.Sprintf("%s: result is not properly encoded: %v", name, err))
						return
					}
					if x.mode != 0 && (len(raw) < 16 || !bytes.Equal(raw[:16], iv)) {
						bad.Add(fmt.Sprintf("%s: the IV is not the entropy that was drawn for it", name))
						return
					}
					if want := refEncrypt(x.mode, key, iv, plain); !bytes.Equal(raw, want) {
						bad.Add(fmt.Sprintf("%s: result differs from the reference: %x, want %x", name, raw, want))
						return
					}
					saved := append([]byte(nil), text...)
					r.Yield()
					back, err := libDecrypt(x.mode, key, text, x.enc)
					if err != nil || !bytes.Equal(back, plain) {
						bad.Add(fmt.Sprintf("%s: decrypting the result gives %x, %v", name, back, err))
						return
					}
					if !bytes.Equal(text, saved) {
						bad.Add(fmt.Sprintf("%s: decrypting changed the ciphertext", name))
						return
					}
					if x.scribble == 1 {
						for i := range text {
							text[i] ^= 0x5a
						}
						for i := range back {
							back[i] ^= 0x5a
						}
						continue
					}
					kept.Add(cryptRec{name + ": ciphertext", text, saved})
					kept.Add(cryptRec{name + ": decrypted text", back, append([]byte(nil), back...)})
				}
			}
		}
		for c := 1; c <= clients; c++ {
			var plan []call
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				plan = append(plan, call{r.Choose(3), r.Choose(3), r.Choose(nbuf), r.Choose(2), genEntropy(r), []int{0, 0, 1, 2}[r.Choose(4)], r.Choose(512)})
			}
			if clients == 1 {
				client(c, plan)()
			} else {
				r.Go(fmt.Sprintf("client %d", c), 1, client(c, plan))
			}
		}
		if !r.Join() {
			return
		}
		r.NonTriv()
		if bad.Len() > 0 {
			r.Fail("encrypt", "%s", bad.All()[0])
		}
		for _, k := range kept.All() {
			if !bytes.Equal(k.got, k.want) {
				r.Fail("result-changed", "%s changed after it was returned", k.desc)
			}
		}
		for _, u := range undo {
			u()
		}
		for i, c := range checks {
			if s := c(); s != "" {
				r.Fail("buffer", "%s buffer %d: %s", []string{"plaintext", "key"}[i%2], i/2, s)
			}
		}
	}})

	register("K02", &Scenario{Name: "damaged", Race: true, Weight: 6000, MaxSteps: 100000, Run: func(r *R) { cryptDamaged(r, false) }})
	register("K02", &Scenario{Name: "long texts", Seq: true, Weight: 2, MaxSteps: 40000000, Run: func(r *R) { cryptDamaged(r, true) }})
}

func cryptDamaged(r *R, large bool) {
	clients := 1
	if r.Choose(3) == 2 {
		clients = r.Range(2, 3)
	}
	mode, b64 := r.Choose(3), r.Choose(2) == 1
	enc := []int{r.Choose(2) * 2, 1}[map[bool]int{false: 0, true: 1}[b64]]
	klen := []int{16, 24, 32}[r.Choose(3)]
	key := randBytes(r, klen)
	plain := randBytes(r, genLen(r))
	if large {
		n := largeSize(r)
		if r.Choose(3) == 2 {
			n = []int{32767, 32768, 65535, 65536, 65537, 100000}[r.Choose(6)]
		}
		plain = largeBytes(r, n)
		clients = 1
		r.Probe("text of thousands of bytes")
	}
	raw := refEncrypt(mode, key, randBytes(r, 16), plain)
	var what []string
	// A forged last block: any padding byte.
	if mode != 2 && r.Choose(4) == 3 {
		n := 16 * r.Range(1, 3)
		p := randBytes(r, n)
		pad := []int{0, 1, 2, 15, 16, 17, 32, 48, 255}[r.Choose(9)]
		fill := r.Choose(20)
		for i := n - 1; i >= 0 && i >= n-fill-1; i-- {
			p[i] = byte(pad)
		}
		blk, _ := aes.NewCipher(key)
		if mode == 1 {
			iv := randBytes(r, 16)
			cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
			raw = append(iv, p...)
		} else {
			for i := 0; i < n; i += 16 {
				blk.Encrypt(p[i:i+16], p[i:i+16])
			}
			raw = p
		}
		what = append(what, fmt.Sprintf("padding byte %d", pad))
		r.Probe("fault: forged padding")
	}
	damage := func(b []byte, chars bool) []byte {
		if len(b) == 0 && r.Choose(2) == 0 {
			return b
		}
		at := 0
		if len(b) > 0 {
			at = r.Choose(len(b))
			if r.Choose(2) == 1 {
				at = len(b) - 1 - at%20%len(b)
			}
		}
		switch k := r.Choose(8); k {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << r.Choose(8)
				what = append(what, "bit flip")
				r.Probe("fault: bit flip")
			}
		case 1:
			b = b[:at]
			what = append(what, fmt.Sprint("truncated to ", at))
			r.Probe("fault: truncation")
		case 2:
			b = b[:0]
			what = append(what, "emptied")
			r.Probe("fault: truncation")
		case 3:
			b = append(b, randBytes(r, r.Range(1, 20))...)
			what = append(what, "bytes added")
			r.Probe("fault: bytes added")
		case 4:
			if len(b) > 0 {
				b = append(b[:at], b[at+1:]...)
				what = append(what, "byte removed")
				r.Probe("fault: bytes removed")
			}
		case 5:
			if chars {
				b = append(b, []string{"=", "==", "\n", "0", "zz", " ", "A", "\x00"}[r.Choose(8)]...)
				what = append(what, "characters added")
			} else if n := len(b) / 16; n > 0 {
				b = b[:16*r.Choose(n+1)]
				what = append(what, "blocks removed")
			}
			r.Probe("fault: bytes added")
		case 6:
			if len(b) > 0 {
				b[at] = []byte{0, 'g', '=', '\n', 'A', 0xff, '-', '+'}[r.Choose(8)]
				what = append(what, "byte replaced")
				r.Probe("fault: bit flip")
			}
		case 7:
			for i := range b {
				if chars && b[i] >= 'a' && b[i] <= 'f' {
					b[i] -= 32
				}
			}
			what = append(what, "upper case")
		}
		return b
	}
	for i, n := 0, r.Choose(3); i < n; i++ {
		raw = damage(raw, false)
	}
	text := encText(raw, b64)
	for i, n := 0, r.Choose(3); i < n; i++ {
		text = damage(text, true)
	}
	switch r.Choose(8) {
	case 6:
		key = randBytes(r, []int{0, 1, 15, 17, 23, 31, 33, 64}[r.Choose(8)])
		what = append(what, fmt.Sprint("key of ", len(key), " bytes"))
		r.Probe("fault: key of wrong size")
	case 7:
		key = randBytes(r, []int{16, 24, 32}[r.Choose(3)])
		what = append(what, "other key")
	}
	want, wantErr := refDecrypt(mode, key, append([]byte(nil), text...), b64)
	gtext, c1 := guarded(text, r.Choose(3)*20)
	gkey, c2 := guarded(key, r.Choose(2)*40)
	if len(gtext) == 0 && r.Choose(2) == 1 {
		gtext = nil
	}
	bad := NewLog[string](16)
	kept := NewLog[cryptRec](16)
	name := fmt.Sprintf("%s decryption of %d characters (base64 %v; %v)", modeNames[mode], len(text), b64, what)
	if !large {
		r.Logf("%s: want %x, %v", name, want, wantErr)
	}
	call := func() {
		var got []byte
		var err error
		var pv any
		func() {
			defer func() { pv = recover() }()
			got, err = libDecrypt(mode, gkey, gtext, enc)
		}()
		switch {
		case pv != nil:
			bad.Add(fmt.Sprintf("%s panicked: %v", name, pv))
		case wantErr != nil && err == nil:
			bad.Add(fmt.Sprintf("%s returned %x instead of an error (%v)", name, got, wantErr))
		case wantErr == nil && err != nil:
			bad.Add(fmt.Sprintf("%s failed with %v instead of returning %x", name, err, want))
		case wantErr == nil && !bytes.Equal(got, want):
			bad.Add(fmt.Sprintf("%s returned %x instead of %x", name, got, want))
		case err == nil:
			kept.Add(cryptRec{name, got, append([]byte(nil), got...)})
		}
	}
	for c := 1; c <= clients; c++ {
		if clients == 1 {
			call()
		} else {
			r.Go(fmt.Sprintf("client %d", c), 1, call)
		}
	}
	if !r.Join() {
		return
	}
	if len(what) > 0 {
		r.NonTriv()
	}
	if bad.Len() > 0 {
		r.Fail("decrypt", "%s", bad.All()[0])
	}
	for _, k := range kept.All() {
		if !bytes.Equal(k.got, k.want) {
			r.Fail("result-changed", "%s: the result changed after it was returned", k.desc)
		}
	}
	if s := c1(); s != "" {
		r.Fail("buffer", "%s: ciphertext %s", name, s)
	}
	if s := c2(); s != "" {
		r.Fail("buffer", "%s: key %s", name, s)
	}
}
