package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"time"
	"zsim/core"
	simrand "zsim/shim/crypto_rand"

	"simrun/ref"

	mk "github.com/kklash/mnemonikey"
	mn "github.com/kklash/mnemonikey/mnemonic"
)

// ---- running library code in a simulated process ----

// lib runs fn as the main task of a fresh process, with package state reset,
// under the schedule the choices call for.
func (rn *Run) lib(c *Choices, what string, faults []*core.Fault, concurrent bool, fn func(p *core.Proc)) *core.Proc {
	w := rn.w
	core.W = w
	p := w.NewProc([]string{"library"})
	p.Faults = faults
	p.SetStepLimit(150_000_000)
	p.Loc = zoneOf(c.W("libzone", 8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1))
	w.TTY = core.NewTTY(24, 80)
	p.Fds[0] = core.NewNullIn(p)
	p.Fds[1] = core.NewSink(p, "/dev/stdout", "stdout", 1, false)
	p.Fds[2] = core.NewSink(p, "/dev/stderr", "stderr", 2, false)
	w.ResetSchedule()
	sl := c.full("sched")
	if c.replay {
		w.ReplaySchedule(c.sched[sl])
	} else if concurrent {
		pr := []float64{0.002, 0.02, 0.1, 0.5}[core.NewPRNG(c.draw(sl+"prob")).Intn(4)]
		w.SearchSchedule(c.draw(sl), pr)
	}
	w.Trace("lib", what)
	before := snap(w.FS)
	out := p.Run(func() {
		resetAll()
		fn(p)
	})
	d := w.Deviations()
	if len(d) > 0 && !c.replay {
		c.sched[sl] = append([]core.Dev{}, d...)
	}
	rn.st.LibRuns++
	rn.st.Steps += out.Steps
	rn.st.Deviations += int64(len(d))
	for _, f := range p.Fired {
		rn.st.Faults[f]++
	}
	rn.ops++
	rn.evals++
	if len(p.Fired) > 0 || len(d) > 0 || rn.ops > 1 {
		rn.nt = true
	}
	if rn.traceOn {
		rn.trace = append(rn.trace, "library: "+what)
		rn.trace = append(rn.trace, w.Events...)
		w.Events = nil
		rn.trace = append(rn.trace, fmt.Sprintf("=> panic=%q hung=%v deadlock=%v fired=%v", out.Panic, out.Hung, out.Deadlock, p.Fired))
	}
	if out.Panic != "" {
		rn.bad("C16 C17 C10", "library panic", "%s: panic: %s", what, out.Panic)
	}
	if out.Hung || out.Deadlock {
		rn.bad("C16 C17", "library hangs", "%s: hung=%v deadlock=%v", what, out.Hung, out.Deadlock)
	}
	if s := string(p.Fds[1].Buf); s != "" {
		rn.bad("C15", "library writes to standard output", "%s: %s", what, q([]byte(s)))
	}
	for f := range snap(w.FS) {
		if _, ok := before[f]; !ok {
			rn.bad("C11 C22", "library creates files", "%s: %s", what, f)
		}
	}
	return p
}

// call runs one operation, turning a panic into a result.
func call(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(core.Unsupported); ok {
				panic(u)
			}
			s = fmt.Sprint("panic: ", r)
		}
	}()
	return f()
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused"
}

func digest(parts ...any) string {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}

// ---- building blocks ----

// spare copies b into a slice with room behind it, filled with a pattern, so
// that writes past the end of a caller's slice are noticed.
func spare(b []byte) []byte {
	full := make([]byte, len(b)+40)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	return full[:len(b)]
}

func spareOK(b, orig []byte) bool {
	if len(b) != len(orig) || !bytes.Equal(b, orig) {
		return false
	}
	for _, x := range b[:cap(b)][len(b):] {
		if x != 0xA5 {
			return false
		}
	}
	return true
}

func spareWords(w []string) []string {
	full := make([]string, len(w)+6)
	copy(full, w)
	for i := len(w); i < len(full); i++ {
		full[i] = "untouched"
	}
	return full[:len(w)]
}

func spareWordsOK(b, orig []string) bool {
	if len(b) != len(orig) {
		return false
	}
	for i, x := range b[:cap(b)] {
		if i < len(orig) && x != orig[i] || i >= len(orig) && x != "untouched" {
			return false
		}
	}
	return true
}

// optSpec is a set of key options as plain data.
type optSpec struct {
	Name, Email string
	TTL         time.Duration
	Idx         [3]uint16
	Subs        []string // nil: all
}

func (o *optSpec) opts() *mk.KeyOptions {
	k := &mk.KeyOptions{Name: o.Name, Email: o.Email, TTL: o.TTL, EncryptionSubkeyIndex: o.Idx[0], AuthenticationSubkeyIndex: o.Idx[1], SigningSubkeyIndex: o.Idx[2]}
	if o.Subs != nil {
		k.Subkeys = make([]mk.SubkeyType, 0, len(o.Subs)+2)
		for _, s := range o.Subs {
			k.Subkeys = append(k.Subkeys, mk.SubkeyType(s))
		}
	}
	return k
}

func (o *optSpec) same(k *mk.KeyOptions) bool {
	x := o.opts()
	if (x.Subkeys == nil) != (k.Subkeys == nil) || len(x.Subkeys) != len(k.Subkeys) {
		return false
	}
	for i := range x.Subkeys {
		if x.Subkeys[i] != k.Subkeys[i] {
			return false
		}
	}
	return x.Name == k.Name && x.Email == k.Email && x.TTL == k.TTL && x.EncryptionSubkeyIndex == k.EncryptionSubkeyIndex &&
		x.AuthenticationSubkeyIndex == k.AuthenticationSubkeyIndex && x.SigningSubkeyIndex == k.SigningSubkeyIndex
}

func (o *optSpec) uid() string {
	switch {
	case o.Email == "":
		return o.Name
	case o.Name == "":
		return o.Email
	}
	return o.Name + " <" + o.Email + ">"
}

func (o *optSpec) types() []string {
	if o.Subs == nil {
		return ref.SubTypes
	}
	var out []string
	for _, t := range ref.SubTypes {
		for _, s := range o.Subs {
			if s == t {
				out = append(out, t)
				break
			}
		}
	}
	return out
}

// want describes the export these options call for.
func (o *optSpec) want(master, cert bool, keyPw string) *Want {
	return &Want{OK: true, Master: master, SelfCert: cert, KeyPw: keyPw, UID: o.uid(), TTL: int64(o.TTL / time.Second), Types: o.types(),
		Idx: map[string]uint16{"encryption": o.Idx[0], "authentication": o.Idx[1], "signing": o.Idx[2]}}
}

func (rn *Run) optSpec(c *Choices) optSpec {
	c = c.Sub("opt")
	var o optSpec
	switch c.W("name", 2, 3, 2, 1) {
	case 1:
		o.Name = nameWords[c.N("nw", len(nameWords))]
	case 2:
		n := []int{1, 63, 64, 189, 190, 191, 192, 193, 194, 255, 256, 8381, 8382, 8383, 8384, 8385, 20000, 66000}[c.N("len", 18)]
		o.Name = strings.Repeat("u", n)
	case 3:
		o.Name = string(c.R("nb").Bytes(1 + c.N("nl", 300)))
	}
	switch c.W("email", 2, 2, 1) {
	case 1:
		o.Email = fmt.Sprintf("u%d@example.org", c.N("en", 999))
	case 2:
		o.Email = " spaced@x "
	}
	switch c.W("ttl", 2, 3, 1) {
	case 1:
		o.TTL = time.Duration(1+c.Int64("ttls", func(r *core.PRNG) int64 { return int64(r.Uint64() % (1 << 32)) })) * time.Second
		if o.TTL > (1<<32-1)*time.Second {
			o.TTL = (1<<32 - 1) * time.Second
		}
	case 2:
		o.TTL = []time.Duration{time.Second, 2 * time.Second, (1<<32 - 1) * time.Second, 1 << 31 * time.Second, (1<<31 - 1) * time.Second}[c.N("ttle", 5)]
	}
	for i := range o.Idx {
		if c.P(fmt.Sprint("i", i), 1, 2) {
			o.Idx[i] = rn.anyIndex(c, fmt.Sprint("ix", i))
		}
	}
	switch c.W("subs", 3, 4, 1) {
	case 1:
		r := c.R("subr")
		o.Subs = []string{}
		for _, k := range r.Perm(3) {
			if r.Intn(2) == 0 {
				o.Subs = append(o.Subs, ref.SubTypes[k])
			}
		}
	case 2:
		r := c.R("subd")
		t := ref.SubTypes[r.Intn(3)]
		o.Subs = []string{t, t}
	}
	return o
}

func (rn *Run) anyIndex(c *Choices, l string) uint16 {
	if c.P(l+"e", 1, 3) {
		return []uint16{1, 2, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65534, 65535}[c.N(l, 12)]
	}
	return uint16(c.N(l, 65536))
}

func seedOf(b [16]byte) *mk.Seed {
	s, err := mk.NewSeed(0, new(big.Int).SetBytes(b[:]))
	if err != nil {
		panic("NewSeed refused a 128-bit value: " + err.Error())
	}
	return s
}

func at(off uint32) time.Time { return time.Unix(ref.Epoch+int64(off), 0).UTC() }

// checkBin parses and judges a binary export made by the library.
func (rn *Run) checkBin(who string, bin []byte, seed [16]byte, off uint32, w *Want, rng []byte) *ref.Block {
	blk, err := ref.ParseBlock(bin)
	if err != nil {
		rn.bad("C09 C01 C03", "invalid key block", "%s: %v", who, err)
		return nil
	}
	r := &Res{Cmd: &Cmd{Verb: "recover", Lib: true}, Stdout: bin, Rng: rng}
	rn.checkBlock(r, who, blk, seed, off, w)
	return blk
}

// ---- scenario: shared and concurrent use ----

// libctx is one user's data and objects.
type libctx struct {
	seed       [16]byte
	off        uint32
	o          optSpec
	pw         string
	salt       []byte // bytes an encryption draws from
	plain, enc []string

	// objects, per process
	s      *mk.Seed
	ent    *big.Int
	dp, de *mk.DecodedMnemonic
	m      *mk.Mnemonikey
	opts   *mk.KeyOptions
	pwb    []byte
	wp, we []string
	idx    []uint16
	num    *big.Int

	letters int // letter case of the phrases passed in
}

func (x *libctx) build() error {
	x.ent = new(big.Int).SetBytes(x.seed[:])
	var err error
	if x.s, err = mk.NewSeed(0, x.ent); err != nil {
		return fmt.Errorf("NewSeed: %w", err)
	}
	x.opts = x.o.opts()
	x.pwb = spare([]byte(x.pw))
	x.wp, x.we = spareWords(x.typed(x.plain)), spareWords(x.typed(x.enc))
	if x.dp, err = mk.DecodeMnemonic(x.wp); err != nil {
		return fmt.Errorf("DecodeMnemonic: %w", err)
	}
	if x.de, err = mk.DecodeMnemonic(x.we); err != nil {
		return fmt.Errorf("DecodeMnemonic: %w", err)
	}
	if x.m, err = mk.New(x.s, at(x.off), x.opts); err != nil {
		return fmt.Errorf("New: %w", err)
	}
	x.num = new(big.Int).SetBytes(append([]byte{1}, x.seed[:]...))
	for _, w := range x.plain {
		x.idx = append(x.idx, uint16(ref.Index[w]))
	}
	return nil
}

// intact reports which argument was changed by the library.
func (x *libctx) intact() string {
	switch {
	case x.ent.Cmp(new(big.Int).SetBytes(x.seed[:])) != 0:
		return "the integer given to NewSeed"
	case !spareOK(x.pwb, []byte(x.pw)):
		return "the password"
	case !spareWordsOK(x.wp, x.typed(x.plain)) || !spareWordsOK(x.we, x.typed(x.enc)):
		return "the words"
	case !x.o.same(x.opts):
		return "the key options"
	case x.num.Cmp(new(big.Int).SetBytes(append([]byte{1}, x.seed[:]...))) != 0:
		return "the integer given to EncodeToIndices"
	}
	for i, w := range x.plain {
		if x.idx[i] != uint16(ref.Index[w]) {
			return "the indices"
		}
	}
	return ""
}

// scribble changes everything the caller passed in.
func (x *libctx) scribble() {
	x.ent.Xor(x.ent, big.NewInt(0x5555))
	b := x.ent.Bits()
	for i := range b {
		b[i] ^= 0x1234
	}
	for i := range x.pwb {
		x.pwb[i] = '!'
	}
	for _, l := range [][]string{x.wp, x.we} {
		for i := range l {
			l[i] = "zoo"
		}
	}
	x.opts.Name, x.opts.Email, x.opts.TTL = "mallory", "m@x", 77*time.Second
	x.opts.EncryptionSubkeyIndex, x.opts.AuthenticationSubkeyIndex, x.opts.SigningSubkeyIndex = 9, 9, 9
	for i := range x.opts.Subkeys {
		x.opts.Subkeys[i] = "signing"
	}
	x.num.SetInt64(5)
	for i := range x.idx {
		x.idx[i] = 7
	}
}

// refresh gives the caller fresh arguments but keeps the objects.
func (x *libctx) refresh() {
	x.ent = new(big.Int).SetBytes(x.seed[:])
	x.opts = x.o.opts()
	x.pwb = spare([]byte(x.pw))
	x.wp, x.we = spareWords(x.typed(x.plain)), spareWords(x.typed(x.enc))
	x.num = new(big.Int).SetBytes(append([]byte{1}, x.seed[:]...))
	for i, w := range x.plain {
		x.idx[i] = uint16(ref.Index[w])
	}
}

func flip(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

func mnkFacts(m *mk.Mnemonikey) string {
	var fps []string
	for _, t := range m.SubkeyTypes() {
		fps = append(fps, fmt.Sprintf("%s=%x", t, m.SubkeyFingerprint(t)))
	}
	return fmt.Sprint(m.CreatedAt().Unix(), m.CreatedAt().Nanosecond(), m.Expiry().IsZero(), m.Expiry().Unix(), digest(m.UserID()), fmt.Sprintf("%x", m.Fingerprint()), fps)
}

type libop struct {
	name string
	run  func(x *libctx) string
}

// made collects exports for judging after the process has ended.
type made struct {
	x   *libctx
	bin []byte
	w   *Want
}

func (rn *Run) libops(out *[]made, rngFrom int) []libop {
	add := func(x *libctx, bin []byte, master, cert bool) {
		*out = append(*out, made{x, append([]byte{}, bin...), x.o.want(master, cert, "")})
	}
	return []libop{
		{"EncodeMnemonicPlaintext", func(x *libctx) string {
			w, err := mk.EncodeMnemonicPlaintext(x.s, x.off)
			r := fmt.Sprint(w, errStr(err))
			for i := range w {
				w[i] = "changed"
			}
			return r
		}},
		{"EncodeMnemonicEncrypted", func(x *libctx) string {
			w, err := mk.EncodeMnemonicEncrypted(x.s, x.off, x.pwb, &scriptReader{data: x.salt})
			r := fmt.Sprint(w, errStr(err))
			for i := range w {
				w[i] = "changed"
			}
			return r
		}},
		{"DecodeMnemonic plain", func(x *libctx) string {
			d, err := mk.DecodeMnemonic(x.wp)
			if err != nil {
				return "refused"
			}
			s, err := d.Seed()
			if err != nil {
				return "no seed"
			}
			return fmt.Sprint(d.Version, d.Encrypted(), d.CreationOffset(), d.Creation().Unix(), s.Era(), s.Bytes(), s.Int())
		}},
		{"DecodeMnemonic encrypted", func(x *libctx) string {
			d, err := mk.DecodeMnemonic(x.we)
			if err != nil {
				return "refused"
			}
			_, err = d.Seed()
			return fmt.Sprint(d.Version, d.Encrypted(), d.CreationOffset(), d.Creation().Unix(), errStr(err))
		}},
		{"DecryptSeed", func(x *libctx) string {
			s, err := x.de.DecryptSeed(x.pwb)
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(s.Era(), s.Bytes())
		}},
		{"DecryptSeed wrong password", func(x *libctx) string {
			s, err := x.de.DecryptSeed([]byte(x.pw + "?"))
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(s.Bytes())
		}},
		{"DecodedMnemonic.Seed", func(x *libctx) string {
			s, err := x.dp.Seed()
			if err != nil {
				return "refused"
			}
			i := s.Int()
			i.Add(i, big.NewInt(3))
			b := s.Bytes()
			flip(b)
			s2, err := x.dp.DecryptSeed(nil)
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(s.Bytes(), s.Int(), s2.Bytes(), x.dp.Creation().Unix(), x.de.CreationOffset())
		}},
		{"New", func(x *libctx) string {
			m, err := mk.New(x.s, at(x.off), x.opts)
			if err != nil {
				return "refused"
			}
			b, err := m.EncodePGP(nil)
			if err != nil {
				return "no export"
			}
			add(x, b, true, true)
			return mnkFacts(m) + digest(b)
		}},
		{"EncodePGP", func(x *libctx) string {
			b, err := x.m.EncodePGP(nil)
			r := digest(b, errStr(err))
			add(x, b, true, true)
			flip(b)
			return r
		}},
		{"EncodeSubkeysPGP", func(x *libctx) string {
			b, err := x.m.EncodeSubkeysPGP(nil, true)
			c, err2 := x.m.EncodeSubkeysPGP([]byte{}, false)
			r := digest(b, c, errStr(err), errStr(err2))
			add(x, b, false, true)
			add(x, c, false, false)
			flip(b)
			flip(c)
			return r
		}},
		{"armor", func(x *libctx) string {
			a, err := x.m.EncodePGPArmor(nil)
			b, err2 := x.m.EncodeSubkeysPGPArmor(nil, false)
			return digest(a, b, errStr(err), errStr(err2))
		}},
		{"facts", func(x *libctx) string {
			r := mnkFacts(x.m)
			flip(x.m.Fingerprint())
			t := x.m.SubkeyTypes()
			for i := range t {
				flip(x.m.SubkeyFingerprint(t[i]))
				t[i] = "changed"
			}
			return r
		}},
		{"RecoverPlaintext", func(x *libctx) string {
			m, err := mk.RecoverPlaintext(x.wp, x.opts)
			if err != nil {
				return "refused"
			}
			b, err := m.EncodePGP(nil)
			if err != nil {
				return "no export"
			}
			add(x, b, true, true)
			return mnkFacts(m) + digest(b)
		}},
		{"RecoverEncrypted", func(x *libctx) string {
			m, err := mk.RecoverEncrypted(x.we, x.pwb, x.opts)
			if err != nil {
				return "refused"
			}
			b, err := m.EncodeSubkeysPGP(nil, true)
			if err != nil {
				return "no export"
			}
			add(x, b, false, true)
			return mnkFacts(m) + digest(b)
		}},
		{"Mnemonikey phrases", func(x *libctx) string {
			a, err := x.m.EncodeMnemonicPlaintext()
			b, err2 := x.m.EncodeMnemonicEncrypted(x.pwb, &scriptReader{data: x.salt})
			return fmt.Sprint(a, errStr(err), b, errStr(err2))
		}},
		{"seed accessors", func(x *libctx) string {
			i, b := x.s.Int(), x.s.Bytes()
			r := fmt.Sprint(i, b, x.s.Era())
			i.SetInt64(1)
			flip(b)
			return r
		}},
		{"word codec", func(x *libctx) string {
			ix, err := mn.EncodeToIndices(x.num, 168)
			ws, err2 := mn.EncodeToWords(x.idx)
			dx, err3 := mn.DecodeWords(x.wp)
			n, err4 := mn.DecodeIndices(x.idx)
			r := fmt.Sprint(ix, ws, dx, n, errStr(err), errStr(err2), errStr(err3), errStr(err4))
			for i := range ix {
				ix[i] = 0
			}
			for i := range dx {
				dx[i] = 0
			}
			for i := range ws {
				ws[i] = ""
			}
			return r
		}},
		{"GenerateSeed", func(x *libctx) string {
			s, err := mk.GenerateSeed(&scriptReader{data: append(append([]byte{}, x.seed[:]...), x.salt...)})
			if err != nil {
				return "refused"
			}
			return fmt.Sprint(s.Bytes(), s.Era())
		}},
		{"ParseMnemonicVersion", func(x *libctx) string {
			a, err := mk.ParseMnemonicVersion(x.wp[0])
			b, err2 := mk.ParseMnemonicVersion(x.we[0])
			_, err3 := mk.ParseMnemonicVersion("zoo")
			return fmt.Sprint(a, b, a.Encrypted(), b.Encrypted(), a.MnemonicSize(), b.MnemonicSize(), errStr(err), errStr(err2), errStr(err3))
		}},
	}
}

func (rn *Run) libCtx(c *Choices) *libctx {
	x := &libctx{}
	copy(x.seed[:], rn.seedBytes(c))
	x.off = rn.offset(c)
	x.o = rn.optSpec(c)
	if len(x.o.Name) > 300 {
		x.o.Name = x.o.Name[:300]
	}
	x.pw = rn.password(c, "pw")
	salt := uint32(c.Int64("salt", func(r *core.PRNG) int64 { return int64(r.Uint64() & (1<<19 - 1)) })) & (1<<19 - 1)
	x.salt = c.R("saltbytes").Bytes(64)
	x.letters = c.W("letters", 3, 1, 1, 1)
	x.plain = ref.EncodePlain(x.seed, x.off)
	x.enc = ref.EncodeEnc(x.seed, x.off, []byte(x.pw), salt, rn.kdf)
	return x
}

func (x *libctx) copy() *libctx {
	return &libctx{seed: x.seed, off: x.off, o: x.o, pw: x.pw, salt: x.salt, plain: x.plain, enc: x.enc, letters: x.letters}
}

// typed is a phrase in the letter case its user chose.
func (x *libctx) typed(w []string) []string {
	out := make([]string, len(w))
	for i := range w {
		switch {
		case x.letters == 1, x.letters == 3 && i%3 == 1:
			out[i] = strings.ToUpper(w[i])
		case x.letters == 2:
			out[i] = strings.ToUpper(w[i][:1]) + w[i][1:]
		default:
			out[i] = w[i]
		}
	}
	return out
}

// scenLibShared: operations on shared objects, alone, concurrently, repeatedly,
// and after the caller has scribbled over everything it passed or received.
func scenLibShared(rn *Run, c *Choices) {
	nctx := 1 + c.N("contexts", 2)
	var ctxs []*libctx
	for i := 0; i < nctx; i++ {
		ctxs = append(ctxs, rn.libCtx(c.Sub(fmt.Sprint("x", i))))
	}
	var exports []made
	ops := rn.libops(&exports, 0)
	// the plan: tasks with operations on contexts
	nt := 2 + c.N("tasks", 3)
	type step struct{ op, ctx int }
	plan := make([][]step, nt)
	r := c.R("plan")
	focus := r.Perm(len(ops))[:1+r.Intn(4)]
	for t := range plan {
		for k := 0; k < 1+r.Intn(3); k++ {
			o := r.Intn(len(ops))
			if r.Intn(2) == 0 {
				o = focus[r.Intn(len(focus))]
			}
			plan[t] = append(plan[t], step{o, r.Intn(nctx)})
		}
	}
	need := map[step]bool{}
	var order []step
	for _, l := range plan {
		for _, s := range l {
			if !need[s] {
				need[s] = true
				order = append(order, s)
			}
		}
	}
	rn.say("%d tasks over %d contexts: %v", nt, nctx, plan)
	// alone: every operation in a process of its own
	alone := map[step]string{}
	for i, s := range order {
		x := ctxs[s.ctx].copy()
		rn.lib(c.Sub(fmt.Sprint("alone", i)), "alone "+ops[s.op].name, nil, false, func(*core.Proc) {
			alone[s] = call(func() string {
				if err := x.build(); err != nil {
					return "setup: " + err.Error()
				}
				return ops[s.op].run(x)
			})
		})
		if strings.HasPrefix(alone[s], "panic") || strings.HasPrefix(alone[s], "setup") {
			rn.bad("C16 C17 C01", "library operation fails", "%s alone: %s", ops[s.op].name, alone[s])
			return
		}
	}
	rn.judgeAlone(ctxs, func(op, ctx int) (string, bool) { v, ok := alone[step{op, ctx}]; return v, ok }, ops)
	for i, e := range exports {
		rn.checkBin(fmt.Sprint("export ", i), e.bin, e.x.seed, e.x.off, e.w, nil)
	}
	// together
	exports = nil
	got := make([][]string, nt)
	var again, after []string
	var touched string
	setup := ""
	xs := make([]*libctx, nctx)
	p := rn.lib(c.Sub("together"), fmt.Sprintf("%d tasks", nt), nil, true, func(p *core.Proc) {
		for i := range ctxs {
			xs[i] = ctxs[i].copy()
			setup += call(func() string {
				if err := xs[i].build(); err != nil {
					return "setup: " + err.Error()
				}
				return ""
			})
		}
		if setup != "" {
			return
		}
		done := 0
		for t := range plan {
			core.Go(func() {
				for _, s := range plan[t] {
					got[t] = append(got[t], call(func() string { return ops[s.op].run(xs[s.ctx]) }))
				}
				done++
			})
		}
		core.Block(func() bool { return done == nt }, false)
		for _, x := range xs {
			if s := x.intact(); s != "" {
				touched = s
			}
		}
		for _, s := range order { // once more, one after the other
			again = append(again, call(func() string { return ops[s.op].run(xs[s.ctx]) }))
		}
		for _, x := range xs {
			x.scribble()
			x.refresh()
		}
		for _, s := range order {
			after = append(after, call(func() string { return ops[s.op].run(xs[s.ctx]) }))
		}
	})
	rn.relevant("C17 C03 C01")
	if p.Out.Panic != "" || p.Out.Hung || p.Out.Deadlock {
		return
	}
	if setup != "" {
		rn.bad("C17", "library operation fails", "%s", setup)
		return
	}
	for t := range plan {
		for k, s := range plan[t] {
			if k >= len(got[t]) {
				rn.bad("C17 C16", "concurrent operation lost", "task %d did not finish %s", t, ops[s.op].name)
				continue
			}
			if got[t][k] != alone[s] {
				rn.bad("C17 C03 C01", "concurrent result differs", "%s gave %.200s concurrently and %.200s alone", ops[s.op].name, got[t][k], alone[s])
			}
		}
	}
	if touched != "" {
		rn.bad("C17", "argument modified", "the library changed %s", touched)
	}
	for i, s := range order {
		if i < len(again) && again[i] != alone[s] {
			rn.bad("C17 C03 C01 C05", "repeated result differs", "%s gave %.200s when repeated and %.200s at first", ops[s.op].name, again[i], alone[s])
		}
		if i < len(after) && after[i] != alone[s] {
			rn.bad("C17", "objects depend on caller's memory", "%s gave %.200s after the caller changed what it had passed or received, %.200s before", ops[s.op].name, after[i], alone[s])
		}
	}
}

// judgeAlone compares the results of isolated operations with the specification.
func (rn *Run) judgeAlone(ctxs []*libctx, get func(op, ctx int) (string, bool), ops []libop) {
	for ci, x := range ctxs {
		for oi, o := range ops {
			v, ok := get(oi, ci)
			if !ok {
				continue
			}
			rn.evals++
			want, props := "", "C01"
			switch o.name {
			case "EncodeMnemonicPlaintext":
				want = fmt.Sprint(x.plain, "ok")
			case "DecodeMnemonic plain":
				want = fmt.Sprint(0, false, x.off, ref.Epoch+int64(x.off), 0, x.seed[:], new(big.Int).SetBytes(x.seed[:]))
				props = "C01 C04 C19"
			case "DecodeMnemonic encrypted":
				want = fmt.Sprint(1, true, x.off, ref.Epoch+int64(x.off), "refused")
				props = "C05 C04 C19"
			case "DecryptSeed":
				want = fmt.Sprint(0, x.seed[:])
				props = "C05 C01"
			case "DecryptSeed wrong password":
				ph, err := ref.Decode(x.enc)
				if err != nil {
					continue
				}
				if s, ok := ph.Open([]byte(x.pw+"?"), rn.kdf); ok {
					want = fmt.Sprint(s[:])
				} else {
					want = "refused"
				}
				props = "C05"
			case "seed accessors":
				want = fmt.Sprint(new(big.Int).SetBytes(x.seed[:]), x.seed[:], 0)
				props = "C01 C17"
			case "GenerateSeed":
				want = fmt.Sprint(x.seed[:], 0)
				props = "C21"
			default:
				continue
			}
			if v != want {
				rn.bad(props, "library result", "%s gave %.300s, specification %.300s", o.name, v, want)
			}
		}
	}
}

// ---- scenario: entropy sources handed to the library ----

var errSource = errors.New("source broke")

// scriptReader returns data in the pieces its script calls for.
type scriptReader struct {
	data   []byte
	sizes  []int // piece sizes, repeated; 0 is an empty read
	end    error // returned after the data (nil: io.EOF)
	joined bool  // the end comes along with the last piece
	n      int
	calls  int
}

func (s *scriptReader) Read(b []byte) (int, error) {
	core.Yield()
	end := s.end
	if end == nil {
		end = io.EOF
	}
	if len(s.data) == 0 {
		return 0, end
	}
	k := len(s.data)
	if len(s.sizes) > 0 {
		k = s.sizes[s.calls%len(s.sizes)]
		s.calls++
	}
	if k > len(s.data) {
		k = len(s.data)
	}
	k = copy(b, s.data[:k])
	s.data = s.data[k:]
	s.n += k
	if s.joined && len(s.data) == 0 {
		return k, end
	}
	return k, nil
}

func (rn *Run) script(c *Choices, data []byte) *scriptReader {
	s := &scriptReader{data: append([]byte{}, data...)}
	r := c.R("pieces")
	switch c.W("split", 1, 2, 2, 2) {
	case 1:
		s.sizes = []int{1}
	case 2:
		for i := 0; i < 1+r.Intn(6); i++ {
			s.sizes = append(s.sizes, 1+r.Intn(17))
		}
	case 3:
		s.sizes = []int{0, 1 + r.Intn(16), 0, 0, 1 + r.Intn(3)}
	}
	s.joined = c.P("joined", 1, 3)
	if c.P("err", 1, 3) {
		s.end = errSource
	}
	return s
}

func scenLibReaders(rn *Run, c *Choices) {
	x := rn.libCtx(c.Sub("x"))
	for i := 0; i < 3; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		data := append(append([]byte{}, rn.seedBytes(s)...), s.R("tail").Bytes(48)...)
		n := len(data)
		switch s.W("len", 2, 2, 2) {
		case 1:
			n = s.N("short", 16)
		case 2:
			n = 16
		}
		if s.P("seed", 1, 2) {
			src := rn.script(s, data[:n])
			var got string
			var b []byte
			p := rn.lib(s, fmt.Sprintf("GenerateSeed from %d bytes in pieces %v", n, src.sizes), nil, false, func(*core.Proc) {
				got = call(func() string {
					sd, err := mk.GenerateSeed(src)
					if err != nil {
						if sd != nil {
							return "both"
						}
						return "refused"
					}
					b = sd.Bytes()
					return "ok"
				})
			})
			rn.relevant("C21")
			if p.Out.Panic != "" || p.Out.Hung {
				continue
			}
			switch {
			case n < 16 && got != "refused":
				rn.bad("C21 C04", "short entropy accepted", "GenerateSeed with %d bytes (pieces %v, joined %v): %s %x", n, src.sizes, src.joined, got, b)
			case n >= 16 && got != "ok":
				rn.bad("C21", "entropy refused", "GenerateSeed with %d bytes (pieces %v, joined %v, end %v): %s", n, src.sizes, src.joined, src.end, got)
			case n >= 16 && !bytes.Equal(b, data[:16]):
				rn.bad("C21", "seed is not the entropy", "GenerateSeed gave %x from %x (pieces %v)", b, data[:16], src.sizes)
			}
			continue
		}
		// phrase encryption
		if n < 64 && n > 2 {
			n = []int{0, 1, 2, 64}[s.N("saltlen", 4)]
		}
		src := rn.script(s, data[:n])
		var got, whole string
		var words, ww []string
		rn.lib(s, fmt.Sprintf("EncodeMnemonicEncrypted from %d bytes in pieces %v", n, src.sizes), nil, false, func(*core.Proc) {
			got = call(func() string {
				var err error
				words, err = mk.EncodeMnemonicEncrypted(seedOf(x.seed), x.off, []byte(x.pw), src)
				return errStr(err)
			})
			whole = call(func() string {
				var err error
				ww, err = mk.EncodeMnemonicEncrypted(seedOf(x.seed), x.off, []byte(x.pw), bytes.NewReader(data))
				return errStr(err)
			})
		})
		rn.relevant("C06")
		switch {
		case n < 3 && (got != "refused" || len(words) > 0):
			rn.bad("C06", "encrypted without randomness", "EncodeMnemonicEncrypted with %d random bytes: %s %d words", n, got, len(words))
		case n >= 64 && (got != "ok" || whole != "ok"):
			rn.bad("C06", "encryption refused", "EncodeMnemonicEncrypted with %d random bytes (pieces %v, joined %v): %s / %s", n, src.sizes, src.joined, got, whole)
		case n >= 64:
			if strings.Join(words, " ") != strings.Join(ww, " ") {
				rn.bad("C06", "phrase depends on read sizes", "pieces %v joined %v: %v, in one piece %v", src.sizes, src.joined, words, ww)
			}
			ph, err := ref.Decode(words)
			if err != nil || !ph.Enc {
				rn.bad("C06 C01", "bad phrase", "EncodeMnemonicEncrypted gave %v: %v", words, err)
				continue
			}
			if !saltFrom(data[:64], ph.Salt) {
				rn.bad("C06 C21", "salt not from randomness", "salt %#x not in the source %x", ph.Salt, data[:64])
			}
			if e := ref.EncodeEnc(x.seed, x.off, []byte(x.pw), ph.Salt, rn.kdf); strings.Join(e, " ") != strings.Join(words, " ") {
				rn.bad("C06 C01 C05", "phrase differs from specification", "%v, specification %v", words, e)
			}
		}
		// an empty password
		if s.P("empty", 1, 4) {
			var r1 string
			rn.lib(s.Sub("e"), "EncodeMnemonicEncrypted with an empty password", nil, false, func(*core.Proc) {
				r1 = call(func() string {
					w, err := mk.EncodeMnemonicEncrypted(seedOf(x.seed), x.off, []byte{}, bytes.NewReader(data))
					if err == nil || len(w) > 0 {
						return "accepted"
					}
					w, err = mk.EncodeMnemonicEncrypted(seedOf(x.seed), x.off, nil, bytes.NewReader(data))
					if err == nil || len(w) > 0 {
						return "accepted"
					}
					return "refused"
				})
			})
			rn.relevant("C05")
			if r1 != "refused" {
				rn.bad("C05", "empty password", "EncodeMnemonicEncrypted with an empty password: %s", r1)
			}
		}
	}
}

// ---- scenario: times and periods given to the library ----

func scenLibTimes(rn *Run, c *Choices) {
	var seed [16]byte
	copy(seed[:], rn.seedBytes(c))
	for i := 0; i < 4; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		o := rn.optSpec(s)
		var sec int64
		switch s.W("era", 4, 3, 3, 2, 1) {
		case 0:
			sec = ref.Epoch + int64(rn.offset(s))
		case 1:
			sec = ref.Epoch + int64(s.N("near", 5)) - 2
		case 2:
			sec = ref.Epoch + ref.MaxOffset + int64(s.N("near", 5)) - 2
		case 3:
			sec = []int64{0, -1, -62135596800, 1 << 31, 1 << 32, 1<<32 - 1, 1 << 33, 1 << 40, 253402300799, ref.Epoch + 1<<32, ref.Epoch + 1<<31, ref.Epoch - 1<<31, ref.Epoch - 1<<32, ref.Epoch + 9223372036, ref.Epoch + 9223372037, ref.Epoch + 9223372036*2 + 5}[s.N("edge", 16)]
		case 4:
			sec = s.Int64("any", func(r *core.PRNG) int64 { return r.Int63()>>uint(20+r.Intn(20)) - int64(r.Intn(1<<30)) })
		}
		ns := s.Int64("ns", func(r *core.PRNG) int64 { return []int64{0, 1, 999999999, int64(r.Intn(1e9))}[r.Intn(4)] })
		zone := []*time.Location{time.UTC, time.FixedZone("a", 5*3600+1800), time.FixedZone("b", -12*3600), time.FixedZone("c", 14*3600), time.FixedZone("d", 1), zones[7], zones[8], zones[9]}[s.N("zone", 8)]
		creation := time.Unix(sec, ns).In(zone)
		ttl := time.Duration(o.TTL)
		switch s.W("ttl", 3, 1, 1, 1, 1, 1) {
		case 1:
			ttl = -time.Duration(1 + s.Int64("neg", func(r *core.PRNG) int64 { return r.Int63() >> uint(r.Intn(60)) }))
		case 2:
			ttl = time.Duration(1 + s.N("sub", 999999999))
		case 3:
			ttl = time.Duration(1<<32)*time.Second + time.Duration(s.Int64("over", func(r *core.PRNG) int64 { return r.Int63() >> uint(2+r.Intn(40)) }))
		case 4:
			ttl = time.Duration(1+s.N("whole", 1<<30))*time.Second + time.Duration(1+s.N("frac", 999999999))
		case 5:
			ttl = []time.Duration{(1<<32 - 1) * time.Second, (1 << 32) * time.Second, 1<<63 - 1, -1 << 63, time.Second, time.Second - 1}[s.N("tedge", 6)]
		}
		o.TTL = ttl
		inRange := sec >= ref.Epoch && sec <= ref.Epoch+ref.MaxOffset
		either := sec == ref.Epoch+ref.MaxOffset && ns > 0
		secs := int64(ttl / time.Second)
		ttlOK := ttl == 0 || ttl >= time.Second && secs <= 1<<32-1
		frac := ttlOK && ttl%time.Second != 0
		var res string
		var bin []byte
		var created, expiry time.Time
		var phrase []string
		rn.lib(s, fmt.Sprintf("New at %d.%09d for %s", sec, ns, ttl), nil, false, func(*core.Proc) {
			res = call(func() string {
				m, err := mk.New(seedOf(seed), creation, o.opts())
				if err != nil {
					if m != nil {
						return "both"
					}
					return "refused"
				}
				created, expiry = m.CreatedAt(), m.Expiry()
				if bin, err = m.EncodePGP(nil); err != nil {
					return "no export"
				}
				if phrase, err = m.EncodeMnemonicPlaintext(); err != nil {
					return "no phrase"
				}
				return "ok"
			})
		})
		rn.relevant("C19 C20")
		what := fmt.Sprintf("New(creation %d.%09d %s, ttl %d ns)", sec, ns, zone, int64(ttl))
		switch {
		case res != "ok" && res != "refused":
			rn.bad("C19 C20 C01", "key not usable", "%s: %s", what, res)
		case res == "refused":
			if inRange && !either && ttlOK && !frac {
				p := "C19"
				if ttl != 0 {
					p = "C19 C20"
				}
				rn.bad(p, "valid time refused", "%s refused", what)
			}
		case !inRange:
			rn.bad("C19", "creation out of range accepted", "%s accepted", what)
		case !ttlOK:
			rn.bad("C20", "impossible period accepted", "%s accepted", what)
		default:
			off := uint32(sec - ref.Epoch)
			o.TTL = time.Duration(secs) * time.Second
			if !created.Equal(at(off)) {
				rn.bad("C19 C01 C03", "creation time differs", "%s: CreatedAt %s", what, created.UTC())
			}
			if ttl == 0 && !expiry.IsZero() || ttl > 0 && !expiry.Equal(at(off).Add(o.TTL)) {
				rn.bad("C20 C01 C03", "expiry differs", "%s: Expiry %s", what, expiry.UTC())
			}
			rn.checkBin(what, bin, seed, off, o.want(true, true, ""), nil)
			if e := ref.EncodePlain(seed, off); strings.Join(e, " ") != strings.Join(phrase, " ") {
				rn.bad("C19 C01", "phrase differs from specification", "%s: phrase %v, specification %v", what, phrase, e)
			}
		}
		// offsets handed to the phrase encoders
		if s.P("offset", 1, 2) {
			off := uint32(s.Int64("woff", func(r *core.PRNG) int64 {
				return []int64{0, 1, ref.MaxOffset, 1 << 31, 1<<31 + 1, 1<<32 - 1, int64(r.Uint64() & 0xffffffff), int64(r.Uint64() & 0xffffffff)}[r.Intn(8)]
			}))
			var w1, w2 []string
			var r1, r2 string
			rn.lib(s.Sub("o"), fmt.Sprintf("phrases with offset %d", off), nil, false, func(*core.Proc) {
				r1 = call(func() string {
					var err error
					w1, err = mk.EncodeMnemonicPlaintext(seedOf(seed), off)
					return errStr(err)
				})
				r2 = call(func() string {
					var err error
					w2, err = mk.EncodeMnemonicEncrypted(seedOf(seed), off, []byte("pw"), bytes.NewReader(make([]byte, 64)))
					return errStr(err)
				})
			})
			if off > ref.MaxOffset {
				if r1 != "refused" || r2 != "refused" || len(w1)+len(w2) > 0 {
					rn.bad("C19 C16", "offset out of range", "offset %d: %s, %s", off, r1, r2)
				}
			} else if r1 != "ok" || r2 != "ok" || strings.Join(w1, " ") != strings.Join(ref.EncodePlain(seed, off), " ") || strings.Join(w2, " ") != strings.Join(ref.EncodeEnc(seed, off, []byte("pw"), 0, rn.kdf), " ") {
				rn.bad("C19 C01", "phrase differs from specification", "offset %d: %s %v, %s %v", off, r1, w1, r2, w2)
			}
		}
	}
}

// ---- scenario: subkey indices ----

func scenLibIndex(rn *Run, c *Choices) {
	var seed [16]byte
	copy(seed[:], rn.seedBytes(c))
	off := rn.offset(c)
	n := 6
	type one struct {
		o    optSpec
		bin  []byte
		res  string
		mast string
	}
	var all []*one
	for i := 0; i < n; i++ {
		o := rn.optSpec(c.Sub(fmt.Sprint("t", i)))
		if len(o.Name) > 40 {
			o.Name = o.Name[:40]
		}
		for k := range o.Idx { // indices that agree in one byte are of interest
			switch c.W(fmt.Sprint("like", i, k), 3, 1, 1) {
			case 1:
				if i > 0 {
					o.Idx[k] = all[0].o.Idx[k] ^ 0x100
				}
			case 2:
				if i > 0 {
					o.Idx[k] = all[0].o.Idx[(k+1)%3]
				}
			}
		}
		all = append(all, &one{o: o})
	}
	rn.lib(c, fmt.Sprintf("%d option sets for one seed", n), nil, false, func(*core.Proc) {
		s := seedOf(seed)
		for _, x := range all {
			x.res = call(func() string {
				m, err := mk.New(s, at(off), x.o.opts())
				if err != nil {
					return err.Error()
				}
				if x.bin, err = m.EncodePGP(nil); err != nil {
					return err.Error()
				}
				x.mast = fmt.Sprintf("%x", m.Fingerprint())
				return "ok"
			})
		}
	})
	rn.relevant("C18")
	seen := map[string]string{}
	for _, x := range all {
		who := fmt.Sprintf("indices %v subkeys %v", x.o.Idx, x.o.Subs)
		if x.res != "ok" {
			rn.bad("C18 C01", "index refused", "%s: %s", who, x.res)
			continue
		}
		if x.mast != all[0].mast && all[0].res == "ok" {
			rn.bad("C18 C03 C01", "master key depends on options", "%s: master fingerprint %s, before %s", who, x.mast, all[0].mast)
		}
		blk := rn.checkBin(who, x.bin, seed, off, x.o.want(true, true, ""), nil)
		if blk == nil {
			continue
		}
		for _, k := range blk.Subs {
			t := ref.SubType(k)
			for ti, name := range ref.SubTypes {
				if name == t {
					id := fmt.Sprint(t, " ", x.o.Idx[ti])
					if old, ok := seen[string(k.Point)]; ok && old != id {
						rn.bad("C18", "subkeys coincide", "%s: %s has the public key of %s", who, id, old)
					}
					seen[string(k.Point)] = id
				}
			}
		}
	}
}

// ---- scenario: decoding and decrypting ----

func scenLibDecode(rn *Run, c *Choices) {
	k := rn.makePhrase(c.Sub("ph"))
	for i := 0; i < 4; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		words := append([]string{}, k.Words...)
		if s.P("damage", 3, 4) {
			words = rn.corrupt(s, words)
		}
		if s.P("fix", 1, 2) && len(words) > 1 { // make the checksum match
			for _, x := range ref.Words {
				t := append(append([]string{}, words[:len(words)-1]...), x)
				if _, err := ref.Decode(t); err == nil {
					words = t
					break
				}
			}
		}
		r := s.R("case")
		kind := s.N("casekind", 4)
		in := make([]string, len(words))
		for j := range words {
			in[j] = mixCase(r, words[j], kind)
		}
		if s.P("none", 1, 30) {
			in, words = nil, nil
		}
		inCopy := append([]string{}, in...)
		want, werr := ref.Decode(words)
		var tries []string
		for j, n := 0, s.N("tries", 4); j < n; j++ {
			tries = append(tries, rn.wrongPw(s, fmt.Sprint("w", j), k.Pw))
		}
		tries = append(tries, k.Pw)
		var dec *mk.DecodedMnemonic
		var res string
		var opened []string
		var seedRes, rp, re string
		var bin1, bin2 []byte
		o := optSpec{Name: "n", Subs: []string{"signing"}}
		rn.lib(s, fmt.Sprintf("decode %d words", len(words)), nil, false, func(*core.Proc) {
			res = call(func() string {
				var err error
				dec, err = mk.DecodeMnemonic(in)
				return errStr(err)
			})
			if res == "ok" {
				for _, t := range tries {
					opened = append(opened, call(func() string {
						sd, err := dec.DecryptSeed([]byte(t))
						if err != nil {
							return "refused"
						}
						return fmt.Sprintf("%x", sd.Bytes())
					}))
				}
				seedRes = call(func() string {
					sd, err := dec.Seed()
					if err != nil {
						if sd != nil {
							return "both"
						}
						return "refused"
					}
					return fmt.Sprintf("%x", sd.Bytes())
				})
			}
			rp = call(func() string {
				m, err := mk.RecoverPlaintext(in, o.opts())
				if err != nil {
					return "refused"
				}
				bin1, err = m.EncodePGP(nil)
				return errStr(err)
			})
			re = call(func() string {
				m, err := mk.RecoverEncrypted(in, []byte(k.Pw), o.opts())
				if err != nil {
					return "refused"
				}
				bin2, err = m.EncodePGP(nil)
				return errStr(err)
			})
		})
		rn.relevant("C04 C05 C13 C17")
		if strings.Join(in, " ") != strings.Join(inCopy, " ") {
			rn.bad("C17", "argument modified", "decoding %v changed the caller's words to %v", inCopy, in)
		}
		if werr != nil {
			if res != "refused" || rp != "refused" || re != "refused" {
				rn.bad("C04", "damaged phrase accepted", "%v (%v): decode %s, recover %s, %s", words, werr, res, rp, re)
			}
			continue
		}
		if res != "ok" {
			rn.bad("C04 C13 C01 C05", "valid phrase refused", "%v as %v: %s", words, in, res)
			continue
		}
		if dec.Encrypted() != want.Enc || dec.CreationOffset() != want.Offset || dec.Creation().Unix() != ref.Epoch+int64(want.Offset) {
			rn.bad("C04 C01 C19 C05", "phrase misread", "%v: encrypted %v offset %d creation %d, specification %v %d", words, dec.Encrypted(), dec.CreationOffset(), dec.Creation().Unix(), want.Enc, want.Offset)
		}
		if want.Enc && seedRes != "refused" {
			rn.bad("C05", "seed without password", "%v: Seed() gave %s for an encrypted phrase", words, seedRes)
		}
		if !want.Enc && seedRes != fmt.Sprintf("%x", want.Data) {
			rn.bad("C04 C01", "phrase misread", "%v: seed %s, specification %x", words, seedRes, want.Data)
		}
		for j, t := range tries {
			e := "refused"
			if sd, ok := want.Open([]byte(t), rn.kdf); ok {
				e = fmt.Sprintf("%x", sd)
			}
			if t == "" && want.Enc && opened[j] == "refused" {
				continue // an empty password may be refused outright
			}
			if opened[j] != e {
				rn.bad("C05 C04 C01", "password check", "attempt %d with %q on %v gave %s, specification %s", j, t, words, opened[j], e)
			}
		}
		if want.Enc && rp != "refused" {
			rn.bad("C05", "seed without password", "%v: RecoverPlaintext accepted an encrypted phrase", words)
		}
		sd, ok := want.Open([]byte(k.Pw), rn.kdf)
		switch {
		case !ok && re != "refused":
			rn.bad("C05 C04", "password check", "RecoverEncrypted(%v) gave %s, specification refused", words, re)
		case ok && re != "ok" && !(want.Enc && k.Pw == ""):
			rn.bad("C05 C01", "password check", "RecoverEncrypted(%v) gave %s, specification ok", words, re)
		case ok && re == "ok":
			rn.checkBin("RecoverEncrypted", bin2, sd, want.Offset, o.want(true, true, ""), nil)
		}
		if !want.Enc {
			if rp != "ok" {
				rn.bad("C01 C04", "valid phrase refused", "RecoverPlaintext(%v): %s", words, rp)
			} else {
				rn.checkBin("RecoverPlaintext", bin1, want.Data, want.Offset, o.want(true, true, ""), nil)
			}
		}
	}
}

// ---- scenario: exports ----

func scenLibExport(rn *Run, c *Choices) { rn.libExport(c, c.P("pw", 1, 40)) }

// scenLibProtect: exports under a password, next to the unprotected twin.
func scenLibProtect(rn *Run, c *Choices) { rn.libExport(c, true) }

func (rn *Run) libExport(c *Choices, protect bool) {
	var seed [16]byte
	copy(seed[:], rn.seedBytes(c))
	off := rn.offset(c)
	o := rn.optSpec(c)
	pw := ""
	if protect {
		pw = rn.password(c, "keypw")
		if len(o.types()) > 1 && !c.P("all", 1, 3) { // fewer secrets are faster
			o.Subs = []string{ref.SubTypes[c.N("onesub", 3)]}
		}
	}
	cert := c.P("cert", 1, 2)
	var faults []*core.Fault
	if pw != "" && c.P("rngfail", 1, 3) {
		faults = []*core.Fault{{Cat: "rng", Kind: "errno", N: int64(1 + c.N("rngat", 4)), Arg: 5}}
	}
	rng0 := len(rn.w.Secure.Log)
	var setup string
	res := make([]string, 4)
	var full, sub []byte
	var fullA, subA string
	var facts string
	var twinF, twinS, second []byte
	pw2 := pw
	if protect && c.P("pw2", 1, 2) {
		pw2 = rn.password(c, "keypw2")
	}
	p := rn.lib(c, fmt.Sprintf("exports with uid %d bytes, subkeys %v, password %v", len(o.uid()), o.Subs, pw != ""), faults, false, func(*core.Proc) {
		var m *mk.Mnemonikey
		setup = call(func() string {
			var err error
			m, err = mk.New(seedOf(seed), at(off), o.opts())
			return errStr(err)
		})
		if setup != "ok" {
			return
		}
		facts = mnkFacts(m)
		var pb []byte
		if pw != "" {
			pb = spare([]byte(pw))
		}
		which := c.N("which", 4)
		do := func(i int, f func() error) {
			res[i] = "skipped"
			if pw != "" && i != which {
				return
			}
			res[i] = call(func() string { return errStr(f()) })
		}
		do(0, func() (err error) { full, err = m.EncodePGP(pb); return })
		do(1, func() (err error) { sub, err = m.EncodeSubkeysPGP(pb, cert); return })
		do(2, func() (err error) { fullA, err = m.EncodePGPArmor(pb); return })
		do(3, func() (err error) { subA, err = m.EncodeSubkeysPGPArmor(pb, cert); return })
		if pw != "" {
			call(func() string {
				twinF, _ = m.EncodePGP(nil)
				twinS, _ = m.EncodeSubkeysPGP(nil, cert)
				return ""
			})
		}
		if pw != "" && c.P("second", 1, 3) && len(faults) == 0 {
			call(func() string {
				second, _ = m.EncodeSubkeysPGP([]byte(pw2), cert)
				return ""
			})
		}
		if pw != "" && !spareOK(pb, []byte(pw)) {
			rn.bad("C17 C07", "argument modified", "an export changed the password it was given")
		}
	})
	rng := append([]byte{}, rn.w.Secure.Log[rng0:]...)
	rn.relevant("C09 C08")
	if pw != "" {
		rn.relevant("C07")
	}
	if p.Out.Panic != "" {
		rn.bad("C09 C08 C07", "export fails", "panic: %s", p.Out.Panic)
		return
	}
	if setup != "ok" {
		rn.bad("C09 C01", "key refused", "New with uid of %d bytes: %s", len(o.uid()), setup)
		return
	}
	rngHurt := len(p.Fired) > 0
	for i, r := range res {
		if r == "skipped" {
			continue
		}
		if r == "ok" && rngHurt {
			rn.bad("C07 C10", "export without randomness", "export %d succeeded although randomness failed", i)
		}
		if r != "ok" && !rngHurt {
			rn.bad("C09 C08 C07", "export fails", "export %d: %s (uid %d bytes)", i, r, len(o.uid()))
		}
	}
	if rngHurt {
		if len(full)+len(sub)+len(fullA)+len(subA) > 0 {
			rn.bad("C07", "export without randomness", "an export returned data although randomness failed")
		}
		return
	}
	keyPw := pw
	var seenS2K []string
	judge := func(who string, bin []byte, master, cert bool) {
		w := o.want(master, cert, keyPw)
		blk := rn.checkBin(who, bin, seed, off, w, rng)
		if blk != nil && pw != "" {
			for _, k := range append([]*ref.Key{blk.Master}, blk.Subs...) {
				if k.Kind != "enc" {
					continue
				}
				for _, b := range [][]byte{k.S2K.Salt, k.S2K.IV} {
					for _, s := range seenS2K {
						if s == string(b) {
							rn.bad("C07", "salt or IV reused", "%s: salt or IV %x was already used in an earlier export", who, b)
						}
					}
					seenS2K = append(seenS2K, string(b))
				}
			}
		}
		if blk != nil {
			fps := []string{}
			for _, t := range ref.SubTypes {
				for _, k := range blk.Subs {
					if ref.SubType(k) == t {
						fps = append(fps, fmt.Sprintf("%s=%x", t, k.FP))
					}
				}
			}
			var exp time.Time
			if w.TTL > 0 {
				exp = time.Unix(int64(blk.Master.Created)+w.TTL, 0)
			}
			f := fmt.Sprint(int64(blk.Master.Created), 0, exp.IsZero(), exp.Unix(), digest(w.UID), fmt.Sprintf("%x", blk.Master.FP), fps)
			if f != facts {
				rn.bad("C09 C19 C20", "library reports differ", "%s: library reports %s, block says %s", who, facts, f)
			}
		}
	}
	unarm := func(who, a string) []byte {
		b, err := ref.Unarmor(a)
		if err != nil {
			rn.bad("C09", "invalid armor", "%s: %v", who, err)
			return nil
		}
		return b
	}
	if twinF != nil && twinS != nil {
		rn.checkBin("unprotected EncodePGP", twinF, seed, off, o.want(true, true, ""), nil)
		rn.checkBin("unprotected EncodeSubkeysPGP", twinS, seed, off, o.want(false, cert, ""), nil)
	}
	if full != nil {
		judge("EncodePGP", full, true, true)
	}
	if sub != nil {
		judge("EncodeSubkeysPGP", sub, false, cert)
	}
	if fullA != "" {
		if b := unarm("EncodePGPArmor", fullA); b != nil {
			if full != nil && !bytes.Equal(b, full) && pw == "" {
				rn.bad("C09 C03", "armor differs", "EncodePGPArmor holds other bytes than EncodePGP")
			}
			judge("EncodePGPArmor", b, true, true)
		}
	}
	if subA != "" {
		if b := unarm("EncodeSubkeysPGPArmor", subA); b != nil {
			if sub != nil && !bytes.Equal(b, sub) && pw == "" {
				rn.bad("C09 C03", "armor differs", "EncodeSubkeysPGPArmor holds other bytes than EncodeSubkeysPGP")
			}
			judge("EncodeSubkeysPGPArmor", b, false, cert)
		}
	}
	if second != nil {
		keyPw = pw2
		judge("a second protected EncodeSubkeysPGP", second, false, cert)
	}
}

// ---- scenario: odd seeds ----

func scenLibSeeds(rn *Run, c *Choices) {
	for i := 0; i < 6; i++ {
		s := c.Sub(fmt.Sprint("t", i))
		v := new(big.Int).SetBytes(s.R("v").Bytes(s.N("len", 20)))
		if s.P("edge", 1, 3) {
			v = new(big.Int).Lsh(big.NewInt(1), uint(120+s.N("sh", 12)))
			v.Sub(v, big.NewInt(int64(s.N("minus", 2))))
		}
		if s.P("neg", 1, 5) {
			v.Neg(v)
		}
		era := mk.Era([]int{0, 1, -1, 2, 15, -2147483648}[s.W("era", 10, 1, 1, 1, 1, 1)])
		orig := new(big.Int).Set(v)
		off := rn.offset(s)
		var r, ph string
		var words []string
		var b []byte
		rn.lib(s, fmt.Sprintf("NewSeed(%d, %s)", era, v), nil, false, func(*core.Proc) {
			r = call(func() string {
				sd, err := mk.NewSeed(era, v)
				if err != nil {
					return "refused"
				}
				b = sd.Bytes()
				ph = call(func() string {
					words, err = mk.EncodeMnemonicPlaintext(sd, off)
					return errStr(err)
				})
				return "ok"
			})
		})
		rn.relevant("C17 C01")
		if v.Cmp(orig) != 0 {
			rn.bad("C17", "argument modified", "NewSeed changed its argument %s to %s", orig, v)
		}
		good := era == 0 && orig.Sign() >= 0 && orig.BitLen() <= 128
		if !good {
			if r != "refused" {
				rn.bad("C01", "impossible seed accepted", "NewSeed(%d, %s): %s, phrase %s", era, orig, r, ph)
			}
			continue
		}
		var seed [16]byte
		orig.FillBytes(seed[:])
		if r != "ok" || !bytes.Equal(b, seed[:]) || ph != "ok" || strings.Join(words, " ") != strings.Join(ref.EncodePlain(seed, off), " ") {
			rn.bad("C01 C17", "seed misread", "NewSeed(%d, %s): %s, bytes %x, phrase %s %v", era, orig, r, b, ph, words)
		}
	}
}

func init() {
	register("libshared", scenLibShared)
	register("libreaders", scenLibReaders)
	register("libtimes", scenLibTimes)
	register("libindex", scenLibIndex)
	register("libdecode", scenLibDecode)
	register("libexport", scenLibExport)
	register("libprotect", scenLibProtect)
	register("libprotecttwo", scenLibProtectTogether)
	register("libseeds", scenLibSeeds)
	_ = sort.Strings
}

// ---- scenario: a long-lived program generating and encrypting repeatedly ----

func scenLibMany(rn *Run, c *Choices) {
	type draw struct {
		kind    string
		res     string
		seed    []byte
		words   []string
		from    []byte // randomness consumed meanwhile
		lo      int
		faulted bool
	}
	x := rn.libCtx(c.Sub("x"))
	n := 2 + c.N("n", 8)
	var kinds []string
	for i := 0; i < n; i++ {
		kinds = append(kinds, []string{"seed", "enc"}[c.W(fmt.Sprint("kind", i), 3, 1)])
	}
	var faults []*core.Fault
	for i, m := 0, c.W("nf", 3, 2, 1); i < m; i++ {
		faults = append(faults, &core.Fault{Cat: "rng", Kind: "errno", N: int64(1 + c.N(fmt.Sprint("at", i), n+2)), Arg: 5})
	}
	par := c.P("par", 1, 3)
	draws := make([]draw, n)
	one := func(p *core.Proc, i int) {
		d := &draws[i]
		d.kind = kinds[i]
		d.lo = len(rn.w.Secure.Log)
		fired := len(p.Fired)
		d.res = call(func() string {
			if d.kind == "seed" {
				s, err := mk.GenerateSeed(simrand.Reader)
				if err != nil {
					return "refused"
				}
				d.seed = s.Bytes()
				return "ok"
			}
			var err error
			d.words, err = mk.EncodeMnemonicEncrypted(seedOf(x.seed), x.off, []byte(x.pw), simrand.Reader)
			return errStr(err)
		})
		d.from = append([]byte{}, rn.w.Secure.Log[d.lo:]...)
		d.faulted = len(p.Fired) > fired
	}
	p := rn.lib(c, fmt.Sprintf("%d draws from system randomness", n), faults, par, func(p *core.Proc) {
		if !par {
			for i := range draws {
				one(p, i)
			}
			return
		}
		done := 0
		for i := range draws {
			i := i
			core.Go(func() {
				one(p, i)
				done++
			})
		}
		core.Block(func() bool { return done == n }, false)
	})
	rn.relevant("C21 C06 C17")
	if p.Out.Panic != "" || p.Out.Hung || p.Out.Deadlock {
		return
	}
	seen := map[string]int{}
	salts := map[uint32]int{}
	for i, d := range draws {
		if d.res != "ok" {
			if !d.faulted {
				rn.bad("C21 C06 C17", "randomness refused", "draw %d (%s) of %v: %s although no fault hit it", i, d.kind, kinds, d.res)
			}
			continue
		}
		if d.kind == "seed" {
			if !par && !windowIn(d.from, d.seed) {
				rn.bad("C21", "seed not drawn", "draw %d of %v: seed %x is not among the %d random bytes consumed by it", i, kinds, d.seed, len(d.from))
			}
			if j, ok := seen[string(d.seed)]; ok {
				rn.bad("C21", "seed repeated", "draws %d and %d of %v gave the same seed %x", j, i, kinds, d.seed)
			}
			seen[string(d.seed)] = i
			continue
		}
		ph, err := ref.Decode(d.words)
		if err != nil || !ph.Enc {
			rn.bad("C06 C01", "bad phrase", "draw %d: %v: %v", i, d.words, err)
			continue
		}
		if !par && !saltFrom(d.from, ph.Salt) {
			rn.bad("C06", "salt not drawn", "draw %d of %v: salt %#x is not among the %d random bytes consumed by it", i, kinds, ph.Salt, len(d.from))
		}
		salts[ph.Salt]++
	}
	for s, k := range salts {
		if k > 2 { // 19 random bits: three alike among ten have probability below 1e-8
			rn.bad("C06", "salt reused", "%d of %d encryptions share the salt %#x", k, n, s)
		}
	}
}

func init() { register("libmany", scenLibMany) }

// scenLibProtectTogether: protected exports running at the same time, of one
// key or of two, each under its own password.
func scenLibProtectTogether(rn *Run, c *Choices) {
	n := 2
	type job struct {
		seed [16]byte
		off  uint32
		o    optSpec
		pw   string
		bin  []byte
		res  string
	}
	jobs := make([]*job, n)
	same := c.P("same", 1, 2)
	cert := c.P("cert", 1, 2)
	for i := range jobs {
		j := &job{}
		s := c.Sub(fmt.Sprint("j", i))
		if i > 0 && same {
			*j = *jobs[0]
		} else {
			copy(j.seed[:], rn.seedBytes(s))
			j.off = rn.offset(s)
			j.o = rn.optSpec(s)
			j.o.Subs = []string{ref.SubTypes[s.N("onesub", 3)]}
		}
		j.pw = rn.password(s, "keypw")
		jobs[i] = j
	}
	rng0 := len(rn.w.Secure.Log)
	setup := ""
	p := rn.lib(c.Sub("together"), fmt.Sprintf("%d protected exports at once", n), nil, true, func(*core.Proc) {
		ms := make([]*mk.Mnemonikey, n)
		for i, j := range jobs {
			if i > 0 && same {
				ms[i] = ms[0]
				continue
			}
			setup += call(func() string {
				m, err := mk.New(seedOf(j.seed), at(j.off), j.o.opts())
				if err != nil {
					return "setup: " + err.Error()
				}
				ms[i] = m
				return ""
			})
		}
		if setup != "" {
			return
		}
		done := 0
		for i, j := range jobs {
			core.Go(func() {
				j.res = call(func() string {
					var err error
					j.bin, err = ms[i].EncodeSubkeysPGP([]byte(j.pw), cert)
					return errStr(err)
				})
				done++
			})
		}
		core.Block(func() bool { return done == n }, false)
	})
	rn.relevant("C07 C17")
	if p.Out.Panic != "" || p.Out.Hung || p.Out.Deadlock {
		return
	}
	if setup != "" {
		rn.bad("C09 C01", "key refused", "%s", setup)
		return
	}
	rng := append([]byte{}, rn.w.Secure.Log[rng0:]...)
	for i, j := range jobs {
		if j.res != "ok" {
			rn.bad("C07 C17", "export fails", "one of two protected exports at once: %s", j.res)
			continue
		}
		rn.checkBin(fmt.Sprint("concurrent protected export ", i), j.bin, j.seed, j.off, j.o.want(false, cert, j.pw), rng)
	}
}
