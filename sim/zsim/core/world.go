package core

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// PRNG is a splitmix64 generator: the only source of choices.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed} }

// SubSeed derives an independent seed from a seed and labels.
func SubSeed(seed uint64, labels ...string) uint64 {
	h := sha256.New()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	for _, l := range labels {
		h.Write([]byte{0})
		h.Write([]byte(l))
	}
	return binary.BigEndian.Uint64(h.Sum(nil))
}

func (r *PRNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *PRNG) Int63() int64 { return int64(r.Uint64() >> 1) }
func (r *PRNG) Seed(s int64) { r.s = uint64(s) }
func (r *PRNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *PRNG) Float() float64        { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *PRNG) Chance(p float64) bool { return r.Float() < p }
func (r *PRNG) Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, r.Intn(i+1))
	}
}

// Geom draws a geometric gap with success probability p.
func (r *PRNG) Geom(p float64) int64 {
	if p >= 1 {
		return 0
	}
	n := int64(0)
	for n < 1_000_000 && r.Float() >= p {
		n++
		if p < 0.001 { // coarse steps keep this cheap
			n += int64(r.Intn(int(1/p))) / 2
		}
	}
	return n
}
func (r *PRNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64() >> 24)
	}
	return b
}

// Fault is one injected fault: it applies to the N-th operation (1-based) of
// category Cat in the process it is attached to.
type Fault struct {
	Cat  string `json:"cat"`
	N    int64  `json:"n"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
	Path string `json:"path,omitempty"`
	Data string `json:"data,omitempty"`

	fired bool
}

// World is everything outside the process.
type World struct {
	Mono    int64 // simulated monotonic nanoseconds
	Wall    int64 // wall clock = Wall + Mono (unix nanoseconds)
	FS      *FS
	TTY     *TTY
	Secure  *Stream // system randomness
	Ambient *PRNG   // math/rand, map order and the like
	RealKDF bool

	s      sched
	proc   *Proc
	driver chan struct{}
	timers []*Timer
	tseq   int64

	TraceOn bool
	Events  []string
	hash    uint64
	nEvents int64

	FaultCount map[string]int
	Argon      []ArgonCall
}

// ArgonCall records the arguments of one password hash evaluation.
type ArgonCall struct {
	Mode           string
	Time, Mem      uint32
	Threads        uint8
	KeyLen         uint32
	Password, Salt []byte
}

func NewWorld(seed uint64) *World {
	w := &World{driver: make(chan struct{}), FS: NewFS(), FaultCount: map[string]int{}, hash: 14695981039346656037}
	w.s.hash = 14695981039346656037
	w.Ambient = NewPRNG(SubSeed(seed, "ambient"))
	w.Secure = NewStream(SubSeed(seed, "secure"))
	return w
}

// Clone copies the state that outlives a process.
func (w *World) Clone() *World {
	c := &World{Mono: w.Mono, Wall: w.Wall, RealKDF: w.RealKDF, driver: make(chan struct{}), FaultCount: map[string]int{}, hash: w.hash}
	c.s.hash = w.s.hash
	c.FS = &FS{Nodes: map[string]*Inode{}, next: w.FS.next}
	seen := map[*Inode]*Inode{}
	for p, n := range w.FS.Nodes {
		m := seen[n]
		if m == nil {
			x := *n
			x.Data = append([]byte{}, n.Data...)
			m = &x
			seen[n] = m
		}
		c.FS.Nodes[p] = m
	}
	a, r := *w.Ambient, *w.Secure.r
	c.Ambient = &a
	c.Secure = &Stream{r: &r, Fixed: append([]byte{}, w.Secure.Fixed...), Log: append([]byte{}, w.Secure.Log...)}
	return c
}

// ResetSchedule starts a new numbering of scheduling decisions.
func (w *World) ResetSchedule() {
	w.s.decisions, w.s.nextDev, w.s.prob, w.s.rng, w.s.replay, w.s.Devs = 0, 0, 0, nil, nil, nil
	w.timers = nil
}

// SearchSchedule lets the scheduler deviate with probability prob per decision.
func (w *World) SearchSchedule(seed uint64, prob float64) {
	w.s.rng = NewPRNG(seed)
	w.s.prob = prob
	w.s.replay = nil
	if prob > 0 {
		w.s.nextDev = w.s.decisions + w.s.rng.Geom(prob)
	}
}

// ReplaySchedule fixes every scheduling decision.
func (w *World) ReplaySchedule(devs []Dev) {
	w.s.replay = map[int64]int{}
	for _, d := range devs {
		w.s.replay[d.D] = d.C
	}
}
func (w *World) Deviations() []Dev         { return w.s.Devs }
func (w *World) ScheduleHash() uint64      { return w.s.hash }
func (w *World) Decisions() (int64, int64) { return w.s.decisions, w.s.switches }
func (w *World) Hash() uint64              { return w.hash ^ w.s.hash ^ uint64(w.nEvents) }

// Trace records an event; it draws no randomness and reads no real clock.
func (w *World) Trace(kind, detail string) {
	w.nEvents++
	h := w.hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	for i := 0; i < len(detail); i++ {
		h = (h ^ uint64(detail[i])) * 1099511628211
	}
	h = (h ^ uint64(w.Mono)) * 1099511628211
	w.hash = h
	if w.TraceOn {
		id := -1
		if cur != nil {
			id = cur.id
		}
		w.Events = append(w.Events, fmt.Sprintf("%12.6fs task=%d %s %s", float64(w.Mono)/1e9, id, kind, detail))
	}
}

func (p *Proc) fire(what string) {
	p.Fired = append(p.Fired, what)
	p.W.FaultCount[what]++
	p.W.Trace("fault", what)
}

// NewProc prepares a process; Run starts it.
func (w *World) NewProc(args []string) *Proc {
	return &Proc{W: w, Args: args, Env: map[string]string{}, NCPU: 8, Cwd: "/work", Umask: 022,
		UID: 1000, stepLimit: 3_000_000, Ops: map[string]int{}, Loc: time.UTC}
}

func (p *Proc) SetStepLimit(n int64) { p.stepLimit = n }
func (p *Proc) SetKillStep(n int64)  { p.killStep = n }
func (p *Proc) Steps() int64         { return p.steps }

// Enter is called by every simulated system call. It yields, counts the
// operation, advances time and returns the fault to apply, if any.
func Enter(cat, op string) *Fault {
	Yield()
	t := cur
	p := t.proc
	if p.dead {
		return nil
	}
	w := p.W
	w.Mono += 1000
	p.Ops[cat]++
	p.Ops["any"]++
	w.Trace(cat, op)
	if p.Ops["any"] > 1_000_000 || p.Ops["kdf"] > 3000 { // no command needs that many
		p.Out.Hung = true
		p.end(-1)
		exitDead()
	}
	var hit *Fault
	for _, f := range p.Faults {
		if f.fired || (f.Cat != cat && f.Cat != "any") {
			continue
		}
		if int64(p.Ops[f.Cat]) != f.N {
			continue
		}
		switch f.Kind {
		case "kill", "sigint", "jump", "stall", "mkfile", "mkdir", "rmfile", "hup":
			f.fired = true
			if !w.canApply(f) {
				continue
			}
			p.fire(f.Cat + ":" + f.Kind)
			w.applyAmbient(p, f)
			if p.dead {
				exitDead()
			}
		default:
			if hit == nil {
				f.fired = true
				hit = f
			}
		}
	}
	return hit
}

// Hit records that an operation fault actually took effect.
func (p *Proc) Hit(f *Fault) { p.fire(f.Cat + ":" + f.Kind) }

// canApply: another program creates only what is absent and removes only what
// is there.
func (w *World) canApply(f *Fault) bool {
	switch f.Kind {
	case "mkfile", "mkdir":
		d, ok := w.FS.Nodes[path.Dir(f.Path)]
		return w.FS.Nodes[f.Path] == nil && ok && d.Mode.IsDir()
	case "rmfile":
		n := w.FS.Nodes[f.Path]
		return n != nil && !n.Mode.IsDir()
	}
	return true
}

func (w *World) applyAmbient(p *Proc, f *Fault) {
	switch f.Kind {
	case "kill":
		p.Kill("KILL")
	case "sigint":
		p.Signal(syscall.SIGINT)
	case "hup":
		p.Signal(syscall.SIGHUP)
	case "jump":
		w.Wall += f.Arg
	case "stall":
		w.Mono += f.Arg
		w.dueTimers()
	case "mkfile": // another program creates a file
		w.FS.Put(f.Path, []byte(f.Data), 0644)
	case "mkdir":
		w.FS.MkdirAll(f.Path, 0755)
	case "rmfile":
		w.FS.Del(f.Path)
	}
}

// ErrnoOf maps a fault to an errno.
func ErrnoOf(f *Fault) error {
	if f == nil {
		return nil
	}
	if f.Arg != 0 {
		return syscall.Errno(f.Arg)
	}
	return syscall.EIO
}

// ---- clock and timers ----

// Timer is a simulated timer.
type Timer struct {
	At      int64
	seq     int64
	Fn      func()
	stopped bool
	fired   bool
}

func (w *World) AddTimer(d time.Duration, fn func()) *Timer {
	w.tseq++
	if d < 0 {
		d = 0
	}
	t := &Timer{At: w.Mono + int64(d), seq: w.tseq, Fn: fn}
	w.timers = append(w.timers, t)
	sort.SliceStable(w.timers, func(i, j int) bool {
		if w.timers[i].At != w.timers[j].At {
			return w.timers[i].At < w.timers[j].At
		}
		return w.timers[i].seq < w.timers[j].seq
	})
	return t
}

// Stop reports whether the timer was still pending.
func (t *Timer) Stop() bool {
	was := !t.stopped && !t.fired
	t.stopped = true
	return was
}

func (w *World) dueTimers() {
	for len(w.timers) > 0 && w.timers[0].At <= w.Mono {
		t := w.timers[0]
		w.timers = w.timers[1:]
		if !t.stopped {
			t.fired = true
			t.Fn()
		}
	}
}

func (w *World) fireNextTimer() bool {
	for len(w.timers) > 0 {
		t := w.timers[0]
		w.timers = w.timers[1:]
		if t.stopped {
			continue
		}
		if t.At > w.Mono {
			w.Mono = t.At
		}
		t.fired = true
		w.Trace("timer", "")
		t.Fn()
		return true
	}
	return false
}

// Sleep suspends the current task for d of simulated time.
func Sleep(d time.Duration) {
	Yield()
	if Dead() {
		return
	}
	w := cur.proc.W
	woke := false
	w.AddTimer(d, func() { woke = true })
	Block(func() bool { return woke }, false)
}

// NowNS reads the simulated wall clock.
func NowNS() int64 {
	if W == nil {
		return 1700000000_000000000
	}
	if cur != nil && !cur.proc.dead {
		Enter("clock", "now")
		if cur.proc.dead {
			exitDead()
		}
	}
	t := W.Wall + W.Mono
	if cur != nil {
		cur.proc.ClockReads = append(cur.proc.ClockReads, t)
	}
	return t
}

// ---- randomness ----

// Stream is the simulated system randomness: an endless deterministic stream
// whose consumed bytes are recorded.
type Stream struct {
	r     *PRNG
	Fixed []byte // bytes served first
	Log   []byte
}

func NewStream(seed uint64) *Stream { return &Stream{r: NewPRNG(seed)} }

func (s *Stream) Fill(p []byte) {
	for i := range p {
		if len(s.Fixed) > 0 {
			p[i] = s.Fixed[0]
			s.Fixed = s.Fixed[1:]
		} else {
			p[i] = byte(s.r.Uint64() >> 32)
		}
	}
	s.Log = append(s.Log, p...)
}

// ReadRandom is one read of the system randomness source.
func ReadRandom(b []byte) (int, error) {
	if Dead() {
		return len(b), nil
	}
	p := cur.proc
	f := Enter("rng", fmt.Sprintf("read %d", len(b)))
	if p.dead {
		exitDead()
	}
	if f != nil && f.Kind == "errno" {
		p.Hit(f)
		return 0, ErrnoOf(f)
	}
	p.W.Secure.Fill(b)
	return len(b), nil
}

// ---- signals ----

type sigReg struct {
	ch   chan<- syscall.Signal
	send func(syscall.Signal)
	set  map[syscall.Signal]bool
	all  bool
	key  any
	ign  bool
}

// SigNotify registers a handler.
func SigNotify(key any, all bool, sigs []syscall.Signal, send func(syscall.Signal)) {
	if Dead() {
		return
	}
	p := cur.proc
	var r *sigReg
	for _, x := range p.sigs {
		if x.key == key {
			r = x
		}
	}
	if r == nil {
		r = &sigReg{key: key, set: map[syscall.Signal]bool{}, send: send}
		p.sigs = append(p.sigs, r)
	}
	r.all = r.all || all
	for _, s := range sigs {
		r.set[s] = true
	}
}

func SigStop(key any) {
	if Dead() {
		return
	}
	p := cur.proc
	for i, x := range p.sigs {
		if x.key == key {
			p.sigs = append(p.sigs[:i:i], p.sigs[i+1:]...)
			return
		}
	}
}

func SigReset() {
	if !Dead() {
		cur.proc.sigs = nil
	}
}

// SigIgnore makes the process ignore signals.
func SigIgnore(all bool, sigs []syscall.Signal) {
	if Dead() {
		return
	}
	r := &sigReg{key: new(int), set: map[syscall.Signal]bool{}, ign: true, all: all, send: func(syscall.Signal) {}}
	for _, s := range sigs {
		r.set[s] = true
	}
	cur.proc.sigs = append(cur.proc.sigs, r)
}

// Signal delivers a signal to the process.
func (p *Proc) Signal(s syscall.Signal) {
	if p.dead {
		return
	}
	p.W.Trace("signal", s.String())
	handled := false
	for _, r := range p.sigs {
		if r.all || r.set[s] {
			handled = true
			r.send(s)
		}
	}
	if handled {
		waiting := false
		for _, t := range p.tasks {
			if !t.done && t.onTTY && p.W.TTY != nil && !p.W.TTY.readable() {
				waiting = true
			}
		}
		if !waiting {
			p.Out.Early = true
		}
		return
	}
	if s == syscall.SIGHUP && p.NoHup {
		return
	}
	switch s {
	case syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGURG, syscall.SIGTSTP, syscall.SIGCONT:
		return
	}
	p.Kill(sigName(s))
}

func sigName(s syscall.Signal) string {
	switch s {
	case syscall.SIGINT:
		return "INT"
	case syscall.SIGHUP:
		return "HUP"
	case syscall.SIGPIPE:
		return "PIPE"
	case syscall.SIGQUIT:
		return "QUIT"
	case syscall.SIGTERM:
		return "TERM"
	}
	return strings.ToUpper(s.String())
}

// Perm returns a permutation of 0..n-1.
func (r *PRNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
