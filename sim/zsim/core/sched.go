// Package core is the simulator: a single-token cooperative scheduler, a
// discrete-event clock, and the simulated world (filesystem, terminal, streams,
// randomness, signals) in which rewritten mnemonikey code runs.
//
// Exactly one goroutine ("task") holds the token at any time; which one runs
// next, every delay and every fault is decided by the World from its plan.
package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

// Task is one simulated thread of the simulated process.
type Task struct {
	id    int
	name  string
	proc  *Proc
	wake  chan struct{}
	ready func() bool // nil: runnable; otherwise blocked until it holds
	onTTY bool        // blocked reading the terminal (accepts user input)
	done  bool
	die   bool
	// channel wait state
	cases  []*chanCase
	chosen int
	doneCh chan struct{}
}

// Outcome of a simulated process.
type Outcome struct {
	Exited   bool
	Code     int
	Killed   bool   // killed by the simulator (crash) or by an unhandled signal
	Signal   string // name of the fatal signal, if any
	Panic    string // panic text, if the process panicked
	Hung     bool   // exceeded its work budget
	Spin     string // hung reading a terminal that is gone: the mode it was in
	Deadlock bool   // nothing can ever run again (not waiting for input)
	Waiting  bool   // waiting for user input that will never come
	Early    bool   // caught an interrupt while it was not (yet) waiting for the terminal
	Steps    int64
	MonoNS   int64
}

// Proc is the simulated process.
type Proc struct {
	W          *World
	Args       []string
	Env        map[string]string
	EnvAny     string // value of variables not in Env, if not empty
	NoHup      bool   // hangup signals are ignored
	NCPU       int
	Loc        *time.Location
	Cwd        string
	Umask      uint32
	UID        int
	Out        Outcome
	Fds        [3]*File
	ClockReads []int64 // wall clock values the process obtained

	tasks     []*Task
	steps     int64
	nextStop  int64
	stepLimit int64
	killStep  int64
	dead      bool
	deadSteps int64
	nextTask  int
	sigs      []*sigReg
	Ops       map[string]int // operation counters per category
	Faults    []*Fault
	Fired     []string // faults that fired
	ender     *Task
	nextFd    int
	extraFd   map[int]*File
}

var cur *Task
var W *World

type sched struct {
	decisions int64
	nextDev   int64
	prob      float64
	rng       *PRNG
	replay    map[int64]int
	Devs      []Dev
	switches  int64
	hash      uint64
}

// Dev is one scheduling decision that deviates from the default.
type Dev struct {
	D int64 `json:"d"`
	C int   `json:"c"`
}

func (s *sched) note(a, b int64) {
	s.hash = (s.hash ^ uint64(a)) * 1099511628211
	s.hash = (s.hash ^ uint64(b)) * 1099511628211
}

// choose picks an index in [0,n), default 0. forced is true when the current
// task cannot continue.
func (s *sched) choose(n int, forced bool) int {
	d := s.decisions
	s.decisions++
	if n <= 1 {
		return 0
	}
	if s.replay != nil {
		c := s.replay[d]
		if c >= n {
			c = c % n
		}
		if c != 0 {
			s.Devs = append(s.Devs, Dev{d, c})
		}
		return c
	}
	if s.prob <= 0 {
		return 0
	}
	c := 0
	if forced {
		c = s.rng.Intn(n)
	} else if d >= s.nextDev {
		c = 1 + s.rng.Intn(n-1)
		s.nextDev = d + 1 + s.rng.Geom(s.prob)
	}
	if c != 0 {
		s.Devs = append(s.Devs, Dev{d, c})
	}
	return c
}

// Yield is inserted before every statement of the code under test.
func Yield() {
	t := cur
	if t == nil {
		return
	}
	p := t.proc
	p.steps++
	if p.steps >= p.nextStop {
		p.slowYield(t)
	}
}

func (p *Proc) slowYield(t *Task) {
	if p.dead {
		p.deadSteps++
		if p.deadSteps > 2_000_000 {
			p.deadSteps = 0
			runtime.Goexit()
		}
		return
	}
	if p.killStep > 0 && p.steps >= p.killStep {
		p.killStep = 0
		p.fire("step:kill")
		p.Kill("KILL")
		runtime.Goexit()
	}
	if p.steps >= p.stepLimit {
		p.Out.Hung = true
		p.end(-1)
		runtime.Goexit()
	}
	// event-driven faults at a step
	for _, f := range p.Faults {
		if f.Cat == "step" && !f.fired && p.steps >= f.N {
			f.fired = true
			if !p.W.canApply(f) {
				continue
			}
			p.fire("step:" + f.Kind)
			p.W.applyAmbient(p, f)
			if p.dead {
				runtime.Goexit()
			}
		}
	}
	if p.live() > 1 {
		run := p.runnable(t)
		if len(run) > 1 {
			c := p.W.s.choose(len(run), false)
			if run[c] != t {
				p.W.switchFrom(t, run[c])
			}
		}
	}
	p.setStop()
}

func (p *Proc) setStop() {
	if p.dead {
		p.nextStop = 0
		return
	}
	if p.live() > 1 {
		p.nextStop = 0
		return
	}
	n := p.stepLimit
	if p.killStep > 0 && p.killStep < n {
		n = p.killStep
	}
	for _, f := range p.Faults {
		if f.Cat == "step" && !f.fired && f.N < n {
			n = f.N
		}
	}
	p.nextStop = n
}

func (p *Proc) live() int {
	n := 0
	for _, t := range p.tasks {
		if !t.done {
			n++
		}
	}
	return n
}

// runnable returns the tasks that can run, first (the current one) first.
func (p *Proc) runnable(first *Task) []*Task {
	var out []*Task
	if first != nil && !first.done && first.isReady() {
		out = append(out, first)
	}
	for _, t := range p.tasks {
		if t != first && !t.done && t.isReady() {
			out = append(out, t)
		}
	}
	return out
}

func (t *Task) isReady() bool { return t.ready == nil || t.ready() }

func (w *World) switchFrom(t, n *Task) {
	w.s.switches++
	w.s.note(w.s.decisions, int64(n.id))
	w.Trace("switch", fmt.Sprintf("%s->%s", t.name, n.name))
	cur = n
	n.ready = nil
	n.wake <- struct{}{}
	if t.done {
		return
	}
	<-t.wake
	if t.die {
		runtime.Goexit()
	}
	cur = t
}

// Block suspends the current task until ready holds.
func Block(ready func() bool, onTTY bool) {
	t := cur
	p := t.proc
	if p.dead {
		runtime.Goexit()
	}
	if ready() && p.live() == 1 {
		return
	}
	t.ready = ready
	t.onTTY = onTTY
	n := p.W.pick(p, t)
	if n == nil { // process ended while waiting
		runtime.Goexit()
	}
	if n == t {
		t.ready = nil
	} else {
		p.W.switchFrom(t, n)
	}
	t.ready = nil
	t.onTTY = false
	p.setStop()
}

// pick chooses the next task to run, advancing time and delivering input as
// needed. It returns nil if the process ended.
func (w *World) pick(p *Proc, first *Task) *Task {
	for {
		if p.dead {
			return nil
		}
		run := p.runnable(first)
		if len(run) > 0 {
			return run[w.s.choose(len(run), true)]
		}
		if !w.advance(p) {
			return nil
		}
	}
}

// advance makes something happen when nothing is runnable. Returns false if
// the process was ended.
func (w *World) advance(p *Proc) bool {
	// 1. the user types when the program waits for the terminal
	for _, t := range p.tasks {
		if !t.done && t.onTTY {
			if w.TTY != nil && w.TTY.deliverNext(p) {
				return !p.dead
			}
		}
	}
	// 2. timers
	if w.fireNextTimer() {
		return true
	}
	// 3. nothing left
	for _, t := range p.tasks {
		if !t.done && t.onTTY {
			p.Out.Waiting = true
			p.end(-1)
			return false
		}
	}
	p.Out.Deadlock = true
	p.end(-1)
	return false
}

// Go starts a new simulated thread.
func Go(fn func()) {
	if cur == nil {
		panic("sim: goroutine started outside a simulated process")
	}
	p := cur.proc
	if p.dead {
		return
	}
	p.spawn("", fn)
	p.setStop()
	Yield()
}

// Spawn starts a named thread (used by the harness and by shims).
func (p *Proc) Spawn(name string, fn func()) *Task { t := p.spawn(name, fn); p.setStop(); return t }

func (p *Proc) spawn(name string, fn func()) *Task {
	t := &Task{id: p.nextTask, name: name, proc: p, wake: make(chan struct{}), doneCh: make(chan struct{})}
	if t.name == "" {
		t.name = fmt.Sprintf("t%d", t.id)
	}
	p.nextTask++
	p.tasks = append(p.tasks, t)
	main := len(p.tasks) == 1
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			w := p.W
			if r != nil && !p.dead {
				p.panicExit(r)
			}
			t.done = true
			if p.dead {
				close(t.doneCh)
				return
			}
			if main {
				p.end(0)
				close(t.doneCh)
				return
			}
			close(t.doneCh)
			p.setStop()
			n := w.pick(p, nil)
			if n != nil {
				w.switchFrom(t, n)
			}
		}()
		if t.die {
			return
		}
		cur = t
		fn()
	}()
	return t
}

// end marks the process as finished and returns the token to the driver.
func (p *Proc) end(code int) {
	if p.dead {
		return
	}
	p.dead = true
	p.nextStop = 0
	p.Out.Exited = code >= 0 && !p.Out.Killed
	p.Out.Code = code & 0xff // what the parent sees
	p.Out.Steps = p.steps
	p.Out.MonoNS = p.W.Mono
	p.ender = cur
	p.W.driver <- struct{}{}
}

// Exit ends the process with a status.
func (p *Proc) Exit(code int) {
	if p.dead {
		runtime.Goexit()
	}
	p.W.Trace("exit", fmt.Sprint(code))
	p.end(code & 0xff)
	runtime.Goexit()
}

// Kill ends the process as by a fatal signal. The caller must Goexit if it is
// the current task.
func (p *Proc) Kill(sig string) {
	if p.dead {
		return
	}
	p.W.Trace("kill", sig)
	p.Out.Killed = true
	p.Out.Signal = sig
	p.end(-1)
}

func (p *Proc) panicExit(r any) {
	msg := ""
	switch v := r.(type) {
	case error:
		msg = v.Error()
	case fmt.Stringer:
		msg = v.String()
	default:
		msg = fmt.Sprintf("%v", v)
	}
	if SimBug != nil {
		if b, ok := r.(Unsupported); ok {
			SimBug("unsupported operation: " + string(b))
		}
	}
	p.Out.Panic = msg
	if DebugPanics {
		println(string(debug.Stack()))
	}
	p.W.Trace("panic", msg)
	if f := p.Fds[2]; f != nil {
		f.rawAppend([]byte("panic: " + msg + "\n\ngoroutine 1 [running]:\n"))
	}
	p.end(2)
}

// DebugPanics prints stacks of simulated panics.
var DebugPanics bool

// SimBug is called when the code under test uses something the simulator does
// not model; the harness must stop with an error, never report a violation.
var SimBug func(string)

// Unsupported is the panic value for unmodelled operations.
type Unsupported string

func NotSupported(what string) { panic(Unsupported(what)) }

// Run executes the process to its end. It is called by the driver goroutine.
func (p *Proc) Run(main func()) *Outcome {
	w := p.W
	w.proc = p
	p.setStop()
	t := p.spawn("main", main)
	p.setStop()
	for _, h := range procStart {
		h(p)
	}
	saved := time.Local
	if p.Loc != nil {
		time.Local = p.Loc
	}
	cur = t
	t.wake <- struct{}{}
	<-w.driver
	<-p.ender.doneCh // its deferred calls see a dead process
	// reap every task; each runs its deferred calls against a dead process
	for i := 0; i < len(p.tasks); i++ {
		t := p.tasks[i]
		select {
		case <-t.doneCh:
			continue
		default:
		}
		t.die = true
		cur = t
		t.wake <- struct{}{}
		<-t.doneCh
	}
	cur = nil
	time.Local = saved
	w.proc = nil
	return &p.Out
}

var procStart []func(*Proc)

// OnProcStart registers a shim hook that re-creates per-process state.
func OnProcStart(f func(*Proc)) { procStart = append(procStart, f) }

// Cur returns the current process (nil outside a simulation).
func Cur() *Proc {
	if cur == nil {
		return nil
	}
	return cur.proc
}

// CurTaskID identifies the running thread.
func CurTaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Dead reports whether the current process has already ended; shims must then
// have no effect.
func Dead() bool { return cur == nil || cur.proc.dead }

// ---- channels ----

type chanCase struct {
	ptr   unsafe.Pointer
	send  bool
	unbuf bool
	val   any       // value offered by a blocked sender
	put   func(any) // hands a value to a blocked receiver
	ready func() bool
	do    func()
}

type hchanHead struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	_        uint16
	closed   uint32
}

func init() {
	c := make(chan int, 3)
	c <- 1
	h := (*hchanHead)(chanPtr(c))
	ok := h.qcount == 1 && h.dataqsiz == 3 && h.closed == 0
	close(c)
	if !ok || !chanClosed(chanPtr(c)) {
		// layout of the runtime's channel header changed: probe for the flag
		panic("sim: unexpected runtime channel layout")
	}
}

func chanPtr[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func chanClosed(p unsafe.Pointer) bool       { return p != nil && (*hchanHead)(p).closed != 0 }

// Case is one alternative of a select.
type Case interface{ c() *chanCase }

type RecvOp[T any] struct {
	Val T
	Ok  bool
	cc  *chanCase
}

func (r *RecvOp[T]) c() *chanCase { return r.cc }

type SendOp struct{ cc *chanCase }

func (s *SendOp) c() *chanCase { return s.cc }

// findPeer returns a task blocked on the complementary operation.
func findPeer(ptr unsafe.Pointer, send bool) (*Task, int) {
	for _, t := range cur.proc.tasks {
		if t.done || t == cur || t.chosen >= 0 {
			continue
		}
		for i, c := range t.cases {
			if c.ptr == ptr && c.unbuf && c.send == send {
				return t, i
			}
		}
	}
	return nil, -1
}

func RecvCase[T any](ch <-chan T) *RecvOp[T] {
	r := &RecvOp[T]{}
	bch := *(*chan T)(unsafe.Pointer(&ch))
	ptr := chanPtr(bch)
	c := &chanCase{ptr: ptr, unbuf: cap(ch) == 0}
	c.ready = func() bool {
		if ptr == nil {
			return false
		}
		if len(bch) > 0 || chanClosed(ptr) {
			return true
		}
		if c.unbuf {
			t, _ := findPeer(ptr, true)
			return t != nil
		}
		return false
	}
	c.put = func(v any) {
		r.Ok = true
		if v != nil {
			r.Val = v.(T)
		}
	}
	c.do = func() {
		if len(bch) == 0 && !chanClosed(ptr) && c.unbuf {
			t, i := findPeer(ptr, true)
			c.put(t.cases[i].val)
			t.chosen = i
			return
		}
		select {
		case r.Val, r.Ok = <-bch:
		default:
			panic("sim: recv not ready")
		}
	}
	r.cc = c
	return r
}

func SendCase[T any](ch chan<- T) func(T) *SendOp {
	bch := *(*chan T)(unsafe.Pointer(&ch))
	ptr := chanPtr(bch)
	return func(v T) *SendOp {
		c := &chanCase{ptr: ptr, send: true, unbuf: cap(bch) == 0, val: v}
		c.ready = func() bool {
			if ptr == nil {
				return false
			}
			if chanClosed(ptr) {
				return true
			}
			if c.unbuf {
				t, _ := findPeer(ptr, false)
				return t != nil
			}
			return len(bch) < cap(bch)
		}
		c.do = func() {
			if chanClosed(ptr) {
				panic(plainError("send on closed channel"))
			}
			if c.unbuf {
				t, i := findPeer(ptr, false)
				t.cases[i].put(v)
				t.chosen = i
				return
			}
			bch <- v
		}
		return &SendOp{c}
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }

// Select performs one ready case and returns its index (-1: default).
func Select(hasDefault bool, cases ...Case) int {
	if cur == nil {
		panic("sim: channel operation outside a simulated process")
	}
	Yield()
	t := cur
	p := t.proc
	if p.dead {
		runtime.Goexit()
	}
	pickReady := func() int {
		var rs []int
		for i, c := range cases {
			if c.c().ready() {
				rs = append(rs, i)
			}
		}
		if len(rs) == 0 {
			return -1
		}
		return rs[p.W.s.choose(len(rs), true)]
	}
	if i := pickReady(); i >= 0 {
		cases[i].c().do()
		p.setStop()
		Yield()
		return i
	}
	if hasDefault {
		return -1
	}
	t.cases = make([]*chanCase, len(cases))
	for i, c := range cases {
		t.cases[i] = c.c()
	}
	t.chosen = -1
	Block(func() bool {
		if t.chosen >= 0 {
			return true
		}
		if t == cur {
			for _, c := range cases {
				if c.c().ready() {
					return true
				}
			}
			return false
		}
		// evaluated by another task: peers can only complete us themselves
		for _, c := range t.cases {
			if c.ptr == nil {
				continue
			}
			if chanClosed(c.ptr) {
				return true
			}
			h := (*hchanHead)(c.ptr)
			if !c.unbuf && ((c.send && h.qcount < h.dataqsiz) || (!c.send && h.qcount > 0)) {
				return true
			}
		}
		return false
	}, false)
	i := t.chosen
	if i < 0 {
		t.cases = nil
		i = pickReady()
		if i < 0 {
			panic("sim: select woken without a ready case")
		}
		cases[i].c().do()
	}
	t.cases = nil
	t.chosen = -1
	return i
}

func Recv[T any](ch <-chan T) T {
	r := RecvCase(ch)
	Select(false, r)
	return r.Val
}

func Recv2[T any](ch <-chan T) (T, bool) {
	r := RecvCase(ch)
	Select(false, r)
	return r.Val, r.Ok
}

func SendTo[T any](ch chan<- T) func(T) {
	mk := SendCase(ch)
	return func(v T) { Select(false, mk(v)) }
}

func Close[T any](ch chan<- T) {
	Yield()
	if Dead() {
		return
	}
	close(ch)
	cur.proc.setStop()
	Yield()
}

// ---- maps ----

// MapKeys returns the keys of m in an order decided by the ambient random
// stream of the process.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	names := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i := range keys {
		names[i] = fmt.Sprintf("%T:%#v", keys[i], keys[i])
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	if w := W; w != nil {
		w.Ambient.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}
