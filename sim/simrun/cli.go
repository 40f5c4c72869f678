package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"regexp"
	"strings"
	"syscall"
	"time"
	"zsim/core"

	"simrun/ref"
)

// Cmd is one invocation of the tool: its options, the machine it runs on and
// what its user does.
type Cmd struct {
	Verb string
	Lib  bool // stands for a library call

	Name, Email       *string
	TTL               *string
	Only              *string
	EncKeys           bool
	EncPhrase         bool
	Verbose           bool
	Simple            bool
	SelfCert          string // "", "true", "false"
	EncI, AuthI, SigI *string
	Entropy           *string
	InFile, OutFile   *string
	ArgForm           int // how options are spelled
	RawArgs           []string

	// environment
	Rows, Cols uint16
	StartRow   int // where on the screen the cursor is at the start
	SizeErr    bool
	StdoutTTY  bool
	StderrTTY  bool
	NoStdout   bool // standard output is closed
	TZ         int  // number of the timezone
	NCPU       int
	Umask      uint32
	Other      string // what another program puts where the command works
	Env        map[string]string
	EnvAny     string // every other variable has this value
	NoHup      bool

	// input
	Stdin   string // tty, pipe, null, closed
	Pipe    []core.Chunk
	PipeErr error
	Entry   []core.Unit // word entry on the terminal
	Dec     []string    // attempts at the phrase decryption prompt
	NewKey  [][2]string // key encryption prompt
	NewPh   [][2]string // phrase encryption prompt
	End     string      // what the user does when out of ideas: ctrlc, hangup, ctrld
	PwDelay int64

	NoFaults bool
}

func (c *Cmd) args() []string {
	if c.RawArgs != nil {
		return append([]string{"mnemonikey"}, c.RawArgs...)
	}
	a := []string{"mnemonikey", c.Verb}
	k := 0
	val := func(name string, v string) {
		d := "-"
		if c.ArgForm&1 != 0 {
			d = "--"
		}
		k++
		if c.ArgForm&2 != 0 && (c.ArgForm>>2+k)%2 == 0 {
			a = append(a, d+name, v)
		} else {
			a = append(a, d+name+"="+v)
		}
	}
	str := func(name string, v *string) {
		if v != nil {
			val(name, *v)
		}
	}
	flag := func(name string, v bool) {
		if v {
			if c.ArgForm&4 != 0 {
				a = append(a, "-"+name+"=true")
			} else {
				a = append(a, "-"+name)
			}
		} else if c.ArgForm&8 != 0 {
			a = append(a, "-"+name+"=false")
		}
	}
	flag("verbose", c.Verbose)
	if c.Verb != "convert" {
		str("name", c.Name)
		str("email", c.Email)
		str("ttl", c.TTL)
		str("only", c.Only)
		flag("encrypt-keys", c.EncKeys)
	}
	if c.Verb != "recover" {
		flag("encrypt-phrase", c.EncPhrase)
		str("out-word-file", c.OutFile)
	}
	if c.Verb == "generate" {
		str("unsafe-entropy", c.Entropy)
	} else {
		str("in-word-file", c.InFile)
		flag("simple", c.Simple)
	}
	if c.Verb == "recover" {
		if c.SelfCert != "" {
			a = append(a, "-self-cert="+c.SelfCert)
		}
		str("enc-index", c.EncI)
		str("auth-index", c.AuthI)
		str("sig-index", c.SigI)
	}
	return a
}

// Res is what happened.
type Res struct {
	Cmd            *Cmd
	Out            core.Outcome
	Stdout, Stderr []byte
	Before, After  map[string]fstate
	TTY            *core.TTY
	Clock          []int64
	StartWall      int64
	EndWall        int64
	Fired          []string
	Rng            []byte
	Argon          []core.ArgonCall
	Ops            map[string]int
	agent          *agent
}

type fstate struct {
	Data string
	Mode fs.FileMode
	Link string
	Ino  int
	UID  int
}

func snap(f *core.FS) map[string]fstate {
	m := map[string]fstate{}
	for p, n := range f.Nodes {
		m[p] = fstate{string(n.Data), n.Mode, n.Link, n.Ino, n.UID}
	}
	return m
}

// benign faults never excuse a failure.
func benign(f string) bool {
	_, k, _ := strings.Cut(f, ":")
	return k == "short" || k == "stall" || k == "jump"
}

// Hurt reports whether a fault that may legitimately make the command fail
// took effect.
func (r *Res) Hurt() bool {
	for _, f := range r.Fired {
		if !benign(f) {
			return true
		}
	}
	return false
}

func (r *Res) firedCat(cats ...string) bool {
	for _, f := range r.Fired {
		a, k, _ := strings.Cut(f, ":")
		if benign(f) {
			continue
		}
		for _, c := range cats {
			if a == c || c == k {
				return true
			}
		}
	}
	return false
}

var ansiRe = regexp.MustCompile("\x1b(\\[[0-9;]*[A-Za-z]|[78])")

func stripANSI(b []byte) string { return ansiRe.ReplaceAllString(string(b), "") }

// giveUp stands for aborting instead of confirming a password.
const giveUp = "\x00giveup"

// agent is the simulated user.
type agent struct {
	cmd     *Cmd
	entry   []core.Unit
	stage   string
	dec     int
	key, ph int
	second  string // class whose confirmation is due
	n       int
	aborted int
	ignored bool
	asked   map[string]int
	watch   *watcher
}

func (a *agent) abort() (core.Unit, bool) {
	a.aborted++
	switch {
	case a.aborted > 2:
		a.ignored = true
		return core.Unit{Tag: "hangup"}, true
	case a.cmd.End == "hangup":
		return core.Unit{Tag: "hangup"}, true
	case a.cmd.End == "ctrld" && a.aborted == 1:
		return core.Unit{Data: "\x04", Tag: "abort"}, true
	}
	return core.Unit{Data: "\x03", Tag: "abort"}, true
}

func (a *agent) pw(s string) (core.Unit, bool) {
	return core.Unit{Data: s + "\r", Tag: "pw", Delay: a.cmd.PwDelay}, true
}

func (a *agent) next(since []byte) (core.Unit, bool) {
	a.watch.look()
	u, ok := a.answer(since)
	a.watch.typed(u)
	return u, ok
}

func (a *agent) answer(since []byte) (core.Unit, bool) {
	a.n++
	if a.n > 5000 {
		return core.Unit{Tag: "hangup"}, true
	}
	if a.aborted > 0 {
		return a.abort()
	}
	text := strings.ToLower(stripANSI(since))
	if strings.Contains(text, "password") {
		a.stage = "pw"
	} else if len(bytes.TrimSpace(since)) > 0 || a.stage == "" {
		a.stage = "words"
	}
	if a.stage == "words" {
		if len(a.entry) == 0 {
			return a.abort()
		}
		u := a.entry[0]
		a.entry = a.entry[1:]
		return u, true
	}
	line := text
	if i := strings.LastIndexAny(strings.TrimRight(line, "\r\n "), "\r\n"); i >= 0 {
		line = line[i+1:]
	}
	class := ""
	has := func(ss ...string) bool {
		for _, s := range ss {
			if strings.Contains(line, s) {
				return true
			}
		}
		return false
	}
	switch {
	case has("repeat", "confirm", "again", "retype", "re-enter"):
		class = "confirm"
	case has("decrypt", "unlock"):
		class = "dec"
	case has("phrase"):
		class = "ph"
	case has("key"):
		class = "key"
	default: // the next one in the tool's order
		switch {
		case a.second != "":
			class = "confirm"
		case a.asked["dec"] < len(a.cmd.Dec):
			class = "dec"
		case a.cmd.EncKeys && a.asked["key"] < len(a.cmd.NewKey):
			class = "key"
		default:
			class = "ph"
		}
	}
	a.asked[class]++
	switch class {
	case "dec":
		a.second = "dec"
		if a.dec < len(a.cmd.Dec) {
			a.dec++
			return a.pw(a.cmd.Dec[a.dec-1])
		}
	case "key":
		a.second = "key"
		if a.key < len(a.cmd.NewKey) {
			a.key++
			return a.pw(a.cmd.NewKey[a.key-1][0])
		}
	case "ph":
		a.second = "ph"
		if a.ph < len(a.cmd.NewPh) {
			a.ph++
			return a.pw(a.cmd.NewPh[a.ph-1][0])
		}
	case "confirm":
		s := a.second
		a.second = ""
		switch {
		case s == "dec" && a.dec > 0:
			return a.pw(a.cmd.Dec[a.dec-1])
		case s == "key" && a.key > 0 && a.cmd.NewKey[a.key-1][1] == giveUp:
		case s == "ph" && a.ph > 0 && a.cmd.NewPh[a.ph-1][1] == giveUp:
		case s == "key" && a.key > 0:
			return a.pw(a.cmd.NewKey[a.key-1][1])
		case s == "ph" && a.ph > 0:
			return a.pw(a.cmd.NewPh[a.ph-1][1])
		}
	}
	return a.abort()
}

// runProc executes one command in a world with the given faults.
func runProc(w *core.World, cmd *Cmd, faults []*core.Fault) *Res {
	core.W = w
	r := &Res{Cmd: cmd, Before: snap(w.FS), StartWall: w.Wall + w.Mono}
	p := w.NewProc(cmd.args())
	p.Faults = faults
	if cmd.EncKeys {
		p.SetStepLimit(150_000_000)
	}
	if cmd.NCPU > 0 {
		p.NCPU = cmd.NCPU
	}
	p.Umask = cmd.Umask
	p.Loc = zoneOf(cmd.TZ)
	p.Env = map[string]string{"HOME": "/home/user", "TERM": "xterm", "PATH": "/usr/bin"}
	for k, v := range cmd.Env {
		p.Env[k] = v
	}
	p.EnvAny, p.NoHup = cmd.EnvAny, cmd.NoHup
	t := core.NewTTY(cmd.Rows, cmd.Cols)
	if cmd.SizeErr {
		t.SizeErr = syscall.ENOTTY
	}
	r.agent = &agent{cmd: cmd, entry: cmd.Entry, asked: map[string]int{}}
	r.agent.watch = newWatcher(cmd, t)
	t.User = r.agent.next
	w.TTY = t
	r.TTY = t
	switch cmd.Stdin {
	case "", "tty":
		p.Fds[0] = core.NewTTYIn(p)
	case "pipe":
		p.Fds[0] = core.NewPipeIn(p, append([]core.Chunk{}, cmd.Pipe...), cmd.PipeErr)
	case "null":
		p.Fds[0] = core.NewNullIn(p)
	case "closed":
		p.Fds[0] = core.NewClosed(p, 0, "/dev/stdin")
	}
	p.Fds[1] = core.NewSink(p, "/dev/stdout", "stdout", 1, cmd.StdoutTTY)
	if cmd.NoStdout {
		p.Fds[1] = core.NewClosed(p, 1, "/dev/stdout")
	}
	p.Fds[2] = core.NewSink(p, "/dev/stderr", "stderr", 2, cmd.StderrTTY)
	rng0 := len(w.Secure.Log)
	arg0 := len(w.Argon)
	out := p.Run(func() {
		resetAll()
		simMain()
	})
	r.Out = *out
	r.Stdout = p.Fds[1].Buf
	r.Stderr = p.Fds[2].Buf
	r.After = snap(w.FS)
	r.Clock = p.ClockReads
	r.EndWall = w.Wall + w.Mono
	r.Fired = p.Fired
	r.Rng = append([]byte{}, w.Secure.Log[rng0:]...)
	r.Argon = w.Argon[arg0:]
	r.Ops = p.Ops
	return r
}

// ---- fault plans ----

var faultCats = []string{"", "any", "fs", "fsclose", "stdin", "stdout", "stderr", "tty", "ttyset", "rng", "clock", "kdf", "step"}
var faultKinds = []string{"", "kill", "errno", "eof", "short", "partial", "enospc", "epipe", "crashpartial", "stall", "jump", "sigint", "hup", "mkfile", "mkdir", "rmfile"}
var errnos = []int64{int64(syscall.EIO), int64(syscall.EACCES), int64(syscall.ENOSPC), int64(syscall.EMFILE), int64(syscall.ENOMEM), int64(syscall.EDQUOT), int64(syscall.EROFS), int64(syscall.EPERM)}

var catKinds = map[string][]string{
	"any":     {"kill", "kill", "sigint", "hup", "jump", "stall", "mkfile", "mkdir", "rmfile"},
	"fs":      {"errno", "errno", "eof", "short", "partial", "enospc", "crashpartial", "kill", "mkfile", "mkfile", "stall", "rmfile", "mkdir"},
	"fsclose": {"errno", "kill"},
	"stdin":   {"errno", "eof", "short", "short", "stall"},
	"stdout":  {"errno", "partial", "enospc", "epipe", "crashpartial", "stall", "kill"},
	"stderr":  {"errno", "partial", "enospc", "epipe", "stall", "kill"},
	"tty":     {"errno", "errno", "eof", "kill", "sigint"},
	"ttyset":  {"errno", "kill"},
	"rng":     {"errno", "errno", "errno", "kill"},
	"clock":   {"jump", "jump", "stall"},
	"kdf":     {"kill", "sigint", "jump"},
	"step":    {"kill", "sigint", "jump"},
}

func idx(l []string, s string) int64 {
	for i, x := range l {
		if x == s {
			return int64(i)
		}
	}
	return 0
}

// planFaults chooses faults. ops is nil in replay mode.
func (rn *Run) planFaults(c *Choices, cmd *Cmd, n int, ops map[string]int, steps int64) []*core.Fault {
	var out []*core.Fault
	for i := 0; i < n; i++ {
		fc := c.Sub(fmt.Sprintf("f%d", i))
		var cats []string
		if ops != nil {
			for _, k := range faultCats[1:] {
				if k == "step" || ops[k] > 0 {
					cats = append(cats, k)
					if rn.focus[k] {
						cats = append(cats, k, k, k)
					}
				}
			}
		}
		ci := fc.Int64("cat", func(r *core.PRNG) int64 { return idx(faultCats, cats[r.Intn(len(cats))]) })
		if ci <= 0 || int(ci) >= len(faultCats) {
			continue
		}
		cat := faultCats[ci]
		ki := fc.Int64("kind", func(r *core.PRNG) int64 {
			ks := catKinds[cat]
			return idx(faultKinds, ks[r.Intn(len(ks))])
		})
		if ki <= 0 || int(ki) >= len(faultKinds) {
			continue
		}
		nn := fc.Int64("n", func(r *core.PRNG) int64 {
			if cat == "step" {
				return 1 + int64(r.Intn(int(steps+1)))
			}
			return 1 + int64(r.Intn(ops[cat]))
		})
		if nn <= 0 {
			nn = 1
		}
		f := &core.Fault{Cat: cat, Kind: faultKinds[ki], N: nn}
		switch f.Kind {
		case "errno":
			f.Arg = errnos[fc.N("errno", len(errnos))]
			if cat == "tty" || cat == "rng" || cat == "stdin" {
				f.Arg = int64(syscall.EIO)
			}
		case "short", "partial", "crashpartial":
			f.Arg = fc.Int64("arg", func(r *core.PRNG) int64 {
				if f.Kind != "short" {
					switch r.Intn(4) {
					case 0: // nearly everything
						return -1 - int64(r.Intn(3))
					case 1: // anywhere
						return int64(r.Intn(1 << 20))
					}
				}
				return int64(r.Intn(200))
			})
		case "stall":
			f.Arg = fc.Int64("arg", func(r *core.PRNG) int64 { return int64(r.Intn(1000)) * int64(time.Second) })
		case "jump":
			f.Arg = fc.Int64("arg", func(r *core.PRNG) int64 {
				d := []int64{1, 1000, 86400, 31536000, 631152000, 3000000000}[r.Intn(6)] * int64(1+r.Intn(3)) * 999_999_937
				if r.Intn(2) == 0 {
					d = -d
				}
				return d
			})
		case "mkfile", "mkdir", "rmfile":
			f.Path = "/work/other"
			if cmd.OutFile != nil && *cmd.OutFile != "" {
				f.Path = absPath(*cmd.OutFile)
			} else if f.Kind == "rmfile" && cmd.InFile != nil {
				f.Path = absPath(*cmd.InFile)
			}
			f.Data = cmd.Other
		}
		out = append(out, f)
	}
	return out
}

func absPath(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	return "/work/" + p
}

// exec runs a command with the faults and schedule its choices call for.
// trimEntry stops the user typing when the phrase is complete if a password may
// be asked for next: what is typed ahead would be taken for the password.
func (c *Cmd) trimEntry() {
	if len(c.Entry) == 0 || c.RawArgs != nil {
		return
	}
	asks := len(c.Dec)+len(c.NewKey)+len(c.NewPh) > 0 || c.EncKeys || c.EncPhrase
	l, e := &ref.Lines{}, &ref.Editor{}
	var line []byte
	for i, u := range c.Entry {
		for j := 0; j < len(u.Data); j++ {
			b := u.Data[j]
			done := false
			if c.Simple {
				switch b {
				case 0x7f:
					if len(line) > 0 {
						line = line[:len(line)-1]
					}
				case 0x15:
					line = nil
				case '\r', '\n':
					l.Line(string(line))
					line = nil
				default:
					line = append(line, b)
				}
				done = l.Done
			} else {
				e.Key(b)
				done = e.Done
			}
			if done {
				if asks || l.Size == 16 || e.Size == 16 {
					u.Data = u.Data[:j+1]
					c.Entry = append(append([]core.Unit{}, c.Entry[:i]...), u)
				}
				return
			}
		}
	}
}

func (rn *Run) exec(c *Choices, cmd *Cmd) *Res {
	w := rn.w
	cmd.trimEntry()
	cmd.Other = otherData
	if c.P("otherempty", 1, 3) {
		cmd.Other = ""
	}
	nf := 0
	if rn.faulty && !cmd.NoFaults {
		nf = c.W("nfault", 4, 10, 4, 1)
	}
	var faults []*core.Fault
	if nf > 0 {
		var ops map[string]int
		var steps int64
		if !c.replay {
			if cmd.EncKeys && rn.heavy > 0 { // a dry run of a slow export costs too much: guess
				ops = map[string]int{"any": 60, "fs": 3, "stdout": 2, "stderr": 12, "tty": 12, "ttyset": 6, "rng": 10, "clock": 1, "kdf": 2}
				steps = 3000
			} else {
				cl := w.Clone()
				cl.ResetSchedule()
				if cmd.EncKeys {
					rn.heavy++
				}
				rn.st.DryRuns++
				d := runProc(cl, cmd, nil)
				ops, steps = d.Ops, d.Out.Steps
			}
		}
		faults = rn.planFaults(c, cmd, nf, ops, steps)
	}
	w.ResetSchedule()
	sl := c.full("sched")
	if c.replay {
		w.ReplaySchedule(c.sched[sl])
	} else {
		pr := []float64{0, 0.02, 0.2, 0.5}[core.NewPRNG(c.draw(sl+"prob")).Intn(4)]
		w.SearchSchedule(c.draw(sl), pr)
	}
	r := runProc(w, cmd, faults)
	if d := w.Deviations(); len(d) > 0 && !c.replay {
		c.sched[sl] = append([]core.Dev{}, d...)
	}
	rn.st.count(w, r)
	rn.ops++
	if len(r.Fired) > 0 || len(w.Deviations()) > 0 || rn.ops > 1 {
		rn.nt = true
	}
	if rn.traceOn {
		rn.trace = append(rn.trace, "$ "+strings.Join(cmd.args(), " "))
		rn.trace = append(rn.trace, w.Events...)
		w.Events = nil
		rn.trace = append(rn.trace, fmt.Sprintf("=> exit=%d exited=%v killed=%v %s panic=%q hung=%v deadlock=%v fired=%v", r.Out.Code, r.Out.Exited, r.Out.Killed, r.Out.Signal, r.Out.Panic, r.Out.Hung, r.Out.Deadlock, r.Fired))
	}
	return r
}
