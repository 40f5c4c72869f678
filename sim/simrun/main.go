//go:debug default=go1.20
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	"zsim/core"
)

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string                `json:"property"`
	Scenario  string                `json:"scenario"`
	Seed      uint64                `json:"seed"`
	Choices   map[string]int64      `json:"choices"`
	Sched     map[string][]core.Dev `json:"schedule"`
	Violation Violation             `json:"violation"`
	Minimised bool                  `json:"minimised"`
	From      int                   `json:"choices_before_minimising"`
	Trace     []string              `json:"trace"`

	// Set when the violation needs what earlier stories left behind in the
	// process: all the stories of the worker up to this one are told again.
	History *history `json:"history,omitempty"`
}

type history struct {
	Base  uint64 `json:"base_seed"`
	Prop  string `json:"property"`
	From  int64  `json:"from"`
	Step  int64  `json:"step"`
	Index int64  `json:"index"`
}

// retell tells a worker's stories again up to the one that broke the property.
func retell(h *history, prop, kind string) (*Violation, *Run) {
	for i := h.From; ; i += h.Step {
		s := storySeed(h.Base, h.Prop, i)
		rn := tell(pickScenario(h.Prop, i, s), s, newSearch(s), i == h.Index, newStats())
		if i < h.Index {
			continue
		}
		for j := range rn.viol {
			if v := rn.viol[j]; v.has(prop) && v.Kind == kind {
				return &v, rn
			}
		}
		return nil, rn
	}
}

type found struct {
	Index   int64                 `json:"index"`
	Seed    uint64                `json:"seed"`
	Scen    string                `json:"scen"`
	Choices map[string]int64      `json:"choices"`
	Sched   map[string][]core.Dev `json:"sched"`
	V       Violation             `json:"v"`
}

type workerOut struct {
	Stats   *Stats   `json:"stats"`
	Scheds  []uint64 `json:"scheds"`
	Execs   []uint64 `json:"execs"`
	Found   []found  `json:"found"`
	Samples []string `json:"samples"`
	Digest  uint64   `json:"digest"`
	Err     string   `json:"err,omitempty"`
	Stopped bool     `json:"stopped"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simrun search|worker|replay|story ...")
	}
	core.SimBug = func(s string) { fatal("the simulator does not model: %s", s) }
	switch os.Args[1] {
	case "search":
		search(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "story":
		storyCmd(os.Args[2:])
	default:
		fatal("unknown mode %s", os.Args[1])
	}
}

func storySeed(base uint64, prop string, i int64) uint64 {
	return core.SubSeed(base, "story", prop, fmt.Sprint(i))
}

// guard stops the program when a story takes unreasonably long in real time.
func guard(what string, d time.Duration) func() {
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(d):
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "simrun: watchdog: %s\n%s\n", what, buf[:n])
			os.Exit(2)
		}
	}()
	return func() { close(done) }
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	step := fs.Int64("step", 1, "")
	n := fs.Int64("n", 100, "stories in total over all workers")
	secs := fs.Float64("secs", 60, "")
	flagF := fs.String("flag", "", "file that says a worker has found a violation")
	knownF := fs.String("known", "", "")
	fs.Parse(args)
	kn := loadKnown(*knownF)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	st := newStats()
	out := &workerOut{Stats: st}
	start := time.Now()
	seen, seenKnown := map[string]bool{}, map[string]bool{}
	for i := *from; i < *n; i += *step {
		if time.Since(start).Seconds() > *secs {
			out.Stopped = true
			break
		}
		if *flagF != "" {
			// once a violation is found, the others have a little time to
			// find more kinds of it
			if fi, err := os.Stat(*flagF); err == nil && time.Since(fi.ModTime()) > 5*time.Second {
				out.Stopped = true
				break
			}
		}
		s := storySeed(*seed, *prop, i)
		sc := pickScenario(*prop, i, s)
		stop := guard(fmt.Sprintf("story %d (seed %d, %s)", i, s, sc.name), 200*time.Second)
		c := newSearch(s)
		rn := tell(sc, s, c, false, st)
		stop()
		h := rn.w.Hash()
		st.execs[h] = rn.nt
		st.scheds[rn.w.ScheduleHash()] = true
		out.Digest ^= core.SubSeed(h, fmt.Sprint(i, len(rn.viol)))
		if i < 2 || (rn.nt && len(out.Samples) < 3) {
			out.Samples = append(out.Samples, fmt.Sprintf("story %d seed=%d scenario=%s: %s", i, s, sc.name, strings.Join(rn.note, "; ")))
		}
		for _, v := range rn.viol {
			if !v.has(*prop) {
				continue
			}
			k := knownAs(kn, *prop, v)
			if k != nil {
				if !seenKnown[k.What] {
					seenKnown[k.What] = true
					out.Found = append(out.Found, found{i, s, sc.name, c.out, c.sched, v})
				}
				continue
			}
			if seen[v.Kind] {
				continue
			}
			seen[v.Kind] = true
			out.Found = append(out.Found, found{i, s, sc.name, c.out, c.sched, v})
			if *flagF != "" {
				if f, err := os.OpenFile(*flagF, os.O_CREATE|os.O_EXCL, 0644); err == nil {
					f.Close()
				}
			}
		}
		if len(seen) >= 3 {
			out.Stopped = true
			break
		}
	}
	for h, nt := range st.execs {
		if nt {
			out.Execs = append(out.Execs, h)
		}
	}
	for h := range st.scheds {
		out.Scheds = append(out.Scheds, h)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// again replays a story and reports the matching violation.
func again(sc *scenario, seed uint64, ch map[string]int64, sched map[string][]core.Dev, prop, kind string, trace bool) (*Violation, *Run, *Choices) {
	c := newReplay(ch, sched)
	rn := tell(sc, seed, c, trace, newStats())
	for i := range rn.viol {
		if v := rn.viol[i]; v.has(prop) && (kind == "" || v.Kind == kind) {
			return &v, rn, c
		}
	}
	return nil, rn, c
}

// minimise removes choices and scheduling deviations while the violation stays.
func minimise(sc *scenario, f *found, prop string, budget time.Duration) (map[string]int64, map[string][]core.Dev, bool) {
	end := time.Now().Add(budget)
	cur := map[string]int64{}
	for k, v := range f.Choices {
		cur[k] = v
	}
	sched := f.Sched
	if v, _, _ := again(sc, f.Seed, cur, sched, prop, f.V.Kind, false); v == nil {
		return cur, sched, false
	}
	try := func(ch map[string]int64, sd map[string][]core.Dev) bool {
		if time.Now().After(end) {
			return false
		}
		v, _, _ := again(sc, f.Seed, ch, sd, prop, f.V.Kind, false)
		return v != nil
	}
	// schedule first
	if try(cur, map[string][]core.Dev{}) {
		sched = map[string][]core.Dev{}
	} else {
		for _, k := range sortedKeys(sched) {
			s2 := map[string][]core.Dev{}
			for q, v := range sched {
				if q != k {
					s2[q] = v
				}
			}
			if try(cur, s2) {
				sched = s2
				continue
			}
			devs := sched[k]
			for n := (len(devs) + 1) / 2; n >= 1 && time.Now().Before(end); n /= 2 {
				for i := 0; i+n <= len(devs); {
					d2 := append(append([]core.Dev{}, devs[:i]...), devs[i+n:]...)
					s2 := map[string][]core.Dev{}
					for q, v := range sched {
						s2[q] = v
					}
					s2[k] = d2
					if try(cur, s2) {
						devs, sched = d2, s2
					} else {
						i += n
					}
				}
			}
		}
	}
	// then choices, by halving groups
	keys := sortedKeys(cur)
	for n := (len(keys) + 1) / 2; n >= 1 && time.Now().Before(end); {
		changed := false
		keys = sortedKeys(cur)
		for i := 0; i < len(keys); i += n {
			c2 := map[string]int64{}
			for k, v := range cur {
				c2[k] = v
			}
			for j := i; j < i+n && j < len(keys); j++ {
				delete(c2, keys[j])
			}
			if len(c2) < len(cur) && try(c2, sched) {
				cur = c2
				changed = true
			}
		}
		if n == 1 && !changed {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	return cur, sched, true
}

type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "{") {
			var k known
			if err := json.Unmarshal([]byte(l), &k); err != nil {
				fatal("known findings: %v", err)
			}
			out = append(out, k)
		}
	}
	return out
}

func knownAs(kn []known, prop string, v Violation) *known {
	for i, k := range kn {
		if k.Property == prop && k.Kind == v.Kind && strings.Contains(v.Detail, k.Contains) {
			return &kn[i]
		}
	}
	return nil
}

func search(args []string) {
	fs := flag.NewFlagSet("search", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int64("n", 0, "stories; 0: the tier's number")
	secs := fs.Float64("secs", 60, "")
	workers := fs.Int("workers", 8, "")
	tier := fs.String("tier", "quick", "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", ".", "")
	knownF := fs.String("known", "", "")
	fs.Parse(args)
	if *n == 0 {
		*n = amount(*prop, *tier)
	}
	if mixes[*prop] == nil {
		fatal("unknown property %q", *prop)
	}
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	dir, err := os.MkdirTemp("", "simsearch")
	if err != nil {
		fatal("%v", err)
	}
	flagF := filepath.Join(dir, "found")
	outs := make([]*workerOut, *workers)
	errs := make([]error, *workers)
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c := exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(i), "-step", fmt.Sprint(*workers), "-n", fmt.Sprint(*n), "-secs", fmt.Sprint(*secs), "-flag", flagF, "-known", *knownF)
			c.Stderr = os.Stderr
			b, err := c.Output()
			if err == nil {
				outs[i] = &workerOut{}
				err = json.Unmarshal(b, outs[i])
			}
			errs[i] = err
		}(i)
	}
	wg.Wait()
	os.RemoveAll(dir)
	st := newStats()
	execs, scheds := map[uint64]bool{}, map[uint64]bool{}
	var fnd []found
	var samples []string
	var digest uint64
	for i, o := range outs {
		if errs[i] != nil {
			fatal("worker %d: %v", i, errs[i])
		}
		st.merge(o.Stats)
		for _, h := range o.Execs {
			execs[h] = true
		}
		for _, h := range o.Scheds {
			scheds[h] = true
		}
		fnd = append(fnd, o.Found...)
		if len(samples) < 4 {
			samples = append(samples, o.Samples...)
		}
		digest ^= o.Digest
	}
	sort.Slice(fnd, func(i, j int) bool { return fnd[i].Index < fnd[j].Index })
	if len(samples) > 4 {
		samples = samples[:4]
	}
	elapsed := time.Since(start).Seconds()
	kn := loadKnown(*knownF)
	done, toldKnown := map[string]bool{}, map[string]bool{}
	nviol := 0
	var lines []string
	defer func() {
		for _, k := range kn {
			if k.Property == *prop && !toldKnown[k.What] {
				toldKnown[k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", *prop, k.What)
			}
		}
	}()
	for i := range fnd {
		f := &fnd[i]
		if done[f.V.Kind] {
			continue
		}
		if k := knownAs(kn, *prop, f.V); k != nil {
			if !toldKnown[k.What] {
				toldKnown[k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			}
			continue
		}
		done[f.V.Kind] = true
		nviol++
		if nviol > 3 {
			continue
		}
		sc := scenarios[f.Scen]
		stop := guard("minimising", 400*time.Second)
		var hist *history
		var v *Violation
		var rn *Run
		out := f.Choices
		ch, sched, ok := minimise(sc, f, *prop, 15*time.Second)
		if ok {
			var c *Choices
			if v, rn, c = again(sc, f.Seed, ch, sched, *prop, f.V.Kind, true); v != nil {
				out = c.out
			}
		}
		if v == nil {
			// state of the code under test outlives its process or run
			w := int64(*workers)
			hist = &history{*seed, *prop, f.Index % w, w, f.Index}
			sched, ok = f.Sched, false
			if v, rn = retell(hist, *prop, f.V.Kind); v == nil {
				fatal("story seed %d did not reproduce its violation %s", f.Seed, printable(f.V.String()))
			}
		}
		stop()
		tr := rn.trace
		if len(tr) > 4000 {
			tr = append(append(append([]string{}, tr[:2000]...), "..."), tr[len(tr)-2000:]...)
		}
		rp := &Replay{*prop, f.Scen, f.Seed, out, sched, *v, ok, len(f.Choices), tr, hist}
		os.MkdirAll(*replays, 0755)
		path := filepath.Join(*replays, fmt.Sprintf("%s-%d-%d.json", *prop, *seed, nviol))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			fatal("%v", err)
		}
		fmt.Printf("%s: %s\n  seed=%d scenario=%s choices=%d (of %d) schedule deviations=%d\n", v.Kind, printable(v.Detail), f.Seed, f.Scen, len(out), len(f.Choices), nsched(sched))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
	}
	wall := time.Since(start).Seconds()
	if *evid != "" {
		perHour := func(x int64) int64 { return int64(float64(x) / elapsed * 3600) }
		cov := map[string]any{
			"evaluations":             st.Stories,
			"judged_runs":             st.Evals,
			"distinct_nontrivial":     len(execs),
			"rule":                    "a story is one seeded world driven through a sequence of real tool runs and library calls; evaluations counts stories and judged_runs the runs and calls in them; a story counts as distinct and non-trivial when the hash of its full event trace (system calls, times, faults, scheduling decisions) is unique in this run and it had at least one effective fault, one scheduling deviation, or two or more operations on the same world",
			"samples":                 samples,
			"simulated_processes":     st.Procs,
			"library_runs":            st.LibRuns,
			"relevant_evaluations":    st.Relevant[*prop],
			"seeds_per_hour":          perHour(st.Stories),
			"simulated_runs_per_hour": perHour(st.Procs + st.LibRuns),
			"simulated_time_s":        float64(st.SimNS) / 1e9,
			"yield_points_passed":     st.Steps,
			"thread_switches":         st.Switches,
			"scheduling_deviations":   st.Deviations,
			"distinct_interleavings":  len(scheds),
			"interleaving_measure":    "distinct hashes of the sequence of (decision number, chosen thread) over a story",
			"faults_injected":         st.Faults,
			"process_endings":         st.Ends,
			"scenarios":               st.Scenarios,
			"execution_digest":        fmt.Sprintf("%016x", digest),
			"components_real":         []string{"cmd/mnemonikey", "mnemonikey", "mnemonic", "pgp", "golang.org/x/term", "golang.org/x/crypto/openpgp", "wordlist4096"},
			"components_stubbed":      []string{"argon2 (cheap keyed stand-in recording its parameters; the real one in scenario real)", "operating system: files, terminal, pipes, signals, clock, timers, randomness, scheduler", "the user"},
		}
		ev := map[string]any{"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol,
			"assumptions": []string{"the simulated operating system behaves as Linux does for the calls made", "the reference model in sim/simrun/ref states the published specification"}}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evid), 0755)
		if err := os.WriteFile(*evid, b, 0644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s seed=%d: %d stories, %d runs, %d evaluations, %d relevant, %.1f s, digest %016x, violations %d\n", *prop, *tier, *seed, st.Stories, st.Procs+st.LibRuns, st.Evals, st.Relevant[*prop], wall, digest, nviol)
	if nviol > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		os.Exit(1)
	}
	if st.Relevant[*prop] == 0 {
		fatal("no evaluation exercised %s", *prop)
	}
}

// printable keeps messages to one line of plain text.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' {
			fmt.Fprintf(&b, "\\x%02x", s[i])
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func nsched(s map[string][]core.Dev) int {
	n := 0
	for _, d := range s {
		n += len(d)
	}
	return n
}

func replayCmd(args []string) {
	if len(args) < 1 {
		fatal("usage: simrun replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	var v *Violation
	var rn *Run
	if rp.History != nil {
		v, rn = retell(rp.History, rp.Property, rp.Violation.Kind)
	} else {
		v, rn, _ = again(scenarios[rp.Scenario], rp.Seed, rp.Choices, rp.Sched, rp.Property, rp.Violation.Kind, true)
	}
	for _, l := range rn.trace {
		fmt.Println(l)
	}
	if v == nil {
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	fmt.Printf("reproduced: %s: %s\n", v.Kind, printable(v.Detail))
	if printable(v.Detail) != printable(rp.Violation.Detail) {
		fmt.Println("(detail differs from the recorded one)")
	}
	os.Exit(1)
}

// storyCmd runs one story by seed, or many stories of one scenario, and prints
// everything it violates.
func storyCmd(args []string) {
	fs := flag.NewFlagSet("story", flag.ExitOnError)
	scen := fs.String("scen", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int64("n", 1, "")
	trace := fs.Bool("trace", false, "")
	kinds := fs.Bool("kinds", false, "print one example per kind")
	pan := fs.Bool("panics", false, "")
	fs.Parse(args)
	core.DebugPanics = *pan
	sc := scenarios[*scen]
	if sc == nil {
		fatal("scenarios: %v", scenarioNames())
	}
	seen := map[string]int{}
	st := newStats()
	t0 := time.Now()
	for i := int64(0); i < *n; i++ {
		s := *seed
		if *n > 1 {
			s = storySeed(*seed, *scen, i)
		}
		stop := guard(fmt.Sprintf("seed %d", s), 200*time.Second)
		rn := tell(sc, s, newSearch(s), *trace, st)
		stop()
		if *trace {
			for _, l := range rn.trace {
				fmt.Println(l)
			}
			fmt.Println(strings.Join(rn.note, "\n"))
		}
		for _, v := range rn.viol {
			seen[v.Kind]++
			if !*kinds || seen[v.Kind] == 1 {
				fmt.Printf("seed %d %s\n", s, v)
			}
		}
	}
	fmt.Printf("%d stories in %.1f s; procs %d lib %d dry %d evals %d; kinds %v\nends %v\nfaults %v\nrelevant %v\n", *n, time.Since(t0).Seconds(), st.Procs, st.LibRuns, st.DryRuns, st.Evals, seen, st.Ends, st.Faults, st.Relevant)
}
