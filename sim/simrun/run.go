package main

import (
	"fmt"
	"sort"
	"strings"
	"zsim/core"
)

// Stats are the measurements of a set of stories.
type Stats struct {
	Stories    int64            `json:"stories"`
	Procs      int64            `json:"procs"`
	DryRuns    int64            `json:"dry_runs"`
	LibRuns    int64            `json:"lib_runs"`
	SimNS      int64            `json:"sim_ns"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Deviations int64            `json:"deviations"`
	Evals      int64            `json:"evals"`
	Relevant   map[string]int64 `json:"relevant"` // oracle evaluations per property that had something to decide
	Faults     map[string]int64 `json:"faults"`
	Ends       map[string]int64 `json:"ends"`
	Scenarios  map[string]int64 `json:"scenarios"`

	scheds map[uint64]bool
	execs  map[uint64]bool
}

func newStats() *Stats {
	return &Stats{Relevant: map[string]int64{}, Faults: map[string]int64{}, Ends: map[string]int64{}, Scenarios: map[string]int64{},
		scheds: map[uint64]bool{}, execs: map[uint64]bool{}}
}

func (s *Stats) count(w *core.World, r *Res) {
	s.Procs++
	s.Steps += r.Out.Steps
	for _, f := range r.Fired {
		s.Faults[f]++
	}
	s.Ends[endOf(r)]++
	d := w.Deviations()
	s.Deviations += int64(len(d))
}

func endOf(r *Res) string {
	switch {
	case r.Out.Panic != "":
		return "panic"
	case r.Out.Hung:
		return "hung"
	case r.Out.Deadlock:
		return "deadlock"
	case r.Out.Killed:
		return "killed " + r.Out.Signal
	}
	return fmt.Sprintf("exit %d", r.Out.Code)
}

func (s *Stats) merge(o *Stats) {
	s.Stories += o.Stories
	s.Procs += o.Procs
	s.DryRuns += o.DryRuns
	s.LibRuns += o.LibRuns
	s.SimNS += o.SimNS
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Deviations += o.Deviations
	s.Evals += o.Evals
	for _, p := range [][2]map[string]int64{{s.Relevant, o.Relevant}, {s.Faults, o.Faults}, {s.Ends, o.Ends}, {s.Scenarios, o.Scenarios}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
}

// Run is one story: a sequence of commands or library calls in one world.
type Run struct {
	w       *core.World
	scen    string
	faulty  bool
	focus   map[string]bool
	heavy   int
	st      *Stats
	traceOn bool
	trace   []string
	viol    []Violation
	evals   int
	kdfMemo map[string][]byte
	exports map[string]string
	publics map[string]string
	repeat  int
	note    []string // short description of the story
	nt      bool     // non-trivial: a fault, a schedule deviation or several operations
	salts   []uint32
	files   int
	ops     int
}

func (rn *Run) relevant(props string) {
	for _, p := range strings.Fields(props) {
		rn.st.Relevant[p]++
	}
}

func (rn *Run) say(format string, a ...any) {
	if len(rn.note) < 12 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 240 {
			s = s[:240] + "..."
		}
		rn.note = append(rn.note, s)
	}
}

type scenario struct {
	name string
	fn   func(rn *Run, c *Choices)
}

// tell runs one story with the given choices.
func tell(sc *scenario, seed uint64, c *Choices, traceOn bool, st *Stats) *Run {
	w := core.NewWorld(core.SubSeed(seed, "world"))
	w.TraceOn = traceOn
	rn := &Run{w: w, scen: sc.name, st: st, traceOn: traceOn, kdfMemo: map[string][]byte{}, exports: map[string]string{}, publics: map[string]string{}}
	w.Wall = (1700000000 + int64(core.SubSeed(seed, "wall")%300000000)) * 1e9
	core.W = w
	sc.fn(rn, c)
	_, sw := w.Decisions()
	st.Stories++
	st.Switches += sw
	st.SimNS += w.Mono
	st.Evals += int64(rn.evals)
	st.Scenarios[sc.name]++
	return rn
}

// ---- properties and the scenarios that decide them ----

type mix struct {
	scen   string
	weight int
}

var scenarios = map[string]*scenario{}

func register(name string, fn func(rn *Run, c *Choices)) { scenarios[name] = &scenario{name, fn} }

func scenarioNames() []string {
	var l []string
	for n := range scenarios {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// pickScenario chooses the scenario of a story from its seed.
func pickScenario(prop string, i int64, seed uint64) *scenario {
	if f, ok := firsts[prop]; ok && i < int64(f.weight) {
		return scenarios[f.scen]
	}
	ms := mixes[prop]
	t := 0
	for _, m := range ms {
		t += m.weight
	}
	x := int(core.SubSeed(seed, "scenario") % uint64(t))
	for _, m := range ms {
		if x < m.weight {
			s := scenarios[m.scen]
			if s == nil {
				panic("no scenario " + m.scen)
			}
			return s
		}
		x -= m.weight
	}
	return nil
}
