package main

import (
	"fmt"
	"sort"
	"zsim/core"
)

// Choices supplies every decision of a simulated story. In search mode each
// labelled value is drawn from the seed; in replay mode it is looked up, and a
// label that is absent takes the value 0, which is always the plain choice.
type Choices struct {
	seed   uint64
	replay bool
	in     map[string]int64
	out    map[string]int64
	sched  map[string][]core.Dev
	prefix string
	seen   map[string]int // how often each label was used
}

func newSearch(seed uint64) *Choices {
	return &Choices{seed: seed, out: map[string]int64{}, sched: map[string][]core.Dev{}, seen: map[string]int{}}
}

func newReplay(in map[string]int64, sched map[string][]core.Dev) *Choices {
	return &Choices{replay: true, in: in, out: map[string]int64{}, sched: sched, seen: map[string]int{}}
}

// Sub scopes labels.
func (c *Choices) Sub(p string) *Choices {
	d := *c
	d.prefix = c.prefix + p + "/"
	return &d
}

// full is the complete label of this use: a label used again is another one.
func (c *Choices) full(label string) string {
	l := c.prefix + label
	n := c.seen[l]
	c.seen[l]++
	if n > 0 {
		l = fmt.Sprintf("%s#%d", l, n)
	}
	return l
}

func (c *Choices) draw(full string) uint64 {
	return core.SubSeed(c.seed, full)
}

func (c *Choices) note(full string, v int64) int64 {
	if v != 0 {
		c.out[full] = v
	}
	return v
}

// Int64 draws with f in search mode.
func (c *Choices) Int64(label string, f func(r *core.PRNG) int64) int64 {
	l := c.full(label)
	if c.replay {
		return c.note(l, c.in[l])
	}
	return c.note(l, f(core.NewPRNG(c.draw(l))))
}

// N is uniform in [0,n).
func (c *Choices) N(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := c.Int64(label, func(r *core.PRNG) int64 { return int64(r.Intn(n)) })
	if v < 0 {
		v = -v
	}
	return int(v % int64(n))
}

// W picks an index with the given weights.
func (c *Choices) W(label string, ws ...int) int {
	v := c.Int64(label, func(r *core.PRNG) int64 {
		t := 0
		for _, w := range ws {
			t += w
		}
		x := r.Intn(t)
		for i, w := range ws {
			if x < w {
				return int64(i)
			}
			x -= w
		}
		return 0
	})
	if v < 0 || int(v) >= len(ws) {
		return 0
	}
	return int(v)
}

// P is true with probability num/den.
func (c *Choices) P(label string, num, den int) bool {
	return c.Int64(label, func(r *core.PRNG) int64 {
		if r.Intn(den) < num {
			return 1
		}
		return 0
	}) != 0
}

// R returns a generator seeded by this label (seed 0 when minimised away).
func (c *Choices) R(label string) *core.PRNG {
	v := c.Int64(label, func(r *core.PRNG) int64 { return r.Int63()&0xffffffffff | 1 })
	return core.NewPRNG(uint64(v))
}

// Violation is one broken property instance.
type Violation struct {
	Props  []string `json:"props"`
	Kind   string   `json:"kind"`
	Detail string   `json:"detail"`
}

func (v Violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

func (v Violation) String() string { return fmt.Sprintf("%v %s: %s", v.Props, v.Kind, v.Detail) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
