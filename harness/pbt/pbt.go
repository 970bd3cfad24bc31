// Package pbt is a small choice-sequence property-based testing engine.
//
// A case is a pure function of a sequence of choices.  When generating, the
// choices come from a PRNG seeded by (seed, property, case index); they are
// recorded, so that a failing case can be shrunk by editing the recorded
// sequence (deleting, zeroing, halving choices) and replaying it.  Zero is
// always the simplest choice.
package pbt

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
)

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}
func (r *RNG) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// Result of one executed case.
type Result struct {
	Status     string            `json:"status"` // pass, fail, discard, internal
	Msg        string            `json:"msg,omitempty"`
	Known      string            `json:"known,omitempty"` // key of the known finding this failure matches
	Labels     map[string]int    `json:"labels,omitempty"`
	NonTrivial bool              `json:"nt"`
	Sig        uint64            `json:"sig"`
	Sample     string            `json:"sample,omitempty"`
	Evals      int               `json:"evals"`
	Choices    []uint64          `json:"choices,omitempty"`
	Attach     map[string][]byte `json:"attach,omitempty"`
}

// T is handed to a property for one case.
type T struct {
	in       []uint64
	replay   bool
	rng      *RNG
	rec      []uint64
	Sink     func(v uint64) // told of each choice as it is made
	res      Result
	sig      uint64
	Thorough bool
}

type stop struct{ kind string }

func caseSeed(prop string, seed, idx uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return h.Sum64()
}

func New(prop string, seed, idx uint64) *T {
	return &T{rng: NewRNG(caseSeed(prop, seed, idx))}
}
func Replay(choices []uint64) *T { return &T{in: choices, replay: true} }

func (t *T) draw(max uint64) uint64 {
	var v uint64
	if t.replay {
		if len(t.rec) < len(t.in) {
			v = t.in[len(t.rec)]
		}
		if v > max {
			v = max
		}
	} else {
		v = t.rng.Next()
		if max != ^uint64(0) {
			v %= max + 1
		}
	}
	t.rec = append(t.rec, v)
	if t.Sink != nil {
		t.Sink(v)
	}
	return v
}

func (t *T) U64() uint64 { return t.draw(^uint64(0)) }
func (t *T) Bits(n int) uint64 {
	if n <= 0 {
		return 0
	}
	return t.draw((uint64(1) << uint(n)) - 1)
}

// N returns [0,n).
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.draw(uint64(n - 1)))
}
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }
func (t *T) Bool() bool           { return t.draw(1) == 1 }

// Chance is true with probability num/den; the zero choice is false.
func (t *T) Chance(num, den int) bool { return int(t.draw(uint64(den-1))) >= den-num }

// W picks an index with the given weights; the zero choice is index 0.
func (t *T) W(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	v := t.N(s)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Size draws from [lo,hi], small values and the upper edge more often.
func (t *T) Size(lo, hi int) int {
	switch t.W(4, 3, 3) {
	case 0:
		h := lo + 7
		if h > hi {
			h = hi
		}
		return t.Range(lo, h)
	case 1:
		h := lo + (hi-lo)/4
		return t.Range(lo, h)
	}
	return t.Range(lo, hi)
}

// RNG returns a sub-generator seeded by one choice, for bulk content.
func (t *T) RNG() *RNG { return NewRNG(t.draw(0xffffffff) * 0x9e3779b97f4a7c15) }

func (t *T) Logf(format string, a ...any) {
	if len(t.res.Sample) < 1500 {
		t.res.Sample += fmt.Sprintf(format, a...) + " "
	}
}
func (t *T) Label(l string) {
	if t.res.Labels == nil {
		t.res.Labels = map[string]int{}
	}
	t.res.Labels[l]++
}
func (t *T) NonTrivial() { t.res.NonTrivial = true }
func (t *T) Eval(n int)  { t.res.Evals += n }

// Sig mixes data identifying the case (for counting distinct cases).
func (t *T) Sig(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	t.sig = t.sig*0x9e3779b97f4a7c15 + h.Sum64()
}
func (t *T) Attach(name string, b []byte) {
	if t.res.Attach == nil {
		t.res.Attach = map[string][]byte{}
	}
	t.res.Attach[name] = b
}
func (t *T) Failf(format string, a ...any) {
	t.res.Status = "fail"
	t.res.Msg = fmt.Sprintf(format, a...)
	panic(stop{"fail"})
}

// Internal reports a harness self-check that failed: never a violation.
func (t *T) Internal(format string, a ...any) {
	t.res.Status = "internal"
	t.res.Msg = fmt.Sprintf(format, a...)
	panic(stop{"internal"})
}
func (t *T) Discard(why string) {
	t.res.Status = "discard"
	t.res.Msg = why
	panic(stop{"discard"})
}

// SubjectPrefix identifies stack frames of the code under test.
const SubjectPrefix = "github.com/kpfaulkner/jxl-go/"

// Run executes f on t and classifies the outcome.
func Run(t *T, f func(*T)) (res Result) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				st := string(debug.Stack())
				t.res.Msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
				if PanicInSubject(st) {
					t.res.Status = "fail"
				} else {
					t.res.Status = "internal"
				}
			}
		}()
		f(t)
	}()
	if t.res.Status == "" {
		t.res.Status = "pass"
	}
	if t.res.Evals == 0 {
		t.res.Evals = 1
	}
	if t.sig == 0 { // no data: the choices are the case
		for _, c := range t.rec {
			t.sig = (t.sig ^ c) * 0x100000001b3
		}
	}
	t.res.Sig = t.sig
	t.res.Choices = t.rec
	return t.res
}

// PanicInSubject: the innermost non-runtime, non-stdlib frame belongs to the
// code under test.
func PanicInSubject(st string) bool {
	lines := strings.Split(st, "\n")
	// skip to after the last "panic(" frame header
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.goPanic") || strings.HasPrefix(l, "runtime.sigpanic") {
			start = i + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "verif/") {
			return false
		}
		if strings.HasPrefix(l, SubjectPrefix) {
			return true
		}
	}
	return false
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 60 {
		ls = ls[:60]
	}
	return strings.Join(ls, "\n")
}

// LabelString renders labels sorted.
func LabelString(m map[string]int) string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	var b strings.Builder
	for _, s := range k {
		fmt.Fprintf(&b, "%s=%d ", s, m[s])
	}
	return b.String()
}

// Known marks the case as matching the known finding key, should it fail.
func (t *T) Known(key string) { t.res.Known = key }

// Unknown undoes Known.
func (t *T) Unknown() { t.res.Known = "" }
