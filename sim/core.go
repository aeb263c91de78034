package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	rt "github.com/lkmio/avformat/verifsimrt"
)

// ---- pseudo-random numbers: every decision of every run comes from one of these ----

type Rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func NewRng(parts ...interface{}) *Rng {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return &Rng{h.Sum64()}
}

func (r *Rng) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix64(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability n/100.
func (r *Rng) P(n int) bool { return r.N(100) < n }

// Skew returns a number in [0,n), small ones more often.
func (r *Rng) Skew(n int) int {
	if n <= 1 {
		return 0
	}
	return r.N(r.N(n) + 1)
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// pattern is cheap deterministic payload that identifies its owner at every offset.
func pattern(seed uint64, n int) []byte {
	r := Rng{seed * 0x9E3779B97F4A7C15}
	return r.Bytes(n)
}

// ---- outcome of one simulated run ----

type Violation struct {
	Prop string `json:"property"`
	Kind string `json:"kind"` // stable class of the failure, used while minimising
	Msg  string `json:"message"`
}

type Outcome struct {
	V        []Violation
	hash     uint64
	lines    int
	text     *strings.Builder // only when a trace was asked for
	Stats    map[string]int   // fault kinds fired, probes
	SimMs    int64            // simulated milliseconds covered
	Trivial  bool             // the run exercised nothing the property depends on
	Switches int
	Trace    uint64 // interleaving identity
	Inconcl  string
}

func NewOutcome(trace bool) *Outcome {
	o := &Outcome{hash: 14695981039346656037, Stats: map[string]int{}}
	if trace {
		o.text = &strings.Builder{}
	}
	return o
}

// Log records one event. It neither draws random numbers nor reads a clock.
func (o *Outcome) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	o.LogS(s)
}

func (o *Outcome) LogS(s string) {
	h := o.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	o.hash = (h ^ '\n') * 1099511628211
	o.lines++
	if o.text != nil && o.text.Len() < 1<<20 {
		o.text.WriteString(s)
		o.text.WriteByte('\n')
	}
}

func (o *Outcome) LogN(tag string, n ...int) {
	h := o.hash
	for i := 0; i < len(tag); i++ {
		h = (h ^ uint64(tag[i])) * 1099511628211
	}
	for _, v := range n {
		h = (h ^ uint64(v)) * 1099511628211
		h ^= h >> 29
	}
	o.hash = h
	o.lines++
	if o.text != nil && o.text.Len() < 1<<20 {
		fmt.Fprintf(o.text, "%s %v\n", tag, n)
	}
}

func (o *Outcome) Fail(prop, kind, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	for _, v := range o.V {
		if v.Prop == prop && v.Kind == kind {
			return
		}
	}
	o.V = append(o.V, Violation{prop, kind, msg})
	o.LogS("VIOLATION " + prop + " " + kind)
}

func (o *Outcome) Count(k string) { o.Stats[k]++ }

func (o *Outcome) Find(prop, kind string) *Violation {
	for i := range o.V {
		if o.V[i].Prop == prop && (kind == "" || o.V[i].Kind == kind) {
			return &o.V[i]
		}
	}
	return nil
}

// ---- worlds ----

// A World generates scenarios (pure functions of a seed) and executes them (pure functions of the scenario and the
// code under test).
type World interface {
	Gen(r *Rng, prop string, big bool) interface{}
	New() interface{}
	Exec(sc interface{}, prop string, o *Outcome)
}

type propDef struct {
	world World
	quick int // simulated runs in the quick tier
	chunk int // runs per worker process
}

var props = map[string]propDef{}

func register(ids string, w World, quick, chunk int) {
	for _, id := range strings.Fields(ids) {
		props[id] = propDef{w, quick, chunk}
	}
}

func propIDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// HarnessError is a fault of the simulator itself; it ends a check with an error exit, never with a VIOLATION.
type HarnessError struct{ msg string }

func (h HarnessError) Error() string { return h.msg }

func bug(format string, a ...interface{}) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

// misuse is raised by a stand-in the library was given and used against its contract; it counts as the library's.
type misuse string

// call runs f as a piece of harness code that calls into the library. A panic raised by the library (or a step
// budget overrun, i.e. an endless loop) is returned; a panic raised by the harness itself is passed on.
func call(f func()) (pi *rt.PanicInfo) {
	rt.ResetBudget()
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				panic(h)
			}
			pi = rt.Describe(r)
			if _, ok := r.(misuse); ok {
				return
			}
			if pi.Aborted {
				panic(r)
			}
			if !pi.InLib && !pi.Hang {
				panic(HarnessError{fmt.Sprintf("panic in the harness: %v\n%s", r, pi.Stack)})
			}
		}
	}()
	f()
	return nil
}

func panicKind(pi *rt.PanicInfo) string {
	if pi.Hang {
		return "hang"
	}
	return "panic"
}

// single runs body as the only thread of a simulation.
func single(body func()) {
	ts := rt.Run(rt.Options{Threads: []func(){body}, Budget: 4 << 20})
	rethrow(ts)
}

// libPanic is how a thread the library started ended, if not well.
var libPanic *rt.PanicInfo

func rethrow(ts []*rt.Thread) {
	for _, t := range ts {
		if t.Panic != nil && !t.Panic.Aborted {
			if !t.Main && (t.Panic.InLib || t.Panic.Hang) {
				libPanic = t.Panic
				continue
			}
			panic(HarnessError{"unexpected panic in simulated thread: " + t.Panic.Value + "\n" + t.Panic.Stack})
		}
	}
}

// runOne executes a scenario from a clean environment.
func runOne(w World, sc interface{}, prop string, trace bool) (o *Outcome) {
	o = NewOutcome(trace)
	libPanic = nil
	w.Exec(sc, prop, o)
	if libPanic != nil && len(o.V) == 0 {
		o.Fail(prop, panicKind(libPanic), "a goroutine of the library: %s in %s", libPanic.Value, libPanic.Where)
	}
	return o
}

func toJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		bug("marshal: %v", err)
	}
	return b
}

func fromJSON(w World, data []byte) interface{} {
	sc := w.New()
	if err := json.Unmarshal(data, sc); err != nil {
		bug("unmarshal scenario: %v", err)
	}
	return sc
}

func clip(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func clampI(v, lo, hi int) int { return maxI(lo, minI(v, hi)) }

func abs64(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

func sum64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
