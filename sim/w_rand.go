package main

import (
	"fmt"
	"math"

	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "random" (R01): several threads draw random strings and integers while the simulated clock stands still,
// crawls, jumps or is set back, preempted at any statement. Oracles: charset, length and range of every draw,
// distinctness of long strings, reachability of every value of small ranges, variation within wide ranges.

type RandOp struct {
	Op  string `json:"o"` // s string, i integer, c coverage of a small range, d variation within a wide range, x the widest ranges
	N   int    `json:"n"`
	Min int    `json:"min,omitempty"`
	Adv int64  `json:"adv,omitempty"` // clock change before the draw (ns)
}

type RandScenario struct {
	Env     uint64      `json:"env"`
	Step    int64       `json:"step"` // clock change at every reading (ns)
	Plan    []rt.Switch `json:"plan"`
	Threads [][]RandOp  `json:"threads"`
}

type randWorld struct{}

func init() { register("R01", randWorld{}, 1000000, 10000) }

func (randWorld) New() interface{} { return &RandScenario{} }
func (randWorld) Rule(string) string {
	return "1-4 threads drawing strings (0-64 characters) and integers while the clock stalls, crawls by nanoseconds, jumps or is set back, with up to 30 planned preemptions; non-trivial: two long strings, or a coverage or variation series, were drawn"
}
func (randWorld) Real() []string {
	return []string{"utils.RandStringBytes", "utils.RandomIntInRange"}
}
func (randWorld) Stub() []string {
	return []string{"wall clock", "math/rand global source (seeded by the scenario)", "thread scheduler"}
}

func (randWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &RandScenario{Env: r.U(), Step: []int64{0, 0, 0, 1, 100, 1000000, -1, -1000}[r.N(8)]}
	nt := 1 + r.Skew(4)
	for t := 0; t < nt; t++ {
		var ops []RandOp
		n := 1 + r.Skew(10)
		if big {
			n *= 4
		}
		for i := 0; i < n; i++ {
			op := RandOp{}
			if r.P(20) {
				op.Adv = []int64{1, -1, 1000, -1000000000, 3600000000000, -3600000000000}[r.N(6)]
			}
			switch r.N(8) {
			case 0, 1, 2, 3:
				op.Op, op.N = "s", []int{16, 16, 17, 24, 32, 64, r.N(16)}[r.N(7)]
			case 4, 5:
				op.Op = "i"
				op.Min = r.In(-1000, 1000)
				op.N = r.Skew(1 << uint(r.In(0, 40)))
			case 6:
				op.Op, op.Min, op.N = "c", r.In(-5, 5), r.N(4)
				if !r.P(25) {
					op.Op, op.N = "s", 16
				}
			default:
				op.Op, op.Min, op.N = "d", -(1 << 40), 1<<41
				if r.P(40) {
					op.Op, op.N = "x", r.N(5)
				} else if r.P(40) {
					op.Op, op.N, op.Min = "w", r.In(4, 62), r.In(-1000, 1000)
				}
			}
			ops = append(ops, op)
		}
		sc.Threads = append(sc.Threads, ops)
	}
	if nt > 1 {
		sc.Plan = genPlan(r, 30, 120)
	}
	return sc
}

// genPlan draws a preemption plan: up to max switches, mostly short distances apart.
func genPlan(r *Rng, max, far int) []rt.Switch {
	var p []rt.Switch
	n := r.N(max + 1)
	style := r.N(3)
	shared := 0
	if r.P(30) {
		shared = []int{20, 50, 100}[r.N(3)]
	}
	for i := 0; i < n; i++ {
		if r.P(shared) {
			p = append(p, rt.Switch{Delta: uint32(r.Skew(12)), To: uint32(r.N(4)), Shared: true})
			continue
		}
		d := 0
		switch style {
		case 0:
			d = r.N(6)
		case 1:
			d = r.N(far)
		default:
			d = r.Skew(far)
			if r.P(30) {
				d = r.N(4)
			}
		}
		p = append(p, rt.Switch{Delta: uint32(d), To: uint32(r.N(4))})
	}
	return p
}

func (randWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*RandScenario)
	rt.SeedEnv(sc.Env)
	rt.ClockStep = func(int) { rt.ClockNow += sc.Step }
	type drawn struct{ t, i int }
	long := map[string]drawn{}
	interesting := 0
	var bodies []func()
	for ti := range sc.Threads {
		ti := ti
		bodies = append(bodies, func() {
			for i, op := range sc.Threads[ti] {
				rt.ClockNow += op.Adv
				if op.Adv != 0 {
					o.Count("clock stepped")
				}
				n := op.N
				if n < 0 {
					n = 0
				}
				drawInt := func(min, max int) (v int, ok bool) {
					if pi := callShared(func() { v = utils.RandomIntInRange(min, max) }); pi != nil {
						o.Fail("R01", panicKind(pi), "RandomIntInRange(%d,%d): %s in %s", min, max, pi.Value, pi.Where)
						return 0, false
					}
					if v < min || v > max {
						o.Fail("R01", "range", "RandomIntInRange(%d,%d) returned %d", min, max, v)
						return 0, false
					}
					return v, true
				}
				switch op.Op {
				case "s":
					n = minI(n, 4096)
					var s string
					if pi := callShared(func() { s = utils.RandStringBytes(n) }); pi != nil {
						o.Fail("R01", panicKind(pi), "RandStringBytes(%d): %s in %s", n, pi.Value, pi.Where)
						return
					}
					o.LogN("s", ti, n)
					if len(s) != n {
						o.Fail("R01", "length", "RandStringBytes(%d) returned %d bytes", n, len(s))
						return
					}
					for _, c := range []byte(s) {
						if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
							o.Fail("R01", "charset", "RandStringBytes(%d) returned the byte %#x", n, c)
							return
						}
					}
					if n >= 16 {
						if len(long) > 0 {
							interesting++
						}
						for k, d := range long {
							if len(k) == len(s) && k == s {
								o.Fail("R01", "collision", "thread %d draw %d and thread %d draw %d both returned %q", d.t, d.i, ti, i, s)
								return
							}
						}
						long[s] = drawn{ti, i}
					}
				case "i":
					n = minI(n, 1<<50)
					if _, ok := drawInt(op.Min, op.Min+n); !ok {
						return
					}
					o.LogN("i", ti, op.Min, n)
				case "c":
					n = minI(n, 5)
					seen := map[int]bool{}
					for k := 0; k < 250; k++ {
						v, ok := drawInt(op.Min, op.Min+n)
						if !ok {
							return
						}
						seen[v] = true
					}
					interesting++
					if len(seen) != n+1 {
						o.Fail("R01", "coverage", "250 draws of RandomIntInRange(%d,%d) took only %d of the %d values", op.Min, op.Min+n, len(seen), n+1)
						return
					}
					o.LogN("c", ti, n)
				case "x": // ranges wider than an int can count
					e := [][2]int{{0, math.MaxInt}, {math.MinInt, math.MaxInt}, {-1, math.MaxInt}, {math.MinInt, 0}, {math.MinInt + 1, math.MaxInt - 1}}[minI(n, 4)]
					seen := map[int]bool{}
					for k := 0; k < 6; k++ {
						v, ok := drawInt(e[0], e[1])
						if !ok {
							return
						}
						seen[v] = true
					}
					interesting++
					if len(seen) < 2 {
						o.Fail("R01", "stuck", "six draws from [%d,%d] were all the same", e[0], e[1])
						return
					}
				case "w": // the top half, the bottom half, and either parity of a wide range can occur
					n = clampI(n, 4, 62)
					var top, odd int
					for k := 0; k < 80; k++ {
						v, ok := drawInt(op.Min, op.Min+(1<<uint(n)-1))
						if !ok {
							return
						}
						top += (v - op.Min) >> uint(n-1) & 1
						odd += (v - op.Min) & 1
					}
					interesting++
					if top == 0 || top == 80 || odd == 0 || odd == 80 {
						o.Fail("R01", "half", "80 draws from %d consecutive integers from %d on: %d in the upper half, %d odd offsets", 1<<uint(n), op.Min, top, odd)
						return
					}
					o.LogN("w", ti, n)
				case "d":
					seen := map[int]bool{}
					for k := 0; k < 6; k++ {
						v, ok := drawInt(op.Min, op.Min+maxI(n, 1<<41))
						if !ok {
							return
						}
						seen[v] = true
					}
					interesting++
					if len(seen) < 2 {
						o.Fail("R01", "stuck", "six draws from a range of 2^41 values were all the same")
						return
					}
				}
			}
		})
	}
	if len(bodies) == 0 {
		o.Trivial = true
		return
	}
	finishThreads(rt.Run(rt.Options{Threads: bodies, Plan: sc.Plan, Budget: 4 << 20}), "R01", o)
	o.Trivial = interesting == 0
	if sc.Step == 0 && rt.ClockReads > 1 {
		o.Count("several draws within one clock tick")
	}
}

// callShared is call for bodies that run beside other simulated threads: library panics are reported to the caller,
// a deadlock or an exhausted step budget likewise.
func callShared(f func()) *rt.PanicInfo { return call(f) }

// finishThreads looks at how the threads of a concurrent run ended.
func finishThreads(ts []*rt.Thread, prop string, o *Outcome) {
	o.Switches = rt.Switched
	o.Trace = rt.TraceHash()
	rethrow(ts)
	for _, t := range ts {
		if t.Main && t.Panic != nil && t.Panic.Aborted && len(o.V) == 0 {
			o.Fail(prop, "hang", "simulated threads could not finish (deadlock)")
		}
	}
	for _, r := range rt.Races {
		o.Fail(prop, "race", "%s", r)
		break
	}
	o.LogS(fmt.Sprintf("switches %d", rt.Switched))
}
