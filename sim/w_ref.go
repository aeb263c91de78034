package main

import (
	"fmt"
	"sort"

	"github.com/lkmio/avformat/collections"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "ref" (C01): threads share one real ReferenceCounter, take, drop, count and read under planned preemptions.
// Oracles: exactly one drop is told it was the last, no thread holds a reference at that moment, the object is never
// read after its cleanup, and the whole history of calls and results is linearizable against an integer.

type RefOp struct {
	Op string `json:"o"`           // t take, d drop, c count, r read the object, n use of a counter of the thread's own
	K  int    `json:"k,omitempty"` // which counter
}

type RefScenario struct {
	Crowd   int         `json:"crowd,omitempty"` // further references (to the first object) held for as long as the threads run
	Objs    int         `json:"objs,omitempty"`  // shared objects
	Reset   bool        `json:"reset,omitempty"` // the object is put under its counter after that was created
	Plan    []rt.Switch `json:"plan"`
	Threads [][]RefOp   `json:"threads"`
}

type refWorld struct{}

func init() { register("C01", refWorld{}, 3000000, 15000) }

func (refWorld) New() interface{} { return &RefScenario{} }
func (refWorld) Rule(string) string {
	return "2-5 threads, up to 20 calls in all, 1-3 shared objects, counters created and dropped meanwhile, each thread starting with one reference to each and finally dropping all of its own, up to 40 planned preemptions at statement and read-modify-write granularity; the history is checked for linearizability; non-trivial: a preemption was taken"
}
func (refWorld) Real() []string { return []string{"collections.ReferenceCounter"} }
func (refWorld) Stub() []string { return []string{"thread scheduler"} }

func (refWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &RefScenario{}
	nt := 2 + r.Skew(4)
	sc.Objs = 1
	if r.P(25) {
		sc.Objs = 2 + r.Skew(2)
	}
	sc.Reset = r.P(30)
	left := maxI(20-nt*sc.Objs, 2)
	own := r.P(30)
	for t := 0; t < nt; t++ {
		var ops []RefOp
		var held [3]int
		for k := 0; k < sc.Objs; k++ {
			held[k] = 1
		}
		for k := r.Skew(7); k > 0 && left > 0; k-- {
			left--
			if own && r.P(30) {
				ops = append(ops, RefOp{Op: "n"})
				continue
			}
			i := r.N(sc.Objs)
			switch x := r.N(10); {
			case x < 3 && held[i] < 4 && left > 0:
				ops = append(ops, RefOp{Op: "t", K: i})
				held[i]++
				left--
			case x < 6 && held[i] > 1:
				ops = append(ops, RefOp{Op: "d", K: i})
				held[i]--
			case x < 8:
				ops = append(ops, RefOp{Op: "c", K: i})
			default:
				ops = append(ops, RefOp{Op: "r", K: i})
			}
		}
		for k := 0; k < sc.Objs; k++ {
			for ; held[k] > 0; held[k]-- {
				ops = append(ops, RefOp{Op: "d", K: k})
				if own && r.P(30) {
					ops = append(ops, RefOp{Op: "n"})
				}
			}
		}
		sc.Threads = append(sc.Threads, ops)
	}
	if r.P(3) {
		sc.Crowd = []int{100, 120, 250, 1000, 32760, 65530, 70000}[r.Skew(7)] + r.N(12)
		if r.N(500) == 0 { // more than 24 bits hold
			sc.Crowd = 1<<24 - 8 + r.N(12)
		}
	}
	sc.Plan = genPlan(r, 40, 12)
	return sc
}

type refCall struct {
	op       string
	k        int
	th       int
	inv, ret int
	last     bool
	count    int32
}

type refObject struct{ dead bool }

type refShared struct {
	obj   *refObject
	rc    *collections.ReferenceCounter[*refObject]
	held  []int // by thread
	total int
	lasts int
	crowd int
}

func (refWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*RefScenario)
	rt.SeedEnv(1)
	nt := len(sc.Threads)
	if nt == 0 || nt > 8 {
		o.Trivial = true
		return
	}
	no := clampI(sc.Objs, 1, 3)
	sh := make([]*refShared, no)
	ok := false
	single(func() {
		for k := range sh {
			s := &refShared{obj: &refObject{}, held: make([]int, nt), total: nt}
			sh[k] = s
			for i := range s.held {
				s.held[i] = 1
			}
			if k == 0 {
				s.crowd = clampI(sc.Crowd, 0, 1<<25)
			}
			if pi := call(func() {
				if sc.Reset {
					s.rc = collections.NewReferenceCounter(&refObject{dead: true})
					s.rc.ResetData(s.obj)
				} else {
					s.rc = collections.NewReferenceCounter(s.obj)
				}
				for i := 1; i < nt+s.crowd; i++ {
					if i&0xffff == 0 {
						rt.ResetBudget()
					}
					s.rc.Refer()
				}
			}); pi != nil {
				o.Fail("C01", panicKind(pi), "setting up: %s in %s", pi.Value, pi.Where)
				return
			}
		}
		ok = true
	})
	if !ok {
		return
	}
	clock := 0
	var hist []*refCall
	var bodies []func()
	for ti := range sc.Threads {
		ti := ti
		bodies = append(bodies, func() {
			lib := func(c *refCall, f func()) bool {
				clock++
				c.th, c.inv, c.ret = ti, clock, 1<<30
				hist = append(hist, c)
				pi := call(f)
				clock++
				c.ret = clock
				if pi != nil {
					o.Fail("C01", panicKind(pi), "%s: %s in %s", c.op, pi.Value, pi.Where)
					return false
				}
				return true
			}
			for _, op := range sc.Threads[ti] {
				if len(o.V) > 0 {
					return
				}
				k := clampI(op.K, 0, no-1)
				s := sh[k]
				if s.held[ti] == 0 && op.Op != "n" {
					continue // legal use only: no access without a reference
				}
				switch op.Op {
				case "t":
					if s.total > 40 {
						continue
					}
					if !lib(&refCall{op: "t", k: k}, func() { s.rc.Refer() }) {
						return
					}
					s.held[ti]++
					s.total++
				case "d":
					c := &refCall{op: "d", k: k}
					s.held[ti]-- // the reference is given up when the call begins
					if !lib(c, func() { c.last = s.rc.Release() }) {
						return
					}
					if c.last && s.crowd > 0 {
						o.Fail("C01", "last-under-holder", "thread %d was told its drop was the last one while %d references are held elsewhere", ti, s.crowd)
						return
					}
					if c.last {
						s.lasts++
						if s.lasts > 1 {
							o.Fail("C01", "two-last", "two drops were told that they were the last one")
							return
						}
						for t, n := range s.held {
							if n > 0 {
								o.Fail("C01", "last-under-holder", "thread %d was told its drop was the last one while thread %d holds %d references", ti, t, n)
								return
							}
						}
						s.obj.dead = true
					}
				case "c":
					c := &refCall{op: "c", k: k}
					if !lib(c, func() { c.count = s.rc.UseCount() }) {
						return
					}
				case "r":
					var got *refObject
					if pi := call(func() { got = s.rc.Get() }); pi != nil {
						o.Fail("C01", panicKind(pi), "Get: %s in %s", pi.Value, pi.Where)
						return
					}
					if got != s.obj {
						o.Fail("C01", "object", "Get did not return the shared object")
						return
					}
					if got.dead {
						o.Fail("C01", "read-after-cleanup", "thread %d read the object under its reference after the cleanup", ti)
						return
					}
				case "n":
					mine := &refObject{}
					var got *refObject
					var n int32
					var early, last bool
					if pi := call(func() {
						rc := collections.NewReferenceCounter(mine)
						rc.Refer()
						got, n = rc.Get(), rc.UseCount()
						early = rc.Release()
						last = rc.Release()
					}); pi != nil {
						o.Fail("C01", panicKind(pi), "a counter of its own: %s in %s", pi.Value, pi.Where)
						return
					}
					if got != mine || n != 2 || early || !last {
						o.Fail("C01", "own", "a counter nobody else knows: count %d after two references, its own object %v, first drop last=%v, second last=%v", n, got == mine, early, last)
						return
					}
					o.Count("counter created meanwhile")
				}
				o.LogN(op.Op, ti, k)
			}
		})
	}
	finishThreads(rt.Run(rt.Options{Threads: bodies, Plan: sc.Plan, Budget: 1 << 20}), "C01", o)
	o.Trivial = rt.Switched == 0
	if len(o.V) > 0 {
		return
	}
	for k, s := range sh {
		all := true
		for _, n := range s.held {
			all = all && n == 0
		}
		if all && s.crowd > 0 {
			o.Count("hundreds or more references held")
			single(func() {
				for i := 0; i < s.crowd && len(o.V) == 0; i++ {
					last := false
					if pi := call(func() { last = s.rc.Release() }); pi != nil {
						o.Fail("C01", panicKind(pi), "Release: %s in %s", pi.Value, pi.Where)
					} else if last != (i == s.crowd-1) {
						o.Fail("C01", "crowd-last", "drop %d of the %d remaining references reported last=%v", i+1, s.crowd, last)
					}
				}
			})
		}
		if all && s.crowd == 0 && s.lasts != 1 {
			o.Fail("C01", "no-last", "every reference was dropped and %d drops were told they were the last one", s.lasts)
			return
		}
		var h []*refCall
		for _, c := range hist {
			if c.k == k {
				h = append(h, c)
			}
		}
		if len(h) <= 26 && !linearizable(h, nt+s.crowd) {
			text := ""
			for _, c := range h {
				text += fmt.Sprintf(" %s@%d[%d-%d]", c.op, c.th, c.inv, c.ret)
				if c.op == "d" {
					text += fmt.Sprintf("=%v", c.last)
				} else if c.op == "c" {
					text += fmt.Sprintf("=%d", c.count)
				}
			}
			o.Fail("C01", "not-linearizable", "no order of the calls explains the results; %d references at the start, calls:%s", nt+s.crowd, text)
		}
	}
	o.Count("histories checked for linearizability")
}

// linearizable searches an order of the calls that respects real time and explains every result.
func linearizable(h []*refCall, start int) bool {
	h = append([]*refCall(nil), h...)
	sort.SliceStable(h, func(i, j int) bool { return h[i].inv < h[j].inv })
	full := uint32(1)<<uint(len(h)) - 1
	seen := map[uint32]bool{} // the count is a function of the set of calls done
	var rec func(done uint32, count int) bool
	rec = func(done uint32, count int) bool {
		if done == full {
			return true
		}
		if seen[done] {
			return false
		}
		seen[done] = true
		minRet := 1 << 30
		for i, c := range h {
			if done>>uint(i)&1 == 0 && c.ret < minRet {
				minRet = c.ret
			}
		}
		for i, c := range h {
			if done>>uint(i)&1 == 1 || c.inv > minRet {
				continue
			}
			n := count
			switch c.op {
			case "t":
				n++
			case "d":
				n--
				if c.last != (n == 0) {
					continue
				}
			case "c":
				if int(c.count) != n {
					continue
				}
			}
			if rec(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return rec(0, start)
}
