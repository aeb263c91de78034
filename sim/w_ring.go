package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "ring" (B01): one producer and one consumer of a real RBBlockBuffer. The producer writes blocks in pieces,
// the consumer holds fetched blocks for as long as its stall pattern says and releases them oldest first; blocks
// are dropped from the tail; the whole buffer is cleared. Model: a list of byte strings.

type RingOp struct {
	Op string `json:"o"` // w write, a alloc, f fetch, p pop, b pop back, c clear, d drain everything
	N  int    `json:"n"`
}

type RingScenario struct {
	Cap  int      `json:"cap"`
	Ops  []RingOp `json:"ops"`
	Obs  int      `json:"obs,omitempty"`
	Loop int      `json:"loop,omitempty"` // the list is gone through that many times
	Max  int      `json:"max"`            // the consumer releases before its backlog (bytes) exceeds this; 0: no limit
}

type ringWorld struct{}

func init() { register("B01", ringWorld{}, 2000000, 20000) }

func (ringWorld) New() interface{} { return &RingScenario{} }
func (ringWorld) Rule(string) string {
	return "random op lists (write/alloc in pieces, fetch, release oldest, drop newest, clear, drain) over a small-capacity ring with random consumer lag; block sizes biased to fractions of the capacity so that exact fits, wrap-around and growth occur; non-trivial: at least one wrap-around or growth happened while a block was held"
}
func (ringWorld) Real() []string {
	return []string{"collections.RBBlockBuffer", "collections.DirectBlockBuffer", "collections.Queue"}
}
func (ringWorld) Stub() []string { return []string{"producer and consumer (scripted)"} }

func (ringWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &RingScenario{Cap: []int{8, 16, 24, 32, 48, 64, 100, 128, 256, 1000}[r.N(10)]}
	n := 10 + r.Skew(120)
	if big {
		n = 20 + r.Skew(600)
	}
	unit := maxI(1, sc.Cap/[]int{2, 3, 4, 5, 8, 16, 7}[r.N(7)])
	style := r.N(5)
	if r.N(4000) == 0 { // buffers of megabytes
		sc.Cap, n, style = 1<<uint(r.In(16, 21))+r.N(3), 10+r.N(25), 0
		unit = sc.Cap / r.In(2, 5)
	}
	if style == 4 { // steady state: bounded backlog for a long time
		sc.Max = sc.Cap * r.In(1, 3)
		n = 150 + r.N(200)
		if big {
			n *= 3
		}
	}
	if r.P(20) {
		sc.Obs = genObs(r)
	}
	if style == 4 && r.P(3) { // for a very long time
		top := r.In(2, 12)
		sc.Cap, sc.Max, sc.Obs = top*r.In(1, 8), top*r.In(2, 6), 1000
		for n = 6000 + r.N(6000); n > 0; n-- {
			sc.Ops = append(sc.Ops, RingOp{"w", r.In(1, top)}, RingOp{"f", 0})
		}
		if r.P(1) {
			sc.Loop = r.In(20, 60)
		}
	}
	if r.N(500) == 0 { // a consumer that falls hundreds of blocks behind and catches up
		sc.Cap, sc.Obs, sc.Max = r.In(50, 3000), 50, 0
		held := 0
		for rounds := 1 + r.N(3); rounds > 0; rounds-- {
			for up := held + 70 + r.Skew(500); held < up; held++ {
				sc.Ops = append(sc.Ops, RingOp{"w", r.In(1, 6)}, RingOp{"f", 0})
			}
			for down := r.Skew(held); held > down; held-- {
				sc.Ops = append(sc.Ops, RingOp{"p", 0})
				if r.P(6) {
					sc.Ops = append(sc.Ops, RingOp{"w", r.In(1, 6)}, RingOp{"f", 0})
					held++
				}
			}
		}
		n += len(sc.Ops)
	}
	size := func() int {
		switch r.N(6) {
		case 0:
			return r.In(1, sc.Cap)
		case 1:
			return r.In(1, 3)
		case 2:
			return unit * r.In(1, 3)
		case 3:
			return maxI(1, unit+r.In(-1, 1))
		case 4:
			if r.P(20) {
				return 0
			}
			return r.In(1, maxI(1, sc.Cap/2))
		}
		return unit
	}
	wPop := r.In(5, 45)
	wBack := r.N(12)
	wClear := 0
	if r.P(30) {
		wClear = 2
	}
	for len(sc.Ops) < n {
		switch x := r.N(100); {
		case x < wPop:
			sc.Ops = append(sc.Ops, RingOp{"p", 0})
		case x < wPop+wBack:
			sc.Ops = append(sc.Ops, RingOp{"b", 0})
		case x < wPop+wBack+wClear:
			sc.Ops = append(sc.Ops, RingOp{"c", 0})
		case x < wPop+wBack+wClear+1:
			sc.Ops = append(sc.Ops, RingOp{"d", 0})
		default:
			s := size()
			for k := r.Skew(4); k > 0 && s > 1; k-- {
				c := r.In(1, s-1)
				sc.Ops = append(sc.Ops, RingOp{"w", c})
				s -= c
				if r.P(15) {
					sc.Ops = append(sc.Ops, RingOp{"p", 0})
				}
			}
			if r.P(20) {
				sc.Ops = append(sc.Ops, RingOp{"a", s})
			} else {
				sc.Ops = append(sc.Ops, RingOp{"w", s})
			}
			if !r.P(8) {
				sc.Ops = append(sc.Ops, RingOp{"f", 0})
			}
		}
	}
	sc.Ops = append(sc.Ops, RingOp{"d", 0})
	return sc
}

type ringBlock struct {
	want []byte
	got  []byte // slice handed out by Fetch, nil while unfinished
	done bool
}

func (ringWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*RingScenario)
	rt.SeedEnv(1)
	single(func() { ringRun(sc, o) })
}

func ringRun(sc *RingScenario, o *Outcome) {
	capacity := clampI(sc.Cap, 1, 1<<22)
	buf := collections.NewRBBlockBuffer(capacity)
	var live []*ringBlock
	var seq byte
	maxBlock, maxBacklog, maxCap := 1, 0, 0
	total := 0
	held := false
	bad := func(pi *rt.PanicInfo, op string) bool {
		if pi != nil {
			o.Fail("B01", panicKind(pi), "%s on a legal history: %s in %s", op, pi.Value, pi.Where)
			return true
		}
		return false
	}
	backlog := func() int {
		n := 0
		for _, b := range live {
			n += len(b.want)
		}
		return n
	}
	rounds := clampI(sc.Loop, 1, 100)
	for step := 0; step < rounds*len(sc.Ops); step++ {
		op := sc.Ops[step%len(sc.Ops)]
		if op.Op == "d" && (step+1)%len(sc.Ops) == 0 && step+1 < rounds*len(sc.Ops) {
			continue // everything is released only after the last round
		}
		if len(o.V) > 0 {
			return
		}
		n := clampI(op.N, 0, 1<<22)
		kind := op.Op
		if (kind == "w" || kind == "a") && sc.Max > 0 {
			// bounded consumer: release first
			for backlog()+n > sc.Max && len(live) > 0 && live[0].done {
				if bad(call(func() { buf.Pop() }), "Pop") {
					return
				}
				live = live[1:]
			}
			if backlog()+n > sc.Max {
				continue
			}
		}
		switch kind {
		case "w", "a":
			data := make([]byte, n)
			for i := range data {
				seq++
				data[i] = seq ^ byte(step)
			}
			if kind == "w" {
				if bad(call(func() { buf.Write(data) }), "Write") {
					return
				}
			} else {
				var dst []byte
				if bad(call(func() { dst = buf.Alloc(n) }), "Alloc") {
					return
				}
				if len(dst) != n {
					o.Fail("B01", "alloc-size", "Alloc(%d) returned %d bytes", n, len(dst))
					return
				}
				copy(dst, data)
			}
			if len(live) == 0 || live[len(live)-1].done {
				live = append(live, &ringBlock{})
			}
			b := live[len(live)-1]
			b.want = append(b.want, data...)
			total += n
			maxBlock = maxI(maxBlock, len(b.want))
			if len(live) > 1 && live[0].done {
				held = true
			}
		case "f":
			if len(live) == 0 || live[len(live)-1].done {
				continue
			}
			b := live[len(live)-1]
			if bad(call(func() { b.got = buf.Fetch() }), "Fetch") {
				return
			}
			b.done = true
			if !bytes.Equal(b.got, b.want) {
				o.Fail("B01", "fetched", "step %d: fetched block is %s, written %s", step, clip(b.got), clip(b.want))
				return
			}
			maxCap = maxI(maxCap, cap(b.got))
			maxBacklog = maxI(maxBacklog, backlog())
			if maxCap > 8*maxBacklog+16*maxBlock+2*capacity+1024 {
				o.Fail("B01", "unbounded-growth", "memory grew to %d bytes although the backlog never exceeded %d bytes and no block %d bytes", maxCap, maxBacklog, maxBlock)
				return
			}
			if cap(b.got) > capacity && held {
				o.Stats["growth while a block was held"]++
			}
		case "p":
			if len(live) == 0 || !live[0].done {
				continue
			}
			if bad(call(func() { buf.Pop() }), "Pop") {
				return
			}
			live = live[1:]
		case "b":
			if len(live) == 0 {
				continue
			}
			if bad(call(func() { buf.PopBack() }), "PopBack") {
				return
			}
			live = live[:len(live)-1]
			o.Count("drop newest")
		case "c":
			if bad(call(func() { buf.Clear() }), "Clear") {
				return
			}
			live = nil
			o.Count("clear")
		case "d":
			if k := len(live); k > 0 && !live[k-1].done {
				if bad(call(func() { live[k-1].got = buf.Fetch() }), "Fetch") {
					return
				}
				live[k-1].done = true
				if !bytes.Equal(live[k-1].got, live[k-1].want) {
					o.Fail("B01", "fetched", "step %d: fetched block is %s, written %s", step, clip(live[k-1].got), clip(live[k-1].want))
					return
				}
			}
			for _, b := range live {
				if !bytes.Equal(b.got, b.want) {
					o.Fail("B01", "overwritten", "step %d: a held block changed before it was released", step)
					return
				}
				if bad(call(func() { buf.Pop() }), "Pop") {
					return
				}
			}
			live = nil
		default:
			continue
		}
		// invariants after every step
		for i, b := range live {
			if b.done && !bytes.Equal(b.got, b.want) {
				o.Fail("B01", "overwritten", "step %d (%s %d): held block %d of %d changed: now %s, was %s", step, kind, n, i, len(live), clip(b.got), clip(b.want))
				return
			}
		}
		pend := 0
		if k := len(live); k > 0 && !live[k-1].done {
			pend = len(live[k-1].want)
		}
		if !observe(sc.Obs, step) {
			maxBacklog = maxI(maxBacklog, backlog())
			continue
		}
		var got, size int
		if bad(call(func() { got = buf.PendingBlockSize(); size = buf.Size() }), "PendingBlockSize") {
			return
		}
		if got != pend {
			o.Fail("B01", "pending", "step %d: pending size reported %d, written to the unfinished block %d", step, got, pend)
			return
		}
		if len(live) == 0 && size != 0 {
			o.Fail("B01", "not-empty", "step %d: every block was released but the buffer reports %d blocks", step, size)
			return
		}
		bl := backlog()
		maxBacklog = maxI(maxBacklog, bl)
		o.LogN(kind, n, len(live), bl, got, size)
	}
	if total <= capacity {
		o.Trivial = !held
	}
	if sc.Max > 0 {
		o.Count("bounded-backlog run")
	}
	if total > 2*capacity {
		o.Count("wrapped or grew")
	}
}
