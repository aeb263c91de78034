package main

import (
	"github.com/lkmio/avformat/collections"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "queue" (B04): a producer and a consumer of each queue type, either of which may stall for any number of
// steps. Model: a slice.

type QueueOp struct {
	Op string `json:"o"` // u push/add, o pop, b popback, k peek, r remove at, c clear, t look
	N  int    `json:"n"`
}

type QueueScenario struct {
	Type string    `json:"type"` // queue, ring, list
	Cap  int       `json:"cap"`
	Obs  int       `json:"obs,omitempty"` // observers are called every Obs steps only (0: after every step)
	Ops  []QueueOp `json:"ops"`
}

type queueWorld struct{}

func init() { register("B04", queueWorld{}, 2000000, 20000) }

func (queueWorld) New() interface{} { return &QueueScenario{} }
func (queueWorld) Rule(string) string {
	return "random producer/consumer op lists with stalls over Queue, RingBuffer and LinkedList of small capacity, all observers compared with a slice after every step; non-trivial: more elements than the initial capacity passed through"
}
func (queueWorld) Real() []string {
	return []string{"collections.Queue", "collections.RingBuffer", "collections.LinkedList"}
}
func (queueWorld) Stub() []string { return []string{"producer and consumer (scripted)"} }

func (queueWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &QueueScenario{Type: []string{"queue", "ring", "list"}[r.N(3)], Cap: r.In(1, 9)}
	if r.P(30) {
		sc.Obs = genObs(r)
	}
	n := 10 + r.Skew(80)
	if big {
		n = 10 + r.Skew(800)
	}
	if r.N(400) == 0 { // the consumer falls far behind and catches up, several times
		sc.Obs = []int{9, 50, 1000}[r.N(3)]
		sc.Cap = []int{1, 2, r.In(1, 64), 64, 100}[r.N(5)]
		held := 0
		for rounds := 1 + r.N(3); rounds > 0; rounds-- {
			for up := held + 40 + r.Skew(1200); held < up; held++ {
				sc.Ops = append(sc.Ops, QueueOp{"u", 0})
				if r.P(4) {
					sc.Ops = append(sc.Ops, QueueOp{"o", 0})
					held--
				}
			}
			for down := r.Skew(held); held > down; held-- {
				sc.Ops = append(sc.Ops, QueueOp{"o", 0})
				if r.P(4) {
					sc.Ops = append(sc.Ops, QueueOp{"u", 0})
					held++
				}
			}
			n += len(sc.Ops)
		}
	}
	phase, left := 0, 0
	for len(sc.Ops) < n {
		if left == 0 { // stalls: long stretches dominated by one side
			phase, left = r.N(3), r.In(1, 24)
		}
		left--
		w := []int{80, 30, 50}[phase]
		x := r.N(100)
		switch {
		case x < w:
			sc.Ops = append(sc.Ops, QueueOp{"u", 0})
		case x < w+(100-w)/2:
			sc.Ops = append(sc.Ops, QueueOp{"o", r.N(12)})
		case x < w+(100-w)*7/10:
			sc.Ops = append(sc.Ops, QueueOp{[]string{"b", "r"}[r.N(2)], r.N(12)})
		case x < 99:
			sc.Ops = append(sc.Ops, QueueOp{"k", r.N(12)})
		default:
			sc.Ops = append(sc.Ops, QueueOp{"c", 0})
		}
	}
	return sc
}

func (queueWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*QueueScenario)
	rt.SeedEnv(1)
	single(func() { queueRun(sc, o) })
}

func queueRun(sc *QueueScenario, o *Outcome) {
	capacity := clampI(sc.Cap, 1, 1000)
	var q *collections.Queue[int]
	var rb collections.RingBuffer[int]
	var l *collections.LinkedList[int]
	bad := func(pi *rt.PanicInfo, op string) bool {
		if pi != nil {
			o.Fail("B04", sc.Type+"-"+panicKind(pi), "%s: %s on a legal history: %s in %s", sc.Type, op, pi.Value, pi.Where)
			return true
		}
		return false
	}
	if bad(call(func() {
		switch sc.Type {
		case "queue":
			q = collections.NewQueue[int](capacity)
		case "ring":
			rb = collections.NewRingBuffer[int](capacity)
		default:
			l = &collections.LinkedList[int]{}
		}
	}), "constructor") {
		return
	}
	var m []int
	seq, through := 100, 0
	differ := func(step int, what string, got, want interface{}) {
		o.Fail("B04", sc.Type+"-"+what, "step %d: %s of the %s is %v, should be %v (elements %v)", step, what, sc.Type, got, want, m)
	}
	for step, op := range sc.Ops {
		n := maxI(0, op.N)
		switch op.Op {
		case "u":
			seq++
			v := seq
			through++
			if bad(call(func() {
				switch {
				case q != nil:
					q.Push(v)
				case rb != nil:
					rb.Push(v)
				default:
					l.Add(v)
				}
			}), "insert") {
				return
			}
			if rb != nil && len(m) == capacity {
				m = m[1:]
				o.Count("ring overflow")
			}
			m = append(m, v)
			if q != nil && len(m) > capacity {
				o.Count("queue grew")
			}
		case "o":
			if l != nil {
				if len(m) == 0 {
					continue
				}
				n %= len(m)
				var v int
				if bad(call(func() { v = l.Remove(n) }), "Remove") {
					return
				}
				want := m[n]
				m = append(m[:n:n], m[n+1:]...)
				if v != want {
					differ(step, "remove", v, want)
					return
				}
				break
			}
			var v, want int
			if bad(call(func() {
				if q != nil {
					v = q.Pop()
				} else {
					v = rb.Pop()
				}
			}), "Pop") {
				return
			}
			if len(m) > 0 {
				want = m[0]
				m = m[1:]
			} else {
				o.Count("pop while empty")
			}
			if v != want {
				differ(step, "pop", v, want)
				return
			}
		case "b":
			if q == nil || len(m) == 0 {
				continue
			}
			var v int
			if bad(call(func() { v = q.PopBack() }), "PopBack") {
				return
			}
			want := m[len(m)-1]
			m = m[:len(m)-1]
			if v != want {
				differ(step, "popback", v, want)
				return
			}
		case "r":
			if l == nil || len(m) == 0 {
				continue
			}
			n = len(m) - 1 - n%len(m)
			var v int
			if bad(call(func() { v = l.Remove(n) }), "Remove") {
				return
			}
			want := m[n]
			m = append(m[:n:n], m[n+1:]...)
			if v != want {
				differ(step, "remove", v, want)
				return
			}
		case "k":
			if len(m) == 0 || rb != nil {
				continue
			}
			n %= len(m)
			var v int
			if bad(call(func() {
				if q != nil {
					v = q.Peek(n)
				} else {
					v = l.Get(n)
				}
			}), "Peek/Get") {
				return
			}
			if v != m[n] {
				differ(step, "peek", v, m[n])
				return
			}
		case "c":
			if l != nil {
				continue
			}
			if bad(call(func() {
				if q != nil {
					q.Clear()
				} else {
					rb.Clear()
				}
			}), "Clear") {
				return
			}
			m = nil
		default:
			continue
		}
		if observe(sc.Obs, step) && !queueObserve(sc, o, q, rb, l, m, capacity, step, bad) {
			return
		}
		o.LogN(op.Op, n, len(m))
	}
	// drain: everything comes out exactly once, in order
	for i, want := range m {
		var v int
		if bad(call(func() {
			switch {
			case q != nil:
				v = q.Pop()
			case rb != nil:
				v = rb.Pop()
			default:
				v = l.Remove(0)
			}
		}), "drain") {
			return
		}
		if v != want {
			o.Fail("B04", sc.Type+"-drain", "element %d drained is %d, should be %d", i, v, want)
			return
		}
	}
	o.Trivial = through <= capacity
}

func queueObserve(sc *QueueScenario, o *Outcome, q *collections.Queue[int], rb collections.RingBuffer[int], l *collections.LinkedList[int], m []int, capacity, step int, bad func(*rt.PanicInfo, string) bool) bool {
	var size int
	var empty, full, hasEmpty bool
	var a, b []int
	var head, tail int
	if bad(call(func() {
		switch {
		case q != nil:
			size, empty, hasEmpty = q.Size(), q.IsEmpty(), true
			a, b = q.Data()
			if len(m) > 0 {
				head, tail = q.Head(), q.Tail()
			}
		case rb != nil:
			size, empty, full, hasEmpty = rb.Size(), rb.IsEmpty(), rb.IsFull(), true
			a, b = rb.Data()
			if len(m) > 0 {
				head, tail = rb.Head(), rb.Tail()
			}
		default:
			size = l.Size()
			for i := range m {
				a = append(a, l.Get(i))
			}
			if len(m) > 0 {
				head, tail = l.Get(0), l.Get(len(m)-1)
			}
		}
	}), "observers") {
		return false
	}
	fail := func(what string, got, want interface{}) bool {
		o.Fail("B04", sc.Type+"-"+what, "step %d: %s of the %s is %v, should be %v (elements %v)", step, what, sc.Type, got, want, m)
		return false
	}
	if size != len(m) {
		return fail("size", size, len(m))
	}
	if hasEmpty && empty != (len(m) == 0) {
		return fail("emptiness", empty, len(m) == 0)
	}
	if rb != nil && full != (len(m) == capacity) {
		return fail("fullness", full, len(m) == capacity)
	}
	if rb != nil && rb.Capacity() != capacity {
		return fail("capacity", rb.Capacity(), capacity)
	}
	all := append(append([]int{}, a...), b...)
	if len(all) != len(m) {
		return fail("data", all, m)
	}
	for i := range all {
		if all[i] != m[i] {
			return fail("data", all, m)
		}
	}
	if len(m) > 0 && (head != m[0] || tail != m[len(m)-1]) {
		return fail("ends", []int{head, tail}, []int{m[0], m[len(m)-1]})
	}
	return true
}

// genObs: looking changes nothing in correct code, but may hide what goes wrong between looks.
func genObs(r *Rng) int { return []int{2, 3, 5, 9, 1000}[r.N(5)] }

func observe(obs, step int) bool { return obs <= 0 || step%obs == obs-1 }
