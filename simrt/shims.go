package verifsimrt

import (
	"fmt"
	"io"
	"math/rand"
	"sort"
	"sync"
	"time"
)

// ---- run-wide randomness for decisions the scenario leaves to a sub-seed (map order, recycling) ----

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int { return int(r.next() % uint64(n)) }

var env = rng{1}

// Stats of environment decisions, for the evidence file.
var MapRanges, PoolReused, PoolFresh, PoolLost int

// SeedEnv resets every simulated environment source for a run.
func SeedEnv(seed uint64) {
	env = rng{seed*2 + 1}
	MapRanges, PoolReused, PoolFresh, PoolLost = 0, 0, 0, 0
	for _, p := range pools {
		p.items = nil
	}
	DoublePuts, PoolGets, PoolPuts = 0, 0, 0
	PoolMode = 0
	PoolOnGet, PoolOnPut = nil, nil
	ClockNow, ClockStep, ClockReads = 1700000000000000000, nil, 0
	mono, timers, TimersFired = 0, nil, 0
	globalRand = rand.New(rand.NewSource(int64(seed>>1) + 7))
}

// ---- map iteration ----

type MapEntry[K comparable, V any] struct {
	K K
	V V
	m map[K]V
}

// Live reports whether the key is still present (a deleted entry that was not reached yet is not produced).
func (e *MapEntry[K, V]) Live() bool {
	v, ok := e.m[e.K]
	if ok {
		e.V = v
	}
	return ok
}

// MapEntries returns the entries of m in an order decided by the simulator.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[K, V] {
	MR(m)
	res := make([]MapEntry[K, V], 0, len(m))
	for k, v := range m {
		res = append(res, MapEntry[K, V]{k, v, m})
	}
	if len(res) > 1 {
		MapRanges++
		sort.Slice(res, func(i, j int) bool { return fmt.Sprint(res[i].K) < fmt.Sprint(res[j].K) })
		for i := len(res) - 1; i > 0; i-- {
			j := env.n(i + 1)
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

// ---- sync.Pool ----

var pools []*Pool

// Recycling policy: 0 newest first, 1 oldest first, 2 random, 3 never (as if collected), 4 mixed.
var PoolMode int
var DoublePuts, PoolGets, PoolPuts int
var PoolOnGet, PoolOnPut func(x any, reused bool)

type Pool struct {
	New   func() any
	items []any
	known bool
}

func (p *Pool) Get() any {
	Y()
	PoolGets++
	mode := PoolMode
	if mode == 4 {
		mode = env.n(4)
	}
	if n := len(p.items); n > 0 && mode != 3 {
		i := n - 1
		if mode == 1 {
			i = 0
		} else if mode == 2 {
			i = env.n(n)
		}
		x := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		PoolReused++
		if PoolOnGet != nil {
			PoolOnGet(x, true)
		}
		return x
	}
	if p.New == nil {
		return nil
	}
	PoolFresh++
	x := p.New()
	if PoolOnGet != nil {
		PoolOnGet(x, false)
	}
	return x
}

func (p *Pool) Put(x any) {
	Y()
	if x == nil {
		return
	}
	PoolPuts++
	if !p.known {
		p.known = true
		pools = append(pools, p)
	}
	for _, o := range p.items {
		if o == x {
			DoublePuts++
		}
	}
	if PoolOnPut != nil {
		PoolOnPut(x, false)
	}
	p.items = append(p.items, x)
}

// ---- locks: cooperative, aware of the simulated scheduler ----

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	Y()
	Block(func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	Y()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	Y()
	Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	Y()
}
func (m *RWMutex) RLock() {
	Y()
	Block(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	Y()
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	Y()
}
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Y()
	Block(func() bool { return w.n == 0 })
}

// ---- time ----

// ClockNow is the simulated wall clock in nanoseconds; ClockStep, if set, is applied after every reading.
var ClockNow int64 = 1700000000000000000
var ClockStep func(reads int)
var ClockReads int

func TimeNow() time.Time {
	Y()
	t := time.Unix(0, ClockNow)
	ClockReads++
	if ClockStep != nil {
		ClockStep(ClockReads)
	}
	return t
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
func TimeSleep(d time.Duration) {
	Y()
	if d > 0 && active && !cur.Main { // a background thread: the others go on meanwhile
		Recv(newTimer(d, nil, 0).C)
		return
	}
	if d > 0 {
		ClockNow += int64(d)
		mono += int64(d)
	}
}

// ---- timers: they run on the simulated monotonic clock and fire when the harness lets time pass ----

var mono int64
var timers []*Timer
var TimersFired int

type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	f      func()
	when   int64
	period int64
	armed  bool
}

type Ticker struct {
	C <-chan time.Time
	t *Timer
}

func newTimer(d time.Duration, f func(), period time.Duration) *Timer {
	Y()
	t := &Timer{f: f, when: mono + int64(d), period: int64(period), armed: true}
	if f == nil {
		t.c = make(chan time.Time, 1)
		t.C = t.c
	}
	timers = append(timers, t)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f, 0) }
func TimeNewTimer(d time.Duration) *Timer            { return newTimer(d, nil, 0) }
func TimeAfter(d time.Duration) <-chan time.Time     { return newTimer(d, nil, 0).C }
func TimeTick(d time.Duration) <-chan time.Time      { return newTimer(d, nil, d).C }
func TimeNewTicker(d time.Duration) *Ticker          { t := newTimer(d, nil, d); return &Ticker{t.C, t} }
func (t *Ticker) Stop()                              { t.t.armed = false }
func (t *Ticker) Reset(d time.Duration)              { t.t.period = int64(d); t.t.Reset(d) }

func (t *Timer) Stop() bool {
	Y()
	was := t.armed
	t.armed = false
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	Y()
	was := t.armed
	t.when, t.armed = mono+int64(d), true
	for _, o := range timers {
		if o == t {
			return was
		}
	}
	timers = append(timers, t)
	return was
}

// PassTime lets d nanoseconds of real (monotonic) time pass and fires the timers that fall due, in order. The wall
// clock advances with it.
func PassTime(d int64) {
	if d < 0 {
		d = 0
	}
	end := mono + d
	for fired := 0; fired < 1000; fired++ {
		var first *Timer
		for _, t := range timers {
			if t.armed && t.when <= end && (first == nil || t.when < first.when) {
				first = t
			}
		}
		if first == nil {
			break
		}
		if first.when > mono {
			ClockNow += first.when - mono
			mono = first.when
		}
		TimersFired++
		if first.period > 0 {
			first.when += first.period
		} else {
			first.armed = false
		}
		if first.f != nil && firing {
			Go(first.f)
		} else if first.f != nil {
			first.f()
		} else {
			select {
			case first.c <- time.Unix(0, ClockNow):
			default:
			}
		}
	}
	if end > mono {
		ClockNow += end - mono
		mono = end
	}
	live := timers[:0]
	for _, t := range timers {
		if t.armed {
			live = append(live, t)
		}
	}
	timers = live
}

// ---- math/rand global functions: one shared generator, seeded by the scenario ("auto-seeded"), reseedable ----

var globalRand = rand.New(rand.NewSource(1))
var RandSeeds int

func RandSeed(s int64)                       { Y(); RandSeeds++; globalRand = rand.New(rand.NewSource(s)) }
func RandInt() int                           { Y(); return globalRand.Int() }
func RandIntn(n int) int                     { Y(); return globalRand.Intn(n) }
func RandInt31() int32                       { Y(); return globalRand.Int31() }
func RandInt31n(n int32) int32               { Y(); return globalRand.Int31n(n) }
func RandInt63() int64                       { Y(); return globalRand.Int63() }
func RandInt63n(n int64) int64               { Y(); return globalRand.Int63n(n) }
func RandUint32() uint32                     { Y(); return globalRand.Uint32() }
func RandUint64() uint64                     { Y(); return globalRand.Uint64() }
func RandFloat32() float32                   { Y(); return globalRand.Float32() }
func RandFloat64() float64                   { Y(); return globalRand.Float64() }
func RandPerm(n int) []int                   { Y(); return globalRand.Perm(n) }
func RandShuffle(n int, swap func(i, j int)) { Y(); globalRand.Shuffle(n, swap) }
func RandRead(p []byte) (int, error)         { Y(); return globalRand.Read(p) }

// racySource stands in for rand.NewSource: like the real one it must not be used by two threads at once, and here
// such use shows, because reading and writing its state are separate steps.
type racySource struct{ s uint64 }

func RandNewSource(seed int64) rand.Source { return &racySource{uint64(seed) ^ 0x5DEECE66D} }
func (r *racySource) Seed(seed int64)      { r.s = uint64(seed) ^ 0x5DEECE66D }
func (r *racySource) Int63() int64         { return int64(r.Uint64() >> 1) }
func (r *racySource) Uint64() uint64 {
	g := rng{r.s}
	Y()
	v := g.next()
	Y()
	r.s = g.s
	return v
}

func CryptoRead(p []byte) (int, error) { return RandRead(p) }

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) { return RandRead(p) }

// CryptoReader stands in for crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

// ---- output: swallowed, it is not part of any property and must not slow the simulation down ----

var Printed int

func Print(...interface{})                       { Printed++ }
func Printf(string, ...interface{}) (int, error) { Printed++; return 0, nil }
func Println(...interface{}) (int, error)        { Printed++; return 0, nil }

func Printn(...interface{}) (int, error) { Printed++; return 0, nil }
