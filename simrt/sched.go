// Package verifsimrt is the runtime the simulator links under an instrumented copy of avformat.
// Everything in it is driven by the scenario being executed: nothing here reads a real clock, a real
// random source or lets the Go scheduler decide an order.
package verifsimrt

import (
	"fmt"
	"runtime"
	"strings"
)

// Steps counts statements executed by instrumented code in the current run. It is the simulator's logical time
// for schedules ("preempt after step n") and the budget that turns an endless loop into a detected failure.
var Steps uint64
var next uint64 = ^uint64(0)

// Y is the yield point inserted before every statement of the code under test.
func Y() {
	Steps++
	if Steps >= next {
		slow()
	}
}

// G counts the statements among them that mention package-level state some function modifies.
var G uint64
var nextG uint64 = ^uint64(0)

// YG is the yield point before a statement that mentions package-level state some function modifies: the accesses
// every thread shares whatever it works on, and few enough for a plan to aim at.
func YG() {
	G++
	Steps++
	if Steps >= next || G >= nextG {
		slow()
	}
}

// Mid is inserted between the read and the write half of a read-modify-write of shared memory.
func Mid[T any](v T) T {
	Y()
	return v
}

// Switch is one planned preemption: after Delta further steps (Shared: accesses to modified package-level state, or
// sharedPatience steps without enough of them), hand control to the To-th runnable thread.
type Switch struct {
	Delta  uint32 `json:"d"`
	To     uint32 `json:"t"`
	Shared bool   `json:"g,omitempty"`
}

const sharedPatience = 4000

type Thread struct {
	ID     int
	resume chan struct{}
	done   bool
	Main   bool        // a thread of the scenario, not one the library started
	wait   func() bool // nil: runnable; otherwise runnable once it returns true
	Panic  *PanicInfo
}

type PanicInfo struct {
	Value   string
	InLib   bool   // raised by instrumented code, not by the harness
	Where   string // innermost instrumented function
	Hang    bool
	Stack   string
	NonLib  bool
	Aborted bool
}

type hangError struct{}

func (hangError) Error() string { return "step budget exceeded (endless loop)" }

type deadlockError struct{}

func (deadlockError) Error() string { return "all threads blocked (deadlock)" }

type abortError struct{}

func (abortError) Error() string { return "run aborted" }

// Run state.
var (
	active   bool
	threads  []*Thread
	cur      *Thread
	plan     []Switch
	planPos  int
	nextSw   uint64
	budget   uint64
	limit    uint64
	aborting bool
	finished chan struct{}
	Switched int // preemptions that really happened
	Blocked  int // times a thread had to wait for a simulated lock
	nThreads int
	trace    uint64 // hash of the interleaving (thread, step) pairs
)

const DefaultBudget = 40 * 1000 * 1000

// InSim reports whether a simulated run is active.
func InSim() bool { return active }

// CurrentThread is the id of the simulated thread that is running.
func CurrentThread() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// TraceHash identifies the interleaving that was executed.
func TraceHash() uint64 { return trace }

// ResetBudget gives the operation that starts now a fresh step budget.
func ResetBudget() {
	if active {
		limit = Steps + budget
		recompute()
	}
}

func recompute() {
	next = limit
	if nextSw < next {
		next = nextSw
	}
}

func slow() {
	if !active {
		return
	}
	if aborting {
		panic(abortError{})
	}
	if Steps >= limit {
		limit = Steps + budget // allow unwinding code to run
		recompute()
		panic(hangError{})
	}
	if Steps >= nextSw || G >= nextG {
		sw := plan[planPos]
		planPos++
		armNext()
		switchTo(pick(int(sw.To)))
	}
}

func armNext() {
	nextG = ^uint64(0)
	if planPos < len(plan) && plan[planPos].Shared {
		nextG = G + uint64(plan[planPos].Delta) + 1
		nextSw = Steps + sharedPatience
	} else if planPos < len(plan) {
		nextSw = Steps + uint64(plan[planPos].Delta) + 1
	} else {
		nextSw = ^uint64(0)
	}
	recompute()
}

// pick chooses the k-th runnable thread other than the current one, or the current one if there is none.
func pick(k int) *Thread {
	var c []*Thread
	for _, t := range threads {
		if !t.done && t != cur && (t.wait == nil || dead != nil && t.Main || t.wait()) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return cur
	}
	return c[k%len(c)]
}

func switchTo(t *Thread) {
	if t == cur {
		return
	}
	me := cur
	Switched++
	trace = (trace*1099511628211 ^ uint64(t.ID)) * 31
	trace ^= Steps
	t.wait = nil
	cur = t
	t.resume <- struct{}{}
	<-me.resume
	if aborting {
		panic(abortError{})
	}
	if dead != nil && me.Main {
		deadTold = true
		panic(dead)
	}
}

// dead is what a thread the library started panicked with: that ends the process, so the scenario's threads panic too
// as soon as they run again.
var dead interface{}
var deadTold bool

// Block parks the current thread until cond holds. Used by the simulated locks.
func Block(cond func() bool) {
	if !active {
		if !cond() {
			panic("verifsimrt: blocking outside a simulation")
		}
		return
	}
	for !cond() {
		Blocked++
		cur.wait = cond
		t := pick(0)
		if t == cur {
			if dead != nil && cur.Main {
				cur.wait = nil
				deadTold = true
				panic(dead)
			}
			if cond() || mainBusy() && fireNext() {
				continue
			}
			cur.wait = nil
			if !mainBusy() { // a background thread of the library left waiting at the end
				panic(abortError{})
			}
			panic(deadlockError{})
		}
		switchTo(t)
	}
	cur.wait = nil
}

// Handoff lets another runnable thread go first.
func Handoff(k int) {
	if active {
		if t := pick(k); t != cur {
			switchTo(t)
		}
	}
}

// GoDropped counts go statements executed outside a simulated run.
var GoDropped int

// Go starts f as a further simulated thread.
func Go(f func()) {
	if !active { // e.g. started by a package initialiser: it never gets to run
		GoDropped++
		return
	}
	spawn(f)
}

// mainBusy reports whether a thread of the scenario has not ended.
func mainBusy() bool {
	for _, t := range threads {
		if t.Main && !t.done {
			return true
		}
	}
	return false
}

var timeJumps int
var firing bool // timers fire because everybody waits: their functions become threads

// fireNext lets time pass until the next timer fires, when every thread waits.
func fireNext() bool {
	var first *Timer
	for _, t := range timers {
		if t.armed && (first == nil || t.when < first.when) {
			first = t
		}
	}
	if first == nil || timeJumps > 10000 {
		return false
	}
	timeJumps++
	firing = true
	PassTime(first.when - mono)
	firing = false
	return true
}

func spawn(f func()) *Thread {
	t := &Thread{ID: nThreads, resume: make(chan struct{})}
	nThreads++
	threads = append(threads, t)
	go func() {
		<-t.resume
		defer func() {
			if r := recover(); r != nil {
				t.Panic = Describe(r)
				if !t.Main && !t.Panic.Aborted && dead == nil {
					dead = r
				}
			}
			t.done = true
			// hand control to somebody else
			for {
				if n := pick(0); n != t {
					n.wait = nil
					cur = n
					n.resume <- struct{}{}
					return
				}
				if aborting || !mainBusy() || !fireNext() {
					break
				}
			}
			// nobody runnable: finished, or everybody blocked
			for _, o := range threads {
				if !o.done {
					aborting = true
					cur = o
					o.resume <- struct{}{}
					return
				}
			}
			close(finished)
		}()
		if aborting {
			panic(abortError{})
		}
		f()
	}()
	return t
}

// Options of a run.
type Options struct {
	Plan    []Switch
	Budget  uint64
	Threads []func()
}

// Run executes the given thread bodies to completion under the planned schedule. It returns what each thread
// panicked with, if anything. Threads started with Go are included.
func Run(o Options) []*Thread {
	if active {
		panic("verifsimrt: nested run")
	}
	G, Steps, planPos, Switched, Blocked, nThreads, trace = 0, 0, 0, 0, 0, 0, 14695981039346656037
	threads, plan, aborting = nil, o.Plan, false
	budget = o.Budget
	if budget == 0 {
		budget = DefaultBudget
	}
	limit = budget
	finished = make(chan struct{})
	for _, f := range o.Threads {
		spawn(f).Main = true
	}
	timeJumps, dead, deadTold = 0, nil, false
	nWritten, writtenAt, Races = 0, nil, nil
	active = true
	armNext()
	if len(threads) > 0 {
		cur = threads[0]
		cur.resume <- struct{}{}
		<-finished
	}
	for _, t := range threads {
		if deadTold && !t.Main && t.Panic != nil {
			t.Panic.Aborted = true // told through the scenario's threads
		}
	}
	active = false
	next, nextG = ^uint64(0), ^uint64(0)
	res := threads
	threads, cur = nil, nil
	return res
}

// LibPrefix is the import path prefix of the code under test.
const LibPrefix = "github.com/lkmio/avformat"
const selfPrefix = "github.com/lkmio/avformat/verifsimrt"

// Describe classifies a recovered panic value. It must be called from a deferred function while the panicking
// stack is still in place.
func Describe(r interface{}) *PanicInfo {
	p := &PanicInfo{Value: fmt.Sprint(r)}
	switch r.(type) {
	case hangError:
		p.Hang = true
	case deadlockError:
		p.Hang = true
	case abortError:
		p.Aborted = true
	}
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	seenPanic := false
	var sb strings.Builder
	for {
		f, more := frames.Next()
		if !seenPanic {
			if f.Function == "runtime.gopanic" || strings.HasPrefix(f.Function, "runtime.panic") || f.Function == "runtime.sigpanic" || strings.HasPrefix(f.Function, "runtime.goPanic") {
				seenPanic = true
			}
		} else if !strings.HasPrefix(f.Function, "runtime.") {
			if sb.Len() < 4000 {
				fmt.Fprintf(&sb, "%s:%d\n", f.Function, f.Line)
			}
			if p.Where == "" && !strings.HasPrefix(f.Function, selfPrefix) {
				if strings.HasPrefix(f.Function, LibPrefix) {
					p.InLib = true
					p.Where = strings.TrimPrefix(f.Function, "github.com/lkmio/")
				} else if strings.HasPrefix(f.Function, "main.") || strings.HasPrefix(f.Function, "verif/") {
					p.Where = f.Function
				}
				// frames of the standard library in between are attributed to their caller
			}
		}
		if !more {
			break
		}
	}
	p.Stack = sb.String()
	return p
}
