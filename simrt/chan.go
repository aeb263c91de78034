package verifsimrt

import "reflect"

// Channels of the code under test. Only one simulated thread runs at a time, so a channel operation that would block
// hands control on until the (real) channel is ready. A rendezvous channel is a channel of one slot whose sender waits
// until its value was taken.

type syncState struct {
	keep       any
	sent, recv uint64
}

var syncChans = map[uintptr]*syncState{}
var ChanWaits int // channel operations that had to wait

func chanState(c any) *syncState {
	if len(syncChans) == 0 {
		return nil
	}
	return syncChans[reflect.ValueOf(c).Pointer()]
}

// MakeSync turns a channel of one slot into a rendezvous channel.
func MakeSync[C ~chan T, T any](c C) C {
	if len(syncChans) > 4096 {
		syncChans = map[uintptr]*syncState{}
	}
	syncChans[reflect.ValueOf(c).Pointer()] = &syncState{keep: c}
	return c
}

func wait(ready func() bool) {
	if active && !ready() {
		ChanWaits++
		Block(ready)
	}
}

// SendTo is c <- v.
func SendTo[C ~chan T | ~chan<- T, T any](c C) func(T) {
	return func(v T) {
		Y()
		SendNow(c)(v)
	}
}

// SendNow is SendTo right after Select chose it: no preemption in between.
func SendNow[C ~chan T | ~chan<- T, T any](c C) func(T) {
	return func(v T) {
		wait(func() bool { return c != nil && len(c) < cap(c) })
		c <- v
		if st := chanState(c); st != nil && active {
			st.sent++
			n := st.sent
			wait(func() bool { return st.recv >= n })
		}
	}
}

func recvReady[C ~chan T | ~<-chan T, T any](c C, peeked *bool) bool {
	if c == nil {
		return false
	}
	if len(c) > 0 || *peeked {
		return true
	}
	select { // nothing is in it and nobody else runs: this succeeds only if it is closed
	case _, ok := <-c:
		*peeked = !ok
	default:
	}
	return *peeked
}

// Recv2 is v, ok := <-c.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	Y()
	return Recv2Now[C, T](c)
}

func Recv2Now[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	closed := false
	wait(func() bool { return recvReady[C, T](c, &closed) })
	v, ok := <-c
	if st := chanState(c); st != nil && st.recv < st.sent {
		st.recv++
	}
	return v, ok
}

// Recv is <-c.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

func RecvNow[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2Now[C, T](c)
	return v
}

// SelCase is one communication of a select statement.
type SelCase func() bool

func RecvCase[C ~chan T | ~<-chan T, T any](c C) SelCase {
	closed := false
	return func() bool { return recvReady[C, T](c, &closed) }
}

func SendCase[C ~chan T | ~chan<- T, T any](c C) SelCase {
	return func() bool { return c != nil && len(c) < cap(c) }
}

// Select decides which communication of a select statement goes ahead; -1 is the default clause.
func Select(def bool, cases ...SelCase) int {
	Y()
	var ready []int
	look := func() bool {
		ready = ready[:0]
		for i, c := range cases {
			if c() {
				ready = append(ready, i)
			}
		}
		return len(ready) > 0
	}
	if !look() {
		if def {
			return -1
		}
		wait(look)
		if !look() {
			panic("verifsimrt: blocking select outside a simulation")
		}
	}
	if len(ready) == 1 {
		return ready[0]
	}
	return ready[env.n(len(ready))]
}
