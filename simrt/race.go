package verifsimrt

import (
	"fmt"
	"unsafe"
)

// Unsynchronised accesses. A thread that has just written a location and was preempted before its next statement has
// released nothing since: whatever another thread does now is not ordered after that write. If it touches the same map,
// or the same string, slice or interface (values of several words, which a reader can see half written), the two
// accesses race in every run with this order of events. Nothing needs to be known about how the program synchronises.
type written struct {
	at   unsafe.Pointer
	t    *Thread
	what string
	m    bool
}

var nWritten int
var writtenAt []written

// Race is one unsynchronised pair of accesses.
type Race struct {
	What   string
	Map    bool // ends a real process: "concurrent map writes"
	Writer int
	Other  int
}

// Races are those of the current run.
var Races []Race

func touch(at unsafe.Pointer) {
	if !active || cur == nil {
		return
	}
	for _, w := range writtenAt {
		if w.at == at && w.t != cur && len(Races) < 16 {
			Races = append(Races, Race{w.what, w.m, w.t.ID, cur.ID})
		}
	}
}

func wrote(at unsafe.Pointer, what string, m bool) {
	touch(at)
	if len(threads) < 2 {
		return
	}
	me := cur
	writtenAt = append(writtenAt, written{at, me, what, m})
	nWritten++
	defer func() {
		nWritten--
		for i := range writtenAt {
			if writtenAt[i].t == me && writtenAt[i].at == at {
				writtenAt = append(writtenAt[:i], writtenAt[i+1:]...)
				return
			}
		}
	}()
	YG()
}

// MR is put around a map that is indexed.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if nWritten > 0 {
		touch(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	}
	return m
}

// MW follows a statement that wrote to a map.
func MW[M ~map[K]V, K comparable, V any](m M, what string) {
	if active {
		wrote(*(*unsafe.Pointer)(unsafe.Pointer(&m)), what, true)
	}
}

// RR is put around a variable of several words that is read.
func RR[T any](p *T) *T {
	if nWritten > 0 {
		touch(unsafe.Pointer(p))
	}
	return p
}

// WW follows a statement that wrote such a variable.
func WW[T any](p *T, what string) {
	if active && len(threads) > 1 {
		wrote(unsafe.Pointer(p), what, false)
	}
}

func (r Race) String() string {
	k := "read or written"
	if r.Map {
		return fmt.Sprintf("map %s is %s by thread %d while thread %d writes it, which ends the process", r.What, k, r.Other, r.Writer)
	}
	return fmt.Sprintf("%s is %s by thread %d while thread %d writes it", r.What, k, r.Other, r.Writer)
}
