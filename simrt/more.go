package verifsimrt

import (
	"fmt"
	"sync"
)

// Further seams that the current code does not use but a change to it might.

// ---- sync.Map: every operation is one step; the order of Range is decided by the simulator ----

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) {
	Y()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	Y()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Y()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Y()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, v any) bool {
	Y()
	if cur, ok := m.m[k]; !ok || cur != old {
		return false
	}
	m.m[k] = v
	return true
}
func (m *Map) CompareAndDelete(k, old any) bool {
	Y()
	if cur, ok := m.m[k]; !ok || cur != old {
		return false
	}
	delete(m.m, k)
	return true
}
func (m *Map) Clear() { Y(); m.m = nil }
func (m *Map) Range(f func(k, v any) bool) {
	Y()
	byText := make(map[string]any, len(m.m))
	for k := range m.m {
		byText[fmt.Sprintf("%T %v", k, k)] = k
	}
	for _, e := range MapEntries(byText) {
		if v, ok := m.m[e.V]; ok && !f(e.V, v) {
			return
		}
	}
}

// ---- sync.Cond ----

type Cond struct {
	L sync.Locker
	w []*bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.w = append(c.w, &woken)
	c.L.Unlock()
	Block(func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	Y()
	if len(c.w) > 0 {
		*c.w[0] = true
		c.w = c.w[1:]
	}
}
func (c *Cond) Broadcast() {
	Y()
	for _, w := range c.w {
		*w = true
	}
	c.w = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// ---- package maps ----

func MapsKeys[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		for _, e := range MapEntries(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) func(yield func(V) bool) {
	return func(yield func(V) bool) {
		for _, e := range MapEntries(m) {
			if e.Live() && !yield(e.V) {
				return
			}
		}
	}
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, e := range MapEntries(m) {
			if e.Live() && !yield(e.K, e.V) {
				return
			}
		}
	}
}

// ---- console and log output is swallowed; ending the process from inside the library is a crash ----

func stdFile(name string) *File { return &File{name: name, std: true, ino: &Inode{}} }

var Stdout, Stderr = stdFile("/dev/stdout"), stdFile("/dev/stderr")

func LogPrint(...interface{})          { Printed++ }
func LogPrintf(string, ...interface{}) { Printed++ }
func Slog(string, ...any)              { Printed++ }

func LogPanic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func LogPanicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
func LogFatal(a ...interface{})            { panic("process ended by log.Fatal: " + fmt.Sprint(a...)) }
func LogFatalf(f string, a ...interface{}) {
	panic("process ended by log.Fatal: " + fmt.Sprintf(f, a...))
}
func Exit(code int) { panic(fmt.Sprintf("process ended by os.Exit(%d)", code)) }

// ---- math/rand/v2 functions without a counterpart in math/rand ----

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func RandN[T integer](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(RandUint64N(uint64(n)))
}

func RandUint64N(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to Uint64N")
	}
	limit := ^uint64(0) - ^uint64(0)%n
	for {
		if v := RandUint64(); v < limit {
			return v % n
		}
	}
}
func RandUint32N(n uint32) uint32 { return uint32(RandUint64N(uint64(n))) }
func RandUintN(n uint) uint       { return uint(RandUint64N(uint64(n))) }
func RandUint() uint              { return uint(RandUint64()) }
