package verifsimrt

// The instrumenter writes `go f(a, b)` as Go2(f)(a, b): function and arguments are evaluated (and converted) now, the
// call happens in a simulated thread. V: f is variadic; R, RR: f has results.
func Go0R[R1 any](f func() R1) func() {
	return func() { Go(func() { f() }) }
}
func Go0RR[R1, R2 any](f func() (R1, R2)) func() {
	return func() { Go(func() { f() }) }
}
func Go1[A any](f func(A)) func(a A) {
	return func(a A) { Go(func() { f(a) }) }
}
func Go1R[A, R1 any](f func(A) R1) func(a A) {
	return func(a A) { Go(func() { f(a) }) }
}
func Go1RR[A, R1, R2 any](f func(A) (R1, R2)) func(a A) {
	return func(a A) { Go(func() { f(a) }) }
}
func Go2[A, B any](f func(A, B)) func(a A, b B) {
	return func(a A, b B) { Go(func() { f(a, b) }) }
}
func Go2R[A, B, R1 any](f func(A, B) R1) func(a A, b B) {
	return func(a A, b B) { Go(func() { f(a, b) }) }
}
func Go2RR[A, B, R1, R2 any](f func(A, B) (R1, R2)) func(a A, b B) {
	return func(a A, b B) { Go(func() { f(a, b) }) }
}
func Go3[A, B, C any](f func(A, B, C)) func(a A, b B, c C) {
	return func(a A, b B, c C) { Go(func() { f(a, b, c) }) }
}
func Go3R[A, B, C, R1 any](f func(A, B, C) R1) func(a A, b B, c C) {
	return func(a A, b B, c C) { Go(func() { f(a, b, c) }) }
}
func Go3RR[A, B, C, R1, R2 any](f func(A, B, C) (R1, R2)) func(a A, b B, c C) {
	return func(a A, b B, c C) { Go(func() { f(a, b, c) }) }
}
func Go0V[V any](f func(...V)) func(v ...V) {
	return func(v ...V) { Go(func() { f(v...) }) }
}
func Go0VR[V, R1 any](f func(...V) R1) func(v ...V) {
	return func(v ...V) { Go(func() { f(v...) }) }
}
func Go0VRR[V, R1, R2 any](f func(...V) (R1, R2)) func(v ...V) {
	return func(v ...V) { Go(func() { f(v...) }) }
}
func Go1V[A, V any](f func(A, ...V)) func(a A, v ...V) {
	return func(a A, v ...V) { Go(func() { f(a, v...) }) }
}
func Go1VR[A, V, R1 any](f func(A, ...V) R1) func(a A, v ...V) {
	return func(a A, v ...V) { Go(func() { f(a, v...) }) }
}
func Go1VRR[A, V, R1, R2 any](f func(A, ...V) (R1, R2)) func(a A, v ...V) {
	return func(a A, v ...V) { Go(func() { f(a, v...) }) }
}
func Go2V[A, B, V any](f func(A, B, ...V)) func(a A, b B, v ...V) {
	return func(a A, b B, v ...V) { Go(func() { f(a, b, v...) }) }
}
func Go2VR[A, B, V, R1 any](f func(A, B, ...V) R1) func(a A, b B, v ...V) {
	return func(a A, b B, v ...V) { Go(func() { f(a, b, v...) }) }
}
func Go2VRR[A, B, V, R1, R2 any](f func(A, B, ...V) (R1, R2)) func(a A, b B, v ...V) {
	return func(a A, b B, v ...V) { Go(func() { f(a, b, v...) }) }
}
func Go3V[A, B, C, V any](f func(A, B, C, ...V)) func(a A, b B, c C, v ...V) {
	return func(a A, b B, c C, v ...V) { Go(func() { f(a, b, c, v...) }) }
}
func Go3VR[A, B, C, V, R1 any](f func(A, B, C, ...V) R1) func(a A, b B, c C, v ...V) {
	return func(a A, b B, c C, v ...V) { Go(func() { f(a, b, c, v...) }) }
}
func Go3VRR[A, B, C, V, R1, R2 any](f func(A, B, C, ...V) (R1, R2)) func(a A, b B, c C, v ...V) {
	return func(a A, b B, c C, v ...V) { Go(func() { f(a, b, c, v...) }) }
}
