package main

import (
	"bytes"

	"github.com/lkmio/avformat/collections"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "merge" (B02): a chain of real DirectBlockBuffers connected by splits. Writers append to the live ends,
// readers hold bytes of sealed parts, sealed buffers are cleared and reused at any later point, removals happen,
// and calls a sealed buffer must refuse are attempted. Model: one byte string and one block list per buffer.

type SplitOp struct {
	Op string `json:"o"` // w write, a alloc, f fetch, p pop, b popback, s split, c clear, x attempt a refused call, r read data
	B  int    `json:"b"` // buffer
	N  int    `json:"n"`
}

type SplitScenario struct {
	Cap int       `json:"cap"`
	Obs int       `json:"obs,omitempty"`
	Ops []SplitOp `json:"ops"`
}

type splitWorld struct{}

func init() { register("B02", splitWorld{}, 2000000, 20000) }

func (splitWorld) New() interface{} { return &SplitScenario{} }
func (splitWorld) Rule(string) string {
	return "random op lists over a growing family of merge buffers (write, alloc, fetch, pop, drop, split, clear and reuse of sealed ones, calls that must be refused); after every step every byte of every buffer and every block still held is compared with its model; non-trivial: at least one split"
}
func (splitWorld) Real() []string {
	return []string{"collections.DirectBlockBuffer", "collections.Queue"}
}
func (splitWorld) Stub() []string { return []string{"writers and readers (scripted)"} }

func (splitWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &SplitScenario{Cap: []int{1, 8, 16, 32, 64, 200}[r.N(6)]}
	if r.P(20) {
		sc.Obs = genObs(r)
	}
	n := 8 + r.Skew(60)
	if big {
		n = 8 + r.Skew(300)
	}
	if r.N(4000) == 0 { // buffers of megabytes
		sc.Cap, n = 1<<uint(r.In(16, 21)), 6+r.N(14)
	}
	nb := 1
	rem := r.P(30)
	wSplit := r.In(2, 12)
	for i := 0; i < n; i++ {
		b := nb - 1
		if r.P(35) {
			b = r.N(nb)
		}
		x := r.N(100)
		switch {
		case x < wSplit:
			sc.Ops = append(sc.Ops, SplitOp{"s", b, 0})
			nb++
		case x < wSplit+5:
			sc.Ops = append(sc.Ops, SplitOp{"c", b, 0})
		case x < wSplit+9:
			sc.Ops = append(sc.Ops, SplitOp{"x", b, r.N(5)})
		case x < wSplit+14 && rem:
			sc.Ops = append(sc.Ops, SplitOp{[]string{"p", "b"}[r.N(2)], b, 0})
		case x < 55:
			sc.Ops = append(sc.Ops, SplitOp{"w", b, r.Skew(maxI(4, sc.Cap))})
		case x < 65:
			sc.Ops = append(sc.Ops, SplitOp{"a", b, r.Skew(maxI(4, sc.Cap/2))})
		case x < 90:
			sc.Ops = append(sc.Ops, SplitOp{"f", b, 0})
		default:
			sc.Ops = append(sc.Ops, SplitOp{"r", b, 0})
		}
	}
	return sc
}

type dataBuf interface {
	collections.BlockBuffer
	Data() []byte
}

type splitBuf struct {
	b       dataBuf
	data    []byte // everything written since the last clear
	removed bool   // something was removed since the last clear: Data is unspecified
	sealed  bool
	blocks  []*ringBlock
	view    []byte // bytes handed to a reader when the buffer was sealed
	viewOK  []byte
}

func (splitWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*SplitScenario)
	rt.SeedEnv(1)
	single(func() { splitRun(sc, o) })
}

func splitRun(sc *SplitScenario, o *Outcome) {
	var bufs []*splitBuf
	first, ok := collections.NewDirectBlockBuffer(clampI(sc.Cap, 1, 1<<22)).(dataBuf)
	if !ok {
		bug("merge buffer has no Data method")
	}
	bufs = append(bufs, &splitBuf{b: first})
	var seq byte
	splits := 0
	bad := func(pi *rt.PanicInfo, op string) bool {
		if pi != nil {
			o.Fail("B02", panicKind(pi), "%s on a legal history: %s in %s", op, pi.Value, pi.Where)
			return true
		}
		return false
	}
	for step, op := range sc.Ops {
		if op.B < 0 || op.B >= len(bufs) {
			continue
		}
		m := bufs[op.B]
		n := clampI(op.N, 0, 1<<22)
		switch op.Op {
		case "w", "a":
			if m.sealed {
				continue
			}
			data := make([]byte, n)
			for i := range data {
				seq++
				data[i] = seq ^ byte(step*7)
			}
			if op.Op == "w" {
				if bad(call(func() { m.b.Write(data) }), "Write") {
					return
				}
			} else {
				var dst []byte
				if bad(call(func() { dst = m.b.Alloc(n) }), "Alloc") {
					return
				}
				if len(dst) != n {
					o.Fail("B02", "alloc-size", "Alloc(%d) returned %d bytes", n, len(dst))
					return
				}
				copy(dst, data)
			}
			if len(m.blocks) == 0 || m.blocks[len(m.blocks)-1].done {
				m.blocks = append(m.blocks, &ringBlock{})
			}
			b := m.blocks[len(m.blocks)-1]
			b.want = append(b.want, data...)
			m.data = append(m.data, data...)
		case "f":
			if m.sealed || len(m.blocks) == 0 || m.blocks[len(m.blocks)-1].done {
				continue
			}
			b := m.blocks[len(m.blocks)-1]
			if bad(call(func() { b.got = m.b.Fetch() }), "Fetch") {
				return
			}
			b.done = true
		case "p":
			if m.sealed || len(m.blocks) == 0 || !m.blocks[0].done {
				continue
			}
			if bad(call(func() { m.b.Pop() }), "Pop") {
				return
			}
			m.blocks = m.blocks[1:]
			m.removed = true
		case "b":
			if m.sealed || len(m.blocks) == 0 {
				continue
			}
			if bad(call(func() { m.b.PopBack() }), "PopBack") {
				return
			}
			m.blocks = m.blocks[:len(m.blocks)-1]
			m.removed = true
		case "c":
			if bad(call(func() { m.b.Clear() }), "Clear") {
				return
			}
			if m.sealed {
				o.Count("sealed buffer cleared and reused")
			}
			m.data, m.blocks, m.removed, m.sealed, m.view = nil, nil, false, false, nil
		case "s":
			if m.sealed {
				continue
			}
			if k := len(m.blocks); k > 0 && !m.blocks[k-1].done {
				// a split with an unfinished block keeps the block's bytes in the old part
				o.Count("split with an unfinished block")
			}
			var nb collections.BlockBuffer
			if bad(call(func() { nb = m.b.SplitOff() }), "SplitOff") {
				return
			}
			d, ok := nb.(dataBuf)
			if !ok {
				bug("split-off buffer has no Data method")
			}
			m.sealed = true
			splits++
			if bad(call(func() { m.view = m.b.Data() }), "Data") {
				return
			}
			m.viewOK = append([]byte(nil), m.view...)
			bufs = append(bufs, &splitBuf{b: d})
		case "x":
			if !m.sealed {
				continue
			}
			names := []string{"Write", "Alloc", "Fetch", "Pop", "PopBack"}
			pi := call(func() {
				switch n % 5 {
				case 0:
					m.b.Write([]byte{0xEE, 0xEE})
				case 1:
					copy(m.b.Alloc(2), []byte{0xEE, 0xEE})
				case 2:
					m.b.Fetch()
				case 3:
					m.b.Pop()
				case 4:
					m.b.PopBack()
				}
			})
			if pi == nil {
				o.Fail("B02", "sealed-accepts", "step %d: %s on a split buffer was not refused", step, names[n%5])
				return
			}
			o.Count("refused call on a sealed buffer")
		case "r":
		default:
			continue
		}
		// every buffer, every block, after every step
		for i, m := range bufs {
			if !m.removed && observe(sc.Obs, step) {
				var got []byte
				if bad(call(func() { got = m.b.Data() }), "Data") {
					return
				}
				if !bytes.Equal(got, m.data) {
					kind := "data"
					if m.sealed {
						kind = "sealed-changed"
					} else if i > 0 && len(m.data) == 0 {
						kind = "new-not-empty"
					}
					o.Fail("B02", kind, "step %d (%s on buffer %d): data of buffer %d is %s, written %s", step, op.Op, op.B, i, clip(got), clip(m.data))
					return
				}
			}
			if m.sealed && !bytes.Equal(m.view, m.viewOK) {
				o.Fail("B02", "sealed-changed", "step %d (%s on buffer %d): bytes of the sealed buffer %d changed under a reader", step, op.Op, op.B, i)
				return
			}
			for j, b := range m.blocks {
				if b.done && !bytes.Equal(b.got, b.want) {
					o.Fail("B02", "block", "step %d (%s on buffer %d): block %d of buffer %d is %s, written %s", step, op.Op, op.B, j, i, clip(b.got), clip(b.want))
					return
				}
			}
			if !m.sealed && observe(sc.Obs, step) {
				pend := 0
				if k := len(m.blocks); k > 0 && !m.blocks[k-1].done {
					pend = len(m.blocks[k-1].want)
				}
				var got, size int
				if bad(call(func() { got, size = m.b.PendingBlockSize(), m.b.Size() }), "PendingBlockSize") {
					return
				}
				if got != pend {
					o.Fail("B02", "pending", "step %d: pending size of buffer %d reported %d, is %d", step, i, got, pend)
					return
				}
				if size != len(m.blocks) {
					o.Fail("B02", "size", "step %d: buffer %d reports %d blocks, has %d", step, i, size, len(m.blocks))
					return
				}
			}
		}
		o.LogN(op.Op, op.B, n, len(bufs))
	}
	o.Trivial = splits == 0
	if splits > 1 {
		o.Count("chain of splits")
	}
}
