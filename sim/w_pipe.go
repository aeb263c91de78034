package main

import (
	"bytes"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "pipe" (B03): a network link interleaves the fragments of several streams into one real data pipeline; a
// consumer fetches, drops and releases frames at its own pace. Model: one list of byte strings per stream.

type PipeOp struct {
	Op string `json:"o"` // w write, f fetch, h release oldest, b drop newest, q ask the pending size
	S  int    `json:"s"`
	N  int    `json:"n"`
	V  bool   `json:"v,omitempty"` // the fragment is video
}

type PipeScenario struct {
	Kind string   `json:"kind"` // streams: StreamsBuffer, direct: DirectDataPipeline
	Obs  int      `json:"obs,omitempty"`
	Ops  []PipeOp `json:"ops"`
}

type pipeWorld struct{}

func init() { register("B03", pipeWorld{}, 120000, 1500) }

func (pipeWorld) New() interface{} { return &PipeScenario{} }
func (pipeWorld) Rule(string) string {
	return "random fragment interleavings of up to 8 streams (dense or sparse indexes, any order of first use, mixed media types) with independent fetch, drop and release points and link stalls; one run in eight uses frames of 10-400 KB so that the 576 KB and 2 MB rings wrap and grow; non-trivial: two streams interleaved inside a frame, or a frame held across a later write"
}
func (pipeWorld) Real() []string {
	return []string{"avformat.StreamsBuffer", "avformat.DirectDataPipeline", "collections.RBBlockBuffer", "collections.DirectBlockBuffer", "collections.Queue"}
}
func (pipeWorld) Stub() []string { return []string{"network link and consumer (scripted)"} }

func (pipeWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &PipeScenario{Kind: "streams"}
	if r.P(12) {
		sc.Kind = "direct"
	}
	if r.P(20) {
		sc.Obs = genObs(r)
	}
	ns := 1 + r.Skew(5)
	if r.P(1) { // a container with dozens of tracks
		ns = r.In(6, 36)
	}
	idx := make([]int, ns)
	used := map[int]bool{}
	for i := range idx {
		for {
			idx[i] = r.N(ns + r.Skew(4))
			if r.P(30) {
				idx[i] = i
			}
			if !used[idx[i]] {
				break
			}
			idx[i] = r.N(12)
			if ns > 5 {
				idx[i] = r.N(41)
			}
			if !used[idx[i]] {
				break
			}
		}
		used[idx[i]] = true
	}
	if sc.Kind == "direct" {
		idx = idx[:1]
	}
	video := make([]bool, len(idx))
	for i := range video {
		video[i] = r.P(50)
	}
	large := r.P(12)
	n := 6 + r.Skew(80)
	if large {
		n = 10 + r.Skew(50)
	}
	if big {
		n *= 3
	}
	long := sc.Kind == "streams" && r.N(400) == 0 // a few streams for long, and a consumer that keeps up
	if long {
		large, n = false, r.In(2000, 4000)
		idx = idx[:minI(len(idx), r.In(1, 2))]
		for i := range idx {
			video[i] = false
		}
	}
	hold := make([]int, len(idx)) // how many finished frames the consumer keeps
	for i := range hold {
		hold[i] = r.Skew(8)
		if long {
			hold[i] = r.N(3)
		}
	}
	held := make([]int, len(idx))
	pend := make([]bool, len(idx))
	frags := make([]int, len(idx))
	size := func() int {
		if large {
			if r.P(30) {
				return r.In(1, 3000)
			}
			return r.In(10000, 400000)
		}
		if long {
			return r.In(8000, 24000)
		}
		switch r.N(4) {
		case 0:
			return r.N(4)
		case 1:
			return r.In(1, 1500)
		}
		return r.In(1, 200)
	}
	wFetch := r.In(10, 45)
	drop := r.Skew(12)
	late := r.P(40) // frames are released while the next one is being assembled
	if long {
		wFetch = r.In(35, 50)
		if late {
			drop = -6
		}
	}
	for i := 0; i < n; i++ {
		k := r.N(len(idx))
		s := idx[k]
		switch x := r.N(100); {
		case (x < wFetch || long && frags[k] > 2) && pend[k]:
			frags[k] = 0
			sc.Ops = append(sc.Ops, PipeOp{Op: "f", S: s})
			pend[k] = false
			held[k]++
			for held[k] > hold[k] && !late {
				sc.Ops = append(sc.Ops, PipeOp{Op: "h", S: s})
				held[k]--
			}
		case x < wFetch+drop:
			sc.Ops = append(sc.Ops, PipeOp{Op: "b", S: s})
			if pend[k] {
				pend[k] = false
			} else if held[k] > 0 {
				held[k]--
			}
		case x < wFetch+drop+6:
			sc.Ops = append(sc.Ops, PipeOp{Op: "h", S: s})
			if held[k] > 0 {
				held[k]--
			}
		case x < wFetch+drop+10:
			sc.Ops = append(sc.Ops, PipeOp{Op: "q", S: s})
		case sc.Kind == "direct" && x < wFetch+drop+16:
			sc.Ops = append(sc.Ops, PipeOp{Op: "s", S: s, N: r.Skew(300)})
		default:
			sc.Ops = append(sc.Ops, PipeOp{Op: "w", S: s, N: size(), V: video[k]})
			pend[k] = true
			frags[k]++
			for held[k] > hold[k] {
				sc.Ops = append(sc.Ops, PipeOp{Op: "h", S: s})
				held[k]--
			}
		}
	}
	return sc
}

// pipeMemory is what bounds the memory of one stream.
type pipeMemory struct{ backlog, frame int }

type pipeFrame struct {
	want []byte
	got  []byte
	done bool
}

// pipeSource is the payload fragments are cut from: incompressible, so that any misplaced byte shows.
var pipeSource = pattern(77, 1<<20)

func (pipeWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*PipeScenario)
	rt.SeedEnv(1)
	single(func() { pipeRun(sc, o) })
}

func pipeRun(sc *PipeScenario, o *Outcome) {
	direct := sc.Kind == "direct"
	var p avformat.DataPipeline
	if direct {
		p = &avformat.DirectDataPipeline{}
	} else {
		p = &avformat.StreamsBuffer{}
	}
	streams := map[int][]*pipeFrame{}
	var order []int
	o.Trivial = true
	off := 0
	bad := func(pi *rt.PanicInfo, op string, s int) bool {
		if pi != nil {
			o.Fail("B03", panicKind(pi), "%s of stream %d: %s in %s", op, s, pi.Value, pi.Where)
			return true
		}
		return false
	}
	check := func(step int, what string) bool {
		for _, s := range order {
			for j, f := range streams[s] {
				if f.done && !bytes.Equal(f.got, f.want) {
					d := 0
					for d < len(f.got) && d < len(f.want) && f.got[d] == f.want[d] {
						d++
					}
					o.Fail("B03", "bytes", "step %d (%s): frame %d of stream %d has %d bytes, %d were written; first difference at byte %d", step, what, j, s, len(f.got), len(f.want), d)
					return true
				}
			}
		}
		return false
	}
	total := 0
	lastW := -1
	mem := map[int]*pipeMemory{}
	for step, op := range sc.Ops {
		s := clampI(op.S, 0, 40)
		if direct {
			s = 0
		}
		l := streams[s]
		last := len(l) - 1
		what := op.Op
		switch op.Op {
		case "w":
			n := clampI(op.N, 0, 1<<19)
			if total += n; total > 48<<20 {
				continue
			}
			off = (off + 4097) % (len(pipeSource) - (1 << 19))
			frag := append([]byte(nil), pipeSource[off:off+n]...)
			mt := utils.AVMediaTypeAudio
			if op.V {
				mt = utils.AVMediaTypeVideo
			}
			if bad(call(func() { _, _ = p.Write(frag, s, mt) }), "Write", s) {
				return
			}
			if last < 0 || l[last].done {
				if len(l) > 0 && !direct {
					o.Trivial = false
				}
				if _, ok := streams[s]; !ok {
					order = append(order, s)
				}
				streams[s] = append(l, &pipeFrame{})
				last++
			} else if lastW != s && lastW >= 0 {
				o.Trivial = false
				o.Count("fragments of several streams interleaved inside a frame")
			}
			if direct {
				o.Trivial = false
			}
			streams[s][last].want = append(streams[s][last].want, frag...)
			m := mem[s]
			if m == nil {
				m = &pipeMemory{}
				mem[s] = m
			}
			backlog := 0
			for _, f := range streams[s] {
				backlog += len(f.want)
			}
			m.backlog = maxI(m.backlog, backlog)
			m.frame = maxI(m.frame, len(streams[s][last].want))
			for i := range frag { // the network's buffer is reused
				frag[i] = 0xA5
			}
			lastW = s
			if n > 9999 {
				o.Count("large fragment")
			}
		case "f":
			if last < 0 || l[last].done {
				continue
			}
			var err error
			if bad(call(func() { l[last].got, err = p.Fetch(s) }), "Fetch", s) {
				return
			}
			if err != nil {
				o.Fail("B03", "fetch-error", "step %d: Fetch(%d) reported %v", step, s, err)
				return
			}
			l[last].done = true
			if direct {
				break
			}
			if m, c := mem[s], cap(l[last].got); c > 6*(m.backlog+m.frame)+4<<20 {
				o.Fail("B03", "unbounded-growth", "step %d: the memory of stream %d grew to %d bytes although at most %d bytes were held at a time and no frame has more than %d", step, s, c, m.backlog, m.frame)
				return
			}
		case "h":
			if last < 0 || !l[0].done {
				continue
			}
			if check(step, "before release") {
				return
			}
			if b, ok := p.(*avformat.StreamsBuffer); ok && (op.N+step)%3 == 0 {
				if bad(call(func() { b.Discard(s) }), "Discard", s) {
					return
				}
			} else if bad(call(func() { p.DiscardHeadPacket(s) }), "DiscardHeadPacket", s) {
				return
			}
			if !direct {
				streams[s] = l[1:]
			}
		case "b":
			if last < 0 || (direct && !l[last].done) {
				continue
			}
			if !l[last].done {
				o.Count("unfinished frame dropped")
			}
			if bad(call(func() { p.DiscardBackPacket(s) }), "DiscardBackPacket", s) {
				return
			}
			streams[s] = l[:last]
		case "s":
			d, ok := p.(interface{ Seek(int64, int) error })
			if !ok || !direct {
				continue
			}
			n := clampI(op.N, 0, 1<<20)
			if bad(call(func() { _ = d.Seek(-int64(n), s) }), "Seek", s) {
				return
			}
			if last >= 0 && !l[last].done {
				l[last].want = l[last].want[:maxI(len(l[last].want)-n, 0)]
				o.Count("unfinished frame wound back")
			}
		case "q":
		default:
			continue
		}
		if total < 1<<16 || step%8 == 0 || op.Op == "f" {
			if check(step, what) {
				return
			}
		}
		if direct && len(streams[0]) > 0 && streams[0][len(streams[0])-1].done {
			streams[0] = nil // bytes are only valid until the next write
		}
		// pending size of every stream, used or not
		if !observe(sc.Obs, step) {
			continue
		}
		for _, q := range append([]int{s}, order...) {
			pend := 0
			if k := len(streams[q]); k > 0 && !streams[q][k-1].done {
				pend = len(streams[q][k-1].want)
			}
			got := -1
			if bad(call(func() { got = p.PendingBlockSize(q) }), "PendingBlockSize", q) {
				return
			}
			if got != pend {
				o.Fail("B03", "pending", "step %d (%s): pending size of stream %d reported %d, is %d", step, what, q, got, pend)
				return
			}
		}
		o.LogN(op.Op, s, op.N)
	}
	check(len(sc.Ops), "end")
	if total > 600000 {
		o.Count("ring larger than its capacity written")
	}
}
