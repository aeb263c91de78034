package main

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "relay" (E01): a publisher, a chain of 1-3 relaying nodes and reading subscribers, each node and each reader a
// thread of its own. A node demuxes what arrives with a session of its own, announces downstream with the announced
// description, repackages every delivered packet for the next node's container and sends a copy; in manual release mode
// it also hands the packet to its readers under a shared reference count and releases it once the last one is done.
// Links lose, duplicate and delay frames and go down; nodes crash at any message and restart empty.
// The oracle knows only what the publisher sent and which messages reached which incarnation of a node.

type RlStream struct {
	C    string `json:"c"` // h264 h265 aac alaw opus g726 pcm mp3
	Seed int    `json:"seed"`
	NS   int    `json:"ns,omitempty"`
	NP   int    `json:"np,omitempty"`
	LS   int    `json:"ls,omitempty"` // unit length size of the publisher (h265)
	Rate int    `json:"rate,omitempty"`
	Ch   int    `json:"ch,omitempty"`
	CRC  bool   `json:"crc,omitempty"`
}

type RlFrame struct {
	S    int   `json:"s"`
	Key  bool  `json:"key,omitempty"`
	Dts  int64 `json:"dts"` // milliseconds
	Cts  int64 `json:"cts,omitempty"`
	Seed int   `json:"seed"`
	N    []int `json:"n"`              // unit sizes
	Sets bool  `json:"sets,omitempty"` // key frame carries its parameter sets
	Long bool  `json:"long,omitempty"` // every start code is four bytes long
	Aux  int   `json:"aux,omitempty"`  // 1: access unit delimiter, 2: supplemental information, 3: both
}

type RlNode struct {
	Name  string   `json:"name"`
	Pipe  int      `json:"pipe"`
	Cap   int      `json:"cap"`
	Probe int      `json:"probe"`
	Man   bool     `json:"man,omitempty"` // manual release with readers
	Alloc int      `json:"alloc,omitempty"`
	Lags  []int    `json:"lags,omitempty"`  // one reader each
	Crash []int    `json:"crash,omitempty"` // after that many messages
	Keep  bool     `json:"keep,omitempty"`  // session survives a restart of the node in front of it
	Wait  bool     `json:"wait,omitempty"`  // after a reconnect nothing is sent to it before the next key frame
	Drop  bool     `json:"drop,omitempty"`  // what was in flight is lost with the connection
	Close bool     `json:"close,omitempty"` // the old session is closed instead of abandoned
	Loss  int      `json:"loss,omitempty"`  // percent of the frames on the link to this node
	Dup   int      `json:"dup,omitempty"`
	Down  [][2]int `json:"down,omitempty"` // the link is down while its k-th message is sent
	Cfg   bool     `json:"cfg,omitempty"`  // configuration can be lost too
	Cut   int      `json:"cut,omitempty"`  // fragment size
	Rem   bool     `json:"rem,omitempty"`  // configuration records are built anew from the announced parameter sets
	Back  int      `json:"back"`           // messages in flight before the sender has to wait
}

type RlScenario struct {
	Env     uint64      `json:"env"`
	Net     int         `json:"net"`
	Pool    int         `json:"pool"`
	Yield   int         `json:"yield"`
	Plan    []rt.Switch `json:"plan"`
	Streams []RlStream  `json:"streams"`
	Nodes   []RlNode    `json:"nodes"`
	Frames  []RlFrame   `json:"frames"`
}

type relayWorld struct{}

func init() { register("E01", relayWorld{}, 800000, 4000) }

func (relayWorld) New() interface{} { return &RlScenario{} }
func (relayWorld) Rule(string) string {
	return "a publisher with up to two streams and 70 frames, 1-3 relaying nodes of any container with 0-3 readers each, every node and reader a thread; links lose, duplicate, go down, hold up to 1-30 messages; nodes crash and restart; up to 60 planned preemptions and seeded hand-offs; non-trivial: the last node delivered a frame"
}
func (relayWorld) Real() []string {
	return []string{"avformat.BaseDemuxer with everything it calls", "stream buffers", "packet conversions", "decoder configuration records", "ADTS readers and builder", "ReferenceCounter", "packet pool"}
}
func (relayWorld) Stub() []string {
	return []string{"thread scheduler", "network links", "container framing (messages carry stream, key flag and time stamps)", "sync.Pool policy", "map iteration order"}
}

func (relayWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &RlScenario{Env: r.U(), Net: r.N(1 << 30), Pool: r.N(5), Yield: []int{0, 10, 40, 90}[r.N(4)]}
	names := []string{"flv", "flv", "flv", "ps", "ps", "ts", "jt1078"}
	if r.P(90) {
		s := RlStream{C: []string{"h264", "h264", "h265"}[r.N(3)], Seed: r.N(1 << 20), NS: 1, NP: 1, LS: 4}
		if r.P(30) {
			s.NS, s.NP = 1+r.Skew(3), 1+r.Skew(3)
			if r.P(3) {
				s.NP = 28 + r.N(14)
			}
			if r.P(3) {
				s.NS = 14 + r.N(18)
			}
		}
		if r.P(map[bool]int{true: 30, false: 10}[s.C == "h265"]) {
			s.LS = 2
		}
		sc.Streams = append(sc.Streams, s)
	}
	if len(sc.Streams) == 0 || r.P(60) {
		sc.Streams = append(sc.Streams, RlStream{C: []string{"aac", "aac", "aac", "aac", "alaw", "opus", "mp3", "pcm", "g726"}[r.N(9)], Seed: r.N(1 << 20), Rate: r.N(13), Ch: r.In(1, 7), CRC: r.P(25)})
	}
	nn := 1 + r.Skew(4)
	if nn > 3 {
		nn = 3
	}
	faults := r.P(70)
	n := 6 + r.Skew(50)
	if big {
		n += r.N(100)
	}
	for i := 0; i < nn; i++ {
		nd := RlNode{Name: names[r.N(len(names))], Pipe: 1, Cap: []int{1 + r.N(200), 200 + r.N(2000), 4096}[r.N(3)], Probe: []int{0, 0, 300, 700, 5000}[r.N(5)], Alloc: r.N(3),
			Keep: r.P(40), Wait: r.P(40), Drop: r.P(50), Close: r.P(50), Back: 1 + r.Skew(30), Cut: []int{0, 0, 7 + r.N(40), 1 + r.N(5)}[r.N(4)]}
		if r.P(15) {
			nd.Pipe = 0
		} else if r.P(30) {
			nd.Pipe = 2
		}
		nd.Man = r.P(40)
		nd.Rem = r.P(40)
		if nd.Man {
			for k := r.N(4); k > 0; k-- {
				nd.Lags = append(nd.Lags, r.Skew(12))
			}
		}
		if faults {
			if r.P(40) {
				nd.Loss = []int{1, 5, 20}[r.N(3)]
			}
			if r.P(30) {
				nd.Dup = []int{1, 5, 20}[r.N(3)]
			}
			if r.P(25) {
				a := r.N(n)
				nd.Down = append(nd.Down, [2]int{a, a + 1 + r.Skew(12)})
			}
			nd.Cfg = r.P(15)
			if r.P(30) {
				for k := 1 + r.Skew(3); k > 0; k-- {
					nd.Crash = append(nd.Crash, 1+r.N(n))
				}
			}
		}
		sc.Nodes = append(sc.Nodes, nd)
	}
	clock := make([]int64, len(sc.Streams))
	start := int64(r.Skew(100000))
	if r.P(4) {
		start = int64(r.N(1 << 40))
	}
	step := make([]int64, len(sc.Streams))
	for i := range clock {
		clock[i] = start + int64(r.N(50))
		step[i] = int64([]int{20, 23, 33, 40, 66, 200}[r.N(6)])
	}
	if r.N(400) == 0 {
		n += 300 + r.N(500)
		sc.Nodes[r.N(nn)].Probe = 5000 + r.N(40000)
	}
	gop := 1 + r.N(12)
	long := r.P(25)
	setsP := []int{100, 100, 70, 40}[r.N(4)]
	cnt := make([]int, len(sc.Streams))
	for i := 0; i < n; i++ {
		s := 0
		for k := range clock {
			if clock[k] < clock[s] {
				s = k
			}
		}
		if len(clock) > 1 && r.P(10) {
			s = r.N(2)
		}
		f := RlFrame{S: s, Dts: clock[s], Seed: r.N(1 << 30)}
		clock[s] += step[s] + int64(r.N(5))
		if r.P(2) {
			clock[s] += int64(r.N(2000))
		}
		if isVideo(sc.Streams[s].C) {
			f.Key = cnt[s]%gop == 0 || r.P(3)
			f.Sets = f.Key && (r.P(setsP) || cnt[s] == 0)
			f.Cts = []int64{0, 0, 40, 80}[r.N(4)]
			if r.N(60) == 0 {
				f.Cts = -int64(r.N(100))
			}
			f.Aux = []int{0, 0, 1, 2, 3}[r.N(5)]
			for k := 1 + r.Skew(4); k > 0; k-- {
				f.N = append(f.N, []int{r.N(12), r.N(60), r.Skew(400)}[r.N(3)])
			}
			f.Long = long
			if r.N(60) == 0 {
				f.N[r.N(len(f.N))] = []int{r.N(5000), r.N(20000), r.N(60000)}[r.N(3)]
			}
			if r.N(3000) == 0 && sc.Streams[s].LS == 4 {
				f.N[r.N(len(f.N))] = []int{r.In(60000, 70000), r.In(100000, 300000)}[r.N(2)]
			}
			if r.N(300) == 0 {
				for k := 2 + r.N(60); k > 0; k-- {
					f.N = append(f.N, r.N(6))
				}
			}
		} else {
			f.N = []int{1 + r.N(60)}
			if r.P(10) {
				f.N[0] = 1 + r.N(700)
			}
			if r.N(500) == 0 {
				f.N[0] = 1 + r.N(8000)
			}
		}
		cnt[s]++
		sc.Frames = append(sc.Frames, f)
	}
	steps := n * nn * 400
	sc.Plan = genPlan(r, 60, []int{8, 100, maxI(200, steps/30)}[r.N(3)])
	if len(sc.Plan) > 0 && !sc.Plan[0].Shared && r.P(60) {
		sc.Plan[0].Delta = uint32(r.Skew(steps))
	}
	return sc
}

// ---- ground truth ----

type rlTruth struct {
	f     *RlFrame
	c     string
	units [][]byte // coded slices, or the one audio payload
	aux   [][]byte // everything else a published frame carries besides parameter sets
}

func rlSlice(c string, t int) bool {
	if c == "h264" {
		return t >= 1 && t <= 5
	}
	return t < 32
}

func unitType(c string, u []byte) int {
	if len(u) == 0 {
		return -1
	}
	if c == "h264" {
		return int(u[0] & 31)
	}
	return int(u[0] >> 1 & 63)
}

func (s *RlStream) truth(f *RlFrame) *rlTruth {
	t := &rlTruth{f: f, c: s.C}
	if !isVideo(s.C) {
		b := pattern(uint64(f.Seed)+3, clampI(first(f.N), 1, 8000))
		b[0] &= 0x7F // raw AAC is never mistaken for an ADTS header
		t.units = [][]byte{b}
		return t
	}
	r := NewRng("rl", f.Seed)
	hdr := func(k int) []byte {
		if s.C == "h264" {
			return []byte{byte(k) | 0x60}
		}
		return []byte{byte(k << 1), 1}
	}
	kind := map[string]int{"h264": 1, "h265": 1}[s.C]
	if f.Key {
		kind = map[string]int{"h264": 5, "h265": 19}[s.C]
	}
	if f.Aux&1 != 0 {
		if s.C == "h264" {
			t.aux = append(t.aux, []byte{9, 0xF0})
		} else {
			t.aux = append(t.aux, []byte{70, 1, 0x50})
		}
	}
	if f.Aux&2 != 0 {
		t.aux = append(t.aux, nalBody(r, hdr(map[string]int{"h264": 6, "h265": 39}[s.C]), 3+r.N(20)))
	}
	for _, n := range f.N {
		t.units = append(t.units, nalBody(r, hdr(kind), clampI(n, 1, map[bool]int{true: 400000, false: 60000}[s.LS == 4])))
	}
	return t
}

func first(l []int) int {
	if len(l) == 0 {
		return 1
	}
	return l[0]
}

func lastOf(l [][]byte) [][]byte { return l[len(l)-1:] }

// rlDesc is what a node has to announce for a stream.
type rlDesc struct {
	ps   paramSets
	w, h int
	ls   int // unit length size of its length-prefixed packets
	rate int
	ch   int
	asc  []byte
}

// narrowed is the description a start-code session derives from a key frame carrying all of d's sets.
func (d rlDesc) narrowed() rlDesc {
	n := len(d.ps.w) - 1
	e := rlDesc{w: d.ps.w[n], h: d.ps.h[n], ls: 4}
	if len(d.ps.vps) > 0 {
		e.ps.vps = lastOf(d.ps.vps)
	}
	e.ps.sps, e.ps.pps, e.ps.w, e.ps.h = lastOf(d.ps.sps), lastOf(d.ps.pps), []int{e.w}, []int{e.h}
	return e
}

func (d rlDesc) sets() [][]byte {
	return append(append(append([][]byte{}, d.ps.vps...), d.ps.sps...), d.ps.pps...)
}

// ---- messages and links ----

type rlMsg struct {
	s        int
	cfg      bool
	reset    bool
	t        *rlTruth
	key      bool
	dts, pts int64
	tb       int
	data     []byte
	desc     rlDesc // of a configuration: what it says
	all      bool   // a start-code key frame with parameter sets of every kind
}

type rlLink struct {
	q      []*rlMsg
	closed bool
	sent   int
	renew  bool // the receiver is a new incarnation: configure it again
	wait   bool
	r      *Rng
}

type rlItem struct {
	pkt   *avformat.AVPacket
	st    *avformat.AVStream
	buf   int
	video bool
	want  rlDesc
	sets  [][]byte
	rc    *collections.ReferenceCounter[*avformat.AVPacket]
	last  int
	sum   string
	out   []byte
	osum  uint64
}

type rlAcc struct {
	t        *rlTruth
	dts, pts int64
}

type rlNodeRun struct {
	x    *rlRun
	i    int
	nd   *RlNode
	d    *avformat.BaseDemuxer
	pipe avformat.DataPipeline
	tb   int
	n    int // messages consumed

	// this incarnation
	created   map[int]rlDesc
	acc       map[int][]rlAcc
	del       map[int]int
	announced map[int]*avformat.AVStream
	bufs      map[int]int
	completed bool
	dead      bool
	lastDts   map[int]int64
	items     map[int][]*rlItem
	readers   [][]*rlItem
	over      bool
}

type rlRun struct {
	sc    *RlScenario
	o     *Outcome
	r     *Rng
	links []*rlLink // in front of node i
	nodes []*rlNodeRun
	descs []rlDesc
	fin   int
}

func (x *rlRun) fail(kind, format string, a ...interface{}) { x.o.Fail("E01", kind, format, a...) }

func (x *rlRun) bad() bool { return len(x.o.V) > 0 }

func (x *rlRun) lib(what string, f func()) bool {
	if x.bad() {
		return false
	}
	if pi := call(f); pi != nil {
		x.fail(panicKind(pi), "%s: %s in %s", what, pi.Value, pi.Where)
		return false
	}
	return true
}

func rlTimebase(name string) int {
	if name == "ps" || name == "ts" {
		return 90000
	}
	return 1000
}

// send puts a message on the link in front of node k, which may lose or repeat it, and waits while the link is full.
func (x *rlRun) send(k int, m *rlMsg) {
	l, nd := x.links[k], &x.sc.Nodes[k]
	if !m.reset {
		if m.t != nil && l.wait {
			if isVideo(m.t.c) && m.key {
				l.wait = false
			} else if x.hasVideo() {
				return
			}
		}
		at := l.sent
		l.sent++
		if m.t != nil || nd.Cfg {
			for _, d := range nd.Down {
				if at >= d[0] && at < d[1] {
					x.o.Count("message lost while the link was down")
					return
				}
			}
			if l.r.P(nd.Loss) {
				x.o.Count("message lost")
				return
			}
			if m.t != nil && l.r.P(nd.Dup) {
				x.o.Count("message duplicated")
				l.q = append(l.q, m)
			}
		}
	}
	l.q = append(l.q, m)
	if x.r.P(x.sc.Yield) {
		rt.Handoff(x.r.N(8))
	}
	limit := clampI(nd.Back, 1, 1000)
	if len(l.q) > limit {
		x.o.Count("sender held up by a slow node")
		rt.Block(func() bool { return len(l.q) <= limit })
	}
}

func (x *rlRun) videoCodec() string {
	for _, s := range x.sc.Streams {
		if isVideo(s.C) {
			return s.C
		}
	}
	return ""
}

func (x *rlRun) hasVideo() bool {
	for _, s := range x.sc.Streams {
		if isVideo(s.C) {
			return true
		}
	}
	return false
}

// ---- publisher ----

func (x *rlRun) publisher() {
	nd := &x.sc.Nodes[0]
	l := x.links[0]
	avcc := nd.Name == "flv"
	tb := int64(rlTimebase(nd.Name) / 1000)
	config := func() {
		if !avcc {
			return
		}
		for i := range x.sc.Streams {
			s, d := &x.sc.Streams[i], x.descs[i]
			m := &rlMsg{s: i, cfg: true, desc: d}
			switch s.C {
			case "h264":
				m.data = avcC(d.ps, d.ls, NewRng("avcc", s.Seed))
			case "h265":
				m.data = hvcC(d.ps, d.ls, NewRng("hvcc", s.Seed))
			case "aac":
				m.data = cloneB(d.asc)
			default:
				continue
			}
			x.send(0, m)
		}
	}
	config()
	for i := range x.sc.Frames {
		f := &x.sc.Frames[i]
		if x.bad() {
			break
		}
		if f.S < 0 || f.S >= len(x.sc.Streams) {
			continue
		}
		if l.renew {
			l.renew = false
			l.wait = nd.Wait
			config()
		}
		s := &x.sc.Streams[f.S]
		t := s.truth(f)
		m := &rlMsg{s: f.S, t: t, key: f.Key, dts: f.Dts * tb, pts: (f.Dts + f.Cts) * tb, tb: int(tb) * 1000}
		d := x.descs[f.S]
		switch {
		case isVideo(s.C):
			units := append([][]byte{}, t.aux...)
			if f.Key && f.Sets {
				k := 0
				if len(t.aux) > 0 && f.Aux&1 != 0 {
					k = 1
				}
				units = append(append(append([][]byte{}, t.aux[:k]...), d.sets()...), t.aux[k:]...)
				m.all, m.desc = true, d.narrowed()
			}
			units = append(units, t.units...)
			if avcc {
				m.data = lengthPrefixed(units, d.ls)
			} else if f.Long {
				for _, u := range units {
					m.data = append(append(m.data, 0, 0, 0, 1), u...)
				}
			} else {
				m.data = startCodes(NewRng("rls", f.Seed), units)
			}
		case s.C == "aac" && !avcc:
			m.data = append(adtsHeader(maxI(s.Rate, 0)%13, clampI(s.Ch, 1, 7), len(t.units[0]), s.CRC), t.units[0]...)
			m.pts = m.dts
		default:
			m.data = t.units[0]
			m.pts = m.dts
		}
		x.send(0, m)
	}
	l.closed = true
}

// ---- node ----

func (n *rlNodeRun) avcc() bool { return n.nd.Name == "flv" }

func (n *rlNodeRun) open() {
	n.pipe = newPipe(n.nd.Pipe, n.nd.Cap)
	n.d = &avformat.BaseDemuxer{Name: n.nd.Name, DataPipeline: n.pipe, AutoFree: !n.nd.Man}
	n.d.SetHandler(&rlHandler{n, n.n})
	n.d.SetProbeDuration(n.nd.Probe)
	n.tb = rlTimebase(n.nd.Name)
	n.created, n.acc, n.del, n.announced, n.bufs = map[int]rlDesc{}, map[int][]rlAcc{}, map[int]int{}, map[int]*avformat.AVStream{}, map[int]int{}
	n.completed, n.lastDts, n.items = false, map[int]int64{}, map[int][]*rlItem{}
	switch n.nd.Alloc {
	case 1:
		n.d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) {
			p.OnBufferAlloc = func(size int) []byte { return pattern(uint64(size), size) }
		})
	case 2:
		n.d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) {
			p.OnBufferAlloc = func(size int) []byte { return make([]byte, size, size+9) }
		})
	}
}

// restart replaces the session, as a crash of the process or a new connection does.
func (n *rlNodeRun) restart(crash bool) {
	x := n.x
	if n.nd.Close {
		x.lib("Close", func() { n.d.Close() })
	}
	n.open()
	if !crash {
		return
	}
	x.o.Count("node crashed and restarted")
	l := x.links[n.i]
	l.renew = true
	if n.nd.Drop {
		l.q = nil
	}
	if n.i+1 < len(x.nodes) {
		down := x.links[n.i+1]
		if x.sc.Nodes[n.i+1].Drop {
			down.q = nil
		}
		if !x.sc.Nodes[n.i+1].Keep {
			down.q = append(down.q, &rlMsg{reset: true})
		}
		down.renew, down.wait = false, false
	}
}

func (n *rlNodeRun) run() {
	x := n.x
	l := x.links[n.i]
	n.open()
	for !x.bad() {
		rt.Block(func() bool { return len(l.q) > 0 || l.closed || x.bad() })
		if len(l.q) == 0 {
			break
		}
		m := l.q[0]
		l.q = l.q[1:]
		if m.reset {
			x.o.Count("connection reset by the node in front")
			n.restart(false)
			continue
		}
		n.n++
		n.feed(m)
		n.reap()
		for _, c := range n.nd.Crash {
			if c == n.n && !x.bad() {
				n.restart(true)
			}
		}
		if x.r.P(x.sc.Yield) {
			rt.Handoff(x.r.N(8))
		}
	}
	if !x.bad() {
		x.lib("ProbeComplete", func() { n.d.ProbeComplete() })
		n.judge("at the end")
		n.reap()
	}
	n.over = true
	if n.i+1 < len(x.nodes) {
		x.links[n.i+1].closed = true
	}
	x.fin++
}

func (n *rlNodeRun) feed(m *rlMsg) {
	x := n.x
	s := &x.sc.Streams[m.s]
	id := codecID(s.C)
	x.lib("FindBufferIndex", func() { n.bufs[m.s] = n.d.FindBufferIndex(marker(x.sc.Streams[m.s].Seed, m.s)) })
	b := n.bufs[m.s]
	cut := n.nd.Cut
	if cut < 1 {
		cut = len(m.data)
	}
	cut = maxI(cut, len(m.data)/4000)
	ok := x.lib("assembling a frame", func() {
		for at := 0; at < len(m.data); at += cut {
			_, _ = n.pipe.Write(append([]byte{}, m.data[at:minI(at+cut, len(m.data))]...), b, mediaOf(s.C))
		}
	})
	if !ok {
		return
	}
	// what this message means for the session
	_, have := n.created[m.s]
	if !n.completed && !have {
		switch {
		case m.cfg:
			n.created[m.s] = m.desc
		case isVideo(s.C) && !n.avcc() && m.all:
			n.created[m.s] = m.desc
		case !isVideo(s.C) && !(s.C == "aac" && n.avcc()):
			n.created[m.s] = x.descs[m.s]
		}
		_, have = n.created[m.s]
	}
	if have && !m.cfg {
		n.acc[m.s] = append(n.acc[m.s], rlAcc{m.t, m.dts, m.pts})
	}
	x.lib("feeding a message", func() {
		data, err := n.pipe.Fetch(b)
		if err != nil || !bytes.Equal(data, m.data) {
			x.fail("assembled", "node %d: the reassembled message of stream %d is %s, sent %s", n.i, m.s, clip(data), clip(m.data))
			return
		}
		switch {
		case m.cfg && isVideo(s.C):
			n.d.OnNewVideoTrack(b, id, n.tb, data)
		case m.cfg:
			n.d.OnNewAudioTrack(b, id, n.tb, data, avformat.AudioConfig{})
		case isVideo(s.C):
			pt := avformat.PacketTypeAnnexB
			if n.avcc() {
				pt = avformat.PacketTypeAVCC
			}
			n.d.OnVideoPacket(b, id, data, m.key, m.dts, m.pts, pt)
		default:
			n.d.OnAudioPacket(b, id, data, m.dts)
		}
	})
	n.judge("after a message")
}

// judge: everything accepted but the newest frame of each track has been delivered once probing is over.
func (n *rlNodeRun) judge(when string) {
	if n.x.bad() || !n.completed {
		return
	}
	for s := range n.x.sc.Streams {
		if n.announced[s] == nil {
			if _, ok := n.created[s]; ok {
				n.x.fail("not-announced", "node %d, %s: stream %d was never announced", n.i, when, s)
			}
			continue
		}
		if want := maxI(len(n.acc[s])-1, 0); n.del[s] != want {
			n.x.fail("not-delivered", "node %d (%s), %s: %d frames of stream %d (%s) arrived, %d were delivered", n.i, n.nd.Name, when, len(n.acc[s]), s, n.x.sc.Streams[s].C, n.del[s])
			return
		}
	}
}

// ---- callbacks of a session; a handler belongs to one incarnation ----

type rlHandler struct {
	*rlNodeRun
	born int
}

func (n *rlHandler) stream(mt utils.AVMediaType) int {
	for i, s := range n.x.sc.Streams {
		if isVideo(s.C) == (mt == utils.AVMediaTypeVideo) {
			return i
		}
	}
	return -1
}

func (n *rlHandler) OnNewTrack(t avformat.Track) {
	x := n.x
	if x.bad() {
		return
	}
	st := t.GetStream()
	s := n.stream(st.MediaType)
	if s < 0 || n.announced[s] != nil {
		x.fail("announced", "node %d announced a track nobody sent, or twice: %v", n.i, st.MediaType)
		return
	}
	want, ok := n.created[s]
	if !ok {
		x.fail("announced", "node %d announced stream %d although neither its configuration nor a usable first frame had arrived", n.i, s)
		return
	}
	n.announced[s] = st
	c := x.sc.Streams[s].C
	if st.CodecID != codecID(c) || st.Timebase != n.tb {
		x.fail("description", "node %d announced stream %d with codec %v and time base %d, published %s, container %s", n.i, s, st.CodecID, st.Timebase, c, n.nd.Name)
		return
	}
	switch {
	case isVideo(c):
		p := st.CodecParameters
		if p == nil {
			x.fail("description", "node %d announced video without parameters", n.i)
			return
		}
		got := append(unStart(p.SPS()), unStart(p.PPS())...)
		exp := append(append([][]byte{}, want.ps.sps...), want.ps.pps...)
		if v, ok := p.(interface{ VPS() [][]byte }); ok {
			got, exp = append(got, unStart(v.VPS())...), append(exp, want.ps.vps...)
		}
		if !eqSets(got, exp) {
			x.fail("description", "node %d (%s): announced parameter sets %s, published %s", n.i, n.nd.Name, hexes(got), hexes(exp))
		} else if p.Width() != want.w || p.Height() != want.h {
			x.fail("description", "node %d (%s): announced picture size %dx%d, published %dx%d", n.i, n.nd.Name, p.Width(), p.Height(), want.w, want.h)
		}
	case c == "aac":
		if st.SampleRate != want.rate || st.Channels != want.ch || st.HasADTSHeader == n.avcc() {
			x.fail("description", "node %d (%s): announced AAC with %d Hz, %d channels, ADTS %v; published %d Hz, %d channels", n.i, n.nd.Name, st.SampleRate, st.Channels, st.HasADTSHeader, want.rate, want.ch)
		}
	}
}

func hexes(l [][]byte) string {
	s := ""
	for _, b := range l {
		s += clip(b) + " "
	}
	return s
}

func (n *rlHandler) OnTrackNotFind() { n.completed = true }

func (n *rlHandler) OnTrackComplete() {
	n.completed = true
	n.configure()
}

// configure sends the announced descriptions to the next node if its container needs them.
func (n *rlNodeRun) configure() {
	x := n.x
	k := n.i + 1
	if k >= len(x.nodes) || x.sc.Nodes[k].Name != "flv" {
		return
	}
	for s := range x.sc.Streams {
		st := n.announced[s]
		if st == nil || x.bad() {
			continue
		}
		c := x.sc.Streams[s].C
		m := &rlMsg{s: s, cfg: true, desc: n.created[s]}
		switch {
		case isVideo(c):
			x.lib("MP4ExtraData", func() { m.data = cloneB(st.CodecParameters.MP4ExtraData()) })
			if !n.avcc() {
				m.desc.ls = 4
			}
			if n.nd.Rem && m.desc.ls == 4 {
				n.remarshal(m, st.CodecParameters)
			}
		case c == "aac":
			m.data = cloneB(st.Data)
		default:
			continue
		}
		x.send(k, m)
	}
}

// remarshal builds the record a next node is configured with from the announced parameter sets.
func (n *rlNodeRun) remarshal(m *rlMsg, p avformat.CodecData) {
	x := n.x
	var err error
	x.lib("building a configuration record", func() {
		switch d := p.(type) {
		case *avformat.AVCCodecData:
			m.data, err = d.Record.Marshal(d.SPS(), d.PPS())
		case *avformat.HEVCCodecData:
			m.data, err = d.Record.Marshal(d.VPS(), d.SPS(), d.PPS())
		}
	})
	if x.bad() {
		return
	}
	x.o.Count("configuration record built anew")
	if err != nil {
		x.fail("description", "node %d: no configuration record could be built from the announced parameter sets: %v", n.i, err)
		return
	}
	m.data = cloneB(m.data)
	if bad := recordHolds(x.sc.Streams[m.s].C, m.data, m.desc.ps); bad != "" {
		x.fail("description", "node %d: the configuration record %s built from the announced parameter sets %s", n.i, clip(m.data), bad)
	}
}

// recordHolds reads a configuration record independently of the library.
func recordHolds(c string, b []byte, ps paramSets) string {
	head, groups := 6, [][][]byte{ps.sps, ps.pps}
	if c == "h265" {
		head, groups = 23, [][][]byte{ps.vps, ps.sps, ps.pps}
	}
	if len(b) < head || b[0] != 1 {
		return "has no header"
	}
	if c == "h265" {
		if b[21]&3 != 3 || b[22] != 3 {
			return "does not declare three groups and 4-byte lengths"
		}
	} else {
		if b[4]&3 != 3 {
			return "does not declare 4-byte lengths"
		}
		ok := false
		for _, s := range ps.sps {
			ok = ok || len(s) > 3 && bytes.Equal(s[1:4], b[1:4])
		}
		if !ok {
			return "declares the profile and level of no parameter set"
		}
	}
	pos := head
	for i, g := range groups {
		var n int
		switch {
		case c == "h265":
			if pos+3 > len(b) || int(b[pos]&63) != 32+i {
				return "is cut short or has groups of another kind"
			}
			n = int(b[pos+1])<<8 | int(b[pos+2])
			pos += 3
		case i == 0:
			n = int(b[5] & 31)
		default:
			if pos >= len(b) {
				return "is cut short"
			}
			n = int(b[pos])
			pos++
		}
		if n != len(g) {
			return fmt.Sprintf("declares %d parameter sets of kind %d instead of %d", n, i, len(g))
		}
		for _, s := range g {
			if pos+2 > len(b) {
				return "is cut short"
			}
			l := int(b[pos])<<8 | int(b[pos+1])
			pos += 2
			if pos+l > len(b) || !bytes.Equal(bytes.TrimRight(b[pos:pos+l], "\x00"), bytes.TrimRight(s, "\x00")) {
				return "holds other parameter sets"
			}
			pos += l
		}
	}
	return ""
}

// unitsOf reads the NAL units of a video packet independently of the library.
func rlUnits(data []byte, avcc bool, ls int) ([][]byte, bool) {
	if avcc {
		return splitLength(data, ls)
	}
	return splitStart(data), true
}

// same compares the units found with what was published: the coded slices exactly, everything else must stem from the
// frame or be one of the track's parameter sets.
func (t *rlTruth) same(units [][]byte, sets [][]byte) string {
	k := 0
	for _, u := range units {
		if rlSlice(t.c, unitType(t.c, u)) {
			if k >= len(t.units) || !bytes.Equal(u, t.units[k]) {
				return "coded unit " + clip(u) + " was not published there"
			}
			k++
			continue
		}
		known := false
		for _, l := range [][][]byte{t.aux, sets} {
			for _, w := range l {
				known = known || bytes.Equal(u, w) || bytes.Equal(u, bytes.TrimRight(w, "\x00"))
			}
		}
		if !known {
			return "unit " + clip(u) + " was not published"
		}
	}
	if k != len(t.units) {
		return "a coded unit is missing"
	}
	return ""
}

func (n *rlHandler) OnPacket(p *avformat.AVPacket) {
	x := n.x
	if x.bad() {
		return
	}
	s := n.stream(p.MediaType)
	if s < 0 || n.announced[s] == nil || n.announced[s].Index != p.Index {
		x.fail("packet", "node %d delivered a packet of a track it did not announce (index %d, %v)", n.i, p.Index, p.MediaType)
		return
	}
	if n.del[s] >= len(n.acc[s])-1 {
		x.fail("extra", "node %d delivered %d frames of stream %d of which only %d arrived (the newest is withheld)", n.i, n.del[s]+1, s, len(n.acc[s]))
		return
	}
	a := n.acc[s][n.del[s]]
	n.del[s]++
	st, c := n.announced[s], x.sc.Streams[s].C
	all := x.descs[s].sets()
	what := func(problem string) {
		x.fail("content", "node %d (%s), stream %d (%s), frame published at %d ms: %s", n.i, n.nd.Name, s, c, a.t.f.Dts, problem)
	}
	if p.Dts != a.dts || p.Pts != a.pts || p.Timebase != n.tb || p.Key != (a.t.f.Key && isVideo(c)) {
		x.fail("stamps", "node %d: frame published at %d ms arrived with dts %d pts %d, delivered with dts %d pts %d time base %d key %v", n.i, a.t.f.Dts, a.dts, a.pts, p.Dts, p.Pts, p.Timebase, p.Key)
		return
	}
	if want := a.t.f.Dts * int64(n.tb/1000); p.Dts < want-int64(n.i*n.tb/1000) || p.Dts > want+int64(n.i*n.tb/1000) {
		x.fail("stamps", "node %d: frame published at %d ms has dts %d in time base %d", n.i, a.t.f.Dts, p.Dts, n.tb)
		return
	}
	cts := a.t.f.Cts
	if !isVideo(c) {
		cts = 0
	}
	if want := (a.t.f.Dts + cts) * int64(n.tb/1000); p.Pts < want-int64(n.i*n.tb/1000) || p.Pts > want+int64(n.i*n.tb/1000) {
		x.fail("stamps", "node %d: frame to be shown at %d ms has pts %d in time base %d", n.i, a.t.f.Dts+cts, p.Pts, n.tb)
		return
	}
	if last, ok := n.lastDts[s]; ok && p.Dts < last {
		x.fail("stamps", "node %d: dts of stream %d fell from %d to %d", n.i, s, last, p.Dts)
		return
	}
	n.lastDts[s] = p.Dts
	ls := n.created[s].ls
	if isVideo(c) {
		u, ok := rlUnits(p.Data, n.avcc(), ls)
		if !ok {
			what("packet is not length-prefixed: " + clip(p.Data))
			return
		}
		if bad := a.t.same(u, all); bad != "" {
			what("delivered packet: " + bad)
			return
		}
	} else if raw := n.raw(c, p.Data); !bytes.Equal(raw, a.t.units[0]) {
		what("delivered payload " + clip(raw) + ", published " + clip(a.t.units[0]))
		return
	}
	x.o.Count("frames checked at a node")
	x.o.LogN("d", n.i, s, int(p.Dts), len(p.Data))
	// repackage for the next node
	var out []byte
	sum := h(p.Data)
	k := n.i + 1
	next := ""
	if k < len(x.nodes) {
		next = x.sc.Nodes[k].Name
	} else if n.nd.Man {
		next = []string{"flv", "ps"}[n.i%2]
	}
	m := &rlMsg{s: s, t: a.t, key: p.Key}
	if next != "" {
		if !x.lib("repackaging", func() { out = n.repack(p, st, c, next, m) }) {
			return
		}
		if h(p.Data) != sum {
			what("the delivered packet changed when it was repackaged for " + next)
			return
		}
		if isVideo(c) {
			nls := 4
			if n.avcc() {
				nls = ls
			}
			u, ok := rlUnits(out, next == "flv", nls)
			if !ok {
				what("repackaged for " + next + ": not length-prefixed: " + clip(out))
				return
			}
			if bad := a.t.same(u, all); bad != "" {
				what("repackaged for " + next + ": " + bad)
				return
			}
			if next != "flv" && p.Key && !leadsWith(c, u, n.created[s].sets()) {
				what("repackaged for " + next + ": the key frame does not start with the track's parameter sets")
				return
			}
			if next != "flv" {
				m.all = kinds(c, u) == n.kindsOf(s)
				m.desc = n.created[s].narrowed()
				// the last of each kind in front of the first slice wins
				if f := a.t.f; f.Key && f.Sets {
					m.desc = x.descs[s].narrowed()
				}
			}
		}
	}
	if k < len(x.nodes) {
		l := x.links[k]
		if l.renew {
			l.renew = false
			l.wait = x.sc.Nodes[k].Wait
			n.configure()
		}
		m.tb = rlTimebase(next)
		if !x.lib("time stamps", func() { m.dts, m.pts = p.ConvertDts(m.tb), p.ConvertPts(m.tb) }) {
			return
		}
		m.data = cloneB(out)
		x.send(k, m)
	}
	if n.nd.Man {
		n.share(p, out, s)
	}
}

func kinds(c string, units [][]byte) int {
	k := 0
	for _, u := range units {
		switch t := unitType(c, u); {
		case c == "h264" && (t == 7 || t == 8), c == "h265" && t >= 32 && t <= 34:
			k |= 1 << (uint(t) % 8)
		}
	}
	return k
}

func (n *rlNodeRun) kindsOf(s int) int { return kinds(n.x.sc.Streams[s].C, n.created[s].sets()) }

// leadsWith: every parameter set occurs ahead of the first coded slice.
func leadsWith(c string, units [][]byte, sets [][]byte) bool {
	for _, s := range sets {
		found := false
		for _, u := range units {
			if rlSlice(c, unitType(c, u)) {
				break
			}
			if bytes.Equal(u, s) || bytes.Equal(u, bytes.TrimRight(s, "\x00")) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// raw strips an ADTS header.
func (n *rlNodeRun) raw(c string, data []byte) []byte {
	if c != "aac" || n.avcc() || len(data) < 7 {
		return data
	}
	skip := 7
	if data[1]&1 == 0 {
		skip = 9
	}
	return data[minI(skip, len(data)):]
}

func (n *rlNodeRun) repack(p *avformat.AVPacket, st *avformat.AVStream, c, next string, m *rlMsg) []byte {
	switch {
	case isVideo(c) && next == "flv":
		return avformat.AnnexBPacket2AVCC(p)
	case isVideo(c):
		return avformat.AVCCPacket2AnnexB(st, p)
	case c == "aac" && next == "flv" && !n.avcc():
		h, err := utils.ReadADtsFixedHeader(p.Data)
		if err != nil {
			n.x.fail("adts", "node %d: the ADTS header of a delivered frame cannot be read: %v", n.i, err)
			return p.Data
		}
		skip := 7
		if h.ProtectionAbsent() == 0 {
			skip = 9
		}
		if h.FrameLength() != len(p.Data) {
			n.x.fail("adts", "node %d: the ADTS header of a frame of %d bytes says %d", n.i, len(p.Data), h.FrameLength())
		}
		return p.Data[skip:]
	case c == "aac" && next != "flv" && n.avcc():
		cfg, err := utils.ParseMpeg4AudioConfig(st.Data)
		if err != nil {
			n.x.fail("adts", "node %d: the announced AAC configuration cannot be read: %v", n.i, err)
			return p.Data
		}
		h := pattern(77, 7)
		utils.SetADtsHeader(h, 0, cfg.ObjectType-1, cfg.SamplingIndex, cfg.ChanConfig, 7+len(p.Data))
		return append(h, p.Data...)
	}
	return p.Data
}

// ---- manual release: readers share the packet ----

func (n *rlHandler) share(p *avformat.AVPacket, out []byte, s int) {
	x := n.x
	it := &rlItem{pkt: p, st: n.announced[s], buf: n.bufs[s], sum: h(p.Data), out: out, osum: sum64(out)}
	if it.video = isVideo(x.sc.Streams[s].C); it.video {
		it.want, it.sets = n.created[s], append([][]byte{}, n.created[s].sets()...)
	}
	n.items[s] = append(n.items[s], it)
	if !x.lib("sharing", func() {
		it.rc = collections.NewReferenceCounter(p)
		for range n.readers {
			it.rc.Refer()
		}
	}) {
		return
	}
	for k := range n.readers {
		n.readers[k] = append(n.readers[k], it)
	}
	x.drop(it)
}

func (x *rlRun) drop(it *rlItem) {
	x.lib("Release", func() {
		if it.rc.Release() {
			it.last++
		}
	})
	if it.last > 1 {
		x.fail("released-twice", "two holders of a shared packet were told they were the last")
	}
}

// reap releases, oldest first, what no reader holds any more.
func (n *rlNodeRun) reap() {
	x := n.x
	for s := range x.sc.Streams {
		for len(n.items[s]) > 0 && n.items[s][0].last > 0 && !x.bad() {
			it := n.items[s][0]
			n.items[s] = n.items[s][1:]
			x.lib("release", func() {
				n.d.DiscardHeadPacket(it.buf)
				avformat.FreePacket(it.pkt)
			})
			x.o.Count("shared packet released by its last holder")
		}
	}
}

func (n *rlNodeRun) reader(k int) {
	x := n.x
	lag := clampI(n.nd.Lags[k], 0, 100)
	seen := map[*avformat.AVStream]bool{}
	rr := NewRng("reader", x.sc.Net, n.i, k)
	var late []*rlItem // taken a second time, given back later
	back := func(keep int) {
		for len(late) > keep && !x.bad() {
			it := late[0]
			late = late[1:]
			if h(it.pkt.Data) != it.sum {
				x.fail("reader", "node %d: a packet changed while a reader still held it", n.i)
				return
			}
			x.drop(it)
		}
	}
	defer func() { back(0) }()
	for !x.bad() {
		back(rr.N(6))
		rt.Block(func() bool { return len(n.readers[k]) > lag || n.over || x.bad() })
		if len(n.readers[k]) == 0 || x.bad() {
			return
		}
		it := n.readers[k][0]
		n.readers[k] = n.readers[k][1:]
		var p *avformat.AVPacket
		if !x.lib("Get", func() { p = it.rc.Get() }) {
			return
		}
		if p != it.pkt || h(p.Data) != it.sum || sum64(it.out) != it.osum {
			x.fail("reader", "node %d: a packet changed while a reader still held it", n.i)
			return
		}
		if x.r.P(x.sc.Yield) {
			rt.Handoff(x.r.N(8))
		}
		if h(p.Data) != it.sum || sum64(it.out) != it.osum {
			x.fail("reader", "node %d: a packet changed while a reader still held it", n.i)
			return
		}
		if it.video && !seen[it.st] {
			seen[it.st] = true
			x.lib("reading the description", func() {
				got := splitStart(it.st.CodecParameters.AnnexBExtraData())
				if !leadsWith(x.videoCodec(), got, it.sets) || len(got) != len(it.sets) {
					x.fail("description", "node %d: a reader found the description %s, published %s", n.i, hexes(got), hexes(it.sets))
				}
				if w, hh := it.st.CodecParameters.Width(), it.st.CodecParameters.Height(); w != it.want.w || hh != it.want.h {
					x.fail("description", "node %d: a reader found the picture size %dx%d, published %dx%d", n.i, w, hh, it.want.w, it.want.h)
				}
			})
		}
		if rr.P(25) {
			if !x.lib("Refer", func() { it.rc.Refer() }) {
				return
			}
			late = append(late, it)
		}
		x.drop(it)
		x.o.Count("packets read by readers")
	}
}

func (relayWorld) Exec(y interface{}, prop string, o *Outcome) {
	sc := y.(*RlScenario)
	if len(sc.Nodes) == 0 || len(sc.Nodes) > 4 || len(sc.Streams) == 0 || len(sc.Streams) > 2 || len(sc.Frames) > 2000 ||
		(len(sc.Streams) == 2 && isVideo(sc.Streams[0].C) == isVideo(sc.Streams[1].C)) {
		o.Trivial = true
		return
	}
	rt.SeedEnv(sc.Env)
	rt.PoolMode = clampI(sc.Pool, 0, 4)
	x := &rlRun{sc: sc, o: o, r: NewRng("relay", sc.Net)}
	for i := range sc.Streams {
		s := &sc.Streams[i]
		d := rlDesc{ls: 4}
		if isVideo(s.C) {
			if s.C != "h265" {
				s.C = "h264"
			}
			if s.LS == 2 {
				d.ls = 2
			}
			d.ps = makeSets(s.C, s.Seed, clampI(s.NS, 1, 31), clampI(s.NP, 1, 255))
			d.w, d.h = d.ps.w[0], d.ps.h[0]
		} else {
			rate, ch := maxI(s.Rate, 0)%13, clampI(s.Ch, 1, 7)
			d.rate, d.ch = aacRates[rate], aacChannels[ch]
			d.asc = []byte{2<<3 | byte(rate>>1), byte(rate&1)<<7 | byte(ch)<<3}
		}
		x.descs = append(x.descs, d)
	}
	var bodies []func()
	bodies = append(bodies, x.publisher)
	for i := range sc.Nodes {
		nd := &sc.Nodes[i]
		n := &rlNodeRun{x: x, i: i, nd: nd}
		x.nodes = append(x.nodes, n)
		x.links = append(x.links, &rlLink{r: NewRng("link", sc.Net, i)})
		bodies = append(bodies, n.run)
		if nd.Man {
			for k := 0; k < len(nd.Lags) && k < 4; k++ {
				k := k
				n.readers = append(n.readers, nil)
				bodies = append(bodies, func() { n.reader(k) })
			}
		}
	}
	budget := uint64(4 << 20)
	for i := range sc.Frames {
		for _, n := range sc.Frames[i].N {
			if n > 60000 {
				budget = 64 << 20
			}
		}
	}
	finishThreads(rt.Run(rt.Options{Threads: bodies, Plan: sc.Plan, Budget: budget}), "E01", o)
	if len(sc.Frames) > 0 {
		o.SimMs = sc.Frames[len(sc.Frames)-1].Dts - sc.Frames[0].Dts
	}
	last := x.nodes[len(x.nodes)-1]
	got := 0
	for s := range sc.Streams {
		got += last.del[s]
	}
	o.Trivial = got == 0
	o.LogN("end", got, x.fin)
}
