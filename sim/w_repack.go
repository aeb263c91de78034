package main

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "repack" (P01): packets of several tracks are created (from recycled objects), converted by several
// subscribers in any order and any number of times, into memory the subscribers supply, and freed again. The oracle
// is an independent NAL unit reader; what a conversion must yield is computed from the generated NAL units.

type RpTrack struct {
	Codec string `json:"c"`
	AVCC  bool   `json:"a,omitempty"` // length-prefixed packaging
	Seed  int    `json:"s"`
	NS    int    `json:"ns"`
	NP    int    `json:"np"`
	LS    int    `json:"ls"`           // unit length size
	NoCfg bool   `json:"nc,omitempty"` // the stream carries no codec parameters
	KF    bool   `json:"kf,omitempty"` // length-prefixed packets, description taken from a key frame
}

type RpNal struct {
	T int  `json:"t"`
	N int  `json:"n"`
	S int  `json:"s"`
	E bool `json:"e,omitempty"` // an empty unit precedes it
	Z int  `json:"z,omitempty"` // extra zero bytes after it
}

type RpOp struct {
	Op   string  `json:"o"` // n new packet, a to start codes, v to length prefixes, x free
	P    int     `json:"p"` // packet slot
	T    int     `json:"t,omitempty"`
	Key  bool    `json:"k,omitempty"`
	Sets int     `json:"sets,omitempty"` // 1: the frame starts with the track's parameter sets, 2: has them after the first unit
	Nals []RpNal `json:"nals,omitempty"`
	S3   bool    `json:"s3,omitempty"`  // every start code takes three bytes
	Mem  int     `json:"mem,omitempty"` // 0 library memory, 1 exact dirty slices, 2 dirty arena with spare capacity
}

type RpScenario struct {
	Pool   int       `json:"pool"`
	Env    uint64    `json:"env"`
	Tracks []RpTrack `json:"tracks"`
	Ops    []RpOp    `json:"ops"`
}

type repackWorld struct{}

func init() { register("P01", repackWorld{}, 500000, 5000) }

func (repackWorld) New() interface{} { return &RpScenario{} }
func (repackWorld) Rule(string) string {
	return "up to 4 tracks (H.264, H.265, VP8, both packagings, length sizes, several parameter sets or none), packets of 0-40 NAL units (sometimes 257-600, sometimes up to 60 KB) with empty units, 3/4-byte start codes and trailing zeros, created from recycled objects, converted repeatedly by interleaved subscribers into library, exact dirty or shared dirty memory, freed at random points; non-trivial: at least one conversion changed the packaging"
}
func (repackWorld) Real() []string {
	return []string{"avformat.AVCCPacket2AnnexB", "avformat.AnnexBPacket2AVCC", "avformat packet pool", "avformat codec data", "avc/hevc conversion"}
}
func (repackWorld) Stub() []string {
	return []string{"subscribers (scripted)", "buffer allocator", "sync.Pool policy"}
}

func (repackWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &RpScenario{Pool: r.N(5), Env: r.U()}
	for i := r.In(1, 4); i > 0; i-- {
		t := RpTrack{Codec: []string{"h264", "h265", "h264", "h265", "h265", "vp8"}[r.N(6)], AVCC: r.P(50), Seed: r.N(1 << 20), NS: 1 + r.Skew(3), NP: 1 + r.Skew(4), LS: 4, NoCfg: r.P(8)}
		if !t.AVCC {
			t.NS, t.NP = 1, 1
		} else if r.P(2) {
			t.NP = 28 + r.N(14)
		}
		if t.Codec != "vp8" && t.AVCC && !t.NoCfg {
			t.LS = []int{4, 4, 2, 1}[r.N(4)]
			if r.P(10) { // described by a key frame
				t.KF, t.LS, t.NS, t.NP = true, 4, 1, 1
			}
		}
		sc.Tracks = append(sc.Tracks, t)
	}
	slots := r.In(1, 6)
	n := 6 + r.Skew(40)
	if big {
		n *= 3
	}
	memKind := r.N(4)
	live := map[int]bool{}
	for i := 0; i < n; i++ {
		p := r.N(slots)
		if !live[p] || r.P(12) {
			ti := r.N(len(sc.Tracks))
			t := sc.Tracks[ti]
			op := RpOp{Op: "n", P: p, T: ti, Key: r.P(40), Mem: memKind}
			if memKind == 3 {
				op.Mem = r.N(3)
			}
			if op.Key && r.P(50) {
				op.Sets = r.In(1, 2)
			}
			k := r.Skew(10)
			if r.P(90) && k == 0 {
				k = 1
			}
			max := 40
			switch {
			case r.N(200) == 0: // nothing but the smallest units: conversion grows the packet most
				k = r.In(300, 4000)
				max = 1
				op.S3 = r.P(70)
			case r.P(3):
				k = r.In(250, 600)
				max = 3
			case r.P(3):
				max = 60000
				k = minI(k, 3)
			case r.P(20):
				max = 1500
			}
			for j := 0; j < k; j++ {
				nal := RpNal{T: rpType(r, t, op.Key, j), N: r.Skew(max), S: r.N(1 << 16)}
				if max == 3 {
					nal.N = r.N(3)
				}
				if max == 1 {
					nal.N = 0
				}
				if k <= 3 && r.N(1500) == 0 && t.LS == 4 { // more than 16 bits can count
					nal.N = r.In(65000, 130000)
				}
				if t.LS == 1 {
					nal.N = minI(nal.N, 150)
				}
				if !t.AVCC {
					nal.E = r.P(6)
					if r.P(6) {
						nal.Z = r.In(1, 4)
					}
				}
				op.Nals = append(op.Nals, nal)
			}
			sc.Ops = append(sc.Ops, op)
			live[p] = true
			continue
		}
		switch x := r.N(100); {
		case x < 15:
			sc.Ops = append(sc.Ops, RpOp{Op: "x", P: p})
			live[p] = false
		case x < 57:
			sc.Ops = append(sc.Ops, RpOp{Op: "a", P: p})
		default:
			sc.Ops = append(sc.Ops, RpOp{Op: "v", P: p})
		}
	}
	return sc
}

func rpType(r *Rng, t RpTrack, key bool, j int) int {
	if t.Codec == "h265" {
		if r.P(15) {
			return []int{35, 39, 40, 38, 36, 48, 63}[r.N(7)]
		}
		if key {
			return []int{19, 20, 21, 16}[r.N(4)]
		}
		return []int{0, 1, 0, 8, 9, 2}[r.N(6)]
	}
	if r.P(20) {
		return []int{6, 9, 12, 14, 10, 11, 24}[r.N(7)]
	}
	if key {
		return 5
	}
	return []int{1, 1, 2, 20, 5}[r.N(5)]
}

func (t RpTrack) nal(n RpNal) []byte {
	var hdr []byte
	if t.Codec == "h265" {
		hdr = []byte{byte(n.T&63) << 1, 1}
	} else {
		hdr = []byte{byte(n.T & 31)}
		if n.S%3 > 0 {
			hdr[0] |= byte(n.S%3+1) << 5
		}
	}
	min := 0
	if t.Codec == "h264" && hdr[0] == 0 {
		min = 1
	}
	return nalBody(NewRng("nal", n.S, n.T), hdr, maxI(min, clampI(n.N, 0, 1<<17)))
}

type rpPkt struct {
	pkt      *avformat.AVPacket
	track    int
	key      bool
	sets     int
	payload  []byte   // what the packet carries
	copy     []byte   // a private copy of it
	nals     [][]byte // its non-empty NAL units
	loose    bool     // the payload has zeros between units beyond the start codes
	res      [2][]byte
	resCopy  [2][]byte
	guards   [][]byte
	mem      [][]byte // blocks the packet's allocator returned
	recycled bool
}

func (repackWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*RpScenario)
	rt.SeedEnv(sc.Env)
	rt.PoolMode = clampI(sc.Pool, 0, 4)
	single(func() { repackRun(sc, o) })
}

func rpStream(t RpTrack, i int, sets paramSets) (*avformat.AVStream, error) {
	id := codecID(t.Codec)
	if t.NoCfg || t.Codec == "vp8" {
		return avformat.NewAVStream(utils.AVMediaTypeVideo, i, id, nil, nil), nil
	}
	if t.AVCC && !t.KF {
		var cd avformat.CodecData
		var err error
		var rec []byte
		if t.Codec == "h264" {
			rec = avcC(sets, t.LS, NewRng("avcC", t.Seed))
			cd, err = avformat.ParseAVCDecoderConfigurationRecord(rec)
		} else {
			rec = hvcC(sets, t.LS, NewRng("hvcC", t.Seed))
			cd, err = avformat.ParseHEVCDecoderConfigurationRecord(rec)
		}
		if err != nil {
			return nil, err
		}
		return avformat.NewAVStream(utils.AVMediaTypeVideo, i, id, rec, cd), nil
	}
	key := startCodes(NewRng("key", t.Seed), append(append(append([][]byte{}, sets.vps...), sets.sps...), sets.pps...))
	if t.Codec == "h264" {
		return avformat.CreateAVCStreamFromKeyFrame(key, i)
	}
	return avformat.CreateHevcStreamFromKeyFrame(key, i)
}

func repackRun(sc *RpScenario, o *Outcome) {
	var streams []*avformat.AVStream
	var sets [][][]byte
	for i, t := range sc.Tracks {
		if t.LS != 1 && t.LS != 2 {
			t.LS = 4
		}
		if t.Codec == "vp8" || t.NoCfg || t.KF {
			t.LS = 4
		}
		sc.Tracks[i].LS = t.LS
		ps := makeSets(map[bool]string{true: "h265", false: "h264"}[t.Codec == "h265"], t.Seed, clampI(t.NS, 1, 31), clampI(t.NP, 1, 255))
		if !t.AVCC || t.KF {
			ps = makeSets(map[bool]string{true: "h265", false: "h264"}[t.Codec == "h265"], t.Seed, 1, 1)
			ps.vps = ps.vps[:minI(len(ps.vps), 1)]
		}
		var s *avformat.AVStream
		var err error
		if pi := call(func() { s, err = rpStream(t, i, ps) }); pi != nil || err != nil || s == nil {
			o.Fail("P01", "setup", "building the stream description of valid parameter sets failed: %v %v", pi, err)
			return
		}
		streams = append(streams, s)
		var l [][]byte
		if s.CodecParameters != nil {
			l = append(append(append(l, ps.vps...), ps.sps...), ps.pps...)
		}
		sets = append(sets, l)
	}
	slots := map[int]*rpPkt{}
	seen := map[*avformat.AVPacket]bool{}
	var order []int
	o.Trivial = true
	verify := func(step int, what string) bool {
		for _, k := range order {
			p := slots[k]
			if p == nil {
				continue
			}
			if !bytes.Equal(p.payload, p.copy) || len(p.pkt.Data) != len(p.copy) || (len(p.copy) > 0 && &p.pkt.Data[0] != &p.payload[0]) {
				o.Fail("P01", "payload", "step %d (%s): the payload of packet %d was modified", step, what, k)
				return true
			}
			for i := range p.res {
				if p.res[i] != nil && !bytes.Equal(p.res[i], p.resCopy[i]) {
					o.Fail("P01", "result-changed", "step %d (%s): the result of an earlier conversion of packet %d changed", step, what, k)
					return true
				}
			}
			for _, g := range p.guards {
				for _, c := range g {
					if c != 0x5C {
						o.Fail("P01", "overrun", "step %d (%s): a conversion of packet %d wrote outside the memory it was given", step, what, k)
						return true
					}
				}
			}
		}
		return false
	}
	for step, op := range sc.Ops {
		k := clampI(op.P, 0, 63)
		p := slots[k]
		switch op.Op {
		case "n":
			if op.T < 0 || op.T >= len(streams) {
				continue
			}
			if p != nil {
				if call(func() { avformat.FreePacket(p.pkt) }) != nil {
					o.Fail("P01", "panic", "FreePacket panicked")
					return
				}
				slots[k] = nil
			}
			t := sc.Tracks[op.T]
			id := codecID(t.Codec)
			np := &rpPkt{track: op.T, key: op.Key, sets: op.Sets}
			if !op.Key || len(sets[op.T]) == 0 {
				np.sets = 0
			}
			var spec []RpNal
			for j, n := range op.Nals {
				if np.sets == 1 && j == 0 || np.sets == 2 && j == minI(1, len(op.Nals)-1) {
					for _, s := range sets[op.T] {
						np.nals = append(np.nals, s)
						spec = append(spec, RpNal{})
					}
				}
				np.nals = append(np.nals, t.nal(n))
				spec = append(spec, n)
			}
			if len(op.Nals) == 0 {
				np.sets = 0
			}
			for j := range np.nals { // a unit must fit its length field
				if lim := 1<<(8*uint(t.LS)) - 1; t.AVCC && t.LS < 4 && len(np.nals[j]) > lim {
					np.nals[j] = np.nals[j][:lim]
					if np.nals[j][lim-1] == 0 {
						np.nals[j] = append(append([]byte{}, np.nals[j][:lim-1]...), 1)
					}
				}
			}
			pt := avformat.PacketTypeAnnexB
			if t.AVCC {
				pt = avformat.PacketTypeAVCC
				np.payload = lengthPrefixed(np.nals, t.LS)
			} else {
				r := NewRng("sc", step)
				for j, n := range np.nals {
					if spec[j].E {
						np.payload = append(np.payload, 0, 0, 1)
						o.Count("empty NAL unit")
					}
					if !op.S3 && (j == 0 || r.P(50)) {
						np.payload = append(np.payload, 0)
					}
					np.payload = append(append(np.payload, 0, 0, 1), n...)
					np.payload = append(np.payload, make([]byte, clampI(spec[j].Z, 0, 8))...)
					np.loose = np.loose || spec[j].Z > 0
				}
			}
			np.copy = cloneB(np.payload)
			if pi := call(func() {
				np.pkt = avformat.NewVideoPacket(np.payload, int64(step)*40, int64(step)*40+20, op.Key, pt, id, op.T, 1000)
			}); pi != nil {
				o.Fail("P01", "panic", "NewVideoPacket: %s", pi.Value)
				return
			}
			np.recycled = seen[np.pkt]
			seen[np.pkt] = true
			if np.recycled {
				o.Count("packet object recycled")
			}
			if op.Mem > 0 {
				mem := op.Mem
				np.pkt.OnBufferAlloc = func(size int) []byte {
					o.Count("conversion into caller memory")
					if size < 0 || size > 1<<26 {
						panic(misuse("the caller's buffer allocator is asked for an impossible size"))
					}
					b := bytes.Repeat([]byte{0x5C}, size+32)
					for i := 0; i < size; i++ {
						b[i] = byte(i*31) ^ 0xA7
					}
					np.guards = append(np.guards, b[size:])
					np.mem = append(np.mem, b[:size])
					if mem == 1 {
						return b[:size:size]
					}
					return b[:size]
				}
			}
			slots[k] = np
			order = append(order, k)
			for i, q := range order[:len(order)-1] {
				if q == k {
					order = append(order[:i:i], order[i+1:]...)
					break
				}
			}
			if len(np.nals) > 256 {
				o.Count("more than 256 NAL units")
			}
		case "x":
			if p == nil {
				continue
			}
			if pi := call(func() { avformat.FreePacket(p.pkt) }); pi != nil {
				o.Fail("P01", panicKind(pi), "FreePacket: %s", pi.Value)
				return
			}
			slots[k] = nil
		case "a", "v":
			if p == nil {
				continue
			}
			t := sc.Tracks[p.track]
			i := 0
			if op.Op == "v" {
				i = 1
			}
			var got []byte
			if pi := call(func() {
				if i == 0 {
					got = avformat.AVCCPacket2AnnexB(streams[p.track], p.pkt)
				} else {
					got = avformat.AnnexBPacket2AVCC(p.pkt)
				}
			}); pi != nil {
				o.Fail("P01", panicKind(pi), "step %d: converting a packet of %d NAL units of a %s track: %s in %s", step, len(p.nals), t.Codec, pi.Value, pi.Where)
				return
			}
			if p.res[i] != nil {
				if !bytes.Equal(got, p.resCopy[i]) {
					o.Fail("P01", "repeat", "step %d: repeating the conversion of packet %d gave %s, the first time %s", step, k, clip(got), clip(p.resCopy[i]))
					return
				}
				o.Count("repeated conversion")
			} else {
				if msg := p.judge(t, sets[p.track], i, got, o); msg != "" {
					kind := []string{"to-startcode", "to-length"}[i]
					if p.recycled {
						kind += "-recycled"
					}
					o.Fail("P01", kind, "step %d: packet %d (%s, length-prefixed=%v, key=%v, %d NAL units): %s", step, k, t.Codec, t.AVCC, p.key, len(p.nals), msg)
					return
				}
				if len(got) > 0 && p.pkt.OnBufferAlloc != nil && !within(got, [][]byte{p.payload}) && !within(got, p.mem) {
					o.Fail("P01", "foreign-memory", "step %d: packet %d (%s, length-prefixed=%v, key=%v) has an allocator, yet the converted bytes do not lie in memory that allocator returned", step, k, t.Codec, t.AVCC, p.key)
					return
				}
				if got == nil {
					got = []byte{}
				}
				p.res[i], p.resCopy[i] = got, cloneB(got)
			}
		default:
			continue
		}
		if verify(step, op.Op) {
			return
		}
		o.LogN(op.Op, k, op.T, len(op.Nals))
	}
}

// judge compares the first result of a conversion with what the packet's NAL units demand.
func (p *rpPkt) judge(t RpTrack, sets [][]byte, dir int, got []byte, o *Outcome) string {
	nalCodec := t.Codec != "vp8"
	if !nalCodec || (dir == 1 && t.AVCC) || (dir == 0 && !t.AVCC && !(p.key && len(sets) > 0)) {
		if !bytes.Equal(got, p.copy) {
			return fmt.Sprintf("bytes changed although the packet needs no conversion: %s instead of %s", clip(got), clip(p.copy))
		}
		return ""
	}
	o.Trivial = false
	want := p.nals
	var have [][]byte
	if dir == 1 {
		l, ok := splitLength(got, 4)
		if !ok {
			return fmt.Sprintf("result is not a sequence of length-prefixed NAL units: %s", clip(got))
		}
		for _, n := range l {
			if p.loose { // where zeros behind a unit belong is open; without them the units are exact
				n = bytes.TrimRight(n, "\x00")
			}
			if len(n) > 0 {
				have = append(have, n)
			}
		}
	} else {
		have = splitStart(got)
		if len(got) > 0 && len(have) == 0 {
			return fmt.Sprintf("result holds no NAL unit: %s", clip(got))
		}
		if t.AVCC {
			want = nil
			if p.key {
				want = append(want, sets...)
			}
			for _, n := range p.nals {
				if t.Codec == "h264" && n[0]&31 == 6 {
					continue
				}
				want = append(want, n)
			}
		} else {
			with := append(append([][]byte{}, sets...), p.nals...)
			if p.sets == 0 || (p.sets == 2 && eqSets(have, with)) {
				want = with
			}
		}
	}
	if !eqSets(have, want) {
		d := 0
		for d < len(have) && d < len(want) && bytes.Equal(have[d], want[d]) {
			d++
		}
		var a, b []byte
		if d < len(have) {
			a = have[d]
		}
		if d < len(want) {
			b = want[d]
		}
		return fmt.Sprintf("%d NAL units instead of %d; unit %d is %s instead of %s", len(have), len(want), d, clip(a), clip(b))
	}
	return ""
}

// within reports whether b's first byte lies in one of the blocks.
func within(b []byte, blocks [][]byte) bool {
	for _, m := range blocks {
		for i := range m {
			if &m[i] == &b[0] {
				return true
			}
		}
	}
	return false
}
