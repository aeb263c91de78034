package main

import (
	"bytes"
	"fmt"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "conc" (C02): several threads, each with a script of its own - a complete demuxing session, buffers, parsers,
// or conversions of its own packets of tracks all threads share - preempted at any statement. Every script is first
// run alone; the oracle is that its observable results are the same when the others run beside it.

type CcThread struct {
	Kind string        `json:"k"` // sess, buf, parse, conv, bits
	Sess *SessScenario `json:"sess,omitempty"`
	Ops  []int         `json:"ops,omitempty"`
}

type CcScenario struct {
	Env     uint64      `json:"env"`
	Pool    int         `json:"pool"`
	First   bool        `json:"first,omitempty"` // the threads run before the scripts run alone
	Tracks  []RpTrack   `json:"tracks"`
	Plan    []rt.Switch `json:"plan"`
	Threads []CcThread  `json:"threads"`
}

type concWorld struct{}

func init() { register("C02", concWorld{}, 200000, 2500) }

func (concWorld) New() interface{} { return &CcScenario{} }
func (concWorld) Rule(string) string {
	return "2-4 threads, each a demuxing session with its network, a script of buffer operations, of parsers on intact and damaged bytes, of bit readers, or of conversions of own packets of shared tracks; each script run alone and then all under up to 60 planned preemptions at statement granularity; non-trivial: a preemption was taken"
}
func (concWorld) Real() []string {
	return []string{"avformat.BaseDemuxer with everything it calls", "collections buffers and queues", "avc/hevc/aac parsers", "bufio.GolombBitReader", "packet conversions", "shared avformat.AVStream descriptions"}
}
func (concWorld) Stub() []string {
	return []string{"thread scheduler", "network and subscribers (scripted)", "sync.Pool policy", "map iteration order"}
}

func (concWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &CcScenario{Env: r.U(), Pool: r.N(5)}
	for i := 0; i < 2; i++ {
		t := RpTrack{Codec: []string{"h264", "h265"}[r.N(2)], AVCC: r.P(50), Seed: r.N(1 << 16), NS: 1, NP: 1, LS: 4}
		if t.AVCC {
			t.NS, t.NP = 1+r.Skew(3), 1+r.Skew(3)
		}
		sc.Tracks = append(sc.Tracks, t)
	}
	nt := r.In(2, 4)
	same := ""
	if r.P(50) {
		same = []string{"sess", "conv", "parse", "buf", "bits"}[r.N(5)]
	}
	// different threads often work on the same input: what one leaves behind then reaches another
	vals, share := []int{r.N(1 << 30), r.N(1 << 30), r.N(1 << 30)}, 0
	if r.P(60) {
		share = []int{30, 60, 95}[r.N(3)]
	}
	steps := 0
	for t := 0; t < nt; t++ {
		k := same
		if k == "" {
			k = []string{"sess", "sess", "conv", "conv", "parse", "buf", "bits"}[r.N(7)]
		}
		th := CcThread{Kind: k}
		if k == "sess" {
			s := genSession(r, "C02", false)
			for big == false && len(s.Msgs) > 40 {
				s.Msgs = s.Msgs[:40]
			}
			s.Hooks, s.Twin = nil, nil
			for i := range s.Streams {
				if r.P(share) {
					s.Streams[i].Seed = vals[r.N(3)] & 0xFFFFF
				}
			}
			if s.Pipe == 0 && r.P(70) {
				s.Pipe = 1
			}
			th.Sess = s
			steps += 30000
		} else {
			n := 2 + r.Skew(16)
			if big {
				n *= 3
			}
			for i := 0; i < n; i++ {
				v := r.N(1 << 30)
				if r.P(share) {
					v = vals[r.N(3)]
				}
				th.Ops = append(th.Ops, v)
			}
			steps += 300 * n
		}
		sc.Threads = append(sc.Threads, th)
	}
	sc.First = r.P(50)
	sc.Plan = genPlan(r, 60, []int{8, 100, maxI(200, steps/30)}[r.N(3)])
	if len(sc.Plan) > 0 && !sc.Plan[0].Shared && r.P(60) {
		sc.Plan[0].Delta = uint32(r.Skew(steps))
	}
	return sc
}

type ccRun struct {
	log  []string
	sets [][][]byte
	strs []*avformat.AVStream
	trks []RpTrack
	dead bool
}

func (c *ccRun) add(format string, a ...interface{}) {
	c.log = append(c.log, fmt.Sprintf(format, a...))
}

func h(b []byte) string { return fmt.Sprintf("%d:%x", len(b), sum64(b)) }

func hh(l [][]byte) string {
	s := ""
	for _, b := range l {
		s += h(b) + " "
	}
	return s
}

// lib runs one step of a script; a library panic is part of what is observed.
func (c *ccRun) lib(what string, f func()) bool {
	if c.dead {
		return false
	}
	if pi := call(f); pi != nil {
		c.add("%s: %s %s", what, panicKind(pi), pi.Value)
		c.dead = true
		return false
	}
	return true
}

// ---- a session ----

type ccSess struct {
	*ccRun
	sc   *SessScenario
	d    *avformat.BaseDemuxer
	trks []avformat.Track
}

func (s *ccSess) OnNewTrack(t avformat.Track) {
	s.trks = append(s.trks, t)
	s.add("new track %s", fmt.Sprintf("%+v", *snapTrack(t)))
}
func (s *ccSess) OnTrackComplete() { s.add("complete") }
func (s *ccSess) OnTrackNotFind()  { s.add("not found") }
func (s *ccSess) OnPacket(p *avformat.AVPacket) {
	s.add("packet %+v", snapPkt(p))
	if p.MediaType == utils.AVMediaTypeVideo && p.Index >= 0 && p.Index < len(s.trks) {
		st := s.trks[p.Index].GetStream()
		a := h(avformat.AVCCPacket2AnnexB(st, p))
		b := h(avformat.AnnexBPacket2AVCC(p))
		s.add("converted %s %s", a, b)
	}
	s.add("end of packet %+v", snapPkt(p))
}

func (s *ccSess) run(rx []rxEv) {
	sc := s.sc
	pipe := newPipe(sc.Pipe, sc.Cap)
	s.d = &avformat.BaseDemuxer{Name: sc.Name, DataPipeline: pipe, AutoFree: true}
	s.d.SetHandler(s)
	s.d.SetProbeDuration(sc.Probe)
	if sc.Pre {
		s.d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) { s.add("pre %+v", snapPkt(p)) })
	}
	bufs := map[int]int{}
	alloc := func(i int) int {
		s.lib("FindBufferIndex", func() { bufs[i] = s.d.FindBufferIndex(marker(sc.Streams[i].Seed, i)) })
		return bufs[i]
	}
	for _, e := range rx {
		if s.dead {
			return
		}
		if e.S < 0 || e.S >= len(sc.Streams) {
			continue
		}
		st := sc.Streams[e.S]
		id := codecID(st.C)
		switch e.Op {
		case "w":
			if len(e.Data) == 0 && sc.Msgs[e.M].K == "c" {
				continue
			}
			i := alloc(e.S)
			s.lib("write", func() { _, _ = pipe.Write(append([]byte{}, e.Data...), i, mediaOf(st.C)) })
		case "drop":
			i := alloc(e.S)
			s.lib("drop", func() {
				if pipe.PendingBlockSize(i) > 0 {
					_, _ = pipe.Fetch(i)
					pipe.DiscardBackPacket(i)
				}
			})
		case "end":
			i := alloc(e.S)
			m := &sc.Msgs[e.M]
			tb := int(sc.tb() * 1000)
			s.lib("submit", func() {
				var data []byte
				if m.K != "a" {
					if pipe.PendingBlockSize(i) == 0 {
						return
					}
					data, _ = pipe.Fetch(i)
				}
				switch {
				case m.K == "f" && isVideo(st.C):
					pt := avformat.PacketTypeAnnexB
					if sc.avcc() {
						pt = avformat.PacketTypeAVCC
					}
					s.d.OnVideoPacket(i, id, data, m.Key, m.Dts, m.Pts, pt)
				case m.K == "f":
					s.d.OnAudioPacket(i, id, data, m.Dts)
				case isVideo(st.C):
					if m.K != "a" {
						s.d.OnNewVideoTrack(i, id, tb, data)
					}
				default:
					cfg := avformat.AudioConfig{SampleRate: st.Rate, SampleSize: 16, Channels: st.Ch}
					if st.C == "aac" {
						cfg = avformat.AudioConfig{}
					}
					s.d.OnNewAudioTrack(i, id, tb, data, cfg)
				}
			})
		case "close":
			s.lib("close", func() { s.d.Close() })
		case "complete":
			s.lib("request", func() { s.d.ProbeComplete() })
		case "try":
			s.lib("request", func() { s.d.TryCompleteProbe() })
		}
	}
}

// ---- conversions of own packets of shared tracks ----

func (c *ccRun) conv(ops []int) {
	var pkts []*avformat.AVPacket
	var own [][]byte
	for i, op := range ops {
		if c.dead {
			break
		}
		r := NewRng("cc", op)
		ti := r.N(len(c.strs))
		st, t := c.strs[ti], c.trks[ti]
		switch x := r.N(10); {
		case x < 5 || len(pkts) == 0:
			key := r.P(50)
			var nals [][]byte
			if key && r.P(40) {
				nals = append(nals, c.sets[ti]...)
			}
			for k := 1 + r.Skew(4); k > 0; k-- {
				nals = append(nals, t.nal(RpNal{T: rpType(r, t, key, 0), N: r.N(30), S: r.N(1000)}))
			}
			pt, data := avformat.PacketTypeAnnexB, startCodes(r, nals)
			if t.AVCC {
				pt, data = avformat.PacketTypeAVCC, lengthPrefixed(nals, 4)
			}
			var p *avformat.AVPacket
			if !c.lib("new packet", func() {
				p = avformat.NewVideoPacket(data, int64(i), int64(i), key, pt, codecID(t.Codec), ti, 1000)
			}) {
				break
			}
			pkts, own = append(pkts, p), append(own, cloneB(data))
			fallthrough
		case x < 8:
			k := r.N(len(pkts))
			if x < 5 {
				k = len(pkts) - 1
			}
			p := pkts[k]
			if p.Index < 0 || p.Index >= len(c.strs) {
				c.add("packet %d names track %d", k, p.Index)
				break
			}
			var a, b []byte
			c.lib("conversion", func() {
				a = avformat.AVCCPacket2AnnexB(c.strs[p.Index], p)
				b = avformat.AnnexBPacket2AVCC(p)
			})
			c.add("packet %d %+v: %s %s payload intact %v", k, snapPkt(p), h(a), h(b), bytes.Equal(p.Data, own[k]))
		case x < 9:
			c.lib("description", func() {
				p := st.CodecParameters
				c.add("track %d: %dx%d %s %s %s %s", ti, p.Width(), p.Height(), hh(p.SPS()), hh(p.PPS()), h(p.AnnexBExtraData()), h(p.MP4ExtraData()))
				switch q := p.(type) {
				case *avformat.AVCCodecData:
					rec, err := q.Record.Marshal(q.SPS(), q.PPS())
					c.add("record %s %v", h(rec), err)
				case *avformat.HEVCCodecData:
					rec, err := q.Record.Marshal(q.VPS(), q.SPS(), q.PPS())
					c.add("record %s %v", h(rec), err)
				}
			})
		default:
			k := r.N(len(pkts))
			p := pkts[k]
			c.lib("free", func() { avformat.FreePacket(p) })
			pkts, own = append(pkts[:k:k], pkts[k+1:]...), append(own[:k:k], own[k+1:]...)
		}
	}
}

// ---- parsers ----

func (c *ccRun) parse(ops []int) {
	for _, op := range ops {
		if c.dead {
			return
		}
		r := NewRng("ccp", op)
		codec := []string{"h264", "h265"}[r.N(2)]
		seed := r.N(1 << 16)
		if r.P(30) {
			seed = sibling(r.N(8), r.N(100))
		}
		sets := makeSets(codec, seed, 1+r.Skew(3), 1+r.Skew(3))
		dmg := func(b []byte) []byte {
			if r.P(30) {
				for k := r.In(1, 3); k > 0; k-- {
					b = damage(b, SDmg{K: []string{"flip", "flip", "trunc", "zero", "del"}[r.N(5)], P: r.N(1000), V: r.N(256)})
				}
			}
			return b
		}
		what := r.N(8)
		key := dmg(startCodes(r, append(append(append(append([][]byte{}, sets.vps...), sets.sps...), sets.pps...), RpTrack{Codec: codec}.nal(RpNal{T: map[string]int{"h264": 5, "h265": 19}[codec], N: r.N(40), S: r.N(1000)}))))
		sps := dmg(cloneB(sets.sps[0]))
		var rec []byte
		if codec == "h264" {
			rec = dmg(avcC(sets, []int{1, 2, 4}[r.N(3)], r))
		} else {
			rec = dmg(hvcC(sets, []int{1, 2, 4}[r.N(3)], r))
		}
		aac := dmg(adtsHeader(r.N(13), r.In(1, 7), r.N(500), r.P(50)))
		cfg := dmg(asc([]int{r.N(13), r.N(13), r.In(100, 1<<24-1)}[r.N(3)], r.In(1, 10), r.P(50)))
		c.lib("parse "+codec, func() {
			switch what {
			case 0:
				if codec == "h264" {
					s, err := avc.ParseSPS(sps)
					c.add("sps %+v %v", s, err)
				} else {
					s, err := hevc.ParseSPS(sps)
					c.add("sps %+v %v", s, err)
				}
			case 1:
				if codec == "h264" {
					a, err := avc.ExtraDataToAnnexB(rec)
					b, err2 := avc.M4VCExtraDataToAnnexB(rec)
					c.add("record %s %v %s %v", h(a), err, h(b), err2)
				} else {
					a, err := hevc.ExtraDataToAnnexB(rec)
					c.add("record %s %v", h(a), err)
				}
			case 2, 3:
				var p avformat.CodecData
				var err error
				if codec == "h264" {
					p, err = avformat.ParseAVCDecoderConfigurationRecord(rec)
				} else {
					p, err = avformat.ParseHEVCDecoderConfigurationRecord(rec)
				}
				if err == nil && what == 3 {
					c.add("decoder %dx%d %s %s %s", p.Width(), p.Height(), hh(p.SPS()), h(p.AnnexBExtraData()), h(p.MP4ExtraData()))
				}
				c.add("decoder %v", err)
			case 4:
				var st *avformat.AVStream
				var err error
				if codec == "h264" {
					c.add("key %v", avc.IsKeyFrame(key))
					st, err = avformat.CreateAVCStreamFromKeyFrame(key, 3)
				} else {
					c.add("key %v", hevc.IsKeyFrame(key))
					st, err = avformat.CreateHevcStreamFromKeyFrame(key, 3)
				}
				if err == nil && st != nil && st.CodecParameters != nil {
					p := st.CodecParameters
					c.add("stream %dx%d %s %s %s", p.Width(), p.Height(), hh(p.SPS()), h(p.AnnexBExtraData()), h(p.MP4ExtraData()))
				}
				c.add("stream %v", err)
			case 5: // everything else that reads parameter sets
				var w, ht int
				var lists [][][]byte
				var err error
				if codec == "h264" {
					var d *avc.AVCDecoderConfigurationRecord
					var s *avc.SPS
					if d, s, err = avc.NewCodecDataFromAVCDecoderConfigurationRecord(rec); err == nil {
						w, ht, lists = int(s.Width), int(s.Height), [][][]byte{d.SPSList, d.PPSList}
					}
				} else {
					var d *hevc.HEVCDecoderConfigurationRecord
					var s *hevc.HEVCSPSInfo
					if d, s, err = hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(rec); err == nil {
						w, ht, lists = int(s.Width), int(s.Height), [][][]byte{d.VPSList, d.SPSList, d.PPSList}
					}
				}
				c.add("record %v %dx%d", err, w, ht)
				for _, l := range lists {
					c.add("sets %s", hh(l))
				}
				x, err := avformat.ExtractVideoExtraDataFromKeyFrame(codecID(codec), key)
				c.add("key frame %s %v", h(x), err)
			case 6: // names, tables and time stamps
				for k := 0; k < 3; k++ {
					id := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdOPUS, utils.AVCodecIdVP8, utils.AVCodecIdADPCMG726}[r.N(7)]
					m := []utils.AVMediaType{utils.AVMediaTypeAudio, utils.AVMediaTypeVideo, utils.AVMediaTypeUnknown}[r.N(3)]
					rate, ok := utils.GetSampleRateFromFrequency(r.N(16))
					hdr := make([]byte, 7)
					utils.SetADtsHeader(hdr, 0, r.N(4), r.N(13), r.In(1, 7), r.N(8000))
					c.add("%s %s %v %v %d %s %d", id, m, rate, ok, utils.GetSampleRateIndex([]int{48000, 44100, 8000}[r.N(3)]), h(hdr), avformat.ConvertTs(int64(r.N(1<<40)), []int{90000, 1000}[r.N(2)], 1000))
				}
			default:
				a, err := utils.ReadADtsFixedHeader(aac)
				m, err2 := utils.ParseMpeg4AudioConfig(cfg)
				c.add("aac %v %v %+v %v", a, err, m, err2)
				x, n1, n2, err3 := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, append(cloneB(aac), 1, 2, 3))
				c.add("audio %s %v %v %v", h(x), n1, n2, err3)
			}
		})
	}
}

// ---- buffers ----

func (c *ccRun) buf(ops []int) {
	var rb *collections.RBBlockBuffer
	var mw collections.BlockBuffer
	var q *collections.Queue[int]
	var ll collections.LinkedList[int]
	var ring collections.RingBuffer[int]
	c.lib("constructors", func() {
		rb, mw = collections.NewRBBlockBuffer(32), collections.NewDirectBlockBuffer(48)
		q, ring = collections.NewQueue[int](3), collections.NewRingBuffer[int](4)
	})
	open, live, nq, nl, nr, seq := 0, 0, 0, 0, 0, 0
	var sealed []collections.BlockBuffer
	mopen := 0
	for _, op := range ops {
		if c.dead {
			return
		}
		r := NewRng("ccb", op)
		seq++
		data := pattern(uint64(op)+1, 1+r.N(20))
		c.lib("buffer", func() {
			switch x := r.N(12); {
			case x < 3:
				rb.Write(data)
				open += len(data)
				c.add("pending %d of %d", rb.PendingBlockSize(), open)
			case x == 3 && open > 0:
				c.add("fetch %s", h(rb.Fetch()))
				open, live = 0, live+1
			case x == 4 && live > 0:
				rb.Pop()
				live--
			case x == 5:
				mw.Write(data)
				mopen += len(data)
				c.add("merged %s", h(mw.(*collections.DirectBlockBuffer).Data()))
			case x == 6 && mopen > 0:
				c.add("fetched %s", h(mw.Fetch()))
				mopen = 0
			case x == 7 && mopen == 0 && mw.Size() > 0 && mw.AvailableBytes() > 0:
				n := mw.SplitOff()
				sealed = append(sealed, mw)
				mw = n
				c.add("split: %s %d", h(sealed[len(sealed)-1].(*collections.DirectBlockBuffer).Data()), mw.Size())
			case x == 8:
				q.Push(seq)
				nq++
				if nq > 2 {
					c.add("queue %v %v %d", q.Pop(), q.PopBack(), q.Size())
					nq -= 2
				}
			case x == 9:
				ll.Add(seq)
				nl++
				if nl > 2 {
					c.add("list %v %d", ll.Remove(nl/2), ll.Size())
					nl--
				}
			case x == 10:
				ring.Push(seq)
				nr = minI(nr+1, 4)
				if nr > 2 {
					c.add("ring %v %d", ring.Pop(), ring.Size())
					nr--
				}
			default:
				s := ""
				for _, b := range sealed {
					s += h(b.(*collections.DirectBlockBuffer).Data()) + " "
				}
				c.add("sealed %s", s)
			}
		})
	}
}

// ---- bit readers and identifiers ----

func (c *ccRun) bits(ops []int) {
	for _, op := range ops {
		if c.dead {
			return
		}
		r := NewRng("ccg", op)
		b := r.Bytes(r.In(1, 30))
		c.lib("bit reader", func() {
			g := &bufio.GolombBitReader{R: bytes.NewReader(b)}
			s := ""
			for i := 0; i < 12; i++ {
				var v uint
				var err error
				switch r.N(4) {
				case 0:
					v, err = g.ReadBit()
				case 1:
					v, err = g.ReadBits(r.N(20))
				case 2:
					v, err = g.ReadExponentialGolombCode()
				default:
					v, err = g.ReadSE()
				}
				s += fmt.Sprint(v, err, " ")
				if err != nil {
					break
				}
			}
			c.add("bits %s", s)
			w := bufio.NewBytesReader(b)
			v1, e1 := w.ReadUint8()
			v2, e2 := w.ReadUint24()
			c.add("bytes %d %v %d %v %d", v1, e1, v2, e2, w.ReadableBytes())
			out := make([]byte, 12)
			bufio.WriteBits(out, r.N(30), r.In(1, 40), r.U())
			c.add("wrote %s", h(out))
		})
	}
}

func (concWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*CcScenario)
	nt := len(sc.Threads)
	if nt == 0 || nt > 6 || len(sc.Tracks) == 0 {
		o.Trivial = true
		return
	}
	var sets [][][]byte
	var pss []paramSets
	for i := range sc.Tracks {
		t := &sc.Tracks[i]
		t.LS, t.NoCfg = 4, false
		if t.Codec != "h265" {
			t.Codec = "h264"
		}
		ps := makeSets(t.Codec, t.Seed, clampI(t.NS, 1, 31), clampI(t.NP, 1, 255))
		if !t.AVCC {
			ps = makeSets(t.Codec, t.Seed, 1, 1)
			ps.vps = ps.vps[:minI(len(ps.vps), 1)]
		}
		pss = append(pss, ps)
		sets = append(sets, append(append(append([][]byte{}, ps.vps...), ps.sps...), ps.pps...))
	}
	// scripts: the network of every session is resolved beforehand
	type script func(c *ccRun)
	var scripts []script
	for i := range sc.Threads {
		th := sc.Threads[i]
		switch th.Kind {
		case "sess":
			if th.Sess == nil || len(th.Sess.Streams) == 0 || len(th.Sess.Msgs) > 2000 {
				o.Trivial = true
				return
			}
			s := *th.Sess
			if s.Name != "flv" && s.Name != "ps" && s.Name != "ts" {
				s.Name = "jt1078"
			}
			rx, _ := network(&s, o)
			scripts = append(scripts, func(c *ccRun) { (&ccSess{ccRun: c, sc: &s}).run(rx) })
		case "conv":
			scripts = append(scripts, func(c *ccRun) { c.conv(th.Ops) })
		case "parse":
			scripts = append(scripts, func(c *ccRun) { c.parse(th.Ops) })
		case "buf":
			scripts = append(scripts, func(c *ccRun) { c.buf(th.Ops) })
		default:
			scripts = append(scripts, func(c *ccRun) { c.bits(th.Ops) })
		}
	}
	build := func() []*avformat.AVStream {
		rt.SeedEnv(sc.Env)
		rt.PoolMode = clampI(sc.Pool, 0, 4)
		var strs []*avformat.AVStream
		single(func() {
			for i, t := range sc.Tracks {
				var s *avformat.AVStream
				var err error
				if pi := call(func() { s, err = rpStream(t, i, pss[i]) }); pi != nil || err != nil || s == nil || s.CodecParameters == nil {
					o.Fail("C02", "setup", "building the shared track of valid parameter sets failed: %v %v", pi, err)
					return
				}
				strs = append(strs, s)
			}
		})
		return strs
	}
	solo := make([]*ccRun, nt)
	alone := func() bool {
		for i, f := range scripts {
			strs := build()
			if len(o.V) > 0 {
				return false
			}
			c := &ccRun{strs: strs, sets: sets, trks: sc.Tracks}
			solo[i] = c
			single(func() { f(c) })
			for _, l := range c.log {
				o.LogS(l)
			}
		}
		return true
	}
	both := make([]*ccRun, nt)
	together := func() bool {
		strs := build()
		if len(o.V) > 0 {
			return false
		}
		var bodies []func()
		for i, f := range scripts {
			c := &ccRun{strs: strs, sets: sets, trks: sc.Tracks}
			both[i] = c
			f := f
			bodies = append(bodies, func() { f(c) })
		}
		finishThreads(rt.Run(rt.Options{Threads: bodies, Plan: sc.Plan, Budget: 4 << 20}), "C02", o)
		o.Trivial = rt.Switched == 0
		return len(o.V) == 0
	}
	// what the package keeps from call to call is filled by whichever part comes first
	parts := []func() bool{alone, together}
	if sc.First {
		parts = []func() bool{together, alone}
	}
	for _, f := range parts {
		if !f() {
			return
		}
	}
	for i := range both {
		a, b := solo[i].log, both[i].log
		for k := 0; k < len(a) || k < len(b); k++ {
			x, y := "(nothing)", "(nothing)"
			if k < len(a) {
				x = a[k]
			}
			if k < len(b) {
				y = b[k]
			}
			if x != y {
				o.Fail("C02", "differs", "thread %d (%s), step %d of its log: alone %.160s; beside the others %.160s", i, sc.Threads[i].Kind, k, x, y)
				return
			}
		}
	}
	o.Count("scripts compared with their solo run")
}
