package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"sort"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

type sessWorld struct{}

func init() {
	register("S01 S02 S03 S04 S05 S06 S08", sessWorld{}, 400000, 4000)
	register("S07", sessWorld{}, 300000, 3000)
}

func (sessWorld) New() interface{} { return &SessScenario{} }
func (sessWorld) Gen(r *Rng, prop string, big bool) interface{} {
	return genSession(r, prop, big)
}
func (sessWorld) Rule(string) string {
	return "random containers, stream mixes, configuration and frame sequences cut into fragments, delivered by a network that loses, duplicates, delays, reorders and partitions; probe durations, explicit, conditional and re-entrant requests, close at any point; subscriber release lag; packet recycling policy; map iteration order; kind and capacity of the stream buffers. Non-trivial: at least one message reached the session"
}
func (sessWorld) Real() []string {
	return []string{"avformat.BaseDemuxer and everything it calls (tracks, packets, packet pool user, codec data, avc, hevc, aac, bit readers)", "avformat.StreamsBuffer (some runs)", "collections.RBBlockBuffer (about half of the runs)", "collections.LinkedList"}
}
func (sessWorld) Stub() []string {
	return []string{"network, senders, toy framing layer, subscriber (scripted)", "copying data pipeline that poisons released blocks (about half of the runs)", "sync.Pool (simulated recycling policy)", "map iteration order (simulated)"}
}

type recConv struct {
	name string
	f    func([]byte) ([]byte, error)
}

var recordToStartCodes = map[utils.AVCodecID][]recConv{
	utils.AVCodecIdH264: {{"avc.ExtraDataToAnnexB", avc.ExtraDataToAnnexB}, {"avc.M4VCExtraDataToAnnexB", avc.M4VCExtraDataToAnnexB}},
	utils.AVCodecIdH265: {{"hevc.ExtraDataToAnnexB", hevc.ExtraDataToAnnexB}},
}

var allS = []string{"S01", "S02", "S03", "S04", "S05", "S06", "S07"}

// ---- what a subscriber sees ----

type pktSnap struct {
	Len                                     int
	Sum                                     uint64
	Pts, Dts, Duration                      int64
	Key                                     bool
	BufferIndex, Index, Timebase, PacketTyp int
	Media                                   utils.AVMediaType
	Codec                                   utils.AVCodecID
}

type trkSnap struct {
	Media                                          utils.AVMediaType
	Codec                                          utils.AVCodecID
	Index, Timebase, Rate, Ch, BitRate, SampleSize int
	ADTS, HasPar                                   bool
	Data, AnnexB, MP4                              []byte
	VPS, SPS, PPS                                  [][]byte
	W, H                                           int
	Head                                           string // header fields of the record
}

func cloneB(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func cloneBB(l [][]byte) [][]byte {
	var r [][]byte
	for _, b := range l {
		r = append(r, cloneB(b))
	}
	return r
}

func snapTrack(t avformat.Track) *trkSnap {
	s := t.GetStream()
	r := &trkSnap{Media: s.MediaType, Codec: s.CodecID, Index: s.Index, Timebase: s.Timebase, Rate: s.SampleRate, Ch: s.Channels,
		BitRate: s.BitRate, SampleSize: s.SampleSize, ADTS: s.HasADTSHeader, Data: cloneB(s.Data)}
	if p := s.CodecParameters; p != nil {
		r.HasPar = true
		r.W, r.H = p.Width(), p.Height()
		r.SPS, r.PPS = cloneBB(p.SPS()), cloneBB(p.PPS())
		if v, ok := p.(interface{ VPS() [][]byte }); ok {
			r.VPS = cloneBB(v.VPS())
		}
		r.AnnexB, r.MP4 = cloneB(p.AnnexBExtraData()), cloneB(p.MP4ExtraData())
		r.Head = recordFields(p)
	}
	return r
}

func (a *trkSnap) same(b *trkSnap) bool {
	return fmt.Sprintf("%+v", *a) == fmt.Sprintf("%+v", *b)
}

// sEv is one observable event of a library call.
type sEv struct {
	K    string // nt, tc, nf, pkt, pre (callbacks); dh, db (releases by the session), put (packet recycled)
	Trk  *trkSnap
	Pkt  pktSnap
	Ptr  *avformat.AVPacket
	Data []byte
	Hook string
	Idx  int
	Item int // dh/db: message of the released block
}

// ---- data pipelines ----

type blk struct {
	item int
	data []byte // bytes handed out by Fetch
}

type obsPipe struct {
	x     *sessRun
	inner avformat.DataPipeline
	live  map[int][]*blk // unreleased complete blocks, oldest first
	asked bool           // a release the embedder asks the session for is under way
	got   [2]int         // releases of the newest, of the oldest block that reached the pipeline meanwhile
	gotAt int
}

func (p *obsPipe) Write(data []byte, index int, mt utils.AVMediaType) (int, error) {
	return p.inner.Write(data, index, mt)
}
func (p *obsPipe) Fetch(index int) ([]byte, error) { return p.inner.Fetch(index) }
func (p *obsPipe) PendingBlockSize(index int) int  { return p.inner.PendingBlockSize(index) }
func (p *obsPipe) DiscardBackPacket(index int) {
	if p.asked {
		p.got[0]++
		p.gotAt = index
		p.inner.DiscardBackPacket(index)
		return
	}
	l := p.live[index]
	if len(l) == 0 {
		p.x.fail("S04", "double-release", "the newest block of stream buffer %d was dropped although none is unreleased", index)
		return
	}
	b := l[len(l)-1]
	p.live[index] = l[:len(l)-1]
	p.x.ev = append(p.x.ev, sEv{K: "db", Idx: index, Item: b.item})
	p.inner.DiscardBackPacket(index)
}
func (p *obsPipe) DiscardHeadPacket(index int) {
	if p.asked {
		p.got[1]++
		p.gotAt = index
		p.inner.DiscardHeadPacket(index)
		return
	}
	l := p.live[index]
	if len(l) == 0 {
		p.x.fail("S04", "double-release", "the oldest block of stream buffer %d was released although none is unreleased", index)
		return
	}
	b := l[0]
	p.live[index] = l[1:]
	p.x.ev = append(p.x.ev, sEv{K: "dh", Idx: index, Item: b.item})
	p.inner.DiscardHeadPacket(index)
}

// ringPipe: one small real ring per stream.
type ringPipe struct {
	cap int
	m   map[int]*collections.RBBlockBuffer
}

func (p *ringPipe) get(i int) *collections.RBBlockBuffer {
	b := p.m[i]
	if b == nil {
		b = collections.NewRBBlockBuffer(p.cap)
		p.m[i] = b
	}
	return b
}
func (p *ringPipe) Write(d []byte, i int, _ utils.AVMediaType) (int, error) {
	p.get(i).Write(d)
	return len(d), nil
}
func (p *ringPipe) Fetch(i int) ([]byte, error) { return p.get(i).Fetch(), nil }
func (p *ringPipe) DiscardBackPacket(i int)     { p.get(i).PopBack() }
func (p *ringPipe) DiscardHeadPacket(i int)     { p.get(i).Pop() }
func (p *ringPipe) PendingBlockSize(i int) int  { return p.get(i).PendingBlockSize() }

// poisonPipe copies every frame into memory of its own and, like a ring that moves on, overwrites released memory
// as soon as something is written to the stream again.
type poisonPipe struct {
	pend map[int][]byte
	live map[int][][]byte
	dead map[int][][]byte
}

func (p *poisonPipe) Write(d []byte, i int, _ utils.AVMediaType) (int, error) {
	for _, b := range p.dead[i] {
		for k := range b {
			b[k] = 0xDD
		}
	}
	p.dead[i] = nil
	p.pend[i] = append(p.pend[i], d...)
	return len(d), nil
}
func (p *poisonPipe) Fetch(i int) ([]byte, error) {
	b := p.pend[i]
	if b == nil {
		b = []byte{}
	}
	b = b[:len(b):len(b)]
	p.pend[i] = nil
	p.live[i] = append(p.live[i], b)
	return b, nil
}
func (p *poisonPipe) DiscardBackPacket(i int) {
	n := len(p.live[i]) - 1
	if n < 0 {
		panic(misuse("a stream buffer is told to release a frame although it holds none"))
	}
	p.dead[i] = append(p.dead[i], p.live[i][n])
	p.live[i] = p.live[i][:n]
}
func (p *poisonPipe) DiscardHeadPacket(i int) {
	if len(p.live[i]) == 0 {
		panic(misuse("a stream buffer is told to release a frame although it holds none"))
	}
	p.dead[i] = append(p.dead[i], p.live[i][0])
	p.live[i] = p.live[i][1:]
}
func (p *poisonPipe) PendingBlockSize(i int) int { return len(p.pend[i]) }

// ---- the reference model ----

type wantDesc struct {
	unknown     bool // created from damaged bytes
	sets        *paramSets
	w, h        int
	rate, ch    int
	chkRate     bool
	chkCh       bool
	adts        bool // frames carry ADTS headers
	declRate    int
	declBitRate int
	rec         []byte // the record the track was created from
}

type mFrame struct {
	item int
	m    *SMsg
	data []byte // expected bytes
	snap pktSnap
}

type mTrack struct {
	s        int // stream
	buf      int
	codec    utils.AVCodecID
	media    utils.AVMediaType
	desc     *wantDesc
	list     []*mFrame // accepted, not delivered
	first    *mFrame
	disorder bool
	seen     *trkSnap // as announced
	trk      avformat.Track
	bits     int64
}

type heldPkt struct {
	ptr  *avformat.AVPacket
	data []byte
	want []byte
	item int
	buf  int
	free bool
}

type sessRun struct {
	sc     *SessScenario
	o      *Outcome
	prop   string
	d      *avformat.BaseDemuxer
	pipe   *obsPipe
	items  []built
	ev     []sEv
	ncb    int
	closed bool
	inLib  bool

	bufOf   map[int]int // stream -> buffer index
	order   []int       // order of buffer allocation
	tracks  []*mTrack
	comp    bool
	fuzzy   bool // closed while it is undecided whether probing has ended
	held    []*heldPkt
	inUse   map[*avformat.AVPacket]bool
	poolSee bool
	cbs     []sEv // all callbacks, for S07
	reached int
	lag     int
	free    bool
	stop    bool
	sumCap  int64
	clk     *Rng // the node's clock: pace and jumps
	pace    int64
	now     int64
	jumps   bool
	raw     bool // recording mode
	hist    []*hCall
	hv      []Violation
	global  func(k string)

	// verification of one call
	pos      int
	pend     *mFrame
	pendTrk  *mTrack
	pendPtr  *avformat.AVPacket
	pendDH   bool
	pendPut  bool
	cur      int // item being submitted, -1
	curIdx   int
	curDB    int
	trackOff avformat.Track
	newTrks  []avformat.Track
}

func (x *sessRun) fail(prop, kind, format string, a ...interface{}) {
	if x.raw {
		x.hv = append(x.hv, Violation{prop, kind, fmt.Sprintf(format, a...)})
		return
	}
	x.stop = true
	msg := fmt.Sprintf(format, a...)
	x.o.Fail(prop, kind, "%s", msg)
	if x.sc.Dmg && prop != "S08" {
		x.o.Fail("S08", kind, "with damaged input elsewhere: %s", msg)
	}
}

// lib runs one library call.
func (x *sessRun) lib(what string, f func()) bool {
	x.inLib = true
	pi := call(f)
	x.inLib = false
	if pi == nil {
		return true
	}
	x.stop = true
	k := panicKind(pi)
	msg := fmt.Sprintf("%s: %s in %s", what, pi.Value, pi.Where)
	switch {
	case x.closed:
		x.fail("S06", k, "after close, %s", msg)
	case x.sc.Dmg:
		x.fail("S08", k, "%s", msg)
	default:
		for _, p := range allS {
			x.fail(p, k, "%s", msg)
		}
	}
	return false
}

// ---- subscriber ----

func (x *sessRun) cb(e sEv) {
	x.ncb++
	for _, h := range x.sc.Hooks {
		if h.N == x.ncb && e.Hook == "" {
			e.Hook = h.Op
		}
	}
	if x.closed {
		x.fail("S06", "callback-after-close", "callback %s after the session was closed", e.K)
	}
	x.ev = append(x.ev, e)
	x.cbs = append(x.cbs, e)
	switch e.Hook {
	case "close":
		x.o.Count("close from inside a callback")
		x.closed = true
		x.d.Close()
	case "complete":
		x.o.Count("request from inside a callback")
		x.d.ProbeComplete()
	case "try":
		x.o.Count("request from inside a callback")
		x.d.TryCompleteProbe()
	}
}

func (x *sessRun) OnNewTrack(t avformat.Track) {
	s := snapTrack(t)
	if x.sc.Dmg {
		x.readOut(t)
	}
	x.newTrks = append(x.newTrks, t)
	x.cb(sEv{K: "nt", Trk: s})
}
func (x *sessRun) OnTrackComplete() { x.cb(sEv{K: "tc"}) }
func (x *sessRun) OnTrackNotFind()  { x.cb(sEv{K: "nf"}) }
func (x *sessRun) OnPacket(p *avformat.AVPacket) {
	if x.sc.Dmg {
		x.convert(p)
	}
	e := sEv{K: "pkt", Pkt: snapPkt(p), Ptr: p, Data: p.Data}
	if x.raw && !x.sc.Auto {
		x.hold(&e)
	}
	x.cb(e)
}
func (x *sessRun) pre(p *avformat.AVPacket) { x.cb(sEv{K: "pre", Pkt: snapPkt(p), Ptr: p}) }

func snapPkt(p *avformat.AVPacket) pktSnap {
	return pktSnap{len(p.Data), sum64(p.Data), p.Pts, p.Dts, p.Duration, p.Key, p.BufferIndex, p.Index, p.Timebase, int(p.PacketType), p.MediaType, p.CodecID}
}

// ---- damaged input: everything a subscriber may do with it ----

func (x *sessRun) probe(what string, f func()) {
	if pi := call(f); pi != nil {
		x.fail("S08", panicKind(pi), "%s on damaged input: %s in %s", what, pi.Value, pi.Where)
	}
}

func (x *sessRun) readOut(t avformat.Track) {
	s := t.GetStream()
	x.probe("reading the announced description", func() {
		switch c := s.CodecParameters.(type) {
		case *avformat.AVCCodecData:
			_, _ = c.Record.Marshal(c.SPS(), c.PPS())
		case *avformat.HEVCCodecData:
			_, _ = c.Record.Marshal(c.VPS(), c.SPS(), c.PPS())
		}
	})
}

func (x *sessRun) convert(p *avformat.AVPacket) {
	if p.MediaType != utils.AVMediaTypeVideo || p.Index < 0 || p.Index >= len(x.newTrks) {
		return
	}
	st := x.newTrks[p.Index].GetStream()
	x.probe("AVCCPacket2AnnexB", func() { avformat.AVCCPacket2AnnexB(st, p) })
	x.probe("AnnexBPacket2AVCC", func() { avformat.AnnexBPacket2AVCC(p) })
	x.probe("IsKeyFrame", func() { avformat.IsKeyFrame(p.CodecID, p.Data) })
}

func (x *sessRun) probeBytes(m *SMsg, c string, b []byte) {
	x.o.Count("message damaged")
	buf := func() []byte { return append([]byte{}, b...) }
	x.probe("configuration parser", func() {
		switch c {
		case "h264":
			_, _ = avformat.ParseAVCDecoderConfigurationRecord(buf())
			_, _ = avc.ExtraDataToAnnexB(buf())
			_, _ = avc.M4VCExtraDataToAnnexB(buf())
			_, _, _ = avc.NewCodecDataFromAVCDecoderConfigurationRecord(buf())
			_, _, _ = avc.ParseExtraDataFromKeyNALU(buf())
			_, _ = avc.ParseSPS(buf())
			_, _ = avformat.CreateAVCStreamFromKeyFrame(buf(), 0)
			avc.IsKeyFrame(buf())
			avc.FindStartCode(buf())
			avc.RemoveStartCode(buf())
		case "h265":
			_, _ = avformat.ParseHEVCDecoderConfigurationRecord(buf())
			_, _ = hevc.ExtraDataToAnnexB(buf())
			_, _, _ = hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(buf())
			_, _, _, _ = hevc.ParseExtraDataFromKeyNALU(buf())
			_, _ = hevc.ParseSPS(buf())
			_, _ = avformat.CreateHevcStreamFromKeyFrame(buf(), 0)
			hevc.IsKeyFrame(buf())
		case "aac", "adts":
			_, _ = utils.ParseMpeg4AudioConfig(buf())
			_, _ = utils.ReadADtsFixedHeader(buf())
			_, _, _, _ = avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, buf())
		default:
			_, _, _, _ = avformat.ExtractAudioExtraData(codecID(c), buf())
		}
	})
	// parameter sets taken out of the damaged bytes, one by one
	if c == "h264" || c == "h265" {
		for i, n := range splitStart(b) {
			if i > 6 {
				break
			}
			n := append([]byte{}, n...)
			x.probe("parameter set parser", func() {
				if c == "h264" {
					_, _ = avc.ParseSPS(n)
				} else {
					_, _ = hevc.ParseSPS(n)
				}
			})
		}
	}
}

// ---- running ----

func (sessWorld) Exec(v interface{}, prop string, o *Outcome) {
	sc := v.(*SessScenario)
	if len(sc.Streams) == 0 || len(sc.Msgs) > 5000 {
		o.Trivial = true
		return
	}
	if sc.Name != "flv" && sc.Name != "ps" && sc.Name != "ts" && sc.Name != "jt1078" {
		sc.Name = "flv"
	}
	single(func() {
		rx, items := network(sc, o)
		if prop == "S07" {
			x := runRaw(sc, rx, items, o, prop, false, nil)
			o.Trivial = x.reached == 0
			for i, c := range x.cbs {
				o.LogN(c.K, i, c.Pkt.Index, int(c.Pkt.Dts), int(c.Pkt.Duration), c.Pkt.Len, int(c.Pkt.Sum&0xffff))
			}
			if sc.Twin != nil {
				warm(sc, prop, o)
				compareTwins(x, runRaw(sc, recut(rx, items, uint64(sc.Twin.Cut)), items, o, prop, true, x.order), o)
			}
			return
		}
		warm(sc, prop, o)
		x := newSession(sc, items, o, prop)
		x.start(uint64(sc.Env), sc.Pool, sc.Pipe, sc.Cap, sc.Lag)
		x.runRx(rx)
		x.finish()
		o.Trivial = x.reached == 0
		if len(o.V) > 0 && o.Find(prop, "") == nil || len(o.V) == 0 && (sc.Env%8 == 0 || os.Getenv("HIST") != "") {
			// another property broke first and the model stopped there: what does the history say about this one?
			runRaw(sc, rx, items, NewOutcome(false), prop, false, nil).judgeInto(o, prop)
		}
	})
}

// warm runs another session in the same process, whose streams have almost the same parameter sets.
func warm(sc *SessScenario, prop string, o *Outcome) {
	if sc.Warm <= 0 {
		return
	}
	w := *sc
	w.Streams = append([]SStream{}, sc.Streams...)
	for i := range w.Streams {
		w.Streams[i].Seed = sibling(w.Streams[i].Seed, sc.Warm)
	}
	w.Hooks, w.Twin = nil, nil
	q := NewOutcome(false)
	rx, items := network(&w, q)
	runRaw(&w, rx, items, q, prop, false, nil)
	o.Count("another session with similar parameter sets before")
}

func newSession(sc *SessScenario, items []built, o *Outcome, prop string) *sessRun {
	return &sessRun{sc: sc, items: items, o: o, prop: prop, bufOf: map[int]int{}, inUse: map[*avformat.AVPacket]bool{}, cur: -1}
}

func newPipe(kind, capacity int) avformat.DataPipeline {
	switch kind {
	case 0:
		return &avformat.StreamsBuffer{}
	case 1:
		return &ringPipe{clampI(capacity, 1, 1<<20), map[int]*collections.RBBlockBuffer{}}
	}
	return &poisonPipe{map[int][]byte{}, map[int][][]byte{}, map[int][][]byte{}}
}

func (x *sessRun) start(env uint64, pool, pipe, capacity, lag int) {
	rt.SeedEnv(env)
	rt.PoolMode = clampI(pool, 0, 4)
	x.lag = clampI(lag, 0, 1000)
	x.free = x.sc.Free
	x.pipe = &obsPipe{x: x, inner: newPipe(pipe, capacity), live: map[int][]*blk{}}
	rt.PoolOnGet = func(v any, reused bool) { x.onGet(v) }
	rt.PoolOnPut = func(v any, _ bool) { x.onPut(v) }
	x.clk = NewRng("clock", env)
	x.pace = []int64{1, 1, 1, 10, 1000, 0}[x.clk.N(6)]
	x.jumps = x.clk.P(60)
	x.open()
	if x.sc.Up {
		for s := range x.sc.Streams {
			x.alloc(s)
		}
	}
}

func (x *sessRun) onGet(v any) {
	p, ok := v.(*avformat.AVPacket)
	if !ok {
		return
	}
	x.poolSee = true
	if x.inUse[p] {
		x.fail("S04", "recycled-in-use", "a packet object was handed out again while a frame still uses it")
	}
	x.inUse[p] = true
}

func (x *sessRun) onPut(v any) {
	p, ok := v.(*avformat.AVPacket)
	if !ok {
		return
	}
	if !x.inUse[p] {
		x.fail("S04", "double-put", "a packet object was handed back for recycling twice")
	}
	delete(x.inUse, p)
	if x.inLib {
		x.ev = append(x.ev, sEv{K: "put", Ptr: p})
	}
}

func (x *sessRun) open() {
	x.d = &avformat.BaseDemuxer{Name: x.sc.Name, DataPipeline: x.pipe, AutoFree: x.sc.Auto}
	x.d.SetHandler(x)
	x.d.SetProbeDuration(x.sc.Probe)
	if x.sc.Pre {
		x.d.SetOnPreprocessPacketHandler(x.pre)
	}
}

func (x *sessRun) alloc(s int) int {
	i := 0
	known, seen := x.bufOf[s]
	if x.lib("FindBufferIndex", func() { i = x.find(s) }) {
		if seen && i != known {
			x.stop = true
			for _, p := range []string{"S02", "S04"} {
				x.fail(p, "buffer-index", "stream %d got buffer index %d, it had %d before", s, i, known)
			}
		}
		if seen {
			return i
		}
		if i != len(x.order) {
			x.stop = true
			for _, p := range []string{"S02", "S04"} {
				x.fail(p, "buffer-index", "stream %d got buffer index %d, %d streams were seen before", s, i, len(x.order))
			}
		}
		x.bufOf[s] = i
		x.order = append(x.order, s)
	}
	return i
}

// find asks the session for a stream's buffer, the way a demuxer does for every frame it parses: by the number its
// container gives the stream, or by media type.
func (x *sessRun) find(s int) int {
	if x.byType() {
		return x.d.FindBufferIndexByMediaType(mediaOf(x.sc.Streams[s].C))
	}
	return x.d.FindBufferIndex(marker(x.sc.Streams[s].Seed, s))
}

// marker gives each stream of a session another number; some differ in few bits only.
func marker(seed, s int) int {
	switch seed / 61 % 4 {
	case 0:
		return (s+1)<<16 + 16 + seed%3*64
	case 1:
		return 1<<24 + (s+1)<<8 + 17
	}
	return 16 + seed%61*64 + s
}

func (x *sessRun) byType() bool {
	var n [2]int
	for _, st := range x.sc.Streams {
		n[mediaOf(st.C)&1]++
	}
	return x.sc.Name != "ts" && n[0] < 2 && n[1] < 2 && x.sc.Env%2 == 0
}

func mediaOf(c string) utils.AVMediaType {
	if isVideo(c) {
		return utils.AVMediaTypeVideo
	}
	return utils.AVMediaTypeAudio
}

// tick lets the time between two events pass - at the node's own pace - and disturbs its wall clock. Anything the
// session does while nothing is submitted is its own doing.
func (x *sessRun) tick(t int64) {
	d := t - x.now
	if d < 0 {
		d = 0
	}
	x.now += d
	if x.jumps && x.clk.P(12) {
		x.o.Count("clock jump")
		switch x.clk.N(4) {
		case 0:
			rt.ClockNow += int64(x.clk.N(10000)) * 1e6
		case 1:
			rt.ClockNow += int64(x.clk.N(100)) * 3600e9
		case 2:
			rt.ClockNow -= int64(x.clk.N(10000)) * 1e6
		case 3:
			rt.ClockNow -= int64(x.clk.N(100)) * 3600e9
		}
	}
	x.ev = x.ev[:0]
	was := x.closed
	if !x.lib("timer", func() { rt.PassTime(d * x.pace * 1e6) }) {
		return
	}
	if len(x.ev) == 0 {
		return
	}
	if x.raw {
		x.record("idle", -1, -1, was)
	}
	k := x.ev[0].K
	if was {
		x.fail("S06", "callback-after-close", "%s while nothing was submitted, after the session was closed", k)
	} else {
		x.fail("S03", "spontaneous", "the session acted (%s) while nothing was submitted", k)
	}
}

func (x *sessRun) runRx(rx []rxEv) {
	type acc struct{ b []byte }
	pend := make([]acc, len(x.sc.Streams))
	for _, e := range rx {
		if x.stop {
			return
		}
		x.tick(e.T)
		if x.stop {
			return
		}
		switch e.Op {
		case "w":
			idx := x.alloc(e.S)
			if x.stop {
				return
			}
			if len(e.Data) == 0 && x.sc.Msgs[e.M].K == "c" {
				continue
			}
			data := append([]byte{}, e.Data...)
			if !x.lib("pipeline write", func() { _, _ = x.pipe.Write(data, idx, mediaOf(x.sc.Streams[e.S].C)) }) {
				return
			}
			for i := range data { // the sender reuses its buffer
				data[i] = 0xEE
			}
			pend[e.S].b = append(pend[e.S].b, e.Data...)
		case "drop":
			idx, ok := x.bufOf[e.S]
			if !ok {
				continue
			}
			n := 0
			if !x.lib("pipeline pending size", func() { n = x.pipe.PendingBlockSize(idx) }) {
				return
			}
			if n != len(pend[e.S].b) {
				x.fail("S02", "pending", "%d bytes are pending on stream %d, the pipeline reports %d", len(pend[e.S].b), e.S, n)
				return
			}
			if n > 0 {
				if !x.lib("pipeline drop", func() {
					_, _ = x.pipe.inner.Fetch(idx)
					x.release(false, idx, (e.M+e.S)%2 == 0)
				}) {
					return
				}
			}
			pend[e.S].b = nil
		case "end":
			if x.sc.Msgs[e.M].K == "a" { // an announcement has no bytes in the stream
				x.submit(e.S, e.M, nil)
			} else {
				x.submit(e.S, e.M, pend[e.S].b)
				pend[e.S].b = nil
			}
		case "close":
			x.o.Count("close")
			was := x.closed
			x.closed = true
			x.ev = x.ev[:0]
			x.lib("Close", func() { x.d.Close() })
			if x.raw {
				x.record("close", -1, -1, was)
			}
			x.ev = x.ev[:0]
		case "complete", "try":
			x.request(e.Op)
		}
		x.subscriber(x.lag)
	}
}

func (x *sessRun) submit(s, mi int, written []byte) {
	m := &x.sc.Msgs[mi]
	st := x.sc.Streams[s]
	idx := x.alloc(s)
	if x.stop {
		return
	}
	x.reached++
	var data []byte
	isBlock := !(m.K == "a" || m.K == "c" && len(written) == 0)
	if isBlock {
		if !x.lib("pipeline fetch", func() { data, _ = x.pipe.Fetch(idx) }) {
			return
		}
		if !bytes.Equal(data, written) {
			x.fail("S02", "assembled", "message %d: fragments hold %s, fetched frame is %s", mi, clip(written), clip(data))
			x.fail("S07", "assembled", "message %d: fragments hold %s, fetched frame is %s", mi, clip(written), clip(data))
			return
		}
		x.pipe.live[idx] = append(x.pipe.live[idx], &blk{item: mi, data: data})
	} else if m.K == "c" {
		data = []byte{}
	}
	if len(m.Dm) > 0 && !x.raw {
		x.probeBytes(m, st.C, written)
		if x.stop {
			return
		}
	}
	id := codecID(st.C)
	nTracks := x.d.Tracks.Size()
	x.ev, x.pos, x.cur, x.curIdx, x.curDB, x.pend = x.ev[:0], 0, mi, idx, 0, nil
	tb := int(x.sc.tb() * 1000)
	ok, was := false, x.closed
	switch {
	case m.K == "f" && isVideo(st.C):
		pt := avformat.PacketTypeAnnexB
		if x.sc.avcc() {
			pt = avformat.PacketTypeAVCC
		}
		ok = x.lib("OnVideoPacket", func() { x.d.OnVideoPacket(idx, id, data, m.Key, m.Dts, m.Pts, pt) })
	case m.K == "f":
		ok = x.lib("OnAudioPacket", func() { x.d.OnAudioPacket(idx, id, data, m.Dts) })
	case isVideo(st.C):
		ok = x.lib("OnNewVideoTrack", func() { x.d.OnNewVideoTrack(idx, id, tb, data) })
	default:
		cfg := avformat.AudioConfig{SampleRate: st.Rate, SampleSize: 16, Channels: st.Ch}
		switch st.C {
		case "aac":
			cfg = avformat.AudioConfig{}
		case "adts":
			cfg = avformat.AudioConfig{SampleRate: aacRates[st.Rate%13], SampleSize: 16, Channels: aacChannels[1+(maxI(st.Ch, 1)-1)%7], HasADTSHeader: true}
		}
		ok = x.lib("OnNewAudioTrack", func() { x.d.OnNewAudioTrack(idx, id, tb, data, cfg) })
	}
	if !ok || x.stop {
		return
	}
	if x.raw {
		x.record(map[bool]string{true: "f", false: "c"}[m.K == "f"], mi, idx, was)
		return
	}
	created := x.d.Tracks.Size() - nTracks
	if m.K == "f" {
		x.verifyFrame(s, mi, idx, written, created)
	} else {
		x.verifyConfig(s, mi, idx, written, created, isBlock)
	}
	x.endCall()
}

func (x *sessRun) request(k string) {
	x.ev, x.pos, x.cur, x.pend, x.curDB = x.ev[:0], 0, -1, nil, 0
	f := x.d.ProbeComplete
	if k == "try" {
		f = x.d.TryCompleteProbe
	}
	was := x.closed
	if !x.lib(k+" request", func() { f() }) || x.stop {
		return
	}
	if x.raw {
		x.record(k, -1, -1, was)
		return
	}
	x.mRequest(k)
	x.endCall()
}

// ---- model: walking through the events of one call ----

func (x *sessRun) bound(idx int) *mTrack {
	for _, t := range x.tracks {
		if t.buf == idx {
			return t
		}
	}
	return nil
}

func isCB(k string) bool { return k == "nt" || k == "tc" || k == "nf" || k == "pkt" || k == "pre" }

// peek returns the next callback without consuming it, accounting for releases on the way.
func (x *sessRun) peek() *sEv {
	for x.pos < len(x.ev) && !x.stop {
		e := &x.ev[x.pos]
		if isCB(e.K) {
			return e
		}
		x.pos++
		x.account(e)
	}
	return nil
}

func (x *sessRun) account(e *sEv) {
	switch e.K {
	case "db":
		if x.cur < 0 || e.Item != x.cur || e.Idx != x.curIdx {
			x.fail("S04", "wrong-block-dropped", "the block of message %d (buffer %d) was dropped while message %d was being handled", e.Item, e.Idx, x.cur)
			return
		}
		x.curDB++
	case "dh":
		if x.closed && (x.pend == nil || x.pendDH) {
			return // counted at the end of the call
		}
		if !x.sc.Auto {
			x.fail("S04", "released-in-manual-mode", "the session released the block of message %d although the subscriber releases", e.Item)
			return
		}
		if x.pend == nil || x.pendDH {
			x.fail("S04", "released-too-early", "the block of message %d was released without a delivery before it", e.Item)
			return
		}
		if e.Idx != x.pendTrk.buf || e.Item != x.pend.item && !x.pendTrk.disorder {
			x.fail("S04", "wrong-block-released", "after delivery of message %d (buffer %d) the block of message %d (buffer %d) was released", x.pend.item, x.pendTrk.buf, e.Item, e.Idx)
			return
		}
		x.pendDH = true
	case "put":
		if x.closed && (x.pend == nil || x.pendPut) {
			return
		}
		if !x.sc.Auto {
			x.fail("S04", "recycled-in-manual-mode", "the session recycled a packet object although the subscriber releases")
			return
		}
		if x.pend == nil || x.pendPut || e.Ptr != x.pendPtr {
			x.fail("S04", "wrong-packet-recycled", "a packet object that was not the one just delivered was recycled")
			return
		}
		x.pendPut = true
	}
}

// settle checks that the frame delivered last has been released.
func (x *sessRun) settle() {
	if x.pend == nil || x.stop {
		return
	}
	if x.sc.Auto {
		if !x.pendDH {
			x.fail("S04", "block-not-released", "the block of message %d was not released right after its delivery", x.pend.item)
		} else if x.poolSee && !x.pendPut {
			x.fail("S04", "packet-not-recycled", "the packet object of message %d was not recycled right after its delivery", x.pend.item)
		}
	}
	x.pend = nil
}

// want consumes the next callback if it is of kind k. It returns nil when the session is closed by now.
func (x *sessRun) want(k, what string, props ...string) *sEv {
	e := x.peek()
	if x.stop {
		return nil
	}
	x.settle()
	if x.stop {
		return nil
	}
	if e == nil || e.K != k {
		got := "nothing"
		if e != nil {
			got = e.K
			if e.K == "pkt" && k != "pkt" || e.K == "nt" || e.K == "tc" || e.K == "nf" {
				props = append(props, "S01")
			}
		}
		for _, p := range props {
			x.fail(p, "missing-"+k, "expected %s, the session delivered %s (message %d)", what, got, x.cur)
		}
		return nil
	}
	x.pos++
	x.o.LogN(k, x.cur, e.Pkt.Index, int(e.Pkt.Dts), int(e.Pkt.Duration), e.Pkt.Len, int(e.Pkt.Sum&0xffff))
	return e
}

// hook applies what the subscriber did from inside the callback.
func (x *sessRun) hook(e *sEv) bool {
	switch e.Hook {
	case "close":
		return false
	case "complete", "try":
		x.mRequest(e.Hook)
	}
	return !x.stop
}

func (x *sessRun) past() bool {
	// closed and no callback left: everything after is invisible
	return x.closed && x.peekQuiet() == nil
}

func (x *sessRun) peekQuiet() *sEv {
	for i := x.pos; i < len(x.ev); i++ {
		if isCB(x.ev[i].K) {
			return &x.ev[i]
		}
	}
	return nil
}

func (x *sessRun) mRequest(k string) {
	if x.comp || x.stop {
		return
	}
	if k == "try" {
		for _, t := range x.tracks {
			if (t.codec == utils.AVCodecIdPCMS16LE || t.codec == utils.AVCodecIdADPCMG726) && len(t.list) < 2 {
				x.o.Count("conditional request refused")
				return
			}
		}
	}
	x.o.Count("probing ended by request")
	x.complete("S03")
}

// complete walks through the end of probing.
func (x *sessRun) complete(prop string) {
	x.comp = true
	if x.past() {
		x.drainClosed()
		return
	}
	if len(x.tracks) == 0 {
		if e := x.want("nf", "the track-not-found notice", prop, "S01"); e != nil {
			x.o.Count("no track found")
			x.hook(e)
		}
		return
	}
	for i, t := range x.tracks {
		if x.past() {
			x.drainClosed()
			return
		}
		e := x.want("nt", fmt.Sprintf("announcement of track %d", i), prop, "S01")
		if e == nil {
			return
		}
		t.seen = e.Trk
		if len(x.newTrks) > i {
			t.trk = x.newTrks[i]
		}
		x.checkDesc(i, t, e.Trk)
		if !x.hook(e) && x.stop {
			return
		}
	}
	if x.past() {
		x.drainClosed()
		return
	}
	e := x.want("tc", "the completion notice", "S01", prop)
	if e == nil {
		return
	}
	x.hook(e)
	// replay: all but the newest of every track
	var n int
	type rp struct {
		t *mTrack
		f []*mFrame
	}
	var rs []*rp
	for _, t := range x.tracks {
		if len(t.list) >= 2 {
			k := len(t.list) - 1
			r := &rp{t, append([]*mFrame{}, t.list[:k]...)}
			sort.SliceStable(r.f, func(i, j int) bool { return r.f[i].m.Dts < r.f[j].m.Dts })
			rs = append(rs, r)
			n += k
			// durations are distances to the next accepted frame
			for i := 0; i < k; i++ {
				t.list[i].snap.Duration = t.list[i+1].m.Dts - t.list[i].m.Dts
			}
			t.list = t.list[k:]
		}
	}
	if n > 0 {
		x.o.Count("replay")
	}
	for ; n > 0 && !x.stop; n-- {
		if x.past() {
			return
		}
		min := int64(1<<63 - 1)
		for _, r := range rs {
			if len(r.f) > 0 && r.f[0].m.Dts < min {
				min = r.f[0].m.Dts
			}
		}
		e := x.want("pkt", fmt.Sprintf("a buffered frame with DTS %d", min), "S02")
		if e == nil {
			return
		}
		var hit *rp
		for _, r := range rs {
			if len(r.f) > 0 && r.f[0].m.Dts == min && r.t == x.trackAt(e.Pkt.Index) {
				hit = r
			}
		}
		if hit == nil {
			x.fail("S02", "replay-order", "replayed frame of track %d with DTS %d where DTS %d is due", e.Pkt.Index, e.Pkt.Dts, min)
			return
		}
		f := hit.f[0]
		hit.f = hit.f[1:]
		x.delivered(hit.t, f, e)
	}
}

func (x *sessRun) trackAt(i int) *mTrack {
	if i < 0 || i >= len(x.tracks) {
		return nil
	}
	return x.tracks[i]
}

// drainClosed: the rest of the completion is invisible; the newest frames stay buffered.
func (x *sessRun) drainClosed() {
	for _, t := range x.tracks {
		if k := len(t.list) - 1; k > 0 {
			t.list = t.list[k:]
		}
	}
}

// delivered checks one delivered packet against the accepted frame it must be.
func (x *sessRun) delivered(t *mTrack, f *mFrame, e *sEv) {
	w, g := f.snap, e.Pkt
	id := fmt.Sprintf("message %d on track %d", f.item, w.Index)
	if g.Index != w.Index || g.Media != w.Media || g.Codec != w.Codec || g.Timebase != w.Timebase {
		x.fail("S01", "attribution", "%s was delivered as index %d, %v, codec %v, time base %d", id, g.Index, g.Media, g.Codec, g.Timebase)
		if g.Index != w.Index || g.Codec != w.Codec {
			x.fail("S02", "attribution", "%s was delivered as index %d, codec %v", id, g.Index, g.Codec)
		}
		return
	}
	if g.Len != w.Len || g.Sum != w.Sum {
		x.fail("S02", "bytes", "%s: submitted %s, delivered %s", id, clip(f.data), clip(e.Data))
		x.fail("S04", "bytes", "%s: submitted %s, delivered %s", id, clip(f.data), clip(e.Data))
		return
	}
	if g.Dts != w.Dts || g.Pts != w.Pts || g.Key != w.Key || t.media == utils.AVMediaTypeVideo && g.PacketTyp != w.PacketTyp {
		x.fail("S02", "fields", "%s: submitted dts %d pts %d key %v packaging %d, delivered dts %d pts %d key %v packaging %d", id, w.Dts, w.Pts, w.Key, w.PacketTyp, g.Dts, g.Pts, g.Key, g.PacketTyp)
		return
	}
	if g.Duration != w.Duration {
		x.fail("S03", "duration", "%s: the next frame is %d later, the duration delivered is %d", id, w.Duration, g.Duration)
		return
	}
	if g.BufferIndex != w.BufferIndex {
		x.fail("S04", "buffer-index", "%s carries buffer index %d, its stream uses %d", id, g.BufferIndex, w.BufferIndex)
		return
	}
	x.pend, x.pendTrk, x.pendPtr, x.pendDH, x.pendPut = f, t, e.Ptr, false, false
	if !x.sc.Auto {
		x.held = append(x.held, &heldPkt{ptr: e.Ptr, data: e.Data, want: f.data, item: f.item, buf: t.buf})
	}
	x.hook(e)
}

func (x *sessRun) accept(t *mTrack, idx, mi int, written []byte) {
	m := &x.sc.Msgs[mi]
	f := &mFrame{item: mi, m: m, data: written}
	pts := m.Pts
	typ := int(avformat.PacketTypeAnnexB)
	if x.sc.avcc() {
		typ = int(avformat.PacketTypeAVCC)
	}
	key := m.Key
	if t.media == utils.AVMediaTypeAudio {
		pts, key = m.Dts, false
	}
	ti := 0
	for i, y := range x.tracks {
		if y == t {
			ti = i
		}
	}
	f.snap = pktSnap{Len: len(written), Sum: sum64(written), Pts: pts, Dts: m.Dts, Key: key, BufferIndex: idx, Index: ti, Timebase: int(x.sc.tb() * 1000), PacketTyp: typ, Media: t.media, Codec: t.codec}
	if t.first == nil {
		t.first = f
	}
	if t.media == utils.AVMediaTypeVideo && x.sc.Pre && !x.past() {
		e := x.want("pre", "the preprocessing callback", "S07")
		if e == nil {
			return
		}
		x.hook(e)
		if x.stop {
			return
		}
	}
	if k := len(t.list); k > 0 && t.list[k-1].m.Dts > m.Dts {
		t.disorder = true
	}
	t.list = append(t.list, f)
	if len(t.list) < 2 {
		return
	}
	if x.comp {
		for len(t.list) > 1 {
			p := t.list[0]
			p.snap.Duration = t.list[1].m.Dts - p.m.Dts
			if x.past() {
				t.list = t.list[1:]
				continue
			}
			e := x.want("pkt", fmt.Sprintf("the previous frame of track %d (message %d)", ti, p.item), "S02", "S03")
			if e == nil {
				return
			}
			t.list = t.list[1:]
			x.delivered(t, p, e)
			if x.stop {
				return
			}
		}
		return
	}
	// probe span
	span := t.list[len(t.list)-1].m.Dts - t.list[0].m.Dts
	need := int64(maxI(x.sc.Probe, 200))
	lo, hi := span/x.sc.tb(), span/x.sc.tb()
	if x.sc.tb() != 1 {
		lo -= int64(len(t.list))
		hi += int64(len(t.list))
		if back := t.disorder; !back {
			hi = span / x.sc.tb()
		}
	}
	if lo < need && hi >= need && x.closed {
		x.fuzzy = true
	}
	e := x.peekQuiet()
	saw := e != nil && (e.K == "nt" || e.K == "nf" || e.K == "tc")
	switch {
	case lo >= need:
		x.o.Count("probing ended by span")
		x.complete("S03")
	case hi >= need && saw:
		x.o.Count("probing ended by span")
		x.complete("S03")
	case saw:
		x.fail("S03", "too-early", "probing ended although the frames of track %d span %d of the required %d ms", ti, span/x.sc.tb(), need)
	}
}

func (x *sessRun) newTrack(s, idx int, d *wantDesc) *mTrack {
	st := x.sc.Streams[s]
	t := &mTrack{s: s, buf: idx, codec: codecID(st.C), media: mediaOf(st.C), desc: d}
	x.tracks = append(x.tracks, t)
	return t
}

func setsDesc(p *paramSets, all bool) *wantDesc {
	if all {
		return &wantDesc{sets: p, w: p.w[0], h: p.h[0]}
	}
	// a key frame: the last of each kind
	q := &paramSets{sps: p.sps[len(p.sps)-1:], pps: p.pps[len(p.pps)-1:]}
	if len(p.vps) > 0 {
		q.vps = p.vps[len(p.vps)-1:]
	}
	return &wantDesc{sets: q, w: p.w[len(p.w)-1], h: p.h[len(p.h)-1]}
}

// verifyFrame decides what the session had to do with a frame.
func (x *sessRun) verifyFrame(s, mi, idx int, written []byte, created int) {
	m := &x.sc.Msgs[mi]
	st := x.sc.Streams[s]
	t := x.bound(idx)
	damaged := len(m.Dm) > 0
	if t == nil && !x.comp {
		var d *wantDesc
		unsure := x.fuzzy
		if isVideo(st.C) {
			if !x.sc.avcc() {
				if m.Key && damaged {
					unsure = true
				} else if m.Key && x.items[mi].sets != nil {
					d = setsDesc(x.items[mi].sets, false)
				}
				if d == nil {
					for _, o := range x.tracks {
						if o.codec == codecID(st.C) {
							d = o.desc
							x.o.Count("described by an older track of its codec")
							for _, f := range x.tracks {
								if f.media == o.media {
									if f != o {
										x.o.Count("described by an older track that is not the first")
									}
									break
								}
							}
							if d != nil && d.unknown {
								unsure = true
							}
							break
						}
					}
				}
			}
		} else {
			switch st.C {
			case "adts":
				d = &wantDesc{rate: aacRates[st.Rate%13], ch: aacChannels[1+(maxI(st.Ch, 1)-1)%7], chkRate: true, chkCh: true, adts: true}
				if damaged {
					unsure = true
				}
			case "aac":
				if damaged || m.Ff {
					unsure = true
				}
			default:
				d = &wantDesc{rate: 8000, ch: 1, declRate: 8000}
				d.chkRate = st.C == "alaw" || st.C == "ulaw" || st.C == "pcm" || st.C == "g726"
				d.chkCh = d.chkRate
			}
		}
		if unsure {
			if x.curDB+x.countDB() > 0 {
				d = nil
				x.o.Count("damaged first frame refused")
			} else {
				if d == nil || damaged || x.fuzzy {
					d = &wantDesc{unknown: true}
				}
			}
		}
		if d != nil {
			t = x.newTrack(s, idx, d)
		}
		x.checkCreated(d != nil, created, mi)
		if m.Om != 0 && x.items[mi].sets == nil && !x.sc.avcc() && !damaged {
			x.o.Count("key frame with an incomplete group of parameter sets")
		}
	}
	if t == nil {
		x.refused(mi)
		return
	}
	x.accept(t, idx, mi, written)
	if x.stop {
		return
	}
	x.peek()
	if x.curDB > 0 && !x.closed {
		x.fail("S02", "accepted-frame-dropped", "message %d belongs to an existing track but its block was dropped", mi)
		x.fail("S04", "accepted-frame-dropped", "message %d belongs to an existing track but its block was dropped", mi)
	}
	if x.curDB > 0 && x.closed && len(t.list) > 0 && t.list[len(t.list)-1].item == mi {
		t.list = t.list[:len(t.list)-1] // a closed session may refuse everything
	}
}

// checkCreated compares the number of tracks a call created with what was due; the run goes on, so that the
// consequences are judged by the properties they break.
func (x *sessRun) checkCreated(due bool, created, mi int) {
	if x.stop || x.fuzzy || x.closed || due == (created == 1) && created <= 1 {
		return
	}
	for _, p := range []string{"S01", "S05"} {
		x.o.Fail(p, "track-count", "message %d created %d tracks, a track was due: %v", mi, created, due)
	}
}

func (x *sessRun) countDB() int {
	n := 0
	for i := x.pos; i < len(x.ev); i++ {
		if x.ev[i].K == "db" {
			n++
		}
	}
	return n
}

func (x *sessRun) refused(mi int) {
	x.peek()
	if x.stop {
		return
	}
	x.o.Count("frame refused")
	if x.curDB != 1 {
		if x.fuzzy {
			return
		}
		x.fail("S04", "refused-block-kept", "message %d was refused (no track) but its block was not dropped before the call returned", mi)
		if x.closed && x.sc.Auto {
			x.fail("S06", "leak-after-close", "the block of message %d, which has no track, was kept after close", mi)
		}
		x.fail("S02", "refused-block-kept", "message %d has no track but was not refused", mi)
	}
}

func (x *sessRun) verifyConfig(s, mi, idx int, written []byte, created int, isBlock bool) {
	m := &x.sc.Msgs[mi]
	st := x.sc.Streams[s]
	media := mediaOf(st.C)
	have := false
	for _, t := range x.tracks {
		if t.media == media && x.sc.Name != "ts" || t.buf == idx {
			have = true
		}
	}
	if have {
		x.o.Count("repeated or surplus configuration ignored")
	}
	if !have && !x.comp {
		var d *wantDesc
		switch st.C {
		case "h264", "h265":
			d = setsDesc(x.items[mi].sets, x.sc.avcc())
			if x.sc.avcc() {
				d.rec = x.items[mi].raw
			}
		case "vp8":
			d = &wantDesc{}
		case "aac":
			d = &wantDesc{rate: ascRate(st.Rate), ch: ascChannels(st.Ch), chkRate: true, chkCh: true}
		case "adts":
			d = &wantDesc{rate: aacRates[st.Rate%13], ch: aacChannels[1+(maxI(st.Ch, 1)-1)%7], chkRate: true, chkCh: true, adts: true}
		default:
			d = &wantDesc{rate: st.Rate, ch: st.Ch, chkRate: true, chkCh: true, declRate: st.Rate}
		}
		if len(m.Dm) > 0 || x.fuzzy {
			if created == 1 {
				d = &wantDesc{unknown: true}
			} else {
				d = nil
			}
		}
		if d != nil {
			x.newTrack(s, idx, d)
		}
		x.checkCreated(d != nil, created, mi)
	}
	x.peek()
	if x.stop {
		return
	}
	if isBlock && len(written) > 0 && x.curDB != 1 {
		if x.closed && x.sc.Auto {
			x.fail("S06", "leak-after-close", "the block of configuration message %d was kept after close", mi)
		}
		x.fail("S04", "configuration-block-kept", "the block of configuration message %d was not dropped before the call returned", mi)
	}
}

// endCall: nothing unexpected may be left over, and the unreleased blocks are the frames held.
func (x *sessRun) endCall() {
	if x.stop {
		return
	}
	e := x.peek()
	if x.stop {
		return
	}
	x.settle()
	if x.stop {
		return
	}
	if e != nil {
		switch e.K {
		case "nt", "tc", "nf":
			x.fail("S01", "unexpected-"+e.K, "unexpected callback %s while handling message %d", e.K, x.cur)
			x.fail("S03", "unexpected-"+e.K, "unexpected callback %s while handling message %d", e.K, x.cur)
		case "pkt":
			x.fail("S02", "unexpected-packet", "unexpected packet with DTS %d on track %d while handling message %d", e.Pkt.Dts, e.Pkt.Index, x.cur)
			if !x.comp {
				x.fail("S01", "unexpected-packet", "packet before the completion notice")
			}
		default:
			x.fail("S07", "unexpected-"+e.K, "unexpected callback %s while handling message %d", e.K, x.cur)
		}
		return
	}
	if len(x.tracks) != x.d.Tracks.Size() && !x.fuzzy && !x.closed {
		for _, p := range []string{"S01", "S02", "S05"} {
			x.fail(p, "track-count", "the session knows %d tracks, %d were due (message %d)", x.d.Tracks.Size(), len(x.tracks), x.cur)
		}
		return
	}
	x.checkHeld()
}

func (x *sessRun) checkHeld() {
	want := map[int]int{}
	for _, t := range x.tracks {
		want[t.buf] += len(t.list)
	}
	if !x.sc.Auto {
		if x.closed {
			return
		}
		for _, h := range x.held {
			want[h.buf]++
		}
	}
	for _, s := range x.order {
		b := x.bufOf[s]
		got := len(x.pipe.live[b])
		if x.closed {
			if got > want[b] {
				x.fail("S06", "leak-after-close", "after close stream buffer %d holds %d unreleased blocks, at most %d frames can be pending", b, got, want[b])
				return
			}
			continue
		}
		if got != want[b] {
			x.fail("S04", "held-blocks", "stream buffer %d holds %d unreleased blocks, the session holds %d frames", b, got, want[b])
			return
		}
	}
}

// subscriber releases delivered frames in manual mode when more than lag are held.
func (x *sessRun) subscriber(lag int) {
	if x.sc.Auto || x.stop {
		return
	}
	over := len(x.held) - lag
	for _, h := range x.held {
		if over <= 0 {
			break
		}
		if !h.free {
			h.free = true
		}
		over--
	}
	for again := true; again && !x.stop; {
		again = false
		for i, h := range x.held {
			l := x.pipe.live[h.buf]
			if !h.free {
				continue
			}
			if len(l) == 0 {
				x.fail("S04", "released-in-manual-mode", "the block of delivered message %d is gone before the subscriber released it", h.item)
				return
			}
			if l[0].item != h.item {
				continue // an older block is still in use
			}
			if !bytes.Equal(h.data, h.want) {
				x.fail("S04", "held-bytes", "delivered message %d changed before the subscriber released it: %s, was %s", h.item, clip(h.data), clip(h.want))
				x.fail("S02", "held-bytes", "delivered message %d changed before the subscriber released it", h.item)
				return
			}
			if !x.libQuiet(func() {
				x.release(true, h.buf, h.item%2 == 0)
				x.pipe.live[h.buf] = l[1:]
				if x.free {
					avformat.FreePacket(h.ptr)
				}
			}) {
				return
			}
			x.o.Count("released by the subscriber")
			x.held = append(x.held[:i], x.held[i+1:]...)
			again = true
			break
		}
	}
}

// release frees a stream's newest or oldest block on behalf of the embedder, through the session or directly.
func (x *sessRun) release(oldest bool, idx int, session bool) {
	p := x.pipe
	if !session || x.closed {
		if oldest {
			p.inner.DiscardHeadPacket(idx)
		} else {
			p.inner.DiscardBackPacket(idx)
		}
		return
	}
	p.asked, p.got, p.gotAt = true, [2]int{}, -1
	defer func() { p.asked = false }()
	want := [2]int{1, 0}
	if oldest {
		want = [2]int{0, 1}
		x.d.DiscardHeadPacket(idx)
	} else {
		x.d.DiscardBackPacket(idx)
	}
	x.o.Count("block released through the session by its user")
	if p.got != want || p.gotAt != idx {
		x.fail("S04", "release-asked-for", "the session was asked to release a block of stream buffer %d (oldest: %v); newest released %d, oldest released %d, of buffer %d", idx, oldest, p.got[0], p.got[1], p.gotAt)
	}
}

func (x *sessRun) libQuiet(f func()) bool {
	if pi := call(f); pi != nil {
		for _, p := range allS {
			x.fail(p, panicKind(pi), "release by the subscriber: %s in %s", pi.Value, pi.Where)
		}
		return false
	}
	return true
}

func (x *sessRun) finish() {
	if !x.stop {
		for _, h := range x.held {
			if !bytes.Equal(h.data, h.want) {
				x.fail("S04", "held-bytes", "delivered message %d changed before the subscriber released it", h.item)
				break
			}
		}
	}
	if !x.stop {
		x.subscriber(0)
	}
	// the stream buffers are reused for something else; announced descriptions must not care
	if !x.stop {
		for _, s := range x.order {
			b := x.bufOf[s]
			for len(x.pipe.live[b]) > 0 {
				if !x.libQuiet(func() { x.pipe.inner.DiscardHeadPacket(b) }) {
					break
				}
				x.pipe.live[b] = x.pipe.live[b][1:]
			}
			junk := bytes.Repeat([]byte{0xA5}, 700)
			x.libQuiet(func() { _, _ = x.pipe.inner.Write(junk, b, utils.AVMediaTypeVideo) })
		}
	}
	if !x.stop {
		for i, t := range x.tracks {
			if t.seen == nil || t.trk == nil {
				continue
			}
			now := snapTrack(t.trk)
			if !now.same(t.seen) {
				x.fail("S05", "description-changed", "the description of track %d changed after it was announced: %+v, was %+v", i, *now, *t.seen)
				break
			}
		}
	}
	if x.closed {
		x.o.Count("closed run")
	}
	if x.comp {
		x.o.Count("completed run")
	}
	if rt.MapRanges > 0 {
		x.o.Stats["map iteration reordered"] += rt.MapRanges
	}
	x.o.Stats["packet object reused"] += rt.PoolReused
	rt.PoolOnGet, rt.PoolOnPut = nil, nil
}

// ---- S05 ----

func (x *sessRun) checkDesc(i int, t *mTrack, g *trkSnap) {
	if g.Index != i {
		x.fail("S01", "index", "track announced in position %d has index %d", i, g.Index)
		return
	}
	if g.Codec != t.codec || g.Media != t.media || g.Timebase != int(x.sc.tb()*1000) {
		x.fail("S05", "identity", "track %d: sent codec %v on %v at time base %d, announced codec %v on %v at time base %d", i, t.codec, t.media, x.sc.tb()*1000, g.Codec, g.Media, g.Timebase)
		return
	}
	d := t.desc
	if d.unknown {
		return
	}
	if d.sets != nil {
		p := d.sets
		if !g.HasPar {
			x.fail("S05", "no-parameters", "track %d has no codec parameters", i)
			return
		}
		if !eqSets(unStart(g.SPS), p.sps) || !eqSets(unStart(g.PPS), p.pps) || !eqSets(unStart(g.VPS), p.vps) {
			x.fail("S05", "parameter-sets", "track %d (%v): sent %d/%d/%d VPS/SPS/PPS, announced sets differ (%d/%d/%d)", i, t.codec, len(p.vps), len(p.sps), len(p.pps), len(g.VPS), len(g.SPS), len(g.PPS))
			return
		}
		if g.W != d.w || g.H != d.h {
			x.fail("S05", "picture-size", "track %d (%v): coded picture size is %dx%d, announced %dx%d", i, t.codec, d.w, d.h, g.W, g.H)
			return
		}
		all := append(append(append([][]byte{}, p.vps...), p.sps...), p.pps...)
		if !eqSets(splitStart(g.AnnexB), all) {
			x.fail("S05", "start-code-form", "track %d (%v): the start-code form does not hold the sent parameter sets", i, t.codec)
			return
		}
		var vps, sps, pps [][]byte
		var ok bool
		if t.codec == utils.AVCodecIdH264 {
			sps, pps, ok = parseAvcC(g.MP4)
		} else {
			vps, sps, pps, ok = parseHvcC(g.MP4)
		}
		if !ok || !eqSets(sps, p.sps) || !eqSets(pps, p.pps) || !eqSets(vps, p.vps) {
			x.fail("S05", "record-form", "track %d (%v): the decoder configuration record does not hold the sent parameter sets (%s)", i, t.codec, clip(g.MP4))
			return
		}
		// the length size the record declares is the one the stream's packets use (or will be repackaged with)
		want, at := 4, map[utils.AVCodecID]int{utils.AVCodecIdH264: 4, utils.AVCodecIdH265: 21}[t.codec]
		if x.sc.avcc() {
			want = lenSize(x.sc.Streams[t.s])
		}
		if got := int(g.MP4[at]&3) + 1; g.MP4[0] != 1 || got != want {
			x.fail("S05", "record-length-size", "track %d (%v): the decoder configuration record has version %d and declares %d-byte unit lengths, packets use %d", i, t.codec, g.MP4[0], got, want)
			return
		}
		if msg := headDiffers(t.codec, d, g); msg != "" {
			x.fail("S05", "record-header", "track %d (%v): %s", i, t.codec, msg)
			return
		}
		// a record built anew from the announced sets
		var rec []byte
		var err error
		if pi := call(func() {
			if t.codec == utils.AVCodecIdH264 {
				rec, err = (&avc.AVCDecoderConfigurationRecord{}).Marshal(cloneBB(g.SPS), cloneBB(g.PPS))
			} else {
				rec, err = (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(cloneBB(g.VPS), cloneBB(g.SPS), cloneBB(g.PPS))
			}
		}); pi != nil {
			x.fail("S05", panicKind(pi), "a configuration record of the announced sets of track %d: %s in %s", i, pi.Value, pi.Where)
			return
		}
		if t.codec == utils.AVCodecIdH264 {
			sps, pps, ok = parseAvcC(rec)
		} else {
			vps, sps, pps, ok = parseHvcC(rec)
		}
		if err != nil || !ok || !eqSets(sps, p.sps) || !eqSets(pps, p.pps) || !eqSets(vps, p.vps) || rec[at]&3 != 3 {
			x.fail("S05", "new-record", "track %d (%v): a configuration record built from the announced parameter sets does not hold them (%v, %s)", i, t.codec, err, clip(rec))
			return
		}
		for _, c := range recordToStartCodes[t.codec] {
			var b []byte
			var err error
			if pi := call(func() { b, err = c.f(cloneB(g.MP4)) }); pi != nil {
				x.fail("S05", panicKind(pi), "%s of the record of track %d: %s in %s", c.name, i, pi.Value, pi.Where)
				return
			}
			if err != nil || !eqSets(splitStart(b), all) {
				x.fail("S05", "record-to-start-codes", "track %d (%v): %s of its configuration record does not hold the sent parameter sets (%v)", i, t.codec, c.name, err)
				return
			}
		}
		return
	}
	if t.media != utils.AVMediaTypeAudio {
		return
	}
	if d.adts != g.ADTS {
		x.fail("S05", "adts-flag", "track %d (%v): frames with ADTS headers sent: %v, announced: %v", i, t.codec, d.adts, g.ADTS)
		return
	}
	if d.chkCh && g.Ch != d.ch {
		x.fail("S05", "channels", "track %d (%v): %d channels were sent, %d announced", i, t.codec, d.ch, g.Ch)
		return
	}
	switch t.codec {
	case utils.AVCodecIdPCMS16LE:
		x.checkRate(i, t, g.Rate, d.declRate, []int{16, 32, 64, 96}, []int{8000, 16000, 32000, 48000})
	case utils.AVCodecIdADPCMG726:
		if g.Rate != d.rate {
			x.fail("S05", "sample-rate", "track %d (%v): declared rate %d, announced %d", i, t.codec, d.rate, g.Rate)
			return
		}
		x.checkRate(i, t, g.BitRate, 0, []int{2, 3, 4, 5}, []int{16000, 24000, 32000, 40000})
	default:
		if d.chkRate && g.Rate != d.rate {
			x.fail("S05", "sample-rate", "track %d (%v): rate %d was sent, %d announced", i, t.codec, d.rate, g.Rate)
		}
	}
}

// hvcMask has the bits of the H.265 record header that carry information.
var hvcMask = []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 0xFF, 0x03, 0x03, 0x07, 0x07, 0xFF, 0xFF, 0xFF}

var recordFieldNames = map[utils.AVCodecID][]string{
	utils.AVCodecIdH264: {"ConfigurationVersion", "AVCProfileIndication", "ProfileCompatibility", "AVCLevelIndication"},
	utils.AVCodecIdH265: {"ConfigurationVersion", "GeneralProfileSpace", "GeneralTierFlag", "GeneralProfileIdc", "GeneralProfileCompatibilityFlags",
		"GeneralConstraintIndicatorFlags", "GeneralLevelIdc", "MinSpatialSegmentationIdc", "ParallelismType", "ChromaFormat", "BitDepthLumaMinus8",
		"BitDepthChromaMinus8", "AvgFrameRate", "ConstantFrameRate", "NumTemporalLayers", "TemporalIdNested"},
}

// recordFields reads the header fields of an announced record.
func recordFields(p avformat.CodecData) string {
	var rec any
	var names []string
	switch c := p.(type) {
	case *avformat.AVCCodecData:
		rec, names = c.Record, recordFieldNames[utils.AVCodecIdH264]
	case *avformat.HEVCCodecData:
		rec, names = c.Record, recordFieldNames[utils.AVCodecIdH265]
	}
	v := reflect.ValueOf(rec)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return ""
	}
	s := ""
	for _, n := range names {
		if f := v.Elem().FieldByName(n); f.IsValid() && f.CanUint() {
			s += fmt.Sprintf("%s=%d ", n, f.Uint())
		}
	}
	return s
}

// sentFields reads the same fields from the record that was sent.
func sentFields(c utils.AVCodecID, b []byte) string {
	n := func(i, k int) (v uint64) {
		for ; k > 0; k-- {
			v = v<<8 | uint64(b[i])
			i++
		}
		return
	}
	l := []uint64{n(0, 1), n(1, 1), n(2, 1), n(3, 1)}
	if c == utils.AVCodecIdH265 {
		l = []uint64{n(0, 1), n(1, 1) >> 6, n(1, 1) >> 5 & 1, n(1, 1) & 31, n(2, 4), n(6, 6), n(12, 1), n(13, 2) & 0xFFF, n(15, 1) & 3, n(16, 1) & 3,
			n(17, 1) & 7, n(18, 1) & 7, n(19, 2), n(21, 1) >> 6, n(21, 1) >> 3 & 7, n(21, 1) >> 2 & 1}
	}
	s := ""
	for i, name := range recordFieldNames[c] {
		s += fmt.Sprintf("%s=%d ", name, l[i])
	}
	return s
}

// headDiffers compares the header of the announced record with the one sent or, without one, with the sequence parameter sets.
func headDiffers(c utils.AVCodecID, d *wantDesc, g *trkSnap) string {
	if d.rec == nil {
		if c == utils.AVCodecIdH264 {
			for _, s := range d.sets.sps {
				if len(s) > 3 && bytes.Equal(s[1:4], g.MP4[1:4]) {
					return ""
				}
			}
			return fmt.Sprintf("the announced record declares profile and level %x, that of no parameter set", g.MP4[1:4])
		}
		return ""
	}
	mask := []byte{0xFF, 0xFF, 0xFF, 0xFF}
	if c == utils.AVCodecIdH265 {
		mask = hvcMask
	}
	for i, m := range mask {
		if g.MP4[i]&m != d.rec[i]&m {
			return fmt.Sprintf("byte %d of the record sent is %#x, of the one announced %#x", i, d.rec[i], g.MP4[i])
		}
	}
	if f := sentFields(c, d.rec); g.Head != "" && g.Head != f {
		return fmt.Sprintf("the fields of the record announced are %s, of the one sent %s", g.Head, f)
	}
	return ""
}

func (x *sessRun) checkRate(i int, t *mTrack, got, decl int, lim, rates []int) {
	var okay []int
	if len(t.list) < 2 {
		okay = []int{decl}
	} else {
		f := t.list[0]
		dur := t.list[1].m.Dts - f.m.Dts
		var ms []int64
		if x.sc.tb() == 1 {
			ms = []int64{dur}
		} else {
			q := dur / x.sc.tb()
			ms = []int64{q, q - 1, q + 1}
		}
		for _, d := range ms {
			if d < 1 {
				okay = append(okay, decl)
				continue
			}
			lo := len(f.data) / int(d)
			hi := (len(f.data) + int(d) - 1) / int(d)
			for _, v := range []int{lo, hi} {
				r := decl
				for k := len(lim) - 1; k >= 0; k-- {
					if v <= lim[k] {
						r = rates[k]
					}
				}
				okay = append(okay, r)
			}
		}
	}
	for _, r := range okay {
		if r == got {
			x.o.Count("rate estimated")
			return
		}
	}
	first := 0
	if len(t.list) > 0 {
		first = len(t.list[0].data)
	}
	x.fail("S05", "estimated-rate", "track %d (%v): first buffered frame has %d bytes, %d frames buffered; announced rate %d, acceptable %v", i, t.codec, first, len(t.list), got, okay)
}

// ---- S07: the same feed cut differently, on other buffers, with other recycling and another clock ----

func recut(rx []rxEv, items []built, seed uint64) []rxEv {
	r := NewRng("cut", seed)
	var out []rxEv
	for _, e := range rx {
		switch e.Op {
		case "w", "drop":
			continue
		case "end":
			d := items[e.M].data
			if d != nil {
				for {
					k := len(d)
					if k > 1 && r.P(50) {
						k = 1 + r.N(k-1)
					}
					out = append(out, rxEv{T: e.T, Op: "w", S: e.S, M: e.M, Data: d[:k]})
					d = d[k:]
					if len(d) == 0 {
						break
					}
				}
			}
		}
		out = append(out, e)
	}
	return out
}
