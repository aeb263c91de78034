package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "dump" (F01): a series of dumps to the same path on one simulated disk. Each dump is a real file handler fed
// directly or by a real session; disk operations fail, transfer short, run out of space or crash the process at
// numbered points. After every packet the files are compared with what the delivered packets demand.

type DmPkt struct {
	T    int     `json:"t"`
	Key  bool    `json:"k,omitempty"`
	Sets int     `json:"sets,omitempty"`
	Nals []RpNal `json:"nals,omitempty"`
	N    int     `json:"n,omitempty"` // payload size for other media
}

type DmTrack struct {
	RpTrack
	Audio bool `json:"au,omitempty"`
}

type Dump struct {
	Sess   bool        `json:"sess,omitempty"` // fed by a real session instead of directly
	Tracks []DmTrack   `json:"tracks"`
	Pkts   []DmPkt     `json:"pkts"`
	Probe  int         `json:"probe"`           // session: probe ends after this many frames
	Fault  map[int]int `json:"fault,omitempty"` // disk operation of this dump -> fault kind
	Stop   int         `json:"stop"`            // the process dies after this many packets; -1 never
}

type DumpScenario struct {
	Env   uint64 `json:"env"`
	Pool  int    `json:"pool"`
	Dumps []Dump `json:"dumps"`
}

type dumpWorld struct{}

func init() { register("F01", dumpWorld{}, 500000, 5000) }

func (dumpWorld) New() interface{} { return &DumpScenario{} }
func (dumpWorld) Rule(string) string {
	return "1-4 successive dumps to one path, 1-3 tracks each (H.264/H.265 in both packagings, VP8, audio), fed directly or by a real session, with write errors, short writes, full disk, failing opens and process crashes at random disk operations and crashes between packets; every file compared after every packet; non-trivial: a fault fired or a path was dumped to twice"
}
func (dumpWorld) Real() []string {
	return []string{"avformat.OnUnpackStream2FileHandler", "avformat.OnUnpackStreamLogger", "avformat.AVCCPacket2AnnexB", "avformat.BaseDemuxer (session-fed dumps)", "avformat.StreamsBuffer"}
}
func (dumpWorld) Stub() []string {
	return []string{"file system (simulated disk)", "console output"}
}

func (dumpWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &DumpScenario{Env: r.U(), Pool: r.N(5)}
	nd := 1 + r.Skew(4)
	var prev []DmTrack
	for d := 0; d < nd; d++ {
		du := Dump{Stop: -1, Probe: r.N(6), Sess: r.P(35)}
		if prev != nil && r.P(60) {
			du.Tracks = append(du.Tracks, prev...)
			if du.Sess && len(du.Tracks) > 2 {
				du.Sess = false
			}
		} else {
			nt := 1 + r.Skew(3)
			if r.P(2) {
				nt = r.In(4, 24)
			}
			for i := nt; i > 0; i-- {
				t := DmTrack{Audio: r.P(40)}
				if t.Audio {
					t.Codec = []string{"aac", "alaw", "mp3", "opus", "g726", "pcm"}[r.N(6)]
				} else {
					t.RpTrack = RpTrack{Codec: []string{"h264", "h265", "h264", "h265", "vp8"}[r.N(5)], AVCC: r.P(60), Seed: r.N(1 << 20), NS: 1 + r.Skew(3), NP: 1 + r.Skew(3), LS: 4}
					if !t.AVCC {
						t.NS, t.NP = 1, 1
					}
					if t.Codec != "vp8" && t.AVCC {
						t.LS = []int{4, 4, 2, 1}[r.N(4)]
					}
				}
				du.Tracks = append(du.Tracks, t)
			}
			if du.Sess {
				// a session takes one video and one audio track of matching packaging here
				var l []DmTrack
				seen := map[bool]bool{}
				for _, t := range du.Tracks {
					if !seen[t.Audio] && t.Codec != "vp8" {
						seen[t.Audio] = true
						l = append(l, t)
					}
				}
				du.Tracks = l
				du.Sess = len(l) > 0
			}
			prev = du.Tracks
		}
		if len(du.Tracks) == 0 {
			du.Tracks = []DmTrack{{RpTrack: RpTrack{Codec: "alaw"}, Audio: true}}
		}
		n := r.Skew(14)
		if big {
			n = r.Skew(60)
		}
		for i := 0; i < n; i++ {
			p := DmPkt{T: r.N(len(du.Tracks))}
			t := du.Tracks[p.T]
			if t.Audio || t.Codec == "vp8" {
				p.N = r.Skew(60)
				if r.P(1) {
					p.N = r.Skew(30000)
					if r.N(20) == 0 {
						p.N = r.In(60000, 300000)
					}
				}
				p.Key = t.Codec == "vp8" && r.P(40)
			} else {
				p.Key = r.P(35)
				if p.Key && r.P(50) {
					p.Sets = 1
				}
				for k := 1 + r.Skew(4); k > 0; k-- {
					max := 30
					if r.P(3) {
						max = 1500
						if r.P(25) {
							max = 20000
						}
						if r.N(30) == 0 && t.LS == 4 {
							max = 400000
						}
					}
					p.Nals = append(p.Nals, RpNal{T: rpType(r, t.RpTrack, p.Key, k), N: minI(r.Skew(max), map[bool]int{true: 150, false: 1 << 20}[t.LS == 1]), S: r.N(1 << 16)})
				}
			}
			du.Pkts = append(du.Pkts, p)
		}
		if r.P(35) {
			du.Fault = map[int]int{}
			for k := 1 + r.Skew(2); k > 0; k-- {
				du.Fault[1+r.N(len(du.Tracks)+n+3)] = r.In(1, 4)
			}
		}
		if r.P(25) {
			du.Stop = r.N(n + 1)
		}
		sc.Dumps = append(sc.Dumps, du)
	}
	return sc
}

type dumpFile struct {
	path   string
	prev   []byte // accepted content so far
	sets   [][]byte
	codec  string
	avcc   bool
	ls     int
	opened bool
}

// dumper stands between the library and the real handler: it checks the disk around every callback.
type dumper struct {
	o     *Outcome
	h     *avformat.OnUnpackStream2FileHandler
	dir   string
	files []*dumpFile
	descs []DmTrack
	sets  [][][]byte
	n     int
	what  string
	// state of the callback in progress
	ended string // why the dump ended: fault, crash
}

const simLevelReal = 2 // from this instrumentation level on the real file system is used

func (x *dumper) read(f *dumpFile) ([]byte, os.FileMode, bool) {
	if rt.Level >= simLevelReal {
		b, err := os.ReadFile(f.path)
		st, _ := os.Stat(f.path)
		if err != nil || st == nil {
			return nil, 0, false
		}
		return b, st.Mode(), true
	}
	ino := rt.Files[f.path]
	if ino == nil {
		return nil, 0, false
	}
	return ino.Data, ino.Mode, true
}

// find locates the file a track was dumped to.
func (x *dumper) find(opensBefore int, index int) string {
	if rt.Level >= simLevelReal {
		l, _ := filepath.Glob(filepath.Join(x.dir, "*"))
		for _, n := range l {
			if strings.Contains(filepath.Base(n), fmt.Sprintf(".%d.", index)) {
				return n
			}
		}
		return ""
	}
	if rt.OpenCount > opensBefore {
		return rt.LastOpen
	}
	return ""
}

// guard runs one handler callback; it reports false if the dump ended in it.
type dumpStop struct{}

func (x *dumper) guard(what string, f func()) {
	var fired int
	for _, n := range rt.DiskFired {
		fired += n
	}
	full := rt.DiskFull
	var pv interface{}
	panicked := true
	var pi *rt.PanicInfo
	func() {
		defer func() {
			if panicked {
				pv = recover()
				pi = rt.Describe(pv)
			}
		}()
		f()
		panicked = false
	}()
	if !panicked {
		return
	}
	if _, ok := pv.(rt.CrashError); ok {
		x.o.Count("crash inside a disk operation")
		x.ended = "crash"
		panic(dumpStop{})
	}
	if pi.Aborted || (!pi.InLib && !pi.Hang) {
		panic(pv)
	}
	for _, n := range rt.DiskFired {
		fired -= n
	}
	if (fired != 0 || full) && !pi.Hang {
		x.o.Count("handler stopped loudly")
		x.ended = "fault"
		panic(dumpStop{})
	}
	x.o.Fail("F01", panicKind(pi), "%s without any disk fault: %s in %s", what, pi.Value, pi.Where)
	x.ended = "violation"
	panic(dumpStop{})
}

func (x *dumper) OnNewTrack(t avformat.Track) {
	before := rt.OpenCount
	x.guard("OnNewTrack", func() { x.h.OnNewTrack(t) })
	s := t.GetStream()
	f := &dumpFile{codec: "other"}
	if s.Index >= 0 && s.Index < len(x.descs) {
		d := x.descs[s.Index]
		f.codec, f.avcc, f.ls = d.Codec, d.AVCC, d.LS
		f.sets = x.sets[s.Index]
	}
	if s.CodecParameters == nil {
		f.sets = nil
	}
	f.path = x.find(before, s.Index)
	if f.path == "" && rt.Level < simLevelReal && rt.DiskFired[rt.FaultError]+rt.DiskFired[rt.FaultShort]+rt.DiskFired[rt.FaultFull] > 0 {
		x.o.Fail("F01", "open-ignored", "the file of track %d could not be opened and the handler went on", s.Index)
		x.ended = "violation"
		panic(dumpStop{})
	}
	x.files = append(x.files, f)
	x.o.LogN("nt", s.Index)
}

func (x *dumper) OnTrackComplete() { x.guard("OnTrackComplete", func() { x.h.OnTrackComplete() }) }
func (x *dumper) OnTrackNotFind()  { x.guard("OnTrackNotFind", func() { x.h.OnTrackNotFind() }) }

func (x *dumper) OnPacket(p *avformat.AVPacket) {
	data := cloneB(p.Data)
	index, key, media, pt := p.Index, p.Key, p.MediaType, p.PacketType
	before := rt.OpenCount
	x.guard("OnPacket", func() { x.h.OnPacket(p) })
	if index < 0 || index >= len(x.files) {
		bug("packet of unknown track %d", index)
	}
	f := x.files[index]
	if f.path == "" {
		f.path = x.find(before, index)
	}
	x.n++
	x.o.LogN("pkt", index, len(data))
	msg := x.judge(f, data, key, media == utils.AVMediaTypeVideo && (f.codec == "h264" || f.codec == "h265"), pt == avformat.PacketTypeAVCC)
	if msg == "" {
		for i, g := range x.files {
			if g == f || g.path == "" {
				continue
			}
			c, _, ok := x.read(g)
			if !ok || !bytes.Equal(c, g.prev) {
				msg = fmt.Sprintf("a packet of track %d changed the file of track %d", index, i)
				break
			}
		}
	}
	if msg != "" {
		kind := "content"
		if rt.DiskFired[1]+rt.DiskFired[2]+rt.DiskFired[3] > 0 {
			kind = "silent-hole"
		}
		x.o.Fail("F01", kind, "%s, packet %d (track %d, %s, %d bytes, key=%v): %s", x.what, x.n-1, index, f.codec, len(data), key, msg)
		x.ended = "violation"
		panic(dumpStop{})
	}
}

// judge checks what one packet appended to its file.
func (x *dumper) judge(f *dumpFile, data []byte, key, nal, avcc bool) string {
	c, mode, ok := x.read(f)
	if !ok {
		return "there is no file"
	}
	if mode&0600 != 0600 {
		return fmt.Sprintf("file mode %#o does not let its owner read and write it", mode.Perm())
	}
	if len(c) < len(f.prev) || !bytes.Equal(c[:len(f.prev)], f.prev) {
		return fmt.Sprintf("the file no longer starts with the %d bytes dumped before", len(f.prev))
	}
	got := c[len(f.prev):]
	if !nal {
		if !bytes.Equal(got, data) {
			return fmt.Sprintf("the file grew by %s instead of the payload %s", clip(got), clip(data))
		}
		f.prev = cloneB(c)
		return ""
	}
	have := splitStart(got)
	if len(got) > 0 && !bytes.HasPrefix(got, []byte{0, 0, 1}) && !bytes.HasPrefix(got, []byte{0, 0, 0, 1}) {
		return fmt.Sprintf("the file grew by %s, which does not begin with a start code", clip(got))
	}
	var nals [][]byte
	if avcc {
		l, _ := splitLength(data, f.ls)
		for _, n := range l {
			if f.codec == "h264" && n[0]&31 == 6 {
				continue
			}
			nals = append(nals, n)
		}
	} else {
		nals = splitStart(data)
	}
	var want [][][]byte
	with := func(k int) [][]byte {
		var l [][]byte
		for ; k > 0; k-- {
			l = append(l, f.sets...)
		}
		return append(l, nals...)
	}
	switch {
	case !key || len(f.sets) == 0:
		want = [][][]byte{nals}
	case avcc:
		want = [][][]byte{with(1), with(2)}
	case len(nals) >= len(f.sets) && eqSets(nals[:len(f.sets)], f.sets):
		want = [][][]byte{nals, with(1)}
	default:
		want = [][][]byte{with(1)}
	}
	for _, w := range want {
		if eqSets(have, w) {
			f.prev = cloneB(c)
			return ""
		}
	}
	return fmt.Sprintf("the file grew by %d NAL units (%s), the packet has %d plus %d parameter sets", len(have), clip(got), len(nals), len(f.sets))
}

func (dumpWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*DumpScenario)
	rt.SeedEnv(sc.Env)
	rt.PoolMode = clampI(sc.Pool, 0, 4)
	rt.ResetDisk()
	dir := "/dump"
	if rt.Level >= simLevelReal {
		d, err := os.MkdirTemp("", "simdump")
		if err != nil {
			bug("scratch directory: %v", err)
		}
		defer os.RemoveAll(d)
		dir = d
	}
	single(func() { dumpAll(sc, dir, o) })
}

func dumpAll(sc *DumpScenario, dir string, o *Outcome) {
	o.Trivial = true
	for di := range sc.Dumps {
		d := &sc.Dumps[di]
		if len(d.Tracks) == 0 || len(d.Tracks) > 64 {
			continue
		}
		rt.DiskFull, rt.DiskOps = false, 0
		rt.DiskFired = [5]int{}
		rt.DiskFault = d.Fault
		if di > 0 {
			o.Trivial = false
			o.Count("dump to a path used before")
		}
		x := &dumper{o: o, dir: dir, h: &avformat.OnUnpackStream2FileHandler{Path: filepath.Join(dir, "x")}, what: fmt.Sprintf("dump %d", di)}
		x.run(d)
		for k, n := range rt.DiskFired {
			if n > 0 {
				o.Trivial = false
				o.Stats[[]string{"", "disk error", "short write", "disk full", "crash point"}[k]] += n
			}
		}
		if len(o.V) > 0 {
			return
		}
		o.LogS("dump ended " + x.ended)
	}
}

// run performs one dump; a panic of the wrapper ends it.
func (x *dumper) run(d *Dump) {
	for i := range d.Tracks {
		t := &d.Tracks[i]
		if t.LS != 1 && t.LS != 2 {
			t.LS = 4
		}
		var sets [][]byte
		if t.Codec == "h264" || t.Codec == "h265" {
			ps := makeSets(t.Codec, t.Seed, clampI(t.NS, 1, 31), clampI(t.NP, 1, 255))
			if !t.AVCC {
				ps.vps = ps.vps[:minI(len(ps.vps), 1)]
			}
			sets = append(append(append(sets, ps.vps...), ps.sps...), ps.pps...)
		}
		x.sets = append(x.sets, sets)
		x.descs = append(x.descs, *t)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(dumpStop); !ok {
					panic(r)
				}
			}
		}()
		if d.Sess && sessionFits(d) {
			x.session(d)
		} else {
			x.direct(d)
		}
	}()
	if x.ended != "" {
		return
	}
	// nothing delivered after this point: every file is exactly what was accepted
	for i, f := range x.files {
		if f.path == "" {
			continue
		}
		c, _, ok := x.read(f)
		if !ok || !bytes.Equal(c, f.prev) {
			x.o.Fail("F01", "leftover", "%s: the file of track %d holds %d bytes although %d were dumped", x.what, i, len(c), len(f.prev))
			return
		}
	}
}

func (x *dumper) payload(d *Dump, i int) []byte {
	p := d.Pkts[i]
	t := d.Tracks[p.T]
	if t.Audio || t.Codec == "vp8" {
		return pattern(uint64(i)*131+uint64(t.Seed), clampI(p.N, 0, 1<<19))
	}
	var nals [][]byte
	if p.Key && p.Sets > 0 {
		nals = append(nals, x.sets[p.T]...)
	}
	for _, n := range p.Nals {
		b := t.nal(n)
		if lim := 1<<(8*uint(t.LS)) - 1; t.AVCC && t.LS < 4 && len(b) > lim {
			b = append(append([]byte{}, b[:lim-1]...), 1)
		}
		nals = append(nals, b)
	}
	if t.AVCC {
		var l [][]byte
		for _, n := range nals {
			if t.LS < 4 && len(n) >= 1<<(8*uint(t.LS)) {
				continue
			}
			l = append(l, n)
		}
		return lengthPrefixed(l, t.LS)
	}
	return startCodes(NewRng("dump", i), nals)
}

func (x *dumper) direct(d *Dump) {
	for i, t := range d.Tracks {
		var s *avformat.AVStream
		if t.Audio {
			s = avformat.NewAVStream(utils.AVMediaTypeAudio, i, codecID(t.Codec), nil, nil)
		} else {
			var err error
			ps := makeSets(map[bool]string{true: "h265", false: "h264"}[t.Codec == "h265"], t.Seed, clampI(t.NS, 1, 31), clampI(t.NP, 1, 255))
			if !t.AVCC {
				ps.vps = ps.vps[:minI(len(ps.vps), 1)]
			}
			if pi := call(func() { s, err = rpStream(t.RpTrack, i, ps) }); pi != nil || err != nil {
				x.o.Fail("F01", "setup", "building the stream description of valid parameter sets failed: %v %v", pi, err)
				panic(dumpStop{})
			}
		}
		x.OnNewTrack(&avformat.SimpleTrack{Stream: s})
	}
	x.OnTrackComplete()
	for i, p := range d.Pkts {
		if d.Stop >= 0 && i >= d.Stop {
			x.o.Count("crash between packets")
			x.o.Trivial = false
			x.ended = "crash"
			return
		}
		if p.T < 0 || p.T >= len(d.Tracks) {
			continue
		}
		t := d.Tracks[p.T]
		data := x.payload(d, i)
		x.feed("packet", func() {
			var pkt *avformat.AVPacket
			if t.Audio {
				pkt = avformat.NewAudioPacket(data, int64(i)*20, codecID(t.Codec), p.T, 1000)
			} else {
				pt := avformat.PacketTypeAnnexB
				if t.AVCC {
					pt = avformat.PacketTypeAVCC
				}
				pkt = avformat.NewVideoPacket(data, int64(i)*20, int64(i)*20, p.Key, pt, codecID(t.Codec), p.T, 1000)
			}
			x.OnPacket(pkt)
			avformat.FreePacket(pkt)
		})
	}
}

// feed runs library code around the handler; its panics are failures of the dump unless the dump ended on purpose.
func (x *dumper) feed(what string, f func()) {
	rt.ResetBudget()
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, stop := r.(dumpStop); stop {
			panic(r)
		}
		pi := rt.Describe(r)
		if h, isH := r.(HarnessError); isH || pi.Aborted || (!pi.InLib && !pi.Hang) {
			if isH {
				panic(h)
			}
			panic(r)
		}
		x.o.Fail("F01", panicKind(pi), "%s, %s: %s in %s", x.what, what, pi.Value, pi.Where)
		x.ended = "violation"
		panic(dumpStop{})
	}()
	f()
	ok = true
}

func sessionFits(d *Dump) bool {
	na, nv := 0, 0
	for _, t := range d.Tracks {
		if t.Audio {
			na++
		} else {
			nv++
			if t.Codec == "vp8" {
				return false
			}
		}
	}
	return na <= 1 && nv <= 1
}

// session feeds the dump through a real demuxing session.
func (x *dumper) session(d *Dump) {
	name := "ts"
	for _, t := range d.Tracks {
		if !t.Audio && t.AVCC {
			name = "flv"
		}
	}
	s := &avformat.BaseDemuxer{Name: name, DataPipeline: &avformat.StreamsBuffer{}, AutoFree: true}
	s.SetHandler(x)
	buf := make([]int, len(d.Tracks))
	sub := x.feed
	// configuration first, so that track order is the order of this list
	for i, t := range d.Tracks {
		buf[i] = s.FindBufferIndex(marker(t.Seed, i))
		var cfg []byte
		mt := utils.AVMediaTypeAudio
		switch {
		case t.Audio:
			if t.Codec == "aac" {
				cfg = asc(4, 2, false)
			}
		case t.AVCC:
			mt = utils.AVMediaTypeVideo
			ps := makeSets(t.Codec, t.Seed, clampI(t.NS, 1, 31), clampI(t.NP, 1, 255))
			if t.Codec == "h264" {
				cfg = avcC(ps, t.LS, NewRng("avcC", t.Seed))
			} else {
				cfg = hvcC(ps, t.LS, NewRng("hvcC", t.Seed))
			}
		default:
			mt = utils.AVMediaTypeVideo
			cfg = startCodes(NewRng("key", t.Seed), x.sets[i])
		}
		var data []byte
		if len(cfg) > 0 {
			_, _ = s.DataPipeline.Write(cfg, buf[i], mt)
			data, _ = s.DataPipeline.Fetch(buf[i])
		}
		sub("configuration", func() {
			if t.Audio {
				s.OnNewAudioTrack(buf[i], codecID(t.Codec), 1000, data, avformat.AudioConfig{SampleRate: 8000, Channels: 1})
			} else {
				s.OnNewVideoTrack(buf[i], codecID(t.Codec), 1000, data)
			}
		})
	}
	if s.Tracks.Size() != len(d.Tracks) {
		x.ended = "session refused a track" // S05 decides that
		return
	}
	for i, p := range d.Pkts {
		if d.Stop >= 0 && i >= d.Stop {
			x.o.Count("crash between packets")
			x.o.Trivial = false
			x.ended = "crash"
			return
		}
		if p.T < 0 || p.T >= len(d.Tracks) {
			continue
		}
		t := d.Tracks[p.T]
		b := x.payload(d, i)
		if len(b) == 0 {
			continue
		}
		if i == d.Probe {
			sub("probe", s.ProbeComplete)
		}
		mt := utils.AVMediaTypeAudio
		if !t.Audio {
			mt = utils.AVMediaTypeVideo
		}
		_, _ = s.DataPipeline.Write(b, buf[p.T], mt)
		data, _ := s.DataPipeline.Fetch(buf[p.T])
		sub("frame", func() {
			if t.Audio {
				s.OnAudioPacket(buf[p.T], codecID(t.Codec), data, int64(i)*20)
			} else {
				s.OnVideoPacket(buf[p.T], codecID(t.Codec), data, p.Key, int64(i)*20, int64(i)*20, s.GetPackType())
			}
		})
	}
	sub("probe", s.ProbeComplete)
}
