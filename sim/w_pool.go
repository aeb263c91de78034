package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "pool" (P02): threads take packets from the constructors, use them (set fields, convert, hand them to another
// thread) and free them, preempted at any statement, under every recycling policy of the pool. Oracle: the arguments
// passed, the field values of a never-recycled packet for everything else, and the identity of every object in use.

type PoolOp struct {
	Op  string  `json:"o"` // a audio, v video, x free, c convert, u use fields, g give away, t take over
	S   int     `json:"s"` // slot of the thread
	T   int     `json:"t,omitempty"`
	Key bool    `json:"k,omitempty"`
	N   int     `json:"n,omitempty"`
	W   int     `json:"w,omitempty"` // free: the user overwrote the fields before (1 all but the kind, 2 all)
	Nal []RpNal `json:"nal,omitempty"`
}

type PoolScenario struct {
	Env     uint64      `json:"env"`
	Pool    int         `json:"pool"`
	Tracks  []RpTrack   `json:"tracks"`
	Plan    []rt.Switch `json:"plan"`
	Threads [][]PoolOp  `json:"threads"`
}

type poolWorld struct{}

func init() { register("P02", poolWorld{}, 800000, 8000) }

func (poolWorld) New() interface{} { return &PoolScenario{} }
func (poolWorld) Rule(string) string {
	return "1-4 threads with up to 30 operations each (construct audio/video, use, convert, free, hand over to another thread) under 5 recycling policies and up to 40 planned preemptions at statement granularity; non-trivial: a constructor returned a recycled object"
}
func (poolWorld) Real() []string {
	return []string{"avformat.NewAudioPacket", "avformat.NewVideoPacket", "avformat.FreePacket", "avformat.AVCCPacket2AnnexB", "avformat.AnnexBPacket2AVCC"}
}
func (poolWorld) Stub() []string { return []string{"sync.Pool policy", "thread scheduler"} }

func (poolWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &PoolScenario{Env: r.U(), Pool: []int{0, 0, 1, 2, 4}[r.N(5)]}
	for i := 0; i < 2; i++ {
		sc.Tracks = append(sc.Tracks, RpTrack{Codec: []string{"h264", "h265"}[r.N(2)], AVCC: i == 0, Seed: r.N(64), NS: 1, NP: 1, LS: 4})
	}
	nt := 1 + r.Skew(4)
	for t := 0; t < nt; t++ {
		var ops []PoolOp
		n := 3 + r.Skew(27)
		if big {
			n *= 3
		}
		slots := r.In(1, 4)
		for i := 0; i < n; i++ {
			op := PoolOp{S: r.N(slots)}
			if r.P(30) {
				op.W = r.In(1, 2)
			}
			switch x := r.N(100); {
			case x < 15:
				op.Op, op.N, op.T = "a", r.N(20), r.N(1000)
				if r.N(60) == 0 {
					op.N = r.N(8000)
				}
			case x < 45:
				op.Op, op.T, op.Key = "v", r.N(len(sc.Tracks)), r.P(40)
				for k := 1 + r.Skew(3); k > 0; k-- {
					op.Nal = append(op.Nal, RpNal{T: rpType(r, sc.Tracks[op.T], op.Key, 0), N: r.N(12), S: r.N(1000)})
				}
				if r.N(60) == 0 {
					op.Nal[0].N = []int{r.N(300), r.N(6000), r.N(20000)}[r.N(3)]
				}
			case x < 65:
				op.Op = "x"
			case x < 80:
				op.Op = "c"
			case x < 90:
				op.Op, op.N = "u", r.In(1, 1000)
			case x < 95:
				op.Op = "g"
			default:
				op.Op = "t"
			}
			ops = append(ops, op)
		}
		sc.Threads = append(sc.Threads, ops)
	}
	if nt > 1 {
		sc.Plan = genPlan(r, 40, 200)
	}
	return sc
}

type poolPkt struct {
	rpPkt
	audio   bool
	ts      int64
	id      utils.AVCodecID
	index   int
	pt      avformat.PacketType
	res     [2][]byte
	resCopy [2][]byte
	conv    [2]bool
	user    int
	used    bool
}

var poolArgs = map[bool]map[string]bool{
	true:  {"Data": true, "Pts": true, "Dts": true, "CodecID": true, "Index": true, "Timebase": true, "MediaType": true},
	false: {"Data": true, "Pts": true, "Dts": true, "CodecID": true, "Index": true, "Timebase": true, "MediaType": true, "Key": true, "PacketType": true},
}

// neutral compares every exported field that is not a constructor argument with a never-recycled packet.
func neutral(got, fresh *avformat.AVPacket, audio bool) string {
	a, b := reflect.ValueOf(got).Elem(), reflect.ValueOf(fresh).Elem()
	for i := 0; i < a.NumField(); i++ {
		f := a.Type().Field(i)
		if f.PkgPath != "" || poolArgs[audio][f.Name] {
			continue
		}
		x, y := a.Field(i), b.Field(i)
		switch f.Type.Kind() {
		case reflect.Func, reflect.Map, reflect.Ptr, reflect.Chan, reflect.Interface:
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s is %v", f.Name, map[bool]string{true: "nil", false: "set"}[x.IsNil()])
			}
		case reflect.Slice:
			if x.Len() != y.Len() {
				return fmt.Sprintf("%s has %d elements, a fresh packet %d", f.Name, x.Len(), y.Len())
			}
		default:
			if !reflect.DeepEqual(x.Interface(), y.Interface()) {
				return fmt.Sprintf("%s is %v, in a fresh packet %v", f.Name, x.Interface(), y.Interface())
			}
		}
	}
	return ""
}

func (p *poolPkt) attrs() string {
	k := p.pkt
	md := utils.AVMediaTypeVideo
	if p.audio {
		md = utils.AVMediaTypeAudio
	}
	switch {
	case len(k.Data) != len(p.copy) || !bytes.Equal(k.Data, p.copy):
		return "payload"
	case k.Dts != p.ts || (p.audio && k.Pts != p.ts) || (!p.audio && k.Pts != p.ts+7):
		return fmt.Sprintf("timestamps %d/%d", k.Dts, k.Pts)
	case k.CodecID != p.id:
		return fmt.Sprintf("codec %v", k.CodecID)
	case k.Index != p.index:
		return fmt.Sprintf("index %d", k.Index)
	case k.Timebase != 1000+p.index:
		return fmt.Sprintf("time base %d", k.Timebase)
	case k.MediaType != md:
		return fmt.Sprintf("media type %v", k.MediaType)
	case !p.audio && k.Key != p.key:
		return fmt.Sprintf("key flag %v", k.Key)
	case !p.audio && k.PacketType != p.pt:
		return fmt.Sprintf("packaging %v", k.PacketType)
	case p.used && (k.Duration != int64(p.user) || k.BufferIndex != p.user || k.CreatedTime != int64(p.user)):
		return "fields set by the user"
	}
	return ""
}

func (poolWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*PoolScenario)
	rt.SeedEnv(sc.Env)
	o.Trivial = true
	var freshA, freshV *avformat.AVPacket
	streams := map[int]*avformat.AVStream{}
	var sets [][][]byte
	rt.PoolMode = 3
	single(func() {
		if pi := call(func() {
			freshA = avformat.NewAudioPacket(nil, 0, 0, 0, 0)
			freshV = avformat.NewVideoPacket(nil, 0, 0, false, avformat.PacketTypeAnnexB, 0, 0, 0)
		}); pi != nil {
			o.Fail("P02", panicKind(pi), "constructor: %s in %s", pi.Value, pi.Where)
			return
		}
		for _, f := range []*avformat.AVPacket{freshA, freshV} {
			if f.Duration != 0 || f.BufferIndex != 0 || f.OnBufferAlloc != nil || f.Key || f.CreatedTime != 0 {
				o.Fail("P02", "fresh", "a never-used packet does not carry neutral values: %+v", snapPkt(f))
				return
			}
		}
		for i := range sc.Tracks {
			t := &sc.Tracks[i]
			t.NS, t.NP, t.LS, t.NoCfg = 1, 1, 4, false
			if t.Codec != "h265" {
				t.Codec = "h264"
			}
			ps := makeSets(t.Codec, t.Seed, 1, 1)
			if len(ps.vps) > 1 {
				ps.vps = ps.vps[:1]
			}
			s, err := rpStream(*t, i, ps)
			if err != nil {
				o.Fail("P02", "setup", "stream description: %v", err)
				return
			}
			streams[i] = s
			sets = append(sets, append(append(append([][]byte{}, ps.vps...), ps.sps...), ps.pps...))
		}
	})
	if len(o.V) > 0 || freshA == nil || freshV == nil {
		return
	}
	rt.PoolMode = clampI(sc.Pool, 0, 4)
	inUse := map[*avformat.AVPacket]int{}
	ever := map[*avformat.AVPacket]bool{}
	var handed []*poolPkt
	serial := 0
	var bodies []func()
	for ti := range sc.Threads {
		ti := ti
		bodies = append(bodies, func() {
			slots := map[int]*poolPkt{}
			free := func(p *poolPkt, scribble int) bool {
				if scribble > 0 { // the user may have left anything in it
					k := p.pkt
					k.Duration, k.BufferIndex, k.CreatedTime, k.Index, k.Timebase = 11, 12, 13, 14, 15
					k.Key, k.Pts, k.Dts, k.Data = true, 16, 17, []byte{18}
					k.OnBufferAlloc = func(n int) []byte { return bytes.Repeat([]byte{0xB9}, n) }
					if scribble > 1 {
						k.MediaType, k.CodecID, k.PacketType = utils.AVMediaTypeSubtitle, utils.AVCodecIdVP9, avformat.PacketTypeAVCC
					}
					o.Count("freed with foreign values in every field")
				}
				delete(inUse, p.pkt) // the thread gives it up here
				if pi := call(func() { avformat.FreePacket(p.pkt) }); pi != nil {
					o.Fail("P02", panicKind(pi), "FreePacket: %s in %s", pi.Value, pi.Where)
					return false
				}
				return true
			}
			for i, op := range sc.Threads[ti] {
				if len(o.V) > 0 {
					return
				}
				p := slots[op.S]
				switch op.Op {
				case "a", "v":
					if p != nil {
						slots[op.S] = nil
						if !free(p, op.W) {
							return
						}
					}
					serial++
					np := &poolPkt{audio: op.Op == "a", ts: int64(serial), index: clampI(op.T, 0, 1000)}
					var pi *rt.PanicInfo
					if np.audio {
						np.payload = pattern(uint64(serial), clampI(op.N, 0, 8000))
						np.copy = cloneB(np.payload)
						np.id = codecID([]string{"aac", "alaw", "opus"}[serial%3])
						pi = call(func() {
							np.pkt = avformat.NewAudioPacket(np.payload, np.ts, np.id, np.index, 1000+np.index)
						})
					} else {
						if op.T < 0 || op.T >= len(sc.Tracks) {
							continue
						}
						t := sc.Tracks[op.T]
						np.id, np.key, np.pt = codecID(t.Codec), op.Key, avformat.PacketTypeAnnexB
						for _, n := range op.Nal {
							np.nals = append(np.nals, t.nal(n))
						}
						if t.AVCC {
							np.pt = avformat.PacketTypeAVCC
							np.payload = lengthPrefixed(np.nals, 4)
						} else {
							np.payload = startCodes(NewRng("pool", op.S, i), np.nals)
						}
						np.copy = cloneB(np.payload)
						pi = call(func() {
							np.pkt = avformat.NewVideoPacket(np.payload, np.ts, np.ts+7, np.key, np.pt, np.id, np.index, 1000+np.index)
						})
					}
					if pi != nil {
						o.Fail("P02", panicKind(pi), "constructor: %s in %s", pi.Value, pi.Where)
						return
					}
					if who, ok := inUse[np.pkt]; ok {
						o.Fail("P02", "shared-object", "thread %d got a packet object that thread %d is still using", ti, who)
						return
					}
					inUse[np.pkt] = ti
					if ever[np.pkt] {
						o.Trivial = false
						o.Count("recycled object")
						np.recycled = true
					}
					ever[np.pkt] = true
					fresh := freshV
					if np.audio {
						fresh = freshA
					}
					if msg := np.attrs(); msg != "" {
						o.Fail("P02", "attributes", "thread %d: new packet (recycled=%v) carries the wrong %s", ti, np.recycled, msg)
						return
					}
					if msg := neutral(np.pkt, fresh, np.audio); msg != "" {
						o.Fail("P02", "not-neutral", "thread %d: new packet (recycled=%v): %s", ti, np.recycled, msg)
						return
					}
					slots[op.S] = np
				case "x":
					if p == nil {
						continue
					}
					slots[op.S] = nil
					if !free(p, op.W) {
						return
					}
				case "u":
					if p == nil {
						continue
					}
					p.used, p.user = true, op.N
					p.pkt.Duration, p.pkt.BufferIndex, p.pkt.CreatedTime = int64(op.N), op.N, int64(op.N)
					if op.N%2 == 0 && !p.conv[0] && !p.conv[1] {
						p.pkt.OnBufferAlloc = func(n int) []byte { return bytes.Repeat([]byte{0xB7}, n) }
					}
				case "c":
					if p == nil || p.audio {
						continue
					}
					t := sc.Tracks[p.index]
					for d := 0; d < 2; d++ {
						var got []byte
						if pi := call(func() {
							if d == 0 {
								got = avformat.AVCCPacket2AnnexB(streams[p.index], p.pkt)
							} else {
								got = avformat.AnnexBPacket2AVCC(p.pkt)
							}
						}); pi != nil {
							o.Fail("P02", panicKind(pi), "conversion: %s in %s", pi.Value, pi.Where)
							return
						}
						if msg := p.judge(t, sets[p.index], d, got, NewOutcome(false)); msg != "" {
							o.Fail("P02", "conversion", "thread %d: conversion of a packet (recycled=%v) is not its own: %s", ti, p.recycled, msg)
							return
						}
						p.conv[d], p.res[d], p.resCopy[d] = true, got, cloneB(got)
					}
				case "g":
					if p == nil {
						continue
					}
					slots[op.S] = nil
					handed = append(handed, p)
				case "t":
					if p != nil || len(handed) == 0 {
						continue
					}
					slots[op.S] = handed[0]
					inUse[handed[0].pkt] = ti
					handed = handed[1:]
				default:
					continue
				}
				for si := 0; si < 8; si++ {
					q := slots[si]
					if q == nil {
						continue
					}
					if msg := q.attrs(); msg != "" {
						o.Fail("P02", "changed-in-use", "thread %d: the %s of a packet in use changed", ti, msg)
						return
					}
					for d := range q.res {
						if q.conv[d] && !bytes.Equal(q.res[d], q.resCopy[d]) {
							o.Fail("P02", "changed-in-use", "thread %d: the conversion result of a packet in use changed", ti)
							return
						}
					}
				}
				o.LogN(op.Op, ti, op.S)
			}
		})
	}
	if len(bodies) == 0 {
		return
	}
	finishThreads(rt.Run(rt.Options{Threads: bodies, Plan: sc.Plan, Budget: 4 << 20}), "P02", o)
}
