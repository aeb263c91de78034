package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/lkmio/avformat/utils"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// Recording mode of the session world: the same run without the step-by-step model, judged by what the recorded
// history of calls, callbacks and releases says about one property. It decides S07 (twin sessions) and is the second
// opinion when the model lost track because another property broke first.

type hCall struct {
	op       string // f frame, c configuration, complete, try, close
	item     int
	buf      int
	closed   bool // before the call
	comp     bool // probing had ended before the call
	evs      []sEv
	live     map[int]int // unreleased blocks per buffer after the call
	accepted bool
}

func runRaw(sc *SessScenario, rx []rxEv, items []built, o *Outcome, prop string, twin bool, order []int) *sessRun {
	x := newSession(sc, items, o, prop)
	x.raw = true
	if twin {
		t := sc.Twin
		x.start(uint64(t.Env), t.Pool, t.Pipe, t.Cap, t.Lag)
		rt.ClockNow += 86400000000000
		for _, s := range order {
			x.alloc(s)
		}
	} else {
		x.start(uint64(sc.Env), sc.Pool, sc.Pipe, sc.Cap, sc.Lag)
	}
	x.runRx(rx)
	rt.PoolOnGet, rt.PoolOnPut = nil, nil
	o.Stats["map iteration reordered"] += rt.MapRanges
	o.Stats["packet object reused"] += rt.PoolReused
	return x
}

// record closes the books on one library call.
func (x *sessRun) record(op string, item, buf int, closedBefore bool) {
	c := &hCall{op: op, item: item, buf: buf, closed: closedBefore, comp: x.comp, live: map[int]int{}}
	c.evs = append(c.evs, x.ev...)
	dropped := false
	for _, e := range c.evs {
		switch e.K {
		case "db":
			dropped = dropped || e.Item == item && e.Idx == buf
		case "tc", "nf":
			x.comp = true
		}
	}
	c.accepted = op == "f" && !dropped && !closedBefore
	for b, l := range x.pipe.live {
		c.live[b] = len(l)
	}
	x.hist = append(x.hist, c)
}

// hold remembers a delivered packet that the subscriber will release (manual mode).
func (x *sessRun) hold(e *sEv) {
	own := false // frames may have equal bytes: prefer the block the packet lies in
	for _, b := range x.pipe.live[e.Pkt.BufferIndex] {
		own = own || len(e.Data) > 0 && within(e.Data, [][]byte{b.data})
	}
	for _, b := range x.pipe.live[e.Pkt.BufferIndex] {
		taken := own && !within(e.Data, [][]byte{b.data})
		for _, h := range x.held {
			taken = taken || h.item == b.item
		}
		if !taken && bytes.Equal(b.data, e.Data) {
			x.held = append(x.held, &heldPkt{ptr: e.Ptr, data: e.Data, want: cloneB(e.Data), item: b.item, buf: e.Pkt.BufferIndex})
			return
		}
	}
}

// judge evaluates one property over the recorded history.
func (x *sessRun) judge(prop string) {
	for _, v := range x.hv {
		if v.Prop == prop {
			x.o.Fail(v.Prop, v.Kind, "%s", v.Msg)
			return
		}
	}
	switch prop {
	case "S01":
		x.judgeProtocol()
	case "S02", "S03":
		x.judgeDelivery(prop)
	case "S04":
		x.judgeReleases()
	case "S06":
		x.judgeClosed()
	}
}

// judgeClosed: a closed session with automatic release lets go of every block that is not a frame waiting for its
// successor.
func (x *sessRun) judgeClosed() {
	if !x.sc.Auto {
		return
	}
	for _, c := range x.hist {
		if !c.closed || c.item < 0 {
			continue
		}
		dropped, refused := false, c.op == "c" && len(x.items[c.item].data) > 0
		for _, e := range c.evs {
			dropped = dropped || e.K == "db" && e.Item == c.item
		}
		if refused && !dropped {
			x.o.Fail("S06", "history", "message %d: the block of a configuration was kept after close", c.item)
			return
		}
		if n := c.live[c.buf]; c.op == "f" && c.comp && n > 1 {
			x.o.Fail("S06", "history", "message %d: stream buffer %d holds %d unreleased blocks although probing has ended", c.item, c.buf, n)
			return
		}
	}
}

func (x *sessRun) judgeInto(o *Outcome, prop string) {
	x.o = o
	x.judge(prop)
}

func (x *sessRun) judgeProtocol() {
	var ann []*trkSnap
	state := "announce"
	for _, c := range x.hist {
		for _, e := range c.evs {
			bad := ""
			switch e.K {
			case "nt":
				if state != "announce" {
					bad = "a track was announced after the " + state
				} else if e.Trk.Index != len(ann) {
					bad = fmt.Sprintf("the track announced in position %d has index %d", len(ann), e.Trk.Index)
				}
				ann = append(ann, e.Trk)
			case "tc":
				if state != "announce" || len(ann) == 0 {
					bad = fmt.Sprintf("completion notice after the %s, %d tracks announced", state, len(ann))
				}
				state = "completion notice"
			case "nf":
				if state != "announce" || len(ann) > 0 {
					bad = fmt.Sprintf("track-not-found notice after the %s, %d tracks announced", state, len(ann))
				}
				state = "track-not-found notice"
			case "pkt":
				if state != "completion notice" {
					bad = "a packet before the completion notice"
				} else if e.Pkt.Index < 0 || e.Pkt.Index >= len(ann) {
					bad = fmt.Sprintf("a packet names track %d, %d were announced", e.Pkt.Index, len(ann))
				} else if t := ann[e.Pkt.Index]; t.Media != e.Pkt.Media || t.Codec != e.Pkt.Codec || t.Timebase != e.Pkt.Timebase {
					bad = fmt.Sprintf("a packet of track %d carries %v, %v, %d", e.Pkt.Index, e.Pkt.Media, e.Pkt.Codec, e.Pkt.Timebase)
				}
			}
			if bad != "" {
				x.o.Fail("S01", "history", "%s (message %d)", bad, c.item)
				return
			}
		}
	}
	if state == "announce" && len(ann) > 0 && !x.closed {
		x.o.Fail("S01", "history", "%d tracks were announced without a completion notice", len(ann))
	}
}

type hFrame struct {
	item int
	next int64
	last bool
}

func (x *sessRun) judgeDelivery(prop string) {
	acc := map[int][]*hFrame{}
	for _, c := range x.hist { // durations are distances in arrival order
		if c.accepted {
			if l := acc[c.buf]; len(l) > 0 {
				l[len(l)-1].next = x.sc.Msgs[c.item].Dts
				l[len(l)-1].last = false
			}
			acc[c.buf] = append(acc[c.buf], &hFrame{item: c.item, last: true})
		}
	}
	byItem := map[int]*hFrame{}
	for _, l := range acc {
		for _, f := range l {
			byItem[f.item] = f
		}
	}
	queue := map[int][]*hFrame{}
	for _, c := range x.hist {
		if c.accepted {
			queue[c.buf] = append(queue[c.buf], byItem[c.item])
		}
		var lastDts int64 = -1 << 62
		for _, e := range c.evs {
			if e.K == "pre" && e.Hook != "" {
				return // the subscriber acted before the frame was buffered: the step-by-step model decides those runs
			}
			if e.K == "tc" {
				for b, l := range queue {
					if n := len(l) - 1; n > 1 {
						s := append([]*hFrame{}, l...)
						sort.SliceStable(s[:n], func(i, j int) bool { return x.sc.Msgs[s[i].item].Dts < x.sc.Msgs[s[j].item].Dts })
						queue[b] = s
					}
				}
			}
			if e.K != "pkt" {
				continue
			}
			g := e.Pkt
			if !c.comp && len(x.sc.Hooks) == 0 {
				if g.Dts < lastDts && prop == "S02" {
					x.o.Fail("S02", "history", "replay delivered DTS %d after %d", g.Dts, lastDts)
					return
				}
				lastDts = g.Dts
			}
			l := queue[g.BufferIndex]
			if len(l) == 0 {
				if prop == "S02" {
					x.o.Fail("S02", "history", "a packet of stream buffer %d (DTS %d) was delivered without an accepted frame waiting", g.BufferIndex, g.Dts)
				}
				return
			}
			f := l[0]
			m := x.sc.Msgs[f.item]
			want := x.items[f.item].data
			pts, key := m.Pts, m.Key
			if g.Media == utils.AVMediaTypeAudio {
				pts, key = m.Dts, false
			}
			if g.Len != len(want) || g.Sum != sum64(want) || g.Dts != m.Dts || g.Pts != pts || g.Key != key {
				if prop == "S02" {
					x.o.Fail("S02", "history", "frame %d (DTS %d, %d bytes) is the next of its track, delivered was DTS %d, %d bytes", f.item, m.Dts, len(want), g.Dts, g.Len)
				}
				return
			}
			queue[g.BufferIndex] = l[1:]
			if prop == "S03" {
				if f.last {
					x.o.Fail("S03", "history", "frame %d was delivered although no successor arrived", f.item)
					return
				}
				if g.Duration != f.next-m.Dts {
					x.o.Fail("S03", "history", "frame %d: the next frame of its track is %d later, the duration delivered is %d", f.item, f.next-m.Dts, g.Duration)
					return
				}
			}
		}
		if x.comp && c.accepted && c.comp && !c.closed && !x.closed && len(queue[c.buf]) != 1 {
			x.o.Fail(prop, "history", "after frame %d was accepted %d frames of its track are waiting", c.item, len(queue[c.buf]))
			return
		}
		if prop == "S03" && c.op == "complete" && !c.comp && !c.closed {
			seen := false
			for _, e := range c.evs {
				seen = seen || e.K == "tc" || e.K == "nf" || e.Hook == "close"
			}
			if !seen {
				x.o.Fail("S03", "history", "an explicit request did not end probing")
				return
			}
		}
	}
	if x.comp && !x.closed && !x.stop && prop == "S02" {
		for _, s := range x.order {
			if l := queue[x.bufOf[s]]; len(l) > 1 {
				x.o.Fail("S02", "history", "%d accepted frames of stream buffer %d were never delivered", len(l)-1, x.bufOf[s])
				return
			}
		}
	}
}

func (x *sessRun) judgeReleases() {
	heldBack := map[int]int{} // accepted and not delivered
	bad := func(c *hCall, format string, a ...interface{}) {
		x.o.Fail("S04", "history", "message %d: %s", c.item, fmt.Sprintf(format, a...))
	}
	out := 0
	for _, c := range x.hist {
		if c.closed || x.closed && c == x.hist[len(x.hist)-1] {
			return
		}
		if c.accepted {
			heldBack[c.buf]++
		}
		var open *sEv // delivered, release due before the next callback
		dh, put, db := 0, 0, 0
		check := func() bool {
			if open == nil || !x.sc.Auto || open.Hook != "" {
				return true
			}
			if dh != 1 || x.poolSee && put != 1 {
				bad(c, "after the delivery of DTS %d the session released %d blocks and %d packet objects", open.Pkt.Dts, dh, put)
				return false
			}
			return true
		}
		for i := range c.evs {
			e := &c.evs[i]
			switch e.K {
			case "dh":
				if !x.sc.Auto || open == nil && len(x.sc.Hooks) == 0 {
					bad(c, "a block was released that was not delivered by this session just before")
					return
				}
				dh++
			case "put":
				if !x.sc.Auto || open == nil && len(x.sc.Hooks) == 0 {
					bad(c, "a packet object was recycled that was not delivered just before")
					return
				}
				put++
			case "db":
				if e.Item != c.item || e.Idx != c.buf {
					bad(c, "the block of message %d was dropped", e.Item)
					return
				}
				db++
			default:
				if !check() {
					return
				}
				open = nil
				if e.K == "pkt" {
					open, dh, put = e, 0, 0
					heldBack[e.Pkt.BufferIndex]--
					out++
				}
			}
		}
		if !check() {
			return
		}
		if db > 1 {
			bad(c, "its block was dropped %d times", db)
			return
		}
		if c.op == "c" && db == 0 && len(x.items[c.item].data) > 0 {
			bad(c, "the block of this configuration was not dropped")
			return
		}
		if x.sc.Auto && !x.closed {
			for _, s := range x.order {
				if b := x.bufOf[s]; c.live[b] != heldBack[b] {
					bad(c, "stream buffer %d holds %d unreleased blocks, %d accepted frames wait for delivery", b, c.live[b], heldBack[b])
					return
				}
			}
		}
	}
}

func compareTwins(x, y *sessRun, o *Outcome) {
	for i := 0; i < len(x.cbs) || i < len(y.cbs); i++ {
		if i >= len(x.cbs) || i >= len(y.cbs) {
			o.Fail("S07", "length", "the same feed produced %d callbacks in one session and %d in the other", len(x.cbs), len(y.cbs))
			return
		}
		a, b := x.cbs[i], y.cbs[i]
		if a.K != b.K || a.Pkt != b.Pkt || (a.Trk == nil) != (b.Trk == nil) || a.Trk != nil && !a.Trk.same(b.Trk) {
			o.Fail("S07", "differs", "callback %d differs between two sessions given the same feed: %s %+v against %s %+v", i, a.K, a.Pkt, b.K, b.Pkt)
			return
		}
	}
	for _, v := range append(append([]Violation{}, x.hv...), y.hv...) {
		if v.Prop == "S07" {
			o.Fail("S07", v.Kind, "%s", v.Msg)
			return
		}
	}
	o.Count("twin sessions compared")
}
