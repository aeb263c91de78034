package main

import (
	"sort"
)

// World "session" (S01-S08): simulated senders, a lossy network, a toy framing layer, the real BaseDemuxer on a real
// or adversarial data pipeline, and a subscriber that stalls, closes and issues requests. This file: scenarios and
// the network; w_session.go: the session run and the reference model.

type SStream struct {
	C    string `json:"c"`            // codec
	Seed int    `json:"seed"`         // parameter sets, payload
	NS   int    `json:"ns,omitempty"` // number of SPS / PPS in a configuration record
	NP   int    `json:"np,omitempty"`
	L    int    `json:"l,omitempty"`    // length field size of length-prefixed HEVC
	Rate int    `json:"rate,omitempty"` // declared rate (announced audio) or AAC rate index
	Ch   int    `json:"ch,omitempty"`
	Ann  bool   `json:"ann,omitempty"` // raw AAC / announced audio
	CRC  bool   `json:"crc,omitempty"`
}

type SFrag struct {
	W int    `json:"w"`           // relative size
	D int    `json:"d,omitempty"` // network delay, ms
	F string `json:"f,omitempty"` // "lost", "dup", ""
}

type SDmg struct {
	K string `json:"k"` // flip, trunc, empty, rep, ins, del, zero
	P int    `json:"p"`
	V int    `json:"v"`
}

type SMsg struct {
	ID  int     `json:"id"`
	S   int     `json:"s"`
	At  int     `json:"at"`
	K   string  `json:"k"` // f frame, c configuration, a announcement without data
	Dts int64   `json:"dts"`
	Pts int64   `json:"pts"`
	Key bool    `json:"key,omitempty"`
	PS  bool    `json:"ps,omitempty"`
	Z   bool    `json:"z,omitempty"`  // a frame of no bytes at all
	Kd  bool    `json:"kd,omitempty"` // the sender's key flag and the kind of the coded picture disagree
	Ff  bool    `json:"ff,omitempty"` // raw AAC payload that begins like an ADTS header
	Om  int     `json:"om,omitempty"` // kinds of parameter sets left out: 1 VPS, 2 SPS, 4 PPS
	Sz  int     `json:"sz"`
	NN  int     `json:"nn,omitempty"`
	Alt int     `json:"alt,omitempty"` // use other parameter sets than the stream's first ones
	Fr  []SFrag `json:"fr,omitempty"`
	Dm  []SDmg  `json:"dm,omitempty"`
}

type SReq struct {
	At int    `json:"at"`
	K  string `json:"k"` // complete, try, close
}

type SHook struct {
	N  int    `json:"n"` // ordinal of the callback it fires in
	Op string `json:"op"`
}

type STwin struct {
	Env  int `json:"env"`
	Pool int `json:"pool"`
	Pipe int `json:"pipe"`
	Cap  int `json:"cap"`
	Lag  int `json:"lag"`
	Cut  int `json:"cut"`
}

type SessScenario struct {
	Name    string    `json:"name"`
	Auto    bool      `json:"auto"`
	Probe   int       `json:"probe"`
	Pre     bool      `json:"pre"`
	Pipe    int       `json:"pipe"` // 0 shipped StreamsBuffer, 1 small rings, 2 poisoning
	Cap     int       `json:"cap"`
	Up      bool      `json:"up"` // buffer indexes allocated before the first fragment
	Lag     int       `json:"lag"`
	Free    bool      `json:"free"` // manual mode: the subscriber recycles packet objects
	Env     int       `json:"env"`
	Pool    int       `json:"pool"`
	Dmg     bool      `json:"dmg"`
	Streams []SStream `json:"streams"`
	Msgs    []SMsg    `json:"msgs"`
	Reqs    []SReq    `json:"reqs"`
	Hooks   []SHook   `json:"hooks"`
	Parts   [][2]int  `json:"parts"` // link down windows
	Twin    *STwin    `json:"twin,omitempty"`
	Warm    int       `json:"warm,omitempty"` // another session runs before (the second one), with almost the same parameter sets
}

func (sc *SessScenario) tb() int64 {
	if sc.Name == "ps" || sc.Name == "ts" {
		return 90
	}
	return 1
}

func (sc *SessScenario) avcc() bool { return sc.Name == "flv" }

func genSession(r *Rng, prop string, big bool) *SessScenario {
	sc := &SessScenario{
		Name:  []string{"flv", "flv", "ps", "ts", "ts", "jt1078"}[r.N(6)],
		Auto:  r.P(60),
		Probe: []int{0, 100, 200, 300, 500, 1000, 2000, 5000}[r.N(8)],
		Pre:   r.P(40),
		Up:    r.P(40),
		Lag:   r.Skew(12),
		Free:  r.P(70),
		Env:   r.N(1 << 20),
		Pool:  r.N(5),
		Cap:   []int{16, 64, 200, 500, 1000, 4000, 20000}[r.N(7)],
	}
	switch x := r.N(100); {
	case x < 4:
		sc.Pipe = 0
	case x < 55:
		sc.Pipe = 1
	default:
		sc.Pipe = 2
	}
	if prop == "S08" {
		sc.Dmg = true
	}
	// streams
	add := func(c string) {
		st := SStream{C: c, Seed: r.N(1 << 20), NS: 1, NP: 1, L: 4}
		switch c {
		case "h264", "h265":
			if r.P(30) {
				st.NS, st.NP = 1+r.Skew(3), 1+r.Skew(4)
			}
			if r.P(1) { // as many as a configuration record can hold and an encoder might send
				st.NS, st.NP = 1+r.N(8), 28+r.N(14)
			}
			if c == "h265" || r.P(40) {
				st.L = []int{1, 2, 4, 4}[r.N(4)]
			}
		case "aac":
			st.Rate, st.Ch, st.Ann, st.CRC = r.N(13), r.In(1, 7), true, r.P(30)
			if r.P(15) {
				st.Ch = r.In(8, 10)
			}
			if r.P(15) {
				st.Rate = []int{r.In(100, 1<<24-1), r.In(4000, 192000), 44100, 22255}[r.N(4)]
			}
		case "adts":
			st.Rate, st.Ch, st.CRC = r.N(13), r.In(1, 7), r.P(30)
			st.Ann = r.P(25) // announced with a configuration, and yet every frame with its own header
		default:
			st.Rate = []int{8000, 11025, 16000, 22050, 32000, 44100, 48000}[r.N(7)]
			st.Ch = r.In(1, 2)
			st.Ann = r.P(35)
		}
		sc.Streams = append(sc.Streams, st)
	}
	vid := func() string { return []string{"h264", "h265"}[r.N(2)] }
	switch sc.Name {
	case "flv":
		if r.P(85) {
			add([]string{"h264", "h264", "h265", "h265", "vp8"}[r.N(5)])
		}
		if r.P(85) || len(sc.Streams) == 0 {
			add([]string{"aac", "aac", "alaw", "ulaw", "mp3", "opus", "pcm", "g726"}[r.N(8)])
		}
		if r.P(8) { // a second video stream: its configuration must be ignored, its frames refused
			add(vid())
		}
	case "ps", "jt1078":
		if r.P(85) {
			add(vid())
		}
		if r.P(85) || len(sc.Streams) == 0 {
			add([]string{"adts", "aac", "alaw", "ulaw", "pcm", "pcm", "g726", "g726", "opus"}[r.N(9)])
		}
		if r.P(10) {
			add([]string{"alaw", "pcm", "adts"}[r.N(3)])
		}
	default:
		n := 1 + r.Skew(5)
		if r.P(2) { // several programs
			n = 6 + r.N(15)
		}
		vp := false
		for i := 0; i < n; i++ {
			c := []string{"h264", "h265", "h264", "h265", "adts", "aac", "alaw", "ulaw", "pcm", "pcm", "g726", "g726", "opus", "mp3", "vp8"}[r.N(15)]
			if c == "vp8" {
				if vp {
					c = "h264"
				}
				vp = true
			}
			add(c)
		}
	}
	for i := range sc.Streams { // streams of one encoder: parameter sets that are almost the same
		for j := 0; j < i; j++ {
			if a, b := &sc.Streams[j], &sc.Streams[i]; a.C == b.C && isVideo(a.C) && r.P(35) {
				b.Seed, b.NS, b.NP, b.L = sibling(a.Seed, 1+r.N(50)), a.NS, a.NP, a.L
			}
		}
	}
	if r.P(50) { // which stream speaks first
		i, j := r.N(len(sc.Streams)), r.N(len(sc.Streams))
		sc.Streams[i], sc.Streams[j] = sc.Streams[j], sc.Streams[i]
	}
	// messages
	tb := sc.tb()
	total := 6 + r.Skew(60)
	if big {
		total = 20 + r.Skew(300)
	}
	main := -1
	long := false // a backlog far beyond what ordinary sessions hold
	switch x := r.N(10000); {
	case x < 15:
		long, total = true, 100+r.N(250)
	case x < 24:
		long, total = true, 400+r.N(500)
		if r.P(40) {
			total = 600 + r.N(900)
			main = r.N(len(sc.Streams)) // nearly all of it on one stream
		}
	}
	if long {
		sc.Probe = []int{sc.Probe, 5000, 1000000}[r.N(3)]
	}
	if r.N(40) == 0 {
		sc.Probe = []int{r.N(250), r.N(6000), r.N(40000), r.N(100000)}[r.N(4)]
	}
	faults := r.P(55)
	lossy := 0
	delay := 0
	if faults {
		lossy = r.N(12)
		delay = []int{0, 5, 40, 200}[r.N(4)]
	}
	id := 0
	per := maxI(2, total/len(sc.Streams))
	for s, st := range sc.Streams {
		at := 0
		if r.P(40) {
			at = r.Skew(600)
		}
		iv := []int{1, 5, 10, 20, 23, 33, 40, 66, 100, 250}[r.N(10)]
		base := int64(r.Skew(5000))
		if r.P(30) {
			base = int64(r.N(1 << 30))
		}
		gop := 1 + r.Skew(12)
		conf := func() {
			m := SMsg{ID: id, S: s, At: at, K: "c", Alt: 0}
			if !hasConfig(sc, st) {
				m.K = "a"
			}
			id++
			sc.Msgs = append(sc.Msgs, m)
		}
		needConf := needsConfig(sc, st)
		if needConf && !r.P(6) {
			if r.P(85) {
				conf()
			}
		} else if sc.Name == "ts" && r.P(15) && isVideo(st.C) {
			conf()
		}
		n := per
		if r.P(25) {
			n = 1 + r.N(per)
		}
		if main >= 0 {
			n = 1 + r.N(20)
			if s == main {
				n = total
			}
		}
		if r.P(4) {
			n = 0
		}
		size := 1 + r.Skew(400)
		if big && r.P(20) {
			size = 1 + r.Skew(6000)
		}
		bpm := []int{1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 120, 192}[r.N(21)]
		same := r.P(10)
		back := r.P(12)
		psLate := r.P(15)
		for _, o := range sc.Streams[:s] { // joins without parameter sets of its own
			if o.C == st.C && isVideo(st.C) && r.P(25) {
				psLate = true
				at += 300 + r.Skew(300)
			}
		}
		dts := base * tb
		for k := 0; k < n; k++ {
			m := SMsg{ID: id, S: s, At: at, K: "f"}
			id++
			step := int64(iv) * tb
			if k > 0 {
				switch {
				case same && r.P(50):
					step = 0
				case back && r.P(15):
					step = -int64(r.Skew(400)) * tb
				case r.P(3):
					step = int64(r.In(1, 3000)) * tb
				case r.N(500) == 0: // the sender's clock was set
					step = []int64{int64(r.N(100000)), int64(r.N(1 << 30)), -int64(r.N(1 << 30)), -1 << 25, 1<<31 + int64(r.N(1<<31)), -1<<31 - int64(r.N(1<<31))}[r.N(6)] * tb
				case tb == 90 && r.P(15):
					step += int64(r.In(-89, 89))
				}
				dts += step
			}
			m.Dts = dts
			m.Pts = dts
			if isVideo(st.C) {
				if r.P(40) {
					m.Pts += int64(r.N(5)*iv) * tb
				} else if r.N(60) == 0 { // shown before it is decoded, says the sender
					m.Pts -= int64(r.N(100)) * tb
				}
				m.Key = k%gop == 0
				m.PS = m.Key && !r.P(10) && !(psLate && k < gop)
				m.NN = 1 + r.Skew(5)
				m.Sz = 2 + r.Skew(size)
				if r.P(4) {
					m.Alt = 1 + r.N(3)
				}
				if st.C == "vp8" {
					m.PS = false
				}
				if !m.Key && !sc.avcc() && r.P(2) {
					m.PS = true // parameter sets ahead of a frame that is no key frame
				}
				m.Z = !m.Key && !m.PS && r.N(200) == 0
				m.Kd = r.N(80) == 0
				if m.PS && r.P(8) {
					m.Om = r.In(1, 7)
				}
			} else {
				switch st.C {
				case "pcm", "g726":
					m.Sz = maxI(1, bpm*iv)
					if r.P(20) {
						m.Sz = maxI(1, m.Sz+r.In(-2, 2))
					}
				default:
					m.Sz = 1 + r.Skew(size)
					m.Z = st.C != "adts" && r.N(100) == 0
					m.Ff = st.C == "aac" && r.N(40) == 0
				}
			}
			sc.Msgs = append(sc.Msgs, m)
			if needConf && r.P(4) || sc.Name == "ts" && isVideo(st.C) && st.C != "vp8" && r.P(2) {
				conf()
			}
			at += iv
			if r.P(3) {
				at += r.Skew(800)
			}
		}
	}
	if len(sc.Msgs) > 0 && r.N(600) == 0 { // pictures of a size that needs more than 16 bits
		for k := 1 + r.N(3); k > 0; k-- {
			if m := &sc.Msgs[r.N(len(sc.Msgs))]; m.K == "f" && sc.Streams[m.S].C != "pcm" && sc.Streams[m.S].C != "g726" {
				m.Sz = []int{r.In(60000, 70000), r.In(100000, 300000)}[r.N(2)]
				m.NN = r.In(1, 3)
			}
		}
	}
	// fragments and network faults
	for i := range sc.Msgs {
		m := &sc.Msgs[i]
		if m.K == "a" {
			continue
		}
		nf := 1
		if r.P(60) && !long {
			nf = 1 + r.Skew(5)
		}
		bad := faults && r.P(35)
		for k := 0; k < nf; k++ {
			f := SFrag{W: 1 + r.Skew(8)}
			f.D = k * r.Skew(8)
			if bad {
				if r.N(100) < lossy {
					f.F = "lost"
				} else if r.N(100) < lossy {
					f.F = "dup"
				}
				if delay > 0 && r.P(25) {
					f.D += r.N(delay)
				}
			}
			m.Fr = append(m.Fr, f)
		}
		if k := i; k > 0 && sc.Dmg && r.P(22) || sc.Dmg && m.K == "c" && r.P(35) {
			for c := 1 + r.Skew(3); c > 0; c-- {
				m.Dm = append(m.Dm, SDmg{K: []string{"flip", "flip", "flip", "trunc", "trunc", "empty", "rep", "ins", "del", "zero", "set", "set", "set"}[r.N(13)], P: r.Skew(1 + r.N(60)), V: r.N(256)})
			}
		}
	}
	end := 0
	for _, m := range sc.Msgs {
		end = maxI(end, m.At)
	}
	// requests
	if r.P(45) || prop == "S03" && r.P(40) {
		for k := 1 + r.Skew(3); k > 0; k-- {
			sc.Reqs = append(sc.Reqs, SReq{r.N(end + 50), []string{"complete", "try", "try"}[r.N(3)]})
		}
	}
	if r.P(5) {
		sc.Reqs = append(sc.Reqs, SReq{0, "complete"})
	}
	if long || r.P(55) { // most sessions that would never end probing are asked to, at some late point
		at := end + 50
		if r.P(60) {
			at = r.In(end/2, end+50)
		}
		sc.Reqs = append(sc.Reqs, SReq{at, "complete"})
	}
	cl := 12
	if prop == "S06" {
		cl = 100
	}
	if r.P(cl) {
		if r.P(60) {
			sc.Reqs = append(sc.Reqs, SReq{r.N(end + 50), "close"})
			if r.P(50) {
				sc.Reqs = append(sc.Reqs, SReq{r.N(end + 50), []string{"complete", "try", "close"}[r.N(3)]})
			}
		} else {
			sc.Hooks = append(sc.Hooks, SHook{1 + r.Skew(14), "close"})
		}
	}
	if r.P(15) {
		sc.Hooks = append(sc.Hooks, SHook{1 + r.Skew(14), []string{"complete", "try"}[r.N(2)]})
	}
	if faults && r.P(15) {
		a := r.N(end + 1)
		sc.Parts = append(sc.Parts, [2]int{a, a + r.Skew(500)})
	}
	if r.P(map[string]int{"S05": 15, "S07": 25}[prop]) {
		sc.Warm = 1 + r.N(100)
	}
	if prop == "S07" {
		sc.Twin = &STwin{Env: r.N(1 << 20), Pool: r.N(5), Pipe: 1 + r.N(2), Cap: []int{16, 64, 200, 1000, 4000, 20000}[r.N(6)], Lag: r.Skew(12), Cut: r.N(1 << 20)}
		if r.P(4) {
			sc.Twin.Pipe = 0
		}
	}
	return sc
}

// hasConfig tells whether the stream's configuration message carries bytes.
func hasConfig(sc *SessScenario, st SStream) bool {
	return st.C == "h264" || st.C == "h265" || st.C == "aac" || st.C == "adts"
}

// needsConfig: without the configuration message no track of this stream is created.
func needsConfig(sc *SessScenario, st SStream) bool {
	if isVideo(st.C) {
		return sc.avcc() || st.C == "vp8"
	}
	return st.Ann
}

// ---- payload ----

type built struct {
	data []byte
	sets *paramSets // parameter sets it carries
	raw  []byte     // before damage
}

func streamSets(st SStream, alt int) paramSets {
	if alt > 1 { // the encoder changed little
		return makeSets(st.C, sibling(st.Seed, 50+alt), clampI(st.NS, 1, 31), clampI(st.NP, 1, 255))
	}
	return makeSets(st.C, st.Seed+alt*7919, clampI(st.NS, 1, 31), clampI(st.NP, 1, 255))
}

func buildMsg(sc *SessScenario, m SMsg) built {
	st := sc.Streams[m.S]
	r := NewRng("msg", st.Seed, m.ID)
	var b built
	sz := clampI(m.Sz, 1, 1<<20)
	if m.K == "c" {
		switch st.C {
		case "h264", "h265":
			p := streamSets(st, m.Alt)
			full := p
			b.sets = &full
			p = cutSets(p, m.Dm)
			switch {
			case sc.avcc() && st.C == "h264":
				b.data = avcC(p, lenSize(st), r)
			case sc.avcc():
				b.data = hvcC(p, lenSize(st), r)
			default:
				b.data = startCodes(r, append(append(append([][]byte{}, p.vps...), p.sps...), p.pps...))
			}
		case "aac":
			b.data = asc(st.Rate, st.Ch, st.CRC)
		case "adts":
			b.data = asc(st.Rate%13, 1+(maxI(st.Ch, 1)-1)%7, st.CRC)
		}
	} else if m.K == "f" {
		switch st.C {
		case "h264", "h265":
			var nals [][]byte
			if r.P(25) {
				if st.C == "h264" {
					nals = append(nals, []byte{9, 0xF0})
				} else {
					nals = append(nals, []byte{0x46, 1, 0x50})
				}
			}
			if m.PS {
				p := streamSets(st, m.Alt)
				if m.Om&1 != 0 {
					p.vps = nil
				}
				if m.Om&2 != 0 {
					p.sps = nil
				}
				if m.Om&4 != 0 {
					p.pps = nil
				}
				if full := p; len(p.sps) > 0 && len(p.pps) > 0 && (st.C == "h264" || len(p.vps) > 0) {
					b.sets = &full
				}
				p = cutSets(p, m.Dm)
				nals = append(append(append(nals, p.vps...), p.sps...), p.pps...)
			}
			if r.P(20) {
				if st.C == "h264" {
					nals = append(nals, nalBody(r, []byte{6}, r.In(2, 9)))
				} else {
					nals = append(nals, nalBody(r, []byte{0x4E, 1}, r.In(2, 9)))
				}
			}
			nn := clampI(m.NN, 1, 300)
			for k := 0; k < nn; k++ {
				var hdr []byte
				if st.C == "h264" {
					hdr = []byte{0x41}
					if m.Key != m.Kd {
						hdr = []byte{0x65}
					}
				} else {
					hdr = []byte{2, 1}
					if m.Key != m.Kd {
						hdr = []byte{0x26, 1}
					} else if r.P(20) {
						hdr = []byte{0, 1} // TRAIL_N
					}
				}
				nals = append(nals, nalBody(r, hdr, maxI(2, sz/nn)))
			}
			if sc.avcc() {
				ls := lenSize(st)
				for i := range nals { // units must fit the length field
					if ls < 4 && len(nals[i]) >= 1<<uint(8*ls) {
						nals[i] = nalBody(r, nals[i][:2], 100)
					}
				}
				b.data = lengthPrefixed(nals, ls)
			} else {
				b.data = startCodes(r, nals)
			}
		case "adts":
			n := minI(sz, 8000)
			if m.Sz <= 1 { // a header and nothing else: the shortest frame there is
				n = 0
			}
			b.data = append(adtsHeader(st.Rate%13, 1+(maxI(st.Ch, 1)-1)%7, n, st.CRC), pattern(uint64(st.Seed)<<20+uint64(m.ID), n)...)
		default:
			b.data = pattern(uint64(st.Seed)<<20+uint64(m.ID), sz)
			if st.C == "aac" && b.data[0] == 0xFF {
				b.data[0] = 0x21
			}
			if st.C == "aac" && m.Ff {
				b.data[0] = 0xFF
				if len(b.data) > 1 {
					b.data[1] = []byte{0xF1, 0xF9, 0xF0, 0xF8}[m.ID&3]
				}
			}
		}
	}
	if m.Z {
		b.data, b.sets = []byte{}, nil
	}
	b.raw = b.data
	for _, d := range m.Dm {
		b.data = damage(b.data, d)
	}
	return b
}

func lenSize(st SStream) int {
	if isVideo(st.C) && (st.L == 1 || st.L == 2) {
		return st.L
	}
	return 4
}

// cutSets shortens or removes single parameter sets before they are packaged: consistent records around bad sets.
func cutSets(p paramSets, dm []SDmg) paramSets {
	for _, d := range dm {
		if d.K != "set" {
			continue
		}
		p.vps, p.sps, p.pps = append([][]byte{}, p.vps...), append([][]byte{}, p.sps...), append([][]byte{}, p.pps...)
		k := maxI(d.P, 0) % (len(p.vps) + len(p.sps) + len(p.pps) + 1)
		l := &p.vps
		if k >= len(p.vps) {
			k -= len(p.vps)
			l = &p.sps
			if k >= len(p.sps) {
				k -= len(p.sps)
				l = &p.pps
			}
		}
		if k >= len(*l) {
			continue
		}
		if n := d.V % 8; n == 7 {
			*l = append((*l)[:k:k], (*l)[k+1:]...)
		} else {
			(*l)[k] = (*l)[k][:minI(n, len((*l)[k]))]
		}
	}
	return p
}

func damage(b []byte, d SDmg) []byte {
	b = append([]byte{}, b...)
	p := maxI(d.P, 0)
	if len(b) > 0 {
		p %= len(b)
	} else {
		p = 0
	}
	switch d.K {
	case "flip":
		if len(b) > 0 {
			b[p] ^= byte(d.V | 1)
		}
	case "trunc":
		b = b[:p]
	case "empty":
		b = b[:0]
	case "rep":
		b = pattern(uint64(d.V)+1, p)
	case "ins":
		b = append(b[:p:p], append([]byte{byte(d.V)}, b[p:]...)...)
	case "del":
		if len(b) > 0 {
			b = append(b[:p:p], b[p+1:]...)
		}
	case "zero":
		for i := p; i < len(b) && i < p+1+d.V%6; i++ {
			b[i] = 0
		}
	}
	return b
}

// ---- the network: resolves losses, delays, duplicates and link-down windows into what the receiver sees ----

type rxEv struct {
	T    int64
	Op   string // w: fragment written, end: message complete, drop: pending bytes given up, or a request kind
	S, M int    // stream, index into Msgs
	Data []byte
}

type arrival struct {
	t, seq  int64
	m, k, n int
	data    []byte
	req     string
}

func network(sc *SessScenario, o *Outcome) ([]rxEv, []built) {
	items := make([]built, len(sc.Msgs))
	var q []arrival
	seq := int64(0)
	push := func(a arrival) {
		a.seq = seq
		seq++
		q = append(q, a)
	}
	down := func(t int) bool {
		for _, p := range sc.Parts {
			if t >= p[0] && t < p[1] {
				return true
			}
		}
		return false
	}
	for i, m := range sc.Msgs {
		if m.S < 0 || m.S >= len(sc.Streams) {
			continue
		}
		items[i] = buildMsg(sc, m)
		data := items[i].data
		if m.K == "a" {
			push(arrival{t: int64(m.At), m: i, n: 1})
			continue
		}
		fr := m.Fr
		if len(fr) == 0 {
			fr = []SFrag{{W: 1}}
		}
		tot := 0
		for _, f := range fr {
			tot += maxI(f.W, 1)
		}
		pos, acc := 0, 0
		for k, f := range fr {
			acc += maxI(f.W, 1)
			e := len(data) * acc / tot
			a := arrival{t: int64(m.At + maxI(f.D, 0)), m: i, k: k, n: len(fr), data: data[pos:e]}
			pos = e
			if f.F == "lost" {
				o.Count("fragment lost")
				continue
			}
			if down(m.At) {
				o.Count("fragment lost in link-down window")
				continue
			}
			if f.D > 0 {
				o.Count("fragment delayed")
			}
			push(a)
			if f.F == "dup" {
				o.Count("fragment duplicated")
				a.t += 3
				push(a)
			}
		}
	}
	for _, r := range sc.Reqs {
		push(arrival{t: int64(r.At), m: -1, req: r.K})
	}
	sort.SliceStable(q, func(i, j int) bool {
		if q[i].t != q[j].t {
			return q[i].t < q[j].t
		}
		return q[i].seq < q[j].seq
	})
	type rs struct {
		m, next int
		pend    bool
		last    int // highest completed message
	}
	st := make([]rs, len(sc.Streams))
	for i := range st {
		st[i].m, st[i].last = -1, -1
	}
	done := map[int]bool{}
	var out []rxEv
	for _, a := range q {
		if a.m < 0 {
			out = append(out, rxEv{T: a.t, Op: a.req})
			continue
		}
		m := sc.Msgs[a.m]
		s := &st[m.S]
		if done[a.m] {
			continue
		}
		if m.K == "a" {
			out = append(out, rxEv{T: a.t, Op: "end", S: m.S, M: a.m})
			done[a.m] = true
			continue
		}
		if s.m == a.m && a.k < s.next {
			continue // duplicate
		}
		if s.m != a.m || a.k != s.next {
			if s.pend {
				out = append(out, rxEv{T: a.t, Op: "drop", S: m.S})
				s.pend = false
				o.Count("partial frame dropped by resynchronisation")
			}
			s.m = -1
			if a.k != 0 {
				continue
			}
			s.m, s.next = a.m, 0
		}
		out = append(out, rxEv{T: a.t, Op: "w", S: m.S, M: a.m, Data: a.data})
		s.pend = true
		s.next++
		if s.next == a.n {
			out = append(out, rxEv{T: a.t, Op: "end", S: m.S, M: a.m})
			done[a.m] = true
			if a.m < s.last {
				o.Count("message reordered within its stream")
			}
			s.last = maxI(s.last, a.m)
			s.pend = false
			s.m = -1
		}
	}
	if len(q) > 0 {
		o.SimMs += q[len(q)-1].t
	}
	return out, items
}
