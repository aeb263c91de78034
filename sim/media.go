package main

import (
	"bytes"

	"github.com/lkmio/avformat/utils"
)

// Media material for the simulated senders, written from the codec standards and independent of the library.

type bitW struct {
	b []byte
	n uint
}

func (w *bitW) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[len(w.b)-1] |= 0x80 >> (w.n % 8)
		}
		w.n++
	}
}

func (w *bitW) ue(v uint64) {
	v++
	n := 0
	for t := v; t > 1; t >>= 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, v)
}

func (w *bitW) se(v int64) {
	if v > 0 {
		w.ue(uint64(v)*2 - 1)
	} else {
		w.ue(uint64(-v) * 2)
	}
}

func (w *bitW) stop() []byte {
	w.u(1, 1)
	return w.b
}

// epb inserts emulation prevention bytes.
func epb(p []byte) []byte {
	out := make([]byte, 0, len(p)+4)
	z := 0
	for _, c := range p {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// legal random NAL payload: no start code emulation, last byte not zero.
func nalBody(r *Rng, hdr []byte, n int) []byte {
	p := append([]byte{}, hdr...)
	body := r.Bytes(n)
	if r.P(20) { // runs of zeros, as in entropy coded data padding
		for i := range body {
			if r.P(50) {
				body[i] = byte(r.N(4))
			}
		}
	}
	p = append(p, body...)
	p = epb(p)
	if p[len(p)-1] == 0 {
		p = append(p, 0x80)
	}
	return p
}

type paramSets struct {
	vps, sps, pps [][]byte
	w, h          []int // per SPS
}

func h264SPS(r, tail *Rng) ([]byte, int, int) {
	for {
		w := &bitW{}
		prof := []uint64{66, 77, 100, 100, 110, 88, 122, 244, 44, 118}[r.N(10)]
		chroma := uint64(1)
		w.u(8, 0x67)
		w.u(8, prof)
		w.u(8, []uint64{0, 0x40, 0xC0, 0xE0, 0x0C, 0x14}[r.N(6)])
		w.u(8, []uint64{30, 31, 40, 51, 13}[r.N(5)])
		w.ue(uint64(r.Skew(32)))
		if prof != 66 && prof != 77 && prof != 88 {
			switch prof {
			case 122:
				chroma = []uint64{1, 2}[r.N(2)]
			case 244:
				chroma = []uint64{1, 2, 3, 3}[r.N(4)]
			case 44:
				chroma = 3
			default:
				chroma = []uint64{1, 1, 1, 0}[r.N(4)]
			}
			w.ue(chroma)
			if chroma == 3 {
				w.u(1, uint64(r.N(2))) // separate colour planes
			}
			w.ue(0)
			w.ue(0)
			w.u(1, 0)
			if r.P(25) { // scaling matrix
				w.u(1, 1)
				lists := 8
				if chroma == 3 {
					lists = 12
				}
				for i := 0; i < lists; i++ {
					if !r.P(40) {
						w.u(1, 0)
						continue
					}
					w.u(1, 1)
					n := 16
					if i >= 6 {
						n = 64
					}
					last, next := int64(8), int64(8)
					for j := 0; j < n; j++ {
						if next != 0 {
							d := int64(r.In(-12, 12))
							if last+d < 1 || last+d > 255 {
								d = 0
							}
							if r.P(8) {
								d = -last // next becomes 0: the rest repeats
							}
							w.se(d)
							next = (last + d + 256) % 256
						}
						if next != 0 {
							last = next
						}
					}
				}
			} else {
				w.u(1, 0)
			}
		}
		w.ue(uint64(r.N(13)))
		switch t := r.N(3); t {
		case 0:
			w.ue(0)
			w.ue(uint64(r.N(13)))
		case 1:
			w.ue(1)
			w.u(1, uint64(r.N(2)))
			big := 30
			if r.P(30) { // long codes: runs of zero bytes, hence emulation prevention
				big = 1 << 22
			}
			w.se(int64(r.In(-big, big)))
			w.se(int64(r.In(-big, big)))
			k := r.N(4)
			w.ue(uint64(k))
			for i := 0; i < k; i++ {
				w.se(int64(r.In(-big, big)))
			}
		default:
			w.ue(2)
		}
		w.ue(uint64(r.N(17)))
		w.u(1, uint64(r.N(2)))
		mw, mh := sameCode(tail, r.In(1, 140)), sameCode(tail, r.In(1, 90))
		w.ue(uint64(mw - 1))
		fmo := 1
		if r.P(20) {
			fmo = 0
		}
		w.ue(uint64(mh - 1))
		w.u(1, uint64(fmo))
		if fmo == 0 {
			w.u(1, uint64(r.N(2)))
		}
		w.u(1, 1)
		wd, ht := mw*16, mh*16*(2-fmo)
		if r.P(50) {
			w.u(1, 1)
			var c [4]int
			for i := range c {
				c[i] = r.Skew([]int{4, 4, 30}[r.N(3)])
			}
			for i := range c {
				w.ue(uint64(c[i]))
			}
			ux, uy := 1, 2-fmo
			if chroma == 1 || chroma == 2 {
				ux = 2
			}
			if chroma == 1 {
				uy *= 2
			}
			wd -= ux * (c[0] + c[1])
			ht -= uy * (c[2] + c[3])
		} else {
			w.u(1, 0)
		}
		if r.P(50) { // VUI
			w.u(1, 1)
			if r.P(50) {
				w.u(1, 1)
				if r.P(50) {
					w.u(8, 255)
					w.u(16, uint64(r.In(1, 400)))
					w.u(16, uint64(r.In(1, 400)))
				} else {
					w.u(8, 1)
				}
			} else {
				w.u(1, 0)
			}
			w.u(1, 0) // overscan
			if r.P(50) {
				w.u(1, 1)
				w.u(3, 5)
				w.u(1, 0)
				w.u(1, 1)
				w.u(24, 0x010101)
			} else {
				w.u(1, 0)
			}
			w.u(1, 0) // chroma loc
			if r.P(60) {
				w.u(1, 1)
				if r.P(50) {
					w.u(32, uint64(r.In(1, 1001)))
					w.u(32, uint64([]int{50, 60, 48000, 30000, 180000}[r.N(5)]))
				} else {
					w.u(32, uint64(r.In(0x01010101, 0x02020202)))
					w.u(32, uint64(r.In(0x11010101, 0x12020202)))
				}
				w.u(1, 1)
			} else {
				w.u(1, 0)
			}
			w.u(6, 0)
		} else {
			w.u(1, 0)
		}
		if wd > 0 && ht > 0 {
			return epb(w.stop()), wd, ht
		}
	}
}

func h265SPS(r, tail *Rng) ([]byte, int, int) {
	w := &bitW{}
	sub := r.Skew(4)
	w.u(4, 0)
	w.u(3, uint64(sub))
	w.u(1, 1)
	w.u(8, uint64(r.In(1, 3)))
	w.u(32, uint64(r.N(3))<<29)
	w.u(16, uint64(r.N(4))<<12)
	w.u(32, uint64(r.N(2)*r.N(1<<31)))
	w.u(8, uint64([]int{30, 60, 93, 120}[r.N(4)]))
	if sub > 0 {
		var pf, lf [8]int
		for i := 0; i < sub; i++ {
			pf[i], lf[i] = r.N(2), r.N(2)
			w.u(1, uint64(pf[i]))
			w.u(1, uint64(lf[i]))
		}
		for i := sub; i < 8; i++ {
			w.u(2, 0)
		}
		for i := 0; i < sub; i++ {
			if pf[i] == 1 {
				w.u(32, uint64(r.N(1<<30)))
				w.u(32, 0)
				w.u(24, uint64(r.N(1<<24)))
			}
			if lf[i] == 1 {
				w.u(8, 93)
			}
		}
	}
	w.ue(uint64(r.Skew(16)))
	cf := []uint64{1, 1, 2, 3, 0}[r.N(5)]
	w.ue(cf)
	if cf == 3 {
		w.u(1, uint64(r.N(2)))
	}
	wd, ht := 8*r.In(1, 500), 8*r.In(1, 300)
	if tail != nil {
		wd, ht = sameCode(tail, wd+1)-1, sameCode(tail, ht+1)-1
	}
	w.ue(uint64(wd))
	w.ue(uint64(ht))
	if r.P(40) {
		w.u(1, 1)
		ux, uy := 1, 1
		if cf == 1 || cf == 2 {
			ux = 2
		}
		if cf == 1 {
			uy = 2
		}
		for i := 0; i < 4; i++ {
			u, d := ux, &wd
			if i > 1 {
				u, d = uy, &ht
			}
			n := minI(r.Skew(5), (*d-1)/u)
			w.ue(uint64(n))
			*d -= u * n
		}
	} else {
		w.u(1, 0)
	}
	w.ue(uint64(r.N(3)))
	w.ue(uint64(r.N(3)))
	w.ue(uint64(r.N(13)))
	k := sub
	if r.P(50) {
		w.u(1, 1)
		k = 0
	} else {
		w.u(1, 0)
	}
	for ; k <= sub; k++ {
		w.ue(uint64(r.N(6)))
		w.ue(uint64(r.N(3)))
		w.ue(0)
	}
	w.ue(uint64(r.N(3)))
	w.ue(uint64(r.N(4)))
	w.ue(0)
	w.ue(uint64(r.N(4)))
	w.ue(uint64(r.N(3)))
	w.ue(uint64(r.N(3)))
	w.u(8, 0)
	return append([]byte{0x42, 1}, epb(w.stop())...), wd, ht
}

// sibling is the seed of parameter sets that look like those of seed: mostly of the same length, with the same profile,
// level and first bytes, but another picture size or another picture parameter set.
func sibling(seed, k int) int { return seed&(1<<24-1) | k<<24 }

// sameCode returns a value whose Exp-Golomb code is as long as that of v, both less one.
func sameCode(tail *Rng, v int) int {
	if tail == nil {
		return v
	}
	k := 1
	for k<<1 <= v {
		k <<= 1
	}
	return k + tail.N(k)
}

// makeSets returns n of each kind of parameter set.
func makeSets(codec string, seed int, ns, np int) paramSets {
	r := NewRng("ps", codec, seed&(1<<24-1))
	var tail *Rng
	if seed>>24 != 0 {
		tail = NewRng("pstail", codec, seed)
	}
	var p paramSets
	if codec == "h265" {
		p.vps = append(p.vps, nalBody(r, []byte{0x40, 1}, r.In(4, 24)))
		if ns > 1 && r.P(50) {
			p.vps = append(p.vps, nalBody(r, []byte{0x40, 1}, r.In(4, 24)))
		}
	}
	for i := 0; i < ns; i++ {
		var s []byte
		var w, h int
		if codec == "h265" {
			s, w, h = h265SPS(r, tail)
		} else {
			s, w, h = h264SPS(r, tail)
		}
		p.sps = append(p.sps, s)
		p.w = append(p.w, w)
		p.h = append(p.h, h)
	}
	for i := 0; i < np; i++ {
		hdr := []byte{0x68}
		if codec == "h265" {
			hdr = []byte{0x44, 1}
		}
		n := r.In(1, 12)
		if r.P(4) {
			n = r.In(200, 1400)
		}
		b := nalBody(r, hdr, n)
		if tail != nil && tail.P(50) {
			b = nalBody(tail, hdr, n)
		}
		p.pps = append(p.pps, b)
	}
	return p
}

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func avcC(p paramSets, lengthSize int, r *Rng) []byte {
	prof := []byte{66, 0, 30}
	if len(p.sps) > 0 && len(p.sps[0]) > 3 {
		prof = p.sps[0][1:4]
	}
	b := []byte{1, prof[0], prof[1], prof[2], 0xFC | byte(lengthSize-1), 0xE0 | byte(len(p.sps))}
	if r.P(15) { // reserved bits are to be ignored
		b[4] &= byte(r.N(64))<<2 | 3
		b[5] &= byte(r.N(8))<<5 | 31
	}
	for _, s := range p.sps {
		b = append(append(b, be16(len(s))...), s...)
	}
	b = append(b, byte(len(p.pps)))
	for _, s := range p.pps {
		b = append(append(b, be16(len(s))...), s...)
	}
	if prof[0] != 66 && prof[0] != 77 && prof[0] != 88 { // record extension for high profiles
		b = append(b, 0xFC|1, 0xF8, 0xF8, 0)
	}
	return b
}

func hvcC(p paramSets, lengthSize int, r *Rng) []byte {
	b := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xF0, 0, 0xFC, 0xFD, 0xF8, 0xF8, 0, 0, byte(0x0C | (lengthSize - 1)), 3}
	if r.P(40) { // other profiles, frame rates and layers
		for i := 1; i < 21; i++ {
			if r.P(50) {
				b[i] = byte(r.N(256))
			}
		}
		b[21] = byte(r.N(64))<<2 | byte(lengthSize-1)
	}
	arr := func(t int, l [][]byte) {
		h := byte(t)
		if r.P(70) {
			h |= 0x80
		}
		b = append(append(b, h), be16(len(l))...)
		for _, s := range l {
			b = append(append(b, be16(len(s))...), s...)
		}
	}
	arr(32, p.vps)
	arr(33, p.sps)
	arr(34, p.pps)
	if r.P(30) {
		b[22]++
		arr(39, [][]byte{nalBody(r, []byte{0x4E, 1}, r.In(2, 9))})
	}
	return b
}

// startCodes joins NAL units with 3 or 4 byte start codes.
func startCodes(r *Rng, nals [][]byte) []byte {
	var b []byte
	for i, n := range nals {
		if i == 0 || r.P(50) {
			b = append(b, 0)
		}
		b = append(append(b, 0, 0, 1), n...)
	}
	return b
}

func lengthPrefixed(nals [][]byte, size int) []byte {
	var b []byte
	for _, n := range nals {
		for i := size - 1; i >= 0; i-- {
			b = append(b, byte(len(n)>>(8*uint(i))))
		}
		b = append(b, n...)
	}
	return b
}

// splitStart is an independent start code splitter (Annex B): NAL units without start codes and trailing zeros.
func splitStart(b []byte) [][]byte {
	var res [][]byte
	start := -1
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			if start >= 0 {
				res = append(res, bytes.TrimRight(b[start:i], "\x00"))
			}
			start = i + 3
			i += 2
		}
	}
	if start >= 0 && start <= len(b) {
		res = append(res, bytes.TrimRight(b[start:], "\x00"))
	}
	var out [][]byte
	for _, n := range res {
		if len(n) > 0 {
			out = append(out, n)
		}
	}
	return out
}

// splitLength is an independent reader of length-prefixed NAL units.
func splitLength(b []byte, size int) ([][]byte, bool) {
	var res [][]byte
	for len(b) > 0 {
		if len(b) < size {
			return res, false
		}
		n := 0
		for i := 0; i < size; i++ {
			n = n<<8 | int(b[i])
		}
		b = b[size:]
		if n < 1 || n > len(b) {
			return res, false
		}
		res = append(res, b[:n])
		b = b[n:]
	}
	return res, true
}

// parseAvcC and parseHvcC are independent readers of decoder configuration records.
func parseAvcC(b []byte) (sps, pps [][]byte, ok bool) {
	if len(b) < 6 || b[0] != 1 {
		return
	}
	n := int(b[5] & 31)
	b = b[6:]
	rd := func(n int) (res [][]byte) {
		for i := 0; i < n; i++ {
			if len(b) < 2 {
				ok = false
				return
			}
			l := int(b[0])<<8 | int(b[1])
			if len(b) < 2+l {
				ok = false
				return
			}
			res = append(res, b[2:2+l])
			b = b[2+l:]
		}
		return
	}
	ok = true
	sps = rd(n)
	if len(b) < 1 {
		return sps, nil, false
	}
	m := int(b[0])
	b = b[1:]
	pps = rd(m)
	return
}

func parseHvcC(b []byte) (vps, sps, pps [][]byte, ok bool) {
	if len(b) < 23 || b[0] != 1 {
		return
	}
	k := int(b[22])
	b = b[23:]
	for i := 0; i < k; i++ {
		if len(b) < 3 {
			return
		}
		t, n := b[0]&63, int(b[1])<<8|int(b[2])
		b = b[3:]
		for j := 0; j < n; j++ {
			if len(b) < 2 {
				return
			}
			l := int(b[0])<<8 | int(b[1])
			if len(b) < 2+l {
				return
			}
			nal := b[2 : 2+l]
			b = b[2+l:]
			switch t {
			case 32:
				vps = append(vps, nal)
			case 33:
				sps = append(sps, nal)
			case 34:
				pps = append(pps, nal)
			}
		}
	}
	return vps, sps, pps, true
}

func eqSets(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// unStart strips one start code from each entry.
func unStart(l [][]byte) [][]byte {
	var r [][]byte
	for _, b := range l {
		switch {
		case bytes.HasPrefix(b, []byte{0, 0, 0, 1}):
			b = b[4:]
		case bytes.HasPrefix(b, []byte{0, 0, 1}):
			b = b[3:]
		}
		r = append(r, b)
	}
	return r
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var aacChannels = []int{0, 1, 2, 3, 4, 5, 6, 8}

func adtsHeader(rateIdx, ch, size int, crc bool) []byte {
	n := 7
	pa := byte(1)
	if crc {
		n, pa = 9, 0
	}
	size += n
	b := []byte{0xFF, 0xF0 | pa, 1<<6 | byte(rateIdx)<<2 | byte(ch>>2), byte(ch&3)<<6 | byte(size>>11), byte(size >> 3), byte(size&7)<<5 | 0x1F, 0xFC}
	if crc {
		b = append(b, 0x12, 0x34)
	}
	return b
}

// Raw AAC configurations announce more than ADTS headers can: channel
// configurations above 7, and sampling frequencies outside the table, spelled out in 24 bits.
var ascCh = []int{1, 2, 3, 4, 5, 6, 7, 11, 12, 13}

func ascChConfig(ch int) int { return ascCh[(maxI(ch, 1)-1)%len(ascCh)] }

func ascChannels(ch int) int {
	return map[int]int{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 8, 11: 7, 12: 8, 13: 24}[ascChConfig(ch)]
}

func ascRate(rate int) int {
	if rate < 100 {
		return aacRates[maxI(rate, 0)%13]
	}
	return rate & 0xFFFFFF
}

// asc builds an AudioSpecificConfig; rate is an index into aacRates or, from 100 on, a frequency in Hz.
func asc(rate, ch int, ext bool) []byte {
	var v uint64
	n := 0
	put := func(x uint64, k int) { v, n = v<<uint(k)|x, n+k }
	put(2, 5)
	if rate < 100 {
		put(uint64(maxI(rate, 0)%13), 4)
	} else {
		put(15, 4)
		put(uint64(ascRate(rate)), 24)
	}
	put(uint64(ascChConfig(ch)), 4)
	for n%8 != 0 {
		put(0, 1)
	}
	var b []byte
	for n > 0 {
		n -= 8
		b = append(b, byte(v>>uint(n)))
	}
	if ext {
		b = append(b, 0x56, 0xE5, 0)
	}
	return b
}

func codecID(c string) utils.AVCodecID {
	switch c {
	case "h264":
		return utils.AVCodecIdH264
	case "h265":
		return utils.AVCodecIdH265
	case "vp8":
		return utils.AVCodecIdVP8
	case "aac", "adts":
		return utils.AVCodecIdAAC
	case "alaw":
		return utils.AVCodecIdPCMALAW
	case "ulaw":
		return utils.AVCodecIdPCMMULAW
	case "pcm":
		return utils.AVCodecIdPCMS16LE
	case "g726":
		return utils.AVCodecIdADPCMG726
	case "opus":
		return utils.AVCodecIdOPUS
	}
	return utils.AVCodecIdMP3
}

func isVideo(c string) bool { return c == "h264" || c == "h265" || c == "vp8" }
