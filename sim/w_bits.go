package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/lkmio/avformat/bufio"
	rt "github.com/lkmio/avformat/verifsimrt"
)

// World "bits" (G01): a real GolombBitReader reads values from a simulated byte source that delivers as badly as the
// io.Reader contract allows: one byte at a time, empty reads, the final byte together with end-of-stream, errors and
// truncation at any byte. The oracle is the list of values that was encoded.

type BitVal struct {
	K string `json:"k"` // b ReadBits, 3 ReadBits32, 6 ReadBits64, 1 ReadBit, u ue, s se
	N int    `json:"n,omitempty"`
	V int64  `json:"v"`
}

type BitsScenario struct {
	Vals  []BitVal `json:"vals"`
	Cut   int      `json:"cut"`   // bytes the source delivers in all; -1 all of them
	Empty []int    `json:"empty"` // empty reads before byte i
	Last  bool     `json:"last"`  // the final byte comes with the error
	Err   int      `json:"err"`   // how the source ends: 0 EOF, 1 other error, 2 unexpected EOF
	Chunk int      `json:"chunk"` // at most so many bytes per read
	Scrib bool     `json:"scrib"` // the source uses all of the caller's slice as scratch space
}

type bitsWorld struct{}

func init() { register("G01", bitsWorld{}, 1500000, 15000) }

func (bitsWorld) New() interface{} { return &BitsScenario{} }
func (bitsWorld) Rule(string) string {
	return "1-40 random values (fixed width, unsigned and signed Exp-Golomb, biased to boundaries) encoded independently, read back through a simulated source with empty reads, bytes accompanied by end-of-stream, errors and truncation at every position, scribbled scratch space; non-trivial: a source fault was met"
}
func (bitsWorld) Real() []string { return []string{"bufio.GolombBitReader"} }
func (bitsWorld) Stub() []string { return []string{"byte source (simulated io.Reader)"} }

func (bitsWorld) Gen(r *Rng, prop string, big bool) interface{} {
	sc := &BitsScenario{Cut: -1, Chunk: 1 + r.Skew(5), Last: r.P(40), Err: r.N(3), Scrib: r.P(30)}
	n := 1 + r.Skew(40)
	if big {
		n = 1 + r.Skew(400)
	}
	ue := func() int64 {
		switch r.N(4) {
		case 0:
			return int64(r.N(8))
		case 1: // boundary of a code length
			k := uint(r.In(0, 31))
			return clamp64((int64(1)<<k)-1+int64(r.In(-1, 1)), 0, 1<<32-2)
		case 2:
			return int64(r.U() % (1<<32 - 1))
		}
		return int64(r.N(1 << uint(r.In(1, 31))))
	}
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0:
			sc.Vals = append(sc.Vals, BitVal{"1", 1, int64(r.N(2))})
		case 1:
			k := r.In(0, 64)
			sc.Vals = append(sc.Vals, BitVal{"b", k, maskBits(r.U(), k)})
		case 2:
			k := r.In(0, 32)
			sc.Vals = append(sc.Vals, BitVal{"3", k, maskBits(r.U(), k)})
		case 3:
			k := r.In(0, 64)
			sc.Vals = append(sc.Vals, BitVal{"6", k, maskBits(r.U(), k)})
		case 4:
			sc.Vals = append(sc.Vals, BitVal{"u", 0, ue()})
		default:
			v := ue() / 2
			if r.P(60) {
				v = -v
			}
			sc.Vals = append(sc.Vals, BitVal{"s", 0, v})
		}
	}
	total := (len(encodeVals(sc.Vals)) + 7) / 8
	if r.P(50) {
		sc.Cut = r.N(total + 1)
	}
	if r.P(60) {
		for i := 0; i < total; i++ {
			k := 0
			if r.P(25) {
				k = r.In(1, 3)
			}
			if r.N(400) == 0 {
				k = r.In(4, 60)
			}
			sc.Empty = append(sc.Empty, k)
		}
	}
	return sc
}

func clamp64(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func maskBits(v uint64, n int) int64 {
	if n >= 64 {
		return int64(v)
	}
	return int64(v & (1<<uint(n) - 1))
}

// encodeVals returns the bits, one per byte.
func encodeVals(vals []BitVal) []byte {
	var b []byte
	put := func(n int, v uint64) {
		for i := n - 1; i >= 0; i-- {
			b = append(b, byte(v>>uint(i)&1))
		}
	}
	ue := func(v uint64) {
		v++
		n := 0
		for t := v; t > 1; t >>= 1 {
			n++
		}
		put(n, 0)
		put(n+1, v)
	}
	for _, v := range vals {
		switch v.K {
		case "u":
			ue(uint64(clamp64(v.V, 0, 1<<32-2)))
		case "s":
			if v.V > 0 {
				ue(uint64(v.V)*2 - 1)
			} else {
				ue(uint64(-v.V) * 2)
			}
		case "1":
			put(1, uint64(v.V)&1)
		default:
			put(clampI(v.N, 0, 64), uint64(v.V))
		}
	}
	return b
}

var errSource = errors.New("simulated source failure")

type bitSource struct {
	sc    *BitsScenario
	data  []byte
	pos   int
	empty map[int]int
	o     *Outcome
	ended bool
}

func (s *bitSource) end() error {
	s.ended = true
	switch s.sc.Err {
	case 1:
		s.o.Count("source error")
		return errSource
	case 2:
		return io.ErrUnexpectedEOF
	}
	return io.EOF
}

func (s *bitSource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.sc.Scrib {
		for i := range p {
			p[i] = 0xFF
		}
	}
	if s.pos >= len(s.data) {
		return 0, s.end()
	}
	if s.empty[s.pos] > 0 {
		s.empty[s.pos]--
		s.o.Count("empty read")
		return 0, nil
	}
	n := minI(minI(len(p), maxI(1, s.sc.Chunk)), len(s.data)-s.pos)
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.data) && s.sc.Last {
		s.o.Count("final byte delivered together with the end")
		return n, s.end()
	}
	return n, nil
}

func (bitsWorld) Exec(x interface{}, prop string, o *Outcome) {
	sc := x.(*BitsScenario)
	rt.SeedEnv(1)
	single(func() { bitsRun(sc, o) })
}

func bitsRun(sc *BitsScenario, o *Outcome) {
	bits := encodeVals(sc.Vals)
	w := &bitW{}
	for _, b := range bits {
		w.u(1, uint64(b))
	}
	src := &bitSource{sc: sc, data: w.b, o: o, empty: map[int]int{}}
	if sc.Cut >= 0 && sc.Cut < len(w.b) {
		src.data = w.b[:sc.Cut]
		o.Count("source truncated")
	}
	for i, k := range sc.Empty {
		src.empty[i] = clampI(k, 0, 64)
	}
	have := len(src.data) * 8
	rd := &bufio.GolombBitReader{R: src}
	pos := 0
	failed := false
	for i, v := range sc.Vals {
		need := len(encodeVals(sc.Vals[i : i+1]))
		var got uint64
		var err error
		n := clampI(v.N, 0, 64)
		pi := call(func() {
			switch v.K {
			case "1":
				var g uint
				g, err = rd.ReadBit()
				got = uint64(g)
			case "b":
				var g uint
				g, err = rd.ReadBits(n)
				got = uint64(g)
			case "3":
				n = minI(n, 32)
				var g uint32
				g, err = rd.ReadBits32(uint(n))
				got = uint64(g)
			case "6":
				got, err = rd.ReadBits64(uint(n))
			case "u":
				var g uint
				g, err = rd.ReadExponentialGolombCode()
				got = uint64(g)
			default:
				var g uint
				g, err = rd.ReadSE()
				got = uint64(g)
			}
		})
		if pi != nil {
			o.Fail("G01", panicKind(pi), "value %d (%s): %s in %s", i, v.K, pi.Value, pi.Where)
			return
		}
		o.LogN(v.K, n, int(got), pos)
		if failed || pos+need > have {
			if need > 0 && err == nil {
				o.Fail("G01", "no-error", "value %d (%s) needs bits %d..%d, the source delivered %d, yet the read returned %d without an error", i, v.K, pos, pos+need, have, got)
				return
			}
			if need > 0 {
				o.Count("read ended by the source")
			}
			failed = failed || need > 0
			continue
		}
		if err != nil {
			o.Fail("G01", "spurious-error", "value %d (%s) is complete in the %d bits delivered, yet the read reports %v", i, v.K, have, err)
			return
		}
		want := uint64(v.V)
		if v.K == "1" {
			want &= 1
		} else if v.K == "b" || v.K == "3" || v.K == "6" {
			want = uint64(maskBits(want, n))
		}
		if got != want {
			o.Fail("G01", "value-"+v.K, "value %d (%s%s): read %d, encoded %d", i, v.K, map[bool]string{true: fmt.Sprintf(" %d bits", n)}[v.N > 0], int64(got), v.V)
			return
		}
		pos += need
	}
	o.Trivial = len(o.Stats) == 0
}
