// Package ref holds reference implementations used as oracles: a TSSC encoder, wire encoders and small models.
package ref

import "math"

// Meas is a measurement on the wire. Value is the 32-bit float's bits.
type Meas struct {
	ID    int32
	Time  int64
	Flags uint32
	Value uint32
}

type tsscPoint struct {
	next   int32
	flags  [2]uint32
	values [3]uint32

	stats  [32]int
	sent   int
	phase  int
	prefix []int // codes with short prefixes, most frequent first; their number is mode-1
}

// TSSCEncoder writes the Time-Series Special Compression format of IEEE 2664.
type TSSCEncoder struct {
	out    []byte
	bitPos int // index of the byte receiving bits, -1 if none
	cache  uint32
	count  int

	ts1, ts2 int64
	delta    [4]int64
	last     *tsscPoint
	points   map[int32]*tsscPoint
	Adapts   int // number of code table changes, for coverage
}

// NewTSSCEncoder creates an encoder in its initial state.
func NewTSSCEncoder() *TSSCEncoder {
	e := &TSSCEncoder{bitPos: -1, points: map[int32]*tsscPoint{}}
	for i := range e.delta {
		e.delta[i] = math.MaxInt64
	}
	e.last = newTSSCPoint()
	return e
}

func newTSSCPoint() *tsscPoint {
	return &tsscPoint{prefix: []int{20, 21, 22}}
}

func (e *TSSCEncoder) bits(code uint32, n int) {
	if e.bitPos < 0 {
		e.bitPos = len(e.out)
		e.out = append(e.out, 0)
	}
	e.cache = e.cache<<uint(n) | code
	e.count += n
	for e.count > 7 {
		e.out[e.bitPos] = byte(e.cache >> uint(e.count-8))
		e.count -= 8
		if e.count > 0 {
			e.bitPos = len(e.out)
			e.out = append(e.out, 0)
		} else {
			e.bitPos = -1
		}
	}
}

func (e *TSSCEncoder) code(p *tsscPoint, code int) {
	written := false
	for i, c := range p.prefix {
		if c == code {
			e.bits(1, i+1)
			written = true
			break
		}
	}
	if !written {
		e.bits(uint32(code), 5+len(p.prefix))
	}

	p.sent++
	p.stats[code]++
	limit := []int{5, 20, 100}[p.phase]
	if p.sent > limit {
		if p.phase < 2 {
			p.phase++
		}
		p.adapt()
		e.Adapts++
	}
}

// adapt picks the cheapest of the four code tables for the observed frequencies.
func (p *tsscPoint) adapt() {
	type cc struct{ code, count int }
	top := []cc{{0, 0}, {1, 0}, {2, 0}}
	total := 0
	for i, n := range p.stats {
		total += n
		for k := range top {
			if n > top[k].count {
				if k < 2 {
					copy(top[k+1:], top[k:2])
				}
				top[k] = cc{i, n}
				break
			}
		}
		p.stats[i] = 0
	}
	best, bestSize := 0, math.MaxInt
	for mode := 0; mode <= 3; mode++ {
		size, rest := 0, total
		for k := 0; k < mode; k++ {
			size += top[k].count * (k + 1)
			rest -= top[k].count
		}
		size += rest * (5 + mode)
		if size < bestSize {
			best, bestSize = mode, size
		}
	}
	p.prefix = nil
	for k := 0; k < best; k++ {
		p.prefix = append(p.prefix, top[k].code)
	}
	p.sent = 0
}

func (e *TSSCEncoder) bytes(v uint64, n int) {
	for i := 0; i < n; i++ {
		e.out = append(e.out, byte(v>>(8*uint(i))))
	}
}

// xored writes v with the code words for 4, 8, 12, ... bits starting at base.
func (e *TSSCEncoder) xored(v uint32, base int, widths []int) {
	for i, w := range widths {
		if w == 32 || v < 1<<uint(w) {
			e.code(e.last, base+i)
			if w%8 == 4 {
				e.bits(v&15, 4)
				e.bytes(uint64(v>>4), w/8)
			} else {
				e.bytes(uint64(v), w/8)
			}
			return
		}
	}
}

func (e *TSSCEncoder) sevenBit(v uint64, max int) {
	for i := 1; ; i++ {
		if i == max && max == 9 { // ninth byte of a 64-bit value is a full byte
			e.out = append(e.out, byte(v))
			return
		}
		if v < 128 {
			e.out = append(e.out, byte(v))
			return
		}
		e.out = append(e.out, byte(v)|0x80)
		v >>= 7
	}
}

// Add encodes one measurement.
func (e *TSSCEncoder) Add(m Meas) {
	if m.ID != e.last.next {
		e.xored(uint32(m.ID^e.last.next), 1, []int{4, 8, 12, 16, 20, 24, 32})
		e.last.next = m.ID
	}
	p := e.points[m.ID]
	if p == nil {
		p = newTSSCPoint()
		p.next = m.ID + 1
		e.points[m.ID] = p
	}
	if m.Time != e.ts1 {
		e.time(m.Time)
	}
	if m.Flags != p.flags[0] {
		if m.Flags == p.flags[1] {
			e.code(e.last, 18)
		} else {
			e.code(e.last, 19)
			e.sevenBit(uint64(m.Flags), 5)
		}
		p.flags[1] = p.flags[0]
		p.flags[0] = m.Flags
	}
	v := &p.values
	switch {
	case m.Value == v[0]:
		e.code(e.last, 20)
	case m.Value == v[1]:
		e.code(e.last, 21)
		v[1], v[0] = v[0], m.Value
	case m.Value == v[2]:
		e.code(e.last, 22)
		v[2], v[1], v[0] = v[1], v[0], m.Value
	case m.Value == 0:
		e.code(e.last, 23)
		v[2], v[1], v[0] = v[1], v[0], 0
	default:
		e.xored(m.Value^v[0], 24, []int{4, 8, 12, 16, 20, 24, 28, 32})
		v[2], v[1], v[0] = v[1], v[0], m.Value
	}
	e.last = p
}

func (e *TSSCEncoder) time(t int64) {
	code := 17
	if t == e.ts2 {
		code = 16
	} else if e.ts1 < t {
		for i, d := range e.delta {
			if e.ts1+d == t {
				code = 8 + i
				break
			}
		}
	} else {
		for i, d := range e.delta {
			if e.ts1-d == t {
				code = 12 + i
				break
			}
		}
	}
	e.code(e.last, code)
	if code == 17 {
		e.sevenBit(uint64(t^e.ts1), 9)
	}

	d := e.ts1 - t
	if d < 0 {
		d = -d
	}
	if d < e.delta[3] && d != e.delta[0] && d != e.delta[1] && d != e.delta[2] {
		for i := range e.delta {
			if i == 3 || d < e.delta[i] {
				copy(e.delta[i+1:], e.delta[i:3])
				e.delta[i] = d
				break
			}
		}
	}
	e.ts2, e.ts1 = e.ts1, t
}

// Finish ends the current buffer and returns it; the encoder continues with the next one.
func (e *TSSCEncoder) Finish() []byte {
	if e.count > 0 {
		// Pending bits: an end-of-stream code tells the decoder to stop before the padding.
		e.code(e.last, 0)
		if e.count > 0 {
			e.out[e.bitPos] = byte(e.cache << uint(8-e.count))
		}
	}
	out := e.out
	e.out, e.bitPos, e.cache, e.count = nil, -1, 0, 0
	return out
}

// Len is the size of the current buffer so far.
func (e *TSSCEncoder) Len() int { return len(e.out) }
