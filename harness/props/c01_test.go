package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/sttp/goapi/sttp/transport/tssc"
	"pgregory.net/rapid"
	"verif/harness/ref"
	"verif/harness/vk"
)

// tsscOp is one step of a measurement walk; see expandWalk.
type tsscOp struct {
	ID    int    // index into the ID pool
	Time  int    // 0 same, 1 +delta, 2 -delta, 3 the time before, 4 absolute
	D     int    // index into the delta pool
	Flags int    // index into the flags pool
	Val   int    // 0 same, 1 second last, 2 third last, 3 zero, 4 xor mask, 5 pseudo-random low bits, 6 absolute
	Arg   uint32 // mask, width or value
	Abs   int64
}

type walk struct {
	IDs    []int32
	Deltas []int64
	Flags  []uint32
	Ops    []tsscOp
	Repeat int
}

// expandWalk turns a walk into measurements; it is a pure function of the walk.
func expandWalk(w walk) []ref.Meas {
	var out []ref.Meas
	var ts, ts2 int64
	type st struct{ v [3]uint32 }
	hist := map[int32]*st{}
	lcg := uint32(12345)
	for r := 0; r < w.Repeat; r++ {
		for _, op := range w.Ops {
			id := w.IDs[op.ID%len(w.IDs)]
			t := ts
			d := w.Deltas[op.D%len(w.Deltas)]
			switch op.Time {
			case 1:
				t = ts + d
			case 2:
				t = ts - d
			case 3:
				t = ts2
			case 4:
				t = op.Abs
			}
			if t != ts {
				ts2, ts = ts, t
			}
			h := hist[id]
			if h == nil {
				h = &st{}
				hist[id] = h
			}
			v := h.v[0]
			switch op.Val {
			case 1:
				v = h.v[1]
			case 2:
				v = h.v[2]
			case 3:
				v = 0
			case 4:
				v ^= op.Arg
			case 5:
				lcg = lcg*1664525 + 1013904223
				v ^= (lcg >> 3) & uint32(1<<(op.Arg%33)-1)
			case 6:
				v = op.Arg
			}
			if v != h.v[0] {
				h.v = [3]uint32{v, h.v[0], h.v[1]}
			}
			out = append(out, ref.Meas{ID: id, Time: ts, Flags: w.Flags[op.Flags%len(w.Flags)], Value: v})
		}
	}
	return out
}

func genInt64(t *rapid.T, label string) int64 {
	return rapid.OneOf(
		rapid.Int64(),
		rapid.Int64Range(-1000, 1000),
		rapid.Int64Range(630822816000000000, 650000000000000000),
		rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}),
		rapid.Custom(func(t *rapid.T) int64 {
			return int64(1)<<rapid.IntRange(0, 62).Draw(t, "sh") + rapid.Int64Range(-2, 2).Draw(t, "off")
		}),
	).Draw(t, label)
}

func genUint32(t *rapid.T, label string) uint32 {
	return rapid.OneOf(
		rapid.Uint32(),
		rapid.Uint32Range(0, 300),
		rapid.Custom(func(t *rapid.T) uint32 {
			return uint32(1)<<rapid.IntRange(0, 31).Draw(t, "sh") + uint32(rapid.IntRange(-2, 2).Draw(t, "off"))
		}),
		rapid.Custom(func(t *rapid.T) uint32 {
			return math.Float32bits(float32(rapid.IntRange(-5000, 5000).Draw(t, "f")) / 16)
		}),
	).Draw(t, label)
}

func genInt32ID(t *rapid.T, label string) int32 {
	return rapid.OneOf(
		rapid.Int32Range(0, 40),
		rapid.Int32(),
		rapid.SampledFrom([]int32{0, 1, math.MaxInt32, math.MinInt32, -1}),
		rapid.Custom(func(t *rapid.T) int32 {
			return int32(uint32(1)<<rapid.IntRange(0, 31).Draw(t, "sh") + uint32(rapid.IntRange(-1, 1).Draw(t, "off")))
		}),
	).Draw(t, label)
}

func genWalk(t *rapid.T, maxOps, maxMeas int) walk {
	w := walk{}
	consecutive := rapid.Bool().Draw(t, "consecutiveIDs")
	nid := rapid.IntRange(1, 10).Draw(t, "nids")
	base := genInt32ID(t, "base")
	for i := 0; i < nid; i++ {
		if consecutive {
			w.IDs = append(w.IDs, base+int32(i))
		} else {
			w.IDs = append(w.IDs, genInt32ID(t, "id"))
		}
	}
	nd := rapid.IntRange(1, 7).Draw(t, "ndeltas")
	for i := 0; i < nd; i++ {
		w.Deltas = append(w.Deltas, rapid.OneOf(rapid.SampledFrom([]int64{333333, 333334, 1, 100, 10000, 400000}), rapid.Custom(func(t *rapid.T) int64 { return genInt64(t, "d") })).Draw(t, "delta"))
	}
	nf := rapid.IntRange(1, 4).Draw(t, "nflags")
	for i := 0; i < nf; i++ {
		w.Flags = append(w.Flags, genUint32(t, "flags"))
	}
	nops := rapid.IntRange(1, maxOps).Draw(t, "nops")
	// A bias towards few kinds makes the adaptive tables settle; its absence makes them churn.
	calm := rapid.Bool().Draw(t, "calm")
	for i := 0; i < nops; i++ {
		op := tsscOp{ID: i % nid}
		if !calm || rapid.IntRange(0, 5).Draw(t, "jump") == 0 {
			op.ID = rapid.IntRange(0, nid-1).Draw(t, "idIx")
		}
		if calm {
			op.Time = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3}).Draw(t, "time")
			op.Flags = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3}).Draw(t, "flagIx")
			op.Val = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 5, 5}).Draw(t, "val")
		} else {
			op.Time = rapid.IntRange(0, 4).Draw(t, "time")
			op.Flags = rapid.IntRange(0, 3).Draw(t, "flagIx")
			op.Val = rapid.IntRange(0, 6).Draw(t, "val")
		}
		if op.Time == 1 || op.Time == 2 {
			op.D = rapid.IntRange(0, nd-1).Draw(t, "dIx")
		}
		if op.Time == 4 {
			op.Abs = genInt64(t, "abs")
		}
		if op.Val == 5 {
			op.Arg = rapid.Uint32Range(1, 32).Draw(t, "width")
		} else if op.Val == 4 || op.Val == 6 {
			op.Arg = genUint32(t, "arg")
		}
		w.Ops = append(w.Ops, op)
	}
	max := maxMeas / nops
	if max < 1 {
		max = 1
	}
	w.Repeat = rapid.OneOf(rapid.IntRange(1, max), rapid.IntRange(1, min(max, 8))).Draw(t, "repeat")
	return w
}

type c01Case struct {
	Walk walk
	Cuts []int // buffer lengths in measurements, used cyclically
}

func execC01(c c01Case, o *vk.Obs) error {
	ms := expandWalk(c.Walk)
	enc := ref.NewTSSCEncoder()
	dec := tssc.NewDecoder()
	bufs := 0
	for at, k := 0, 0; at < len(ms); k++ {
		n := c.Cuts[k%len(c.Cuts)]
		if n > len(ms)-at {
			n = len(ms) - at
		}
		for _, m := range ms[at : at+n] {
			enc.Add(m)
		}
		buf := enc.Finish()
		bufs++
		dec.SetBuffer(buf)
		for i := 0; i <= n; i++ {
			var id int32
			var ts int64
			var fl uint32
			var v float32
			ok, err := dec.TryGetMeasurement(&id, &ts, &fl, &v)
			if err != nil {
				return fmt.Errorf("measurement %d of buffer %d: error %v", i, k, err)
			}
			if i == n {
				if ok {
					return fmt.Errorf("buffer %d: extra measurement id=%d", k, id)
				}
				break
			}
			if !ok {
				return fmt.Errorf("buffer %d: only %d of %d measurements returned", k, i, n)
			}
			want := ms[at+i]
			got := ref.Meas{ID: id, Time: ts, Flags: fl, Value: math.Float32bits(v)}
			if got != want && !(got.ID == want.ID && got.Time == want.Time && got.Flags == want.Flags && isNaNBits(got.Value) && isNaNBits(want.Value)) {
				return fmt.Errorf("measurement %d of buffer %d: got %+v want %+v", i, k, got, want)
			}
		}
		at += n
	}
	if bufs > 1 {
		o.Label("several-buffers")
	}
	if enc.Adapts > 0 {
		o.Label("adaptive")
		o.NonTrivial()
	}
	if len(ms) > 500 {
		o.Label("long")
	}
	return nil
}

func isNaNBits(b uint32) bool { return b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0 }

func genCuts(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 400)), 1, 5).Draw(t, "cuts")
}

func TestC01(t *testing.T) {
	rule := "walks over id/time/flag/value pools, repeated and cut into buffers; non-trivial: at least one adaptive code-table change"
	vk.Run(t, vk.Spec[c01Case]{
		ID: "C01", Name: "walks", Rule: rule, Quick: 4000, Deep: 60000,
		Gen:  func(t *rapid.T) c01Case { return c01Case{genWalk(t, 30, 600), genCuts(t)} },
		Exec: execC01,
	})
	vk.Run(t, vk.Spec[c01Case]{
		ID: "C01", Name: "long", Rule: rule + "; up to 20000 measurements", Quick: 60, Deep: 1500,
		Gen:  func(t *rapid.T) c01Case { return c01Case{genWalk(t, 60, 20000), genCuts(t)} },
		Exec: execC01,
	})
}
