package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c02Direct struct {
	Value       uint32
	Time        int64
	Flags       uint32
	Base        [2]int64
	TimeIndex   int
	IncludeTime bool
	Milli       bool
	Extra       int // trailing bytes
}

// execC02Direct encodes a measurement with the library's encoding helpers and decodes it again.
func execC02Direct(c c02Direct, o *vk.Obs) error {
	cache := transport.NewSignalIndexCache()
	base := c.Base
	cm := transport.NewCompactMeasurement(cache, c.IncludeTime, c.Milli, &base)
	if c.TimeIndex == 1 {
		cm.SetCompactStateFlags(0x80)
	}
	cm.Value = float64(math.Float32frombits(c.Value))
	cm.Timestamp = ticks.Ticks(c.Time)
	cm.Flags = transport.StateFlagsEnum(c.Flags)

	length := int(cm.GetBinaryLength())
	fl := cm.GetCompactStateFlags()

	if fl&0x3F != compactFlags(c.Flags) {
		return fmt.Errorf("compact flags of %#x: got %#x want %#x", c.Flags, fl&0x3F, compactFlags(c.Flags))
	}
	if (fl&0x80 != 0) != (c.TimeIndex == 1) {
		return fmt.Errorf("time index bit is %v for index %d", fl&0x80 != 0, c.TimeIndex)
	}
	b := []byte{fl, 0, 0, 0, 0}
	b = binary.BigEndian.AppendUint32(b, c.Value)
	want := int64(0)
	diff := c.Time - base[c.TimeIndex]
	fits := c.IncludeTime && base[c.TimeIndex] > 0 && diff > 0 && (c.Milli && diff/10000 < math.MaxUint16 || !c.Milli && diff < math.MaxUint32)
	if c.IncludeTime {
		if (fl&0x40 != 0) != fits {
			return fmt.Errorf("offset bit is %v, want %v (time %d base %d)", fl&0x40 != 0, fits, c.Time, base[c.TimeIndex])
		}
		switch {
		case !fits:
			b = binary.BigEndian.AppendUint64(b, uint64(c.Time))
			want = c.Time
		case c.Milli:
			if got := cm.GetTimestampC2(); int64(got) != diff/10000 {
				return fmt.Errorf("2-byte timestamp: got %d want %d", got, diff/10000)
			}
			b = binary.BigEndian.AppendUint16(b, cm.GetTimestampC2())
			want = base[c.TimeIndex] + diff/10000*10000
		default:
			if got := cm.GetTimestampC4(); int64(got) != diff {
				return fmt.Errorf("4-byte timestamp: got %d want %d", got, diff)
			}
			b = binary.BigEndian.AppendUint32(b, cm.GetTimestampC4())
			want = c.Time
		}
	}
	if length != len(b) {
		return fmt.Errorf("reported length %d, encoding has %d bytes", length, len(b))
	}
	for i := 0; i < c.Extra; i++ {
		b = append(b, 0xEE)
	}
	dm := transport.NewCompactMeasurement(cache, c.IncludeTime, c.Milli, &base)
	n, err := dm.Decode(b)
	if err != nil {
		return fmt.Errorf("decode: %v", err)
	}
	if n != length {
		return fmt.Errorf("decode consumed %d bytes of %d", n, length)
	}
	got := gotMeas{guid.Guid{}, f64bits(dm.Value), int64(dm.Timestamp), uint32(dm.Flags)}
	w := wantMeas(guid.Guid{}, c.Value, want, expandFlags(compactFlags(c.Flags)))
	if got != w {
		return fmt.Errorf("round trip: got %s want %s", showMeas(got), showMeas(w))
	}
	for k := 0; k < length; k++ {
		if _, err := dm.Decode(b[:k]); err == nil {
			return fmt.Errorf("decoding %d bytes of %d reported no error", k, length)
		}
	}
	if fits {
		o.NonTrivial()
		o.Label("offset")
	}
	return nil
}

type compactPacket struct {
	Slot int
	Base *[2]int64 // base time update before the packet
	Recs []compactRec
}

type c02Case struct {
	IncludeTime, Milli bool
	Indexes            [2][]int32
	Packets            []compactPacket
	Version            byte
	Pool               bool
}

func genRec(t *rapid.T, idx []int32) compactRec {
	r := compactRec{
		Index: rapid.SampledFrom(idx).Draw(t, "index"),
		Value: genUint32(t, "value"),
		Flags: byte(rapid.IntRange(0, 63).Draw(t, "flags")),
		Mode:  rapid.IntRange(0, 2).Draw(t, "mode"),
	}
	if r.Mode == 0 {
		r.Time = genInt64(t, "time")
	} else {
		r.Off = genUint32(t, "off")
	}
	return r
}

func genIndexes(t *rapid.T, max int) []int32 {
	return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) int32 { return genInt32ID(t, "ix") }), 1, max, rapid.ID[int32]).Draw(t, "indexes")
}

func genBase(t *rapid.T) *[2]int64 {
	g := rapid.OneOf(rapid.Int64Range(630822816000000000, 650000000000000000), rapid.Int64Range(1, 3155378975999999999), rapid.Int64Range(1, 1000))
	return &[2]int64{g.Draw(t, "base0"), g.Draw(t, "base1")}
}

func execC02(c c02Case, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	ds.Version = c.Version
	ds.CompressPayloadData = false
	ds.Subscription().IncludeTime = c.IncludeTime
	ds.Subscription().UseMillisecondResolution = c.Milli
	s, err := dialSess(o, ds, c.Pool)
	if err != nil {
		return err
	}
	defer s.closeLater()
	ids := [2]map[int32]guid.Guid{{}, {}}
	for slot := 0; slot < 2; slot++ {
		var recs []pub.Record
		for i, ix := range c.Indexes[slot] {
			g := guidOf(uint32(1000*(slot+1) + i))
			if c.Version == 1 && slot == 1 {
				break
			}
			ids[slot][ix] = g
			recs = append(recs, pub.Record{Index: ix, ID: g, Source: "S", Num: uint64(i)})
		}
		if len(recs) > 0 {
			s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, slot, pub.CacheBody(guidOf(7), recs, false), true))
		}
	}
	var want []gotMeas
	var base [2]int64
	for k, p := range c.Packets {
		slot := p.Slot
		if c.Version == 1 {
			slot = 0
		}
		if p.Base != nil {
			base = *p.Base
			s.c.Send(pub.RespBaseTimes, 0, pub.BaseTimes(uint32(k%2), base[0], base[1]))
		}
		var body []byte
		for _, r := range p.Recs {
			if _, ok := ids[slot][r.Index]; !ok {
				r.Index = c.Indexes[slot][0]
			}
			var tm int64
			body, tm = encodeCompact(body, r, c.IncludeTime, c.Milli, base)
			want = append(want, wantMeas(ids[slot][r.Index], r.Value, tm, expandFlags(r.Flags)))
			if r.Mode > 0 && base[0] > 0 && c.IncludeTime {
				o.Label("offset")
				o.NonTrivial()
			}
			if slot == 1 {
				o.Label("slot1")
				o.NonTrivial()
			}
		}
		fl := byte(pub.FlagCompact)
		if slot == 1 {
			fl |= pub.FlagCacheIndex
		}
		s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl, uint32(len(p.Recs)), body, nil, false))
	}
	if err := s.barrier(); err != nil {
		return err
	}
	return diffMeas(s.rec.measurements(), want)
}

func TestC02(t *testing.T) {
	vk.Run(t, vk.Spec[c02Direct]{
		ID: "C02", Name: "direct", Rule: "one measurement through the compact encode helpers and Decode; non-trivial: time encoded as base offset",
		Quick: 20000, Deep: 400000,
		Gen: func(t *rapid.T) c02Direct {
			c := c02Direct{
				Value: genUint32(t, "value"), Flags: genUint32(t, "flags"), IncludeTime: rapid.IntRange(0, 5).Draw(t, "it") > 0,
				Milli: rapid.Bool().Draw(t, "milli"), TimeIndex: rapid.IntRange(0, 1).Draw(t, "ti"), Extra: rapid.IntRange(0, 3).Draw(t, "extra"),
			}
			if rapid.Bool().Draw(t, "bit") {
				c.Flags = 1 << rapid.IntRange(0, 31).Draw(t, "flagbit")
			}
			c.Base = *genBase(t)
			if rapid.IntRange(0, 9).Draw(t, "nobase") == 0 {
				c.Base[c.TimeIndex] = 0
			}
			lim := int64(math.MaxUint32)
			if c.Milli {
				lim = 65535 * 10000
			}
			d := rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(0, lim), rapid.Int64Range(lim-20001, lim+20001), rapid.Int64Range(-100000, 10*lim)).Draw(t, "diff")
			c.Time = c.Base[c.TimeIndex]
			if c.Time < 3155378975999999999 {
				c.Time += d
			} else {
				c.Time -= d
			}
			if c.Time < 0 {
				c.Time = 0
			}
			return c
		},
		Exec: execC02Direct,
	})
	vk.Run(t, vk.Spec[c02Case]{
		ID: "C02", Name: "session", Rule: "compact data packets with base-time updates over a live session; non-trivial: an offset time or cache slot 1 used",
		Quick: 700, Deep: 8000,
		Gen: func(t *rapid.T) c02Case {
			c := c02Case{IncludeTime: rapid.IntRange(0, 4).Draw(t, "it") > 0, Milli: rapid.Bool().Draw(t, "milli"), Pool: rapid.Bool().Draw(t, "pool"),
				Version: rapid.SampledFrom([]byte{2, 2, 2, 1}).Draw(t, "version")}
			c.Indexes = [2][]int32{genIndexes(t, 6), genIndexes(t, 6)}
			n := rapid.IntRange(1, 6).Draw(t, "npackets")
			for i := 0; i < n; i++ {
				p := compactPacket{Slot: rapid.IntRange(0, 1).Draw(t, "slot")}
				if rapid.Bool().Draw(t, "newbase") {
					p.Base = genBase(t)
				}
				p.Recs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) compactRec { return genRec(t, c.Indexes[p.Slot]) }), 0, 25).Draw(t, "recs")
				c.Packets = append(c.Packets, p)
			}
			return c
		},
		Exec: execC02,
	})
}
