package props

import (
	"errors"
	"fmt"
	"testing"

	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

// c05Step is one publisher packet and what the network or publisher does to it.
type c05Step struct {
	Kind string // cache, tssc, compact, reset, reconnect
	Slot int
	N    int
	Fate string // deliver, drop, dup, late (after the next packet), cut, short
	Cut  int
	W    *walk        `json:",omitempty"`
	Recs []compactRec `json:",omitempty"`
}

type c05Case struct {
	IncludeTime bool
	Pool        bool
	Chunks      []int
	Steps       []c05Step
}

type c05Packet struct {
	tssc bool
	slot int
	gen  int
	seq  uint16
	meas []gotMeas
	raw  []byte
	cut  bool
}

// execC05 plays a faulty history. The receiver model: a TSSC packet is decodable when its slot has a cache and its
// sequence number is 0 (reset) or the next one expected.
func execC05(c c05Case, o *vk.Obs) (result error) {
	ds := transport.NewDataSubscriber()
	ds.Subscription().IncludeTime = c.IncludeTime
	s, err := dialSess(o, ds, c.Pool)
	if err != nil {
		return err
	}
	defer s.closeLater()
	s.c.SetChunks(c.Chunks)

	var slots [2]slotModel // publisher
	var gen [2]int
	var expect [2]uint16 // receiver
	var live [2]bool
	var want []gotMeas
	faults, after := 0, 0
	var held *c05Packet
	wasCut := false

	// Giving up the connection is one right answer to a shortened packet; it happens some time after the packet.
	defer func() {
		if wasCut && errors.Is(result, errClosed) {
			o.Label("cut-disconnects")
			o.NonTrivial()
			result = nil
			if !until(o.Wait(), func() bool { return !ds.IsConnected() }) {
				result = vk.Stuck("closed connection still reported connected")
				return
			}
			got := s.rec.measurements()
			result = diffMeas(got, want[:min(len(got), len(want))])
		}
	}()

	// Before its cache is sent the publisher already knows what it will contain.
	for i := range slots {
		slots[i].load(uint32(40+i), 3)
	}

	arrive := func(p c05Packet) error {
		if err := s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, p.raw); err != nil {
			return errClosed
		}
		if !live[p.slot] {
			o.Label("before-cache")
			faults++
			return nil
		}
		if !p.tssc {
			want = append(want, p.meas...)
			if faults > 0 {
				after++
			}
			return nil
		}
		if p.seq == 0 {
			expect[p.slot] = 0
		}
		if p.seq != expect[p.slot] {
			o.Label("out-of-sequence")
			return nil
		}
		expect[p.slot]++
		want = append(want, p.meas...)
		if faults > 0 {
			after++
		}
		return nil
	}
	release := func() error {
		if held == nil {
			return nil
		}
		p := *held
		held = nil
		return arrive(p)
	}

	for i, st := range c.Steps {
		slot := st.Slot
		m := &slots[slot]
		fl := byte(0)
		if slot == 1 {
			fl = pub.FlagCacheIndex
		}
		switch st.Kind {
		case "cache":
			if err := release(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			recs := m.load(uint32(st.N), 1+st.N%5)
			if err := s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, slot, pub.CacheBody(guidOf(5), recs, false), true)); err != nil {
				return errClosed
			}
			gen[slot]++
			live[slot] = true
			expect[slot] = 0
			continue
		case "reset":
			if err := release(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			m.reset()
			continue
		}
		p := c05Packet{slot: slot, gen: gen[slot]}
		if st.Kind == "tssc" {
			p.tssc, p.seq = true, m.seq
			var body []byte
			body, p.meas = m.tsscPacket(*st.W, 400)
			count := len(p.meas)
			if st.Fate == "cut" {
				body = body[:min(st.Cut, len(body))]
			}
			p.raw = pub.DataPacket(fl|pub.FlagCompressed, uint32(count), body, nil, false)
		} else {
			var body []byte
			body, p.meas = m.compactBody(st.Recs, 1, c.IncludeTime, false, [2]int64{})
			count := len(p.meas)
			if st.Fate == "cut" {
				body = body[:min(st.Cut, len(body))]
			}
			p.raw = pub.DataPacket(fl|pub.FlagCompact, uint32(count), body, nil, false)
		}
		fate := st.Fate
		if p.tssc && p.seq == 0 && fate != "cut" && !(fate == "drop" && expect[slot] == 0) {
			// Losing or repeating a reset cannot be noticed by a receiver that expects the following number.
			fate = "deliver"
		}
		if !p.tssc && (fate == "dup" || fate == "late" || fate == "drop") {
			fate = "deliver"
		}
		switch fate {
		case "drop":
			if err := release(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			faults++
		case "dup":
			if err := release(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			faults++
			for k := 0; k < 2; k++ {
				if err := arrive(p); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
		case "late":
			if err := release(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			faults++
			held = &p
		case "cut":
			if err := release(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			faults++
			if err := s.barrier(); err != nil {
				return fmt.Errorf("step %d, before cut packet: %w", i, err)
			}
			if err := diffMeas(s.rec.measurements(), want); err != nil {
				return fmt.Errorf("before step %d: %w", i, err)
			}
			if err := s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, p.raw); err != nil {
				return errClosed
			}
			wasCut = true
			err := s.barrier()
			if err != nil && !errors.Is(err, errClosed) {
				return fmt.Errorf("step %d, after cut packet: %w", i, err)
			}
			// Whatever was delivered must be what the publisher encoded.
			got := s.rec.measurements()
			extra := got[min(len(want), len(got)):]
			if len(extra) > len(p.meas) || diffMeas(extra, p.meas[:len(extra)]) != nil {
				return fmt.Errorf("step %d: packet cut to %d bytes delivered %d measurements that were not published: %v", i, len(p.raw), len(extra), diffMeas(extra, p.meas[:min(len(extra), len(p.meas))]))
			}
			if !live[slot] && len(extra) > 0 {
				return fmt.Errorf("step %d: measurements delivered without a cache", i)
			}
			want = append(want, extra...)
			o.Label("cut")
			if err != nil {
				return err
			}
			m.reset()             // the publisher restarts the stream
			expect[slot] = 0xFFFF // how far the receiver got is unknown, so the restart has to reach it
		default:
			if err := arrive(p); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if held != nil {
				if err := release(); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
		}
	}
	if err := release(); err != nil {
		return err
	}
	if err := s.barrier(); err != nil {
		return fmt.Errorf("%w; %v", err, diffMeas(s.rec.measurements(), want))
	}
	if err := diffMeas(s.rec.measurements(), want); err != nil {
		return err
	}
	if got := ds.TotalMeasurementsReceived(); got != uint64(len(want)) {
		return fmt.Errorf("received total is %d, %d measurements were delivered", got, len(want))
	}
	if faults > 0 && after > 0 {
		o.NonTrivial()
	}
	return nil
}

func TestC05(t *testing.T) {
	vk.Run(t, vk.Spec[c05Case]{
		ID: "C05", Name: "faults", Rule: "histories with lost, repeated, late, early and shortened data packets; non-trivial: data delivered correctly after a fault, or a shortened packet",
		Quick: 3500, Deep: 40000,
		Gen: func(t *rapid.T) c05Case {
			c := c05Case{IncludeTime: rapid.IntRange(0, 3).Draw(t, "it") > 0, Pool: rapid.Bool().Draw(t, "pool"), Chunks: genChunks(t)}
			n := rapid.IntRange(2, 18).Draw(t, "n")
			if rapid.IntRange(0, 2).Draw(t, "early") > 0 {
				c.Steps = append(c.Steps, c05Step{Kind: "cache", N: rapid.IntRange(0, 30).Draw(t, "c0")})
			}
			for i := 0; i < n; i++ {
				st := c05Step{Kind: rapid.SampledFrom([]string{"tssc", "tssc", "tssc", "tssc", "compact", "compact", "cache", "reset"}).Draw(t, "kind"),
					Slot: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "slot")}
				st.Fate = rapid.SampledFrom([]string{"deliver", "deliver", "deliver", "drop", "dup", "late", "cut"}).Draw(t, "fate")
				st.N = rapid.IntRange(0, 60).Draw(t, "cn")
				if st.Fate == "cut" {
					st.Cut = rapid.IntRange(0, 120).Draw(t, "cut")
				}
				switch st.Kind {
				case "tssc":
					w := genWalk(t, 5, 25)
					st.W = &w
				case "compact":
					st.Recs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) compactRec { return genRec(t, []int32{0, 1, 2, 3, 4, 5}) }), 1, 6).Draw(t, "recs")
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		Exec: execC05,
	})
}
