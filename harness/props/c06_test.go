package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c06Block struct {
	Sig  int
	Data []byte
	Fill int // repeats Data to this length
}

// c06Round is one connection: the blocks and the order in which (numbers of) blocks arrive.
type c06Round struct {
	Blocks  []c06Block
	Arrival []int
	Sleep   bool
}

type c06Case struct {
	Version byte
	Slot    int
	Chunks  []int
	Rounds  []c06Round
}

func (b c06Block) content() []byte {
	if len(b.Data) == 0 {
		return []byte{}
	}
	out := append([]byte(nil), b.Data...)
	for len(out) < b.Fill {
		out = append(out, b.Data...)
	}
	return out
}

func execC06(c c06Case, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	ds.Version = c.Version
	s, err := dialSess(o, ds, false)
	if err != nil {
		return err
	}
	defer s.closeLater()
	slot := c.Slot
	if c.Version == 1 {
		slot = 0
	}
	for round, r := range c.Rounds {
		if round > 0 {
			s.c.Close()
			if !until(o.Wait(), func() bool { n := 0; s.rec.with(func() { n = s.rec.term }); return n >= round }) {
				return vk.Stuck("connection loss %d not reported", round)
			}
			if err := ds.Connect("127.0.0.1", s.p.Port()); err != nil {
				return fmt.Errorf("reconnect: %v", err)
			}
			nc, err := s.p.Accept(o.Wait())
			if err != nil {
				return vk.Stuck("no reconnect: %v", err)
			}
			s.c = nc
			if err := s.hello(); err != nil {
				return err
			}
			o.Label("reconnected")
			s.rec.with(func() { s.rec.blocks, s.rec.blockNs = nil, nil })
		}
		s.c.SetChunks(c.Chunks)
		var m slotModel
		recs := m.load(3, 4)
		if err := s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, slot, pub.CacheBody(guidOf(5), recs, false), true)); err != nil {
			return errClosed
		}
		var want []transport.BufferBlock
		seen := map[int]bool{}
		next := 0
		for i, a := range r.Arrival {
			if a >= len(r.Blocks) {
				continue
			}
			b := r.Blocks[a]
			ix := m.idx[b.Sig%len(m.idx)]
			body := binary.BigEndian.AppendUint32(nil, uint32(a))
			if c.Version > 1 {
				body = append(body, byte(slot))
			}
			body = binary.BigEndian.AppendUint32(body, uint32(ix))
			body = append(body, b.content()...)
			if err := s.c.Send(pub.RespBufferBlock, pub.CmdSubscribe, body); err != nil {
				return errClosed
			}
			if seen[a] {
				o.Label("retransmission")
			} else if a != next {
				o.Label("out-of-order")
				o.NonTrivial()
			}
			seen[a] = true
			for seen[next] {
				nb := r.Blocks[next]
				want = append(want, transport.BufferBlock{SignalID: m.ids[m.idx[nb.Sig%len(m.idx)]], Buffer: nb.content()})
				next++
			}
			if len(r.Arrival) > 100 && i%37 != 0 && i != len(r.Arrival)-1 {
				continue
			}
			if err := s.barrier(); err != nil {
				return fmt.Errorf("connection %d, arrival %d: %w", round, i, err)
			}
			var got []transport.BufferBlock
			s.rec.with(func() { got = append([]transport.BufferBlock(nil), s.rec.blocks...) })
			for k := range want {
				if k >= len(got) {
					return fmt.Errorf("connection %d, arrival %d: %d blocks delivered, %d are complete", round, i, len(got), len(want))
				}
				if got[k].SignalID != want[k].SignalID || !bytes.Equal(got[k].Buffer, want[k].Buffer) {
					return fmt.Errorf("connection %d, arrival %d: delivered block %d is %v with %d bytes, want %v with %d bytes", round, i, k, got[k].SignalID, len(got[k].Buffer), want[k].SignalID, len(want[k].Buffer))
				}
			}
			if len(got) > len(want) {
				return fmt.Errorf("connection %d, arrival %d: %d blocks delivered, only %d are complete", round, i, len(got), len(want))
			}
			confirmed := map[uint32]int{}
			total := map[int]int{}
			for _, x := range r.Arrival[:i+1] {
				total[x]++
			}
			for _, f := range s.c.Frames() {
				if f.Cmd == pub.CmdConfirmBuffer {
					if len(f.Payload) != 4 {
						return fmt.Errorf("connection %d, arrival %d: confirmation payload of %d bytes", round, i, len(f.Payload))
					}
					confirmed[binary.BigEndian.Uint32(f.Payload)]++
				}
			}
			for q := range seen {
				if n := confirmed[uint32(q)]; n < 1 || n > total[q] {
					return fmt.Errorf("connection %d, arrival %d: block %d arrived %d times and was confirmed %d times", round, i, q, total[q], n)
				}
				delete(confirmed, uint32(q))
			}
			if len(confirmed) > 0 {
				return fmt.Errorf("connection %d, arrival %d: blocks never sent were confirmed: %v", round, i, confirmed)
			}
		}
	}
	return nil
}

func TestC06(t *testing.T) {
	vk.Run(t, vk.Spec[c06Case]{
		ID: "C06", Name: "schedules", Rule: "arrival schedules of numbered blocks with reordering and retransmission, over one or more connections; non-trivial: an out-of-order arrival",
		Quick: 1500, Deep: 20000,
		Gen: func(t *rapid.T) c06Case {
			c := c06Case{Version: rapid.SampledFrom([]byte{2, 2, 1}).Draw(t, "version"), Slot: rapid.IntRange(0, 1).Draw(t, "slot"), Chunks: genChunks(t)}
			rounds := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "rounds")
			for k := 0; k < rounds; k++ {
				var r c06Round
				n := rapid.IntRange(1, 10).Draw(t, "blocks")
				for i := 0; i < n; i++ {
					b := c06Block{Sig: rapid.IntRange(0, 3).Draw(t, "sig"), Data: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "data")}
					if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
						b.Fill = rapid.IntRange(1000, 70000).Draw(t, "fill")
					}
					r.Blocks = append(r.Blocks, b)
				}
				switch rapid.IntRange(0, 2).Draw(t, "order") {
				case 0: // mostly in order, adjacent swaps
					for i := 0; i < n; i++ {
						r.Arrival = append(r.Arrival, i)
					}
					for i := 0; i+1 < n; i++ {
						if rapid.IntRange(0, 2).Draw(t, "swap") == 0 {
							r.Arrival[i], r.Arrival[i+1] = r.Arrival[i+1], r.Arrival[i]
						}
					}
				default:
					ix := make([]int, n)
					for i := range ix {
						ix[i] = i
					}
					r.Arrival = rapid.Permutation(ix).Draw(t, "perm")
				}
				dups := rapid.IntRange(0, 4).Draw(t, "dups")
				for i := 0; i < dups; i++ {
					at := rapid.IntRange(0, len(r.Arrival)).Draw(t, "at")
					v := rapid.IntRange(0, n-1).Draw(t, "dup")
					r.Arrival = append(r.Arrival[:at:at], append([]int{v}, r.Arrival[at:]...)...)
				}
				if rapid.IntRange(0, 3).Draw(t, "short") == 0 {
					r.Arrival = r.Arrival[:rapid.IntRange(0, len(r.Arrival)).Draw(t, "len")]
				}
				c.Rounds = append(c.Rounds, r)
			}
			return c
		},
		Exec: execC06,
	})
	vk.Run(t, vk.Spec[c06Case]{
		ID: "C06", Name: "long", Rule: "schedules of up to 1500 blocks in which a block is up to 400 late, some blocks larger than 1 MB; non-trivial: an out-of-order arrival",
		Quick: 6, Deep: 150,
		Gen: func(t *rapid.T) c06Case {
			c := c06Case{Version: rapid.SampledFrom([]byte{2, 1}).Draw(t, "version"), Slot: rapid.IntRange(0, 1).Draw(t, "slot")}
			var r c06Round
			n := rapid.IntRange(260, 1500).Draw(t, "blocks")
			large := rapid.IntRange(0, n-1).Draw(t, "large")
			for i := 0; i < n; i++ {
				b := c06Block{Sig: i % 4, Data: []byte{byte(i), byte(i >> 8), 7}}
				if i == large {
					b.Fill = rapid.SampledFrom([]int{70000, 1 << 20, 5 << 20}).Draw(t, "fill")
				}
				r.Blocks = append(r.Blocks, b)
			}
			// Each late block arrives after a number of its successors
			late := map[int][]int{}
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 9).Draw(t, "late") == 0 {
					at := min(n-1, i+rapid.SampledFrom([]int{1, 5, 40, 260, 400}).Draw(t, "by"))
					late[at] = append(late[at], i)
				} else {
					r.Arrival = append(r.Arrival, i)
				}
				r.Arrival = append(r.Arrival, late[i]...)
			}
			c.Rounds = []c06Round{r}
			return c
		},
		Exec: execC06,
	})
}
