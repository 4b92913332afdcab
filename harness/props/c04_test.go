package props

import (
	"encoding/binary"
	"fmt"
	"net"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/ref"
	"verif/harness/vk"
)

// hStep is one step of a publisher history.
type hStep struct {
	Kind  string // cache, tssc, compact, base, keys, reset, gap, noise, resub, pause
	Slot  int
	N     int // number of cache records / noise selector / bulk repetition
	First uint32
	Walk  *walk        `json:",omitempty"`
	Recs  []compactRec `json:",omitempty"`
	Base  *[2]int64    `json:",omitempty"`
	Text  string       `json:",omitempty"`
	Odd   bool         `json:",omitempty"`
}

type c04Case struct {
	Version            byte
	IncludeTime, Milli bool
	CompressCache      bool
	Swap               bool
	Pool               bool
	Chunks             []int
	Steps              []hStep
	Again              [][]hStep `json:",omitempty"` // further connections
}

// slotModel is the publisher's view of one cache slot.
type slotModel struct {
	idx []int32
	ids map[int32]guid.Guid
	enc *ref.TSSCEncoder
	seq uint16
}

func (m *slotModel) reset() { m.enc, m.seq = ref.NewTSSCEncoder(), 0 }

func (m *slotModel) load(first uint32, n int) []pub.Record {
	m.idx, m.ids = nil, map[int32]guid.Guid{}
	var recs []pub.Record
	for i := 0; i < n; i++ {
		ix := int32(first) + int32(i)
		if first%3 == 1 {
			ix = int32(first) + int32(i)*7919
		}
		g := guidOf(first*31 + uint32(i))
		m.idx = append(m.idx, ix)
		m.ids[ix] = g
		recs = append(recs, pub.Record{Index: ix, ID: g, Source: "PPA", Num: uint64(i)})
	}
	m.reset()
	return recs
}

// tsscPacket encodes the walk restricted to the slot's indexes and returns body, count and expectation.
func (m *slotModel) tsscPacket(w walk, max int) ([]byte, []gotMeas) {
	w.IDs = append([]int32(nil), w.IDs...)
	for i := range w.IDs {
		w.IDs[i] = m.idx[int(uint32(w.IDs[i])%uint32(len(m.idx)))]
	}
	ms := expandWalk(w)
	if len(ms) > max {
		ms = ms[:max]
	}
	var want []gotMeas
	for _, x := range ms {
		m.enc.Add(x)
		want = append(want, wantMeas(m.ids[x.ID], x.Value, x.Time, x.Flags))
	}
	body := pub.TSSCBody(m.seq, m.enc.Finish())
	m.seq++
	if m.seq == 0 {
		m.seq = 1
	}
	return body, want
}

func (m *slotModel) compactBody(recs []compactRec, repeat int, includeTime, milli bool, base [2]int64) ([]byte, []gotMeas) {
	var body []byte
	var want []gotMeas
	for k := 0; k < repeat; k++ {
		for _, r := range recs {
			r.Index = m.idx[int(uint32(r.Index)%uint32(len(m.idx)))]
			r.Value += uint32(k)
			var tm int64
			body, tm = encodeCompact(body, r, includeTime, milli, base)
			want = append(want, wantMeas(m.ids[r.Index], r.Value, tm, expandFlags(r.Flags)))
		}
	}
	return body, want
}

func keysFrom(n int, seed byte) *pub.Keys {
	size := []int{16, 24, 32}[n%3]
	mk := func(l int, off byte) []byte {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(i)*7 + seed + off
		}
		return b
	}
	return &pub.Keys{EvenKey: mk(size, 1), EvenIV: mk(16, 60), OddKey: mk(size, 100), OddIV: mk(16, 200)}
}

func execC04(c c04Case, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	ds.Version = c.Version
	ds.CompressSignalIndexCache = c.CompressCache
	ds.SwapGuidEndianness = c.Swap
	ds.Subscription().IncludeTime = c.IncludeTime
	ds.Subscription().UseMillisecondResolution = c.Milli
	s, err := dialSess(o, ds, c.Pool)
	if err != nil {
		return err
	}
	defer s.closeLater()
	if err := c.session(s, c.Steps, o); err != nil {
		return err
	}
	for i, steps := range c.Again {
		if err := s.redial(); err != nil {
			return fmt.Errorf("connection %d: %w", i+2, err)
		}
		s.rec.with(func() { s.rec.meas, s.rec.kept, s.rec.starts, s.rec.startAt = nil, nil, nil, nil })
		if err := c.session(s, steps, o); err != nil {
			return fmt.Errorf("connection %d: %w", i+2, err)
		}
		o.Label("reconnected")
	}
	return nil
}

// session runs the steps on one connection, which begins without caches, keys and base times.
func (c c04Case) session(s *sess, steps []hStep, o *vk.Obs) error {
	ds := s.ds
	s.c.SetChunks(c.Chunks)

	var slots [2]slotModel
	var want []gotMeas
	var base [2]int64
	var keys *pub.Keys
	total := 0
	data, control := 0, false
	resetDue, reported, gaps := false, false, 0
	var startAt []int

	send := func(resp, cmd byte, b []byte) error {
		if err := s.c.Send(resp, cmd, b); err != nil {
			return errClosed
		}
		return nil
	}
	for i, st := range steps {
		slot := st.Slot
		if c.Version == 1 {
			slot = 0
		}
		m := &slots[slot]
		fl := byte(0)
		if slot == 1 {
			fl = pub.FlagCacheIndex
		}
		var err error
		switch st.Kind {
		case "cache":
			recs := m.load(st.First, max(st.N, 1))
			err = send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, slot, pub.CacheBody(guidOf(5), recs, c.Swap), c.CompressCache))
			control = control || data > 0
		case "tssc":
			if m.idx == nil || keys != nil {
				continue
			}
			if m.seq == 0 {
				resetDue, reported = false, false
			}
			body, w := m.tsscPacket(*st.Walk, 3000)
			want = append(want, w...)
			total += len(w)
			err = send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompressed, uint32(len(w)), body, nil, false))
			data++
			o.Label("tssc")
		case "reset":
			if m.idx != nil {
				m.reset()
			}
		case "gap":
			// A packet that is not the next one is not delivered; the publisher starts over
			if m.idx == nil || m.seq == 0 || keys != nil {
				continue
			}
			w := *st.Walk
			next := m.seq + 1 + uint16(st.N)
			body, _ := m.tsscPacket(w, 3000)
			body = append(binary.BigEndian.AppendUint16([]byte{body[0]}, next), body[3:]...)
			err = send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompressed, 1, body, nil, false))
			m.reset()
			if !resetDue && !reported {
				gaps++
				reported = true
				o.Label("gap")
			}
		case "compact":
			if m.idx == nil {
				// No measurement can be told before the cache arrives
				var body []byte
				for k, r := range st.Recs {
					r.Index = int32(k)
					body, _ = encodeCompact(body, r, c.IncludeTime, c.Milli, base)
				}
				err = send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompact, uint32(len(st.Recs)), body, keys, st.Odd))
				o.Label("data before the cache")
				break
			}
			body, w := m.compactBody(st.Recs, max(st.N, 1), c.IncludeTime, c.Milli, base)
			want = append(want, w...)
			total += len(w)
			p := pub.DataPacket(fl|pub.FlagCompact, uint32(len(w)), body, keys, st.Odd)
			if len(p) > 32768 {
				o.Label("large-packet")
			}
			if keys != nil {
				o.Label("encrypted")
			}
			err = send(pub.RespDataPacket, pub.CmdSubscribe, p)
			data++
		case "base":
			base = *st.Base
			err = send(pub.RespBaseTimes, 0, pub.BaseTimes(uint32(st.N), base[0], base[1]))
			control = control || data > 0
		case "keys":
			keys = keysFrom(st.N, byte(st.First))
			err = send(pub.RespCipherKeys, 0, pub.CipherKeys(byte(st.N%2), *keys))
			control = control || data > 0
		case "noise":
			switch st.N % 8 {
			case 0:
				err = send(pub.RespNoOP, 0, nil)
			case 1:
				err = send(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, st.First), st.Text...))
			case 2:
				err = send(pub.RespConfigChanged, 0, nil)
			case 3:
				err = send(pub.RespComplete, 0, []byte(st.Text))
			case 4:
				err = send(pub.RespFailed, pub.CmdUpdateProcessing, []byte(st.Text))
			case 5:
				err = send(pub.RespSucceeded, pub.CmdSubscribe, []byte(st.Text))
			case 6:
				startAt = append(startAt, len(want))
				err = send(pub.RespStartTime, 0, binary.BigEndian.AppendUint64(nil, uint64(st.First)))
			case 7:
				b := binary.BigEndian.AppendUint32(nil, st.First|0x40000000)
				if c.Version > 1 {
					b = append(b, 0)
				}
				b = append(b, 0, 0, 0, 1)
				_ = b
				err = send(pub.RespSucceeded, pub.CmdUpdateProcessing, []byte(st.Text))
			}
			control = control || data > 0
		case "pause":
			time.Sleep(time.Millisecond)
		case "resub":
			// A resubscription resets the received total.
			if err := s.barrier(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if got := ds.TotalMeasurementsReceived(); got != uint64(total) {
				return fmt.Errorf("step %d: received total is %d, want %d", i, got, total)
			}
			if err := ds.Subscribe(); err != nil {
				return fmt.Errorf("step %d: subscribe: %v", i, err)
			}
			total = 0
			resetDue = true
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, st.Kind, err)
		}
	}
	if err := s.barrier(); err != nil {
		if err2 := diffMeas(s.rec.measurements(), want); err2 != nil {
			return fmt.Errorf("%w; %v", err, err2)
		}
		return err
	}
	if err := diffMeas(s.rec.measurements(), want); err != nil {
		return err
	}
	if !c.Pool {
		if err := diffMeas(s.rec.keptMeasurements(), want); err != nil {
			return fmt.Errorf("slices kept by the receiver: %w", err)
		}
	}
	var at []int
	s.rec.with(func() {
		for i, t := range s.rec.starts {
			if t < barrierTicks {
				at = append(at, s.rec.startAt[i])
			}
		}
	})
	if !slices.Equal(at, startAt) {
		return fmt.Errorf("start times reported after %v measurements, they were sent after %v", at, startAt)
	}
	if !until(o.Wait(), func() bool {
		n := 0
		s.rec.with(func() { n = len(s.rec.errs) })
		return n >= gaps
	}) {
		return vk.Stuck("no error reported for a packet out of sequence")
	}
	if got := ds.TotalMeasurementsReceived(); got != uint64(total) {
		return fmt.Errorf("received total is %d, want %d", got, total)
	}
	sent := s.c.Bytes
	if !until(o.Wait(), func() bool { return ds.TotalCommandChannelBytesReceived() == sent }) {
		return vk.Stuck("received byte total is %d, %d were sent", ds.TotalCommandChannelBytesReceived(), sent)
	}
	if got := ds.TotalDataChannelBytesReceived(); got != sent {
		return fmt.Errorf("data channel byte total is %d, %d were sent", got, sent)
	}
	if control && data > 1 {
		o.NonTrivial()
	}
	return nil
}

func genHistory(t *rapid.T, max int, faults bool) []hStep {
	var steps []hStep
	n := rapid.IntRange(2, max).Draw(t, "nsteps")
	steps = append(steps, hStep{Kind: "cache", Slot: 0, N: rapid.IntRange(1, 12).Draw(t, "n0"), First: rapid.Uint32Range(0, 50).Draw(t, "f0")})
	encrypted := rapid.IntRange(0, 3).Draw(t, "encrypted") == 0
	for i := 0; i < n; i++ {
		st := hStep{Slot: rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "slot")}
		st.Kind = rapid.SampledFrom([]string{"tssc", "tssc", "tssc", "compact", "compact", "cache", "base", "keys", "reset", "gap", "noise", "noise", "resub", "pause"}).Draw(t, "kind")
		if st.Kind == "keys" && !encrypted {
			st.Kind = "compact"
		}
		switch st.Kind {
		case "cache":
			st.N = rapid.IntRange(1, 12).Draw(t, "n")
			st.First = rapid.OneOf(rapid.Uint32Range(0, 50), rapid.Uint32()).Draw(t, "first")
		case "tssc", "gap":
			w := genWalk(t, 8, 60)
			st.Walk = &w
			if st.Kind == "gap" {
				st.N = rapid.SampledFrom([]int{0, 1, 5, 300, 32000}).Draw(t, "missed")
			}
		case "compact":
			st.N = 1
			st.Recs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) compactRec { return genRec(t, []int32{0, 1, 2, 3, 4, 5}) }), 1, 10).Draw(t, "recs")
			if rapid.IntRange(0, 12).Draw(t, "bulk") == 0 {
				st.N = rapid.IntRange(100, 900).Draw(t, "rep")
			}
			st.Odd = rapid.Bool().Draw(t, "odd")
		case "base":
			st.Base = genBase(t)
			st.N = rapid.IntRange(0, 1).Draw(t, "ti")
		case "keys":
			st.N = rapid.IntRange(0, 5).Draw(t, "n")
			st.First = rapid.Uint32Range(0, 255).Draw(t, "seed")
		case "noise":
			st.N = rapid.IntRange(0, 7).Draw(t, "n")
			st.First = rapid.Uint32Range(0, 1<<20).Draw(t, "hash")
			st.Text = rapid.StringN(0, 20, -1).Draw(t, "text")
			if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
				st.Text = strings.Repeat(st.Text+"x", 700)
			}
		}
		steps = append(steps, st)
	}
	return steps
}

func genChunks(t *rapid.T) []int {
	switch rapid.IntRange(0, 3).Draw(t, "chunkKind") {
	case 0:
		return rapid.SliceOfN(rapid.IntRange(1, 7), 1, 4).Draw(t, "chunks")
	case 1:
		return rapid.SliceOfN(rapid.IntRange(1, 3000), 1, 4).Draw(t, "chunks")
	}
	return nil
}

// c04Large sends packets of several megabytes.
type c04Large struct {
	Packets     []int // measurements in each
	TSSC        []bool
	IncludeTime bool
	Seed        uint32
}

func execC04Large(c c04Large, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	ds.Subscription().IncludeTime = c.IncludeTime
	s, err := dialSess(o, ds, true)
	if err != nil {
		return err
	}
	defer s.closeLater()
	var m slotModel
	recs := m.load(3, 40)
	s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(5), recs, false), true))
	total, seq := 0, 0
	enc := ref.NewTSSCEncoder()
	for i, n := range c.Packets {
		var body []byte
		var want []gotMeas
		fl := byte(pub.FlagCompact)
		for k := 0; k < n; k++ {
			r := compactRec{Index: m.idx[k%len(m.idx)], Value: uint32(k) * 2654435761, Time: 636000000000000000 + int64(c.Seed) + int64(k/len(m.idx))*333333}
			if c.TSSC[i] {
				enc.Add(ref.Meas{ID: r.Index, Time: r.Time, Value: r.Value})
			} else {
				var at int64
				body, at = encodeCompact(body, r, c.IncludeTime, false, [2]int64{})
				r.Time = at
			}
			want = append(want, wantMeas(m.ids[r.Index], r.Value, r.Time, 0))
		}
		if c.TSSC[i] {
			fl |= pub.FlagCompressed
			body = pub.TSSCBody(uint16(seq), enc.Finish())
			seq++
		}
		s.rec.with(func() { s.rec.meas = nil })
		if err := s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl, uint32(n), body, nil, false)); err != nil {
			return errClosed
		}
		if err := s.barrier(); err != nil {
			return fmt.Errorf("packet of %d measurements: %w", n, err)
		}
		if err := diffMeas(s.rec.measurements(), want); err != nil {
			return fmt.Errorf("packet of %d measurements: %w", n, err)
		}
		total += n
		o.Label("packet of %d MB", len(body)>>20)
		if len(body) > 1<<20 {
			o.NonTrivial()
		}
	}
	if got := ds.TotalMeasurementsReceived(); got != uint64(total) {
		return fmt.Errorf("received total is %d, want %d", got, total)
	}
	if got := ds.TotalCommandChannelBytesReceived(); got != s.c.Bytes {
		return fmt.Errorf("byte total is %d, %d were sent", got, s.c.Bytes)
	}
	return nil
}

// c04Wrap drives the TSSC sequence number through its 16-bit wrap.
type c04Wrap struct {
	Packets int
	Resets  []int
}

func execC04Wrap(c c04Wrap, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	s, err := dialSess(o, ds, true)
	if err != nil {
		return err
	}
	defer s.closeLater()
	var m slotModel
	recs := m.load(3, 4)
	s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(5), recs, false), true))
	var want []gotMeas
	w := walk{IDs: []int32{0, 1, 2, 3}, Deltas: []int64{333333}, Flags: []uint32{0}, Ops: []tsscOp{{ID: 0, Val: 5, Arg: 12}, {ID: 1, Val: 5, Arg: 20}}, Repeat: 1}
	resets := map[int]bool{}
	for _, r := range c.Resets {
		resets[r] = true
	}
	var batch []byte
	for i := 0; i < c.Packets; i++ {
		if resets[i] {
			m.reset()
		}
		w.Ops[0].Abs = int64(i)
		w.Ops[0].Time = 4
		body, x := m.tsscPacket(w, 10)
		want = append(want, x...)
		batch = append(batch, pub.Framed(pub.Packet(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompressed, uint32(len(x)), body, nil, false)))...)
		if len(batch) > 30000 {
			if s.c.Write(batch) != nil {
				return errClosed
			}
			batch = nil
		}
	}
	if s.c.Write(batch) != nil {
		return errClosed
	}
	if err := s.barrier(); err != nil {
		return err
	}
	o.NonTrivial()
	return diffMeas(s.rec.measurements(), want)
}

// c04UDP delivers compact packets over the UDP data channel, one at a time.
type c04UDP struct {
	IncludeTime, Milli bool
	Steps              []hStep
	Resub              int // resubscribe after this many packets
}

func execC04UDP(c c04UDP, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	sub := ds.Subscription()
	sub.IncludeTime, sub.UseMillisecondResolution = c.IncludeTime, c.Milli
	sub.UdpDataChannel = true
	port, err := freeUDP()
	if err != nil {
		return vk.Broken("udp: %v", err)
	}
	sub.DataChannelLocalPort = port
	s, err := dialSess(o, ds, false)
	if err != nil {
		return err
	}
	defer s.closeLater()
	if err := s.barrier(); err != nil {
		return err
	}
	if err := ds.Subscribe(); err != nil {
		if strings.Contains(err.Error(), "in use") {
			o.Label("port-taken")
			return nil
		}
		return fmt.Errorf("subscribe: %v", err)
	}
	s.c.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("ok"))
	if err := s.barrier(); err != nil {
		return err
	}
	u, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return vk.Broken("udp dial: %v", err)
	}
	defer u.Close()
	var m slotModel
	var want []gotMeas
	var base [2]int64
	var keys *pub.Keys
	packets := 0
	bytes := uint64(0)
	total := 0
	for i, st := range c.Steps {
		switch st.Kind {
		case "cache":
			recs := m.load(st.First, max(st.N, 1))
			s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(5), recs, false), true))
			if err := s.barrier(); err != nil {
				return err
			}
		case "base":
			base = *st.Base
			s.c.Send(pub.RespBaseTimes, 0, pub.BaseTimes(0, base[0], base[1]))
			if err := s.barrier(); err != nil {
				return err
			}
		case "keys":
			keys = keysFrom(st.N, byte(st.First))
			s.c.Send(pub.RespCipherKeys, 0, pub.CipherKeys(0, *keys))
			if err := s.barrier(); err != nil {
				return err
			}
		case "compact":
			if packets == c.Resub && packets > 0 {
				if err := ds.Subscribe(); err != nil {
					if strings.Contains(err.Error(), "in use") {
						return nil
					}
					return fmt.Errorf("step %d: resubscribe: %v", i, err)
				}
				total = 0
				s.c.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("ok"))
				if err := s.barrier(); err != nil {
					return err
				}
				o.Label("resubscribed")
			}
			body, w := m.compactBody(st.Recs, max(st.N, 1), c.IncludeTime, c.Milli, base)
			p := pub.Packet(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompact, uint32(len(w)), body, keys, st.Odd))
			if len(p) > 30000 {
				continue
			}
			want = append(want, w...)
			total += len(w)
			if _, err := u.Write(p); err != nil {
				return vk.Broken("udp send: %v", err)
			}
			bytes += uint64(len(p))
			packets++
			if len(p) > 4096 {
				o.Label("over-4096")
			}
			if !until(o.Wait(), func() bool {
				return len(s.rec.measurements()) >= len(want) && ds.TotalMeasurementsReceived() >= uint64(total)
			}) {
				return vk.Stuck("step %d: datagram of %d measurements: %v", i, len(w), diffMeas(s.rec.measurements(), want))
			}
		}
	}
	if err := s.barrier(); err != nil {
		return err
	}
	if err := diffMeas(s.rec.measurements(), want); err != nil {
		return err
	}
	if got := ds.TotalMeasurementsReceived(); got != uint64(total) {
		return fmt.Errorf("received total is %d, want %d", got, total)
	}
	if got := ds.TotalDataChannelBytesReceived(); got != bytes {
		return fmt.Errorf("data channel byte total is %d, %d were sent", got, bytes)
	}
	if err := s.redial(); err != nil {
		return err
	}
	if got := ds.TotalDataChannelBytesReceived(); got != 0 {
		return fmt.Errorf("data channel byte total is %d on a new connection", got)
	}
	if packets > 1 {
		o.NonTrivial()
	}
	return nil
}

func TestC04(t *testing.T) {
	vk.Run(t, vk.Spec[c04Case]{
		ID: "C04", Name: "tcp", Rule: "publisher histories mixing TSSC/compact/encrypted data with control responses, segmented writes; non-trivial: a control response between data packets",
		Quick: 2500, Deep: 40000,
		Gen: func(t *rapid.T) c04Case {
			c := c04Case{
				Version: rapid.SampledFrom([]byte{2, 2, 2, 1}).Draw(t, "version"), IncludeTime: rapid.IntRange(0, 5).Draw(t, "it") > 0, Milli: rapid.Bool().Draw(t, "milli"),
				CompressCache: rapid.Bool().Draw(t, "cc"), Swap: rapid.Bool().Draw(t, "swap"), Pool: rapid.Bool().Draw(t, "pool"),
				Chunks: genChunks(t), Steps: genHistory(t, 20, false),
			}
			if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
				for i := rapid.IntRange(1, 3).Draw(t, "connections"); i > 0; i-- {
					steps := genHistory(t, 8, false)
					if rapid.Bool().Draw(t, "nocache") {
						steps = steps[1:]
					}
					c.Again = append(c.Again, steps)
				}
			}
			return c
		},
		Exec: execC04,
	})
	vk.Run(t, vk.Spec[c04UDP]{
		ID: "C04", Name: "udp", Rule: "compact packets over the UDP data channel in lockstep; non-trivial: two or more datagrams",
		Quick: 300, Deep: 4000,
		Gen: func(t *rapid.T) c04UDP {
			return c04UDP{IncludeTime: rapid.IntRange(0, 5).Draw(t, "it") > 0, Milli: rapid.Bool().Draw(t, "milli"), Steps: genHistory(t, 12, false), Resub: rapid.IntRange(0, 4).Draw(t, "resub")}
		},
		Exec: execC04UDP,
	})
	vk.Run(t, vk.Spec[c04Sub]{
		ID: "C04", Name: "subscriber", Rule: "sessions of the top-level subscriber: data, cache and base-time updates and resubscriptions; non-trivial: a control response between data packets",
		Quick: 500, Deep: 8000, Gen: genC04Sub, Exec: execC04Sub,
	})
	vk.Run(t, vk.Spec[c04Large]{
		ID: "C04", Name: "large", Rule: "packets of up to 20 MB; non-trivial: a packet of more than 1 MB",
		Quick: 3, Deep: 40,
		Gen: func(t *rapid.T) c04Large {
			c := c04Large{IncludeTime: rapid.IntRange(0, 3).Draw(t, "it") > 0, Seed: rapid.Uint32().Draw(t, "seed")}
			add := func(n int) {
				c.Packets, c.TSSC = append(c.Packets, n), append(c.TSSC, rapid.Bool().Draw(t, "tssc"))
			}
			for i := rapid.IntRange(0, 2).Draw(t, "n"); i >= 0; i-- {
				add(rapid.SampledFrom([]int{1, 2000, 4000, 70000, 300000}).Draw(t, "size"))
			}
			add(rapid.IntRange(1, 10).Draw(t, "small"))
			// One packet larger than 16 MB
			c.Packets, c.TSSC = append(c.Packets, rapid.IntRange(1000000, 1200000).Draw(t, "largest")), append(c.TSSC, false)
			c.IncludeTime = c.IncludeTime || rapid.Bool().Draw(t, "it2")
			add(rapid.IntRange(1, 10).Draw(t, "small"))
			return c
		},
		Exec: execC04Large,
	})
	wraps := vk.Spec[c04Wrap]{
		ID: "C04", Name: "wrap", Rule: "more than 65536 TSSC packets in one session; every case is non-trivial",
		Quick: 1, Deep: 6,
		Gen: func(t *rapid.T) c04Wrap {
			return c04Wrap{Packets: rapid.IntRange(65540, 66500).Draw(t, "packets"), Resets: rapid.SliceOfN(rapid.IntRange(1, 900), 0, 2).Draw(t, "resets")}
		},
		Exec: execC04Wrap,
	}
	vk.Run(t, wraps)
}
