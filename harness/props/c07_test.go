package props

import (
	"encoding/binary"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

// mut is one change applied to the bytes of a packet.
type mut struct {
	Op  int // 0 set byte, 1 cut tail, 2 drop range, 3 insert, 4 set 32-bit field, 5 repeat range, 6 flip bit, 7 cut last bytes
	At  int
	Len int
	Val uint32
}

func (m mut) apply(b []byte) []byte {
	if len(b) == 0 {
		if m.Op == 3 {
			return []byte{byte(m.Val)}
		}
		return b
	}
	at := m.At % len(b)
	n := min(m.Len, len(b)-at)
	out := append([]byte(nil), b...)
	switch m.Op {
	case 0:
		out[at] = byte(m.Val)
	case 1:
		out = out[:at]
	case 2:
		out = append(out[:at], out[at+n:]...)
	case 3:
		ins := make([]byte, m.Len)
		for i := range ins {
			ins[i] = byte(m.Val >> (8 * (i % 4)))
		}
		out = append(out[:at], append(ins, b[at:]...)...)
	case 4:
		if at+4 <= len(out) {
			binary.BigEndian.PutUint32(out[at:], m.Val)
		}
	case 5:
		out = append(out[:at+n], b[at:]...)
	case 6:
		out[at] ^= 1 << (m.Val % 8)
	case 7:
		out = out[:max(len(out)-m.Len, 0)]
	}
	return out
}

type c07Packet struct {
	Kind  string // what valid packet it starts from
	N     int
	Slot  int
	Text  string
	Raw   []byte
	W     *walk        `json:",omitempty"`
	Recs  []compactRec `json:",omitempty"`
	Muts  []mut
	UDP   bool
	Inner bool // mutate before compression or encryption
	Sized bool // the damaged cache announces the size it has
}

type c07Case struct {
	Version      byte
	Compress     bool
	CompressMeta bool
	IncludeTime  bool
	Milli        bool
	UDP          bool
	Greeting     int // 0 valid greeting, 1 none, 2 failed response
	Packets      []c07Packet
	Tail         []byte // bytes of an unfinished frame
	Reset        bool
}

// execC07 sends damaged packets, then checks that the subscriber still notices the end of the connection, connects
// again and works, and can be closed.
func execC07(c c07Case, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	ds.Version = c.Version
	ds.CompressSignalIndexCache = c.Compress
	ds.CompressMetadata = c.CompressMeta
	sub := ds.Subscription()
	sub.IncludeTime, sub.UseMillisecondResolution = c.IncludeTime, c.Milli
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	s := &sess{p: p, ds: ds, rec: &recorder{}, o: o}
	attach(ds, s.rec, true)
	connect := func() error {
		if err := ds.Connect("127.0.0.1", p.Port()); err != nil {
			return fmt.Errorf("connect: %v", err)
		}
		conn, err := p.Accept(o.Wait())
		if err != nil {
			return vk.Stuck("publisher saw no connection: %v", err)
		}
		s.c = conn
		return nil
	}
	if err := connect(); err != nil {
		p.Close()
		return err
	}
	closed := false
	defer func() {
		if !closed {
			s.closeLater()
		}
	}()
	if err := s.c.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
		return vk.Stuck("operational modes not received: %v", err)
	}
	switch c.Greeting {
	case 0:
		s.c.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("modes ok"))
	case 2:
		s.c.Send(pub.RespFailed, pub.CmdDefineModes, []byte("no"))
	}
	var udp net.Conn
	if c.UDP && c.Greeting == 0 {
		if err := s.barrier(); err != nil {
			return err
		}
		port, err := freeUDP()
		if err != nil {
			return vk.Broken("udp: %v", err)
		}
		sub.UdpDataChannel = true
		sub.DataChannelLocalPort = port
		if ds.Subscribe() == nil {
			udp, err = net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				return vk.Broken("udp: %v", err)
			}
			defer udp.Close()
			s.c.Send(pub.RespSucceeded, pub.CmdSubscribe, nil)
		}
		sub.UdpDataChannel = false
	}
	var m [2]slotModel
	for i := range m {
		m[i].load(uint32(i*20+1), 5)
	}
	var keys *pub.Keys
	for _, pk := range c.Packets {
		ix := pk.Slot
		if c.Version == 1 {
			ix = 0
		}
		fl := byte(0)
		if ix == 1 {
			fl = pub.FlagCacheIndex
		}
		mutate := func(b []byte) []byte {
			for _, x := range pk.Muts {
				b = x.apply(b)
			}
			if len(pk.Muts) > 0 {
				o.NonTrivial()
			}
			return b
		}
		inner := func(b []byte) []byte {
			if pk.Inner {
				return mutate(b)
			}
			return b
		}
		var pkt []byte
		switch pk.Kind {
		case "cache":
			recs := m[ix].load(uint32(pk.N), 1+pk.N%7)
			body := inner(pub.CacheBody(guidOf(5), recs, false))
			if pk.Sized && len(body) >= 4 {
				binary.BigEndian.PutUint32(body, uint32(len(body)))
			}
			pkt = pub.Packet(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, ix, body, c.Compress))
		case "tssc":
			body, w := m[ix].tsscPacket(*pk.W, 200)
			pkt = pub.Packet(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompressed, uint32(len(w)), inner(body), keys, pk.N%2 == 1))
		case "compact":
			body, w := m[ix].compactBody(pk.Recs, 1, c.IncludeTime, c.Milli, [2]int64{})
			pkt = pub.Packet(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompact, uint32(len(w)), inner(body), keys, pk.N%2 == 1))
		case "base":
			pkt = pub.Packet(pub.RespBaseTimes, 0, pub.BaseTimes(uint32(pk.N), 637000000000000000, 637000000010000000))
		case "keys":
			k := keysFrom(pk.N, 9)
			pkt = pub.Packet(pub.RespCipherKeys, 0, inner(pub.CipherKeys(byte(pk.N), *k)))
			if !pk.Inner {
				keys = k
			}
		case "start":
			pkt = pub.Packet(pub.RespStartTime, 0, binary.BigEndian.AppendUint64(nil, uint64(pk.N)))
		case "notify":
			pkt = pub.Packet(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, uint32(pk.N)), pk.Text...))
		case "block":
			b := binary.BigEndian.AppendUint32(nil, uint32(pk.N%3))
			if c.Version > 1 {
				b = append(b, byte(ix))
			}
			b = binary.BigEndian.AppendUint32(b, 1)
			pkt = pub.Packet(pub.RespBufferBlock, 0, append(b, pk.Text...))
		case "complete":
			pkt = pub.Packet(pub.RespComplete, 0, []byte(pk.Text))
		case "config":
			pkt = pub.Packet(pub.RespConfigChanged, 0, nil)
		case "metadata":
			body := inner([]byte("<DataSet><A><B>" + "1</B></A></DataSet>"))
			if c.CompressMeta {
				body = pub.Gzip(body)
			}
			pkt = pub.Packet(pub.RespSucceeded, pub.CmdMetadataRefresh, body)
		case "ok":
			pkt = pub.Packet(pub.RespSucceeded, byte(pk.N), []byte(pk.Text))
		case "fail":
			pkt = pub.Packet(pub.RespFailed, byte(pk.N), []byte(pk.Text))
		case "raw":
			pkt = append([]byte(nil), pk.Raw...)
		}
		if !pk.Inner {
			pkt = mutate(pkt)
		}
		o.Label("%s", pk.Kind)
		if pk.UDP && udp != nil {
			udp.Write(pkt)
			o.Label("udp")
			continue
		}
		s.c.Write(pub.Framed(pkt)) // an error means the subscriber gave the connection up
	}
	if udp != nil {
		// Let the datagrams be read; how many were is unimportant.
		time.Sleep(2 * time.Millisecond)
	}
	s.c.Write(c.Tail)
	if c.Reset {
		s.c.Reset()
	} else {
		s.c.Close()
	}
	if !until(o.Wait(), func() bool { return !ds.IsConnected() }) {
		return vk.Stuck("the publisher is gone but the subscriber still reports being connected")
	}

	// A normal session on the same subscriber.
	if err := connect(); err != nil {
		return fmt.Errorf("after damaged session: %w", err)
	}
	if err := s.hello(); err != nil {
		return fmt.Errorf("after damaged session: %w", err)
	}
	before := len(s.rec.measurements())
	var want []gotMeas
	for i := 0; i < 2; i++ {
		ix := i
		if c.Version == 1 {
			ix = 0
		}
		fl := byte(0)
		if ix == 1 {
			fl = pub.FlagCacheIndex
		}
		recs := m[ix].load(uint32(60+i), 4)
		s.c.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, ix, pub.CacheBody(guidOf(6), recs, false), c.Compress))
		w := walk{IDs: []int32{0, 1, 2, 3}, Deltas: []int64{333333}, Flags: []uint32{0}, Ops: []tsscOp{{ID: 0, Val: 5, Arg: 12}, {ID: 1, Val: 5, Arg: 20}, {ID: 2, Time: 1, Val: 6, Arg: 7777}}, Repeat: 2}
		for k := 0; k < 2; k++ {
			body, x := m[ix].tsscPacket(w, 50)
			want = append(want, x...)
			s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompressed, uint32(len(x)), body, nil, false))
		}
		body, x := m[ix].compactBody([]compactRec{{Index: 1, Value: 77, Time: 637000000000000001, Flags: 3}, {Index: 2, Value: 78, Time: 637000000000000002}}, 1, c.IncludeTime, c.Milli, [2]int64{})
		want = append(want, x...)
		s.c.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompact, uint32(len(x)), body, nil, false))
	}
	if err := s.barrier(); err != nil {
		return fmt.Errorf("session after damaged session: %w", err)
	}
	if err := diffMeas(s.rec.measurements()[before:], want); err != nil {
		return fmt.Errorf("session after damaged session: %w", err)
	}
	closed = true
	if vk.Thorough() || len(c.Packets)%4 == 0 {
		if err := s.close(); err != nil {
			return err
		}
	} else {
		s.closeLater()
	}
	return nil
}

func genMut(t *rapid.T) mut {
	return mut{
		Op:  rapid.IntRange(0, 7).Draw(t, "op"),
		At:  rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 200)).Draw(t, "at"),
		Len: rapid.IntRange(1, 12).Draw(t, "len"),
		Val: rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 2, 16, 255, 256, 65535, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFE8, 0xFFFFFFFC}), rapid.Uint32()).Draw(t, "val"),
	}
}

func TestC07(t *testing.T) {
	vk.Run(t, vk.Spec[c07Case]{
		ID: "C07", Name: "damaged", Rule: "sessions of valid packets of every kind with byte-level damage (before or after compression/encryption), random packets and unfinished frames over TCP and UDP, followed by a normal session; non-trivial: a valid packet was damaged",
		Quick: 3000, Deep: 60000,
		Gen: func(t *rapid.T) c07Case {
			c := c07Case{
				Version:      rapid.SampledFrom([]byte{2, 2, 2, 1}).Draw(t, "version"),
				Compress:     rapid.Bool().Draw(t, "cc"),
				CompressMeta: rapid.Bool().Draw(t, "cm"),
				IncludeTime:  rapid.IntRange(0, 3).Draw(t, "it") > 0,
				Milli:        rapid.Bool().Draw(t, "milli"),
				UDP:          rapid.IntRange(0, 5).Draw(t, "udp") == 0,
				Greeting:     rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2}).Draw(t, "greet"),
				Reset:        rapid.IntRange(0, 5).Draw(t, "rst") == 0,
			}
			n := rapid.IntRange(1, 10).Draw(t, "n")
			for i := 0; i < n; i++ {
				pk := c07Packet{
					Kind: rapid.SampledFrom([]string{"cache", "cache", "tssc", "tssc", "compact", "compact", "base", "keys", "start", "notify", "block", "complete", "config", "metadata", "ok", "fail", "raw"}).Draw(t, "kind"),
					N:    rapid.IntRange(0, 40).Draw(t, "n"),
					Slot: rapid.IntRange(0, 1).Draw(t, "slot"),
					UDP:  rapid.Bool().Draw(t, "viaUDP"),
				}
				switch pk.Kind {
				case "tssc":
					w := genWalk(t, 5, 20)
					pk.W = &w
				case "compact":
					pk.Recs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) compactRec { return genRec(t, []int32{0, 1, 2, 3, 4, 5}) }), 1, 6).Draw(t, "recs")
				case "raw":
					pk.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
					if len(pk.Raw) > 0 && rapid.Bool().Draw(t, "code") {
						pk.Raw[0] = rapid.ByteRange(0x80, 0x8A).Draw(t, "resp")
					}
				default:
					pk.Text = rapid.StringN(0, 12, -1).Draw(t, "text")
				}
				if rapid.IntRange(0, 2).Draw(t, "damage") > 0 {
					pk.Muts = rapid.SliceOfN(rapid.Custom(genMut), 1, 3).Draw(t, "muts")
					pk.Inner = rapid.Bool().Draw(t, "inner")
					pk.Sized = rapid.Bool().Draw(t, "sized")
				}
				c.Packets = append(c.Packets, pk)
			}
			if rapid.IntRange(0, 2).Draw(t, "tail") == 0 {
				c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "tailBytes")
				if len(c.Tail) > 3 {
					// The announced size decides how much the subscriber reserves; keep that moderate, and larger
					// than the tail so that no other size follows.
					c.Tail[0], c.Tail[1], c.Tail[3] = 0, c.Tail[1]%16, c.Tail[3]|32
				}
			}
			return c
		},
		Exec: execC07,
	})
}
