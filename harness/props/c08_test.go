package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"testing"

	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c08Send struct {
	Code byte
	Len  int
	Kind int // 0 payload, 1 message, 2 no payload
}

type c08Case struct {
	Senders [][]c08Send
	Notes   int // notifications sent meanwhile, each demanding a confirmation
	Blocks  int
}

func c08Payload(sender, i, n int, text bool) []byte {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(k*7 + sender*31 + i*13)
		if text {
			b[k] = 'a' + b[k]%26
		}
	}
	if n >= 5 {
		b[0] = byte(sender)
		binary.BigEndian.PutUint32(b[1:], uint32(i))
		if text {
			copy(b, fmt.Sprintf("%c%04d", 'A'+sender, i))
		}
	}
	return b
}

// Codes 0xD0..0xDF and 0x01..0x05 are used by callers; the subscriber itself only sends modes and confirmations.
func execC08(c c08Case, o *vk.Obs) error {
	ds := transport.NewDataSubscriber()
	s, err := dialSess(o, ds, false)
	if err != nil {
		return err
	}
	defer s.closeLater()
	if err := s.barrier(); err != nil {
		return err
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	type want struct {
		code    byte
		payload []byte
	}
	wants := make([][]want, len(c.Senders))
	big := false
	total := 0
	for g, list := range c.Senders {
		for i, x := range list {
			n := x.Len
			if x.Kind == 2 {
				n = 0
			}
			code := byte(0xD0 + g)
			wants[g] = append(wants[g], want{code, c08Payload(g, i, n, x.Kind == 1)})
			big = big || n > 32768
			total++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, x := range list {
				code := transport.ServerCommandEnum(wants[g][i].code)
				switch x.Kind {
				case 1:
					ds.SendServerCommandWithMessage(code, string(wants[g][i].payload))
				case 2:
					ds.SendServerCommand(code)
				default:
					ds.SendServerCommandWithPayload(code, append([]byte(nil), wants[g][i].payload...))
				}
			}
		}()
	}
	close(start)
	for i := 0; i < c.Notes; i++ {
		if err := s.c.Send(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, uint32(0xA0000000+i)), "note"...)); err != nil {
			return fmt.Errorf("connection lost while sending: %v (%s)", err, s.c.Bad())
		}
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !waitCh(done, o.Wait()) {
		return vk.Stuck("senders did not finish")
	}
	if err := s.barrier(); err != nil {
		return fmt.Errorf("%w %s", err, s.c.Bad())
	}
	if err := s.c.Wait(o.Wait(), func(fs []pub.Frame) bool {
		n := 0
		for _, f := range fs {
			if f.Cmd >= 0xD0 && f.Cmd < 0xE0 {
				n++
			}
		}
		return n >= total
	}); err != nil {
		return fmt.Errorf("not all of %d commands arrived: %v %s", total, err, s.c.Bad())
	}
	next := make([]int, len(c.Senders))
	notes := 0
	for k, f := range s.c.Frames() {
		switch {
		case f.Cmd == pub.CmdDefineModes && k == 0:
		case f.Cmd == pub.CmdConfirmNotify && len(f.Payload) == 4:
			h := binary.BigEndian.Uint32(f.Payload)
			if h >= 0xB0000000 {
				continue
			}
			if h != uint32(0xA0000000+notes) {
				return fmt.Errorf("frame %d: confirmation of notification %#x, expected %#x", k, h, 0xA0000000+notes)
			}
			notes++
		case f.Cmd >= 0xD0 && int(f.Cmd-0xD0) < len(c.Senders):
			g := int(f.Cmd - 0xD0)
			if next[g] >= len(wants[g]) {
				return fmt.Errorf("frame %d: more commands from sender %d than were sent", k, g)
			}
			w := wants[g][next[g]]
			if !bytes.Equal(f.Payload, w.payload) {
				return fmt.Errorf("frame %d: command %d of sender %d arrived with %d bytes that differ from the %d sent", k, next[g], g, len(f.Payload), len(w.payload))
			}
			next[g]++
		default:
			return fmt.Errorf("frame %d: command %#x with %d bytes was never sent", k, f.Cmd, len(f.Payload))
		}
	}
	if notes != c.Notes {
		return fmt.Errorf("%d of %d notifications confirmed", notes, c.Notes)
	}
	if b := s.c.Bad(); b != "" {
		return fmt.Errorf("%s", b)
	}
	if len(c.Senders) > 1 || big {
		o.NonTrivial()
	}
	if big {
		o.Label("big")
	}
	return nil
}

func TestC08(t *testing.T) {
	vk.Run(t, vk.Spec[c08Case]{
		ID: "C08", Name: "senders", Rule: "concurrent senders against incoming notifications; non-trivial: two or more senders or a payload over 32 KiB",
		Quick: 900, Deep: 15000,
		Gen: func(t *rapid.T) c08Case {
			var c c08Case
			n := rapid.IntRange(1, 8).Draw(t, "senders")
			for g := 0; g < n; g++ {
				c.Senders = append(c.Senders, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c08Send {
					return c08Send{Kind: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "kind"),
						Len: rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 40), rapid.IntRange(100, 3000), rapid.SampledFrom([]int{32757, 32758, 32762, 32763, 32764, 32768, 40000, 65535, 200000})).Draw(t, "len")}
				}), 1, 25).Draw(t, "list"))
			}
			c.Notes = rapid.SampledFrom([]int{0, 5, 40}).Draw(t, "notes")
			return c
		},
		Exec: execC08,
	})
	vk.Run(t, vk.Spec[c08Case]{
		ID: "C08", Name: "large", Rule: "as above with payloads of up to 20 MB; non-trivial: as above",
		Quick: 4, Deep: 60,
		Gen: func(t *rapid.T) c08Case {
			var c c08Case
			for g := rapid.IntRange(1, 3).Draw(t, "senders"); g > 0; g-- {
				list := []c08Send{{Len: rapid.SampledFrom([]int{1<<20 + 1, 3000000, 20000000}).Draw(t, "large")}}
				for n := rapid.IntRange(0, 3).Draw(t, "more"); n > 0; n-- {
					list = append(list, c08Send{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Len: rapid.SampledFrom([]int{0, 100, 70000, 1 << 20}).Draw(t, "len")})
				}
				c.Senders = append(c.Senders, list)
			}
			c.Notes = rapid.SampledFrom([]int{0, 5}).Draw(t, "notes")
			return c
		},
		Exec: execC08,
	})
}
