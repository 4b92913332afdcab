package props

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/ref"
	"verif/harness/vk"
)

type c13Op struct {
	Kind  string // serve, compete, send, drop, stray, race, relisten
	N     int
	Reset bool
	Bytes []byte // what a stray peer sends
}

type c13Case struct {
	Low             bool
	Dialed          bool // the subscriber first dials a publisher, reconnecting when necessary
	Meta, Subscribe bool
	Filters         string
	Settings        c09Settings
	Version         byte
	Ops             []c13Op
}

func execC13(c c13Case, o *vk.Obs) error {
	port, err := freeTCP()
	if err != nil {
		return vk.Broken("%v", err)
	}
	rec := &recorder{}
	take := func(ms *[]transport.Measurement) {
		got := copyMeas(*ms)
		rec.with(func() { rec.meas = append(rec.meas, got...) })
	}
	var listen func() error
	var cl client
	if c.Low {
		cl.ds = transport.NewDataSubscriber()
		cl.ds.Version = c.Version
		attach(cl.ds, rec, false)
		listen = func() error { return cl.ds.Listen(port, "127.0.0.1") }
	} else {
		cl.sub = sttp.NewSubscriber()
		cl.sub.SetStatusMessageLogger(func(string) {})
		cl.sub.SetErrorMessageLogger(func(string) {})
		cl.sub.SetConnectionEstablishedReceiver(func() { rec.with(func() { rec.estab++ }) })
		cl.sub.SetConnectionTerminatedReceiver(func() { rec.with(func() { rec.term++ }) })
		cl.sub.SetMetadataReceiver(func(*data.DataSet) {})
		cl.sub.SetNewMeasurementsReceiver(take)
		cl.sub.Subscribe(c.Settings.Filter, c.Settings.high(0))
		cfg := sttp.NewConfig()
		cfg.AutoRequestMetadata, cfg.AutoSubscribe, cfg.MetadataFilters, cfg.Version = c.Meta, c.Subscribe, c.Filters, c.Version
		listen = func() error { return cl.sub.Listen(fmt.Sprintf("127.0.0.1:%d", port), cfg) }
	}
	closed := false
	defer func() {
		if !closed {
			cl.closeLater()
		}
	}()
	seq, sessions, served := 0, 0, 0
	h := newFakeHost()
	defer h.forget()
	if c.Dialed {
		o.Label("dialed before")
		p, err := pub.Listen()
		if err != nil {
			return vk.Broken("listen: %v", err)
		}
		defer p.Close()
		h.setScript(tryAccept)
		if err := cl.dial(h.name, p.Port(), c10Op{Max: -1, Wait: 1, MaxW: 1, Auto: true}); err != nil {
			return fmt.Errorf("publisher cannot be dialed: %v", err)
		}
		conn, err := p.Accept(o.Wait())
		if err != nil {
			return vk.Stuck("publisher saw no connection: %v", err)
		}
		defer conn.Close()
		sessions++
		cl.disconnect()
		h.setScript(tryAccept)
	}
	if err := listen(); err != nil {
		return listenFailed(err)
	}
	dial := func() (*pub.Conn, error) {
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), o.Wait())
		if err != nil {
			return nil, err
		}
		return pub.NewConn(conn), nil
	}
	counts := func() (e, t int) {
		rec.with(func() { e, t = rec.estab, rec.term })
		return
	}
	var active *pub.Conn
	var enc *ref.TSSCEncoder
	var want []gotMeas
	// next connects until a publisher gets the session; one that arrives before the end of the previous session
	// has been noticed may be turned away.
	next := func() (*pub.Conn, error) {
		end := time.Now().Add(o.Wait())
		for tries := 0; ; tries++ {
			conn, err := dial()
			if err != nil {
				return nil, fmt.Errorf("listener does not accept: %v", err)
			}
			err = conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1)
			if err == nil {
				return conn, nil
			}
			conn.Close()
			if err != pub.ErrClosed || time.Now().After(end) {
				return nil, vk.Stuck("publisher is not served after %d tries: %v", tries+1, err)
			}
			time.Sleep(time.Millisecond)
		}
	}
	start := func(conn *pub.Conn) error {
		sessions++
		active, enc, seq = conn, ref.NewTSSCEncoder(), 0
		step := func(cmd byte, name string) error {
			if err := conn.WaitCount(o.Wait(), cmd, 1); err == pub.ErrClosed {
				return fmt.Errorf("session closed before %s", name)
			} else if err != nil {
				return vk.Stuck("no %s: %v", name, err)
			}
			return nil
		}
		if err := conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("ok")); err != nil {
			return fmt.Errorf("session closed by the subscriber: %v", err)
		}
		if !c.Low && c.Meta {
			if err := step(pub.CmdMetadataRefresh, "metadata request"); err != nil {
				return err
			}
			conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, pub.Gzip([]byte(emptyMetadata)))
		}
		if !c.Low && c.Subscribe {
			if err := step(pub.CmdSubscribe, "subscribe request"); err != nil {
				return err
			}
		}
		recs := []pub.Record{{Index: 1, ID: guidOf(uint32(sessions)), Source: "S", Num: 1}}
		if err := conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, 0, pub.CacheBody(guidOf(9), recs, false), true)); err != nil {
			return fmt.Errorf("session closed by the subscriber: %v", err)
		}
		return nil
	}
	send := func(n int) error {
		for k := 0; k < n; k++ {
			m := ref.Meas{ID: 1, Time: int64(1000*sessions + len(want)), Value: uint32(len(want))}
			enc.Add(m)
			if err := active.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompressed|pub.FlagCompact, 1, pub.TSSCBody(uint16(seq), enc.Finish()), nil, false)); err != nil {
				return fmt.Errorf("session closed by the subscriber: %v", err)
			}
			seq++
			want = append(want, wantMeas(guidOf(uint32(sessions)), m.Value, m.Time, 0))
		}
		if !until(o.Wait(), func() bool { return len(rec.measurements()) >= len(want) || active.Closed() }) {
			return vk.Stuck("%d of %d measurements delivered", len(rec.measurements()), len(want))
		}
		if active.Closed() {
			return fmt.Errorf("session closed by the subscriber")
		}
		return diffMeas(rec.measurements(), want)
	}
	turnedAway := func(conn *pub.Conn) error {
		if err := conn.WaitClosed(o.Wait()); err != nil {
			return vk.Stuck("competing publisher is not turned away")
		}
		if n := len(conn.Frames()); n != 0 {
			return fmt.Errorf("competing publisher received %d commands", n)
		}
		conn.Close()
		return nil
	}
	end := func() error {
		if !c.Low {
			cc := c12Case{Meta: c.Meta, Subscribe: c.Subscribe, Filters: c.Filters, Settings: c.Settings, Version: c.Version}
			if err := c12Frames(cc, active, 0); err != nil {
				return err
			}
		}
		active = nil
		return nil
	}
	ended := func() error {
		if !until(o.Wait(), func() bool { _, t := counts(); return t >= sessions }) {
			return vk.Stuck("end of session %d not reported", sessions)
		}
		return nil
	}
	for i, op := range c.Ops {
		fail := func(err error) error {
			if err == nil {
				return nil
			}
			return fmt.Errorf("step %d (%s): %w", i, op.Kind, err)
		}
		if active == nil {
			switch op.Kind {
			case "serve", "send":
				o.Label("serve")
				conn, err := next()
				if err != nil {
					return fail(err)
				}
				defer conn.Close()
				served++
				if err := start(conn); err != nil {
					return fail(err)
				}
				if err := send(op.N); err != nil {
					return fail(err)
				}
				if op.N > 0 && !(cl.connected() && cl.listening()) {
					return fail(fmt.Errorf("connected %v, listening %v while serving", cl.connected(), cl.listening()))
				}
			case "stray":
				if c.Version < 2 {
					continue
				}
				o.Label("stray")
				conn, err := next()
				if err != nil {
					return fail(err)
				}
				defer conn.Close()
				sessions++
				conn.Write(op.Bytes)
				if err := conn.WaitClosed(o.Wait()); err != nil {
					return fail(vk.Stuck("peer sending %q is not disconnected", op.Bytes))
				}
				conn.Close()
			case "race":
				o.Label("race")
				// All competitors are from the same moment, exactly one is served
				if err := ended(); err != nil {
					return fail(err)
				}
				if !until(o.Wait(), func() bool { return !cl.connected() }) {
					return fail(vk.Stuck("still connected"))
				}
				conns := make([]*pub.Conn, op.N+2)
				var wg sync.WaitGroup
				for k := range conns {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if conn, err := dial(); err == nil {
							conns[k] = conn
						}
					}()
				}
				wg.Wait()
				var winner *pub.Conn
				for _, conn := range conns {
					if conn == nil {
						return fail(fmt.Errorf("listener does not accept"))
					}
					defer conn.Close()
					err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1)
					switch {
					case err == nil && winner != nil:
						return fail(fmt.Errorf("two publishers served at once"))
					case err == nil:
						winner = conn
					case err != pub.ErrClosed:
						return fail(vk.Stuck("publisher neither served nor turned away: %v", err))
					}
				}
				if winner == nil {
					return fail(fmt.Errorf("none of %d publishers served", len(conns)))
				}
				if err := start(winner); err != nil {
					return fail(err)
				}
				if err := send(op.N); err != nil {
					return fail(err)
				}
			case "relisten":
				o.Label("relisten")
				cl.disconnect()
				if err := listen(); err != nil {
					return fail(fmt.Errorf("listen again: %v", err))
				}
			}
			continue
		}
		switch op.Kind {
		case "serve", "compete", "race", "stray":
			o.Label("compete")
			n := 1 + op.N%3
			for k := 0; k < n; k++ {
				conn, err := dial()
				if err != nil {
					return fail(fmt.Errorf("listener does not accept: %v", err))
				}
				conn.Write(op.Bytes)
				if err := turnedAway(conn); err != nil {
					return fail(err)
				}
			}
			if err := send(1); err != nil {
				return fail(err)
			}
		case "send":
			if err := send(op.N); err != nil {
				return fail(err)
			}
		case "drop", "relisten":
			o.Label("end by %s", op.Kind)
			conn := active
			if err := end(); err != nil {
				return fail(err)
			}
			if op.Kind == "relisten" {
				cl.disconnect()
				if err := conn.WaitClosed(o.Wait()); err != nil {
					return fail(vk.Stuck("session not closed by disconnect"))
				}
				conn.Close()
				if err := listen(); err != nil {
					return fail(fmt.Errorf("listen again: %v", err))
				}
				continue
			}
			if len(op.Bytes) > 0 {
				// Part of a packet
				conn.Write(append([]byte{0, 0, 1, 0}, op.Bytes[:min(len(op.Bytes), 200)]...))
			}
			if op.Reset {
				conn.Reset()
			} else {
				conn.Close()
			}
		}
	}
	if served > 1 {
		o.NonTrivial()
	}
	closed = true
	if !within(o.Wait(), cl.close) {
		return vk.Stuck("close did not return")
	}
	if err := diffMeas(rec.measurements(), want); err != nil {
		return err
	}
	if n := h.count(); n != 0 {
		return fmt.Errorf("%d attempts made to dial the former publisher after the subscriber began to listen", n)
	}
	e, t := counts()
	if e != sessions || t != sessions {
		return fmt.Errorf("%d sessions served, %d established and %d terminated reported", sessions, e, t)
	}
	return nil
}

func genStray(t *rapid.T) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "stray") {
	case 0:
		return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case 1: // announces too large a packet
		return append([]byte{rapid.ByteRange(0, 255).Draw(t, "b0"), rapid.ByteRange(1, 255).Draw(t, "b1"), 0, 0}, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "rest")...)
	case 2: // a response to something never asked
		cmd := rapid.SampledFrom([]byte{0, pub.CmdMetadataRefresh, pub.CmdSubscribe, 0x77}).Draw(t, "cmd")
		resp := rapid.SampledFrom([]byte{pub.RespSucceeded, pub.RespFailed, pub.RespDataPacket, pub.RespNotify, 0x01}).Draw(t, "resp")
		return pub.Framed(pub.Packet(resp, cmd, rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "data")))
	}
	return []byte("SSH-2.0-OpenSSH_9.6\r\n")
}

func TestC13(t *testing.T) {
	vk.Run(t, vk.Spec[c13Case]{
		ID: "C13", Name: "listen", Rule: "histories of publishers connecting to a listening subscriber; non-trivial: two or more sessions served",
		Quick: 600, Deep: 12000,
		Gen: func(t *rapid.T) c13Case {
			c := c13Case{Low: rapid.Bool().Draw(t, "low"), Dialed: rapid.IntRange(0, 2).Draw(t, "dialed") == 0, Meta: rapid.Bool().Draw(t, "meta"), Subscribe: rapid.Bool().Draw(t, "sub"),
				Filters: rapid.SampledFrom([]string{"", "x"}).Draw(t, "filters"), Version: rapid.SampledFrom([]byte{2, 2, 2, 1}).Draw(t, "version"), Settings: genC09Settings(t)}
			c.Settings.UDP = false
			n := rapid.IntRange(1, 12).Draw(t, "n")
			for i := 0; i < n; i++ {
				op := c13Op{Kind: rapid.SampledFrom([]string{"serve", "serve", "compete", "send", "drop", "drop", "stray", "race", "relisten"}).Draw(t, "kind"),
					N: rapid.IntRange(0, 4).Draw(t, "k"), Reset: rapid.Bool().Draw(t, "reset")}
				switch op.Kind {
				case "stray", "compete":
					op.Bytes = genStray(t)
				case "drop":
					op.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "part")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Exec: execC13,
	})
}
