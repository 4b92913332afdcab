package props

import (
	"fmt"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/ref"
	"verif/harness/vk"
)

type c12Drop struct {
	At      string // accepted, refused, validated, starting, subscribed, midpacket
	Reset   bool
	Refused []int // outcomes of the attempts that follow
	Data    int   // measurements to send while subscribed
}

type c12Case struct {
	Auto, Meta, Subscribe bool
	Filters               string
	Max                   int32
	Wait, MaxWait         int32 // retry interval and its limit, in milliseconds
	Settings              c09Settings
	Version               byte
	Drops                 []c12Drop
}

const emptyMetadata = `<DataSet xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:ext="urn:schemas-microsoft-com:xml-msdata"><xs:schema id="DataSet"><xs:element name="DataSet"><xs:complexType><xs:choice><xs:element name="MeasurementDetail"><xs:complexType><xs:sequence><xs:element name="SignalID" ext:DataType="System.Guid, mscorlib" type="xs:string"/></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema></DataSet>`

func execC12(c c12Case, o *vk.Obs) error {
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	h := newFakeHost()
	defer h.forget()
	sub := sttp.NewSubscriber()
	rec := &recorder{}
	metas := 0
	sub.SetStatusMessageLogger(func(string) {})
	sub.SetErrorMessageLogger(func(string) {})
	sub.SetConnectionEstablishedReceiver(func() { rec.with(func() { rec.estab++ }) })
	sub.SetConnectionTerminatedReceiver(func() { rec.with(func() { rec.term++ }) })
	sub.SetMetadataReceiver(func(*data.DataSet) { rec.with(func() { metas++ }) })
	sub.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
		got := copyMeas(*ms)
		rec.with(func() { rec.meas = append(rec.meas, got...) })
	})
	closed := false
	defer func() {
		if !closed {
			pendingCloses <- struct{}{}
			go func() { sub.Close(); <-pendingCloses }()
		}
	}()
	udp := uint16(0)
	if c.Settings.UDP {
		if udp, err = freeUDP(); err != nil {
			return vk.Broken("udp: %v", err)
		}
	}
	cfg := sttp.NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = c.Auto, c.Meta, c.Subscribe
	cfg.MetadataFilters, cfg.Version = c.Filters, c.Version
	cfg.MaxRetries, cfg.RetryInterval, cfg.MaxRetryInterval = c.Max, max(c.Wait, 1), c.MaxWait
	sub.Subscribe(c.Settings.Filter, c.Settings.high(udp))
	h.setScript(tryAccept)
	if err := sub.Dial(fmt.Sprintf("%s:%d", h.name, p.Port()), cfg); err != nil {
		return fmt.Errorf("dial: %v", err)
	}
	var want []gotMeas
	started, drops := 0, 0
	var dropped time.Time
	for i := 0; ; i++ {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("connection %d: %s", i+1, fmt.Sprintf(format, args...))
		}
		conn, err := p.Accept(o.Wait())
		if err != nil {
			return vk.Stuck("connection %d: subscriber did not connect again: %v (attempts %d)", i+1, err, h.count())
		}
		defer conn.Close()
		if i > 0 {
			// Every attempt waits for the interval, unless its limit is lower
			wait := max(c.Wait, 1)
			if c.MaxWait > 0 {
				wait = min(wait, c.MaxWait)
			}
			n := 1
			if c.Drops[i-1].At != "refused" {
				n += len(c.Drops[i-1].Refused)
			}
			least := time.Duration(n) * time.Duration(wait) * time.Millisecond
			if took := time.Since(dropped); took < least {
				return fail("%d attempts made %v after the connection dropped, the configured waits add up to %v", n, took, least)
			}
		}
		last := i == len(c.Drops)
		d := c12Drop{At: "end", Data: 3}
		if !last {
			d = c.Drops[i]
		}
		expect := func(cmd byte, name string) error {
			if err := conn.WaitCount(o.Wait(), cmd, 1); err != nil {
				if err == pub.ErrClosed {
					return fail("closed by the subscriber before %s", name)
				}
				return vk.Stuck("connection %d: no %s: %v", i+1, name, err)
			}
			return nil
		}
		run := func() error {
			if err := expect(pub.CmdDefineModes, "operational modes"); err != nil {
				return err
			}
			if d.At == "accepted" {
				return nil
			}
			if d.At == "refused" {
				dropped = time.Now()
				conn.Send(pub.RespFailed, pub.CmdDefineModes, []byte("not now"))
				return nil
			}
			if err := conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("ok")); err != nil {
				return fail("closed by the subscriber: %v", err)
			}
			if d.At == "validated" {
				return nil
			}
			if c.Meta {
				if err := expect(pub.CmdMetadataRefresh, "metadata request"); err != nil {
					return err
				}
				if d.At == "starting" {
					return nil
				}
				if err := conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, pub.Gzip([]byte(emptyMetadata))); err != nil {
					return fail("closed by the subscriber: %v", err)
				}
			}
			if c.Subscribe {
				if err := expect(pub.CmdSubscribe, "subscribe request"); err != nil {
					return err
				}
			} else if c.Meta {
				if !until(o.Wait(), func() bool {
					n := 0
					rec.with(func() { n = metas })
					return n > 0
				}) {
					return vk.Stuck("connection %d: metadata not received", i+1)
				}
			}
			if c.Meta || c.Subscribe {
				started++
			}
			if d.At == "starting" {
				return nil
			}
			conn.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("subscribed"))
			recs := []pub.Record{{Index: int32(i + 1), ID: guidOf(uint32(100 + i)), Source: "S", Num: uint64(i)}}
			if err := conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(c.Version, 0, pub.CacheBody(guidOf(9), recs, false), true)); err != nil {
				return fail("closed by the subscriber: %v", err)
			}
			enc := ref.NewTSSCEncoder()
			for k := 0; k < d.Data; k++ {
				// Publishing by TSSC keeps the exact time, whatever the subscription says about compact times
				m := ref.Meas{ID: int32(i + 1), Time: int64(1000*(i+1) + k), Value: uint32(k)}
				enc.Add(m)
				if err := conn.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompressed|pub.FlagCompact, 1, pub.TSSCBody(uint16(k), enc.Finish()), nil, false)); err != nil {
					return fail("closed by the subscriber: %v", err)
				}
				want = append(want, wantMeas(guidOf(uint32(100+i)), m.Value, m.Time, 0))
			}
			if d.At == "midpacket" {
				enc.Add(ref.Meas{ID: int32(i + 1), Time: 77, Value: 1})
				b := pub.Framed(pub.Packet(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompressed|pub.FlagCompact, 1, pub.TSSCBody(uint16(d.Data), enc.Finish()), nil, false)))
				conn.Write(b[:len(b)-1])
			}
			if !until(o.Wait(), func() bool { return len(rec.measurements()) >= len(want) }) {
				return vk.Stuck("connection %d: %d of %d measurements delivered", i+1, len(rec.measurements()), len(want))
			}
			return nil
		}
		if err := run(); err != nil {
			return err
		}
		if d.Data > 0 && (d.At == "subscribed" || d.At == "midpacket" || d.At == "end") {
			if err := diffMeas(rec.measurements(), want); err != nil {
				return fail("%v", err)
			}
			o.Label("data")
		}
		o.Label("drop %s", d.At)
		if last {
			if err := c12Frames(c, conn, udp); err != nil {
				return fail("%v", err)
			}
			break
		}
		h.setScript(tryAccept, d.Refused...)
		drops++
		if d.At != "refused" {
			dropped = time.Now()
		}
		if d.Reset {
			conn.Reset()
		} else {
			conn.Close()
		}
		if err := c12Frames(c, conn, udp); err != nil {
			return fail("%v", err)
		}
		if !until(o.Wait(), func() bool {
			n := 0
			rec.with(func() { n = rec.term })
			return n >= drops
		}) {
			return vk.Stuck("connection %d: loss not reported", i+1)
		}
		if !c.Auto {
			time.Sleep(5 * time.Millisecond)
			if sub.IsConnected() || h.count() != 0 {
				return fail("subscriber connected again although it must not")
			}
			break
		}
	}
	if c.Auto && drops > 1 {
		o.NonTrivial()
	}
	conns := drops
	if c.Auto {
		conns++
	}
	if c.Auto {
		if !sub.IsConnected() {
			return fmt.Errorf("subscriber does not report the last connection")
		}
	}
	ok := until(o.Wait(), func() bool {
		n := 0
		rec.with(func() { n = rec.estab })
		return n >= 1
	})
	if !ok {
		return vk.Stuck("no connection reported")
	}
	closed = true
	if !within(o.Wait(), sub.Close) {
		return vk.Stuck("close did not return")
	}
	var e, t int
	rec.with(func() { e, t = rec.estab, rec.term })
	if e > conns || e < started {
		return fmt.Errorf("%d connections made, %d of them started up, %d reported", conns, started, e)
	}
	if t != conns {
		return fmt.Errorf("%d connections ended, %d reported", conns, t)
	}
	return diffMeas(rec.measurements(), want)
}

// c12Frames checks that the commands of one connection are a prefix of the configured start-up sequence.
func c12Frames(c c12Case, conn *pub.Conn, udp uint16) error {
	seq := []byte{pub.CmdDefineModes}
	if c.Meta {
		seq = append(seq, pub.CmdMetadataRefresh)
	}
	if c.Subscribe {
		seq = append(seq, pub.CmdSubscribe)
	}
	k := 0
	for _, f := range conn.Frames() {
		if f.Cmd == pub.CmdConfirmCache {
			continue
		}
		if k >= len(seq) || f.Cmd != seq[k] {
			return fmt.Errorf("command %#x sent out of the configured start-up sequence %x at position %d", f.Cmd, seq, k)
		}
		k++
		switch f.Cmd {
		case pub.CmdSubscribe:
			if err := c09Check(f.Payload, c.Settings, udp); err != nil {
				return err
			}
		case pub.CmdMetadataRefresh:
			if err := checkFilters(f.Payload, c.Filters); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkFilters(payload []byte, filters string) error {
	if filters == "" {
		if len(payload) != 0 {
			return fmt.Errorf("metadata request carries %d bytes although no filters are configured", len(payload))
		}
		return nil
	}
	if len(payload) < 4 || int(payload[0])<<24|int(payload[1])<<16|int(payload[2])<<8|int(payload[3]) != len(payload)-4 || string(payload[4:]) != filters {
		return fmt.Errorf("metadata request carries %q, configured filters are %q", payload, filters)
	}
	return nil
}

type c12Step struct {
	Refuse bool  // the publisher refuses the session before it ends it
	Denied bool  // the publisher accepts the session and refuses a request
	Failed []int // outcomes of the attempts that follow, before one is accepted
}

type c12Limit struct {
	Max   int32
	First []int
	Steps []c12Step
	Last  bool // the last dial is without automatic reconnection
}

// execC12Limit drops connections of a subscriber with a limited number of retries. An attempt counts against the
// limit from the last connection that was not refused by the publisher.
func execC12Limit(c c12Limit, o *vk.Obs) error {
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	h := newFakeHost()
	defer h.forget()
	sub := sttp.NewSubscriber()
	rec := &recorder{}
	sub.SetStatusMessageLogger(func(string) {})
	sub.SetErrorMessageLogger(func(string) {})
	sub.SetConnectionTerminatedReceiver(func() { rec.with(func() { rec.term++ }) })
	defer func() {
		pendingCloses <- struct{}{}
		go func() { sub.Close(); <-pendingCloses }()
	}()
	cfg := sttp.NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = true, false, false
	cfg.MaxRetries, cfg.RetryInterval, cfg.MaxRetryInterval = c.Max, 1, 2
	h.setScript(tryAccept, c.First...)
	addr := fmt.Sprintf("%s:%d", h.name, p.Port())
	if err := sub.Dial(addr, cfg); err != nil {
		return fmt.Errorf("dial: %v", err)
	}
	used, retried := len(c.First)+1, 0
	for i, s := range c.Steps {
		conn, err := p.Accept(o.Wait())
		if err != nil {
			return vk.Stuck("connection %d: subscriber did not connect: %v", i+1, err)
		}
		defer conn.Close()
		if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
			return vk.Stuck("connection %d: no operational modes: %v", i+1, err)
		}
		if s.Refuse {
			conn.Send(pub.RespFailed, pub.CmdDefineModes, []byte("not now"))
			o.Label("session refused")
		} else {
			used = 0
			if s.Denied {
				conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("welcome"))
				conn.Send(pub.RespFailed, pub.CmdSubscribe, []byte("not this"))
				o.Label("request refused")
			}
		}
		left := int(c.Max) - used
		h.setScript(tryAccept, s.Failed...)
		conn.Close()
		if !until(o.Wait(), func() bool {
			n := 0
			rec.with(func() { n = rec.term })
			return n > i
		}) {
			return vk.Stuck("connection %d: loss not reported", i+1)
		}
		if len(s.Failed) < left {
			used += len(s.Failed) + 1
			retried++
			continue
		}
		until(20*time.Millisecond, func() bool { return h.count() >= left })
		time.Sleep(5 * time.Millisecond)
		if n := h.count(); n > left || sub.IsConnected() {
			return fmt.Errorf("connection %d: limited to %d retries, %d of them left, %d attempts made, connected: %v", i+1, c.Max, left, n, sub.IsConnected())
		}
		o.NonTrivial()
		o.Label("gave up")
		if left == 0 {
			return nil
		}
		if !until(o.Wait(), func() bool { return h.count() >= left }) {
			return vk.Stuck("connection %d: %d of %d attempts made", i+1, h.count(), left)
		}
		h.setScript(tryAccept)
		var again error
		cfg.AutoReconnect = !c.Last
		if !within(o.Wait(), func() { again = sub.Dial(addr, cfg) }) {
			return vk.Stuck("dial after giving up did not return")
		}
		if again != nil {
			return fmt.Errorf("dial after giving up: %v", again)
		}
		if conn, err = p.Accept(o.Wait()); err != nil {
			return vk.Stuck("subscriber did not connect when dialed again: %v", err)
		}
		defer conn.Close()
		if c.Last {
			// No longer asked to reconnect
			h.setScript(tryAccept)
			conn.Close()
			if !until(o.Wait(), func() bool { return !sub.IsConnected() }) {
				return vk.Stuck("loss of the last connection not noticed")
			}
			time.Sleep(5 * time.Millisecond)
			if n := h.count(); n > 0 {
				return fmt.Errorf("%d attempts made to reconnect a connection that was dialed without automatic reconnection", n)
			}
			o.Label("reconnection turned off")
		}
		return nil
	}
	if _, err := p.Accept(o.Wait()); err != nil {
		return vk.Stuck("subscriber did not connect again: %v", err)
	}
	if retried > 1 {
		o.NonTrivial()
	}
	return nil
}

func TestC12(t *testing.T) {
	vk.Run(t, vk.Spec[c12Limit]{
		ID: "C12", Name: "limit", Rule: "drops and refused sessions with 1 to 5 retries allowed; non-trivial: gave up, or reconnected twice",
		Quick: 300, Deep: 8000,
		Gen: func(t *rapid.T) c12Limit {
			c := c12Limit{Max: int32(rapid.IntRange(1, 5).Draw(t, "max"))}
			c.Last = rapid.Bool().Draw(t, "last")
			try := rapid.SampledFrom([]int{tryRefuse, tryNotFound})
			c.First = rapid.SliceOfN(try, 0, int(c.Max)-1).Draw(t, "first")
			n := rapid.IntRange(1, 5).Draw(t, "steps")
			for i := 0; i < n; i++ {
				c.Steps = append(c.Steps, c12Step{Refuse: rapid.IntRange(0, 2).Draw(t, "refuse") == 0, Denied: rapid.Bool().Draw(t, "denied"),
					Failed: rapid.SliceOfN(try, 0, int(c.Max)).Draw(t, "failed")})
			}
			return c
		},
		Exec: execC12Limit,
	})
	vk.Run(t, vk.Spec[c12Case]{
		ID: "C12", Name: "reconnect", Rule: "drop sequences × refusals × start-up settings; non-trivial: reconnected after two or more drops",
		Quick: 500, Deep: 12000,
		Gen: func(t *rapid.T) c12Case {
			c := c12Case{Auto: rapid.IntRange(0, 5).Draw(t, "auto") > 0, Meta: rapid.Bool().Draw(t, "meta"), Subscribe: rapid.IntRange(0, 3).Draw(t, "sub") > 0,
				Filters: rapid.SampledFrom([]string{"", "FILTER MeasurementDetail WHERE SignalAcronym <> 'STAT'", "a;b;é"}).Draw(t, "filters"),
				Max:     rapid.SampledFrom([]int32{-1, -1, 100}).Draw(t, "max"), Version: rapid.SampledFrom([]byte{2, 2, 1}).Draw(t, "version"),
				Wait: 1, MaxWait: 3, Settings: genC09Settings(t)}
			if rapid.IntRange(0, 4).Draw(t, "slow") == 0 {
				c.Wait, c.MaxWait = int32(rapid.IntRange(1, 20).Draw(t, "wait")), rapid.SampledFrom([]int32{0, 4, 16, 25}).Draw(t, "maxwait")
			}
			n := rapid.IntRange(1, 4).Draw(t, "drops")
			for i := 0; i < n; i++ {
				d := c12Drop{At: rapid.SampledFrom([]string{"accepted", "refused", "validated", "starting", "subscribed", "subscribed", "midpacket"}).Draw(t, "at"),
					Reset: rapid.Bool().Draw(t, "reset"), Data: rapid.IntRange(0, 4).Draw(t, "data"),
					Refused: rapid.SliceOfN(rapid.SampledFrom([]int{tryRefuse, tryNotFound}), 0, 4).Draw(t, "refused")}
				c.Drops = append(c.Drops, d)
			}
			return c
		},
		Exec: execC12,
	})
}
