package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c14Op struct {
	Kind string // ok, failed, meta, badmeta, start, complete, changed, notify, noop, unknown, subscribe, unsubscribe, request
	Cmd  byte
	Text string
	N    uint64
	Pad  int // further bytes of the metadata document
}

type c14Case struct {
	Low, Listen                  bool
	Meta, Subscribe              bool
	Payload, CompMeta, CompCache bool
	UDP                          bool
	Version                      byte
	Filters                      string
	Hello                        int  // length of the text that answers the operational modes
	Refused                      bool // the operational modes are answered with a failure
	Default                      bool // the configuration of a new subscriber is used
	Ops                          []c14Op
}

// ticksToTime converts ticks (100 ns since year 1) independently of the code under test.
func ticksToTime(t int64) time.Time {
	const perSecond = 10000000
	const epoch = 62135596800 // seconds between year 1 and 1970
	return time.Unix(t/perSecond-epoch, t%perSecond*100).UTC()
}

func sortedStrings(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

func sameBag(what string, got, want []string) error {
	g, w := sortedStrings(got), sortedStrings(want)
	if len(g) != len(w) {
		return fmt.Errorf("%s: %d callbacks %.300q, wanted %d %.300q", what, len(g), g, len(w), w)
	}
	for i := range g {
		if g[i] != w[i] {
			return fmt.Errorf("%s: got %.200q, wanted %.200q", what, g[i], w[i])
		}
	}
	return nil
}

func execC14(c c14Case, o *vk.Obs) error {
	if c.Default {
		o.Label("default configuration")
		if d := sttp.NewConfig(); d.MaxRetries != -1 || d.RetryInterval != 1000 || d.MaxRetryInterval != 30000 || !d.AutoReconnect || !d.RfcGuidEncoding || d.MetadataFilters != "" {
			return fmt.Errorf("a new configuration is %+v", *d)
		}
		c.Meta, c.Subscribe, c.Payload, c.CompMeta, c.CompCache, c.Version, c.Filters = true, true, true, true, true, 2, ""
	}
	rec := &recorder{}
	var times []string
	note := func(list *[]string, v string) { rec.with(func() { *list = append(*list, v) }) }
	var cl client
	udp, err := uint16(0), error(nil)
	if c.UDP {
		if udp, err = freeUDP(); err != nil {
			return vk.Broken("udp: %v", err)
		}
	}
	var ds *transport.DataSubscriber
	cfg := sttp.NewConfig()
	if c.Low {
		ds = transport.NewDataSubscriber()
		cl.ds = ds
		attach(ds, rec, false)
		if !c.Default {
			ds.CompressPayloadData, ds.CompressMetadata, ds.CompressSignalIndexCache, ds.Version = c.Payload, c.CompMeta, c.CompCache, c.Version
		}
		ds.Subscription().FilterExpression = "F"
		ds.Subscription().UdpDataChannel, ds.Subscription().DataChannelLocalPort = c.UDP, udp
	} else {
		sub := sttp.NewSubscriber()
		cl.sub = sub
		sub.SetStatusMessageLogger(func(m string) { note(&rec.statuses, m) })
		sub.SetErrorMessageLogger(func(m string) { note(&rec.errs, m) })
		sub.SetConnectionEstablishedReceiver(func() { rec.with(func() { rec.estab++ }) })
		sub.SetConnectionTerminatedReceiver(func() { rec.with(func() { rec.term++ }) })
		sub.SetMetadataReceiver(func(d *data.DataSet) { note(&rec.metas, strings.Join(d.TableNames(), ",")) })
		sub.SetDataStartTimeReceiver(func(t time.Time) { note(&times, t.UTC().Format(time.RFC3339Nano)) })
		sub.SetConfigurationChangedReceiver(func() { rec.with(func() { rec.changed++ }) })
		sub.SetHistoricalReadCompleteReceiver(func() { note(&rec.done, "") })
		sub.SetNotificationReceiver(func(m string) { note(&rec.notes, m) })
		if !c.Default {
			cfg.MaxRetries, cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = 1, false, c.Meta, c.Subscribe
			cfg.CompressPayloadData, cfg.CompressMetadata, cfg.CompressSignalIndexCache = c.Payload, c.CompMeta, c.CompCache
			cfg.Version, cfg.MetadataFilters = c.Version, c.Filters
		} else if c.UDP {
			cfg = nil
		}
		set := sttp.NewSettings()
		set.UdpPort = udp
		sub.Subscribe("F", set)
	}
	closed := false
	defer func() {
		if !closed {
			cl.closeLater()
		}
	}()
	var conn *pub.Conn
	if c.Listen {
		port, err := freeTCP()
		if err != nil {
			return vk.Broken("%v", err)
		}
		if c.Low {
			err = ds.Listen(port, "127.0.0.1")
		} else {
			err = cl.sub.Listen(fmt.Sprintf("127.0.0.1:%d", port), cfg)
		}
		if err != nil {
			return listenFailed(err)
		}
		raw, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), o.Wait())
		if err != nil {
			return fmt.Errorf("listening subscriber does not accept: %v", err)
		}
		conn = pub.NewConn(raw)
	} else {
		p, err := pub.Listen()
		if err != nil {
			return vk.Broken("listen: %v", err)
		}
		defer p.Close()
		if c.Low {
			err = ds.Connect("127.0.0.1", p.Port())
		} else {
			err = cl.sub.Dial(p.Addr(), cfg)
		}
		if err != nil {
			return fmt.Errorf("connect: %v", err)
		}
		if conn, err = p.Accept(o.Wait()); err != nil {
			return vk.Stuck("no connection: %v", err)
		}
	}
	defer conn.Close()

	// Expected commands, in order; confirmations of notifications are kept apart
	var frames []pub.Frame
	var hashes []string
	wait := func() error {
		err := conn.Wait(o.Wait(), func(fs []pub.Frame) bool { return len(fs)-pub.Count(fs, pub.CmdConfirmNotify) >= len(frames) })
		if err == pub.ErrClosed {
			return fmt.Errorf("connection closed by the subscriber")
		} else if err != nil {
			return vk.Stuck("commands sent: %d, expected: %d", len(conn.Frames()), len(frames))
		}
		return nil
	}
	modes := uint32(c.Version)&0xFF | 0x200 | 0x20
	if c.Payload && !c.UDP {
		modes |= 0x20000000 | 0x40
	}
	if c.CompCache {
		modes |= 0x40000000
	}
	if c.CompMeta {
		modes |= 0x80000000
	}
	frames = append(frames, pub.Frame{Cmd: pub.CmdDefineModes, Payload: binary.BigEndian.AppendUint32(nil, modes)})
	var metaReq []byte
	if c.Filters != "" && !c.Low {
		metaReq = append(binary.BigEndian.AppendUint32(nil, uint32(len(c.Filters))), c.Filters...)
	}
	request := func() { frames = append(frames, pub.Frame{Cmd: pub.CmdMetadataRefresh, Payload: metaReq}) }
	subscribed := false
	subscribe := func() {
		if subscribed {
			frames = append(frames, pub.Frame{Cmd: pub.CmdUnsubscribe})
		}
		frames = append(frames, pub.Frame{Cmd: pub.CmdSubscribe})
	}
	if !c.Low {
		if c.Meta {
			request()
		} else if c.Subscribe {
			subscribe()
		}
	}
	if err := wait(); err != nil {
		return err
	}
	if c.Version >= 2 && cl.validated() {
		return fmt.Errorf("connection reported as validated before any response")
	}
	var statuses, errs, starts, dones, notes, metas []string
	changed := 0
	seq := 0
	token := func(text string) string {
		seq++
		return fmt.Sprintf("<%d>%s</%d>", seq, text, seq)
	}
	// Any response whose content must arrive in one status or error message
	status := func(s string) string { statuses = append(statuses, s); return s }
	failure := func(s string) string { errs = append(errs, s); return s }
	if c.Refused {
		conn.Send(pub.RespFailed, pub.CmdDefineModes, []byte(failure(token(strings.Repeat("no", c.Hello/2)))))
	} else {
		conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte(status(token(strings.Repeat("y", c.Hello)))))
	}
	barrier := func() error {
		h := binary.BigEndian.AppendUint32(nil, 0xBA000000+uint32(len(hashes)))
		if err := conn.Send(pub.RespNotify, 0, append(h, notify(token("barrier"), &notes, &statuses)...)); err != nil {
			return fmt.Errorf("connection closed by the subscriber: %v", err)
		}
		hashes = append(hashes, string(h))
		if err := conn.WaitCount(o.Wait(), pub.CmdConfirmNotify, len(hashes)); err == pub.ErrClosed {
			return fmt.Errorf("connection closed by the subscriber")
		} else if err != nil {
			return vk.Stuck("notification not confirmed: %v", err)
		}
		return nil
	}
	check := func() error {
		if err := barrier(); err != nil {
			return err
		}
		if got := cl.subscribed(); got != subscribed {
			return fmt.Errorf("subscribed is %v, the publisher last confirmed %v", got, subscribed)
		}
		if !cl.validated() || !cl.connected() {
			return fmt.Errorf("validated %v, connected %v in a valid session", cl.validated(), cl.connected())
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	for i, op := range c.Ops {
		fail := func(err error) error { return fmt.Errorf("step %d (%s): %w", i, op.Kind, err) }
		o.Label(op.Kind)
		var err error
		switch op.Kind {
		case "ok":
			switch op.Cmd {
			case pub.CmdSubscribe:
				subscribed = true
			case pub.CmdUnsubscribe:
				subscribed = false
			}
			err = conn.Send(pub.RespSucceeded, op.Cmd, []byte(status(token(op.Text))))
		case "failed":
			err = conn.Send(pub.RespFailed, op.Cmd, []byte(failure(token(op.Text))))
		case "meta":
			doc, seen := token(op.Text+strings.Repeat("p", op.Pad)), ""
			if !c.Low {
				seen = fmt.Sprintf("T%d", op.N%1000)
				doc = strings.ReplaceAll(emptyMetadata, "MeasurementDetail", seen)
				if op.Pad > 0 {
					doc = strings.Replace(doc, "</DataSet>", strings.Repeat("<!-- padding -->", op.Pad/16)+"</DataSet>", 1)
				}
				metas = append(metas, seen)
			} else {
				metas = append(metas, doc)
			}
			body := []byte(doc)
			if c.CompMeta {
				body = pub.Gzip(body)
			}
			o.Label("metadata of %d MB", len(doc)>>20)
			err = conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, body)
			if !c.Low && c.Meta && c.Subscribe {
				subscribe()
			}
		case "badmeta":
			if !c.CompMeta {
				continue
			}
			err = conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, append([]byte{1, 2, 3}, op.Text...))
		case "start":
			t := int64(op.N % 3155378975999999999)
			starts = append(starts, ticksToTime(t).Format(time.RFC3339Nano))
			err = conn.Send(pub.RespStartTime, 0, binary.BigEndian.AppendUint64(nil, uint64(t)))
		case "complete":
			m := token(op.Text)
			if c.Low {
				dones = append(dones, m)
			} else {
				dones = append(dones, "")
				status(m)
			}
			err = conn.Send(pub.RespComplete, 0, []byte(m))
		case "changed":
			changed++
			err = conn.Send(pub.RespConfigChanged, 0, []byte(op.Text))
			if !c.Low && c.Meta {
				request()
			}
		case "notify":
			h := binary.BigEndian.AppendUint32(nil, uint32(op.N))
			hashes = append(hashes, string(h))
			if op.Text == "" {
				notes = append(notes, "")
				err = conn.Send(pub.RespNotify, 0, h)
				break
			}
			err = conn.Send(pub.RespNotify, 0, append(h, notify(token(op.Text), &notes, &statuses)...))
		case "noop":
			err = conn.Send(pub.RespNoOP, op.Cmd, []byte(op.Text))
		case "unknown":
			err = conn.Send(0x90+op.Cmd%16, op.Cmd, []byte(op.Text))
		case "subscribe":
			subscribe()
			if c.Low {
				if err := ds.Subscribe(); err != nil {
					return fail(err)
				}
			} else {
				set := sttp.NewSettings()
				set.UdpPort = udp
				cl.sub.Subscribe("F", set)
			}
		case "unsubscribe":
			frames = append(frames, pub.Frame{Cmd: pub.CmdUnsubscribe})
			if c.Low {
				ds.Unsubscribe()
			} else {
				cl.sub.Unsubscribe()
			}
		case "request":
			request()
			if c.Low {
				ds.SendServerCommand(transport.ServerCommand.MetadataRefresh)
			} else {
				cl.sub.RequestMetadata()
			}
		}
		if err != nil {
			return fail(fmt.Errorf("connection closed by the subscriber: %v", err))
		}
		if err := check(); err != nil {
			return fail(err)
		}
		if err := wait(); err != nil {
			return fail(err)
		}
	}
	if len(c.Ops) >= 3 {
		o.NonTrivial()
	}
	// Start times and notification confirmations keep their order
	verify := func() error {
		rec.mu.Lock()
		defer rec.mu.Unlock()
		if c.Low {
			times = nil
			for _, t := range rec.starts {
				times = append(times, ticksToTime(t).Format(time.RFC3339Nano))
			}
		}
		if strings.Join(times, " ") != strings.Join(starts, " ") {
			return fmt.Errorf("start times %v received, %v sent", times, starts)
		}
		if err := sameBag("notifications", rec.notes, notes); err != nil {
			return err
		}
		if err := sameBag("processing complete", rec.done, dones); err != nil {
			return err
		}
		if err := sameBag("metadata", rec.metas, metas); err != nil {
			return err
		}
		if rec.changed != changed {
			return fmt.Errorf("%d configuration changes reported, %d sent", rec.changed, changed)
		}
		for _, m := range []struct {
			what        string
			want        []string
			in, notHere []string
		}{{"status", statuses, rec.statuses, rec.errs}, {"error", errs, rec.errs, rec.statuses}} {
			for _, s := range m.want {
				n := 0
				for _, g := range m.in {
					n += strings.Count(g, s)
				}
				if n != 1 {
					return fmt.Errorf("%q appears %d times in %s messages", s, n, m.what)
				}
				for _, g := range m.notHere {
					if strings.Contains(g, s) {
						return fmt.Errorf("%q is not a %s message: %q", s, m.what, g)
					}
				}
			}
		}
		for _, op := range c.Ops {
			if (op.Kind == "unknown" || op.Kind == "badmeta" && c.CompMeta) && len(rec.errs) <= len(errs)-1 {
				return fmt.Errorf("%s response without error message", op.Kind)
			}
		}
		return nil
	}
	if !until(o.Wait(), func() bool { return verify() == nil }) {
		return vk.Stuck("%v", verify())
	}
	var got []pub.Frame
	var confirmed []string
	for _, f := range conn.Frames() {
		if f.Cmd == pub.CmdConfirmNotify {
			confirmed = append(confirmed, string(f.Payload))
		} else {
			got = append(got, f)
		}
	}
	if strings.Join(confirmed, "|") != strings.Join(hashes, "|") {
		return fmt.Errorf("notifications confirmed %x, sent %x", confirmed, hashes)
	}
	for i := 0; i < max(len(got), len(frames)); i++ {
		if i >= len(got) || i >= len(frames) || got[i].Cmd != frames[i].Cmd || got[i].Cmd != pub.CmdSubscribe && !bytes.Equal(got[i].Payload, frames[i].Payload) {
			return fmt.Errorf("command %d: sent %s, expected %s", i, showFrames(got, i), showFrames(frames, i))
		}
	}
	if conn.Bytes != 0 && !c.Low && cl.sub.TotalCommandChannelBytesReceived() != conn.Bytes {
		return fmt.Errorf("%d bytes reported, %d sent", cl.sub.TotalCommandChannelBytesReceived(), conn.Bytes)
	}
	closed = true
	if !within(o.Wait(), cl.close) {
		return vk.Stuck("close did not return")
	}
	var e, t int
	rec.with(func() { e, t = rec.estab, rec.term })
	if e != 1 || t != 1 {
		return fmt.Errorf("one connection, %d established and %d terminated reported", e, t)
	}
	// Nothing arrives late
	return verify()
}

func notify(text string, notes, statuses *[]string) string {
	*notes = append(*notes, text)
	*statuses = append(*statuses, text)
	return text
}

func showFrames(fs []pub.Frame, i int) string {
	if i >= len(fs) {
		return "nothing more"
	}
	return fmt.Sprintf("%#x %.100x", fs[i].Cmd, fs[i].Payload)
}

func genC14(t *rapid.T) c14Case {
	b := func(n string) bool { return rapid.Bool().Draw(t, n) }
	c := c14Case{Low: b("low"), Listen: rapid.IntRange(0, 3).Draw(t, "listen") == 0, Meta: b("meta"), Subscribe: b("sub"), Payload: b("payload"), CompMeta: b("compmeta"),
		CompCache: b("compcache"), UDP: rapid.IntRange(0, 3).Draw(t, "udp") == 0, Version: rapid.SampledFrom([]byte{2, 2, 2, 1, 3}).Draw(t, "version"),
		Filters: rapid.SampledFrom([]string{"", "FILTER MeasurementDetail WHERE SignalAcronym <> 'STAT'", "a;b;é", strings.Repeat("long ", 300), strings.Repeat("FILTER é;", 9000)}).Draw(t, "filters"),
		Hello:   rapid.SampledFrom([]int{0, 3, 3, 200, 4200, 8185}).Draw(t, "hello"), Refused: rapid.IntRange(0, 5).Draw(t, "refused") == 0, Default: rapid.IntRange(0, 7).Draw(t, "default") == 0}
	n := rapid.IntRange(0, 10).Draw(t, "n")
	text := rapid.OneOf(rapid.Just(""), rapid.StringN(0, 12, -1), rapid.Just(strings.Repeat("0123456789", 1000)), rapid.SampledFrom([]string{"", "", "", strings.Repeat("0123456789", 7000)}))
	for i := 0; i < n; i++ {
		op := c14Op{Kind: rapid.SampledFrom([]string{"ok", "ok", "failed", "meta", "badmeta", "start", "complete", "changed", "notify", "noop", "unknown", "subscribe", "unsubscribe", "request"}).Draw(t, "kind")}
		switch op.Kind {
		case "ok":
			op.Cmd = rapid.SampledFrom([]byte{pub.CmdSubscribe, pub.CmdSubscribe, pub.CmdUnsubscribe, pub.CmdRotateCipherKeys, pub.CmdUpdateProcessing, pub.CmdDefineModes}).Draw(t, "cmd")
		case "failed":
			op.Cmd = rapid.SampledFrom([]byte{pub.CmdConnect, pub.CmdMetadataRefresh, pub.CmdSubscribe, pub.CmdUnsubscribe, pub.CmdRotateCipherKeys, pub.CmdUpdateProcessing, pub.CmdDefineModes}).Draw(t, "cmd")
		case "noop", "unknown":
			op.Cmd = rapid.Byte().Draw(t, "cmd")
		case "start":
			// A time in years 1970 to 9999
			op.N = rapid.Uint64Range(621355968000000000, 3155378975999999999-1).Draw(t, "n")
		case "notify", "meta":
			op.N = uint64(rapid.Uint32().Draw(t, "n"))
		}
		op.Text = text.Draw(t, "text")
		c.Ops = append(c.Ops, op)
	}
	return c
}

func TestC14(t *testing.T) {
	vk.Run(t, vk.Spec[c14Case]{
		ID: "C14", Name: "contract", Rule: "configurations × response sequences; non-trivial: three or more steps after start-up",
		Quick: 1200, Deep: 40000,
		Gen:  genC14,
		Exec: execC14,
	})
	vk.Run(t, vk.Spec[c14Case]{
		ID: "C14", Name: "large", Rule: "as above, with metadata documents of up to 20 MB; non-trivial: three or more steps after start-up",
		Quick: 6, Deep: 60,
		Gen: func(t *rapid.T) c14Case {
			c := genC14(t)
			for i := rapid.IntRange(1, 3).Draw(t, "docs"); i > 0; i-- {
				c.Ops = append(c.Ops, c14Op{Kind: "meta", N: uint64(i), Pad: rapid.SampledFrom([]int{40000, 70000, 1200000, 5000000, 20000000}).Draw(t, "pad")})
			}
			return c
		},
		Exec: execC14,
	})
}
