package props

import (
	"encoding/binary"
	"fmt"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

// c04Sub is a session of the top-level subscriber.
type c04Sub struct {
	Swap          bool
	CompressCache bool
	IncludeTime   bool
	Milli         bool
	Auto          bool // subscribe on connection
	Put           bool // the receiver returns the slices
	Nil           bool // default settings
	Chunks        []int
	Steps         []hStep
}

func execC04Sub(c c04Sub, o *vk.Obs) error {
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	sub := sttp.NewSubscriber()
	rec := &recorder{}
	sub.SetStatusMessageLogger(func(string) {})
	sub.SetErrorMessageLogger(func(string) {})
	sub.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
		got := copyMeas(*ms)
		rec.with(func() { rec.meas = append(rec.meas, got...); rec.batches++ })
		if c.Put {
			sub.PutMeasurementSlice(ms)
		}
	})
	sub.SetSubscriptionUpdatedReceiver(func(x *transport.SignalIndexCache) { rec.with(func() { rec.caches = append(rec.caches, x) }) })
	cfg := sttp.NewConfig()
	cfg.MaxRetries, cfg.RetryInterval, cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = 2, 1, false, false, c.Auto
	cfg.RfcGuidEncoding, cfg.CompressSignalIndexCache = !c.Swap, c.CompressCache
	settings := sttp.NewSettings()
	settings.IncludeTime, settings.UseMillisecondResolution = c.IncludeTime, c.Milli
	if c.Nil {
		d := sttp.NewSettings()
		c.IncludeTime, c.Milli = d.IncludeTime, d.UseMillisecondResolution
		settings = nil
		o.Label("default settings")
	}
	if c.Auto {
		sub.Subscribe("FILTER x WHERE True", settings)
	}
	if err := sub.Dial(p.Addr(), cfg); err != nil {
		return fmt.Errorf("dial: %v", err)
	}
	conn, err := p.Accept(o.Wait())
	if err != nil {
		return vk.Stuck("publisher saw no connection: %v", err)
	}
	defer func() {
		conn.Close()
		within(o.Wait(), sub.Close)
	}()
	if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
		return vk.Stuck("operational modes not received: %v", err)
	}
	conn.SetChunks(c.Chunks)
	conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("ok"))
	if !c.Auto {
		sub.Subscribe("FILTER x WHERE True", settings)
	}
	subs := 1
	if err := conn.WaitCount(o.Wait(), pub.CmdSubscribe, subs); err != nil {
		return vk.Stuck("no subscribe request: %v", err)
	}
	notes := 0
	barrier := func() error {
		notes++
		if err := conn.Send(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, uint32(notes)), "barrier"...)); err != nil {
			return errClosed
		}
		if err := conn.WaitCount(o.Wait(), pub.CmdConfirmNotify, notes); err == pub.ErrClosed {
			return errClosed
		} else if err != nil {
			return vk.Stuck("subscriber did not process all data sent: %v", err)
		}
		return nil
	}
	if err := barrier(); err != nil {
		return err
	}

	var slots [2]slotModel
	var want []gotMeas
	var base [2]int64
	var last []cacheRec
	var id guid.Guid
	total, caches, data, control := 0, 0, 0, false
	check := func() error {
		if err := barrier(); err != nil {
			return err
		}
		if err := diffMeas(rec.measurements(), want); err != nil {
			return err
		}
		if got := sub.TotalMeasurementsReceived(); got != uint64(total) {
			return fmt.Errorf("received total is %d, want %d", got, total)
		}
		if caches == 0 {
			return nil
		}
		if err := checkCache(sub.ActiveSignalIndexCache(), last); err != nil {
			return fmt.Errorf("active cache: %w", err)
		}
		if sub.SubscriberID() != id {
			return fmt.Errorf("subscriber ID %v, sent %v", sub.SubscriberID(), id)
		}
		var got []*transport.SignalIndexCache
		if !until(o.Wait(), func() bool {
			rec.with(func() { got = append([]*transport.SignalIndexCache(nil), rec.caches...) })
			return len(got) >= caches
		}) {
			return vk.Stuck("%d of %d caches reported", len(got), caches)
		}
		if len(got) != caches {
			return fmt.Errorf("%d caches reported, %d sent", len(got), caches)
		}
		// Caches sent without a pause may be reported in another order
		var err error
		for _, x := range got {
			if err = checkCache(x, last); err == nil {
				return nil
			}
		}
		return fmt.Errorf("reported cache: %w", err)
	}
	for i, st := range c.Steps {
		m, fl := &slots[st.Slot], byte(0)
		if st.Slot == 1 {
			fl = pub.FlagCacheIndex
		}
		var err error
		switch st.Kind {
		case "cache":
			recs := m.load(st.First, max(st.N, 1))
			last = nil
			for _, r := range recs {
				last = append(last, cacheRec{Index: r.Index, ID: r.ID, Source: r.Source, Num: r.Num})
			}
			id = guidOf(st.First + 77)
			err = conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, st.Slot, pub.CacheBody(id, recs, c.Swap), c.CompressCache))
			caches++
			control = control || data > 0
		case "tssc":
			if m.idx == nil {
				continue
			}
			body, w := m.tsscPacket(*st.Walk, 3000)
			want = append(want, w...)
			total += len(w)
			err = conn.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompressed, uint32(len(w)), body, nil, false))
			data++
		case "compact":
			if m.idx == nil {
				continue
			}
			body, w := m.compactBody(st.Recs, max(st.N, 1), c.IncludeTime, c.Milli, base)
			want = append(want, w...)
			total += len(w)
			err = conn.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(fl|pub.FlagCompact, uint32(len(w)), body, nil, false))
			data++
		case "base":
			base = *st.Base
			err = conn.Send(pub.RespBaseTimes, 0, pub.BaseTimes(uint32(st.N), base[0], base[1]))
			control = control || data > 0
		case "reset":
			if m.idx != nil {
				m.reset()
			}
		case "resub":
			if err := check(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			sub.Subscribe("FILTER y WHERE True", settings)
			subs++
			total = 0
			if err := conn.WaitCount(o.Wait(), pub.CmdSubscribe, subs); err != nil {
				return vk.Stuck("no subscribe request: %v", err)
			}
		}
		if err != nil {
			return errClosed
		}
	}
	if err := check(); err != nil {
		return err
	}
	sent := conn.Bytes
	if !until(o.Wait(), func() bool { return sub.TotalCommandChannelBytesReceived() == sent }) {
		return vk.Stuck("received byte total is %d, %d were sent", sub.TotalCommandChannelBytesReceived(), sent)
	}
	if got := sub.TotalDataChannelBytesReceived(); got != sent {
		return fmt.Errorf("data channel byte total is %d, %d were sent", got, sent)
	}
	if control && data > 1 {
		o.NonTrivial()
	}
	return nil
}

func genC04Sub(t *rapid.T) c04Sub {
	c := c04Sub{Swap: rapid.Bool().Draw(t, "swap"), CompressCache: rapid.Bool().Draw(t, "compress"), IncludeTime: rapid.IntRange(0, 3).Draw(t, "it") > 0,
		Milli: rapid.Bool().Draw(t, "milli"), Auto: rapid.Bool().Draw(t, "auto"), Put: rapid.Bool().Draw(t, "put"), Nil: rapid.IntRange(0, 3).Draw(t, "nil") == 0,
		Chunks: genChunks(t)}
	for _, st := range genHistory(t, 12, false) {
		switch st.Kind {
		case "keys", "noise", "pause":
		default:
			c.Steps = append(c.Steps, st)
		}
	}
	return c
}
