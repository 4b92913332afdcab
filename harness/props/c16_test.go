package props

import (
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c16Case struct {
	Batches []int  // measurements per packet sent before the end action
	Reads   []int  // kind of each read: 0 plain, 1 nil context, 2 already cancelled, 3 cancelled while waiting, 4 expired deadline
	Readers int    // goroutines that read, sharing Reads
	End     string // what happens after the reads: drain, readerclose, subclose, replace, receiver, drop, disconnect
	Early   bool   // the end action runs concurrently with the reads
	Spin    int
	Waiting bool // a read is blocked when the end action runs
	After   int  // measurements sent after the end action
	Twice   bool
}

var c16Ends = []string{"drain", "readerclose", "readerclose", "subclose", "replace", "receiver", "drop", "disconnect"}

func execC16(c c16Case, o *vk.Obs) error {
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	sub := sttp.NewSubscriber()
	sub.SetStatusMessageLogger(func(string) {})
	sub.SetErrorMessageLogger(func(string) {})
	reader := sub.ReadMeasurements()
	cfg := sttp.NewConfig()
	cfg.MaxRetries, cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = 1, false, false, false
	closed := false
	defer func() {
		if !closed {
			(&client{sub: sub}).closeLater()
		}
	}()
	if err := sub.Dial(p.Addr(), cfg); err != nil {
		return fmt.Errorf("connect: %v", err)
	}
	conn, err := p.Accept(o.Wait())
	if err != nil {
		return vk.Stuck("no connection: %v", err)
	}
	defer conn.Close()
	if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
		return vk.Stuck("operational modes not received: %v", err)
	}
	conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("ok"))
	recs := []pub.Record{{Index: 1, ID: guidOf(1), Source: "S", Num: 1}}
	conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(9), recs, false), true))
	// The time of a measurement is its number
	const t0 = int64(638000000000000000)
	sent := int64(0)
	send := func(n int) error {
		var b []byte
		for i := 0; i < n; i++ {
			b, _ = encodeCompact(b, compactRec{Index: 1, Time: t0 + sent, Value: uint32(sent)}, true, false, [2]int64{})
			sent++
		}
		if err := conn.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompact, uint32(n), b, nil, false)); err != nil {
			return fmt.Errorf("connection ended: %v", err)
		}
		return nil
	}
	for _, n := range c.Batches {
		if err := send(n); err != nil {
			return err
		}
	}
	first := sent // number of the first measurement sent after the end action

	type taken struct {
		m    *transport.Measurement
		copy transport.Measurement
	}
	type lane struct {
		mu  sync.Mutex
		got []taken
	}
	take := func(l *lane, m *transport.Measurement) {
		l.mu.Lock()
		l.got = append(l.got, taken{m, *m})
		l.mu.Unlock()
	}
	lanes := make([]*lane, max(c.Readers, 1))
	next, left := 0, int(sent)
	var mu sync.Mutex
	var fail error
	// claim hands out the reads; plain reads are only handed out while measurements remain for them
	claim := func() (kind int, ok bool) {
		mu.Lock()
		defer mu.Unlock()
		for next < len(c.Reads) {
			kind = c.Reads[next]
			next++
			if kind > 1 {
				return kind, true
			}
			if left > 0 {
				left--
				return kind, true
			}
		}
		return 0, false
	}
	var readers sync.WaitGroup
	for i := range lanes {
		lanes[i] = &lane{}
		l := lanes[i]
		readers.Add(1)
		go func() {
			defer readers.Done()
			for {
				kind, ok := claim()
				if !ok {
					return
				}
				ctx, cancel := context.Background(), func() {}
				switch kind {
				case 1:
					ctx = nil
				case 2:
					ctx, cancel = context.WithCancel(ctx)
					cancel()
				case 3:
					var stop context.CancelFunc
					ctx, stop = context.WithCancel(ctx)
					cancel = stop
					go func() {
						for i := 0; i < c.Spin; i++ {
							runtime.Gosched()
						}
						stop()
					}()
				case 4:
					ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Second))
				}
				m, done := reader.NextMeasurement(ctx)
				cancel()
				if done != (m == nil) {
					mu.Lock()
					fail = fmt.Errorf("read returned measurement %v with completed state %v", m, done)
					mu.Unlock()
				}
				if m != nil {
					take(l, m)
					if kind > 1 {
						mu.Lock()
						left--
						mu.Unlock()
					}
				}
			}
		}()
	}
	finish := func() error {
		ch := make(chan struct{})
		go func() { readers.Wait(); close(ch) }()
		if !waitCh(ch, o.Wait()) {
			return vk.Stuck("a read did not return, end action %s", c.End)
		}
		mu.Lock()
		defer mu.Unlock()
		return fail
	}
	// A read with a context that can end may take a measurement a plain read was promised
	ended := false
	for _, k := range c.Reads {
		ended = ended || k > 1
	}
	if !c.Early && !(ended && c.Readers > 1) {
		if err := finish(); err != nil {
			return err
		}
	}

	extra := &lane{} // measurements read by a blocked or later read
	blocked := make(chan struct{})
	if c.Waiting {
		go func() {
			defer close(blocked)
			for {
				m, done := reader.NextMeasurement(context.Background())
				if done {
					return
				}
				take(extra, m)
			}
		}()
		o.Label("blocked read")
	}
	if c.Early {
		for i := 0; i < c.Spin; i++ {
			runtime.Gosched()
		}
	}
	barrier := func(n uint32) error {
		if err := conn.Send(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, n), "barrier"...)); err != nil {
			return fmt.Errorf("connection ended: %v", err)
		}
		if err := conn.WaitCount(o.Wait(), pub.CmdConfirmNotify, int(n)); err == pub.ErrClosed {
			return fmt.Errorf("connection ended")
		} else if err != nil {
			return vk.Stuck("subscription does not advance after %s: %v", c.End, err)
		}
		return nil
	}
	twice := func(f func()) error {
		if !within(o.Wait(), f) || c.Twice && !within(o.Wait(), f) {
			return vk.Stuck("%s did not return", c.End)
		}
		return nil
	}
	checkRead := func() error {
		// Reads from a closed reader do not block
		var m *transport.Measurement
		var done bool
		for i := 0; i < 3; i++ {
			if !within(o.Wait(), func() { m, done = reader.NextMeasurement(context.Background()) }) {
				return vk.Stuck("a read from a closed reader blocks after %s", c.End)
			}
			if done != (m == nil) {
				return fmt.Errorf("read from a closed reader returned %v with completed state %v", m, done)
			}
			if m != nil {
				take(extra, m)
			}
		}
		if c.Waiting && !waitCh(blocked, o.Wait()) {
			return vk.Stuck("a blocked read does not end after %s", c.End)
		}
		return nil
	}
	o.Label("end " + c.End)
	switch c.End {
	case "drain":
		// Everything sent is read exactly once; with a blocked reader it takes the rest
		for i := 0; i < c.After; i++ {
			if err := send(1 + i%3); err != nil {
				return err
			}
		}
		count := func() int64 {
			n := 0
			for _, l := range append(lanes, extra) {
				l.mu.Lock()
				n += len(l.got)
				l.mu.Unlock()
			}
			return int64(n)
		}
		if c.Waiting {
			if !until(o.Wait(), func() bool { return count() >= sent }) {
				return vk.Stuck("%d of %d measurements were read", count(), sent)
			}
		} else {
			// Other readers may take the last ones
			for end := time.Now().Add(o.Wait()); count() < sent; {
				ctx, cancel := context.WithTimeout(context.Background(), 2*time.Millisecond)
				m, done := reader.NextMeasurement(ctx)
				cancel()
				if !done {
					take(extra, m)
				} else if time.Now().After(end) {
					return vk.Stuck("%d of %d measurements were read", count(), sent)
				}
			}
		}
		if err := barrier(1); err != nil {
			return err
		}
		if count() != sent {
			return fmt.Errorf("%d measurements read, %d sent", count(), sent)
		}
		// Reads that found no measurement left are still waiting
		reader.Close()
	case "readerclose":
		if err := twice(reader.Close); err != nil {
			return err
		}
		for i := 0; i < c.After; i++ {
			if err := send(1 + i%3); err != nil {
				return err
			}
		}
		if err := barrier(1); err != nil {
			return err
		}
		if err := checkRead(); err != nil {
			return err
		}
	case "subclose":
		if err := twice(sub.Close); err != nil {
			return err
		}
		closed = true
		reader.Close() // ends reads, which may otherwise wait for their context
		if err := checkRead(); err != nil {
			return err
		}
	case "drop", "disconnect":
		if c.End == "drop" {
			conn.Close()
		} else if err := twice(sub.Disconnect); err != nil {
			return err
		}
		if err := twice(sub.Close); err != nil {
			return err
		}
		closed = true
		reader.Close()
		if err := checkRead(); err != nil {
			return err
		}
	case "replace", "receiver":
		l := &lane{}
		var second *sttp.MeasurementReader
		if !within(o.Wait(), func() {
			if c.End == "replace" {
				second = sub.ReadMeasurements()
			} else {
				sub.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
					for i := range *ms {
						m := (*ms)[i]
						take(l, &m)
					}
				})
			}
		}) {
			return vk.Stuck("replacing the reader did not return")
		}
		for i := 0; i <= c.After; i++ {
			if err := send(1 + i%3); err != nil {
				return err
			}
		}
		last := func() int64 {
			l.mu.Lock()
			defer l.mu.Unlock()
			if len(l.got) == 0 {
				return -1
			}
			return int64(l.got[len(l.got)-1].copy.Timestamp) - t0
		}
		if second != nil {
			for last() < sent-1 {
				ctx, cancel := context.WithTimeout(context.Background(), o.Wait())
				m, done := second.NextMeasurement(ctx)
				cancel()
				if done {
					return vk.Stuck("a replaced reader's successor read up to %d of %d", last(), sent)
				}
				take(l, m)
			}
		}
		if err := barrier(1); err != nil {
			return err
		}
		prev := int64(-1)
		for i, m := range l.got {
			n := int64(m.copy.Timestamp) - t0
			if i == 0 && n > first {
				return fmt.Errorf("the new receiver starts at measurement %d, %d was sent after it was assigned", n, first)
			}
			if i > 0 && n != prev+1 {
				return fmt.Errorf("the new receiver got measurement %d after %d", n, prev)
			}
			prev = n
		}
		if prev != sent-1 {
			return fmt.Errorf("the new receiver got measurements up to %d of %d", prev, sent)
		}
		lanes = append(lanes, l)
		// The old reader is not used any more
		reader.Close()
	}
	if err := finish(); err != nil {
		return err
	}
	if !closed {
		if !within(o.Wait(), sub.Close) {
			return vk.Stuck("closing the subscriber did not return after %s", c.End)
		}
		closed = true
	}
	if c.Waiting && !waitCh(blocked, o.Wait()) {
		return vk.Stuck("a blocked read does not end when its reader is closed")
	}
	// Every measurement read once, per reader in order, content unchanged
	seen := map[int64]bool{}
	total := 0
	for _, l := range append(lanes, extra) {
		prev := int64(-1)
		for _, g := range l.got {
			if *g.m != g.copy {
				return fmt.Errorf("measurement %v changed to %v after it was read", g.copy, *g.m)
			}
			n := int64(g.copy.Timestamp) - t0
			if w := wantMeas(guidOf(1), uint32(n), t0+n, 0); copyMeas([]transport.Measurement{g.copy})[0] != w {
				return fmt.Errorf("read %s, sent %s", showMeas(copyMeas([]transport.Measurement{g.copy})[0]), showMeas(w))
			}
			if seen[n] {
				return fmt.Errorf("measurement %d was read twice", n)
			}
			if n <= prev && l != extra {
				return fmt.Errorf("measurement %d was read after %d", n, prev)
			}
			seen[n] = true
			prev = n
			total++
		}
	}
	if total > 0 && total < int(sent) || c.End == "drain" && sent > 1 {
		o.NonTrivial()
	}
	return nil
}

func genC16(t *rapid.T) c16Case {
	return c16Case{Batches: rapid.SliceOfN(rapid.IntRange(1, 6), 1, 5).Draw(t, "batches"),
		Reads:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4}), 0, 14).Draw(t, "reads"),
		Readers: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "readers"), End: rapid.SampledFrom(c16Ends).Draw(t, "end"),
		Early: rapid.Bool().Draw(t, "early"), Spin: rapid.SampledFrom([]int{0, 0, 1, 5, 50, 300}).Draw(t, "spin"),
		Waiting: rapid.Bool().Draw(t, "waiting"), After: rapid.IntRange(0, 5).Draw(t, "after"), Twice: rapid.IntRange(0, 3).Draw(t, "twice") == 0}
}

func TestC16(t *testing.T) {
	vk.Run(t, vk.Spec[c16Case]{
		ID: "C16", Name: "reader", Rule: "reads, cancellations, data and an end action in generated interleavings; non-trivial: the end action finds unread data, or all data is drained",
		Quick: 900, Deep: 40000,
		Gen:  genC16,
		Exec: execC16,
	})
	vk.Run(t, vk.Spec[c16Case]{
		ID: "C16", Name: "large", Rule: "as above with packets of up to 3000 measurements and up to 300 reads; non-trivial: as above",
		Quick: 40, Deep: 1500,
		Gen: func(t *rapid.T) c16Case {
			c := genC16(t)
			for i := range c.Batches {
				c.Batches[i] = rapid.SampledFrom([]int{c.Batches[i], 100, 1100, 3000}).Draw(t, "batch")
			}
			for n := rapid.SampledFrom([]int{0, 50, 300}).Draw(t, "more"); n > 0; n-- {
				c.Reads = append(c.Reads, 0)
			}
			return c
		},
		Exec: execC16,
	})
}
