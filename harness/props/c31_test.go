package props

import (
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

var c31Kinds = []string{"status", "error", "metadata", "updated", "start", "changed", "measurements", "blocks", "notification", "complete", "established", "terminated"}

type c31Op struct {
	Assign bool
	Kind   string
	Nil    bool // assign no receiver
	Inside string
	// Inside names a receiver whose next event reassigns Kind from within the receiver
	Log bool // the receiver logs
}

type c31Case struct {
	Churn  bool // other receivers are assigned all the time
	Listen bool
	Ops    []c31Op
}

type c31Hit struct {
	kind string
	gen  int
}

// c31State tracks which receivers were called.
type c31State struct {
	sub  *sttp.Subscriber
	mu   sync.Mutex
	hits []c31Hit
	next map[string]func() // run once by the next call of a receiver of that kind
}

func (s *c31State) hit(kind string, gen int, log bool) {
	s.mu.Lock()
	s.hits = append(s.hits, c31Hit{kind, gen})
	f := s.next[kind]
	delete(s.next, kind)
	s.mu.Unlock()
	if log {
		s.sub.StatusMessage("a receiver logs")
		s.sub.ErrorMessage("a receiver logs")
	}
	if f != nil {
		f()
	}
}

func (s *c31State) count(kind string, gen int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, h := range s.hits {
		if h.kind == kind && h.gen == gen {
			n++
		}
	}
	return n
}

// assign sets the receiver of a kind; receivers of loggers count only messages that carry the mark.
func (s *c31State) assign(kind string, gen int, none, log bool) {
	sub := s.sub
	call := func() { s.hit(kind, gen, log) }
	switch kind {
	case "status", "error":
		set := sub.SetStatusMessageLogger
		if kind == "error" {
			set = sub.SetErrorMessageLogger
		}
		if none {
			set(nil)
			return
		}
		set(func(m string) {
			if len(m) >= 4 && m[len(m)-4:] == "MARK" {
				s.hit(kind, gen, false)
			}
		})
	case "metadata":
		if none {
			sub.SetMetadataReceiver(nil)
		} else {
			sub.SetMetadataReceiver(func(*data.DataSet) { call() })
		}
	case "updated":
		if none {
			sub.SetSubscriptionUpdatedReceiver(nil)
		} else {
			sub.SetSubscriptionUpdatedReceiver(func(*transport.SignalIndexCache) { call() })
		}
	case "start":
		if none {
			sub.SetDataStartTimeReceiver(nil)
		} else {
			sub.SetDataStartTimeReceiver(func(time.Time) { call() })
		}
	case "changed":
		if none {
			sub.SetConfigurationChangedReceiver(nil)
		} else {
			sub.SetConfigurationChangedReceiver(call)
		}
	case "measurements":
		if none {
			sub.SetNewMeasurementsReceiver(nil)
		} else {
			sub.SetNewMeasurementsReceiver(func(*[]transport.Measurement) { call() })
		}
	case "blocks":
		if none {
			sub.SetNewBufferBlocksReceiver(nil)
		} else {
			sub.SetNewBufferBlocksReceiver(func([]transport.BufferBlock) { call() })
		}
	case "notification":
		if none {
			sub.SetNotificationReceiver(nil)
		} else {
			sub.SetNotificationReceiver(func(m string) {
				if m == "NOTE" {
					call()
				}
			})
		}
	case "complete":
		if none {
			sub.SetHistoricalReadCompleteReceiver(nil)
		} else {
			sub.SetHistoricalReadCompleteReceiver(call)
		}
	case "established":
		if none {
			sub.SetConnectionEstablishedReceiver(nil)
		} else {
			sub.SetConnectionEstablishedReceiver(call)
		}
	case "terminated":
		if none {
			sub.SetConnectionTerminatedReceiver(nil)
		} else {
			sub.SetConnectionTerminatedReceiver(call)
		}
	}
}

func execC31(c c31Case, o *vk.Obs) error {
	s := &c31State{sub: sttp.NewSubscriber(), next: map[string]func(){}}
	sub := s.sub
	gens, live := map[string]int{}, map[string]bool{}
	for _, k := range c31Kinds {
		gens[k], live[k] = 1, true
		s.assign(k, 1, false, false)
	}
	closed := false
	defer func() {
		if !closed {
			(&client{sub: sub}).closeLater()
		}
	}()
	stop := make(chan struct{})
	var churn sync.WaitGroup
	defer func() { close(stop); churn.Wait() }()
	if c.Churn {
		o.Label("churn")
		assign := func() {
			sub.SetConnectionEstablishedReceiver(func() { s.hit("established", -1, true) })
			sub.SetSubscriptionUpdatedReceiver(func(*transport.SignalIndexCache) { s.hit("updated", -1, true) })
		}
		// The counted receivers are gone before the first event
		assign()
		churn.Add(1)
		go func() {
			defer churn.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				// The same receivers over and over, under every lock involved
				assign()
				time.Sleep(50 * time.Microsecond)
			}
		}()
		delete(live, "established")
		delete(live, "updated")
	}
	port, err := freeTCP()
	if err != nil {
		return vk.Broken("%v", err)
	}
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	cfg := sttp.NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = true, false, false
	cfg.RetryInterval, cfg.MaxRetryInterval = 1, 3
	if c.Listen {
		err = sub.Listen(fmt.Sprintf("127.0.0.1:%d", port), cfg)
		if err != nil {
			return listenFailed(err)
		}
	} else if !within(o.Wait(), func() { err = sub.Dial(p.Addr(), cfg) }) {
		return vk.Stuck("dial did not return")
	} else if err != nil {
		return fmt.Errorf("dial: %v", err)
	}
	var conn *pub.Conn
	hashes := uint32(0)
	confirm := func() error {
		// Everything sent before has been processed
		hashes++
		want := int(hashes)
		if err := conn.Send(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, hashes), "barrier"...)); err != nil {
			return fmt.Errorf("closed by the subscriber: %v", err)
		}
		if err := conn.WaitCount(o.Wait(), pub.CmdConfirmNotify, want); err == pub.ErrClosed {
			return fmt.Errorf("closed by the subscriber")
		} else if err != nil {
			return vk.Stuck("no confirmation: %v", err)
		}
		return nil
	}
	want := map[c31Hit]int{}
	// loose counts events sent while no receiver was assigned; a later receiver may still see them
	loose := map[string]int{}
	expect := func(kind string) error {
		if _, tracked := live[kind]; !tracked {
			return nil
		}
		if !live[kind] {
			loose[kind]++
			return nil
		}
		h := c31Hit{kind, gens[kind]}
		want[h]++
		if !until(o.Wait(), func() bool { return s.count(kind, gens[kind]) >= want[h] }) {
			return vk.Stuck("%s event is not delivered to the receiver assigned last", kind)
		}
		return nil
	}
	blocks := uint32(0)
	enter := func() error {
		hashes, blocks = 0, 0
		if c.Listen {
			end := time.Now().Add(o.Wait())
			for {
				raw, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), o.Wait())
				if err != nil {
					return fmt.Errorf("listener does not accept: %v", err)
				}
				conn = pub.NewConn(raw)
				if err = conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err == nil {
					break
				}
				conn.Close()
				if time.Now().After(end) {
					return vk.Stuck("publisher not served: %v", err)
				}
				time.Sleep(time.Millisecond)
			}
		} else {
			if conn, err = p.Accept(o.Wait()); err != nil {
				return vk.Stuck("no connection: %v", err)
			}
			if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
				return vk.Stuck("no operational modes: %v", err)
			}
		}
		conn.Send(pub.RespSucceeded, pub.CmdDefineModes, nil)
		if err := expect("established"); err != nil {
			return err
		}
		recs := []pub.Record{{Index: 1, ID: guidOf(1), Source: "S", Num: 1}}
		conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(9), recs, false), true))
		if err := confirm(); err != nil {
			return err
		}
		return expect("updated")
	}
	fire := func(kind string) error {
		switch kind {
		case "status":
			conn.Send(pub.RespSucceeded, pub.CmdRotateCipherKeys, []byte("MARK"))
		case "error":
			conn.Send(pub.RespFailed, pub.CmdSubscribe, []byte("MARK"))
		case "metadata":
			conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, pub.Gzip([]byte(emptyMetadata)))
		case "updated":
			recs := []pub.Record{{Index: 1, ID: guidOf(1), Source: "S", Num: 1}}
			conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(9), recs, false), true))
		case "start":
			conn.Send(pub.RespStartTime, 0, binary.BigEndian.AppendUint64(nil, 638000000000000000))
		case "changed":
			conn.Send(pub.RespConfigChanged, 0, nil)
		case "measurements":
			b, _ := encodeCompact(nil, compactRec{Index: 1, Time: 638000000000000000}, true, false, [2]int64{})
			conn.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompact, 1, b, nil, false))
		case "blocks":
			b := binary.BigEndian.AppendUint32(nil, blocks)
			b = append(b, 0)
			b = binary.BigEndian.AppendUint32(b, 1)
			conn.Send(pub.RespBufferBlock, 0, append(b, "block"...))
			blocks++
		case "notification":
			hashes++
			conn.Send(pub.RespNotify, 0, append(binary.BigEndian.AppendUint32(nil, hashes), "NOTE"...))
		case "complete":
			conn.Send(pub.RespComplete, 0, []byte("done"))
		case "established", "terminated":
			conn.Close()
			if err := expect("terminated"); err != nil {
				return err
			}
			if !until(o.Wait(), func() bool { return conn.Closed() }) {
				return vk.Broken("connection not closed")
			}
			return enter()
		}
		if err := confirm(); err != nil {
			return err
		}
		return expect(kind)
	}
	if err := enter(); err != nil {
		return err
	}
	defer func() { conn.Close() }()
	assigns := 0
	for i, op := range c.Ops {
		fail := func(err error) error { return fmt.Errorf("step %d %+v: %w", i, op, err) }
		if !op.Assign {
			o.Label("fire %s", op.Kind)
			if err := fire(op.Kind); err != nil {
				return fail(err)
			}
			continue
		}
		if _, tracked := live[op.Kind]; !tracked {
			continue
		}
		assigns++
		gens[op.Kind]++
		gen := gens[op.Kind]
		if op.Inside != "" && live[op.Inside] {
			// Assigned from within a receiver, which is called now
			o.Label("assign %s inside %s", op.Kind, op.Inside)
			done := make(chan struct{})
			s.mu.Lock()
			s.next[op.Inside] = func() { s.assign(op.Kind, gen, op.Nil, op.Log); close(done) }
			s.mu.Unlock()
			if op.Inside == op.Kind {
				// The running event still belongs to the previous receiver
				gens[op.Kind]--
			}
			if err := fire(op.Inside); err != nil {
				return fail(err)
			}
			if !waitCh(done, o.Wait()) {
				return fail(vk.Stuck("assignment inside a receiver does not return"))
			}
			gens[op.Kind] = gen
		} else {
			o.Label("assign %s", op.Kind)
			if !within(o.Wait(), func() { s.assign(op.Kind, gen, op.Nil, op.Log) }) {
				return fail(vk.Stuck("assignment does not return"))
			}
		}
		live[op.Kind] = !op.Nil
	}
	if assigns > 0 {
		o.NonTrivial()
	}
	conn.Close()
	if err := expect("terminated"); err != nil {
		return err
	}
	closed = true
	if !within(o.Wait(), sub.Close) {
		return vk.Stuck("close did not return")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	got := map[c31Hit]int{}
	for _, h := range s.hits {
		got[h]++
	}
	for h, n := range got {
		if h.gen < 0 {
			continue
		}
		extra := n - want[h]
		if h.kind == "established" || h.kind == "terminated" {
			// Reconnects at the end of the case may add some
			continue
		}
		if extra > 0 && extra > loose[h.kind] {
			return fmt.Errorf("%s receiver %d was called %d times, expected %d", h.kind, h.gen, n, want[h])
		}
	}
	return nil
}

func TestC31(t *testing.T) {
	kinds := rapid.SampledFrom(c31Kinds)
	vk.Run(t, vk.Spec[c31Case]{
		ID: "C31", Name: "assign", Rule: "histories of receiver assignments and events; non-trivial: at least one assignment during the session",
		Quick: 800, Deep: 20000,
		Gen: func(t *rapid.T) c31Case {
			c := c31Case{Churn: rapid.IntRange(0, 3).Draw(t, "churn") == 0, Listen: rapid.Bool().Draw(t, "listen")}
			n := rapid.IntRange(1, 12).Draw(t, "n")
			for i := 0; i < n; i++ {
				op := c31Op{Assign: rapid.Bool().Draw(t, "assign"), Kind: kinds.Draw(t, "kind")}
				if op.Assign {
					op.Nil = rapid.IntRange(0, 4).Draw(t, "nil") == 0
					op.Log = rapid.Bool().Draw(t, "log")
					if rapid.IntRange(0, 2).Draw(t, "how") == 0 {
						op.Inside = rapid.SampledFrom(c31Kinds[:10]).Draw(t, "inside")
					}
					c.Ops = append(c.Ops, op)
					op = c31Op{Kind: op.Kind}
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Exec: execC31,
	})
}
