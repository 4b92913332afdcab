package props

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

var c11States = []string{"idle", "failed", "dialing", "retrying", "accepting", "connected", "validated", "receiving", "udp", "listening", "served", "rewaiting", "redialing", "dropped", "flapping", "closed"}

type c11Act struct {
	Kind  string // close, disconnect
	Spin  int    // how long the actor waits first, in scheduler yields
	Twice bool
}

type c11Case struct {
	Low    bool
	State  string
	Auto   bool
	Acts   []c11Act // concurrent actors
	From   string   // additionally disconnect from a callback: "", measurements, start, established, terminated
	Redial bool     // dial again after a plain disconnect
}

// ownsUDP tells whether this process has a UDP socket on the port.
func ownsUDP(port uint16) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/self/net/udp", "/proc/self/net/udp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	if len(inodes) == 0 {
		return false
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && inodes[l] {
			return true
		}
	}
	return false
}

// streamer publishes compact measurements on a connection until stopped.
func streamer(c *pub.Conn, stop <-chan struct{}, done *sync.WaitGroup) {
	defer done.Done()
	for i := uint32(0); ; i++ {
		select {
		case <-stop:
			return
		default:
		}
		body, _ := encodeCompact(nil, compactRec{Index: 1, Value: i, Time: int64(i) + 1}, true, false, [2]int64{})
		if c.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompact, 1, body, nil, false)) != nil {
			return
		}
	}
}

func execC11(c c11Case, o *vk.Obs) error {
	if c.State != "idle" {
		o.NonTrivial()
	}
	o.Label("state %s", c.State)
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	h := newFakeHost()
	defer h.forget()
	cl := newClient(c.Low)
	var got, estab, term int64
	from := func(where string) {
		if c.From == where {
			cl.disconnect()
		}
	}
	onMeas := func(ms *[]transport.Measurement) { atomic.AddInt64(&got, int64(len(*ms))); from("measurements") }
	onEstab := func() { atomic.AddInt64(&estab, 1); from("established") }
	onTerm := func() { atomic.AddInt64(&term, 1); from("terminated") }
	if c.Low {
		cl.ds.BeginCallbackAssignment()
		cl.ds.NewMeasurementsCallback = onMeas
		cl.ds.ConnectionEstablishedCallback = onEstab
		cl.ds.ConnectionTerminatedCallback = onTerm
		cl.ds.DataStartTimeCallback = func(ticks.Ticks) { from("start") }
		cl.ds.EndCallbackAssignment()
	} else {
		cl.sub.SetNewMeasurementsReceiver(onMeas)
		cl.sub.SetConnectionEstablishedReceiver(onEstab)
		cl.sub.SetConnectionTerminatedReceiver(onTerm)
		cl.sub.SetDataStartTimeReceiver(func(time.Time) { from("start") })
	}
	op := c10Op{Max: -1, Wait: 1, MaxW: 2, Auto: c.Auto}
	var conns []*pub.Conn
	defer func() {
		for _, x := range conns {
			x.Close()
		}
	}()
	accept := func() (*pub.Conn, error) {
		x, err := p.Accept(o.Wait())
		if err != nil {
			return nil, vk.Stuck("publisher saw no connection: %v", err)
		}
		conns = append(conns, x)
		return x, nil
	}
	dialDone := make(chan error, 4)
	pendingDials := 0
	bgDial := func() {
		pendingDials++
		go func() { dialDone <- cl.dial(h.name, p.Port(), op) }()
	}
	stop := make(chan struct{})
	var streams sync.WaitGroup
	stopStreams := sync.OnceFunc(func() { close(stop) })
	defer func() { stopStreams(); streams.Wait() }()
	never := false // no connection can have been made by the pending dial
	var ln, udp uint16
	connect := func() (*pub.Conn, error) {
		h.setScript(tryAccept)
		if err := cl.dial(h.name, p.Port(), op); err != nil {
			if c.From == "established" {
				return nil, nil
			}
			return nil, fmt.Errorf("dial: %v", err)
		}
		return accept()
	}
	validate := func(x *pub.Conn) error {
		if x == nil {
			return nil
		}
		if err := x.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
			if c.From == "established" {
				return nil
			}
			return vk.Stuck("no operational modes: %v", err)
		}
		x.Send(pub.RespSucceeded, pub.CmdDefineModes, nil)
		return nil
	}
	startStream := func(x *pub.Conn) {
		if x == nil {
			return
		}
		x.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody([16]byte{1}, []pub.Record{{Index: 1, ID: guidOf(1), Source: "S", Num: 1}}, false), c.Low || true))
		x.Send(pub.RespStartTime, 0, []byte{0, 0, 0, 0, 0, 0, 1, 0})
		streams.Add(1)
		go streamer(x, stop, &streams)
		if c.From == "" {
			until(o.Wait(), func() bool { return atomic.LoadInt64(&got) > 0 || x.Closed() })
		}
	}
	var x *pub.Conn
	switch c.State {
	case "idle":
	case "failed":
		bad := op
		bad.Max = 2
		h.setScript(tryRefuse)
		cl.dial(h.name, p.Port(), bad)
	case "dialing":
		h.setScript(tryHang)
		never = true
		bgDial()
		until(o.Wait(), func() bool { return h.count() > 0 })
	case "retrying":
		op.Wait, op.MaxW = 1<<30, 1<<30
		h.setScript(tryRefuse)
		never = true
		bgDial()
		until(o.Wait(), func() bool { return h.count() > 0 })
	case "accepting": // actors race with the connection being made
		h.setScript(tryAccept)
		bgDial()
		until(o.Wait(), func() bool { return h.count() > 0 })
	case "connected", "validated", "receiving", "udp", "rewaiting", "redialing", "dropped", "flapping":
		if x, err = connect(); err != nil {
			return err
		}
		if c.State == "connected" {
			break
		}
		if err := validate(x); err != nil {
			return err
		}
		switch c.State {
		case "receiving":
			startStream(x)
		case "udp":
			port, err := freeUDP()
			if err != nil {
				return vk.Broken("udp: %v", err)
			}
			if c.Low {
				s := cl.ds.Subscription()
				s.UdpDataChannel, s.DataChannelLocalPort = true, port
				cl.ds.Subscribe()
			} else {
				x := c09Defaults()
				x.Default, x.UDP = false, true
				cl.sub.Subscribe("", x.high(port))
			}
			udp = port
			startStream(x)
		case "rewaiting":
			h.setScript(tryRefuse)
			x.Close()
			until(o.Wait(), func() bool { return !c.Auto || c.From != "" || h.count() > 0 })
		case "redialing":
			h.setScript(tryHang)
			x.Close()
			until(o.Wait(), func() bool { return !c.Auto || c.From != "" || h.count() > 0 })
		case "dropped":
			h.setScript(tryAccept)
			x.Close()
		case "flapping": // every connection is dropped at once
			h.setScript(tryAccept)
			x.Close()
			streams.Add(1)
			go func() {
				defer streams.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if y, err := p.Accept(2 * time.Millisecond); err == nil {
						y.Close()
					}
				}
			}()
		}
	case "listening", "served":
		if ln, err = freeTCP(); err != nil {
			return vk.Broken("port: %v", err)
		}
		if err := cl.listen(ln); err != nil {
			return listenFailed(err)
		}
		if c.State == "served" {
			nc, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", ln))
			if err != nil {
				return fmt.Errorf("connecting to the listening subscriber: %v", err)
			}
			x = pub.NewConn(nc)
			conns = append(conns, x)
			if err := validate(x); err != nil {
				return err
			}
			startStream(x)
		}
	case "closed":
		if !within(o.Wait(), cl.close) {
			return vk.Stuck("close of an idle subscriber did not return")
		}
	}
	// Act
	var wg sync.WaitGroup
	closes := false
	for _, a := range c.Acts {
		closes = closes || a.Kind == "close"
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < a.Spin; i++ {
				time.Sleep(0)
			}
			n := 1
			if a.Twice {
				n = 2
			}
			for i := 0; i < n; i++ {
				if a.Kind == "close" {
					cl.close()
				} else {
					cl.disconnect()
				}
			}
		}()
	}
	acted := make(chan struct{})
	go func() { wg.Wait(); close(acted) }()
	if !waitCh(acted, o.Wait()) {
		return vk.Stuck("state %s: close or disconnect did not return", c.State)
	}
	for ; pendingDials > 0; pendingDials-- {
		select {
		case err := <-dialDone:
			if never && err == nil {
				return fmt.Errorf("dial reported success although no attempt was accepted")
			}
		case <-time.After(o.Wait()):
			return vk.Stuck("state %s: dial did not return after the subscriber was closed", c.State)
		}
	}
	// Everything must settle
	settled := func() bool {
		return !cl.connected() && !cl.listening() && !cl.subscribed() && !cl.validated()
	}
	balanced := func() bool {
		e, t := atomic.LoadInt64(&estab), atomic.LoadInt64(&term)
		return e <= t
	}
	if closes {
		// Close is synchronous
		if !settled() {
			return fmt.Errorf("state %s: after close connected=%v listening=%v subscribed=%v validated=%v", c.State, cl.connected(), cl.listening(), cl.subscribed(), cl.validated())
		}
		if !c.Low {
			until(o.Wait(), balanced) // established receiver may be running
		}
	} else if !until(o.Wait(), func() bool { return settled() && balanced() }) {
		return vk.Stuck("state %s: after disconnect connected=%v listening=%v subscribed=%v validated=%v established=%d terminated=%d", c.State, cl.connected(), cl.listening(), cl.subscribed(), cl.validated(), atomic.LoadInt64(&estab), atomic.LoadInt64(&term))
	}
	if x != nil {
		if err := x.WaitClosed(o.Wait()); err != nil {
			return vk.Stuck("state %s: connection still open: %v", c.State, err)
		}
	}
	m0, t0 := atomic.LoadInt64(&got), atomic.LoadInt64(&term)
	if ln != 0 {
		if y, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", ln)); err == nil {
			if closes {
				y.Close()
				return fmt.Errorf("state %s: listening socket still open", c.State)
			}
			// Disconnect closes the listener in the background; such a connection must be closed again
			z := pub.NewConn(y)
			defer z.Close()
			if err := z.WaitClosed(o.Wait()); err != nil {
				return vk.Stuck("state %s: listener still serves after disconnect", c.State)
			}
		}
	}
	if !closes && c.Redial && c.From != "established" && c.State != "closed" && c.State != "flapping" {
		o.Label("redial")
		op = c10Op{Max: -1, Wait: 1, MaxW: 2}
		h.setScript(tryAccept)
		// Connections of the first session may still be queued
		for {
			y, err := p.Accept(time.Millisecond)
			if err != nil {
				break
			}
			conns = append(conns, y)
		}
		var derr error
		if !within(o.Wait(), func() { derr = cl.dial(h.name, p.Port(), op) }) {
			return vk.Stuck("state %s: dial after disconnect did not return", c.State)
		}
		if derr != nil {
			return fmt.Errorf("state %s: dial after disconnect: %v", c.State, derr)
		}
		y, err := accept()
		if err != nil {
			return err
		}
		if err := validate(y); err != nil {
			return err
		}
		var n uint32
		if err := alive(o, y, &n); err != nil {
			return fmt.Errorf("state %s: connection made after disconnect: %v", c.State, err)
		}
		t0++
	}
	if !within(o.Wait(), cl.close) {
		return vk.Stuck("state %s: final close did not return", c.State)
	}
	if !settled() {
		return fmt.Errorf("state %s: after final close connected=%v listening=%v subscribed=%v validated=%v", c.State, cl.connected(), cl.listening(), cl.subscribed(), cl.validated())
	}
	if udp != 0 && ownsUDP(udp) {
		return fmt.Errorf("state %s: UDP socket still open after close", c.State)
	}
	n0 := h.count()
	h.mu.Lock()
	h.script, h.rest = nil, tryAccept
	h.mu.Unlock()
	time.Sleep(2 * time.Millisecond)
	if n := h.count(); n != n0 {
		return fmt.Errorf("state %s: %d connection attempts after close", c.State, n-n0)
	}
	if m := atomic.LoadInt64(&got); m != m0 {
		return fmt.Errorf("state %s: %d measurements delivered after the connection ended", c.State, m-m0)
	}
	e, t := atomic.LoadInt64(&estab), atomic.LoadInt64(&term)
	if c.Low && e != t {
		return fmt.Errorf("state %s: %d connections established, %d reported terminated", c.State, e, t)
	}
	if !c.Low && e > t {
		return fmt.Errorf("state %s: %d connections established, only %d reported terminated", c.State, e, t)
	}
	if t != t0 {
		return fmt.Errorf("state %s: %d terminations reported before and %d after everything was closed", c.State, t0, t)
	}
	if x != nil && c.State != "dropped" && c.State != "flapping" && c.State != "rewaiting" && c.State != "redialing" {
		want := int64(1)
		if c.Redial && !closes && c.From != "established" {
			want = 2
		}
		if t != want {
			return fmt.Errorf("state %s: %d terminations reported for %d connections", c.State, t, want)
		}
	}
	return nil
}

func TestC11(t *testing.T) {
	vk.Run(t, vk.Spec[c11Case]{
		ID: "C11", Name: "close", Rule: "session states × concurrent close/disconnect actors × callbacks that disconnect; non-trivial: the subscriber is not idle",
		Quick: 500, Deep: 15000,
		Gen: func(t *rapid.T) c11Case {
			c := c11Case{Low: rapid.Bool().Draw(t, "low"), State: rapid.SampledFrom(c11States).Draw(t, "state"), Auto: rapid.Bool().Draw(t, "auto")}
			n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "actors")
			for i := 0; i < n; i++ {
				c.Acts = append(c.Acts, c11Act{Kind: rapid.SampledFrom([]string{"close", "disconnect"}).Draw(t, "kind"),
					Spin: rapid.SampledFrom([]int{0, 0, 1, 10, 100, 500}).Draw(t, "spin"), Twice: rapid.IntRange(0, 3).Draw(t, "twice") == 0})
			}
			if rapid.IntRange(0, 3).Draw(t, "callback") == 0 {
				c.From = rapid.SampledFrom([]string{"measurements", "start", "established", "terminated"}).Draw(t, "from")
			}
			c.Redial = rapid.Bool().Draw(t, "redial")
			return c
		},
		Exec: execC11,
	})
}
