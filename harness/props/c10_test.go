package props

import (
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c10Op struct {
	Kind   string // dial, listen, disconnect, drop, bad, check
	Script []int  // outcomes of attempts before one is accepted
	Max    int32
	Wait   int32
	MaxW   int32
	Auto   bool
	Addr   string
}

type c10Case struct {
	Low bool
	Ops []c10Op
}

// client is the part of the API shared by both levels.
type client struct {
	sub   *sttp.Subscriber
	ds    *transport.DataSubscriber
	mu    sync.Mutex
	estab int
	term  int
}

func newClient(low bool) *client {
	c := &client{}
	if low {
		c.ds = transport.NewDataSubscriber()
		c.ds.BeginCallbackAssignment()
		c.ds.ConnectionEstablishedCallback = func() { c.mu.Lock(); c.estab++; c.mu.Unlock() }
		c.ds.ConnectionTerminatedCallback = func() { c.mu.Lock(); c.term++; c.mu.Unlock() }
		c.ds.EndCallbackAssignment()
		return c
	}
	c.sub = sttp.NewSubscriber()
	c.sub.SetStatusMessageLogger(func(string) {})
	c.sub.SetErrorMessageLogger(func(string) {})
	c.sub.SetConnectionEstablishedReceiver(func() { c.mu.Lock(); c.estab++; c.mu.Unlock() })
	c.sub.SetConnectionTerminatedReceiver(func() { c.mu.Lock(); c.term++; c.mu.Unlock() })
	return c
}

func (c *client) counts() (int, int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.estab, c.term
}

func (c *client) dial(host string, port uint16, op c10Op) error {
	if c.sub != nil {
		cfg := sttp.NewConfig()
		cfg.MaxRetries, cfg.RetryInterval, cfg.MaxRetryInterval, cfg.AutoReconnect = op.Max, op.Wait, op.MaxW, op.Auto
		cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false
		return c.sub.Dial(net.JoinHostPort(host, strconv.Itoa(int(port))), cfg)
	}
	if c.ds.IsConnected() || c.ds.IsListening() {
		return c.ds.Connect(host, port)
	}
	con := c.ds.Connector()
	con.Hostname, con.Port = host, port
	con.MaxRetries, con.RetryInterval, con.MaxRetryInterval, con.AutoReconnect = op.Max, op.Wait, op.MaxW, op.Auto
	switch s := con.Connect(c.ds); s {
	case transport.ConnectStatus.Success:
		return nil
	default:
		return fmt.Errorf("status %d", s)
	}
}

func (c *client) listen(port uint16) error {
	if c.sub != nil {
		cfg := sttp.NewConfig()
		cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false
		return c.sub.Listen(fmt.Sprintf("127.0.0.1:%d", port), cfg)
	}
	return c.ds.Listen(port, "127.0.0.1")
}

func (c *client) disconnect() {
	if c.sub != nil {
		c.sub.Disconnect()
	} else {
		c.ds.Disconnect()
	}
}

func (c *client) connected() bool {
	if c.sub != nil {
		return c.sub.IsConnected()
	}
	return c.ds.IsConnected()
}

func (c *client) listening() bool {
	if c.sub != nil {
		return c.sub.IsListening()
	}
	return c.ds.IsListening()
}

func (c *client) subscribed() bool {
	if c.sub != nil {
		return c.sub.IsSubscribed()
	}
	return c.ds.IsSubscribed()
}

func (c *client) validated() bool {
	if c.sub != nil {
		return c.sub.IsValidated()
	}
	return c.ds.IsValidated()
}

func (c *client) close() {
	if c.sub != nil {
		c.sub.Close()
	} else {
		c.ds.Dispose()
	}
}

func (c *client) closeLater() {
	pendingCloses <- struct{}{}
	go func() { c.close(); <-pendingCloses }()
}

// within runs f and reports whether it finished within the bound.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	return waitCh(done, d)
}

// alive exchanges a notification and its confirmation over the connection.
func alive(o *vk.Obs, c *pub.Conn, n *uint32) error {
	*n++
	k := *n
	hash := []byte{0xC0, byte(k >> 16), byte(k >> 8), byte(k)}
	if err := c.Send(pub.RespNotify, 0, append(append([]byte(nil), hash...), "alive"...)); err != nil {
		return fmt.Errorf("connection was closed: %v", err)
	}
	err := c.Wait(o.Wait(), func(fs []pub.Frame) bool {
		for _, f := range fs {
			if f.Cmd == pub.CmdConfirmNotify && string(f.Payload) == string(hash) {
				return true
			}
		}
		return false
	})
	if err == pub.ErrClosed {
		return fmt.Errorf("connection was closed by the subscriber")
	}
	if err != nil {
		return vk.Stuck("connection does not respond: %v", err)
	}
	return nil
}

func execC10(c c10Case, o *vk.Obs) error {
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	h := newFakeHost()
	defer h.forget()
	cl := newClient(c.Low)
	closed := false
	defer func() {
		if !closed {
			cl.closeLater()
		}
	}()
	var conn *pub.Conn
	listening, auto := false, false
	wantEstab := 0
	seq := uint32(0)
	for i, op := range c.Ops {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("step %d (%s): %s", i, op.Kind, fmt.Sprintf(format, args...))
		}
		switch op.Kind {
		case "dial":
			h.setScript(tryAccept, op.Script...)
			var derr error
			// Waits are bounded by the configured maximum, so the whole sequence is
			start := time.Now()
			if !within(o.Wait(), func() { derr = cl.dial(h.name, p.Port(), op) }) {
				closed = true // cannot be closed safely
				return vk.Stuck("step %d: dial with retry interval %d, maximum %d, did not return after %d attempts", i, op.Wait, op.MaxW, h.count())
			}
			n := h.count()
			if conn != nil || listening {
				if derr == nil {
					return fail("accepted while already connected or listening")
				}
				if n != 0 {
					return fail("connection attempted while already connected or listening")
				}
				o.Label("refused-dial")
				break
			}
			limit := len(op.Script) + 1
			ok := op.Max == -1 || len(op.Script) < int(op.Max)
			if op.Max != -1 && !ok {
				limit = int(op.Max)
			}
			if n > limit {
				return fail("%d attempts made, at most %d expected (outcomes %v, maximum %d)", n, limit, op.Script, op.Max)
			}
			// A wait is never shorter than its timer, so a busy machine only adds to this
			if took, least := time.Since(start), leastWait(op, n); took < least {
				return fail("%d attempts made within %v, retry interval %d ms with maximum %d ms takes at least %v", n, took, op.Wait, op.MaxW, least)
			}
			if len(op.Script) > 0 {
				o.NonTrivial()
				o.Label("refusals")
			}
			if !ok {
				o.Label("failed-dial")
				if derr == nil {
					return fail("reported success although all %d attempts failed", op.Max)
				}
				if cl.connected() {
					return fail("subscriber says it is connected after a failed dial")
				}
				break
			}
			if derr != nil {
				return fail("failed with %v although attempt %d would be accepted (maximum %d, %d made)", derr, limit, op.Max, n)
			}
			if conn, err = p.Accept(o.Wait()); err != nil {
				return vk.Stuck("step %d: publisher saw no connection: %v", i, err)
			}
			wantEstab++
			auto = op.Auto
			if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
				return vk.Stuck("step %d: no operational modes: %v", i, err)
			}
			if err := conn.Send(pub.RespSucceeded, pub.CmdDefineModes, nil); err != nil {
				return fail("connection lost: %v", err)
			}
			if !cl.connected() {
				return fail("subscriber does not report the connection")
			}
		case "bad":
			h.setScript(tryAccept)
			if cl.sub == nil {
				continue
			}
			addr := op.Addr
			cfg := sttp.NewConfig()
			cfg.MaxRetries, cfg.RetryInterval, cfg.AutoRequestMetadata, cfg.AutoSubscribe = 2, 1, false, false
			cfg.AutoReconnect = op.Auto
			if err := cl.sub.Dial(addr, cfg); err == nil {
				return fail("address %q accepted", addr)
			}
			if err := cl.sub.Listen(addr, cfg); err == nil {
				return fail("listening at address %q accepted", addr)
			}
			if cl.listening() != listening || cl.connected() != (conn != nil) {
				return fail("after invalid address %q, subscriber reports connected=%v listening=%v", addr, cl.connected(), cl.listening())
			}
			if h.count() != 0 {
				return fail("attempt made for invalid address %q", addr)
			}
			if conn != nil || listening {
				break
			}
			// The least and the greatest port are no invalid ones
			h.setScript(tryNotFound, tryNotFound, tryNotFound)
			addr = h.name + ":" + []string{"1", "65535"}[len(op.Addr)%2]
			if err := cl.sub.Dial(addr, cfg); err == nil || h.count() != 2 {
				return fail("%d attempts made for %q whose name is not known (%v), 2 expected", h.count(), addr, err)
			}
			if err := cl.sub.Listen("127.0.0.1:65535", cfg); err != nil && !strings.Contains(err.Error(), "in use") {
				return fail("listening at port 65535: %v", err)
			}
			cl.disconnect()
		case "listen":
			port, err := freeTCP()
			if err != nil {
				return vk.Broken("port: %v", err)
			}
			if op.Max == 0 {
				// A port that is taken cannot be listened on
				if err := cl.listen(p.Port()); err == nil {
					return fail("accepted on a port in use")
				}
				if cl.listening() != listening || cl.connected() != (conn != nil) {
					return fail("after failing, subscriber reports connected=%v listening=%v", cl.connected(), cl.listening())
				}
				o.Label("port in use")
			}
			lerr := cl.listen(port)
			if conn != nil || listening {
				if lerr == nil {
					return fail("accepted while already connected or listening")
				}
				o.Label("refused-listen")
				break
			}
			if lerr != nil {
				return listenFailed(lerr)
			}
			listening = true
			if !cl.listening() {
				return fail("subscriber does not report that it listens")
			}
		case "disconnect":
			cl.disconnect()
			if cl.connected() || cl.listening() {
				return fail("subscriber still reports connected=%v listening=%v", cl.connected(), cl.listening())
			}
			if conn != nil {
				if err := conn.WaitClosed(o.Wait()); err != nil {
					return vk.Stuck("step %d: connection not closed: %v", i, err)
				}
				conn.Close()
				conn = nil
			}
			listening = false
		case "drop":
			// Automatic reconnection is the subject of C12
			if conn == nil || auto {
				continue
			}
			conn.Close()
			conn = nil
			if !until(o.Wait(), func() bool { return !cl.connected() }) {
				return vk.Stuck("step %d: loss of the connection not noticed", i)
			}
			o.Label("drop")
		}
		if conn != nil {
			if err := alive(o, conn, &seq); err != nil {
				return fail("existing connection: %v", err)
			}
			if !cl.connected() {
				return fail("subscriber no longer reports the connection")
			}
		}
		if e, _ := cl.counts(); e != wantEstab && (c.Low || !listening) {
			return fail("%d connections reported as established, %d made", e, wantEstab)
		}
	}
	h.setScript(tryAccept)
	closed = true
	if !within(o.Wait(), cl.close) {
		return vk.Stuck("close did not return")
	}
	if n := h.count(); n != 0 {
		return fmt.Errorf("%d connection attempts made after the end of the history", n)
	}
	if conn != nil {
		if err := conn.WaitClosed(o.Wait()); err != nil {
			return vk.Stuck("connection not closed by close: %v", err)
		}
		conn.Close()
	}
	return nil
}

// leastWait is the time between the first and the last of n attempts if each wait is the shortest that fits the
// documented back-off, which starts from the base interval.
func leastWait(op c10Op, n int) (total time.Duration) {
	most := int64(op.MaxW)
	if most <= 0 {
		most = int64(op.Wait)
	}
	for k := 0; k < n-1; k++ {
		total += time.Duration(min(int64(op.Wait)<<min(k, 30), most)) * time.Millisecond
	}
	return
}

func genC10(t *rapid.T) c10Case {
	op := rapid.Custom(func(t *rapid.T) c10Op {
		x := c10Op{Kind: rapid.SampledFrom([]string{"dial", "dial", "dial", "dial", "listen", "disconnect", "disconnect", "drop", "bad"}).Draw(t, "kind")}
		switch x.Kind {
		case "listen":
			x.Max = int32(rapid.IntRange(0, 2).Draw(t, "port"))
		case "bad":
			x.Addr = rapid.SampledFrom([]string{"", "nohost", "h.test", "127.0.0.1:", "127.0.0.1:0", "127.0.0.1:-1", "127.0.0.1:65536", "127.0.0.1:99999999", "127.0.0.1:abc", "127.0.0.1:1:2", "::1", "h.test:7165x"}).Draw(t, "addr")
		case "dial":
			x.Max = rapid.SampledFrom([]int32{-1, -1, 1, 2, 3, 4, 6}).Draw(t, "max")
			n := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 6, 7, 9}).Draw(t, "refusals")
			// Intervals stay short: either the base itself is or the maximum caps it
			x.Wait = rapid.SampledFrom([]int32{0, 1, 1, 2, 1000, 1 << 20, 1 << 30, math.MaxInt32}).Draw(t, "wait")
			x.MaxW = rapid.SampledFrom([]int32{1, 1, 2, 3, 7}).Draw(t, "maxwait")
			if x.Wait <= 1 {
				x.MaxW = rapid.SampledFrom([]int32{0, -1, 1, 2, 5}).Draw(t, "maxwait2")
			}
			if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
				n = rapid.IntRange(14, 40).Draw(t, "many")
				x.MaxW = 1
			}
			for i := 0; i < n; i++ {
				x.Script = append(x.Script, rapid.SampledFrom([]int{tryRefuse, tryRefuse, tryNotFound}).Draw(t, "outcome"))
			}
		}
		return x
	})
	c := c10Case{Low: rapid.Bool().Draw(t, "low"), Ops: rapid.SliceOfN(op, 1, 6).Draw(t, "ops")}
	// One setting for the whole history: changing it while the end of a connection is still being handled is
	// not a defined use
	auto := rapid.Bool().Draw(t, "auto")
	for i := range c.Ops {
		c.Ops[i].Auto = auto
	}
	return c
}

func TestC10(t *testing.T) {
	vk.Run(t, vk.Spec[c10Case]{
		ID: "C10", Name: "dial", Rule: "histories of dial, listen, disconnect and drops with scripted attempt outcomes; non-trivial: at least one refused attempt",
		Quick: 500, Deep: 12000, Gen: genC10, Exec: execC10,
	})
}
