package props

import (
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c34Msg struct {
	Error bool
	Text  string
}

type c34Case struct {
	Mode     string // dial, listen or direct (a DataSubscriber on its own)
	Host     string
	Sessions int
	Msgs     [][]c34Msg // per goroutine
}

// console collects what is written to one of the standard streams.
type console struct {
	mu   sync.Mutex
	text strings.Builder
	w    *os.File
	done chan struct{}
}

func newConsole() (*console, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := &console{w: w, done: make(chan struct{})}
	go func() {
		defer close(c.done)
		defer r.Close()
		buf := make([]byte, 4096)
		for {
			n, err := r.Read(buf)
			c.mu.Lock()
			c.text.Write(buf[:n])
			c.mu.Unlock()
			if err != nil {
				if err != io.EOF {
					panic(err)
				}
				return
			}
		}
	}()
	return c, nil
}

func (c *console) String() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.text.String()
}

// line tells whether a whole line with a part was written after position from.
func (c *console) line(from int, part string) bool {
	text := c.String()[from:]
	for _, l := range strings.SplitAfter(text, "\n") {
		if strings.Contains(l, part) && strings.HasSuffix(l, "\n") {
			return true
		}
	}
	return false
}

func execC34(c c34Case, o *vk.Obs) error {
	o.Label(c.Mode)
	out, err := newConsole()
	if err != nil {
		return vk.Broken("pipe: %v", err)
	}
	errs, err := newConsole()
	if err != nil {
		return vk.Broken("pipe: %v", err)
	}
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = out.w, errs.w
	defer func() {
		os.Stdout, os.Stderr = stdout, stderr
		out.w.Close()
		errs.w.Close()
		<-out.done
		<-errs.done
	}()

	port, err := freeTCP()
	if err != nil {
		return vk.Broken("%v", err)
	}
	loop := "127.0.0.1"
	if c.Host == "::1" {
		l, err := net.Listen("tcp", "[::1]:0")
		if err != nil {
			o.Label("no IPv6 here")
			return nil
		}
		l.Close()
		loop = c.Host
	}
	o.Label("%s %s", c.Mode, c.Host)
	p, err := pub.ListenOn(loop)
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()

	var sub *sttp.Subscriber
	var ds *transport.DataSubscriber
	closer := func() { ds.Dispose() }
	name := func() string { return ds.ConnectionID() }
	if c.Mode == "direct" {
		ds = transport.NewDataSubscriber()
	} else {
		sub = sttp.NewSubscriber()
		closer, name = sub.Close, sub.ConnectionID
	}
	closed := false
	defer func() {
		if !closed {
			within(o.Wait(), closer)
		}
	}()
	cfg := sttp.NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false, false
	if c.Mode == "listen" {
		if err := sub.Listen(net.JoinHostPort(loop, fmt.Sprint(port)), cfg); err != nil {
			return listenFailed(err)
		}
	}
	for i := 0; i < c.Sessions; i++ {
		fail := func(err error) error { return fmt.Errorf("session %d: %w", i, err) }
		from, efrom := len(out.String()), len(errs.String())
		var conn *pub.Conn
		want := fmt.Sprintf("%s:%d", c.Host, p.Port())
		switch c.Mode {
		case "listen":
			want = loop
			end := time.Now().Add(o.Wait())
			for {
				raw, err := net.DialTimeout("tcp", net.JoinHostPort(loop, fmt.Sprint(port)), o.Wait())
				if err != nil {
					return fail(fmt.Errorf("listener does not accept: %v", err))
				}
				conn = pub.NewConn(raw)
				if err = conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err == nil {
					break
				}
				conn.Close()
				if time.Now().After(end) {
					return fail(vk.Stuck("publisher not served: %v", err))
				}
				time.Sleep(time.Millisecond)
			}
		case "dial":
			if !within(o.Wait(), func() { err = sub.Dial(net.JoinHostPort(c.Host, fmt.Sprint(p.Port())), cfg) }) {
				return fail(vk.Stuck("dial did not return"))
			}
		default:
			if !within(o.Wait(), func() { err = ds.Connect(c.Host, p.Port()) }) {
				return fail(vk.Stuck("connect did not return"))
			}
		}
		if err != nil {
			return fail(fmt.Errorf("connect: %v", err))
		}
		if conn == nil {
			if conn, err = p.Accept(o.Wait()); err != nil {
				return fail(vk.Stuck("no connection: %v", err))
			}
			if err = conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
				return fail(vk.Stuck("no operational modes: %v", err))
			}
		}
		defer conn.Close()
		id := name()
		if c.Mode == "listen" && id != want && !strings.HasSuffix(id, " ("+want+")") || c.Mode != "listen" && id != want && id != net.JoinHostPort(c.Host, fmt.Sprint(p.Port())) {
			return fail(fmt.Errorf("connection ID is %q, expected %q", id, want))
		}
		if sub != nil && !until(o.Wait(), func() bool { return out.line(from, id) }) {
			return fail(vk.Stuck("connecting is not reported on standard output: %q", out.String()[from:]))
		}
		if i == 0 && sub != nil {
			var wg sync.WaitGroup
			for g, list := range c.Msgs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k, m := range list {
						if text := c34Text(g, k, m); m.Error {
							sub.ErrorMessage(text)
						} else {
							sub.StatusMessage(text)
						}
					}
				}()
			}
			if !within(o.Wait(), wg.Wait) {
				return fail(vk.Stuck("logging does not return"))
			}
		}
		conn.Close()
		if sub != nil && !until(o.Wait(), func() bool { return errs.line(efrom, id) }) {
			return fail(vk.Stuck("the end of the connection is not reported on standard error: %q", errs.String()[efrom:]))
		}
		if sub == nil {
			if !until(o.Wait(), func() bool { return !ds.IsConnected() }) {
				return fail(vk.Stuck("still connected"))
			}
		} else if !until(o.Wait(), func() bool { return !sub.IsConnected() }) {
			return fail(vk.Stuck("still connected"))
		}
	}
	closed = true
	if !within(o.Wait(), closer) {
		return vk.Stuck("close did not return")
	}
	for g, list := range c.Msgs {
		if sub == nil {
			break
		}
		lastOut, lastErr := -1, -1
		for k, m := range list {
			text := c34Text(g, k, m)
			in, other, last := out, errs, &lastOut
			if m.Error {
				in, other, last = errs, out, &lastErr
			}
			if !until(o.Wait(), func() bool { return strings.Contains(in.String(), text+"\n") }) {
				return fmt.Errorf("message %q (error %v) was not written whole: output %q, errors %q", text, m.Error, out, errs)
			}
			if strings.Count(in.String(), text) != 1 || strings.Contains(other.String(), text) {
				return fmt.Errorf("message %q (error %v) was written repeatedly or to the other stream: output %q, errors %q", text, m.Error, out, errs)
			}
			at := strings.Index(in.String(), text)
			if at < *last {
				return fmt.Errorf("message %q was written before an earlier one", text)
			}
			*last = at
			o.NonTrivial()
		}
	}
	if sub == nil || c.Sessions > 1 {
		o.NonTrivial()
	}
	return nil
}

// c34Text is the text of a message, unique in its case.
func c34Text(g, k int, m c34Msg) string { return fmt.Sprintf("<%d.%d %s %d.%d>", g, k, m.Text, g, k) }

func TestC34(t *testing.T) {
	vk.Run(t, vk.Spec[c34Case]{
		ID: "C34", Name: "console", Rule: "up to 3 sessions dialed or accepted with the default receivers, and messages logged from up to 4 goroutines; non-trivial: messages logged, several sessions, or a subscriber without receivers",
		Quick: 300, Deep: 3000, Exec: execC34,
		Gen: func(t *rapid.T) c34Case {
			c := c34Case{Mode: rapid.SampledFrom([]string{"dial", "dial", "listen", "direct"}).Draw(t, "mode"),
				Host:     rapid.SampledFrom([]string{"127.0.0.1", "localhost", "::1"}).Draw(t, "host"),
				Sessions: rapid.IntRange(1, 3).Draw(t, "sessions")}
			msg := rapid.Custom(func(t *rapid.T) c34Msg {
				return c34Msg{rapid.Bool().Draw(t, "error"), rapid.StringOfN(rapid.RuneFrom([]rune("ab %d%s\n\té中\\")), 0, 12, -1).Draw(t, "text")}
			})
			c.Msgs = rapid.SliceOfN(rapid.SliceOfN(msg, 0, 5), 0, 4).Draw(t, "msgs")
			return c
		},
	})
}
