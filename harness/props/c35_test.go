package props

import (
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/guid"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/ref"
	"verif/harness/vk"
)

// c35Programs are the example programs that are part of the build.
var c35Programs = []string{"SimpleSubscribe", "SimpleSubscribeReverse", "SimpleResubscribe"}

var c35Built struct {
	sync.Once
	dir string
	err error
}

// c35Program builds the example programs into the scratch directory of the run and returns the path of one.
func c35Program(name string) (string, error) {
	b := &c35Built
	b.Do(func() {
		out := os.Getenv("VK_OUT")
		if out == "" {
			out = os.TempDir()
		}
		if b.dir, b.err = os.MkdirTemp(out, "examples-"); b.err != nil {
			return
		}
		args := []string{"build", "-o", b.dir + "/"}
		for _, p := range c35Programs {
			args = append(args, "github.com/sttp/goapi/examples/"+p)
		}
		cmd := exec.Command("go", args...)
		cmd.Dir = ".."
		if root := os.Getenv("VK_ROOT"); root != "" {
			cmd.Dir = filepath.Join(root, "harness")
		}
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		if text, err := cmd.CombinedOutput(); err != nil {
			b.err = fmt.Errorf("%v: %s", err, text)
		}
	})
	if b.err != nil {
		return "", vk.Broken("building the examples: %v", b.err)
	}
	return filepath.Join(b.dir, name), nil
}

// program is a running example program.
type program struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out, err *console
	ended    chan struct{}
	code     int
}

func startProgram(name string, args ...string) (*program, error) {
	path, err := c35Program(name)
	if err != nil {
		return nil, err
	}
	p := &program{cmd: exec.Command(path, args...), ended: make(chan struct{})}
	if p.out, err = newConsole(); err != nil {
		return nil, vk.Broken("pipe: %v", err)
	}
	if p.err, err = newConsole(); err != nil {
		return nil, vk.Broken("pipe: %v", err)
	}
	p.cmd.Stdout, p.cmd.Stderr = p.out.w, p.err.w
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, vk.Broken("pipe: %v", err)
	}
	if err = p.cmd.Start(); err != nil {
		return nil, vk.Broken("start: %v", err)
	}
	go func() {
		p.cmd.Wait()
		p.out.w.Close()
		p.err.w.Close()
		<-p.out.done
		<-p.err.done
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.ended)
	}()
	return p, nil
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.ended
}

func (p *program) running() bool {
	select {
	case <-p.ended:
		return false
	default:
		return true
	}
}

// died describes an unexpected end of the program.
func (p *program) died() error {
	errs := p.err.String()
	if i := strings.Index(errs, "panic: "); i >= 0 {
		errs = errs[i:]
	}
	return fmt.Errorf("program ended with status %d: output %.300q, errors %.500q", p.code, p.out, errs)
}

// until waits for a condition while the program runs.
func (p *program) until(o *vk.Obs, d time.Duration, what string, cond func() bool) error {
	if until(o.Wait()+d, func() bool { return cond() || !p.running() }) {
		if cond() {
			return nil
		}
		return p.died()
	}
	return vk.Stuck("%s: output %.600q, errors %.300q", what, p.out, p.err)
}

type c35Args struct {
	Prog string
	Args []string
}

func execC35Args(c c35Args, o *vk.Obs) error {
	want := 0
	if len(c.Args) < 2 {
		want = 1
	} else if v, err := strconv.Atoi(c.Args[1]); err != nil || v < 1 || v > math.MaxUint16 {
		want = 2
	}
	if want == 0 {
		o.Label("valid")
		return nil
	}
	p, err := startProgram(c.Prog, c.Args...)
	if err != nil {
		return err
	}
	defer p.kill()
	if !waitCh(p.ended, o.Wait()) {
		return vk.Stuck("%s %q does not end", c.Prog, c.Args)
	}
	if strings.Contains(p.err.String(), "panic: ") {
		return p.died()
	}
	if p.code == 0 {
		return fmt.Errorf("%s %q ended with status 0: %q", c.Prog, c.Args, p.out)
	}
	text := p.out.String() + p.err.String()
	if want == 1 {
		o.Label("usage")
		if !strings.Contains(text, "HOSTNAME PORT") {
			return fmt.Errorf("%s %q did not show its usage: %q", c.Prog, c.Args, text)
		}
		return nil
	}
	o.Label("bad port")
	if c.Args[0] != c.Args[1] {
		o.NonTrivial()
	}
	if !strings.Contains(text, `"`+c.Args[1]+`"`) {
		return vk.Known("port-text", "%s %q did not name the rejected port %q: %q", c.Prog, c.Args, c.Args[1], text)
	}
	return nil
}

type c35Drop struct {
	Reset bool
	Shown bool // a measurement is shown before the drop
}

type c35Run struct {
	Prog   string
	Host   string
	Extra  []string
	Values []int32 // in thousandths, per signal
	Drops  []c35Drop
	Keys   int  // resubscriptions
	Quiet  bool // no data for some seconds before the program is ended
	EOF    bool // ended by closing its input
}

type c35Case struct{ Runs []c35Run }

func execC35(c c35Case, o *vk.Obs) error {
	errs := make([]error, len(c.Runs))
	var wg sync.WaitGroup
	for i, r := range c.Runs {
		o.Label(r.Prog)
		if len(r.Drops) > 0 {
			o.Label("reconnected")
		}
		if r.Quiet {
			o.Label("quiet end")
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = runC35(r, o)
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("run %d (%s): %w", i, c.Runs[i].Prog, err)
		}
	}
	o.NonTrivial()
	return nil
}

var c35Shown = regexp.MustCompile(`(?s)(\d+) measurements received so far\. Current measurement:\s*(\S+) @ \S+ = (\S+) \(([^)]*)\)`)

func runC35(c c35Run, o *vk.Obs) error {
	reverse := strings.HasSuffix(c.Prog, "Reverse")
	resub := c.Prog == "SimpleResubscribe"
	var p *pub.Publisher
	var err error
	port := uint16(0)
	if reverse {
		if port, err = freeTCP(); err != nil {
			return vk.Broken("%v", err)
		}
	} else {
		if p, err = pub.Listen(); err != nil {
			return vk.Broken("listen: %v", err)
		}
		defer p.Close()
		port = p.Port()
	}
	prog, err := startProgram(c.Prog, append([]string{c.Host, strconv.Itoa(int(port))}, c.Extra...)...)
	if err != nil {
		return err
	}
	defer prog.kill()
	if reverse {
		if err := prog.until(o, 0, "listening is not reported", func() bool { return prog.out.line(0, fmt.Sprint(port)) || prog.err.line(0, fmt.Sprint(port)) }); err != nil {
			return err
		}
		if prog.err.line(0, fmt.Sprint(port)) {
			return vk.Broken("port %d is taken: %q", port, prog.err)
		}
	}
	connect := func() (*pub.Conn, error) {
		if !reverse {
			conn, err := p.Accept(o.Wait())
			if err != nil && !prog.running() {
				return nil, prog.died()
			} else if err != nil {
				return nil, vk.Stuck("program does not connect: %v, output %q, errors %q", err, prog.out, prog.err)
			}
			return conn, nil
		}
		for end := time.Now().Add(o.Wait()); ; time.Sleep(5 * time.Millisecond) {
			if raw, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), o.Wait()); err == nil {
				conn := pub.NewConn(raw)
				if conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1) == nil {
					return conn, nil
				}
				conn.Close()
			}
			if !prog.running() {
				return nil, prog.died()
			}
			if time.Now().After(end) {
				return nil, vk.Stuck("program does not serve publisher connections: output %q, errors %q", prog.out, prog.err)
			}
		}
	}
	filter := "FILTER TOP 20 ActiveMeasurements WHERE True"
	if resub {
		filter = "FILTER TOP 1 ActiveMeasurements WHERE SignalType <> 'STAT'"
	}
	sent := uint64(0)
	for i := 0; i <= len(c.Drops); i++ {
		fail := func(err error) error { return fmt.Errorf("connection %d: %w", i+1, err) }
		out, errs := len(prog.out.String()), len(prog.err.String())
		if i == 0 {
			out, errs = 0, 0
		}
		conn, err := connect()
		if err != nil {
			return fail(err)
		}
		defer conn.Close()
		expect := func(cmd byte, n int, name string) error {
			if err := conn.WaitCount(o.Wait(), cmd, n); err != nil {
				if !prog.running() {
					return fail(prog.died())
				}
				if err == pub.ErrClosed {
					return fail(fmt.Errorf("closed by the program before %s", name))
				}
				return fail(vk.Stuck("no %s: %v", name, err))
			}
			return nil
		}
		if err := expect(pub.CmdDefineModes, 1, "operational modes"); err != nil {
			return err
		}
		conn.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("ok"))
		if err := expect(pub.CmdMetadataRefresh, 1, "metadata request"); err != nil {
			return err
		}
		conn.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, pub.Gzip([]byte(emptyMetadata)))
		if err := expect(pub.CmdSubscribe, 1, "subscribe request"); err != nil {
			return err
		}
		last := func() string {
			text := ""
			for _, f := range conn.Frames() {
				if f.Cmd == pub.CmdSubscribe {
					text = string(f.Payload)
				}
			}
			return text
		}
		if !strings.Contains(last(), filter) {
			return fail(fmt.Errorf("the subscription %q lacks the filter expression %q", last(), filter))
		}
		var recs []pub.Record
		for k := range c.Values {
			recs = append(recs, pub.Record{Index: int32(k), ID: guidOf(uint32(100 + k)), Source: "S", Num: uint64(k)})
		}
		enc := ref.NewTSSCEncoder()
		seq := uint16(0)
		answer := func() {
			conn.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("subscribed"))
			conn.Send(pub.RespCache, pub.CmdSubscribe, pub.CacheUpdate(2, 0, pub.CacheBody(guidOf(9), recs, false), true))
			enc, seq = ref.NewTSSCEncoder(), 0
		}
		answer()
		publish := func() {
			for k, v := range c.Values {
				enc.Add(ref.Meas{ID: int32(k), Time: 630822816000000000 + int64(sent)*10000, Value: math.Float32bits(float32(v) / 1000)})
			}
			conn.Send(pub.RespDataPacket, pub.CmdSubscribe, pub.DataPacket(pub.FlagCompressed|pub.FlagCompact, uint32(len(c.Values)), pub.TSSCBody(seq, enc.Finish()), nil, false))
			if seq++; seq == 0 {
				seq = 1
			}
			sent += uint64(len(c.Values))
			time.Sleep(10 * time.Millisecond)
		}
		if err := prog.until(o, 0, "the connection is not reported", func() bool { return prog.out.line(out, "established") }); err != nil {
			return fail(err)
		}
		if err := prog.until(o, 0, "received measurements are not reported", func() bool {
			publish()
			return prog.out.line(out, "Receiving measurements")
		}); err != nil {
			return fail(err)
		}
		final := i == len(c.Drops)
		if final || c.Drops[i].Shown {
			var m []string
			from := len(prog.out.String())
			if err := prog.until(o, 6*time.Second, "received measurements are not shown", func() bool {
				publish()
				m = c35Shown.FindStringSubmatch(prog.out.String()[from:])
				return m != nil
			}); err != nil {
				return fail(err)
			}
			if n, err := strconv.ParseUint(m[1], 10, 64); err != nil || n < 1 || n > sent {
				return fail(fmt.Errorf("%s measurements are said to be received, %d were sent", m[1], sent))
			}
			ok := false
			for k, v := range c.Values {
				if strings.EqualFold(strings.Trim(m[2], "{}"), guidText(guidOf(uint32(100+k)))) {
					ok = m[3] == strconv.FormatFloat(float64(float32(v)/1000), 'f', 3, 64)
				}
			}
			if !ok {
				return fail(fmt.Errorf("shown measurement %q is none of those sent: values %v", m[0], c.Values))
			}
		}
		if final {
			for k := 0; k < c.Keys && resub; k++ {
				io.WriteString(prog.in, "\n")
				if err := expect(pub.CmdSubscribe, k+2, "subscribe request after a key press"); err != nil {
					return err
				}
				filter = fmt.Sprintf("FILTER TOP %d ActiveMeasurements WHERE SignalType <> 'STAT'", k+2)
				if !strings.Contains(last(), filter) {
					return fail(fmt.Errorf("the subscription %q lacks the filter expression %q", last(), filter))
				}
				answer()
				publish()
			}
			if c.Quiet {
				time.Sleep(5200 * time.Millisecond)
			}
			if !prog.running() {
				return fail(prog.died())
			}
			switch {
			case resub:
				io.WriteString(prog.in, " ")
			case c.EOF:
				prog.in.Close()
			default:
				io.WriteString(prog.in, "\n")
			}
			if !waitCh(prog.ended, o.Wait()) {
				return fail(vk.Stuck("the program does not end: output %.600q, errors %.300q", prog.out, prog.err))
			}
			if prog.code != 0 {
				return fail(prog.died())
			}
			break
		}
		if c.Drops[i].Reset {
			conn.Reset()
		} else {
			conn.Close()
		}
		if err := prog.until(o, 0, "the end of the connection is not reported", func() bool { return prog.err.line(errs, "terminated") }); err != nil {
			return fail(err)
		}
	}
	return nil
}

func guidText(g guid.Guid) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", g[:4], g[4:6], g[6:8], g[8:10], g[10:])
}

func TestC35(t *testing.T) {
	prog := rapid.SampledFrom(c35Programs)
	vk.Run(t, vk.Spec[c35Args]{
		ID: "C35", Name: "args", Rule: "an example program started with missing arguments or a port that is no number from 1 to 65535; non-trivial: a bad port that differs from the host name",
		Quick: 300, Deep: 3000, Exec: execC35Args,
		Gen: func(t *rapid.T) c35Args {
			c := c35Args{Prog: prog.Draw(t, "prog")}
			n := rapid.SampledFrom([]int{0, 1, 2, 2, 2, 2, 3}).Draw(t, "count")
			for i := 0; i < n; i++ {
				if i != 1 {
					c.Args = append(c.Args, rapid.SampledFrom([]string{"localhost", "127.0.0.1", "h", "", "7165"}).Draw(t, "arg"))
					continue
				}
				c.Args = append(c.Args, rapid.OneOf(
					rapid.SampledFrom([]string{"", "0", "-1", "65536", "65537", "7165x", "x", " 7165", "7165 ", "7 165", "1e3", "0x10", "71.65", "99999999999999999999", "-7165", "--1", "70000", "131073", "4294967297"}),
					rapid.Map(rapid.IntRange(65536, 1<<40), strconv.Itoa), rapid.Map(rapid.IntRange(-1<<40, 0), strconv.Itoa),
					rapid.StringMatching(`[0-9]{0,3}[a-z.:]{1,3}[0-9]{0,3}`)).Draw(t, "port"))
			}
			return c
		},
	})
	vk.Run(t, vk.Spec[c35Case]{
		ID: "C35", Name: "session", Rule: "8 example programs at once, each dialed or dialing up to 3 times, shown data of up to 4 signals; non-trivial: all of them ran to their end",
		Quick: 4, Deep: 40, Exec: execC35,
		Gen: func(t *rapid.T) c35Case {
			run := rapid.Custom(func(t *rapid.T) c35Run {
				r := c35Run{Prog: prog.Draw(t, "prog"), Host: rapid.SampledFrom([]string{"127.0.0.1", "localhost"}).Draw(t, "host")}
				r.Extra = rapid.SliceOfN(rapid.SampledFrom([]string{"x", "7165"}), 0, 1).Draw(t, "extra")
				r.Values = rapid.SliceOfN(rapid.Int32Range(-999999, 999999), 1, 4).Draw(t, "values")
				r.Drops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c35Drop {
					return c35Drop{rapid.Bool().Draw(t, "reset"), rapid.IntRange(0, 2).Draw(t, "shown") == 0}
				}), 0, 2).Draw(t, "drops")
				r.Keys = rapid.IntRange(0, 12).Draw(t, "keys")
				r.Quiet = rapid.IntRange(0, 3).Draw(t, "quiet") == 0
				r.EOF = rapid.Bool().Draw(t, "eof")
				return r
			})
			return c35Case{rapid.SliceOfN(run, 8, 8).Draw(t, "runs")}
		},
	})
}
