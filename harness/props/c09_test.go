package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

type c09Settings struct {
	Default                            bool // leave everything at its default
	Throttled, IncludeTime, Reason     bool
	LocalClock, Milli, NaN             bool
	Publish, Lag, Lead                 float64
	UDP                                bool
	Interval                           int32
	Filter, Start, Stop, Params, Extra string
}

type c09Case struct {
	Low  bool // use the transport level API
	Pre  bool // settings are given before the connection is made
	Busy bool // first subscribe, unsuccessfully, with a UDP port that is in use
	Subs []c09Settings
}

// parsePairs splits a connection string at semicolons outside of braces.
func parsePairs(s string) (map[string]string, error) {
	out := map[string]string{}
	depth, start := 0, 0
	var parts []string
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			depth++
		case '}':
			depth--
		case ';':
			if depth == 0 {
				parts = append(parts, s[start:i])
				start = i + 1
			}
		}
	}
	if depth != 0 {
		return nil, fmt.Errorf("unbalanced braces in %q", s)
	}
	parts = append(parts, s[start:])
	for _, p := range parts {
		if strings.TrimSpace(p) == "" {
			continue
		}
		k, v, ok := strings.Cut(p, "=")
		if !ok {
			return nil, fmt.Errorf("no value for %q in %q", p, s)
		}
		k = strings.ToLower(strings.TrimSpace(k))
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("setting %q twice in %q", k, s)
		}
		v = strings.TrimSpace(v)
		if strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}") {
			v = v[1 : len(v)-1]
		}
		out[k] = v
	}
	return out, nil
}

func closeTo(text string, want float64) bool {
	got, err := strconv.ParseFloat(text, 64)
	return err == nil && math.Abs(got-want) <= 0.6e-6+math.Abs(want)*1e-15
}

// c09Check compares a subscribe request with the settings.
func c09Check(payload []byte, x c09Settings, udp uint16) error {
	if len(payload) < 5 {
		return fmt.Errorf("subscribe request of %d bytes", len(payload))
	}
	if payload[0]&pub.FlagCompact == 0 {
		return fmt.Errorf("subscribe request flags %#x do not ask for compact data", payload[0])
	}
	if n := binary.BigEndian.Uint32(payload[1:]); int(n) != len(payload)-5 {
		return fmt.Errorf("subscribe request announces %d bytes and carries %d", n, len(payload)-5)
	}
	text := string(payload[5:])
	kv, err := parsePairs(text)
	if err != nil {
		return err
	}
	var bad error
	miss := func(k, want string) {
		if bad == nil {
			got, ok := kv[strings.ToLower(k)]
			bad = fmt.Errorf("setting %s: sent %q (present=%v), wanted %q, in %q", k, got, ok, want, text)
		}
	}
	flag := func(k string, want bool) {
		if v, err := strconv.ParseBool(kv[strings.ToLower(k)]); err != nil || v != want {
			miss(k, strconv.FormatBool(want))
		}
	}
	num := func(k string, want float64) {
		if !closeTo(kv[strings.ToLower(k)], want) {
			miss(k, strconv.FormatFloat(want, 'f', 6, 64))
		}
	}
	opt := func(k, want string) {
		v, ok := kv[strings.ToLower(k)]
		if ok != (want != "") || v != want {
			miss(k, want)
		}
	}
	flag("throttled", x.Throttled)
	num("publishInterval", x.Publish)
	flag("includeTime", x.IncludeTime)
	flag("enableTimeReasonabilityCheck", x.Reason)
	num("lagTime", x.Lag)
	num("leadTime", x.Lead)
	flag("useLocalClockAsRealTime", x.LocalClock)
	if kv["processinginterval"] != strconv.Itoa(int(x.Interval)) {
		miss("processingInterval", strconv.Itoa(int(x.Interval)))
	}
	flag("useMillisecondResolution", x.Milli)
	flag("requestNaNValueFilter", x.NaN)
	opt("filterExpression", x.Filter)
	opt("startTimeConstraint", x.Start)
	opt("stopTimeConstraint", x.Stop)
	opt("timeConstraintParameters", x.Params)
	want := ""
	if x.UDP {
		want = fmt.Sprintf("localport=%d", udp)
	}
	opt("dataChannel", want)
	info, err := parsePairs(kv["assemblyinfo"])
	if err != nil || info["source"] == "" || info["version"] == "" || info["updatedon"] == "" {
		miss("assemblyInfo", "source, version and update date")
	}
	known := map[string]bool{"throttled": true, "publishinterval": true, "includetime": true, "enabletimereasonabilitycheck": true, "lagtime": true, "leadtime": true,
		"uselocalclockasrealtime": true, "processinginterval": true, "usemillisecondresolution": true, "requestnanvaluefilter": true, "filterexpression": true,
		"starttimeconstraint": true, "stoptimeconstraint": true, "timeconstraintparameters": true, "datachannel": true, "assemblyinfo": true}
	extra, err := parsePairs(x.Extra)
	if err != nil {
		return vk.Broken("generated extra parameters: %v", err)
	}
	for k, v := range extra {
		if kv[k] != v {
			miss(k, v)
		}
		known[k] = true
	}
	for k := range kv {
		if !known[k] && bad == nil {
			bad = fmt.Errorf("setting %s was never requested, in %q", k, text)
		}
	}
	if x.Extra != "" && !strings.Contains(text, x.Extra) && bad == nil {
		bad = fmt.Errorf("extra parameters %q are not sent verbatim in %q", x.Extra, text)
	}
	return bad
}

func c09Defaults() c09Settings {
	return c09Settings{Default: true, Publish: 1, IncludeTime: true, Interval: -1, Lag: 10, Lead: 5}
}

func (x c09Settings) high(port uint16) *sttp.Settings {
	s := sttp.NewSettings()
	if x.Default {
		if x.Filter != "" {
			return nil
		}
		return s
	}
	s.Throttled, s.IncludeTime, s.EnableTimeReasonabilityCheck = x.Throttled, x.IncludeTime, x.Reason
	s.UseLocalClockAsRealTime, s.UseMillisecondResolution, s.RequestNaNValueFilter = x.LocalClock, x.Milli, x.NaN
	s.PublishInterval, s.LagTime, s.LeadTime, s.ProcessingInterval = x.Publish, x.Lag, x.Lead, x.Interval
	s.StartTime, s.StopTime, s.ConstraintParameters, s.ExtraConnectionStringParameters = x.Start, x.Stop, x.Params, x.Extra
	if x.UDP {
		s.UdpPort = port
	}
	return s
}

func (x c09Settings) low(ds *transport.DataSubscriber, port uint16) {
	s := ds.Subscription()
	s.FilterExpression = x.Filter
	s.Throttled, s.IncludeTime, s.EnableTimeReasonabilityCheck = x.Throttled, x.IncludeTime, x.Reason
	s.UseLocalClockAsRealTime, s.UseMillisecondResolution, s.RequestNaNValueFilter = x.LocalClock, x.Milli, x.NaN
	s.PublishInterval, s.LagTime, s.LeadTime, s.ProcessingInterval = x.Publish, x.Lag, x.Lead, x.Interval
	s.StartTime, s.StopTime, s.ConstraintParameters, s.ExtraConnectionStringParameters = x.Start, x.Stop, x.Params, x.Extra
	s.UdpDataChannel = x.UDP
	s.DataChannelLocalPort = 0
	if x.UDP {
		s.DataChannelLocalPort = port
	}
}

func execC09(c c09Case, o *vk.Obs) error {
	ports := make([]uint16, len(c.Subs))
	for i, x := range c.Subs {
		if x.UDP {
			var err error
			if ports[i], err = freeUDP(); err != nil {
				return vk.Broken("udp: %v", err)
			}
		}
	}
	for _, x := range c.Subs {
		d := c09Defaults()
		n := 0
		for _, b := range []bool{x.Throttled != d.Throttled, x.IncludeTime != d.IncludeTime, x.Reason, x.LocalClock, x.Milli, x.NaN, x.Publish != d.Publish, x.Lag != d.Lag,
			x.Lead != d.Lead, x.UDP, x.Interval != d.Interval, x.Filter != "", x.Start != "", x.Stop != "", x.Params != "", x.Extra != ""} {
			if b {
				n++
			}
		}
		if n >= 3 {
			o.NonTrivial()
		}
		if x.UDP {
			o.Label("udp")
		}
		if x.Default {
			o.Label("default")
		}
	}
	if c.Low {
		o.Label("low")
		ds := transport.NewDataSubscriber()
		apply := func(i int) {
			if c.Subs[i].Default && i == 0 {
				// The defaults of a new subscription are under test
				ds.Subscription().FilterExpression = c.Subs[i].Filter
				return
			}
			c.Subs[i].low(ds, ports[i])
		}
		if c.Pre {
			apply(0)
		}
		if ds.Subscribe() == nil {
			return fmt.Errorf("subscribing without a connection succeeds")
		}
		s, err := dialSess(o, ds, false)
		if err != nil {
			return err
		}
		defer s.closeLater()
		if c.Busy {
			sock, err := net.ListenUDP("udp", &net.UDPAddr{})
			if err != nil {
				return vk.Broken("udp: %v", err)
			}
			defer sock.Close()
			before := *ds.Subscription()
			ds.Subscription().UdpDataChannel, ds.Subscription().DataChannelLocalPort = true, uint16(sock.LocalAddr().(*net.UDPAddr).Port)
			if ds.Subscribe() == nil {
				return fmt.Errorf("subscribing with a UDP port in use succeeds")
			}
			*ds.Subscription() = before
			o.Label("port in use")
		}
		for i, x := range c.Subs {
			if i > 0 || !c.Pre {
				apply(i)
			}
			if err := ds.Subscribe(); err != nil {
				if x.UDP {
					return listenFailed(err)
				}
				return fmt.Errorf("subscribe %d: %v", i, err)
			}
			f, err := nthFrame(s.c, o, pub.CmdSubscribe, i)
			if err != nil {
				return err
			}
			if err := c09Check(f.Payload, x, ports[i]); err != nil {
				return fmt.Errorf("request %d: %v", i, err)
			}
		}
		return nil
	}
	p, err := pub.Listen()
	if err != nil {
		return vk.Broken("listen: %v", err)
	}
	defer p.Close()
	sub := sttp.NewSubscriber()
	cfg := sttp.NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false, c.Pre
	cfg.MaxRetries = 1
	sub.SetStatusMessageLogger(func(string) {})
	sub.SetErrorMessageLogger(func(string) {})
	if c.Pre {
		sub.Subscribe(c.Subs[0].Filter, c.Subs[0].high(ports[0]))
	}
	if err := sub.Dial(p.Addr(), cfg); err != nil {
		return fmt.Errorf("dial: %v", err)
	}
	conn, err := p.Accept(o.Wait())
	if err != nil {
		return vk.Stuck("publisher saw no connection: %v", err)
	}
	defer func() {
		pendingCloses <- struct{}{}
		go func() { sub.Close(); conn.Close(); <-pendingCloses }()
	}()
	if err := conn.WaitCount(o.Wait(), pub.CmdDefineModes, 1); err != nil {
		return vk.Stuck("no operational modes: %v", err)
	}
	conn.Send(pub.RespSucceeded, pub.CmdDefineModes, nil)
	for i, x := range c.Subs {
		if i > 0 || !c.Pre {
			sub.Subscribe(x.Filter, x.high(ports[i]))
		}
		f, err := nthFrame(conn, o, pub.CmdSubscribe, i)
		if err != nil {
			return err
		}
		if err := c09Check(f.Payload, x, ports[i]); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
	}
	return nil
}

// nthFrame waits for the n-th command with a code.
func nthFrame(c *pub.Conn, o *vk.Obs, cmd byte, n int) (pub.Frame, error) {
	var out pub.Frame
	err := c.Wait(o.Wait(), func(fs []pub.Frame) bool {
		k := 0
		for _, f := range fs {
			if f.Cmd == cmd {
				if k == n {
					out = f
					return true
				}
				k++
			}
		}
		return false
	})
	if err != nil {
		return out, vk.Stuck("command %#x number %d did not arrive: %v", cmd, n+1, err)
	}
	return out, nil
}

func genC09Settings(t *rapid.T) c09Settings {
	if rapid.IntRange(0, 9).Draw(t, "default") == 0 {
		x := c09Defaults()
		x.Filter = rapid.SampledFrom([]string{"", "FILTER ActiveMeasurements WHERE True"}).Draw(t, "filter")
		return x
	}
	b := func(n string) bool { return rapid.Bool().Draw(t, n) }
	num := func(n string) float64 {
		return rapid.OneOf(rapid.SampledFrom([]float64{0, 0.001, 0.033333, 0.0000004, 0.000001, 0.5, 1, 5, 10, 59.999999, 1e6, 123456789.125, 0.9999999}), rapid.Float64Range(0, 1e4)).Draw(t, n)
	}
	text := func(n string, gen *rapid.Generator[string]) string {
		if !b("has " + n) {
			return ""
		}
		return gen.Draw(t, n)
	}
	filter := rapid.OneOf(
		rapid.SampledFrom([]string{"FILTER TOP 20 ActiveMeasurements WHERE SignalType = 'FREQ'", "PPA:1;PPA:2", "FILTER ActiveMeasurements WHERE SignalType <> 'STAT'; PPA:5",
			"{7d8b1e3e-6a2c-4b8f-9a10-0f2c6a1f9f11}", "FILTER A WHERE Name = 'a=b;c'", " spaces around ", "FILTER ActiveMeasurements WHERE x LIKE '%é%' ORDER BY 日本", "*"}),
		rapid.StringMatching(`[A-Za-z0-9 ;='%<>().,*_-]{1,40}[A-Za-z0-9]`))
	simple := rapid.OneOf(rapid.SampledFrom([]string{"*", "*-10M", "2024-01-31 12:00:00.000", "2024-01-31T12:00:00Z", "é"}), rapid.StringMatching(`[A-Za-z0-9:*.-]{1,20}`))
	extra := rapid.Custom(func(t *rapid.T) string {
		var parts []string
		n := rapid.IntRange(1, 3).Draw(t, "pairs")
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf("x%d%s=%s", i, rapid.StringMatching(`[a-zA-Z]{0,8}`).Draw(t, "k"), rapid.OneOf(rapid.StringMatching(`[A-Za-z0-9._-]{1,12}`), rapid.StringMatching(`\{[a-z]=[0-9]{1,3};[a-z]=[a-z]{1,3}\}`)).Draw(t, "v")))
		}
		return strings.Join(parts, ";")
	})
	long := func(s string) string {
		if s != "" && rapid.IntRange(0, 59).Draw(t, "long") == 0 {
			s = strings.Repeat(s+";", rapid.SampledFrom([]int{100, 1000, 10000}).Draw(t, "times")) + s
		}
		return s
	}
	return c09Settings{
		Throttled: b("throttled"), IncludeTime: b("includeTime"), Reason: b("reason"), LocalClock: b("clock"), Milli: b("milli"), NaN: b("nan"),
		Publish: num("publish"), Lag: num("lag"), Lead: num("lead"), UDP: rapid.IntRange(0, 3).Draw(t, "udp") == 0,
		Interval: rapid.OneOf(rapid.SampledFrom([]int32{-1, 0, 1, 33, math.MaxInt32, math.MinInt32}), rapid.Int32()).Draw(t, "interval"),
		Filter:   long(text("filter", filter)), Start: text("start", simple), Stop: text("stop", simple), Params: strings.ReplaceAll(long(text("params", rapid.StringMatching(`[A-Za-z0-9,]{1,20}`))), ";", ","), Extra: text("extra", extra),
	}
}

func TestC09(t *testing.T) {
	vk.Run(t, vk.Spec[c09Case]{
		ID: "C09", Name: "settings", Rule: "sequences of subscribe calls with generated settings on one connection; non-trivial: three or more non-default settings",
		Quick: 6000, Deep: 60000,
		Gen: func(t *rapid.T) c09Case {
			return c09Case{Low: rapid.Bool().Draw(t, "low"), Pre: rapid.Bool().Draw(t, "pre"), Busy: rapid.IntRange(0, 5).Draw(t, "busy") == 0, Subs: rapid.SliceOfN(rapid.Custom(genC09Settings), 1, 3).Draw(t, "subs")}
		},
		Exec: execC09,
	})
}
