package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"
	"pgregory.net/rapid"
	"verif/harness/pub"
	"verif/harness/vk"
)

// gotMeas is a delivered measurement.
type gotMeas struct {
	ID    guid.Guid
	Value uint64 // bits; all NaNs map to one
	Time  int64
	Flags uint32
}

func f64bits(v float64) uint64 {
	if math.IsNaN(v) {
		return math.Float64bits(math.NaN())
	}
	return math.Float64bits(v)
}

func wantMeas(id guid.Guid, value uint32, time int64, flags uint32) gotMeas {
	return gotMeas{id, f64bits(float64(math.Float32frombits(value))), time, flags}
}

func diffMeas(got, want []gotMeas) error {
	n := min(len(got), len(want))
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Errorf("measurement %d of %d: got %s, want %s", i, len(want), showMeas(got[i]), showMeas(want[i]))
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d measurements delivered, %d published; first missing %s", len(got), len(want), showMeas(want[n]))
	}
	if len(got) > len(want) {
		return fmt.Errorf("%d measurements delivered, %d published; first extra %s", len(got), len(want), showMeas(got[n]))
	}
	return nil
}

func showMeas(m gotMeas) string {
	return fmt.Sprintf("{%s value=%v time=%d flags=%#x}", m.ID, math.Float64frombits(m.Value), m.Time, m.Flags)
}

// recorder collects what the callbacks deliver.
type recorder struct {
	mu       sync.Mutex
	meas     []gotMeas
	batches  int
	starts   []int64
	startAt  []int                      // measurements received before
	kept     []*[]transport.Measurement // not returned to the pool
	blocks   []transport.BufferBlock
	blockNs  []int
	caches   []*transport.SignalIndexCache
	statuses []string
	errs     []string
	notes    []string
	metas    []string
	done     []string
	changed  int
	estab    int
	term     int
}

func (r *recorder) with(f func()) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f()
}

func (r *recorder) measurements() []gotMeas {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]gotMeas(nil), r.meas...)
}

// keptMeasurements is what the slices that were kept contain now.
func (r *recorder) keptMeasurements() (out []gotMeas) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, ms := range r.kept {
		out = append(out, copyMeas(*ms)...)
	}
	return
}

func copyMeas(ms []transport.Measurement) []gotMeas {
	out := make([]gotMeas, len(ms))
	for i := range ms {
		out[i] = gotMeas{ms[i].SignalID, f64bits(ms[i].Value), int64(ms[i].Timestamp), uint32(ms[i].Flags)}
	}
	return out
}

// sess is a DataSubscriber connected to a scripted publisher.
type sess struct {
	p    *pub.Publisher
	c    *pub.Conn
	ds   *transport.DataSubscriber
	rec  *recorder
	pool bool
	bn   uint32
	o    *vk.Obs
}

func attach(ds *transport.DataSubscriber, rec *recorder, pool bool) {
	ds.BeginCallbackAssignment()
	defer ds.EndCallbackAssignment()
	ds.StatusMessageCallback = func(m string) { rec.with(func() { rec.statuses = append(rec.statuses, m) }) }
	ds.ErrorMessageCallback = func(m string) { rec.with(func() { rec.errs = append(rec.errs, m) }) }
	ds.ConnectionEstablishedCallback = func() { rec.with(func() { rec.estab++ }) }
	ds.ConnectionTerminatedCallback = func() { rec.with(func() { rec.term++ }) }
	ds.MetadataReceivedCallback = func(b []byte) { rec.with(func() { rec.metas = append(rec.metas, string(b)) }) }
	ds.SubscriptionUpdatedCallback = func(c *transport.SignalIndexCache) { rec.with(func() { rec.caches = append(rec.caches, c) }) }
	ds.DataStartTimeCallback = func(t ticks.Ticks) {
		runtime.Gosched()
		rec.with(func() { rec.starts, rec.startAt = append(rec.starts, int64(t)), append(rec.startAt, len(rec.meas)) })
	}
	ds.ConfigurationChangedCallback = func() { rec.with(func() { rec.changed++ }) }
	ds.NewMeasurementsCallback = func(ms *[]transport.Measurement) {
		got := copyMeas(*ms)
		rec.with(func() { rec.meas = append(rec.meas, got...); rec.batches++ })
		if pool {
			*ms = (*ms)[:0]
			ds.MeasurementPool.Put(ms)
		} else {
			rec.with(func() { rec.kept = append(rec.kept, ms) })
		}
	}
	ds.NewBufferBlocksCallback = func(bs []transport.BufferBlock) {
		var cp []transport.BufferBlock
		for _, b := range bs {
			cp = append(cp, transport.BufferBlock{SignalID: b.SignalID, Buffer: append([]byte(nil), b.Buffer...)})
		}
		rec.with(func() { rec.blocks = append(rec.blocks, cp...); rec.blockNs = append(rec.blockNs, len(bs)) })
	}
	ds.ProcessingCompleteCallback = func(m string) { rec.with(func() { rec.done = append(rec.done, m) }) }
	ds.NotificationReceivedCallback = func(m string) { rec.with(func() { rec.notes = append(rec.notes, m) }) }
}

// dialSess connects ds to a new scripted publisher and answers the operational modes.
func dialSess(o *vk.Obs, ds *transport.DataSubscriber, pool bool) (*sess, error) {
	p, err := pub.Listen()
	if err != nil {
		return nil, vk.Broken("listen: %v", err)
	}
	s := &sess{p: p, ds: ds, rec: &recorder{}, pool: pool, o: o}
	attach(ds, s.rec, pool)
	if err := ds.Connect("127.0.0.1", p.Port()); err != nil {
		p.Close()
		return nil, fmt.Errorf("connect: %v", err)
	}
	c, err := p.Accept(o.Wait())
	if err != nil {
		p.Close()
		return nil, vk.Stuck("publisher saw no connection: %v", err)
	}
	s.c = c
	if err := s.hello(); err != nil {
		s.closeLater()
		return nil, err
	}
	return s, nil
}

func (s *sess) hello() error {
	if err := s.c.WaitCount(s.o.Wait(), pub.CmdDefineModes, 1); err != nil {
		return vk.Stuck("operational modes not received: %v", err)
	}
	if err := s.c.Send(pub.RespSucceeded, pub.CmdDefineModes, []byte("modes ok")); err != nil {
		return fmt.Errorf("connection ended: %v", err)
	}
	return nil
}

// redial ends the connection from the publisher's side and connects again.
func (s *sess) redial() error {
	n := 0
	s.rec.with(func() { n = s.rec.term })
	s.c.Close()
	if !until(s.o.Wait(), func() bool { now := 0; s.rec.with(func() { now = s.rec.term }); return now > n }) {
		return vk.Stuck("connection loss not reported")
	}
	if err := s.ds.Connect("127.0.0.1", s.p.Port()); err != nil {
		return fmt.Errorf("reconnect: %v", err)
	}
	c, err := s.p.Accept(s.o.Wait())
	if err != nil {
		return vk.Stuck("no reconnect: %v", err)
	}
	s.c = c
	return s.hello()
}

var errClosed = errors.New("subscriber closed the connection")

// until polls a condition up to the liveness bound.
func until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for pause := 20 * time.Microsecond; ; {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(pause)
		if pause < 2*time.Millisecond {
			pause *= 2
		}
	}
}

const barrierTicks = int64(1) << 40

// barrier returns once everything sent before it has been processed. It uses two independent in-order signals,
// a start-time callback and a notification confirmation, and fails only if neither arrives.
func (s *sess) barrier() error {
	s.bn++
	n := s.bn
	b := binary.BigEndian.AppendUint64(nil, uint64(barrierTicks+int64(n)))
	e1 := s.c.Send(pub.RespStartTime, 0, b)
	nb := binary.BigEndian.AppendUint32(nil, 0xB0000000+n)
	e2 := s.c.Send(pub.RespNotify, 0, append(nb, "barrier"...))
	if e1 != nil || e2 != nil {
		return errClosed
	}
	started := func() bool {
		ok := false
		s.rec.with(func() {
			for _, t := range s.rec.starts {
				if t == barrierTicks+int64(n) {
					ok = true
				}
			}
		})
		return ok
	}
	confirmed := func(fs []pub.Frame) bool {
		for i := len(fs) - 1; i >= 0; i-- {
			f := fs[i]
			if f.Cmd == pub.CmdConfirmNotify && len(f.Payload) == 4 && binary.BigEndian.Uint32(f.Payload) == 0xB0000000+n {
				return true
			}
		}
		return false
	}
	err := s.c.Wait(3*time.Second, confirmed)
	if err == nil {
		return nil
	}
	if until(s.o.Wait(), func() bool {
		return started() || s.c.Closed() || confirmed(s.c.Frames())
	}) {
		if s.c.Closed() && !started() {
			return errClosed
		}
		return nil
	}
	return vk.Stuck("subscriber did not process all data sent")
}

// close disposes the subscriber; a Dispose that does not return is reported by the property that owns it.
func (s *sess) close() error {
	done := make(chan struct{})
	go func() { s.ds.Dispose(); close(done) }()
	var err error
	select {
	case <-done:
	case <-time.After(s.o.Wait()):
		err = vk.Stuck("closing the subscriber did not finish")
	}
	if s.c != nil {
		s.c.Close()
	}
	s.p.Close()
	return err
}

var pendingCloses = make(chan struct{}, 32)

// closeLater disposes the subscriber in the background; the properties that own closing use close.
func (s *sess) closeLater() {
	pendingCloses <- struct{}{}
	go func() {
		s.close()
		<-pendingCloses
	}()
}

// guidOf makes distinct readable GUIDs.
func guidOf(n uint32) guid.Guid {
	var g guid.Guid
	binary.BigEndian.PutUint32(g[0:], n*2654435761+0x1234567)
	binary.BigEndian.PutUint16(g[4:], uint16(n)^0xA1B2)
	binary.BigEndian.PutUint16(g[6:], 0x4C3D)
	binary.BigEndian.PutUint32(g[8:], 0x80000000|n)
	binary.BigEndian.PutUint32(g[12:], ^n)
	return g
}

func genGuid(t *rapid.T, label string) guid.Guid {
	b := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, label)
	return guid.Guid(b)
}

var portSeq atomic.Uint32

// nextPort walks through ports outside the ephemeral range, starting at a different place in each process, so
// that no client socket of this or another process takes a port that a case is about to use.
func nextPort(usable func(port int) bool) (uint16, error) {
	start := uint32(os.Getpid()) * 2654435761 >> 8
	for tries := 0; tries < 5000; tries++ {
		if port := 10000 + int((start+portSeq.Add(1))%22000); usable(port) {
			return uint16(port), nil
		}
	}
	return 0, errors.New("no unused port")
}

// freeTCP finds an unused loopback TCP port.
func freeTCP() (uint16, error) {
	return nextPort(func(port int) bool {
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err == nil {
			l.Close()
		}
		return err == nil
	})
}

// freeUDP finds an unused UDP port.
func freeUDP() (uint16, error) {
	return nextPort(func(port int) bool {
		c, err := net.ListenUDP("udp", &net.UDPAddr{Port: port})
		if err == nil {
			c.Close()
		}
		return err == nil
	})
}

// listenFailed classifies the failure to listen at a port that was unused before.
func listenFailed(err error) error {
	for _, cause := range []string{"bind:", "socket:", "too many open files"} {
		if strings.Contains(err.Error(), cause) {
			return vk.Broken("listen: %v", err)
		}
	}
	return fmt.Errorf("listen: %v", err)
}

// flagGroups is the documented expansion of the compact state flags.
var flagGroups = []struct {
	bit  byte
	full uint32
}{
	{0x01, 0x000000FC}, {0x02, 0x0000EF03}, {0x04, 0x00BF0000}, {0x08, 0xE0000000}, {0x10, 0x00001000}, {0x20, 0x00400000},
}

func expandFlags(b byte) uint32 {
	var f uint32
	for _, g := range flagGroups {
		if b&g.bit != 0 {
			f |= g.full
		}
	}
	return f
}

func compactFlags(f uint32) byte {
	var b byte
	for _, g := range flagGroups {
		if f&g.full != 0 {
			b |= g.bit
		}
	}
	return b
}

// compactRec is a compact measurement record to encode.
type compactRec struct {
	Index int32
	Value uint32
	Flags byte // group bits only
	Mode  int  // 0 full time, 1 offset from base 0, 2 offset from base 1
	Time  int64
	Off   uint32
}

// encodeCompact appends the record and returns the measurement time a subscriber must report.
func encodeCompact(b []byte, r compactRec, includeTime, milli bool, base [2]int64) ([]byte, int64) {
	fl := r.Flags & 0x3F
	mode := r.Mode
	if mode > 0 && base[mode-1] <= 0 {
		mode = 0
	}
	if mode == 2 {
		fl |= 0x80
	}
	if mode > 0 {
		fl |= 0x40
	}
	b = append(b, fl)
	b = binary.BigEndian.AppendUint32(b, uint32(r.Index))
	b = binary.BigEndian.AppendUint32(b, r.Value)
	if !includeTime {
		return b, 0
	}
	if mode == 0 {
		return binary.BigEndian.AppendUint64(b, uint64(r.Time)), r.Time
	}
	if milli {
		return binary.BigEndian.AppendUint16(b, uint16(r.Off)), base[mode-1] + int64(uint16(r.Off))*10000
	}
	return binary.BigEndian.AppendUint32(b, r.Off), base[mode-1] + int64(r.Off)
}

// waitCh waits for a channel to close.
func waitCh(ch <-chan struct{}, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}
