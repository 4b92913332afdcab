package props

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
)

// Outcomes of a scripted connection attempt.
const (
	tryAccept   = 0 // resolves to the publisher
	tryRefuse   = 1 // resolves to an address where nothing listens
	tryNotFound = 2 // does not resolve
	tryHang     = 3 // resolution does not complete until released
)

// fakeHost is a host name whose resolution is scripted, which makes every connection attempt observable and
// decides its outcome. It is installed as the name resolver of the test process.
type fakeHost struct {
	name     string
	mu       sync.Mutex
	script   []int // outcomes of the next attempts; afterwards rest
	rest     int
	attempts int
	release  chan struct{}
}

var (
	hostsOnce sync.Once
	hosts     sync.Map
	hostSeq   int64
)

func newFakeHost() *fakeHost {
	hostsOnce.Do(func() {
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
			a, b := net.Pipe()
			go serveDNS(b)
			return a, nil
		}}
	})
	h := &fakeHost{release: make(chan struct{}), name: fmt.Sprintf("h%d.test.", atomic.AddInt64(&hostSeq, 1))}
	hosts.Store(h.name, h)
	return h
}

func (h *fakeHost) forget() {
	hosts.Delete(h.name)
	close(h.release)
}

func (h *fakeHost) setScript(rest int, script ...int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.script, h.rest, h.attempts = script, rest, 0
}

func (h *fakeHost) count() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.attempts
}

func (h *fakeHost) next() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.attempts++
	if len(h.script) > 0 {
		x := h.script[0]
		h.script = h.script[1:]
		return x
	}
	return h.rest
}

func serveDNS(c net.Conn) {
	defer c.Close()
	for {
		var l [2]byte
		if _, err := io.ReadFull(c, l[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(l[:]))
		if _, err := io.ReadFull(c, q); err != nil || len(q) < 17 {
			return
		}
		name, i := "", 12
		for i < len(q) && q[i] != 0 {
			n := int(q[i])
			name += string(q[i+1:i+1+n]) + "."
			i += 1 + n
		}
		i++
		typ := binary.BigEndian.Uint16(q[i:])
		question := q[12 : i+4]
		rcode, answers := 0, []byte(nil)
		if h, ok := hosts.Load(strings.ToLower(name)); !ok {
			rcode = 3
		} else if typ == 1 {
			ip := []byte{127, 0, 0, 1}
			switch h.(*fakeHost).next() {
			case tryRefuse:
				ip[3] = 2
			case tryNotFound:
				rcode = 3
			case tryHang:
				<-h.(*fakeHost).release
				return
			}
			if rcode == 0 {
				answers = append([]byte{0xC0, 12, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4}, ip...)
			}
		}
		r := append([]byte{q[0], q[1], 0x81, 0x80 | byte(rcode), 0, 1, 0, 0, 0, 0, 0, 0}, question...)
		if answers != nil {
			r[7] = 1
			r = append(r, answers...)
		}
		if _, err := c.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(r))), r...)); err != nil {
			return
		}
	}
}
