// Package pub is a scripted STTP publisher for the checks.
package pub

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// Server command codes.
const (
	CmdConnect           = 0x00
	CmdMetadataRefresh   = 0x01
	CmdSubscribe         = 0x02
	CmdUnsubscribe       = 0x03
	CmdRotateCipherKeys  = 0x04
	CmdUpdateProcessing  = 0x05
	CmdDefineModes       = 0x06
	CmdConfirmNotify     = 0x07
	CmdConfirmBuffer     = 0x08
	CmdConfirmBaseTimes  = 0x09
	CmdConfirmCache      = 0x0A
	CmdConfirmCipherKeys = 0x0B
)

// Server response codes.
const (
	RespSucceeded     = 0x80
	RespFailed        = 0x81
	RespDataPacket    = 0x82
	RespCache         = 0x83
	RespBaseTimes     = 0x84
	RespCipherKeys    = 0x85
	RespStartTime     = 0x86
	RespComplete      = 0x87
	RespBufferBlock   = 0x88
	RespNotify        = 0x89
	RespConfigChanged = 0x8A
	RespNoOP          = 0xFF
)

// Data packet flags.
const (
	FlagCompact    = 0x02
	FlagCipher     = 0x04
	FlagCompressed = 0x08
	FlagCacheIndex = 0x10
)

// ErrTimeout and ErrClosed are returned by the Wait functions.
var (
	ErrTimeout = errors.New("timeout")
	ErrClosed  = errors.New("connection closed")
)

// Frame is a command received from the subscriber.
type Frame struct {
	Cmd     byte
	Payload []byte
}

// Publisher listens on loopback.
type Publisher struct {
	ln *net.TCPListener
}

// Listen opens a publisher on an unused loopback port.
func Listen() (*Publisher, error) { return ListenOn("127.0.0.1") }

// ListenOn opens a publisher on an unused port of an address.
func ListenOn(host string) (*Publisher, error) {
	addr := net.JoinHostPort(host, "0")
	ln, err := net.Listen("tcp", addr)
	// Ports of earlier connections stay taken for a minute
	for end := time.Now().Add(75 * time.Second); err != nil && time.Now().Before(end); ln, err = net.Listen("tcp", addr) {
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	return &Publisher{ln.(*net.TCPListener)}, nil
}

// Port is the listening port.
func (p *Publisher) Port() uint16 { return uint16(p.ln.Addr().(*net.TCPAddr).Port) }

// Addr is the listening address.
func (p *Publisher) Addr() string { return p.ln.Addr().String() }

// Close stops listening.
func (p *Publisher) Close() { p.ln.Close() }

// Accept waits for a subscriber.
func (p *Publisher) Accept(d time.Duration) (*Conn, error) {
	p.ln.SetDeadline(time.Now().Add(d))
	c, err := p.ln.Accept()
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, ErrTimeout
		}
		return nil, err
	}
	return NewConn(c), nil
}

// Conn is a session with a subscriber. A reader collects all commands.
type Conn struct {
	C      net.Conn
	mu     sync.Mutex
	cond   *sync.Cond
	frames []Frame
	closed error
	Bytes  uint64 // bytes written
	chunk  []int  // segmentation pattern
	ci     int
	done   chan struct{}
	bad    string // framing error seen
}

// NewConn wraps an established connection.
func NewConn(c net.Conn) *Conn {
	x := &Conn{C: c, done: make(chan struct{})}
	x.cond = sync.NewCond(&x.mu)
	go x.read()
	return x
}

func (c *Conn) read() {
	defer close(c.done)
	r := bufio.NewReaderSize(c.C, 65536)
	var err error
	for {
		var hdr [4]byte
		if _, err = io.ReadFull(r, hdr[:]); err != nil {
			if err == io.ErrUnexpectedEOF {
				c.mu.Lock()
				c.bad = "connection ended inside a frame header"
				c.mu.Unlock()
			}
			break
		}
		n := binary.BigEndian.Uint32(hdr[:])
		if n == 0 || n > 64<<20 {
			c.mu.Lock()
			c.bad = "frame with impossible size"
			c.mu.Unlock()
			err = errors.New("bad frame")
			break
		}
		b := make([]byte, n)
		if _, err = io.ReadFull(r, b); err != nil {
			c.mu.Lock()
			c.bad = "connection ended inside a frame"
			c.mu.Unlock()
			break
		}
		c.mu.Lock()
		c.frames = append(c.frames, Frame{b[0], b[1:]})
		c.cond.Broadcast()
		c.mu.Unlock()
	}
	c.mu.Lock()
	c.closed = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Bad returns a description of a framing error, if one was seen.
func (c *Conn) Bad() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad
}

// Frames returns the commands received so far.
func (c *Conn) Frames() []Frame {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Frame(nil), c.frames...)
}

// Closed tells whether the subscriber closed the connection.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed != nil
}

// Wait blocks until pred accepts the received commands.
func (c *Conn) Wait(d time.Duration, pred func([]Frame) bool) error {
	timer := time.AfterFunc(d, func() {
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
	defer timer.Stop()
	end := time.Now().Add(d)
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if pred(c.frames) {
			return nil
		}
		if c.closed != nil {
			return ErrClosed
		}
		if !time.Now().Before(end) {
			return ErrTimeout
		}
		c.cond.Wait()
	}
}

// WaitCount blocks until n commands with the code have arrived.
func (c *Conn) WaitCount(d time.Duration, cmd byte, n int) error {
	return c.Wait(d, func(fs []Frame) bool { return Count(fs, cmd) >= n })
}

// WaitClosed blocks until the subscriber closes the connection.
func (c *Conn) WaitClosed(d time.Duration) error {
	err := c.Wait(d, func([]Frame) bool { return false })
	if err == ErrClosed {
		return nil
	}
	return err
}

// Count counts commands with a code.
func Count(fs []Frame, cmd byte) int {
	n := 0
	for _, f := range fs {
		if f.Cmd == cmd {
			n++
		}
	}
	return n
}

// SetChunks makes all writes be cut into pieces of the given sizes, used cyclically; nil writes at once.
func (c *Conn) SetChunks(sizes []int) { c.chunk, c.ci = sizes, 0 }

// Write sends raw bytes, segmented as configured.
func (c *Conn) Write(b []byte) error {
	c.C.SetWriteDeadline(time.Now().Add(60 * time.Second))
	for len(b) > 0 {
		n := len(b)
		if len(c.chunk) > 0 {
			if k := c.chunk[c.ci%len(c.chunk)]; k < n && k > 0 {
				n = k
			}
			c.ci++
		}
		w, err := c.C.Write(b[:n])
		c.Bytes += uint64(w)
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// Packet builds a response packet without the payload header.
func Packet(resp, cmd byte, data []byte) []byte {
	b := make([]byte, 6, 6+len(data))
	b[0], b[1] = resp, cmd
	binary.BigEndian.PutUint32(b[2:], uint32(len(data)))
	return append(b, data...)
}

// Framed adds the payload header.
func Framed(p []byte) []byte {
	b := make([]byte, 4, 4+len(p))
	binary.BigEndian.PutUint32(b, uint32(len(p)))
	return append(b, p...)
}

// Send sends a response.
func (c *Conn) Send(resp, cmd byte, data []byte) error {
	return c.Write(Framed(Packet(resp, cmd, data)))
}

// Close closes the connection.
func (c *Conn) Close() {
	c.C.Close()
	<-c.done
}

// Reset closes the connection abruptly.
func (c *Conn) Reset() {
	if t, ok := c.C.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Close()
}

// Gzip compresses data.
//
// Data of some lengths is compressed in two parts, which a reader of the format joins.
func Gzip(b []byte) []byte {
	var buf bytes.Buffer
	parts := [][]byte{b}
	if len(b)%7 == 3 {
		parts = [][]byte{b[:len(b)/2], b[len(b)/2:]}
	}
	for _, p := range parts {
		w := gzip.NewWriter(&buf)
		w.Write(p)
		w.Close()
	}
	return buf.Bytes()
}

// Record is an entry of a signal index cache.
type Record struct {
	Index  int32
	ID     [16]byte // RFC byte order
	Source string
	Num    uint64
}

// SwapGUID converts between RFC and little-endian field order.
func SwapGUID(g [16]byte) [16]byte {
	return [16]byte{g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15]}
}

// CacheBody builds the serialised signal index cache.
func CacheBody(sub [16]byte, recs []Record, swap bool) []byte {
	g := func(id [16]byte) []byte {
		if swap {
			id = SwapGUID(id)
		}
		return id[:]
	}
	var b []byte
	b = append(b, 0, 0, 0, 0)
	b = append(b, g(sub)...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(recs)))
	for _, r := range recs {
		b = binary.BigEndian.AppendUint32(b, uint32(r.Index))
		b = append(b, g(r.ID)...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(r.Source)))
		b = append(b, r.Source...)
		b = binary.BigEndian.AppendUint64(b, r.Num)
	}
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

// CacheUpdate builds the data of an update-signal-index-cache response.
func CacheUpdate(version byte, slot int, body []byte, compress bool) []byte {
	if compress {
		body = Gzip(body)
	}
	if version > 1 {
		return append([]byte{byte(slot)}, body...)
	}
	return body
}

// BaseTimes builds the data of an update-base-times response.
func BaseTimes(index uint32, t0, t1 int64) []byte {
	b := binary.BigEndian.AppendUint32(nil, index)
	b = binary.BigEndian.AppendUint64(b, uint64(t0))
	return binary.BigEndian.AppendUint64(b, uint64(t1))
}

// Keys is a pair of AES keys.
type Keys struct{ EvenKey, EvenIV, OddKey, OddIV []byte }

// CipherKeys builds the data of an update-cipher-keys response.
func CipherKeys(active byte, k Keys) []byte {
	b := []byte{active}
	for _, p := range [][]byte{k.EvenKey, k.EvenIV, k.OddKey, k.OddIV} {
		b = binary.BigEndian.AppendUint32(b, uint32(len(p)))
		b = append(b, p...)
	}
	return b
}

// Encrypt applies AES-CBC with PKCS#7 padding.
func Encrypt(key, iv, data []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	pad := 16 - len(data)%16
	b := append(append([]byte(nil), data...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(b, b)
	return b
}

// DataPacket builds the data of a data-packet response from a count and an encoded body.
func DataPacket(flags byte, count uint32, body []byte, keys *Keys, odd bool) []byte {
	inner := append(binary.BigEndian.AppendUint32(nil, count), body...)
	if keys != nil {
		if odd {
			flags |= FlagCipher
			inner = Encrypt(keys.OddKey, keys.OddIV, inner)
		} else {
			inner = Encrypt(keys.EvenKey, keys.EvenIV, inner)
		}
	}
	return append([]byte{flags}, inner...)
}

// TSSCBody prefixes a TSSC buffer with version and sequence number.
func TSSCBody(seq uint16, buf []byte) []byte {
	b := []byte{85, byte(seq >> 8), byte(seq)}
	return append(b, buf...)
}
