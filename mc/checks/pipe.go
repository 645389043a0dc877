package checks

import (
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// half is one direction of a connection, without a limit of its buffer.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool // by the writer
	gone   bool // by the reader
	until  time.Time
	timer  *time.Timer
}

func newHalf() *half { h := &half{}; h.cond = sync.NewCond(&h.mu); return h }

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.gone {
			return 0, net.ErrClosed
		}
		if len(h.buf) > 0 {
			n := copy(p, h.buf)
			h.buf = h.buf[n:]
			return n, nil
		}
		if h.closed {
			return 0, io.EOF
		}
		if !h.until.IsZero() && !time.Now().Before(h.until) {
			return 0, os.ErrDeadlineExceeded
		}
		h.cond.Wait()
	}
}

func (h *half) write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, net.ErrClosed
	}
	if h.gone {
		return 0, syscall.EPIPE
	}
	h.buf = append(h.buf, p...)
	h.cond.Broadcast()
	return len(p), nil
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) deadline(t time.Time) {
	h.set(func() {
		h.until = t
		if h.timer != nil {
			h.timer.Stop()
		}
		if !t.IsZero() {
			h.timer = time.AfterFunc(time.Until(t), func() { h.set(func() {}) })
		}
	})
}

// memConn is an end of a connection in memory.
type memConn struct{ in, out *half }

func memPipe() (a, b *memConn) {
	x, y := newHalf(), newHalf()
	return &memConn{x, y}, &memConn{y, x}
}

func (c *memConn) Read(p []byte) (int, error)  { return c.in.read(p) }
func (c *memConn) Write(p []byte) (int, error) { return c.out.write(p) }
func (c *memConn) Close() error {
	c.out.set(func() { c.out.closed = true })
	c.in.set(func() { c.in.gone = true })
	return nil
}
func (c *memConn) LocalAddr() net.Addr                { return &net.UnixAddr{Name: "mem", Net: "unix"} }
func (c *memConn) RemoteAddr() net.Addr               { return &net.UnixAddr{Name: "mem", Net: "unix"} }
func (c *memConn) SetDeadline(t time.Time) error      { c.in.deadline(t); return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { c.in.deadline(t); return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }
