// Package harness drives the real OPC UA client and server in virtual time over in-memory connections.
package harness

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// half is one direction of an in-memory connection: an unbounded byte queue.
type half struct {
	mu       sync.Mutex
	buf      []byte
	closed   bool // writer closed: reader sees EOF after draining
	broken   bool // reader closed: writer fails
	deadline time.Time
	timer    *time.Timer
	wake     chan struct{}
	total    int
	limit    int       // if not 0: a write waits while this much is queued
	frozen   bool      // nothing is read
	wdl      time.Time // deadline of writes
	wtimer   *time.Timer
}

func newHalf() *half { return &half{wake: make(chan struct{})} }

func (h *half) broadcast() {
	close(h.wake)
	h.wake = make(chan struct{})
}

func (h *half) read(p []byte) (int, error) {
	for {
		h.mu.Lock()
		if h.broken {
			h.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !h.deadline.IsZero() && !time.Now().Before(h.deadline) {
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if len(h.buf) > 0 && !h.frozen {
			n := copy(p, h.buf)
			h.buf = h.buf[n:]
			if h.limit > 0 {
				h.broadcast()
			}
			h.mu.Unlock()
			return n, nil
		}
		if h.closed && !h.frozen {
			h.mu.Unlock()
			return 0, io.EOF
		}
		if len(p) == 0 {
			h.mu.Unlock()
			return 0, nil
		}
		w := h.wake
		h.mu.Unlock()
		<-w
	}
}

func (h *half) write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for h.limit > 0 && len(h.buf) >= h.limit && !h.closed && !h.broken {
		if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
		w := h.wake
		h.mu.Unlock()
		<-w
		h.mu.Lock()
	}
	if h.closed || h.broken {
		return 0, errors.New("write on closed connection")
	}
	h.buf = append(h.buf, p...)
	h.total += len(p)
	h.broadcast()
	return len(p), nil
}

func (h *half) setReadDeadline(t time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.deadline = t
	if h.timer != nil {
		h.timer.Stop()
		h.timer = nil
	}
	if !t.IsZero() {
		h.timer = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.broadcast()
			h.mu.Unlock()
		})
	}
	h.broadcast()
}

// memConn is one end of an in-memory duplex connection.
type memConn struct {
	rd, wr *half
	name   string
	wmu    sync.Mutex
	wdl    time.Time
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func newMemPair(name string) (*memConn, *memConn) {
	a, b := newHalf(), newHalf()
	return &memConn{rd: a, wr: b, name: name + ":c"}, &memConn{rd: b, wr: a, name: name + ":s"}
}

func (c *memConn) Read(p []byte) (int, error) { return c.rd.read(p) }
func (c *memConn) Write(p []byte) (int, error) {
	c.wmu.Lock()
	dl := c.wdl
	c.wmu.Unlock()
	if !dl.IsZero() && !time.Now().Before(dl) {
		return 0, os.ErrDeadlineExceeded
	}
	return c.wr.write(p)
}
func (c *memConn) Close() error {
	c.rd.mu.Lock()
	c.rd.broken = true
	if c.rd.timer != nil {
		c.rd.timer.Stop()
	}
	c.rd.broadcast()
	c.rd.mu.Unlock()
	c.wr.mu.Lock()
	c.wr.closed = true
	c.wr.broadcast()
	c.wr.mu.Unlock()
	return nil
}
func (c *memConn) LocalAddr() net.Addr  { return memAddr(c.name) }
func (c *memConn) RemoteAddr() net.Addr { return memAddr(c.name + "'") }
func (c *memConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *memConn) SetReadDeadline(t time.Time) error { c.rd.setReadDeadline(t); return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.wmu.Lock()
	c.wdl = t
	c.wmu.Unlock()
	h := c.wr
	h.mu.Lock()
	h.wdl = t
	if h.wtimer != nil {
		h.wtimer.Stop()
		h.wtimer = nil
	}
	if !t.IsZero() && h.limit > 0 {
		h.wtimer = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.broadcast()
			h.mu.Unlock()
		})
	}
	h.broadcast()
	h.mu.Unlock()
	return nil
}

// memListener hands out in-memory connections.
type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn), closed: make(chan struct{})}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.closed) }); return nil }
func (l *memListener) Addr() net.Addr { return memAddr("listener") }

// Dial connects to the listener.
func (l *memListener) Dial() (*memConn, error) {
	c, s := newMemPair("conn")
	select {
	case l.ch <- s:
		return c, nil
	case <-l.closed:
		return nil, errors.New("connection refused")
	}
}
