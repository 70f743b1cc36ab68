package kit

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Conn is a net.Conn in memory. The other side is the test: it decides how the
// bytes are cut into reads, when the stream ends or fails, and when writes
// block or fail. Everything waits on a condition variable, so inside a synctest
// bubble the fake clock only moves when nothing else can happen.
type Conn struct {
	mu            sync.Mutex
	cond          *sync.Cond
	in            [][]byte // segments: a Read never gets more than the rest of one
	endErr        error    // what Read gives when the segments are used up
	out           []byte
	outTimes      []time.Time
	writes        int
	closed        bool
	closes        int
	closedAt      time.Time
	hollow, reads int
	blockW        bool
	failAt        int // Write fails when more than this many bytes were written; <0: never
	rdl, wdl      time.Time
	rt, wt        *time.Timer
	killed        bool // the test does not wait for output any more
}

var errReset = errors.New("connection reset by peer")

// NewConn makes a connection.
func NewConn() *Conn {
	c := &Conn{failAt: -1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Feed gives the code under test segments to read.
func (c *Conn) Feed(segs ...[]byte) {
	c.mu.Lock()
	for _, s := range segs {
		if len(s) > 0 && c.endErr == nil { // nothing comes behind the end
			c.in = append(c.in, append([]byte(nil), s...))
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// End ends the stream: EOF, or an error when reset.
func (c *Conn) End(reset bool) {
	c.mu.Lock()
	if c.endErr == nil {
		c.endErr = io.EOF
		if reset {
			c.endErr = errReset
			c.in = nil
			if c.failAt < 0 || c.failAt > len(c.out) {
				c.failAt = len(c.out)
			}
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// BlockWrites makes writes wait (a peer that does not read).
func (c *Conn) BlockWrites(b bool) {
	c.mu.Lock()
	c.blockW = b
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FailWritesAt makes writes fail behind n bytes.
func (c *Conn) FailWritesAt(n int) {
	c.mu.Lock()
	c.failAt = n
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Out is what was written so far.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out...)
}

// Closed tells whether the code under test closed the connection, and when.
func (c *Conn) Closed() (bool, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closedAt
}

// Unread is the number of bytes not yet read.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.in {
		n += len(s)
	}
	return n
}

// Hollow makes every n-th Read (n > 1) that could return data return none, and no error.
func (c *Conn) Hollow(n int) {
	c.mu.Lock()
	c.hollow = n
	c.mu.Unlock()
}

// NextOut waits until more than n bytes are written, or nothing can come any more.
func (c *Conn) NextOut(n int) ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.out) <= n && !c.closed && !c.killed {
		c.cond.Wait()
	}
	if len(c.out) <= n {
		return nil, false
	}
	return append([]byte(nil), c.out[n:]...), true
}

// Kill makes NextOut give up: the case is over.
func (c *Conn) Kill() {
	c.mu.Lock()
	c.killed = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// WaitClosed waits for the code under test to close the connection.
func (c *Conn) WaitClosed() {
	c.mu.Lock()
	for !c.closed {
		c.cond.Wait()
	}
	c.mu.Unlock()
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			if c.hollow > 0 {
				if c.reads++; c.reads%c.hollow == 1 {
					return 0, nil
				}
			}
			n := copy(b, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			return n, nil
		}
		if c.endErr != nil {
			return 0, c.endErr
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if !c.blockW {
			break
		}
		c.cond.Wait()
	}
	c.writes++
	n := len(b)
	var err error
	if c.failAt >= 0 && len(c.out)+n > c.failAt {
		n = max(0, c.failAt-len(c.out))
		err = errReset
	}
	c.out = append(c.out, b[:n]...)
	c.cond.Broadcast()
	return n, err
}

// Close closes the connection.
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.closedAt = time.Now()
	c.cond.Broadcast()
	return nil
}

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

// LocalAddr is a fixed address.
func (c *Conn) LocalAddr() net.Addr { return addr{} }

// RemoteAddr is a fixed address.
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

func (c *Conn) arm(old *time.Timer, t time.Time) *time.Timer {
	if old != nil {
		old.Stop()
	}
	c.cond.Broadcast()
	if t.IsZero() {
		return nil
	}
	return time.AfterFunc(time.Until(t), func() {
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
}

// SetDeadline sets both deadlines.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// SetReadDeadline sets the deadline of reads.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.rt = c.arm(c.rt, t)
	return nil
}

// SetWriteDeadline sets the deadline of writes.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	c.wt = c.arm(c.wt, t)
	return nil
}

// Split cuts b into segments of the given sizes, in turn (0: the rest).
func Split(b []byte, sizes []int) [][]byte {
	var r [][]byte
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(sizes) > 0 {
			s := sizes[i%len(sizes)]
			if i >= 4000 && s > 0 {
				s += 1400 // thousands of pieces take as long as the time-outs
			}
			if s > 0 && s < n {
				n = s
			}
		}
		r = append(r, b[:n])
		b = b[n:]
	}
	return r
}
