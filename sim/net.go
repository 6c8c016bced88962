package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Simulated network. There are no locks: with one P and cooperative scheduling, harness code
// runs atomically between blocking operations.

type waiter chan struct{}

type notifier struct{ ws []waiter }

// wait blocks until broadcast or until t (zero: no limit).
func (n *notifier) wait(t time.Time) {
	hbOff()
	defer hbOn()
	w := make(waiter, 1)
	n.ws = append(n.ws, w)
	if t.IsZero() {
		<-w
		return
	}
	d := time.Until(t)
	if d <= 0 {
		d = 0
	}
	tm := time.NewTimer(d)
	select {
	case <-w:
	case <-tm.C:
	}
	tm.Stop()
	for i, x := range n.ws {
		if x == w {
			n.ws = append(n.ws[:i], n.ws[i+1:]...)
			break
		}
	}
}

func (n *notifier) broadcast() {
	if len(n.ws) == 0 {
		return
	}
	hbOff()
	ws := n.ws
	n.ws = nil
	for _, w := range ws {
		select {
		case w <- struct{}{}:
		default:
		}
	}
	hbOn()
}

type segment struct {
	data []byte
	at   time.Time
}

// byteFault fires when the given number of bytes has been written in one direction.
type byteFault struct {
	off  int64
	kind string // "reset", "stall", "hole", "fin"
	dur  time.Duration
}

// half is one direction of a connection.
type half struct {
	c       *link
	segs    []segment
	buf     int // bytes queued, delivered or not
	lastAt  time.Time
	fin     bool
	finAt   time.Time
	rclosed bool // reader closed its end
	rcAt    time.Time
	stall   time.Time // nothing is delivered before this
	hole    bool      // nothing is ever delivered again
	written int64
	read    int64
	readT   int64 // when the reader last got something
	blocked bool  // a writer has had to wait
	writeT  int64 // when the writer last wrote or tried to
	faults  []byteFault
	rd, wr  notifier
	hb      int64 // stands for the order that delivery imposes
}

type netProfile struct {
	LatUs  int // base one-way latency
	JitUs  int
	Frag   int // max bytes per read (0: unlimited)
	Seg    int // max bytes per segment (0: unlimited)
	Window int // bytes a direction can hold
}

type link struct {
	n        *simNet
	id       int
	label    string // e.g. "c0/ws", "c1/poll"
	prof     netProfile
	r        *rng
	up       half // client to server
	down     half // server to client
	reset    bool
	client   *simConn
	server   *simConn
	srvGone  bool     // server end closed
	switched bool     // the server answered 101: the connection belongs to the library now
	hits     []string // faults that fired
}

type simConn struct {
	l         *link
	in, out   *half
	closed    bool
	closedT   int64
	closedSeq int
	rdl, wdl  time.Time
	peer      *int64 // this end belongs to the simulated outside world: to one party of it
	local     simAddr
	remote    simAddr
	srvSide   bool
}

type simAddr string

func (simAddr) Network() string  { return "tcp" }
func (a simAddr) String() string { return string(a) }

type simListener struct {
	n      *simNet
	queue  []*simConn
	nt     notifier
	closed bool
}

type simNet struct {
	w         *World
	listeners map[string]*simListener
	links     []*link
	port      int
	perLabel  map[string]int
	parties   map[string]*int64
	faultsFor func(label string, nth int) []linkFault
	fired     map[string]int
}

type linkFault struct {
	Down bool
	F    byteFault
}

func newNet(w *World) *simNet {
	return &simNet{w: w, listeners: map[string]*simListener{}, perLabel: map[string]int{}, parties: map[string]*int64{}, port: 40000, fired: map[string]int{}}
}

func (n *simNet) listen(addr string) *simListener {
	l := &simListener{n: n}
	n.listeners[addr] = l
	return l
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, net.ErrClosed
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.nt.wait(time.Time{})
	}
}
func (l *simListener) Close() error   { l.closed = true; l.nt.broadcast(); return nil }
func (l *simListener) Addr() net.Addr { return simAddr("10.0.0.1:80") }

// party identifies the simulated party a link label belongs to.
func (n *simNet) party(label string) *int64 {
	if i := strings.IndexByte(label, '/'); i >= 0 {
		label = label[:i]
	}
	if n.parties[label] == nil {
		n.parties[label] = new(int64)
	}
	return n.parties[label]
}

// dial opens a connection to addr. label names the owner for faults, seeds and accounting.
func (n *simNet) dial(addr, label string, prof netProfile) (*simConn, error) {
	l, ok := n.listeners[addr]
	if !ok || l.closed {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	nth := n.perLabel[label]
	n.perLabel[label]++
	n.port++
	if prof.Window == 0 {
		prof.Window = 1 << 20
	}
	lk := &link{n: n, id: len(n.links), label: label, prof: prof,
		r: newRng(uint64(n.w.plan.NetSeed), hashStr(label), uint64(nth))}
	lk.up.c, lk.down.c = lk, lk
	ca, sa := simAddr(fmt.Sprintf("10.0.1.2:%d", n.port)), simAddr(addr)
	lk.client = &simConn{l: lk, in: &lk.down, out: &lk.up, local: ca, remote: sa, peer: n.party(label)}
	lk.server = &simConn{l: lk, in: &lk.up, out: &lk.down, local: sa, remote: ca, srvSide: true}
	n.links = append(n.links, lk)
	if n.faultsFor != nil {
		for _, f := range n.faultsFor(label, nth) {
			if f.Down {
				lk.down.faults = append(lk.down.faults, f.F)
			} else {
				lk.up.faults = append(lk.up.faults, f.F)
			}
		}
	}
	// connection establishment takes a round trip
	time.Sleep(2 * lk.lat())
	if l.closed {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	l.queue = append(l.queue, lk.server)
	l.nt.broadcast()
	return lk.client, nil
}

func (l *link) lat() time.Duration {
	d := l.prof.LatUs
	if l.prof.JitUs > 0 {
		d += l.r.intn(l.prof.JitUs + 1)
	}
	return time.Duration(d) * time.Microsecond
}

// Reset destroys the connection: both ends fail, undelivered data is lost.
func (l *link) Reset() {
	if l.reset {
		return
	}
	l.reset = true
	l.up.segs, l.down.segs = nil, nil
	l.wakeAll()
}

// Vanish makes both directions black holes: nothing more is delivered, no error is reported.
func (l *link) Vanish() {
	l.up.hole, l.down.hole = true, true
	l.wakeAll()
}

// Stall delays delivery in the chosen directions.
func (l *link) Stall(up, down bool, d time.Duration) {
	t := time.Now().Add(d)
	if up {
		l.up.stall = t
	}
	if down {
		l.down.stall = t
	}
	l.wakeAll()
}

func (l *link) wakeAll() {
	l.up.rd.broadcast()
	l.up.wr.broadcast()
	l.down.rd.broadcast()
	l.down.wr.broadcast()
}

var errReset = &net.OpError{Op: "io", Net: "tcp", Err: syscall.ECONNRESET}
var errPipe = &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}

func (c *simConn) Read(b []byte) (int, error) {
	h := c.in
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		if c.l.reset {
			return 0, errReset
		}
		if len(b) == 0 {
			return 0, nil
		}
		var next time.Time
		earliest := func(t time.Time) {
			if next.IsZero() || t.Before(next) {
				next = t
			}
		}
		if !c.rdl.IsZero() {
			earliest(c.rdl)
		}
		if !h.hole {
			if now.Before(h.stall) {
				earliest(h.stall)
			} else if len(h.segs) > 0 {
				if !now.Before(h.segs[0].at) {
					max := len(b)
					if f := c.l.prof.Frag; f > 0 {
						k := 1 + c.l.r.intn(f)
						if k < max {
							max = k
						}
					}
					n := 0
					for n < max && len(h.segs) > 0 && !now.Before(h.segs[0].at) {
						k := copy(b[n:max], h.segs[0].data)
						n += k
						if k == len(h.segs[0].data) {
							h.segs = h.segs[1:]
							if c.l.r.oneIn(2) {
								break // do not always coalesce
							}
						} else {
							h.segs[0].data = h.segs[0].data[k:]
						}
					}
					h.buf -= n
					h.read += int64(n)
					h.readT = c.l.n.w.now()
					h.wr.broadcast()
					hbGet(&h.hb)
					if c.peer != nil {
						hbPub(c.peer)
					} else {
						runtime.SimRaceWrite(b[:n])
					}
					return n, nil
				}
				earliest(h.segs[0].at)
			} else if h.fin {
				if !now.Before(h.finAt) {
					return 0, io.EOF
				}
				earliest(h.finAt)
			}
		}
		h.rd.wait(next)
	}
}

// ended tells whether reading would report the end of the connection now.
func (c *simConn) ended() bool {
	h := c.in
	return c.closed || c.l.reset || !h.hole && len(h.segs) == 0 && h.fin && !time.Now().Before(h.finAt)
}

func (c *simConn) Write(b []byte) (int, error) {
	h := c.out
	h.writeT = c.l.n.w.now()
	total := 0
	if c.peer != nil {
		hbGet(c.peer)
	} else {
		runtime.SimRaceRead(b)
	}
	hbPub(&h.hb)
	if c.srvSide && bytes.HasPrefix(b, []byte("HTTP/1.1 101 ")) {
		c.l.switched = true
	}
	for {
		if c.closed {
			return total, net.ErrClosed
		}
		now := time.Now()
		if !c.wdl.IsZero() && !now.Before(c.wdl) {
			return total, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		if c.l.reset {
			return total, errReset
		}
		var next time.Time
		if !c.wdl.IsZero() {
			next = c.wdl
		}
		if h.rclosed {
			if !now.Before(h.rcAt) {
				return total, errPipe
			}
			if next.IsZero() || h.rcAt.Before(next) {
				next = h.rcAt
			}
		}
		h.writeT = c.l.n.w.now()
		if len(b) == 0 {
			return total, nil
		}
		space := c.l.prof.Window - h.buf
		if space <= 0 {
			h.blocked = true
			h.wr.wait(next)
			continue
		}
		n := len(b)
		if n > space {
			n = space
		}
		if s := c.l.prof.Seg; s > 0 && n > s {
			n = 1 + c.l.r.intn(s)
		}
		if len(h.faults) > 0 {
			f := h.faults[0]
			if left := f.off - h.written; left <= 0 {
				h.faults = h.faults[1:]
				c.l.fire(h, f)
				continue
			} else if int64(n) > left {
				n = int(left)
			}
		}
		at := now.Add(c.l.lat())
		if at.Before(h.lastAt) {
			at = h.lastAt
		}
		h.lastAt = at
		if !h.rclosed {
			h.segs = append(h.segs, segment{append([]byte(nil), b[:n]...), at})
			h.buf += n
		}
		h.written += int64(n)
		total += n
		b = b[n:]
		h.rd.broadcast()
		if len(h.faults) > 0 && h.faults[0].off <= h.written {
			f := h.faults[0]
			h.faults = h.faults[1:]
			c.l.fire(h, f)
		}
	}
}

func (l *link) fire(h *half, f byteFault) {
	l.n.fired["net-"+f.kind]++
	hit := f.kind
	if hit == "stall" && f.dur > l.n.w.T/3 {
		hit = "longstall"
	}
	l.hits = append(l.hits, hit)
	l.n.w.log(Ev{K: "net-fault", S: l.label + " " + f.kind})
	switch f.kind {
	case "reset":
		l.Reset()
	case "hole":
		l.Vanish()
	case "stall":
		h.stall = time.Now().Add(f.dur)
		l.wakeAll()
	case "fin":
		// the peer's kernel closes: data already sent is delivered, then EOF both ways
		h.fin = true
		h.finAt = h.lastAt
		o := &l.down
		if h == o {
			o = &l.up
		}
		o.rclosed, o.rcAt = true, time.Now()
		o.fin, o.finAt = true, time.Now()
		l.wakeAll()
	}
}

func (c *simConn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.closedT = c.l.n.w.now()
	c.closedSeq = len(c.l.n.w.log_)
	if c.srvSide {
		c.l.srvGone = true
	}
	now := time.Now()
	at := now.Add(c.l.lat())
	if at.Before(c.out.lastAt) {
		at = c.out.lastAt
	}
	if !c.out.fin {
		c.out.fin, c.out.finAt = true, at
	}
	c.in.rclosed, c.in.rcAt = true, at
	c.in.segs, c.in.buf = nil, 0
	c.l.wakeAll()
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }
func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return net.ErrClosed
	}
	c.rdl = t
	c.in.rd.broadcast()
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return net.ErrClosed
	}
	c.wdl = t
	c.out.wr.broadcast()
	return nil
}

var errRefused = errors.New("refused")

// dialHook serves every net.Dialer of the process (the library's own client).
func (n *simNet) dialHook(ctx context.Context, network, address string) (net.Conn, error) {
	label := n.w.dialLabel()
	var i int
	if k, _ := fmt.Sscanf(address, "10.0.2.%d:80", &i); k == 1 { // the i-th Go client dials here
		label = fmt.Sprintf("c%d/ws", i)
		if n.listeners[address] == nil {
			address = "10.0.0.1:80"
		}
	}
	c, err := n.dial(address, label, n.w.profileFor(label))
	if err != nil {
		return nil, err
	}
	if c.l.server.peer = nil; n.w.lis != n.listeners[address] {
		c.l.server.peer = c.peer
	}
	c.peer = nil
	return c, nil
}
