package main

import (
	"fmt"
	"log"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

// Ev is one entry of the recorded history; its position is its sequence number.
type Ev struct {
	T int64
	K string
	C int
	S string
	I int64
}

// Violation is what an oracle reports.
type Violation struct {
	Prop string `json:"property"`
	Code string `json:"code"` // class, for shrinking and known findings
	Msg  string `json:"message"`
}

// msgRec is a message offered to the code under test at one end.
type msgRec struct {
	c          int
	key        string // content, unique unless solo
	bin        bool
	start, end int // sequence numbers; end < 0: call still pending
	t0, t1     int64
	ok         bool
	err        string
	inline     bool
	post       *postRec
	conn       string
	gone       bool // sent, but the connection failed before we can be sure
}

type postRec struct {
	c      int
	status int // 0: no response
	bad    bool
	text   bool
	start  int
	end    int
}

// gotRec is a message that came out at the other end.
type gotRec struct {
	c     int
	key   string
	bin   bool
	seq   int
	end   int // handler returned
	t     int64
	via   string
	sid   string
	sess  *sess
	steps int
}

type callRec struct {
	kind       string
	c          int
	start, end int
	t0, t1     int64
	err        error
	inline     string // the callback it was made from, if any
	stall0     int64
	stall1     int64
	bound      time.Duration
}

// sess is a session as the server application sees it.
type sess struct {
	n         int
	sid       string
	c         int
	so        *engine.Socket
	opens     int
	openSeq   int
	openEnd   int
	closes    int
	closeSeq  int
	closeT    int64
	mute      bool // nothing tells when it ended
	openT     int64
	upgrades  int
	lastIn    int64 // last message or ping seen by a handler
	appClose  int   // sequence number of the first Close call by the application; -1 none
	appCloseT int64
	hdrs      map[string]string // set by the application
	cb        [16]int           // callbacks running
	socks     map[string]socketio.Socket
}

// World is everything of one run.
type World struct {
	plan  *Plan
	I, T  time.Duration
	net   *simNet
	log_  []Ev
	upNt  notifier
	pub   map[int]*int64
	slept map[int]int64 // per client: time its callbacks were told to sleep
	hash  uint64
	r     *rng
	t0    time.Time

	eng   *engine.Server
	sio   *socketio.Server
	hsrv  *http.Server
	lis   *simListener
	sess  []*sess
	cl    []*eclient
	emits []*msgRec // server to client
	sent  []*msgRec // client to server
	got   []*gotRec // at clients
	hand  []*gotRec // at server handlers
	posts []*postRec
	calls []*callRec
	viol  []Violation

	live         int // harness goroutines
	base         int // goroutines before the workload
	msgSeq       int
	hdrN         int
	actorsRun    int
	endSeq       int
	endT         int64
	srvClosed    bool
	srvCloseSeq  int
	srvClosedSeq int
	probes       map[string]int
	dialLbl      string
	panics       []string
	phase        int
	sx           *sx
	gx           *gx
	closingDown  bool
	aux          interface{}
	closing      bool
	onTeardown   func()
	onAfter      func()
	stepsAtEnd   uint64
}

func (w *World) log(e Ev) int {
	e.T = runtime.SimNow()
	w.log_ = append(w.log_, e)
	h := w.hash
	h = mix64(h ^ uint64(e.T))
	h = mix64(h ^ hashStr(e.K) ^ uint64(e.C)<<40)
	h = mix64(h ^ hashStr(e.S) ^ uint64(e.I))
	w.hash = h
	return len(w.log_) - 1
}

func (w *World) now() int64 { return runtime.SimNow() }

func (w *World) violate(prop, code, f string, a ...interface{}) {
	if len(w.viol) < 200 {
		w.viol = append(w.viol, Violation{prop, code, fmt.Sprintf(f, a...)})
	}
}

func (w *World) probe(k string) { w.probes[k]++ }

// spawn starts a harness goroutine.
func (w *World) spawn(f func()) {
	w.live++
	go func() {
		defer func() { w.live-- }()
		f()
	}()
}

// hlock is a lock of the simulated outside world.
type hlock struct {
	next, serving int
	nt            notifier
}

func (l *hlock) lock() {
	t := l.next
	l.next++
	for l.serving != t {
		l.nt.wait(time.Time{})
	}
}
func (l *hlock) unlock() { l.serving++; l.nt.broadcast() }

// waitFor waits until cond holds, re-evaluated at each broadcast, or the time limit passes.
func (n *notifier) waitFor(d time.Duration, cond func() bool) bool {
	t := time.Now().Add(d)
	for !cond() {
		if !time.Now().Before(t) {
			return false
		}
		n.wait(t)
	}
	return true
}

func sleepUntil(t time.Time) {
	hbOff()
	d := time.Until(t)
	if d > 0 {
		time.Sleep(d)
	}
	hbOn()
}

func hsleep(d time.Duration) {
	if d > 0 {
		hbOff()
		time.Sleep(d)
		hbOn()
	}
}

// pubAddr stands for the application's own synchronisation in handing the sockets of a client
// from the callback that got them to the goroutines that use them.
func (w *World) pubAddr(c int) *int64 {
	if w.pub == nil {
		w.pub = map[int]*int64{}
	}
	if w.pub[c] == nil {
		w.pub[c] = new(int64)
	}
	return w.pub[c]
}

// track runs a library call and records it.
func (w *World) track(kind string, c int, inline string, bound time.Duration, f func() error) *callRec {
	cr := &callRec{kind: kind, c: c, start: len(w.log_), end: -1, t0: w.now(), inline: inline, stall0: runtime.SimStallNs(), bound: bound}
	w.calls = append(w.calls, cr)
	w.log(Ev{K: "call " + kind, C: c, S: inline})
	hbGet(w.pubAddr(c))
	cr.err = f()
	hbPub(w.pubAddr(1000 + c))
	cr.t1 = w.now()
	cr.stall1 = runtime.SimStallNs()
	s := "ok"
	if cr.err != nil {
		s = cr.err.Error()
	}
	cr.end = w.log(Ev{K: "ret " + kind, C: c, S: s})
	return cr
}

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 <>&'\"\\/=+,;:-_[]{}"

var uni = []string{"é", "ß", "日本", "\u2028", "\U0001F600", "\x00", "\n", "\u0080", "х", "\ufffd"}

// payload builds message content. kind: 0 ascii, 1 unicode, 2 binary, 3 tiny (not unique).
func (w *World) payload(dir string, c int, kind, size int, cmds string) (string, bool) {
	w.msgSeq++
	head := fmt.Sprintf("%s%d.%d|%s|", dir, c, w.msgSeq, cmds)
	r := newRng(w.plan.Seed, uint64(w.msgSeq), 77)
	if kind >= 4 { // tiny
		b := []byte{}
		for i := 0; i < size && i < 2; i++ {
			b = append(b, byte('a'+r.intn(26)))
		}
		return string(b), kind == 5
	}
	n := size
	if n < 0 {
		n = 0
	}
	switch kind {
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.next())
		}
		return head + string(b), true
	case 1:
		var sb strings.Builder
		sb.WriteString(head)
		for sb.Len() < n+len(head) {
			if r.oneIn(3) {
				sb.WriteString(uni[r.intn(len(uni))])
			} else {
				sb.WriteByte(alnum[r.intn(len(alnum))])
			}
		}
		return sb.String(), false
	default:
		b := make([]byte, n)
		for i := range b {
			b[i] = alnum[r.intn(len(alnum))]
		}
		return head + string(b), false
	}
}

func keyHead(k string) string {
	if len(k) > 28 {
		return fmt.Sprintf("%q..(%d bytes, %x)", k[:28], len(k), hashStr(k)&0xffff)
	}
	return fmt.Sprintf("%q", k)
}

func cmdsOf(k string) string {
	i := strings.IndexByte(k, '|')
	if i < 0 {
		return ""
	}
	j := strings.IndexByte(k[i+1:], '|')
	if j < 0 {
		return ""
	}
	return k[i+1 : i+1+j]
}

func (w *World) client(c int) *eclient {
	if c >= 0 && c < len(w.cl) {
		return w.cl[c]
	}
	return nil
}

// sessOf returns the newest session of a client.
func (w *World) sessOf(c int) *sess {
	for i := len(w.sess) - 1; i >= 0; i-- {
		if w.sess[i].c == c {
			return w.sess[i]
		}
	}
	return nil
}

func (w *World) sessBySid(sid string) *sess {
	for _, s := range w.sess {
		if s.sid == sid {
			return s
		}
	}
	return nil
}

type hookWriter struct{ w *World }

func (h hookWriter) Write(b []byte) (int, error) {
	s := string(b)
	if strings.Contains(s, "panic serving") {
		h.w.panics = append(h.w.panics, s)
	}
	return len(b), nil
}

func newWorld(p *Plan) *World {
	w := &World{plan: p, I: time.Duration(p.Interval) * time.Millisecond, T: time.Duration(p.Timeout) * time.Millisecond,
		r: newRng(p.Seed, 5), probes: map[string]int{}, endSeq: -1, srvCloseSeq: -1}
	w.net = newNet(w)
	w.net.faultsFor = func(label string, nth int) []linkFault {
		var out []linkFault
		for _, f := range p.Faults {
			if f.Label == label && f.Nth == nth {
				out = append(out, linkFault{f.Down, byteFault{off: f.Off, kind: f.Kind, dur: time.Duration(f.DurUs) * time.Microsecond}})
			}
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].F.off < out[j].F.off })
		return out
	}
	return w
}

func (w *World) dialLabel() string { return w.dialLbl }
func (w *World) profileFor(label string) netProfile {
	var c int
	if n, _ := fmt.Sscanf(label, "c%d/", &c); n == 1 && c < len(w.plan.Clients) {
		return w.plan.Clients[c].Prof
	}
	return netProfile{LatUs: 100}
}

func (w *World) serve(h http.Handler) {
	w.lis = w.net.listen("10.0.0.1:80")
	w.hsrv = &http.Server{Handler: h, ErrorLog: log.New(hookWriter{w}, "", 0)}
	w.spawn(func() { w.hsrv.Serve(w.lis) })
}

// runActors starts one goroutine per actor name and returns when all have finished or the limit passed.
func (w *World) startActors(do func(o *Op)) {
	var names []string
	by := map[string][]*Op{}
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		if by[o.A] == nil {
			names = append(names, o.A)
		}
		by[o.A] = append(by[o.A], o)
	}
	for _, n := range names {
		ops := by[n]
		w.actorsRun++
		w.spawn(func() {
			for _, o := range ops {
				sleepUntil(w.t0.Add(time.Duration(o.At) * time.Microsecond))
				do(o)
			}
			w.actorsRun--
		})
	}
}

func (w *World) lastOpAt() time.Duration {
	m := 0
	for _, o := range w.plan.Ops {
		if o.At > m {
			m = o.At
		}
	}
	return time.Duration(m) * time.Microsecond
}
