package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio"
)

// The socket.io scenario: one server built with the library, clients that are protocol stubs.

// sem is an event emitted by the application under test (the server, or the Go client in gocli runs).
type sem struct {
	c          int
	ns, key    string
	want       string // canonical name and arguments
	start, end int
	t0, t1     int64
	ok         bool
	err        string
	inline     string
	ack        int // style of the acknowledgement callback, -1: none
	ans        string
	cmds       string // run by the acknowledgement callback
	rejoin     int
	// at the receiver
	got    []int
	gotT   int64
	id     int64
	gs     *gosess
	acked  []int // the Go client's answers
	ackedT int64
	acts   []*act // answers sent
	runs   []*scb // acknowledgement callback runs
	multi  bool
}

// act is something a stub sent; acts of a client are in sending order.
type act struct {
	kind       string // join, leave, ev, ack, err, bad
	c          int
	ns, name   string
	key        string
	want       string // canonical arguments
	id         int64
	resp       string // canonical values the request must be answered with
	vals       string
	to         string // where a bad one is to be reported
	bad        bool
	em         *sem
	start, end int
	t0, t1     int64
	ok         bool
	via        string
	acks       []*rpkt
	cb         *scb
	// of a Go client
	gs    *gosess
	ans   byte
	style int
	runs  []*scb
	gots  []int
	gotT  int64
	err   string
}

// scb is one callback of the application.
type scb struct {
	kind     string // connect, disconnect, event, ack, error
	ns, name string
	key      string
	args     string
	em       *sem
	a        *act
	seq, end int
	t        int64
	s        *sess
}

type rpkt struct {
	p   *sioPkt
	seq int
	t   int64
	via string
	em  *sem
}

type sclient struct {
	c     *eclient
	dec   sioDecoder
	pkts  []*rpkt
	req   int64
	split bool
}

type sx struct {
	early    []*scb // errors of a server whose only session has had no callback yet
	w        *World
	mp       bool
	reg      map[string]bool
	ems      []*sem
	byKey    map[string]*sem
	acts     map[int][]*act
	actByKey map[string]*act
	cbs      map[int][]*scb
	cl       map[int]*sclient
	serrs    []*serr
	srvErrs  []int
	quiet    map[string]bool // namespaces with nothing but event handlers
	dyn      int
	running  map[*sess]int
	hx       *hx
}

func newSx(w *World) *sx {
	x := &sx{w: w, mp: w.plan.cfg("mp") > 0, reg: map[string]bool{}, byKey: map[string]*sem{}, acts: map[int][]*act{},
		actByKey: map[string]*act{}, cbs: map[int][]*scb{}, cl: map[int]*sclient{}, quiet: map[string]bool{}, running: map[*sess]int{}}
	w.sx = x
	return x
}

func (x *sx) parser() socketio.Parser {
	if x.mp {
		return socketio.MsgpackParser
	}
	return socketio.DefaultParser
}

func runSio(w *World) {
	w.t0 = time.Now()
	x := newSx(w)
	srv, err := socketio.NewServer(w.I, w.T, x.parser(), w.origins()...)
	if err != nil {
		w.violate("C15", "newserver", "NewServer: %v", err)
		return
	}
	w.sio = srv
	nsps := []string{"/", "/a", "/b", "/q"}
	if w.plan.cfg("noroot") > 0 {
		nsps = nsps[1:]
	}
	for _, ns := range nsps {
		x.reg[ns] = true
		x.register(srv.Namespace(ns), ns)
	}
	if w.plan.Kind == "hostile" {
		x.hostileInit()
	}
	x.quietNs(srv.Namespace)
	if w.plan.cfg("nosrverr") == 0 {
		srv.OnError(x.serverError)
	}
	w.serve(srv)
	hsleep(time.Millisecond)
	w.base = runtime.SimGoroutines() - w.live
	w.t0 = time.Now()
	for i := range w.plan.Clients {
		w.cl = append(w.cl, x.client(i, w.plan.Clients[i]))
	}
	w.startActors(x.op)
	w.finishRun(func() { srv.Close() })
}

func (x *sx) client(i int, p ClientPlan) *eclient {
	c := newEclient(x.w, i, p)
	sc := &sclient{c: c, dec: sioDecoder{mp: x.mp}}
	sc.req = int64(c.r.intn(5))
	if c.r.oneIn(6) {
		sc.req = 1 << 40
	}
	sc.split = c.r.oneIn(4)
	x.cl[i] = sc
	c.onMsg = func(p pkt, via string) { x.recv(sc, p, via) }
	return c
}

// ---- the server application ----

const weird = `a<b>&"c" \d,`

func (x *sx) register(n socketio.Namespace, ns string) {
	n.OnConnect(func(so socketio.Socket) { x.onConnect(so, ns) })
	n.OnDisconnect(func(so socketio.Socket) { x.onDisconnect(so, ns) })
	if x.w.plan.cfg("nonserr") == 0 {
		n.OnError(func(so socketio.Socket, err ...interface{}) { x.onError(so, ns, err) })
	}
	x.handlers(n, ns, x.event)
}

// quietNs registers a namespace with event handlers and no other callbacks.
func (x *sx) quietNs(nsp func(string) socketio.Namespace) {
	if x.w.plan.cfg("quiet") > 0 && x.w.plan.cfg("noroot") == 0 { // its handlers may not tell their session
		x.reg["/n"], x.quiet["/n"] = true, true
		x.handlers(nsp("/n"), "/n", x.event)
	}
}

// b returns binary data as the type the parser carries.
func (x *sx) mk(b []byte, r *rng) interface{} {
	if x.mp {
		return b
	}
	if r.oneIn(2) {
		return &socketio.Bytes{Data: b}
	}
	return socketio.Bytes{Data: b}
}

type evFn func(ns, name string, so socketio.Socket, key string, args ...interface{})

func (x *sx) handlers(n socketio.Namespace, ns string, event evFn) {
	type so_ = socketio.Socket
	n.OnEvent("s", func(so so_, k string) { event(ns, "s", so, k, k) })
	n.OnEvent("mix", func(k string, i int64, f float64, b bool) { event(ns, "mix", nil, k, k, i, f, b) })
	n.OnEvent("coll", func(k string, l []string, m map[string]string) { event(ns, "coll", nil, k, k, l, m) })
	n.OnEvent("any", func(k string, v interface{}) { event(ns, "any", nil, k, k, v) })
	n.OnEvent(weird, func(so so_, k string) { event(ns, weird, so, k, k) })
	n.OnEvent("q0", func(k string) { event(ns, "q0", nil, k, k) })
	n.OnEvent("q1", func(so so_, k string) string { event(ns, "q1", so, k, k); return "R:" + k })
	n.OnEvent("q2", func(k string) (string, int64) { event(ns, "q2", nil, k, k); return "R:" + k, int64(len(k)) })
	n.OnEvent("num", func(k string, a int, b uint8, c int16, d uint64, e float32, f *int32) {
		event(ns, "num", nil, k, k, a, b, c, d, e, *f)
	})
	n.OnEvent("fix", func(so so_, k string, a [3]string, p *string, l [][]int64) { event(ns, "fix", so, k, k, a, *p, l) })
	if x.mp {
		n.OnEvent("bm", func(k string, a, b, c, d, e, f, g, h, i, j, l *[]byte) {
			event(ns, "bm", nil, k, k, *a, *b, *c, *d, *e, *f, *g, *h, *i, *j, *l)
		})
		n.OnEvent("b1", func(k string, b []byte) { event(ns, "b1", nil, k, k, b) })
		n.OnEvent("b3", func(so so_, a *[]byte, k string, b []byte, c []byte) { event(ns, "b3", so, k, *a, k, b, c) })
		n.OnEvent("qb", func(k string) ([]byte, string) { event(ns, "qb", nil, k, k); return ackBin(k), "R:" + k })
		n.OnEvent("qx", func(k string, b []byte) ([]byte, string) { event(ns, "qx", nil, k, k, b); return b, "R:" + k })
	} else {
		type by = socketio.Bytes
		n.OnEvent("bm", func(k string, a, b, c, d, e, f, g, h, i, j, l by) {
			event(ns, "bm", nil, k, k, a.Data, b.Data, c.Data, d.Data, e.Data, f.Data, g.Data, h.Data, i.Data, j.Data, l.Data)
		})
		n.OnEvent("b1", func(k string, b by) { event(ns, "b1", nil, k, k, b.Data) })
		n.OnEvent("b3", func(so so_, a *by, k string, b *by, c by) { event(ns, "b3", so, k, a.Data, k, b.Data, c.Data) })
		n.OnEvent("qb", func(k string) (*by, string) { event(ns, "qb", nil, k, k); return &by{Data: ackBin(k)}, "R:" + k })
		n.OnEvent("qx", func(k string, b by) (by, string) { event(ns, "qx", nil, k, k, b.Data); return b, "R:" + k })
	}
}

func ackBin(k string) []byte {
	h := hashStr(k)
	b := make([]byte, h%40)
	for i := range b {
		b[i] = byte(mix64(h + uint64(i)))
	}
	return b
}

func (x *sx) sessFor(so socketio.Socket) *sess {
	sid := so.Sid()
	if s := x.w.sessBySid(sid); s != nil {
		return s
	}
	ci := -1
	if v := so.GetHeader("X-Client"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			ci = n
		}
	}
	s := &sess{n: len(x.w.sess), sid: sid, c: ci, appClose: -1, closeSeq: -1, openSeq: -1, openEnd: -1, socks: map[string]socketio.Socket{}}
	x.w.sess = append(x.w.sess, s)
	return s
}

func (x *sx) enter(s *sess, cb *scb) {
	w := x.w
	for _, e := range x.early { // came before anything told the session
		e.s = s
		x.cbs[s.c] = append(x.cbs[s.c], e)
	}
	x.early = nil
	cb.s, cb.end, cb.t = s, -1, w.now()
	cb.seq = w.log(Ev{K: "cb " + cb.kind, C: s.c, S: cb.ns + " " + cb.name + " " + cb.key})
	x.cbs[s.c] = append(x.cbs[s.c], cb)
	s.lastIn = w.now()
	x.running[s]++
}

func (x *sx) leave(s *sess, cb *scb) {
	x.running[s]--
	s.lastIn = x.w.now()
	cb.end = x.w.log(Ev{K: "cb-ret " + cb.kind, C: s.c, S: cb.ns})
}

func (x *sx) onConnect(so socketio.Socket, ns string) {
	s := x.sessFor(so)
	s.socks[ns] = so
	hbPub(x.w.pubAddr(s.c))
	if x.hx != nil && s.c < 0 {
		x.hostileCb(s, so, "connect", ns)
		return
	}
	cb := &scb{kind: "connect", ns: ns}
	x.enter(s, cb)
	if ns == "/" || x.w.plan.cfg("noroot") > 0 {
		s.opens++
		if s.openSeq < 0 {
			s.openSeq, s.openT = cb.seq, cb.t
		}
	}
	if so.Namespace() != ns {
		x.w.violate("C11", "wrong-nsp", "connect callback of %s got a socket of %s", ns, so.Namespace())
	}
	x.w.checkHeaders(s, so)
	x.run(s, ns, x.w.cbCmds("onconnect", s.c), "connect")
	x.leave(s, cb)
	if s.openEnd < 0 {
		s.openEnd = cb.end
	}
	x.w.upNt.broadcast()
}

func (x *sx) onDisconnect(so socketio.Socket, ns string) {
	s := x.sessFor(so)
	if x.hx != nil && s.c < 0 {
		x.hostileCb(s, so, "disconnect", ns)
		return
	}
	cb := &scb{kind: "disconnect", ns: ns}
	x.enter(s, cb)
	if so.Namespace() != ns {
		x.w.violate("C11", "wrong-nsp", "disconnect callback of %s got a socket of %s", ns, so.Namespace())
	}
	x.w.checkHeaders(s, so)
	x.run(s, ns, x.w.cbCmds("ondisconnect", s.c), "disconnect")
	x.leave(s, cb)
}

func (x *sx) onError(so socketio.Socket, ns string, err []interface{}) {
	s := x.sessFor(so)
	if x.hx != nil && s.c < 0 {
		x.hostileCb(s, so, "error", ns)
		return
	}
	cb := &scb{kind: "error", ns: ns, key: fmt.Sprintf("%.80v", err), args: errCanon(err)}
	if so.Namespace() != ns {
		x.w.violate("C16", "wrong-nsp", "error callback of %s got a socket of %s", ns, so.Namespace())
	}
	x.enter(s, cb)
	if x.w.gx != nil {
		x.goErr(s, cb, err)
	}
	x.run(s, ns, x.w.cbCmds("onerr", s.c), "error")
	x.leave(s, cb)
}

// event is what every event handler does. so is nil for handlers that do not take the socket.
func (x *sx) event(ns, name string, so socketio.Socket, key string, args ...interface{}) {
	w := x.w
	a := x.actByKey[key]
	var s *sess
	if so != nil {
		s = x.sessFor(so)
		if x.hx != nil && s.c < 0 && a == nil {
			w.log(Ev{K: "h-event", C: -1, S: ns + " " + name})
			x.hx.ran++
			return
		}
		if a != nil && a.c != s.c {
			w.violate("C07", "cross", "event %s of client %d was handled on the session of client %d", keyHead(key), a.c, s.c)
		}
		if so.Namespace() != ns {
			w.violate("C11", "wrong-nsp", "handler of %s got a socket of %s", ns, so.Namespace())
		}
	} else if a != nil {
		s = w.sessOf(a.c)
	}
	if s == nil {
		if w.plan.Kind != "hostile" {
			w.violate("C09", "corrupt", "event %q with %s was handled in %s although no client sent it", name, keyHead(key), ns)
		}
		return
	}
	cb := &scb{kind: "event", ns: ns, name: name, key: key, args: canon(args)}
	if a == nil && w.plan.Prop == "C16" {
		w.violate("C16", "made-up", "the handler of %q in %s ran with %.150s, which nobody sent", name, ns, cb.args)
	}
	if a != nil && a.kind == "bad" {
		w.violate("C16", "made-up", "client %d: the handler of %q ran with %.150s for the %s", s.c, name, cb.args, a.name)
		return
	}
	if w.plan.Kind != "hostile" && x.running[s] > 0 {
		for _, o := range x.cbs[s.c] {
			if o.end < 0 && o.kind == "event" && o.s == s {
				w.violate("C09", "concurrent", "client %d: the handler for %s began before the one for %s had returned", s.c, keyHead(key), keyHead(o.key))
			}
		}
	}
	x.enter(s, cb)
	if so != nil && w.gx == nil {
		w.checkHeaders(s, so)
	}
	x.run(s, ns, cmdsOf(key), "event")
	x.leave(s, cb)
}

// run performs what a callback was told to do.
func (x *sx) run(s *sess, ns, cmds, where string) {
	w := x.w
	if cmds == "" {
		return
	}
	for _, f := range strings.Split(cmds, ",") {
		if f == "" {
			continue
		}
		n, _ := strconv.Atoi(f[1:])
		switch f[0] {
		case 'e', 'q':
			for i := 0; i < n; i++ {
				ack := -1
				if f[0] == 'q' {
					ack = w.r.intn(5)
				}
				x.emit(s, ns, w.r.pick(0, 0, 1, 4, 5), w.r.intn(60), ack, where, "")
			}
		case 'x', 'k':
			t0 := w.now()
			if o := w.sessOf(n); o != nil && f[0] == 'x' {
				x.emit(o, "/", 0, 20, -1, where, "")
			} else if o != nil {
				x.close(o, where)
			}
			w.addSlept(s, w.now()-t0)
		case 'c':
			x.close(s, where)
		case 's':
			if w.endSeq > 0 {
				continue
			}
			w.addSlept(s, int64(n)*1e6)
			hsleep(time.Duration(n) * time.Millisecond)
		case 'h':
			x.headers(s, ns, where)
		case 'n':
			w.track("nsp", s.c, where, 0, func() error { w.sio.Namespace("/a"); return nil })
		case 'r':
			if so := s.socks[ns]; so != nil {
				x.emitErr(s.c, nil, ns, where, so.EmitError)
			}
		}
	}
}

func (x *sx) anySock(s *sess) socketio.Socket {
	for _, ns := range []string{"/", "/a", "/b", "/q"} {
		if so := s.socks[ns]; so != nil {
			return so
		}
	}
	return nil
}

func (x *sx) close(s *sess, where string) {
	so := x.anySock(s)
	if so == nil {
		return
	}
	if s.appClose < 0 {
		s.appClose = len(x.w.log_)
		s.appCloseT = x.w.now()
	}
	x.w.track("close", s.c, where, 0, so.Close)
}

func (x *sx) headers(s *sess, ns, where string) {
	so := s.socks[ns]
	if so == nil {
		return
	}
	x.w.headers(s, so, where)
}

// evKinds are the kinds of events without special answers.
var evKinds = []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 15}

// args makes up the arguments of an event; binary data is []byte.
func (x *sx) args(kind int, key string, size int, ascii bool) (name string, args []interface{}) {
	r := newRng(x.w.plan.Seed, uint64(x.w.msgSeq), 88)
	bin := func() []byte {
		n := 0
		if size > 0 && !r.oneIn(4) {
			n = r.intn(size + 1)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.next())
		}
		return b
	}
	str := func() string {
		b := make([]byte, r.intn(8))
		for i := range b {
			b[i] = alnum[r.intn(len(alnum))]
		}
		s := string(b)
		if !ascii && r.oneIn(3) {
			s += uni[r.intn(len(uni)-1)] // not U+FFFD
		}
		return s
	}
	var val func(d int) interface{}
	val = func(d int) interface{} {
		k := r.intn(7)
		if d == 0 {
			k = r.intn(5)
		}
		switch k {
		case 0:
			return str()
		case 1:
			return int64(r.intn(1<<30) - 1<<29)
		case 2:
			return float64(r.intn(100000)) + 0.25
		case 3:
			return r.oneIn(2)
		case 4:
			return nil
		case 5:
			l := []interface{}{}
			for i := r.intn(4); i > 0; i-- {
				l = append(l, val(d-1))
			}
			return l
		}
		m := map[string]interface{}{}
		for i := r.intn(4); i > 0; i-- {
			m[str()] = val(d - 1)
		}
		return m
	}
	switch kind {
	case 1:
		return "mix", []interface{}{key, int64(r.next()>>12) - 1<<51, float64(int64(r.next()>>44)) + 0.5, r.oneIn(2)}
	case 2:
		l := []string{}
		for i := r.intn(4); i > 0; i-- {
			l = append(l, str())
		}
		m := map[string]string{}
		for i := r.intn(3); i > 0; i-- {
			m[str()] = str()
		}
		return "coll", []interface{}{key, l, m}
	case 3:
		return "any", []interface{}{key, val(2)}
	case 4:
		return "b1", []interface{}{key, bin()}
	case 5:
		return "b3", []interface{}{bin(), key, bin(), bin()}
	case 6:
		return weird, []interface{}{key}
	case 7:
		return "nohandler", []interface{}{key}
	case 8:
		return "num", []interface{}{key, r.intn(1<<40) - 1<<39, uint8(r.next()), int16(r.next()), r.next() >> 11, float32(r.intn(1<<20)) + 0.5, int32(r.next())}
	case 9:
		l := [][]int64{}
		for i := r.intn(3); i > 0; i-- {
			m := []int64{}
			for j := r.intn(3); j > 0; j-- {
				m = append(m, int64(r.intn(1<<20))-1<<19)
			}
			l = append(l, m)
		}
		return "fix", []interface{}{key, [3]string{str(), str(), str()}, str(), l}
	case 15:
		args := []interface{}{key}
		for i := 0; i < 11; i++ {
			args = append(args, bin())
		}
		return "bm", args
	case 10:
		return "q0", []interface{}{key}
	case 11:
		return "q1", []interface{}{key}
	case 12:
		return "q2", []interface{}{key}
	case 13:
		return "qb", []interface{}{key}
	case 14:
		return "qx", []interface{}{key, bin()}
	}
	return "s", []interface{}{key}
}

func respOf(name, key string, args []interface{}) string {
	switch name {
	case "q1":
		return canon([]interface{}{"R:" + key})
	case "q2":
		return canon([]interface{}{"R:" + key, int64(len(key))})
	case "qb":
		return canon([]interface{}{ackBin(key), "R:" + key})
	case "qx":
		return canon([]interface{}{args[1], "R:" + key})
	}
	return "[]"
}

func (x *sx) ackFn(m *sem) interface{} {
	ran := func(so socketio.Socket, vals ...interface{}) {
		w := x.w
		s := w.sessOf(m.c)
		cb := &scb{kind: "ack", ns: m.ns, em: m, key: m.key, args: canon(vals)}
		if so != nil && so.Namespace() != m.ns {
			w.violate("C10", "wrong-nsp", "acknowledgement callback for an emit on %s got a socket of %s", m.ns, so.Namespace())
		}
		if len(m.runs) > 0 {
			w.violate("C10", "ack-twice", "client %d: the acknowledgement callback of %s ran twice", m.c, keyHead(m.key))
		}
		m.runs = append(m.runs, cb)
		x.enter(s, cb)
		x.run(s, m.ns, m.cmds, "ack")
		x.leave(s, cb)
	}
	return x.ackFunc(m.ack, ran)
}

func (x *sx) ackFunc(style int, ran func(so socketio.Socket, vals ...interface{})) interface{} {
	switch style {
	case 1:
		return func(k string) { ran(nil, k) }
	case 2:
		return func(so socketio.Socket, k string, n int64) { ran(so, k, n) }
	case 3:
		if x.mp {
			return func(so socketio.Socket, b []byte, k string) { ran(so, b, k) }
		}
		return func(so socketio.Socket, b socketio.Bytes, k string) { ran(so, b.Data, k) }
	case 4:
		if x.mp {
			return func(k string, b *[]byte) { ran(nil, k, *b) }
		}
		return func(k string, b *socketio.Bytes) { ran(nil, k, b.Data) }
	}
	return func() { ran(nil) }
}

// answer values for an acknowledgement style
func (x *sx) answerVals(m *sem, variant string) []interface{} {
	k := "A:" + variant + m.key
	switch m.ack {
	case 1:
		return []interface{}{k}
	case 2:
		return []interface{}{k, int64(len(k))}
	case 3:
		return []interface{}{ackBin(k), k}
	case 4:
		return []interface{}{k, ackBin(k)}
	}
	return []interface{}{}
}

// badVals are values the acknowledgement callback of m cannot be called with.
func (x *sx) badVals(m *sem) []interface{} {
	k := "A:bad" + m.key
	switch m.ack {
	case 2:
		return []interface{}{k, "x"}
	case 3:
		if x.mp {
			return []interface{}{true, k}
		}
	case 4:
		if x.mp {
			return []interface{}{k, true}
		}
	}
	return []interface{}{[]interface{}{k}}
}

func (x *sx) ascii(c int) bool {
	if e := x.w.client(c); e != nil {
		return e.p.Mode >= 2
	}
	return true
}

func (x *sx) newSem(c int, ns string, kind, size, ack int, where, ansStyle, dir string) (*sem, string, []interface{}) {
	pk := 0
	if !x.ascii(c) && size%3 == 2 {
		pk = 1
	}
	cmds := ""
	if x.w.plan.Kind == "gocli" {
		cmds = strings.SplitN(ansStyle, "!", 2)[0] // for the receiving application
	} else if ack >= 0 {
		cmds = ansStyle
	}
	key, _ := x.w.payload(dir, c, pk, size/2, cmds)
	name, args := x.args(kind, key, size, x.ascii(c))
	m := &sem{c: c, ns: ns, key: key, start: -1, end: -1, inline: where, ack: ack, ans: ansStyle, id: -1}
	m.want = canon(append([]interface{}{name}, args...))
	for _, a := range args {
		if _, ok := a.([]byte); ok {
			m.multi = !x.mp
		}
	}
	x.ems = append(x.ems, m)
	x.byKey[key] = m
	return m, name, args
}

// emit makes the server application emit.
func (x *sx) emit(s *sess, ns string, kind, size, ack int, where, ansStyle string) *sem {
	w := x.w
	so := s.socks[ns]
	if so == nil {
		w.log(Ev{K: "skip", C: s.c})
		return nil
	}
	if w.plan.Kind == "gocli" && ack >= 0 { // the client answers as its handler does
		if ack == 4 {
			ack = 3
		}
		kind = []int{10, 11, 12, 13 + size%2}[ack]
	}
	m, name, args := x.newSem(s.c, ns, kind, size, ack, where, ansStyle, "e")
	if i := strings.IndexByte(ansStyle, '!'); i >= 0 {
		m.cmds = ansStyle[i+1:]
	}
	x.doEmit(m, args, func(a []interface{}) error { return so.Emit(name, a...) }, "emit")
	return m
}

func (x *sx) doEmit(m *sem, args []interface{}, do func([]interface{}) error, kind string) {
	w := x.w
	r := newRng(w.plan.Seed, uint64(w.msgSeq), 89)
	var a []interface{}
	for _, v := range args {
		if b, ok := v.([]byte); ok {
			v = x.mk(b, r)
		}
		a = append(a, v)
	}
	if m.ack >= 0 {
		a = append(a, x.ackFn(m))
	}
	cr := w.track(kind, m.c, m.inline, 0, func() error {
		m.start = w.log(Ev{K: "emit", C: m.c, S: m.ns + " " + m.key})
		m.t0 = w.now()
		return do(a)
	})
	m.end, m.t1, m.ok = cr.end, cr.t1, cr.err == nil
	if cr.err != nil {
		m.err = cr.err.Error()
	}
}

// ---- the stub clients ----

// act sends packets and records them. All are sent together.
func (x *sx) send(sc *sclient, acts []*act, pks []*sioPkt) bool {
	var ps []pkt
	for _, p := range pks {
		ps = append(ps, encodeSio(p.vary(sc.c.r), x.mp)...)
	}
	return x.sendRaw(sc, acts, ps)
}

func (x *sx) sendRaw(sc *sclient, acts []*act, ps []pkt) bool {
	w, c := x.w, sc.c
	begin := func() {
		for _, a := range acts {
			a.c = c.i
			a.start = w.log(Ev{K: "act " + a.kind, C: c.i, S: a.ns + " " + a.name + " " + a.key, I: a.id})
			a.t0, a.end = w.now(), -1
			x.acts[c.i] = append(x.acts[c.i], a)
			if a.key != "" {
				x.actByKey[a.key] = a
			}
		}
	}
	c.splitPost = sc.split
	via, ok := c.sendPkts(ps, begin, nil, -1)
	if via == "" {
		return false
	}
	for _, a := range acts {
		a.ok, a.via = ok, via
		a.t1 = w.now()
		a.end = w.log(Ev{K: "acted", C: c.i, S: via, I: b2i(ok)})
	}
	return ok
}

func (x *sx) evAct(sc *sclient, ns string, kind, size int, ack bool, cmds string) (*act, *sioPkt) {
	c := sc.c
	pk := 0
	if !x.ascii(c.i) && size%3 == 2 {
		pk = 1
	}
	key, _ := x.w.payload("m", c.i, pk, size/2, cmds)
	name, args := x.args(kind, key, size, x.ascii(c.i))
	a := &act{kind: "ev", ns: ns, name: name, key: key, want: canon(args), id: -1}
	p := &sioPkt{typ: sEvent, nsp: ns, id: -1, args: append([]interface{}{name}, args...)}
	if ack {
		a.id = sc.req
		p.id = sc.req
		sc.req += int64(1 + c.r.intn(2))
		a.resp = respOf(name, key, args)
	}
	return a, p
}

func (x *sx) recv(sc *sclient, p pkt, via string) {
	w, c := x.w, sc.c
	q, err := sc.dec.add(p)
	if err != nil {
		w.log(Ev{K: "sio-undecodable", C: c.i, S: err.Error()})
		if c.getLost == 0 {
			code := "undecodable"
			if strings.HasPrefix(err.Error(), "interleaved") {
				code = "mixed"
			}
			w.violate("C09", code, "client %d: what the server sent is no socket.io packet: %v", c.i, err)
			if n := len(sc.pkts); n > 0 && (sc.pkts[n-1].p.typ == sAck || sc.pkts[n-1].p.typ == sBinAck) {
				w.violate("C10", code, "client %d: what the server sent after an answer is no socket.io packet: %v", c.i, err)
			}
		}
		if sc.dec.cur == nil && !p.bin {
			if q, err = sc.dec.add(p); err != nil {
				return
			}
		} else {
			return
		}
	}
	if q == nil {
		return
	}
	r := &rpkt{p: q, t: w.now(), via: via}
	r.seq = w.log(Ev{K: "sio", C: c.i, S: fmt.Sprintf("%d %s %.100s", q.typ, q.nsp, canon(q.args)), I: q.id})
	sc.pkts = append(sc.pkts, r)
	switch q.typ {
	case sEvent, sBinEvent:
		x.recvEvent(sc, r)
	case sAck, sBinAck:
		for _, a := range x.acts[c.i] {
			if a.kind == "ev" && a.id == q.id && a.ns == q.nsp {
				a.acks = append(a.acks, r)
				if len(a.acks) > 1 {
					w.violate("C10", "answered-twice", "client %d: request %d on %s (%q) was answered %d times", c.i, q.id, q.nsp, a.name, len(a.acks))
				}
				if g := canon(q.args); g != a.resp && (c.getLost == 0 || x.mp || q.typ == sAck) {
					w.violate("C10", "wrong-answer", "client %d: request %d on %s (%q) was answered with %.150s instead of %.150s", c.i, q.id, q.nsp, a.name, g, a.resp)
				}
				return
			}
		}
		for _, a := range x.acts[c.i] {
			if a.kind == "bad" && a.id == q.id && a.ns == q.nsp {
				w.violate("C16", "answered", "client %d: the %s on %s was answered with %.150s", c.i, a.name, a.ns, canon(q.args))
				return
			}
		}
		w.violate("C10", "odd-answer", "client %d got an acknowledgement with id %d on %s that answers no request", c.i, q.id, q.nsp)
	}
}

func keyOf(args []interface{}) string {
	if len(args) < 2 {
		return ""
	}
	for _, a := range args[1:] {
		if s, ok := a.(string); ok {
			return s
		}
	}
	return ""
}

func (x *sx) recvEvent(sc *sclient, r *rpkt) {
	w, c, q := x.w, sc.c, r.p
	key := keyOf(q.args)
	m := x.byKey[key]
	got := canon(q.args)
	tolerate := c.getLost > 0 && q.typ == sBinEvent
	if m == nil {
		if !tolerate {
			w.violate("C09", "corrupt", "client %d received event %.160s on %s, which was never emitted", c.i, got, q.nsp)
		}
		return
	}
	if m.c != c.i {
		w.violate("C07", "cross", "client %d received event %.100s, which was emitted to client %d", c.i, got, m.c)
		return
	}
	r.em = m
	m.got = append(m.got, r.seq)
	m.gotT = r.t
	if len(m.got) > 1 {
		w.violate("C09", "dup", "client %d received event %s twice", c.i, keyHead(key))
		return
	}
	if got != m.want && !tolerate {
		w.violate("C09", "args", "client %d received %.200s, emitted was %.200s", c.i, got, m.want)
	}
	if q.nsp != m.ns {
		w.violate("C09", "namespace", "client %d received event %s on %s, it was emitted on %s", c.i, keyHead(key), q.nsp, m.ns)
	}
	if (q.id >= 0) != (m.ack >= 0) {
		w.violate("C10", "id", "client %d received event %s with acknowledgement id %d; emitted with callback: %v", c.i, keyHead(key), q.id, m.ack >= 0)
	}
	if q.id >= 0 {
		for _, o := range x.ems {
			if o != m && o.c == m.c && o.ns == m.ns && o.id == q.id && len(o.runs) == 0 && !o.left(x, nil) {
				w.violate("C10", "id-reused", "client %d: emits %s and %s are outstanding on %s with the same id %d", c.i, keyHead(o.key), keyHead(key), m.ns, q.id)
			}
		}
		m.id = q.id
		if !c.over {
			w.spawn(func() { x.answer(sc, m) })
		}
	}
}

// left tells if the server may have processed a leave of an emit's namespace after the emit.
func (m *sem) left(x *sx, before *act) bool {
	in, n := m.ns == "/", 0
	for _, a := range x.acts[m.c] {
		if a == before {
			break
		}
		if a.ns == m.ns && a.kind == "join" {
			in = true
		} else if a.ns == m.ns && a.kind == "leave" && in {
			in = false
			n++
		}
	}
	if n == 0 || !x.reg[m.ns] || m.start < 0 {
		return n > 0
	}
	done := 0
	for _, cb := range x.cbs[m.c] {
		if cb.kind == "disconnect" && cb.ns == m.ns && cb.seq < m.start {
			done++
		}
	}
	return done < n
}

func (x *sx) answer(sc *sclient, m *sem) {
	c := sc.c
	snd := func(ns string, id int64, em *sem, variant string) {
		vals := x.answerVals(m, variant)
		a := &act{kind: "ack", ns: ns, id: id, em: em, vals: canon(vals)}
		if em != nil {
			em.acts = append(em.acts, a)
		}
		x.send(sc, []*act{a}, []*sioPkt{{typ: sAck, nsp: ns, id: id, args: vals}})
	}
	style := byte('a')
	if m.ans != "" {
		style = m.ans[0]
	}
	switch style {
	case 'n':
	case 'A': // twice, with different values
		snd(m.ns, m.id, m, "")
		snd(m.ns, m.id, m, "2")
	case 'd': // later
		hsleep(time.Duration(c.r.intn(20000)) * time.Microsecond)
		snd(m.ns, m.id, m, "")
	case 'D': // twice, in one go
		v1, v2 := x.answerVals(m, ""), x.answerVals(m, "2")
		a1 := &act{kind: "ack", ns: m.ns, id: m.id, em: m, vals: canon(v1)}
		a2 := &act{kind: "ack", ns: m.ns, id: m.id, em: m, vals: canon(v2)}
		m.acts = append(m.acts, a1, a2)
		x.send(sc, []*act{a1, a2}, []*sioPkt{{typ: sAck, nsp: m.ns, id: m.id, args: v1}, {typ: sAck, nsp: m.ns, id: m.id, args: v2}})
	case 'w': // in another namespace first, where nothing is emitted with callbacks
		snd("/q", m.id, nil, "w")
		snd(m.ns, m.id, m, "")
	case 'b': // with values the callback does not take, first
		if m.ack >= 1 && m.ack <= 4 && !m.left(x, nil) {
			vals := x.badVals(m)
			a := &act{kind: "ack", ns: m.ns, id: m.id, em: m, vals: canon(vals), bad: true, to: "ns", want: "an error"}
			m.acts = append(m.acts, a)
			x.w.probe("bad:acknowledgement values")
			x.send(sc, []*act{a}, []*sioPkt{{typ: sAck, nsp: m.ns, id: m.id, args: vals}})
		}
		snd(m.ns, m.id, m, "")
	case 'u': // an unknown id first
		if (x.w.plan.Prop == "C10" || x.w.plan.Prop == "C16") && !x.mp && c.r.oneIn(2) { // one that is no 64-bit number
			a := &act{kind: "bad", ns: m.ns, id: -1, name: "acknowledgement with an id beyond 64 bits", to: "*", want: "an error"}
			x.send(sc, []*act{a}, []*sioPkt{{typ: sAck, nsp: m.ns, id: m.id, over: true, args: []interface{}{"A:u"}}})
		} else {
			snd(m.ns, 1<<41+m.id, nil, "u")
		}
		snd(m.ns, m.id, m, "")
	case 'l': // after leaving and joining again
		if m.ns == "/" && x.w.plan.cfg("noroot") > 0 {
			return
		}
		x.send(sc, []*act{{kind: "leave", ns: m.ns, id: -1}}, []*sioPkt{{typ: sDisconnect, nsp: m.ns, id: -1}})
		x.send(sc, []*act{{kind: "join", ns: m.ns, id: -1}}, []*sioPkt{{typ: sConnect, nsp: m.ns, id: -1}})
		hsleep(time.Duration(c.r.intn(5000)) * time.Microsecond)
		snd(m.ns, m.id, m, "")
	default:
		snd(m.ns, m.id, m, "")
	}
}

// ---- operations ----

func (x *sx) op(o *Op) {
	w := x.w
	if o.A[0] == 'c' {
		if c := w.client(actorNum(o.A)); c != nil {
			x.clientOp(x.cl[c.i], o)
		}
		return
	}
	if o.A[0] == 'h' {
		x.hostileOp(o)
		return
	}
	s := w.sessOf(o.C)
	switch o.K {
	case "semit": // n, kind, size, ack, gap
		if s == nil {
			w.log(Ev{K: "skip", C: o.C})
			return
		}
		for i := 0; i < o.n(0); i++ {
			kd, ack := o.n(1), o.n(3)
			if kd == 99 {
				kd = evKinds[w.r.intn(len(evKinds))]
			}
			if ack == 9 {
				ack = w.r.intn(6) - 1
			}
			ns := o.S
			st := ""
			if j := strings.IndexByte(ns, ' '); j >= 0 {
				ns, st = ns[:j], ns[j+1:]
			}
			if m := x.emit(s, ns, kd, o.n(2), ack, "", st); m == nil {
				break
			}
			if g := o.n(4); g > 0 {
				hsleep(time.Duration(g) * time.Microsecond)
			}
		}
	case "semiterr": // n
		for i := 0; s != nil && i < o.n(0); i++ {
			if so := s.socks[o.S]; so != nil {
				x.emitErr(s.c, nil, o.S, "", so.EmitError)
			}
		}
	case "sclose":
		if s != nil {
			x.close(s, "")
		}
	case "headers":
		if s != nil {
			for i := 0; i < o.n(0)+1; i++ {
				x.headers(s, "/", "")
			}
		}
	case "nsp":
		for i := 0; i < o.n(0)+1; i++ {
			x.dyn++
			name := fmt.Sprintf("/dyn%d", x.dyn)
			w.track("nsp", o.C, "", 0, func() error { w.sio.Namespace(name); return nil })
		}
	case "srvclose":
		w.srvCloseSeq = w.log(Ev{K: "srvclose"})
		w.sio.Close()
		w.srvClosed = true
		w.srvClosedSeq = w.log(Ev{K: "srvclosed"})
	}
}

func (x *sx) clientOp(sc *sclient, o *Op) {
	c := sc.c
	switch o.K {
	case "join":
		x.send(sc, []*act{{kind: "join", ns: o.S, id: -1}}, []*sioPkt{{typ: sConnect, nsp: o.S, id: -1}})
	case "leave":
		x.send(sc, []*act{{kind: "leave", ns: o.S, id: -1}}, []*sioPkt{{typ: sDisconnect, nsp: o.S, id: -1}})
	case "ev": // n, kind, size, per batch, ack
		ns, cmds := o.S, ""
		if j := strings.IndexByte(ns, ' '); j >= 0 {
			ns, cmds = ns[:j], ns[j+1:]
		}
		for n := o.n(0); n > 0 && !c.over; {
			k := o.n(3)
			if k < 1 {
				k = 1
			}
			if k > n {
				k = n
			}
			n -= k
			var as []*act
			var ps []*sioPkt
			if o.n(5) == 1 { // join in the same batch
				as = append(as, &act{kind: "join", ns: ns, id: -1})
				ps = append(ps, &sioPkt{typ: sConnect, nsp: ns, id: -1})
			}
			for i := 0; i < k; i++ {
				kd := o.n(1)
				switch kd {
				case 99:
					kd = evKinds[c.r.intn(len(evKinds))]
				case 98:
					kd = 10 + c.r.intn(5)
				}
				ack := o.n(4) == 1 || o.n(4) == 2 && c.r.oneIn(2)
				if ack && o.n(1) == 98 && c.r.oneIn(4) {
					kd = evKinds[c.r.intn(len(evKinds))]
				}
				if kd == 7 {
					ack = false
				}
				a, p := x.evAct(sc, ns, kd, o.n(2), ack, cmds)
				as, ps = append(as, a), append(ps, p)
			}
			if o.n(5) == 2 { // leave in the same batch
				as = append(as, &act{kind: "leave", ns: ns, id: -1})
				ps = append(ps, &sioPkt{typ: sDisconnect, nsp: ns, id: -1})
			}
			if !x.send(sc, as, ps) {
				return
			}
		}
	case "badack": // unknown id in a namespace
		a := &act{kind: "ack", ns: o.S, id: 1<<42 + int64(c.r.intn(1000))}
		x.send(sc, []*act{a}, []*sioPkt{{typ: sAck, nsp: o.S, id: a.id, args: []interface{}{"A:bad"}}})
	case "err": // error packet from the client
		a := &act{kind: "err", ns: o.S, id: -1, to: "ns"}
		d := errData(x.w.r.intn(1<<20), x.ascii(c.i))
		a.want = canon(d)
		x.send(sc, []*act{a}, []*sioPkt{{typ: sError, nsp: o.S, id: -1, data: d}})
	case "bad": // n, size
		x.sendBad(sc, o)
	default:
		x.w.clientOp(c, o)
	}
}

// probe: a newcomer is served.
func (x *sx) probeClient() {
	w := x.w
	i := len(w.cl)
	c := x.client(i, ClientPlan{Mode: w.r.pick(0, 1), Prof: netProfile{LatUs: 100}})
	w.cl = append(w.cl, c)
	sc := x.cl[i]
	ns := "/"
	if w.plan.cfg("noroot") > 0 {
		ns = "/a"
	}
	done := false
	w.spawn(func() {
		if c.open() {
			hsleep(5 * time.Millisecond)
			if ns != "/" {
				x.send(sc, []*act{{kind: "join", ns: ns, id: -1}}, []*sioPkt{{typ: sConnect, nsp: ns, id: -1}})
			}
			a, p := x.evAct(sc, ns, 0, 10, false, "e1")
			x.send(sc, []*act{a}, []*sioPkt{p})
			a, p = x.evAct(sc, ns, 12, 10, true, "")
			x.send(sc, []*act{a}, []*sioPkt{p})
			hsleep(100 * time.Millisecond)
			c.ping(false)
		}
		done = true
	})
	s0 := runtime.SimStallNs()
	hsleep(3*time.Second + time.Duration(runtime.SimStallNs()-s0))
	ev, ack := false, false
	for _, r := range sc.pkts {
		if r.em != nil {
			ev = true
		}
		if r.p.typ == sAck {
			ack = true
		}
	}
	if !done || !ev || !ack || len(c.pings) != 1 || c.pings[0].pongSeq < 0 {
		w.violate("C08", "newcomer", "after the workload a new client is not served: done %v opened %v (status %d) event %v acknowledgement %v pings %d", done, c.opened, c.refused, ev, ack, len(c.pings))
	}
}
