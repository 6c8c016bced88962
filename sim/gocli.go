package main

import (
	"bufio"
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

// The Go client scenario: clients are the library's own; their server is either the library's
// (cfg "srv") or a protocol stub that does with the session whatever the plan says.

type gsent struct { // sent by the stub server; in sending order
	kind       string // connect, disconnect, event, ack, error
	ns         string
	em         *sem
	a          *act
	start, end int
	t0, t1     int64
	ok         bool
	skip       bool // must not cause anything
	// of what cannot be processed
	to, want, what, key string
	id                  int64
}

type gosess struct { // one Dial
	n          int
	variant    string
	start, end int
	t0, t1     int64
	err        error
	lnk        *link
	st         *gstub
	cbs        []*scb
	sid        string
	disrupt    int // sequence number of the first deliberate disturbance
	disruptT   int64
	why        string
	closeSeq   int // first own Close call
	closeT     int64
	closeEnd   int // sequence number of the first return of an own Close
	emErr      int
}

type gclient struct {
	i       int
	c       *eclient
	cli     *socketio.Client
	sess    []*gosess
	cur     *gosess
	socks   map[string]socketio.Socket
	running int
	nt      notifier
}

type gstub struct {
	g       *gclient
	s       *gosess
	conn    *simConn
	ws      *wsConn
	sendL   hlock
	dec     sioDecoder
	pings   []int64
	sent    []*gsent
	member  map[string]bool
	silent  bool
	stopped bool // sends nothing any more
	end     bool
	endT    int64
	endWhy  string
	openT   int64
	lastT   int64
	reqID   int64
	ids     map[string]*act // requests received, by namespace and id
}

type gx struct {
	x  *sx
	cl map[int]*gclient
}

func runGocli(w *World) {
	w.t0 = time.Now()
	x := newSx(w)
	gx := &gx{x: x, cl: map[int]*gclient{}}
	w.gx = gx
	for _, ns := range []string{"/", "/a", "/b"} {
		x.reg[ns] = true
	}
	real := w.plan.cfg("srv") > 0
	closeServer := func() {}
	if real {
		x.reg["/q"] = true
		srv, err := socketio.NewServer(w.I, w.T, x.parser())
		if err != nil {
			return
		}
		w.sio = srv
		for _, ns := range []string{"/", "/a", "/b", "/q"} {
			x.register(srv.Namespace(ns), ns)
		}
		if w.plan.cfg("nosrverr") == 0 {
			srv.OnError(x.serverError)
		}
		w.serve(srv)
		closeServer = func() { srv.Close() }
	} else {
		w.lis = w.net.listen("10.0.0.1:80")
	}
	hsleep(time.Millisecond)
	w.t0 = time.Now()
	for i := range w.plan.Clients {
		c := newEclient(w, i, w.plan.Clients[i])
		w.cl = append(w.cl, c)
		g := &gclient{i: i, c: c, cli: socketio.NewClient(), socks: map[string]socketio.Socket{}}
		gx.cl[i] = g
		for _, ns := range []string{"/", "/a", "/b"} {
			gx.register(g, ns)
		}
		if w.plan.cfg("nosrverr") == 0 {
			g.cli.OnError(func(err interface{}) { gx.clientError(g, err) })
		}
		if w.plan.cfg("quiet") > 0 {
			x.reg["/n"], x.quiet["/n"] = true, true
			x.handlers(g.cli.Namespace("/n"), "/n", func(ns, name string, so socketio.Socket, key string, args ...interface{}) {
				gx.event(g, ns, name, so, key, args...)
			})
		}
		if !real {
			gx.listen(g)
		}
	}
	w.onTeardown = gx.teardown
	w.onAfter = gx.after
	w.startActors(gx.op)
	w.finishRun(closeServer)
}

// ---- the client application ----

func (gx *gx) register(g *gclient, ns string) {
	n := g.cli.Namespace(ns)
	n.OnConnect(func(so socketio.Socket) { gx.cb(g, so, ns, "connect", "onconnect", nil) })
	n.OnDisconnect(func(so socketio.Socket) { gx.cb(g, so, ns, "disconnect", "ondisconnect", nil) })
	if gx.x.w.plan.cfg("nonserr") == 0 {
		n.OnError(func(so socketio.Socket, err ...interface{}) { gx.cb(g, so, ns, "error", "onerr", err) })
	}
	gx.x.handlers(n, ns, func(ns, name string, so socketio.Socket, key string, args ...interface{}) {
		gx.event(g, ns, name, so, key, args...)
	})
}

func (gx *gx) enter(g *gclient, s *gosess, cb *scb) {
	w := gx.x.w
	cb.end, cb.t = -1, w.now()
	cb.seq = w.log(Ev{K: "gcb " + cb.kind, C: g.i, S: cb.ns + " " + cb.name + " " + cb.key})
	if s != nil {
		s.cbs = append(s.cbs, cb)
	}
	g.running++
}

func (gx *gx) leave(g *gclient, cb *scb) {
	g.running--
	cb.end = gx.x.w.log(Ev{K: "gcb-ret " + cb.kind, C: g.i, S: cb.ns})
	g.nt.broadcast()
}

func (gx *gx) checkSock(g *gclient, so socketio.Socket, ns string) {
	if so.Namespace() != ns {
		gx.x.w.violate("C14", "wrong-nsp", "Go client %d: a callback of %s got a socket of %s", g.i, ns, so.Namespace())
	}
	if g.cur != nil && g.cur.sid != "" && so.Sid() != g.cur.sid {
		gx.x.w.violate("C14", "wrong-sid", "Go client %d: a callback got a socket of session %s, the server assigned %s", g.i, so.Sid(), g.cur.sid)
	}
}

func (gx *gx) cb(g *gclient, so socketio.Socket, ns, kind, cmdKind string, err []interface{}) {
	w := gx.x.w
	s := g.cur
	if s == nil {
		w.violate("C14", "callback-undialled", "Go client %d: %s callback before anything was dialled", g.i, kind)
		return
	}
	gx.checkSock(g, so, ns)
	if kind == "connect" {
		g.socks[ns] = so
		hbPub(w.pubAddr(g.i))
	}
	cb := &scb{kind: kind, ns: ns}
	if err != nil {
		cb.key, cb.args = fmt.Sprintf("%.80v", err), errCanon(err)
	}
	gx.enter(g, s, cb)
	if kind == "error" && gx.real() && cb.args != "an error" && gx.x.gotErr(g.i, nil, ns, err[0], cb.seq, fmt.Sprintf("Go client %d", g.i)) == nil {
		w.violate("C16", "spurious", "Go client %d: its error callback of %s got %.150s, which the server never emitted", g.i, ns, cb.args)
	}
	gx.run(g, s, ns, w.cbCmds("g"+cmdKind, g.i), kind)
	gx.leave(g, cb)
}

func (gx *gx) event(g *gclient, ns, name string, so socketio.Socket, key string, args ...interface{}) {
	x, w := gx.x, gx.x.w
	m := x.byKey[key]
	if m == nil {
		if w.plan.Prop == "C16" {
			w.violate("C16", "made-up", "Go client %d: the handler of %q in %s ran with %.150s, which the server did not send like that", g.i, name, ns, canon(args))
		}
		w.violate("C14", "corrupt", "Go client %d: event %q with %s handled in %s although it was never emitted", g.i, name, keyHead(key), ns)
		w.violate("C09", "corrupt", "Go client %d: event %q with %s handled in %s although it was never emitted", g.i, name, keyHead(key), ns)
		return
	}
	if so != nil {
		gx.checkSock(g, so, ns)
	}
	cb := &scb{kind: "event", ns: ns, name: name, key: key, em: m, args: canon(append([]interface{}{name}, args...))}
	if g.running > 0 && g.cur != nil {
		for _, o := range g.cur.cbs {
			if o.end < 0 && o.kind == "event" {
				w.violate("C09", "concurrent", "Go client %d: the handler for %s began before the one for %s had returned", g.i, keyHead(key), keyHead(o.key))
			}
		}
	}
	gx.enter(g, g.cur, cb)
	if m.c != g.i {
		w.violate("C09", "cross", "Go client %d handled an event emitted to client %d", g.i, m.c)
	}
	m.got = append(m.got, cb.seq)
	m.gotT = cb.t
	for _, p := range []string{"C09", "C14"} {
		if len(m.got) > 1 {
			w.violate(p, "dup", "Go client %d handled event %s twice", g.i, keyHead(key))
		}
		if cb.args != m.want {
			w.violate(p, "args", "Go client %d handled %.200s, emitted was %.200s", g.i, cb.args, m.want)
		}
		if m.ns != ns {
			w.violate(p, "namespace", "Go client %d handled event %s in %s, it was emitted on %s", g.i, keyHead(key), ns, m.ns)
		}
	}
	gx.run(g, g.cur, ns, cmdsOf(key), "event")
	if m.ack >= 0 || m.id >= 0 {
		var raw []interface{}
		raw = append(raw, args...)
		a := &act{kind: "ack", c: g.i, ns: ns, em: m, vals: respOf(name, key, raw), end: -1}
		a.start = w.log(Ev{K: "answering", C: g.i, S: key})
		a.t0 = w.now()
		m.acts = append(m.acts, a)
	}
	gx.leave(g, cb)
}

// run performs what a callback of the client was told to do.
func (gx *gx) run(g *gclient, s *gosess, ns, cmds, where string) {
	w := gx.x.w
	if cmds == "" {
		return
	}
	for _, f := range strings.Split(cmds, ",") {
		if f == "" {
			continue
		}
		n, _ := strconv.Atoi(f[1:])
		switch f[0] {
		case 'e', 'q':
			for i := 0; i < n; i++ {
				kind := w.r.pick(0, 0, 1, 4, 5)
				ack := f[0] == 'q'
				if ack {
					kind = 10 + w.r.intn(5)
				}
				gx.emit(g, s, ns, kind, w.r.intn(60), ack, where, "")
			}
		case 'c':
			gx.close(g, s, where)
		case 's':
			if w.endSeq > 0 {
				continue
			}
			w.addSleptC(g.i, int64(n)*1e6)
			hsleep(time.Duration(n) * time.Millisecond)
		case 'h':
			gx.misc(g, ns, where)
		case 'n':
			w.track("nsp", g.i, where, 0, func() error { g.cli.Namespace("/a"); return nil })
		case 'r':
			gx.emitErr(g, s, ns, where)
		}
	}
}

func (gx *gx) emitErr(g *gclient, s *gosess, ns, where string) {
	so := g.socks[ns]
	if so == nil || s == nil {
		return
	}
	gx.x.emitErr(g.i, s, ns, where, func(d interface{}) error {
		if ns == "/" && gx.x.w.r.oneIn(2) {
			return g.cli.EmitError(d)
		}
		return so.EmitError(d)
	})
}

// goErr: the server's application was told of an error of a Go client's session.
func (x *sx) goErr(s *sess, cb *scb, err []interface{}) {
	if cb.args == "an error" {
		return // an emit that failed
	}
	if g := x.w.gx.cl[s.c]; g != nil && len(err) == 1 {
		early := false
		for _, gs := range g.sess {
			if (gs.sid == s.sid || gs.sid == "") && x.gotErr(g.i, gs, cb.ns, err[0], cb.seq, "the server") != nil {
				return
			}
			early = early || gs.sid == ""
		}
		if early {
			return // cannot tell yet
		}
	}
	x.w.violate("C16", "spurious", "the server's error callback of %s got %.150s, which Go client %d never emitted", cb.ns, cb.args, s.c)
}

func (gx *gx) misc(g *gclient, ns, where string) {
	so := g.socks[ns]
	if so == nil {
		return
	}
	gx.x.w.track("headers", g.i, where, 0, func() error {
		so.SetHeader("X-Test", "v")
		so.GetHeader("X-Client")
		so.RemoteAddr()
		so.LocalAddr()
		so.Sid()
		g.cli.Sid()
		return nil
	})
}

func (s *gosess) disturb(gx *gx, g *gclient, why string) {
	if s.disrupt < 0 {
		s.disrupt = len(gx.x.w.log_)
		s.disruptT = gx.x.w.now()
		s.why = why
	}
	g.c.disturb(why)
}

func (gx *gx) close(g *gclient, s *gosess, where string) {
	w := gx.x.w
	s.disturb(gx, g, "own close")
	if s.closeSeq < 0 {
		s.closeSeq, s.closeT = len(w.log_), w.now()
	}
	cr := w.track("cliclose", g.i, where, 0, g.cli.Close)
	if s.closeEnd < 0 || cr.end < s.closeEnd {
		s.closeEnd = cr.end
	}
}

// emit makes the client application emit.
func (gx *gx) emit(g *gclient, s *gosess, ns string, kind, size int, ack bool, where, style string) {
	x, w := gx.x, gx.x.w
	cmds, ackCmds := style, ""
	ans := byte('a')
	if i := strings.IndexByte(style, '!'); i >= 0 {
		cmds, ackCmds = style[:i], style[i+1:]
	}
	if i := strings.IndexByte(cmds, ';'); i >= 0 {
		if i > 0 {
			ans = cmds[0]
		}
		cmds = cmds[i+1:]
	}
	pk := 0
	if size%3 == 2 {
		pk = 1
	}
	key, _ := w.payload("m", g.i, pk, size/2, cmds)
	name, args := x.args(kind, key, size, false)
	a := &act{kind: "ev", c: g.i, ns: ns, name: name, key: key, want: canon(args), id: -1, end: -1, em: nil, gs: s, ans: ans, style: -1}
	r := newRng(w.plan.Seed, uint64(w.msgSeq), 90)
	var l []interface{}
	for _, v := range args {
		if b, ok := v.([]byte); ok {
			v = x.mk(b, r)
		}
		l = append(l, v)
	}
	if ack {
		a.resp = respOf(name, key, args)
		a.id = 0
		a.style = map[string]int{"q1": 1, "q2": 2, "qb": 3, "qx": 3}[name]
		l = append(l, x.ackFunc(a.style, func(so socketio.Socket, vals ...interface{}) {
			cb := &scb{kind: "ack", ns: ns, key: key, args: canon(vals), a: a}
			for _, p := range []string{"C10", "C14"} {
				if len(a.runs) > 0 {
					w.violate(p, "ack-twice", "Go client %d: the acknowledgement callback of %s ran twice", g.i, keyHead(key))
				}
			}
			if so != nil && so.Namespace() != ns {
				w.violate("C10", "wrong-nsp", "acknowledgement callback for an emit on %s got a socket of %s", ns, so.Namespace())
			}
			a.runs = append(a.runs, cb)
			gx.enter(g, g.cur, cb)
			gx.run(g, g.cur, ns, ackCmds, "ack")
			gx.leave(g, cb)
		}))
	}
	so := g.socks[ns]
	cr := w.track("cliemit", g.i, where, 0, func() error {
		a.start = w.log(Ev{K: "gemit", C: g.i, S: ns + " " + name + " " + key})
		a.t0 = w.now()
		x.acts[g.i] = append(x.acts[g.i], a)
		x.actByKey[key] = a
		if so != nil && r.oneIn(2) {
			return so.Emit(name, l...)
		}
		if ns == "/" && r.oneIn(4) {
			return g.cli.Emit("/", name, l...)
		}
		return g.cli.Emit(ns, name, l...)
	})
	a.end, a.t1, a.ok = cr.end, cr.t1, cr.err == nil
	if cr.err != nil {
		a.err = cr.err.Error()
	}
}

// live is the session the client has now, if any.
func (g *gclient) live() *gosess {
	if s := g.cur; s != nil && s.end >= 0 && s.err == nil {
		return s
	}
	return nil
}

func (gx *gx) dial(g *gclient, variant string, parser socketio.Parser) {
	x, w := gx.x, gx.x.w
	if s := g.cur; s != nil {
		// only after the last attempt failed or the session has ended
		if s.end < 0 || s.err == nil && (s.lnk == nil || !s.lnk.client.closed) {
			w.log(Ev{K: "skip dial", C: g.i})
			return
		}
		if s.err == nil {
			hsleep(w.T + time.Second)
			if g.running > 0 {
				return
			}
		}
	}
	if w.closing || w.closingDown {
		return
	}
	s := &gosess{n: len(g.sess), variant: variant, start: -1, end: -1, disrupt: -1, closeSeq: -1, closeEnd: -1}
	g.sess = append(g.sess, s)
	g.cur = s
	g.c.openTried = true
	g.c.openStart = len(w.log_)
	g.c.handshakes++
	label := g.c.label("ws")
	nth := w.net.perLabel[label]
	host := fmt.Sprintf("10.0.2.%d:80", g.i)
	s.t0 = w.now()
	s.start = w.log(Ev{K: "dial", C: g.i, S: variant})
	hdr := http.Header{"X-Client": []string{strconv.Itoa(g.i)}}
	tr := engine.Dialer(engine.WebsocketTransport)
	hbGet(w.pubAddr(1000 + g.i)) // an application dials again once it has finished using the last session
	err := g.cli.Dial("ws://"+host+"/socket.io/", hdr, tr, parser)
	s.t1 = w.now()
	hbPub(w.pubAddr(g.i))
	s.err = err
	es := "ok"
	if err != nil {
		es = err.Error()
	}
	s.end = w.log(Ev{K: "dialled", C: g.i, S: es})
	k := 0
	for _, l := range w.net.links {
		if l.label == label {
			if k == nth {
				s.lnk = l
			}
			k++
		}
	}
	g.c.openDone = true
	g.c.openMs = s.t1 - s.t0
	if err == nil {
		sid := g.cli.Sid()
		if s.sid != "" && s.sid != sid {
			w.violate("C14", "wrong-sid", "Go client %d reports session id %q, the server assigned %q", g.i, sid, s.sid)
		}
		s.sid = sid
		g.c.opened = true
		g.c.openT = w.now()
		g.c.p.Ping = 100
		if w.plan.cfg("srv") > 0 {
			g.c.sid = sid
		}
	} else if s.disrupt < 0 {
		s.disturb(gx, g, "dial failed")
	}
	_ = x
}

func (gx *gx) op(o *Op) {
	x, w := gx.x, gx.x.w
	if o.A[0] == 'c' {
		g := gx.cl[actorNum(o.A)]
		switch o.K {
		case "dial":
			gx.dial(g, o.S, x.parser())
			return
		}
		s := g.live()
		if s == nil {
			w.log(Ev{K: "skip " + o.K, C: g.i})
			return
		}
		switch o.K {
		case "cliemit": // n, kind, size, ack, gap
			ns, st := o.S, ""
			if j := strings.IndexByte(ns, ' '); j >= 0 {
				ns, st = ns[:j], ns[j+1:]
			}
			for i := 0; i < o.n(0); i++ {
				kd := o.n(1)
				switch kd {
				case 99:
					kd = evKinds[w.r.intn(len(evKinds))]
				case 98:
					kd = 10 + w.r.intn(5)
				}
				gx.emit(g, s, ns, kd, o.n(2), o.n(3) == 1 || o.n(3) == 2 && w.r.oneIn(2), "", st)
				if gap := o.n(4); gap > 0 {
					hsleep(time.Duration(gap) * time.Microsecond)
				}
			}
		case "clierr":
			gx.emitErr(g, s, o.S, "")
		case "cliclose":
			gx.close(g, s, "")
		case "vanish", "rst":
			if s.lnk != nil {
				s.disturb(gx, g, o.K)
				if o.K == "vanish" {
					s.lnk.Vanish()
				} else {
					s.lnk.Reset()
				}
			}
		case "misc":
			for i := 0; i < o.n(0)+1; i++ {
				gx.misc(g, "/", "")
				if w.plan.Prop == "C13" {
					x.dyn++
					name := fmt.Sprintf("/dyn%d", x.dyn)
					w.track("nsp", g.i, "", 0, func() error { g.cli.Namespace(name); return nil })
				}
			}
		}
		return
	}
	if strings.HasPrefix(o.K, "st") && o.K != "stall" {
		g := gx.cl[o.C]
		if g == nil || g.cur == nil || g.cur.st == nil {
			w.log(Ev{K: "skip " + o.K, C: o.C})
			return
		}
		gx.stubOp(g.cur.st, o)
		return
	}
	if w.plan.cfg("srv") > 0 {
		if o.K == "sclose" || o.K == "srvclose" {
			for i := 0; i < len(gx.cl); i++ {
				g := gx.cl[i]
				if (o.K == "srvclose" || i == o.C) && g.cur != nil {
					g.c.disturb(o.K)
				}
			}
		}
		x.op(o)
	}
}

// ---- the stub server ----

func (gx *gx) listen(g *gclient) {
	w := gx.x.w
	l := w.net.listen(fmt.Sprintf("10.0.2.%d:80", g.i))
	w.spawn(func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s := g.cur
			w.spawn(func() { gx.stub(g, s, c.(*simConn)) })
		}
	})
}

// what a stub's handshake can be, and whether Dial must succeed
var gvariants = map[string]bool{
	"ok": true, "early": true, "extra": true,
	"refuse": false, "ok200": false, "badaccept": false, "closehttp": false, "cuthttp": false, "rsthttp": false,
	"nothing-fin": false, "nothing-rst": false, "msg": false, "noop": false, "pong": false, "closepkt": false, "badjson": false, "badtypes": false,
	"cutframe": false, "garbage": false, "emptyopen": false, "wsclose": false, "emptyframe": false, "binary": false,
}

func (st *gstub) finish(why string) {
	if !st.end {
		st.end = true
		st.endT = st.g.c.w.now()
		st.endWhy = why
	}
}

func (gx *gx) stub(g *gclient, s *gosess, c *simConn) {
	x, w := gx.x, gx.x.w
	st := &gstub{g: g, s: s, conn: c, member: map[string]bool{}, ids: map[string]*act{}, dec: sioDecoder{mp: x.mp}}
	st.reqID = int64(w.r.pick(0, 0, 0, 97, 1<<31-3, 1<<32-3, 1<<40, 1<<53-3, 1<<62))
	s.st = st
	defer c.Close()
	br := bufio.NewReaderSize(c, 4096)
	req, err := http.ReadRequest(br)
	if err != nil {
		st.finish("no request: " + err.Error())
		return
	}
	v := s.variant
	q := req.URL.Query()
	if q.Get("EIO") != "3" || q.Get("transport") != "websocket" || req.Header.Get("X-Client") != strconv.Itoa(g.i) || q.Get("sid") != "" {
		w.violate("C14", "request", "Go client %d: the handshake request is %s with X-Client %q", g.i, req.URL, req.Header.Get("X-Client"))
	}
	acc := wsAccept(req.Header.Get("Sec-Websocket-Key"))
	switch v {
	case "refuse":
		fmt.Fprintf(c, "HTTP/1.1 400 Bad Request\r\nContent-Length: 3\r\n\r\nno\n")
		return
	case "ok200":
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nno\n")
		return
	case "closehttp":
		return
	case "rsthttp":
		c.l.Reset()
		return
	case "cuthttp":
		fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nUpgr")
		return
	case "badaccept":
		acc = wsAccept("x")
	}
	head := fmt.Sprintf("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", acc)
	s.sid = fmt.Sprintf("SID%dx%d", g.i, s.n)
	up := "[]"
	ext := ""
	if v == "extra" {
		ext, up = `,"maxPayload":1000000,"x":{"y":[1,2]}`, `["websocket"]`
	}
	open := fmt.Sprintf(`{"sid":"%s","upgrades":%s,"pingInterval":%d,"pingTimeout":%d%s}`, s.sid, up, w.plan.Interval, w.plan.Timeout, ext)
	st.ws = &wsConn{c: c, br: br, r: newRng(w.plan.Seed, uint64(g.i), 31), frag: g.c.p.Frag, srv: true}
	st.openT = w.now()
	st.lastT = st.openT
	send := func(p pkt) {
		bin, d := encodeWS(p)
		c.Write(append([]byte(head), st.ws.message(bin, d)...))
	}
	switch v {
	case "nothing-fin":
		c.Write([]byte(head))
		hsleep(w.T)
		return
	case "nothing-rst":
		c.Write([]byte(head))
		hsleep(time.Millisecond)
		c.l.Reset()
		return
	case "msg":
		send(pkt{false, 4, []byte("0")})
		hsleep(w.T)
		return
	case "noop":
		send(pkt{false, 6, nil})
		hsleep(w.T)
		return
	case "pong":
		send(pkt{false, 3, []byte("null")})
		hsleep(w.T)
		return
	case "closepkt":
		send(pkt{false, 1, nil})
		hsleep(w.T)
		return
	case "badjson":
		send(pkt{false, 0, []byte(open[:len(open)-3])})
		hsleep(w.T)
		return
	case "badtypes":
		send(pkt{false, 0, []byte(`{"sid":5,"upgrades":"x","pingInterval":"a"}`)})
		hsleep(w.T)
		return
	case "emptyopen":
		send(pkt{false, 0, nil})
		hsleep(w.T)
		return
	case "cutframe":
		bin, d := encodeWS(pkt{false, 0, []byte(open)})
		b := append([]byte(head), st.ws.message(bin, d)...)
		c.Write(b[:len(b)-5])
		return
	case "garbage":
		c.Write(append([]byte(head), 0xff, 0xfe, 0xfd, 1, 2, 3))
		hsleep(w.T)
		return
	case "wsclose":
		c.Write(append([]byte(head), st.ws.frame(8, true, []byte{3, 232})...))
		hsleep(w.T)
		return
	case "emptyframe":
		c.Write(append([]byte(head), st.ws.frame(1, true, nil)...))
		hsleep(w.T)
		return
	case "binary":
		c.Write(append([]byte(head), st.ws.frame(2, true, []byte{9, 1})...))
		hsleep(w.T)
		return
	case "badaccept":
		send(pkt{false, 0, []byte(open)})
		hsleep(w.T)
		return
	case "early": // the first packets follow in the same segment
		for _, l := range []string{open} {
			bin, d := encodeWS(pkt{false, 0, []byte(l)})
			b := append([]byte(head), st.ws.message(bin, d)...)
			gs := &gsent{kind: "connect", ns: "/", end: -1}
			for _, p := range encodeSio(&sioPkt{typ: sConnect, nsp: "/", id: -1}, x.mp) {
				bin, d := encodeWS(p)
				b = append(b, st.ws.message(bin, d)...)
			}
			gs.start = w.log(Ev{K: "stub connect", C: g.i, S: "/"})
			gs.t0 = w.now()
			st.sent = append(st.sent, gs)
			st.member["/"] = true
			_, err := c.Write(b)
			gs.end, gs.t1, gs.ok = w.log(Ev{K: "stub-ret", C: g.i}), w.now(), err == nil
		}
	default:
		send(pkt{false, 0, []byte(open)})
		if w.plan.cfg("nosio") == 0 {
			st.send(gx, &gsent{kind: "connect", ns: "/"}, &sioPkt{typ: sConnect, nsp: "/", id: -1})
		}
	}
	// script that runs at once
	for i := range w.plan.Ops {
		if o := &w.plan.Ops[i]; o.K == "stfirst" && o.C == g.i && o.n(0) == s.n {
			gx.stubOp(st, &Op{A: o.A, K: o.S, C: g.i, N: o.N[1:], S: string(o.B)})
		}
	}
	for {
		p, err := st.ws.read()
		if err != nil {
			w.log(Ev{K: "stub-end", C: g.i, S: err.Error()})
			if !st.end {
				st.endWhy = "client: " + err.Error()
			}
			st.end = true
			return
		}
		switch p.typ {
		case 2:
			st.pings = append(st.pings, w.now())
			w.log(Ev{K: "stub-ping", C: g.i, S: string(p.data)})
			if !st.silent && !st.stopped {
				pp := pkt{p.bin, 3, p.data}
				if d := w.plan.cfg("pongdelay"); d > 0 {
					w.spawn(func() {
						hsleep(time.Duration(d) * time.Millisecond)
						if !st.silent && !st.stopped && !st.end {
							st.raw([]pkt{pp})
						}
					})
				} else {
					st.raw([]pkt{pp})
				}
			}
		case 4:
			gx.stubRecv(st, p)
		case 1:
			w.log(Ev{K: "stub-close", C: g.i})
		default:
			w.violate("C14", "odd-packet", "Go client %d sent packet %s", g.i, p)
		}
	}
}

func (st *gstub) raw(ps []pkt) bool {
	st.sendL.lock()
	defer st.sendL.unlock()
	return st.raw0(ps)
}

func (st *gstub) raw0(ps []pkt) bool {
	err := st.ws.sendPkts(ps)
	st.lastT = st.g.c.w.now()
	return err == nil
}

func (st *gstub) send(gx *gx, gs *gsent, p *sioPkt) bool {
	if p.typ == sConnect {
		p.form = gx.x.w.r.pick(0, 0, 0, 1)
	} else {
		p.vary(gx.x.w.r)
	}
	return st.sendAll(gx, []*gsent{gs}, encodeSio(p, gx.x.mp))
}

func (st *gstub) sendAll(gx *gx, l []*gsent, ps []pkt) (ok bool) {
	w := gx.x.w
	st.sendL.lock()
	defer st.sendL.unlock()
	if st.stopped || st.end {
		return false
	}
	for _, gs := range l {
		if gs == nil {
			continue
		}
		switch gs.kind {
		case "connect":
			st.member[gs.ns] = true
		case "disconnect":
			st.member[gs.ns] = false
		default:
			if !st.member[gs.ns] {
				return false
			}
		}
		gs.end = -1
		gs.start = w.log(Ev{K: "stub " + gs.kind, C: st.g.i, S: gs.ns})
		gs.t0 = w.now()
		if gs.em != nil {
			gs.em.start, gs.em.t0 = gs.start, gs.t0
		}
		st.sent = append(st.sent, gs)
	}
	ok = st.raw0(ps)
	for _, gs := range l {
		if gs == nil {
			continue
		}
		gs.ok, gs.t1 = ok, w.now()
		gs.end = w.log(Ev{K: "stub-ret", C: st.g.i, I: b2i(gs.ok)})
		if gs.em != nil {
			gs.em.end, gs.em.t1, gs.em.ok = gs.end, gs.t1, gs.ok
		}
	}
	return
}

func (gx *gx) stubRecv(st *gstub, p pkt) {
	x, w, g := gx.x, gx.x.w, st.g
	q, err := st.dec.add(p)
	if err != nil {
		code := "undecodable"
		if strings.HasPrefix(err.Error(), "interleaved") {
			code = "mixed"
		}
		w.violate("C09", code, "what Go client %d sent is no socket.io packet: %v", g.i, err)
		w.violate("C10", code, "what Go client %d sent is no socket.io packet: %v", g.i, err)
		return
	}
	if q == nil {
		return
	}
	seq := w.log(Ev{K: "stub-sio", C: g.i, S: fmt.Sprintf("%d %s %.100s", q.typ, q.nsp, canon(q.args)), I: q.id})
	switch q.typ {
	case sEvent, sBinEvent:
		key := keyOf(q.args)
		a := x.actByKey[key]
		if a == nil {
			w.violate("C09", "corrupt", "Go client %d sent event %.160s, which was never emitted", g.i, canon(q.args))
			return
		}
		a.gots = append(a.gots, seq)
		a.gotT = w.now()
		if len(a.gots) > 1 {
			w.violate("C09", "dup", "Go client %d sent event %s twice", g.i, keyHead(key))
			return
		}
		name, _ := q.args[0].(string)
		if got := canon(q.args[1:]); name != a.name || got != a.want || q.nsp != a.ns {
			w.violate("C09", "args", "Go client %d sent %q %.200s on %s, emitted was %q %.200s on %s", g.i, name, got, q.nsp, a.name, a.want, a.ns)
		}
		if (q.id >= 0) != (a.style >= 0) {
			w.violate("C10", "id", "Go client %d sent event %s with acknowledgement id %d; emitted with callback: %v", g.i, keyHead(key), q.id, a.style >= 0)
		}
		if q.id >= 0 {
			k := fmt.Sprintf("%s %d", q.nsp, q.id)
			if o := st.ids[k]; o != nil && len(o.runs) == 0 {
				w.violate("C10", "id-reused", "Go client %d: emits %s and %s are outstanding on %s with the same id %d", g.i, keyHead(o.key), keyHead(key), q.nsp, q.id)
			}
			st.ids[k] = a
			a.id = q.id
			w.spawn(func() { gx.stubAnswer(st, a, q.args) })
		}
	case sAck, sBinAck:
		for _, m := range x.ems {
			if m.c == g.i && m.gs == st.s && m.id == q.id && m.ns == q.nsp {
				m.acked = append(m.acked, seq)
				m.ackedT = w.now()
				if len(m.acked) > 1 {
					w.violate("C10", "answered-twice", "Go client %d answered request %d on %s %d times", g.i, q.id, q.nsp, len(m.acked))
				}
				if len(m.got) == 0 {
					w.violate("C10", "answered-unhandled", "Go client %d answered request %d on %s (%s) but its handler did not run", g.i, q.id, q.nsp, keyHead(m.key))
				} else if got := canon(q.args); len(m.acts) == 0 || got != m.acts[0].vals {
					w.violate("C10", "wrong-answer", "Go client %d answered request %d on %s (%s) with %.150s", g.i, q.id, q.nsp, keyHead(m.key), got)
				}
				return
			}
		}
		for _, gs := range st.sent {
			if gs.kind == "bad" && gs.id == q.id && gs.ns == q.nsp {
				w.violate("C16", "answered", "Go client %d answered the %s on %s with %.150s", g.i, gs.what, gs.ns, canon(q.args))
				return
			}
		}
		w.violate("C10", "odd-answer", "Go client %d sent an acknowledgement with id %d on %s that answers no request", g.i, q.id, q.nsp)
	case sError:
		if x.gotErr(g.i, st.s, q.nsp, q.data, seq, "the server") == nil {
			w.violate("C14", "odd-packet", "Go client %d sent socket.io packet %s", g.i, q)
			w.violate("C16", "odd-error", "Go client %d sent the error %.100s on %s, which was never emitted", g.i, canon(q.data), q.nsp)
		}
	default:
		w.violate("C14", "odd-packet", "Go client %d sent socket.io packet %s", g.i, q)
	}
}

// stubAnswer answers a request of the client in the way its style says.
func (gx *gx) stubAnswer(st *gstub, a *act, args []interface{}) {
	w := gx.x.w
	vals := respVals(a.name, a.key, args[1:])
	snd := func(ns string, id int64, real *act, vals []interface{}) {
		gs := &gsent{kind: "ack", ns: ns, a: real}
		st.send(gx, gs, &sioPkt{typ: sAck, nsp: ns, id: id, args: vals})
	}
	switch a.ans {
	case 'n':
	case 'A':
		snd(a.ns, a.id, a, vals)
		snd(a.ns, a.id, a, vals)
	case 'd':
		hsleep(time.Duration(newRng(w.plan.Seed, hashStr(a.key)).intn(20000)) * time.Microsecond)
		snd(a.ns, a.id, a, vals)
	case 'b': // with values the callback does not take, first
		if a.style <= 0 {
			snd(a.ns, a.id, a, vals)
			return
		}
		bad := gx.x.badVals(&sem{ack: a.style, key: a.key})
		gs := &gsent{kind: "ack", ns: a.ns, a: a, to: "ns", want: "an error", what: "acknowledgement with the wrong values", id: -1}
		w.probe("gbad:acknowledgement values")
		st.send(gx, gs, &sioPkt{typ: sAck, nsp: a.ns, id: a.id, args: bad})
		snd(a.ns, a.id, a, vals)
	case 'u':
		snd(a.ns, 1<<41+a.id, nil, vals)
		snd(a.ns, a.id, a, vals)
	default:
		snd(a.ns, a.id, a, vals)
	}
}

func respVals(name, key string, args []interface{}) []interface{} {
	switch name {
	case "q1":
		return []interface{}{"R:" + key}
	case "q2":
		return []interface{}{"R:" + key, int64(len(key))}
	case "qb":
		return []interface{}{ackBin(key), "R:" + key}
	case "qx":
		return []interface{}{args[1], "R:" + key}
	}
	return []interface{}{}
}

func (gx *gx) stubOp(st *gstub, o *Op) {
	x, w, g := gx.x, gx.x.w, st.g
	if st.ws == nil || st.end || st.stopped && o.K != "stfin" && o.K != "strst" {
		w.log(Ev{K: "skip " + o.K, C: g.i})
		return
	}
	ns, style := o.S, ""
	if j := strings.IndexByte(ns, ' '); j >= 0 {
		ns, style = ns[:j], ns[j+1:]
	}
	stop := func(why string) {
		st.s.disturb(gx, g, why)
		st.stopped = true
	}
	switch o.K {
	case "stemit": // n, kind, size, ack, gap
		for i := 0; i < o.n(0) && !st.stopped && !st.end; i++ {
			kd, ack := o.n(1), o.n(3)
			switch kd {
			case 99:
				kd = evKinds[w.r.intn(len(evKinds))]
			case 98:
				kd = 10 + w.r.intn(5)
			}
			if ack == 2 {
				ack = w.r.intn(2)
			}
			if !st.member[ns] || st.stopped {
				return
			}
			m, name, args := x.newSem(g.i, ns, kd, o.n(2), -1, "", style, "e")
			m.gs = st.s
			p := &sioPkt{typ: sEvent, nsp: ns, id: -1, args: append([]interface{}{name}, args...)}
			if ack == 1 && handled[name] {
				m.id = st.reqID
				p.id = m.id
				st.reqID += int64(1 + w.r.intn(2))
			}
			if !st.send(gx, &gsent{kind: "event", ns: ns, em: m, skip: !handled[name] || !x.reg[ns]}, p) {
				return
			}
			if gap := o.n(4); gap > 0 {
				hsleep(time.Duration(gap) * time.Microsecond)
			}
		}
	case "stconn":
		st.send(gx, &gsent{kind: "connect", ns: ns}, &sioPkt{typ: sConnect, nsp: ns, id: -1})
	case "stdisc":
		if st.member[ns] {
			st.send(gx, &gsent{kind: "disconnect", ns: ns}, &sioPkt{typ: sDisconnect, nsp: ns, id: -1})
		}
	case "sterr":
		if w.plan.Prop == "C16" {
			d := errData(w.r.intn(1<<20), false)
			st.send(gx, &gsent{kind: "error", ns: ns, to: "ns", want: canon(d), what: "error packet", id: -1}, &sioPkt{typ: sError, nsp: ns, id: -1, data: d})
			break
		}
		st.send(gx, &gsent{kind: "error", ns: ns}, &sioPkt{typ: sError, nsp: ns, id: -1, data: "server error"})
	case "stbad": // n, size
		gx.stubBad(st, ns, o.n(0), o.n(1))
	case "stbadack":
		st.send(gx, &gsent{kind: "ack", ns: ns}, &sioPkt{typ: sAck, nsp: ns, id: 1<<42 + int64(w.r.intn(100)), args: []interface{}{"bad"}})
	case "stnoop":
		st.raw([]pkt{{false, 6, nil}})
	case "stclosepkt":
		stop("server close packet")
		st.finish("closepkt")
		st.raw([]pkt{{false, 1, nil}})
		if o.n(0) == 1 {
			st.conn.Close()
		}
	case "stwsclose":
		stop("websocket close")
		st.finish("wsclose")
		st.sendL.lock()
		st.conn.Write(st.ws.frame(8, true, []byte{3, 232}))
		st.sendL.unlock()
	case "stfin":
		stop("server closed the connection")
		st.finish("fin")
		st.conn.Close()
	case "strst":
		stop("reset")
		st.finish("rst")
		st.conn.l.Reset()
	case "stsilence":
		stop("silence")
		st.silent = true
	case "stvanish":
		stop("vanish")
		st.conn.l.Vanish()
	case "stnopong": // stops answering pings, but still sends
		st.s.disturb(gx, g, "no pongs")
		st.silent = true
	}
}

// ---- end of the run ----

func (gx *gx) teardown() {
	w := gx.x.w
	w.closingDown = true
	for i := 0; i < len(gx.cl); i++ {
		g := gx.cl[i]
		s := g.cur
		if s == nil {
			continue
		}
		style := w.r.intn(4)
		if s.end < 0 { // still dialling
			style = 3
		}
		if s.lnk != nil && s.lnk.client.closed {
			continue
		}
		s.disturb(gx, g, "teardown")
		w.spawn(func() {
			switch {
			case style == 0 || s.st == nil && style == 1:
				gx.close(g, s, "")
			case style == 1:
				gx.stubOp(s.st, &Op{K: w.r.pickS("stclosepkt", "stfin", "stwsclose"), C: g.i})
			case style == 2 && s.lnk != nil:
				s.lnk.Vanish()
			case s.lnk != nil:
				s.lnk.Reset()
			default:
				for _, l := range w.net.links {
					if strings.HasPrefix(l.label, fmt.Sprintf("c%d/", g.i)) {
						l.Reset()
					}
				}
			}
		})
	}
}

func (gx *gx) after() {
	w := gx.x.w
	for i := 0; i < len(gx.cl); i++ {
		g := gx.cl[i]
		for _, s := range g.sess {
			if s.end < 0 {
				w.violate("C14", "dial-stuck", "Go client %d: Dial has not returned although the connection is gone", g.i)
			} else if s.lnk != nil && !s.lnk.client.closed {
				w.violate("C14", "conn-open", "Go client %d still has its connection open long after its session ended (dial error %v)", g.i, s.err)
			}
			if s.st != nil && !s.st.conn.closed {
				s.st.conn.Close()
			}
		}
	}
	for i := 0; i < len(gx.cl); i++ {
		if l := w.net.listeners[fmt.Sprintf("10.0.2.%d:80", i)]; l != nil {
			l.Close()
		}
	}
}
