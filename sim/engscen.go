package main

import (
	"fmt"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio/engine"
)

// The engine scenario: one engine.io server, several clients, application goroutines.

func runEngine(w *World) {
	w.t0 = time.Now()
	p := w.plan
	eng, err := engine.NewServer(w.I, w.T, w.onOpen, w.origins()...)
	if err != nil {
		w.violate("C15", "newserver", "NewServer: %v", err)
		return
	}
	w.eng = eng
	for k := 0; k < 4; k++ {
		w.register(k)
	}
	w.serve(eng)
	hsleep(time.Millisecond)
	w.base = runtime.SimGoroutines() - w.live
	w.t0 = time.Now()
	for i := range p.Clients {
		w.cl = append(w.cl, newEclient(w, i, p.Clients[i]))
	}
	w.startActors(w.engOp)
	w.finishRun(func() { eng.Close() })
}

// register registers the handler of an event, which may be done again at any time.
func (w *World) register(k int) {
	switch k {
	case 0:
		w.eng.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, typ engine.MessageType, data []byte) { w.onMessage(so, typ, data) }))
	case 1:
		w.eng.On(engine.EventClose, engine.Callback(func(so *engine.Socket, typ engine.MessageType, data []byte) { w.onCloseEv(so) }))
	case 2:
		w.eng.On(engine.EventPing, engine.Callback(func(so *engine.Socket, typ engine.MessageType, data []byte) { w.onPing(so, data) }))
	case 3:
		w.eng.On(engine.EventUpgrade, engine.Callback(func(so *engine.Socket, typ engine.MessageType, data []byte) { w.onUpgrade(so) }))
	default:
		w.eng.On(engine.EventPong, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) {}))
	}
}

// origins are the origin checkers of the server, all of which must agree.
func (w *World) origins() (ocs []engine.OriginChecker) {
	switch w.plan.cfg("origin") {
	case 1:
		return append(ocs, originCheck{w})
	case 2:
		return append(ocs, anyOrigin{}, originCheck{w})
	case 3:
		return append(ocs, originCheck{w}, anyOrigin{})
	case 4:
		return append(ocs, nil, originCheck{w}, nil)
	}
	return
}

type anyOrigin struct{}

func (anyOrigin) CheckOrigin(*http.Request) bool { return true }

type originCheck struct{ w *World }

func (o originCheck) CheckOrigin(r *http.Request) bool {
	return r.Header.Get("Origin") != "http://evil.example"
}

// finishRun waits for the workload, lets the system settle, then tears everything down.
func (w *World) finishRun(closeServer func()) {
	p := w.plan
	limit := w.t0.Add(w.lastOpAt() + time.Duration(p.Settle)*time.Millisecond)
	sleepUntil(w.t0.Add(w.lastOpAt()))
	// wait for the actors, but not for ever
	for w.actorsRun > 0 && time.Now().Before(limit) {
		hsleep(w.T/4 + 10*time.Millisecond)
	}
	hsleep(time.Duration(p.Settle) * time.Millisecond)
	w.endSeq = w.log(Ev{K: "end-of-workload"})
	w.endT = w.now()
	w.stepsAtEnd = runtime.SimSteps()
	w.closing = true
	// innocent probe: the server still admits and serves a newcomer
	if p.cfg("probe") > 0 && !w.srvClosed {
		if w.sx != nil {
			w.sx.probeClient()
		} else {
			w.probeClient()
		}
	}
	// clients leave
	for _, c := range w.cl {
		c.teardown()
	}
	if w.onTeardown != nil {
		w.onTeardown()
	}
	hsleep(w.I + w.T + 12*w.T + 2*time.Second)
	w.log(Ev{K: "after-inactivity"})
	if w.onAfter != nil {
		w.onAfter()
	}
	// ended sessions are refused
	if len(w.net.listeners) > 0 && !w.lis.closed && len(w.cl) > 0 {
		for _, c := range w.cl {
			if c.sid != "" && c.closedProbe == 0 {
				c.w.live++
				st := c.pollOnce("GET", c.sid, time.Second)
				c.w.live--
				c.closedProbe = st
				w.log(Ev{K: "closed-probe", C: c.i, I: int64(st)})
			}
		}
	}
	closeServer()
	hsleep(w.T)
	w.lis.Close()
	for _, l := range w.net.links {
		if !l.client.closed {
			l.client.Close()
		}
		if l.switched && !l.srvGone && (w.gx == nil || w.gx.real()) {
			w.log(Ev{K: "server-conn-open", S: l.label})
		}
	}
	hsleep(w.I + 2*w.T)
	w.phase = 9
	w.afterRun()
}

func (w *World) afterRun() {
	// anything of the code under test still running?
	n := runtime.SimGoroutines() - w.live
	w.log(Ev{K: "goroutines", I: int64(n)})
	if runtime.SimAborted() != 0 {
		return
	}
	// the accept loop (a harness goroutine) is gone too; the baseline had the server's own goroutines, now closed
	if n > 1 { // this goroutine
		w.aux = n
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var leaks []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "socketio") && !strings.Contains(g, "afterRun") && strings.Contains(g, "synctest bubble") && !strings.Contains(g, "net/http.(*body).Read(") {
				leaks = append(leaks, leakSite(g))
			}
		}
		if len(leaks) > 0 {
			for _, p := range []string{"C06", map[string]string{"gocli": "C14", "hostile": "C08"}[w.plan.Kind]} {
				if p == "" {
					continue
				}
				w.violate(p, "goroutine-leak", "%d goroutines of the library are still alive after every session ended and the server was closed: %s", len(leaks), strings.Join(leaks, " | "))
			}
		} else {
			w.probe("other-goroutines")
		}
	}
}

func leakSite(g string) string {
	var fr []string
	for _, l := range strings.Split(g, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		if i := strings.Index(l, " in goroutine "); i > 0 {
			l = l[:i] + "("
		}
		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "socketio") {
			fr = append(fr, l[strings.LastIndexByte(l, '/')+1:])
		}
	}
	if len(fr) > 4 {
		fr = fr[:4]
	}
	return strings.Join(fr, "<")
}

func (c *eclient) teardown() {
	if c.disrupt < 0 && !c.over {
		c.disturb("teardown")
	}
	c.stopPoll = true
	c.silent = true
	c.over = true
	c.nt.broadcast()
	for _, sc := range c.conns() {
		if !sc.closed {
			sc.Close()
		}
	}
	for _, u := range c.upRec {
		if u.conn != nil && !u.conn.closed {
			u.conn.Close()
		}
	}
}

func (w *World) probeClient() {
	i := len(w.cl)
	mode := w.r.pick(0, 1)
	c := newEclient(w, i, ClientPlan{Mode: mode, Ping: 0, Prof: netProfile{LatUs: 100}})
	w.cl = append(w.cl, c)
	done := false
	w.spawn(func() {
		if c.open() {
			hsleep(5 * time.Millisecond)
			c.send(1, 0, 10, 1, "e1")
			hsleep(100 * time.Millisecond)
			c.ping(false)
		}
		done = true
	})
	s0 := runtime.SimStallNs()
	hsleep(3*time.Second + time.Duration(runtime.SimStallNs()-s0))
	ok := done && c.opened && len(c.pings) == 1 && c.pings[0].pongSeq >= 0
	echo := false
	for _, g := range w.got {
		if g.c == i && strings.HasPrefix(g.key, "r") {
			echo = true
		}
	}
	if !ok || !echo {
		w.violate("C08", "newcomer", "after the workload a new client is not served: done %v opened %v (status %d) echo %v ponged %v", done, c.opened, c.refused, echo, ok)
	}
}

// ---- server application callbacks ----

func (w *World) cbEnter(s *sess, kind string) {
	w.log(Ev{K: "cb " + kind, C: s.c})
}

func (w *World) newSess(so *engine.Socket) *sess {
	ci := -1
	if v := so.GetHeader("X-Client"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			ci = n
		}
	}
	s := &sess{n: len(w.sess), sid: so.Sid(), c: ci, so: so, appClose: -1, closeSeq: -1, openSeq: -1, openEnd: -1}
	if o := w.sessBySid(s.sid); o != nil {
		w.violate("C07", "sid-dup", "session id %s given to two sessions", s.sid)
	}
	w.sess = append(w.sess, s)
	hbPub(w.pubAddr(ci))
	return s
}

func (w *World) sessOfSo(so *engine.Socket) *sess {
	for _, s := range w.sess {
		if s.so == so {
			return s
		}
	}
	return nil
}

func (w *World) onOpen(so *engine.Socket) {
	if s := w.sessOfSo(so); s != nil {
		w.violate("C15", "open-twice", "open callback ran twice for session %d of client %d", s.n, s.c)
		return
	}
	s := w.newSess(so)
	s.opens++
	s.openSeq = w.log(Ev{K: "cb open", C: s.c})
	s.openT = w.now()
	w.checkHeaders(s, s.so)
	w.runCmds(s, w.openCmds(s.c), "open")
	s.lastIn = w.now()
	s.openEnd = w.log(Ev{K: "cb-ret open", C: s.c})
}

func (w *World) openCmds(c int) string {
	for i := range w.plan.Ops {
		if o := &w.plan.Ops[i]; o.K == "onopen" && o.C == c {
			return o.S
		}
	}
	return ""
}

func (w *World) cbCmds(kind string, c int) string {
	for i := range w.plan.Ops {
		if o := &w.plan.Ops[i]; o.K == kind && o.C == c {
			return o.S
		}
	}
	return ""
}

func (w *World) checkLate(s *sess, kind string) {
	if s.closes > 0 {
		w.violate("C05", "after-close", "%s callback for client %d's session %d after its close notification", kind, s.c, s.n)
	}
	if s.opens == 0 {
		w.violate("C05", "before-open", "%s callback for client %d's session before its open callback", kind, s.c)
	}
}

func (w *World) mustSess(so *engine.Socket, kind string) *sess {
	s := w.sessOfSo(so)
	if s == nil {
		w.violate("C05", "before-open", "%s callback for a session (sid %s) that was never opened", kind, so.Sid())
		s = w.newSess(so)
		s.opens = 0
	}
	return s
}

func (w *World) onMessage(so *engine.Socket, typ engine.MessageType, data []byte) {
	s := w.mustSess(so, "message")
	g := &gotRec{c: s.c, key: string(data), bin: typ == engine.MessageTypeBinary, t: w.now(), end: -1, sess: s, sid: s.sid}
	g.seq = w.log(Ev{K: "cb message", C: s.c, S: g.key, I: b2i(g.bin)})
	w.checkLate(s, "message")
	s.lastIn = g.t
	w.hand = append(w.hand, g)
	s.cb[1]++
	if cm := cmdsOf(g.key); cm != "" {
		w.runCmds(s, cm, "message")
	}
	s.cb[1]--
	s.lastIn = w.now()
	g.end = w.log(Ev{K: "cb-ret message", C: s.c})
}

func (w *World) onPing(so *engine.Socket, data []byte) {
	s := w.mustSess(so, "ping")
	w.log(Ev{K: "cb ping", C: s.c, S: string(data)})
	w.checkLate(s, "ping")
	s.lastIn = w.now()
	w.runCmds(s, w.cbCmds("onping", s.c), "ping")
	s.lastIn = w.now()
}

func (w *World) onUpgrade(so *engine.Socket) {
	s := w.mustSess(so, "upgrade")
	w.log(Ev{K: "cb upgrade", C: s.c})
	s.upgrades++
	s.lastIn = w.now()
	w.upNt.broadcast()
	w.checkHeaders(s, s.so)
	w.runCmds(s, w.cbCmds("onupgrade", s.c), "upgrade")
	s.lastIn = w.now()
}

func (w *World) onCloseEv(so *engine.Socket) {
	s := w.mustSess(so, "close")
	s.closes++
	s.closeSeq = w.log(Ev{K: "cb close", C: s.c})
	s.closeT = w.now()
	if s.closes == 1 {
		w.checkHeaders(s, s.so)
		w.runCmds(s, w.cbCmds("onclose", s.c), "close")
	}
	w.log(Ev{K: "cb-ret close", C: s.c})
}

// runCmds performs what a callback was told to do: e<n> emit, x<c> emit to another client,
// c close, k<c> close another, s<ms> sleep, h headers.
func (w *World) runCmds(s *sess, cmds, where string) {
	if cmds == "" {
		return
	}
	for _, f := range strings.Split(cmds, ",") {
		if f == "" {
			continue
		}
		n, _ := strconv.Atoi(f[1:])
		switch f[0] {
		case 'e':
			for i := 0; i < n; i++ {
				w.emit(s, w.r.pick(0, 0, 2), w.r.intn(60), where, "r")
			}
		case 'x', 'k':
			t0 := w.now()
			if o := w.sessOf(n); o != nil && f[0] == 'x' {
				w.emit(o, 0, 20, where, "r")
			} else if o != nil {
				w.closeSess(o, where)
			}
			w.addSlept(s, w.now()-t0) // the other session may make this one wait
		case 'c':
			w.closeSess(s, where)
		case 's':
			if w.endSeq > 0 {
				continue
			}
			w.log(Ev{K: "cb-sleep", C: s.c, I: int64(n)})
			w.addSlept(s, int64(n)*1e6)
			hsleep(time.Duration(n) * time.Millisecond)
		case 'h':
			w.headers(s, s.so, where)
		case 'o':
			w.track("on", s.c, where, 0, func() error { w.register(n); return nil })
		}
	}
}

func (w *World) addSlept(s *sess, d int64) { w.addSleptC(s.c, d) }

func (w *World) addSleptC(c int, d int64) {
	if w.slept == nil {
		w.slept = map[int]int64{}
	}
	w.slept[c] += d
}

// hsock is what the sockets of both layers have in common.
type hsock interface {
	SetHeader(key, value string)
	GetHeader(key string) string
	RemoteAddr() net.Addr
	LocalAddr() net.Addr
	Sid() string
}

func (w *World) headers(s *sess, so hsock, where string) {
	w.track("headers", s.c, where, w.T, func() error {
		w.hdrN++
		k, val := fmt.Sprintf("X-App-%d", w.hdrN), fmt.Sprintf("v%d", w.hdrN)
		so.SetHeader(k, val)
		if s.hdrs == nil {
			s.hdrs = map[string]string{}
		}
		s.hdrs[k] = val
		w.checkHeaders(s, so, k)
		so.SetHeader("x-shared", val)
		if got := so.GetHeader("X-Shared"); !strings.HasPrefix(got, "v") {
			w.violate("C03", "header", "client %d's session: header X-Shared is %q after it was set", s.c, got)
		}
		if a := so.RemoteAddr(); s.c >= 0 && s.c < len(w.plan.Clients) && !strings.HasPrefix(a.String(), "10.0.1.") {
			w.violate("C03", "header", "client %d's session: remote address %q", s.c, a)
		}
		so.LocalAddr()
		if so.Sid() != s.sid {
			w.violate("C03", "header", "client %d's session: id %q became %q", s.c, s.sid, so.Sid())
		}
		return nil
	})
}

// checkHeaders: what the application set on the session and what the handshake brought is still there.
func (w *World) checkHeaders(s *sess, so hsock, keys ...string) {
	if len(keys) == 0 {
		keys = sortedStr(s.hdrs)
	}
	for _, k := range keys {
		if got := so.GetHeader(k); got != s.hdrs[k] {
			w.violate("C03", "header", "client %d's session: header %s is %q, it was set to %q", s.c, k, got, s.hdrs[k])
			return
		}
	}
	if s.c >= 0 && s.c < len(w.plan.Clients) && (w.plan.Kind == "engine" || w.plan.Kind == "sio") {
		for k, v := range map[string]string{"X-Client": strconv.Itoa(s.c), "X-Hs": "hs" + strconv.Itoa(s.c)} {
			if got := so.GetHeader(k); got != v {
				w.violate("C03", "header", "client %d's session: header %s of its handshake is %q, it sent %q", s.c, k, got, v)
			}
		}
	}
}

func sortedStr(m map[string]string) (k []string) {
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return
}

func (w *World) emit(s *sess, kind, size int, where, dir string) *msgRec {
	key, bin := w.payload(dir, s.c, kind, size, "")
	m := &msgRec{c: s.c, key: key, bin: bin, end: -1, inline: where != ""}
	w.emits = append(w.emits, m)
	cr := w.track("emit", s.c, where, 0, func() error {
		m.start = w.log(Ev{K: "emit", C: s.c, S: key, I: b2i(bin)})
		m.t0 = w.now()
		typ := engine.MessageTypeString
		if bin {
			typ = engine.MessageTypeBinary
		}
		if !bin && size%3 == 1 {
			return s.so.Send(key)
		}
		if size%2 == 0 {
			return s.so.Emit(engine.EventMessage, typ, []byte(key))
		}
		return s.so.Emit(engine.EventMessage, typ, key)
	})
	m.end, m.t1, m.ok = cr.end, cr.t1, cr.err == nil
	if cr.err != nil {
		m.err = cr.err.Error()
	}
	return m
}

func (w *World) closeSess(s *sess, where string) {
	if s.appClose < 0 {
		s.appClose = len(w.log_)
		s.appCloseT = w.now()
	}
	w.track("close", s.c, where, 0, func() error { return s.so.Close() })
}

// ---- operations ----

func (w *World) engOp(o *Op) {
	if o.A[0] == 'c' {
		if c := w.client(actorNum(o.A)); c != nil {
			w.clientOp(c, o)
		}
		return
	}
	s := w.sessOf(o.C)
	switch o.K {
	case "emit":
		if s == nil {
			w.log(Ev{K: "skip", C: o.C})
			return
		}
		for i := 0; i < o.n(0); i++ {
			kd := o.n(1)
			if kd == 9 {
				kd = w.r.pick(0, 1, 2)
			}
			sz := o.n(2)
			if sz > 1 && kd < 4 {
				sz = w.r.intn(sz + 1)
			}
			if m := w.emit(s, kd, sz, "", "e"); !m.ok {
				break
			}
			if g := o.n(3); g > 0 {
				hsleep(time.Duration(g) * time.Microsecond)
			}
		}
	case "close":
		if s != nil {
			w.closeSess(s, "")
			if c := w.client(o.C); c != nil && o.n(0) > 0 {
				c.pollClosed(s, o.n(0) > 1)
			}
		}
	case "headers":
		if s != nil {
			for i := 0; i < o.n(0)+1; i++ {
				w.headers(s, s.so, "")
			}
		}
	case "on":
		w.track("on", o.C, "", 0, func() error { w.register(o.n(0)); return nil })
	case "srvclose":
		w.srvCloseSeq = w.log(Ev{K: "srvclose"})
		w.eng.Close()
		w.srvClosed = true
		w.srvClosedSeq = w.log(Ev{K: "srvclosed"})
	}
}

func (w *World) clientOp(c *eclient, o *Op) {
	if o.K != "open" && o.K != "wait" && !c.opened {
		return
	}
	ms := func(i int) time.Duration { return time.Duration(o.n(i)) * time.Millisecond }
	switch o.K {
	case "open":
		if !c.opened {
			c.open()
		}
	case "send":
		c.send(o.n(0), o.n(1), o.n(2), o.n(3), o.S)
	case "ping":
		c.ping(o.n(0) == 1)
	case "up":
		c.upgrade("", 0)
	case "upvar":
		if o.n(1) == 1 { // in the background
			w.spawn(func() { c.upgrade(o.S, ms(0)) })
		} else {
			c.upgrade(o.S, ms(0))
		}
	case "closepkt":
		c.sendPkts([]pkt{{false, 1, nil}}, func() {
			c.disturb("close packet")
			if c.sentClose < 0 {
				c.sentClose = len(w.log_)
			}
			w.log(Ev{K: "send-close", C: c.i})
		}, nil, -1)
	case "fin", "rst", "vanish":
		c.disturb(o.K)
		c.stopPoll, c.silent = true, true
		for _, sc := range c.conns() {
			switch o.K {
			case "fin":
				sc.Close()
			case "rst":
				sc.l.Reset()
			case "vanish":
				sc.l.Vanish()
			}
		}
		c.end(o.K)
	case "silence":
		c.disturb("silence")
		c.silent = true
		if o.n(0) == 1 {
			c.stopPoll = true
		}
		c.nt.broadcast()
	case "stallread": // stop reading from the websocket for a while
		c.disturb("stallread")
		if c.disruptMax < ms(0) {
			c.disruptMax = ms(0)
		}
		c.readStall = time.Now().Add(ms(0))
	case "stallnet":
		for _, sc := range c.conns() {
			sc.l.Stall(o.n(1)&1 != 0, o.n(1)&2 != 0, ms(0))
		}
		if ms(0) > w.T/3 {
			c.disturb("stallnet")
		}
	case "abortget":
		if c.pollC != nil && c.inGET {
			w.probe("abort-get")
			if o.n(0) == 1 {
				c.pollC.c.l.Reset()
			} else {
				c.pollC.c.Close()
			}
		}
	case "badpost":
		c.badPost(o.n(0))
	case "stray":
		c.stray(o.n(0))
	case "pollold":
		if c.upOK && !c.over {
			// the switch is over once the server has announced it; before, the old transport may serve
			if s := w.sessBySid(c.sid); s == nil || !w.upNt.waitFor(2*w.T, func() bool { return s.upgrades > 0 }) {
				return
			}
			st := c.pollOnce([]string{"GET", "POST"}[o.n(0)&1], c.sid, 2*time.Second+w.T)
			w.log(Ev{K: "poll-old", C: c.i, I: int64(st)})
			if !c.over {
				c.pollAfter = append(c.pollAfter, st)
			}
		}
	case "method":
		if !c.onWS && !c.over {
			h, err := c.dialHTTP("probe")
			if err == nil {
				h.do([]string{"PUT", "DELETE", "HEAD", "OPTIONS"}[o.n(0)&3], c.query("polling"), c.hdr(), nil, -1)
				h.c.Close()
			}
		}
	case "badopen":
		w.badOpen(c, o.S)
	}
}

// badOpen sends a handshake or session request that must be refused.
func (w *World) badOpen(c *eclient, variant string) {
	before := len(w.sess)
	h, err := w.net.dial("10.0.0.1:80", c.label("bad"), c.p.Prof)
	if err != nil {
		return
	}
	defer h.Close()
	hd := [][2]string{{"X-Client", "900"}}
	target := c.target
	ws := false
	q := ""
	switch variant {
	case "eio2":
		q = "?EIO=2&transport=polling"
	case "eio3x":
		q = []string{"?EIO=3x&transport=polling", "?EIO=&transport=polling", "?EIO=33&transport=polling", "?EIO=4&EIO=3&transport=polling", "?eio=3&transport=polling", "?EIO=1&transport=websocket", "?EIO=03&transport=polling", "?EIO=%2B3&transport=polling", "?EIO=3%20&transport=websocket", "?EIO=3.0&transport=polling"}[c.r.intn(10)]
	case "transportx":
		q = []string{"?EIO=3&transport=Polling", "?EIO=3&transport=polling,websocket", "?EIO=3&transport=pollin", "?EIO=3&transport=jsonp-polling", "?EIO=3&transport=xhr&transport=polling"}[c.r.intn(5)]
	case "noeio":
		q = "?transport=polling"
	case "eio4ws":
		q, ws = "?EIO=4&transport=websocket", true
	case "transport":
		q = "?EIO=3&transport=flashsocket"
	case "notransport":
		q = "?EIO=3"
	case "sid":
		q = "?EIO=3&transport=polling&sid=0123456789ABCDEFGHJKMNPQRS"
	case "sidws":
		q, ws = "?EIO=3&transport=websocket&sid=0123456789ABCDEFGHJKMNPQRS", true
	case "origin":
		q = "?EIO=3&transport=polling"
		hd = append(hd, [2]string{"Origin", "http://evil.example"})
	case "originws":
		q, ws = "?EIO=3&transport=websocket", true
		hd = append(hd, [2]string{"Origin", "http://evil.example"})
	case "originup": // the session exists, but not for whoever asks
		if c.sid == "" {
			return
		}
		q, ws = "?EIO=3&transport=websocket&sid="+c.sid, true
		hd = [][2]string{{"X-Client", strconv.Itoa(c.i)}, {"Origin", "http://evil.example"}}
	case "wsplain": // websocket transport without a websocket handshake
		q = "?EIO=3&transport=websocket"
	case "wspost":
		q = "?EIO=3&transport=websocket"
	case "wsver":
		q = "?EIO=3&transport=websocket"
		hd = append(hd, [2]string{"Upgrade", "websocket"}, [2]string{"Connection", "Upgrade"}, [2]string{"Sec-WebSocket-Version", "8"}, [2]string{"Sec-WebSocket-Key", "AAAAAAAAAAAAAAAAAAAAAA=="})
	case "wskey":
		q = "?EIO=3&transport=websocket"
		hd = append(hd, [2]string{"Upgrade", "websocket"}, [2]string{"Connection", "Upgrade"}, [2]string{"Sec-WebSocket-Version", "13"})
	}
	method := "GET"
	if variant == "wspost" {
		method = "POST"
	}
	h.SetReadDeadline(time.Now().Add(w.T + 2*time.Second))
	st := 0
	if ws {
		wc, s, err := wsHandshake(h, c.r, target+q, hd)
		st = s
		if err == nil {
			// accepted: is it closed without a session?
			if _, e := wc.readTimeout(w.T + 2*time.Second); e != nil && !isTimeout(e) && variant == "sidws" {
				st = 400
			}
		}
	} else {
		hc := &httpConn{h, newBufReader(h)}
		r, err := hc.do(method, target+q, hd, nil, -1)
		if err == nil {
			st = r.status
		}
	}
	w.log(Ev{K: "bad-open", C: c.i, S: variant, I: int64(st)})
	w.probe("badopen")
	if st < 400 {
		w.violate("C15", "not-refused", "request %q answered with status %d instead of an error status", variant, st)
	}
	hsleep(50 * time.Millisecond)
	for _, s := range w.sess[before:] {
		if s.c == 900 {
			w.violate("C15", "refused-opened", "refused handshake %q opened a session", variant)
		}
	}
}

func isTimeout(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

var _ = fmt.Sprint

// actorNum is the number in an actor's name: "c3.up" is client 3.
func actorNum(a string) int {
	n := 0
	for i := 1; i < len(a) && a[i] >= '0' && a[i] <= '9'; i++ {
		n = n*10 + int(a[i]-'0')
	}
	return n
}
