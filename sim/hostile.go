package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio"
)

// Hostile peers: they send anything, in any order, while innocent clients are being served.

type hpeer struct {
	x     *sx
	w     *World
	i     int
	prof  netProfile
	r     *rng
	ss    []*hsess
	conns []*simConn
	nl    int
	tail  string // how the peer leaves at the end of the workload
}

// hsess is a session a hostile peer has obtained.
type hsess struct {
	p    *hpeer
	sid  string
	mode int
	ws   *wsConn
	dec  sioDecoder
	got  int
	done bool
}

// hsrv is a hostile peer's session as the application sees it.
type hsrv struct {
	s     *sess
	conn  map[string]int
	bad   string
	calls []*hcall
}

type hcall struct {
	what       string
	start, end int
	t0, t1     int64
}

type hx struct {
	peers map[int]*hpeer
	srv   map[*sess]*hsrv
	order []*hsrv
	calls []*hcall
	ran   int
}

func runHostile(w *World) { runSio(w) }

func (x *sx) hostileInit() {
	w := x.w
	x.hx = &hx{peers: map[int]*hpeer{}, srv: map[*sess]*hsrv{}}
	w.onTeardown = x.hostileLeave
	w.onAfter = x.hostileAfter
	for _, ns := range []string{"/", "/a", "/q"} {
		if x.reg[ns] {
			x.oddHandlers(w.sio.Namespace(ns))
		}
	}
}

type oddStruct struct {
	A int
	B []string
	C map[string]interface{}
	D *oddStruct
	E [2]float64
}

// oddHandlers take every type of argument an application may ask for.
func (x *sx) oddHandlers(n socketio.Namespace) {
	t := func(name string, v ...interface{}) { x.hx.ran++; x.w.log(Ev{K: "odd", S: name}) }
	n.OnEvent("t0", func(a []int) { t("t0", a) })
	n.OnEvent("t1", func(m map[string]int) { t("t1", m) })
	n.OnEvent("t2", func(a [2]string) { t("t2", a) })
	n.OnEvent("t3", func(p *int, s *string) { t("t3", *p, *s) })
	n.OnEvent("t4", func(v time.Time) time.Time { t("t4"); return v })
	n.OnEvent("t5", func(f float32, u uint8, i int16) (uint8, float32) { t("t5"); return u, f })
	n.OnEvent("t6", func(v interface{}, m map[string]interface{}) map[string]interface{} { t("t6"); return m })
	n.OnEvent("t7", func(a []*string) { t("t7", a) })
	n.OnEvent("t8", func(m map[string][]map[string]string) { t("t8", m) })
	n.OnEvent("t10", func(a []interface{}) []interface{} { t("t10"); return a })
	n.OnEvent("t11", func(d time.Duration, u uint, i int8) { t("t11") })
	n.OnEvent("t12", func(s oddStruct, p *oddStruct) int { t("t12"); return s.A })
	n.OnEvent("t13", func() interface{} { t("t13"); return nil })
	n.OnEvent("t14", func(v interface{}) interface{} { t("t14"); return v })
	n.OnEvent("t15", func(so socketio.Socket, k string) {
		t("t15")
		x.hEmit(so, newRng(hashStr(k), 3))
	})
	n.OnEvent("t16", func(k ...string) { t("t16") })
	n.OnEvent("t17", func(a, b, c, d interface{}) interface{} { t("t17"); return d })
	if x.mp {
		n.OnEvent("t9", func(so socketio.Socket, a []byte, b *[]byte) ([]byte, []byte) { t("t9"); return a, *b })
		n.OnEvent("t18", func(c complex64, d complex128) { t("t18") })
		n.OnEvent("t19", func(a [][]byte, m map[string][]byte) [][]byte { t("t19"); return a })
	} else {
		n.OnEvent("t9", func(so socketio.Socket, a socketio.Bytes, b *socketio.Bytes) (socketio.Bytes, *socketio.Bytes) {
			t("t9")
			return a, b
		})
		n.OnEvent("t19", func(a []byte, j json.RawMessage) json.RawMessage { t("t19"); return j })
	}
}

// hEmit makes the application emit to a hostile session, with a callback of some type.
func (x *sx) hEmit(so socketio.Socket, r *rng) {
	w := x.w
	c := &hcall{what: "Emit", start: w.log(Ev{K: "h-emit"}), end: -1, t0: w.now()}
	x.hx.calls = append(x.hx.calls, c)
	var args []interface{}
	for k := r.intn(3); k >= 0; k-- {
		switch r.intn(5) {
		case 0:
			args = append(args, nil)
		case 1:
			args = append(args, int64(r.intn(1000)))
		case 2:
			b := make([]byte, r.intn(200))
			args = append(args, x.mk(b, r))
		default:
			args = append(args, strings.Repeat("y", r.pick(0, 5, 200)))
		}
	}
	ran := func() { x.hx.ran++; w.log(Ev{K: "h-ack"}) }
	switch r.intn(10) {
	case 0:
	case 1:
		args = append(args, func(v interface{}) { ran() })
	case 2:
		args = append(args, func(so socketio.Socket, a []string, m map[string]int) { ran() })
	case 3:
		args = append(args, func(p *int, f float32) { ran() })
	case 4:
		args = append(args, func(s oddStruct, t time.Time) { ran() })
	default:
		args = append(args, x.ackFunc(r.intn(5), func(so socketio.Socket, vals ...interface{}) { ran() }))
	}
	hbGet(w.pubAddr(-1))
	so.Emit("s", args...)
	c.t1 = w.now()
	c.end = w.log(Ev{K: "h-emitted"})
}

func (x *sx) hsrvOf(s *sess) *hsrv {
	h := x.hx.srv[s]
	if h == nil {
		h = &hsrv{s: s, conn: map[string]int{}}
		x.hx.srv[s] = h
		x.hx.order = append(x.hx.order, h)
	}
	return h
}

// hostileCb handles the connect, disconnect and error callbacks of hostile sessions.
func (x *sx) hostileCb(s *sess, so socketio.Socket, kind, ns string) {
	w := x.w
	h := x.hsrvOf(s)
	w.log(Ev{K: "h-" + kind, C: -1, S: ns + " " + s.sid})
	switch kind {
	case "connect":
		h.conn[ns]++
		s.opens++
		if h.conn[ns] > 1 {
			w.violate("C08", "connect-twice", "a hostile session got a second connect callback for %s without a disconnect between", ns)
		}
		if r := newRng(w.plan.Seed, hashStr(s.sid), 5); r.oneIn(4) {
			x.hEmit(so, r)
		}
	case "disconnect":
		h.conn[ns]--
		if h.conn[ns] < 0 {
			w.violate("C08", "disconnect-unpaired", "a hostile session got a disconnect callback for %s, which is not connected", ns)
		}
	}
}

// ---- operations ----

func (x *sx) peer(i int) *hpeer {
	p := x.hx.peers[i]
	if p == nil {
		r := newRng(x.w.plan.Seed, 7000+uint64(i))
		p = &hpeer{x: x, w: x.w, i: i, r: r}
		p.prof = netProfile{LatUs: r.logRange(20, 2000), Frag: r.pick(0, 0, 0, 7, 300), Seg: r.pick(0, 0, 0, 40, 500), Window: r.pick(0, 0, 200, 2000)}
		p.tail = r.pickS("close", "reset", "vanish", "close")
		x.hx.peers[i] = p
	}
	return p
}

func (p *hpeer) dial(lane string, r *rng) *simConn {
	if p.w.closing {
		return nil
	}
	c, err := p.w.net.dial("10.0.0.1:80", fmt.Sprintf("h%d/%s", p.i, lane), p.prof)
	if err != nil {
		return nil
	}
	p.conns = append(p.conns, c)
	c.SetDeadline(time.Now().Add(p.patience(r)))
	return c
}

func (p *hpeer) patience(r *rng) time.Duration {
	w := p.w
	return time.Duration(r.pick(int(20*time.Millisecond), int(time.Second), int(w.T), int(w.I+w.T)))
}

func (p *hpeer) hdr() [][2]string { return [][2]string{{"X-Client", "hx"}} }

// sess picks one of the peer's sessions, mostly the newest.
func (p *hpeer) sess(r *rng) *hsess {
	if len(p.ss) == 0 {
		return nil
	}
	if r.oneIn(3) {
		return p.ss[r.intn(len(p.ss))]
	}
	return p.ss[len(p.ss)-1]
}

func (p *hpeer) q(mode int, transport, sid string, r *rng) string {
	q := p.w.target() + "?EIO=3&transport=" + transport
	if transport == "polling" {
		switch mode {
		case 2:
			q += "&b64=1"
		case 3:
			q += "&j=" + r.pickS("0", "7", "0", "%22);x(", "999999999999999999999", "-1")
		}
	}
	if sid != "" {
		q += "&sid=" + sid
	}
	return q
}

func (x *sx) hostileOp(o *Op) {
	w := x.w
	if x.hx == nil {
		return
	}
	i := actorNum(o.A)
	p := x.peer(i)
	r := newRng(uint64(o.n(0)), 31)
	w.log(Ev{K: "hostile", C: i, S: o.K})
	w.net.fired["hostile-"+o.K[1:]]++
	switch o.K {
	case "hopen":
		p.open(r, o.n(1))
	case "hmsg":
		for k := 1 + r.intn(4); k > 0; k-- {
			if hs := p.sess(r); hs != nil {
				hs.send(p.packets(r), r)
			}
			if r.oneIn(4) {
				hsleep(time.Duration(r.intn(2000)) * time.Microsecond)
			}
		}
	case "hflood":
		if hs := p.sess(r); hs != nil {
			var ps []pkt
			for k := r.pick(20, 60, 150); k > 0; k-- {
				switch r.intn(6) {
				case 0:
					ps = append(ps, pkt{r.oneIn(8), 2, []byte("x")})
				case 1:
					ps = append(ps, p.packets(r)...)
				default:
					ps = append(ps, encodeSio(&sioPkt{typ: sEvent, nsp: "/", id: int64(k), args: []interface{}{"q1", "fl"}}, x.mp)...)
				}
			}
			hs.send(ps, r)
		}
	case "hpost":
		p.post(r)
	case "hraw":
		p.raw(r)
	case "hframe":
		p.frames(r)
	case "hupg":
		p.upgrades(r)
	case "hpoll":
		p.polls(r)
	case "hdeep":
		p.deep(r)
	case "hslow":
		p.slow(r)
	case "hclose":
		p.leave(r)
	case "hemit":
		for _, h := range x.hx.order {
			for _, ns := range []string{"/", "/a", "/b", "/q"} {
				if so := h.s.socks[ns]; so != nil && r.oneIn(2) {
					h := h
					rr := newRng(r.next())
					w.spawn(func() {
						x.hEmit(so, rr)
						if rr.oneIn(12) {
							c := &hcall{what: "Close", start: w.log(Ev{K: "h-close"}), end: -1, t0: w.now()}
							x.hx.calls = append(x.hx.calls, c)
							h.s.appClose = c.start
							so.Close()
							c.t1 = w.now()
							c.end = w.log(Ev{K: "h-closed"})
						}
					})
				}
			}
		}
	}
}

// open starts a session and the loops that keep it going.
func (p *hpeer) open(r *rng, mode int) {
	w := p.w
	hs := &hsess{p: p, mode: mode, dec: sioDecoder{mp: p.x.mp}}
	c := p.dial("o", r)
	if c == nil {
		return
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	noread := r.oneIn(5)
	noping := r.oneIn(4)
	lr := newRng(r.next())
	var first pkt
	if mode == 0 {
		ws, _, err := wsHandshake(c, r, p.q(0, "websocket", "", r), p.hdr())
		if err != nil {
			return
		}
		if first, err = ws.read(); err != nil {
			return
		}
		hs.ws = ws
		c.SetDeadline(time.Time{})
	} else {
		h := &httpConn{c, bufio.NewReader(c)}
		resp, err := h.do("GET", p.q(mode, "polling", "", newRng(1)), p.hdr(), nil, -1)
		if err != nil || resp.status != 200 {
			return
		}
		var ps []pkt
		switch mode {
		case 2:
			ps, err = decodeText(resp.body, octets)
		case 3:
			var body []byte
			body, err = decodeJSONP(resp.body, "0")
			if err != nil {
				body, err = decodeJSONP(resp.body, "7")
			}
			if err == nil {
				ps, err = decodeText(body, octets)
			}
		default:
			ps, err = decodeXHR2(resp.body)
		}
		if err != nil || len(ps) == 0 {
			return
		}
		first = ps[0]
	}
	var v struct {
		Sid string `json:"sid"`
	}
	json.Unmarshal(first.data, &v)
	if v.Sid == "" {
		return
	}
	hs.sid = v.Sid
	p.ss = append(p.ss, hs)
	if !noread {
		w.spawn(func() { hs.reader(lr) })
	}
	if !noping {
		w.spawn(func() {
			for !w.closing && !hs.done {
				hsleep(w.I * 6 / 10)
				if w.closing || hs.done {
					return
				}
				hs.send([]pkt{{false, 2, []byte("hp")}}, newRng(2))
			}
		})
	}
}

func (hs *hsess) reader(r *rng) {
	p := hs.p
	w := p.w
	for !w.closing && hs.got < 400 {
		var ps []pkt
		if hs.ws != nil {
			m, err := hs.ws.read()
			if err != nil {
				hs.done = true
				return
			}
			ps = []pkt{m}
		} else {
			c := p.dial("r", r)
			if c == nil {
				return
			}
			c.SetDeadline(time.Now().Add(w.I + w.T))
			h := &httpConn{c, bufio.NewReader(c)}
			resp, err := h.do("GET", p.q(hs.mode, "polling", hs.sid, r), p.hdr(), nil, -1)
			c.Close()
			if err != nil || resp.status != 200 {
				hs.done = err == nil
				hs.got += 20
				hsleep(10 * time.Millisecond)
				if hs.done {
					return
				}
				continue
			}
			switch hs.mode {
			case 2:
				ps, _ = decodeText(resp.body, octets)
			case 3:
			default:
				ps, _ = decodeXHR2(resp.body)
			}
			hsleep(time.Millisecond)
		}
		for _, m := range ps {
			hs.got++
			if m.typ != 4 {
				continue
			}
			q, err := hs.dec.add(m)
			if err != nil || q == nil || q.id < 0 || r.oneIn(8) {
				continue
			}
			hs.send(p.answers(q, r), r)
		}
	}
}

// answers makes up replies to a request for acknowledgement.
func (p *hpeer) answers(q *sioPkt, r *rng) []pkt {
	var out []pkt
	for k := r.pick(1, 1, 2, 3); k > 0; k-- {
		a := &sioPkt{typ: sAck, nsp: q.nsp, id: q.id, args: p.args(r, 4)}
		switch r.intn(8) {
		case 0:
			a.typ = byte(r.pick(sEvent, sBinEvent, sError, sConnect))
		case 1:
			a.id = q.id + int64(r.intn(5)) - 2
			if a.id < 0 {
				a.id = 0
			}
		case 2:
			a.nsp = p.nsp(r)
		}
		ps := encodeSio(a, p.x.mp)
		if r.oneIn(3) {
			ps = p.mangle(ps, r)
		}
		out = append(out, ps...)
	}
	return out
}

// send sends engine.io packets on the session's transport.
func (hs *hsess) send(ps []pkt, r *rng) {
	p := hs.p
	if hs.ws != nil {
		if hs.ws.c.closed || p.w.closing {
			return
		}
		hs.ws.c.SetWriteDeadline(time.Now().Add(p.patience(r)))
		hs.ws.sendPkts(ps)
		return
	}
	c := p.dial("s", r)
	if c == nil {
		return
	}
	body, ct := encodeXHR2(ps), "application/octet-stream"
	if hs.mode != 1 {
		body, ct = encodeText(ps), "text/plain;charset=UTF-8"
	}
	h := &httpConn{c, bufio.NewReader(c)}
	h.do("POST", p.q(hs.mode, "polling", hs.sid, r), append(p.hdr(), [2]string{"Content-Type", ct}), body, -1)
	c.Close()
}

// ---- content ----

func (p *hpeer) nsp(r *rng) string {
	return r.pickS("/", "/", "/", "/a", "/a", "/b", "/q", "/x", "", "a", "/a?x=1", "/%2f", "//h", "/%zz", "/a/", "/\x00", "/a#b", "/é", ",", "/"+strings.Repeat("n", 300))
}

func (p *hpeer) value(r *rng, d int) interface{} {
	k := r.intn(12)
	if d <= 0 && k > 8 {
		k = r.intn(9)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.oneIn(2)
	case 2:
		return int64(r.intn(300))
	case 3:
		return int64(r.next()) >> r.intn(60)
	case 4:
		return float64(int64(r.next()>>40)) / 7
	case 5:
		return r.pickS("", "a", "true", "1", "2006-01-02T15:04:05Z", "\xff\xfe", "\u2028", weird)
	case 6:
		b := make([]byte, r.pick(0, 1, 5, 100))
		for i := range b {
			b[i] = byte(r.next())
		}
		return b
	case 7:
		return map[string]interface{}{"_placeholder": r.oneIn(4) == false, "num": p.value(r, 0)}
	case 8:
		return strings.Repeat("z", r.pick(10, 100, 2000))
	case 9:
		m := map[string]interface{}{}
		for i := r.intn(4); i > 0; i-- {
			m[r.pickS("a", "A", "B", "C", "D", "E", "", "num")] = p.value(r, d-1)
		}
		return m
	}
	l := []interface{}{}
	for i := r.intn(4); i > 0; i-- {
		l = append(l, p.value(r, d-1))
	}
	return l
}

func (p *hpeer) args(r *rng, max int) []interface{} {
	out := []interface{}{}
	for k := r.intn(max + 1); k > 0; k-- {
		out = append(out, p.value(r, 2))
	}
	return out
}

var hostileNames = []string{"s", "mix", "coll", "any", "b1", "b3", weird, "q0", "q1", "q2", "qb", "qx", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "t10", "t11", "t12", "t13", "t14", "t15", "t16", "t17", "t18", "t19", "nohandler", "connect", "disconnect", "error", ""}

// fit returns arguments that suit a handler, so that what follows the decoding is reached too.
func (p *hpeer) fit(name string, r *rng) []interface{} {
	bin := []byte("binary")
	switch name {
	case "t0":
		return []interface{}{[]interface{}{int64(1), int64(2)}}
	case "t1":
		return []interface{}{map[string]interface{}{"a": int64(1)}}
	case "t2":
		return []interface{}{[]interface{}{"a", "b"}}
	case "t3":
		return []interface{}{int64(4), "x"}
	case "t7":
		return []interface{}{[]interface{}{"a", "b"}}
	case "t9":
		return []interface{}{bin, bin}
	case "t10", "t14", "any":
		return []interface{}{"k", []interface{}{p.value(r, 3), p.value(r, 3)}}[r.intn(2):]
	case "b1", "qx":
		return []interface{}{"hk", bin}
	case "b3":
		return []interface{}{bin, "hk", bin, bin}
	case "t17":
		return []interface{}{p.value(r, 1), p.value(r, 1), p.value(r, 1), p.value(r, 1)}
	case "t19":
		if p.x.mp {
			return []interface{}{[]interface{}{bin, bin}, map[string]interface{}{"a": bin}}
		}
		return []interface{}{"YWJj", map[string]interface{}{"a": "b"}}
	}
	return []interface{}{"hk"}
}

// packets makes up what one socket.io packet looks like, more or less.
func (p *hpeer) packets(r *rng) []pkt {
	mp := p.x.mp
	if r.oneIn(12) {
		mp = !mp
	}
	q := &sioPkt{typ: byte(r.pick(sConnect, sDisconnect, sEvent, sEvent, sEvent, sEvent, sEvent, sAck, sAck, sError, sBinEvent, sBinAck)), nsp: p.nsp(r), id: -1}
	if r.oneIn(2) {
		q.id = int64(r.pick(0, 1, 2, 3, r.intn(40), 1<<31, math.MaxInt64))
	}
	switch q.typ {
	case sEvent, sBinEvent, sAck, sBinAck:
		if q.typ == sEvent || q.typ == sBinEvent || r.oneIn(4) {
			name := hostileNames[r.intn(len(hostileNames))]
			q.args = append(q.args, name)
			if r.oneIn(2) {
				q.args = append(q.args, p.fit(name, r)...)
			}
		}
		if len(q.args) < 2 || r.oneIn(5) {
			q.args = append(q.args, p.args(r, 5)...)
		}
	default:
		if r.oneIn(2) {
			q.data = p.value(r, 2)
			if b, ok := q.data.([]byte); ok {
				q.data = string(b)
			}
		}
	}
	ps := encodeSio(q, mp)
	if r.oneIn(2) {
		ps = p.mangle(ps, r)
	}
	return ps
}

// mangle damages packets.
func (p *hpeer) mangle(ps []pkt, r *rng) []pkt {
	ps = append([]pkt(nil), ps...)
	for k := r.pick(1, 1, 2, 3); k > 0; k-- {
		i := r.intn(len(ps))
		switch r.intn(10) {
		case 0: // a part is missing
			if len(ps) > 1 {
				ps = append(ps[:i], ps[i+1:]...)
			}
		case 1: // a part too many
			ps = append(ps, pkt{true, 4, make([]byte, r.intn(20))})
		case 2:
			j := r.intn(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
		case 3:
			ps[i].bin = !ps[i].bin
		case 4:
			ps[i].typ = byte(r.pick(0, 1, 2, 3, 4, 5, 6, 7, 9, 77))
		case 5:
			ps = append(ps, ps[i])
		default:
			ps[i].data = mutate(ps[i].data, r)
		}
	}
	return ps
}

var hotBytes = []byte("[]{}\",:-/0123456789\x00\xff\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc4\xc6\xc7\xc8\xc9\xca\xcb\xcf\xd0\xd3\xd4\xd8\xd9\xdb\xdc\xdd\xde\xdf\xe0\\ntu\t b;?&=%")

// mutate damages bytes.
func mutate(b []byte, r *rng) []byte {
	b = append([]byte(nil), b...)
	for k := r.pick(1, 1, 1, 2, 4); k > 0; k-- {
		n := len(b)
		at := r.intn(n + 1)
		switch r.intn(9) {
		case 0:
			if at < n {
				b[at] ^= 1 << r.intn(8)
			}
		case 1:
			b = b[:at]
		case 2:
			if at < n {
				b[at] = hotBytes[r.intn(len(hotBytes))]
			}
		case 3:
			e := at + r.intn(n-at+1)
			b = append(b[:at:at], b[e:]...)
		case 4:
			e := at + r.intn(n-at+1)
			b = append(b[:e:e], b[at:]...)
		case 5:
			ins := make([]byte, 1+r.intn(4))
			for i := range ins {
				ins[i] = hotBytes[r.intn(len(hotBytes))]
			}
			b = append(b[:at:at], append(ins, b[at:]...)...)
		case 6: // another number
			i := bytes.IndexAny(b, "0123456789")
			if i < 0 {
				break
			}
			j := i
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
			s := r.pickS("0", "-1", "00", "1", "2147483648", "4294967296", "9223372036854775808", "18446744073709551617", "99999999999999999999999999", "1e9", "1.5", "007")
			b = append(b[:i:i], append([]byte(s), b[j:]...)...)
		case 7: // msgpack sizes
			if at < n {
				ins := []byte{byte(r.pick(0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf)), byte(r.next()), 0xff, 0xff, 0xff}
				b = append(b[:at:at], append(ins[:1+r.intn(5)], b[at+r.intn(2):]...)...)
			}
		case 8:
			b = append(b, b[:at]...)
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
	}
	return b
}

func (p *hpeer) hugeNum(r *rng) string {
	return r.pickS("0", "1", "-1", "10", "65536", "1048576", "67108864", "999999999", "2147483637", "2147483638", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", strings.Repeat("9", 400), "00000000000000000000000005")
}

// post sends a bad payload.
func (p *hpeer) post(r *rng) {
	hs := p.sess(r)
	sid := "nosuch"
	mode := 1 + r.intn(3)
	if hs != nil && !r.oneIn(12) {
		sid = hs.sid
	}
	c := p.dial("p", r)
	if c == nil {
		return
	}
	defer c.Close()
	var ps []pkt
	for k := r.pick(1, 1, 2, 5); k > 0; k-- {
		ps = append(ps, p.packets(r)...)
	}
	if r.oneIn(6) {
		ps = append(ps, pkt{r.oneIn(2), byte(r.pick(0, 1, 2, 3, 5, 6, 7, 200)), []byte(r.pickS("", "probe", "x"))})
	}
	var body []byte
	ct := r.pickS("application/octet-stream", "text/plain;charset=UTF-8", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "text/plain; charset", ";;;", "", "application/octet-stream; a=b; a=b")
	if mode == 1 {
		body = encodeXHR2(ps)
		if !r.oneIn(4) {
			ct = "application/octet-stream"
		}
	} else {
		body = encodeText(ps)
		if !r.oneIn(4) {
			ct = "text/plain;charset=UTF-8"
		}
	}
	num := p.hugeNum(r)
	digits := func() (o []byte) {
		for _, d := range num {
			o = append(o, byte(d-'0'))
		}
		return
	}
	switch r.intn(12) {
	case 0, 1:
		body = mutate(body, r)
	case 2: // any length, then nothing, little or much
		tail := []byte(r.pickS("", "4", "4hello", "b4", "b4QUJD", "b4====", strings.Repeat("A", 5000)))
		if mode == 1 {
			body = append(append([]byte{byte(r.pick(0, 1, 2, 255))}, append(digits(), 0xff)...), tail...)
		} else {
			body = append([]byte(num+":"), tail...)
		}
	case 3:
		body = append(body, digits()...)
	case 4:
		body = append(body, []byte(num+":4x")...)
	case 5:
		body = nil
	case 6:
		body = bytes.Repeat([]byte(r.pickS("9", "\x09", "\xff", ":", "b", "\x00\xff", "1:b", "0:", "\x00\x00\xff", "1:6", "\x00\x01\xff6")), r.pick(1, 30, 2000))
	case 7:
		body = append([]byte("d="), body...)
	case 8:
		body = body[:r.intn(len(body)+1)]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST %s HTTP/1.1\r\nHost: sim\r\nX-Client: hx\r\n", p.q(mode, "polling", sid, r))
	if ct != "" {
		fmt.Fprintf(&b, "Content-Type: %s\r\n", ct)
	}
	if r.oneIn(12) {
		b.WriteString("Expect: 100-continue\r\n")
	}
	switch r.intn(10) {
	case 0: // promises more
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body)+1+r.intn(100))
		b.Write(body)
	case 1: // much more
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", int64(r.pick(1<<20, 1<<31, 1<<40, math.MaxInt64)))
		b.Write(body)
	case 2: // chunked
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for len(body) > 0 {
			n := 1 + r.intn(len(body))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		b.WriteString(r.pickS("0\r\n\r\n", "0\r\n\r\n", "zz\r\n", "", "ffffffffffffffff\r\nx", "7fffffff\r\nabc"))
	case 3: // less
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", r.intn(len(body)+1))
		b.Write(body)
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
	}
	p.exchange(c, b.Bytes(), r)
}

// exchange writes bytes and reads what comes back, in one of several manners.
func (p *hpeer) exchange(c *simConn, b []byte, r *rng) {
	switch r.intn(8) {
	case 0: // cut off
		c.Write(b[:r.intn(len(b)+1)])
		hsleep(time.Duration(r.intn(3000)) * time.Microsecond)
		switch r.intn(3) {
		case 0:
			c.l.Reset()
		case 1:
			c.l.up.fin, c.l.up.finAt = true, c.l.up.lastAt
			c.l.wakeAll()
			p.drain(c, 1<<16)
		}
		return
	case 1: // in pieces
		for len(b) > 0 {
			n := 1 + r.intn(len(b))
			if _, err := c.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
			hsleep(time.Duration(r.intn(2000)) * time.Microsecond)
		}
	case 2: // does not wait for the answer
		c.Write(b)
		return
	default:
		if _, err := c.Write(b); err != nil {
			return
		}
	}
	p.drain(c, 1<<16)
}

func (p *hpeer) drain(c *simConn, max int) {
	buf := make([]byte, 4096)
	for max > 0 && !p.w.closing {
		n, err := c.Read(buf)
		if err != nil {
			return
		}
		max -= n
	}
}

// raw sends strange requests.
func (p *hpeer) raw(r *rng) {
	c := p.dial("x", r)
	if c == nil {
		return
	}
	defer c.Close()
	sid := "nosuch"
	if hs := p.sess(r); hs != nil && r.oneIn(2) {
		sid = hs.sid
	}
	method := r.pickS("GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "BREW")
	path := r.pickS("/socket.io/", "/socket.io/", "/socket.io", "/", "/socket.io/../x", "*", "http://other/socket.io/")
	q := ""
	for k := r.intn(5); k > 0; k-- {
		q += "&" + r.pickS("EIO=3", "EIO=3", "EIO=4", "EIO=", "EIO=abc", "transport=polling", "transport=polling", "transport=websocket", "transport=flashsocket", "transport=", "sid="+sid, "sid="+sid, "sid=", "sid=nosuch", "j=1", "j=x", "j=", "b64=1", "b64=true", "t="+strings.Repeat("t", 2000), "%zz", "a;b")
	}
	if q != "" {
		q = "?" + q[1:]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s%s HTTP/%s\r\n", method, path, q, r.pickS("1.1", "1.1", "1.1", "1.0", "2.0", "x"))
	b.WriteString("Host: sim\r\nX-Client: hx\r\n")
	for k := r.intn(5); k > 0; k-- {
		b.WriteString(r.pickS("Upgrade: websocket", "Upgrade: websocket", "Connection: Upgrade", "Connection: Upgrade", "Connection: close", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Version: 99", "Sec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==", "Sec-WebSocket-Key: x", "Sec-WebSocket-Extensions: permessage-deflate", "Sec-WebSocket-Protocol: a, b", "Origin: http://evil.example", "Origin: :", "User-Agent: ;MSIE", "Accept-Encoding: gzip", "Content-Length: 5", "Content-Length: -1", "Transfer-Encoding: chunked", "X: "+strings.Repeat("h", 5000), "\x00: y", "Cookie: io="+sid) + "\r\n")
	}
	b.WriteString("\r\n")
	raw := b.Bytes()
	if r.oneIn(4) {
		raw = mutate(raw, r)
	}
	if r.oneIn(6) {
		raw = append(raw, raw...)
	}
	p.exchange(c, raw, r)
}

// rawFrames makes up websocket frames.
func (p *hpeer) rawFrames(r *rng) []byte {
	var out []byte
	frame := func(h byte, mask bool, claim uint64, enc int, data []byte) {
		out = append(out, h)
		m := byte(0)
		if mask {
			m = 0x80
		}
		switch enc {
		case 0:
			out = append(out, m|byte(claim&0x7f))
		case 1:
			out = append(out, m|126)
			out = binary.BigEndian.AppendUint16(out, uint16(claim))
		default:
			out = append(out, m|127)
			out = binary.BigEndian.AppendUint64(out, claim)
		}
		if mask {
			out = append(out, 0, 0, 0, 0)
		}
		out = append(out, data...)
	}
	content := func() []byte {
		ps := p.packets(r)
		q := ps[r.intn(len(ps))]
		_, d := encodeWS(q)
		if r.oneIn(3) {
			d = []byte(r.pickS("", "4", "2", "5", "6", "1", "0", "3", "9", "\xff", "4\xff\xfe", "2probe", "\x04", "44", "40", "b4QQ=="))
		}
		return d
	}
	size := func(n int) int {
		if n < 126 {
			return 0
		} else if n < 1<<16 {
			return 1
		}
		return 2
	}
	for k := r.pick(1, 2, 4); k > 0; k-- {
		d := content()
		op := byte(r.pick(1, 1, 2, 2, 0, 8, 9, 10, r.intn(16)))
		h := op
		if !r.oneIn(4) {
			h |= 0x80
		}
		if r.oneIn(10) {
			h |= byte(r.pick(0x40, 0x20, 0x10, 0x70))
		}
		switch r.intn(10) {
		case 0: // claims something else
			frame(h, true, uint64(r.pick(0, 1, 125, 126, 65536, 1<<24, 1<<31, 1<<32, 1<<40))|uint64(r.intn(2))<<63, r.pick(0, 1, 2, 2), d)
		case 1: // no mask
			frame(h, false, uint64(len(d)), size(len(d)), d)
		case 2: // length in a longer form than needed
			frame(h, true, uint64(len(d)), 2, d)
		case 3: // close
			frame(0x88, true, uint64(len(d)%126), 0, d[:len(d)%126])
		case 4: // close with a code
			frame(0x88, true, 2, 0, []byte{byte(r.intn(256)), byte(r.intn(256))})
		case 5: // pings and pongs
			for j := r.pick(1, 10, 60); j > 0; j-- {
				frame(byte(r.pick(0x89, 0x8a)), true, 3, 0, []byte("abc"))
			}
		case 6: // many little fragments
			frame(1, true, 1, 0, []byte("4"))
			for j := r.pick(3, 50, 200); j > 0; j-- {
				frame(0, true, 1, 0, []byte("2"))
			}
			if r.oneIn(2) {
				frame(0x80, true, 0, 0, nil)
			}
		default:
			frame(h, true, uint64(len(d)), size(len(d)), d)
		}
	}
	if r.oneIn(4) {
		out = mutate(out, r)
	}
	return out
}

func (p *hpeer) frames(r *rng) {
	hs := p.sess(r)
	if hs != nil && hs.ws != nil && r.oneIn(2) {
		hs.ws.c.SetWriteDeadline(time.Now().Add(p.patience(r)))
		hs.ws.c.Write(p.rawFrames(r))
		return
	}
	c := p.dial("f", r)
	if c == nil {
		return
	}
	sid := ""
	if hs != nil && r.oneIn(3) {
		sid = hs.sid
	}
	ws, _, err := wsHandshake(c, r, p.q(0, "websocket", sid, r), p.hdr())
	if err != nil {
		return
	}
	p.exchange(ws.c, p.rawFrames(r), r)
	p.finish(c, r)
}

func (p *hpeer) finish(c *simConn, r *rng) {
	switch r.intn(5) {
	case 0:
		c.l.Reset()
	case 1:
		c.l.Vanish()
	case 2: // stays
	default:
		c.Close()
	}
}

// upgrades abuses the upgrade procedure.
func (p *hpeer) upgrades(r *rng) {
	hs := p.sess(r)
	if hs == nil {
		return
	}
	for k := r.pick(1, 1, 2, 4); k > 0; k-- {
		rr := newRng(r.next())
		p.w.spawn(func() {
			c := p.dial("u", rr)
			if c == nil {
				return
			}
			ws, _, err := wsHandshake(c, rr, p.q(0, "websocket", hs.sid, rr), p.hdr())
			if err != nil {
				return
			}
			for n := rr.intn(6); n > 0; n-- {
				switch rr.intn(9) {
				case 0, 1, 2:
					ws.sendPkts([]pkt{{false, 2, []byte("probe")}})
				case 3, 4:
					ws.sendPkts([]pkt{{false, 5, nil}})
				case 5:
					ws.sendPkts(p.packets(rr))
				case 6:
					ws.readTimeout(p.patience(rr))
				case 7:
					c.Write(p.rawFrames(rr))
				case 8:
					ws.sendPkts([]pkt{{rr.oneIn(2), byte(rr.pick(0, 1, 3, 5, 6, 9)), []byte(rr.pickS("", "probe", "x"))}})
				}
				if rr.oneIn(2) {
					hsleep(time.Duration(rr.intn(5000)) * time.Microsecond)
				}
			}
			if rr.oneIn(3) {
				c.SetDeadline(time.Time{})
				p.drain(c, 1<<16)
			}
			p.finish(c, rr)
		})
		if r.oneIn(2) {
			hsleep(time.Duration(r.intn(3000)) * time.Microsecond)
		}
	}
}

// polls sends concurrent and aborted polls.
func (p *hpeer) polls(r *rng) {
	hs := p.sess(r)
	if hs == nil {
		return
	}
	for k := r.pick(1, 2, 5); k > 0; k-- {
		rr := newRng(r.next())
		p.w.spawn(func() {
			c := p.dial("g", rr)
			if c == nil {
				return
			}
			m := hs.mode
			if rr.oneIn(4) {
				m = 1 + rr.intn(3)
			}
			var b bytes.Buffer
			fmt.Fprintf(&b, "GET %s HTTP/1.1\r\nHost: sim\r\nX-Client: hx\r\n\r\n", p.q(m, "polling", hs.sid, rr))
			p.exchange(c, b.Bytes(), rr)
			p.finish(c, rr)
		})
	}
}

// deep sends nested, long or numerous things.
func (p *hpeer) deep(r *rng) {
	hs := p.sess(r)
	if hs == nil {
		return
	}
	n := r.pick(200, 9990, 10010, 60000, 400000)
	old := p.prof
	p.prof.Frag, p.prof.Seg, p.prof.Window = 0, 0, 0
	defer func() { p.prof = old }()
	if hs.ws != nil && (hs.ws.c.l.prof.Frag > 0 || hs.ws.c.l.prof.Seg > 0) && n > 2000 {
		n = 2000
	}
	rep := strings.Repeat
	name := r.pickS("t14", "any", "t10", "t17", "t6", "t12", "t0", "t8", "nohandler")
	var ps []pkt
	if p.x.mp && !r.oneIn(4) {
		open := r.pickS("\x91", "\x81\xa1a", "\xdd\x00\x00\x00\x01", "\x92\xc0", "\xdf\x00\x00\x00\x01\xa1a")
		body := rep(open, n) + "\xc0"
		switch r.intn(4) {
		case 0: // as the packet itself
		case 1: // a field nobody asked for
			body = "\x84\xa4type\x02\xa1x" + body + "\xa3nsp\xa1/\xa4data\x91\xa1s"
		case 2: // acknowledgement
			body = "\x84\xa4type\x03\xa2id\x01\xa3nsp\xa1/\xa4data\x91" + body
		default:
			body = "\x84\xa4type\x02\xa2id\x01\xa3nsp\xa1/\xa4data\x92" + string(mpAppend(nil, name)) + body
		}
		ps = []pkt{{true, 4, []byte(body)}}
	} else {
		open, end := "[", "]"
		if r.oneIn(2) {
			open, end = `{"D":`, "}"
		}
		if r.oneIn(3) {
			end = ""
		}
		v := rep(open, n) + "1" + rep(end, n)
		switch r.intn(8) {
		case 0:
			v = rep("1", n)
		case 1:
			v = `"` + rep("q", n) + `"`
		case 2:
			v = "1e" + rep("9", n%5000)
		case 3:
			k := n % 3000
			ps = []pkt{{false, 4, []byte("5" + strconv.Itoa(k) + `-["b3"` + rep(`,{"_placeholder":true,"num":0}`, k) + "]")}}
			for i := 0; i < k && i < 600; i++ {
				ps = append(ps, pkt{true, 4, []byte{1}})
			}
		case 4:
			v = rep(" ", n) + "1"
		case 5:
			v = rep(`{"_placeholder":true,"num":`, n%2000) + "1"
		}
		if ps == nil {
			s := "2"
			switch r.intn(5) {
			case 0:
				s = "4" + v // error packet
			case 1:
				s = "31[" + v + "]"
			case 2:
				s = "2/" + v
			default:
				s = `27["` + name + `",` + v + "]"
			}
			ps = []pkt{{false, 4, []byte(s)}}
		}
	}
	hs.send(ps, r)
}

// slow begins things it does not end.
func (p *hpeer) slow(r *rng) {
	c := p.dial("l", r)
	if c == nil {
		return
	}
	c.SetDeadline(time.Time{})
	sid := ""
	if hs := p.sess(r); hs != nil && r.oneIn(2) {
		sid = hs.sid
	}
	switch r.intn(4) {
	case 0:
		c.Write([]byte("GET " + p.q(1, "polling", sid, r) + " HTTP/1.1\r\nHost: s"))
	case 1:
		fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: sim\r\nX-Client: hx\r\nContent-Type: text/plain;charset=UTF-8\r\nContent-Length: 100\r\n\r\n%s", p.q(2, "polling", sid, r), r.pickS("", "6", "6:4", "6:4hello1", "96:4"))
	case 2:
		if ws, _, err := wsHandshake(c, r, p.q(0, "websocket", sid, r), p.hdr()); err == nil {
			ws.c.Write([]byte{0x81, 0xfe, 0x10, 0x00, 1, 2, 3, 4, '4'})
		}
	case 3:
		if ws, _, err := wsHandshake(c, r, p.q(0, "websocket", sid, r), p.hdr()); err == nil {
			f := ws.frame(1, false, []byte("4"))
			for k := 0; k < 20 && !p.w.closing; k++ {
				if _, err := c.Write(f); err != nil {
					return
				}
				f = ws.frame(0, false, []byte("x"))
				hsleep(p.w.T / 3)
			}
		}
	}
}

// leave ends sessions in one of several ways, and may go on all the same.
func (p *hpeer) leave(r *rng) {
	hs := p.sess(r)
	if hs == nil {
		return
	}
	switch r.intn(5) {
	case 0:
		hs.send([]pkt{{r.oneIn(8), 1, nil}}, r)
		if r.oneIn(2) {
			hs.send(p.packets(r), r)
		}
	case 1:
		if hs.ws != nil {
			hs.ws.c.l.Reset()
		}
	case 2:
		if hs.ws != nil {
			hs.ws.c.l.Vanish()
		}
	case 3:
		if hs.ws != nil {
			hs.ws.c.Close()
		}
	case 4:
		hs.send([]pkt{{false, 4, []byte("1")}, {false, 1, nil}, {false, 1, nil}, {false, 4, []byte("0")}}, r)
	}
}

// ---- the end ----

func (x *sx) hostileLeave() {
	for i := 0; i < 16; i++ {
		p := x.hx.peers[i]
		if p == nil {
			continue
		}
		for _, c := range p.conns {
			if c.closed {
				continue
			}
			switch {
			case p.tail == "vanish" && c.l.switched:
				c.l.Vanish()
			case p.tail == "reset":
				c.l.Reset()
				c.Close()
			default:
				c.Close()
			}
			c.SetDeadline(time.Now().Add(time.Millisecond))
		}
	}
}

func (x *sx) hostileAfter() {
	w := x.w
	for _, h := range x.hx.order {
		for _, ns := range sortedKeys(h.conn) {
			if h.conn[ns] > 0 {
				w.violate("C08", "not-released", "a hostile session is still connected to %s more than ping interval + 13 ping timeouts after the peer went away", ns)
			}
		}
	}
	for _, c := range x.hx.calls {
		if c.end < 0 {
			w.violate("C08", "emit-stuck", "%s on a hostile session has still not returned %s after it was called", c.what, ms(w.now()-c.t0))
		}
	}
	for i := 0; i < 16; i++ {
		p := x.hx.peers[i]
		if p == nil {
			continue
		}
		for _, c := range p.conns {
			if c.l.switched && !c.l.srvGone {
				w.violate("C08", "conn-open", "the server still holds a hostile websocket connection (%s) more than ping interval + 13 ping timeouts after the peer went away (%s)", c.l.label, p.tail)
			}
		}
		for _, hs := range p.ss {
			c, err := w.net.dial("10.0.0.1:80", fmt.Sprintf("h%d/z", p.i), netProfile{LatUs: 100})
			if err != nil {
				continue
			}
			c.SetDeadline(time.Now().Add(time.Second))
			h := &httpConn{c, bufio.NewReader(c)}
			st := 0
			if resp, err := h.do("GET", p.q(1, "polling", hs.sid, newRng(1)), p.hdr(), nil, -1); err == nil {
				st = resp.status
			}
			c.Close()
			if st != 400 {
				w.violate("C08", "sid-alive", "the id of a hostile session is answered with status %d more than ping interval + 13 ping timeouts after the peer went away", st)
			}
		}
	}
	if x.hx.ran > 0 {
		w.probe("hostile-handlers")
	}
}

// ---- generation ----

func genHostile(g *gen) {
	genSio(g)
	r, p := g.r, g.p
	np := r.pick(1, 1, 2, 3)
	for i := 0; i < np; i++ {
		na := r.pick(1, 2, 3)
		for k := 0; k < na; k++ {
			a := fmt.Sprintf("h%d.%d", i, k)
			if k == 0 {
				g.op(a, r.pick(0, r.intn(300), r.intn(4000)), "hopen", i, int(r.next()>>34), r.pick(0, 0, 1, 1, 2, 3))
			}
			for n := 2 + r.intn(7); n > 0; n-- {
				kind := r.pickS("hmsg", "hmsg", "hmsg", "hmsg", "hflood", "hpost", "hpost", "hraw", "hframe", "hframe", "hupg", "hupg", "hpoll", "hslow", "hclose", "hopen", "hemit", "hemit")
				if r.oneIn(25) {
					kind = "hdeep"
				}
				g.op(a, g.at(), kind, i, int(r.next()>>34), r.pick(0, 0, 1, 1, 2, 3))
			}
			g.sortActor(a)
		}
	}
	if p.Settle == 0 {
		p.Settle = p.Interval + 15*p.Timeout + 4000 + p.Cfg["sleep"]
	}
}
