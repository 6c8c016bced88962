package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// Errors (C16): what cannot be processed is reported, once and where it belongs, and has no other effect.

// serr is an error the application emitted with EmitError.
type serr struct {
	c          int
	gs         *gosess
	ns, want   string
	start, end int
	t0, t1     int64
	ok         bool
	got        []int
	gotT       int64
}

// errCanon renders what an error callback was given.
func errCanon(err []interface{}) string {
	var s []string
	for _, e := range err {
		if _, ok := e.(error); ok {
			s = append(s, "an error")
		} else {
			s = append(s, canon(e))
		}
	}
	return strings.Join(s, ", ")
}

// errData is what error packet n carries.
func errData(n int, ascii bool) interface{} {
	u := "ß日"
	if ascii {
		u = "ss"
	}
	switch n % 6 {
	case 0:
		return map[string]interface{}{"code": n, "message": fmt.Sprintf(`E:%d "quoted" %s`, n, u)}
	case 1:
		return []interface{}{fmt.Sprintf("E:%d", n), n, nil, true}
	case 2:
		return map[string]interface{}{}
	case 3:
		return ""
	}
	return fmt.Sprintf("E:%d", n)
}

// emitErr emits an error packet.
func (x *sx) emitErr(c int, gs *gosess, ns, where string, do func(interface{}) error) {
	w := x.w
	w.msgSeq++
	n := 6*w.msgSeq + []int{0, 1, 4}[w.msgSeq%3]
	d := errData(n, x.ascii(c))
	e := &serr{c: c, gs: gs, ns: ns, want: canon(d), end: -1}
	x.serrs = append(x.serrs, e)
	cr := w.track("emit", c, where, 0, func() error {
		e.start = w.log(Ev{K: "emit-error", C: c, S: ns + " " + e.want})
		e.t0 = w.now()
		return do(d)
	})
	e.end, e.t1, e.ok = cr.end, cr.t1, cr.err == nil
}

// gotErr matches an error packet with what was emitted. It returns nil if it is not one of these.
func (x *sx) gotErr(c int, gs *gosess, ns string, data interface{}, seq int, who string) *serr {
	w := x.w
	d := canon(data)
	for _, e := range x.serrs {
		if e.c == c && e.gs == gs && e.want == d {
			if e.ns != ns {
				w.violate("C16", "error-namespace", "%s got the error %s on %s, it was emitted on %s", who, d, ns, e.ns)
			}
			e.got = append(e.got, seq)
			e.gotT = w.now()
			if len(e.got) > 1 {
				w.violate("C16", "error-dup", "%s got the error %s twice", who, d)
			}
			return e
		}
	}
	return nil
}

// badMsg makes messages that cannot be processed. to tells where that has to be reported: "*" for what
// is no packet, "ns" for what is a packet of the namespace, "" for nowhere; want is what the error
// callback is given.
func (x *sx) badMsg(r *rng, ascii bool, ns, key string, id int64, n int) (ps []pkt, to, want, desc string) {
	want = "an error"
	js := string(jsonJS(key))
	u := "é"
	if ascii {
		u = "e"
	}
	text := func(s string) { ps = append(ps, pkt{false, 4, []byte(s)}) }
	if r.oneIn(4) { // error packets of the peer
		to = "ns"
		p := &sioPkt{typ: sError, nsp: ns, id: -1}
		if !r.oneIn(5) {
			p.data = errData(r.intn(1<<20), ascii)
		}
		var v interface{}
		if p.data != nil {
			json.Unmarshal(jsonJS(p.data), &v)
		}
		want = errCanon([]interface{}{v})
		if r.oneIn(12) && !x.mp { // not JSON
			pfx := ""
			if ns != "/" {
				pfx = ns + ","
			}
			text("4" + pfx + r.pickS("{", "x", `"abc`, "[1,", "nul"))
			return ps, "*", "an error", "error packet with broken data"
		}
		return encodeSio(p, x.mp), to, want, "error packet"
	}
	if x.mp {
		return x.badMsgMp(r, ns, key, id)
	}
	pfx := ""
	if ns != "/" {
		pfx = ns + ","
	}
	sid := ""
	if id >= 0 {
		sid = fmt.Sprint(id)
	}
	ph := `{"_placeholder":true,"num":0}`
	switch r.intn(17) {
	case 0:
		text(r.pickS("7", "9", "x", "{}", "hello", "[]", "", u, "\x00", "/") + r.pickS("", `["s",`+js+`]`))
		if s := string(ps[0].data); s == "" || s[0] < '0' || s[0] > '6' {
			return ps, "*", want, "text that is no packet"
		}
		return
	case 1:
		text("2" + pfx + sid + r.pickS(`{"s":`+js+`}`, js, "x", " ", "nul"))
		return ps, "*", want, "event that is no list"
	case 2:
		text(r.pickS(`52-`+pfx+sid+`["b1",`+js+`,`+ph+`]`, `51-`+pfx+sid+`["s",`+js+`]`, `5`+pfx+`["b1",`+js+`,`+ph+`]`, `5x-`+pfx+`["b1",`+js+`,`+ph+`]`, `50-`+pfx+sid+`["b1",`+js+`,`+ph+`]`))
		return ps, "*", want, "binary event with a wrong number of attachments"
	case 3:
		ps = append(ps, pkt{true, 4, []byte(`2["s",` + js + `]`)})
		return ps, "*", want, "attachment of no packet"
	case 4:
		text(r.pickS("0", "1", "1", "4") + pfx + r.pickS("{bad", "[", "tru", `"x`))
		return ps, "*", want, "control packet with broken data"
	case 5:
		text(`2/%zz,["s",` + js + `]`)
		return ps, "*", want, "event on a namespace that is none"
	case 6:
		if r.oneIn(3) {
			text(r.pickS("2", "3") + pfx + r.pickS("18446744073709551616", "18446744073709551617", "18446744073709551619", "99999999999999999999", "36893488147419103233") + r.pickS(`["s",`+js+`]`, `["q1",`+js+`]`))
			return ps, "*", want, "packet with an id beyond 64 bits"
		}
		text(r.pickS("3", "61-") + pfx + "1" + r.pickS(js, "{}", "x"))
		return ps, "*", want, "acknowledgement that is no list"
	case 7, 8:
		v := r.pickS(`"x"`, `{}`, `[1]`, `true`, `1.5`)
		text("2" + pfx + sid + r.pickS(
			`["mix",`+js+`,`+v+`,1.5,true]`, `["mix",`+js+`,1,[],true]`, `["mix",`+js+`,1,1.5,"t"]`, `["s",[`+js+`]]`, `["s",{"k":`+js+`}]`,
			`["coll",`+js+`,{},{}]`, `["coll",`+js+`,["x",1],{}]`, `["q1",5]`, `["q1",[`+js+`]]`, `["q2",{"a":`+js+`}]`,
			`["num",`+js+`,1,256,1,1,1,1]`, `["num",`+js+`,1,-1,1,1,1,1]`, `["fix",`+js+`,["a",5],"p",[]]`))
		return ps, "ns", want, "event with an argument of the wrong type"
	case 9:
		text("51-" + pfx + sid + r.pickS(`["s",`+ph+`,[`+js+`]]`, `["q2",[`+js+`],`+ph+`]`, `["b1",{"k":`+js+`},`+ph+`]`))
		ps = append(ps, pkt{true, 4, []byte("abc")})
		return ps, "ns", want, "binary event with an argument of the wrong type"
	case 10, 11:
		text("2" + pfx + sid + r.pickS(`["s",`+js, `["s",`+js+`,]`, `["s",`+js+`}`, `["s",`+js+`]]`, `["q1",`+js+`] x`))
		return ps, "ns", want, "event whose list is broken"
	case 12, 13:
		text("2" + pfx + sid + r.pickS(`[5,`+js+`]`, `[]`, `[{"a":1},`+js+`]`, `["",`+js+`]`, `[null,"s",`+js+`]`, `[["s",`+js+`]]`, `["s`, `["\x",`+js+`]`))
		return ps, "ns", want, "event without a name"
	case 14:
		if ns != "/" {
			pfx = strings.TrimSuffix(pfx, r.pickS(",", ""))
		}
		if strings.HasSuffix(pfx, ",") || pfx == "" {
			pfx += sid
		}
		text("2" + pfx)
		return ps, "ns", want, "event without data"
	case 15:
		text("3" + pfx + fmt.Sprint(1<<41+r.intn(100)))
		return ps, "ns", want, "acknowledgement without data"
	default: // given up for the next packet
		text(`53-` + pfx + sid + `["b3",` + ph + `,` + js + `,` + ph + `,` + ph + `]`)
		for k := r.intn(3); k > 0; k-- {
			ps = append(ps, pkt{true, 4, []byte("abc")})
		}
		return ps, "", want, "binary event given up"
	}
}

func (x *sx) badMsgMp(r *rng, ns, key string, id int64) (ps []pkt, to, want, desc string) {
	want = "an error"
	bin := func(b []byte) { ps = append(ps, pkt{true, 4, b}) }
	packet := func(typ int64, data []byte, id int64) []byte {
		n := byte(2)
		if data != nil {
			n++
		}
		if id >= 0 {
			n++
		}
		b := []byte{0x80 | n}
		b = mpAppend(mpAppend(b, "type"), typ)
		if data != nil {
			b = append(mpAppend(b, "data"), data...)
		}
		b = mpAppend(mpAppend(b, "nsp"), ns)
		if id >= 0 {
			b = mpAppend(mpAppend(b, "id"), id)
		}
		return b
	}
	list := func(v ...interface{}) []byte { return mpAppend(nil, v) }
	good := packet(2, list("s", key), id)
	switch r.intn(12) {
	case 0:
		t := r.pickS("", "{", "hello", "2"+`["s","x"]`, `["s"]`, `"x"`, `{"type":"x"}`, `{"type":300,"nsp":"/a"}`, `{"type":0,"nsp":5}`, `{"type":4,"nsp":"/","data":`)
		return []pkt{{false, 4, []byte(t)}}, "*", want, "text that is no packet"
	case 1:
		bin([]byte(r.pickS("", "\xc1", "\xc1\x00\x01", "\x05", "\xa3abc", "\x93\x01\x02\x03", "\xff", "hello")))
		return ps, "*", want, "binary message that is no packet"
	case 2, 3:
		bin(good[:1+r.intn(len(good)-1)])
		return ps, "*", want, "packet cut short"
	case 4: // no packet can be nested that deeply
		b := []byte{}
		for i := 0; i < 20000; i++ {
			b = append(b, 0x91)
		}
		bin(packet(2, append(b, 0xc0), id))
		return ps, "*", want, "packet nested too deeply"
	case 5, 6:
		bin(packet(2, [][]byte{
			list("mix", key, "x", 1.5, true), list("mix", key, int64(1), "x", true), list("mix", key, int64(1), 1.5, nil), list("s", int64(5)), list("s", []interface{}{key}),
			list("coll", key, "x", map[string]interface{}{}), list("coll", key, []interface{}{"a", int64(5)}, map[string]interface{}{}), list("coll", key, []interface{}{}, []interface{}{}),
			list("q1", int64(5)), list("q2", []interface{}{key}), list("num", key, int64(1), int64(256), int64(1), int64(1), 1.5, int64(1)), list("b1", key, []interface{}{}), list("fix", key, []interface{}{"a", "b", "c", "d"}, "p", []interface{}{}),
		}[r.intn(13)], id))
		return ps, "ns", want, "event with an argument of the wrong type"
	case 7:
		bin(packet(2, [][]byte{list("q1"), list("s"), list("mix", key), list("mix", key, int64(1), 1.5), list("b1", key)}[r.intn(5)], id))
		return ps, "ns", want, "event with too few arguments"
	case 8:
		bin(packet(2, [][]byte{mpAppend(nil, "s"), mpAppend(nil, map[string]interface{}{"s": key}), mpAppend(nil, nil), mpAppend(nil, int64(5))}[r.intn(4)], id))
		return ps, "ns", want, "event that is no list"
	case 9:
		bin(packet(2, [][]byte{list(int64(5), key), list(), list(nil, key), list([]interface{}{"s", key}), list([]byte("s"), key)}[r.intn(5)], id))
		return ps, "ns", want, "event without a name"
	case 10:
		if r.oneIn(2) {
			bin(packet(2, nil, id))
			return ps, "ns", want, "event without data"
		}
		bin(packet(3, [][]byte{nil, mpAppend(nil, "x")}[r.intn(2)], int64(1<<41+r.intn(100))))
		return ps, "ns", want, "acknowledgement without data"
	default:
		if r.oneIn(2) {
			t := jsonJS(map[string]interface{}{"type": 2, "nsp": ns, "data": []interface{}{"s", key}})
			return []pkt{{false, 4, t}}, "ns", want, "event as text"
		}
		bin(packet(int64(7+r.intn(120)), list("s", key), id))
		return ps, "ns", want, "packet of no type"
	}
}

// serverError is the callback of Server.OnError.
func (x *sx) serverError(err error) {
	w := x.w
	seq := w.log(Ev{K: "server-error", S: fmt.Sprint(err)})
	if w.plan.Kind == "hostile" {
		return
	}
	x.srvErrs = append(x.srvErrs, seq)
	if err == nil {
		w.violate("C16", "nil-error", "the server's error callback was called without an error")
	}
	if len(w.plan.Clients) != 1 || w.gx != nil {
		return
	}
	if s := w.sessOf(0); s == nil {
		x.early = append(x.early, &scb{kind: "error", ns: "*", key: fmt.Sprint(err), args: errCanon([]interface{}{err}), seq: seq, end: seq, t: w.now()})
	} else {
		cb := &scb{kind: "error", ns: "*", key: fmt.Sprint(err), args: errCanon([]interface{}{err})}
		x.enter(s, cb)
		x.run(s, "/", w.cbCmds("onerr", s.c), "error")
		x.leave(s, cb)
	}
}

// clientError is the callback of Client.OnError.
func (gx *gx) clientError(g *gclient, err interface{}) {
	w := gx.x.w
	w.log(Ev{K: "client-error", C: g.i, S: fmt.Sprint(err)})
	if err == nil {
		w.violate("C16", "nil-error", "Go client %d: its error callback was called without an error", g.i)
	}
	if g.cur == nil {
		return
	}
	cb := &scb{kind: "error", ns: "*", key: fmt.Sprintf("%.80v", err), args: errCanon([]interface{}{err})}
	gx.enter(g, g.cur, cb)
	gx.run(g, g.cur, "/", w.cbCmds("gonerr", g.i), "error")
	gx.leave(g, cb)
}

// reported tells whether errors of that kind have a callback.
func (x *sx) reported(to, ns string) bool {
	switch to {
	case "*":
		return x.w.plan.cfg("nosrverr") == 0
	case "ns":
		return x.w.plan.cfg("nonserr") == 0 && !x.quiet[ns]
	}
	return false
}

// sendBad makes a client send something that cannot be processed, followed by an event that can.
func (x *sx) sendBad(sc *sclient, o *Op) {
	c := sc.c
	for n := o.n(0); n > 0 && !c.over; n-- {
		key, _ := x.w.payload("m", c.i, 0, o.n(1), "")
		id := int64(-1)
		if c.r.oneIn(2) {
			id = sc.req
			sc.req += int64(1 + c.r.intn(2))
		}
		ps, to, want, desc := x.badMsg(c.r, x.ascii(c.i), o.S, key, id, x.w.msgSeq)
		a := &act{kind: "bad", ns: o.S, name: desc, key: key, id: id, to: to, want: want}
		as := []*act{a}
		if desc == "error packet" {
			a.id = -1
		}
		if to == "" || c.r.oneIn(3) {
			kd := evKinds[c.r.intn(len(evKinds))]
			ack := false
			if c.r.oneIn(2) {
				kd, ack = 10+c.r.intn(5), true
			}
			b, p := x.evAct(sc, o.S, kd, o.n(1), ack, "")
			as = append(as, b)
			ps = append(ps, encodeSio(p, x.mp)...)
		}
		x.w.probe("bad:" + desc)
		if !x.sendRaw(sc, as, ps) {
			return
		}
	}
}

// errors checks what one client's errors led to, together with everything else it did.
func (v *verdict) sioErrors(c *eclient) {
	w := v.w
	x := w.sx
	s := v.sess(c)
	acts := x.acts[c.i]
	if s == nil || !c.opened {
		return
	}
	alive := v.sioAlive(c)
	for _, a := range acts {
		if a.end >= 0 && !a.ok {
			return
		}
	}
	margin := v.lat(c) + v.sleep(c) + v.upWait(c)
	one := len(w.plan.Clients) == 1
	member := map[string]bool{}
	bad := func(before *act) string {
		why := ""
		for _, a := range acts {
			if a == before {
				break
			}
			if a.kind == "bad" || a.kind == "err" {
				why = a.name
				if a.kind == "err" {
					why = "error packet"
				}
			}
		}
		return why
	}
	i := 0
	var real []*scb
	for _, cb := range x.cbs[c.i] {
		if alive || cb.args != "an error" { // might be an answer that could not be sent
			real = append(real, cb)
		}
	}
	what := func(cb *scb) string {
		if cb.kind == "error" {
			return fmt.Sprintf("an error callback of %s with %s", cb.ns, cb.key)
		}
		return cb.String()
	}
	es := x.modelAll(c.i, true)
	for _, e := range es {
		if e.kind == "error" && e.opt { // hard to tell from the others
			return
		}
	}
	for _, e := range es {
		if e.kind == "error" && (e.ns == "*" && !one || !alive && e.a.want == "an error") {
			continue
		}
		if i < len(real) && e.matches(real[i]) {
			cb := real[i]
			switch e.kind {
			case "connect":
				member[e.ns] = true
			case "disconnect":
				delete(member, e.ns)
			case "error":
				if cb.args != e.a.want {
					w.violate("C16", "wrong-error", "client %d: the error callback of %s got %.150s for the %s, that is %.150s", c.i, cb.ns, cb.args, e.a.what(), e.a.want)
				}
			}
			if e.a != nil && alive && cb.seq < w.endSeq && cb.t-e.a.t0 > margin && (e.kind == "error" || bad(e.a) != "") {
				w.violate("C16", "late", "client %d: %s ran %s after it was sent", c.i, what(cb), ms(cb.t-e.a.t0))
			}
			i++
			continue
		}
		if e.opt {
			continue
		}
		if i < len(real) && !(real[i].kind == "disconnect" && (member[real[i].ns] || s.closes > 0)) {
			switch {
			case real[i].kind == "error":
				w.violate("C16", "spurious", "client %d: %s, where what the client sent calls for %s", c.i, what(real[i]), e.what())
			case e.kind == "error":
				w.violate("C16", "unreported", "client %d: the %s was not reported to %s; %s came next", c.i, e.a.what(), e.ns, real[i])
			case bad(e.a) != "":
				w.violate("C16", "not-contained", "client %d: after the %s, %s happened where what the client sent calls for %s", c.i, bad(e.a), real[i], e)
			}
			return
		}
		if alive && e.a != nil && e.a.end >= 0 && w.endT-e.a.t1 > margin {
			if e.kind == "error" {
				w.violate("C16", "unreported", "client %d: the %s was not reported to %s", c.i, e.a.what(), e.ns)
			} else if b := bad(e.a); b != "" {
				w.violate("C16", "not-contained", "client %d: %s did not happen on a live session, after the %s", c.i, e, b)
			}
		}
		return
	}
	for ; i < len(real); i++ {
		if real[i].kind == "error" && alive && real[i].seq < w.endSeq {
			w.violate("C16", "spurious", "client %d: %s, which nothing the client sent calls for", c.i, what(real[i]))
			return
		}
	}
}

func (a *act) what() string {
	if a.kind == "err" {
		return "error packet"
	}
	if a.kind == "ack" {
		return "acknowledgement with the wrong values"
	}
	return a.name
}

func (e exp) what() string {
	if e.kind == "error" {
		return fmt.Sprintf("the %s to be reported to %s", e.a.what(), e.ns)
	}
	return e.String()
}

// errors16 holds what does not depend on one client.
func (v *verdict) errors16() {
	w := v.w
	x := w.sx
	if x == nil || w.plan.Kind == "hostile" {
		return
	}
	// what is no packet: all clients together
	if w.gx == nil && w.plan.cfg("nosrverr") == 0 {
		most, least, clean := 0, 0, true
		for _, c := range w.cl {
			alive := v.sioAlive(c)
			for _, a := range x.acts[c.i] {
				if a.kind == "bad" && a.to == "*" {
					most++
					if alive && a.ok && w.endT-a.t1 > v.lat(c)+v.sleep(c)+v.upWait(c) {
						least++
					}
				}
			}
			if len(x.acts[c.i]) > 0 && !alive {
				clean = false
			}
		}
		n := 0
		for _, q := range x.srvErrs {
			if q < w.endSeq {
				n++
			}
		}
		if n > most && clean {
			w.violate("C16", "spurious", "%d errors were reported to Server.OnError; the clients sent %d messages that are no packets", n, most)
		}
		if n < least {
			w.violate("C16", "unreported", "%d errors were reported to Server.OnError; the clients sent %d messages that are no packets", n, least)
		}
	}
	// emitted errors arrive
	for _, e := range x.serrs {
		if !e.ok || e.end < 0 {
			continue
		}
		c := w.client(e.c)
		if c == nil || len(e.got) > 0 || w.gx != nil && w.plan.cfg("nonserr") > 0 {
			continue
		}
		var ok bool
		margin := v.lat(c) + v.sleep(c) + v.upWait(c)
		if e.gs != nil {
			if g := w.gx.cl[e.c]; g != nil {
				ok = v.gunclean(g, e.gs) == "" && !(e.gs.closeSeq >= 0)
			}
			if w.gx.real() {
				if s := w.sessBySid(e.gs.sid); s == nil || s.closes > 0 && s.closeSeq < w.endSeq {
					ok = false
				}
			}
		} else if w.gx != nil {
			if g := w.gx.cl[e.c]; g != nil && g.cur != nil {
				ok = v.gunclean(g, g.cur) == "" && g.cur.closeSeq < 0
			}
		} else {
			ok = v.sioAlive(c) && c.getLost == 0
		}
		if ok && w.endT-e.t1 > margin {
			w.violate("C16", "error-lost", "the error %s emitted on %s of client %d %s before the end never arrived, on a live session", e.want, e.ns, e.c, ms(w.endT-e.t1))
		}
	}
}

// goErrors: the error callbacks of a Go client follow what the stub server sent.
func (v *verdict) goErrors(g *gclient, s *gosess, unc string, margin int64) {
	w := v.w
	var before string
	i := 0
	now := map[string]bool{}
	var real []*scb
	for _, cb := range s.cbs {
		if unc == "" || cb.args != "an error" {
			real = append(real, cb)
		}
	}
	es := v.goModel(g, s, true)
	for _, e := range es {
		if e.e.kind == "error" && e.e.opt { // hard to tell from the others
			return
		}
	}
	for _, e := range es {
		if e.e.kind == "error" && unc != "" && e.gs.want == "an error" {
			continue
		}
		if i < len(real) && gmatch(e.e, real[i]) {
			cb := real[i]
			switch cb.kind {
			case "connect":
				now[cb.ns] = true
			case "disconnect":
				delete(now, cb.ns)
			case "error":
				if cb.args != e.gs.want {
					w.violate("C16", "wrong-error", "Go client %d: the error callback of %s got %.150s for the %s, that is %.150s", g.i, cb.ns, cb.args, e.gs.what, e.gs.want)
				}
				before = e.gs.what
			}
			if unc == "" && cb.seq < w.endSeq && cb.t-e.gs.t0 > margin && before != "" {
				w.violate("C16", "late", "Go client %d: %s ran %s after it was sent", g.i, cb, ms(cb.t-e.gs.t0))
			}
			i++
			continue
		}
		if e.e.opt {
			continue
		}
		ended := i < len(real) && real[i].kind == "disconnect" && (now[real[i].ns] || s.lnk.client.closed)
		if i < len(real) && !ended {
			switch cb := real[i]; {
			case cb.kind == "error":
				w.violate("C16", "spurious", "Go client %d: an error callback of %s with %s, where what the server sent calls for %s", g.i, cb.ns, cb.key, e.what())
			case e.e.kind == "error":
				w.violate("C16", "unreported", "Go client %d: the %s was not reported to %s; %s came next", g.i, e.gs.what, e.e.ns, cb)
			case before != "":
				w.violate("C16", "not-contained", "Go client %d: after the %s, %s happened where what the server sent calls for %s", g.i, before, cb, e.what())
			}
			return
		}
		if unc == "" && e.gs.ok && w.endT-e.gs.t1 > margin && (i >= len(real) || real[i].t > w.endT) {
			if e.e.kind == "error" {
				w.violate("C16", "unreported", "Go client %d: the %s was not reported to %s", g.i, e.gs.what, e.e.ns)
			} else if before != "" {
				w.violate("C16", "not-contained", "Go client %d: %s did not happen on a live session, after the %s", g.i, e.what(), before)
			}
		}
		return
	}
	for ; i < len(real); i++ {
		if cb := real[i]; cb.kind == "error" && unc == "" && cb.seq < w.endSeq {
			w.violate("C16", "spurious", "Go client %d: an error callback of %s with %s, which nothing the server sent calls for", g.i, cb.ns, cb.key)
			return
		}
	}
}

func (e gex) what() string {
	if e.e.kind == "error" {
		return fmt.Sprintf("the %s to be reported to %s", e.gs.what, e.e.ns)
	}
	return gname(e.e)
}

// stubBad makes a stub server send what cannot be processed.
func (gx *gx) stubBad(st *gstub, ns string, n, size int) {
	x, w := gx.x, gx.x.w
	for ; n > 0 && !st.stopped && !st.end; n-- {
		key, _ := w.payload("e", st.g.i, 0, size, "")
		id := int64(-1)
		if w.r.oneIn(2) {
			id = st.reqID
			st.reqID += int64(1 + w.r.intn(2))
		}
		ps, to, want, desc := x.badMsg(w.r, false, ns, key, id, w.msgSeq)
		gs := &gsent{kind: "bad", ns: ns, to: to, want: want, what: desc, key: key, id: id}
		if desc == "error packet" {
			gs.id = -1
		}
		w.probe("gbad:" + desc)
		var next *gsent
		if to == "" {
			m, name, args := x.newSem(st.g.i, ns, evKinds[w.r.intn(len(evKinds))], size, -1, "", "", "e")
			m.gs = st.s
			next = &gsent{kind: "event", ns: ns, em: m, skip: !handled[name] || !x.reg[ns]}
			ps = append(ps, encodeSio(&sioPkt{typ: sEvent, nsp: ns, id: -1, args: append([]interface{}{name}, args...)}, x.mp)...)
		}
		if !st.sendAll(gx, []*gsent{gs, next}, ps) {
			return
		}
		hsleep(time.Duration(w.r.intn(3)) * 100 * time.Microsecond)
	}
}
