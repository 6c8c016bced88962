package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// eclient is an engine.io client written against the protocol, not against the code under test.
type eclient struct {
	w            *World
	i            int
	p            ClientPlan
	r            *rng
	sid          string
	ws           *wsConn
	onWS         bool
	opened       bool
	openT        int64
	openMs       int64 // handshake duration
	openStart    int
	openTried    bool
	openDone     bool
	refused      int  // status of a refused handshake
	over         bool // the client knows or decided that the session has ended
	overT        int64
	overWhy      string
	stopPoll     bool
	pausePoll    bool
	inGET        bool
	silent       bool
	nt           notifier
	sendL        hlock
	pollC, postC *httpConn
	pollPark     bool
	params       struct{ Interval, Timeout int }
	upgrades     []string

	recvSeq     int
	sentClose   int // sequence number when a close packet went out, -1
	closeAcked  bool
	gotClose    bool
	disrupt     int // sequence number of the first deliberate disturbance, -1
	disruptT    int64
	disruptKind string
	disruptMax  time.Duration
	appendix    string
	getLost     int // GET responses the network may have destroyed
	getLostT    int64
	disturbs    int
	wsIn        int
	lastSent    int64
	pingN       int
	pings       []*pingRec
	upOK        bool
	upT         int64
	upTries     int
	upRec       []*upRec
	pollAfter   []int // statuses of polls with the sid after a completed upgrade
	noops       int
	target      string
	onMsg       func(p pkt, via string) // socket.io stub
	jn          int
	openPkts    int
	firstType   int
	closedProbe int
	handshakes  int
	readStall   time.Time
	upFault     bool
	noText      bool
	splitPost   bool // every packet in a POST of its own
	postLost    bool // a POST got no answer: the server may still be at its packets
}

type pingRec struct {
	data    string
	start   int
	t0, t1  int64
	pongSeq int
	bin     bool
	via     string
	sent    bool
}

type upRec struct {
	variant      string
	t0, t1       int64
	pong         bool
	done         bool // client sent the upgrade packet
	err          string
	overlap      bool
	getWait      time.Duration
	hold         time.Duration
	pongT, doneT int64
	conn         *simConn
	label        string
	nth          int
	fault        bool
}

func newEclient(w *World, i int, p ClientPlan) *eclient {
	return &eclient{w: w, i: i, p: p, r: newRng(w.plan.Seed, 1000+uint64(i)), sentClose: -1, disrupt: -1, jn: i + []int{0, 9, 89, 190}[p.Prof.LatUs%4], firstType: -1, target: w.target()}
}

func (w *World) target() string {
	if w.plan.Kind != "engine" {
		return "/socket.io/"
	}
	return "/engine.io/"
}

func (c *eclient) label(s string) string { return fmt.Sprintf("c%d/%s", c.i, s) }

func (c *eclient) hdr() [][2]string { return [][2]string{{"X-Client", strconv.Itoa(c.i)}} }

// hsHdr are the headers of a handshake request.
func (c *eclient) hsHdr() [][2]string {
	return append(c.hdr(), [2]string{"X-Hs", "hs" + strconv.Itoa(c.i)})
}

func (c *eclient) query(transport string) string {
	q := "?EIO=3&transport=" + transport
	switch c.p.Mode {
	case 2:
		if transport == "polling" {
			q += "&b64=1"
		}
	case 3:
		if transport == "polling" {
			q += "&j=" + strconv.Itoa(c.jn)
		}
	}
	if c.sid != "" {
		q += "&sid=" + c.sid
	}
	return c.target + q
}

func (c *eclient) dialHTTP(lane string) (*httpConn, error) {
	sc, err := c.w.net.dial("10.0.0.1:80", c.label(lane), c.p.Prof)
	if err != nil {
		return nil, err
	}
	return &httpConn{sc, bufio.NewReaderSize(sc, 4096)}, nil
}

func (c *eclient) end(why string) {
	if !c.over {
		c.over = true
		c.overT = c.w.now()
		c.overWhy = why
		c.w.log(Ev{K: "client-over", C: c.i, S: why})
		c.nt.broadcast()
	}
}

func (c *eclient) disturb(kind string) {
	s := c.w.log(Ev{K: "disturb", C: c.i, S: kind})
	c.disturbs++
	if c.disrupt < 0 {
		c.disrupt, c.disruptT, c.disruptKind = s, c.w.now(), kind
	}
}

func (c *eclient) decodeGET(resp *httpResp) ([]pkt, error) {
	// clients tell binary from text payloads by the type; text that is not ASCII needs its charset
	ct := strings.ToLower(resp.header.Get("Content-Type"))
	oct := strings.HasPrefix(ct, "application/octet-stream")
	switch {
	case c.p.Mode == 1 && !oct && len(resp.body) > 0 && resp.body[0] < ' ':
		c.w.violate("C01", "content-type", "client %d: a binary payload came as %q", c.i, ct)
	case c.p.Mode == 3 && !strings.Contains(ct, "javascript"), c.p.Mode != 1 && oct, !oct && !isASCII(resp.body) && !strings.Contains(strings.ReplaceAll(ct, "\"", ""), "charset=utf-8"):
		c.w.violate("C01", "content-type", "client %d (mode %d): a text payload came as %q", c.i, c.p.Mode, ct)
	}
	switch c.p.Mode {
	case 2, 3:
		body := resp.body
		if c.p.Mode == 3 {
			var err error
			if body, err = decodeJSONP(body, strconv.Itoa(c.jn)); err != nil {
				return nil, err
			}
		}
		ps, err := decodeText(body, units)
		if err != nil {
			// The repository counts bytes where the protocol counts characters: a known finding,
			// which strict clients report. The others carry on.
			if ps2, err2 := decodeText(body, octets); err2 == nil {
				if c.w.plan.Cfg["strict"] != 0 {
					c.w.violate("C01", "text-length", "client %d (mode %d): the lengths in a text payload are not in characters: %v: %.80q", c.i, c.p.Mode, err, body)
				}
				return ps2, nil
			}
		}
		return ps, err
	}
	return decodeXHR2(resp.body)
}

// open performs the handshake.
func (c *eclient) open() bool {
	w := c.w
	c.openTried = true
	defer func() { c.openDone = true }()
	t0 := w.now()
	c.handshakes++
	c.openStart = w.log(Ev{K: "open", C: c.i})
	if c.p.Mode == 0 {
		sc, err := w.net.dial("10.0.0.1:80", c.label("ws"), c.p.Prof)
		if err != nil {
			w.log(Ev{K: "open-fail", C: c.i, S: "dial"})
			return false
		}
		ws, st, err := wsHandshake(sc, c.r, c.query("websocket"), c.hsHdr())
		if err != nil {
			c.refused = st
			sc.Close()
			w.log(Ev{K: "open-fail", C: c.i, S: "handshake", I: int64(st)})
			return false
		}
		ws.frag = c.p.Frag
		p, err := ws.read()
		if err != nil || !c.takeOpen(p) {
			if err == nil {
				w.violate("C15", "open-first", "client %d: first packet on a new websocket session is %v", c.i, p)
			}
			sc.Close()
			w.log(Ev{K: "open-fail", C: c.i, S: "openpkt"})
			return false
		}
		c.ws, c.onWS = ws, true
		c.opened, c.openT, c.openMs = true, w.now(), w.now()-t0
		w.log(Ev{K: "opened", C: c.i, S: c.sid})
		w.spawn(c.wsLoop)
	} else {
		h, err := c.dialHTTP("poll")
		if err != nil {
			w.log(Ev{K: "open-fail", C: c.i, S: "dial"})
			return false
		}
		c.pollC = h
		resp, err := h.do("GET", c.query("polling"), c.hsHdr(), nil, -1)
		if err != nil || resp.status != 200 {
			if err == nil {
				c.refused = resp.status
			}
			w.log(Ev{K: "open-fail", C: c.i, S: "get", I: int64(c.refused)})
			return false
		}
		ps, err := c.decodeGET(resp)
		if err != nil || len(ps) == 0 {
			w.violate("C15", "open-first", "client %d: handshake response does not decode: %v body %.80q", c.i, err, resp.body)
			w.violate("C01", "undecodable", "client %d (mode %d): handshake response does not decode: %v", c.i, c.p.Mode, err)
			return false
		}
		if !c.takeOpen(ps[0]) {
			w.violate("C15", "open-first", "client %d: first packet of the handshake response is %v", c.i, ps[0])
			return false
		}
		c.opened, c.openT, c.openMs = true, w.now(), w.now()-t0
		w.log(Ev{K: "opened", C: c.i, S: c.sid})
		for _, p := range ps[1:] {
			c.recv(p, "poll")
		}
		w.spawn(c.pollLoop)
	}
	if c.p.Ping > 0 {
		w.spawn(c.pingLoop)
	}
	return true
}

func (c *eclient) takeOpen(p pkt) bool {
	if p.typ != 0 || p.bin {
		return false
	}
	c.openPkts++
	var v struct {
		Sid          string   `json:"sid"`
		Upgrades     []string `json:"upgrades"`
		PingInterval int      `json:"pingInterval"`
		PingTimeout  int      `json:"pingTimeout"`
	}
	if err := json.Unmarshal(p.data, &v); err != nil || v.Sid == "" {
		c.w.violate("C15", "open-params", "client %d: open packet %.80q", c.i, p.data)
		return false
	}
	if v.PingInterval != c.w.plan.Interval || v.PingTimeout != c.w.plan.Timeout {
		c.w.violate("C15", "open-params", "client %d: announced %d/%d ms, configured %d/%d", c.i, v.PingInterval, v.PingTimeout, c.w.plan.Interval, c.w.plan.Timeout)
	}
	up := false
	for _, u := range v.Upgrades {
		if u == "websocket" {
			up = true
		}
	}
	if c.p.Mode != 0 && !up {
		c.w.violate("C15", "open-params", "client %d: websocket upgrade not announced: %.80q", c.i, p.data)
	}
	c.sid = v.Sid
	return true
}

// recv handles one packet from the server.
func (c *eclient) recv(p pkt, via string) {
	w := c.w
	switch p.typ {
	case 0:
		c.openPkts++
		w.violate("C15", "second-open", "client %d received a second open packet", c.i)
	case 1:
		w.log(Ev{K: "got-close", C: c.i})
		c.gotClose = true
		c.end("close packet")
	case 3:
		s := w.log(Ev{K: "pong", C: c.i, S: string(p.data)})
		found := false
		for _, pr := range c.pings {
			if pr.data == string(p.data) && pr.pongSeq < 0 {
				pr.pongSeq, pr.t1, found = s, w.now(), true
				break
			}
		}
		if !found {
			w.violate("C04", "pong-data", "client %d: pong %.40q answers no outstanding ping", c.i, p.data)
		}
	case 4:
		if c.onMsg != nil {
			c.onMsg(p, via)
			return
		}
		s := w.log(Ev{K: "recv", C: c.i, S: string(p.data), I: b2i(p.bin)})
		w.got = append(w.got, &gotRec{c: c.i, key: string(p.data), bin: p.bin, seq: s, t: w.now(), via: via, sid: c.sid})
	case 6:
		c.noops++
	case 2, 5:
		w.violate("C01", "odd-packet", "client %d: server sent packet %v", c.i, p)
	default:
		w.violate("C01", "odd-packet", "client %d: server sent packet %v", c.i, p)
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (c *eclient) wsLoop() {
	for {
		if time.Now().Before(c.readStall) {
			sleepUntil(c.readStall)
		}
		p, err := c.ws.read()
		if err != nil {
			if !c.over && errorsIsProto(err) {
				c.w.violate("C01", "ws-protocol", "client %d: server broke the websocket protocol: %v", c.i, err)
			}
			c.end("ws read: " + err.Error())
			c.ws.c.Close()
			return
		}
		c.wsIn++
		c.recv(p, "ws")
		c.nt.broadcast()
	}
}

// errorsIsProto tells protocol errors by the server from connection failures.
func errorsIsProto(err error) bool {
	var ne interface{ Timeout() bool }
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.As(err, &ne) {
		return false
	}
	s := err.Error()
	return !strings.Contains(s, "closed") && !strings.Contains(s, "reset")
}

func (c *eclient) pollLoop() {
	w := c.w
	errs := 0
	for {
		c.nt.waitFor(time.Hour, func() bool { return !c.pausePoll || c.over || c.onWS || c.stopPoll })
		if c.over || c.onWS || c.stopPoll {
			return
		}
		if c.pollC == nil {
			h, err := c.dialHTTP("poll")
			if err != nil {
				errs++
				if errs > 5 {
					c.end("cannot connect")
					return
				}
				hsleep(w.I / 8)
				continue
			}
			c.pollC = h
			continue
		}
		c.inGET = true
		resp, err := c.pollC.do("GET", c.query("polling"), c.hdr(), nil, -1)
		c.inGET = false
		c.nt.broadcast()
		if err != nil {
			c.getLost++
			c.getLostT = w.now()
			w.log(Ev{K: "get-lost", C: c.i, S: err.Error()})
			c.pollC.c.Close()
			c.pollC = nil
			errs++
			if errs > 8 {
				c.end("polling failed")
				return
			}
			continue
		}
		if resp.status != 200 {
			if c.onWS || c.upOK {
				c.pollAfter = append(c.pollAfter, resp.status)
				return
			}
			c.end(fmt.Sprintf("poll status %d", resp.status))
			return
		}
		errs = 0
		ps, err := c.decodeGET(resp)
		if err != nil {
			w.violate("C01", "undecodable", "client %d (mode %d): complete polling response does not decode: %v: %.120q", c.i, c.p.Mode, err, resp.body)
			c.end("undecodable")
			return
		}
		nn := 0
		for _, p := range ps {
			if p.typ == 6 {
				nn++
			}
			c.recv(p, "poll")
		}
		if len(ps) == nn {
			hsleep(50 * time.Millisecond) // do not spin on noops
		}
	}
}

func (c *eclient) pingLoop() {
	per := c.w.I * time.Duration(c.p.Ping) / 100
	next := time.Now().Add(per)
	for {
		c.nt.waitFor(time.Until(next), func() bool { return c.over })
		if c.over || c.silent {
			return
		}
		c.ping(false)
		next = next.Add(per)
		if now := time.Now(); next.Before(now) {
			next = now
		}
	}
}

func (c *eclient) ping(bin bool) {
	c.pingN++
	pr := &pingRec{data: fmt.Sprintf("p%d.%d", c.i, c.pingN), pongSeq: -1, bin: bin}
	c.pings = append(c.pings, pr)
	pr.via, pr.sent = c.sendPkts([]pkt{{bin, 2, []byte(pr.data)}}, func() {
		pr.start = c.w.log(Ev{K: "ping", C: c.i, S: pr.data})
		pr.t0 = c.w.now()
	}, nil, -1)
	if !pr.sent {
		pr.start = -1
	}
}

// stray sends packets that mean nothing in an established session.
func (c *eclient) stray(n int) {
	var ps []pkt
	for ; n >= 0; n-- {
		p := pkt{typ: byte(c.r.pick(5, 5, 6, 3)), bin: c.r.oneIn(4)}
		if c.r.oneIn(2) {
			p.data = []byte(c.r.pickS("probe", "x", "1"))
		}
		ps = append(ps, p)
	}
	c.sendPkts(ps, func() { c.w.log(Ev{K: "stray", C: c.i, S: fmt.Sprint(ps)}); c.w.probe("stray") }, nil, -1)
}

// post sends one POST body. It returns the status, 0 if there was no response.
func (c *eclient) post(body []byte, ctype string, cut int) int {
	for try := 0; ; try++ {
		if c.postC == nil {
			h, err := c.dialHTTP("post")
			if err != nil {
				return 0
			}
			c.postC = h
		}
		resp, err := c.postC.do("POST", c.query("polling"), append(c.hdr(), [2]string{"Content-Type", ctype}), body, cut)
		if err != nil {
			c.postC.c.Close()
			c.postC = nil
			return 0
		}
		if strings.EqualFold(resp.header.Get("Connection"), "close") {
			c.postC.c.Close()
			c.postC = nil
		}
		return resp.status
	}
}

func (c *eclient) encode(ps []pkt) (body []byte, ctype string) {
	text := c.p.Mode != 1
	if !text && !c.noText && c.r.oneIn(2) { // as engine.io-client does when there is no binary packet
		text = true
		for _, p := range ps {
			text = text && !p.bin && (isASCII(p.data) || c.w.plan.Cfg["strict"] != 0)
		}
	}
	if !text {
		return encodeXHR2(ps), "application/octet-stream"
	}
	return encodeText(ps), "text/plain;charset=UTF-8"
}

// sendPkts sends packets over the current transport, as one POST when polling.
func (c *eclient) sendPkts(ps []pkt, begin func(), pr *postRec, cut int) (via string, ok bool) {
	c.sendL.lock()
	defer c.sendL.unlock()
	if c.over || !c.opened {
		return "", false
	}
	if c.postLost && c.w.plan.Kind == "sio" && ps[0].typ == 4 {
		// the server may still be delivering from the POST that failed; what
		// came now could get between the parts of a message with attachments
		return "", false
	}
	if begin != nil {
		begin()
	}
	c.lastSent = c.w.now()
	if c.onWS {
		return "ws", c.ws.sendPkts(ps) == nil
	}
	st := 200
	for len(ps) > 0 && st == 200 {
		n := len(ps)
		if c.splitPost {
			n = 1
		}
		body, ct := c.encode(ps[:n])
		st = c.post(body, ct, cut)
		if pr != nil && ct[0] == 't' {
			pr.text = true
		}
		ps = ps[n:]
	}
	if pr != nil {
		pr.status = st
	}
	if st != 200 && !c.over {
		c.w.log(Ev{K: "post-fail", C: c.i, I: int64(st)})
		c.postLost = c.postLost || st == 0
	}
	return "poll", st == 200
}

// send sends n messages, perPost packets per POST.
func (c *eclient) send(n, kind, size, perPost int, cmds string) {
	w := c.w
	for n > 0 && !c.over && c.opened {
		k := perPost
		if k < 1 {
			k = 1
		}
		if k > n {
			k = n
		}
		n -= k
		var ps []pkt
		var recs []*msgRec
		pr := &postRec{c: c.i}
		begin := func() {
			for _, m := range recs {
				m.start = w.log(Ev{K: "send", C: c.i, S: m.key, I: b2i(m.bin)})
				m.t0 = w.now()
			}
			pr.start = len(w.log_)
			w.sent = append(w.sent, recs...)
		}
		for i := 0; i < k; i++ {
			kd := kind
			if kd == 9 {
				kd = c.r.pick(0, 1, 2)
			}
			strict := w.plan.Cfg["strict"] != 0
			if kd == 1 && (c.p.Mode == 2 || c.p.Mode == 3) && !strict {
				kd = 0 // see decodeGET
			}
			sz := size
			if sz > 1 {
				sz = c.r.intn(size + 1)
			}
			key, bin := w.payload("m", c.i, kd, sz, cmds)
			if kd == 1 && strict {
				// whoever counts bytes ends within the tail, where no packet can begin
				key += strings.Repeat("é", len(key)-units(key))
			}
			m := &msgRec{c: c.i, key: key, bin: bin, start: -1, end: -1}
			recs = append(recs, m)
			ps = append(ps, pkt{bin, 4, []byte(key)})
		}
		via, ok := c.sendPkts(ps, begin, pr, -1)
		if via == "" {
			return
		}
		pr.end = len(w.log_)
		w.posts = append(w.posts, pr)
		if pr.status == 500 && pr.text && w.plan.Cfg["strict"] != 0 {
			for _, p := range ps {
				if !p.bin && !isASCII(p.data) {
					pr.bad = true
					w.violate("C02", "text-length", "client %d (mode %d): a text payload with its lengths in characters was refused (status %d): %.80q", c.i, c.p.Mode, pr.status, p.data)
					break
				}
			}
		}
		for _, m := range recs {
			m.end = w.log(Ev{K: "sent", C: c.i, S: via, I: b2i(ok)})
			m.t1 = w.now()
			m.ok = ok
			m.conn = via
			if via == "poll" {
				m.post = pr
			}
		}
	}
}

// upgrade performs the websocket upgrade procedure of a polling client.
func (c *eclient) upgrade(variant string, hold time.Duration) {
	w := c.w
	if c.over || !c.opened || c.p.Mode == 0 {
		return
	}
	u := &upRec{variant: variant, t0: w.now(), label: c.label("up"), nth: w.net.perLabel[c.label("up")]}
	for _, o := range c.upRec {
		if o.t1 == 0 {
			o.overlap, u.overlap = true, true
		}
	}
	if c.onWS {
		// once the upgrade packet is out, wait for the server to have switched
		if !c.nt.waitFor(w.T, func() bool { return c.over || c.wsIn > 0 }) || c.over {
			return
		}
		u.overlap = true
	}
	c.upRec = append(c.upRec, u)
	defer func() {
		u.t1 = w.now()
		w.log(Ev{K: "upgrade-end", C: c.i, S: variant + " " + u.err, I: b2i(u.done)})
	}()
	w.log(Ev{K: "upgrade", C: c.i, S: variant})
	c.upTries++
	sc, err := w.net.dial("10.0.0.1:80", u.label, c.p.Prof)
	if err != nil {
		u.err = "dial"
		return
	}
	u.conn = sc
	if variant == "cut" { // handshake never completes
		sc.Write([]byte("GET " + c.query("websocket") + " HTTP/1.1\r\nHost: sim.exa"))
		hsleep(hold)
		sc.Close()
		return
	}
	ws, st, err := wsHandshake(sc, c.r, c.query("websocket"), c.hdr())
	if err != nil {
		u.err = "handshake " + strconv.Itoa(st)
		sc.Close()
		return
	}
	ws.frag = c.p.Frag
	finish := func() {
		switch c.r.intn(3) {
		case 0:
			sc.l.Reset()
		case 1:
			sc.l.Vanish()
		}
		sc.Close()
	}
	switch variant {
	case "silent":
		hsleep(hold)
		finish()
		return
	case "garbage":
		ws.sendPkts([]pkt{{c.r.oneIn(2), byte(c.r.pick(0, 1, 3, 4, 5, 6, 9)), []byte("x")}})
		hsleep(hold)
		finish()
		return
	case "rawgarbage":
		b := make([]byte, 1+c.r.intn(40))
		for i := range b {
			b[i] = byte(c.r.next())
		}
		sc.Write(b)
		hsleep(hold)
		finish()
		return
	}
	c.lastSent = w.now()
	if ws.sendPkts([]pkt{{false, 2, []byte("probe")}}) != nil {
		u.err = "probe write"
		sc.Close()
		return
	}
	if variant == "drop-probe" {
		hsleep(hold)
		finish()
		return
	}
	p, err := ws.readTimeout(2*w.T + 2*time.Second)
	if err != nil || p.typ != 3 || p.bin || string(p.data) != "probe" {
		u.err = fmt.Sprintf("no probe answer (%v, %v)", p, err)
		sc.Close()
		return
	}
	u.pong = true
	u.pongT = w.now()
	w.log(Ev{K: "probe-pong", C: c.i})
	switch variant {
	case "drop-pong":
		hsleep(hold)
		finish()
		return
	case "garbage-pong":
		ws.sendPkts([]pkt{{c.r.oneIn(2), byte(c.r.pick(0, 1, 3, 4, 6, 9)), []byte("x")}})
		hsleep(hold)
		finish()
		return
	}
	// stop polling: no new GET, wait for the one in flight, and for POSTs
	c.sendL.lock()
	c.pausePoll = true
	t0 := time.Now()
	lost := func() bool { return c.upRec[len(c.upRec)-1] != u || sc.ended() } // a newer attempt has taken over, or the server gave up
	for by := t0.Add(w.I + w.T + 10*time.Second); !c.nt.waitFor(w.T/16, func() bool { return !c.inGET || c.over }); {
		if lost() {
			break
		}
		if time.Now().After(by) {
			u.err = "poll in flight never returned"
			break
		}
	}
	u.getWait = time.Since(t0)
	if c.over || u.err != "" || c.onWS {
		if u.err == "" {
			u.err = "session over"
		}
		c.pausePoll = false
		c.sendL.unlock()
		c.nt.broadcast()
		sc.Close()
		return
	}
	if variant == "late" || variant == "late-fail" { // slow client: long pause before the upgrade packet
		u.hold = hold
		hsleep(hold)
	}
	if variant == "late-fail" { // which it never sends: it polls on
		c.pausePoll = false
		c.sendL.unlock()
		c.nt.broadcast()
		finish()
		return
	}
	if lost() {
		u.err = "superseded or closed after the probe answer"
		c.pausePoll = false
		c.sendL.unlock()
		c.nt.broadcast()
		sc.Close()
		return
	}
	if variant == "rival" && !c.rival(u, ws, time.Duration(hold)) {
		c.pausePoll = false
		c.sendL.unlock()
		c.nt.broadcast()
		sc.Close()
		return
	}
	u.done = true
	u.doneT = w.now()
	w.log(Ev{K: "upgrade-sent", C: c.i})
	c.ws, c.onWS, c.upOK, c.upT = ws, true, true, w.now()
	if variant != "rival" {
		ws.sendPkts([]pkt{{false, 5, nil}})
	}
	c.lastSent = w.now()
	if variant == "drop-upgrade" {
		c.disturb("dropped after upgrade packet")
		finish()
	}
	c.nt.broadcast()
	c.sendL.unlock()
	w.spawn(c.wsLoop)
}

// rival completes an upgrade while another attempt arrives. It takes the upgrade for done only when
// the server has used the websocket, and goes back to polling if the server closes it.
func (c *eclient) rival(u *upRec, ws *wsConn, hold time.Duration) bool {
	w := c.w
	u.overlap = true
	rc, err := w.net.dial("10.0.0.1:80", c.label("rival"), c.p.Prof)
	if err != nil {
		u.err = "dial"
		return false
	}
	w.spawn(func() {
		hsleep(time.Duration(c.r.pick(0, 0, c.r.intn(20), c.r.intn(500))) * time.Microsecond)
		if rw, _, err := wsHandshake(rc, c.r, c.query("websocket"), c.hdr()); err == nil && c.r.oneIn(2) {
			rw.sendPkts([]pkt{{false, 2, []byte("probe")}})
		}
		hsleep(hold)
		if c.r.oneIn(2) {
			rc.l.Reset()
		}
		rc.Close()
	})
	hsleep(time.Duration(c.r.pick(0, 0, c.r.intn(20), c.r.intn(500))) * time.Microsecond)
	if u.conn.ended() {
		u.err = "superseded"
		return false
	}
	u.doneT = w.now()
	w.log(Ev{K: "rival-upgrade", C: c.i})
	data := fmt.Sprintf("r%d.%d", c.i, c.upTries)
	c.lastSent = w.now()
	ws.sendPkts([]pkt{{false, 5, nil}, {false, 2, []byte(data)}})
	for !c.over {
		p, err := ws.readTimeout(w.I + w.T)
		if err != nil {
			u.err = "superseded: " + err.Error()
			if len(u.conn.l.hits) > 0 || isTimeout(err) && len(w.net.fired) > 0 {
				c.disturb("fault on an upgraded connection")
			} else if isTimeout(err) && time.Duration(w.slept[c.i]) > w.T/3 {
				c.disturb("slow callbacks held up its upgrade")
			} else if isTimeout(err) {
				w.violate("C03", "upgrade-failed", "client %d: after the upgrade packet the server neither used nor closed the websocket", c.i)
			}
			w.probe("rival-lost")
			return false
		}
		c.wsIn++
		if p.typ == 3 && string(p.data) == data {
			w.probe("rival-won")
			return true
		}
		c.recv(p, "ws")
	}
	return false
}

// pollOnce issues a poll with the session id on a separate connection and returns the status.
func (c *eclient) pollOnce(method string, sid string, wait time.Duration) int {
	h, err := c.dialHTTP("probe")
	if err != nil {
		return -1
	}
	defer h.c.Close()
	old := c.sid
	c.sid = sid
	q := c.query("polling")
	c.sid = old
	h.c.SetReadDeadline(time.Now().Add(wait))
	var body []byte
	hd := c.hdr()
	if method == "POST" {
		body = encodeXHR2([]pkt{{false, 6, nil}})
		hd = append(hd, [2]string{"Content-Type", "application/octet-stream"})
	}
	resp, err := h.do(method, q, hd, body, -1)
	if err != nil {
		return 0
	}
	return resp.status
}

// pollClosed sends a request for a session that has just been closed.
func (c *eclient) pollClosed(s *sess, post bool) {
	w := c.w
	h, err := c.dialHTTP("probe")
	if err != nil {
		return
	}
	defer h.c.Close()
	h.c.SetReadDeadline(time.Now().Add(2*w.T + 2*time.Second))
	q := strings.Replace(c.query("polling"), "&sid="+c.sid, "", 1) + "&sid=" + s.sid
	stall0 := runtime.SimStallNs()
	var resp *httpResp
	if post {
		resp, err = h.do("POST", q, append(c.hdr(), [2]string{"Content-Type", "application/octet-stream"}), encodeXHR2([]pkt{{false, 6, nil}, {false, 6, nil}, {false, 6, nil}}), -1)
	} else {
		resp, err = h.do("GET", q, c.hdr(), nil, -1)
	}
	switch {
	case err != nil && isTimeout(err) && runtime.SimStallNs()-stall0 < int64(w.T):
		w.violate("C06", "sid-hang", "a request with client %d's session id, sent after Close had returned, is never answered", c.i)
	case err == nil && resp.status < 400:
		w.violate("C06", "sid-served", "a request with client %d's session id, sent after Close had returned, was served (status %d)", c.i, resp.status)
	}
	w.log(Ev{K: "poll-closed", C: c.i})
}

func (c *eclient) conns() []*simConn {
	var out []*simConn
	if c.pollC != nil {
		out = append(out, c.pollC.c)
	}
	if c.postC != nil {
		out = append(out, c.postC.c)
	}
	if c.ws != nil {
		out = append(out, c.ws.c)
	}
	return out
}

// badPost sends a malformed, truncated or mislabelled POST.
func (c *eclient) badPost(variant int) {
	w := c.w
	if c.onWS || c.over || !c.opened {
		return
	}
	c.sendL.lock()
	defer c.sendL.unlock()
	if c.onWS || c.over {
		return
	}
	c.noText = true
	defer func() { c.noText = false }()
	var ps []pkt
	n := 1 + c.r.intn(3)
	var recs []*msgRec
	for i := 0; i < n; i++ {
		key, bin := w.payload("b", c.i, c.r.pick(0, 2), 1+c.r.intn(40), "")
		ps = append(ps, pkt{bin, 4, []byte(key)})
		recs = append(recs, &msgRec{c: c.i, key: key, bin: bin, start: -1, end: -1})
	}
	body, ct := c.encode(ps)
	pr := &postRec{c: c.i, bad: true, start: len(w.log_)}
	for _, m := range recs {
		m.start = w.log(Ev{K: "send-bad", C: c.i, S: m.key, I: b2i(m.bin)})
		m.t0 = w.now()
		m.post = pr
		m.conn = "poll"
	}
	w.sent = append(w.sent, recs...)
	cut := -1
	switch variant {
	case 0: // complete HTTP body, truncated payload
		k := 1 + c.r.intn(len(body)-1)
		if c.boundary(ps, k) {
			k++
			if k >= len(body) || c.boundary(ps, k) {
				k = len(body) - 1
			}
		}
		body = body[:k]
	case 1: // HTTP body cut by the connection: Content-Length promises more
		cut = 0
	case 2: // garbage appended
		body = append(body, []byte{0xff, 0xfe, 'z', 7, 7, 7}...)
	case 3: // wrong content type
		ct = []string{"application/json", "text/html", ""}[c.r.intn(3)]
	case 4: // bad length digits
		if c.p.Mode == 1 {
			body = append([]byte{0, 1, 77, 0xff, '4', 'x'}, body...)
		} else {
			body = append([]byte("x1:4"), body...)
		}
	case 5: // bad marker / base64
		if c.p.Mode == 1 {
			body = append([]byte{7, 1, 0xff, '4'}, body...)
		} else {
			body = append([]byte("8:b4!!!!!!"), body...)
		}
	case 6: // length too small for what it covers
		var x []byte
		switch {
		case ct[0] == 't':
			x = []byte(c.r.pickS("0:", "0:4", "1:b", "1:b4", "-1:4", "00:4"))
		case c.r.oneIn(2):
			x = []byte{byte(c.r.intn(2)), 0xff, '4'}
		default:
			x = []byte{byte(c.r.intn(2)), 0, 0xff, '4'}
		}
		if c.r.oneIn(2) {
			body = append(body, x...)
		} else {
			body = append(x, body...)
		}
	}
	if cut >= 0 {
		h := c.postC
		if h == nil {
			var err error
			if h, err = c.dialHTTP("post"); err != nil {
				return
			}
		}
		c.postC = nil
		var b bytes.Buffer
		fmt.Fprintf(&b, "POST %s HTTP/1.1\r\nHost: sim\r\nX-Client: %d\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", c.query("polling"), c.i, ct, len(body))
		k := c.r.intn(len(body))
		b.Write(body[:k])
		h.c.Write(b.Bytes())
		hsleep(time.Duration(c.r.intn(3000)) * time.Microsecond)
		if c.r.oneIn(2) {
			h.c.l.Reset()
		} else {
			h.c.l.up.fin, h.c.l.up.finAt = true, h.c.l.up.lastAt
			h.c.l.wakeAll()
			h.c.SetReadDeadline(time.Now().Add(2 * time.Second))
			if resp, err := httpRead(h); err == nil {
				pr.status = resp
			}
		}
		h.c.Close()
	} else {
		pr.status = c.post(body, ct, -1)
	}
	pr.end = len(w.log_)
	w.posts = append(w.posts, pr)
	w.log(Ev{K: "bad-post", C: c.i, S: strconv.Itoa(variant), I: int64(pr.status)})
	for _, m := range recs {
		m.end = len(w.log_) - 1
	}
}

func httpRead(h *httpConn) (int, error) {
	line, err := h.br.ReadString('\n')
	if err != nil {
		return 0, err
	}
	var maj, min, st int
	_, err = fmt.Sscanf(line, "HTTP/%d.%d %d", &maj, &min, &st)
	return st, err
}

// boundary tells whether k bytes hold a whole number of packets.
func (c *eclient) boundary(ps []pkt, k int) bool {
	for i := 0; i <= len(ps); i++ {
		b, _ := c.encode(ps[:i])
		if len(b) == k {
			return true
		}
	}
	return false
}
