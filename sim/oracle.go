package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Oracles over the recorded history. They run after the simulation has ended.

type verdict struct {
	w   *World
	res *runtime.SimResult
}

func ms(ns int64) string { return fmt.Sprintf("%.3fs", float64(ns)/1e9) }

// clean tells whether nothing in the run entitles this client's session to end or lose anything.
func (v *verdict) unclean(c *eclient) string {
	w := v.w
	if !c.opened {
		return "not opened"
	}
	if c.disrupt >= 0 && c.disrupt < w.endSeq {
		return "disturbed: " + c.disruptKind
	}
	if c.p.Ping == 0 {
		return "no pings"
	}
	for _, l := range w.net.links {
		if !strings.HasPrefix(l.label, fmt.Sprintf("c%d/", c.i)) {
			continue
		}
		kind := l.label[strings.IndexByte(l.label, '/')+1:]
		for _, h := range l.hits {
			switch {
			case h == "stall":
			case h == "longstall":
				return "long stall"
			case kind == "bad" || kind == "probe":
			case kind == "poll" && h != "hole":
			case kind == "up":
				for _, u := range c.upRec {
					if u.conn != nil && u.conn.l == l && u.done {
						return "fault on upgraded connection"
					}
				}
			default:
				return "fault " + h + " on " + kind
			}
		}
	}
	for _, u := range c.upRec {
		if u.done && u.variant == "drop-upgrade" {
			return "dropped after upgrade"
		}
		if u.done && time.Duration(u.doneT-u.pongT) > (w.I+w.T)*9/10 {
			return "upgrade packet sent too late"
		}
		if u.done && (u.overlap || v.lapped(c, u)) && c.wsIn == 0 {
			if s := v.sess(c); s != nil && s.upgrades == 0 {
				return "overtaken by another attempt when it sent the upgrade packet"
			}
		}
	}
	if w.srvCloseSeq >= 0 {
		return "server closed"
	}
	if time.Duration(v.res.StallNs) > w.T/3 {
		return "stalls"
	}
	if len(c.upRec) > 0 && time.Duration(v.sleep(c)) > w.T/3 {
		return "slow callbacks held up its upgrade"
	}
	if c.p.Ping > 100 && (len(c.upRec) > 0 || len(w.net.fired) > 0 || time.Duration(v.res.StallNs+v.sleep(c)) > w.T/8) {
		return "late pings held up"
	}
	return ""
}

// disturbed tells whether the workload did anything to the client on purpose, or the application.
// Closing a session from its open callback counts: a polling client is refused then.
func (v *verdict) disturbed(c *eclient) bool {
	for _, s := range v.w.sessionsOf(c.i) {
		if s.appClose >= 0 && s.appClose < v.w.endSeq {
			return true
		}
	}
	return c.disrupt >= 0 && c.disrupt < v.w.endSeq
}

func (v *verdict) sess(c *eclient) *sess { return v.w.sessBySid(c.sid) }

func (v *verdict) appClosed(s *sess) bool { return s != nil && s.appClose >= 0 }

// lat is a generous bound on how long anything unblocked takes for this client.
func (v *verdict) lat(c *eclient) int64 {
	rtt := int64(c.p.Prof.LatUs+c.p.Prof.JitUs) * 2000
	n := 0
	for _, m := range v.w.emits {
		if m.c == c.i {
			n++
		}
	}
	for _, m := range v.w.sent {
		if m.c == c.i {
			n++
		}
	}
	if x := v.w.sx; x != nil {
		for _, m := range x.ems {
			if m.c == c.i {
				n += 4
			}
		}
		n += 4 * len(x.acts[c.i])
	}
	return int64(1500*time.Millisecond) + v.res.StallNs + int64(n+8)*2*rtt + int64(v.w.plan.cfg("netstall_us"))*1000
}

// sleep is how long the callbacks of this client's session were told to sleep.
func (v *verdict) sleep(c *eclient) int64 { return v.w.slept[c.i] }

func (v *verdict) run() {
	w := v.w
	res := v.res
	if st := topFrames(res.HugeStack); res.HugeSize > 0 && !strings.HasPrefix(st, "main.") {
		w.violate("C08", "huge-alloc", "an allocation of %d bytes was made; far more than any input\n%s", res.HugeSize, topFrames(res.HugeStack))
	}
	if res.Aborted != 0 {
		kind := []string{"", "crash", "fatal", "huge", "livelock", "livelock"}[res.Aborted]
		msg := fmt.Sprintf("process would have died (%s): %s\n%s", kind, res.AbortMsg, topFrames(res.AbortStack))
		w.violate("C08", kind, "%s", msg)
		if w.plan.Prop != "C08" {
			w.violate(w.plan.Prop, kind, "%s", msg)
		}
		return
	}
	for _, p := range w.panics {
		w.violate("C08", "handler-panic", "a request handler panicked: %s", topFrames(p))
		if w.plan.Prop != "C08" {
			w.violate(w.plan.Prop, "handler-panic", "a request handler panicked: %s", topFrames(p))
		}
	}
	if w.phase != 9 {
		w.violate("HARNESS", "stuck", "the harness did not finish (phase %d)", w.phase)
		return
	}
	if w.gx != nil {
		v.gprep()
	} else if w.sx != nil {
		v.sioPrep()
	}
	v.calls()
	v.sessions()
	if w.gx != nil {
		v.gocli()
		v.errors16()
	} else if w.sx != nil {
		v.sio()
		v.errors16()
		for _, c := range w.cl {
			if w.plan.Kind == "sio" {
				v.upgrades(c)
				v.beats(c)
			}
		}
		v.handshakes()
	}
	if w.plan.Kind == "engine" {
		for _, c := range w.cl {
			v.down(c)
			v.up(c)
			v.upgrades(c)
			v.beats(c)
		}
		v.isolation()
		v.handshakes()
	}
}

func topFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") {
			if i := strings.Index(l, "/src/"); i >= 0 {
				l = "\t" + l[i+5:]
			}
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
		} else if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		out = append(out, l)
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// calls: every call into the library returns, in bounded time.
func (v *verdict) calls() {
	w := v.w
	bound := int64(12*w.T) + int64(2*time.Second)
	for _, cr := range w.calls {
		end, t1 := cr.end, cr.t1
		pending := end < 0
		if pending {
			t1 = w.endT
		}
		d := t1 - cr.t0 - v.res.StallNs
		where := "an application goroutine"
		if cr.inline != "" {
			where = "the " + cr.inline + " callback"
		}
		what := fmt.Sprintf("%s on client %d's session from %s", cr.kind, cr.c, where)
		switch cr.kind {
		case "close", "cliclose":
			if pending && d > bound || !pending && d > bound {
				s := fmt.Sprintf("%s took %s", what, ms(d))
				if pending {
					s = what + " has not returned after " + ms(d)
				}
				if cr.kind == "close" {
					w.violate("C06", "close-slow", "%s", s)
				} else {
					w.violate("C14", "close-slow", "%s", s)
				}
				if cr.inline != "" {
					w.violate("C12", "close-slow", "%s", s)
				}
				if w.plan.cfg("midup") > 0 {
					w.violate("C03", "close-slow", "%s", s)
				}
			}
		case "emit", "headers", "nsp", "on", "cliemit":
			c := w.client(cr.c)
			if c == nil {
				continue
			}
			s := v.sess(c)
			ended := s != nil && s.closes > 0 || v.appClosed(s)
			responsive := v.unclean(c) == ""
			sleep := v.sleep(c)
			if pending && d > bound+sleep {
				msg := what + " has not returned after " + ms(d)
				if ended && cr.kind == "emit" {
					w.violate("C06", "emit-stuck", "%s although the session ended", msg)
				}
				if cr.inline != "" && (ended || responsive) {
					w.violate("C12", "call-stuck", "%s", msg)
				}
				if responsive {
					w.violate("C01", "emit-stuck", "%s although the client keeps receiving", msg)
				}
				if cr.kind == "cliemit" {
					w.violate("C14", "emit-stuck", "%s", msg)
				}
			} else if !pending && cr.inline != "" && responsive && d > bound+sleep {
				w.violate("C12", "call-slow", "%s took %s", what, ms(d))
			}
		}
	}
	// emits that begin after a close returned must fail
	for _, s := range w.sess {
		closed := -1
		for _, cr := range w.calls {
			if cr.kind == "close" && cr.c == s.c && cr.end >= 0 && (closed < 0 || cr.end < closed) && len(w.sessionsOf(s.c)) == 1 {
				closed = cr.end
			}
		}
		if closed < 0 {
			continue
		}
		for _, m := range w.emits {
			if m.c == s.c && m.start > closed && m.end >= 0 && m.ok {
				w.violate("C06", "emit-after-close", "emit on client %d's session succeeded after Close had returned", s.c)
				break
			}
		}
	}
}

func (w *World) sessionsOf(c int) []*sess {
	var out []*sess
	for _, s := range w.sess {
		if s.c == c {
			out = append(out, s)
		}
	}
	return out
}

// sessions: lifecycle of every session.
func (v *verdict) sessions() {
	w := v.w
	after := -1
	for i, e := range w.log_ {
		if e.K == "after-inactivity" {
			after = i
		}
		if e.K == "server-conn-open" {
			w.violate("C06", "conn-open", "the server never closed its end of connection %s after the session ended", e.S)
		}
	}
	for _, s := range w.sess {
		if w.plan.Kind == "engine" {
			if s.closes > 1 {
				w.violate("C05", "dup-close", "client %d's session (%d) got %d close notifications", s.c, s.n, s.closes)
			}
			if s.closes == 0 && s.opens > 0 {
				w.violate("C05", "no-close", "client %d's session (%d) ended without a close notification", s.c, s.n)
			} else if s.closeSeq > after && after >= 0 {
				w.violate("C05", "late-close", "client %d's session (%d): close notification later than ping interval + 13 ping timeouts after the client left", s.c, s.n)
			}
		}
		// application close must end the session with the close notification in bounded time
		c := w.client(s.c)
		if c == nil {
			continue
		}
		if s.appClose >= 0 && s.appClose < w.endSeq {
			var endT int64 = -1
			for _, cr := range w.calls {
				if cr.kind == "close" && cr.c == s.c && cr.end >= 0 && (endT < 0 || cr.t1 < endT) {
					endT = cr.t1
				}
			}
			slack := int64(2*w.T) + int64(2*time.Second) + v.res.StallNs + v.sleep(c)
			if endT >= 0 && w.endT-endT > slack && w.plan.Kind == "engine" && (s.closes == 0 || s.closeT-endT > slack) {
				w.violate("C05", "no-close-after-close", "client %d's session: no close notification within %s after the application closed it", s.c, ms(slack))
			}
			if endT >= 0 && w.endT-endT > v.lat(c)+int64(time.Second)+v.sleep(c) && !c.over && v.uncleanButClose(c) == "" {
				w.violate("C06", "conn-not-closed", "client %d still sees an open session %s after the application closed it", s.c, ms(w.endT-endT))
			}
		}
	}
	for _, c := range w.cl {
		v.attempts(c)
		if c.opened && c.closedProbe != 0 && c.closedProbe < 400 && (v.sess(c) != nil || w.plan.Kind != "engine") {
			w.violate("C06", "sid-served", "client %d's session id is still served (status %d) after the session ended", c.i, c.closedProbe)
		}
		if c.sid != "" && c.closedProbe == 0 && w.phase == 9 && w.plan.cfg("noprobe") == 0 && after >= 0 && w.plan.Kind == "engine" {
			w.violate("C06", "sid-hang", "a request with client %d's ended session id is never answered", c.i)
		}
	}
}

// attempts: the server closes the websockets of upgrade attempts that came to nothing.
func (v *verdict) attempts(c *eclient) {
	w := v.w
	s := v.sess(c)
	for _, u := range c.upRec {
		if u.conn == nil || u.done || !u.conn.l.switched || len(u.conn.l.hits) > 0 || w.plan.Kind != "engine" {
			continue
		}
		l := u.conn.l
		end := w.endT
		if l.srvGone && l.server.closedT < end {
			end = l.server.closedT
		}
		slack := int64(w.T) + int64(time.Second) + v.lat(c) + v.sleep(c)
		if d := end - l.up.writeT - int64(w.I+w.T) - slack; d > 0 {
			w.violate("C03", "attempt-open", "client %d's websocket of an upgrade attempt (%s) that came to nothing was still open %s after the last byte on it", c.i, u.variant, ms(end-l.up.writeT))
		}
		if s == nil || s.closes == 0 {
			continue
		}
		from := s.closeT
		if u.t0 > from {
			from = u.t0
		}
		if d := end - from - slack; d > 0 {
			w.violate("C06", "attempt-open", "client %d's websocket of an upgrade attempt (%s) was still open %s after the end of its session", c.i, u.variant, ms(end-from))
		}
	}
}

func (v *verdict) uncleanButClose(c *eclient) string { return v.unclean(c) }

// down checks server-to-client messages of one client (C01; flush part of C06).
func (v *verdict) down(c *eclient) {
	w := v.w
	s := v.sess(c)
	var em []*msgRec
	idx := map[string][]int{}
	for _, m := range w.emits {
		if m.c == c.i {
			k := m.key
			if m.bin {
				k += "\x00b"
			}
			idx[k] = append(idx[k], len(em))
			em = append(em, m)
		}
	}
	var got []*gotRec
	for _, g := range w.got {
		if g.c == c.i {
			got = append(got, g)
		}
	}
	solo := w.plan.cfg("tiny") > 0
	order := make([]int, 0, len(got)) // emission index per received message
	recvd := make([]bool, len(em))
	at := make([]*gotRec, len(em))
	pos := 0
	for _, g := range got {
		k := g.key
		if g.bin {
			k += "\x00b"
		}
		l := idx[k]
		if len(l) == 0 {
			why := "that was never emitted"
			for _, m := range w.emits {
				if m.key == g.key && m.c != c.i {
					why = fmt.Sprintf("that was emitted to client %d", m.c)
					w.violate("C07", "cross", "client %d received message %s %s", c.i, keyHead(g.key), why)
				} else if m.key == g.key {
					why = "with the wrong text/binary type"
				}
			}
			w.violate("C01", "corrupt", "client %d (mode %d) received message %s (binary %v) via %s %s", c.i, c.p.Mode, keyHead(g.key), g.bin, g.via, why)
			continue
		}
		if solo && len(l) > 1 {
			j := -1
			for _, x := range l {
				if x >= pos && !recvd[x] {
					j = x
					break
				}
			}
			if j < 0 {
				w.violate("C01", "order", "client %d received message %s too often or out of order", c.i, keyHead(g.key))
				continue
			}
			recvd[j] = true
			at[j] = g
			order = append(order, j)
			pos = j + 1
			continue
		}
		if recvd[l[0]] {
			w.violate("C01", "dup", "client %d received message %s more than once (via %s)", c.i, keyHead(g.key), g.via)
			if len(c.upRec) > 0 {
				w.violate("C03", "dup", "client %d received message %s more than once (via %s) with an upgrade going on", c.i, keyHead(g.key), g.via)
			}
			continue
		}
		recvd[l[0]] = true
		at[l[0]] = g
		order = append(order, l[0])
		pos = l[0] + 1
		if em[l[0]].start > g.seq {
			w.violate("C01", "early", "client %d received message %s before it was emitted", c.i, keyHead(g.key))
		}
	}
	maxStart, maxI := -1, -1
	for _, j := range order {
		if e := em[j].end; e >= 0 && e < maxStart {
			w.violate("C01", "order", "client %d received %s after %s although its emit had returned before the other began", c.i, keyHead(em[j].key), keyHead(em[maxI].key))
			break
		}
		if em[j].start > maxStart {
			maxStart, maxI = em[j].start, j
		}
	}
	// gaps: nothing missing before (in real-time order) something received
	missing := func(m *msgRec, i int) bool { return m.ok && m.end >= 0 && !recvd[i] }
	unc := v.unclean(c)
	alive := unc == "" && !v.appClosed(s) && !c.over0(w) && (s == nil || s.closes == 0 || s.closeSeq > w.endSeq)
	if unc == "" && !v.appClosed(s) && s != nil && s.closes > 0 && s.closeSeq < w.endSeq {
		for i, m := range em {
			if missing(m, i) && m.end < s.closeSeq {
				w.violate("C01", "ended-instead", "client %d (mode %d, upgraded %v) never received %s, instead the session ended by itself: %s", c.i, c.p.Mode, c.upOK, keyHead(m.key), c.overWhy)
				break
			}
		}
	}
	// a polling response that got lost may hold what was emitted before the server could notice
	after := int64(-1)
	if c.getLost > 0 {
		after = c.getLostT + v.res.StallNs + int64(c.p.Prof.LatUs+c.p.Prof.JitUs)*4000 + int64(w.plan.cfg("netstall_us"))*1000 + 1e9
	}
	if !solo || c.getLost == 0 {
		for i, m := range em {
			if missing(m, i) && m.end < maxStart && m.t0 > after {
				w.violate("C01", "gap", "client %d (mode %d) never received %s although it received %s, emitted later", c.i, c.p.Mode, keyHead(m.key), keyHead(em[maxI].key))
				if len(c.upRec) > 0 {
					w.violate("C03", "gap", "client %d never received %s although it received %s, emitted later, with an upgrade attempted", c.i, keyHead(m.key), keyHead(em[maxI].key))
				}
				break
			}
		}
	}
	if c.getLost > 0 && (w.plan.cfg("single") > 0 || solo) {
		runs, in := 0, false
		for i, m := range em {
			if m.end >= 0 && m.end < maxStart || alive && m.ok {
				if missing(m, i) {
					if !in {
						runs++
					}
					in = true
				} else if recvd[i] {
					in = false
				}
			}
		}
		if runs > c.getLost {
			w.violate("C01", "gap", "client %d (mode %d): %d separate gaps in what it received but only %d polling responses were lost", c.i, c.p.Mode, runs, c.getLost)
		}
	}
	margin := v.lat(c)
	if len(c.upRec) > 0 { // it does not poll while it waits for its packets to be taken
		margin += v.sleep(c)
		for _, u := range c.upRec {
			margin += int64(u.hold)
		}
	}
	if alive && (!solo || c.getLost == 0) {
		for i, m := range em {
			if m.t0 <= after {
				continue
			}
			if missing(m, i) && w.endT-m.t1 > margin {
				w.violate("C01", "lost", "client %d (mode %d, upgraded %v) never received %s, emitted %s before the end, on a live session", c.i, c.p.Mode, c.upOK, keyHead(m.key), ms(w.endT-m.t1))
				if len(c.upRec) > 0 {
					w.violate("C03", "lost", "client %d never received %s on a live session after an upgrade attempt", c.i, keyHead(m.key))
				}
				break
			}
			if m.end >= 0 && !m.ok && m.start < w.endSeq {
				w.violate("C01", "emit-failed", "emit to client %d failed (%s) on a live session", c.i, m.err)
				break
			}
			if recvd[i] && at[i].t-m.t1 > margin+int64(len(em))*1e6 {
				w.violate("C01", "late", "client %d received %s only %s after it was emitted", c.i, keyHead(m.key), ms(at[i].t-m.t1))
				break
			}
			if m.end >= 0 && m.t1-m.t0 > margin+v.sleep(c) && !m.inline {
				w.violate("C01", "emit-slow", "emit to client %d took %s on a healthy session", c.i, ms(m.t1-m.t0))
				if len(c.upRec) > 0 {
					w.violate("C03", "emit-slow", "emit to client %d took %s around an upgrade attempt", c.i, ms(m.t1-m.t0))
				}
				break
			}
		}
	}
	// flush on close (C06)
	if s != nil && s.appClose >= 0 && s.appClose < w.endSeq && unc == "" {
		wsFrom := -1
		if c.p.Mode == 0 {
			wsFrom = 0
		} else if s.upgrades > 0 {
			for i, e := range w.log_ {
				if e.K == "cb upgrade" && e.C == c.i {
					wsFrom = i
					break
				}
			}
		}
		if !solo && wsFrom >= 0 && wsFrom <= s.appClose && (s.closeSeq < 0 || s.closeSeq > s.appClose) {
			// sessions that were already ending are not covered
			for i, m := range em {
				if missing(m, i) && m.start >= wsFrom && m.end < s.appClose {
					w.violate("C06", "flush", "client %d never received %s whose emit succeeded before the application closed the session", c.i, keyHead(m.key))
					break
				}
			}
		}
	}
}

// over0: the client saw its session end before the end of the workload.
func (c *eclient) over0(w *World) bool { return c.over && c.overT <= w.endT && c.overWhy != "" }

// up checks client-to-server messages (C02).
func (v *verdict) up(c *eclient) {
	w := v.w
	s := v.sess(c)
	var sent []*msgRec
	idx := map[string][]int{}
	for _, m := range w.sent {
		if m.c == c.i {
			k := m.key
			if m.bin {
				k += "\x00b"
			}
			idx[k] = append(idx[k], len(sent))
			sent = append(sent, m)
		}
	}
	var hand []*gotRec
	for _, g := range w.hand {
		if s != nil && g.sess == s || s == nil && g.c == c.i {
			hand = append(hand, g)
		}
	}
	solo := w.plan.cfg("tiny") > 0
	if solo {
		for _, m := range sent {
			if m.post != nil && m.post.bad || m.end >= 0 && !m.ok || m.end < 0 {
				// which of several equal messages got through cannot be told
				for _, g := range hand {
					k := g.key
					if g.bin {
						k += "\x00b"
					}
					if len(idx[k]) == 0 {
						w.violate("C02", "corrupt", "session of client %d (mode %d) handled message %s (binary %v) that it never sent", c.i, c.p.Mode, keyHead(g.key), g.bin)
						return
					}
					idx[k] = idx[k][1:]
				}
				return
			}
		}
	}
	got := make([]*gotRec, len(sent))
	pos := 0
	last := -1
	for i, g := range hand {
		if i > 0 && (hand[i-1].end < 0 || hand[i-1].end > g.seq) {
			w.violate("C02", "concurrent", "client %d: message handler for %s began before the previous one returned", c.i, keyHead(g.key))
		}
		k := g.key
		if g.bin {
			k += "\x00b"
		}
		l := idx[k]
		if len(l) == 0 {
			why := "that it never sent"
			for _, m := range w.sent {
				if m.key == g.key && m.c != c.i {
					why = fmt.Sprintf("that client %d sent", m.c)
					w.violate("C07", "cross", "session of client %d handled message %s %s", c.i, keyHead(g.key), why)
				} else if m.key == g.key {
					why = "with the wrong text/binary type"
				}
			}
			w.violate("C02", "corrupt", "session of client %d (mode %d) handled message %s (binary %v, %d bytes) %s", c.i, c.p.Mode, keyHead(g.key), g.bin, len(g.key), why)
			continue
		}
		j := -1
		if solo {
			for _, x := range l {
				if x >= pos && got[x] == nil {
					j = x
					break
				}
			}
			if j < 0 {
				w.violate("C02", "dup", "client %d: message %s handled too often or out of order", c.i, keyHead(g.key))
				continue
			}
		} else {
			j = l[0]
			if got[j] != nil {
				w.violate("C02", "dup", "client %d: message %s handled twice", c.i, keyHead(g.key))
				continue
			}
		}
		got[j] = g
		pos = j + 1
		if j < last && sent[j].end >= 0 && !sent[j].ok {
			continue // a failed POST may still be on its way
		}
		if j < last {
			w.violate("C02", "order", "client %d: message %s handled after %s, which was sent later", c.i, keyHead(g.key), keyHead(sent[last].key))
			if len(c.upRec) > 0 {
				w.violate("C03", "order", "client %d: message %s handled after %s, which was sent later, with an upgrade going on", c.i, keyHead(g.key), keyHead(sent[last].key))
			}
		}
		if j > last {
			last = j
		}
	}
	unc := v.unclean(c)
	alive := unc == "" && !v.appClosed(s) && !c.over0(w) && (s == nil || s.closes == 0 || s.closeSeq > w.endSeq)
	if unc == "" && !v.appClosed(s) && s != nil && s.closes > 0 && s.closeSeq < w.endSeq {
		for j, m := range sent {
			if (m.post == nil || !m.post.bad) && m.start >= 0 && m.start < s.closeSeq && got[j] == nil {
				w.violate("C02", "ended-instead", "client %d (mode %d, upgraded %v): message %s was not handled, instead the session ended by itself: %s", c.i, c.p.Mode, c.upOK, keyHead(m.key), c.overWhy)
				break
			}
		}
	}
	closedByPkt := c.sentClose >= 0 && c.disturbs == 1 && c.disruptKind == "close packet" && !v.appClosed(s) && len(w.net.fired) == 0 && w.srvCloseSeq < 0 && s != nil && s.closes > 0
	if closedByPkt {
		for _, pr := range w.posts {
			if pr.c == c.i && pr.status != 200 {
				closedByPkt = false
			}
		}
	}
	margin := v.lat(c) + v.sleep(c)
	for j, m := range sent {
		if m.post != nil && m.post.bad {
			if m.post.status == 200 {
				w.violate("C02", "bad-accepted", "client %d: a malformed POST was answered with success", c.i)
			}
			continue
		}
		if m.end < 0 || !m.ok || got[j] != nil {
			continue
		}
		switch {
		case j < last:
			w.violate("C02", "gap", "client %d (mode %d): message %s (sent with success via %s) was never handled although %s, sent later, was", c.i, c.p.Mode, keyHead(m.key), m.conn, keyHead(sent[last].key))
			if len(c.upRec) > 0 {
				w.violate("C03", "gap", "client %d: message %s (sent via %s) was never handled although a later one was, with an upgrade attempted", c.i, keyHead(m.key), m.conn)
			}
		case alive && w.endT-m.t1 > margin:
			w.violate("C02", "lost", "client %d (mode %d, upgraded %v): message %s, sent %s before the end via %s, was never handled on a live session", c.i, c.p.Mode, c.upOK, keyHead(m.key), ms(w.endT-m.t1), m.conn)
			if len(c.upRec) > 0 {
				w.violate("C03", "lost", "client %d: message %s, sent via %s, was never handled on a live session after an upgrade attempt", c.i, keyHead(m.key), m.conn)
			}
		case closedByPkt && m.end < c.sentClose:
			w.violate("C02", "lost-before-close", "client %d (mode %d): message %s, sent before the close packet, was never handled", c.i, c.p.Mode, keyHead(m.key))
		default:
			continue
		}
		break
	}
	if alive {
		for j, m := range sent {
			if m.post != nil && m.post.bad || m.end < 0 || m.end > w.endSeq {
				continue
			}
			if !m.ok && (m.post == nil || !v.hitOn(c, "post")) {
				w.violate("C02", "send-failed", "client %d: sending %s via %s failed (status %v) on a live session", c.i, keyHead(m.key), m.conn, statusOf(m))
				break
			}
			if m.ok && got[j] != nil && got[j].t-m.t0 > margin {
				w.violate("C02", "late", "client %d: message %s handled %s after it was sent", c.i, keyHead(m.key), ms(got[j].t-m.t0))
				if len(c.upRec) > 0 {
					w.violate("C03", "late", "client %d: message %s handled %s after it was sent, with an upgrade attempted", c.i, keyHead(m.key), ms(got[j].t-m.t0))
				}
				break
			}
		}
	}
}

func statusOf(m *msgRec) int {
	if m.post != nil {
		return m.post.status
	}
	return -1
}

func (v *verdict) hitOn(c *eclient, kind string) bool {
	for _, l := range v.w.net.links {
		if l.label == c.label(kind) && len(l.hits) > 0 {
			return true
		}
	}
	return false
}

// upgrades (C03)
func (v *verdict) upgrades(c *eclient) {
	w := v.w
	if len(c.upRec) == 0 || c.p.Mode == 0 {
		return
	}
	s := v.sess(c)
	unc := v.unclean(c)
	if unc != "" || s == nil {
		return
	}
	app := v.appClosed(s)
	bound := v.lat(c) + v.sleep(c)
	if w.plan.Kind == "engine" {
		n, m, last := 0, 0, int64(0)
		for _, u := range c.upRec {
			if u.doneT > 0 {
				m++
			}
			if u.done {
				n, last = n+1, u.doneT
			}
		}
		if s.upgrades > 1 || s.upgrades > m {
			w.violate("C03", "upgrade-event", "client %d completed %d upgrades, the upgrade callback ran %d times", c.i, m, s.upgrades)
		}
		if n > 0 && s.upgrades == 0 && !app && !(s.closes > 0 && s.closeSeq < w.endSeq) && w.endT-last > bound {
			w.violate("C03", "upgrade-event", "client %d completed its upgrade %s before the end, but the upgrade callback never ran", c.i, ms(w.endT-last))
		}
	}
	ended := s.closes > 0 && s.closeSeq < w.endSeq || c.over0(w)
	done := false
	for _, u := range c.upRec {
		if u.done {
			done = true
		}
		fault := false
		for _, l := range w.net.links {
			if u.conn != nil && u.conn.l == l && len(l.hits) > 0 {
				fault = true
			}
		}
		fault = fault || v.lapped(c, u)
		if (u.variant == "" || u.variant == "late") && !u.done && !u.overlap && !fault && !app && u.t1 > 0 && u.t1 < w.endT && (u.pongT == 0 || time.Duration(u.t1-u.pongT) < (w.I+w.T)*9/10) {
			w.violate("C03", "upgrade-failed", "client %d completed every step of the upgrade the server let it, but: %s", c.i, u.err)
		}
		if int64(u.getWait) > bound && !app && c.getLost == 0 && !v.hitOn(c, "poll") {
			w.violate("C03", "poll-stuck", "client %d: the poll in flight was not answered for %s after the probe answer", c.i, u.getWait)
		}
	}
	if ended && !app {
		w.violate("C03", "session-ended", "client %d's session ended (%s) though the client did nothing but try to upgrade (%s)", c.i, c.overWhy, upList(c))
		return
	}
	if app {
		return
	}
	if done && w.endT-c.upT > bound && w.plan.cfg("tiny") == 0 {
		if s.upgrades == 0 {
			// not necessarily announced, but the client must be served over the websocket
			w.probe("no-upgrade-event")
		}
		n := 0
		for _, m := range w.emits {
			if m.c == c.i && m.ok && m.t0 > c.upT+bound {
				n++
				found := false
				for _, g := range w.got {
					if g.c == c.i && g.key == m.key {
						found = true
						if g.via != "ws" {
							w.violate("C03", "not-switched", "client %d: message emitted %s after the upgrade arrived over %s", c.i, ms(m.t0-c.upT), g.via)
						}
					}
				}
				if !found && w.endT-m.t1 > bound {
					w.violate("C03", "not-switched", "client %d: message emitted %s after the upgrade packet never arrived over the websocket", c.i, ms(m.t0-c.upT))
					break
				}
			}
		}
		for _, pr := range c.pings {
			if pr.sent && pr.via == "ws" && pr.pongSeq < 0 && w.endT-pr.t0 > bound {
				w.violate("C03", "not-switched", "client %d: ping over the websocket %s after the upgrade was never answered", c.i, ms(pr.t0-c.upT))
				break
			}
		}
		for _, st := range c.pollAfter {
			if st == 200 {
				w.violate("C03", "old-served", "client %d: its session id was still served over polling after the upgrade", c.i)
			}
			if st == 0 {
				w.violate("C03", "old-hangs", "client %d: a poll with its session id after the upgrade was never answered", c.i)
			}
		}
	}
}

// lapped tells if the server may still be busy with the attempt before, or even get to it only
// after u, and give u up in its favour.
func (v *verdict) lapped(c *eclient, u *upRec) bool {
	for _, o := range c.upRec {
		if o != u && o.t0 <= u.t0 && o.t1+v.res.StallNs+int64(c.p.Prof.LatUs+c.p.Prof.JitUs)*4000+v.sleep(c)+int64(v.w.plan.cfg("netstall_us"))*1000+5e6 > u.t0 {
			return true
		}
	}
	return false
}

func upList(c *eclient) string {
	var s []string
	for _, u := range c.upRec {
		x := u.variant
		if x == "" {
			x = "normal"
		}
		s = append(s, fmt.Sprintf("%s pong=%v done=%v", x, u.pong, u.done))
	}
	return strings.Join(s, "; ")
}

// beats (C04)
func (v *verdict) beats(c *eclient) {
	w := v.w
	if !c.opened {
		return
	}
	s := v.sess(c)
	unc := v.unclean(c)
	app := v.appClosed(s)
	ended := s != nil && s.closes > 0 && s.closeSeq < w.endSeq || c.over0(w)
	if unc == "" && !app && ended {
		w.violate("C04", "healthy-ended", "client %d (mode %d, upgraded %v) pinged every %d%% of the interval, but its session ended: %s", c.i, c.p.Mode, c.upOK, c.p.Ping, c.overWhy)
	}
	sleep := v.sleep(c)
	for _, u := range c.upRec {
		sleep += int64(u.hold)
	}
	if unc == "" && !app && !ended && c.getLost == 0 {
		for _, pr := range c.pings {
			if pr.sent && pr.pongSeq < 0 && w.endT-pr.t0 > v.lat(c)+sleep {
				w.violate("C04", "no-pong", "client %d: ping %s sent %s before the end was never answered", c.i, pr.data, ms(w.endT-pr.t0))
				break
			}
			if pr.pongSeq >= 0 && pr.t1-pr.t0 > v.lat(c)+sleep {
				w.violate("C04", "slow-pong", "client %d: ping %s was answered after %s", c.i, pr.data, ms(pr.t1-pr.t0))
				break
			}
		}
	}
	if c.getLost == 0 && w.plan.cfg("tiny") == 0 {
		for _, pr := range c.pings {
			if pr.pongSeq < 0 || pr.start < 0 {
				continue
			}
			for _, m := range w.emits {
				if m.c == c.i && m.ok && m.end >= 0 && m.end < pr.start {
					for _, g := range w.got {
						if g.c == c.i && g.key == m.key && g.seq > pr.pongSeq {
							w.violate("C04", "pong-overtakes", "client %d: the pong to %s arrived before %s, which had been emitted before the ping was sent", c.i, pr.data, keyHead(m.key))
							return
						}
					}
				}
			}
		}
	}
	// silence ends the session in time
	if s == nil || s.opens == 0 {
		return
	}
	sil := c.disrupt >= 0 && (c.disruptKind == "silence" || c.disruptKind == "vanish") || c.p.Ping == 0
	if !sil || app || w.srvCloseSeq >= 0 {
		return
	}
	for _, l := range w.net.links {
		if strings.HasPrefix(l.label, fmt.Sprintf("c%d/", c.i)) {
			for _, h := range l.hits {
				if h == "longstall" || h == "hole" {
					return
				}
			}
		}
	}
	act := s.openT
	if s.lastIn > act {
		act = s.lastIn
	}
	delay := int64(c.p.Prof.LatUs+c.p.Prof.JitUs)*3000 + int64(w.plan.cfg("netstall_us"))*1000
	if c.lastSent+delay > act {
		act = c.lastSent + delay
	}
	lim := act + int64(w.I+w.T) + v.res.StallNs + int64(100*time.Millisecond) + sleep
	if w.plan.Kind != "engine" && c.upOK { // when the upgrade packet was handled is not seen
		lim += int64(w.T)
	}
	end := s.closeT
	if s.closes == 0 && s.mute {
		return
	}
	if s.closes == 0 {
		end = w.endT
	}
	if end > lim {
		w.violate("C04", "late-timeout", "client %d (mode %d, upgrades %s) went silent; its session was still open %s after its last packet (interval+timeout %s)", c.i, c.p.Mode, upList(c), ms(end-act), w.I+w.T)
		if len(c.upRec) > 0 {
			w.violate("C03", "late-timeout", "client %d: with an upgrade attempted, a silent session stayed open %s", c.i, ms(end-act))
		}
	}
	if s.closes > 0 && w.endT-s.closeT > v.lat(c)+int64(time.Second)+int64(w.T)*2 && !c.over && c.disruptKind == "silence" && !c.stopPoll {
		w.violate("C04", "still-served", "client %d's session timed out but it still has an open connection or is served %s later", c.i, ms(w.endT-s.closeT))
	}
}

// isolation (C07): bystanders are unaffected by the victims.
func (v *verdict) isolation() {
	w := v.w
	nv := w.plan.cfg("victims")
	if nv == 0 {
		return
	}
	for _, c := range w.cl {
		if c.i < nv || c.i >= len(w.plan.Clients) || !c.openTried {
			continue
		}
		if time.Duration(v.res.StallNs) > w.T/3 || w.srvCloseSeq >= 0 {
			return
		}
		b := v.lat(c)
		if !c.opened {
			if !v.disturbed(c) {
				w.violate("C07", "no-handshake", "bystander %d's handshake did not complete (done %v, status %d)", c.i, c.openDone, c.refused)
			}
			continue
		}
		if c.openMs > b {
			w.violate("C07", "slow-handshake", "bystander %d's handshake took %s", c.i, ms(c.openMs))
		}
		if v.unclean(c) != "" {
			continue
		}
		s := v.sess(c)
		if s == nil {
			w.violate("C07", "no-open", "bystander %d's open callback never ran", c.i)
			continue
		}
		if s.openT-c.openT > b {
			w.violate("C07", "slow-open", "bystander %d's open callback ran %s after its handshake", c.i, ms(s.openT-c.openT))
		}
		if (s.closes > 0 && s.closeSeq < w.endSeq || c.over0(w)) && !v.appClosed(s) {
			w.violate("C07", "ended", "bystander %d's session ended: %s", c.i, c.overWhy)
			continue
		}
		for _, cr := range w.calls {
			if cr.c == c.i && cr.inline == "" && cr.kind != "" {
				t1 := cr.t1
				if cr.end < 0 {
					t1 = w.endT
				}
				if t1-cr.t0 > b {
					w.violate("C07", "slow-call", "%s on bystander %d's session took %s", cr.kind, c.i, ms(t1-cr.t0))
					break
				}
			}
		}
		if v.appClosed(s) {
			continue
		}
		for _, m := range w.emits {
			if m.c != c.i || !m.ok || m.inline {
				continue
			}
			var g *gotRec
			for _, x := range w.got {
				if x.c == c.i && x.key == m.key {
					g = x
				}
			}
			if g == nil && w.endT-m.t1 > b || g != nil && g.t-m.t1 > b {
				w.violate("C07", "slow-message", "message to bystander %d took longer than %s", c.i, ms(b))
				break
			}
		}
		for _, m := range w.sent {
			if m.c != c.i || m.post != nil && m.post.bad || m.end < 0 {
				continue
			}
			var g *gotRec
			for _, x := range w.hand {
				if x.c == c.i && x.key == m.key {
					g = x
				}
			}
			if !m.ok || g == nil && w.endT-m.t1 > b || g != nil && g.t-m.t0 > b {
				w.violate("C07", "slow-message", "message from bystander %d was not handled within %s", c.i, ms(b))
				break
			}
		}
		for _, pr := range c.pings {
			if pr.sent && (pr.pongSeq < 0 && w.endT-pr.t0 > b || pr.pongSeq >= 0 && pr.t1-pr.t0 > b) {
				w.violate("C07", "slow-ping", "bystander %d's ping was not answered within %s", c.i, ms(b))
				break
			}
		}
	}
}

// handshakes (C15)
func (v *verdict) handshakes() {
	w := v.w
	for _, c := range w.cl {
		if !c.openTried || c.i >= len(w.plan.Clients) {
			continue
		}
		hit := v.hitOn(c, "ws") || v.hitOn(c, "poll") || v.hitOn(c, "post")
		ss := w.sessionsOf(c.i)
		if len(ss) > c.handshakes {
			w.violate("C15", "extra-session", "client %d made %d handshakes, the open callback ran for %d sessions", c.i, c.handshakes, len(ss))
		}
		if w.srvCloseSeq >= 0 && w.srvClosed && c.openStart > w.srvClosedSeq {
			if c.opened || len(ss) > 0 {
				w.violate("C15", "admitted-after-close", "client %d's handshake began after the server was closed but was admitted (answered %v, open callback ran %v)", c.i, c.opened, len(ss) > 0)
			} else if !c.openDone {
				w.violate("C15", "hang-after-close", "client %d's handshake after the server was closed is never answered", c.i)
			}
			continue
		}
		if w.srvCloseSeq >= 0 {
			continue
		}
		if !c.opened && !hit && !v.disturbed(c) && c.openStart < w.endSeq {
			w.violate("C15", "valid-refused", "client %d's valid handshake was not admitted (answered %v, status %d)", c.i, c.openDone, c.refused)
		}
		if c.opened && len(ss) == 0 && w.plan.cfg("noroot") == 0 && w.endT-c.openT > v.lat(c)+v.sleep(c) {
			w.violate("C15", "no-open-callback", "client %d was admitted but the open callback never ran", c.i)
		}
	}
}

// sortedKeys is for deterministic reports.
func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
