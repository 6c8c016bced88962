package main

import (
	"fmt"
	"strings"
	"time"
)

// Oracles of the Go client scenario.

// gunclean tells why a dialled session may legitimately end before the end of the workload.
func (v *verdict) gunclean(g *gclient, s *gosess) string {
	w := v.w
	if s.err != nil || s.end < 0 {
		return "not dialled"
	}
	if s.disrupt >= 0 && s.disrupt < w.endSeq {
		return s.why
	}
	if s.lnk == nil {
		return "no connection"
	}
	for _, h := range s.lnk.hits {
		if h != "stall" {
			return "fault " + h
		}
	}
	if w.srvCloseSeq >= 0 {
		return "server closed"
	}
	if v.res.StallNs > int64(w.T)/3 {
		return "stalls"
	}
	if w.plan.cfg("netstall_us")*1000 > int(w.T)/4 && w.plan.cfg("pongdelay") > 0 {
		return "stalls and slow pongs"
	}
	if b := w.sessBySid(s.sid); b != nil && v.appClosed(b) {
		return "server application closed it"
	}
	if w.gx.real() && v.sleep(g.c) > int64(w.T)/3 {
		return "slow callbacks" // the server answers no ping meanwhile
	}
	if s.lnk.up.blocked || s.lnk.down.blocked {
		return "congested" // judged by the universal rules only
	}
	return ""
}

func (v *verdict) both(a, code, f string, args ...interface{}) {
	v.w.violate(a, code, f, args...)
	if a != "C14" {
		v.w.violate("C14", code, f, args...)
	}
}

func (v *verdict) gocli() {
	w := v.w
	x := w.sx
	for i := 0; i < len(w.gx.cl); i++ {
		g := w.gx.cl[i]
		for _, s := range g.sess {
			v.gosess(g, s)
		}
		if w.plan.cfg("srv") > 0 {
			v.sioUp(g.c)
		}
		v.goFlows(g)
	}
	for _, cb := range x.cbs[-1] {
		w.violate("C07", "unknown-session", "callback %s on a session without its client's header", cb)
	}
}

// gprep finds out when the server's sessions ended.
func (v *verdict) gprep() {
	x := v.w.sx
	for _, s := range v.w.sess {
		for _, cb := range x.cbs[s.c] {
			if cb.s == s && cb.kind == "disconnect" && cb.ns == "/" && s.closes == 0 {
				s.closes, s.closeSeq, s.closeT = 1, cb.seq, cb.t
			}
		}
	}
	for i := 0; i < len(v.w.gx.cl); i++ {
		g := v.w.gx.cl[i]
		for _, s := range g.sess {
			if s.lnk != nil && s.lnk.client.closed && s == g.cur {
				g.c.over, g.c.overT = true, s.lnk.client.closedT
				g.c.overWhy = "connection closed"
			}
		}
	}
}

func (v *verdict) gosess(g *gclient, s *gosess) {
	w := v.w
	x := w.sx
	margin := v.lat(g.c) + v.sleep(g.c)
	real := w.plan.cfg("srv") > 0
	hits := 0
	if s.lnk != nil {
		hits = len(s.lnk.hits)
	}
	// the dial itself
	valid := real || gvariants[s.variant]
	if s.end < 0 {
		return // reported
	}
	if s.err != nil {
		if valid && hits == 0 && w.srvCloseSeq < 0 && (s.disrupt < 0 || s.disrupt >= s.end) {
			w.violate("C14", "dial-failed", "Go client %d: Dial of a well-behaved server failed: %v", g.i, s.err)
		}
		if s.lnk != nil && (!s.lnk.client.closed || s.lnk.client.closedT > s.t1+int64(100*time.Millisecond)+v.res.StallNs) {
			w.violate("C14", "dial-leak", "Go client %d: Dial failed (%v) but left its connection open", g.i, s.err)
		}
		for _, cb := range s.cbs {
			w.violate("C14", "dial-callback", "Go client %d: Dial failed (%v) but the callback %s ran", g.i, s.err, cb)
		}
		return
	}
	if !valid {
		w.violate("C14", "dial-accepted", "Go client %d: Dial succeeded although the server's handshake was %q", g.i, s.variant)
		return
	}
	if hits == 0 && w.srvCloseSeq < 0 && s.t1-s.t0 > margin {
		w.violate("C14", "dial-slow", "Go client %d: Dial took %s", g.i, ms(s.t1-s.t0))
	}
	if s.lnk == nil {
		return
	}
	cl := s.lnk.client
	unc := v.gunclean(g, s)
	blocked := s.lnk.up.blocked
	slack := int64(200*time.Millisecond) + v.res.StallNs + v.sleep(g.c)
	if blocked {
		slack += 3 * int64(w.T)
	}
	// every way a session may end, the connection is closed in time
	last := s.lnk.down.readT
	if last < s.t1 {
		last = s.t1
	}
	closedT := cl.closedT
	if !cl.closed {
		closedT = w.now()
	}
	quiet := last + int64(w.I+w.T)
	if closedT > quiet+slack {
		w.violate("C14", "late-timeout", "Go client %d received nothing for %s before it gave up its session (interval+timeout %s)", g.i, ms(closedT-last), w.I+w.T)
	}
	if s.closeSeq >= 0 && closedT > s.closeT+int64(w.T)+slack+margin {
		w.violate("C14", "close-late", "Go client %d: the connection was closed %s after Close was called", g.i, ms(closedT-s.closeT))
	}
	if s.st != nil && s.st.endT > 0 {
		hole := s.st.endWhy == "closepkt" || s.st.endWhy == "wsclose"
		for _, h := range s.lnk.hits {
			if h == "hole" || h == "longstall" {
				hole = false
			}
		}
		if (hole || s.st.endWhy == "fin" || s.st.endWhy == "rst") && !s.lnk.down.hole && closedT > s.st.endT+margin+slack {
			w.violate("C14", "end-late", "Go client %d noticed only after %s that the server ended the session (%s)", g.i, ms(closedT-s.st.endT), s.st.endWhy)
		}
	}
	if unc == "" && closedT < w.endT && !(s.closeSeq >= 0 && s.closeT < closedT) {
		w.violate("C14", "session-ended", "Go client %d: its session with a well-behaved server ended by itself after %s", g.i, ms(closedT-s.t1))
	}
	// pairing, and nothing after the end
	open := map[string]bool{}
	seenEnd := -1
	for _, cb := range s.cbs {
		switch cb.kind {
		case "connect":
			if open[cb.ns] {
				v.both("C11", "connect-twice", "Go client %d: second connect callback for %s without a disconnect between", g.i, cb.ns)
			}
			open[cb.ns] = true
		case "disconnect":
			if !open[cb.ns] {
				v.both("C11", "disconnect-unpaired", "Go client %d: disconnect callback for %s, which is not connected", g.i, cb.ns)
			}
			open[cb.ns] = false
			if cl.closed && cb.seq >= cl.closedSeq {
				if seenEnd < 0 {
					seenEnd = cb.seq
					if cb.t > closedT+slack+margin {
						w.violate("C14", "late-disconnect", "Go client %d: disconnect callback %s after the end of the connection", g.i, ms(cb.t-closedT))
					}
				}
			}
		default:
			if seenEnd >= 0 && (w.gx.real() || cb.kind != "error") {
				w.violate("C14", "after-end", "Go client %d: %s after the disconnect callbacks of the session's end", g.i, cb)
			}
		}
	}
	for _, ns := range []string{"/", "/a", "/b"} {
		if open[ns] {
			v.both("C11", "no-disconnect", "Go client %d: its session ended (%s) but %s got no disconnect callback", g.i, s.why, ns)
		}
	}
	// emits once it is over
	for _, a := range x.acts[g.i] {
		if a.gs != s || a.end < 0 || !a.ok {
			continue
		}
		if s.closeEnd >= 0 && a.start > s.closeEnd {
			v.both("C06", "emit-after-close", "Go client %d: an emit succeeded although Close had returned", g.i)
			break
		}
		if last := lastConn(s, a.ns, a.start); last != nil && last.kind == "disconnect" && lastConn(s, a.ns, a.end) == last {
			st := s.st
			again := false
			if st != nil {
				// a later connect packet may have taken effect before its
				// callback runs, even if another disconnect follows it
				n := 0
				for _, gs := range st.sent {
					if gs.ns == a.ns && (gs.kind == "connect" || gs.kind == "disconnect") && gs.start < a.end {
						again = gs.kind == "connect"
						if again {
							n++
						}
					}
				}
				for _, cb := range s.cbs {
					if cb.ns == a.ns && cb.kind == "connect" && cb.seq <= last.seq {
						n--
					}
				}
				again = again || n > 0
			}
			if !again {
				v.both("C11", "emit-not-connected", "Go client %d: an emit on %s succeeded after its disconnect callback", g.i, a.ns)
				break
			}
		}
	}
	if real {
		v.goReal(g, s, unc, margin)
	} else if s.st != nil {
		v.goStub(g, s, unc, margin)
		if w.plan.Prop == "C16" {
			v.goErrors(g, s, unc, margin)
		}
	}
}

func (gx *gx) real() bool { return gx.x.w.plan.cfg("srv") > 0 }

func lastConn(s *gosess, ns string, before int) (last *scb) {
	for _, cb := range s.cbs {
		if cb.ns == ns && (cb.kind == "connect" || cb.kind == "disconnect") && cb.seq < before {
			last = cb
		}
	}
	return
}

// goReal: the server is the library's.
func (v *verdict) goReal(g *gclient, s *gosess, unc string, margin int64) {
	w := v.w
	n := 0
	for i, cb := range s.cbs {
		if cb.kind == "connect" {
			n++
			if cb.ns != "/" {
				v.both("C11", "odd-connect", "Go client %d: connect callback for %s, to which it never connected", g.i, cb.ns)
			}
		}
		if i == 0 && cb.kind != "connect" {
			v.both("C11", "connect-first", "Go client %d: its first callback is %s, not the connect callback", g.i, cb)
		}
	}
	if n == 0 && unc == "" && w.endT-s.t1 > margin {
		v.both("C11", "no-connect", "Go client %d: the connect callback never ran", g.i)
	}
	if b := w.sessBySid(s.sid); unc == "" {
		if b == nil {
			w.violate("C15", "no-open-callback", "Go client %d was admitted but the connect callback of / never ran at the server", g.i)
		} else if b.closes > 0 && b.closeSeq < w.endSeq {
			w.violate("C14", "not-kept-alive", "Go client %d: the server ended its session although nothing was wrong", g.i)
		}
	}
}

// goStub: the callbacks of the client follow what the stub server sent, in order.
func (v *verdict) goStub(g *gclient, s *gosess, unc string, margin int64) {
	w := v.w
	x := w.sx
	st := s.st
	es := v.goModel(g, s, false)
	i := 0
	now := map[string]bool{}
	for k, e := range es {
		// error callbacks also tell of answers that could not be sent
		for i < len(s.cbs) && s.cbs[i].kind == "error" && (w.plan.Prop == "C16" || !strings.Contains(s.cbs[i].key, "server error")) {
			i++
		}
		if i < len(s.cbs) && gmatch(e.e, s.cbs[i]) {
			cb := s.cbs[i]
			switch cb.kind {
			case "connect":
				now[cb.ns] = true
			case "disconnect":
				delete(now, cb.ns)
			}
			if unc == "" && cb.seq < w.endSeq && cb.t-e.gs.t0 > margin {
				w.violate("C14", "late", "Go client %d: %s ran %s after it was sent", g.i, gname(e.e), ms(cb.t-e.gs.t0))
			}
			i++
			continue
		}
		if e.e.opt {
			continue
		}
		if i < len(s.cbs) && !(s.cbs[i].kind == "disconnect" && now[s.cbs[i].ns]) {
			prev := "nothing"
			if k > 0 {
				prev = gname(es[k-1].e)
			}
			v.goMismatch(g, s.cbs[i], fmt.Sprintf("Go client %d: %s happened after %s, where what the server sent calls for %s", g.i, s.cbs[i], prev, gname(e.e)), e.e.kind)
			return
		}
		if i >= len(s.cbs) || s.cbs[i].t > w.endT {
			// the session is still open, or ended before this was processed
			lost := unc == "" && e.gs.ok && w.endT-e.gs.t1 > margin
			if lost {
				prop := map[string]string{"event": "C09", "ack": "C10", "connect": "C11", "disconnect": "C11", "error": "C14"}[e.e.kind]
				v.both(prop, "lost", "Go client %d: %s did not happen within %s of its packet, on a live session", g.i, gname(e.e), ms(w.endT-e.gs.t1))
			}
		}
		// an orderly end: all that was sent before the server closed is delivered
		if st.endT > 0 && (st.endWhy == "closepkt" || st.endWhy == "fin" || st.endWhy == "wsclose") && len(s.lnk.hits) == 0 && !s.lnk.down.hole && !s.lnk.reset && s.closeSeq < 0 &&
			s.lnk.client.closedT > st.endT && s.lnk.up.writeT < st.endT && s.why == stWhy[st.endWhy] && v.res.StallNs < int64(w.T)/3 && e.gs.ok && e.gs.t1 <= st.endT && !s.lnk.up.blocked && w.plan.cfg("pongdelay") == 0 {
			v.both("C09", "lost-at-end", "Go client %d: %s did not happen although it was sent before the server closed", g.i, gname(e.e))
		}
		break
	}
	for ; i < len(s.cbs); i++ {
		cb := s.cbs[i]
		if cb.kind == "error" && (w.plan.Prop == "C16" || !strings.Contains(cb.key, "server error")) {
			continue
		}
		if cb.kind == "disconnect" && now[cb.ns] {
			delete(now, cb.ns)
			continue
		}
		v.goMismatch(g, cb, fmt.Sprintf("Go client %d: %s happened, where what the server sent calls for nothing more", g.i, cb), "end")
		return
	}
	// pings
	if unc == "" {
		prev := s.t1
		slack := margin - v.sleep(g.c)
		bad := false
		for k, t := range st.pings {
			if t > w.endT {
				break
			}
			d := t - prev
			if d > int64(w.I)+slack || k > 0 && d < int64(w.I)-slack {
				w.violate("C14", "ping-interval", "Go client %d: ping %d came %s after the one before (or the handshake); the announced interval is %s", g.i, k, ms(d), w.I)
				bad = true
				break
			}
			prev = t
		}
		if !bad && w.endT-prev > int64(w.I)+slack {
			w.violate("C14", "no-ping", "Go client %d: no ping for %s; the announced interval is %s", g.i, ms(w.endT-prev), w.I)
		}
	}
	// requests of the server are answered
	for _, m := range x.ems {
		if m.c != g.i || m.gs != s || m.id < 0 || len(m.got) == 0 || len(m.acts) == 0 {
			continue
		}
		if unc == "" && len(m.acked) == 0 && w.endT-m.acts[0].t0 > margin {
			v.both("C10", "unanswered", "Go client %d handled request %d on %s but never answered it", g.i, m.id, m.ns)
		}
	}
	for _, a := range x.acts[g.i] {
		if a.gs != s {
			continue
		}
		for _, cb := range a.runs {
			if a.style >= 0 && cb.args != a.resp {
				w.violate("C10", "ack-values", "Go client %d: the acknowledgement callback of %s got %.150s; answered was %.150s", g.i, keyHead(a.key), cb.args, a.resp)
			}
		}
	}
}

var stWhy = map[string]string{"closepkt": "server close packet", "fin": "server closed the connection", "wsclose": "websocket close"}

// left tells if the stub had disconnected the namespace when it answered.
func (a *act) left(st *gstub, before *gsent) bool {
	for _, gs := range st.sent {
		if gs == before {
			break
		}
		if gs.kind == "disconnect" && gs.ns == a.ns {
			return true
		}
	}
	return false
}

func gmatch(e exp, c *scb) bool {
	if e.kind != c.kind || e.ns != c.ns {
		return false
	}
	switch e.kind {
	case "event":
		return c.em == e.em
	case "ack":
		return c.a == e.a
	}
	return true
}

func gname(e exp) string {
	switch e.kind {
	case "event":
		return fmt.Sprintf("event %s on %s", keyHead(e.em.key), e.ns)
	case "ack":
		return fmt.Sprintf("the acknowledgement callback of %s (%s)", keyHead(e.a.key), e.ns)
	}
	return e.kind + " " + e.ns
}

func (v *verdict) goMismatch(g *gclient, cb *scb, msg, want string) {
	props := map[string]bool{"C14": true}
	for _, k := range []string{cb.kind, want} {
		switch k {
		case "connect", "disconnect":
			props["C11"] = true
		case "event":
			props["C09"] = true
		case "ack":
			props["C10"] = true
		}
	}
	for _, p := range []string{"C09", "C10", "C11", "C14"} {
		if props[p] {
			v.w.violate(p, "sequence", "%s", msg)
		}
	}
}

type flow struct {
	start, end int
	t1         int64
	ok         bool
	got        int
	gotT       int64
	what       string
	who        *gosess
}

// goFlows: order, gaps and losses in both directions.
func (v *verdict) goFlows(g *gclient) {
	w := v.w
	x := w.sx
	real := w.gx.real()
	margin := v.lat(g.c) + v.sleep(g.c)
	var up, down []flow
	for _, a := range x.acts[g.i] {
		if a.kind != "ev" || a.start < 0 {
			continue
		}
		f := flow{start: a.start, end: a.end, t1: a.t1, ok: a.ok, got: -1, what: keyHead(a.key), who: a.gs}
		if real {
			if a.cb != nil {
				f.got, f.gotT = a.cb.seq, a.cb.t
			} else if !handled[a.name] || !x.reg[a.ns] {
				continue
			}
		} else if len(a.gots) > 0 {
			f.got, f.gotT = a.gots[0], a.gotT
		}
		up = append(up, f)
		// acknowledgements
		if a.style >= 0 && real && a.gs != nil {
			unc := v.gunclean(g, a.gs)
			for _, cb := range a.runs {
				if cb.args != a.resp {
					w.violate("C10", "ack-values", "Go client %d: the acknowledgement callback of %s got %.150s; answered was %.150s", g.i, keyHead(a.key), cb.args, a.resp)
				}
				if a.cb == nil || cb.seq < a.cb.seq {
					w.violate("C10", "ack-unasked", "Go client %d: the acknowledgement callback of %s ran before the server handled it", g.i, keyHead(a.key))
				}
			}
			if unc == "" && a.cb != nil && a.cb.end >= 0 && a.cb.end < w.endSeq && len(a.runs) == 0 && w.endT-w.log_[a.cb.end].T > margin {
				v.both("C10", "ack-lost", "Go client %d: the acknowledgement callback of %s did not run, its request was handled %s before the end", g.i, keyHead(a.key), ms(w.endT-w.log_[a.cb.end].T))
			}
		}
	}
	for _, m := range x.ems {
		if m.c != g.i || m.start < 0 || !real {
			continue
		}
		if !handled[strings.SplitN(strings.Trim(m.want, "[]"), `"`, 3)[1]] && !strings.HasPrefix(m.want, `["a<b>`) {
			continue
		}
		f := flow{start: m.start, end: m.end, t1: m.t1, ok: m.ok, got: -1, what: keyHead(m.key), who: g.cur}
		if len(m.got) > 0 {
			f.got, f.gotT = m.got[0], m.gotT
		}
		down = append(down, f)
		if m.ack >= 0 && g.cur != nil {
			unc := v.gunclean(g, g.cur)
			if unc == "" && len(m.acts) > 0 && len(m.runs) == 0 && w.endT-m.acts[0].t0 > margin {
				v.both("C10", "ack-lost", "the server's acknowledgement callback of %s did not run, Go client %d handled it %s before the end", keyHead(m.key), g.i, ms(w.endT-m.acts[0].t0))
			}
		}
	}
	v.flow(g, up, "sent by", margin)
	v.flow(g, down, "sent to", margin)
	// refused emits
	for _, a := range x.acts[g.i] {
		if a.gs == nil || a.end < 0 || a.ok || v.gunclean(g, a.gs) != "" || a.end > w.endSeq {
			continue
		}
		if x.quiet[a.ns] && a.gs.st != nil && a.gs.st.joined(a) {
			v.both("C11", "emit-failed", "Go client %d: emit on %s failed (%s) although the namespace is connected", g.i, a.ns, a.err)
		}
		if l := lastConn(a.gs, a.ns, a.start); l != nil && l.kind == "connect" {
			stable := true
			if st := a.gs.st; st != nil {
				for _, gs := range st.sent {
					if gs.kind == "disconnect" && gs.ns == a.ns && gs.start < a.end && (gs.start > l.seq || true) {
						stable = false
					}
				}
			}
			if stable {
				v.both("C09", "emit-failed", "Go client %d: emit on %s failed (%s) although the namespace is connected", g.i, a.ns, a.err)
			}
		}
	}
}

// joined tells if an event showed that the client had joined the namespace when it emitted.
func (st *gstub) joined(a *act) bool {
	first := -1
	for i, gs := range st.sent {
		if gs.ns != a.ns {
			continue
		}
		if gs.kind == "connect" && gs.ok && first < 0 {
			first = i
		}
		if gs.kind == "disconnect" && gs.start < a.end {
			return false
		}
	}
	if first < 0 {
		return false
	}
	for _, gs := range st.sent[first:] {
		if gs.kind == "event" && gs.em != nil {
			for _, q := range gs.em.got {
				if q <= a.start {
					return true
				}
			}
		}
	}
	return false
}

func (v *verdict) flow(g *gclient, fs []flow, dir string, margin int64) {
	w := v.w
	maxStart, what := -1, ""
	var got []flow
	for _, f := range fs {
		if f.got >= 0 {
			got = append(got, f)
		}
	}
	for i := 1; i < len(got); i++ {
		for j := i; j > 0 && got[j].got < got[j-1].got; j-- {
			got[j], got[j-1] = got[j-1], got[j]
		}
	}
	for _, f := range got {
		if f.end >= 0 && f.end < maxStart {
			v.both("C09", "order", "event %s, %s Go client %d, was received after %s although its emit had returned before the other began", f.what, dir, g.i, what)
			break
		}
		if f.start > maxStart {
			maxStart, what = f.start, f.what
		}
	}
	for _, f := range fs {
		if f.got >= 0 && f.got < f.start {
			v.both("C09", "early", "event %s, %s Go client %d, was received before it was emitted", f.what, dir, g.i)
		}
		if f.end < 0 || !f.ok || f.who == nil {
			continue
		}
		same := f.who == g.cur
		if f.got < 0 && same && f.end < maxStart && w.log_[maxStart].T >= f.who.t0 && len(g.sess) == 1 {
			v.both("C09", "gap", "event %s, %s Go client %d, was never received although %s, emitted later, was", f.what, dir, g.i, what)
			break
		}
		s := f.who
		unc := v.gunclean(g, s)
		if unc == "" && f.t1 < w.endT {
			if f.got < 0 && w.endT-f.t1 > margin {
				v.both("C09", "lost", "event %s, %s Go client %d, was not received within %s, on a live session", f.what, dir, g.i, ms(w.endT-f.t1))
				break
			}
			if f.got >= 0 && f.gotT-f.t1 > margin {
				v.both("C09", "late", "event %s, %s Go client %d, was received only %s after it was emitted", f.what, dir, g.i, ms(f.gotT-f.t1))
				break
			}
		}
		// own Close delivers what was emitted before
		if f.got < 0 && dir == "sent by" && s.closeSeq >= 0 && f.end < s.closeSeq && s.why == "own close" && s.lnk != nil && len(s.lnk.hits) == 0 && !s.lnk.up.blocked && !s.lnk.up.hole && !s.lnk.reset &&
			v.res.StallNs < int64(w.T)/3 && s.closeSeq < w.endSeq && w.srvCloseSeq < 0 && s.disrupt >= s.closeSeq-1 && s.closeT-s.lnk.down.readT < int64(w.I) && s.lnk.down.writeT < s.closeT && (s.st == nil || s.st.endT == 0) {
			if b := w.sessBySid(s.sid); b == nil || !v.appClosed(b) {
				v.both("C06", "close-lost", "event %s was emitted by Go client %d before it closed its session but never reached the server", f.what, g.i)
				break
			}
		}
	}
}

type gex struct {
	e  exp
	gs *gsent
}

// goModel is what the stub server's packets call for at the Go client.
func (v *verdict) goModel(g *gclient, s *gosess, errs bool) (es []gex) {
	x := v.w.sx
	cli := func(ns string) bool { return ns == "/" || ns == "/a" || ns == "/b" || v.w.sx.quiet[ns] }
	member := map[string]bool{}
	answered := map[*act]bool{}
	for _, gs := range s.st.sent {
		if !cli(gs.ns) || gs.skip {
			continue
		}
		e := exp{kind: gs.kind, ns: gs.ns}
		switch gs.kind {
		case "connect":
			if member[gs.ns] {
				continue
			}
			member[gs.ns] = true
			if x.quiet[gs.ns] {
				continue
			}
		case "disconnect":
			if !member[gs.ns] {
				continue
			}
			member[gs.ns] = false
			if x.quiet[gs.ns] {
				continue
			}
		case "event":
			e.em = gs.em
		case "ack":
			if gs.a == nil || answered[gs.a] || !member[gs.ns] {
				continue
			}
			// the namespace may have been left since the emit
			if gs.a.left(s.st, gs) {
				e.opt = true
			} else {
				answered[gs.a] = true
			}
			e.a = gs.a
			if gs.to != "" { // its values do not fit
				if e.kind = "error"; !errs || !x.reported(gs.to, gs.ns) {
					continue
				}
			}
		case "error", "bad":
			if e.kind = "error"; v.w.plan.Prop != "C16" && x.quiet[gs.ns] || v.w.plan.Prop == "C16" && (!errs || !x.reported(gs.to, gs.ns)) {
				continue
			}
			if gs.to == "*" {
				e.ns = "*"
			}
		}
		es = append(es, gex{e, gs})
	}
	return
}
