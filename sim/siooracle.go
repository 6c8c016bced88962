package main

import (
	"fmt"
	"time"
)

// Oracles of the socket.io scenario.

// exp is a callback the reference model of namespace membership expects.
type exp struct {
	kind, ns string
	a        *act
	opt      bool
	em       *sem
}

func (e exp) String() string {
	switch e.kind {
	case "event":
		return fmt.Sprintf("event %q %s on %s", e.a.name, keyHead(e.a.key), e.ns)
	case "ack":
		return fmt.Sprintf("the acknowledgement callback of %s (%s)", keyHead(e.em.key), e.ns)
	}
	return e.kind + " " + e.ns
}

func (c *scb) String() string {
	switch c.kind {
	case "event":
		return fmt.Sprintf("event %q %s on %s", c.name, keyHead(c.key), c.ns)
	case "ack":
		return fmt.Sprintf("the acknowledgement callback of %s (%s)", keyHead(c.key), c.ns)
	}
	return c.kind + " " + c.ns
}

func (e exp) matches(c *scb) bool {
	if e.kind != c.kind || e.ns != c.ns {
		return false
	}
	switch e.kind {
	case "event":
		return c.key == e.a.key && c.name == e.a.name
	case "ack":
		return c.em == e.em
	}
	return true
}

var handled = map[string]bool{"s": true, "mix": true, "coll": true, "any": true, "num": true, "fix": true, "bm": true, "b1": true, "b3": true, weird: true, "q0": true, "q1": true, "q2": true, "qb": true, "qx": true}

// model replays what a client sent through the rules of namespace membership.
func (x *sx) model(c int) (out []exp) { return x.modelAll(c, false) }

// modelAll includes the error callbacks on request.
func (x *sx) modelAll(c int, errs bool) (out []exp) {
	member := map[string]bool{"/": true}
	if x.reg["/"] {
		out = append(out, exp{kind: "connect", ns: "/"})
	}
	answered := map[*sem]bool{}
	epoch := map[string]int{}
	emEpoch := map[*sem]int{}
	for _, a := range x.acts[c] {
		cb := x.reg[a.ns]
		known := cb || a.ns == "/"
		switch a.kind {
		case "join":
			if known && !member[a.ns] {
				member[a.ns] = true
				if cb && !x.quiet[a.ns] {
					out = append(out, exp{kind: "connect", ns: a.ns, a: a})
				}
			}
		case "leave":
			if member[a.ns] {
				member[a.ns] = false
				epoch[a.ns]++
				if cb && !x.quiet[a.ns] {
					out = append(out, exp{kind: "disconnect", ns: a.ns, a: a})
				}
			}
		case "ev":
			if member[a.ns] && cb && handled[a.name] {
				out = append(out, exp{kind: "event", ns: a.ns, a: a})
			}
		case "ack":
			if a.em == nil || a.ns != a.em.ns || answered[a.em] {
				continue
			}
			if _, ok := emEpoch[a.em]; !ok {
				// the emission was made in the membership in force when it was received, or an earlier one
				emEpoch[a.em] = epoch[a.ns]
			}
			if member[a.ns] {
				answered[a.em] = true
				if a.bad {
					if errs && cb && x.reported("ns", a.ns) {
						out = append(out, exp{kind: "error", ns: a.ns, a: a, opt: a.em.left(x, a)})
					}
					continue
				}
				out = append(out, exp{kind: "ack", ns: a.ns, a: a, em: a.em, opt: a.em.left(x, a)})
			}
		case "err", "bad":
			if !errs || !x.reported(a.to, a.ns) {
				continue
			}
			if a.to == "*" {
				out = append(out, exp{kind: "error", ns: "*", a: a})
			} else if member[a.ns] && cb {
				out = append(out, exp{kind: "error", ns: a.ns, a: a})
			}
		}
	}
	return out
}

// sioPrep finds out when sessions ended, before the other oracles run.
func (v *verdict) sioPrep() {
	w := v.w
	x := w.sx
	for _, s := range w.sess {
		if s.socks == nil {
			continue
		}
		var mine []*scb
		for _, cb := range x.cbs[s.c] {
			if cb.s == s && cb.kind != "error" {
				mine = append(mine, cb)
			}
		}
		es := x.model(s.c)
		i := 0
		for _, e := range es {
			if i < len(mine) && e.matches(mine[i]) {
				i++
			} else if !e.opt {
				break
			}
		}
		if i < len(mine) && mine[i].kind == "disconnect" {
			s.closes, s.closeSeq, s.closeT = 1, mine[i].seq, mine[i].t
		}
		n := 0
		for _, cb := range mine {
			switch cb.kind {
			case "connect":
				n++
			case "disconnect":
				n--
			}
		}
		s.mute = s.closes == 0 && n <= 0
	}
}

func (v *verdict) sioAlive(c *eclient) bool {
	w := v.w
	s := v.sess(c)
	return s != nil && v.unclean(c) == "" && !v.appClosed(s) && !c.over0(w) && (s.closes == 0 || s.closeSeq > w.endSeq)
}

func (v *verdict) sio() {
	w := v.w
	x := w.sx
	hostile := w.plan.Kind == "hostile"
	for _, c := range w.cl {
		if hostile && v.isHostile(c) {
			continue
		}
		v.sioUp(c)
		v.sioDown(c)
		if !hostile && w.plan.Prop == "C16" {
			v.sioErrors(c)
		}
		if hostile || w.plan.cfg("victims") > 0 {
			v.sioBystander(c)
		}
	}
	for _, cb := range x.cbs[-1] {
		w.violate("C07", "unknown-session", "callback %s on a session without its client's header", cb)
	}
	// close notifications in time
	after := -1
	for i, e := range w.log_ {
		if e.K == "after-inactivity" {
			after = i
		}
	}
	for _, s := range w.sess {
		if s.closes > 0 && after >= 0 && s.closeSeq > after {
			w.violate("C05", "late-close", "client %d: disconnect callbacks later than ping interval + 13 ping timeouts after the client left", s.c)
		}
		closed := -1
		for _, cr := range w.calls {
			if cr.kind == "close" && cr.c == s.c && cr.end >= 0 && (closed < 0 || cr.end < closed) && len(w.sessionsOf(s.c)) == 1 {
				closed = cr.end
			}
		}
		if closed >= 0 {
			for _, m := range x.ems {
				if m.c == s.c && m.start > closed && m.end >= 0 && m.ok {
					w.violate("C06", "emit-after-close", "emit to client %d succeeded after Close had returned", s.c)
					break
				}
			}
		}
	}
}

func (v *verdict) isHostile(c *eclient) bool {
	return c.i >= len(v.w.plan.Clients)-v.w.plan.cfg("hostile") && c.i < len(v.w.plan.Clients)
}

// sioUp: what the server application saw of one client.
func (v *verdict) sioUp(c *eclient) {
	w := v.w
	x := w.sx
	cbs := x.cbs[c.i]
	acts := x.acts[c.i]
	if len(w.sessionsOf(c.i)) > 1 {
		w.violate("C15", "extra-session", "client %d made one handshake but %d sessions were opened", c.i, len(w.sessionsOf(c.i)))
		return
	}
	s := v.sess(c)
	// what holds in any case
	conn := map[string]bool{}
	seen := map[string]bool{}
	nroot := 0
	for i, cb := range cbs {
		switch cb.kind {
		case "connect":
			if conn[cb.ns] {
				w.violate("C11", "connect-twice", "client %d: second connect callback for %s without a disconnect between", c.i, cb.ns)
			}
			conn[cb.ns] = true
			if cb.ns == "/" {
				nroot++
			}
		case "disconnect":
			if !conn[cb.ns] {
				w.violate("C11", "disconnect-unpaired", "client %d: disconnect callback for %s, which is not connected", c.i, cb.ns)
				w.violate("C05", "dup-disconnect", "client %d: disconnect callback for %s, which is not connected", c.i, cb.ns)
			}
			conn[cb.ns] = false
		case "event":
			a := x.actByKey[cb.key]
			if a == nil {
				w.violate("C09", "corrupt", "client %d: %s handled but never sent", c.i, cb)
				continue
			}
			if a.c != c.i {
				continue // reported
			}
			if seen[cb.key] {
				w.violate("C09", "dup", "client %d: %s handled twice", c.i, cb)
			}
			seen[cb.key] = true
			if a.ns != cb.ns {
				w.violate("C11", "foreign-nsp", "client %d: event sent on %s was handled in %s", c.i, a.ns, cb.ns)
				w.violate("C09", "foreign-nsp", "client %d: event sent on %s was handled in %s", c.i, a.ns, cb.ns)
			}
			if a.name != cb.name || a.want != cb.args {
				w.violate("C09", "args", "client %d: handler of %q ran with %.200s; sent was %q with %.200s", c.i, cb.name, cb.args, a.name, a.want)
			}
			if !conn[cb.ns] && !x.quiet[cb.ns] {
				w.violate("C11", "not-connected", "client %d: event on %s handled while it is not connected", c.i, cb.ns)
			}
			a.cb = cb
		case "ack":
			if !conn[cb.ns] && !(cb.ns == "/" && !x.reg["/"]) && !x.quiet[cb.ns] {
				w.violate("C11", "ack-not-connected", "client %d: acknowledgement callback on %s run while it is not connected", c.i, cb.ns)
			}
			ok := len(cb.em.acts) == 0
			for _, a := range cb.em.acts {
				if a.vals == cb.args && a.start < cb.seq {
					ok = true
				}
			}
			if len(cb.em.acts) == 0 {
				w.violate("C10", "ack-unasked", "client %d: the acknowledgement callback of %s ran with %.100s although the client never answered it", c.i, keyHead(cb.key), cb.args)
			} else if !ok {
				w.violate("C10", "ack-values", "client %d: the acknowledgement callback of %s got %.150s; answered was %.150s", c.i, keyHead(cb.key), cb.args, cb.em.acts[0].vals)
			} else if cb.args != cb.em.acts[0].vals && cb.em.acts[0].ok && !cb.em.left(x, cb.em.acts[0]) {
				w.violate("C10", "ack-not-first", "client %d: the acknowledgement callback of %s got the values of a later answer", c.i, keyHead(cb.key))
			}
		}
		_ = i
	}
	if s != nil && (s.closes > 0 || len(cbs) > 0) {
		for _, ns := range []string{"/", "/a", "/b", "/q"} {
			if conn[ns] {
				w.violate("C11", "no-disconnect", "client %d: its session ended but %s got no disconnect callback", c.i, ns)
				w.violate("C05", "no-disconnect", "client %d: its session ended but %s got no disconnect callback", c.i, ns)
			}
		}
	}
	weak := false
	for _, a := range acts {
		if a.end >= 0 && !a.ok {
			weak = true
		}
	}
	if weak || s == nil || w.gx != nil {
		return
	}
	es := x.model(c.i)
	member := map[string]bool{}
	alive := v.sioAlive(c)
	margin := v.lat(c) + v.sleep(c) + v.upWait(c)
	i := 0
	var real []*scb
	for _, cb := range cbs {
		if cb.kind != "error" {
			real = append(real, cb)
		}
	}
	for _, e := range es {
		if e.kind == "error" {
			continue
		}
		if i < len(real) && e.matches(real[i]) {
			switch e.kind {
			case "connect":
				member[e.ns] = true
			case "disconnect":
				delete(member, e.ns)
			}
			if e.a != nil && alive && real[i].seq < w.endSeq && real[i].t-e.a.t0 > margin {
				w.violate("C09", "late", "client %d: %s ran %s after it was sent", c.i, e, ms(real[i].t-e.a.t0))
			}
			i++
			continue
		}
		if e.opt {
			continue
		}
		// not matched: the session must have ended here
		if i < len(real) && !(real[i].kind == "disconnect" && member[real[i].ns]) {
			v.modelMismatch(c, e, real, i, acts)
			return
		}
		if alive && e.a != nil && e.a.end >= 0 && w.endT-e.a.t1 > margin {
			prop := map[string]string{"event": "C09", "ack": "C10", "connect": "C11", "disconnect": "C11"}[e.kind]
			w.violate(prop, "lost", "client %d (mode %d, upgraded %v): %s did not happen within %s of its packet, on a live session", c.i, c.p.Mode, c.upOK, e, ms(w.endT-e.a.t1))
		}
		if alive && e.a == nil {
			w.violate("C15", "no-open-callback", "client %d was admitted but the connect callback of / never ran", c.i)
		}
		break
	}
	for ; i < len(real); i++ {
		cb := real[i]
		if cb.kind == "disconnect" && member[cb.ns] {
			delete(member, cb.ns)
			continue
		}
		v.modelMismatch(c, exp{kind: "end"}, real, i, acts)
		return
	}
	// ended for no reason
	if s.closes > 0 && s.closeSeq < w.endSeq && v.unclean(c) == "" && !v.appClosed(s) {
		w.violate("C09", "session-ended", "client %d did nothing wrong, but its session ended: %s", c.i, c.overWhy)
		w.violate("C11", "session-ended", "client %d did nothing wrong, but its session ended: %s", c.i, c.overWhy)
		if p := w.plan.Prop; p == "C12" || p == "C16" {
			w.violate(p, "session-ended", "client %d did nothing wrong, but its session ended: %s", c.i, c.overWhy)
		}
	}
}

// upWait is time the client spent between the answer to its probe and its upgrade packet, not polling.
func (v *verdict) upWait(c *eclient) (d int64) {
	for _, u := range c.upRec {
		d += int64(u.hold)
		d += int64(u.getWait)
	}
	return
}

func (v *verdict) modelMismatch(c *eclient, e exp, real []*scb, i int, acts []*act) {
	w := v.w
	cb := real[i]
	prev := "nothing"
	if i > 0 {
		prev = real[i-1].String()
	}
	code := "sequence"
	props := map[string]bool{}
	after := e.kind == "end" || i > 0 && real[i-1].kind == "disconnect" && (e.kind != "disconnect")
	switch cb.kind {
	case "connect":
		props["C11"] = true
	case "disconnect":
		props["C11"], props["C05"] = true, true
	case "event":
		props["C09"] = true
		if e.kind == "end" || e.kind == "connect" {
			props["C11"] = true
		}
	case "ack":
		props["C10"] = true
	}
	switch e.kind {
	case "event":
		props["C09"] = true
	case "ack":
		props["C10"] = true
	case "connect", "disconnect":
		props["C11"] = true
	}
	if s := v.sess(c); s != nil && s.closes > 0 && cb.seq > s.closeSeq && after {
		code = "after-end"
		props = map[string]bool{"C05": true, "C11": true}
	}
	want := e.String()
	if e.kind == "end" {
		want = "nothing more"
	}
	for _, p := range []string{"C05", "C09", "C10", "C11"} {
		if props[p] {
			w.violate(p, code, "client %d: %s happened after %s, where what the client sent calls for %s", c.i, cb, prev, want)
		}
	}
}

// sioDown: what one client received.
func (v *verdict) sioDown(c *eclient) {
	w := v.w
	x := w.sx
	sc := x.cl[c.i]
	s := v.sess(c)
	if sc == nil || !c.opened {
		return
	}
	acts := x.acts[c.i]
	alive := v.sioAlive(c)
	exact := c.getLost == 0
	margin := v.lat(c) + v.sleep(c) + v.upWait(c)
	if len(sc.pkts) > 0 && exact {
		if p := sc.pkts[0].p; p.typ != sConnect || p.nsp != "/" {
			w.violate("C15", "connect-first", "client %d: the first socket.io packet is %s, not the connect packet of the root namespace", c.i, p)
		}
	}
	if alive && exact && len(sc.pkts) == 0 && w.endT-c.openT > margin {
		w.violate("C15", "connect-first", "client %d never got the connect packet of the root namespace", c.i)
	}
	if sc.dec.cur != nil && alive && exact && w.endT-c.lastPkt(sc) > margin {
		w.violate("C09", "mixed", "client %d: packet %s never got all its attachments", c.i, sc.dec.cur)
	}
	// control packets
	joins, errs, connects, errors := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	weak := false
	for _, a := range acts {
		if a.end < 0 || !a.ok {
			weak = true
		}
		switch {
		case a.kind == "join" && (x.reg[a.ns] || a.ns == "/"):
			joins[a.ns]++
		case (a.kind == "join" || a.kind == "ev") && !x.reg[a.ns] && a.ns != "/":
			errs[a.ns]++
		}
	}
	joins["/"]++
	for _, r := range sc.pkts {
		switch r.p.typ {
		case sConnect:
			connects[r.p.nsp]++
			if !x.reg[r.p.nsp] && r.p.nsp != "/" {
				w.violate("C11", "connected-unknown", "client %d got a connect packet for %s, which the server does not have", c.i, r.p.nsp)
			} else if connects[r.p.nsp] > joins[r.p.nsp] {
				w.violate("C11", "connect-packets", "client %d got %d connect packets for %s but asked for %d", c.i, connects[r.p.nsp], r.p.nsp, joins[r.p.nsp])
			}
		case sError:
			if x.gotErr(c.i, nil, r.p.nsp, r.p.data, r.seq, fmt.Sprintf("client %d", c.i)) == nil {
				errors[r.p.nsp]++
				if x.reg[r.p.nsp] || r.p.nsp == "/" {
					w.violate("C16", "odd-error", "client %d got the error %.100s on %s, which was never emitted", c.i, canon(r.p.data), r.p.nsp)
				}
			}
		case sDisconnect:
			w.violate("C11", "odd-disconnect", "client %d got a disconnect packet for %s that nobody asked for", c.i, r.p.nsp)
		}
	}
	if alive && exact && !weak {
		for ns := range errs {
			late := false
			for _, a := range acts {
				if a.ns == ns && w.endT-a.t1 < margin {
					late = true
				}
			}
			if errors[ns] < errs[ns] && !late {
				w.violate("C11", "no-error-packet", "client %d addressed %s, which the server does not have, %d times but got %d error packets", c.i, ns, errs[ns], errors[ns])
			}
		}
		// a join that changed the membership is confirmed
		conf := map[string]int{"/": 1}
		for _, cb := range x.cbs[c.i] {
			if cb.kind == "connect" && w.endT-cb.t > margin && cb.seq < w.endSeq {
				if !(cb.ns == "/" && conf["/"] == 1 && cb == x.cbs[c.i][0]) {
					conf[cb.ns]++
				}
			}
		}
		for ns, n := range conf {
			if connects[ns] < n {
				w.violate("C11", "no-connect-packet", "client %d was connected to %s %d times but got %d connect packets", c.i, ns, n, connects[ns])
			}
		}
		// requests are answered
		for _, a := range acts {
			if a.kind == "ev" && a.id >= 0 && a.cb != nil && a.cb.end >= 0 && a.cb.end < w.endSeq && len(a.acks) == 0 {
				if t := w.log_[a.cb.end].T; w.endT-t > margin {
					w.violate("C10", "unanswered", "client %d: request %d on %s (%q) was handled but never answered", c.i, a.id, a.ns, a.name)
					break
				}
			}
		}
	}
	for _, a := range acts {
		if a.kind == "ev" && len(a.acks) > 0 {
			if a.cb == nil && !(handled[a.name] == false) {
				w.violate("C10", "answered-unhandled", "client %d: request %d on %s (%q) was answered but its handler did not run", c.i, a.id, a.ns, a.name)
			} else if a.cb != nil && a.acks[0].seq < a.cb.seq {
				w.violate("C10", "answered-early", "client %d: request %d on %s (%q) was answered before its handler ran", c.i, a.id, a.ns, a.name)
			}
		}
	}
	// events: order, gaps, losses
	type rec struct {
		start, end int
		m          *sem
		what       string
	}
	var order []rec
	for _, r := range sc.pkts {
		if r.em != nil {
			order = append(order, rec{r.em.start, r.em.end, r.em, keyHead(r.em.key)})
		} else if r.p.typ == sAck || r.p.typ == sBinAck {
			for _, a := range acts {
				if a.kind == "ev" && a.id == r.p.id && a.ns == r.p.nsp && a.cb != nil && a.cb.end >= 0 {
					order = append(order, rec{a.cb.end, -1, nil, "the answer to " + keyHead(a.key)})
				}
			}
		}
	}
	maxStart, maxI := -1, -1
	for i, o := range order {
		if o.m != nil && len(o.m.got) > 1 {
			continue
		}
		if o.end >= 0 && o.end < maxStart {
			w.violate("C09", "order", "client %d received %s after %s although its emit had returned before the other began", c.i, o.what, order[maxI].what)
			break
		}
		if o.start > maxStart {
			maxStart, maxI = o.start, i
		}
	}
	for _, m := range x.ems {
		if m.c != c.i {
			continue
		}
		if m.start >= 0 && len(m.got) > 0 && m.got[0] < m.start {
			w.violate("C09", "early", "client %d received %s before it was emitted", c.i, keyHead(m.key))
		}
		if m.end >= 0 && m.ok && len(m.got) == 0 && exact && m.end < maxStart {
			w.violate("C09", "gap", "client %d (mode %d) never received %s although it received %s, emitted later", c.i, c.p.Mode, keyHead(m.key), order[maxI].what)
			break
		}
	}
	for _, m := range x.ems {
		if m.c != c.i || m.start < 0 {
			continue
		}
		st := x.stateDuring(c, s, m)
		if m.end >= 0 {
			if st == "out" && m.ok {
				w.violate("C11", "emit-not-connected", "emit on %s to client %d succeeded although the namespace was not connected", m.ns, c.i)
			}
			if st == "out" && len(m.got) > 0 {
				w.violate("C11", "sent-not-connected", "emit on %s to client %d was sent although the namespace was not connected", m.ns, c.i)
			}
			if st == "in" && !m.ok && alive {
				w.violate("C09", "emit-failed", "emit on %s to client %d failed (%s) although the namespace is connected", m.ns, c.i, m.err)
				w.violate("C11", "emit-failed", "emit on %s to client %d failed (%s) although the namespace is connected", m.ns, c.i, m.err)
			}
			if alive && m.ok && exact {
				if len(m.got) == 0 && w.endT-m.t1 > margin {
					w.violate("C09", "lost", "client %d (mode %d, upgraded %v) never received %s on %s, emitted %s before the end, on a live session", c.i, c.p.Mode, c.upOK, keyHead(m.key), m.ns, ms(w.endT-m.t1))
					break
				}
				if len(m.got) > 0 && m.gotT-m.t1 > margin {
					w.violate("C09", "late", "client %d received %s only %s after it was emitted", c.i, keyHead(m.key), ms(m.gotT-m.t1))
					break
				}
			}
		}
	}
}

func (c *eclient) lastPkt(sc *sclient) int64 {
	if n := len(sc.pkts); n > 0 {
		return sc.pkts[n-1].t
	}
	return c.openT
}

// stateDuring tells whether the namespace was connected ("in") or not ("out") all the time an emit took.
func (x *sx) stateDuring(c *eclient, s *sess, m *sem) string {
	if s == nil || m.end < 0 {
		return ""
	}
	if m.ns == "/" && !x.reg["/"] {
		return ""
	}
	// the last connect or disconnect callback before the emit
	var last *scb
	for _, cb := range x.cbs[c.i] {
		if (cb.kind == "connect" || cb.kind == "disconnect") && cb.ns == m.ns && cb.seq < m.start {
			last = cb
		}
	}
	if last == nil {
		return ""
	}
	// nothing that could change it may have been sent and not have been processed before the emit ended
	pend := 0
	for _, a := range x.acts[c.i] {
		if a.ns == m.ns && (a.kind == "join" || a.kind == "leave") && a.start < m.end {
			pend++
		}
	}
	es := x.model(c.i)
	_ = es
	eff := map[string]bool{"/": true}
	want := 0
	for _, a := range x.acts[c.i] {
		if a.ns != m.ns || a.start > m.end {
			continue
		}
		if a.kind == "join" && !eff[a.ns] {
			eff[a.ns] = true
			want++
		} else if a.kind == "leave" && eff[a.ns] {
			eff[a.ns] = false
			want++
		}
	}
	have := 0
	for _, cb := range x.cbs[c.i] {
		if (cb.kind == "connect" || cb.kind == "disconnect") && cb.ns == m.ns && cb.seq < m.start {
			have++
		}
	}
	if m.ns == "/" {
		want++
	}
	if last.kind == "connect" {
		if have == want && s.appClose < 0 && (s.closes == 0 || s.closeSeq > m.end) {
			return "in"
		}
		return ""
	}
	if have >= want {
		return "out"
	}
	return ""
}

// sioBystander: clients that do nothing special are served whatever others do.
func (v *verdict) sioBystander(c *eclient) {
	w := v.w
	x := w.sx
	prop, who := "C08", "innocent client"
	if w.plan.Kind != "hostile" {
		prop, who = "C07", "bystander"
		if c.i < w.plan.cfg("victims") {
			return
		}
	}
	if !c.openTried || c.i >= len(w.plan.Clients) || time.Duration(v.res.StallNs) > w.T/3 || w.srvCloseSeq >= 0 {
		return
	}
	b := v.lat(c)
	if !c.opened {
		if !v.disturbed(c) {
			w.violate(prop, "no-handshake", "%s %d's handshake did not complete (done %v, status %d)", who, c.i, c.openDone, c.refused)
		}
		return
	}
	if v.unclean(c) != "" {
		return
	}
	s := v.sess(c)
	if c.openMs > b {
		w.violate(prop, "slow-handshake", "%s %d's handshake took %s", who, c.i, ms(c.openMs))
	}
	if s == nil {
		if !x.reg["/"] {
			return
		}
		w.violate(prop, "no-open", "%s %d's connect callback never ran", who, c.i)
		return
	}
	if v.appClosed(s) {
		return
	}
	if s.closes > 0 && s.closeSeq < w.endSeq || c.over0(w) {
		w.violate(prop, "ended", "%s %d's session ended: %s", who, c.i, c.overWhy)
		return
	}
	for _, m := range x.ems {
		if m.c == c.i && m.inline == "" && m.start >= 0 && m.end < 0 && w.endT-m.t0 > b {
			w.violate(prop, "slow-emit", "emit to %s %d does not return", who, c.i)
			return
		}
		if m.c == c.i && m.ok && c.getLost == 0 && (len(m.got) == 0 && w.endT-m.t1 > b+v.upWait(c) || len(m.got) > 0 && m.gotT-m.t0 > b+v.upWait(c)) {
			w.violate(prop, "slow-event", "an event to %s %d took longer than %s or was lost", who, c.i, ms(b))
			return
		}
	}
	for _, a := range x.acts[c.i] {
		if a.kind == "ev" && a.ok && handled[a.name] && x.member(c.i, a) && (a.cb == nil && w.endT-a.t1 > b || a.cb != nil && a.cb.t-a.t0 > b) {
			w.violate(prop, "slow-event", "an event from %s %d took longer than %s or was lost", who, c.i, ms(b))
			return
		}
	}
	for _, pr := range c.pings {
		if pr.sent && c.getLost == 0 && (pr.pongSeq < 0 && w.endT-pr.t0 > b+v.upWait(c) || pr.pongSeq >= 0 && pr.t1-pr.t0 > b+v.upWait(c)) {
			w.violate(prop, "slow-ping", "%s %d's ping was not answered within %s", who, c.i, ms(b))
			return
		}
	}
}

func (x *sx) member(c int, at *act) bool {
	in := map[string]bool{"/": x.reg["/"]}
	for _, a := range x.acts[c] {
		if a == at {
			return in[a.ns]
		}
		if x.reg[a.ns] {
			if a.kind == "join" {
				in[a.ns] = true
			} else if a.kind == "leave" {
				in[a.ns] = false
			}
		}
	}
	return false
}
