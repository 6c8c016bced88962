package main

import (
	"fmt"
	"strings"
)

var sioWeights = map[string]map[string]int{
	"C09": {"semit": 85, "ev": 85, "ack": 35, "req": 35, "join": 60, "leave": 15, "unknown": 8, "up": 35, "upvar": 8, "close": 8, "cliend": 15, "react": 30, "faults": 15, "abortget": 8, "headers": 3},
	"C10": {"semit": 85, "ev": 70, "ack": 95, "req": 90, "join": 55, "leave": 25, "unknown": 8, "up": 30, "upvar": 5, "close": 8, "cliend": 12, "react": 35, "faults": 10, "abortget": 4, "headers": 3},
	"C11": {"semit": 50, "ev": 60, "ack": 25, "req": 25, "join": 97, "leave": 80, "unknown": 50, "up": 25, "upvar": 5, "close": 25, "cliend": 30, "react": 25, "faults": 8, "abortget": 4, "headers": 3},
	"C16": {"semit": 50, "ev": 60, "ack": 40, "req": 40, "join": 75, "leave": 25, "unknown": 10, "up": 25, "upvar": 5, "close": 8, "cliend": 15, "react": 25, "faults": 8, "abortget": 3, "headers": 0, "bad": 96, "errs": 50},
	"C03": {"semit": 60, "ev": 70, "ack": 20, "req": 35, "join": 60, "leave": 20, "unknown": 5, "up": 85, "upvar": 60, "close": 6, "cliend": 6, "react": 30, "faults": 15, "abortget": 4, "headers": 50},
	"C05": {"semit": 40, "ev": 50, "ack": 20, "req": 20, "join": 80, "leave": 40, "unknown": 5, "up": 30, "upvar": 10, "close": 60, "cliend": 65, "react": 45, "faults": 20, "abortget": 4, "headers": 3},
	"C06": {"semit": 80, "ev": 40, "ack": 20, "req": 20, "join": 60, "leave": 20, "unknown": 5, "up": 30, "upvar": 20, "close": 95, "cliend": 20, "react": 40, "faults": 10, "abortget": 4, "headers": 3},
	"C07": {"semit": 60, "ev": 60, "ack": 30, "req": 30, "join": 60, "leave": 20, "unknown": 10, "up": 20, "upvar": 0, "close": 0, "cliend": 0, "react": 0, "faults": 0, "abortget": 0, "headers": 0, "nsp": 25},
	"C12": {"semit": 50, "ev": 75, "ack": 60, "req": 40, "join": 70, "leave": 40, "unknown": 10, "up": 25, "upvar": 5, "close": 10, "cliend": 25, "react": 97, "faults": 3, "abortget": 0, "headers": 5},
	"C13": {"semit": 85, "ev": 70, "ack": 70, "req": 50, "join": 70, "leave": 40, "unknown": 10, "up": 45, "upvar": 15, "close": 40, "cliend": 20, "react": 40, "faults": 5, "abortget": 5, "headers": 70, "nsp": 60},
	"C15": {"badopen": 50, "semit": 60, "ev": 60, "ack": 20, "req": 20, "join": 60, "leave": 20, "unknown": 5, "up": 15, "upvar": 5, "close": 10, "cliend": 10, "react": 40, "faults": 5, "abortget": 0, "headers": 5},
	"C08": {"semit": 60, "ev": 60, "ack": 30, "req": 40, "join": 60, "leave": 20, "unknown": 10, "up": 20, "upvar": 0, "close": 0, "cliend": 0, "react": 0, "faults": 0, "abortget": 0, "headers": 0},
}

func genSio(g *gen) {
	r, p := g.r, g.p
	wt := sioWeights[p.Prop]
	on := func(f string) bool { return wt[f] > 0 && r.pct(wt[f]) }
	hostile := p.Kind == "hostile"
	p.Cfg["mp"] = b2c(r.pct(40))
	g.errCfg()
	if p.Prop == "C13" && r.oneIn(8) || r.oneIn(40) && !hostile {
		p.Cfg["noroot"] = 1
	}
	nc := r.pick(1, 1, 2, 3)
	victims := 0
	if p.Prop == "C07" {
		nc = 1 + r.pick(1, 2, 3)
		victims = 1
		p.Cfg["victims"] = 1
	}
	if p.Prop == "C15" || p.Prop == "C13" && p.Cfg["noroot"] > 0 {
		nc = 2 + r.intn(4)
	}
	maxLat := 0
	for i := 0; i < nc; i++ {
		c := ClientPlan{Mode: r.pick(0, 0, 1, 2, 3), Ping: r.pick(30, 60, 90), Prof: genProfile(r)}
		if (on("up") || on("upvar")) && c.Mode == 0 && r.oneIn(2) {
			c.Mode = 1 + r.intn(3)
		}
		if r.oneIn(5) {
			c.Frag = r.pick(1, 5, 50)
		}
		if (hostile || victims > 0) && c.Prof.LatUs > 1000 {
			c.Prof.LatUs, c.Prof.JitUs = 1000, 0
		}
		if l := c.Prof.LatUs + c.Prof.JitUs; l > maxLat {
			maxLat = l
		}
		p.Clients = append(p.Clients, c)
	}
	g.times(maxLat)
	if p.Prop == "C15" && r.oneIn(3) {
		p.Cfg["origin"] = 1 + r.intn(4)
	}
	p.Cfg["probe"] = b2c(r.oneIn(4) || hostile)
	srvA := 0
	sa := func() string { srvA++; return fmt.Sprintf("s%d", srvA-1) }
	nss := []string{"/", "/a", "/b"}
	joined := []string{"/a", "/b", "/q"}
	if p.Cfg["quiet"] > 0 {
		nss = append(nss, "/n", "/n")
		joined = append(joined, "/n", "/n")
	}
	if p.Cfg["noroot"] > 0 {
		nss = nss[1:]
	}
	ns := func() string {
		if r.oneIn(3) {
			return nss[0]
		}
		return nss[r.intn(len(nss))]
	}
	evNs := func() string {
		if on("unknown") {
			return r.pickS("/x", "/xyz", "/x", "/a/", "/A", "/ab")
		}
		return ns()
	}
	cmds := func() string {
		if !on("react") {
			return ""
		}
		var s []string
		for k := 1 + r.intn(2); k > 0; k-- {
			switch r.intn(10) {
			case 0, 1:
				s = append(s, fmt.Sprintf("e%d", r.pick(1, 2, 12)))
			case 2, 3:
				s = append(s, fmt.Sprintf("q%d", r.pick(1, 2, 10)))
			case 4:
				s = append(s, fmt.Sprintf("x%d", r.intn(nc)))
			case 5:
				if on("close") || p.Prop == "C12" && r.oneIn(3) {
					s = append(s, "c")
				}
			case 6:
				if on("close") {
					s = append(s, fmt.Sprintf("k%d", r.intn(nc)))
				}
			case 7:
				t := r.pick(1, 20, p.Timeout/2)
				p.Cfg["sleep"] += t
				s = append(s, fmt.Sprintf("s%d", t))
			case 8:
				s = append(s, r.pickS("h", "n"))
			case 9:
				s = append(s, r.pickS("r", "n", "e1"))
			}
		}
		return strings.Join(s, ",")
	}
	with := func(a, b string) string {
		if b == "" {
			return a
		}
		return a + " " + b
	}
	size := func() int { return r.pick(0, 10, 60, 200, 1500) }
	ackStyle := func() string {
		st := r.pickS("a", "a", "a", "A", "D", "d", "n", "w", "u", "l")
		if on("bad") && r.oneIn(3) {
			st = "b"
		}
		if st == "l" && !on("leave") {
			st = "d"
		}
		if c := cmds(); c != "" {
			st += "!" + c
		}
		return st
	}
	for ci := 0; ci < nc; ci++ {
		a := fmt.Sprintf("c%d", ci)
		c := &p.Clients[ci]
		at := r.pick(0, 0, r.intn(200), r.intn(4000))
		if ci >= victims && victims > 0 {
			at = r.pick(0, r.intn(4000), r.intn(4000), r.intn(8000))
		}
		g.op(a, at, "open", ci)
		if victims > ci {
			long := r.pick(3000, 6000, 2*p.Timeout)
			p.Cfg["sleep"] += 3 * long
			switch r.intn(6) {
			case 4, 5: // takes nothing, with a backlog, and leaves or is closed
				t := g.at()
				if r.oneIn(2) {
					c.Mode = 0
					c.Prof.Window = 1024
					g.op(a+".st", t, "stallread", ci, long)
				} else {
					if c.Mode == 0 {
						c.Mode = 1
					}
					g.op(a+".st", t, "silence", ci, 1)
				}
				g.op(sa(), t+r.pick(0, r.intn(3000)), "semit", ci, 60, r.pick(0, 5), 200, -1, 0).S = "/"
				t += r.pick(1000, 10000, r.intn(p.Timeout*1000))
				if r.oneIn(3) {
					g.op(sa(), t, "sclose", ci)
				} else {
					g.op(a+".end", t, r.pickS("closepkt", "closepkt", "rst"), ci)
				}
			case 0:
				g.op("x", 0, "onconnect", ci).S = fmt.Sprintf("s%d", long)
			case 1:
				g.op("x", 0, "ondisconnect", ci).S = fmt.Sprintf("s%d", long)
				g.op(a+".end", g.at(), r.pickS("closepkt", "fin", "rst"), ci)
			case 2:
				g.op(a, g.at(), "ev", ci, 1, 0, 10, 1, 0, 0).S = "/ " + fmt.Sprintf("s%d", long)
			case 3:
				g.op(sa(), g.at(), "semit", ci, 1, 0, 10, 0, 0).S = "/ a!" + fmt.Sprintf("s%d", long)
			}
		} else if on("react") {
			if s := cmds(); s != "" {
				g.op("x", 0, r.pickS("onconnect", "onconnect", "ondisconnect", "ondisconnect", "onerr"), ci).S = s
			}
		}
		// joins right at the start
		for _, n := range joined {
			if on("join") {
				g.op(a, 0, "join", ci).S = n
			}
		}
		nact := r.pick(1, 1, 2, 3)
		for k := 0; k < nact; k++ {
			ac := a
			if k > 0 {
				ac = fmt.Sprintf("%s.%d", a, k)
			}
			if on("ev") {
				for j := 1 + r.intn(3); j > 0; j-- {
					n := r.pick(1, 2, 5, 12)
					kd := r.pick(99, 99, 4, 5, 0, 98, 7)
					ack := 0
					if on("req") {
						kd = 98
						ack = r.pick(1, 1, 2)
					}
					cm := cmds()
					if strings.Contains(cm, "s") && victims == 0 || strings.Contains(cm, "0") {
						n = 1
					}
					joinleave := 0
					if on("leave") && r.oneIn(3) {
						joinleave = r.intn(3)
					}
					g.op(ac, g.at(), "ev", ci, n, kd, size(), r.pick(1, n, 3), ack, joinleave).S = with(evNs(), cm)
				}
			}
			if on("join") && r.oneIn(2) {
				g.op(ac, g.at(), "join", ci).S = evNs()
			}
			if on("bad") {
				for j := 1 + r.intn(3); j > 0; j-- {
					g.op(ac, g.at(), "bad", ci, r.pick(1, 1, 2, 5), size()).S = ns()
				}
				if r.oneIn(3) {
					g.op(ac, g.at(), "err", ci).S = ns()
				}
			}
			if on("leave") {
				for j := 1 + r.intn(2); j > 0; j-- {
					n := evNs()
					g.op(ac, g.at(), "leave", ci).S = n
					if r.oneIn(2) {
						g.op(ac, g.at(), "join", ci).S = n
					}
				}
			}
			if on("unknown") {
				g.op(ac, g.at(), r.pickS("join", "leave", "badack", "badack", "err"), ci).S = r.pickS("/x", "/a", "/", "/q", "/x", "/a/", "/B")
			}
			g.sortActor(ac)
		}
		if on("errs") {
			for k := r.pick(1, 1, 2); k > 0; k-- {
				g.op(sa(), g.at(), "semiterr", ci, r.pick(1, 2, 5)).S = ns()
			}
		}
		if on("semit") {
			for k := r.pick(1, 1, 2, 3); k > 0; k-- {
				s := sa()
				for j := 1 + r.intn(3); j > 0; j-- {
					ack := -1
					st := ""
					if on("ack") {
						ack = r.pick(9, 9, 0, 1, 2, 3, 4)
						st = ackStyle()
					}
					g.op(s, g.at(), "semit", ci, r.pick(1, 2, 6, 12, 25), r.pick(99, 99, 5, 4, 0), size(), ack, r.pick(0, 0, 0, 30, 400)).S = with(ns(), st)
				}
				g.sortActor(s)
			}
		}
		if c.Mode != 0 {
			ua := a + ".up"
			if on("upvar") {
				o := g.op(ua, g.at(), "upvar", ci, r.pick(0, 1, 30, p.Timeout/2), r.intn(2))
				o.S = r.pickS("silent", "garbage", "drop-probe", "drop-pong", "garbage-pong", "cut", "late")
				if o.S == "late" {
					o.N[0] = r.pick(0, 30, p.Timeout/2)
				}
				p.Cfg["midup"] = 1
			}
			if on("up") {
				g.op(ua, g.at(), "up", ci)
			}
			g.sortActor(ua)
			if on("abortget") {
				g.op(a+".ab", g.at(), "abortget", ci, r.intn(2))
			}
		}
		if on("headers") {
			for k := 1 + r.intn(2); k > 0; k-- {
				g.op(sa(), g.at(), "headers", ci, r.intn(4))
			}
		}
		if on("badopen") {
			g.badOpens(ci)
		}
		if on("nsp") {
			g.op(sa(), r.pick(0, g.at(), r.intn(5000)), "nsp", ci, r.intn(3))
		}
		if on("cliend") {
			g.op(a+".end", g.at(), r.pickS("closepkt", "closepkt", "fin", "rst", "vanish", "silence"), ci, r.intn(2))
			if r.oneIn(4) {
				g.op(a+".end", g.at()+r.intn(1000), r.pickS("closepkt", "fin", "rst"), ci)
				g.sortActor(a + ".end")
			}
		}
		if on("close") {
			t := g.at()
			for k := r.pick(1, 1, 2); k > 0; k-- {
				s := sa()
				g.op(s, t+r.pick(0, 0, 1, r.intn(30)), "sclose", ci)
				if r.oneIn(3) {
					g.op(s, t+r.intn(50), "semit", ci, 2, 99, 20, 9, 0).S = ns()
				}
			}
		}
		if on("faults") {
			lab := "ws"
			if c.Mode != 0 {
				lab = r.pickS("poll", "poll", "post", "up")
			}
			f := ConnFault{Label: fmt.Sprintf("c%d/%s", ci, lab), Nth: r.pick(0, 0, 0, 1), Down: r.oneIn(2), Off: int64(r.logRange(1, 6000))}
			f.Kind = r.pickS("stall", "stall", "reset", "fin", "hole")
			if f.Kind == "stall" {
				f.DurUs = r.logRange(100, p.Timeout*300)
				p.Cfg["netstall_us"] += f.DurUs
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if p.Prop == "C15" && r.oneIn(3) || p.Prop == "C13" && p.Cfg["noroot"] > 0 {
		t := r.intn(2000)
		for i := range p.Ops {
			if p.Ops[i].K == "open" {
				p.Ops[i].At = t + r.pick(0, 0, 1)
			}
		}
	}
}

// errCfg chooses which callbacks the application registers.
func (g *gen) errCfg() {
	if g.p.Prop == "C16" {
		g.p.Cfg["nosrverr"] = b2c(g.r.oneIn(8))
		g.p.Cfg["nonserr"] = b2c(g.r.oneIn(8))
	}
	if g.p.Prop == "C16" || g.p.Prop == "C11" || g.p.Prop == "C10" {
		g.p.Cfg["quiet"] = b2c(g.r.oneIn(3))
	}
}
