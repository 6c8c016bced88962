package main

import (
	"fmt"
	"strings"
)

var goWeights = map[string]map[string]int{
	"C16": {"emit": 60, "req": 40, "down": 60, "downreq": 40, "join": 75, "leave": 25, "badhs": 0, "redial": 5, "srvend": 12, "ownclose": 8, "faults": 8, "react": 25, "slowpong": 5, "misc": 0, "srv": 25, "bad": 96, "errs": 60},
	"C14": {"emit": 60, "req": 30, "down": 70, "downreq": 25, "join": 50, "leave": 30, "badhs": 35, "redial": 25, "srvend": 55, "ownclose": 45, "faults": 25, "react": 35, "slowpong": 25, "misc": 10, "srv": 30},
	"C09": {"emit": 90, "req": 30, "down": 90, "downreq": 20, "join": 60, "leave": 15, "badhs": 3, "redial": 5, "srvend": 15, "ownclose": 8, "faults": 10, "react": 30, "slowpong": 5, "misc": 5, "srv": 60},
	"C10": {"emit": 80, "req": 90, "down": 80, "downreq": 85, "join": 60, "leave": 15, "badhs": 0, "redial": 3, "srvend": 12, "ownclose": 8, "faults": 8, "react": 35, "slowpong": 5, "misc": 5, "srv": 50},
	"C11": {"emit": 50, "req": 20, "down": 60, "downreq": 15, "join": 95, "leave": 80, "badhs": 3, "redial": 10, "srvend": 35, "ownclose": 30, "faults": 8, "react": 25, "slowpong": 5, "misc": 5, "srv": 20},
	"C06": {"emit": 90, "req": 20, "down": 60, "downreq": 15, "join": 30, "leave": 10, "badhs": 0, "redial": 5, "srvend": 8, "ownclose": 95, "faults": 5, "react": 45, "slowpong": 5, "misc": 5, "srv": 50},
	"C12": {"emit": 60, "req": 60, "down": 85, "downreq": 50, "join": 70, "leave": 40, "badhs": 3, "redial": 5, "srvend": 25, "ownclose": 15, "faults": 3, "react": 97, "slowpong": 5, "misc": 10, "srv": 40},
	"C13": {"emit": 90, "req": 70, "down": 85, "downreq": 60, "join": 60, "leave": 40, "badhs": 5, "redial": 15, "srvend": 35, "ownclose": 45, "faults": 5, "react": 50, "slowpong": 5, "misc": 75, "srv": 50},
}

func genGocli(g *gen) {
	r, p := g.r, g.p
	wt := goWeights[p.Prop]
	on := func(f string) bool { return wt[f] > 0 && r.pct(wt[f]) }
	p.Cfg["mp"] = b2c(r.pct(40))
	g.errCfg()
	real := on("srv")
	p.Cfg["srv"] = b2c(real)
	nc := r.pick(1, 1, 1, 2)
	maxLat := 0
	for i := 0; i < nc; i++ {
		c := ClientPlan{Prof: genProfile(r)}
		if r.oneIn(4) {
			c.Frag = r.pick(1, 5, 50)
		}
		if r.oneIn(8) {
			c.Prof.Window = r.pick(600, 2048)
			c.Prof.LatUs, c.Prof.JitUs = r.logRange(20, 500), 0
		}
		if l := c.Prof.LatUs + c.Prof.JitUs; l > maxLat {
			maxLat = l
		}
		p.Clients = append(p.Clients, c)
	}
	g.times(maxLat)
	p.Cfg["probe"] = b2c(real && r.oneIn(4))
	if !real && on("slowpong") {
		p.Cfg["pongdelay"] = r.pick(1, p.Timeout/3, p.Timeout*6/10)
	}
	srvA := 0
	sa := func() string { srvA++; return fmt.Sprintf("s%d", srvA-1) }
	nss := []string{"/"}
	if !real && on("join") {
		nss = []string{"/", "/a", "/b"}
		if p.Cfg["quiet"] > 0 {
			nss = append(nss, "/n")
		}
	}
	ns := func() string {
		if r.oneIn(3) {
			return "/"
		}
		return nss[r.intn(len(nss))]
	}
	cmds := func(client bool) string {
		if !on("react") {
			return ""
		}
		var s []string
		for k := 1 + r.intn(2); k > 0; k-- {
			switch r.intn(9) {
			case 0, 1:
				s = append(s, fmt.Sprintf("e%d", r.pick(1, 2, 12)))
			case 2, 3:
				s = append(s, fmt.Sprintf("q%d", r.pick(1, 2, 10)))
			case 4, 5:
				if on("ownclose") || p.Prop == "C12" && r.oneIn(3) {
					s = append(s, "c")
				}
			case 6:
				t := r.pick(1, 20, p.Timeout/2)
				p.Cfg["sleep"] += t
				s = append(s, fmt.Sprintf("s%d", t))
			case 7:
				s = append(s, r.pickS("h", "n"))
			case 8:
				s = append(s, "n")
			}
		}
		return strings.Join(s, ",")
	}
	with := func(a, b string) string {
		if b == "" {
			return a
		}
		return a + " " + b
	}
	size := func() int { return r.pick(0, 10, 60, 200, 1500) }
	one := func(cm string, n int) int {
		if strings.Contains(cm, "s") || strings.Contains(cm, "0") || strings.Contains(cm, "2") {
			return 1
		}
		return n
	}
	bad := []string{"refuse", "ok200", "badaccept", "closehttp", "cuthttp", "rsthttp", "nothing-fin", "nothing-rst", "msg", "noop", "pong", "closepkt", "badjson", "badtypes", "cutframe", "garbage", "emptyopen", "wsclose", "emptyframe", "binary"}
	for ci := 0; ci < nc; ci++ {
		a := fmt.Sprintf("c%d", ci)
		good := func() string { return r.pickS("ok", "ok", "early", "early", "extra") }
		if !real && on("badhs") {
			g.op(a, r.intn(2000), "dial", ci).S = r.pickS(bad...)
			for k := r.intn(2); k > 0; k-- {
				g.op(a, r.intn(2000), "dial", ci).S = r.pickS(bad...)
			}
			g.op(a, r.intn(4000), "dial", ci).S = good()
		} else {
			g.op(a, r.pick(0, r.intn(200), r.intn(4000)), "dial", ci).S = good()
		}
		if on("react") {
			if s := cmds(true); s != "" {
				g.op("x", 0, r.pickS("gonconnect", "gonconnect", "gondisconnect", "gondisconnect", "gonerr"), ci).S = s
			}
			if s := cmds(false); s != "" && real {
				g.op("x", 0, r.pickS("onconnect", "onconnect", "ondisconnect"), ci).S = s
			}
		}
		// server side
		if !real {
			st := sa()
			first := func(k, ns string, n ...int) {
				o := g.op(st, 0, "stfirst", ci, append([]int{0}, n...)...)
				o.S, o.B = k, []byte(ns)
			}
			for _, n := range g.stubNs(nss) {
				if len(nss) > 1 && r.pct(70) {
					if r.oneIn(2) {
						first("stconn", n)
					} else {
						g.op(st, g.at(), "stconn", ci).S = n
					}
				}
			}
			if on("bad") {
				for k := r.pick(1, 1, 2); k > 0; k-- {
					s := sa()
					for j := 1 + r.intn(4); j > 0; j-- {
						g.op(s, g.at(), r.pickS("stbad", "stbad", "stbad", "sterr"), ci, r.pick(1, 1, 2, 5), size()).S = ns()
					}
					g.sortActor(s)
				}
			}
			if r.oneIn(4) {
				first("stconn", "/q")
				first("stemit", "/q", 1, 0, 10, 0, 0)
			}
			if on("down") && r.oneIn(2) {
				first("stemit", with("/", cmds(true)), one(" ", r.pick(1, 3, 10)), r.pick(99, 0, 5), size(), b2c(on("downreq")), 0)
			}
			for k := r.pick(1, 1, 2); k > 0 && on("down"); k-- {
				s := sa()
				for j := 1 + r.intn(3); j > 0; j-- {
					cm := cmds(true)
					kd, ack := r.pick(99, 99, 4, 5, 0, 7), 0
					if on("downreq") {
						kd, ack = 98, r.pick(1, 1, 2)
					}
					g.op(s, g.at(), "stemit", ci, one(cm, r.pick(1, 2, 6, 15)), kd, size(), ack, r.pick(0, 0, 30, 400)).S = with(ns(), cm)
				}
				g.sortActor(s)
			}
			if on("leave") {
				for j := 1 + r.intn(2); j > 0; j-- {
					n := ns()
					g.op(st, g.at(), "stdisc", ci).S = n
					if r.oneIn(2) {
						g.op(st, g.at(), "stconn", ci).S = n
					}
				}
			}
			if on("join") && r.oneIn(2) {
				g.op(st, g.at(), "stconn", ci).S = ns()
			}
			if r.oneIn(5) {
				g.op(st, g.at(), r.pickS("sterr", "stbadack", "stnoop"), ci).S = ns()
			}
			g.sortActor(st)
			if on("srvend") {
				k := r.pickS("stclosepkt", "stclosepkt", "stfin", "strst", "stsilence", "stvanish", "stnopong", "stwsclose")
				e := sa()
				if r.oneIn(6) {
					o := g.op(e, 0, "stfirst", ci, 0, r.intn(2))
					o.S, o.B = k, nil
				} else {
					g.op(e, g.at(), k, ci, r.intn(2))
				}
				if r.oneIn(4) {
					g.op(e, g.at(), r.pickS("stfin", "strst"), ci)
				}
				g.sortActor(e)
			}
		} else {
			if on("down") {
				for k := r.pick(1, 1, 2, 3); k > 0; k-- {
					s := sa()
					for j := 1 + r.intn(3); j > 0; j-- {
						cm := cmds(true)
						ack := -1
						if on("downreq") {
							ack = r.pick(0, 1, 2, 3)
						}
						st := cm
						if c2 := cmds(false); c2 != "" {
							st += "!" + c2
						}
						g.op(s, g.at(), "semit", ci, one(cm, r.pick(1, 2, 6, 15)), r.pick(99, 99, 5, 4, 0), size(), ack, r.pick(0, 0, 30, 400)).S = with("/", st)
					}
					g.sortActor(s)
				}
			}
			if on("srvend") {
				g.op(sa(), g.at(), "sclose", ci)
			}
			if r.oneIn(12) {
				g.op(sa(), g.at(), "srvclose", ci)
			}
			if on("misc") {
				g.op(sa(), g.at(), "headers", ci, r.intn(3))
			}
			if r.pct(10 + wt["srvend"]/2) {
				g.op(a+".n", g.at(), r.pickS("vanish", "rst"), ci)
			}
		}
		// client side
		if on("emit") {
			for k := r.pick(1, 1, 2, 3); k > 0; k-- {
				ea := fmt.Sprintf("%s.e%d", a, k)
				for j := 1 + r.intn(3); j > 0; j-- {
					kd, ack := r.pick(99, 99, 4, 5, 0), 0
					if on("req") {
						kd, ack = r.pick(98, 98, 99), r.pick(1, 1, 2)
					}
					n := r.pick(1, 2, 6, 15)
					st := ""
					sc := ""
					if real {
						sc = cmds(false)
					}
					if c2 := cmds(true); sc != "" || ack > 0 {
						st = r.pickS("a", "a", "a", "A", "d", "n", "u") + ";" + sc
						if !real && on("bad") && r.oneIn(3) {
							st = "b;" + sc
						}
						if c2 != "" {
							st += "!" + c2
						}
						n = one(c2, n)
					}
					n = one(sc, n)
					t := g.at()
					if r.oneIn(4) {
						t = 0
					}
					g.op(ea, t, "cliemit", ci, n, kd, size(), ack, r.pick(0, 0, 30, 400)).S = with(ns(), st)
				}
				g.sortActor(ea)
			}
		}
		if on("errs") {
			for k := r.pick(1, 1, 2); k > 0; k-- {
				g.op(a+".x", g.at(), "clierr", ci).S = ns()
				if real {
					g.op(sa(), g.at(), "semiterr", ci, r.pick(1, 2, 5)).S = "/"
				}
			}
			g.sortActor(a + ".x")
		}
		if on("misc") {
			g.op(a+".m", g.at(), "misc", ci, r.intn(3))
		}
		if on("ownclose") {
			t := g.at()
			for k := r.pick(1, 1, 2, 3); k > 0; k-- {
				ca := fmt.Sprintf("%s.c%d", a, k)
				g.op(ca, t+r.pick(0, 0, 1, r.intn(30), r.intn(2000)), "cliclose", ci)
				if r.oneIn(3) {
					g.op(ca, t, "cliemit", ci, 1, 99, 20, 0, 0).S = ns()
				}
			}
			if r.oneIn(3) { // right after the last emits
				g.op(fmt.Sprintf("%s.e1", a), g.lastAt(a+".e1"), "cliclose", ci)
			}
		}
		if on("redial") && !real {
			t := g.hot[len(g.hot)-1]
			g.op(a, t+r.pick(1000, p.Timeout*2000, p.Interval*1500), "dial", ci).S = good()
			for j := r.intn(3); j > 0; j-- {
				g.op(a, t+p.Interval*1500+r.intn(p.Interval*500), "cliemit", ci, 2, 99, 20, 0, 0).S = "/"
			}
			g.sortActor(a)
			g.sortDials(a)
		}
		if on("faults") {
			for k := r.pick(1, 1, 2); k > 0; k-- {
				f := ConnFault{Label: fmt.Sprintf("c%d/ws", ci), Nth: r.pick(0, 0, 0, 1), Down: r.oneIn(2), Off: int64(r.logRange(1, 6000))}
				f.Kind = r.pickS("stall", "stall", "reset", "fin", "hole")
				if f.Kind == "stall" {
					f.DurUs = r.logRange(100, p.Timeout*300)
					p.Cfg["netstall_us"] += f.DurUs
				}
				p.Faults = append(p.Faults, f)
			}
		}
	}
	if r.oneIn(2) { // long enough for several pings
		p.Settle = (2+r.intn(3))*p.Interval + 15*p.Timeout + 4000 + p.Cfg["sleep"]
	}
}

// sortDials keeps the time of an actor's operations from going backwards.
func (g *gen) sortDials(a string) {
	t := 0
	for i := range g.p.Ops {
		if o := &g.p.Ops[i]; o.A == a {
			if o.At < t {
				o.At = t
			}
			t = o.At
		}
	}
}

func (g *gen) stubNs(nss []string) []string {
	if len(nss) > 1 {
		return nss[1:]
	}
	return []string{"/a", "/b"}
}
