package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var siteFiles []struct {
	file string
	ids  []uint32
}
var siteNames map[uint32]string

func loadSites() {
	if siteNames != nil {
		return
	}
	siteNames = map[uint32]string{}
	exe, _ := os.Executable()
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "../work/sites.tsv"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var id uint32
		var loc string
		if n, _ := fmt.Sscanf(l, "%d\t%s", &id, &loc); n != 2 {
			continue
		}
		siteNames[id] = loc
		f := loc[:strings.LastIndexByte(loc, ':')]
		if !strings.HasPrefix(f, "repo/") {
			continue
		}
		if n := len(siteFiles); n == 0 || siteFiles[n-1].file != f {
			siteFiles = append(siteFiles, struct {
				file string
				ids  []uint32
			}{file: f})
		}
		sf := &siteFiles[len(siteFiles)-1]
		sf.ids = append(sf.ids, id)
	}
}

// siteWeight biases the choice of preemption points to the files where goroutines meet.
func siteWeight(kind, f string) int {
	switch {
	case strings.Contains(f, "parser") || strings.Contains(f, "packet.go") || strings.Contains(f, "payload") || strings.Contains(f, "protocol"):
		return 1
	case strings.Contains(f, "engine/"):
		if kind != "engine" {
			return 5
		}
		return 10
	default:
		if kind != "engine" {
			return 10
		}
		return 0
	}
}

func genSched(p *Plan, r *rng) {
	loadSites()
	s := &p.Sched
	s.Seed = r.next() >> 1
	s.SpinCap = 4_000_000
	s.StepCap = 30_000_000
	s.StallMax = 20
	for d := p.Timeout * 1_000_000 / 16; d > 1<<(s.StallMax+1); s.StallMax++ {
	}
	if s.StallMax > 27 {
		s.StallMax = 27
	}
	s.MaxStall = uint32(1 + r.intn(4))
	s.Strategy = r.pick(0, 0, 0, 0, 2)
	switch s.Strategy {
	case 0:
		s.Preempt = uint32(r.pick(0, 0, 3000, 600, 150, 40, 10))
		s.Pick = uint32(r.pick(0, 0, 8, 3, 2))
		s.Sel = uint32(r.pick(0, 4, 2))
		s.Stall = uint32(r.pick(0, 0, 0, 6000, 1500, 400))
	case 2:
		s.Depth = uint32(1 + r.intn(6))
		s.Span = uint32(r.logRange(200, 30000))
		s.Sel = uint32(r.pick(0, 3))
		s.Stall = uint32(r.pick(0, 0, 0, 5000))
	}
	if r.pct(60) && len(siteFiles) > 0 {
		n := 1 + r.intn(6)
		tot := 0
		for _, f := range siteFiles {
			tot += siteWeight(p.Kind, f.file) * len(f.ids)
		}
		if tot == 0 {
			return
		}
		for i := 0; i < n; i++ {
			k := r.intn(tot)
			for _, f := range siteFiles {
				w := siteWeight(p.Kind, f.file) * len(f.ids)
				if k < w {
					s.Focus = append(s.Focus, f.ids[r.intn(len(f.ids))])
					break
				}
				k -= w
			}
		}
		s.FocusDen = uint32(r.pick(1, 2, 3, 6, 20))
		s.FocusSt = uint32(r.pick(0, 1, 2, 2, 4))
	}
}

func genProfile(r *rng) netProfile {
	var p netProfile
	p.LatUs = r.logRange(20, 4000)
	if r.oneIn(2) {
		p.JitUs = r.intn(p.LatUs + 1)
	}
	p.Frag = r.pick(0, 0, 0, 1, 7, 64, 700)
	p.Seg = r.pick(0, 0, 0, 3, 40, 500)
	return p
}

// align makes what clients do arrive at the very instant the server application does something:
// code takes no simulated time, so only what happens at the same instant interleaves.
func (g *gen) align(r *rng) {
	p := g.p
	if r.oneIn(2) {
		return
	}
	var at []int
	for _, o := range p.Ops {
		if o.A[0] == 's' && o.At > 0 {
			at = append(at, o.At)
		}
	}
	at = append(at, g.hot...)
	if len(at) == 0 {
		return
	}
	for i := range p.Clients {
		if r.pct(70) {
			p.Clients[i].Prof.JitUs = 0
		}
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		ci := 0
		if o.A[0] != 'c' || r.oneIn(2) {
			continue
		}
		if ci = actorNum(o.A); ci >= len(p.Clients) || p.Clients[ci].Prof.JitUs > 0 || o.At == 0 && o.K != "open" {
			continue
		}
		k := 1
		switch o.K {
		case "open", "up", "upvar", "badopen":
			k = r.pick(3, 3, 3, 5, 6)
		case "abortget", "stallread", "silence", "vanish":
			k = 0
		default:
			k = r.pick(1, 1, 3)
		}
		if o.K == "open" && p.Cfg["victims"] == 0 && p.Prop != "C15" && r.oneIn(3) {
			continue
		}
		if t := at[r.intn(len(at))] - k*p.Clients[ci].Prof.LatUs; t >= 0 && (o.K != "open" || t < 20000 || p.Prop == "C15") {
			o.At = t
		}
	}
	seen := map[string]bool{}
	for _, o := range p.Ops {
		if o.A[0] == 'c' && !seen[o.A] {
			seen[o.A] = true
			g.sortActor(o.A)
			g.fixActor(o.A)
		}
	}
}

type gen struct {
	p     *Plan
	r     *rng
	hot   []int
	base  int
	extra int
}

func (g *gen) op(a string, at int, k string, c int, n ...int) *Op {
	g.p.Ops = append(g.p.Ops, Op{A: a, At: at, K: k, C: c, N: n})
	return &g.p.Ops[len(g.p.Ops)-1]
}

// at picks a time: near a hot instant, or anywhere.
func (g *gen) at() int {
	r := g.r
	if r.pct(80) {
		return g.hot[r.intn(len(g.hot))] + r.pick(0, 0, 1, r.intn(50), r.intn(300), r.intn(3000))
	}
	return g.base + r.intn(g.hot[len(g.hot)-1]-g.base+1000)
}

func generate(prop string, idx int, seed uint64) *Plan {
	r := newRng(seed, hashStr(prop), uint64(idx))
	p := &Plan{Prop: prop, Cfg: map[string]int{}}
	p.Seed, p.NetSeed = r.next()>>1, r.next()>>1
	it := [][2]int{{25000, 5000}, {5000, 2000}, {2000, 1000}, {1000, 500}}[r.intn(4)]
	p.Interval, p.Timeout = it[0], it[1]
	p.Kind = "engine"
	switch prop {
	case "C08":
		p.Kind = "hostile"
	case "C09", "C10", "C11", "C16":
		p.Kind = "sio"
		if r.pct(35) {
			p.Kind = "gocli"
		}
	case "C14":
		p.Kind = "gocli"
	case "C05":
		if r.pct(35) {
			p.Kind = "sio"
		}
	case "C12":
		if r.pct(45) {
			p.Kind = "sio"
			if r.pct(30) {
				p.Kind = "gocli"
			}
		}
	case "C13":
		switch r.intn(5) {
		case 0, 1:
		case 2, 3:
			p.Kind = "sio"
		case 4:
			p.Kind = "gocli"
		}
	case "C03", "C06", "C07", "C15":
		if r.pct(20) || prop == "C07" && r.pct(15) {
			p.Kind = "sio"
		} else if prop == "C06" && r.pct(15) {
			p.Kind = "gocli"
		}
	}
	g := &gen{p: p, r: r}
	switch p.Kind {
	case "engine":
		genEngine(g)
	case "hostile":
		genHostile(g)
	case "sio":
		genSio(g)
	case "gocli":
		genGocli(g)
	}
	if (prop == "C01" || prop == "C02") && r.oneIn(25) {
		p.Cfg["strict"] = 1
	}
	if prop == "C06" && p.Kind != "gocli" && r.fork("gc").oneIn(20) {
		p.Cfg["gc"] = 1
	}
	x := r.fork("extra")
	g.large(x)
	g.many(x)
	g.crowd(x)
	g.align(r.fork("align"))
	genSched(p, r.fork("sched"))
	if p.Cfg["big"] > 0 {
		p.Sched.SpinCap, p.Sched.StepCap = 20_000_000, 100_000_000
	}
	if p.Settle == 0 {
		p.Settle = p.Interval + 15*p.Timeout + 4000 + p.Cfg["sleep"]
	}
	return p
}

// large makes a few messages big: lengths that take all digits and all forms of headers, and many reads.
func (g *gen) large(r *rng) {
	p := g.p
	switch p.Prop {
	case "C04", "C07", "C08", "C13", "C15":
		return
	}
	if !r.pct(5) || p.Cfg["tiny"] > 0 {
		return
	}
	for k := r.pick(1, 1, 2, 4); k > 0; k-- {
		o := &p.Ops[r.intn(len(p.Ops))]
		switch o.K {
		case "send", "emit", "semit", "ev", "cliemit", "stemit":
		default:
			continue
		}
		c := &p.Clients[o.C]
		if f := c.Prof.Frag; f > 0 && f < 500 {
			c.Prof.Frag = 700
		}
		if f := c.Prof.Seg; f > 0 && f < 500 {
			c.Prof.Seg = 1400
		}
		if c.Frag > 0 && c.Frag < 50 {
			c.Frag = 900
		}
		c.Prof.Window = 0
		p.Cfg["big"] = 1
		o.N[0] = r.pick(1, 1, 2)
		o.N[2] = r.pick(4000, 9990, 15000, 32700, 49000, 65400, 66000, 70000, 100001, 140000)
	}
}

// many keeps hundreds of acknowledgement requests in flight.
func (g *gen) many(r *rng) {
	p := g.p
	if p.Prop != "C10" || !r.oneIn(40) {
		return
	}
	n := 0
	for i := range p.Ops {
		o := &p.Ops[i]
		if _, st, _ := strings.Cut(o.S, " "); n == 2 || len(st) > 2 || len(st) == 2 && st[1] != ';' {
			continue // callbacks that emit in turn
		}
		switch {
		case o.K == "semit" && o.n(3) >= 0 || (o.K == "cliemit" || o.K == "stemit") && o.n(3) > 0:
			o.N[0], o.N[2], o.N[4] = r.pick(140, 280, 530), r.pick(0, 10), 0
			n++
			p.Cfg["big"] = 1
		case o.K == "ev" && o.n(4) > 0:
			p.Cfg["big"] = 1
			o.N[0], o.N[2] = r.pick(140, 280, 530), r.pick(0, 10)
			o.N[3] = r.pick(20, o.N[0])
			n++
		}
	}
}

// crowd adds many clients that arrive at the same instant.
func (g *gen) crowd(r *rng) {
	p := g.p
	if p.Prop != "C07" && p.Prop != "C15" || !r.oneIn(40) {
		return
	}
	t := r.intn(g.hot[len(g.hot)-1])
	p.Cfg["big"] = 1
	for k := r.pick(12, 25, 50); k > 0; k-- {
		i := len(p.Clients)
		p.Clients = append(p.Clients, ClientPlan{Mode: r.pick(0, 0, 1, 2, 3), Ping: 60, Prof: netProfile{LatUs: 100}})
		a := fmt.Sprintf("c%d", i)
		g.op(a, t, "open", i)
		if p.Kind == "engine" {
			g.op(a, t+r.pick(300, 5000), "send", i, 1, 0, 10, 1)
			g.op(fmt.Sprintf("s%d", 500+i), t+5000, "emit", i, 1, 0, 10, 0)
		} else {
			g.op(a, t+r.pick(300, 5000), "ev", i, 1, 0, 10, 1, 0, 0).S = "/a"
			if p.Cfg["noroot"] == 0 {
				g.op(fmt.Sprintf("s%d", 500+i), t+5000, "semit", i, 1, 0, 10, -1, 0).S = "/"
			}
		}
	}
}

func (g *gen) times(maxLat int) {
	r, p := g.r, g.p
	g.base = 5000 + 10*maxLat
	span := r.pick(2000, 20000, 200000, p.Interval*500, p.Interval*1500)
	n := 1 + r.intn(5)
	t := g.base
	for i := 0; i < n; i++ {
		t += r.intn(span/n + 1)
		g.hot = append(g.hot, t)
	}
}

var weights = map[string]map[string]int{
	"C01": {"emit": 97, "send": 40, "up": 50, "upvar": 25, "close": 12, "cliend": 12, "react": 30, "faults": 25, "abortget": 25, "badpost": 5, "stallread": 12, "headers": 3},
	"C02": {"emit": 40, "send": 97, "up": 50, "upvar": 25, "close": 10, "cliend": 25, "react": 40, "faults": 25, "abortget": 5, "badpost": 30, "stallread": 3, "headers": 3},
	"C03": {"emit": 85, "send": 80, "up": 60, "upvar": 75, "close": 6, "cliend": 5, "react": 30, "faults": 25, "abortget": 4, "badpost": 3, "stallread": 2, "headers": 35},
	"C04": {"emit": 40, "send": 35, "up": 45, "upvar": 40, "close": 0, "cliend": 60, "react": 15, "faults": 12, "abortget": 5, "badpost": 5, "stallread": 8, "headers": 0},
	"C05": {"emit": 40, "send": 45, "up": 35, "upvar": 25, "close": 55, "cliend": 60, "react": 40, "faults": 20, "abortget": 5, "badpost": 5, "stallread": 5, "headers": 3},
	"C06": {"emit": 80, "send": 35, "up": 40, "upvar": 35, "close": 95, "cliend": 20, "react": 45, "faults": 12, "abortget": 5, "badpost": 3, "stallread": 30, "headers": 3},
	"C12": {"emit": 40, "send": 70, "up": 45, "upvar": 15, "close": 6, "cliend": 10, "react": 97, "faults": 5, "abortget": 0, "badpost": 0, "stallread": 0, "headers": 5},
	"C13": {"emit": 80, "send": 60, "up": 60, "upvar": 30, "close": 50, "cliend": 25, "react": 50, "faults": 8, "abortget": 10, "badpost": 5, "stallread": 3, "headers": 70},
	"C15": {"emit": 50, "send": 50, "up": 20, "upvar": 10, "close": 10, "cliend": 10, "react": 20, "faults": 5, "abortget": 0, "badpost": 0, "stallread": 0, "headers": 5, "badopen": 85, "srvclose": 35},
}

func genEngine(g *gen) {
	r, p := g.r, g.p
	if p.Prop == "C07" {
		genIsolation(g)
		return
	}
	wt := weights[p.Prop]
	on := func(f string) bool { return r.pct(wt[f]) }
	nc := r.pick(1, 1, 2, 3)
	if p.Prop == "C15" {
		nc = 1 + r.intn(6)
	}
	maxLat := 0
	for i := 0; i < nc; i++ {
		c := ClientPlan{Mode: r.pick(0, 1, 1, 2, 3), Ping: r.pick(30, 60, 90), Prof: genProfile(r)}
		if (on("up") || on("upvar")) && c.Mode == 0 {
			c.Mode = 1 + r.intn(3)
		}
		if p.Prop == "C04" && r.oneIn(5) { // as late as the timeout allows
			c.Ping = 100 + 60*p.Timeout/p.Interval
		}
		if r.oneIn(4) {
			c.Frag = r.pick(1, 5, 50)
		}
		if l := c.Prof.LatUs + c.Prof.JitUs; l > maxLat {
			maxLat = l
		}
		p.Clients = append(p.Clients, c)
	}
	g.times(maxLat)
	tiny := (p.Prop == "C01" || p.Prop == "C02") && r.pct(12)
	if tiny {
		p.Cfg["tiny"] = 1
	}
	single := r.oneIn(3) || tiny
	if single {
		p.Cfg["single"] = 1
	}
	if r.oneIn(3) && (p.Prop == "C15") {
		p.Cfg["origin"] = 1 + r.intn(4)
	}
	p.Cfg["probe"] = b2c(r.oneIn(4))
	srvA := 0
	cmds := func(ci int) string {
		if tiny || !on("react") {
			return ""
		}
		var s []string
		for k := 1 + r.intn(2); k > 0; k-- {
			switch r.intn(8) {
			case 0, 1, 2:
				if !single {
					s = append(s, fmt.Sprintf("e%d", r.pick(1, 2, 12, 30)))
				}
			case 3:
				if !single {
					s = append(s, fmt.Sprintf("x%d", r.intn(nc)))
				}
			case 4:
				if on("close") || p.Prop == "C12" && r.oneIn(3) {
					s = append(s, "c")
				}
			case 5:
				if on("close") {
					s = append(s, fmt.Sprintf("k%d", r.intn(nc)))
				}
			case 6:
				t := r.pick(1, 20, p.Timeout/2)
				p.Cfg["sleep"] += t
				s = append(s, fmt.Sprintf("s%d", t))
			case 7:
				if r.oneIn(2) {
					s = append(s, "h")
				} else {
					s = append(s, fmt.Sprintf("o%d", r.intn(5)))
				}
			}
		}
		return strings.Join(s, ",")
	}
	size := func() int { return r.pick(0, 10, 60, 200, 1500, 3000) }
	for ci := 0; ci < nc; ci++ {
		a := fmt.Sprintf("c%d", ci)
		c := &p.Clients[ci]
		o := g.op(a, r.pick(0, 0, r.intn(200), r.intn(4000)), "open", ci)
		_ = o
		if on("react") && !tiny {
			if s := cmds(ci); s != "" {
				g.op("x", 0, r.pickS("onopen", "onopen", "onping", "onupgrade", "onclose"), ci).S = s
			}
		}
		// client messages
		if on("send") {
			if r.oneIn(3) { // immediately after the handshake
				n := 1 + r.intn(8)
				g.op(a, 0, "send", ci, n, g.kind(tiny), g.size(tiny, size()), r.pick(1, n, 3)).S = cmds(ci)
			}
			for k := 1 + r.intn(3); k > 0; k-- {
				n := r.pick(1, 2, 5, 20)
				o := g.op(a, g.at(), "send", ci, n, g.kind(tiny), g.size(tiny, size()), r.pick(1, n, 3))
				if s := cmds(ci); s != "" && !strings.Contains(s, "s") {
					o.S = s
				} else if s != "" {
					o.N[0] = 1
					o.S = s
				}
			}
			g.sortActor(a)
		}
		if on("emit") {
			na := 1
			if !single {
				na = r.pick(1, 1, 2, 3)
			}
			for k := 0; k < na; k++ {
				sa := fmt.Sprintf("s%d", srvA)
				srvA++
				for j := 1 + r.intn(3); j > 0; j-- {
					g.op(sa, g.at(), "emit", ci, r.pick(1, 2, 6, 12, 40), g.kind(tiny), g.size(tiny, size()), r.pick(0, 0, 0, 30, 400))
				}
				g.sortActor(sa)
			}
		}
		if c.Mode != 0 {
			ua := fmt.Sprintf("c%d.up", ci)
			if on("upvar") {
				for k := r.pick(1, 1, 2); k > 0; k-- {
					hold := r.pick(0, 1, 30, p.Timeout/2, p.Timeout, p.Interval/2)
					o := g.op(ua, g.at(), "upvar", ci, hold, r.intn(2))
					o.S = r.pickS("silent", "garbage", "rawgarbage", "drop-probe", "drop-pong", "garbage-pong", "cut", "drop-upgrade", "late", "drop-pong", "silent", "late-fail")
					if r.oneIn(12) {
						o.S = "rival"
					}
					if r.oneIn(5) && (o.S == "silent" || o.S == "drop-probe" || o.S == "drop-pong") {
						o.N[0] = 2 * (p.Interval + p.Timeout) // until the server gives up
					}
					if o.S == "late" || o.S == "late-fail" {
						o.N[0] = r.pick(0, 30, p.Timeout/2)
					}
					if (o.S == "late-fail" || r.oneIn(6)) && r.oneIn(2) && !single { // so much that polling for it takes longer than the server waits
						g.op(fmt.Sprintf("s%d", srvA), o.At+r.intn(20000), "emit", ci, r.pick(60, 150, 400), r.pick(0, 2), r.pick(0, 30), 0)
						srvA++
					}
				}
				p.Cfg["midup"] = 1
			}
			if on("up") {
				g.op(ua, g.at(), "up", ci)
				if r.oneIn(3) {
					g.op(ua, g.at()+r.intn(5000), "pollold", ci, r.intn(2))
				}
				if r.oneIn(10) {
					g.op(ua, g.at(), "up", ci)
				}
			}
			g.sortActor(ua)
			if on("abortget") {
				for k := 1 + r.intn(3); k > 0; k-- {
					g.op(fmt.Sprintf("c%d.ab", ci), g.at(), "abortget", ci, r.intn(2))
				}
				g.sortActor(fmt.Sprintf("c%d.ab", ci))
			}
			if on("badpost") {
				for k := 1 + r.intn(2); k > 0; k-- {
					g.op(a, g.at(), "badpost", ci, r.intn(7))
				}
				g.sortActor(a)
			}
			if r.oneIn(25) {
				g.op(fmt.Sprintf("c%d.m", ci), g.at(), "method", ci, r.intn(4))
			}
		}
		if r.pct(8) {
			for k := 1 + r.intn(2); k > 0; k-- {
				g.op(a, g.at(), "stray", ci, r.intn(3))
			}
			g.sortActor(a)
		}
		if on("headers") {
			for k := 1 + r.intn(2); k > 0; k-- {
				sa := fmt.Sprintf("s%d", srvA)
				srvA++
				g.op(sa, g.at(), "headers", ci, r.intn(4))
			}
		}
		if (p.Prop == "C13" || p.Prop == "C12") && r.oneIn(3) {
			g.op(fmt.Sprintf("s%d", srvA), g.at(), "on", ci, r.intn(5))
			srvA++
		}
		if r.oneIn(8) {
			g.op(fmt.Sprintf("c%d.pg", ci), g.at(), "ping", ci, r.intn(2))
		}
		if on("stallread") {
			g.op(fmt.Sprintf("c%d.st", ci), g.at(), "stallread", ci, r.pick(50, p.Timeout/2, 2*p.Timeout, p.Interval+3*p.Timeout))
			if r.oneIn(2) {
				c.Prof.Window = 2048
				c.Prof.LatUs, c.Prof.JitUs = r.logRange(20, 500), 0
			}
			if c.Mode != 0 && r.oneIn(2) {
				c.Mode = 0
			}
		}
		if on("cliend") {
			k := r.pickS("closepkt", "fin", "rst", "vanish", "silence", "silence", "closepkt")
			o := g.op(fmt.Sprintf("c%d.end", ci), g.at(), k, ci, r.intn(2))
			_ = o
			if r.oneIn(5) {
				g.op(fmt.Sprintf("c%d.end", ci), g.at()+r.intn(1000), r.pickS("closepkt", "fin", "rst"), ci)
				g.sortActor(fmt.Sprintf("c%d.end", ci))
			}
			if r.oneIn(2) { // leave right after the last messages
				g.op(a, g.lastAt(a), "closepkt", ci)
			}
		}
		if on("close") {
			n := r.pick(1, 1, 2, 3)
			t := g.at()
			for k := 0; k < n; k++ {
				sa := fmt.Sprintf("s%d", srvA)
				srvA++
				g.op(sa, t+r.pick(0, 0, 1, r.intn(30)), "close", ci, r.pick(0, 0, 1, 2))
				if r.oneIn(3) {
					g.op(sa, t+r.intn(50), "emit", ci, 2, 0, 20)
				}
			}
		}
		if on("faults") {
			for k := r.pick(1, 1, 2); k > 0; k-- {
				lab := "ws"
				if c.Mode != 0 {
					lab = r.pickS("poll", "poll", "post", "up")
				}
				f := ConnFault{Label: fmt.Sprintf("c%d/%s", ci, lab), Nth: r.pick(0, 0, 0, 1), Down: r.oneIn(2), Off: int64(r.logRange(1, 6000))}
				f.Kind = r.pickS("stall", "stall", "reset", "fin", "hole")
				if f.Kind == "stall" {
					f.DurUs = r.logRange(100, p.Timeout*300)
					p.Cfg["netstall_us"] += f.DurUs
				}
				p.Faults = append(p.Faults, f)
			}
		}
		if on("badopen") {
			g.badOpens(ci)
		}
	}
	if on("srvclose") {
		t := g.at()
		g.op("s90", t, "srvclose", 0)
		for i := range p.Ops {
			if p.Ops[i].K == "open" && r.oneIn(2) {
				o := &p.Ops[i]
				l := p.Clients[o.C].Prof.LatUs
				o.At = t + r.pick(0, 1, r.intn(200), 2000+r.intn(5000), -l+r.intn(30), -2*l+r.intn(30), -3*l+r.intn(60))
				if o.At < 0 {
					o.At = 0
				}
				g.fixActor(o.A)
			}
		}
	} else if p.Prop == "C15" && r.oneIn(2) { // simultaneous handshakes
		t := r.intn(2000)
		for i := range p.Ops {
			if p.Ops[i].K == "open" {
				p.Ops[i].At = t + r.pick(0, 0, 1)
			}
		}
	}
}

func b2c(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *rng) pickS(v ...string) string { return v[r.intn(len(v))] }

func (g *gen) kind(tiny bool) int {
	if tiny {
		return g.r.pick(4, 5, 0, 2)
	}
	return g.r.pick(0, 1, 2, 9, 9)
}

func (g *gen) size(tiny bool, s int) int {
	if tiny {
		return g.r.pick(0, 0, 1)
	}
	return s
}

func (g *gen) lastAt(a string) int {
	m := 0
	for _, o := range g.p.Ops {
		if o.A == a && o.At > m {
			m = o.At
		}
	}
	return m
}

// sortActor puts an actor's operations in time order (stable), keeping "open" first.
func (g *gen) sortActor(a string) {
	var pos []int
	for i, o := range g.p.Ops {
		if o.A == a {
			pos = append(pos, i)
		}
	}
	for i := 1; i < len(pos); i++ {
		for j := i; j > 0 && g.p.Ops[pos[j]].At < g.p.Ops[pos[j-1]].At && g.p.Ops[pos[j]].K != "open" && g.p.Ops[pos[j-1]].K != "open"; j-- {
			g.p.Ops[pos[j]], g.p.Ops[pos[j-1]] = g.p.Ops[pos[j-1]], g.p.Ops[pos[j]]
		}
	}
}

func (g *gen) fixActor(a string) {
	t := -1
	for i := range g.p.Ops {
		if o := &g.p.Ops[i]; o.A == a {
			if o.At < t {
				o.At = t
			}
			if o.K == "open" {
				t = o.At
			}
		}
	}
}

// badOpens are requests that must be refused.
func (g *gen) badOpens(ci int) {
	r, p := g.r, g.p
	a := fmt.Sprintf("c%d.bad", ci)
	for k := 1 + r.intn(3); k > 0; k-- {
		vs := []string{"eio2", "eio3x", "transportx", "noeio", "eio4ws", "transport", "notransport", "sid", "sidws", "wsplain", "wspost", "wsver", "wskey"}
		if p.Cfg["origin"] > 0 {
			vs = append(vs, "origin", "originws", "origin", "originws", "originup", "originup", "originup")
		}
		o := g.op(a, g.at(), "badopen", ci)
		o.S = vs[r.intn(len(vs))]
	}
	g.sortActor(a)
}

// genIsolation: the first clients misbehave, the others must not notice.
func genIsolation(g *gen) {
	r, p := g.r, g.p
	nv := r.pick(1, 1, 2)
	nb := r.pick(1, 2, 3)
	p.Cfg["victims"] = nv
	for i := 0; i < nv+nb; i++ {
		c := ClientPlan{Mode: r.pick(0, 0, 1, 2, 3), Ping: r.pick(30, 60), Prof: genProfile(r)}
		if c.Prof.LatUs > 1000 {
			c.Prof.LatUs, c.Prof.JitUs = 1000, 0
		}
		p.Clients = append(p.Clients, c)
	}
	g.times(2000)
	srvA := 0
	for i := 0; i < nv; i++ {
		c := &p.Clients[i]
		a := fmt.Sprintf("c%d", i)
		g.op(a, r.intn(1000), "open", i)
		long := r.pick(3000, 6000, 2*p.Timeout, p.Interval)
		if long < 3000 {
			long = 3000
		}
		for k := r.pick(1, 1, 2); k > 0; k-- {
			switch r.intn(9) {
			case 0: // open callback blocks
				p.Cfg["sleep"] += long
				g.op("x", 0, "onopen", i).S = fmt.Sprintf("s%d", long)
			case 1: // message handler blocks while more arrives
				p.Cfg["sleep"] += long
				g.op(a, g.at(), "send", i, 1, 0, 5, 1).S = fmt.Sprintf("s%d", long)
				g.op(a, g.at(), "send", i, 40, 0, 50, 4)
			case 2: // stalled reader with a backlog
				c.Mode = 0
				c.Prof.Window = 1024
				g.op(fmt.Sprintf("c%d.st", i), g.at(), "stallread", i, long)
				g.op(fmt.Sprintf("s%d", srvA), g.at(), "emit", i, 60, 0, 200)
				srvA++
			case 3: // vanishes with a backlog
				g.op(fmt.Sprintf("c%d.v", i), g.at(), "vanish", i)
				g.op(fmt.Sprintf("s%d", srvA), g.at(), "emit", i, 60, 0, 200)
				srvA++
				if r.oneIn(2) {
					g.op(fmt.Sprintf("s%d", srvA), g.at(), "close", i)
					srvA++
				}
			case 4: // polling client that stops polling, with a backlog, then closed
				if c.Mode == 0 {
					c.Mode = 1
				}
				g.op(fmt.Sprintf("c%d.v", i), g.at(), "silence", i, 1)
				g.op(fmt.Sprintf("s%d", srvA), g.at(), "emit", i, 60, 0, 200)
				srvA++
				if r.oneIn(2) {
					g.op(fmt.Sprintf("s%d", srvA), g.at(), "close", i)
					srvA++
				}
			case 5: // half-hearted upgrade
				if c.Mode == 0 {
					c.Mode = 1
				}
				o := g.op(fmt.Sprintf("c%d.up", i), g.at(), "upvar", i, long, 1)
				o.S = r.pickS("silent", "drop-probe", "drop-pong", "garbage-pong", "cut", "garbage")
				g.op(fmt.Sprintf("s%d", srvA), g.at(), "emit", i, 40, 0, 200)
				srvA++
			case 6: // callbacks block
				p.Cfg["sleep"] += long
				g.op("x", 0, r.pickS("onping", "onupgrade", "onclose"), i).S = fmt.Sprintf("s%d", long)
				if c.Mode != 0 {
					g.op(fmt.Sprintf("c%d.up", i), g.at(), "up", i)
				}
				g.op(fmt.Sprintf("c%d.end", i), g.at(), r.pickS("closepkt", "fin", "rst"), i)
			case 7: // network hole or stall in the middle of something
				lab := "ws"
				if c.Mode != 0 {
					lab = r.pickS("poll", "post")
				}
				p.Faults = append(p.Faults, ConnFault{Label: fmt.Sprintf("c%d/%s", i, lab), Down: r.oneIn(2), Off: int64(r.logRange(1, 3000)), Kind: r.pickS("hole", "stall"), DurUs: long * 1000})
				g.op(a, g.at(), "send", i, 20, 0, 100, 5)
				g.op(fmt.Sprintf("s%d", srvA), g.at(), "emit", i, 40, 0, 200)
				srvA++
			case 8: // handshake that stalls half way
				p.Faults = append(p.Faults, ConnFault{Label: fmt.Sprintf("c%d/%s", i, r.pickS("ws", "poll")), Off: int64(r.logRange(1, 300)), Down: r.oneIn(2), Kind: "hole"})
			}
		}
		g.sortActor(a)
	}
	for i := nv; i < nv+nb; i++ {
		a := fmt.Sprintf("c%d", i)
		at := r.intn(1000)
		if r.oneIn(2) {
			at = g.at()
		}
		g.op(a, at, "open", i)
		for k := 1 + r.intn(3); k > 0; k-- {
			g.op(a, g.at(), "send", i, r.pick(1, 2, 6), 0, 100, r.pick(1, 3))
		}
		g.sortActor(a)
		g.fixActor(a)
		sa := fmt.Sprintf("s%d", srvA)
		srvA++
		for k := 1 + r.intn(3); k > 0; k-- {
			g.op(sa, g.at(), "emit", i, r.pick(1, 3, 8), 0, 100)
		}
		g.sortActor(sa)
		if p.Clients[i].Mode != 0 && r.oneIn(3) {
			g.op(fmt.Sprintf("c%d.up", i), g.at(), "up", i)
		}
		if r.oneIn(4) {
			g.op(fmt.Sprintf("s%d", srvA), g.at(), "on", i, r.intn(5))
			srvA++
		}
		if r.oneIn(6) {
			g.op(fmt.Sprintf("s%d", srvA), g.at(), "close", i)
			srvA++
		}
	}
}
