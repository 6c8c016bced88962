package main

import (
	"bufio"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"weak"
)

type detReader struct{ r *rng }

func (d detReader) Read(b []byte) (int, error) {
	for i := 0; i < len(b); i += 8 {
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], d.r.next())
		copy(b[i:], x[:])
	}
	return len(b), nil
}

// outcome is what one simulated run produced.
type outcome struct {
	Viol  []Violation
	Res   runtime.SimResult
	Hash  uint64
	Steps uint64
	World *World
}

func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	log.SetOutput(io.Discard)
	loadSites()
	// first-use caches (reflection, encoders, lookup tables) are filled before anything counts
	for _, p := range []string{"C01", "C03", "C08", "C09", "C14"} {
		for i := 0; i < 3; i++ {
			runPlan(generate(p, i, 12345))
		}
	}
}

func runPlan(p *Plan) *outcome {
	runtime.SimPoolCleanup()
	w := newWorld(p)
	rand.Reader = detReader{newRng(p.Seed, 99)}
	net.SimDialHook = w.net.dialHook
	races := raceCount()
	raceMark()
	cfg := p.Sched.config()
	res, _ := runtime.SimRun(cfg, func() {
		switch p.Kind {
		case "engine":
			runEngine(w)
		case "hostile":
			runHostile(w)
		case "sio":
			runSio(w)
		case "gocli":
			runGocli(w)
		}
	})
	o := &outcome{Res: res, World: w}
	v := &verdict{w, &res}
	v.run()
	if p.Cfg["gc"] > 0 && res.Aborted == 0 && w.phase == 9 {
		w.garbage()
	}
	if raceBuild && raceCount() != races {
		for _, m := range raceReports() {
			w.violate("C13", "race", "%s", m)
		}
	}
	o.Viol = w.viol
	h := w.hash
	h = mix64(h ^ res.Yields)
	h = mix64(h ^ res.Cov)
	o.Hash = h
	return o
}

// garbage checks that nothing keeps the sockets of the sessions in memory, which all have ended.
func (w *World) garbage() {
	type ref struct {
		p weak.Pointer[byte]
		s *sess
		k string
	}
	var refs []ref
	add := func(s *sess, so interface{}) {
		if v := reflect.ValueOf(so); v.Kind() == reflect.Pointer && !v.IsNil() {
			refs = append(refs, ref{weak.Make((*byte)(v.UnsafePointer())), s, v.Type().String()})
		}
	}
	for _, s := range w.sess {
		if s.so != nil {
			add(s, s.so)
		}
		for _, so := range s.socks {
			if reflect.TypeOf(so).String() == "*socketio.socket" {
				add(s, so)
			}
		}
		s.so, s.socks = nil, nil
	}
	runtime.SimPoolCleanup()
	runtime.GC()
	runtime.GC()
	for _, r := range refs {
		if r.p.Value() != nil {
			w.violate("C06", "memory-leak", "the %s of client %d's session is still referenced after every session ended and the server was closed", r.k, r.s.c)
		}
	}
	runtime.KeepAlive(w)
}

// pick returns the first violation of the property, ignoring known findings.
func (o *outcome) pick(prop string) *Violation {
	for i := range o.Viol {
		if o.Viol[i].Prop == prop || o.Viol[i].Prop == "HARNESS" {
			return &o.Viol[i]
		}
	}
	return nil
}

func (o *outcome) has(prop, code string) *Violation {
	for i := range o.Viol {
		if o.Viol[i].Prop == prop && o.Viol[i].Code == code {
			return &o.Viol[i]
		}
	}
	return nil
}

// ---- one ----

func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	idx := fs.Int("i", 0, "")
	n := fs.Int("n", 1, "")
	seed := fs.Uint64("seed", 1, "")
	all := fs.Bool("all", false, "report violations of every property")
	verbose := fs.Bool("v", false, "print the history")
	planOut := fs.Bool("plan", false, "print the plan")
	hashes := fs.Bool("hash", false, "print hashes")
	cover := fs.Bool("cover", false, "print how often each program point was passed")
	fs.Parse(args)
	setup()
	count := map[string]int{}
	first := map[string]int{}
	sample := map[string]string{}
	t0 := time.Now()
	var sim int64
	for i := *idx; i < *idx+*n; i++ {
		p := generate(*prop, i, *seed)
		if *planOut {
			b, _ := json.Marshal(p)
			fmt.Println(string(b))
		}
		o := runPlan(p)
		sim += o.Res.SimNs
		if *hashes {
			fmt.Printf("%d %016x\n", i, o.Hash)
		}
		if *verbose {
			printHistory(o)
		}
		seen := map[string]bool{}
		for _, v := range o.Viol {
			if !*all && v.Prop != *prop && v.Prop != "HARNESS" {
				continue
			}
			k := v.Prop + " " + v.Code
			if !seen[k] {
				seen[k] = true
				count[k]++
				if count[k] == 1 {
					first[k] = i
					sample[k] = v.Msg
				}
			}
		}
		if i%100 == 99 {
			runtime.GC()
		}
	}
	for _, k := range sortedKeys(count) {
		fmt.Printf("%-28s %5d  first %d: %s\n", k, count[k], first[k], sample[k])
	}
	if *cover {
		for id, name := range siteNames {
			if name != "" {
				fmt.Printf("site %9d %s\n", runtime.SimSiteHits()[id], name)
			}
		}
	}
	fmt.Printf("%d runs in %v, simulated %v\n", *n, time.Since(t0), time.Duration(sim))
}

func printHistory(o *outcome) {
	for i, e := range o.World.log_ {
		fmt.Printf("%5d %12.6f %-16s c%-3d %.70q %d\n", i, float64(e.T-o.World.log_[0].T)/1e9, e.K, e.C, e.S, e.I)
	}
	fmt.Printf("%+v\n", strings.Split(fmt.Sprintf("%+v", o.Res), " AbortStack")[0])
	for _, v := range o.Viol {
		fmt.Printf("VIOL %s %s: %s\n", v.Prop, v.Code, v.Msg)
	}
}

// ---- worker ----

type workerOut struct {
	Runs     int            `json:"runs"`
	SimNs    int64          `json:"sim_ns"`
	Yields   uint64         `json:"yields"`
	Switches uint64         `json:"switches"`
	Preempts uint64         `json:"preempts"`
	Stalls   uint64         `json:"stalls"`
	PickAlts uint64         `json:"pick_alts"`
	SelAlts  uint64         `json:"sel_alts"`
	Covs     []uint64       `json:"covs"`
	Pairs    uint64         `json:"pairs"`
	PairMap  []uint32       `json:"pair_map"`
	Fired    map[string]int `json:"fired"`
	Probes   map[string]int `json:"probes"`
	Events   int            `json:"events"`
	Sample   string         `json:"sample"`
	Aborted  int            `json:"aborted"`
	Found    *found         `json:"found,omitempty"`
	Known    map[string]int `json:"known,omitempty"`
	Other    map[string]int `json:"other,omitempty"`
}

type found struct {
	Index int        `json:"index"`
	Viol  Violation  `json:"violation"`
	Plan  *Plan      `json:"plan"`
	Trace []traceDec `json:"trace"`
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 100, "")
	deadline := fs.Int64("deadline", 0, "unix ms")
	known := fs.String("known", "", "")
	fs.Parse(args)
	setup()
	kn := loadKnown(*known, *prop)
	out := &workerOut{Fired: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, Other: map[string]int{}}
	for i := *from; i < *from+*n; i++ {
		if *deadline > 0 && time.Now().UnixMilli() > *deadline {
			break
		}
		p := generate(*prop, i, *seed)
		o := runPlan(p)
		out.Runs++
		out.SimNs += o.Res.SimNs
		out.Yields += o.Res.Yields
		out.Switches += o.Res.Switches
		out.Preempts += o.Res.Preempts
		out.Stalls += o.Res.Stalls
		out.PickAlts += o.Res.PickAlts
		out.SelAlts += o.Res.SelAlts
		out.Events += len(o.World.log_)
		if o.Res.Aborted != 0 {
			out.Aborted++
		}
		nontrivial := o.Res.Switches >= 20 && len(o.World.log_) >= 10
		if nontrivial {
			out.Covs = append(out.Covs, o.Res.Cov)
		}
		for k, v := range o.World.net.fired {
			out.Fired[k] += v
		}
		countOps(o.World, out.Fired)
		for k, v := range o.World.probes {
			out.Probes[k] += v
		}
		if out.Sample == "" && nontrivial {
			out.Sample = describe(p, o)
		}
		stop := false
		for _, v := range o.Viol {
			if v.Prop != *prop && v.Prop != "HARNESS" {
				out.Other[v.Prop+"/"+v.Code]++
				continue
			}
			if k := kn.match(&v); k != "" {
				out.Known[k]++
				continue
			}
			tr := traceOf(runtime.SimTrace())
			out.Found = &found{Index: i, Viol: v, Plan: p, Trace: tr}
			stop = true
			break
		}
		if stop {
			break
		}
		if i%40 == 39 {
			runtime.GC()
		}
	}
	var m *[1 << 16]uint64
	out.Pairs, m = runtime.SimSwitches()
	for i, x := range m {
		for b := 0; x != 0; b++ {
			if x&1 != 0 {
				out.PairMap = append(out.PairMap, uint32(i)<<6|uint32(b))
			}
			x >>= 1
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(append(b, '\n'))
}

// countOps counts the disturbances that actually happened.
func countOps(w *World, m map[string]int) {
	for _, e := range w.log_ {
		switch e.K {
		case "disturb":
			m["client-"+e.S]++
		case "get-lost":
			m["poll-response-lost"]++
		case "upgrade":
			if e.S != "" {
				m["upgrade-"+e.S]++
			} else {
				m["upgrade-normal"]++
			}
		case "bad-post", "bad-open", "srvclose", "hostile":
			m[e.K]++
		case "call close":
			m["app-close"]++
		case "cb-sleep":
			m["blocked-callback"]++
		}
	}
}

func describe(p *Plan, o *outcome) string {
	var ops []string
	for _, x := range p.Ops {
		if len(ops) < 12 {
			ops = append(ops, fmt.Sprintf("%s@%dus %s c%d %v %s", x.A, x.At, x.K, x.C, x.N, x.S))
		}
	}
	var cl []string
	for _, c := range p.Clients {
		cl = append(cl, fmt.Sprintf("mode%d lat%dus", c.Mode, c.Prof.LatUs))
	}
	return fmt.Sprintf("%s seed %d: %d/%d ms, clients [%s], ops [%s], faults %d; %d events, %d switches, %d preemptions, %d stalls, %.1fs simulated",
		p.Kind, p.Seed, p.Interval, p.Timeout, strings.Join(cl, "; "), strings.Join(ops, "; "), len(p.Faults), len(o.World.log_), o.Res.Switches, o.Res.Preempts, o.Res.Stalls, float64(o.Res.SimNs)/1e9)
}

// ---- known findings ----

type knownList []string

// loadKnown reads lines "known: property=<id> code=<code> match=<substring> :: <text>".
func loadKnown(path, prop string) (out knownList) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, l)
		}
	}
	return
}

func (k knownList) match(v *Violation) string {
	for _, l := range k {
		rest := l[strings.Index(l, "code="):]
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		spec := rest[:i]
		j := strings.Index(spec, " match=")
		if j < 0 {
			continue
		}
		if v.Code == spec[len("code="):j] && strings.Contains(v.Msg, spec[j+len(" match="):]) {
			return l
		}
	}
	return ""
}

// ---- check ----

func verifDir() string {
	exe, _ := os.Executable()
	d, _ := filepath.Abs(filepath.Join(filepath.Dir(exe), "../.."))
	return d
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(3)
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	budget := fs.Float64("budget", 50, "seconds of search")
	minRuns := fs.Int("min", 200, "runs to do at least")
	workers := fs.Int("workers", 8, "")
	chunk := fs.Int("chunk", 150, "")
	tier := fs.String("tier", "quick", "")
	replayDir := fs.String("replays", filepath.Join(verifDir(), "evidence", "replay"), "")
	fs.Parse(args)
	known := filepath.Join(verifDir(), "known-findings.txt")
	exe, _ := os.Executable()
	t0 := time.Now()
	deadline := t0.Add(time.Duration(*budget * float64(time.Second)))
	hard := t0.Add(time.Duration(*budget*float64(time.Second))*3 + 60*time.Second)

	var mu sync.Mutex
	next := 0
	total := &workerOut{Fired: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, Other: map[string]int{}}
	covs := map[uint64]bool{}
	pairs := map[uint32]bool{}
	var samples []string
	var best *found
	var trouble string
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if best != nil || trouble != "" || (time.Now().After(deadline) && next >= *minRuns) {
					mu.Unlock()
					return
				}
				from := next
				next += *chunk
				mu.Unlock()
				dl := deadline
				if from < *minRuns {
					dl = hard
				}
				out, err := runWorker(exe, hard, "worker", "-prop", *prop, "-seed", strconv.FormatUint(*seed, 10), "-from", strconv.Itoa(from),
					"-n", strconv.Itoa(*chunk), "-deadline", strconv.FormatInt(dl.UnixMilli(), 10), "-known", known)
				mu.Lock()
				if err != nil {
					if trouble == "" {
						trouble = fmt.Sprintf("worker for runs %d..: %v", from, err)
					}
					mu.Unlock()
					return
				}
				total.Runs += out.Runs
				total.SimNs += out.SimNs
				total.Yields += out.Yields
				total.Switches += out.Switches
				total.Preempts += out.Preempts
				total.Stalls += out.Stalls
				total.PickAlts += out.PickAlts
				total.SelAlts += out.SelAlts
				total.Events += out.Events
				total.Aborted += out.Aborted
				for k, v := range out.Fired {
					total.Fired[k] += v
				}
				for k, v := range out.Probes {
					total.Probes[k] += v
				}
				for k, v := range out.Known {
					total.Known[k] += v
				}
				for k, v := range out.Other {
					total.Other[k] += v
				}
				for _, c := range out.Covs {
					covs[c] = true
				}
				for _, c := range out.PairMap {
					pairs[c] = true
				}
				if out.Sample != "" && len(samples) < 3 {
					samples = append(samples, out.Sample)
				}
				if out.Found != nil && (best == nil || out.Found.Index < best.Index) {
					best = out.Found
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	search := time.Since(t0).Seconds()
	viol := 0
	exit := 0
	if best != nil && best.Viol.Prop == "HARNESS" {
		fmt.Printf("harness trouble in run %d: %s %s\n", best.Index, best.Viol.Code, best.Viol.Msg)
		exit = 3
	} else if best != nil {
		viol = 1
		path, err := report(exe, *prop, best, *replayDir, *tier)
		if err != nil {
			fmt.Println("sim:", err)
			exit = 3
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			exit = 1
		}
	} else if trouble != "" {
		fmt.Println("sim: search failed:", trouble)
		exit = 3
	}
	for _, k := range sortedKeys(total.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k[strings.Index(k, " :: ")+4:])
	}
	if samples == nil {
		samples = []string{"none"}
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": wall, "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":                         total.Runs,
			"distinct_nontrivial":                 len(covs),
			"rule":                                "One evaluation is one simulated execution: a generated workload, fault plan and seeded schedule of the real server (and client) code. It is non-trivial if at least 20 context switches and 10 recorded events happened, and distinct if its sequence of context switches (goroutine, program point) differs from every other run's.",
			"samples":                             samples,
			"runs_per_hour":                       float64(total.Runs) / search * 3600,
			"seeds_per_hour":                      float64(total.Runs) / search * 3600,
			"simulated_seconds":                   float64(total.SimNs) / 1e9,
			"events_recorded":                     total.Events,
			"scheduling_points":                   total.Yields,
			"context_switches":                    total.Switches,
			"injected_preemptions":                total.Preempts,
			"injected_thread_stalls":              total.Stalls,
			"reordered_wakeups":                   total.PickAlts,
			"reordered_selects":                   total.SelAlts,
			"distinct_context_switch_pairs":       len(pairs),
			"faults_injected":                     total.Fired,
			"probes":                              total.Probes,
			"aborted_runs":                        total.Aborted,
			"violations_of_other_properties_seen": total.Other,
			"components_real":                     "engine.io and socket.io packages of /repo, gorilla/websocket, msgp, net/http server, encoding/json, sync, context and the Go runtime's channels, select, timers and goroutines",
			"components_stubbed":                  "TCP (simulated links), the clock (virtual), the goroutine scheduler's choices, crypto/rand, the remote engine.io/socket.io peers (written from the protocol)",
		},
		"assumptions": []string{
			"preemption happens at statement boundaries of the code under test (and block entries of gorilla/websocket), not between machine instructions",
			"simulated TCP delivers bytes in order within a connection or breaks it; the peers' protocol stubs follow engine.io 3 and socket.io 4",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("%s: %d runs, %d distinct, %.0f simulated seconds in %.1fs; faults %v\n", *prop, total.Runs, len(covs), float64(total.SimNs)/1e9, wall, len(total.Fired))
	os.Exit(exit)
}

func runWorker(exe string, hard time.Time, args ...string) (*workerOut, error) {
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GODEBUG=", "GOGC=off")
	var errb limitBuf
	cmd.Stderr = &errb
	po, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(time.Until(hard), func() { cmd.Process.Kill() })
	defer timer.Stop()
	rd := bufio.NewReaderSize(po, 1<<20)
	line, rerr := rd.ReadBytes('\n')
	io.Copy(io.Discard, rd)
	werr := cmd.Wait()
	if rerr != nil {
		return nil, fmt.Errorf("no result (%v, %v): %s", rerr, werr, errb.String())
	}
	var out workerOut
	if err := json.Unmarshal(line, &out); err != nil {
		return nil, err
	}
	return &out, nil
}

type limitBuf struct{ b []byte }

func (l *limitBuf) Write(p []byte) (int, error) {
	if len(l.b) < 8000 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limitBuf) String() string { return string(l.b) }

// ---- reporting and replay ----

type replayFile struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	RunIndex  int       `json:"run_index"`
	Plan      *Plan     `json:"plan"`
	EventHash string    `json:"event_hash"`
	Note      string    `json:"note"`
	History   []string  `json:"history"`
	Schedule  []string  `json:"schedule"`
}

// report shrinks a finding in a separate process, writes the replay file and verifies it in a fresh process.
func report(exe, prop string, f *found, dir, tier string) (string, error) {
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, f.Index))
	p := f.Plan.clone()
	p.Sched.Replay = true
	p.Sched.Trace = f.Trace
	rf := &replayFile{Property: prop, Violation: f.Viol, RunIndex: f.Index, Plan: p}
	write := func() error {
		b, _ := json.MarshalIndent(rf, "", " ")
		return os.WriteFile(path, b, 0o644)
	}
	if err := write(); err != nil {
		return "", err
	}
	verify := func() bool {
		cmd := exec.Command(exe, "replay", "-q", path)
		cmd.Env = append(os.Environ(), "GOGC=off")
		err := cmd.Run()
		ee, ok := err.(*exec.ExitError)
		return ok && ee.ExitCode() == 1
	}
	if !verify() {
		// fall back to the seeded schedule itself
		rf.Plan = f.Plan.clone()
		rf.Note = "replays by re-running the seeded strategy"
		if err := write(); err != nil {
			return "", err
		}
		if !verify() {
			return "", fmt.Errorf("run %d reported %s/%s (%s) but does not reproduce in a fresh process", f.Index, f.Viol.Prop, f.Viol.Code, f.Viol.Msg)
		}
	}
	full, _ := os.ReadFile(path)
	cmd := exec.Command(exe, "replay", "-shrink", "-seconds", "45", path)
	cmd.Env = append(os.Environ(), "GOGC=off")
	cmd.Run()
	if !verify() {
		os.WriteFile(path, full, 0o644)
		if !verify() {
			return "", fmt.Errorf("run %d: replay is not reproducible", f.Index)
		}
	}
	if b, err := os.ReadFile(path); err == nil {
		var r replayFile
		if json.Unmarshal(b, &r) == nil {
			fmt.Printf("%s %s: %s\n", r.Violation.Prop, r.Violation.Code, r.Violation.Msg)
		}
	}
	return path, nil
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	shrink := fs.Bool("shrink", false, "")
	secs := fs.Int("seconds", 45, "")
	hist := fs.Bool("v", false, "print the history")
	fs.Parse(args)
	path := fs.Arg(0)
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fail("%v", err)
	}
	setup()
	if *shrink {
		shrinkPlan(&rf, time.Duration(*secs)*time.Second)
		b, _ := json.MarshalIndent(&rf, "", " ")
		os.WriteFile(path, b, 0o644)
		return
	}
	o := runPlan(rf.Plan)
	v := o.has(rf.Violation.Prop, rf.Violation.Code)
	if *hist {
		printHistory(o)
	}
	if v == nil {
		if !*quiet {
			fmt.Println("not reproduced")
		}
		os.Exit(0)
	}
	if rf.EventHash != "" && rf.EventHash != fmt.Sprintf("%016x", o.Hash) {
		if !*quiet {
			fmt.Println("reproduced, but with a different history")
		}
	}
	if !*quiet {
		fmt.Printf("%s %s: %s\n", v.Prop, v.Code, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	}
	os.Exit(1)
}

func shrinkPlan(rf *replayFile, limit time.Duration) {
	t0 := time.Now()
	n := 0
	best := rf.Plan
	bad := func(p *Plan) (*outcome, bool) {
		n++
		if n%30 == 0 {
			runtime.GC()
		}
		o := runPlan(p)
		return o, o.has(rf.Violation.Prop, rf.Violation.Code) != nil
	}
	over := func() bool { return time.Since(t0) > limit }
	// after removing something from the workload the recorded schedule no longer lines up; try, in
	// order, the recorded schedule, the default schedule, and some fresh seeded ones
	try := func(p *Plan) bool {
		if over() {
			return false
		}
		if _, ok := bad(p); ok {
			best = p
			return true
		}
		if !p.Sched.Replay {
			return false
		}
		q := p.clone()
		q.Sched.Trace = nil
		if _, ok := bad(q); ok {
			best = q
			return true
		}
		return false
	}
	// default schedule first
	if best.Sched.Replay && len(best.Sched.Trace) > 0 {
		q := best.clone()
		q.Sched.Trace = nil
		if _, ok := bad(q); ok {
			best = q
		}
	}
	for pass := 0; pass < 3 && !over(); pass++ {
		changed := false
		// drop whole actors
		names := map[string]bool{}
		for _, o := range best.Ops {
			names[o.A] = true
		}
		var nl []string
		for k := range names {
			nl = append(nl, k)
		}
		sort.Strings(nl)
		for _, a := range nl {
			q := best.clone()
			q.Ops = nil
			for _, o := range best.Ops {
				if o.A != a {
					q.Ops = append(q.Ops, o)
				}
			}
			if len(q.Ops) > 0 && try(q) {
				changed = true
			}
		}
		// drop faults, operations
		for i := len(best.Faults) - 1; i >= 0; i-- {
			q := best.clone()
			q.Faults = append(q.Faults[:i], q.Faults[i+1:]...)
			if try(q) {
				changed = true
			}
		}
		for i := len(best.Ops) - 1; i >= 0; i-- {
			if i >= len(best.Ops) {
				continue
			}
			q := best.clone()
			q.Ops = append(q.Ops[:i], q.Ops[i+1:]...)
			if try(q) {
				changed = true
			}
		}
		// smaller arguments
		for i := range best.Ops {
			for j := range best.Ops[i].N {
				for _, nv := range []int{0, 1, best.Ops[i].N[j] / 2} {
					if i < len(best.Ops) && j < len(best.Ops[i].N) && nv < best.Ops[i].N[j] {
						q := best.clone()
						q.Ops[i].N[j] = nv
						if try(q) {
							changed = true
							break
						}
					}
				}
			}
			if i < len(best.Ops) && best.Ops[i].S != "" && strings.Contains(best.Ops[i].S, ",") {
				for _, part := range strings.Split(best.Ops[i].S, ",") {
					q := best.clone()
					q.Ops[i].S = part
					if try(q) {
						changed = true
						break
					}
				}
			}
		}
		// plainer network
		for i := range best.Clients {
			q := best.clone()
			q.Clients[i].Prof.Frag, q.Clients[i].Prof.Seg, q.Clients[i].Prof.JitUs, q.Clients[i].Frag = 0, 0, 0, 0
			if q.Clients[i] != best.Clients[i] && try(q) {
				changed = true
			}
		}
		// schedule: remove chunks of decisions
		if best.Sched.Replay {
			for sz := len(best.Sched.Trace); sz >= 1 && !over(); sz /= 2 {
				for i := 0; i < len(best.Sched.Trace) && !over(); {
					q := best.clone()
					j := i + sz
					if j > len(q.Sched.Trace) {
						j = len(q.Sched.Trace)
					}
					q.Sched.Trace = append(append([]traceDec{}, q.Sched.Trace[:i]...), q.Sched.Trace[j:]...)
					if _, ok := bad(q); ok {
						best = q
						changed = true
					} else {
						i = j
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	rf.Plan = best
	o := runPlan(best)
	finishReplay(rf, o)
	rf.Note = strings.TrimSpace(rf.Note + fmt.Sprintf(" minimised with %d runs in %.1fs", n, time.Since(t0).Seconds()))
}

func finishReplay(rf *replayFile, o *outcome) {
	if v := o.has(rf.Violation.Prop, rf.Violation.Code); v != nil {
		rf.Violation = *v
	}
	rf.EventHash = fmt.Sprintf("%016x", o.Hash)
	rf.History = nil
	for i, e := range o.World.log_ {
		if i > 400 {
			break
		}
		rf.History = append(rf.History, fmt.Sprintf("%d %.6fs %s c%d %.60q %d", i, float64(e.T-o.World.log_[0].T)/1e9, e.K, e.C, e.S, e.I))
	}
	rf.Schedule = nil
	for _, d := range rf.Plan.Sched.Trace {
		kind := []string{"", "preempt", "stall", "pick", "select"}[d[0]]
		rf.Schedule = append(rf.Schedule, fmt.Sprintf("%s #%d arg %d at %s", kind, d[1], d[2], siteNames[uint32(d[3])]))
	}
}

// ---- self-test ----

// cmdSelftest prints index and hash of many runs; the caller compares processes.
func cmdSelftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	props := fs.String("props", "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C14,C15,C16", "")
	n := fs.Int("n", 20, "")
	seed := fs.Uint64("seed", 1, "")
	rev := fs.Bool("reverse", false, "")
	fs.Parse(args)
	setup()
	var lines []string
	for _, p := range strings.Split(*props, ",") {
		for k := 0; k < *n; k++ {
			i := k
			if *rev {
				i = *n - 1 - k
			}
			o := runPlan(generate(p, i, *seed))
			lines = append(lines, fmt.Sprintf("%s %d %016x %d", p, i, o.Hash, len(o.World.log_)))
			if k%40 == 39 {
				runtime.GC()
			}
		}
	}
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Println(l)
	}
}
