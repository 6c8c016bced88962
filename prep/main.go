// Command prep generates, in a build directory, everything the simulator build needs:
//   - patched copies of a few Go runtime/net files plus an overlay.json naming them
//   - instrumented copies of the repository under test and of gorilla/websocket
//   - a go.mod/go.sum for the harness pointing at those copies
//
// Every patch is an asserted string replacement: a missing anchor is a build error.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func writeFile(p string, b []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return
	}
	must(os.WriteFile(p, b, 0o644))
}

type edit struct{ old, new string }

func patch(src string, file string, edits []edit) string {
	for _, e := range edits {
		if n := strings.Count(src, e.old); n != 1 {
			die("%s: anchor occurs %d times: %q", file, n, e.old)
		}
		src = strings.Replace(src, e.old, e.new, 1)
	}
	return src
}

func runtimePatches() map[string][]edit {
	return map[string][]edit{
		"runtime/runtime2.go": {
			{"	fipsOnlyBypass  bool\n", "	fipsOnlyBypass  bool\n	simid, simprio uint32\n"},
			{"var isIdleInSynctest = [len(waitReasonStrings)]bool{\n", `var isIdleInSynctest = [len(waitReasonStrings)]bool{
	waitReasonChanReceive:         true,
	waitReasonChanSend:            true,
	waitReasonSelect:              true,
	waitReasonSemacquire:          true,
	waitReasonSyncMutexLock:       true,
	waitReasonSyncRWMutexRLock:    true,
	waitReasonSyncRWMutexLock:     true,
	waitReasonSyncWaitGroupWait:   true,
`},
		},
		"runtime/proc.go": {
			{"const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
			{"	if randomizeScheduler && next && randn(2) == 0 {\n		next = false\n	}\n", "	if simst.on {\n		next = false\n	}\n"},
			{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simst.on {\n		return simRunqget(pp), false\n	}\n"},
			{"	if pp.schedtick%61 == 0 && !sched.runq.empty() {\n", "	if pp.schedtick%61 == 0 && !simst.on && !sched.runq.empty() {\n"},
			{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if simst.on {\n		return false\n	}\n"},
			{"	if preempted && sched.gcwaiting.Load() {\n", "	if simst.on && gp.bubble != nil {\n		runqput(pp, gp, false)\n	} else if preempted && sched.gcwaiting.Load() {\n"},
			{"		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		if simst.on {\n			simNewG(newg)\n		}\n"},
		},
		"runtime/select.go": {
			{"		j := cheaprandn(uint32(norder + 1))\n", "		j := simSelectRand(uint32(norder + 1))\n"},
		},
		"runtime/time.go": {
			{"			t.rand = cheaprand()\n", "			t.rand = simTimerRand()\n"},
		},
		"runtime/sema.go": {
			{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if b := getg().bubble; b != nil {\n		return b.now\n	}\n"},
		},
		"runtime/rand.go": {
			{"	mp := getg().m\n	c := &mp.chacha8\n	for {\n		// Note: c.Next is marked nosplit,\n", "	if simst.on {\n		if b := getg().bubble; b != nil && b == simst.bubble {\n			return simRand()\n		}\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {\n		// Note: c.Next is marked nosplit,\n"},
			{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i)\n	}\n	globalRand.state.Init(*seed)\n"},
		},
		"runtime/panic.go": {
			{"	// If we're tracing, flush the current generation to make the trace more\n	// readable.\n", "	if simst.on && gp.bubble != nil {\n		simCrash(&p)\n	}\n\n	// If we're tracing, flush the current generation to make the trace more\n	// readable.\n"},
			{"	p := getg()._panic\n	// Everything fatal does should be recursively nosplit so it\n", "	if simst.on && getg().bubble != nil {\n		simFatal(s)\n	}\n	p := getg()._panic\n	// Everything fatal does should be recursively nosplit so it\n"},
		},
		"runtime/stack.go": {
			{"	if newsize > maxstacksize || newsize > maxstackceiling {\n", "	if newsize > simStackFlag && simst.on {\n		simBigStack(gp, newsize)\n	}\n	if newsize > maxstacksize || newsize > maxstackceiling {\n"},
		},
		// memory accesses made by the harness itself are not the code under test's
		"runtime/race_amd64.s": {
			{"	MOVQ	(SP), RARG2\n	// void __tsan_read(ThreadState *thr, void *addr, void *pc);\n", "	MOVQ	(SP), RARG2\n	CMPQ	RARG2, runtime·simMainLo(SB)\n	JB	simok\n	CMPQ	RARG2, runtime·simMainHi(SB)\n	JAE	simok\n	RET\nsimok:\n	// void __tsan_read(ThreadState *thr, void *addr, void *pc);\n"},
			{"	MOVQ	(SP), RARG2\n	// void __tsan_write(ThreadState *thr, void *addr, void *pc);\n", "	MOVQ	(SP), RARG2\n	CMPQ	RARG2, runtime·simMainLo(SB)\n	JB	simok\n	CMPQ	RARG2, runtime·simMainHi(SB)\n	JAE	simok\n	RET\nsimok:\n	// void __tsan_write(ThreadState *thr, void *addr, void *pc);\n"},
			{"	MOVQ	(SP), RARG3\n	// void __tsan_read_range(ThreadState *thr, void *addr, uintptr size, void *pc);\n", "	MOVQ	(SP), RARG3\n	CMPQ	RARG3, runtime·simMainLo(SB)\n	JB	simok\n	CMPQ	RARG3, runtime·simMainHi(SB)\n	JAE	simok\n	RET\nsimok:\n	// void __tsan_read_range(ThreadState *thr, void *addr, uintptr size, void *pc);\n"},
			{"	MOVQ	(SP), RARG3\n	// void __tsan_write_range(ThreadState *thr, void *addr, uintptr size, void *pc);\n", "	MOVQ	(SP), RARG3\n	CMPQ	RARG3, runtime·simMainLo(SB)\n	JB	simok\n	CMPQ	RARG3, runtime·simMainHi(SB)\n	JAE	simok\n	RET\nsimok:\n	// void __tsan_write_range(ThreadState *thr, void *addr, uintptr size, void *pc);\n"},
			{"	// void __tsan_read_pc(ThreadState *thr, void *addr, void *callpc, void *pc);\n", "	CMPQ	RARG2, runtime·simMainLo(SB)\n	JB	simok\n	CMPQ	RARG2, runtime·simMainHi(SB)\n	JAE	simok\n	RET\nsimok:\n	// void __tsan_read_pc(ThreadState *thr, void *addr, void *callpc, void *pc);\n"},
			{"	// void __tsan_write_pc(ThreadState *thr, void *addr, void *callpc, void *pc);\n", "	CMPQ	RARG2, runtime·simMainLo(SB)\n	JB	simok\n	CMPQ	RARG2, runtime·simMainHi(SB)\n	JAE	simok\n	RET\nsimok:\n	// void __tsan_write_pc(ThreadState *thr, void *addr, void *callpc, void *pc);\n"},
		},
		"runtime/race.go": {
			{"func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n", "func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n	if callpc >= simMainLo && callpc < simMainHi {\n		return\n	}\n"},
			{"func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n", "func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n	if callpc >= simMainLo && callpc < simMainHi {\n		return\n	}\n"},
		},
		"runtime/malloc.go": {
			{"func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n	if size > simHugeFlag && simst.on {\n		simHuge(size)\n	}\n"},
		},
		// with the race detector, pools order unrelated goroutines: pool nothing
		"sync/pool.go": {
			{"		if runtime_randn(4) == 0 {\n			// Randomly drop x on floor.\n			return\n		}\n", "		if true {\n			return\n		}\n"},
			{"	if race.Enabled {\n		race.Disable()\n	}\n	l, pid := p.pin()\n", "	if race.Enabled {\n		if p.New == nil {\n			return nil\n		}\n		return p.New()\n	}\n	l, pid := p.pin()\n"},
		},
		"net/dial.go": {
			{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDialHook != nil {\n		return SimDialHook(ctx, network, address)\n	}\n"},
			{"// A Dialer contains options for connecting to an address.\n", "// SimDialHook, when set, replaces every dial (simulation only).\nvar SimDialHook func(ctx context.Context, network, address string) (Conn, error)\n\n// A Dialer contains options for connecting to an address.\n"},
		},
	}
}

var nextSite = 1
var sites []string

func instrument(path, rel string, src []byte, perStmt bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("parse %s: %v", path, err)
	}
	type ins struct {
		off  int
		text string
	}
	var inserts []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// line directives would change Position; use the raw file offset
	tf := fset.File(f.Pos())
	off = func(p token.Pos) int { return tf.Offset(p) }
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			inserts = append(inserts, ins{off(s.Pos()), fmt.Sprintf("simrt__.SimYield(%d);", nextSite)})
			sites = append(sites, fmt.Sprintf("%d\t%s:%d", nextSite, rel, tf.Line(s.Pos())))
			nextSite++
			if !perStmt {
				break
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	// clauses are themselves in a BlockStmt list: drop insertions placed right before case/default
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		}
		return true
	})
	var out []ins
	for _, i := range inserts {
		if !clause[i.off] {
			out = append(out, i)
		}
	}
	if len(out) == 0 {
		return src
	}
	out = append(out, ins{off(f.Name.End()), `; import simrt__ "runtime"`})
	sort.SliceStable(out, func(a, b int) bool { return out[a].off < out[b].off })
	var buf bytes.Buffer
	last := 0
	for _, i := range out {
		buf.Write(src[last:i.off])
		buf.WriteString(i.text)
		last = i.off
	}
	buf.Write(src[last:])
	return buf.Bytes()
}

func copyModule(from, to, label string, keep map[string]bool, perStmt bool) {
	wrote := map[string]bool{}
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "examples" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		dst := filepath.Join(to, rel)
		switch {
		case strings.HasSuffix(p, "_test.go"):
			return nil
		case strings.HasSuffix(p, ".go"):
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if label == "gorilla" && strings.HasPrefix(rel, "mask") {
				writeFile(dst, src) // per-byte loops
				break
			}
			writeFile(dst, instrument(p, label+"/"+rel, src, perStmt))
		case rel == "go.mod" || rel == "go.sum":
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			writeFile(dst, src)
		default:
			// embedded or cgo files: copy as they are when small
			if fi.Size() > 1<<20 {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			writeFile(dst, src)
		}
		wrote[dst] = true
		return nil
	})
	must(err)
	// remove stale files of an earlier tree
	filepath.Walk(to, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !wrote[p] {
			os.Remove(p)
		}
		return nil
	})
}

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	sim := flag.String("sim", "", "harness source directory")
	out := flag.String("out", "", "build directory")
	flag.Parse()
	if *sim == "" || *out == "" {
		die("usage")
	}
	envOut, err := exec.Command("go", "env", "GOROOT", "GOMODCACHE").Output()
	must(err)
	parts := strings.Split(strings.TrimSpace(string(envOut)), "\n")
	goroot, modcache := parts[0], parts[1]

	// runtime overlay
	overlay := map[string]string{}
	for rel, edits := range runtimePatches() {
		p := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(p)
		must(err)
		dst := filepath.Join(*out, "overlay", rel)
		writeFile(dst, []byte(patch(string(b), rel, edits)))
		overlay[p] = dst
	}
	zs, err := os.ReadFile(filepath.Join(*sim, "zsim.go.txt"))
	must(err)
	dst := filepath.Join(*out, "overlay", "runtime/zsim.go")
	writeFile(dst, zs)
	overlay[filepath.Join(goroot, "src/runtime/zsim.go")] = dst
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	writeFile(filepath.Join(*out, "overlay.json"), ob)

	// code under test
	copyModule(*repo, filepath.Join(*out, "src/repo"), "repo", nil, true)
	gor := filepath.Join(modcache, "github.com/gorilla/websocket@v1.4.2")
	copyModule(gor, filepath.Join(*out, "src/gorilla"), "gorilla", nil, false)
	writeFile(filepath.Join(*out, "sites.tsv"), []byte(strings.Join(sites, "\n")+"\n"))

	// harness
	wrote := map[string]bool{}
	ents, err := os.ReadDir(*sim)
	must(err)
	hdir := filepath.Join(*out, "src/harness")
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(*sim, e.Name()))
		must(err)
		writeFile(filepath.Join(hdir, e.Name()), b)
		wrote[e.Name()] = true
	}
	if old, err := os.ReadDir(hdir); err == nil {
		for _, e := range old {
			if strings.HasSuffix(e.Name(), ".go") && !wrote[e.Name()] {
				os.Remove(filepath.Join(hdir, e.Name()))
			}
		}
	}
	writeFile(filepath.Join(hdir, "go.mod"), []byte(`module verifsim

go 1.25

require (
	github.com/zyxar/socketio v0.0.0
	github.com/gorilla/websocket v1.4.2
	github.com/philhofer/fwd v1.0.0
	github.com/tinylib/msgp v1.1.1
)

replace github.com/zyxar/socketio => ../repo

replace github.com/gorilla/websocket => ../gorilla
`))
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	writeFile(filepath.Join(hdir, "go.sum"), sum)
}
