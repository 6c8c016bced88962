//go:build race

package main

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

const raceBuild = true

// hbOff/hbOn bracket synchronisation that belongs to the simulated outside world, so that it
// creates no happens-before edges between goroutines of the code under test.
func hbOff()         { runtime.RaceDisable() }
func hbOn()          { runtime.RaceEnable() }
func hbPub(p *int64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func hbGet(p *int64) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceCount() int { return runtime.RaceErrors() }

var raceOff int64

// raceEnv restarts the process with the race detector writing to a file that it can read.
func raceEnv() {
	if os.Getenv("VERIF_RACE_DIR") != "" {
		return
	}
	d, err := os.MkdirTemp("", "verif-race")
	if err != nil {
		fail("%v", err)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	if exe, err := os.Executable(); err == nil {
		cmd.Path = exe
	}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "VERIF_RACE_DIR="+d, "GORACE=log_path="+d+"/r halt_on_error=0 atexit_sleep_ms=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0")
	err = cmd.Run()
	os.RemoveAll(d)
	if ee, ok := err.(*exec.ExitError); ok {
		os.Exit(ee.ExitCode())
	} else if err != nil {
		fail("%v", err)
	}
	os.Exit(0)
}

func raceFile() string { return fmt.Sprintf("%s/r.%d", os.Getenv("VERIF_RACE_DIR"), os.Getpid()) }

func raceMark() {
	if fi, err := os.Stat(raceFile()); err == nil {
		raceOff = fi.Size()
	}
}

// raceReports returns the new reports in which both accesses are made by, or on behalf of, the code under test.
func raceReports() (out []string) {
	b, err := os.ReadFile(raceFile())
	if err != nil || int64(len(b)) <= raceOff {
		return nil
	}
	s := string(b[raceOff:])
	raceOff = int64(len(b))
	for _, rep := range strings.Split(s, "==================\n") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		secs := strings.Split(rep, "\n\n")
		acc := 0
		var top []string
		for _, sec := range secs {
			h := strings.TrimSpace(sec)
			h = strings.TrimPrefix(h, "WARNING: DATA RACE\n")
			low := strings.ToLower(h)
			if !strings.HasPrefix(low, "read at") && !strings.HasPrefix(low, "write at") && !strings.HasPrefix(low, "previous ") && !strings.HasPrefix(low, "atomic") {
				continue
			}
			f := firstOwn(h)
			if strings.Contains(f, "zyxar/socketio") || strings.Contains(f, "gorilla/websocket") {
				acc++
				top = append(top, h)
			}
		}
		if acc >= 2 {
			out = append(out, "data race: "+strings.Join(top, " // "))
		}
	}
	return
}

// firstOwn is the innermost frame outside the runtime and standard library.
func firstOwn(sec string) string {
	for _, l := range strings.Split(sec, "\n")[1:] {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "main.(*simConn)") {
			continue // system calls
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verifsim") || strings.Contains(l, "zyxar/socketio") || strings.Contains(l, "gorilla/websocket") {
			if strings.HasSuffix(l, ")") {
				return l
			}
		}
	}
	return ""
}

// init tells the runtime where the harness's own functions are: the linker lays a package out
// contiguously, with a few generic instances and wrappers between.
func init() {
	base := reflect.ValueOf(firstOwn).Pointer()
	isMain := func(pc uintptr) bool {
		f := runtime.FuncForPC(pc)
		return f != nil && strings.HasPrefix(f.Name(), "main.")
	}
	lo, hi := base, base
	for pc := base; lo-pc < 64<<10; pc -= 16 {
		if isMain(pc) {
			lo = pc
		}
	}
	for pc := base; pc-hi < 64<<10; pc += 16 {
		if isMain(pc) {
			hi = pc + 16
		}
	}
	if f := runtime.FuncForPC(lo); f != nil {
		lo = f.Entry()
	}
	runtime.SimMainText(lo, hi)
}
