package zkmc

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// procRuns: the prover for some values and the verifier for all cases, running freely.
func procRuns(f func(name string, s schedSys) bool) {
	for _, v := range c16Vals {
		if !f(fmt.Sprintf("range prover, value %d", v), proveSys(1, 7, v)) {
			return
		}
	}
	for _, n := range []int{1, 2, 3, 5, 7, 39, 40, 41, 63, 64} {
		for _, rc := range rangeCases(n) {
			if !f(rc.name, rc.sys()) {
				return
			}
		}
	}
}

var procNumbers = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 24, 32, 39, 40, 41, 48, 63, 64, 80, 96, 128}

// c16Procs: the number of processors the runtime reports must not matter.
func c16Procs(c *Ctx) {
	freeRunning = true
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	defer func() { freeRunning = false }()
	for _, n := range procNumbers {
		n := n
		procRuns(func(name string, s schedSys) bool {
			if !c.Case("%s, GOMAXPROCS %d", name, n) {
				return !c.Stop()
			}
			runtime.GOMAXPROCS(n)
			for i := 0; i < 2 && !c.Failed(); i++ {
				fs, check := s.mk()
				for _, f := range fs {
					c.Guard("range proof", f)
				}
				if msg := check(); msg != "" && !c.Failed() {
					c.Fail("%s with GOMAXPROCS %d: %s", name, n, msg)
				}
				c.Add(1, 1, 1)
			}
			runtime.GOMAXPROCS(1)
			c.Outcome("free-running call with another number of processors")
			return !c.Stop()
		})
		if c.stopped {
			return
		}
	}
}

// procMain is the child of c16CPUs.
func procMain() int {
	freeRunning = true
	rc := 0
	procRuns(func(name string, s schedSys) bool {
		fs, check := s.mk()
		for _, f := range fs {
			f()
		}
		if msg := check(); msg != "" {
			fmt.Printf("PROCS wrong: %s with %d processors: %s\n", name, runtime.NumCPU(), msg)
			rc = 1
			return false
		}
		return true
	})
	if rc == 0 {
		fmt.Println("PROCS ok", runtime.NumCPU())
	}
	return rc
}

// c16CPUs: the same in fresh processes that may use 1, 2, 3, ... of the machine's processors.
func c16CPUs(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		c.Truncate("no path of the own program")
		return
	}
	var all [16]uint64
	sz := uintptr(len(all) * 8)
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, sz, uintptr(unsafe.Pointer(&all))); e != 0 {
		c.Note("sched_getaffinity: %v", e)
		return
	}
	var cpus []int
	for i := 0; i < len(all)*64; i++ {
		if all[i/64]>>uint(i%64)&1 == 1 {
			cpus = append(cpus, i)
		}
	}
	for n := 1; n <= len(cpus) && n <= 16; n++ {
		if !c.Case("range proofs in a process on %d processors", n) {
			continue
		}
		func() {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			var m [16]uint64
			for _, i := range cpus[:n] {
				m[i/64] |= 1 << uint(i%64)
			}
			if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, sz, uintptr(unsafe.Pointer(&m))); e != 0 {
				c.Note("sched_setaffinity: %v", e)
				return
			}
			defer syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, sz, uintptr(unsafe.Pointer(&all)))
			cmd := exec.Command(self)
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "ZK_SHARD=") && !strings.HasPrefix(e, "GOMAXPROCS=") {
					cmd.Env = append(cmd.Env, e)
				}
			}
			cmd.Env = append(cmd.Env, "ZK_FIRST=procs")
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: false, Pdeathsig: syscall.SIGKILL}
			out, err := cmd.CombinedOutput()
			if err != nil && (strings.Contains(string(out), "PROCS wrong") || strings.Contains(string(out), "panic:") || strings.Contains(string(out), "fatal error:")) {
				c.Fail("on %d processors: %v\n%s", n, err, clip(string(out), 1500))
			} else if err != nil {
				c.Truncate("child: " + err.Error())
			}
		}()
		c.Add(1, 1, 1)
		c.Outcome("process on another number of processors")
		if c.Stop() {
			return
		}
	}
}
