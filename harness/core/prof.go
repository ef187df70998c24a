package core

import (
	"os"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

// memProfile writes a heap profile when VERIF_MEMPROF names a file.
func memProfile() {
	if p := os.Getenv("VERIF_MEMPROF"); p != "" {
		f, _ := os.Create(p)
		runtime.GC()
		_ = pprof.Lookup("heap").WriteTo(f, 0)
		f.Close()
	}
}

// cpuProfile starts a CPU profile when VERIF_CPUPROF names a file; the result ends it.
func cpuProfile() func() {
	p := os.Getenv("VERIF_CPUPROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		return func() {}
	}
	_ = pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}

// memWatch ends the process with a stack dump when it outgrows limit bytes.
func memWatch(c *Check, limit int) {
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			bz, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				return
			}
			f := strings.Fields(string(bz))
			n, _ := strconv.Atoi(f[1])
			if n*4096 > limit {
				if c.Violations() > 0 {
					os.Exit(c.finish())
				}
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.Stderr.WriteString("HARNESS-FAULT: memory limit\n")
				os.Stderr.Write(buf)
				os.Exit(2)
			}
		}
	}()
}
