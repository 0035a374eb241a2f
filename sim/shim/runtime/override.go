// Package runtime shows the simulated process.
package runtime

import (
	orig "runtime"

	"verifsim.local/hook"
)

// NumGoroutine counts the tasks, and now and then some of the library's.
func NumGoroutine() int {
	n := hook.Live()
	if x := hook.Rand(); x>>60 < 4 {
		n += int(x % 6)
	}
	return n
}

// NumCPU belongs to the machine the process happens to run on.
func NumCPU() int { return 1 + hook.Pid()%16 }

// GOMAXPROCS cannot be changed.
func GOMAXPROCS(int) int { return NumCPU() }

// Gosched lets others run.
func Gosched() {
	if hook.Active() {
		hook.Y(32761)
		return
	}
	orig.Gosched()
}

// ReadMemStats gives figures of a running process.
func ReadMemStats(m *MemStats) {
	*m = MemStats{}
	draw := func(max uint64) uint64 { return hook.Rand() % max }
	m.Alloc = 1<<20 + draw(1<<24)
	m.HeapAlloc = m.Alloc
	m.TotalAlloc = m.Alloc + draw(1<<26)
	m.Mallocs = draw(1 << 20)
	m.Frees = draw(m.Mallocs + 1)
	m.HeapObjects = m.Mallocs - m.Frees
	m.HeapSys = m.Alloc + draw(1<<26)
	m.HeapInuse = m.Alloc
	m.HeapIdle = m.HeapSys - m.HeapInuse
	m.Sys = m.HeapSys + draw(1<<22)
	m.NextGC = m.Alloc * 2
	m.NumGC = uint32(draw(1000))
	m.PauseTotalNs = draw(1 << 30)
}
