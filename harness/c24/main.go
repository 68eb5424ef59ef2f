// C24: work that asks for memory waits while more than the limit is in use, and
// goes on once memory has been freed.
package main

import (
	"runtime"
	"sync/atomic"
	"time"

	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/memblocker"
	"pgregory.net/rapid"
)

const (
	unit   = 16 << 20 // the size of a ballast
	settle = 12 * time.Millisecond
	long   = 60 * time.Second
)

type op struct {
	K string `json:"k"` // alloc wait free report ask
	N int    `json:"n,omitempty"`
}

type gate struct {
	Room int  `json:"room"` // ballasts that fit below the limit
	Ops  []op `json:"ops"`
}

var ballast [][]byte // what is in use

func take(n int) {
	for range n {
		b := make([]byte, unit)
		for i := 0; i < len(b); i += 4096 {
			b[i] = 1
		}
		ballast = append(ballast, b)
	}
}

func heap() uint64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func run(c *vt.Ctx, g gate) {
	ballast = nil
	base := heap()
	limit := base + uint64(g.Room)*unit + unit/2
	mb := memblocker.NewMemBlocker(limit)
	var gone atomic.Int64 // waiters that have been let through
	waiting := 0          // waiters that are held back, by the rules
	started := 0
	// the rules: how many ballasts there are decides
	over := func() bool { return len(ballast) > g.Room }
	sure := func() bool { // the heap is where the ballasts put it
		h := heap()
		at := base + uint64(len(ballast))*unit
		return h < at+unit/3 && h+unit/3 > at
	}
	reach := func(n int64, what string) {
		end := time.Now().Add(long)
		for gone.Load() < n {
			if time.Now().After(end) {
				c.Failf("%s: %d of %d that wait for memory have gone on after %v, at least %d should have (%d ballasts in use, room for %d)",
					what, gone.Load(), started, long, n, len(ballast), g.Room)
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	stay := func(n int64, what string) {
		time.Sleep(settle)
		if k := gone.Load(); k > n {
			c.Failf("%s: %d of %d that wait for memory have gone on, at most %d should have (%d ballasts in use, room for %d)",
				what, k, started, n, len(ballast), g.Room)
		}
	}
	held, freed := false, false
	// a report lets at least one go on if there is room; otherwise none
	report := func(free int, what string) {
		before := gone.Load()
		mb.StartFreeingMem()
		ballast = ballast[:len(ballast)-free]
		clear(ballast[len(ballast):cap(ballast)])
		runtime.GC()
		mb.MemoryWasFreed()
		if !sure() {
			return
		}
		if over() {
			stay(before, what)
		} else if waiting > 0 {
			reach(before+1, what)
			freed = freed || free > 0
		}
	}
	for _, o := range g.Ops {
		switch o.K {
		case "alloc":
			take(o.N)
			continue
		case "wait":
			if !sure() {
				continue
			}
			for range o.N {
				started++
				go func() { mb.WaitForSpareMemory(); gone.Add(1) }()
			}
			if over() {
				waiting += o.N
				held = true
				stay(int64(started-waiting), "on waiting")
			} else {
				// those who waited before may still wait for a report
				reach(int64(started-waiting), "on waiting")
			}
		case "free":
			report(min(o.N, len(ballast)), "on freeing")
		case "report":
			report(0, "on a report")
		case "ask":
			if sure() {
				if got := mb.IsThereFreeMemory(); got == over() {
					c.Failf("it is said that there is free memory: %v; %d ballasts are in use, and room for %d", got, len(ballast), g.Room)
				}
				if h := mb.LastHeapSize(); h+unit/2 < base+uint64(len(ballast))*unit || h > base+uint64(len(ballast))*unit+unit/2 {
					c.Failf("the last heap size is %d, with %d ballasts over %d", h, len(ballast), base)
				}
			}
		}
		waiting = started - int(gone.Load())
	}
	// at the end all goes, with as many reports as there are waiters
	for i := 0; started > int(gone.Load()); i++ {
		if i > 3*started+20 {
			c.Failf("at the end: %d reports of freed memory have let only %d of %d go on", i, gone.Load(), started)
		}
		waiting = started - int(gone.Load())
		report(len(ballast), "at the end")
	}
	if held && freed {
		c.NonTrivial()
	}
	c.ClassIf(started > 1, "several waiters")
	ballast = nil
}

func main() {
	vt.Main("C24", vt.New("gate", "someone is held back and goes on after memory was freed", 400, 30000, func(t *rapid.T) gate {
		g := gate{Room: rapid.IntRange(0, 3).Draw(t, "room")}
		for n := rapid.IntRange(2, 14).Draw(t, "n"); n > 0; n-- {
			o := op{K: []string{"alloc", "wait", "free", "report", "ask"}[vt.Pick(t, "k", 4, 4, 3, 2, 2)]}
			switch o.K {
			case "alloc", "free":
				o.N = rapid.IntRange(1, 3).Draw(t, "size")
			case "wait":
				o.N = rapid.IntRange(1, 4).Draw(t, "waiters")
			}
			g.Ops = append(g.Ops, o)
		}
		return g
	}, run).Hang(240))
}
