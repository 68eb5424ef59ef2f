// C08: the resequencer puts items back in order, loses none and never jams; the pool does every task once.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"pgregory.net/rapid"
)

type item struct {
	seq  int64
	body int
}

func (i *item) SequenceNumber() int64 { return i.seq }

// perm is a permutation of 0..N-1, disturbed only within a window.
type perm struct {
	N      int `json:"n"`
	Window int `json:"w"`
	Seed   int `json:"s"`
	Kind   int `json:"k"` // 0 shuffled within the window, 1 reversed in blocks, 2 first last, 3 in order
}

type rng uint64

func newRng(seed int) *rng { r := rng(uint64(seed)*0x9E3779B97F4A7C15 + 0xABCDEF1); return &r }
func (r *rng) n(k int) int {
	*r ^= *r << 13
	*r ^= *r >> 7
	*r ^= *r << 17
	return int(uint64(*r*0x2545F4914F6CDD1D) >> 33 % uint64(k))
}

func (p perm) order() []int {
	r := make([]int, p.N)
	for i := range r {
		r[i] = i
	}
	w := max(1, p.Window)
	g := newRng(p.Seed)
	switch p.Kind {
	case 0:
		for a := 0; a < p.N; a += w {
			b := min(a+w, p.N)
			for i := b - 1; i > a; i-- {
				j := a + g.n(i-a+1)
				r[i], r[j] = r[j], r[i]
			}
		}
	case 1:
		for a := 0; a < p.N; a += w {
			b := min(a+w, p.N)
			for i, j := a, b-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		}
	case 2:
		for a := 0; a < p.N; a += w {
			b := min(a+w, p.N)
			first := r[a]
			copy(r[a:], r[a+1:b])
			r[b-1] = first
		}
	}
	return r
}

func drawPerm(t *rapid.T, most int) perm {
	return perm{N: vt.Size(t, "n", 12, most), Window: vt.Size(t, "window", 8, most), Seed: rapid.IntRange(0, 1<<16).Draw(t, "seed"), Kind: vt.Pick(t, "kind", 5, 2, 2, 1)}
}

func drawFirst(t *rapid.T) int64 {
	return []int64{0, 0, 1, 7, -3, 1 << 40, -1 << 33}[rapid.IntRange(0, 6).Draw(t, "first")]
}

// arrival: one sender, the state of the sequencer is known after every send.
type arrival struct {
	P     perm  `json:"p"`
	First int64 `json:"first"`
	Limit int   `json:"limit"`
	Buf   int   `json:"buf"` // 0: unbuffered output, a reader takes items; 1: buffered
	Probe int   `json:"probe"`
}

// settle gives other goroutines the time to do what they should not do.
func settle() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	time.Sleep(200 * time.Microsecond)
}

func runArrival(c *vt.Ctx, a arrival) {
	order := a.P.order()
	size := 0
	if a.Buf == 1 {
		size = a.P.N + 1
	}
	out := make(chan *item, size)
	got := make(chan *item, a.P.N+8)
	sc := concurrency.NewSequencerContainer[*item](a.First, a.Limit, out)
	go func() {
		for i := range out {
			got <- i
		}
		close(got)
	}()
	items := make([]*item, a.P.N)
	for i := range items {
		items[i] = &item{a.First + int64(i), i * 7}
	}
	next := 0 // how many have come out
	arrived := map[int]bool{}
	parked := 0
	bloatSeen := false
	var held []chan bool
	for k, i := range order {
		sc.InChan <- items[i]
		arrived[i] = true
		// every item whose predecessors are all there comes out, without waiting for anything more
		before := next
		for arrived[next] {
			g, ok := <-got
			if !ok {
				c.Failf("the output was closed after %d of %d items", k+1, a.P.N)
			}
			if g != items[next] {
				c.Failf("item %d came out in place of item %d", g.seq, items[next].seq)
			}
			next++
		}
		parked = k + 1 - next
		if next == before {
			// parked; nothing may come out. Once in a while wait for what should not happen.
			if a.Probe > 0 && k%a.Probe == 0 {
				settle()
			}
			select {
			case g, ok := <-got:
				if !ok {
					c.Failf("the output was closed with items still parked")
				}
				c.Failf("item %d came out although item %d has not arrived", g.seq, items[next].seq)
			default:
			}
		}
		if parked < a.Limit {
			// below the limit, or back below it: the producer must not be held up
			sc.WaitForNotBloated()
		} else if parked > a.Limit && next == before && a.Probe > 0 && k%a.Probe == 0 {
			// the items before this one (at least as many as the limit) are known to have been taken in: the signal is set
			bloatSeen = true
			returned := make(chan bool)
			go func() { sc.WaitForNotBloated(); close(returned) }()
			settle()
			select {
			case <-returned:
				c.Failf("with %d items parked and a limit of %d the producer was not held up", parked, a.Limit)
			default:
			}
			held = append(held, returned)
		}
	}
	close(sc.InChan)
	if g, ok := <-got; ok {
		c.Failf("item %d came out twice", g.seq)
	}
	if next != a.P.N {
		c.Failf("only %d of %d items came out", next, a.P.N)
	}
	sc.WaitForNotBloated()
	for _, h := range held { // they are released when the backlog has drained
		<-h
	}
	if a.P.Kind != 3 && a.P.N > 2 && a.P.Window > 1 {
		c.NonTrivial()
	}
	c.ClassIf(bloatSeen, "the producer was held up")
	c.ClassIf(a.First != 0, "sequence does not start at zero")
}

// pipe is a whole pipeline with free-running goroutines.
type pipe struct {
	N       int   `json:"n"`
	First   int64 `json:"first"`
	Limit   int   `json:"limit"`
	Workers int   `json:"workers"`
	Buf     int   `json:"buf"`
	Seed    int   `json:"seed"`
	Slow    int   `json:"slow"` // one item in Slow holds its worker up
	Hold    int   `json:"hold"` // an item is held up until this many later ones have been through (0: never)
	Procs   int   `json:"procs"`
	Nobbles int   `json:"nobbles"` // how many producers wait on the signal at once
}

func runPipe(c *vt.Ctx, p pipe) {
	old := runtime.GOMAXPROCS(p.Procs)
	defer runtime.GOMAXPROCS(old)
	out := make(chan *item, p.Buf)
	sc := concurrency.NewSequencerContainer[*item](p.First, p.Limit, out)
	var sent, received, worst atomic.Int64
	work := make(chan *item)
	go func() {
		var wg sync.WaitGroup
		feed := make(chan *item)
		// bystanders wait on the same signal
		for b := 1; b < p.Nobbles; b++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range 5 {
					sc.WaitForNotBloated()
					runtime.Gosched()
				}
			}()
		}
		go func() {
			for i := 0; i < p.N; i++ {
				feed <- &item{p.First + int64(i), i * 3}
			}
			close(feed)
		}()
		for it := range feed {
			sc.WaitForNotBloated()
			o := sent.Add(1) - received.Load()
			if o > worst.Load() {
				worst.Store(o)
			}
			work <- it
		}
		wg.Wait()
		close(work)
	}()
	var wg sync.WaitGroup
	var passed atomic.Int64
	for w := 0; w < p.Workers; w++ {
		wg.Add(1)
		g := newRng(p.Seed + w*77)
		go func() {
			defer wg.Done()
			for it := range work {
				if p.Slow > 0 && g.n(p.Slow) == 0 {
					if g.n(6) == 0 {
						time.Sleep(time.Duration(g.n(150)) * time.Microsecond)
					} else {
						for k := g.n(40); k > 0; k-- {
							runtime.Gosched()
						}
					}
				}
				if p.Hold > 0 && p.Workers > 1 && it.body/3%(p.Hold*2+3) == 1 {
					// hold this one back while others overtake it, as far as the backlog signal lets them
					start := passed.Load()
					for tries := 0; passed.Load() < start+int64(p.Hold) && tries < 60; tries++ {
						time.Sleep(20 * time.Microsecond)
					}
				}
				sc.InChan <- it
				passed.Add(1)
			}
		}()
	}
	go func() { wg.Wait(); close(sc.InChan) }()
	g := newRng(p.Seed * 3)
	next := 0
	for it := range out {
		received.Add(1)
		if it.seq != p.First+int64(next) || it.body != next*3 {
			c.Failf("item %d came out where item %d was due", it.seq, p.First+int64(next))
		}
		next++
		if p.Slow > 0 && g.n(p.Slow*2) == 0 {
			time.Sleep(time.Duration(g.n(40)) * time.Microsecond)
		}
	}
	if next != p.N {
		c.Failf("%d of %d items came out before the output was closed", next, p.N)
	}
	// fewer than Limit were parked when the last wait returned, and on their way were one per worker, one in the
	// producer's hand, the buffer's, and one or two being handed over.
	if w := worst.Load(); w > int64(p.Limit+p.Workers+p.Buf+6) {
		c.Failf("%d items were in the pipeline at once, with a backlog limit of %d and %d workers", w, p.Limit, p.Workers)
	}
	if p.Workers > 1 && p.N > p.Limit {
		c.NonTrivial()
	}
	c.ClassIf(worst.Load() >= int64(p.Limit), "the backlog limit was reached")
}

// gap: numbers missing from, or repeated in, the stream.
type gap struct {
	P     perm  `json:"p"`
	First int64 `json:"first"`
	Limit int   `json:"limit"`
	Miss  int   `json:"miss"`
	Close bool  `json:"close"`
}

// playGap runs in a process of its own when the input is closed, as the sequencer then stops everything.
func playGap(g gap, emit func(int64), closed func()) {
	out := make(chan *item, g.P.N+1)
	sc := concurrency.NewSequencerContainer[*item](g.First, g.Limit, out)
	for _, i := range g.P.order() {
		if i != g.Miss {
			sc.InChan <- &item{g.First + int64(i), i}
		}
	}
	if g.Close {
		close(sc.InChan)
	}
	for n := 0; ; n++ {
		var after <-chan time.Time
		if n >= g.Miss {
			after = time.After(2 * time.Millisecond) // nothing more is due, unless the output is to be closed
			if g.Close {
				after = time.After(3 * time.Second)
			}
		}
		select {
		case it, ok := <-out:
			if !ok {
				closed()
				return
			}
			emit(it.seq)
		case <-after:
			return
		}
	}
}

func runGap(c *vt.Ctx, g gap) {
	if g.P.N == 0 {
		return
	}
	last := g.First - 1
	judge := func(s int64) {
		if s != last+1 || s >= g.First+int64(g.Miss) {
			c.Failf("number %d never arrived, number %d came out after number %d", g.First+int64(g.Miss), s, last)
		}
		last = s
	}
	isTail := g.Miss == g.P.N-1
	if !g.Close {
		playGap(g, judge, func() { c.Failf("the output was closed although the input was not") })
	} else {
		b, _ := json.Marshal(g)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Args[0])
		cmd.Env = append(os.Environ(), "VT_C08_CHILD="+string(b), "GOTRACEBACK=none")
		o, err := cmd.Output()
		if ctx.Err() != nil {
			vt.Harnessf("child process took too long")
		}
		closed := false
		for _, l := range strings.Split(string(o), "\n") {
			var s int64
			if n, _ := fmt.Sscanf(l, "out %d", &s); n == 1 {
				judge(s)
			}
			closed = closed || l == "closed"
		}
		// (the last number missing cannot be noticed)
		if closed && err == nil && !isTail {
			c.Failf("number %d never arrived, yet the output was closed as if all was well", g.First+int64(g.Miss))
		}
	}
	if want := g.First + int64(g.Miss) - 1; (!g.Close || isTail) && last != want {
		c.Failf("numbers up to %d arrived, only those up to %d came out", want, last)
	}
	if !isTail {
		c.NonTrivial()
	}
	c.ClassIf(g.Close, "input closed")
}

// pool
type pool struct {
	N       int  `json:"n"`
	Workers int  `json:"workers"`
	Fail    int  `json:"fail"` // every Fail'th task fails
	Slow    int  `json:"slow"`
	Senders int  `json:"senders"`
	Gang    bool `json:"gang"` // tasks come in gangs of Workers which wait for one another
	Procs   int  `json:"procs"`
}

type task struct {
	id        int
	process   func() error
	processed atomic.Int32
	setErr    atomic.Int32
	doneCount atomic.Int32
	badOrder  atomic.Bool
	err       error
	done      chan struct{}
}

func (t *task) Process() error {
	if t.setErr.Load() != 0 || t.doneCount.Load() != 0 {
		t.badOrder.Store(true)
	}
	t.processed.Add(1)
	return t.process()
}
func (t *task) SetError(e error) {
	if t.processed.Load() != 1 || t.doneCount.Load() != 0 {
		t.badOrder.Store(true)
	}
	t.setErr.Add(1)
	t.err = e
}
func (t *task) Done() {
	if t.setErr.Load() != 1 {
		t.badOrder.Store(true)
	}
	if t.doneCount.Add(1) == 1 {
		close(t.done)
	}
}
func (t *task) GetError() error { return t.err }

func runPool(c *vt.Ctx, p pool) {
	old := runtime.GOMAXPROCS(p.Procs)
	defer runtime.GOMAXPROCS(old)
	wp := concurrency.NewWorkerPool(p.Workers)
	defer close(wp.InChan)
	tasks := make([]*task, p.N)
	errs := make([]error, p.N)
	var running, most atomic.Int64
	gangs := map[int]*sync.WaitGroup{}
	full := p.N / p.Workers
	for g := 0; g < full; g++ {
		gangs[g] = &sync.WaitGroup{}
		gangs[g].Add(p.Workers)
	}
	for i := range tasks {
		if p.Fail > 0 && i%p.Fail == 0 {
			errs[i] = errors.New(fmt.Sprint("failure of task ", i))
		}
		rg := newRng(i + p.N)
		tasks[i] = &task{id: i, done: make(chan struct{})}
		tasks[i].process = func() error {
			r := running.Add(1)
			defer running.Add(-1)
			for m := most.Load(); r > m && !most.CompareAndSwap(m, r); m = most.Load() {
			}
			if p.Gang && p.Senders == 1 && i/p.Workers < full {
				gangs[i/p.Workers].Done()
				gangs[i/p.Workers].Wait()
			}
			if p.Slow > 0 && rg.n(p.Slow) == 0 {
				for k := rg.n(20); k > 0; k-- {
					runtime.Gosched()
				}
			}
			return errs[i]
		}
	}
	for s := 0; s < p.Senders; s++ {
		go func() {
			for i := s; i < p.N; i += p.Senders {
				wp.InChan <- tasks[i]
			}
		}()
	}
	for i, t := range tasks {
		<-t.done
		if t.GetError() != errs[i] {
			c.Failf("task %d ended with %v, it is given %v", i, errs[i], t.GetError())
		}
	}
	settle()
	for i, t := range tasks {
		if t.processed.Load() != 1 || t.doneCount.Load() != 1 || t.setErr.Load() != 1 {
			c.Failf("task %d was processed %d times, given its error %d times and declared done %d times", i, t.processed.Load(), t.setErr.Load(), t.doneCount.Load())
		}
		if t.badOrder.Load() {
			c.Failf("task %d was not processed, then given its error, then declared done", i)
		}
	}
	if most.Load() > int64(p.Workers) {
		c.Failf("%d tasks ran at once in a pool of %d", most.Load(), p.Workers)
	}
	if p.N > p.Workers && p.Workers > 1 {
		c.NonTrivial()
	}
	c.ClassIf(p.Fail > 0, "some tasks fail")
	c.ClassIf(p.Gang && p.Senders == 1 && full > 0, "tasks need all workers at once")
}

func main() {
	if s := os.Getenv("VT_C08_CHILD"); s != "" {
		var g gap
		if json.Unmarshal([]byte(s), &g) != nil {
			os.Exit(9)
		}
		playGap(g, func(n int64) { fmt.Println("out", n) }, func() { fmt.Println("closed") })
		os.Exit(0)
	}
	vt.Main("C08",
		vt.New("arrival", "items arrive out of order", 6000, 200000, func(t *rapid.T) arrival {
			a := arrival{P: drawPerm(t, 120), First: drawFirst(t), Limit: vt.Size(t, "limit", 5, 60) + 1, Buf: rapid.IntRange(0, 1).Draw(t, "buf"), Probe: []int{0, 1, 3, 9}[rapid.IntRange(0, 3).Draw(t, "probe")]}
			if a.P.Kind == 2 && a.P.N < 4 {
				a.P.Window = a.P.N
			}
			return a
		}, runArrival).Hang(60),
		vt.New("pipeline", "more items than the backlog limit go through several workers", 1600, 60000, func(t *rapid.T) pipe {
			return pipe{N: vt.Size(t, "n", 60, 1200), First: drawFirst(t), Limit: vt.Size(t, "limit", 6, 100) + 1,
				Workers: rapid.IntRange(1, 12).Draw(t, "workers"), Buf: []int{0, 0, 1, 50}[rapid.IntRange(0, 3).Draw(t, "buf")],
				Seed: rapid.IntRange(0, 1<<16).Draw(t, "seed"), Slow: rapid.IntRange(0, 12).Draw(t, "slow"), Hold: rapid.IntRange(0, 30).Draw(t, "hold"),
				Procs: []int{1, 2, 4, 8}[rapid.IntRange(0, 3).Draw(t, "procs")], Nobbles: rapid.IntRange(1, 3).Draw(t, "nobbles")}
		}, runPipe).Hang(60),
		vt.New("gap", "a number other than the last is missing", 400, 6000, func(t *rapid.T) gap {
			g := gap{P: drawPerm(t, 40), First: drawFirst(t), Limit: rapid.IntRange(1, 50).Draw(t, "limit")}
			if g.P.N == 0 {
				g.P.N = 1
			}
			g.Miss = rapid.IntRange(0, g.P.N-1).Draw(t, "miss")
			g.Close = rapid.Bool().Draw(t, "close")
			return g
		}, runGap).Hang(100),
		vt.New("pool", "more tasks than workers, and several workers", 3000, 80000, func(t *rapid.T) pool {
			return pool{N: vt.Size(t, "n", 30, 400), Workers: rapid.IntRange(1, 12).Draw(t, "workers"), Fail: rapid.IntRange(0, 4).Draw(t, "fail"),
				Slow: rapid.IntRange(0, 5).Draw(t, "slow"), Senders: rapid.IntRange(1, 3).Draw(t, "senders"), Gang: rapid.Bool().Draw(t, "gang"),
				Procs: []int{1, 2, 4, 8}[rapid.IntRange(0, 3).Draw(t, "procs")]}
		}, runPool).Hang(60),
	)
}
