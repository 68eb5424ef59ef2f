// C25: finished work gives back its files, its memory maps, its goroutines and
// the node's answers.
package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verifharness/chaingen"
	"verifharness/fakenode"
	"verifharness/ingest"
	"verifharness/parts"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/jobs"
	"pgregory.net/rapid"
)

// held lists the files below dir that this process has open or mapped.
func held(dir string) (r []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		vt.Harnessf("%v", err)
	}
	for _, d := range fds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err == nil && strings.HasPrefix(l, dir+"/") {
			r = append(r, strings.TrimPrefix(l, dir+"/")+" is open")
		}
	}
	m, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		vt.Harnessf("%v", err)
	}
	for _, l := range strings.Split(string(m), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			r = append(r, l[i+len(dir)+1:]+" is mapped")
		}
	}
	sort.Strings(r)
	return
}

// few checks that work that goes on, or a reader that has been asked much, does
// not hold a file again and again.
func few(c *vt.Ctx, what, dir string) int {
	h := held(dir)
	times := map[string]int{}
	for _, f := range h {
		if times[f]++; times[f] > 6 {
			c.Failf("%s: %s, %d times", what, f, times[f])
		}
	}
	return len(h)
}

const library = "github.com/KitchenMishap/pudding-shed/"

// busy gives the goroutines that the library began, by the line that began them.
func busy() map[string]int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	r := map[string]int{}
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if i := bytes.Index(g, []byte("created by "+library)); i >= 0 {
			s := string(g[i+len("created by "+library):])
			if j := strings.Index(s, " in goroutine"); j >= 0 {
				s = s[:j]
			}
			r[s]++
		}
	}
	return r
}

// left gives what there is more of than before.
func left(before map[string]int) (r []string) {
	for k, n := range busy() {
		if n > before[k] {
			r = append(r, fmt.Sprintf("%d goroutines begun in %s", n-before[k], k))
		}
	}
	sort.Strings(r)
	return
}

// begin keeps the garbage collector from closing files that were forgotten.
func begin() func() {
	n := debug.SetGCPercent(-1)
	return func() {
		debug.SetGCPercent(n)
		runtime.GC()
		runtime.GC()
	}
}

// given checks that all is given back, for which goroutines have a while.
func given(c *vt.Ctx, what, dir string, before map[string]int) {
	var g []string
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		if g = left(before); len(g) == 0 || time.Now().After(end) {
			break
		}
	}
	if len(g) > 0 {
		c.Failf("%s: there remain %v", what, g)
	}
	if h := held(dir); len(h) > 0 {
		c.Failf("%s: %d files are held: %v", what, len(h), h[:min(len(h), 20)])
	}
}

func runStores(c *vt.Ctx, s parts.Script) {
	defer begin()()
	c.Class(s.Kind)
	dir := c.SubDir("a")
	// The chain is gathered and indexed first
	before := busy()
	first := s.Prepare(c, dir)
	given(c, s.Kind+": prepared", dir, before)
	p, err := first()
	c.NoErr(err, "create")
	puts, most := 0, 0
	for i, o := range s.Ops {
		c.NoErr(p.Do(o), "operation %d (%s)", i, o.K)
		if o.K == "put" {
			puts += o.N
		}
		most = max(most, few(c, fmt.Sprintf("%s: after operation %d (%s)", s.Kind, i, o.K), dir))
	}
	if p.Shut != nil {
		c.NoErr(p.Shut(), "close")
	} else if p.Close != nil {
		p.Close()
	}
	given(c, s.Kind+": closed", dir, before)
	p.Look(c, s.Kind+": closed; what is stored", dir)
	few(c, s.Kind+": after reading all", dir)
	if s.Kind == "chain" { // its readers cannot be closed
		dir = "/dev/null"
	}
	given(c, s.Kind+": read", dir, before)
	if puts > 0 && (most > 0 || s.Kind == "built") {
		c.NonTrivial()
	}
}

func begun(ch *chaingen.Chain, p ingest.Phase) *fakenode.Node {
	n := fakenode.New(ch, p.Timing)
	fakenode.Serve(n)
	return n
}

func runPhases(c *vt.Ctx, v ingest.Case) {
	defer begin()()
	full, ch := v.Chains()
	ch.Describe(c)
	for i, p := range []ingest.Phase{v.P1, v.P3} {
		c.ClassIf(p.Chi, fmt.Sprintf("phase %d through handles", 1+2*i))
		c.ClassIf(p.Json, fmt.Sprintf("phase %d from JSON", 1+2*i))
		c.ClassIf(len(p.Timing.Fails) > 0, fmt.Sprintf("phase %d with failed requests", 1+2*i))
		for _, f := range p.Timing.Fails {
			if len(f.Kinds) > 0 && p.Threads > 1 {
				c.NonTrivial()
			}
		}
	}
	c.ClassIf(len(ch.Blocks) > 1002, "more than one full request for headers")
	dir := c.SubDir("store")
	before := busy()
	check := func(n *fakenode.Node, what string) {
		given(c, what, dir, before)
		if k := n.Held(); k > 0 {
			c.Failf("%s: %d of the node's answers have neither been read to their end nor closed", what, k)
		}
	}
	n := begun(full, v.P1)
	one := jobs.PhaseOneParallelIntrinsic
	if v.P1.Chi {
		one = jobs.PhaseOneParallelIntrinsicChi
	}
	c.NoErr(one(dir, v.P1.Json, int64(len(ch.Blocks)), int64(len(ch.Txs)), v.P1.Threads, "\n"), "gather the hashes")
	check(n, "the hashes are gathered")
	v.Store.Index(c, dir, ch)
	check(n, "the hashes are indexed")
	storegen.Fresh()
	cr := v.Store.Creator(c, dir)
	c.NoErr(cr.CreateFromHashStores(), "create the store")
	given(c, "the store is created", dir, before)
	ac, ix, err := cr.OpenWithIndexer()
	c.NoErr(err, "open the store")
	upto := max(1, len(ch.Blocks)-v.Limit)
	n = begun(full, v.P3)
	three := jobs.PhaseThreeParallelIntrinsic
	if v.P3.Chi {
		three = jobs.PhaseThreeParallelIntrinsicChi
	}
	c.NoErr(three(int64(upto), v.P3.Json, int64(len(ch.Txs)), ac, ix, v.P3.Threads, "\n"), "store the chain")
	check(n, "the chain is stored")
}

func main() {
	vt.Main("C25",
		vt.New("stores", "something is put in a store that holds files while it is open", 1500, 100000, parts.Draw(true), runStores),
		vt.New("phases", "requests fail, and several workers make them", 160, 16000, func(t *rapid.T) ingest.Case {
			v := ingest.Case{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30}), Less: 1}
			switch vt.Pick(t, "pad", 20, 6, 1) {
			case 1:
				v.Pad = rapid.IntRange(90, 330).Draw(t, "padn")
			case 2: // more than one full request for headers
				v.Pad = rapid.IntRange(990, 1060).Draw(t, "padn")
			}
			if vt.Pick(t, "less", 2, 1) == 1 {
				v.Less = rapid.IntRange(1, 4).Draw(t, "lessn")
			}
			if vt.Pick(t, "limit", 3, 1) == 1 {
				v.Limit = rapid.IntRange(0, len(v.Chain.Blocks)).Draw(t, "limitn")
			}
			v.Store = storegen.DrawStore(t, true)
			blocks := len(v.Chain.Blocks) + v.Pad
			v.P1 = ingest.DrawPhase(t, blocks, v.Pad > 0)
			v.P3 = ingest.DrawPhase(t, blocks, v.Pad > 0)
			return v
		}, runPhases).Hang(100),
	)
}
