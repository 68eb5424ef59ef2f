// C06: a whole ingestion run stores the node's chain, whatever the timing.
// The node is a stand-in behind the HTTP transports of the process.
package main

import (
	"fmt"
	"path/filepath"
	_ "unsafe"

	"verifharness/chaingen"
	"verifharness/fakenode"
	"verifharness/ingest"
	"verifharness/ixgen"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/jobs"
	"pgregory.net/rapid"
)

func describe(c *vt.Ctx, v ingest.Case, ch *chaingen.Chain) {
	ch.Describe(c)
	for i, p := range []ingest.Phase{v.P1, v.P3} {
		c.Class(fmt.Sprintf("phase %d: timing %d", 1+2*i, p.Timing.Kind))
		c.ClassIf(p.Chi, fmt.Sprintf("phase %d through handles", 1+2*i))
		c.ClassIf(p.Json, fmt.Sprintf("phase %d from JSON", 1+2*i))
		c.ClassIf(len(p.Timing.Fails) > 0, fmt.Sprintf("phase %d with failed requests", 1+2*i))
	}
	c.ClassIf(len(ch.Blocks) > 100, "more blocks than the resequencer holds")
	c.ClassIf(len(ch.Blocks) > 1000, "more than one request for headers")
	c.ClassIf(len(ch.Blocks) > 10000, "more than ten thousand blocks")
	if len(ch.Blocks) > 10000 && v.P3.Threads > 1 {
		c.NonTrivial()
	}
	for _, b := range ch.Blocks {
		if n := len(b.Raw); n > 3_000_000 {
			c.Class("a block of three million bytes")
			c.NonTrivial()
			break
		}
	}
	if len(ch.Blocks) > 2 && (v.P1.Timing.Kind > 0 || len(v.P1.Timing.Fails) > 0) && v.P1.Threads > 1 {
		c.NonTrivial()
	}
}

func finish(c *vt.Ctx, n *fakenode.Node, what string) {
	if s := n.Stray(); len(s) > 0 {
		c.Failf("%s: the node has been asked for what it does not have: %v", what, s)
	}
}

func runIngest(c *vt.Ctx, v ingest.Case) {
	full, ch := v.Chains()
	describe(c, v, ch)
	blocks := int64(len(ch.Blocks))
	dir := c.SubDir("store")
	n := fakenode.New(full, v.P1.Timing)
	fakenode.Serve(n)
	one := jobs.PhaseOneParallelIntrinsic
	if v.P1.Chi {
		one = jobs.PhaseOneParallelIntrinsicChi
	}
	c.NoErr(one(dir, v.P1.Json, blocks, int64(len(ch.Txs)), v.P1.Threads, "\n"), "gather the hashes")
	finish(c, n, "gathering the hashes")
	storegen.CheckLists(c, "gathered", dir, ch)
	v.Store.Index(c, dir, ch)
	storegen.Fresh()
	cr := v.Store.Creator(c, dir)
	c.NoErr(cr.CreateFromHashStores(), "create the store")
	ac, ix, err := cr.OpenWithIndexer()
	c.NoErr(err, "open the store")
	upto := max(1, len(ch.Blocks)-v.Limit)
	n = fakenode.New(full, v.P3.Timing)
	fakenode.Serve(n)
	three := jobs.PhaseThreeParallelIntrinsic
	if v.P3.Chi {
		three = jobs.PhaseThreeParallelIntrinsicChi
	}
	c.NoErr(three(int64(upto), v.P3.Json, int64(len(ch.Txs)), ac, ix, v.P3.Threads, "\n"), "store the chain")
	finish(c, n, "storing the chain")
	storegen.Open(c, "read back", cr).Check(c, "read back", ch, v.Store, upto)
}

// The program's own table of how many blocks there are in how many years, which
// the whole-run check makes small.
//
//go:linkname blocksEachYear github.com/KitchenMishap/pudding-shed/jobs.blocksEachYear
var blocksEachYear []int64

//go:linkname transactionsEachYear github.com/KitchenMishap/pudding-shed/jobs.transactionsEachYear
var transactionsEachYear []int64

type wholeCase struct {
	Chain    chaingen.Spec `json:"chain"`
	Less     int           `json:"less"`
	Limit    int           `json:"limit"`
	P        ingest.Phase  `json:"p"`
	Adaptive bool          `json:"adaptive"`
	Apart    bool          `json:"apart"` // each phase by a call of its own
	Again    bool          `json:"again"` // over the files of an earlier run
}

func runWhole(c *vt.Ctx, v wholeCase) {
	if len(blocksEachYear) < 3 || len(transactionsEachYear) < 3 {
		c.Class("the program's tables were not found")
		return
	}
	full, ch := ingest.Case{Chain: v.Chain, Less: v.Less}.Chains()
	ch.Describe(c)
	c.ClassIf(v.Adaptive, "adaptive indexing")
	if len(ch.Blocks) > 2 {
		c.NonTrivial()
	}
	dir := filepath.Join(c.SubDir("a"), "store")
	run := func(ch *chaingen.Chain, limit int, one, two, three bool) error {
		blocksEachYear[2], transactionsEachYear[2] = int64(len(ch.Blocks)), int64(len(ch.Txs))
		fakenode.Serve(fakenode.New(full, v.P.Timing))
		return jobs.RunIntrinsic(dir, v.P.Json, "delegated", 2, v.P.Threads, 1, one, two, three, int64(limit), true, v.P.Chi, v.Adaptive)
	}
	if v.Again {
		c.Class("over an earlier run")
		_, first := ingest.Case{Chain: v.Chain, Less: v.Less + 1}.Chains()
		storegen.Fresh()
		c.NoErr(run(first, 0, true, false, false), "an earlier run")
	}
	upto, limit := len(ch.Blocks), 0
	if v.Limit > 0 && v.Limit < upto {
		upto, limit = v.Limit, v.Limit
	}
	storegen.Fresh()
	if v.Apart {
		c.NoErr(run(ch, limit, true, false, false), "run phase one")
		c.NoErr(run(ch, limit, false, true, false), "run phase two")
		c.NoErr(run(ch, limit, false, false, true), "run phase three")
	} else {
		c.NoErr(run(ch, limit, true, true, true), "run")
	}
	storegen.CheckLists(c, "gathered", dir, ch)
	s := storegen.Store{Blk: storegen.BlkNeis, Trn: storegen.TrnNeis, Delegated: true}
	storegen.Open(c, "read back", s.Creator(c, dir)).Check(c, "read back", ch, s, upto)
}

func main() {
	drawChain := func(t *rapid.T) chaingen.Spec {
		return chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30, Dups: vt.Pick(t, "dups", 3, 1) == 1, Wide: vt.Pick(t, "wide", 9, 1) == 1})
	}
	vt.Main("C06",
		vt.New("phases", "at least three blocks, fetched by several workers with delays or failed requests", 160, 16000, func(t *rapid.T) ingest.Case {
			v := ingest.Case{Chain: drawChain(t), Less: 1}
			switch vt.Pick(t, "pad", 8, 4, 1) {
			case 1:
				v.Pad = rapid.IntRange(90, 330).Draw(t, "padn")
			case 2:
				v.Pad = []int{1000, 2000}[vt.Pick(t, "batches", 3, 1)] - len(v.Chain.Blocks) + rapid.IntRange(-3, 3).Draw(t, "padd")
			}
			if vt.Pick(t, "less", 2, 1) == 1 {
				v.Less = rapid.IntRange(1, 4).Draw(t, "lessn")
			}
			if vt.Pick(t, "limit", 3, 1) == 1 {
				v.Limit = rapid.IntRange(0, len(v.Chain.Blocks)).Draw(t, "limitn")
			}
			v.Store = storegen.DrawStore(t, true)
			blocks := len(v.Chain.Blocks) + v.Pad
			v.P1 = ingest.DrawPhase(t, blocks, v.Pad > 0)
			v.P3 = ingest.DrawPhase(t, blocks, v.Pad > 0)
			return v
		}, runIngest).Hang(100),
		// The store is synced after every 10 000 blocks
		vt.New("thousands", "at least ten thousand blocks, fetched by several workers", 4, 60, func(t *rapid.T) ingest.Case {
			v := ingest.Case{Chain: drawChain(t), Less: 1}
			v.Pad = 10000 - len(v.Chain.Blocks) + rapid.IntRange(0, 300).Draw(t, "padd")
			v.Store = storegen.DrawStore(t, true)
			few := ixgen.Params{Bins: 256, Entries: 100, HiBits: 20, SnBytes: 7, Digits: 2}
			v.Store.Idx = [3]ixgen.Params{few, few, few}
			v.Store.How = [3]ixgen.How{{Threads: 2}, {Threads: 2}, {Threads: 2}}
			v.P1, v.P3 = ingest.DrawPhase(t, 10000, true), ingest.DrawPhase(t, 10000, true)
			v.P1.Timing.Kind, v.P3.Timing.Kind = 0, 0 // without delays
			return v
		}, runIngest).Hang(400),
		// A block of close to four million bytes, which is what a block may have
		vt.New("big", "a block of at least three million bytes", 5, 100, func(t *rapid.T) ingest.Case {
			v := ingest.Case{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3}), Less: 1}
			for _, b := range v.Chain.Blocks {
				for k, tx := range b.Txs {
					b.Txs[k].N = min(tx.N, 400)
					for i := range tx.Outs {
						if o := &tx.Outs[i]; o.N >= 65533 { // many outputs, and not many of all
							o.Len = 3_950_000/o.N - 9
						}
					}
				}
			}
			v.Store = storegen.DrawStore(t, true)
			few := ixgen.Params{Bins: 4096, Entries: 60, HiBits: 24, SnBytes: 7, Digits: 2}
			v.Store.Idx = [3]ixgen.Params{few, few, few}
			v.Store.How = [3]ixgen.How{{Threads: 2}, {Threads: 2}, {Threads: 2}}
			v.P1, v.P3 = ingest.DrawPhase(t, len(v.Chain.Blocks), false), ingest.DrawPhase(t, len(v.Chain.Blocks), false)
			v.P1.Json = rapid.Bool().Draw(t, "json")
			v.P3.Json = !v.P1.Json
			return v
		}, runIngest).Hang(400),
		vt.New("whole", "at least three blocks", 24, 2400, func(t *rapid.T) wholeCase {
			v := wholeCase{Chain: drawChain(t), Less: 1, Adaptive: vt.Pick(t, "adaptive", 1, 1) == 1, Apart: rapid.Bool().Draw(t, "apart"), Again: vt.Pick(t, "again", 3, 1) == 1}
			if vt.Pick(t, "limit", 2, 1) == 1 {
				v.Limit = rapid.IntRange(0, len(v.Chain.Blocks)+1).Draw(t, "limitn")
			}
			v.P = ingest.DrawPhase(t, len(v.Chain.Blocks), false)
			return v
		}, runWhole).Hang(200),
	)
}
