// C01: a stored chain reads back exactly as it was appended.
package main

import (
	"verifharness/chaingen"
	"verifharness/ixgen"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"pgregory.net/rapid"
)

type storeCase struct {
	Chain chaingen.Spec  `json:"chain"`
	Store storegen.Store `json:"store"`
	Hash  storegen.Feed  `json:"hash"`
	Main  storegen.Feed  `json:"main"`
	RdRam bool           `json:"rdRam"` // the reader keeps its hash indexes in memory
}

func nonTrivial(c *vt.Ctx, ch *chaingen.Chain) {
	reuse := false
	for _, a := range ch.Addrs {
		reuse = reuse || len(a.Txos) > 1
	}
	if len(ch.Txis) > 0 && reuse {
		c.NonTrivial()
	}
	ch.Describe(c)
}

const rule = "a chain with at least one spend and one address paid twice"

func runStored(c *vt.Ctx, v storeCase) {
	ch := v.Chain.Make()
	nonTrivial(c, ch)
	c.ClassIf(v.Store.Delegated, "transaction index delegated")
	c.ClassIf(v.Main.Mixed(), "both styles mixed")
	c.ClassIf(v.Store.InRam, "appended with hash indexes in memory")
	dir := c.Dir()
	v.Store.Whole(c, dir, ch, v.Hash, v.Main)
	s := v.Store
	s.InRam = v.RdRam
	s.Blk, s.Trn = nil, nil // a reader opens what there is
	storegen.Open(c, "read back", s.Creator(c, dir)).Check(c, "read back", ch, v.Store, len(ch.Blocks))
}

type modelCase struct {
	Chain   chaingen.Spec  `json:"chain"`
	Store   storegen.Store `json:"store"`
	Heights bool           `json:"heights"`
	Paths   bool           `json:"paths"`
	Sources int            `json:"sources"`
	Copy    bool           `json:"copy"` // then a second store is fed from the first
}

// runModel feeds the store from a chain whose handles carry what the case
// says, and which supplies every number the store supports.
func runModel(c *vt.Ctx, v modelCase) {
	ch := v.Chain.Make()
	nonTrivial(c, ch)
	m := &storegen.Model{Ch: ch, Heights: v.Heights, Paths: v.Paths, Sources: v.Sources}
	dir := c.SubDir("a")
	hcr := chainstorage.NewConcreteHashesChainCreator(dir)
	c.NoErr(hcr.Create(), "create the hash lists")
	hc, err := hcr.Open()
	c.NoErr(err, "open the hash lists")
	for i := range ch.Blocks {
		c.NoErr(hc.AppendHashesCri(m, m.Block(i), int64(i)), "append the hashes of block %d", i)
	}
	hc.Close()
	storegen.CheckLists(c, "fed from a model", dir, ch)
	v.Store.Index(c, dir, ch)
	storegen.Fresh()
	cr := v.Store.Creator(c, dir)
	c.NoErr(cr.CreateFromHashStores(), "create the store")
	var ac chainstorage.IAppendableChain
	var ix transactionindexing.ITransactionIndexer
	if v.Store.Delegated {
		ac, ix, err = cr.OpenWithIndexer()
	} else {
		ac, err = cr.Open()
	}
	c.NoErr(err, "open the store")
	for i, b := range ch.Blocks {
		if ix != nil {
			c.NoErr(ix.StoreBlockHeightToFirstTrans(int64(i), int64(b.Txs[0].Height)), "tell the indexer")
			for _, t := range b.Txs {
				c.NoErr(ix.StoreTransHeightToParentBlock(int64(t.Height), int64(i)), "tell the indexer")
			}
			ft, err := ix.RetrieveBlockHeightToFirstTrans(int64(i))
			c.NoErr(err, "ask the indexer")
			pb, err := ix.RetrieveTransHeightToParentBlock(int64(b.Txs[0].Height))
			c.NoErr(err, "ask the indexer")
			if ft != int64(b.Txs[0].Height) || pb != int64(i) {
				c.Failf("told that block %d starts at transaction %d, the indexer says %d, in block %d", i, b.Txs[0].Height, ft, pb)
			}
		}
		c.NoErr(ac.AppendBlock(m, m.Block(i)), "append block %d", i)
	}
	ac.Close()
	r := storegen.Open(c, "read back", cr)
	r.Check(c, "read back", ch, v.Store, len(ch.Blocks))
	if !v.Copy || len(ch.Txos) > 300 {
		return
	}
	// A second store, fed from the first.
	c.Class("copied into a second store")
	d2 := c.SubDir("b")
	storegen.Gather(c, d2, ch, storegen.Feed{})
	v.Store.Index(c, d2, ch)
	storegen.Fresh()
	s2 := v.Store
	s2.Delegated = false
	cr = s2.Creator(c, d2)
	c.NoErr(cr.CreateFromHashStores(), "create the second store")
	ac, err = cr.Open()
	c.NoErr(err, "open the second store")
	h := r.C.GenesisBlock()
	for i := 0; !h.IsInvalid(); i++ {
		c.NoErr(ac.AppendBlock(r.C, h), "append block %d of the first store to the second", i)
		h, err = r.C.NextBlock(h)
		c.NoErr(err, "block after %d", i)
	}
	ac.Close()
	storegen.Open(c, "the copy", cr).Check(c, "the copy", ch, s2, len(ch.Blocks))
}

func main() {
	vt.Main("C01",
		vt.New("stored", rule, 250, 20000, func(t *rapid.T) storeCase {
			dups := vt.Pick(t, "dups", 2, 1) == 1
			v := storeCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30, Dups: dups, Wide: vt.Pick(t, "wide", 5, 1) == 1})}
			v.Store = storegen.DrawStore(t, dups)
			v.Hash = storegen.DrawFeed(t, 0, false)
			v.Main = storegen.DrawFeed(t, 0, false)
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			return v
		}, runStored),
		vt.New("huge", rule, 16, 600, func(t *rapid.T) storeCase {
			v := storeCase{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3})}
			v.Store = storegen.DrawStore(t, false)
			for i := range v.Store.Idx {
				v.Store.Idx[i] = ixgen.DrawBig(t)
				v.Store.How[i] = ixgen.How{Threads: rapid.IntRange(1, 9).Draw(t, "threads")}
			}
			v.Hash = storegen.DrawFeed(t, 0, false)
			v.Main = storegen.DrawFeed(t, 0, false)
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			return v
		}, runStored),
		vt.New("model", rule, 150, 12000, func(t *rapid.T) modelCase {
			v := modelCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30, Versions: true, Wide: vt.Pick(t, "wide", 5, 1) == 1})}
			v.Store = storegen.DrawStore(t, false)
			v.Store.Blk = storegen.Subset(t, "allblk", storegen.AllBlkNeis)
			v.Store.Trn = storegen.Subset(t, "alltrn", storegen.AllTrnNeis)
			v.Heights = rapid.Bool().Draw(t, "heights")
			v.Paths = rapid.Bool().Draw(t, "paths") || !v.Heights
			v.Sources = rapid.IntRange(0, 2).Draw(t, "sources")
			v.Copy = vt.Pick(t, "copy", 2, 1) == 1
			return v
		}, runModel),
	)
}
