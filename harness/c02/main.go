// C02: closing, reopening and continuing never changes the stored chain.
package main

import (
	"path/filepath"

	"verifharness/chaingen"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"pgregory.net/rapid"
)

// Look is what is done before block At is appended (or, after the last one, at the end).
type Look struct {
	At   int  `json:"at"`
	Live bool `json:"live"` // ask the open store itself
	Sync bool `json:"sync"` // sync, and read a copy of the files taken then
	Peek int  `json:"peek"` // close, open read-only so many times, reopen
}

type sessionCase struct {
	Chain chaingen.Spec  `json:"chain"`
	Store storegen.Store `json:"store"`
	Hash  storegen.Feed  `json:"hash"`
	Main  storegen.Feed  `json:"main"`
	Looks []Look         `json:"looks"`
	RdRam bool           `json:"rdRam"`
	Watch []int          `json:"watch"` // outputs whose address is asked for after each block
}

func runSessions(c *vt.Ctx, v sessionCase) {
	ch := v.Chain.Make()
	n := len(ch.Blocks)
	one, many := c.SubDir("one"), c.SubDir("many")
	h1, m1 := v.Hash, v.Main
	h1.Cuts, m1.Cuts = nil, nil

	storegen.Gather(c, one, ch, h1)
	storegen.CheckLists(c, "gathered in one session", one, ch)
	storegen.Gather(c, many, ch, v.Hash)
	storegen.CheckLists(c, "gathered in several sessions", many, ch)

	v.Store.Index(c, one, ch)
	v.Store.Index(c, many, ch)
	x := v.Store.Begin(c, one, ch, m1)
	for range ch.Blocks {
		x.Append()
	}
	x.AC.Close()

	rd := v.Store
	rd.InRam = v.RdRam
	cuts := 0
	var view struct { // of the open store, kept while it is open
		of chainstorage.IAppendableChain
		r  storegen.Reader
	}
	x = v.Store.Begin(c, many, ch, v.Main)
	peek := func(what string) {
		before := storegen.Tree(many)
		storegen.Open(c, what, rd.Creator(c, many)).Check(c, what, ch, v.Store, x.Next)
		storegen.SameTree(c, "reading the store", "before", "after", before, storegen.Tree(many))
	}
	live := func() storegen.Reader {
		if view.of != x.AC {
			view.of, view.r = x.AC, storegen.Live(c, x.AC)
		} else {
			c.Class("the open store was asked again")
		}
		return view.r
	}
	look := func(i int) {
		for k, l := range v.Looks {
			if l.At != i {
				continue
			}
			if l.Live {
				c.Class("the open store was asked")
				live().Check(c, "the open store", ch, v.Store, i)
				if l.Sync {
					storegen.Live(c, x.AC).Check(c, "the open store, asked anew", ch, v.Store, i)
				}
			}
			if l.Sync {
				c.Class("synced and copied")
				c.NoErr(x.AC.Sync(), "sync after %d blocks", i)
				cp := filepath.Join(c.Dir(), "copy"+string(rune('a'+k)))
				storegen.CopyTree(many, cp)
				storegen.Open(c, "a copy taken after a sync", rd.Creator(c, cp)).Check(c, "a copy taken after a sync", ch, v.Store, i)
			}
			if l.Peek > 0 {
				c.Class("read between sessions")
				x.AC.Close()
				for ; l.Peek > 0; l.Peek-- {
					peek("between sessions")
				}
				before := storegen.Tree(many)
				if x.Cr.Create() == nil || v.Store.Creator(c, many).CreateFromHashStores() == nil {
					c.Failf("an existing store is created again")
				}
				storegen.SameTree(c, "a refused creation", "before", "after", before, storegen.Tree(many))
				x.Open()
				if 0 < i && i < n {
					cuts++
				}
			}
		}
	}
	for i := range ch.Blocks {
		if v.Main.CutAt(i) {
			x.AC.Close()
			x.Open()
			if i > 0 {
				cuts++
			}
		}
		look(i)
		x.Append()
		for _, w := range v.Watch {
			last := ch.Blocks[i].Txs[len(ch.Blocks[i].Txs)-1]
			a, nTxo := ch.Txos[w%len(ch.Txos)].Addr, last.FirstTxo+len(last.Outs)
			if a.Txos[0] < nTxo {
				live().Address(c, "the open store", ch, a, nTxo, w)
			}
		}
	}
	look(n)
	x.AC.Close()
	peek("after the last session")
	peek("after the last session, again")
	storegen.SameTree(c, "the stored files", "in one session", "in several", storegen.Tree(one), storegen.Tree(many))
	for _, k := range v.Hash.Cuts {
		if k > 0 && k < n {
			c.Class("hash lists gathered in several sessions")
			cuts++
			break
		}
	}
	c.ClassIf(v.Store.Delegated, "transaction index delegated")
	ch.Describe(c)
	if cuts > 0 {
		c.NonTrivial()
	}
}

type listCase struct {
	Chain chaingen.Spec `json:"chain"`
	Hash  storegen.Feed `json:"hash"`
	Syncs []int         `json:"syncs"`
}

// runLists gathers hash lists in sessions, with a copy taken after every sync.
func runLists(c *vt.Ctx, v listCase) {
	ch := v.Chain.Make()
	dir := c.SubDir("lists")
	cr := chainstorage.NewConcreteHashesChainCreator(dir)
	c.NoErr(cr.Create(), "create the hash lists")
	hc, err := cr.Open()
	c.NoErr(err, "open the hash lists")
	src := storegen.NewSource(c, ch, v.Hash, nil)
	part := func(i int) *chaingen.Chain {
		p := &chaingen.Chain{Blocks: ch.Blocks[:i]}
		for _, b := range p.Blocks {
			p.Txs = append(p.Txs, b.Txs...)
			for _, t := range b.Txs {
				p.Txos = append(p.Txos, t.Outs...)
			}
		}
		return p
	}
	for i := 0; i <= len(ch.Blocks); i++ {
		for _, s := range v.Syncs {
			if s == i {
				c.NoErr(hc.Sync(), "sync after %d blocks", i)
				storegen.CheckLists(c, "after a sync", dir, part(i))
				c.Class("synced")
			}
		}
		if v.Hash.CutAt(i) {
			hc.Close()
			storegen.CheckLists(c, "between sessions", dir, part(i))
			hc, err = cr.Open()
			c.NoErr(err, "reopen after %d blocks", i)
			if i > 0 && i < len(ch.Blocks) {
				c.NonTrivial()
			}
		}
		b, t, a, err := hc.CountHashes()
		c.NoErr(err, "count the hashes")
		p := part(i)
		if b != int64(i) || t != int64(len(p.Txs)) || a != int64(len(p.Txos)) {
			c.Failf("after %d blocks the hash lists count %d, %d and %d hashes, want %d, %d and %d", i, b, t, a, i, len(p.Txs), len(p.Txos))
		}
		if i < len(ch.Blocks) {
			src.To(i)
			c.NoErr(src.AppendHashes(hc, v.Hash, i), "append the hashes of block %d", i)
		}
	}
	hc.Close()
	storegen.CheckLists(c, "at the end", dir, ch)
}

func main() {
	vt.Main("C02",
		vt.New("sessions", "a session boundary strictly inside the chain", 110, 9000, func(t *rapid.T) sessionCase {
			dups := vt.Pick(t, "dups", 3, 1) == 1
			v := sessionCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 8, Long: 20, Dups: dups, Wide: vt.Pick(t, "wide", 9, 1) == 1})}
			n := len(v.Chain.Blocks) + 1
			v.Store = storegen.DrawStore(t, dups)
			v.Hash = storegen.DrawFeed(t, n, true)
			v.Main = storegen.DrawFeed(t, n, true)
			for k := vt.Size(t, "looks", 2, 4); k > 0; k-- {
				v.Looks = append(v.Looks, Look{At: rapid.IntRange(0, n).Draw(t, "at"), Live: rapid.Bool().Draw(t, "live"),
					Sync: rapid.Bool().Draw(t, "sync"), Peek: rapid.IntRange(0, 2).Draw(t, "peek")})
			}
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			v.Watch = rapid.SliceOfN(rapid.IntRange(0, 60), 0, 2).Draw(t, "watch")
			return v
		}, runSessions),
		vt.New("huge", "a session boundary strictly inside the chain", 8, 500, func(t *rapid.T) sessionCase {
			dups := vt.Pick(t, "dups", 3, 1) == 1
			v := sessionCase{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3, Dups: dups})}
			n := len(v.Chain.Blocks) + 1
			v.Store = storegen.DrawStore(t, dups)
			v.Store.Big(t)
			v.Hash = storegen.DrawFeed(t, n, true)
			v.Main = storegen.DrawFeed(t, n, true)
			for k := vt.Size(t, "looks", 1, 2); k > 0; k-- {
				v.Looks = append(v.Looks, Look{At: rapid.IntRange(0, n).Draw(t, "at"), Live: rapid.Bool().Draw(t, "live"),
					Sync: rapid.Bool().Draw(t, "sync"), Peek: rapid.IntRange(0, 2).Draw(t, "peek")})
			}
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			v.Watch = rapid.SliceOfN(rapid.IntRange(0, 60), 0, 2).Draw(t, "watch")
			return v
		}, runSessions),
		vt.New("lists", "a session boundary strictly inside the chain", 400, 30000, func(t *rapid.T) listCase {
			v := listCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 12, Long: 40, Dups: true, Wide: vt.Pick(t, "wide", 3, 1) == 1})}
			n := len(v.Chain.Blocks) + 1
			v.Hash = storegen.DrawFeed(t, n, true)
			v.Syncs = rapid.SliceOfN(rapid.IntRange(0, n), 0, 4).Draw(t, "syncs")
			return v
		}, runLists),
	)
}
