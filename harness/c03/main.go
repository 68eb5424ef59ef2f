// C03: both feeding interfaces store the same thing.
package main

import (
	"verifharness/chaingen"
	"verifharness/ixgen"
	"verifharness/storegen"
	"verifharness/vt"

	"pgregory.net/rapid"
)

type pairCase struct {
	Chain chaingen.Spec    `json:"chain"`
	Store storegen.Store   `json:"store"`
	Hash  [2]storegen.Feed `json:"hash"`
	Main  [2]storegen.Feed `json:"main"`
	Other bool             `json:"other"` // the second store leaves the transaction index the other way
}

func run(c *vt.Ctx, v pairCase) {
	ch := v.Chain.Make()
	var trees [2]map[string]string
	for k, name := range []string{"a", "b"} {
		dir := c.SubDir(name)
		storegen.Gather(c, dir, ch, v.Hash[k])
		trees[k] = storegen.Tree(dir)
		if k == 1 {
			storegen.SameTree(c, "the gathered hash lists", "fed one way", "fed the other", trees[0], trees[1])
		}
	}
	storegen.CheckLists(c, "gathered", c.SubDir("a"), ch)
	for k, name := range []string{"a", "b"} {
		dir := c.SubDir(name)
		s := v.Store
		s.Delegated = (s.Delegated != (v.Other && k == 1)) || ch.Dups
		s.Index(c, dir, ch)
		x := s.Begin(c, dir, ch, v.Main[k])
		for range ch.Blocks {
			x.Append()
		}
		x.AC.Close()
		trees[k] = storegen.Tree(dir)
	}
	storegen.SameTree(c, "the stored files", "fed one way", "fed the other", trees[0], trees[1])
	storegen.Open(c, "read back", v.Store.Creator(c, c.SubDir("b"))).Check(c, "read back", ch, v.Store, len(ch.Blocks))
	differ := false
	for i := range ch.Blocks {
		differ = differ || v.Main[0].ChiAt(i) != v.Main[1].ChiAt(i)
	}
	c.ClassIf(v.Hash[0].ChiAt(0) != v.Hash[1].ChiAt(0), "hash lists gathered in both styles")
	c.ClassIf(v.Main[0].Json != v.Main[1].Json, "one store fed from JSON")
	c.ClassIf(v.Other && !ch.Dups, "delegated and not")
	ch.Describe(c)
	if differ && len(ch.Txis) > 0 {
		c.NonTrivial()
	}
}

func main() {
	vt.Main("C03",
		vt.New("styles", "a chain with spends whose blocks are fed in different styles", 200, 15000, func(t *rapid.T) pairCase {
			dups := vt.Pick(t, "dups", 2, 1) == 1
			v := pairCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30, Dups: dups, Wide: vt.Pick(t, "wide", 6, 1) == 1})}
			v.Store = storegen.DrawStore(t, dups)
			for k := range v.Hash {
				v.Hash[k], v.Main[k] = storegen.DrawFeed(t, 0, false), storegen.DrawFeed(t, 0, false)
			}
			if vt.Pick(t, "opposite", 1, 3) == 1 { // the usual comparison
				k := rapid.IntRange(0, 1).Draw(t, "k")
				v.Main[k].Chi, v.Main[1-k].Chi = []bool{true}, []bool{false}
				v.Hash[k].Chi, v.Hash[1-k].Chi = []bool{false}, []bool{true}
			}
			v.Other = vt.Pick(t, "other", 2, 1) == 1
			return v
		}, run),
		vt.New("huge", "a chain with spends whose blocks are fed in different styles", 8, 400, func(t *rapid.T) pairCase {
			v := pairCase{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3})}
			v.Store = storegen.DrawStore(t, false)
			for i := range v.Store.Idx {
				v.Store.Idx[i] = ixgen.DrawBig(t)
				v.Store.How[i] = ixgen.How{Threads: rapid.IntRange(1, 9).Draw(t, "threads")}
			}
			k := rapid.IntRange(0, 1).Draw(t, "k")
			for i := range v.Hash {
				v.Hash[i], v.Main[i] = storegen.DrawFeed(t, 0, false), storegen.DrawFeed(t, 0, false)
				v.Hash[i].Chi, v.Main[i].Chi = []bool{i == k}, []bool{i != k}
			}
			return v
		}, run),
	)
}
