// C17: a compact hash tree finds every inserted hash and rejects others.
package main

import (
	"bytes"

	"verifharness/treegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"pgregory.net/rapid"
)

func classes(c *vt.Ctx, set treegen.Set, hs [][]byte) {
	if len(hs) > 1 {
		c.NonTrivial()
	}
	c.ClassIf(len(hs) == 0, "no hashes")
	c.ClassIf(len(hs) == 1, "a lone hash")
	c.ClassIf(len(hs) > 1000, "over a thousand hashes")
	c.ClassIf(set.Len <= 2, "very short hashes")
	c.ClassIf(set.Len == 64, "the longest hashes")
	for _, f := range set.Fams {
		c.ClassIf(f.Kind == 3 && f.N >= 30, "deep comb")
	}
}

func copies(hs [][]byte) [][]byte {
	r := make([][]byte, len(hs))
	for i := range hs {
		r[i] = append([]byte{}, hs[i]...)
	}
	return r
}

// --- Trees that hold whole hashes.

type singleCase struct {
	Set   treegen.Set `json:"set"`
	Reass int         `json:"reassurance"`
	First uint64      `json:"first"` // number of the first hash
	Probe uint32      `json:"probe"`
}

func runSingle(c *vt.Ctx, v singleCase) {
	hs := v.Set.Hashes()
	classes(c, v.Set, hs)
	c.ClassIf(v.Set.Prefix > 0, "prefix already examined")
	in := make([]weddingcakeback.SingleTreeHash, len(hs))
	mine := copies(hs)
	for i := range hs {
		in[i] = weddingcakeback.SingleTreeHash{Hash: mine[i], PresentationIndex: weddingcakeback.SingleTreePiType(v.First + uint64(i))}
	}
	tree := weddingcakeback.GenerateSingleTree(in, byte(v.Set.Prefix), byte(v.Set.Len), byte(v.Reass))
	for i := range hs {
		if !bytes.Equal(in[i].Hash, hs[i]) || in[i].PresentationIndex != weddingcakeback.SingleTreePiType(v.First+uint64(i)) {
			c.Failf("making the tree changed what it was made of at %d", i)
		}
	}
	// The caller's bytes may be reused once the tree is made.
	for i := range mine {
		for k := range mine[i] {
			mine[i][k] ^= 0xA5
		}
	}
	for i, h := range hs {
		if got := tree.LookupHash(h); got != weddingcakeback.SingleTreePiType(v.First+uint64(i)) {
			c.Failf("%x is at %d, want %d", h, got, v.First+uint64(i))
		}
	}
	for _, h := range treegen.Probes(hs, v.Set.Len, v.Set.Prefix, v.Probe, 60+len(hs)/4) {
		if got := tree.LookupHash(h); got != weddingcakeback.SingleTreeNoMatch {
			c.Failf("%x was not inserted but is found at %d", h, got)
		}
	}
	// Visiting.
	if tree.HashCount != len(hs) || tree.CountLeaves() != len(hs) {
		c.Failf("a tree of %d hashes says %d and has %d leaves", len(hs), tree.HashCount, tree.CountLeaves())
	}
	seen := map[uint64]bool{}
	tree.VisitAllLeaves(func(l *weddingcakeback.SingleTreeLeafNode) {
		n := uint64(l.PresentationIndex) - v.First
		if n >= uint64(len(hs)) || seen[n] {
			c.Failf("a leaf has number %d (seen already: %v) of %d hashes from %d", l.PresentationIndex, seen[n], len(hs), v.First)
		}
		seen[n] = true
		if !bytes.Equal(l.Hash, hs[n]) {
			c.Failf("the leaf numbered %d holds %x, want %x", l.PresentationIndex, l.Hash, hs[n])
		}
	})
	nodes, inner := 0, 0
	tree.VisitAllNodes(func(n *weddingcakeback.SingleTreeNode) {
		nodes++
		if n.SlotsNode != nil {
			inner++
		}
	})
	if nodes != tree.CountNodes() || nodes != inner+len(hs) {
		c.Failf("%d nodes are visited, %d of them inner ones, %d counted, of %d hashes", nodes, inner, tree.CountNodes(), len(hs))
	}
	if inner >= len(hs) && len(hs) > 0 {
		c.Failf("%d inner nodes for %d hashes: some do not branch", inner, len(hs))
	}
}

// --- Trees that hold some bytes of each hash, and their written form.

type chunkCase struct {
	Set   treegen.Set `json:"set"`
	Reass int         `json:"reassurance"`
	Specs int         `json:"specs"` // node layouts for each level
	NodeW int         `json:"node_id_bytes"`
	HashW int         `json:"hash_id_bytes"`
	First int64       `json:"first"`
	Probe uint32      `json:"probe"`
}

func nodeIds(w int) weddingcake.NByteIdConfig[weddingcake.NodeIdType] {
	switch w {
	case 2:
		return weddingcake.ID16[weddingcake.NodeIdType]{}
	case 3:
		return weddingcake.ID24[weddingcake.NodeIdType]{}
	}
	return weddingcake.ID32[weddingcake.NodeIdType]{}
}

func hashIds(w int) weddingcake.NByteIdConfig[weddingcake.HashIndexIdType] {
	switch w {
	case 2:
		return weddingcake.ID16[weddingcake.HashIndexIdType]{}
	case 3:
		return weddingcake.ID24[weddingcake.HashIndexIdType]{}
	}
	return weddingcake.ID32[weddingcake.HashIndexIdType]{}
}

func equalBytes(a, b []byte) int {
	n := 0
	for i := range a {
		if a[i] == b[i] {
			n++
		}
	}
	return n
}

func runChunk(c *vt.Ctx, v chunkCase) {
	hs := v.Set.Hashes()
	classes(c, v.Set, hs)
	in := make([]weddingcake.ShallowTreeHash, len(hs))
	mine := copies(hs)
	for i := range hs {
		in[i] = weddingcake.ShallowTreeHash{Hash: mine[i], PresentationIndex: v.First + int64(i)}
	}
	L, R := byte(v.Set.Len), byte(v.Reass)
	c.ClassIf(v.Reass == v.Set.Len, "full verification")
	tree := weddingcake.GenerateShallowTree(in, L, R)
	shape := tree.CountLevelShapes()
	prep := weddingcake.NewChunkPreparation(in, L, R, byte(v.Specs), nodeIds(v.NodeW), hashIds(v.HashW))
	prep.PrepareAndSerialize()
	for i := range hs {
		if !bytes.Equal(in[i].Hash, hs[i]) || in[i].PresentationIndex != v.First+int64(i) {
			c.Failf("making the tree changed what it was made of at %d", i)
		}
	}
	for i := range mine {
		for k := range mine[i] {
			mine[i][k] ^= 0xA5
		}
	}
	chunk := vt.Field[weddingcake.Chunk](prep)
	for i, h := range hs {
		want := v.First + int64(i)
		if got := tree.LookupHash(h); got != want {
			c.Failf("%x is at %d, want %d", h, got, want)
		}
		if got := chunk.LookupHash(h); int64(got) != want {
			c.Failf("%x is at %d in the written form, want %d", h, got, want)
		}
	}
	must := v.Reass // bytes of a match that have been compared
	if len(hs) > 1 && must < v.Set.Len {
		must++
	}
	for _, h := range treegen.Probes(hs, v.Set.Len, 0, v.Probe, 60+len(hs)/4) {
		got, got2 := tree.LookupHash(h), int64(chunk.LookupHash(h))
		if got != got2 {
			c.Failf("%x, not inserted, is at %d in memory and at %d in the written form", h, got, got2)
		}
		if got == weddingcake.ShallowTreeNoMatch {
			c.Class("rejected")
			continue
		}
		c.Class("not inserted but agrees in all the bytes there are")
		if got < v.First || got >= v.First+int64(len(hs)) {
			c.Failf("%x, not inserted, is at %d of %d hashes from %d", h, got, len(hs), v.First)
		}
		if n := equalBytes(h, hs[got-v.First]); n < must {
			c.Failf("%x, not inserted, is at %d though only %d bytes agree and %d are to be compared", h, got, n, must)
		}
	}
	// The shape.
	if tree.HashCount != len(hs) {
		c.Failf("a tree of %d hashes says %d", len(hs), tree.HashCount)
	}
	nodes, leaves, below, greatest := 0, 0, 0, 0
	if len(hs) > 0 {
		below = 1
	}
	for level := 0; level < len(shape.LevelShapes); level++ {
		here, next := 0, 0
		for slots, n := range shape.LevelShapes[level].ActiveSlotCountHistogram {
			here += int(n)
			next += slots * int(n)
			if n > 0 && slots == 1 {
				c.Failf("level %d has %d nodes that do not branch", level, n)
			}
		}
		if here != below {
			c.Failf("level %d has %d nodes, the level above leads to %d", level, here, below)
		}
		if (here > 0) != (level < int(shape.NonEmptyLevels)) {
			c.Failf("level %d has %d nodes of %d levels", level, here, shape.NonEmptyLevels)
		}
		nodes, below = nodes+here, next
		leaves += int(shape.LevelShapes[level].ActiveSlotCountHistogram[0])
		greatest = max(greatest, here)
		for slots, cl := range []string{"", "", "", "", "", "five branches", "six branches"} {
			c.ClassIf(cl != "" && shape.LevelShapes[level].ActiveSlotCountHistogram[slots] > 0, cl)
		}
		c.ClassIf(shape.LevelShapes[level].ActiveSlotCountHistogram[244] > 0, "244 branches")
		c.ClassIf(shape.LevelShapes[level].ActiveSlotCountHistogram[245] > 0, "245 branches")
		c.ClassIf(shape.LevelShapes[level].ActiveSlotCountHistogram[256] > 0, "256 branches")
	}
	c.ClassIf(shape.NonEmptyLevels > 30, "over thirty levels")
	if nodes != tree.CountNodes() || leaves != len(hs) || greatest != int(shape.GreatestNodesPerLevel) {
		c.Failf("%d nodes, %d leaves and at most %d a level are in the shape; the tree has %d nodes and %d hashes, and the shape says %d", nodes, leaves, greatest, tree.CountNodes(), len(hs), shape.GreatestNodesPerLevel)
	}
	// Measuring the same tree for the layout of a tier.
	tld := weddingcake.TreeLayoutDesigner{}
	again := make([]weddingcake.ShallowTreeHash, len(hs))
	for i := range hs {
		again[i] = weddingcake.ShallowTreeHash{Hash: hs[i], PresentationIndex: int64(i)}
	}
	down := 65 - int(shape.NonEmptyLevels)
	if down > 2 {
		down = 2
	}
	tld.RecordSubtreeDistribution(again, chunk.Config, byte(down))
	tld.RecordSubtreeDistribution(nil, chunk.Config, byte(down))
	for level := range tld.Metrics.Levels {
		for slots, n := range tld.Metrics.Levels[level].ActiveSlotHistogram {
			want := weddingcake.NodeCountType(0)
			if level >= down {
				want = shape.LevelShapes[level-down].ActiveSlotCountHistogram[slots]
			}
			if n != want {
				c.Failf("%d nodes of %d branches are measured at level %d, want %d", n, slots, level, want)
			}
		}
	}
}

// --- Identifiers.

type idCase struct {
	Wide  uint64 `json:"id"`
	Fill  byte   `json:"fill"`
	Off   int64  `json:"offset"`
	Count int    `json:"count"`
	Delta int64  `json:"delta"`
}

type codec struct {
	name  string
	width int
	write func([]byte, uint64)
	read  func([]byte) uint64
	size  int
	fits  int // bytes of the underlying type
	tells bool
}

func cake[T weddingcake.IdTypeConstraint](name string, w int, fits int, k weddingcake.NByteIdConfig[T]) codec {
	return codec{name, w, func(b []byte, v uint64) { k.WriteID(b, T(v)) }, func(b []byte) uint64 { return uint64(k.ReadID(b)) }, k.StorageBytes(), fits, false}
}

func back[T weddingcakeback.IdTypeConstraint](name string, w int, fits int, k weddingcakeback.NByteIdConfig[T]) codec {
	return codec{name, w, func(b []byte, v uint64) { k.WriteID(b, T(v)) }, func(b []byte) uint64 { return uint64(k.ReadID(b)) }, k.StorageBytes(), fits, true}
}

var codecs = []codec{
	cake("16 bit node id", 2, 4, weddingcake.NByteIdConfig[weddingcake.NodeIdType](weddingcake.ID16[weddingcake.NodeIdType]{})),
	cake("24 bit node id", 3, 4, weddingcake.NByteIdConfig[weddingcake.NodeIdType](weddingcake.ID24[weddingcake.NodeIdType]{})),
	cake("32 bit node id", 4, 4, weddingcake.NByteIdConfig[weddingcake.NodeIdType](weddingcake.ID32[weddingcake.NodeIdType]{})),
	cake("16 bit hash id", 2, 4, weddingcake.NByteIdConfig[weddingcake.HashIndexIdType](weddingcake.ID16[weddingcake.HashIndexIdType]{})),
	cake("24 bit hash id", 3, 4, weddingcake.NByteIdConfig[weddingcake.HashIndexIdType](weddingcake.ID24[weddingcake.HashIndexIdType]{})),
	cake("32 bit hash id", 4, 4, weddingcake.NByteIdConfig[weddingcake.HashIndexIdType](weddingcake.ID32[weddingcake.HashIndexIdType]{})),
	back("16 bit id of a tier", 2, 8, weddingcakeback.NByteIdConfig[weddingcakeback.NodeIdType](weddingcakeback.ID16[weddingcakeback.NodeIdType]{})),
	back("24 bit id of a tier", 3, 8, weddingcakeback.NByteIdConfig[weddingcakeback.NodeIdType](weddingcakeback.ID24[weddingcakeback.NodeIdType]{})),
	back("32 bit id of a tier", 4, 8, weddingcakeback.NByteIdConfig[weddingcakeback.HashIndexIdType](weddingcakeback.ID32[weddingcakeback.HashIndexIdType]{})),
	back("40 bit id of a tier", 5, 8, weddingcakeback.NByteIdConfig[weddingcakeback.HashIndexIdType](weddingcakeback.ID40[weddingcakeback.HashIndexIdType]{})),
}

func runId(c *vt.Ctx, v idCase) {
	for _, k := range codecs {
		if k.size != k.width {
			c.Failf("a %s takes %d bytes, want %d", k.name, k.size, k.width)
		}
		id := v.Wide & (1<<(8*k.width) - 1)
		if id > 255 {
			c.NonTrivial()
		}
		b := bytes.Repeat([]byte{v.Fill}, k.width+2)
		k.write(b[1:1+k.width], id)
		if b[0] != v.Fill || b[k.width+1] != v.Fill {
			c.Failf("writing the %s %d changed the bytes beside it", k.name, id)
		}
		if got := k.read(b[1 : 1+k.width]); got != id {
			c.Failf("the %s %d is read as %d", k.name, id, got)
		}
		if k.tells && v.Wide > id {
			c.Class("too large an id")
			told := func() (r any) {
				defer func() { r = recover() }()
				k.write(b[1:1+k.width], v.Wide)
				return nil
			}()
			if told == nil {
				c.Failf("the %s %d, too large for %d bytes, is written as %d", k.name, v.Wide, k.width, k.read(b[1:1+k.width]))
			}
		}
	}
	// Numbers of hashes and the ids made of them.
	w := weddingcakeback.GlobalPiType(v.Off + v.Delta)
	off := weddingcakeback.GlobalPiType(v.Off)
	id := weddingcakeback.HashIndexIdFromGlobalPi(w, off)
	if id == weddingcakeback.HashIndexIdNoMatch || weddingcakeback.GlobalPiFromHashIndexId(id, off) != w {
		c.Failf("hash %d from %d has id %d, which is hash %d", w, off, id, weddingcakeback.GlobalPiFromHashIndexId(id, off))
	}
	if id := weddingcakeback.HashIndexIdFromGlobalPi(weddingcakeback.GlobalPiNoMatch, off); id != weddingcakeback.HashIndexIdNoMatch {
		c.Failf("no hash has id %d", id)
	}
	if g := weddingcakeback.GlobalPiFromHashIndexId(weddingcakeback.HashIndexIdNoMatch, off); g != weddingcakeback.GlobalPiNoMatch {
		c.Failf("the id of no hash is hash %d", g)
	}
	st := weddingcakeback.SingleTreePiFromGlobalPi(w)
	if st == weddingcakeback.SingleTreeNoMatch || weddingcakeback.GlobalPiFromSingleTreePi(st) != w {
		c.Failf("hash %d is %d in a tree, which is hash %d", w, st, weddingcakeback.GlobalPiFromSingleTreePi(st))
	}
	if g := weddingcakeback.GlobalPiFromSingleTreePi(weddingcakeback.SingleTreeNoMatch); g != weddingcakeback.GlobalPiNoMatch {
		c.Failf("no match in a tree is hash %d", g)
	}
	if g := weddingcakeback.GlobalPiFromTierTopIndex(weddingcakeback.TierTopIndexFromGlobalPi(w, off), off); g != w {
		c.Failf("hash %d from %d in the top tier is hash %d", w, off, g)
	}
	if in := weddingcakeback.GlobalPiWithinRange(w, off, v.Count); in != (v.Delta < int64(v.Count)) {
		c.Failf("hash %d among %d from %d: %v", w, v.Count, off, in)
	}
	chunk := weddingcake.Chunk{FirstGlobalPresentationIndexOfChunk: weddingcake.GlobalPiType(off)}
	if v.Delta < 1<<32-1 {
		g := weddingcake.GlobalPiType(w)
		hid := chunk.HashIndexIdFromGlobalPresentationIndex(g)
		if hid == weddingcake.HashIndexIdNoMatch || chunk.GlobalPresentationIndexFromHashIndexId(hid) != g {
			c.Failf("hash %d of a chunk from %d has id %d, which is hash %d", w, off, hid, chunk.GlobalPresentationIndexFromHashIndexId(hid))
		}
	}
	if hid := chunk.HashIndexIdFromGlobalPresentationIndex(weddingcake.GlobalPiNoMatch); chunk.GlobalPresentationIndexFromHashIndexId(hid) != weddingcake.GlobalPiNoMatch {
		c.Failf("no hash of a chunk has id %d", hid)
	}
}

func length(t *rapid.T) int {
	switch vt.Pick(t, "len?", 3, 3, 2, 2) {
	case 0:
		return []int{20, 32, 64}[rapid.IntRange(0, 2).Draw(t, "len")]
	case 1:
		return rapid.IntRange(1, 64).Draw(t, "len")
	case 2:
		return rapid.IntRange(1, 4).Draw(t, "len")
	}
	return 64
}

func main() {
	vt.Main("C17",
		vt.New("single", "at least two hashes", 15000, 300000, func(t *rapid.T) singleCase {
			v := singleCase{First: 1, Probe: rapid.Uint32Range(0, 1<<20).Draw(t, "probe")}
			l := length(t)
			p := 0
			if vt.Pick(t, "prefix?", 2, 1) == 1 {
				p = rapid.IntRange(0, min(4, l)).Draw(t, "prefix")
			}
			v.Set = treegen.Draw(t, l, p, 6000)
			v.Reass = rapid.IntRange(0, min(6, l)).Draw(t, "reassurance")
			if vt.Pick(t, "all", 3, 1) == 1 {
				v.Reass = rapid.IntRange(0, l).Draw(t, "reassurance")
			}
			if vt.Pick(t, "from", 2, 1) == 1 {
				v.First = rapid.Uint64Range(1, 1<<40).Draw(t, "first")
			}
			return v
		}, runSingle),
		vt.New("chunk", "at least two hashes", 15000, 300000, func(t *rapid.T) chunkCase {
			l := length(t)
			v := chunkCase{Probe: rapid.Uint32Range(0, 1<<20).Draw(t, "probe"), Set: treegen.Draw(t, l, 0, 6000),
				Specs: 5, NodeW: rapid.IntRange(2, 4).Draw(t, "node"), HashW: rapid.IntRange(2, 4).Draw(t, "hash")}
			if vt.Pick(t, "specs?", 1, 1) == 1 {
				v.Specs = rapid.IntRange(5, 255).Draw(t, "specs")
			}
			v.Reass = rapid.IntRange(0, min(6, l)).Draw(t, "reassurance")
			switch vt.Pick(t, "all", 3, 1, 1) {
			case 1:
				v.Reass = rapid.IntRange(0, l).Draw(t, "reassurance")
			case 2:
				v.Reass = l
			}
			if vt.Pick(t, "from", 2, 1) == 1 {
				v.First = rapid.Int64Range(0, 1<<40).Draw(t, "first")
			}
			return v
		}, runChunk),
		vt.New("big", "every case: over 65535 hashes", 8, 400, func(t *rapid.T) chunkCase {
			l := []int{20, 32, 64}[rapid.IntRange(0, 2).Draw(t, "len")]
			n := rapid.IntRange(65536, 90000).Draw(t, "n")
			return chunkCase{Probe: rapid.Uint32Range(0, 1<<20).Draw(t, "probe"),
				Set:   treegen.Set{Len: l, Max: n, Fams: []treegen.Fam{{Seed: rapid.Uint32Range(2, 99).Draw(t, "seed"), N: n}}},
				Specs: rapid.IntRange(5, 20).Draw(t, "specs"), NodeW: rapid.IntRange(3, 4).Draw(t, "node"), HashW: rapid.IntRange(3, 4).Draw(t, "hash"),
				Reass: rapid.IntRange(0, 4).Draw(t, "reassurance"), First: rapid.Int64Range(0, 1<<40).Draw(t, "first")}
		}, runChunk),
		vt.New("id", "an id of more than one byte", 40000, 8000000, func(t *rapid.T) idCase {
			v := idCase{Fill: byte(rapid.IntRange(0, 255).Draw(t, "fill")), Count: rapid.IntRange(0, 1<<20).Draw(t, "count")}
			if vt.Pick(t, "edge", 1, 1) == 1 {
				v.Wide = uint64(1)<<rapid.IntRange(0, 63).Draw(t, "bit") - uint64(rapid.IntRange(0, 1).Draw(t, "less"))
			} else {
				v.Wide = rapid.Uint64().Draw(t, "id")
			}
			v.Off, v.Delta = rapid.Int64Range(0, 1<<40).Draw(t, "off"), rapid.Int64Range(0, 1<<21).Draw(t, "delta")
			if vt.Pick(t, "far", 3, 1) == 1 {
				v.Delta = rapid.Int64Range(0, 1<<40).Draw(t, "delta")
			}
			return v
		}, runId),
	)
}
