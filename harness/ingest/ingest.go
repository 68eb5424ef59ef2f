// Package ingest draws how a chain is fetched from a node.
package ingest

import (
	"verifharness/chaingen"
	"verifharness/fakenode"
	"verifharness/storegen"
	"verifharness/vt"

	"pgregory.net/rapid"
)

// Phase is how one phase runs.
type Phase struct {
	Chi     bool            `json:"chi"`
	Json    bool            `json:"json"`
	Threads int             `json:"threads"`
	Timing  fakenode.Timing `json:"timing"`
}

// Case is a chain put into a store through the two phases that ask the node.
type Case struct {
	Chain chaingen.Spec  `json:"chain"`
	Pad   int            `json:"pad"`   // plain blocks at the end
	Less  int            `json:"less"`  // blocks of the chain that are not asked for, at least one
	Limit int            `json:"limit"` // blocks that the third phase leaves out
	Store storegen.Store `json:"store"`
	P1    Phase          `json:"p1"`
	P3    Phase          `json:"p3"`
}

// DrawPhase gives a phase that asks for so many blocks.
func DrawPhase(t *rapid.T, blocks int, slow bool) Phase {
	p := Phase{Chi: rapid.Bool().Draw(t, "chi"), Json: vt.Pick(t, "json", 2, 1) == 1}
	p.Threads = []int{1, 2, 3, 4, 8, 16, 40, 150}[vt.Pick(t, "threads", 2, 3, 3, 3, 3, 2, 1, 1)]
	p.Timing.Kind = vt.Pick(t, "timing", 1, 3, 3, 2, 3)
	p.Timing.Seed = rapid.IntRange(0, 1000).Draw(t, "seed")
	p.Timing.Which = rapid.IntRange(0, max(0, blocks-1)).Draw(t, "which")
	if vt.Pick(t, "faults", 1, 2) == 1 {
		for k := vt.Size(t, "nfaults", 3, 20); k > 0; k-- {
			f := fakenode.Fault{Block: rapid.IntRange(0, max(0, blocks-1)).Draw(t, "fb")}
			for n := rapid.IntRange(1, 2).Draw(t, "fn"); n > 0; n-- {
				f.Kinds = append(f.Kinds, rapid.IntRange(0, 8).Draw(t, "fk"))
			}
			p.Timing.Fails = append(p.Timing.Fails, f)
		}
	}
	for i, f := range p.Timing.Fails { // one fault per block
		for _, g := range p.Timing.Fails[:i] {
			if g.Block == f.Block {
				p.Timing.Fails[i].Kinds = nil
			}
		}
	}
	return p
}

// Chains is the chain served and the part of it asked for.
func (v Case) Chains() (full, part *chaingen.Chain) {
	s := v.Chain
	for i := 0; i < v.Pad || len(s.Blocks) == 0; i++ {
		s.Blocks = append(s.Blocks[:len(s.Blocks):len(s.Blocks)], chaingen.BlockSpec{Ver: 1, Step: 600, Bits: 0x1d00ffff, Nonce: uint32(i),
			Txs: []chaingen.TxSpec{{Ver: 1, Ins: []chaingen.InSpec{{Sig: 8}}, Outs: []chaingen.OutSpec{{Val: 50_0000_0000, Scr: i % 50, Len: 25}}}}})
	}
	full = s.Make()
	n := max(1, len(full.Blocks)-max(1, v.Less))
	s.Blocks = s.Blocks[:n-1]
	part = s.Make()
	if len(part.Blocks) != n || part.Blocks[n-1].Hash != full.Blocks[n-1].Hash {
		vt.Harnessf("the first %d blocks of the chain are not the chain of the first %d blocks", n, n)
	}
	return
}
