// C04: the binary parser recovers the block that was serialized, by an
// independent serializer, whatever was parsed before or is parsed beside it.
package main

import (
	"bytes"
	"crypto/sha256"
	"sync"

	"verifharness/chaingen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"pgregory.net/rapid"
)

type blocks struct {
	Chain chaingen.Spec `json:"chain"`
	Reuse int           `json:"reuse"` // 0 a target of its own for each block, 1 one target for all, 2 two in turn
	Par   int           `json:"par"`   // parsers at once
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func runBlocks(c *vt.Ctx, v blocks) {
	ch := v.Chain.Make()
	ch.Describe(c)
	parse := func(b *chaingen.Block, target *intrinsicobjects.Block) {
		raw := bytes.Clone(b.Raw)
		intrinsicobjects.ParseBinaryBlock(raw, target)
		if !bytes.Equal(raw, b.Raw) {
			c.Failf("parsing changed the bytes of block %d", b.Height)
		}
		scribble(raw) // the caller may do as it likes with its bytes
	}
	if v.Par > 1 {
		got := make([]intrinsicobjects.Block, len(ch.Blocks))
		var wg sync.WaitGroup
		for p := 0; p < v.Par; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := p; i < len(got); i += v.Par {
					intrinsicobjects.ParseBinaryBlock(ch.Blocks[i].Raw, &got[i])
				}
			}()
		}
		wg.Wait()
		for i := range got {
			chaingen.CheckBlock(c, "parsed in parallel", &got[i], ch.Blocks[i], false)
		}
	} else {
		pool := make([]*intrinsicobjects.Block, len(ch.Blocks))
		for i := range pool {
			switch v.Reuse {
			case 0:
				pool[i] = &intrinsicobjects.Block{}
			default:
				if i < v.Reuse {
					pool[i] = &intrinsicobjects.Block{}
				} else {
					pool[i] = pool[i-v.Reuse]
				}
			}
		}
		for i, b := range ch.Blocks {
			parse(b, pool[i])
			chaingen.CheckBlock(c, "parsed", pool[i], b, false)
		}
		for i, b := range ch.Blocks { // still so when others have been parsed since
			if v.Reuse == 0 || i >= len(ch.Blocks)-v.Reuse {
				chaingen.CheckBlock(c, "looked at later", pool[i], b, false)
			}
		}
	}
	if len(ch.Txs) > 2 {
		c.NonTrivial()
	}
}

// single transactions among other bytes, sharing a storage.
type single struct {
	Chain chaingen.Spec `json:"chain"`
	Pad   int           `json:"pad"`
	Order int           `json:"order"`
	Stir  bool          `json:"stir"` // the hasher has been used
}

func runSingle(c *vt.Ctx, v single) {
	ch := v.Chain.Make()
	ch.Describe(c)
	st := intrinsicobjects.NewMultiTransactionStorage()
	h := sha256.New()
	got := make([]intrinsicobjects.Transaction, len(ch.Txs))
	for k := range ch.Txs {
		i := (k*v.Order + k) % len(ch.Txs)
		if v.Order == 0 {
			i = k
		} else if k > 0 {
			i = len(ch.Txs) - k
		}
		if v.Stir {
			h.Write([]byte("something"))
		}
		buf := append(vt.Body(uint32(k), v.Pad), ch.Txs[i].Raw...)
		buf = append(buf, vt.Body(uint32(k+5), v.Pad)...)
		n := intrinsicobjects.ParseBinaryTransaction(buf, v.Pad, h, &got[i], st)
		if n != ch.Txs[i].Size {
			c.Failf("transaction of %d bytes parsed as %d bytes", ch.Txs[i].Size, n)
		}
	}
	for i := range got {
		chaingen.CheckTx(c, "parsed alone", &got[i], st, ch.Txs[i], false)
	}
	if len(ch.Txs) > 2 {
		c.NonTrivial()
	}
}

// the counts and the difficulty formula.
type parts struct {
	N    uint64 `json:"n"`
	Form int    `json:"form"`
	Off  int    `json:"off"`
	Bits uint32 `json:"bits"`
}

func runParts(c *vt.Ctx, v parts) {
	enc := [][]byte{{byte(v.N)}, {0xfd}, {0xfe}, {0xff}}[v.Form]
	n, width := v.N, []int{0, 2, 4, 8}[v.Form]
	if width < 8 && v.Form > 0 {
		n &= 1<<(8*width) - 1
	}
	if v.Form == 0 {
		n %= 253
		enc[0] = byte(n)
	}
	for i := 0; i < width; i++ {
		enc = append(enc, byte(n>>(8*i)))
	}
	buf := append(vt.Body(7, v.Off), enc...)
	got, used := intrinsicobjects.ReadCompactSize(append(buf, 1, 2, 3), v.Off)
	if got != n || used != len(enc) {
		c.Failf("compact size % x read as %d in %d bytes", enc, got, used)
	}
	if d := intrinsicobjects.CalculateDifficulty(v.Bits); !chaingen.Near(d, chaingen.Difficulty(v.Bits)) {
		c.Failf("difficulty of %08x is %v, want %v", v.Bits, d, chaingen.Difficulty(v.Bits))
	}
	if v.Form > 0 {
		c.NonTrivial()
	}
}

func main() {
	vt.Main("C04",
		vt.New("blocks", "at least two blocks' worth of transactions", 4000, 150000, func(t *rapid.T) blocks {
			b := blocks{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 4, Long: 14, Wide: true, Dups: true, AnyBits: true, Versions: true}), Reuse: rapid.IntRange(0, 2).Draw(t, "reuse"), Par: 1}
			if vt.Pick(t, "par?", 4, 1) == 1 {
				b.Par = rapid.IntRange(2, 6).Draw(t, "par")
			}
			return b
		}, runBlocks),
		vt.New("huge", "at least two blocks' worth of transactions", 8, 300, func(t *rapid.T) blocks {
			return blocks{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3, AnyBits: true, Versions: true}), Reuse: rapid.IntRange(0, 2).Draw(t, "reuse"), Par: 1}
		}, runBlocks),
		vt.New("single", "at least two transactions beside the first", 2000, 60000, func(t *rapid.T) single {
			return single{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 4, Long: 10, Wide: true, Versions: true}),
				Pad: rapid.IntRange(0, 40).Draw(t, "pad"), Order: rapid.IntRange(0, 1).Draw(t, "order"), Stir: rapid.Bool().Draw(t, "stir")}
		}, runSingle),
		vt.New("parts", "the count has more than one byte", 4000, 200000, func(t *rapid.T) parts {
			p := parts{Form: rapid.IntRange(0, 3).Draw(t, "form"), Off: rapid.IntRange(0, 9).Draw(t, "off"),
				Bits: rapid.Uint32Range(3, 0x22).Draw(t, "exp")<<24 | rapid.Uint32Range(1, 0x7fffff).Draw(t, "mant")}
			if rapid.Bool().Draw(t, "edge") {
				p.N = []uint64{0, 1, 252, 253, 254, 255, 256, 0xffff, 0x10000, 0xffffffff, 1 << 32, 1<<64 - 1}[rapid.IntRange(0, 11).Draw(t, "n")]
			} else {
				p.N = rapid.Uint64().Draw(t, "n")
			}
			return p
		}, runParts),
	)
}
