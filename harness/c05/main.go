// C05: the JSON form and the binary form of a block parse to the same block.
package main

import (
	"fmt"

	"verifharness/chaingen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"pgregory.net/rapid"
)

type both struct {
	Chain chaingen.Spec `json:"chain"`
	Reuse bool          `json:"reuse"` // parse into a used block, used by the other form before
	Cut   int           `json:"cut"`   // parse this much of the text first, which must fail
}

func runBoth(c *vt.Ctx, v both) {
	ch := v.Chain.Make()
	ch.Describe(c)
	used := &intrinsicobjects.Block{}
	for i, b := range ch.Blocks {
		var next *chaingen.Block
		if i+1 < len(ch.Blocks) {
			next = ch.Blocks[i+1]
		}
		text := b.JSON(next)
		bin, js := &intrinsicobjects.Block{}, &intrinsicobjects.Block{}
		if v.Reuse {
			js = used
		}
		if v.Cut > 0 {
			if intrinsicobjects.ParseJsonBlock([]byte(text[:len(text)-1-(v.Cut-1)%len(text)]), js) == nil {
				c.Failf("block %d: part of the JSON text is accepted as a block", i)
			}
			c.Class("after a failed attempt")
		}
		c.NoErr(intrinsicobjects.ParseJsonBlock([]byte(text), js), "parse JSON block %d", i)
		intrinsicobjects.ParseBinaryBlock(b.Raw, bin)
		chaingen.CheckBlock(c, "from JSON", js, b, true)
		same(c, b, bin, js)
		if v.Reuse && i%2 == 1 {
			intrinsicobjects.ParseBinaryBlock(b.Raw, used)
		}
		st := intrinsicobjects.NewMultiTransactionStorage()
		for _, t := range b.Txs {
			var x intrinsicobjects.Transaction
			c.NoErr(intrinsicobjects.ParseJsonTransaction([]byte(t.JSON()), &x, st), "parse JSON transaction")
			chaingen.CheckTx(c, "transaction from JSON", &x, st, t, true)
		}
	}
	if len(ch.Txs) > 2 {
		c.NonTrivial()
	}
}

// same compares the two parsed blocks with one another, without the model.
func same(c *vt.Ctx, b *chaingen.Block, x, y *intrinsicobjects.Block) {
	type key struct {
		h, p, m                 [32]byte
		v, t, n, o              uint32
		size, weight, stripped  int
		transactions, txis, txo int
	}
	k := func(b *intrinsicobjects.Block) key {
		return key{b.BlockHash, b.PrevHash, b.MerkleRoot, b.Version, b.Time, b.NBits, b.Nonce, b.Size, b.Weight, b.StrippedSize, len(b.Transactions), len(b.Storage.Txis), len(b.Storage.Txos)}
	}
	if k(x) != k(y) {
		c.Failf("block %d: binary gives %+v, JSON gives %+v", b.Height, k(x), k(y))
	}
	if !chaingen.Near(x.Difficulty, y.Difficulty) {
		c.Failf("block %d: difficulty %v from binary, %v from JSON", b.Height, x.Difficulty, y.Difficulty)
	}
	for i := range x.Transactions {
		if x.Transactions[i] != y.Transactions[i] {
			c.Failf("block %d transaction %d: binary gives %+v, JSON gives %+v", b.Height, i, x.Transactions[i], y.Transactions[i])
		}
	}
	for i := range x.Storage.Txis {
		if x.Storage.Txis[i] != y.Storage.Txis[i] && i > 0 {
			c.Failf("block %d input %d: binary gives %+v, JSON gives %+v", b.Height, i, x.Storage.Txis[i], y.Storage.Txis[i])
		}
	}
	for i := range x.Storage.Txos {
		if x.Storage.Txos[i] != y.Storage.Txos[i] {
			c.Failf("block %d output %d: binary gives %+v, JSON gives %+v", b.Height, i, x.Storage.Txos[i], y.Storage.Txos[i])
		}
	}
	if string(x.Storage.Scripts) != string(y.Storage.Scripts) {
		c.Failf("block %d: scripts differ", b.Height)
	}
}

// amounts, in the notations JSON producers use.
type amount struct {
	V    int64 `json:"v"`
	Step int64 `json:"step"`
	N    int   `json:"n"`
}

func runAmount(c *vt.Ctx, a amount) {
	v := a.V
	for i := 0; i < a.N; i++ {
		for form := 0; form < 3; form++ {
			s := fmt.Sprintf("%d.%08d", v/1e8, v%1e8)
			switch form {
			case 1:
				for s[len(s)-1] == '0' {
					s = s[:len(s)-1]
				}
				if s[len(s)-1] == '.' {
					s = s[:len(s)-1]
				}
			case 2:
				s = fmt.Sprintf("%de-8", v)
			}
			text := `{"txid":"` + chaingen.Rev(chaingen.Hash{1}) + `","version":1,"size":100,"vsize":100,"weight":400,"vin":[],"vout":[{"value":` + s + `,"n":0,"scriptPubKey":{"hex":"51"}}]}`
			st := intrinsicobjects.NewMultiTransactionStorage()
			var x intrinsicobjects.Transaction
			c.NoErr(intrinsicobjects.ParseJsonTransaction([]byte(text), &x, st), "parse")
			if g := x.GetTxo(st, 0).Value; g != v {
				c.Failf("amount %s is %d satoshis", s, g)
			}
		}
		if v += a.Step; v > chaingen.MaxSats {
			v -= chaingen.MaxSats
		}
	}
	if a.N > 3 {
		c.NonTrivial()
	}
}

func main() {
	vt.Main("C05",
		vt.New("both", "at least two blocks' worth of transactions", 3000, 90000, func(t *rapid.T) both {
			v := both{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 4, Long: 14, Wide: true, Dups: true, AnyBits: true, Versions: true}), Reuse: rapid.Bool().Draw(t, "reuse")}
			if vt.Pick(t, "cut?", 3, 1) == 1 {
				v.Cut = 1 + rapid.IntRange(0, 2000).Draw(t, "cut")
			}
			return v
		}, runBoth),
		vt.New("huge", "at least two blocks' worth of transactions", 8, 300, func(t *rapid.T) both {
			return both{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3, AnyBits: true, Versions: true}), Reuse: rapid.Bool().Draw(t, "reuse")}
		}, runBoth),
		vt.New("amounts", "more than three amounts", 3000, 300000, func(t *rapid.T) amount {
			return amount{V: rapid.Int64Range(0, chaingen.MaxSats).Draw(t, "v"), Step: rapid.Int64Range(1, 1e14).Draw(t, "step"), N: rapid.IntRange(1, 60).Draw(t, "n")}
		}, runAmount),
	)
}
