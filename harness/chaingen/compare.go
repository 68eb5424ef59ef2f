package chaingen

import (
	"bytes"
	"math"

	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
)

// Near compares difficulties, for which only the formula's rounding may differ.
func Near(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-12*math.Abs(b) }

// CheckBlock compares a parsed block with the model. Everything is compared
// except what the JSON form does not carry.
func CheckBlock(c *vt.Ctx, what string, got *intrinsicobjects.Block, want *Block, json bool) {
	h := want.Height
	if got.BlockHash != want.Hash {
		c.Failf("%s: block %d: hash %x, want %x", what, h, got.BlockHash, want.Hash)
	}
	if got.PrevHash != want.Prev {
		c.Failf("%s: block %d: previous hash %x, want %x", what, h, got.PrevHash, want.Prev)
	}
	if got.MerkleRoot != want.Merkle {
		c.Failf("%s: block %d: merkle root %x, want %x", what, h, got.MerkleRoot, want.Merkle)
	}
	num := func(name string, g, w int64) {
		if g != w {
			c.Failf("%s: block %d: %s %d, want %d", what, h, name, g, w)
		}
	}
	num("version", int64(got.Version), int64(want.Version))
	num("time", int64(got.Time), int64(want.Time))
	num("bits", int64(got.NBits), int64(want.Bits))
	num("nonce", int64(got.Nonce), int64(want.Nonce))
	num("size", int64(got.Size), int64(want.Size))
	num("stripped size", int64(got.StrippedSize), int64(want.Stripped))
	num("weight", int64(got.Weight), int64(want.Weight))
	num("number of transactions", int64(len(got.Transactions)), int64(len(want.Txs)))
	if !Near(got.Difficulty, want.Difficulty) {
		c.Failf("%s: block %d: difficulty %v, want %v", what, h, got.Difficulty, want.Difficulty)
	}
	for i := range got.Transactions {
		CheckTx(c, what, &got.Transactions[i], got.Storage, want.Txs[i], json)
	}
}

func CheckTx(c *vt.Ctx, what string, g *intrinsicobjects.Transaction, st *intrinsicobjects.MultiTransactionStorage, w *Tx, json bool) {
	if g.TxId != w.TxId {
		c.Failf("%s: transaction %d/%d: txid %x, want %x", what, w.Block.Height, w.Index, g.TxId, w.TxId)
	}
	num := func(name string, a, b int64) {
		if a != b {
			c.Failf("%s: transaction %d/%d: %s %d, want %d", what, w.Block.Height, w.Index, name, a, b)
		}
	}
	num("version", int64(g.Version), int64(w.Version))
	num("size", int64(g.Size), int64(w.Size))
	num("stripped size", int64(g.StrippedSize), int64(w.Stripped))
	num("weight", int64(g.Weight), int64(w.Weight))
	num("virtual size", int64(g.VSize), int64(w.VSize))
	num("number of inputs", g.TxiCount(), int64(len(w.Ins)))
	num("number of outputs", g.TxoCount(), int64(len(w.Outs)))
	if g.IsSegWit != w.Segwit {
		c.Failf("%s: transaction %d/%d: segwit %v, want %v", what, w.Block.Height, w.Index, g.IsSegWit, w.Segwit)
	}
	for i, in := range w.Ins {
		x := g.GetTxi(st, int64(i))
		if x.TxId != in.Prev || (x.VOut != int64(in.VOut) && !(json && w.Index == 0)) {
			c.Failf("%s: transaction %d/%d: input %d spends %x:%d, want %x:%d", what, w.Block.Height, w.Index, i, x.TxId, x.VOut, in.Prev, in.VOut)
		}
	}
	for i, o := range w.Outs {
		x := g.GetTxo(st, int64(i))
		if x.Value != o.Value {
			c.Failf("%s: transaction %d/%d: output %d has %d satoshis, want %d", what, w.Block.Height, w.Index, i, x.Value, o.Value)
		}
		s := st.Scripts[x.ScriptPubKeyStart:][:x.ScriptPubKeyLen]
		if !bytes.Equal(s, o.Script) {
			c.Failf("%s: transaction %d/%d: output %d has script %x, want %x", what, w.Block.Height, w.Index, i, s, o.Script)
		}
	}
}

// Neis are all the numbers kept about a block.
func (b *Block) Neis() map[string]int64 {
	return map[string]int64{"version": int64(b.Version), "time": int64(b.Time), "mediantime": int64(b.MedianTime), "nonce": int64(b.Nonce),
		"difficulty": int64(math.Round(b.Difficulty)), "size": int64(b.Size), "strippedsize": int64(b.Stripped), "weight": int64(b.Weight)}
}

// Neis are all the numbers kept about a transaction.
func (t *Tx) Neis() map[string]int64 {
	return map[string]int64{"version": int64(t.Version), "size": int64(t.Size), "vsize": int64(t.VSize), "weight": int64(t.Weight), "locktime": int64(t.Lock)}
}

// CheckNeis compares numbers read back with those of names.
func CheckNeis(c *vt.Ctx, what string, got, all map[string]int64, names []string) {
	if len(got) != len(names) {
		c.Failf("%s has numbers %v, want those of %v", what, got, names)
	}
	for _, k := range names {
		g, ok := got[k]
		w := all[k]
		near := k == "difficulty" && math.Abs(float64(g)-float64(w)) <= 1e-12*math.Abs(float64(w))
		if !ok || (g != w && !near) {
			c.Failf("%s: %s is %d (present: %v), want %d", what, k, g, ok, w)
		}
	}
}
