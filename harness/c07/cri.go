package main

import (
	"crypto/sha256"
	"fmt"

	"verifharness/chaingen"
	"verifharness/said"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
)

func right(c *vt.Ctx, wrong string) {
	if wrong != "" {
		c.Failf("%s", wrong)
	}
}

func criBlock(c *vt.Ctx, holder chainreadinterface.IBlockChain, h chainreadinterface.IBlockHandle, b *chaingen.Block) {
	i := b.Height
	x, err := holder.BlockInterface(h)
	c.NoErr(err, "block %d by its handle", i)
	right(c, said.Block(h, b))
	right(c, said.Block(x, b))
	hash, err := x.Hash()
	c.NoErr(err, "hash of block %d", i)
	if hash != b.Hash {
		c.Failf("block %d has hash %x, want %x", i, hash, b.Hash)
	}
	neis, err := x.NonEssentialInts()
	c.NoErr(err, "numbers of block %d", i)
	sameNeis(c, fmt.Sprintf("block %d", i), *neis, blockNeis(b))
	vt.KeepMap(c, fmt.Sprintf("numbers of block %d", i), *neis)
	c.Keep(fmt.Sprintf("block %d", i), func() bool {
		h, err := x.Hash()
		return err == nil && h == b.Hash && said.Block(x, b) == ""
	})
	n, err := x.TransactionCount()
	c.NoErr(err, "count of block %d", i)
	if n != int64(len(b.Txs)) {
		c.Failf("block %d is reported with %d transactions, want %d", i, n, len(b.Txs))
	}
	for n, t := range b.Txs {
		what := fmt.Sprintf("transaction %d/%d", i, n)
		th, err := x.NthTransaction(int64(n))
		c.NoErr(err, "%s", what)
		tx, err := holder.TransInterface(th)
		c.NoErr(err, "%s by its handle", what)
		hash, err := tx.Hash()
		c.NoErr(err, "hash of %s", what)
		if hash != t.TxId || th.IsInvalid() {
			c.Failf("%s has hash %x, want %x", what, hash, t.TxId)
		}
		right(c, said.Trans(th, t))
		right(c, said.Trans(tx, t))
		neis, err := tx.NonEssentialInts()
		c.NoErr(err, "numbers of %s", what)
		sameNeis(c, what, *neis, txNeis(t))
		vt.KeepMap(c, "numbers of "+what, *neis)
		c.Keep(what, func() bool {
			h, err := tx.Hash()
			g, bad := th.Hash()
			return err == nil && bad == nil && h == t.TxId && g == t.TxId
		})
		ins := t.Ins
		if t.Coinbase() {
			ins = nil
		}
		ni, err := tx.TxiCount()
		c.NoErr(err, "inputs of %s", what)
		no, err := tx.TxoCount()
		c.NoErr(err, "outputs of %s", what)
		if ni != int64(len(ins)) || no != int64(len(t.Outs)) {
			c.Failf("%s is reported with %d inputs and %d outputs, want %d and %d", what, ni, no, len(ins), len(t.Outs))
		}
		sats, err := tx.AllTxoSatoshis()
		c.NoErr(err, "satoshis of %s", what)
		vt.KeepSlice(c, "satoshis of "+what, sats)
		if len(sats) != len(t.Outs) {
			c.Failf("%s is reported with %d values, want %d", what, len(sats), len(t.Outs))
		}
		for k, in := range ins {
			ih, err := tx.NthTxi(int64(k))
			c.NoErr(err, "input %d of %s", k, what)
			txi, err := holder.TxiInterface(ih)
			c.NoErr(err, "input %d of %s by its handle", k, what)
			right(c, said.Txi(ih, in))
			right(c, said.Txi(txi, in))
			src, err := txi.SourceTxo()
			c.NoErr(err, "source of input %d of %s", k, what)
			sh, err := src.ParentTrans().Hash()
			c.NoErr(err, "source of input %d of %s", k, what)
			if sh != in.Prev || src.ParentIndex() != int64(in.VOut) {
				c.Failf("input %d of %s spends %x:%d, want %x:%d", k, what, sh, src.ParentIndex(), in.Prev, in.VOut)
			}
			if ph, err := ih.ParentTrans().Hash(); err != nil || ph != t.TxId || ih.ParentIndex() != int64(k) {
				c.Failf("input %d of %s says it is input %d of %x (%v)", k, what, ih.ParentIndex(), ph, err)
			}
		}
		for k, o := range t.Outs {
			oh, err := tx.NthTxo(int64(k))
			c.NoErr(err, "output %d of %s", k, what)
			txo, err := holder.TxoInterface(oh)
			c.NoErr(err, "output %d of %s by its handle", k, what)
			right(c, said.Txo(oh, o))
			right(c, said.Txo(txo, o))
			v, err := txo.Satoshis()
			c.NoErr(err, "satoshis of output %d of %s", k, what)
			if v != o.Value || sats[k] != o.Value {
				c.Failf("output %d of %s has %d (in the list %d) satoshis, want %d", k, what, v, sats[k], o.Value)
			}
			ah, err := txo.Address()
			c.NoErr(err, "address of output %d of %s", k, what)
			a, err := holder.AddressInterface(ah)
			c.NoErr(err, "address of output %d of %s by its handle", k, what)
			if want := sha256.Sum256(o.Script); ah.Hash() != want || a.Hash() != want {
				c.Failf("output %d of %s has address %x (%x), want %x", k, what, ah.Hash(), a.Hash(), want)
			}
			if ph, err := oh.ParentTrans().Hash(); err != nil || ph != t.TxId || oh.ParentIndex() != int64(k) {
				c.Failf("output %d of %s says it is output %d of %x (%v)", k, what, oh.ParentIndex(), ph, err)
			}
		}
	}
	c.CheckKept() // the holder holds one block
}
