// Package said compares what handles and items say of themselves with the model:
// whatever they say they know must be right.
package said

import (
	"fmt"

	"verifharness/chaingen"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
)

// Block returns what is wrong with what h says, or "".
func Block(h chainreadinterface.IBlockHandle, b *chaingen.Block) string {
	if h.HeightSpecified() && h.Height() != int64(b.Height) {
		return fmt.Sprintf("block %d says it is block %d", b.Height, h.Height())
	}
	if h.IsInvalid() {
		return fmt.Sprintf("block %d says it is invalid", b.Height)
	}
	return ""
}

func Trans(h chainreadinterface.ITransHandle, t *chaingen.Tx) string {
	if h.HeightSpecified() && h.Height() != int64(t.Height) {
		return fmt.Sprintf("transaction %d says it is transaction %d", t.Height, h.Height())
	}
	if h.IndicesPathSpecified() {
		if b, n := h.IndicesPath(); b != int64(t.Block.Height) || n != int64(t.Index) {
			return fmt.Sprintf("transaction %d of block %d says it is transaction %d of block %d", t.Index, t.Block.Height, n, b)
		}
	}
	if h.IsInvalid() {
		return fmt.Sprintf("transaction %d says it is invalid", t.Height)
	}
	return ""
}

func Txi(h chainreadinterface.ITxiHandle, i *chaingen.In) string {
	k := int64(i.Height - i.Tx.FirstTxi)
	if h.TxiHeightSpecified() && h.TxiHeight() != int64(i.Height) {
		return fmt.Sprintf("input %d says it is input %d", i.Height, h.TxiHeight())
	}
	if h.IndicesPathSpecified() {
		if b, n, v := h.IndicesPath(); b != int64(i.Tx.Block.Height) || n != int64(i.Tx.Index) || v != k {
			return fmt.Sprintf("input %d/%d/%d says it is input %d/%d/%d", i.Tx.Block.Height, i.Tx.Index, k, b, n, v)
		}
	}
	if h.ParentSpecified() {
		if h.ParentIndex() != k {
			return fmt.Sprintf("input %d of transaction %d says it is its input %d", k, i.Tx.Height, h.ParentIndex())
		}
		return Trans(h.ParentTrans(), i.Tx)
	}
	return ""
}

func Txo(h chainreadinterface.ITxoHandle, o *chaingen.Out) string {
	if h.TxoHeightSpecified() && h.TxoHeight() != int64(o.Height) {
		return fmt.Sprintf("output %d says it is output %d", o.Height, h.TxoHeight())
	}
	if h.IndicesPathSpecified() {
		if b, n, v := h.IndicesPath(); b != int64(o.Tx.Block.Height) || n != int64(o.Tx.Index) || v != int64(o.Index) {
			return fmt.Sprintf("output %d/%d/%d says it is output %d/%d/%d", o.Tx.Block.Height, o.Tx.Index, o.Index, b, n, v)
		}
	}
	if h.ParentSpecified() {
		if h.ParentIndex() != int64(o.Index) {
			return fmt.Sprintf("output %d of transaction %d says it is its output %d", o.Index, o.Tx.Height, h.ParentIndex())
		}
		return Trans(h.ParentTrans(), o.Tx)
	}
	return ""
}
