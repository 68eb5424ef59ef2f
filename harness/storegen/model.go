package storegen

import (
	"errors"

	"verifharness/chaingen"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
)

// Model presents a generated chain through the object-style interface, with
// handles that carry as much or as little as its settings say.
type Model struct {
	Ch      *chaingen.Chain
	Heights bool // handles carry heights
	Paths   bool // transaction handles carry block and position
	Sources int  // how inputs name their source transaction: 0 height, 1 block and position, 2 hash
}

var _ chainreadinterface.IBlockChain = (*Model)(nil)

var errModel = errors.New("no such thing in the model")

type mBlock struct {
	m *Model
	b *chaingen.Block // nil: invalid
}

type mTrans struct {
	m       *Model
	t       *chaingen.Tx
	heights bool
	paths   bool
	hash    bool
}

type mTxi struct {
	m *Model
	x *chaingen.In
	n int64
}

type mTxo struct {
	m *Model
	x *chaingen.Out
}

type mSource struct {
	m *Model
	x *chaingen.In
}

type mAddr struct {
	m *Model
	a *chaingen.Addr
}

func (h *mBlock) Height() int64 {
	if h.b == nil || !h.m.Heights {
		return -1
	}
	return int64(h.b.Height)
}
func (h *mBlock) Hash() (indexedhashes.Sha256, error) { return h.b.Hash, nil }
func (h *mBlock) HeightSpecified() bool               { return h.m.Heights }
func (h *mBlock) HashSpecified() bool                 { return true }
func (h *mBlock) IsBlockHandle()                      {}
func (h *mBlock) IsInvalid() bool                     { return h.b == nil }
func (h *mBlock) TransactionCount() (int64, error)    { return int64(len(h.b.Txs)), nil }
func (h *mBlock) NthTransaction(n int64) (chainreadinterface.ITransHandle, error) {
	return h.m.trans(h.b.Txs[n]), nil
}
func (h *mBlock) NonEssentialInts() (*map[string]int64, error) {
	m := h.b.Neis()
	return &m, nil
}

func (m *Model) trans(t *chaingen.Tx) *mTrans { return &mTrans{m, t, m.Heights, m.Paths, true} }

func (h *mTrans) Height() int64 {
	if h.t == nil || !h.heights {
		return -1
	}
	return int64(h.t.Height)
}
func (h *mTrans) Hash() (indexedhashes.Sha256, error) { return h.t.TxId, nil }
func (h *mTrans) HeightSpecified() bool               { return h.heights }
func (h *mTrans) HashSpecified() bool                 { return h.hash }
func (h *mTrans) IndicesPath() (int64, int64) {
	if !h.paths {
		return -1, -1
	}
	return int64(h.t.Block.Height), int64(h.t.Index)
}
func (h *mTrans) IndicesPathSpecified() bool { return h.paths }
func (h *mTrans) IsTransHandle()             {}
func (h *mTrans) IsInvalid() bool            { return h.t == nil }
func (h *mTrans) TxiCount() (int64, error) {
	if h.t.Coinbase() {
		return 0, nil
	}
	return int64(len(h.t.Ins)), nil
}
func (h *mTrans) NthTxi(n int64) (chainreadinterface.ITxiHandle, error) {
	return &mTxi{h.m, h.t.Ins[n], n}, nil
}
func (h *mTrans) TxoCount() (int64, error) { return int64(len(h.t.Outs)), nil }
func (h *mTrans) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) {
	return &mTxo{h.m, h.t.Outs[n]}, nil
}
func (h *mTrans) AllTxoSatoshis() (r []int64, err error) {
	for _, o := range h.t.Outs {
		r = append(r, o.Value)
	}
	return
}
func (h *mTrans) NonEssentialInts() (*map[string]int64, error) {
	m := h.t.Neis()
	return &m, nil
}

func (h *mTxi) ParentTrans() chainreadinterface.ITransHandle { return h.m.trans(h.x.Tx) }
func (h *mTxi) ParentIndex() int64                           { return h.n }
func (h *mTxi) TxiHeight() int64 {
	if !h.m.Heights {
		return -1
	}
	return int64(h.x.Height)
}
func (h *mTxi) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (h *mTxi) ParentSpecified() bool              { return true }
func (h *mTxi) TxiHeightSpecified() bool           { return h.m.Heights }
func (h *mTxi) IndicesPathSpecified() bool         { return false }
func (h *mTxi) SourceTxo() (chainreadinterface.ITxoHandle, error) {
	return &mSource{h.m, h.x}, nil
}

func (h *mSource) ParentTrans() chainreadinterface.ITransHandle {
	t := h.m.Ch.Txs[h.m.Ch.ByTxid[h.x.Prev][0]]
	return &mTrans{h.m, t, h.m.Sources == 0, h.m.Sources == 1, h.m.Sources == 2}
}
func (h *mSource) ParentIndex() int64                 { return int64(h.x.VOut) }
func (h *mSource) TxoHeight() int64                   { return -1 }
func (h *mSource) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (h *mSource) ParentSpecified() bool              { return true }
func (h *mSource) TxoHeightSpecified() bool           { return false }
func (h *mSource) IndicesPathSpecified() bool         { return false }

func (h *mTxo) ParentTrans() chainreadinterface.ITransHandle { return h.m.trans(h.x.Tx) }
func (h *mTxo) ParentIndex() int64                           { return int64(h.x.Index) }
func (h *mTxo) TxoHeight() int64 {
	if !h.m.Heights {
		return -1
	}
	return int64(h.x.Height)
}
func (h *mTxo) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (h *mTxo) ParentSpecified() bool              { return true }
func (h *mTxo) TxoHeightSpecified() bool           { return h.m.Heights }
func (h *mTxo) IndicesPathSpecified() bool         { return false }
func (h *mTxo) Satoshis() (int64, error)           { return h.x.Value, nil }
func (h *mTxo) Address() (chainreadinterface.IAddressHandle, error) {
	return &mAddr{h.m, h.x.Addr}, nil
}

func (h *mAddr) Height() int64              { return -1 }
func (h *mAddr) Hash() indexedhashes.Sha256 { return h.a.Hash }
func (h *mAddr) HeightSpecified() bool      { return false }
func (h *mAddr) HashSpecified() bool        { return true }
func (h *mAddr) TxoCount() (int64, error)   { return 0, errModel }
func (h *mAddr) NthTxo(int64) (chainreadinterface.ITxoHandle, error) {
	return nil, errModel
}

func (m *Model) Block(i int) chainreadinterface.IBlockHandle {
	if i < 0 || i >= len(m.Ch.Blocks) {
		return m.InvalidBlock()
	}
	return &mBlock{m, m.Ch.Blocks[i]}
}
func (m *Model) Trans(i int) chainreadinterface.ITransHandle {
	if i < 0 || i >= len(m.Ch.Txs) {
		return m.InvalidTrans()
	}
	return m.trans(m.Ch.Txs[i])
}
func (m *Model) InvalidBlock() chainreadinterface.IBlockHandle { return &mBlock{m, nil} }
func (m *Model) InvalidTrans() chainreadinterface.ITransHandle { return &mTrans{m: m} }
func (m *Model) GenesisBlock() chainreadinterface.IBlockHandle { return m.Block(0) }
func (m *Model) ParentBlock(h chainreadinterface.IBlockHandle) chainreadinterface.IBlockHandle {
	return m.Block(h.(*mBlock).b.Height - 1)
}
func (m *Model) GenesisTransaction() (chainreadinterface.ITransHandle, error) { return m.Trans(0), nil }
func (m *Model) PreviousTransaction(h chainreadinterface.ITransHandle) chainreadinterface.ITransHandle {
	return m.Trans(h.(*mTrans).t.Height - 1)
}
func (m *Model) IsBlockTree() bool { return false }
func (m *Model) BlockInterface(h chainreadinterface.IBlockHandle) (chainreadinterface.IBlock, error) {
	return h.(*mBlock), nil
}
func (m *Model) TransInterface(h chainreadinterface.ITransHandle) (chainreadinterface.ITransaction, error) {
	return h.(*mTrans), nil
}
func (m *Model) TxiInterface(h chainreadinterface.ITxiHandle) (chainreadinterface.ITxi, error) {
	return h.(*mTxi), nil
}
func (m *Model) TxoInterface(h chainreadinterface.ITxoHandle) (chainreadinterface.ITxo, error) {
	if x, ok := h.(*mTxo); ok {
		return x, nil
	}
	return nil, errModel
}
func (m *Model) AddressInterface(h chainreadinterface.IAddressHandle) (chainreadinterface.IAddress, error) {
	return h.(*mAddr), nil
}
func (m *Model) LatestBlock() (chainreadinterface.IBlockHandle, error) {
	return m.Block(len(m.Ch.Blocks) - 1), nil
}
func (m *Model) NextBlock(h chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
	return m.Block(h.(*mBlock).b.Height + 1), nil
}
func (m *Model) LatestTransaction() (chainreadinterface.ITransHandle, error) {
	return m.Trans(len(m.Ch.Txs) - 1), nil
}
func (m *Model) NextTransaction(h chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
	return m.Trans(h.(*mTrans).t.Height + 1), nil
}
