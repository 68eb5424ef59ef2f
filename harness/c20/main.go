// C20: every route through a chain visits the same blocks and transactions.
// A walk is a sequence of moves through the interfaces; a model of the chain
// says where each one leads.
package main

import (
	"fmt"

	"verifharness/chaingen"
	"verifharness/said"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/tinychain"
	"pgregory.net/rapid"
)

// Move is one step: What picks among the routes there are from where the walk is.
type Move struct {
	What int `json:"w"`
	N    int `json:"n"` // which one, where there is a choice
}

func drawMoves(t *rapid.T, small, large int) []Move {
	n := vt.Size(t, "moves", small, large)
	m := make([]Move, n)
	for i := range m {
		m[i] = Move{rapid.IntRange(0, 99).Draw(t, "what"), rapid.IntRange(0, 999).Draw(t, "n")}
	}
	return m
}

type walker struct {
	c    *vt.Ctx
	ch   *chaingen.Chain
	r    storegen.Reader
	tiny bool
	seen map[string]bool
	path []string

	// where the walk is: one of these
	b *chaingen.Block
	t *chaingen.Tx
	i *chaingen.In
	o *chaingen.Out
	a *chaingen.Addr

	hb chainreadinterface.IBlockHandle
	ht chainreadinterface.ITransHandle
	hi chainreadinterface.ITxiHandle
	ho chainreadinterface.ITxoHandle
	ha chainreadinterface.IAddressHandle
}

func (w *walker) failf(f string, args ...any) {
	p := w.path
	if len(p) > 12 {
		p = p[len(p)-12:]
	}
	w.c.Failf("%s\nthe walk's last steps: %v", fmt.Sprintf(f, args...), p)
}

func (w *walker) noErr(err error, f string, args ...any) {
	if err != nil {
		w.failf("%s: %v", fmt.Sprintf(f, args...), err)
	}
}

func (w *walker) step(f string, args ...any) {
	s := fmt.Sprintf(f, args...)
	w.path = append(w.path, s)
}

func (w *walker) route(name string) {
	w.seen[name] = true
	w.c.Class("route: " + name)
}

func (w *walker) clear() { w.b, w.t, w.i, w.o, w.a = nil, nil, nil, nil, nil }

// The at functions arrive somewhere and check that it is the right place.

func (w *walker) atBlock(route string, h chainreadinterface.IBlockHandle, b *chaingen.Block) {
	w.route(route)
	w.step("%s: block %d", route, b.Height)
	w.clear()
	w.b, w.hb = b, h
	if h.IsInvalid() || h.Height() != int64(b.Height) {
		w.failf("%s leads to block %d (invalid: %v), want block %d", route, h.Height(), h.IsInvalid(), b.Height)
	}
	x, err := h.Hash()
	w.noErr(err, "%s: hash of block %d", route, b.Height)
	if x != b.Hash {
		w.failf("%s leads to a block with hash %x, want %x of block %d", route, x, b.Hash, b.Height)
	}
}

func (w *walker) right(route, wrong string) {
	if wrong != "" {
		w.failf("%s: %s", route, wrong)
	}
}

func (w *walker) atTrans(route string, h chainreadinterface.ITransHandle, ts ...int) {
	w.route(route)
	w.step("%s: transaction %v", route, ts)
	t := (*chaingen.Tx)(nil)
	for _, n := range ts {
		if h.Height() == int64(n) {
			t = w.ch.Txs[n]
		}
	}
	if t == nil || h.IsInvalid() {
		w.failf("%s leads to transaction %d (invalid: %v), want transaction %v", route, h.Height(), h.IsInvalid(), ts)
	}
	w.clear()
	w.t, w.ht = t, h
	w.right(route, said.Trans(h, t))
	if w.tiny {
		return
	}
	x, err := h.Hash()
	w.noErr(err, "%s: hash of transaction %d", route, t.Height)
	if x != t.TxId && !(x == storegen.Hash{} && w.ch.ByTxid[t.TxId][0] != t.Height) {
		w.failf("%s leads to a transaction with hash %x, want %x of transaction %d", route, x, t.TxId, t.Height)
	}
}

func (w *walker) atTxi(route string, h chainreadinterface.ITxiHandle, i *chaingen.In) {
	w.route(route)
	w.step("%s: input %d", route, i.Height)
	w.clear()
	w.i, w.hi = i, h
	w.right(route, said.Txi(h, i))
	if !h.TxiHeightSpecified() && !h.ParentSpecified() {
		w.failf("%s leads to an input with neither height nor parent", route)
	}
	if h.TxiHeightSpecified() && h.TxiHeight() != int64(i.Height) {
		w.failf("%s leads to input %d, want input %d", route, h.TxiHeight(), i.Height)
	}
	if k := i.Height - i.Tx.FirstTxi; h.ParentSpecified() && (h.ParentTrans().Height() != int64(i.Tx.Height) || h.ParentIndex() != int64(k)) {
		w.failf("%s leads to input %d of transaction %d, want input %d of transaction %d", route, h.ParentIndex(), h.ParentTrans().Height(), k, i.Tx.Height)
	}
	x, err := w.r.C.TxiInterface(h)
	w.noErr(err, "%s: input %d", route, i.Height)
	w.right(route, said.Txi(x, i))
	s, err := x.SourceTxo()
	w.noErr(err, "%s: source of input %d", route, i.Height)
	w.source(route, s, i)
}

// source finds which output s is.
func (w *walker) source(route string, s chainreadinterface.ITxoHandle, i *chaingen.In) *chaingen.Out {
	if s.ParentSpecified() {
		for _, n := range w.ch.ByTxid[i.Prev] {
			if s.ParentTrans().Height() == int64(n) && s.ParentIndex() == int64(i.VOut) {
				return w.ch.Txs[n].Outs[i.VOut]
			}
		}
		w.failf("%s leads to an input that spends output %d of transaction %d, want output %d of transaction %v", route, s.ParentIndex(), s.ParentTrans().Height(), i.VOut, w.ch.ByTxid[i.Prev])
	}
	for _, n := range w.ch.ByTxid[i.Prev] {
		if o := w.ch.Txs[n].Outs[i.VOut]; s.TxoHeightSpecified() && s.TxoHeight() == int64(o.Height) {
			return o
		}
	}
	w.failf("%s leads to an input that spends output %d (specified: %v), want output %d of transaction %v", route, s.TxoHeight(), s.TxoHeightSpecified(), i.VOut, w.ch.ByTxid[i.Prev])
	return nil
}

func (w *walker) atTxo(route string, h chainreadinterface.ITxoHandle, o *chaingen.Out) {
	w.route(route)
	w.step("%s: output %d", route, o.Height)
	w.clear()
	w.o, w.ho = o, h
	w.right(route, said.Txo(h, o))
	if !h.TxoHeightSpecified() && !h.ParentSpecified() {
		w.failf("%s leads to an output with neither height nor parent", route)
	}
	if h.TxoHeightSpecified() && h.TxoHeight() != int64(o.Height) {
		w.failf("%s leads to output %d, want output %d", route, h.TxoHeight(), o.Height)
	}
	if h.ParentSpecified() && (h.ParentTrans().Height() != int64(o.Tx.Height) || h.ParentIndex() != int64(o.Index)) {
		w.failf("%s leads to output %d of transaction %d, want output %d of transaction %d", route, h.ParentIndex(), h.ParentTrans().Height(), o.Index, o.Tx.Height)
	}
	x, err := w.r.C.TxoInterface(h)
	w.noErr(err, "%s: output %d", route, o.Height)
	w.right(route, said.Txo(x, o))
	v, err := x.Satoshis()
	w.noErr(err, "%s: satoshis of output %d", route, o.Height)
	if v != o.Value {
		w.failf("%s leads to an output of %d satoshis, want %d of output %d of transaction %d", route, v, o.Value, o.Index, o.Tx.Height)
	}
	if !w.tiny {
		a, err := x.Address()
		w.noErr(err, "%s: address of output %d", route, o.Height)
		if a.HeightSpecified() && a.Height() != int64(o.Addr.Height) {
			w.failf("%s leads to an output of address %d, want address %d of output %d", route, a.Height(), o.Addr.Height, o.Height)
		}
	}
}

func (w *walker) atAddr(route string, h chainreadinterface.IAddressHandle, a *chaingen.Addr) {
	w.route(route)
	w.step("%s: address %d", route, a.Height)
	w.clear()
	w.a, w.ha = a, h
	if !h.HeightSpecified() && !h.HashSpecified() {
		w.failf("%s leads to an address with neither height nor hash", route)
	}
	if h.HeightSpecified() && h.Height() != int64(a.Height) {
		w.failf("%s leads to address %d, want address %d", route, h.Height(), a.Height)
	}
	if h.HashSpecified() && h.Hash() != a.Hash {
		w.failf("%s leads to an address with hash %x, want %x of address %d", route, h.Hash(), a.Hash, a.Height)
	}
}

// invalidBlock: the walk has left the chain, and going on backwards stays outside.
func (w *walker) invalidBlock(route string, h chainreadinterface.IBlockHandle) {
	w.route(route)
	if !h.IsInvalid() {
		w.failf("%s leads to block %d, not to an invalid handle", route, h.Height())
	}
	if p := w.r.C.ParentBlock(h); !p.IsInvalid() {
		w.failf("the parent of an invalid block handle is block %d", p.Height())
	}
}

func (w *walker) invalidTrans(route string, h chainreadinterface.ITransHandle) {
	w.route(route)
	if !h.IsInvalid() {
		w.failf("%s leads to transaction %d, not to an invalid handle", route, h.Height())
	}
	if p := w.r.C.PreviousTransaction(h); !p.IsInvalid() {
		w.failf("the transaction before an invalid handle is transaction %d", p.Height())
	}
}

// A move that is possible everywhere.
func (w *walker) jump(m Move) {
	C, H, ch := w.r.C, w.r.H, w.ch
	k := m.What / 10 % 10
	if H == nil && k > 3 {
		k %= 4
	}
	switch k {
	case 0:
		w.atBlock("genesis block", C.GenesisBlock(), ch.Blocks[0])
	case 1:
		h, err := C.LatestBlock()
		w.noErr(err, "latest block")
		w.atBlock("latest block", h, ch.Blocks[len(ch.Blocks)-1])
	case 2:
		h, err := C.GenesisTransaction()
		w.noErr(err, "genesis transaction")
		w.atTrans("genesis transaction", h, 0)
	case 3:
		h, err := C.LatestTransaction()
		w.noErr(err, "latest transaction")
		w.atTrans("latest transaction", h, len(ch.Txs)-1)
	case 4, 5:
		b := ch.Blocks[m.N%len(ch.Blocks)]
		h, err := H.BlockHandleByHeight(int64(b.Height))
		w.noErr(err, "block by height")
		if k == 5 {
			h, err = H.BlockHandleByHash(b.Hash)
			w.noErr(err, "block by hash")
			w.atBlock("block by hash", h, b)
		} else {
			w.atBlock("block by height", h, b)
		}
	case 6, 7:
		t := ch.Txs[m.N%len(ch.Txs)]
		h, err := H.TransactionHandleByHeight(int64(t.Height))
		w.noErr(err, "transaction by height")
		if k == 7 {
			h, err = H.TransactionHandleByHash(t.TxId)
			w.noErr(err, "transaction by hash")
			w.atTrans("transaction by hash", h, ch.ByTxid[t.TxId]...)
		} else {
			w.atTrans("transaction by height", h, t.Height)
		}
	case 8:
		if len(ch.Txis) == 0 {
			return
		}
		i := ch.Txis[m.N%len(ch.Txis)]
		h, err := H.TxiHandleByHeight(int64(i.Height))
		w.noErr(err, "input by height")
		w.atTxi("input by height", h, i)
	default:
		o := ch.Txos[m.N%len(ch.Txos)]
		h, err := H.TxoHandleByHeight(int64(o.Height))
		w.noErr(err, "output by height")
		w.atTxo("output by height", h, o)
	}
}

func (w *walker) blockMove(m Move) {
	C := w.r.C
	switch m.What % 10 {
	case 0, 1: // next
		h, err := C.NextBlock(w.hb)
		w.noErr(err, "block after %d", w.b.Height)
		if w.b.Height == len(w.ch.Blocks)-1 {
			w.invalidBlock("next of the last block", h)
			return
		}
		w.atBlock("next block", h, w.ch.Blocks[w.b.Height+1])
	case 2, 3:
		h := C.ParentBlock(w.hb)
		if w.b.Height == 0 {
			w.invalidBlock("parent of the genesis block", h)
			return
		}
		w.atBlock("parent block", h, w.ch.Blocks[w.b.Height-1])
	case 4, 5, 6:
		x, err := C.BlockInterface(w.hb)
		w.noErr(err, "block %d", w.b.Height)
		n, err := x.TransactionCount()
		w.noErr(err, "transactions of block %d", w.b.Height)
		if n != int64(len(w.b.Txs)) {
			w.failf("block %d has %d transactions, want %d", w.b.Height, n, len(w.b.Txs))
		}
		t := w.b.Txs[m.N%len(w.b.Txs)]
		if m.N%5 == 0 {
			t = w.b.Txs[len(w.b.Txs)-1]
		}
		h, err := x.NthTransaction(int64(t.Index))
		w.noErr(err, "transaction %d of block %d", t.Index, w.b.Height)
		w.atTrans("transaction of a block", h, t.Height)
	case 7:
		x, err := C.BlockInterface(w.hb)
		w.noErr(err, "block %d", w.b.Height)
		w.atBlock("the block itself as a handle", x, w.b)
	default:
		if w.tiny {
			w.jump(m)
			return
		}
		x, err := C.BlockInterface(storegen.HashOnlyBlock(w.b.Hash))
		w.noErr(err, "block by a handle with its hash only")
		w.atBlock("block by a handle with its hash only", x, w.b)
	}
}

func (w *walker) transMove(m Move) {
	C, t := w.r.C, w.t
	x, err := C.TransInterface(w.ht)
	w.noErr(err, "transaction %d", t.Height)
	ins := t.Ins
	if t.Coinbase() {
		ins = nil
	}
	switch m.What % 10 {
	case 0, 1:
		h, err := C.NextTransaction(w.ht)
		w.noErr(err, "transaction after %d", t.Height)
		if t.Height == len(w.ch.Txs)-1 {
			w.invalidTrans("next of the last transaction", h)
			return
		}
		w.atTrans("next transaction", h, t.Height+1)
	case 2, 3:
		h := C.PreviousTransaction(w.ht)
		if t.Height == 0 {
			w.invalidTrans("previous of the genesis transaction", h)
			return
		}
		w.atTrans("previous transaction", h, t.Height-1)
	case 4, 5:
		n, err := x.TxiCount()
		w.noErr(err, "inputs of transaction %d", t.Height)
		if n != int64(len(ins)) {
			w.failf("transaction %d has %d inputs, want %d", t.Height, n, len(ins))
		}
		if n > 0 {
			k := m.N % len(ins)
			if m.N%5 == 0 {
				k = len(ins) - 1
			}
			h, err := x.NthTxi(int64(k))
			w.noErr(err, "input %d of transaction %d", k, t.Height)
			w.atTxi("input of a transaction", h, ins[k])
		}
	case 6:
		n, err := x.TxoCount()
		w.noErr(err, "outputs of transaction %d", t.Height)
		if n != int64(len(t.Outs)) {
			w.failf("transaction %d has %d outputs, want %d", t.Height, n, len(t.Outs))
		}
		if n == 0 {
			return
		}
		k := m.N % len(t.Outs)
		if m.N%5 == 0 {
			k = len(t.Outs) - 1
		}
		h, err := x.NthTxo(int64(k))
		w.noErr(err, "output %d of transaction %d", k, t.Height)
		w.atTxo("output of a transaction", h, t.Outs[k])
	case 7:
		w.atTrans("the transaction itself as a handle", x, t.Height)
	case 8:
		if w.r.P == nil {
			w.jump(m)
			return
		}
		b, err := w.r.P.ParentBlockOfTrans(w.ht.Height())
		w.noErr(err, "block of transaction %d", t.Height)
		h, err := w.r.H.BlockHandleByHeight(b)
		w.noErr(err, "block %d", b)
		w.atBlock("block of a transaction", h, t.Block)
	default:
		if w.tiny {
			w.jump(m)
			return
		}
		x, err := C.TransInterface(storegen.HashOnlyTrans(t.TxId))
		w.noErr(err, "transaction by a handle with its hash only")
		w.atTrans("transaction by a handle with its hash only", x, w.ch.ByTxid[t.TxId]...)
	}
}

// part is a handle of an input or output by its transaction and position only.
type part struct {
	t chainreadinterface.ITransHandle
	k int64
}

func (p *part) ParentTrans() chainreadinterface.ITransHandle { return p.t }
func (p *part) ParentIndex() int64                           { return p.k }
func (p *part) ParentSpecified() bool                        { return true }
func (p *part) TxiHeight() int64                             { return -7 }
func (p *part) TxoHeight() int64                             { return -7 }
func (p *part) TxiHeightSpecified() bool                     { return false }
func (p *part) TxoHeightSpecified() bool                     { return false }
func (p *part) IndicesPath() (int64, int64, int64)           { return -1, -1, -1 }
func (p *part) IndicesPathSpecified() bool                   { return false }

// handle is one of several handles of a transaction.
func (w *walker) handle(t *chaingen.Tx, n int) chainreadinterface.ITransHandle {
	if w.tiny {
		h, err := w.r.C.LatestTransaction()
		for err == nil && h.Height() > int64(t.Height) {
			h = w.r.C.PreviousTransaction(h)
		}
		return h
	}
	if n%3 == 0 && len(w.ch.ByTxid[t.TxId]) == 1 {
		return storegen.HashOnlyTrans(t.TxId)
	}
	h, err := w.r.H.TransactionHandleByHeight(int64(t.Height))
	w.noErr(err, "transaction %d", t.Height)
	return h
}

func (w *walker) txiMove(m Move) {
	C, i := w.r.C, w.i
	x, err := C.TxiInterface(w.hi)
	w.noErr(err, "input %d", i.Height)
	switch m.What % 10 {
	case 0, 1, 2, 3:
		h, err := x.SourceTxo()
		w.noErr(err, "source of input %d", i.Height)
		o := w.source("walk", h, i)
		w.atTxo("source of an input", h, o)
	case 4, 5, 6:
		if w.tiny {
			w.atTrans("transaction of an input", x.ParentTrans(), i.Tx.Height)
			return
		}
		t, err := w.r.P.ParentTransOfTxi(x.TxiHeight())
		w.noErr(err, "transaction of input %d", i.Height)
		h, err := w.r.H.TransactionHandleByHeight(t)
		w.noErr(err, "transaction %d", t)
		w.atTrans("transaction of an input", h, i.Tx.Height)
	case 7:
		w.atTxi("the input itself as a handle", x, i)
	case 8:
		w.jump(m)
	default:
		p := &part{w.handle(i.Tx, m.N), int64(i.Height - i.Tx.FirstTxi)}
		x, err := C.TxiInterface(p)
		w.noErr(err, "input by transaction and position")
		w.atTxi("input by transaction and position", x, i)
	}
}

func (w *walker) txoMove(m Move) {
	C, o := w.r.C, w.o
	x, err := C.TxoInterface(w.ho)
	w.noErr(err, "output %d", o.Height)
	switch m.What % 10 {
	case 0, 1, 2, 3:
		if w.tiny {
			w.atTrans("transaction of an output", x.ParentTrans(), o.Tx.Height)
			return
		}
		t, err := w.r.P.ParentTransOfTxo(x.TxoHeight())
		w.noErr(err, "transaction of output %d", o.Height)
		h, err := w.r.H.TransactionHandleByHeight(t)
		w.noErr(err, "transaction %d", t)
		w.atTrans("transaction of an output", h, o.Tx.Height)
	case 4:
		w.atTxo("the output itself as a handle", x, o)
	case 5, 6:
		p := &part{w.handle(o.Tx, m.N), int64(o.Index)}
		x, err := C.TxoInterface(p)
		w.noErr(err, "output by transaction and position")
		w.atTxo("output by transaction and position", x, o)
	case 7:
		w.jump(m)
	default:
		if w.tiny {
			w.jump(m)
			return
		}
		h, err := x.Address()
		w.noErr(err, "address of output %d", o.Height)
		w.atAddr("address of an output", h, o.Addr)
	}
}

func (w *walker) addrMove(m Move) {
	C, H, a := w.r.C, w.r.H, w.a
	switch m.What % 10 {
	case 0, 1, 2, 3, 4:
		x, err := C.AddressInterface(w.ha)
		w.noErr(err, "address %d", a.Height)
		n, err := x.TxoCount()
		w.noErr(err, "outputs of address %d", a.Height)
		if n != int64(len(a.Txos)) {
			w.failf("address %d has %d outputs, want %d", a.Height, n, len(a.Txos))
		}
		k := m.N % len(a.Txos)
		h, err := x.NthTxo(int64(k))
		w.noErr(err, "output %d of address %d", k, a.Height)
		w.atTxo("output of an address", h, w.ch.Txos[a.Txos[k]])
	case 5:
		h, err := H.AddressHandleByHash(a.Hash)
		w.noErr(err, "address by hash")
		w.atAddr("address by hash", h, a)
	case 6:
		h, err := H.AddressHandleByHeight(int64(a.Height))
		w.noErr(err, "address by height")
		w.atAddr("address by height", h, a)
	case 7:
		w.atAddr("address by a handle with its hash only", storegen.HashOnlyAddress(a.Hash), a)
	case 8:
		x, err := C.AddressInterface(w.ha)
		w.noErr(err, "address %d", a.Height)
		w.atAddr("the address itself as a handle", x, a)
	default:
		w.jump(m)
	}
}

// ends walks the whole chain forwards and backwards.
func (w *walker) ends() {
	C, ch := w.r.C, w.ch
	nb, nt := len(ch.Blocks), len(ch.Txs)
	b, n := C.GenesisBlock(), 0
	var err error
	for ; !b.IsInvalid(); n++ {
		if n == nb {
			w.failf("the walk forwards goes on to block %d after the last one", b.Height())
		}
		w.atBlock("walk forwards", b, ch.Blocks[n])
		b, err = C.NextBlock(b)
		w.noErr(err, "block after %d", n)
	}
	if n != nb {
		w.failf("the walk forwards ends after %d blocks of %d", n, nb)
	}
	if b, err = C.LatestBlock(); err != nil {
		w.failf("latest block: %v", err)
	}
	for n = nb - 1; !b.IsInvalid(); n-- {
		if n < 0 {
			w.failf("the walk backwards goes on to block %d before the first one", b.Height())
		}
		w.atBlock("walk backwards", b, ch.Blocks[n])
		b = C.ParentBlock(b)
	}
	if n >= 0 {
		w.failf("the walk backwards ends at block %d", n+1)
	}
	t, err := C.GenesisTransaction()
	w.noErr(err, "genesis transaction")
	for n = 0; !t.IsInvalid(); n++ {
		if n == nt {
			w.failf("the walk forwards goes on to transaction %d after the last one", t.Height())
		}
		w.atTrans("walk forwards over transactions", t, n)
		t, err = C.NextTransaction(t)
		w.noErr(err, "transaction after %d", n)
	}
	if n != nt {
		w.failf("the walk forwards ends after %d transactions of %d", n, nt)
	}
	if t, err = C.LatestTransaction(); err != nil {
		w.failf("latest transaction: %v", err)
	}
	for n = nt - 1; !t.IsInvalid(); n-- {
		if n < 0 {
			w.failf("the walk backwards goes on to transaction %d before the first one", t.Height())
		}
		w.atTrans("walk backwards over transactions", t, n)
		t = C.PreviousTransaction(t)
	}
	if n >= 0 {
		w.failf("the walk backwards ends at transaction %d", n+1)
	}
	if !C.InvalidBlock().IsInvalid() || !C.InvalidTrans().IsInvalid() || C.IsBlockTree() {
		w.failf("invalid handles or the kind of the chain are misreported")
	}
	w.invalidBlock("invalid block", C.InvalidBlock())
	w.invalidTrans("invalid transaction", C.InvalidTrans())
}

func (w *walker) walk(moves []Move) {
	w.seen = map[string]bool{}
	w.ends()
	w.jump(Move{})
	for _, m := range moves {
		switch {
		case m.What >= 90:
			w.jump(Move{m.N % 100, m.N})
		case w.b != nil:
			w.blockMove(m)
		case w.t != nil:
			w.transMove(m)
		case w.i != nil:
			w.txiMove(m)
		case w.o != nil:
			w.txoMove(m)
		default:
			w.addrMove(m)
		}
	}
	if len(w.seen) >= 12 {
		w.c.NonTrivial()
	}
}

type storedCase struct {
	Chain chaingen.Spec  `json:"chain"`
	Store storegen.Store `json:"store"`
	Main  storegen.Feed  `json:"main"`
	RdRam bool           `json:"rdRam"`
	Live  bool           `json:"live"` // the view of the chain still open for appending
	// Together, if not 0, is how many readers of their own walk at the same time.
	Together int    `json:"together,omitempty"`
	Moves    []Move `json:"moves"`
}

func runStored(c *vt.Ctx, v storedCase) {
	ch := v.Chain.Make()
	ch.Describe(c)
	dir := c.Dir()
	storegen.Gather(c, dir, ch, storegen.Feed{})
	v.Store.Index(c, dir, ch)
	x := v.Store.Begin(c, dir, ch, v.Main)
	for range ch.Blocks {
		x.Append()
	}
	if v.Live {
		c.Class("view of a chain open for appending")
		w := &walker{c: c, ch: ch, r: storegen.Live(c, x.AC)}
		w.walk(v.Moves)
		x.AC.Close()
		return
	}
	x.AC.Close()
	s := v.Store
	s.InRam = v.RdRam
	if v.Together > 0 {
		c.Class("several readers at the same time")
		readers := make([]storegen.Reader, v.Together)
		for i := range readers {
			readers[i] = storegen.Open(c, fmt.Sprintf("reader %d", i), s.Creator(c, dir))
		}
		c.Parallel(v.Together, func(i int, c *vt.Ctx) {
			if i%2 == 1 {
				readers[i].Check(c, fmt.Sprintf("reader %d", i), ch, v.Store, len(ch.Blocks))
			}
			k := i * len(v.Moves) / v.Together
			w := &walker{c: c, ch: ch, r: readers[i]}
			w.walk(append(append([]Move{}, v.Moves[k:]...), v.Moves[:k]...))
		})
		return
	}
	w := &walker{c: c, ch: ch, r: storegen.Open(c, "read back", s.Creator(c, dir))}
	w.walk(v.Moves)
}

// tiny is the built-in sample chain: values of the outputs, and sources of the
// inputs, of its transactions.
var tiny = []struct {
	block int
	ins   [][2]int
	outs  []int64
}{
	{0, nil, []int64{50}},
	{1, nil, []int64{55}},
	{1, [][2]int{{0, 0}}, []int64{20, 25}},
	{2, nil, []int64{50}},
	{2, [][2]int{{5, 0}}, []int64{40}},
	{2, [][2]int{{2, 0}, {2, 1}}, []int64{45}},
}

func tinyModel() *chaingen.Chain {
	ch := &chaingen.Chain{ByTxid: map[chaingen.Hash][]int{}}
	hash := func(n int) chaingen.Hash { return indexedhashes.HashOfInt(uint64(n)) }
	for n, x := range tiny {
		if x.block == len(ch.Blocks) {
			ch.Blocks = append(ch.Blocks, &chaingen.Block{Height: x.block, Hash: hash(x.block)})
		}
		b := ch.Blocks[x.block]
		t := &chaingen.Tx{Height: n, Index: len(b.Txs), Block: b, TxId: hash(n), FirstTxi: len(ch.Txis), FirstTxo: len(ch.Txos)}
		b.Txs = append(b.Txs, t)
		ch.Txs = append(ch.Txs, t)
		ch.ByTxid[t.TxId] = []int{n}
		for _, s := range x.ins {
			i := &chaingen.In{Tx: t, Height: len(ch.Txis), Prev: hash(s[0]), VOut: uint32(s[1])}
			t.Ins, ch.Txis = append(t.Ins, i), append(ch.Txis, i)
		}
		for k, v := range x.outs {
			o := &chaingen.Out{Tx: t, Height: len(ch.Txos), Index: k, Value: v}
			t.Outs, ch.Txos = append(t.Outs, o), append(ch.Txos, o)
		}
	}
	return ch
}

type tinyCase struct {
	Moves []Move `json:"moves"`
}

func runTiny(c *vt.Ctx, v tinyCase) {
	w := &walker{c: c, ch: tinyModel(), tiny: true, r: storegen.Reader{C: tinychain.TheTinyChain}}
	w.walk(v.Moves)
}

func main() {
	vt.Main("C20",
		vt.New("stored", "a walk that takes at least 12 different routes", 700, 30000, func(t *rapid.T) storedCase {
			dups := vt.Pick(t, "dups", 4, 1) == 1
			v := storedCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30, Dups: dups})}
			v.Store = storegen.DrawStore(t, dups)
			v.Main = storegen.DrawFeed(t, 0, false)
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			v.Live = vt.Pick(t, "live", 3, 1) == 1
			v.Moves = drawMoves(t, 60, 400)
			return v
		}, runStored),
		vt.New("huge", "a walk that takes at least 12 different routes", 8, 500, func(t *rapid.T) storedCase {
			dups := vt.Pick(t, "dups", 4, 1) == 1
			v := storedCase{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3, Dups: dups})}
			v.Store = storegen.DrawStore(t, dups)
			v.Store.Big(t)
			v.Main = storegen.DrawFeed(t, 0, false)
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			v.Live = vt.Pick(t, "live", 3, 1) == 1
			v.Moves = drawMoves(t, 60, 400)
			return v
		}, runStored),
		vt.New("readers", "a walk that takes at least 12 different routes", 120, 8000, func(t *rapid.T) storedCase {
			dups := vt.Pick(t, "dups", 4, 1) == 1
			v := storedCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 9, Long: 30, Dups: dups})}
			v.Store = storegen.DrawStore(t, dups)
			v.RdRam = rapid.Bool().Draw(t, "rdRam")
			v.Moves = drawMoves(t, 200, 800)
			v.Together = rapid.IntRange(2, 6).Draw(t, "together")
			return v
		}, runStored),
		vt.New("sample", "a walk that takes at least 12 different routes", 4000, 200000, func(t *rapid.T) tinyCase {
			return tinyCase{Moves: drawMoves(t, 40, 300)}
		}, runTiny),
	)
}
