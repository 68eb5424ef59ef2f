package storegen

import (
	"strconv"

	"verifharness/chaingen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/wordfile"
)

// Reader is a store opened for reading.
type Reader struct {
	C chainreadinterface.IBlockChain
	H chainreadinterface.IHandleCreator
	P chainstorage.IParents
	F chainstorage.IPrivilegedFiles
}

func Open(c *vt.Ctx, what string, cr *chainstorage.ConcreteAppendableChainCreator) Reader {
	ch, h, p, f, err := cr.OpenReadOnly()
	c.NoErr(err, "%s: open read-only", what)
	return Reader{ch, h, p, f}
}

// Live is the appendable chain's own view.
func Live(c *vt.Ctx, ac chainstorage.IAppendableChain) Reader {
	ch := ac.GetAsChainReadInterface()
	r := Reader{C: ch}
	r.H, _ = ch.(chainreadinterface.IHandleCreator)
	r.P, _ = ch.(chainstorage.IParents)
	r.F, _ = ch.(chainstorage.IPrivilegedFiles)
	return r
}

// oneOf accepts the model's height of a hash, or any of them when it is repeated.
func oneOf(hs []int, got int64) bool {
	for _, h := range hs {
		if int64(h) == got {
			return true
		}
	}
	return false
}

// hashOK: the later places of a repeated hash may read as zeros (binbytes.go says so).
func hashOK(ch *chaingen.Chain, t *chaingen.Tx, got Hash) bool {
	return got == t.TxId || (got == Hash{} && ch.ByTxid[t.TxId][0] != t.Height)
}

// Check compares everything the reader says with the chain, of which the
// first upto blocks have been appended (all the hashes have been indexed).
func (r Reader) Check(c *vt.Ctx, what string, ch *chaingen.Chain, s Store, upto int) {
	total := len(ch.Blocks)
	nTx, nTxi, nTxo := 0, 0, 0
	if upto > 0 {
		b := ch.Blocks[upto-1]
		last := b.Txs[len(b.Txs)-1]
		nTx = last.Height + 1
		nTxi, nTxo = last.FirstTxi, last.FirstTxo+len(last.Outs)
		if !last.Coinbase() {
			nTxi += len(last.Ins)
		}
	}
	lb, err := r.C.LatestBlock()
	c.NoErr(err, "%s: latest block", what)
	if lb.Height() != int64(total-1) || lb.IsInvalid() {
		c.Failf("%s: the latest block is %d of %d", what, lb.Height(), total)
	}
	lt, err := r.C.LatestTransaction()
	c.NoErr(err, "%s: latest transaction", what)
	if lt.Height() != int64(len(ch.Txs)-1) || lt.IsInvalid() {
		c.Failf("%s: the latest transaction is %d of %d", what, lt.Height(), len(ch.Txs))
	}
	for i := 0; i < upto; i++ {
		r.block(c, what, ch, s, ch.Blocks[i], i < upto-1 || upto == total)
	}
	if r.F != nil {
		r.files(c, what, ch, nTx, nTxi, nTxo)
	}
	r.addresses(c, what, ch, nTxo)
	r.absent(c, what, ch)
	if upto == total {
		r.beyond(c, what, ch, nTx, nTxi, nTxo)
	}
}

func (r Reader) block(c *vt.Ctx, what string, ch *chaingen.Chain, s Store, b *chaingen.Block, closed bool) {
	i := b.Height
	bh := chainreadinterface.IBlockHandle(nil)
	if r.H != nil {
		var err error
		bh, err = r.H.BlockHandleByHash(b.Hash)
		c.NoErr(err, "%s: handle of block %d by its hash", what, i)
		if bh.Height() != int64(i) || bh.IsInvalid() {
			c.Failf("%s: the hash of block %d leads to block %d", what, i, bh.Height())
		}
		x, err := r.C.BlockInterface(bh)
		c.NoErr(err, "%s: block %d by its hash", what, i)
		if x.Height() != int64(i) {
			c.Failf("%s: the hash of block %d leads to block %d", what, i, x.Height())
		}
		h, err := bh.Hash()
		c.NoErr(err, "%s: hash of the handle of block %d", what, i)
		if h != b.Hash {
			c.Failf("%s: the handle of block %d by hash %x has hash %x", what, i, b.Hash, h)
		}
		bh, err = r.H.BlockHandleByHeight(int64(i))
		c.NoErr(err, "%s: handle of block %d", what, i)
	} else if i == 0 {
		bh = r.C.GenesisBlock()
	} else {
		bh = HashOnlyBlock(b.Hash)
	}
	x, err := r.C.BlockInterface(bh)
	c.NoErr(err, "%s: block %d", what, i)
	h, err := x.Hash()
	c.NoErr(err, "%s: hash of block %d", what, i)
	if h != b.Hash || x.Height() != int64(i) || x.IsInvalid() {
		c.Failf("%s: block %d is given as block %d with hash %x, want %x", what, i, x.Height(), h, b.Hash)
	}
	neis, err := x.NonEssentialInts()
	c.NoErr(err, "%s: numbers of block %d", what, i)
	chaingen.CheckNeis(c, what+": block "+strconv.Itoa(i), *neis, b.Neis(), s.Blk)
	vt.KeepMap(c, what+": numbers of block "+strconv.Itoa(i), *neis)
	c.Keep(what+": block "+strconv.Itoa(i), func() bool { return x.Height() == int64(i) && !x.IsInvalid() && bh.IsInvalid() == x.IsInvalid() })
	if closed {
		n, err := x.TransactionCount()
		c.NoErr(err, "%s: transactions of block %d", what, i)
		if n != int64(len(b.Txs)) {
			c.Failf("%s: block %d has %d transactions, want %d", what, i, n, len(b.Txs))
		}
	}
	for k, t := range b.Txs {
		th, err := x.NthTransaction(int64(k))
		c.NoErr(err, "%s: transaction %d/%d", what, i, k)
		if th.Height() != int64(t.Height) {
			c.Failf("%s: transaction %d of block %d is transaction %d of the chain, want %d", what, k, i, th.Height(), t.Height)
		}
		tx, err := r.C.TransInterface(th)
		c.NoErr(err, "%s: transaction %d", what, t.Height)
		r.trans(c, what, ch, s, t, tx, closed || k < len(b.Txs)-1)
	}
}

func (r Reader) trans(c *vt.Ctx, what string, ch *chaingen.Chain, s Store, t *chaingen.Tx, tx chainreadinterface.ITransaction, closed bool) {
	n := t.Height
	hash, err := tx.Hash()
	c.NoErr(err, "%s: hash of transaction %d", what, n)
	if !hashOK(ch, t, hash) || tx.Height() != int64(n) || tx.IsInvalid() {
		c.Failf("%s: transaction %d is given as %d with hash %x, want %x", what, n, tx.Height(), hash, t.TxId)
	}
	if r.H != nil {
		th, err := r.H.TransactionHandleByHash(t.TxId)
		c.NoErr(err, "%s: transaction %d by its hash", what, n)
		if !oneOf(ch.ByTxid[t.TxId], th.Height()) {
			c.Failf("%s: the hash of transaction %d leads to transaction %d", what, n, th.Height())
		}
		h, err := th.Hash()
		c.NoErr(err, "%s: hash of the handle of transaction %d", what, n)
		if h != t.TxId && len(ch.ByTxid[t.TxId]) == 1 {
			c.Failf("%s: the handle of transaction %d by hash %x has hash %x", what, n, t.TxId, h)
		}
	}
	neis, err := tx.NonEssentialInts()
	c.NoErr(err, "%s: numbers of transaction %d", what, n)
	chaingen.CheckNeis(c, what+": transaction "+strconv.Itoa(n), *neis, t.Neis(), s.Trn)
	ins := t.Ins
	if t.Coinbase() {
		ins = nil
	}
	if closed {
		ni, err := tx.TxiCount()
		c.NoErr(err, "%s: inputs of transaction %d", what, n)
		no, err := tx.TxoCount()
		c.NoErr(err, "%s: outputs of transaction %d", what, n)
		if ni != int64(len(ins)) || no != int64(len(t.Outs)) {
			c.Failf("%s: transaction %d has %d inputs and %d outputs, want %d and %d", what, n, ni, no, len(ins), len(t.Outs))
		}
	}
	vt.KeepMap(c, what+": numbers of transaction "+strconv.Itoa(n), *neis)
	c.Keep(what+": transaction "+strconv.Itoa(n), func() bool { return tx.Height() == int64(n) && !tx.IsInvalid() })
	sats, err := tx.AllTxoSatoshis()
	c.NoErr(err, "%s: satoshis of transaction %d", what, n)
	vt.KeepSlice(c, what+": satoshis of transaction "+strconv.Itoa(n), sats)
	if len(sats) != len(t.Outs) {
		c.Failf("%s: transaction %d has %d values, want %d", what, n, len(sats), len(t.Outs))
	}
	if r.P != nil {
		pb, err := r.P.ParentBlockOfTrans(int64(n))
		c.NoErr(err, "%s: block of transaction %d", what, n)
		if pb != int64(t.Block.Height) {
			c.Failf("%s: the block of transaction %d is %d, want %d", what, n, pb, t.Block.Height)
		}
	}
	for k, in := range ins {
		ih, err := tx.NthTxi(int64(k))
		c.NoErr(err, "%s: input %d of transaction %d", what, k, n)
		if ih.TxiHeight() != int64(in.Height) {
			c.Failf("%s: input %d of transaction %d is input %d of the chain, want %d", what, k, n, ih.TxiHeight(), in.Height)
		}
		c.Keep(what+": an input of transaction "+strconv.Itoa(n), func() bool { return ih.TxiHeight() == int64(in.Height) })
		txi, err := r.C.TxiInterface(ih)
		c.NoErr(err, "%s: input %d", what, in.Height)
		src, err := txi.SourceTxo()
		c.NoErr(err, "%s: source of input %d", what, in.Height)
		if !src.ParentSpecified() || !oneOf(ch.ByTxid[in.Prev], src.ParentTrans().Height()) || src.ParentIndex() != int64(in.VOut) {
			c.Failf("%s: input %d of transaction %d spends output %d of transaction %d, want output %d of %v", what, k, n, src.ParentIndex(), src.ParentTrans().Height(), in.VOut, ch.ByTxid[in.Prev])
		}
		if r.P != nil {
			p, err := r.P.ParentTransOfTxi(int64(in.Height))
			c.NoErr(err, "%s: transaction of input %d", what, in.Height)
			if p != int64(n) {
				c.Failf("%s: the transaction of input %d is %d, want %d", what, in.Height, p, n)
			}
		}
	}
	for k, o := range t.Outs {
		oh, err := tx.NthTxo(int64(k))
		c.NoErr(err, "%s: output %d of transaction %d", what, k, n)
		if oh.TxoHeight() != int64(o.Height) {
			c.Failf("%s: output %d of transaction %d is output %d of the chain, want %d", what, k, n, oh.TxoHeight(), o.Height)
		}
		c.Keep(what+": an output of transaction "+strconv.Itoa(n), func() bool { return oh.TxoHeight() == int64(o.Height) })
		txo, err := r.C.TxoInterface(oh)
		c.NoErr(err, "%s: output %d", what, o.Height)
		v, err := txo.Satoshis()
		c.NoErr(err, "%s: satoshis of output %d", what, o.Height)
		if v != o.Value || sats[k] != o.Value {
			c.Failf("%s: output %d of transaction %d has %d (in the list %d) satoshis, want %d", what, k, n, v, sats[k], o.Value)
		}
		if r.P != nil {
			p, err := r.P.ParentTransOfTxo(int64(o.Height))
			c.NoErr(err, "%s: transaction of output %d", what, o.Height)
			if p != int64(n) {
				c.Failf("%s: the transaction of output %d is %d, want %d", what, o.Height, p, n)
			}
		}
		ah, err := txo.Address()
		c.NoErr(err, "%s: address of output %d", what, o.Height)
		if !ah.HeightSpecified() || ah.Height() != int64(o.Addr.Height) {
			c.Failf("%s: output %d pays to address %d (specified: %v), want %d", what, o.Height, ah.Height(), ah.HeightSpecified(), o.Addr.Height)
		}
		c.Keep(what+": an address", func() bool { return ah.Height() == int64(o.Addr.Height) })
		if !sampled(o.Height, len(ch.Txos), 3) {
			continue // the address itself is slow to read
		}
		a, err := r.C.AddressInterface(ah)
		c.NoErr(err, "%s: address of output %d by its handle", what, o.Height)
		if a.Hash() != o.Addr.Hash {
			c.Failf("%s: output %d pays to address %x, want %x", what, o.Height, a.Hash(), o.Addr.Hash)
		}
	}
}

// sampled picks some 2k of n things: the first k and an even spread of others.
func sampled(i, n, k int) bool { return i < k || i%max(1, n/k) == 0 }

// Bitcoin as it is: more than a billion transactions and three of outputs.
const (
	roomTrans = 4
	roomTxxs  = 4
	roomSats  = 7
)

func column(c *vt.Ctx, what, name string, room int64, f wordfile.ReadAtWordCounter, want []int64) {
	if f.WordSize() < room {
		c.Failf("%s: the %s file has %d bytes for a number, Bitcoin's need %d", what, name, f.WordSize(), room)
	}
	n, err := f.CountWords()
	c.NoErr(err, "%s: count the %s file", what, name)
	if n != int64(len(want)) {
		c.Failf("%s: the %s file has %d words, want %d", what, name, n, len(want))
	}
	for i, w := range want {
		if i%7 != 0 && i < len(want)-20 {
			continue
		}
		g, err := f.ReadWordAt(int64(i))
		c.NoErr(err, "%s: word %d of the %s file", what, i, name)
		if g != w {
			c.Failf("%s: word %d of the %s file is %d, want %d", what, i, name, g, w)
		}
	}
}

func (r Reader) files(c *vt.Ctx, what string, ch *chaingen.Chain, nTx, nTxi, nTxo int) {
	var a, b []int64
	for _, t := range ch.Txs[:nTx] {
		a, b = append(a, int64(t.FirstTxi)), append(b, int64(t.FirstTxo))
	}
	column(c, what, "first input", roomTxxs, r.F.TransFirstTxiFile(), a)
	column(c, what, "first output", roomTxxs, r.F.TransFirstTxoFile(), b)
	var v []int64
	for _, i := range ch.Txis[:nTxi] {
		v = append(v, int64(i.VOut))
	}
	column(c, what, "source position", 4, r.F.TxiVoutFile(), v)
	if !ch.Dups {
		var s []int64
		for _, i := range ch.Txis[:nTxi] {
			s = append(s, int64(ch.ByTxid[i.Prev][0]))
		}
		column(c, what, "source transaction", roomTrans, r.F.TxiTxFile(), s)
	}
	var s []int64
	for _, o := range ch.Txos[:nTxo] {
		s = append(s, o.Value)
	}
	column(c, what, "satoshis", roomSats, r.F.TxoSatsFile(), s)
}

func (r Reader) addresses(c *vt.Ctx, what string, ch *chaingen.Chain, nTxo int) {
	done, long := map[*chaingen.Addr]bool{}, 0
	for _, o := range ch.Txos[:nTxo] {
		a := o.Addr
		if done[a] {
			continue
		}
		done[a] = true
		if !sampled(len(done)-1, len(ch.Addrs), 4) && len(done)+6 < len(ch.Addrs) && (len(a.Txos) < 3 || long > 5) {
			continue
		}
		if len(a.Txos) > 2 {
			long++
		}
		r.Address(c, what, ch, a, nTxo, len(done))
	}
}

// Address checks what is said of an address once nTxo outputs are stored; after
// the first few only one way of asking is used, which depends on nth.
func (r Reader) Address(c *vt.Ctx, what string, ch *chaingen.Chain, a *chaingen.Addr, nTxo, nth int) {
	want := a.Txos
	for len(want) > 0 && want[len(want)-1] >= nTxo {
		want = want[:len(want)-1]
	}
	var hs []chainreadinterface.IAddressHandle
	hs = append(hs, HashOnlyAddress(a.Hash))
	if r.H != nil {
		h1, err := r.H.AddressHandleByHash(a.Hash)
		c.NoErr(err, "%s: address %x by its hash", what, a.Hash)
		if h1.Height() != int64(a.Height) {
			c.Failf("%s: the hash of address %d leads to address %d", what, a.Height, h1.Height())
		}
		h2, err := r.H.AddressHandleByHeight(int64(a.Height))
		c.NoErr(err, "%s: address %d by its height", what, a.Height)
		h3, err := r.H.AddressHandleByString(string(ch.Txos[a.Height].Script))
		c.NoErr(err, "%s: address %d by the text its hash is of", what, a.Height)
		if h3.Height() != int64(a.Height) {
			c.Failf("%s: the text of address %d leads to address %d", what, a.Height, h3.Height())
		}
		hs = append(hs, h1, h2)
	}
	for k, h := range hs {
		if nth > 2 && k != nth%len(hs) {
			continue
		}
		x, err := r.C.AddressInterface(h)
		c.NoErr(err, "%s: address %d", what, a.Height)
		if k%2 == 0 && x.Hash() != a.Hash {
			c.Failf("%s: address %d has hash %x, want %x", what, a.Height, x.Hash(), a.Hash)
		}
		if x.HeightSpecified() && x.Height() != int64(a.Height) {
			c.Failf("%s: address %d says it is address %d", what, a.Height, x.Height())
		}
		n, err := x.TxoCount()
		c.NoErr(err, "%s: outputs of address %d", what, a.Height)
		if n != int64(len(want)) {
			c.Failf("%s: address %d has %d outputs, want %d", what, a.Height, n, len(want))
		}
		for i, w := range want {
			oh, err := x.NthTxo(int64(i))
			c.NoErr(err, "%s: output %d of address %d", what, i, a.Height)
			if oh.TxoHeight() != int64(w) {
				c.Failf("%s: output %d of address %d is output %d of the chain, want %d", what, i, a.Height, oh.TxoHeight(), w)
			}
		}
		if x.Hash() != a.Hash {
			c.Failf("%s: address %d has hash %x, want %x", what, a.Height, x.Hash(), a.Hash)
		}
		if x.HeightSpecified() && x.Height() != int64(a.Height) {
			c.Failf("%s: address %d says it is address %d", what, a.Height, x.Height())
		}
	}
}

// beyond asks for what comes after the end of a chain all of which is stored.
func (r Reader) beyond(c *vt.Ctx, what string, ch *chaingen.Chain, nTx, nTxi, nTxo int) {
	if r.H == nil {
		return
	}
	no := func(err error, f string, i int64) {
		if err == nil {
			c.Failf("%s: "+f+" beyond the end is given", what, i)
		}
	}
	for _, by := range []int64{0, 1, 300} {
		i := int64(len(ch.Blocks)) + by
		bh, err := r.H.BlockHandleByHeight(i)
		if err == nil {
			_, err = bh.Hash()
			no(err, "the hash of block %d", i)
			if b, err := r.C.BlockInterface(bh); err == nil {
				_, err = b.Hash()
				no(err, "the hash of block %d", i)
				_, err = b.TransactionCount()
				no(err, "the size of block %d", i)
				_, err = b.NthTransaction(0)
				no(err, "the first transaction of block %d", i)
			}
		}
		i = int64(nTx) + by
		th, err := r.H.TransactionHandleByHeight(i)
		if err == nil {
			_, err = th.Hash()
			no(err, "the hash of transaction %d", i)
			if t, err := r.C.TransInterface(th); err == nil {
				_, err = t.TxiCount()
				no(err, "the number of inputs of transaction %d", i)
				_, err = t.TxoCount()
				no(err, "the number of outputs of transaction %d", i)
				_, err = t.AllTxoSatoshis()
				no(err, "the values of the outputs of transaction %d", i)
			}
		}
		if r.P != nil {
			_, err = r.P.ParentBlockOfTrans(i)
			no(err, "the block of transaction %d", i)
		}
		i = int64(nTxi) + by
		ih, err := r.H.TxiHandleByHeight(i)
		if err == nil {
			if x, err := r.C.TxiInterface(ih); err == nil {
				_, err = x.SourceTxo()
				no(err, "the source of input %d", i)
			}
		}
		i = int64(nTxo) + by
		oh, err := r.H.TxoHandleByHeight(i)
		if err == nil {
			if x, err := r.C.TxoInterface(oh); err == nil {
				_, err = x.Satoshis()
				no(err, "the value of output %d", i)
				_, err = x.Address()
				no(err, "the address of output %d", i)
			}
		}
		i = int64(nTxo) + by // more than there are addresses
		ah, err := r.H.AddressHandleByHeight(i)
		if err == nil {
			x, err := r.C.AddressInterface(ah)
			if err == nil {
				_, err = x.TxoCount()
			}
			no(err, "address %d", i)
		}
	}
}

// absent asks for hashes that are not in the chain, some of them near ones that are.
func (r Reader) absent(c *vt.Ctx, what string, ch *chaingen.Chain) {
	var hs []Hash
	for i, b := range ch.Blocks {
		h := b.Hash
		h[(i*5)%32] ^= 1
		hs = append(hs, h, b.Txs[0].Outs[0].Addr.Hash)
		h = b.Txs[0].TxId
		h[31-(i*3)%32] ^= 0x80
		hs = append(hs, h, b.Txs[0].TxId)
		if len(hs) > 40 {
			break
		}
	}
	hs = append(hs, Hash{}, ch.Blocks[0].Hash)
	isBlock := map[Hash]bool{}
	for _, b := range ch.Blocks {
		isBlock[b.Hash] = true
	}
	for _, h := range hs {
		if !isBlock[h] {
			if r.H != nil {
				x, err := r.H.BlockHandleByHash(h)
				if err == nil && !x.IsInvalid() {
					c.Failf("%s: no block has hash %x, but block %d is given", what, h, x.Height())
				}
			}
			if x, err := r.C.BlockInterface(HashOnlyBlock(h)); err == nil && !x.IsInvalid() {
				c.Failf("%s: no block has hash %x, but block %d is given", what, h, x.Height())
			}
		}
		if len(ch.ByTxid[h]) == 0 {
			if r.H != nil {
				x, err := r.H.TransactionHandleByHash(h)
				if err == nil && !x.IsInvalid() {
					c.Failf("%s: no transaction has hash %x, but transaction %d is given", what, h, x.Height())
				}
			}
			if x, err := r.C.TransInterface(HashOnlyTrans(h)); err == nil && !x.IsInvalid() {
				c.Failf("%s: no transaction has hash %x, but transaction %d is given", what, h, x.Height())
			}
		}
		if ch.Addrs[h] == nil {
			if r.H != nil {
				if x, err := r.H.AddressHandleByHash(h); err == nil {
					c.Failf("%s: no address has hash %x, but address %d is given", what, h, x.Height())
				}
			}
			if x, err := r.C.AddressInterface(HashOnlyAddress(h)); err == nil {
				if n, err := x.TxoCount(); err == nil && n != 0 {
					c.Failf("%s: no address has hash %x, but it has %d outputs", what, h, n)
				}
			}
		}
	}
}

// Handles of this package's own, which carry one thing only.

type hashBlock struct{ h Hash }

func HashOnlyBlock(h Hash) chainreadinterface.IBlockHandle { return &hashBlock{h} }
func (b *hashBlock) Height() int64                         { return -7 }
func (b *hashBlock) Hash() (indexedhashes.Sha256, error)   { return b.h, nil }
func (b *hashBlock) HeightSpecified() bool                 { return false }
func (b *hashBlock) HashSpecified() bool                   { return true }
func (b *hashBlock) IsBlockHandle()                        {}
func (b *hashBlock) IsInvalid() bool                       { return false }

type hashTrans struct{ h Hash }

func HashOnlyTrans(h Hash) chainreadinterface.ITransHandle { return &hashTrans{h} }
func (b *hashTrans) Height() int64                         { return -7 }
func (b *hashTrans) Hash() (indexedhashes.Sha256, error)   { return b.h, nil }
func (b *hashTrans) HeightSpecified() bool                 { return false }
func (b *hashTrans) HashSpecified() bool                   { return true }
func (b *hashTrans) IndicesPath() (int64, int64)           { return -1, -1 }
func (b *hashTrans) IndicesPathSpecified() bool            { return false }
func (b *hashTrans) IsTransHandle()                        {}
func (b *hashTrans) IsInvalid() bool                       { return false }

type hashAddress struct{ h Hash }

func HashOnlyAddress(h Hash) chainreadinterface.IAddressHandle { return &hashAddress{h} }
func (b *hashAddress) Height() int64                           { return -7 }
func (b *hashAddress) Hash() indexedhashes.Sha256              { return b.h }
func (b *hashAddress) HeightSpecified() bool                   { return false }
func (b *hashAddress) HashSpecified() bool                     { return true }
