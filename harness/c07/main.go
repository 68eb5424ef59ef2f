// C07: what the two block holders derive while blocks are fed to them.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"

	"verifharness/chaingen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"pgregory.net/rapid"
)

// recorder is an indexer that remembers every call.
type recorder struct {
	calls []string
	heads int // calls to StoreBlockHeightToFirstTrans
}

var _ transactionindexing.ITransactionIndexer = (*recorder)(nil)

func (r *recorder) StoreTransHashToHeight(h *indexedhashes.Sha256, height int64) error {
	r.calls = append(r.calls, fmt.Sprintf("hash %x is transaction %d", *h, height))
	return nil
}
func (r *recorder) StoreTransHeightToParentBlock(t int64, b int64) error {
	r.calls = append(r.calls, fmt.Sprintf("transaction %d is in block %d", t, b))
	return nil
}
func (r *recorder) StoreBlockHeightToFirstTrans(b int64, t int64) error {
	r.calls = append(r.calls, fmt.Sprintf("block %d starts at transaction %d", b, t))
	r.heads++
	return nil
}
func (r *recorder) RetrieveTransHashToHeight(*indexedhashes.Sha256) (int64, error) { return -1, nil }
func (r *recorder) RetrieveTransHeightToParentBlock(int64) (int64, error)          { return -1, nil }
func (r *recorder) RetrieveBlockHeightToFirstTrans(int64) (int64, error)           { return -1, nil }
func (r *recorder) Close()                                                         {}

// told is what the indexer should have been told about the blocks. Each
// transaction's block and hash come in the order of the transactions; which of
// the two comes first is nobody's business.
func (r *recorder) check(c *vt.Ctx, blocks []*chaingen.Block) {
	var heads, parents, hashes []string
	for _, s := range r.calls {
		switch s[0] {
		case 'b':
			heads = append(heads, s)
		case 't':
			parents = append(parents, s)
		default:
			hashes = append(hashes, s)
		}
	}
	var wh, wp, wx []string
	for _, b := range blocks {
		wh = append(wh, fmt.Sprintf("block %d starts at transaction %d", b.Height, b.Txs[0].Height))
		for _, t := range b.Txs {
			wp = append(wp, fmt.Sprintf("transaction %d is in block %d", t.Height, b.Height))
			wx = append(wx, fmt.Sprintf("hash %x is transaction %d", t.TxId, t.Height))
		}
	}
	for _, x := range []struct{ got, want []string }{{heads, wh}, {parents, wp}, {hashes, wx}} {
		for i, s := range x.got {
			if i >= len(x.want) {
				c.Failf("after block %d the indexer is also told: %s", len(blocks)-1, s)
			}
			if s != x.want[i] {
				c.Failf("after block %d the indexer has been told: %s, want: %s", len(blocks)-1, s, x.want[i])
			}
		}
		if len(x.got) < len(x.want) {
			c.Failf("after block %d the indexer has not been told: %s", len(blocks)-1, x.want[len(x.got)])
		}
	}
}

type holderCase struct {
	Chain   chaingen.Spec `json:"chain"`
	Json    bool          `json:"json"`    // blocks parsed from JSON
	Indexed bool          `json:"indexed"` // with an indexer
	Wrong   int           `json:"wrong"`   // before block Wrong comes one that does not follow, 0 for none
	Which   int           `json:"which"`   // which one that is
	Twice   bool          `json:"twice"`   // everything is asked for twice
}

func parsed(c *vt.Ctx, v holderCase, b *chaingen.Block) *intrinsicobjects.Block {
	x := &intrinsicobjects.Block{}
	if v.Json {
		c.NoErr(intrinsicobjects.ParseJsonBlock([]byte(b.JSON(nil)), x), "parse")
	} else {
		intrinsicobjects.ParseBinaryBlock(b.Raw, x)
	}
	return x
}

// feed is the sequence of blocks given to the holder, and the position of the wrong one (or -1).
func feed(c *vt.Ctx, v holderCase, ch *chaingen.Chain) (chan *intrinsicobjects.Block, int) {
	in := make(chan *intrinsicobjects.Block, len(ch.Blocks)+2)
	wrong := -1
	for i, b := range ch.Blocks {
		if v.Wrong == i && i > 0 {
			for k := range ch.Blocks {
				w := ch.Blocks[(v.Which+k)%len(ch.Blocks)]
				if w.Prev != ch.Blocks[i-1].Hash {
					in <- parsed(c, v, w)
					wrong = i
					break
				}
			}
		}
		if v.Wrong == i+1000 { // one that follows, but for one bit
			w := parsed(c, v, b)
			w.PrevHash[v.Which%32] ^= 1 << (v.Which / 32 % 8)
			in <- w
			wrong = i
		}
		in <- parsed(c, v, b)
	}
	close(in)
	return in, wrong
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

func blockNeis(b *chaingen.Block) map[string]int64 {
	return map[string]int64{"time": int64(b.Time), "mediantime": int64(b.MedianTime), "size": int64(b.Size),
		"strippedsize": int64(b.Stripped), "weight": int64(b.Weight), "difficulty": int64(math.Round(b.Difficulty))}
}

func txNeis(t *chaingen.Tx) map[string]int64 {
	return map[string]int64{"size": int64(t.Size), "vsize": int64(t.VSize), "weight": int64(t.Weight)}
}

func sameNeis(c *vt.Ctx, what string, got, want map[string]int64) {
	for k, w := range want {
		g, ok := got[k]
		near := k == "difficulty" && math.Abs(float64(g)-float64(w)) <= 1e-12*math.Abs(float64(w))
		if !ok || (g != w && !near) {
			c.Failf("%s: %s is %d (present: %v), want %d", what, k, g, ok, w)
		}
	}
}

func (v holderCase) class(c *vt.Ctx, ch *chaingen.Chain, wrong int) {
	ch.Describe(c)
	c.ClassIf(wrong >= 0, "with a block that does not follow")
	c.ClassIf(v.Indexed, "with an indexer")
	c.ClassIf(v.Json, "blocks parsed from JSON")
	if len(ch.Blocks) > 1 {
		c.NonTrivial()
	}
}

func runChi(c *vt.Ctx, v holderCase) {
	ch := v.Chain.Make()
	rec := &recorder{}
	var ix transactionindexing.ITransactionIndexer
	if v.Indexed {
		ix = rec
	}
	holder := intrinsicobjectschi.CreateOneBlockHolder(ix)
	in, wrong := feed(c, v, ch)
	holder.InChan = in
	v.class(c, ch, wrong)
	var seen []chainhandleinterface.BlockHandle
	br, tr := chainhandleinterface.NewBlockReceiver(), chainhandleinterface.NewBitcoinCoreTransactionReceiver()
	ir, or := chainhandleinterface.NewTxiReceiver(), chainhandleinterface.NewTxoReceiver()
	for i, b := range ch.Blocks {
		var h chainhandleinterface.BlockHandle
		var err error
		if i == wrong {
			accepted := false
			panics(func() {
				h, err := holder.NextBlock(seen[i-1])
				accepted = err == nil && !holder.IsBlockHandleInvalid(h)
			})
			if accepted {
				c.Failf("a block that does not follow block %d is accepted", i-1)
			}
			if v.Indexed {
				rec.check(c, ch.Blocks[:i])
			}
			return
		}
		if i == 0 {
			h, err = holder.GenesisBlock()
		} else {
			h, err = holder.NextBlock(seen[i-1])
		}
		c.NoErr(err, "block %d", i)
		if holder.IsBlockHandleInvalid(h) {
			c.Failf("the handle of block %d is the invalid one", i)
		}
		for k, o := range seen {
			if o == h {
				c.Failf("blocks %d and %d have the same handle", k, i)
			}
			if k < i-3 && k%7 != 0 {
				continue
			}
			if holder.GetBlockInfo(o, chainhandleinterface.NewBlockReceiver()) == nil {
				c.Failf("block %d is held, but information is given about block %d", i, k)
			}
			if holder.GetTransactionInfo(chainhandleinterface.TransactionHandle{BH: o}, chainhandleinterface.NewBitcoinCoreTransactionReceiver()) == nil {
				c.Failf("block %d is held, but information is given about a transaction of block %d", i, k)
			}
		}
		seen = append(seen, h)
		for n := 0; n < 2; n++ {
			chiBlock(c, holder, h, b, br, tr, ir, or)
			if !v.Twice {
				break
			}
		}
		if v.Indexed {
			rec.check(c, ch.Blocks[:i+1])
		}
	}
	h, err := holder.NextBlock(seen[len(seen)-1])
	c.NoErr(err, "after the last block")
	if !holder.IsBlockHandleInvalid(h) {
		c.Failf("the handle after the last block is not the invalid one")
	}
	if v.Indexed {
		rec.check(c, ch.Blocks)
	}
}

func chiBlock(c *vt.Ctx, holder chainhandleinterface.IBlockChain, h chainhandleinterface.BlockHandle, b *chaingen.Block,
	br *chainhandleinterface.BlockReceiver, tr *chainhandleinterface.BitcoinCoreTransactionReceiver,
	ir *chainhandleinterface.TxiReceiver, or *chainhandleinterface.TxoReceiver) {
	i := b.Height
	c.NoErr(holder.GetBlockInfo(h, br), "information about block %d", i)
	if br.BlockHeight != int64(i) || br.BlockHash != b.Hash {
		c.Failf("block %d (%x) is reported as block %d (%x)", i, b.Hash, br.BlockHeight, br.BlockHash)
	}
	sameNeis(c, fmt.Sprintf("block %d", i), br.FieldMap, blockNeis(b))
	if len(br.TransactionHandles) != len(b.Txs) {
		c.Failf("block %d is reported with %d transactions, want %d", i, len(br.TransactionHandles), len(b.Txs))
	}
	for n, th := range br.TransactionHandles {
		t := b.Txs[n]
		what := fmt.Sprintf("transaction %d/%d", i, n)
		c.NoErr(holder.GetTransactionInfo(th, tr), "information about %s", what)
		if tr.TransactionHash != t.TxId {
			c.Failf("%s has hash %x, want %x", what, tr.TransactionHash, t.TxId)
		}
		if tr.ParentBlockHandle != h {
			c.Failf("%s says its block is %x, want %x", what, tr.ParentBlockHandle, h)
		}
		sameNeis(c, what, tr.FieldMap, txNeis(t))
		ins := t.Ins
		if t.Coinbase() {
			ins = nil
		}
		if len(tr.TxiHandles) != len(ins) || len(tr.TxoHandles) != len(t.Outs) {
			c.Failf("%s is reported with %d inputs and %d outputs, want %d and %d", what, len(tr.TxiHandles), len(tr.TxoHandles), len(ins), len(t.Outs))
		}
		for k, ih := range tr.TxiHandles {
			c.NoErr(holder.GetTxiInfo(ih, ir), "input %d of %s", k, what)
			if ir.IncomingTxid != ins[k].Prev || ir.IncomingVout != int64(ins[k].VOut) || ir.ParentTransactionHandle != th {
				c.Failf("input %d of %s spends %x:%d, want %x:%d", k, what, ir.IncomingTxid, ir.IncomingVout, ins[k].Prev, ins[k].VOut)
			}
		}
		for k, oh := range tr.TxoHandles {
			o := t.Outs[k]
			c.NoErr(holder.GetTxoInfo(oh, or), "output %d of %s", k, what)
			if or.SatoshisValue != o.Value || or.ParentTransactionHandle != th {
				c.Failf("output %d of %s has %d satoshis, want %d", k, what, or.SatoshisValue, o.Value)
			}
			if !bytes.Equal(or.ScriptPubBytes, o.Script) {
				c.Failf("output %d of %s has script %x, want %x", k, what, or.ScriptPubBytes, o.Script)
			}
			if a := indexedhashes.HashOfBytes(or.ScriptPubBytes); [32]byte(a) != sha256.Sum256(o.Script) {
				c.Failf("output %d of %s: the hash of its script is %x, want %x", k, what, a, sha256.Sum256(o.Script))
			}
		}
	}
}

func runCri(c *vt.Ctx, v holderCase) {
	ch := v.Chain.Make()
	rec := &recorder{}
	var ix transactionindexing.ITransactionIndexer
	if v.Indexed {
		ix = rec
	}
	holder := intrinsicobjectscri.CreateOneBlockHolder(ix)
	in, wrong := feed(c, v, ch)
	holder.InChan = in
	v.class(c, ch, wrong)
	var h = holder.InvalidBlock()
	if !h.IsInvalid() || !holder.InvalidTrans().IsInvalid() {
		c.Failf("the invalid handles are not invalid")
	}
	for i, b := range ch.Blocks {
		var err error
		if i == wrong {
			accepted := false
			panics(func() {
				h, err := holder.NextBlock(h)
				accepted = err == nil && !h.IsInvalid()
			})
			if accepted {
				c.Failf("a block that does not follow block %d is accepted", i-1)
			}
			if v.Indexed {
				rec.check(c, ch.Blocks[:i])
			}
			return
		}
		if i == 0 {
			h = holder.GenesisBlock()
		} else {
			old := h
			h, err = holder.NextBlock(h)
			c.NoErr(err, "block %d", i)
			answered := false
			panics(func() {
				x, err := holder.BlockInterface(old)
				answered = err == nil && x != nil
			})
			if answered {
				c.Failf("block %d is held, but block %d is given out", i, i-1)
			}
		}
		if h.IsInvalid() {
			c.Failf("block %d has an invalid handle", i)
		}
		for n := 0; n < 2; n++ {
			criBlock(c, holder, h, b)
			if !v.Twice {
				break
			}
		}
		if v.Indexed {
			rec.check(c, ch.Blocks[:i+1])
		}
	}
	h, err := holder.NextBlock(h)
	c.NoErr(err, "after the last block")
	if !h.IsInvalid() {
		c.Failf("the handle after the last block is not invalid")
	}
	if v.Indexed {
		rec.check(c, ch.Blocks)
	}
}

func main() {
	finish := func(t *rapid.T, v holderCase) holderCase {
		v.Json = vt.Pick(t, "json", 3, 1) == 1
		v.Indexed = vt.Pick(t, "indexed", 1, 3) == 1
		v.Twice = vt.Pick(t, "twice", 2, 1) == 1
		if n := len(v.Chain.Blocks); n > 0 && vt.Pick(t, "wrong?", 2, 1) == 1 {
			v.Wrong = rapid.IntRange(1, n).Draw(t, "wrong")
			if rapid.Bool().Draw(t, "bit") {
				v.Wrong += 1000
			}
			v.Which = rapid.IntRange(0, 255).Draw(t, "which")
		}
		return v
	}
	gen := func(t *rapid.T) holderCase {
		return finish(t, holderCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 14, Long: 30, Dups: true, Wide: vt.Pick(t, "wide", 3, 1) == 1})})
	}
	huge := func(t *rapid.T) holderCase {
		return finish(t, holderCase{Chain: chaingen.DrawHuge(t, chaingen.Opts{Blocks: 2, Long: 3, Dups: true})})
	}
	vt.Main("C07",
		vt.New("handles", "a chain with at least one block after the genesis block", 3000, 60000, gen, runChi),
		vt.New("objects", "a chain with at least one block after the genesis block", 3000, 60000, gen, runCri),
		vt.New("handles-huge", "a chain with at least one block after the genesis block", 8, 500, huge, runChi),
		vt.New("objects-huge", "a chain with at least one block after the genesis block", 8, 500, huge, runCri),
	)
}
