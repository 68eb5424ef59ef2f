// C27: a block that does not belong in the chain is refused.
package main

import (
	"crypto/sha256"
	"os"
	"path/filepath"

	"verifharness/chaingen"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"pgregory.net/rapid"
)

const (
	foreign     = iota // a block whose hash was not gathered
	moved              // a block of the chain at another's place
	address            // an output whose address was not gathered
	source             // an input from a transaction that was not gathered
	transaction        // a transaction that was not gathered, in a store that goes by their hashes
	field              // a value to be stored that no block has
	transField         // or no transaction
)

var kinds = []string{"a foreign block", "a block at another's place", "an unknown address", "an unknown source", "an unknown transaction", "a block field there is not", "a transaction field there is not"}

type wrongCase struct {
	Chain chaingen.Spec  `json:"chain"`
	Store storegen.Store `json:"store"`
	Feed  storegen.Feed  `json:"feed"`
	Kind  int            `json:"kind"`
	At    int            `json:"at"`    // the block
	Which int            `json:"which"` // what of it
	Sync  bool           `json:"sync"`  // before the block
	Again int            `json:"again"` // how often it is offered again
	Alone bool           `json:"alone"` // the transaction with the wrong address or source was gathered
}

// wrong is the chain with something wrong in or after block at, or nil, and
// the output that is wrong.
func (v wrongCase) wrong(ch *chaingen.Chain) (*chaingen.Chain, int, *chaingen.Out) {
	var wrong *chaingen.Out
	alt := v.Chain.Make()
	n := len(alt.Blocks)
	at := v.At % n
	switch v.Kind {
	case field, transField:
		return alt, 0, nil
	case foreign, moved:
		at = 1 + v.At%max(1, n-1)
	}
	if at >= n {
		return nil, 0, nil
	}
	b := alt.Blocks[at]
	t := b.Txs[v.Which%len(b.Txs)]
	var strange chaingen.Hash
	copy(strange[:], vt.Body(uint32(v.Which)+99, 32))
	switch v.Kind {
	case foreign:
		b.Nonce++
		b.Reseal(false)
	case moved:
		by := 1 + v.Which%(n-1)
		if by == at {
			return nil, 0, nil
		}
		alt.Blocks[at] = alt.Blocks[by]
	case address:
		if len(t.Outs) == 0 {
			return nil, 0, nil
		}
		o := t.Outs[v.Which/7%len(t.Outs)]
		o.Script = append(append([]byte{}, o.Script...), 0x51)
		if v.Which%2 == 1 {
			o.Script = append([]byte{0xa9, 20}, append(vt.Body(uint32(v.Which)+5, 20), 0x87)...)
		}
		if ch.Addrs[sha256.Sum256(o.Script)] != nil {
			return nil, 0, nil
		}
		wrong = o
		t.Block.Reseal(true)
	case source:
		for k := 0; k < len(b.Txs) && t.Coinbase(); k++ {
			t = b.Txs[(v.Which+k)%len(b.Txs)]
		}
		if t.Coinbase() || len(t.Ins) == 0 {
			return nil, 0, nil
		}
		t.Ins[v.Which/7%len(t.Ins)].Prev = strange
		t.Block.Reseal(true)
	case transaction:
		t.Lock ^= 1 << (v.Which % 31)
		t.Block.Reseal(true)
	}
	return alt, at, wrong
}

// unknown is the name of a value that neither blocks nor transactions have.
func unknown(i int) string {
	return []string{"confirmations", "fee", "height", "Size", "weight ", "", "nTx"}[i%7]
}

// forget puts another address in the place of the output's in the list.
func forget(c *vt.Ctx, dir string, ch *chaingen.Chain, o *chaingen.Out) {
	other := chaingen.Hash{}
	if o.Height > 0 {
		other = ch.Txos[0].Addr.Hash
	} else if len(ch.Txos) > 1 {
		other = ch.Txos[1].Addr.Hash
	} else {
		other[31] = 1
	}
	name := filepath.Join(dir, "Addresses", "Hashes", "Hashes.hsh")
	b, err := os.ReadFile(name)
	c.NoErr(err, "read the list of addresses")
	copy(b[32*o.Height:], other[:])
	c.NoErr(os.WriteFile(name, b, 0o644), "write it")
}

func runWrong(c *vt.Ctx, v wrongCase) {
	ch := v.Chain.Make()
	alt, at, out := v.wrong(ch)
	if alt == nil {
		return
	}
	s := v.Store
	switch v.Kind {
	case transaction:
		s.Delegated = false
	case field:
		s.Blk = append(append([]string{}, s.Blk...), unknown(v.Which))
	case transField:
		s.Trn = append(append([]string{}, s.Trn...), unknown(v.Which))
	}
	dir := c.SubDir("a")
	if v.Alone && (v.Kind == address || v.Kind == source) {
		storegen.Gather(c, dir, alt, storegen.Feed{})
		if out != nil {
			forget(c, dir, alt, out)
		}
		c.Class(kinds[v.Kind] + " alone")
	} else {
		storegen.Gather(c, dir, ch, storegen.Feed{})
	}
	s.Index(c, dir, ch)
	cr := s.Creator(c, dir)
	if err := cr.CreateFromHashStores(); v.Kind == field || v.Kind == transField {
		if err != nil {
			c.Class(kinds[v.Kind] + ": no store is created")
			c.NonTrivial()
			return
		}
	} else {
		c.NoErr(err, "create the store")
	}
	x := s.Resume(c, cr, alt, v.Feed)
	c.NoErr(x.TryOpen(), "open the store")
	for x.Next < at {
		x.Append()
	}
	if v.Sync {
		c.NoErr(x.AC.Sync(), "sync")
	}
	var err error
	offer := func() (p bool) {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case vt.Failure, vt.HarnessError:
				panic(e)
			default:
				p = true
			}
		}()
		err = x.TryAppend()
		return
	}
	panics := offer()
	c.Class(kinds[v.Kind])
	c.ClassIf(panics, kinds[v.Kind]+": it panics")
	if at > 0 || v.Kind == field || v.Kind == transField {
		c.NonTrivial()
	}
	if !panics && err == nil {
		c.Failf("a block with %s is taken as block %d of %d", kinds[v.Kind], at, len(ch.Blocks))
	}
	for i := 0; i < v.Again && !panics; i++ {
		if panics = offer(); !panics && err == nil {
			c.Failf("a block with %s, refused as block %d of %d, is taken when it is offered again", kinds[v.Kind], at, len(ch.Blocks))
		}
	}
	if v.Kind > moved {
		x.AC.Close()
		return
	}
	if panics {
		if !v.Sync {
			return // what was not yet written is lost
		}
	} else {
		c.NoErr(x.AC.Sync(), "sync")
		x.AC.Close()
	}
	storegen.Open(c, "after the refusal", cr).Check(c, "after the refusal", ch, s, at)
	x = s.Resume(c, cr, ch, v.Feed)
	x.Next = at
	c.NoErr(x.TryOpen(), "open the store")
	for x.Next < len(ch.Blocks) {
		x.Append()
	}
	c.NoErr(x.AC.Sync(), "sync")
	x.AC.Close()
	storegen.Open(c, "continued with the right blocks", cr).Check(c, "continued with the right blocks", ch, s, len(ch.Blocks))
	_ = os.RemoveAll(dir)
}

type linkCase struct {
	Chain chaingen.Spec `json:"chain"`
	Chi   bool          `json:"chi"`
	Json  bool          `json:"json"`
	Kind  int           `json:"kind"` // 0 another's place, 1 left out, 2 given twice, 3 one that is not the chain's, 4 two change places
	At    int           `json:"at"`
	By    int           `json:"by"`
}

var breaks = []string{"a block is another", "a block is left out", "a block is given twice", "a block is not the chain's", "two blocks change places"}

// runLinks feeds blocks that do not follow one another.
func runLinks(c *vt.Ctx, v linkCase) {
	alt := v.Chain.Make()
	n := len(alt.Blocks)
	if n < 2 {
		return
	}
	at, by := v.At%n, v.By%n
	b := append([]*chaingen.Block{}, alt.Blocks...)
	end := at // the first block that cannot be reached
	switch v.Kind {
	case 0:
		b[at] = b[by]
		if at == by {
			return
		}
	case 1:
		b = append(b[:at], b[at+1:]...)
		if at == n-1 {
			return // it is a shorter chain
		}
	case 2:
		b = append(b[:at+1], append([]*chaingen.Block{b[at]}, b[at+1:]...)...)
		end = at + 1
	case 3:
		b[at].Nonce++
		b[at].Reseal(false)
		if at == n-1 && at > 0 {
			return // it is another chain
		}
		if at > 0 {
			end = at + 1
		}
	case 4:
		if at == by {
			return
		}
		b[at], b[by] = b[by], b[at]
		end = min(at, by)
	}
	alt.Blocks = b
	c.Class(breaks[v.Kind])
	if end > 0 {
		c.NonTrivial()
	} else {
		c.Class("the first block is wrong")
	}
	dir := c.SubDir("a")
	cr := chainstorage.NewConcreteHashesChainCreator(dir)
	c.NoErr(cr.Create(), "create the hash lists")
	hc, err := cr.Open()
	c.NoErr(err, "open the hash lists")
	defer hc.Close()
	f := storegen.Feed{Chi: []bool{v.Chi}, Json: v.Json}
	src := storegen.NewSource(c, alt, f, nil)
	for i := range b {
		i, err, panics := i, error(nil), false
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case vt.Failure, vt.HarnessError:
					panic(e)
				default:
					panics = true
				}
			}()
			if err = src.TryTo(i); err == nil {
				err = src.AppendHashes(hc, f, i)
			}
		}()
		if panics || err != nil {
			if i < end {
				c.Failf("%s: block %d of %d, before which all is right, is refused: %v", breaks[v.Kind], i, len(b), err)
			}
			return
		}
		if i >= end {
			c.Failf("%s: block %d of %d is taken, which does not follow the one before", breaks[v.Kind], i, len(b))
		}
	}
}

func main() {
	vt.Main("C27",
		vt.New("links", "the first blocks are right", 2000, 100000, func(t *rapid.T) linkCase {
			v := linkCase{Kind: rapid.IntRange(0, 4).Draw(t, "kind"), Chi: rapid.Bool().Draw(t, "chi"), Json: rapid.Bool().Draw(t, "json")}
			v.Chain = chaingen.Draw(t, chaingen.Opts{Blocks: 8, Long: 25})
			v.At, v.By = rapid.IntRange(0, 30).Draw(t, "at"), rapid.IntRange(0, 30).Draw(t, "by")
			return v
		}, runLinks),
		vt.New("blocks", "something is wrong with a block that is not the first", 1500, 100000, func(t *rapid.T) wrongCase {
			v := wrongCase{Kind: rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")}
			v.Chain = chaingen.Draw(t, chaingen.Opts{Blocks: 8, Long: 25})
			v.Store = storegen.DrawStore(t, false)
			v.Feed = storegen.DrawFeed(t, len(v.Chain.Blocks)+1, false)
			v.At = rapid.IntRange(0, 30).Draw(t, "at")
			v.Which = rapid.IntRange(0, 300).Draw(t, "which")
			v.Sync = rapid.Bool().Draw(t, "sync")
			v.Alone = rapid.Bool().Draw(t, "alone")
			v.Again = rapid.IntRange(0, 3).Draw(t, "again")
			return v
		}, runWrong),
	)
}
