// Package storegen builds a stored chain from a generated one: it gathers the
// hashes, indexes them and appends the blocks, in as many sessions as a plan
// says, and holds what a reader of the store should be told.
package storegen

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"

	"verifharness/chaingen"
	"verifharness/ixgen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"pgregory.net/rapid"
)

type Hash = [32]byte

// Feed says how the blocks reach one of the two passes.
type Feed struct {
	Chi  []bool `json:"chi"`            // handle-style or object-style, block after block (cyclic)
	Cuts []int  `json:"cuts,omitempty"` // the session is closed and reopened before these blocks
	Json bool   `json:"json,omitempty"` // blocks parsed from JSON
}

func (f Feed) ChiAt(i int) bool { return len(f.Chi) > 0 && f.Chi[i%len(f.Chi)] }

func (f Feed) CutAt(i int) bool {
	for _, c := range f.Cuts {
		if c == i {
			return true
		}
	}
	return false
}

func (f Feed) Mixed() bool {
	for _, b := range f.Chi {
		if b != f.Chi[0] {
			return true
		}
	}
	return false
}

// Store is a stored chain's settings.
type Store struct {
	Idx       [3]ixgen.Params `json:"idx"` // blocks, transactions, addresses
	How       [3]ixgen.How    `json:"how"`
	InRam     bool            `json:"inRam"`
	Delegated bool            `json:"delegated"`
	Blk       []string        `json:"blk"`
	Trn       []string        `json:"trn"`
}

var BlkNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
var TrnNeis = []string{"size", "vsize", "weight"}
var AllBlkNeis = []string{"version", "time", "mediantime", "nonce", "difficulty", "strippedsize", "size", "weight"}
var AllTrnNeis = []string{"version", "size", "vsize", "weight", "locktime"}

func DrawFeed(t *rapid.T, blocks int, cuts bool) Feed {
	f := Feed{}
	switch vt.Pick(t, "style", 3, 3, 2) {
	case 0:
		f.Chi = []bool{true}
	case 1:
		f.Chi = []bool{false}
	default:
		n := rapid.IntRange(2, 5).Draw(t, "cycle")
		for i := 0; i < n; i++ {
			f.Chi = append(f.Chi, rapid.Bool().Draw(t, "chi"))
		}
	}
	if cuts && blocks > 0 {
		for k := vt.Size(t, "cuts", 2, 6); k > 0; k-- {
			f.Cuts = append(f.Cuts, rapid.IntRange(0, blocks).Draw(t, "cut"))
		}
		sort.Ints(f.Cuts)
	}
	f.Json = vt.Pick(t, "json", 4, 1) == 1
	return f
}

// Subset is often all of them.
func Subset(t *rapid.T, label string, all []string) []string {
	r := []string{}
	switch vt.Pick(t, label, 3, 2) {
	case 0:
		return append(r, all...)
	default:
		for _, s := range all {
			if rapid.Bool().Draw(t, label+s) {
				r = append(r, s)
			}
		}
	}
	return r
}

func DrawStore(t *rapid.T, dups bool) Store {
	s := Store{}
	for i := range s.Idx {
		s.Idx[i] = ixgen.DrawParams(t)
		s.How[i] = ixgen.DrawHow(t, s.Idx[i], 2)
		if s.How[i].Adaptive && vt.Pick(t, "fewadaptive", 1, 4) == 1 {
			s.How[i].Adaptive = false // it is far slower
			s.How[i].BinsPerPass = 0
		}
	}
	s.InRam = rapid.Bool().Draw(t, "inRam")
	s.Delegated = dups || rapid.Bool().Draw(t, "delegated")
	s.Blk = Subset(t, "blk", BlkNeis)
	s.Trn = Subset(t, "trn", TrnNeis)
	return s
}

// Big gives the indexes of a store parameters for a hundred thousand hashes.
func (s *Store) Big(t *rapid.T) {
	for i := range s.Idx {
		s.Idx[i] = ixgen.DrawBig(t)
		s.How[i] = ixgen.How{Threads: rapid.IntRange(1, 9).Draw(t, "threads")}
	}
}

// Parsed is the block as the system's own parsers give it.
func Parsed(c *vt.Ctx, b *chaingen.Block, json bool) *intrinsicobjects.Block {
	x := &intrinsicobjects.Block{}
	if json {
		c.NoErr(intrinsicobjects.ParseJsonBlock([]byte(b.JSON(nil)), x), "parse")
	} else {
		intrinsicobjects.ParseBinaryBlock(b.Raw, x)
	}
	return x
}

// Source holds one or both block holders, on the same block.
type Source struct {
	c    *vt.Ctx
	at   int // height of the current block, -1 before the first
	cri  *intrinsicobjectscri.OneBlockHolder
	chi  *intrinsicobjectschi.OneBlockHolder
	hCri chainreadinterface.IBlockHandle
	hChi chainhandleinterface.BlockHandle
}

func NewSource(c *vt.Ctx, ch *chaingen.Chain, f Feed, ix transactionindexing.ITransactionIndexer) *Source {
	s := &Source{c: c, at: -1}
	useChi, useCri := len(f.Chi) > 0 && (f.Chi[0] || f.Mixed()), len(f.Chi) == 0 || !f.Chi[0] || f.Mixed()
	fill := func() chan *intrinsicobjects.Block {
		in := make(chan *intrinsicobjects.Block, len(ch.Blocks))
		for _, b := range ch.Blocks {
			in <- Parsed(c, b, f.Json)
		}
		close(in)
		return in
	}
	if useCri {
		s.cri = intrinsicobjectscri.CreateOneBlockHolder(ix)
		s.cri.InChan = fill()
	}
	if useChi {
		s.chi = intrinsicobjectschi.CreateOneBlockHolder(ix)
		s.chi.InChan = fill()
	}
	return s
}

// To moves the holders forward to block i.
func (s *Source) To(i int) { s.c.NoErr(s.TryTo(i), "move on to block %d", i) }

// TryTo leaves it to the caller what to do about an error.
func (s *Source) TryTo(i int) error {
	for s.at < i {
		var err error
		if s.cri != nil {
			if s.at < 0 {
				s.hCri = s.cri.GenesisBlock()
			} else {
				s.hCri, err = s.cri.NextBlock(s.hCri)
			}
			if err != nil {
				return fmt.Errorf("block %d from the object-style holder: %w", s.at+1, err)
			}
		}
		if s.chi != nil {
			if s.at < 0 {
				s.hChi, err = s.chi.GenesisBlock()
			} else {
				s.hChi, err = s.chi.NextBlock(s.hChi)
			}
			if err != nil {
				return fmt.Errorf("block %d from the handle-style holder: %w", s.at+1, err)
			}
		}
		s.at++
	}
	return nil
}

// AppendHashes gathers block i, the current one.
func (s *Source) AppendHashes(hc chainstorage.IAppendableHashesChain, f Feed, i int) error {
	if f.ChiAt(i) {
		return hc.AppendHashesChi(s.chi, s.hChi)
	}
	return hc.AppendHashesCri(s.cri, s.hCri, int64(i))
}

var names = [3]string{"Blocks", "Transactions", "Addresses"}

// Gather runs the first pass: the hash lists of the blocks.
func Gather(c *vt.Ctx, dir string, ch *chaingen.Chain, f Feed) {
	cr := chainstorage.NewConcreteHashesChainCreator(dir)
	if cr.Exists() {
		c.Failf("the hash lists exist before they are created")
	}
	c.NoErr(cr.Create(), "create the hash lists")
	hc, err := cr.Open()
	c.NoErr(err, "open the hash lists")
	src := NewSource(c, ch, f, nil)
	nt, na := 0, 0
	count := func(i int) {
		b, t, a, err := hc.CountHashes()
		c.NoErr(err, "count the hashes")
		if b != int64(i) || t != int64(nt) || a != int64(na) {
			c.Failf("after %d blocks the hash lists count %d, %d and %d hashes, want %d, %d and %d", i, b, t, a, i, nt, na)
		}
	}
	for i, b := range ch.Blocks {
		if f.CutAt(i) {
			hc.Close()
			if !cr.Exists() {
				c.Failf("the hash lists do not exist after %d blocks", i)
			}
			if cr.Create() == nil {
				c.Failf("the hash lists are created over existing ones")
			}
			if hc, err = cr.Open(); err != nil {
				c.Failf("reopen the hash lists: %v", err)
			}
			count(i)
		}
		src.To(i)
		c.NoErr(src.AppendHashes(hc, f, i), "append the hashes of block %d", i)
		nt += len(b.Txs)
		for _, t := range b.Txs {
			na += len(t.Outs)
		}
		if i%3 == 2 || len(f.Cuts) > 0 {
			count(i + 1)
		}
	}
	hc.Close()
}

// CheckLists compares the gathered files with the chain.
func CheckLists(c *vt.Ctx, what, dir string, ch *chaingen.Chain) {
	var want [3][]byte
	for _, b := range ch.Blocks {
		want[0] = append(want[0], b.Hash[:]...)
	}
	for _, t := range ch.Txs {
		want[1] = append(want[1], t.TxId[:]...)
	}
	for _, o := range ch.Txos {
		want[2] = append(want[2], o.Addr.Hash[:]...)
	}
	for k, n := range names {
		got, err := os.ReadFile(filepath.Join(dir, n, "Hashes", "Hashes.hsh"))
		c.NoErr(err, "%s", what)
		if string(got) != string(want[k]) {
			at := 0
			for at < len(got) && at < len(want[k]) && got[at] == want[k][at] {
				at++
			}
			c.Failf("%s: the list of %s hashes has %d bytes, want %d; they differ at hash %d", what, n, len(got), len(want[k]), at/32)
		}
	}
}

// Index runs the second pass.
func (s Store) Index(c *vt.Ctx, dir string, ch *chaingen.Chain) {
	counts := [3]int{len(ch.Blocks), len(ch.Txs), len(ch.Txos)}
	for _, k := range [3]int{2, 1, 0} {
		c.NoErr(ixgen.Build(filepath.Join(dir, names[k]), "Hashes", s.Idx[k], s.How[k], counts[k]), "index the %s hashes", names[k])
	}
}

func (s Store) Creator(c *vt.Ctx, dir string) *chainstorage.ConcreteAppendableChainCreator {
	cr, err := chainstorage.NewConcreteAppendableChainCreator(dir, s.Blk, s.Trn, s.Delegated, false, s.InRam)
	c.NoErr(err, "new creator")
	return cr
}

// Fresh forgets the appends of the previous chain, as the program does at its start.
func Fresh() { chainstorage.PrevFirstTxo, chainstorage.PrevTrans = -1, -1 }

// Session is the third pass.
type Session struct {
	c    *vt.Ctx
	s    Store
	f    Feed
	ch   *chaingen.Chain
	Cr   *chainstorage.ConcreteAppendableChainCreator
	AC   chainstorage.IAppendableChain
	ix   transactionindexing.ITransactionIndexer
	src  *Source
	Next int // block to append next
}

// Begin creates the store over indexed hashes.
func (s Store) Begin(c *vt.Ctx, dir string, ch *chaingen.Chain, f Feed) *Session {
	Fresh()
	x := &Session{c: c, s: s, f: f, ch: ch, Cr: s.Creator(c, dir)}
	if !x.Cr.Exists() {
		c.Failf("the hash stores are said not to exist after they were indexed")
	}
	c.NoErr(x.Cr.CreateFromHashStores(), "create the store")
	x.Open()
	return x
}

// Resume is a session with a store that has been created and is not open.
func (s Store) Resume(c *vt.Ctx, cr *chainstorage.ConcreteAppendableChainCreator, ch *chaingen.Chain, f Feed) *Session {
	return &Session{c: c, s: s, f: f, ch: ch, Cr: cr}
}

func (x *Session) Open() { x.c.NoErr(x.TryOpen(), "open the store after %d blocks", x.Next) }

// TryOpen leaves it to the caller what to do about an error.
func (x *Session) TryOpen() error {
	var ix transactionindexing.ITransactionIndexer
	var err error
	if x.s.Delegated {
		x.AC, ix, err = x.Cr.OpenWithIndexer()
	} else {
		x.AC, err = x.Cr.Open()
	}
	x.ix = ix
	if err == nil && (x.s.Delegated || x.src == nil) {
		x.src = NewSource(x.c, x.ch, x.f, ix)
	}
	return err
}

func (x *Session) Append() { x.c.NoErr(x.TryAppend(), "append block %d", x.Next) }

// TryAppend leaves it to the caller what to do about an error.
func (x *Session) TryAppend() (err error) {
	if err = x.src.TryTo(x.Next); err != nil {
		return
	}
	if x.f.ChiAt(x.Next) {
		err = x.AC.AppendBlockChi(x.src.chi, x.src.hChi)
	} else {
		err = x.AC.AppendBlock(x.src.cri, x.src.hCri)
	}
	if err == nil {
		x.Next++
		err = x.ask()
	}
	return
}

// ask asks what the store says to those that fill it.
func (x *Session) ask() error {
	b, t, a, err := x.AC.(interface {
		CountHashes() (int64, int64, int64, error)
	}).CountHashes()
	if err != nil {
		return err
	}
	if b != int64(len(x.ch.Blocks)) || t != int64(len(x.ch.Txs)) || a != int64(len(x.ch.Txos)) {
		x.c.Failf("the store counts %d, %d and %d hashes, its lists have %d, %d and %d", b, t, a, len(x.ch.Blocks), len(x.ch.Txs), len(x.ch.Txos))
	}
	if x.ix == nil {
		return nil
	}
	bl := x.ch.Blocks[x.Next-1]
	first, err := x.ix.RetrieveBlockHeightToFirstTrans(int64(bl.Height))
	if err != nil {
		return err
	}
	if first != int64(bl.Txs[0].Height) {
		x.c.Failf("the first transaction of block %d is %d to the indexer, want %d", bl.Height, first, bl.Txs[0].Height)
	}
	for _, t := range bl.Txs {
		if !sampled(t.Index, len(bl.Txs), 3) {
			continue
		}
		p, err := x.ix.RetrieveTransHeightToParentBlock(int64(t.Height))
		if err != nil {
			return err
		}
		h, err := x.ix.RetrieveTransHashToHeight((*indexedhashes.Sha256)(&t.TxId))
		if err != nil {
			return err
		}
		if p != int64(bl.Height) || h != int64(x.ch.ByTxid[t.TxId][0]) {
			x.c.Failf("transaction %d of block %d is in block %d to the indexer, and its id at height %d", t.Height, bl.Height, p, h)
		}
	}
	return nil
}

// Whole runs the three passes.
func (s Store) Whole(c *vt.Ctx, dir string, ch *chaingen.Chain, hash, main Feed) {
	Gather(c, dir, ch, hash)
	s.Index(c, dir, ch)
	x := s.Begin(c, dir, ch, main)
	for i := range ch.Blocks {
		if main.CutAt(i) {
			x.AC.Close()
			x.Open()
		}
		x.Append()
	}
	x.AC.Close()
}

// Tree hashes every file below dir.
func Tree(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		m[rel] = fmt.Sprintf("%d bytes, sha256 %x", len(b), sha256.Sum256(b))
		return err
	})
	if err != nil {
		vt.Harnessf("walk: %v", err)
	}
	return m
}

// SameTree compares two results of Tree.
func SameTree(c *vt.Ctx, what, an, bn string, a, b map[string]string) {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		x, xok := a[k]
		y, yok := b[k]
		if xok != yok {
			c.Failf("%s: %s exists: %v %s, %v %s", what, k, xok, an, yok, bn)
		}
		if x != y {
			c.Failf("%s: %s is %s %s, %s %s", what, k, x, an, y, bn)
		}
	}
}

// CopyTree copies what is on disk now.
func CopyTree(from, to string) {
	if err := os.CopyFS(to, os.DirFS(from)); err != nil {
		vt.Harnessf("copy: %v", err)
	}
}
