// Package ixgen generates hash lists and index parameters for the bulk index
// (indexedhashes3) and checks an index against the list it was built from.
package ixgen

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"

	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"pgregory.net/rapid"
)

type Hash = [32]byte

// Params of an index, as numbers a case file can hold.
type Params struct {
	Bins    int64 `json:"bins"`
	Entries int64 `json:"entries"` // in bin start
	HiBits  int64 `json:"hiBits"`
	SnBytes int64 `json:"snBytes"`
	Digits  int   `json:"digits"`
	// Preset, if not 0, names one of the package's own sets of parameters; the others are then what it should hold.
	Preset int `json:"preset,omitempty"`
}

// DrawPreset takes the parameters from the package.
func DrawPreset(t *rapid.T) Params {
	return []Params{
		{Bins: 65536, Entries: 9, HiBits: 19, SnBytes: 6, Digits: 2, Preset: 1},
		{Bins: 65536, Entries: 10, HiBits: 18, SnBytes: 6, Digits: 2, Preset: 2},
		{Bins: 256, Entries: 440, HiBits: 17, SnBytes: 7, Digits: 2, Preset: 3},
		{Bins: 65536, Entries: 29, HiBits: 31, SnBytes: 6, Digits: 2, Preset: 4},
	}[vt.Pick(t, "preset", 2, 2, 3, 1)]
}

func (p Params) Divider() uint64 { return (uint64(1) << 63) / (uint64(p.Bins) >> 1) }

func (p Params) BytesPerEntry() int64 { return 24 + p.SnBytes + (p.HiBits-1)/8 + 1 }

// Make builds the real parameters; estimate sizes the passes.
func (p Params) Make(estimate int64) *indexedhashes3.HashIndexingParams {
	switch p.Preset {
	case 1:
		return indexedhashes3.Sensible2YearsAddressHashParams()
	case 2:
		return indexedhashes3.Sensible2YearsTransactionHashParams()
	case 3:
		return indexedhashes3.Sensible2YearsBlockHashParams()
	case 4:
		return indexedhashes3.Sensible16YearsBlockHashParams()
	}
	return indexedhashes3.NewHashStoreParams(p.HiBits, estimate, p.Digits, p.Bins, p.Entries, p.SnBytes)
}

func DrawParams(t *rapid.T) Params {
	p := Params{}
	switch vt.Pick(t, "binsk", 4, 3, 1) {
	case 0:
		p.Bins = []int64{2, 4, 8, 16, 64, 256, 512}[rapid.IntRange(0, 6).Draw(t, "bins")]
	case 1:
		p.Bins = 2 * rapid.Int64Range(1, 40).Draw(t, "bins")
	default:
		p.Bins = 2 * rapid.Int64Range(40, 700).Draw(t, "bins")
	}
	p.Entries = rapid.Int64Range(1, 6).Draw(t, "entries")
	p.HiBits = []int64{16, 17, 24, 30, 32, 40}[rapid.IntRange(0, 5).Draw(t, "hi")]
	need := int64(1)
	for need < 8 && (p.Divider()+uint64(p.Bins))>>(8*uint(need)) != 0 {
		need++
	}
	p.SnBytes = need
	if need < 8 && rapid.Bool().Draw(t, "roomy") {
		p.SnBytes = rapid.Int64Range(need, 8).Draw(t, "sn")
	}
	p.Digits = rapid.IntRange(1, 3).Draw(t, "digits")
	return p
}

// DrawBig suits lists of a hundred thousand hashes.
func DrawBig(t *rapid.T) Params {
	return Params{Bins: 4096, Entries: []int64{2, 30, 60}[rapid.IntRange(0, 2).Draw(t, "entries")],
		HiBits: []int64{24, 30, 40}[rapid.IntRange(0, 2).Draw(t, "hi")], SnBytes: 7, Digits: 2}
}

// Ent is one hash of the list: an 8-byte lead (which chooses bin and sort
// number) and a 24-byte tail, each from a small pool, so that hashes sharing
// one part but not the other, and exact repeats, are common.
type Ent struct {
	L int `json:"l"`
	T int `json:"t"`
}

type List struct {
	Leads    []vt.Hx `json:"leads"`
	Tails    int     `json:"tails"`
	Ents     []Ent   `json:"ents"`
	Bulk     int     `json:"bulk,omitempty"` // further random hashes
	BulkSeed uint32  `json:"bulkSeed,omitempty"`
	BulkMod  int     `json:"bulkMod,omitempty"` // repeats every BulkMod
}

func lead(t *rapid.T, p Params) vt.Hx {
	v := uint64(0)
	switch vt.Pick(t, "leadk", 4, 4, 1, 1, 2) {
	case 0:
		v = rapid.Uint64().Draw(t, "lead")
	case 1: // at a bin's edge
		bn := uint64(rapid.Int64Range(0, p.Bins).Draw(t, "bn"))
		v = bn*p.Divider() + uint64(rapid.Int64Range(-2, 2).Draw(t, "d"))
	case 2:
		v = uint64(rapid.Int64Range(0, 3).Draw(t, "lo"))
	case 3:
		v = ^uint64(0) - uint64(rapid.Int64Range(0, 3).Draw(t, "hi"))
	default: // many in one bin
		bn := uint64(rapid.Int64Range(0, min(p.Bins-1, 2)).Draw(t, "bn"))
		v = bn*p.Divider() + rapid.Uint64Range(0, 60).Draw(t, "d")
	}
	b := make(vt.Hx, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

func DrawList(t *rapid.T, p Params, maxEnts, maxBulk int) List {
	l := List{Tails: rapid.IntRange(1, 40).Draw(t, "tails")}
	n := rapid.IntRange(1, 20).Draw(t, "nleads")
	for i := 0; i < n; i++ {
		l.Leads = append(l.Leads, lead(t, p))
	}
	n = rapid.IntRange(0, maxEnts).Draw(t, "n")
	for i := 0; i < n; i++ {
		l.Ents = append(l.Ents, Ent{rapid.IntRange(0, len(l.Leads)-1).Draw(t, "l"), rapid.IntRange(0, l.Tails-1).Draw(t, "t")})
	}
	if maxBulk > 0 && vt.Pick(t, "bulk?", 5, 1) == 1 {
		l.Bulk = rapid.IntRange(1, maxBulk).Draw(t, "bulk")
		l.BulkSeed = rapid.Uint32Range(1, 1<<20).Draw(t, "bulkSeed")
		l.BulkMod = rapid.IntRange(1, 2*maxBulk).Draw(t, "bulkMod")
	}
	return l
}

func tail(n int) [24]byte {
	var r [24]byte
	copy(r[:], vt.Body(uint32(n)+77, 24))
	if n%7 == 6 { // ends in zero bytes
		for i := 2; i < 24; i++ {
			r[i] = 0
		}
		r[0] |= 1
	}
	return r
}

func join(l []byte, t [24]byte) (h Hash) {
	copy(h[:8], l)
	copy(h[8:], t[:])
	return
}

func (l List) Hashes() []Hash {
	r := make([]Hash, 0, len(l.Ents)+l.Bulk)
	for _, e := range l.Ents {
		r = append(r, join(l.Leads[e.L], tail(e.T)))
	}
	for i := 0; i < l.Bulk; i++ {
		var h Hash
		copy(h[:], vt.Body(l.BulkSeed+uint32(i%l.BulkMod), 32))
		r = append(r, h)
	}
	return r
}

// Absent are hashes near those of the list, some of which may be present.
func (l List) Absent() []Hash {
	var r []Hash
	for i, ld := range l.Leads {
		for j := 0; j < 4; j++ {
			r = append(r, join(ld, tail((i*3+j)%(l.Tails+4))))
		}
		other := append([]byte{}, ld...)
		other[i%8] ^= 1
		r = append(r, join(other, tail(i%l.Tails)))
		t := tail(i % l.Tails)
		t[(i*5)%24] ^= 0x10
		r = append(r, join(ld, t))
	}
	if l.Bulk > 0 {
		var h Hash
		copy(h[:], vt.Body(l.BulkSeed+uint32(l.BulkMod)+1000000, 32))
		r = append(r, h)
		copy(h[:], vt.Body(l.BulkSeed, 32))
		h[31] ^= 1
		r = append(r, h)
	}
	return r
}

// Indistinguishable reports the one documented blind spot of the entry format:
// an entry of only zero bytes reads as an unused one.
func Indistinguishable(hs []Hash, p Params) bool {
	if len(hs) == 0 {
		return false
	}
	for _, b := range hs[0][8:] {
		if b != 0 {
			return false
		}
	}
	return binary.LittleEndian.Uint64(hs[0][:8])%p.Divider() == 0
}

func WriteHashes(folder string, hs []Hash) {
	if err := os.MkdirAll(folder, 0o755); err != nil {
		vt.Harnessf("mkdir: %v", err)
	}
	b := make([]byte, 0, 32*len(hs))
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	if err := os.WriteFile(filepath.Join(folder, "Hashes.hsh"), b, 0o644); err != nil {
		vt.Harnessf("write: %v", err)
	}
}

// How the index is built.
type How struct {
	Adaptive    bool  `json:"adaptive"`
	Threads     int   `json:"threads"`
	BinsPerPass int64 `json:"binsPerPass"` // 0: all in one pass; adaptive: nonzero = one bin per pass
}

func DrawHow(t *rapid.T, p Params, adaptiveWeight int) How {
	h := How{Threads: rapid.IntRange(1, 9).Draw(t, "threads")}
	h.Adaptive = vt.Pick(t, "adaptive", 10, adaptiveWeight) == 1
	if h.Adaptive {
		if p.Bins <= 8 && vt.Pick(t, "tight", 3, 1) == 1 {
			h.BinsPerPass = 1
		}
	} else if rapid.Bool().Draw(t, "multi") {
		passes := rapid.Int64Range(1, min(p.Bins, 6)).Draw(t, "passes")
		h.BinsPerPass = (p.Bins + passes - 1) / passes
	}
	return h
}

// Build indexes folder/name, which must hold Hashes.hsh.
func Build(folder, name string, p Params, how How, hashes int) error {
	_, err := BuildAndCheck(folder, name, p, how, hashes)
	return err
}

// BuildAndCheck also gives the index's check of itself, if the method has one.
func BuildAndCheck(folder, name string, p Params, how How, hashes int) (func() error, error) {
	if how.Adaptive {
		gb := 1
		if how.BinsPerPass != 0 {
			gb = 0
		}
		_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(folder, name, p.Make(int64(hashes)+1), gb)
		if err != nil {
			return nil, err
		}
		return nil, pl.IndexTheHashes(how.Threads)
	}
	est := int64(hashes) + 1
	if how.BinsPerPass != 0 {
		est = p.Bins * ((1 << 30) / (p.BytesPerEntry() * how.BinsPerPass))
	}
	ba := indexedhashes3.NewBinsArray(p.Entries, p.BytesPerEntry(), 1)
	_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloader(folder, name, p.Make(est), 1, ba)
	if err != nil {
		return nil, err
	}
	return pl.TestTheHashes, pl.IndexTheHashes(how.Threads)
}

// Answers is everything an index answers about the list.
type Answers struct {
	Count   int64
	Index   []int64
	Get     []Hash
	Missing []int64
}

func First(hs []Hash) map[Hash]int64 {
	m := make(map[Hash]int64, len(hs))
	for i, h := range hs {
		if _, ok := m[h]; !ok {
			m[h] = int64(i)
		}
	}
	return m
}

// Ask queries the reader for every hash, index and absent hash.
func Ask(c *vt.Ctx, what string, r indexedhashes.HashReader, hs, absent []Hash) Answers {
	var a Answers
	n, err := r.CountHashes()
	c.NoErr(err, "%s: CountHashes", what)
	a.Count = n
	for i := range hs {
		sha := indexedhashes.Sha256(hs[i])
		ix, err := r.IndexOfHash(&sha)
		c.NoErr(err, "%s: IndexOfHash of hash %d", what, i)
		a.Index = append(a.Index, ix)
		var g indexedhashes.Sha256
		c.NoErr(r.GetHashAtIndex(int64(i), &g), "%s: GetHashAtIndex(%d)", what, i)
		a.Get = append(a.Get, Hash(g))
	}
	for i := range absent {
		sha := indexedhashes.Sha256(absent[i])
		ix, err := r.IndexOfHash(&sha)
		c.NoErr(err, "%s: IndexOfHash of query %d", what, i)
		a.Missing = append(a.Missing, ix)
	}
	return a
}

// Judge compares answers with the list itself.
func Judge(c *vt.Ctx, what string, a Answers, hs, absent []Hash) {
	first := First(hs)
	if a.Count != int64(len(hs)) {
		c.Failf("%s: CountHashes says %d of %d hashes", what, a.Count, len(hs))
	}
	for i, h := range hs {
		if a.Index[i] != first[h] {
			c.Failf("%s: IndexOfHash of hash %d (%x) is %d, it first occurs at %d", what, i, h, a.Index[i], first[h])
		}
		// A repeat may read as zeros: binbytes.go documents it.
		if a.Get[i] != h && !(first[h] != int64(i) && a.Get[i] == Hash{}) {
			c.Failf("%s: GetHashAtIndex(%d) is %x, the hash is %x", what, i, a.Get[i], h)
		}
	}
	for i, h := range absent {
		want, ok := first[h]
		if !ok {
			want = -1
		}
		if a.Missing[i] != want {
			c.Failf("%s: IndexOfHash of %x is %d, want %d", what, h, a.Missing[i], want)
		}
	}
}

// Name of reading mode m of 0..3.
var Modes = []string{"read/write", "read-only", "in RAM", "opened from its parameter file"}

// Open opens the index in a reading mode.
func Open(c *vt.Ctx, folder, name string, p Params, mode int) indexedhashes.HashReader {
	var r indexedhashes.HashReader
	var err error
	dir := folder + string(os.PathSeparator) + name
	switch mode {
	case 0:
		r, err = indexedhashes3.NewHashStoreCreatorPrivate(p.Make(1), dir, false).OpenHashStore()
	case 1:
		r, err = indexedhashes3.NewHashStoreCreatorPrivate(p.Make(1), dir, false).OpenHashStoreReadOnly()
	case 2:
		r, err = indexedhashes3.NewHashStoreCreatorPrivate(p.Make(1), dir, true).OpenHashStore()
	default:
		var cr indexedhashes.HashStoreCreator
		cr, err = indexedhashes3.NewHashStoreCreatorFromFile(folder, name, false)
		if err == nil {
			r, err = cr.OpenHashStoreReadOnly()
		}
	}
	c.NoErr(err, "open the index %s", Modes[mode])
	return r
}

// Describe classes a list for the evidence.
func Describe(c *vt.Ctx, hs []Hash, p Params) (dups, sameLead, sameTail, overflow bool) {
	lead := map[[8]byte]Hash{}
	tl := map[[24]byte]Hash{}
	bins := map[uint64]map[Hash]bool{}
	seen := map[Hash]bool{}
	for _, h := range hs {
		if seen[h] {
			dups = true
		}
		seen[h] = true
		if o, ok := lead[[8]byte(h[:8])]; ok && o != h {
			sameLead = true
		}
		lead[[8]byte(h[:8])] = h
		if o, ok := tl[[24]byte(h[8:])]; ok && o != h {
			sameTail = true
		}
		tl[[24]byte(h[8:])] = h
		bn := binary.LittleEndian.Uint64(h[:8]) / p.Divider()
		if bins[bn] == nil {
			bins[bn] = map[Hash]bool{}
		}
		bins[bn][h] = true
		if int64(len(bins[bn])) > p.Entries {
			overflow = true
		}
	}
	c.ClassIf(dups, "repeated hash")
	c.ClassIf(sameLead, "hashes sharing their lead")
	c.ClassIf(sameTail, "hashes sharing their tail")
	c.ClassIf(overflow, "overflowing bin")
	c.ClassIf(p.Bins&(p.Bins-1) != 0, "bins not a power of two")
	c.ClassIf(len(hs) == 0, "empty list")
	return
}

func (h How) String() string {
	return fmt.Sprintf("adaptive=%v threads=%d binsPerPass=%d", h.Adaptive, h.Threads, h.BinsPerPass)
}
