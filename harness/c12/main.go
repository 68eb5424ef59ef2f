// C12: the uniform hash store answers what its hash list says, indexed in bulk and grown afterwards.
package main

import (
	"encoding/binary"
	"math"
	"path/filepath"

	"verifharness/ixgen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"pgregory.net/rapid"
)

type hash = [32]byte

// run of hashes with leads from the same place.
type group struct {
	Where int    `json:"w"` // 0 random, 1 low end of bin, 2 high end of bin, 3 very top, 4 very bottom
	Bin   uint64 `json:"bin"`
	N     int    `json:"n"`
	Seed  uint32 `json:"s"`
	Mod   int    `json:"mod"`             // repeats every Mod
	Share int    `json:"share,omitempty"` // alike up to this byte
}

type ucase struct {
	Est    int64   `json:"est"`
	Digits int     `json:"digits"`
	Bins   int64   `json:"binsPerPass"` // 0: a gigabyte
	Old    bool    `json:"old,omitempty"`
	List   []group `json:"list"`
	More   []group `json:"more,omitempty"` // appended afterwards
	Reopen bool    `json:"reopen,omitempty"`
	NoBulk bool    `json:"noBulk,omitempty"` // everything appended to an empty store
}

func (v ucase) divider() uint64 {
	return uint64(math.Pow(2, 64) / float64(max(1, v.Est/75)))
}

func (v ucase) expand(gs []group) (r []hash) {
	for _, g := range gs {
		d := v.divider()
		for i := 0; i < g.N; i++ {
			k := uint32(i % max(1, g.Mod))
			var h hash
			copy(h[:], vt.Body(g.Seed*1000+k, 32))
			if g.Share > 0 {
				copy(h[:g.Share], vt.Body(g.Seed*1000, 32))
				h[31] = byte(k)
				if g.Share < 31 {
					h[30] = byte(k >> 8)
				}
			}
			var l uint64
			switch g.Where {
			case 0:
				r = append(r, h)
				continue
			case 1:
				l = g.Bin*d + uint64(k%3)
			case 2:
				l = g.Bin*d - 1 - uint64(k%3)
			case 3:
				l = math.MaxUint64 - uint64(k%3)
			case 4:
				l = uint64(k % 3)
			}
			binary.LittleEndian.PutUint64(h[:8], l)
			r = append(r, h)
		}
	}
	return
}

func drawGroups(t *rapid.T, est int64, n int) (r []group) {
	for ; n > 0; n-- {
		g := group{Where: vt.Pick(t, "w", 4, 4, 2, 2, 1), Seed: rapid.Uint32Range(1, 6).Draw(t, "s")}
		g.Bin = uint64(rapid.Int64Range(0, max(1, min(est/75, 4))).Draw(t, "bin"))
		g.N = vt.Size(t, "n", 20, 260)
		g.Mod = rapid.IntRange(1, 300).Draw(t, "mod")
		if vt.Pick(t, "alike", 2, 1) == 1 {
			g.Share = rapid.SampledFrom([]int{4, 8, 15, 16, 23, 24, 28, 30, 31}).Draw(t, "share")
		}
		r = append(r, g)
	}
	return
}

func gen(t *rapid.T) ucase {
	v := ucase{Digits: rapid.IntRange(1, 3).Draw(t, "digits")}
	switch vt.Pick(t, "estk", 4, 2) {
	case 0:
		v.Est = rapid.Int64Range(75, 1500).Draw(t, "est")
	case 1:
		v.Est = 75 * rapid.Int64Range(1, 40).Draw(t, "files")
	}
	if rapid.Bool().Draw(t, "passes") {
		v.Bins = rapid.Int64Range(1, v.Est/75+2).Draw(t, "bins")
	}
	v.Old = vt.Pick(t, "old", 5, 1) == 1
	v.NoBulk = vt.Pick(t, "nobulk", 4, 1) == 1
	v.List = drawGroups(t, v.Est, rapid.IntRange(0, 5).Draw(t, "groups"))
	v.More = drawGroups(t, v.Est, rapid.IntRange(0, 2).Draw(t, "moregroups"))
	v.Reopen = rapid.Bool().Draw(t, "reopen")
	return v
}

func run(c *vt.Ctx, v ucase) {
	folder, name := c.Dir(), "U"
	cr := indexedhashes.NewUniformHashStoreCreatorPrivate(v.Est, folder, name, v.Digits)
	if cr.HashStoreExists() {
		c.Failf("HashStoreExists before it was created")
	}
	c.NoErr(cr.CreateHashStore(), "CreateHashStore")
	if !cr.HashStoreExists() {
		c.Failf("HashStoreExists is false after CreateHashStore")
	}
	list := v.expand(v.List)
	more := v.expand(v.More)
	bytes := int64(1) << 30
	if v.Bins > 0 {
		bytes = 832*v.Bins + v.Bins%5
	}
	first := map[hash]int64{}
	perBin := map[uint64]int{}
	note := func(hs []hash, from int) {
		for i, h := range hs {
			if _, ok := first[h]; !ok {
				first[h] = int64(from + i)
				perBin[binary.LittleEndian.Uint64(h[:8])/v.divider()]++
			}
		}
	}
	if v.NoBulk {
		more = append(list, more...)
		list = nil
	} else {
		if v.Old {
			old := v.expand([]group{{Where: 1, N: 150, Seed: 9, Mod: 150}})
			ixgen.WriteHashes(filepath.Join(folder, name), old)
			c.NoErr(indexedhashes.NewMultipassPreloader(cr, bytes).IndexTheHashes(), "index the earlier hashes")
		}
		ixgen.WriteHashes(filepath.Join(folder, name), list)
		c.NoErr(indexedhashes.NewMultipassPreloader(cr, bytes).IndexTheHashes(), "IndexTheHashes of %d", len(list))
	}
	note(list, 0)
	var absent []hash
	for _, h := range append(append([]hash{}, list...), more...) {
		if len(absent) > 30 {
			break
		}
		a := h
		a[31] ^= 1
		absent = append(absent, a)
		a = h
		a[0] ^= 1
		absent = append(absent, a)
	}
	for _, l := range []uint64{0, math.MaxUint64, v.divider(), v.divider() - 1} {
		var a hash
		binary.LittleEndian.PutUint64(a[:8], l)
		absent = append(absent, a)
	}
	absent = append(absent, more[:min(20, len(more))]...)
	judge := func(what string, r indexedhashes.HashReader, hs []hash) {
		ixgen.Judge(c, what, ixgen.Ask(c, what, r, hs, absent), hs, absent)
		for i := range hs { // unlike the other index, the list itself is kept
			var g indexedhashes.Sha256
			c.NoErr(r.GetHashAtIndex(int64(i), &g), "%s: GetHashAtIndex", what)
			if hash(g) != hs[i] {
				c.Failf("%s: GetHashAtIndex(%d) is %x, want %x", what, i, g, hs[i])
			}
		}
		for _, i := range []int64{-1, int64(len(hs)), int64(len(hs)) + 1000} {
			var g indexedhashes.Sha256
			if r.GetHashAtIndex(i, &g) == nil {
				c.Failf("%s: GetHashAtIndex(%d) of %d reports no error", what, i, len(hs))
			}
		}
	}
	r, err := cr.OpenHashStoreReadOnly()
	c.NoErr(err, "OpenHashStoreReadOnly")
	judge("read-only", r, list)
	c.NoErr(r.Close(), "Close")
	cr2, _, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile(folder, name, 1)
	c.NoErr(err, "open from the parameter file")
	rw, err := cr2.OpenHashStore()
	c.NoErr(err, "OpenHashStore")
	judge("from the parameter file", rw, list)
	cur := append([]hash{}, list...)
	for i, h := range more {
		sha := indexedhashes.Sha256(h)
		ix, err := rw.AppendHash(&sha)
		c.NoErr(err, "AppendHash number %d", i)
		if ix != int64(len(cur)) {
			c.Failf("AppendHash returned index %d, want %d", ix, len(cur))
		}
		cur = append(cur, h)
		if v.Reopen && i == len(more)/2 {
			c.NoErr(rw.Close(), "Close")
			rw, err = cr.OpenHashStore()
			c.NoErr(err, "OpenHashStore")
		}
		if i%17 == 0 {
			ix, err := rw.IndexOfHash(&sha)
			c.NoErr(err, "IndexOfHash")
			want, ok := first[h]
			if !ok {
				for j := range cur {
					if cur[j] == h {
						want = int64(j)
						break
					}
				}
			}
			if ix != want {
				c.Failf("IndexOfHash of the hash just appended is %d, want %d", ix, want)
			}
		}
	}
	note(more, len(list))
	if len(more) > 0 {
		judge("after appending", rw, cur)
		c.NoErr(rw.Sync(), "Sync")
		c.Class("appended afterwards")
	}
	c.NoErr(rw.Close(), "Close")
	rw, err = cr.OpenHashStore()
	c.NoErr(err, "OpenHashStore")
	judge("reopened", rw, cur)
	if u, ok := rw.(*indexedhashes.UniformHashStore); ok {
		good, err := u.Test()
		c.NoErr(err, "Test")
		if !good {
			c.Failf("the store's own Test says it is wrong")
		}
	}
	c.NoErr(rw.Close(), "Close")
	mx := 0
	for _, n := range perBin {
		mx = max(mx, n)
	}
	c.ClassIf(mx > 102, "overflowing bin")
	c.ClassIf(len(first) < len(cur), "repeated hash")
	c.ClassIf(v.Bins > 0 && v.Bins < v.Est/75, "several passes")
	c.ClassIf(v.Old && !v.NoBulk, "indexed over an earlier index")
	if len(first) >= 3 && (mx > 20 || len(first) < len(cur) || len(more) > 0) {
		c.NonTrivial()
	}
}

func main() {
	vt.Main("C12", vt.New("uniform", "at least 3 distinct hashes, and a bin of over 20, a repeat, or hashes appended after indexing", 4000, 80000, gen, run))
}
