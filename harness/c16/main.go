// C16: the tiered hash store finds every hash, in whichever tier it has come to rest.
package main

import (
	"encoding/binary"

	"verifharness/vt"

	back "github.com/KitchenMishap/pudding-shed/weddingcakeback"
	front "github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"pgregory.net/rapid"
)

type hash = [32]byte

// seg is a family of hashes.
type seg struct {
	K    string `json:"k"` // random comb prefix dense tail twin
	Seed int    `json:"s"`
	N    int    `json:"n"`
	At   int    `json:"a"`
}

type op struct {
	K string `json:"k"` // app bake reopen look
	N int    `json:"n,omitempty"`
}

type cake struct {
	R     int    `json:"r"`
	Caps  [3]int `json:"caps"` // donut forests before each tier is merged down
	Specs int    `json:"specs"`
	Segs  []seg  `json:"segs"`
	Shuf  int    `json:"shuf"`
	Ops   []op   `json:"ops"`
	End   int    `json:"end"` // how the store is opened for the last reading: 0 live, 1 reopened, 2 read only, 3 cake, 4 cake read only
}

func (s seg) hashes() []hash {
	base := hash{}
	copy(base[:], vt.Body(uint32(s.Seed)+7, 32))
	var r []hash
	for i := 0; i < s.N; i++ {
		h := base
		switch s.K {
		case "random":
			copy(h[:], vt.Body(uint32(s.Seed*100003+i)+99, 32))
		case "comb": // hash i differs from the base in byte At+i only: a deep tree
			h[(s.At+i)%32] ^= byte(1 + i/32 + s.Seed%7)
		case "ladder": // the base itself, and hashes that leave it at each byte, the last byte first: the deepest tree
			if i > 0 {
				h[(96-i)%32] ^= byte(1 + i/33 + s.Seed%7)
			}
		case "prefix": // share At leading bytes
			copy(h[s.At:], vt.Body(uint32(s.Seed*200003+i)+3, 32-s.At))
		case "dense": // all values of a byte
			h[s.At%32] = byte(i)
			h[(s.At+9)%32] = byte(i >> 8)
			if s.Seed%3 == 0 {
				h[(s.At+5)%32] = byte(i * 7)
			}
		case "tail": // differ only at the very end
			binary.BigEndian.PutUint16(h[30:], uint16(i*(1+s.Seed%300)))
		case "twin": // pairs which differ in one late bit
			copy(h[:], vt.Body(uint32(s.Seed*300007+i/2)+11, 32))
			if i%2 == 1 {
				h[8+(s.At+i)%24] ^= 0x10
			}
		case "zero": // many zero bytes
			h = hash{}
			h[s.At%32] = byte(i)
			h[(s.At+1)%32] = byte(i / 16 * 3)
		}
		r = append(r, h)
	}
	return r
}

func (k cake) hashes() []hash {
	seen := map[hash]bool{}
	var r []hash
	for _, s := range k.Segs {
		for _, h := range s.hashes() {
			if !seen[h] {
				seen[h] = true
				r = append(r, h)
			}
		}
	}
	if k.Shuf > 0 {
		x := uint64(k.Shuf)*0x9E3779B97F4A7C15 + 1
		for i := len(r) - 1; i > 0; i-- {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			j := int(x % uint64(i+1))
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func drawSegs(t *rapid.T, big bool) []seg {
	var segs []seg
	n := rapid.IntRange(1, 5).Draw(t, "segs")
	for i := 0; i < n; i++ {
		s := seg{K: []string{"random", "comb", "prefix", "dense", "tail", "twin", "zero", "ladder"}[vt.Pick(t, "kind", 3, 3, 3, 3, 2, 2, 2, 2)]}
		s.Seed = rapid.IntRange(0, 40).Draw(t, "seed")
		s.At = rapid.IntRange(0, 31).Draw(t, "at")
		if s.K == "prefix" {
			s.At = []int{1, 2, 3, 4, 8, 16, 29, 31}[rapid.IntRange(0, 7).Draw(t, "share")]
		}
		top := 60
		if s.K == "dense" {
			top = 300
		}
		if big && s.K == "random" {
			top = 3000
		}
		s.N = vt.Size(t, "n", 12, top) + 1
		if s.K == "ladder" && rapid.Bool().Draw(t, "full") {
			s.N = 33 + rapid.IntRange(0, 33).Draw(t, "over")
		}
		segs = append(segs, s)
	}
	return segs
}

func gen(deep bool) func(t *rapid.T) cake {
	return func(t *rapid.T) cake {
		k := cake{}
		k.R = rapid.IntRange(0, 4).Draw(t, "r")
		if vt.Pick(t, "longr", 12, 1) == 1 {
			k.R = rapid.IntRange(5, 32).Draw(t, "r")
		}
		k.Specs = rapid.IntRange(5, 12).Draw(t, "specs")
		if deep {
			k.Caps = [3]int{rapid.IntRange(1, 2).Draw(t, "cap0"), rapid.IntRange(1, 2).Draw(t, "cap1"), 250}
		} else {
			k.Caps = [3]int{rapid.IntRange(1, 5).Draw(t, "cap0"), 250, 250}
		}
		k.Segs = drawSegs(t, !deep)
		k.Shuf = rapid.IntRange(0, 3).Draw(t, "shuf")
		total := len(k.hashes())
		n := rapid.IntRange(2, 14).Draw(t, "ops")
		if vt.Pick(t, "once", 3, 1) == 1 { // everything in one bake
			n = 0
			k.Ops = []op{{K: "app", N: total}, {K: "bake"}}
		}
		left, bakes := total, 0
		if n == 0 {
			left = 0
		}
		for i := 0; i < n; i++ {
			o := op{K: []string{"app", "bake", "reopen", "look"}[vt.Pick(t, "op", 8, 6, 2, 2)]}
			switch o.K {
			case "app":
				// often a lone hash, so that trees of one hash are baked
				o.N = 1
				if vt.Pick(t, "many", 1, 3) == 1 {
					o.N = rapid.IntRange(1, max(1, total/2)).Draw(t, "n")
				}
				o.N = min(o.N, left)
				left -= o.N
			case "bake":
				if bakes++; deep && bakes > 5 {
					o.K = "look"
				}
			case "reopen":
				o.N = rapid.IntRange(0, 1).Draw(t, "cake")
			}
			k.Ops = append(k.Ops, o)
		}
		k.Ops = append(k.Ops, op{K: "app", N: left})
		if rapid.Bool().Draw(t, "lastbake") && bakes < 5 {
			k.Ops = append(k.Ops, op{K: "bake"})
		}
		k.End = rapid.IntRange(0, 4).Draw(t, "end")
		return k
	}
}

func (k cake) config() *back.CakeConfig {
	c := back.NewCakeConfig(32, byte(k.R))
	for i := range c.TierBelowConfigs {
		c.TierBelowConfigs[i].NodeFormatSpecsPerLevel = byte(k.Specs)
		if i < 3 {
			c.TierBelowConfigs[i].MaxDonutForests = byte(k.Caps[i])
		}
	}
	return c
}

// reader is what both a bare chain of tiers and a cake can do.
type reader struct {
	index func(h *hash) (int64, error)
	at    func(i int64, h *hash) (bool, error)
}

func chain(top *back.TierTop) reader {
	return reader{
		index: func(h *hash) (int64, error) {
			for r := back.TierReadable(top); r != nil; r = r.GetNextTier() {
				pi, ok, err := r.TryIndexOfHash(h[:])
				if err != nil {
					return -1, err
				}
				if ok {
					return int64(pi), nil
				}
			}
			return -1, nil
		},
		at: func(i int64, h *hash) (bool, error) {
			for r := back.TierReadable(top); r != nil; r = r.GetNextTier() {
				ok, err := r.TryGetHashAtIndex(back.GlobalPiType(i), h[:])
				if err != nil || ok {
					return ok, err
				}
			}
			return false, nil
		},
	}
}

func cakeReader(c front.HashReader[*front.Sha256]) reader {
	return reader{
		index: func(h *hash) (int64, error) { return c.IndexOfHash(h) },
		at: func(i int64, h *hash) (bool, error) {
			// a number that was never given is an error for the cake
			return c.GetHashAtIndex(i, h) == nil, nil
		},
	}
}

func judge(c *vt.Ctx, rd reader, appended []hash, step int, when string) {
	known := map[hash]bool{}
	for _, h := range appended {
		known[h] = true
	}
	for i := 0; i < len(appended); i += step {
		h := appended[i]
		got, err := rd.index(&h)
		c.NoErr(err, "%s: looking up hash %d of %d (%x)", when, i, len(appended), h)
		if got != int64(i) {
			c.Failf("%s: hash %d of %d (%x) is said to be number %d", when, i, len(appended), h, got)
		}
		if h != appended[i] {
			c.Failf("%s: looking up a hash changed the caller's copy", when)
		}
		var back hash
		ok, err := rd.at(int64(i), &back)
		c.NoErr(err, "%s: reading hash number %d of %d", when, i, len(appended))
		if !ok || back != h {
			c.Failf("%s: hash number %d of %d reads back as %x (found %v), it is %x", when, i, len(appended), back, ok, h)
		}
		// hashes which were never appended, the nearest ones to those which were
		for _, b := range []int{0, 1, 2, 3 + i%6, 9 + i%22, 31} {
			a := h
			a[b] ^= byte(1 << (i % 8))
			if known[a] {
				continue
			}
			got, err := rd.index(&a)
			c.NoErr(err, "%s: looking up a hash which was never appended (%x)", when, a)
			if got != -1 {
				c.Failf("%s: hash %x was never appended (byte %d differs from hash %d), yet it is said to be number %d", when, a, b, i, got)
			}
		}
	}
	for _, i := range []int64{-1, int64(len(appended)), int64(len(appended)) + 70000, -65536} {
		var h hash
		ok, err := rd.at(i, &h)
		if err == nil && ok {
			c.Failf("%s: number %d was never given (there are %d), yet it reads back as %x", when, i, len(appended), h)
		}
	}
}

func run(c *vt.Ctx, k cake) {
	folder := c.Dir()
	all := k.hashes()
	cfg := k.config()
	cr := back.NewTierTopCreator(folder, cfg)
	c.NoErr(cr.Create(0), "creating the store")
	top, err := cr.Open()
	c.NoErr(err, "opening the new store")
	var appended []hash
	bakes, inTop, deepest := 0, 0, -1
	buf := hash{}
	note := func() {
		for r, d := top.GetNextTier(), 0; r != nil; r, d = r.GetNextTier(), d+1 {
			if tb, ok := r.(*back.TierBelow); ok && len(tb.DonutForestsInfo) > 0 && d > deepest {
				deepest = d
			}
		}
	}
	for oi, o := range k.Ops {
		switch o.K {
		case "app":
			for i := 0; i < o.N && len(appended) < len(all); i++ {
				buf = all[len(appended)]
				got, err := top.AppendHash(buf[:])
				c.NoErr(err, "op %d: appending hash %d", oi, len(appended))
				if int(got) != len(appended) {
					c.Failf("op %d: hash %d was given number %d", oi, len(appended), got)
				}
				appended = append(appended, all[len(appended)])
				inTop++
				for j := range buf { // the caller's buffer is the caller's
					buf[j] = byte(j * 3)
				}
			}
		case "bake":
			if inTop == 0 {
				continue
			}
			c.NoErr(back.NewDonutForestWrite(top, cfg).Write(folder), "op %d: baking %d hashes", oi, inTop)
			bakes++
			inTop = 0
			note()
			judge(c, chain(top), appended, 1+len(appended)/150, "after a bake")
		case "reopen":
			c.NoErr(top.Sync(), "op %d: sync", oi)
			c.NoErr(top.CloseAll(), "op %d: close", oi)
			if o.N == 1 {
				// let the cake append the next hash meanwhile
				ck, err := front.NewCakeCreator(folder, byte(k.R)).OpenHashStore()
				c.NoErr(err, "op %d: opening as a cake", oi)
				judge(c, cakeReader(ck), appended, 1+len(appended)/40, "as a cake")
				if len(appended) < len(all) {
					h := all[len(appended)]
					got, err := ck.AppendHash(&h)
					c.NoErr(err, "op %d: appending to the cake", oi)
					if got != int64(len(appended)) {
						c.Failf("op %d: the cake gave hash %d number %d", oi, len(appended), got)
					}
					appended = append(appended, h)
					h[0]++
					inTop++
					judge(c, cakeReader(ck), appended, 1+len(appended)/40, "as a cake after an append")
				}
				c.NoErr(ck.Close(), "op %d: closing the cake", oi)
			}
			top, err = cr.Open()
			c.NoErr(err, "op %d: reopening", oi)
			n, err := top.CountHashes()
			c.NoErr(err, "op %d: count", oi)
			if int(n) != inTop {
				c.Failf("op %d: the reopened top tier holds %d hashes, not %d", oi, n, inTop)
			}
		case "look":
			judge(c, chain(top), appended, 1+len(appended)/40, "between operations")
		}
	}
	note()
	switch k.End {
	case 0:
		judge(c, chain(top), appended, 1, "at the end")
		c.NoErr(top.CloseAll(), "closing")
	case 1, 2:
		c.NoErr(top.CloseAll(), "closing")
		if k.End == 1 {
			top, err = cr.Open()
		} else {
			top, err = cr.OpenReadOnly()
		}
		c.NoErr(err, "reopening at the end")
		judge(c, chain(top), appended, 1, "at the end, reopened")
		c.NoErr(top.CloseAll(), "closing again")
	default:
		c.NoErr(top.CloseAll(), "closing")
		cc := front.NewCakeCreator(folder, byte(k.R))
		var ck front.HashReader[*front.Sha256]
		if k.End == 3 {
			ck, err = cc.OpenHashStore()
		} else {
			ck, err = cc.OpenHashStoreReadOnly()
		}
		c.NoErr(err, "opening as a cake at the end")
		judge(c, cakeReader(ck), appended, 1, "at the end, as a cake")
		c.NoErr(ck.Close(), "closing the cake")
	}
	if bakes > 0 {
		c.NonTrivial()
	}
	c.ClassIf(bakes > 1, "several bakes")
	c.ClassIf(deepest >= 1, "tier 1 in use")
	c.ClassIf(deepest >= 2, "tier 2 in use")
	c.ClassIf(bakes > 0 && inTop > 0, "hashes in the top tier after a bake")
	c.ClassIf(k.End >= 3, "read as a cake")
}

// live is a cake that fills up by itself.
type live struct {
	R    int `json:"r"`
	Seed int `json:"seed"`
	N    int `json:"n"`
	Step int `json:"step"`
	Re   int `json:"re"` // close and reopen when this many are in (0: never)
}

func genLive(most int) func(t *rapid.T) live {
	return func(t *rapid.T) live {
		l := live{R: rapid.IntRange(1, 4).Draw(t, "r"), Seed: rapid.IntRange(0, 1<<20).Draw(t, "seed")}
		l.N = 65535*rapid.IntRange(1, most).Draw(t, "fills") + rapid.IntRange(-1, 300).Draw(t, "over")
		if rapid.Bool().Draw(t, "re") {
			l.Re = rapid.IntRange(1, l.N-1).Draw(t, "reat")
		}
		l.Step = rapid.IntRange(150, 400).Draw(t, "step")
		return l
	}
}

func runLive(c *vt.Ctx, l live) {
	cc := front.NewCakeCreator(c.Dir(), byte(l.R))
	if cc.HashStoreExists() {
		c.Failf("a store exists before it is created")
	}
	c.NoErr(cc.CreateHashStore(), "creating")
	ck, err := cc.OpenHashStore()
	c.NoErr(err, "opening")
	body := vt.Body(uint32(l.Seed), 32*l.N)
	var appended []hash
	for i := 0; i < l.N; i++ {
		var h hash
		copy(h[:], body[32*i:])
		binary.LittleEndian.PutUint32(h[10:], uint32(i))
		appended = append(appended, h)
		got, err := ck.AppendHash(&h)
		c.NoErr(err, "appending hash %d", i)
		if got != int64(i) {
			c.Failf("hash %d was given number %d", i, got)
		}
		if i+1 == l.Re {
			c.NoErr(ck.Close(), "closing after %d", i+1)
			ck, err = cc.OpenHashStore()
			c.NoErr(err, "reopening after %d", i+1)
		}
	}
	judge(c, cakeReader(ck), appended, l.Step, "filled live")
	c.NoErr(ck.Close(), "closing")
	ro, err := cc.OpenHashStoreReadOnly()
	c.NoErr(err, "reopening read only")
	judge(c, cakeReader(ro), appended, l.Step+1, "filled live, reopened")
	c.NoErr(ro.Close(), "closing")
	c.NonTrivial()
}

func main() {
	vt.Main("C16",
		vt.New("tiers", "at least one bake moved hashes down a tier", 3000, 60000, gen(false), run),
		vt.New("deep", "at least one bake moved hashes down a tier", 160, 4000, gen(true), run),
		vt.New("live", "the top tier filled up and baked itself", 8, 120, func(t *rapid.T) live { return genLive(1 + 6*deepRun(t))(t) }, runLive),
	)
}

// deepRun makes a rare case fill the cake far enough to merge into tier 1.
func deepRun(t *rapid.T) int {
	return vt.Pick(t, "deeprun", 24, 1)
}
