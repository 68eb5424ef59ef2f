// C19: the prefix-tree index returns the right position for every hash.
package main

import (
	"bytes"

	"verifharness/treegen"
	"verifharness/vt"

	tree "github.com/KitchenMishap/pudding-shed/indexedhashestree"
	"pgregory.net/rapid"
)

type indexCase struct {
	Set   treegen.Set `json:"set"`
	Rep   []int       `json:"repeat"` // hashes presented again: which, and where
	First int64       `json:"first"`
	Probe uint32      `json:"probe"`
	Keep  int         `json:"keep"` // levels of the written form kept
	Twice bool        `json:"twice"`
}

func runIndex(c *vt.Ctx, v indexCase) {
	var hs [][32]byte
	for _, h := range v.Set.Hashes() {
		hs = append(hs, [32]byte(h))
	}
	if len(hs) > 1 {
		c.NonTrivial()
	}
	distinct := len(hs)
	for k := 0; k+1 < len(v.Rep) && distinct > 0; k += 2 {
		h := hs[v.Rep[k]%len(hs)]
		p := v.Rep[k+1] % (len(hs) + 1)
		hs = append(hs[:p], append([][32]byte{h}, hs[p:]...)...)
	}
	for _, f := range v.Set.Fams {
		c.ClassIf(f.Kind == 3 && f.N >= 30, "deep comb")
	}
	c.ClassIf(len(hs) == 0, "no hashes")
	c.ClassIf(len(hs) == 1, "a lone hash")
	c.ClassIf(len(hs) == 1 && hs[0][0] == 0, "a lone hash whose first byte is zero")
	c.ClassIf(distinct == 1 && len(hs) > 1, "the same hash over and over")
	check(c, hs, v.First, v.Probe, v.Keep, v.Twice)
}

// check returns whether the hashes fit.
func check(c *vt.Ctx, hs [][32]byte, first int64, probe uint32, keep int, twice bool) bool {
	at := map[[32]byte]int64{}
	times := map[[32]byte]int{}
	list := make([][]byte, 0, len(hs))
	for i := len(hs) - 1; i >= 0; i-- {
		at[hs[i]] = first + int64(i)
		times[hs[i]]++
	}
	for i := range hs {
		list = append(list, hs[i][:])
	}
	tr := tree.VerifNew()
	if twice { // what was there before is gone
		tr.Generate([][32]byte{{1}, {2}, {2}, {3, 4}}, 17)
	}
	if tr.Generate(hs, first) {
		// A tree that does not fit says so and finds nothing.
		c.Class("does not fit")
		if len(hs) < 30000 {
			c.Failf("%d hashes do not fit", len(hs))
		}
		for _, h := range hs[:100] {
			if i, dup := tr.Lookup(h); i != -1 || dup {
				c.Failf("%x is at %d (repeated: %v) in a tree that it did not fit", h, i, dup)
			}
		}
		return false
	}
	for h, want := range at {
		i, dup := tr.Lookup(h)
		if i != want || dup != (times[h] > 1) {
			c.Failf("%x, presented %d times, is at %d (repeated: %v), want %d", h, times[h], i, dup, want)
		}
		c.ClassIf(dup, "repeated")
	}
	var probes [][32]byte
	for _, h := range treegen.Probes(list, 32, 0, probe, 60+len(hs)/8) {
		probes = append(probes, [32]byte(h))
	}
	for _, h := range probes {
		i, _ := tr.Lookup(h)
		if i != -1 && (i < first || i >= first+int64(len(hs))) {
			c.Failf("%x, not presented, is at %d of %d from %d", h, i, len(hs), first)
		}
	}
	tr.Write()
	raw, levels := tr.Bytes()
	if !bytes.Equal(raw, bytes.Join(levels, nil)) {
		c.Failf("the levels of the written form have %d bytes, the form %d", len(bytes.Join(levels, nil)), len(raw))
	}
	bits := map[[32]byte]uint32{}
	same := func(h [32]byte) {
		i, dup := tr.Lookup(h)
		j, dup2, b := tr.LookupWritten(h)
		bits[h] = b
		if i != j || dup != dup2 {
			c.Failf("%x, presented %d times, is at %d (repeated: %v) in memory and at %d (repeated: %v) in the written form", h, times[h], i, dup, j, dup2)
		}
	}
	for h := range at {
		same(h)
	}
	for _, h := range probes {
		same(h)
	}
	// A hash that agrees in the examined bytes is at the same place: the others have no say.
	for h := range at {
		g := h
		for k := range g {
			if bits[h]>>uint(k)&1 == 0 {
				g[k] ^= 0x3C
			}
		}
		if i, _, _ := tr.LookupWritten(g); i != at[h] {
			c.Failf("%x agrees with %x in the bytes examined, yet is at %d and not %d", g, h, i, at[h])
		}
	}
	// With some levels left out an answer is the same, or that levels are missing.
	if keep < len(levels) {
		full := map[[32]byte]int64{}
		for h := range at {
			full[h] = at[h]
		}
		for _, h := range probes {
			i, _, _ := tr.LookupWritten(h)
			full[h] = i
		}
		tr.Keep(keep)
		gone := false
		for h, want := range full {
			i, _, _ := tr.LookupWritten(h)
			if i != -2 && i != want {
				c.Failf("%x is at %d with %d levels, want %d", h, i, keep, want)
			}
			gone = gone || i == -2
		}
		c.ClassIf(gone, "levels missing")
	}
	return true
}

// --- As many hashes as there is room for.

type brimCase struct {
	Pairs int `json:"pairs"`
	Off   int `json:"off"` // hashes beyond the number that just fits
	Keep  int `json:"keep"`
}

func runBrim(c *vt.Ctx, v brimCase) {
	c.NonTrivial()
	// Hashes that differ in two bytes, and some pairs that differ in a third:
	// 257 nodes and one for each pair. Numbers of hashes and nodes share 16 bits.
	cells := 65536 - 257 - 2*v.Pairs + v.Off
	cells -= v.Pairs
	hs := make([][32]byte, 0, 65536)
	for i := 0; i < cells+v.Pairs && i < 65536; i++ {
		h := [32]byte{5: byte(i), 9: byte(i >> 8)}
		hs = append(hs, h)
		if i < v.Pairs {
			h[20] = 1
			hs = append(hs, h)
		}
	}
	fits := check(c, hs, 1000, uint32(v.Pairs), v.Keep, false)
	c.ClassIf(fits, "just fits")
	if v.Off <= -3 && !fits {
		c.Failf("%d hashes in %d pairs do not fit though there is room", len(hs), v.Pairs)
	}
}

func main() {
	vt.Main("C19",
		vt.New("index", "at least two different hashes", 15000, 200000, func(t *rapid.T) indexCase {
			v := indexCase{Set: treegen.Draw(t, 32, 0, 4000), Probe: rapid.Uint32Range(0, 1<<20).Draw(t, "probe"), Keep: rapid.IntRange(0, 33).Draw(t, "keep"), Twice: rapid.Bool().Draw(t, "twice")}
			if vt.Pick(t, "from", 1, 1) == 1 {
				v.First = rapid.Int64Range(0, 1<<40).Draw(t, "first")
			}
			if vt.Pick(t, "repeats", 1, 1) == 1 {
				for n := 2 * rapid.IntRange(1, 12).Draw(t, "n"); n > 0; n-- {
					v.Rep = append(v.Rep, rapid.IntRange(0, 5000).Draw(t, "rep"))
				}
			}
			return v
		}, runIndex),
		vt.New("brim", "every case: about as many hashes as fit", 24, 400, func(t *rapid.T) brimCase {
			return brimCase{Pairs: rapid.IntRange(1, 20000).Draw(t, "pairs"), Off: rapid.IntRange(-4, 3).Draw(t, "off"), Keep: rapid.IntRange(0, 33).Draw(t, "keep")}
		}, runBrim),
	)
}
