// C09: the bulk index answers exactly what the hash list says.
package main

import (
	"os"
	"path/filepath"

	"verifharness/ixgen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"pgregory.net/rapid"
)

type one struct {
	P   ixgen.Params `json:"p"`
	L   ixgen.List   `json:"list"`
	How ixgen.How    `json:"how"`
	// A previous indexing of other hashes in the same folder, if not nil.
	Old *ixgen.List `json:"old,omitempty"`
}

func gen(maxEnts, maxBulk, adaptive int, params func(*rapid.T) ixgen.Params) func(t *rapid.T) one {
	return func(t *rapid.T) one {
		v := one{P: params(t)}
		v.L = ixgen.DrawList(t, v.P, maxEnts, maxBulk)
		v.How = ixgen.DrawHow(t, v.P, adaptive)
		if vt.Pick(t, "old?", 6, 1) == 1 {
			o := ixgen.DrawList(t, v.P, maxEnts, 0)
			v.Old = &o
		}
		return v
	}
}

func run(c *vt.Ctx, v one) {
	hs := v.L.Hashes()
	if ixgen.Indistinguishable(hs, v.P) {
		c.Class("skipped: all-zero first entry")
		return
	}
	folder, name := c.Dir(), "Hashes"
	if v.Old != nil {
		old := v.Old.Hashes()
		ixgen.WriteHashes(folder+"/"+name, old)
		c.NoErr(ixgen.Build(folder, name, v.P, ixgen.How{Threads: 1}, len(old)), "index the earlier hashes")
		c.Class("indexed over an earlier index")
	}
	ixgen.WriteHashes(folder+"/"+name, hs)
	check, err := ixgen.BuildAndCheck(folder, name, v.P, v.How, len(hs))
	c.NoErr(err, "index %d hashes (%s)", len(hs), v.How)
	absent := v.L.Absent()
	if check != nil {
		c.NoErr(check(), "the index's check of itself")
	}
	if first := ixgen.First(hs); check != nil && len(hs) > 0 {
		for _, a := range absent {
			if _, ok := first[a]; !ok { // were it listed, it would be missing
				other := append([]ixgen.Hash{}, hs...)
				other[(v.How.Threads*7919)%len(hs)] = a
				ixgen.WriteHashes(folder+"/"+name, other)
				if check() == nil {
					c.Failf("the index's check of itself finds nothing wrong when a listed hash is not in the index")
				}
				ixgen.WriteHashes(folder+"/"+name, hs)
				break
			}
		}
	}
	for m := range ixgen.Modes {
		r := ixgen.Open(c, folder, name, v.P, m)
		ixgen.Judge(c, ixgen.Modes[m], ixgen.Ask(c, ixgen.Modes[m], r, hs, absent), hs, absent)
		for _, ix := range []int64{int64(len(hs)), int64(len(hs)) + 5, -1} {
			var g indexedhashes.Sha256
			if err := r.GetHashAtIndex(ix, &g); err == nil {
				c.Failf("%s: GetHashAtIndex(%d) of %d hashes reports no error", ixgen.Modes[m], ix, len(hs))
			}
		}
		c.NoErr(r.Close(), "%s: Close", ixgen.Modes[m])
	}
	d, sl, st, ov := ixgen.Describe(c, hs, v.P)
	c.ClassIf(v.How.Adaptive, "adaptive passes")
	c.ClassIf(!v.How.Adaptive && v.How.BinsPerPass > 0 && v.How.BinsPerPass < v.P.Bins, "several passes")
	if len(hs) > 2 && (d || sl || st || ov) {
		c.NonTrivial()
	}
}

// far is a list with so many hashes in its middle (all the same one, a hole in
// the file) that the positions after them need more bytes.
type far struct {
	P   ixgen.Params `json:"p"`
	A   ixgen.List   `json:"a"`
	Mid int64        `json:"mid"`
	B   ixgen.List   `json:"b"`
	How ixgen.How    `json:"how"`
}

func genFar(t *rapid.T) far {
	v := far{P: ixgen.DrawParams(t)}
	v.P.HiBits = []int64{25, 30, 32, 40}[rapid.IntRange(0, 3).Draw(t, "hi")]
	v.A = ixgen.DrawList(t, v.P, 40, 0)
	v.B = ixgen.List{Leads: v.A.Leads, Tails: v.A.Tails, Ents: ixgen.DrawList(t, v.P, 200, 0).Ents}
	for i := range v.B.Ents { // other tails are new, the same are repeats
		v.B.Ents[i].L %= len(v.A.Leads)
		v.B.Ents[i].T = v.B.Ents[i].T*7 + i%5
	}
	v.Mid = []int64{1 << 16, 1 << 24}[vt.Pick(t, "mid", 3, 1)] - rapid.Int64Range(0, 100).Draw(t, "below")
	v.How = ixgen.DrawHow(t, v.P, 0)
	if v.Mid > 1<<20 { // a pass over the list takes seconds
		v.How.BinsPerPass = 0
	}
	return v
}

func runFar(c *vt.Ctx, v far) {
	as, bs := v.A.Hashes(), v.B.Hashes()
	if len(as) == 0 || ixgen.Indistinguishable(as, v.P) {
		c.Class("skipped: the first hash must be one, and not of zeros only")
		return
	}
	folder, name := c.Dir(), "Hashes"
	ixgen.WriteHashes(folder+"/"+name, as)
	f, err := os.OpenFile(filepath.Join(folder, name, "Hashes.hsh"), os.O_WRONLY, 0)
	if err != nil {
		vt.Harnessf("%v", err)
	}
	var all []byte
	for _, h := range bs {
		all = append(all, h[:]...)
	}
	from := int64(len(as)) + v.Mid
	if err := f.Truncate(32 * from); err != nil {
		vt.Harnessf("%v", err)
	}
	if _, err := f.WriteAt(all, 32*from); err != nil {
		vt.Harnessf("%v", err)
	}
	f.Close()
	n := from + int64(len(bs))
	c.NoErr(ixgen.Build(folder, name, v.P, v.How, int(n)), "index %d hashes (%s)", n, v.How)
	at := ixgen.First(as)
	var zero ixgen.Hash
	if _, ok := at[zero]; !ok {
		at[zero] = int64(len(as))
	}
	for i, h := range bs {
		if _, ok := at[h]; !ok {
			at[h] = from + int64(i)
		}
	}
	for m := range ixgen.Modes {
		if m == 2 && v.Mid > 1<<20 {
			continue
		}
		r := ixgen.Open(c, folder, name, v.P, m)
		what := ixgen.Modes[m]
		k, err := r.CountHashes()
		c.NoErr(err, "%s: CountHashes", what)
		if k != n {
			c.Failf("%s: CountHashes says %d of %d hashes", what, k, n)
		}
		for h, i := range at {
			sha := indexedhashes.Sha256(h)
			k, err := r.IndexOfHash(&sha)
			c.NoErr(err, "%s: IndexOfHash of hash %d", what, i)
			if k != i {
				c.Failf("%s: IndexOfHash of hash %d (%x) is %d", what, i, h, k)
			}
			var g indexedhashes.Sha256
			c.NoErr(r.GetHashAtIndex(i, &g), "%s: GetHashAtIndex(%d)", what, i)
			if g != sha {
				c.Failf("%s: GetHashAtIndex(%d) is %x, the hash is %x", what, i, g, h)
			}
		}
		for _, h := range append(v.A.Absent(), v.B.Absent()...) {
			sha := indexedhashes.Sha256(h)
			k, err := r.IndexOfHash(&sha)
			c.NoErr(err, "%s: IndexOfHash", what)
			if want, ok := at[h]; ok && k != want || !ok && k != -1 {
				c.Failf("%s: IndexOfHash of %x is %d (listed: %v, first at %d)", what, h, k, ok, want)
			}
		}
		c.NoErr(r.Close(), "%s: Close", what)
	}
	c.ClassIf(v.Mid > 1<<20, "more than 16 million hashes")
	if len(bs) > 2 {
		c.NonTrivial()
	}
}

func main() {
	rule := "at least 3 hashes with a repeat, a shared lead, a shared tail, or a bin that overflows"
	vt.Main("C09",
		vt.New("index", rule, 4000, 80000, gen(60, 400, 1, ixgen.DrawParams), run),
		vt.New("index-large", rule, 64, 1500, gen(300, 6000, 4, ixgen.DrawParams), run),
		vt.New("index-far", "at least 3 hashes after 65,000 or 16 million others", 32, 400, genFar, runFar),
		vt.New("index-preset", rule, 40, 800, gen(200, 30000, 1, ixgen.DrawPreset), run),
	)
}
