// C11: hash stores which grow one hash at a time behave as the list of appended hashes.
package main

import (
	"encoding/binary"
	"os"
	"path/filepath"

	"verifharness/ixgen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"pgregory.net/rapid"
)

type hash = [32]byte

// ent is a hash: its partial key comes from L, the rest from T.
type ent struct {
	L int `json:"l"`
	T int `json:"t"`
}

type op struct {
	K string `json:"k"` // append bulk lookup get count sync reopen readonly
	E ent    `json:"e,omitempty"`
	N int    `json:"n,omitempty"`
}

type store struct {
	Kind string       `json:"kind"` // keyed memory basic bins
	Bits int64        `json:"bits,omitempty"`
	NB   int64        `json:"nb,omitempty"`
	CPC  int64        `json:"cpc,omitempty"`
	Mem  bool         `json:"mem,omitempty"`
	App  bool         `json:"app,omitempty"`
	P    ixgen.Params `json:"p"`
	Ops  []op         `json:"ops"`
	// How many distinct leads / tails there are.
	NL int `json:"nl"`
	NT int `json:"nt"`
	// How many hashes the store is made to believe it holds already (its list
	// begins with a hole; nobody asks about those).
	Base int64 `json:"base,omitempty"`
}

func (s store) hash(e ent) (h hash) {
	copy(h[:], vt.Body(uint32(e.T)+5, 32))
	var l uint64
	if s.Kind == "bins" {
		// few bins, and within a bin few sort numbers
		bn := uint64(e.L%3) % uint64(s.P.Bins)
		l = bn*s.P.Divider() + uint64(e.L/3%5)
	} else {
		// the partial key is L; some share everything but a later byte
		l = uint64(e.L) & (1<<uint(s.Bits) - 1)
		if e.T%3 > 0 {
			l |= (uint64(e.T)*0x9E3779B97F4A7C15>>8)<<uint(s.Bits) | uint64(e.T%2)<<63
		}
	}
	binary.LittleEndian.PutUint64(h[:8], l)
	if e.T%5 == 4 { // differ from tail T-1 in one bit only
		h2 := s.hash(ent{e.L, e.T - 1})
		copy(h[8:], h2[8:])
		if e.T%2 == 0 {
			copy(h[:8], h2[:8])
		}
		h[8+e.T%24] ^= 0x80
	}
	return
}

func gen(kind string) func(t *rapid.T) store {
	return func(t *rapid.T) store {
		s := store{Kind: kind}
		switch kind {
		case "keyed":
			s.Bits = rapid.Int64Range(0, 12).Draw(t, "bits")
			if vt.Pick(t, "bigbits", 12, 1) == 1 {
				s.Bits = rapid.Int64Range(13, 20).Draw(t, "bits")
			}
			s.NB = int64(1 + vt.Pick(t, "nb", 3, 2, 4, 2, 1, 1, 1))
			s.CPC = int64(1 + vt.Pick(t, "cpc", 2, 2, 4, 1, 1, 1, 1, 1))
			s.Mem = rapid.Bool().Draw(t, "mem")
			s.App = rapid.Bool().Draw(t, "app")
		case "bins":
			s.P = ixgen.DrawParams(t)
		}
		s.NL = rapid.IntRange(1, 12).Draw(t, "nl")
		s.NT = rapid.IntRange(1, 60).Draw(t, "nt")
		maxBulk := 60
		if vt.Pick(t, "manyt", 3, 1) == 1 { // enough different hashes to fill a store of one-byte indices
			s.NT = rapid.IntRange(100, 400).Draw(t, "nt")
			s.NL = rapid.IntRange(1, 400).Draw(t, "nl")
			maxBulk = 150
		}
		if k := []int64{0, 7, 8, 16, 23, 24, 31, 32}[vt.Pick(t, "base", 14, 1, 1, 2, 1, 2, 1, 1)]; k > 0 {
			most := int64(0)
			if kind == "keyed" && !s.Mem {
				most = int64(1)<<uint(8*s.NB-1) - 1
			} else if kind == "bins" {
				most = int64(1)<<uint(s.P.HiBits) - 10000 // there is no word for a full index
			}
			if b := int64(1)<<uint(k) - rapid.Int64Range(0, 40).Draw(t, "below"); b > 0 && b < most {
				s.Base = b
			}
		}
		n := rapid.IntRange(1, 60).Draw(t, "n")
		for i := 0; i < n; i++ {
			o := op{E: ent{rapid.IntRange(0, s.NL-1).Draw(t, "l"), rapid.IntRange(0, s.NT-1).Draw(t, "t")}}
			switch vt.Pick(t, "op", 20, 3, 6, 4, 1, 2, 3, 2) {
			case 0:
				o.K = "append"
			case 1:
				o.K = "bulk"
				o.N = rapid.IntRange(2, maxBulk).Draw(t, "bulk")
			case 2:
				o.K = "lookup"
			case 3:
				o.K = "get"
				o.N = rapid.IntRange(0, 100).Draw(t, "i")
			case 4:
				o.K = "count"
			case 5:
				o.K = "sync"
			case 6:
				o.K = "reopen"
			default:
				o.K = "readonly"
			}
			s.Ops = append(s.Ops, o)
		}
		return s
	}
}

type model struct {
	list  []hash
	first map[hash]int64
}

func run(c *vt.Ctx, s store) {
	dir := filepath.Join(c.Dir(), "store")
	var cr indexedhashes.HashStoreCreator
	var err error
	switch s.Kind {
	case "keyed":
		cr, err = indexedhashes.NewConcreteHashStoreCreator("H", dir, s.Bits, s.NB, s.CPC, s.Mem, s.App)
	case "memory":
		cr, err = indexedhashes.NewConcreteHashStoreCreatorMemory("H", dir)
	case "bins":
		cr = indexedhashes3.NewHashStoreCreatorPrivate(s.P.Make(1000), dir, false)
	}
	c.NoErr(err, "make the creator")
	var rw indexedhashes.HashReadWriter
	open := func() {
		if s.Kind == "basic" {
			f, err := os.OpenFile(filepath.Join(c.Dir(), "basic.hsh"), os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				vt.Harnessf("open: %v", err)
			}
			st, _ := f.Stat()
			rw = indexedhashes.NewBasicHashStore(wordfile.NewHashFile(f, st.Size()/32))
			return
		}
		rw, err = cr.OpenHashStore()
		c.NoErr(err, "OpenHashStore")
	}
	if cr != nil {
		if cr.HashStoreExists() {
			c.Failf("HashStoreExists before it was created")
		}
		c.NoErr(cr.CreateHashStore(), "CreateHashStore")
		if !cr.HashStoreExists() {
			c.Failf("HashStoreExists is false after CreateHashStore")
		}
	}
	if s.Base > 0 {
		f := filepath.Join(dir, "H.hsh")
		size := 32 * s.Base
		if s.Kind == "bins" {
			f, size = filepath.Join(dir, "BinNums.int"), s.P.Make(1000).BytesRoomForBinNum()*s.Base
		}
		if _, err := os.Stat(f); err != nil {
			vt.Harnessf("%v", err)
		}
		if err := os.Truncate(f, size); err != nil {
			vt.Harnessf("%v", err)
		}
		c.Class("beginning far on")
	}
	open()
	m := model{first: map[hash]int64{}}
	full := false
	limit := int64(1) << 62
	if s.Kind == "keyed" {
		limit = int64(1)<<uint(8*s.NB-1) - 1
	}
	add := func(h hash) {
		if full {
			return
		}
		sha := indexedhashes.Sha256(h)
		ix, err := rw.AppendHash(&sha)
		if hash(sha) != h {
			c.Failf("AppendHash changed its argument")
		}
		if err != nil && s.Base+int64(len(m.list)) >= limit {
			full = true
			c.Class("filled to capacity")
			return
		}
		c.NoErr(err, "AppendHash number %d", s.Base+int64(len(m.list)))
		if ix != s.Base+int64(len(m.list)) {
			c.Failf("AppendHash returned index %d, want %d", ix, s.Base+int64(len(m.list)))
		}
		if _, ok := m.first[h]; !ok {
			m.first[h] = ix
		} else {
			c.Class("repeated hash")
		}
		m.list = append(m.list, h)
	}
	lookup := func(what string, r indexedhashes.HashReader, h hash) {
		want, ok := m.first[h]
		if !ok {
			want = -1
			if full { // the hash the full store refused may or may not be answered for
				return
			}
		}
		sha := indexedhashes.Sha256(h)
		ix, err := r.IndexOfHash(&sha)
		c.NoErr(err, "%s: IndexOfHash", what)
		if ix != want {
			c.Failf("%s: IndexOfHash(%x) is %d, want %d (of %d)", what, h, ix, want, len(m.list))
		}
	}
	get := func(what string, r indexedhashes.HashReader, i int) {
		var g indexedhashes.Sha256
		c.NoErr(r.GetHashAtIndex(s.Base+int64(i), &g), "%s: GetHashAtIndex(%d) of %d", what, s.Base+int64(i), len(m.list))
		h := m.list[i]
		if hash(g) != h {
			if s.Kind == "bins" && m.first[h] != s.Base+int64(i) && hash(g) == (hash{}) {
				return // documented
			}
			c.Failf("%s: GetHashAtIndex(%d) is %x, want %x", what, s.Base+int64(i), g, h)
		}
	}
	count := func(what string, r indexedhashes.HashReader) {
		n, err := r.CountHashes()
		c.NoErr(err, "%s: CountHashes", what)
		if n != s.Base+int64(len(m.list)) && !(full && n == s.Base+int64(len(m.list))+1) {
			c.Failf("%s: CountHashes is %d, want %d", what, n, s.Base+int64(len(m.list)))
		}
	}
	all := func(what string, r indexedhashes.HashReader) {
		count(what, r)
		n := s.Base + int64(len(m.list))
		if full {
			n++
		}
		for _, i := range []int64{-1, n, n + 1, n + 1000} {
			var g indexedhashes.Sha256
			if r.GetHashAtIndex(i, &g) == nil {
				c.Failf("%s: GetHashAtIndex(%d) of %d reports no error", what, i, len(m.list))
			}
		}
		for i := range m.list {
			get(what, r, i)
		}
		for h := range m.first {
			lookup(what, r, h)
		}
		for l := 0; l < s.NL+2; l++ {
			for t := 0; t < 8; t++ {
				lookup(what, r, s.hash(ent{l, t * 7 % (s.NT + 3)}))
			}
		}
	}
	ix3bad := false
	for _, o := range s.Ops {
		switch o.K {
		case "append", "bulk":
			n := max(1, o.N)
			for i := 0; i < n; i++ {
				h := s.hash(ent{(o.E.L + i*i) % s.NL, (o.E.T + i) % s.NT})
				if s.Kind == "bins" && s.Base+int64(len(m.list)) == 0 && ixgen.Indistinguishable([]hash{h}, s.P) {
					ix3bad = true
					break
				}
				add(h)
			}
		case "lookup":
			lookup("live", rw, s.hash(o.E))
		case "get":
			if len(m.list) > 0 {
				get("live", rw, o.N%len(m.list))
			}
		case "count":
			count("live", rw)
		case "sync":
			c.NoErr(rw.Sync(), "Sync")
		case "reopen":
			c.NoErr(rw.Close(), "Close")
			open()
			c.ClassIf(len(m.list) > 0, "reopened and continued")
		case "readonly":
			if cr == nil {
				continue
			}
			c.NoErr(rw.Close(), "Close")
			r, err := cr.OpenHashStoreReadOnly()
			c.NoErr(err, "OpenHashStoreReadOnly")
			all("read-only", r)
			c.NoErr(r.Close(), "Close (read-only)")
			open()
		}
		if ix3bad {
			return
		}
	}
	all("live", rw)
	c.NoErr(rw.Close(), "Close")
	open()
	all("reopened", rw)
	c.NoErr(rw.Close(), "Close")
	if s.Kind == "keyed" {
		keys := map[uint64]map[hash]bool{}
		mx := 0
		for h := range m.first {
			k := binary.LittleEndian.Uint64(h[:8]) & (1<<uint(s.Bits) - 1)
			if keys[k] == nil {
				keys[k] = map[hash]bool{}
			}
			keys[k][h] = true
			mx = max(mx, len(keys[k]))
		}
		c.ClassIf(mx == 2, "one collision")
		c.ClassIf(mx > 2 && int64(mx) <= s.CPC, "a chunk of collisions")
		c.ClassIf(int64(mx) > s.CPC && mx > 1, "linked chunks of collisions")
		c.ClassIf(s.CPC == 1, "one collision per chunk")
	}
	if len(m.list) >= 4 && len(m.first) >= 3 {
		c.NonTrivial()
	}
}

func main() {
	rule := "at least 4 appends of at least 3 distinct hashes"
	vt.Main("C11",
		vt.New("keyed", rule, 8000, 200000, gen("keyed"), run),
		vt.New("memory", rule, 600, 20000, gen("memory"), run),
		vt.New("basic", rule, 300, 10000, gen("basic"), run),
		vt.New("bins", rule, 800, 20000, gen("bins"), run),
	)
}
