// C14: keyed number lists survive caching, flushing and reopening.
package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"pgregory.net/rapid"
	"verifharness/vt"
)

type op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	N int    `json:"n,omitempty"`
	V uint64 `json:"v,omitempty"`
}
type mcase struct {
	FileDigits   int     `json:"fd"`
	FolderDigits int     `json:"od"`
	Width        int     `json:"w"`
	Cached       bool    `json:"cached"`
	Limit        int     `json:"limit"`
	Keys         []int64 `json:"keys"`
	Ops          []op    `json:"ops"`
}

func pow10(n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

func genMap(t *rapid.T) mcase {
	c := mcase{FileDigits: rapid.IntRange(1, 3).Draw(t, "fd"), FolderDigits: rapid.IntRange(1, 3).Draw(t, "od"),
		Width: rapid.IntRange(1, 8).Draw(t, "w"), Cached: rapid.Bool().Draw(t, "cached")}
	if c.Cached && vt.Pick(t, "lim?", 1, 2) == 1 {
		c.Limit = rapid.IntRange(1, 60).Draw(t, "limit")
	}
	if k := vt.Pick(t, "fd+", 400, 10, 1); k > 0 { // slow
		c.FileDigits = 3 + k
	}
	per := pow10(c.FileDigits)
	nk := rapid.IntRange(1, 12).Draw(t, "nk")
	for i := 0; i < nk; i++ {
		var k int64
		switch vt.Pick(t, "kk", 4, 3, 2, 1) {
		case 0:
			k = rapid.Int64Range(0, 3*per).Draw(t, "key")
		case 1: // bucket edges
			k = per*rapid.Int64Range(0, 300).Draw(t, "b") + []int64{0, 1, per - 1}[rapid.IntRange(0, 2).Draw(t, "e")]
		case 2:
			k = rapid.Int64Range(0, per*pow10(2*c.FolderDigits)).Draw(t, "key")
		default:
			k = rapid.Int64Range(0, 1<<40).Draw(t, "key")
		}
		c.Keys = append(c.Keys, k)
	}
	n := rapid.IntRange(1, 60).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := op{K: []string{"app", "run", "get", "absent", "flush", "sync", "reopen", "ro"}[vt.Pick(t, "k", 14, 3, 3, 1, 1, 1, 2, 1)],
			A: int64(rapid.IntRange(0, nk-1).Draw(t, "ki")), V: rapid.Uint64().Draw(t, "v")}
		if o.K == "run" {
			o.N = []int{1, 5, 252, 253, 254, 300}[rapid.IntRange(0, 5).Draw(t, "n")]
		}
		if o.K == "absent" {
			o.A = rapid.Int64Range(0, 1<<40).Draw(t, "abs")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// setLimit lowers the cache limit so that eviction happens at test size; a
// store without such a field simply runs unevicted.
func setLimit(s any, limit int64) bool {
	v := reflect.ValueOf(s)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return false
	}
	f := v.Elem().FieldByName("cacheElementCountLimit")
	if !f.IsValid() || f.Kind() != reflect.Int64 {
		return false
	}
	*(*int64)(unsafe.Pointer(f.UnsafeAddr())) = limit
	return true
}

func eq(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runMap(c *vt.Ctx, m mcase) {
	dir := c.SubDir("m")
	cr := intarrayarray.NewConcreteMapStoreCreator("lists", dir, int64(m.FileDigits), int64(m.FolderDigits), int64(m.Width), m.Cached)
	c.NoErr(cr.CreateMap(), "create")
	var st intarrayarray.IntArrayMapStoreReadWrite
	open := func() {
		var err error
		st, err = cr.OpenMap()
		c.NoErr(err, "open")
		if m.Limit > 0 && setLimit(st, int64(m.Limit)) {
			c.Class("small cache")
		}
	}
	open()
	mask := ^uint64(0)
	if m.Width < 8 {
		mask = 1<<(8*uint(m.Width)) - 1
	}
	model := map[int64][]int64{}
	per := pow10(m.FileDigits)
	check := func(r intarrayarray.IntArrayMapStoreReadOnly, k int64, what string) {
		got, err := r.GetArray(k)
		c.NoErr(err, "%s: list of key %d", what, k)
		if !eq(got, model[k]) {
			c.Failf("%s: list of key %d is %v, want %v", what, k, clip(got), clip(model[k]))
		}
	}
	var order []int64
	for _, k := range m.Keys {
		order = append(order, k)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	all := func(r intarrayarray.IntArrayMapStoreReadOnly, what string) {
		for _, k := range order {
			check(r, k, what)
			check(r, k^1, what)
		}
	}
	switches, last, backs, flushes := 0, int64(-1), 0, 0
	for _, o := range m.Ops {
		var k int64
		if o.K != "absent" {
			k = m.Keys[int(o.A)%len(m.Keys)]
		}
		app := func(v uint64) {
			x := int64(v & mask)
			c.NoErr(st.AppendToArray(k, x), "append to %d", k)
			model[k] = append(model[k], x)
			if last >= 0 && k/per != last {
				switches++
				if k/per < last {
					backs++
				}
			}
			last = k / per
		}
		switch o.K {
		case "app":
			app(o.V)
		case "run":
			for j := 0; j < o.N; j++ {
				app(o.V*uint64(2*j+1) + uint64(j))
			}
		case "get":
			check(st, k, "live")
		case "absent":
			check(st, o.A, "live")
		case "flush":
			c.NoErr(st.FlushFile(), "flush")
			flushes++
		case "sync":
			c.NoErr(st.Sync(), "sync")
			flushes++
		case "reopen":
			c.NoErr(st.FlushFile(), "flush")
			open()
			flushes++
		case "ro":
			c.NoErr(st.FlushFile(), "flush")
			ro, err := cr.OpenMapReadOnly()
			c.NoErr(err, "open read-only")
			all(ro, "read-only")
		}
	}
	c.NoErr(st.Sync(), "sync")
	ro, err := cr.OpenMapReadOnly()
	c.NoErr(err, "open read-only")
	all(ro, "read-only at end")
	// The other kind of store reads and continues the same files.
	cr2 := intarrayarray.NewConcreteMapStoreCreator("lists", dir, int64(m.FileDigits), int64(m.FolderDigits), int64(m.Width), !m.Cached)
	st2, err := cr2.OpenMap()
	c.NoErr(err, "open as other kind")
	k := m.Keys[0]
	c.NoErr(st2.AppendToArray(k, 1), "append")
	model[k] = append(model[k], 1)
	all(st2, "other kind")
	// Creating again starts empty.
	if len(m.Ops)%4 == 0 {
		c.NoErr(cr.CreateMap(), "create again")
		model = map[int64][]int64{}
		open()
		all(st, "created again")
	}
	if switches >= 2 && backs >= 1 && flushes >= 1 {
		c.NonTrivial()
	}
	c.ClassIf(m.Cached, "cached")
	c.ClassIf(backs > 0, "returned to an older file")
}

func clip(a []int64) string {
	if len(a) > 20 {
		return fmt.Sprintf("%v... (%d values)", a[:20], len(a))
	}
	return fmt.Sprint(a)
}

// ---- one file of lists, and the length codec ----

type acase struct {
	Width int    `json:"w"`
	Count int    `json:"count"`
	Lens  []int  `json:"lens"`
	Seed  uint64 `json:"seed"`
	Var   int64  `json:"var"`
}

func genArr(t *rapid.T) acase {
	c := acase{Width: rapid.IntRange(1, 8).Draw(t, "w"), Count: rapid.IntRange(1, 30).Draw(t, "count"), Seed: rapid.Uint64().Draw(t, "seed")}
	for i := 0; i < c.Count; i++ {
		switch vt.Pick(t, "l?", 4, 4, 1) {
		case 0:
			c.Lens = append(c.Lens, 0)
		case 1:
			c.Lens = append(c.Lens, rapid.IntRange(1, 10).Draw(t, "l"))
		default:
			c.Lens = append(c.Lens, []int{252, 253, 254, 255, 256, 65535, 65536}[vt.Pick(t, "ll", 6, 6, 6, 6, 6, 1, 1)])
		}
	}
	c.Var = rapid.Int64Range(0, 1<<62).Draw(t, "var")
	switch vt.Pick(t, "v?", 2, 1, 1) {
	case 1:
		c.Var = []int64{0, 1, 0xFC, 0xFD, 0xFE, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFFFF, 0x100000000}[rapid.IntRange(0, 10).Draw(t, "vi")]
	case 2:
		c.Var &= 0x1FFFF
	}
	return c
}

func runArr(c *vt.Ctx, a acase) {
	var v intarrayarray.VarInt
	v.FromInt64(a.Var)
	b := append([]byte(nil), v.ToBytes()...)
	wantLen := 9
	switch {
	case a.Var < 0xFD:
		wantLen = 1
	case a.Var <= 0xFFFF:
		wantLen = 3
	case a.Var <= 0xFFFFFFFF:
		wantLen = 5
	}
	if len(b) != wantLen {
		c.Failf("%d encodes to %d bytes, want %d", a.Var, len(b), wantLen)
	}
	var v2 intarrayarray.VarInt
	n := v2.FromBytes(append(append([]byte(nil), b...), 0xAB, 0xCD, 0xEF, 1, 2, 3, 4, 5, 6))
	if n != len(b) || v2.ToInt64() != a.Var {
		c.Failf("%d decodes to %d reading %d of %d bytes", a.Var, v2.ToInt64(), n, len(b))
	}
	mask := ^uint64(0)
	if a.Width < 8 {
		mask = 1<<(8*uint(a.Width)) - 1
	}
	iaa := intarrayarray.NewIntArrayArray(int64(a.Count), int64(a.Width))
	model := map[int64][]int64{}
	total := 0
	for round := 0; round < 2; round++ { // interleave keys
		for i, l := range a.Lens {
			for j := round; j < l; j += 2 {
				x := int64((a.Seed*uint64(2*j+1) + uint64(i)*0x9E3779B97F4A7C15) & mask)
				iaa.AppendToArray(int64(i), x)
				model[int64(i)] = append(model[int64(i)], x)
				total++
			}
		}
	}
	name := filepath.Join(c.Dir(), "f.iaa")
	verify := func(x *intarrayarray.IntArrayArray, what string) {
		for i := int64(0); i < int64(a.Count); i++ {
			if got := x.GetArray(i); !eq(got, model[i]) {
				c.Failf("%s: list %d is %s, want %s", what, i, clip(got), clip(model[i]))
			}
		}
	}
	verify(&iaa, "in memory")
	c.NoErr(iaa.SaveFile(name), "save")
	l := intarrayarray.NewIntArrayArray(int64(a.Count), int64(a.Width))
	l.AppendToArray(0, 5) // replaced by loading
	c.NoErr(l.LoadFile(name), "load")
	verify(&l, "loaded")
	l.AppendToArray(int64(a.Count-1), 7)
	model[int64(a.Count-1)] = append(model[int64(a.Count-1)], 7)
	c.NoErr(l.SaveFile(name), "save")
	m := intarrayarray.NewIntArrayArray(int64(a.Count), int64(a.Width))
	c.NoErr(m.LoadFile(name), "load")
	verify(&m, "loaded after append")
	if total > 0 {
		c.NonTrivial()
	}
}

func main() {
	vt.Main("C14",
		vt.New("store", "random appends/reads/flushes/reopenings over keys clustered at bucket edges, with and without a (small) cache, against a map of lists; non-trivial: file switched at least twice, went back to an older file, and flushed or reopened", 6000, 150000, genMap, runMap),
		vt.New("file", "lists of boundary lengths saved and loaded; non-trivial: at least one value stored", 3000, 60000, genArr, runArr),
	)
}
