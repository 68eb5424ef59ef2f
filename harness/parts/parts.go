// Package parts drives every kind of store by one kind of script.
package parts

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"verifharness/chaingen"
	"verifharness/ixgen"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/memfile"
	back "github.com/KitchenMishap/pudding-shed/weddingcakeback"
	front "github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"pgregory.net/rapid"
)

type hash = [32]byte

type Op struct {
	K string `json:"k"` // put over get sync reopen bake
	N int    `json:"n,omitempty"`
	V int    `json:"v,omitempty"`
}

// What is written to, and how.
type Script struct {
	Kind   string         `json:"kind"`
	Width  int            `json:"w,omitempty"`    // of words, of an entry of a map, of partial keys
	Digits [2]int         `json:"d,omitempty"`    // of a map's files and folders
	Flag   [2]bool        `json:"flag,omitempty"` // shadowed / cached / in memory, append optimised
	Count  int64          `json:"n,omitempty"`    // collisions per chunk, reassurance bytes
	P      ixgen.Params   `json:"p"`
	How    ixgen.How      `json:"how"`
	Chain  chaingen.Spec  `json:"chain"`
	Store  storegen.Store `json:"store"`
	Feed   storegen.Feed  `json:"feed"`
	Ops    []Op           `json:"ops"`
	Own    bool           `json:"-"` // the chain is stored in a process that stores others
}

// Part is one of the things that store data.
type Part struct {
	Put   func(o Op) error
	Over  func(o Op) error
	Get   func(o Op) error // looks something up where it is written to
	Bake  func() error
	Sync  func() error
	Shut  func() error // says whether all is written
	Close func()       // does not
	Open  func() error
	Look  func(c *vt.Ctx, what, dir string) // reads what is in dir
}

// wrongAnswer is what a lookup that should have failed gave.
type wrongAnswer struct{ string }

func (w wrongAnswer) Error() string { return w.string }

func Wrong(err error) bool {
	var w wrongAnswer
	return errors.As(err, &w)
}

func (s Script) hash(i int) (h hash) {
	copy(h[:], vt.Body(uint32(i)+7, 32))
	if i%3 == 1 { // many with the same beginning
		copy(h[:4], []byte{byte(i % 5), 0, 1, 0})
	}
	return
}

func (s Script) hashes(n int) (r []hash) {
	for i := range n {
		r = append(r, s.hash(i))
	}
	return
}

// total is the number of things put.
func (s Script) total() (n int) {
	for _, o := range s.Ops {
		if o.K == "put" {
			n += o.N
		}
	}
	return
}

// index is what a hash store's reader should answer.
func index(c *vt.Ctx, what string, r indexedhashes.HashReader, want []hash) {
	n, err := r.CountHashes()
	c.NoErr(err, "%s: count", what)
	if n != int64(len(want)) {
		c.Failf("%s: there are %d hashes, want %d", what, n, len(want))
	}
	for i, h := range want {
		sha := indexedhashes.Sha256(h)
		ix, err := r.IndexOfHash(&sha)
		c.NoErr(err, "%s: look up hash %d of %d", what, i, len(want))
		if ix != int64(i) {
			c.Failf("%s: hash %d of %d is said to be number %d", what, i, len(want), ix)
		}
		var g indexedhashes.Sha256
		c.NoErr(r.GetHashAtIndex(int64(i), &g), "%s: hash %d of %d", what, i, len(want))
		if hash(g) != h {
			c.Failf("%s: hash %d of %d is %x, want %x", what, i, len(want), g, h)
		}
		sha[9] ^= 0x40
		ix, err = r.IndexOfHash(&sha)
		c.NoErr(err, "%s: look up an absent hash", what)
		if ix != -1 {
			c.Failf("%s: an absent hash is said to be number %d of %d", what, ix, len(want))
		}
	}
}

// prepare does what comes before the writes that are looked at, and gives a
// function that does the first of them.
func (s Script) Prepare(c *vt.Ctx, dir string) func() (Part, error) {
	switch s.Kind {
	case "words":
		return func() (Part, error) { return s.words(dir) }
	case "bytes", "hashes":
		return func() (Part, error) { return s.flat(dir) }
	case "keyed", "memory", "bins":
		return func() (Part, error) { return s.store(dir) }
	case "map":
		return func() (Part, error) { return s.mapped(dir) }
	case "top", "cake":
		return func() (Part, error) { return s.tiers(dir) }
	case "built":
		ixgen.WriteHashes(filepath.Join(dir, "H"), s.hashes(s.total()))
		return func() (Part, error) {
			var p Part
			p.Sync = func() error { return ixgen.Build(dir, "H", s.P, s.How, s.total()) }
			p.Look = func(c *vt.Ctx, what, dir string) {
				r := ixgen.Open(c, dir, "H", s.P, 0)
				index(c, what, r, s.hashes(s.total()))
				c.NoErr(r.Close(), "close")
			}
			return p, nil
		}
	case "lists":
		ch := s.Chain.Make()
		return func() (Part, error) { return s.lists(c, dir, ch) }
	case "chain":
		ch := s.Chain.Make()
		storegen.Gather(c, dir, ch, storegen.Feed{})
		s.Store.Index(c, dir, ch)
		return func() (Part, error) { return s.chain(c, dir, ch) }
	}
	vt.Harnessf("kind %q", s.Kind)
	return nil
}

func (s Script) words(dir string) (p Part, err error) {
	cr := func(dir string) wordfile.WordFileCreator {
		return wordfile.NewConcreteWordFileCreator("w", filepath.Join(dir, "deep"), int64(s.Width), s.Flag[0], false)
	}
	mask := int64(1)<<(8*uint(min(s.Width, 7))) - 1
	var model []int64
	if s.Digits[0] > 0 {
		err = cr(dir).CreateWordFileFilledZeros(int64(s.Digits[0]))
		model = make([]int64, s.Digits[0])
	} else {
		err = cr(dir).CreateWordFile()
	}
	if err != nil {
		return
	}
	var f wordfile.ReadWriteAtWordCounter
	p.Open = func() (err error) { f, err = cr(dir).OpenWordFile(); return }
	p.Put = func(o Op) error {
		for i := range o.N {
			v := int64(o.V*7919+i*31) * 1000003 & mask
			if err := f.WriteWordAt(v, int64(len(model))); err != nil {
				return err
			}
			model = append(model, v)
		}
		return nil
	}
	p.Over = func(o Op) error {
		if len(model) == 0 {
			return nil
		}
		at := o.V % len(model)
		if err := f.WriteWordAt(int64(o.N)&mask, int64(at)); err != nil {
			return err
		}
		model[at] = int64(o.N) & mask
		return nil
	}
	p.Get = func(o Op) error {
		for i := 0; i < o.N && len(model) > 0; i++ {
			at := (o.V + i*i*i) % len(model)
			v, err := f.ReadWordAt(int64(at))
			if err != nil {
				return err
			}
			if v != model[at] {
				return wrongAnswer{fmt.Sprintf("word %d of %d is %#x, want %#x", at, len(model), v, model[at])}
			}
		}
		n, err := f.CountWords()
		if err == nil && n != int64(len(model)) {
			return wrongAnswer{fmt.Sprintf("there are %d words, want %d", n, len(model))}
		}
		return err
	}
	p.Sync = func() error { return f.Sync() }
	p.Shut = func() error { return f.Close() }
	p.Look = func(c *vt.Ctx, what, dir string) {
		r, err := cr(dir).OpenWordFileReadOnly()
		c.NoErr(err, "%s: open", what)
		n, err := r.CountWords()
		c.NoErr(err, "%s: count", what)
		if n != int64(len(model)) {
			c.Failf("%s: there are %d words, want %d", what, n, len(model))
		}
		for i, want := range model {
			v, err := r.ReadWordAt(int64(i))
			c.NoErr(err, "%s: word %d of %d", what, i, len(model))
			if v != want {
				c.Failf("%s: word %d of %d is %#x, want %#x", what, i, len(model), v, want)
			}
		}
		c.NoErr(r.Close(), "close")
	}
	return p, p.Open()
}

// flat is the file layers: bytes, and hashes.
func (s Script) flat(dir string) (p Part, err error) {
	var a memfile.AppendableLookupFile
	var f *wordfile.HashFile
	var model []byte
	p.Open = func() error {
		h, err := os.OpenFile(filepath.Join(dir, "f"), os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			return err
		}
		if s.Flag[1] {
			a, err = memfile.NewAppendOptimizedFile(h)
		} else {
			a = memfile.NewFileWithSize(h)
		}
		if err == nil {
			f = wordfile.NewHashFile(a, int64(len(model)/32))
		}
		return err
	}
	p.Put = func(o Op) error {
		for i := range o.N {
			if s.Kind == "hashes" {
				h := s.hash(o.V + i)
				if n, err := f.AppendHash(h); err != nil {
					return err
				} else if n != int64(len(model)/32) {
					return fmt.Errorf("hash %d is said to be number %d", len(model)/32, n)
				}
				model = append(model, h[:]...)
				continue
			}
			b := vt.Body(uint32(o.V+i), 1+(o.V+i*i)%70)
			if n, err := a.WriteAt(b, int64(len(model))); err != nil {
				return err
			} else if n != len(b) {
				return errors.New("short write")
			}
			model = append(model, b...)
		}
		return nil
	}
	p.Over = func(o Op) error {
		if s.Kind == "hashes" && len(model) > 0 {
			h, at := s.hash(o.N), o.V%(len(model)/32)
			if err := f.WriteHashAt(h, int64(at)); err != nil {
				return err
			}
			copy(model[32*at:], h[:])
		} else if len(model) > 0 {
			at := o.V % len(model)
			b := vt.Body(uint32(o.N), 1+o.N%20)
			if n, err := a.WriteAt(b, int64(at)); err != nil {
				return err
			} else if n != len(b) {
				return errors.New("short write")
			}
			if more := at + len(b) - len(model); more > 0 {
				model = append(model, make([]byte, more)...)
			}
			copy(model[at:], b)
		}
		return nil
	}
	p.Get = func(o Op) error {
		for i := 0; i < o.N && len(model) > 0; i++ {
			at := (o.V + i*i*i) % len(model)
			got := make([]byte, min(1+o.V%40, len(model)-at))
			if s.Kind == "hashes" {
				at -= at % 32
				h, err := f.ReadHashAt(int64(at / 32))
				if err != nil {
					return err
				}
				got = h[:]
			} else if _, err := a.ReadAt(got, int64(at)); err != nil {
				return err
			}
			if want := model[at : at+len(got)]; string(got) != string(want) {
				return wrongAnswer{fmt.Sprintf("at %d of %d there is %x, want %x", at, len(model), got, want)}
			}
		}
		return nil
	}
	p.Sync = func() error {
		if s.Kind == "hashes" {
			return f.Sync()
		}
		return a.Sync()
	}
	p.Shut = func() error {
		if s.Kind == "hashes" {
			return f.Close()
		}
		return a.Close()
	}
	p.Look = func(c *vt.Ctx, what, dir string) {
		b, err := os.ReadFile(filepath.Join(dir, "f"))
		c.NoErr(err, "%s: read the file", what)
		if string(b) != string(model) {
			at := 0
			for at < len(b) && at < len(model) && b[at] == model[at] {
				at++
			}
			c.Failf("%s: the file holds %d bytes, want %d; they differ at %d", what, len(b), len(model), at)
		}
	}
	return p, p.Open()
}

func (s Script) store(dir string) (p Part, err error) {
	cr := func(dir string) (r indexedhashes.HashStoreCreator, err error) {
		dir = filepath.Join(dir, "store")
		switch s.Kind {
		case "keyed":
			return indexedhashes.NewConcreteHashStoreCreator("H", dir, int64(s.Width), 3, s.Count, s.Flag[0], s.Flag[1])
		case "memory":
			return indexedhashes.NewConcreteHashStoreCreatorMemory("H", dir)
		}
		return indexedhashes3.NewHashStoreCreatorPrivate(s.P.Make(1000), dir, false), nil
	}
	k, err := cr(dir)
	if err == nil {
		err = k.CreateHashStore()
	}
	if err != nil {
		return
	}
	var rw indexedhashes.HashReadWriter
	var model []hash
	p.Open = func() (err error) { rw, err = k.OpenHashStore(); return }
	p.Put = func(o Op) error {
		for range o.N {
			h := s.hash(len(model))
			sha := indexedhashes.Sha256(h)
			n, err := rw.AppendHash(&sha)
			if err != nil {
				return err
			}
			if n != int64(len(model)) {
				return fmt.Errorf("hash %d is said to be number %d", len(model), n)
			}
			model = append(model, h)
		}
		return nil
	}
	p.Get = func(o Op) error {
		for i := 0; i < o.N && len(model) > 0; i++ {
			at := (o.V + i*i*i) % len(model)
			sha := indexedhashes.Sha256(model[at])
			n, err := rw.IndexOfHash(&sha)
			if err == nil && n != int64(at) {
				err = wrongAnswer{fmt.Sprintf("hash %d of %d is said to be number %d", at, len(model), n)}
			}
			if err != nil {
				return err
			}
			err = rw.GetHashAtIndex(int64(at), &sha)
			if err == nil && hash(sha) != model[at] {
				err = wrongAnswer{fmt.Sprintf("hash %d of %d is %x, want %x", at, len(model), sha, model[at])}
			}
			if err != nil {
				return err
			}
			sha[9] ^= 0x40
			n, err = rw.IndexOfHash(&sha)
			if err == nil && n != -1 {
				err = wrongAnswer{fmt.Sprintf("an absent hash is said to be number %d of %d", n, len(model))}
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
	p.Sync = func() error { return rw.Sync() }
	p.Shut = func() error { return rw.Close() }
	p.Look = func(c *vt.Ctx, what, dir string) {
		k, err := cr(dir)
		c.NoErr(err, "%s: creator", what)
		r, err := k.OpenHashStoreReadOnly()
		c.NoErr(err, "%s: open", what)
		index(c, what, r, model)
		c.NoErr(r.Close(), "close")
	}
	return p, p.Open()
}

func (s Script) mapped(dir string) (p Part, err error) {
	cr := func(dir string) intarrayarray.IntArrayMapStoreCreator {
		return intarrayarray.NewConcreteMapStoreCreator("lists", dir, int64(s.Digits[0]), int64(s.Digits[1]), int64(s.Width), s.Flag[0])
	}
	if err = cr(dir).CreateMap(); err != nil {
		return
	}
	mask := int64(1)<<(8*uint(min(s.Width, 7))) - 1
	model := map[int64][]int64{}
	var st intarrayarray.IntArrayMapStoreReadWrite
	p.Open = func() (err error) { st, err = cr(dir).OpenMap(); return }
	p.Put = func(o Op) error {
		for i := range o.N {
			key := int64(o.V + i*i)
			v := int64(o.V*7919+i*31) * 1000003 & mask
			if err := st.AppendToArray(key, v); err != nil {
				return err
			}
			model[key] = append(model[key], v)
		}
		return nil
	}
	p.Get = func(o Op) error {
		for i := range o.N {
			key := int64(o.V + i*i)
			got, err := st.GetArray(key)
			if err == nil && fmt.Sprint(got) != fmt.Sprint(model[key]) {
				err = wrongAnswer{fmt.Sprintf("the list of key %d is %v, want %v", key, got, model[key])}
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
	p.Sync = func() error { return st.Sync() }
	p.Shut = func() error { return st.FlushFile() }
	p.Look = func(c *vt.Ctx, what, dir string) {
		r, err := cr(dir).OpenMapReadOnly()
		c.NoErr(err, "%s: open", what)
		keys := make([]int64, 0, len(model))
		for k := range model {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		for _, k := range keys {
			got, err := r.GetArray(k)
			c.NoErr(err, "%s: list of key %d", what, k)
			if fmt.Sprint(got) != fmt.Sprint(model[k]) {
				c.Failf("%s: the list of key %d is %v, want %v", what, k, got, model[k])
			}
		}
	}
	return p, p.Open()
}

// tiers is the tiered hash store, as such or as a cake.
func (s Script) tiers(dir string) (p Part, err error) {
	cfg := back.NewCakeConfig(32, byte(s.Count))
	cfg.TierBelowConfigs[0].MaxDonutForests = 2
	if s.Kind == "cake" {
		err = front.NewCakeCreator(dir, byte(s.Count)).CreateHashStore()
	} else {
		err = back.NewTierTopCreator(dir, cfg).Create(0)
	}
	if err != nil {
		return
	}
	var top *back.TierTop
	var ck front.HashReadWriter[*front.Sha256]
	n := 0
	inTop := 0
	p.Open = func() (err error) {
		if s.Kind == "cake" {
			ck, err = front.NewCakeCreator(dir, byte(s.Count)).OpenHashStore()
		} else {
			top, err = back.NewTierTopCreator(dir, cfg).Open()
		}
		return
	}
	p.Put = func(o Op) error {
		for range o.N {
			h := s.hash(n)
			var got int64
			var err error
			if ck != nil {
				got, err = ck.AppendHash(&h)
			} else {
				var g back.GlobalPiType
				g, err = top.AppendHash(h[:])
				got = int64(g)
			}
			if err != nil {
				return err
			}
			if got != int64(n) {
				return fmt.Errorf("hash %d is said to be number %d", n, got)
			}
			n++
			inTop++
		}
		return nil
	}
	p.Get = func(o Op) error {
		for i := 0; ck != nil && i < o.N && n > 0; i++ {
			at := (o.V + i*i*i) % n
			h := s.hash(at)
			got, err := ck.IndexOfHash(&h)
			if err == nil && got != int64(at) {
				err = wrongAnswer{fmt.Sprintf("hash %d of %d is said to be number %d", at, n, got)}
			}
			if err != nil {
				return err
			}
			var b hash
			err = ck.GetHashAtIndex(int64(at), &b)
			if err == nil && b != h {
				err = wrongAnswer{fmt.Sprintf("hash %d of %d is %x, want %x", at, n, b, h)}
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
	p.Bake = func() error {
		if top == nil || inTop == 0 {
			return nil
		}
		err := back.NewDonutForestWrite(top, cfg).Write(dir)
		if err == nil {
			inTop = 0
		}
		return err
	}
	p.Sync = func() error {
		if ck != nil {
			return ck.Sync()
		}
		return top.Sync()
	}
	p.Shut = func() error {
		if ck != nil {
			return ck.Close()
		}
		return top.CloseAll()
	}
	p.Look = func(c *vt.Ctx, what, dir string) {
		r, err := front.NewCakeCreator(dir, byte(s.Count)).OpenHashStoreReadOnly()
		c.NoErr(err, "%s: open", what)
		for i := range n {
			h := s.hash(i)
			got, err := r.IndexOfHash(&h)
			c.NoErr(err, "%s: look up hash %d of %d", what, i, n)
			if got != int64(i) {
				c.Failf("%s: hash %d of %d is said to be number %d", what, i, n, got)
			}
			var b hash
			c.NoErr(r.GetHashAtIndex(int64(i), &b), "%s: hash %d of %d", what, i, n)
			if b != h {
				c.Failf("%s: hash %d of %d is %x, want %x", what, i, n, b, h)
			}
			h[12] ^= 4
			got, err = r.IndexOfHash(&h)
			c.NoErr(err, "%s: look up an absent hash", what)
			if got != -1 {
				c.Failf("%s: an absent hash is said to be number %d of %d", what, got, n)
			}
		}
		c.NoErr(r.Close(), "close")
	}
	return p, p.Open()
}

// first is the chain of the first n blocks.
func (s Script) first(n int) *chaingen.Chain {
	v := s.Chain
	v.Blocks = v.Blocks[:n-1]
	return v.Make()
}

func (s Script) lists(c *vt.Ctx, dir string, ch *chaingen.Chain) (p Part, err error) {
	cr := chainstorage.NewConcreteHashesChainCreator(dir)
	if err = cr.Create(); err != nil {
		return
	}
	var hc chainstorage.IAppendableHashesChain
	src := storegen.NewSource(c, ch, s.Feed, nil)
	n := 0
	p.Open = func() (err error) { hc, err = cr.Open(); return }
	p.Put = func(o Op) error {
		for i := 0; i < o.N && n < len(ch.Blocks); i++ {
			if err := src.TryTo(n); err != nil {
				return err
			}
			if err := src.AppendHashes(hc, s.Feed, n); err != nil {
				return err
			}
			n++
		}
		return nil
	}
	p.Sync = func() error { return hc.Sync() }
	p.Close = func() { hc.Close() }
	p.Look = func(c *vt.Ctx, what, dir string) {
		if n > 0 {
			storegen.CheckLists(c, what, dir, s.first(n))
		}
	}
	return p, p.Open()
}

func (s Script) chain(c *vt.Ctx, dir string, ch *chaingen.Chain) (p Part, err error) {
	if !s.Own {
		storegen.Fresh()
	}
	cr := s.Store.Creator(c, dir)
	if err = cr.CreateFromHashStores(); err != nil {
		return
	}
	x := s.Store.Resume(c, cr, ch, s.Feed)
	p.Open = x.TryOpen
	p.Put = func(o Op) error {
		for i := 0; i < o.N && x.Next < len(ch.Blocks); i++ {
			if err := x.TryAppend(); err != nil {
				return err
			}
		}
		return nil
	}
	p.Sync = func() error { return x.AC.Sync() }
	p.Close = func() { x.AC.Close() }
	p.Look = func(c *vt.Ctx, what, dir string) {
		if x.Next == 0 {
			return
		}
		storegen.Open(c, what, s.Store.Creator(c, dir)).Check(c, what, ch, s.Store, x.Next)
	}
	return p, p.Open()
}

func (p Part) Do(o Op) (err error) {
	switch o.K {
	case "put":
		if p.Put != nil {
			err = p.Put(o)
		}
	case "over":
		if p.Over != nil {
			err = p.Over(o)
		}
	case "get":
		if p.Get != nil {
			err = p.Get(o)
		}
	case "bake":
		if p.Bake != nil {
			err = p.Bake()
		}
	case "sync":
		err = p.Sync()
	case "reopen":
		if p.Open == nil {
			break
		}
		if p.Shut != nil {
			err = p.Shut()
		} else {
			if err = p.Sync(); err == nil {
				p.Close()
			}
		}
		if err == nil {
			err = p.Open()
		}
	}
	return
}

func Draw(full bool) func(t *rapid.T) Script {
	kinds := []string{"words", "hashes", "bytes", "keyed", "memory", "bins", "map", "top", "cake", "lists", "chain", "built"}
	return func(t *rapid.T) Script {
		s := Script{}
		some := len(kinds)
		if !full {
			some-- // building has no sync
		}
		s.Kind = kinds[rapid.IntRange(0, some-1).Draw(t, "kind")]
		s.Flag = [2]bool{rapid.Bool().Draw(t, "flag0"), rapid.Bool().Draw(t, "flag1")}
		most := 400
		switch s.Kind {
		case "words":
			s.Width = rapid.IntRange(1, 8).Draw(t, "width")
			if vt.Pick(t, "zeros?", 3, 1) == 1 {
				s.Digits[0] = rapid.IntRange(1, 100).Draw(t, "zeros")
			}
			most = 30000
		case "hashes", "bytes":
			most = 3000
		case "keyed":
			s.Flag[0] = s.Flag[0] && full // a table held in memory is deliberately not written by a sync, only on closing
			s.Width = rapid.IntRange(1, 12).Draw(t, "bits")
			s.Count = int64(rapid.IntRange(1, 5).Draw(t, "cpc"))
		case "map":
			s.Width = rapid.IntRange(1, 8).Draw(t, "width")
			s.Digits = [2]int{rapid.IntRange(1, 3).Draw(t, "fd"), rapid.IntRange(1, 3).Draw(t, "od")}
		case "bins", "built":
			s.P = ixgen.DrawParams(t)
			if s.Kind == "built" {
				s.How = ixgen.DrawHow(t, s.P, 1)
			}
		case "top", "cake":
			s.Count = int64(rapid.IntRange(1, 4).Draw(t, "r"))
		case "lists", "chain":
			s.Chain = chaingen.Draw(t, chaingen.Opts{Blocks: 8, Long: 25})
			s.Store = storegen.DrawStore(t, false)
			s.Feed = storegen.DrawFeed(t, len(s.Chain.Blocks)+1, false)
			most = 3
		}
		w, n := []int{5, 2, 3, 1, 1, 3}, 10
		if s.Kind == "top" && rapid.Bool().Draw(t, "bakes") { // fills its tiers
			w, n = []int{4, 0, 1, 1, 3, 0}, 24
		}
		for k := rapid.IntRange(1, n).Draw(t, "ops"); k > 0; k-- {
			o := Op{K: []string{"put", "over", "sync", "reopen", "bake", "get"}[vt.Pick(t, "k", w...)]}
			switch o.K {
			case "put":
				o.N, o.V = vt.Size(t, "n", min(30, most), most), rapid.IntRange(0, 1000).Draw(t, "v")
			case "get":
				o.N, o.V = rapid.IntRange(1, 10).Draw(t, "n"), rapid.IntRange(0, 1000).Draw(t, "v")
			case "over":
				o.N, o.V = rapid.IntRange(0, 300).Draw(t, "n"), rapid.IntRange(0, 1<<20).Draw(t, "v")
			}
			s.Ops = append(s.Ops, o)
		}
		s.Ops = append(s.Ops, Op{K: "sync"})
		if s.Kind == "bins" || s.Kind == "built" { // a store of the first sort finds nothing else
			if hs := s.hashes(s.total()); ixgen.Indistinguishable(hs, s.P) {
				s.Kind = "memory"
			}
		}
		return s
	}
}
