// C13: fixed-width number files, hash files and the file layers below them
// behave as plain arrays under every operation history.
package main

import (
	"bytes"
	"io"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"pgregory.net/rapid"
	"verifharness/vt"
)

type op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	N int    `json:"n,omitempty"`
	V uint64 `json:"v,omitempty"`
}

type wcase struct {
	Width  int  `json:"width"`
	Shadow bool `json:"shadow"`
	Zeros  int  `json:"zeros"`
	Ops    []op `json:"ops"`
	// So many words are in the file before (a hole); what follows is about those after them.
	Base int64 `json:"base,omitempty"`
}

// base is a number of things of so many bytes that brings a file just below
// an offset that needs more bits.
func base(t *rapid.T, size int) int64 {
	if vt.Pick(t, "base?", 9, 1) == 0 {
		return 0
	}
	return int64(1)<<uint(rapid.IntRange(31, 33).Draw(t, "base"))/int64(size) - rapid.Int64Range(0, 20).Draw(t, "below")
}

func stretch(name string, bytes int64) {
	if bytes > 0 {
		if err := os.Truncate(name, bytes); err != nil {
			vt.Harnessf("%v", err)
		}
	}
}

type wordReader struct {
	wordfile.ReadAtWordCounter
	base int64
}

func (r wordReader) ReadWordAt(i int64) (int64, error) {
	return r.ReadAtWordCounter.ReadWordAt(r.base + i)
}
func (r wordReader) CountWords() (int64, error) {
	n, err := r.ReadAtWordCounter.CountWords()
	return n - r.base, err
}

type wordFile struct {
	wordfile.ReadWriteAtWordCounter
	base int64
}

func (r wordFile) ReadWordAt(i int64) (int64, error) {
	return r.ReadWriteAtWordCounter.ReadWordAt(r.base + i)
}
func (r wordFile) WriteWordAt(v, i int64) error {
	return r.ReadWriteAtWordCounter.WriteWordAt(v, r.base+i)
}
func (r wordFile) CountWords() (int64, error) {
	n, err := r.ReadWriteAtWordCounter.CountWords()
	return n - r.base, err
}

func val(t *rapid.T) uint64 {
	switch vt.Pick(t, "vk", 3, 2, 2) {
	case 0:
		return uint64(rapid.IntRange(0, 300).Draw(t, "v"))
	case 1:
		return ^uint64(0) - uint64(rapid.IntRange(0, 3).Draw(t, "v"))
	default:
		return rapid.Uint64().Draw(t, "v")
	}
}

func genWord(t *rapid.T) wcase {
	c := wcase{Width: rapid.IntRange(1, 8).Draw(t, "width"), Shadow: rapid.Bool().Draw(t, "shadow")}
	if vt.Pick(t, "z?", 2, 1) == 1 {
		c.Zeros = rapid.IntRange(0, 50).Draw(t, "zeros")
	}
	if !c.Shadow && c.Zeros == 0 {
		c.Base = base(t, c.Width)
	}
	n := rapid.IntRange(1, 40).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := op{A: rapid.IntRange(0, 1<<16).Draw(t, "a")}
		switch vt.Pick(t, "k", 12, 6, 8, 8, 4, 2, 4, 2, 4, 2, 1) {
		case 0:
			o.K, o.V = "append", val(t)
		case 1:
			o.K, o.V, o.N = "run", val(t), vt.Size(t, "n", 30, 3000)
		case 2:
			o.K, o.V = "over", val(t)
		case 3:
			o.K = "read"
		case 4:
			o.K, o.N = "past", rapid.IntRange(0, 3).Draw(t, "n")
		case 5:
			o.K, o.V, o.N = "gap", val(t), rapid.IntRange(1, 2000).Draw(t, "n")
		case 6:
			o.K = "reopen"
		case 7:
			o.K = "sync"
		case 8:
			o.K = "whole"
		case 9:
			o.K = "readonly"
		case 10:
			o.K, o.N = "anew", rapid.IntRange(0, 40).Draw(t, "n")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runWord(c *vt.Ctx, w wcase) {
	dir := c.SubDir("words")
	sub := filepath.Join(dir, "deep", "er")
	var mask uint64 = ^uint64(0)
	if w.Width < 8 {
		mask = 1<<(8*uint(w.Width)) - 1
	}
	mk := func(shadow, mmap bool) wordfile.WordFileCreator {
		return wordfile.NewConcreteWordFileCreator("w", sub, int64(w.Width), shadow, mmap)
	}
	cr := mk(w.Shadow, false)
	if cr.WordFileExists() {
		c.Failf("file reported to exist before it was created")
	}
	var model []int64
	if w.Zeros > 0 {
		c.NoErr(cr.CreateWordFileFilledZeros(int64(w.Zeros)), "create filled with zeros")
		model = make([]int64, w.Zeros)
	} else {
		c.NoErr(cr.CreateWordFile(), "create")
	}
	mapping := wordfile.NewConcreteMmapWordFileCreator("w", sub, int64(w.Width))
	if !mapping.WordFileExists() || wordfile.NewConcreteMmapWordFileCreator("v", sub, int64(w.Width)).WordFileExists() {
		c.Failf("the creator of mapped readers is wrong about which file exists")
	}
	if !cr.WordFileExists() {
		c.Failf("created file reported not to exist")
	}
	stretch(filepath.Join(sub, "w.int"), w.Base*int64(w.Width))
	c.ClassIf(w.Base > 0, "beyond two gigabytes")
	var f wordFile
	open := func() {
		g, err := cr.OpenWordFile()
		c.NoErr(err, "open")
		f = wordFile{g, w.Base}
	}
	open()
	check := func(r wordfile.ReadAtWordCounter, i int, what string) {
		got, err := r.ReadWordAt(int64(i))
		c.NoErr(err, "%s: read word %d of %d", what, i, len(model))
		if got != model[i] {
			c.Failf("%s: word %d of %d is %#x, last written %#x", what, i, len(model), got, model[i])
		}
	}
	count := func(r wordfile.ReadAtWordCounter, what string) {
		n, err := r.CountWords()
		c.NoErr(err, "count")
		if n != int64(len(model)) {
			c.Failf("%s: count %d, want %d", what, n, len(model))
		}
		if r.WordSize() != int64(w.Width) {
			c.Failf("%s: width %d, want %d", what, r.WordSize(), w.Width)
		}
	}
	all := func(what string) {
		for _, kind := range []string{"plain", "shadowed", "mapped", "mapping"} {
			cr := mk(kind == "shadowed", kind == "mapped")
			if kind == "mapping" {
				cr = mapping
			}
			if kind == "shadowed" && w.Base > 0 {
				continue // it reads the whole file
			}
			file, err := cr.OpenWordFileReadOnly()
			c.NoErr(err, "%s: read-only open (%s, %d words)", what, kind, len(model))
			r := wordReader{file, w.Base}
			count(r, what+" "+kind)
			for i := range model {
				check(r, i, what+" "+kind)
			}
			if v, err := r.ReadWordAt(int64(len(model))); err == nil {
				c.Failf("%s %s: reading past the end gave %d", what, kind, v)
			}
			c.NoErr(r.Close(), "close read-only")
		}
	}
	appends, others, reopens := 0, 0, 0
	write := func(i int, v uint64) {
		x := int64(v & mask)
		c.NoErr(f.WriteWordAt(x, int64(i)), "write word %d", i)
		for len(model) <= i {
			model = append(model, 0)
		}
		model[i] = x
	}
	for _, o := range w.Ops {
		switch o.K {
		case "append":
			write(len(model), o.V)
			appends++
		case "run":
			for j := 0; j < o.N; j++ {
				write(len(model), o.V*uint64(2*j+1)+uint64(j))
			}
			appends++
			c.ClassIf(o.N*w.Width > 4096, "run longer than the append buffer")
		case "over":
			if len(model) > 0 {
				write(o.A%len(model), o.V)
				if appends > 0 {
					others++
				}
			}
		case "read":
			if len(model) > 0 {
				check(f, o.A%len(model), "live")
				if appends > 0 {
					others++
				}
			}
		case "past":
			if v, err := f.ReadWordAt(int64(len(model) + o.N)); err == nil {
				c.Failf("reading past the end gave %d", v)
			}
		case "gap":
			write(len(model)+o.N, o.V)
			c.Class("gap write")
		case "sync":
			c.NoErr(f.Sync(), "sync")
		case "whole":
			if w.Base > 0 {
				continue
			}
			got, err := f.ReadWholeFileAsInt64s()
			c.NoErr(err, "read whole file")
			vt.KeepSlice(c, "the whole file", got)
			if len(got) != len(model) {
				c.Failf("whole file has %d words, want %d", len(got), len(model))
			}
			for i := range got {
				if got[i] != model[i] {
					c.Failf("whole file: word %d is %#x, want %#x", i, got[i], model[i])
				}
			}
		case "reopen":
			c.NoErr(f.Close(), "close")
			open()
			reopens++
		case "anew":
			if w.Base > 0 {
				continue
			}
			c.NoErr(f.Close(), "close")
			switch o.A % 3 {
			case 0:
				c.NoErr(cr.CreateWordFile(), "create anew")
				model = nil
			case 1:
				c.NoErr(mapping.CreateWordFile(), "create anew")
				model = nil
			default:
				c.NoErr(cr.CreateWordFileFilledZeros(int64(o.N)), "create anew, filled with zeros")
				model = make([]int64, o.N)
			}
			all("created anew")
			open()
			c.Class("created anew")
		case "readonly":
			c.NoErr(f.Sync(), "sync")
			all("while open")
		}
		count(f, "after "+o.K)
	}
	for i := range model {
		check(f, i, "end")
	}
	c.NoErr(f.Close(), "close")
	all("after close")
	if st, err := os.Stat(filepath.Join(sub, "w.int")); err == nil && st.Size() != (w.Base+int64(len(model)))*int64(w.Width) {
		c.Failf("file has %d bytes for %d words of %d", st.Size(), w.Base+int64(len(model)), w.Width)
	}
	if appends > 0 && others > 0 && reopens > 0 {
		c.NonTrivial()
	}
	c.ClassIf(w.Shadow, "memory-shadowed")
	c.ClassIf(len(model) == 0, "empty file")
}

// ---- hash files ----

type hcase struct {
	Ops  []op  `json:"ops"`
	Base int64 `json:"base,omitempty"` // hashes before, as a hole in the file
}

func genHash(t *rapid.T) hcase {
	c := hcase{Base: base(t, 32)}
	n := rapid.IntRange(1, 40).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := op{A: rapid.IntRange(0, 1<<16).Draw(t, "a"), V: uint64(rapid.IntRange(0, 1<<20).Draw(t, "v"))}
		switch vt.Pick(t, "k", 6, 2, 3, 4, 1, 2, 1) {
		case 0:
			o.K = "append"
		case 1:
			o.K, o.N = "run", vt.Size(t, "n", 20, 300)
		case 2:
			o.K = "over"
		case 3:
			o.K = "read"
		case 4:
			o.K = "past"
		case 5:
			o.K = "reopen"
		case 6:
			o.K = "sync"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runHash(c *vt.Ctx, h hcase) {
	name := filepath.Join(c.Dir(), "h.hsh")
	var model [][32]byte
	var hf *wordfile.HashFile
	open := func(create bool) {
		var f *os.File
		var err error
		if create {
			f, err = os.Create(name)
		} else {
			f, err = os.OpenFile(name, os.O_RDWR, 0)
		}
		if err != nil {
			vt.Harnessf("open: %v", err)
		}
		a, err := memfile.NewAppendOptimizedFile(f)
		c.NoErr(err, "append-optimised file")
		hf = wordfile.NewHashFile(a, h.Base+int64(len(model)))
	}
	if h.Base > 0 {
		if err := os.WriteFile(name, nil, 0o644); err != nil {
			vt.Harnessf("%v", err)
		}
		stretch(name, 32*h.Base)
		c.Class("beyond two gigabytes")
	}
	open(h.Base == 0)
	mk := func(v uint64) (r [32]byte) { copy(r[:], vt.Body(uint32(v), 32)); return }
	check := func(i int) {
		got, err := hf.ReadHashAt(h.Base + int64(i))
		c.NoErr(err, "read hash %d", i)
		if got != model[i] {
			c.Failf("hash %d of %d is %x, last written %x", i, len(model), got, model[i])
		}
	}
	appends, others, reopens := 0, 0, 0
	app := func(v uint64) {
		x := mk(v)
		i, err := hf.AppendHash(x)
		c.NoErr(err, "append hash")
		if i != h.Base+int64(len(model)) {
			c.Failf("appended hash numbered %d, want %d", i, h.Base+int64(len(model)))
		}
		model = append(model, x)
	}
	for _, o := range h.Ops {
		switch o.K {
		case "append":
			app(o.V)
			appends++
		case "run":
			for j := 0; j < o.N; j++ {
				app(o.V + uint64(j))
			}
		case "over":
			if len(model) > 0 {
				i := o.A % len(model)
				model[i] = mk(o.V)
				c.NoErr(hf.WriteHashAt(model[i], h.Base+int64(i)), "write hash")
				others++
			}
		case "read":
			if len(model) > 0 {
				check(o.A % len(model))
				others++
			}
		case "past":
			if _, err := hf.ReadHashAt(h.Base + int64(len(model))); err == nil {
				c.Failf("reading past the end succeeded")
			}
		case "sync":
			c.NoErr(hf.Sync(), "sync")
		case "reopen":
			c.NoErr(hf.Close(), "close")
			open(false)
			reopens++
		}
		if hf.CountHashes() != h.Base+int64(len(model)) {
			c.Failf("after %s: count %d want %d", o.K, hf.CountHashes(), h.Base+int64(len(model)))
		}
	}
	for i := range model {
		check(i)
	}
	c.NoErr(hf.Close(), "close")
	f, err := os.Open(name)
	if err != nil {
		vt.Harnessf("%v", err)
	}
	b, err := io.ReadAll(io.NewSectionReader(f, 32*h.Base, 1<<40))
	f.Close()
	if err != nil {
		vt.Harnessf("%v", err)
	}
	var want bytes.Buffer
	for _, m := range model {
		want.Write(m[:])
	}
	if !bytes.Equal(b, want.Bytes()) {
		c.Failf("file contents differ from the hashes written (%d bytes, want %d)", len(b), want.Len())
	}
	if appends > 0 && others > 0 && reopens > 0 {
		c.NonTrivial()
	}
}

// ---- byte layers ----

type bcase struct {
	Init  int  `json:"init"`
	Fixed bool `json:"fixed"` // whole-file-in-memory variant
	Ops   []op `json:"ops"`
}

func genBytes(t *rapid.T) bcase {
	c := bcase{Init: vt.Size(t, "init", 20, 9000), Fixed: vt.Pick(t, "fixed", 3, 1) == 1}
	n := rapid.IntRange(1, 40).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := op{A: rapid.IntRange(0, 1<<16).Draw(t, "a"), V: uint64(rapid.IntRange(1, 1<<20).Draw(t, "v")), N: vt.Size(t, "n", 40, 6000)}
		o.K = []string{"append", "over", "straddle", "gap", "read", "short", "readall", "sync", "reopen"}[vt.Pick(t, "k", 6, 3, 2, 1, 4, 1, 2, 1, 2)]
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runBytes(c *vt.Ctx, b bcase) {
	name := filepath.Join(c.Dir(), "b.bin")
	model := vt.Body(7, b.Init)
	if err := os.WriteFile(name, model, 0o644); err != nil {
		vt.Harnessf("%v", err)
	}
	var f memfile.LookupFile
	open := func() {
		var err error
		if b.Fixed {
			f, err = memfile.NewFixedSizeMemFile(name, 0o644)
			c.NoErr(err, "open in-memory file")
			return
		}
		of, err := os.OpenFile(name, os.O_RDWR, 0)
		if err != nil {
			vt.Harnessf("%v", err)
		}
		f, err = memfile.NewAppendOptimizedFile(of)
		c.NoErr(err, "open append-optimised file")
	}
	open()
	appends, others, reopens := 0, 0, 0
	write := func(off int, p []byte) {
		if b.Fixed && off+len(p) > len(model) {
			return
		}
		n, err := f.WriteAt(p, int64(off))
		c.NoErr(err, "write %d bytes at %d of %d", len(p), off, len(model))
		if n != len(p) {
			c.Failf("wrote %d of %d bytes", n, len(p))
		}
		if len(p) == 0 {
			return
		}
		for len(model) < off+len(p) {
			model = append(model, 0)
		}
		copy(model[off:], p)
		for i := range p { // the caller's buffer is its own
			p[i] = 0xEE
		}
	}
	readonly := func(what string) {
		of, err := os.Open(name)
		if err != nil {
			vt.Harnessf("%v", err)
		}
		fw := memfile.NewFileWithSize(of)
		if fw.Size() != int64(len(model)) {
			c.Failf("%s: size %d want %d", what, fw.Size(), len(model))
		}
		got, err := fw.ReadAll()
		c.NoErr(err, "%s: read all", what)
		if !bytes.Equal(got, model) {
			c.Failf("%s: read-only file reads differently (%d bytes, want %d)", what, len(got), len(model))
		}
		c.NoErr(fw.Close(), "close")
		of2, err := os.Open(name)
		if err != nil {
			vt.Harnessf("%v", err)
		}
		m, err := memfile.NewMmapReadOnly(of2)
		c.NoErr(err, "%s: map %d bytes", what, len(model))
		got, err = m.ReadAll()
		c.NoErr(err, "%s: read all mapped", what)
		if !bytes.Equal(got, model) || m.Size() != int64(len(model)) {
			c.Failf("%s: mapped file reads differently", what)
		}
		for _, o := range b.Ops {
			if len(model) > 0 {
				off := o.A % len(model)
				p := make([]byte, min(o.N, len(model)-off))
				n, err := m.ReadAt(p, int64(off))
				if err != nil || n != len(p) || !bytes.Equal(p, model[off:off+len(p)]) {
					c.Failf("%s: mapped read of %d at %d: n=%d err=%v", what, len(p), off, n, err)
				}
			}
		}
		if len(model) > 2 {
			if n, err := m.ReadAt(make([]byte, 4), int64(len(model)-2)); err == nil || n != 2 {
				c.Failf("%s: mapped short read gave %d, %v", what, n, err)
			}
		}
		c.NoErr(m.Close(), "unmap")
	}
	for _, o := range b.Ops {
		switch o.K {
		case "append":
			write(len(model), vt.Body(uint32(o.V), o.N))
			appends++
		case "over":
			if len(model) > 0 {
				off := o.A % len(model)
				write(off, vt.Body(uint32(o.V), min(o.N, len(model)-off)))
				others++
			}
		case "straddle":
			if len(model) > 0 {
				off := len(model) - 1 - o.A%min(len(model), 50)
				write(off, vt.Body(uint32(o.V), o.N+1))
			}
		case "gap":
			write(len(model)+1+o.A%5000, vt.Body(uint32(o.V), o.N+1))
		case "read":
			if len(model) > 0 {
				off := o.A % len(model)
				p := make([]byte, min(o.N, len(model)-off))
				n, err := f.ReadAt(p, int64(off))
				c.NoErr(err, "read %d at %d", len(p), off)
				if n != len(p) || !bytes.Equal(p, model[off:off+len(p)]) {
					c.Failf("read of %d bytes at %d of %d differs from what was written", len(p), off, len(model))
				}
				others++
			}
		case "short":
			if !b.Fixed {
				p := make([]byte, 8)
				n, err := f.ReadAt(p, int64(max(0, len(model)-3)))
				if err == nil || n != min(3, len(model)) {
					c.Failf("read across the end: n=%d err=%v", n, err)
				}
			}
		case "readall":
			if a, ok := f.(memfile.AppendableLookupFileReadAll); ok {
				got, err := a.ReadAll()
				c.NoErr(err, "read all")
				if !bytes.Equal(got, model) {
					c.Failf("read all gave %d bytes, want %d (or contents differ)", len(got), len(model))
				}
			}
		case "sync":
			c.NoErr(f.Sync(), "sync")
			if !b.Fixed {
				readonly("after sync")
			}
		case "reopen":
			c.NoErr(f.Close(), "close")
			readonly("after close")
			open()
			reopens++
		}
		if a, ok := f.(memfile.LookupFileWithSize); ok && a.Size() != int64(len(model)) {
			c.Failf("after %s: size %d, want %d", o.K, a.Size(), len(model))
		}
	}
	if len(model) > 0 {
		p := make([]byte, len(model))
		_, err := f.ReadAt(p, 0)
		c.NoErr(err, "final read")
		if !bytes.Equal(p, model) {
			c.Failf("final contents differ")
		}
	}
	c.NoErr(f.Close(), "close")
	readonly("end")
	if appends > 0 && others > 0 && reopens > 0 {
		c.NonTrivial()
	}
	c.ClassIf(b.Fixed, "fixed-size in-memory file")
}

func main() {
	const r = "random operation histories; non-trivial: at least one append, a later read or overwrite, and a close/reopen"
	vt.Main("C13",
		vt.New("words", r, 24000, 1200000, genWord, runWord),
		vt.New("hashes", r, 8000, 300000, genHash, runHash),
		vt.New("bytes", r, 16000, 600000, genBytes, runBytes),
	)
}
