// C18: the live tier and chunked node files keep everything written.
package main

import (
	"bytes"
	"os"
	"path/filepath"

	"verifharness/treegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"pgregory.net/rapid"
)

// --- The live tier.

type step struct {
	Op string      `json:"op"` // append look at bad count sync reopen readonly again
	H  vt.HashSpec `json:"h"`
	I  int         `json:"i,omitempty"`
}

type tierCase struct {
	Steps []step `json:"steps"`
}

type reader interface {
	IndexOfHash(*weddingcake.Sha256) (int64, error)
	GetHashAtIndex(int64, *weddingcake.Sha256) error
	CountHashes() (int64, error)
	Close() error
}

func runTier(c *vt.Ctx, v tierCase) {
	dir := c.Dir()
	cr := weddingcake.NewTierZeroCreator(dir)
	if cr.HashStoreExists() {
		c.Failf("a store exists before it is made")
	}
	c.NoErr(cr.CreateHashStore(), "make the store")
	if !cr.HashStoreExists() {
		c.Failf("no store exists after it is made")
	}
	w, err := cr.OpenHashStore()
	c.NoErr(err, "open the store")
	var model []weddingcake.Sha256
	first := map[weddingcake.Sha256]int64{} // the number a repeated hash was last said to have
	times := map[weddingcake.Sha256]int{}
	said := map[weddingcake.Sha256]int64{}

	look := func(r reader, h weddingcake.Sha256) {
		in := h
		i, err := r.IndexOfHash(&in)
		c.NoErr(err, "look for %x", h)
		if in != h {
			c.Failf("looking for %x changed it into %x", h, in)
		}
		switch n := times[h]; {
		case n == 0:
			if i != -1 {
				c.Failf("%x was never appended but is at %d", h, i)
			}
		case n == 1:
			if i != first[h] {
				c.Failf("%x is at %d, want %d", h, i, first[h])
			}
		default: // any of its places, but the same one until it is appended again
			if i < 0 || i >= int64(len(model)) || model[i] != h {
				c.Failf("%x, appended %d times, is at %d, where it is not", h, n, i)
			}
			if s, ok := said[h]; ok && s != i {
				c.Failf("%x, appended %d times, is at %d, and was at %d before", h, n, i, s)
			}
			said[h] = i
			c.Class("repeated hash found")
		}
	}
	at := func(r reader, i int64) {
		got := weddingcake.Sha256{0xEE}
		c.NoErr(r.GetHashAtIndex(i, &got), "the hash at %d of %d", i, len(model))
		if got != model[i] {
			c.Failf("the hash at %d is %x, want %x", i, got, model[i])
		}
	}
	count := func(r reader) {
		n, err := r.CountHashes()
		c.NoErr(err, "count")
		if n != int64(len(model)) {
			c.Failf("%d hashes are counted, want %d", n, len(model))
		}
	}
	all := func(r reader) {
		count(r)
		for i := range model {
			at(r, int64(i))
			look(r, model[i])
		}
	}
	opens := 0
	for _, s := range v.Steps {
		h := weddingcake.Sha256(s.H.Bytes())
		switch s.Op {
		case "append", "again":
			if s.Op == "again" && len(model) > 0 {
				h = model[s.I%len(model)]
			}
			in := h
			i, err := w.AppendHash(&in)
			c.NoErr(err, "append %x", h)
			if i != int64(len(model)) {
				c.Failf("%x is appended as number %d, want %d", h, i, len(model))
			}
			if in != h {
				c.Failf("appending %x changed it into %x", h, in)
			}
			if times[h] == 0 {
				first[h] = i
			}
			times[h]++
			delete(said, h)
			model = append(model, h)
			for k := range in { // the caller's hash is the caller's
				in[k] ^= 0x5A
			}
			look(w, h)
			at(w, i)
			if len(model) > 1 && opens > 0 {
				c.NonTrivial()
			}
		case "look":
			look(w, h)
		case "near": // a hash that differs from one that is there
			if len(model) > 0 {
				h = model[s.I%len(model)]
				h[s.I%32] ^= 1 << (s.I % 8)
			}
			look(w, h)
		case "at":
			if len(model) > 0 {
				at(w, int64(s.I%len(model)))
			}
		case "bad":
			for _, i := range []int64{int64(len(model) + s.I), -1 - int64(s.I), -1 << 63, 1<<63 - 1} {
				got := weddingcake.Sha256{}
				if err := w.GetHashAtIndex(i, &got); err == nil {
					c.Failf("hash number %d of %d is %x", i, len(model), got)
				}
			}
			c.Class("number out of range")
		case "count":
			count(w)
		case "sync":
			c.NoErr(w.Sync(), "sync")
			raw, err := os.ReadFile(filepath.Join(dir, "Tier0", "Hashes.hsh"))
			if err == nil {
				var want []byte
				for i := range model {
					want = append(want, model[i][:]...)
				}
				if !bytes.Equal(raw, want) {
					c.Failf("after a sync of %d hashes the file has %d bytes that differ from them", len(model), len(raw))
				}
			}
		case "reopen":
			c.NoErr(w.Close(), "close")
			w, err = cr.OpenHashStore()
			c.NoErr(err, "open again")
			opens++
			all(w)
		case "readonly":
			c.NoErr(w.Close(), "close")
			r, err := cr.OpenHashStoreReadOnly()
			c.NoErr(err, "open for reading")
			all(r)
			look(r, h)
			r2, err := cr.OpenHashStoreReadOnly()
			c.NoErr(err, "open for reading twice")
			all(r2)
			c.NoErr(r.Close(), "close the reader")
			c.NoErr(r2.Close(), "close the second reader")
			w, err = cr.OpenHashStore()
			c.NoErr(err, "open after reading")
			opens++
			c.Class("read-only")
		}
	}
	all(w)
	c.NoErr(w.Close(), "close")
	w, err = cr.OpenHashStore()
	c.NoErr(err, "open at last")
	all(w)
	c.NoErr(w.Close(), "close at last")
}

func genTier(t *rapid.T) tierCase {
	v := tierCase{}
	for n := vt.Size(t, "n", 30, 200); n > 0; n-- {
		s := step{Op: []string{"append", "again", "look", "near", "at", "bad", "count", "sync", "reopen", "readonly"}[vt.Pick(t, "op", 12, 2, 2, 2, 2, 1, 1, 1, 2, 1)]}
		switch s.Op {
		case "append", "look", "readonly":
			s.H = vt.Hash(t, "h")
		}
		s.I = rapid.IntRange(0, 300).Draw(t, "i")
		v.Steps = append(v.Steps, s)
	}
	return v
}

// --- Chunks in files.

type piece struct {
	Set   treegen.Set `json:"set"`
	Gap   int64       `json:"gap"` // numbers skipped before the chunk
	Probe uint32      `json:"probe"`
}

type filesCase struct {
	Len    int     `json:"len"`
	Reass  int     `json:"reassurance"`
	Specs  int     `json:"specs"`
	NodeW  int     `json:"node_id_bytes"`
	HashW  int     `json:"hash_id_bytes"`
	Pieces []piece `json:"pieces"`
	Read   uint64  `json:"read"` // after which chunks the files are read
	Fresh  bool    `json:"fresh_writer"`
	Again  bool    `json:"same_reader"`
}

func nodeIds(w int) weddingcake.NByteIdConfig[weddingcake.NodeIdType] {
	switch w {
	case 2:
		return weddingcake.ID16[weddingcake.NodeIdType]{}
	case 3:
		return weddingcake.ID24[weddingcake.NodeIdType]{}
	}
	return weddingcake.ID32[weddingcake.NodeIdType]{}
}

func hashIds(w int) weddingcake.NByteIdConfig[weddingcake.HashIndexIdType] {
	switch w {
	case 2:
		return weddingcake.ID16[weddingcake.HashIndexIdType]{}
	case 3:
		return weddingcake.ID24[weddingcake.HashIndexIdType]{}
	}
	return weddingcake.ID32[weddingcake.HashIndexIdType]{}
}

func runFiles(c *vt.Ctx, v filesCase) {
	dir := c.Dir()
	c.NoErr(os.WriteFile(filepath.Join(dir, "ChunksInfo.bin"), nil, 0644), "make the list of chunks")
	config := weddingcake.StoreConfig{HashLength: byte(v.Len), ReassuranceBytesCount: byte(v.Reass), NodeFormatSpecsPerLevel: byte(v.Specs), NodeIdConfig: nodeIds(v.NodeW), HashIndexIdConfig: hashIds(v.HashW)}
	var made []*weddingcake.Chunk
	var sets [][][]byte
	var firsts []int64
	next := int64(0)
	filled := 0
	out := weddingcake.NewChunkFilesWrite(dir)
	in := weddingcake.NewChunkFilesRead(dir)

	read := func(in *weddingcake.ChunkFilesRead) {
		c.NoErr(in.ReadAndMmap(config), "read %d chunks", len(made))
		chunks := *vt.Field[[]weddingcake.Chunk](in)
		if len(chunks) != len(made) {
			c.Failf("%d chunks are read, want %d", len(chunks), len(made))
		}
		for k := range chunks {
			ch, want := &chunks[k], made[k]
			if ch.FirstGlobalPresentationIndexOfChunk != want.FirstGlobalPresentationIndexOfChunk {
				c.Failf("chunk %d of %d starts at %d, want %d", k, len(made), ch.FirstGlobalPresentationIndexOfChunk, want.FirstGlobalPresentationIndexOfChunk)
			}
			if len(ch.ChunkLevels) != len(want.ChunkLevels) {
				c.Failf("chunk %d of %d has %d levels, want %d", k, len(made), len(ch.ChunkLevels), len(want.ChunkLevels))
			}
			for l := range ch.ChunkLevels {
				if !bytes.Equal(ch.ChunkLevels[l].IndexBytes, want.ChunkLevels[l].IndexBytes) || !bytes.Equal(ch.ChunkLevels[l].NodeBytes, want.ChunkLevels[l].NodeBytes) {
					c.Failf("level %d of chunk %d of %d is read back differently", l, k, len(made))
				}
			}
			for i, h := range sets[k] {
				if got := ch.LookupHash(h); int64(got) != firsts[k]+int64(i) {
					c.Failf("%x is at %d in chunk %d of %d, want %d", h, got, k, len(made), firsts[k]+int64(i))
				}
			}
			for _, h := range treegen.Probes(sets[k], v.Len, 0, v.Pieces[k].Probe, 20) {
				if a, b := ch.LookupHash(h), want.LookupHash(h); a != b {
					c.Failf("%x, not inserted, is at %d in chunk %d of %d as read, and at %d as written", h, a, k, len(made), b)
				}
			}
		}
	}
	for k, p := range v.Pieces {
		hs := p.Set.Hashes()
		next += p.Gap
		list := make([]weddingcake.ShallowTreeHash, len(hs))
		for i := range hs {
			list[i] = weddingcake.ShallowTreeHash{Hash: hs[i], PresentationIndex: next + int64(i)}
		}
		prep := weddingcake.NewChunkPreparation(list, byte(v.Len), byte(v.Reass), byte(v.Specs), config.NodeIdConfig, config.HashIndexIdConfig)
		prep.PrepareAndSerialize()
		ch := vt.Field[weddingcake.Chunk](prep)
		if v.Fresh {
			out = weddingcake.NewChunkFilesWrite(dir)
		}
		c.NoErr(out.AppendChunk(ch), "append chunk %d", k)
		made, sets, firsts = append(made, ch), append(sets, hs), append(firsts, next)
		next += int64(len(hs))
		c.ClassIf(len(hs) == 0, "empty chunk")
		if len(hs) > 0 {
			filled++
			c.ClassIf(k > 0 && len(ch.ChunkLevels) > len(made[k-1].ChunkLevels), "deeper than the chunk before")
			c.ClassIf(k > 0 && len(ch.ChunkLevels) < len(made[k-1].ChunkLevels), "less deep than the chunk before")
		}
		if v.Read>>uint(k)&1 == 1 {
			other := weddingcake.NewChunkFilesRead(dir)
			if v.Again {
				other = in
			}
			read(other)
			c.NoErr(other.UnMmapLevelFiles(), "let go of the files")
			c.Class("read between chunks")
			c.ClassIf(v.Again, "read again by the same reader")
		}
	}
	if filled > 1 {
		c.NonTrivial()
	}
	read(in)
	c.NoErr(in.UnMmapLevelFiles(), "let go of the files")
}

func main() {
	vt.Main("C18",
		vt.New("tier", "appended to after being opened again", 15000, 400000, genTier, runTier),
		vt.New("files", "at least two chunks with hashes", 6000, 150000, func(t *rapid.T) filesCase {
			l := []int{1, 3, 20, 32, 32, 64}[rapid.IntRange(0, 5).Draw(t, "len")]
			v := filesCase{Len: l, Reass: rapid.IntRange(0, min(4, l)).Draw(t, "reassurance"), Specs: rapid.IntRange(5, 12).Draw(t, "specs"),
				NodeW: rapid.IntRange(2, 4).Draw(t, "node"), HashW: rapid.IntRange(2, 4).Draw(t, "hash"), Read: rapid.Uint64().Draw(t, "read"), Fresh: rapid.Bool().Draw(t, "fresh"), Again: rapid.Bool().Draw(t, "again")}
			for n := rapid.IntRange(0, 6).Draw(t, "chunks"); n > 0; n-- {
				p := piece{Set: treegen.Draw(t, l, 0, 400), Probe: rapid.Uint32Range(0, 1<<20).Draw(t, "probe")}
				if vt.Pick(t, "gap?", 2, 1) == 1 {
					p.Gap = rapid.Int64Range(0, 1<<36).Draw(t, "gap")
				}
				v.Pieces = append(v.Pieces, p)
			}
			return v
		}, runFiles),
	)
}
