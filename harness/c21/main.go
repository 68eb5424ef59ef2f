// C21: hashes and their text forms convert without loss.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"io"
	"net/http"
	"strings"
	"sync"

	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"pgregory.net/rapid"
)

const digits = "0123456789abcdef"

// text is the reference: the bytes in reverse order as lower case hexadecimal.
func text(h [32]byte) string {
	var b strings.Builder
	for i := 31; i >= 0; i-- {
		b.WriteByte(digits[h[i]>>4])
		b.WriteByte(digits[h[i]&15])
	}
	return b.String()
}

type textCase struct {
	Hash  vt.HashSpec `json:"hash"`
	Old   vt.HashSpec `json:"old"`   // what the receiving variable held
	Upper uint64      `json:"upper"` // digits in upper case
	Cut   int         `json:"cut"`   // length of a text that is too short or too long
}

func runText(c *vt.Ctx, v textCase) {
	h, old := v.Hash.Bytes(), v.Old.Bytes()
	c.NonTrivial()
	want := text(h)
	in := indexedhashes.Sha256(h)
	got := indexedhashes.HashSha256ToHexString(&in)
	if got != want {
		c.Failf("the text of %x is %s, want %s", h, got, want)
	}
	if in != h {
		c.Failf("turning %x into text changed it into %x", h, in)
	}
	raw := append([]byte{}, h[:]...)
	if s := corereader2.ToHexHash(raw); s != want {
		c.Failf("the node is asked for %x as %s, want %s", h, s, want)
	}
	if string(raw) != string(h[:]) {
		c.Failf("making the request's text of %x changed it into %x", h, raw)
	}
	back := indexedhashes.Sha256(old)
	c.NoErr(indexedhashes.HashHexToSha256(got, &back), "read the text %s", got)
	if back != h {
		c.Failf("the text %s is read as %x, want %x", got, back, h)
	}
	mixed := []byte(want)
	for i := range mixed {
		if v.Upper>>uint(i)&1 == 1 && mixed[i] >= 'a' {
			mixed[i] -= 'a' - 'A'
			c.Class("upper case digits")
		}
	}
	back = old
	c.NoErr(indexedhashes.HashHexToSha256(string(mixed), &back), "read the text %s", mixed)
	if back != h {
		c.Failf("the text %s is read as %x, want %x", mixed, back, h)
	}
	// The wrong length.
	long := want + text(old)
	if v.Cut != 64 {
		back = old
		if err := indexedhashes.HashHexToSha256(long[:v.Cut], &back); err == nil {
			c.Failf("a text of %d digits is read as the hash %x", v.Cut, back)
		}
		c.ClassIf(v.Cut < 64, "too short a text")
		c.ClassIf(v.Cut > 64, "too long a text")
	}
}

type ofCase struct {
	N    uint64 `json:"n"`
	Body vt.Hx  `json:"body"`
	Pad  int    `json:"pad"`
	Seed uint32 `json:"seed"`
}

func runOf(c *vt.Ctx, v ofCase) {
	b := append(append([]byte{}, v.Body...), vt.Body(v.Seed, v.Pad)...)
	if len(b) > 0 {
		c.NonTrivial()
	}
	c.ClassIf(len(b) > 55, "more than one round of hashing")
	want := sha256.Sum256(b)
	keep := string(b)
	if g := indexedhashes.HashOfBytes(b); g != want {
		c.Failf("the hash of %d bytes is %x, want %x", len(b), g, want)
	}
	if string(b) != keep {
		c.Failf("hashing changed the bytes")
	}
	if g := indexedhashes.HashOfString(string(b)); g != want {
		c.Failf("the hash of a text of %d bytes is %x, want %x", len(b), g, want)
	}
	var n [8]byte
	binary.LittleEndian.PutUint64(n[:], v.N)
	if g := indexedhashes.HashOfInt(v.N); g != sha256.Sum256(n[:]) {
		c.Failf("the hash of the number %d is %x, want %x", v.N, g, sha256.Sum256(n[:]))
	}
}

// What the workers ask the node for.
type askCase struct {
	Hashes  []vt.HashSpec `json:"hashes"`
	Json    bool          `json:"json"`
	Threads int           `json:"threads"`
}

type asked struct {
	mu   sync.Mutex
	urls map[string]int
}

// A block of one transaction, the least that can be parsed.
var leastBin = append(make([]byte, 80), 1, // one transaction
	1, 0, 0, 0, 1, // version, one input
	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 2, 1, 1, 255, 255, 255, 255,
	1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0x51, 0, 0, 0, 0)

func (a *asked) RoundTrip(r *http.Request) (*http.Response, error) {
	a.mu.Lock()
	a.urls[r.Method+" "+r.URL.String()]++
	a.mu.Unlock()
	body := string(leastBin)
	if strings.HasSuffix(r.URL.Path, ".json") {
		z := strings.Repeat("0", 64)
		body = `{"hash":"` + z + `","merkleroot":"` + z + `","bits":"1d00ffff","tx":[]}`
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: r}, nil
}

func runAsk(c *vt.Ctx, v askCase) {
	a := &asked{urls: map[string]int{}}
	corereader2.TheOneAndOnlyClient.Transport = a
	in, out := make(chan indexedhashes.Sha256), make(chan *corereader2.HeightNumberedBlock)
	corereader2.GetAndParseBlocks(in, v.Json, out, v.Threads)
	go func() {
		for _, h := range v.Hashes {
			in <- h.Bytes()
		}
		close(in)
	}()
	if len(v.Hashes) > 1 {
		c.NonTrivial()
	}
	seen := map[int64]bool{}
	for b := range out {
		if b.BlockHeight < 0 || b.BlockHeight >= int64(len(v.Hashes)) || seen[b.BlockHeight] {
			c.Failf("block %d comes out (again: %v) of %d blocks", b.BlockHeight, seen[b.BlockHeight], len(v.Hashes))
		}
		seen[b.BlockHeight] = true
		if b.BlockHash != v.Hashes[b.BlockHeight].Bytes() {
			c.Failf("block %d comes out with hash %x, want %x", b.BlockHeight, b.BlockHash, v.Hashes[b.BlockHeight].Bytes())
		}
	}
	if len(seen) != len(v.Hashes) {
		c.Failf("%d blocks come out of %d", len(seen), len(v.Hashes))
	}
	ext := ".bin"
	if v.Json {
		ext = ".json"
	}
	want := map[string]int{}
	for _, h := range v.Hashes {
		want["GET http://127.0.0.1:8332/rest/block/"+text(h.Bytes())+ext]++
	}
	for u, n := range a.urls {
		if want[u] != n {
			c.Failf("the node is asked %d times for %s, want %d times", n, u, want[u])
		}
	}
	if len(a.urls) != len(want) {
		c.Failf("the node is asked for %d blocks of %d", len(a.urls), len(want))
	}
}

func main() {
	vt.Main("C21",
		vt.New("text", "every case: a hash, its text and a text of the wrong length", 40000, 8000000, func(t *rapid.T) textCase {
			return textCase{Hash: vt.Hash(t, "hash"), Old: vt.Hash(t, "old"), Upper: rapid.Uint64().Draw(t, "upper"), Cut: rapid.IntRange(0, 128).Draw(t, "cut")}
		}, runText),
		vt.New("of", "at least one byte", 20000, 4000000, func(t *rapid.T) ofCase {
			v := ofCase{N: rapid.Uint64().Draw(t, "n"), Body: vt.BytesN(t, "body", rapid.IntRange(0, 70).Draw(t, "bn"))}
			if vt.Pick(t, "long", 4, 1) == 1 {
				v.Pad, v.Seed = rapid.IntRange(1, 2000).Draw(t, "pad"), rapid.Uint32Range(0, 1000).Draw(t, "seed")
			}
			return v
		}, runOf),
		vt.New("asked", "at least two blocks", 2000, 200000, func(t *rapid.T) askCase {
			v := askCase{Json: rapid.Bool().Draw(t, "json"), Threads: rapid.IntRange(1, 8).Draw(t, "threads")}
			for n := vt.Size(t, "n", 12, 60); n > 0; n-- {
				v.Hashes = append(v.Hashes, vt.Hash(t, "h"))
			}
			return v
		}, runAsk).Hang(60),
	)
}
