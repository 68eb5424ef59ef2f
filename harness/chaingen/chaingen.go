// Package chaingen generates block chains (as small case specs), serializes
// them in Bitcoin's binary and JSON forms, and holds what every part of the
// system should say about them, all computed without the code under test.
package chaingen

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"verifharness/vt"

	"pgregory.net/rapid"
)

type Hash = [32]byte

// Spec is a chain as a case file holds it.
type Spec struct {
	Blocks []BlockSpec `json:"blocks"` // after the genesis block
	Huge   bool        `json:"huge,omitempty"`
}

type BlockSpec struct {
	Ver   uint32   `json:"v"`
	Step  int64    `json:"dt"`
	Bits  uint32   `json:"bits"`
	Nonce uint32   `json:"nonce"`
	Dup   int      `json:"dup,omitempty"` // the coinbase is that of the block Dup before (as in blocks 91842 and 91880)
	Txs   []TxSpec `json:"txs"`           // the first is the coinbase
}

type TxSpec struct {
	Ver    uint32    `json:"v"`
	Lock   uint32    `json:"lock"`
	Segwit bool      `json:"sw,omitempty"`
	Ins    []InSpec  `json:"in"`
	Outs   []OutSpec `json:"out"`
	N      int       `json:"n,omitempty"` // that many more transactions like this
}

type InSpec struct {
	Pick int    `json:"p"` // which unspent output
	Sig  int    `json:"sig"`
	Wit  []int  `json:"wit,omitempty"`
	Seq  uint32 `json:"seq"`
	N    int    `json:"n,omitempty"`
}

type OutSpec struct {
	Val  int64 `json:"val"`
	Scr  int   `json:"s"`
	Len  int   `json:"l"`
	N    int   `json:"n,omitempty"`
	Uniq bool  `json:"u,omitempty"` // the N more have scripts of their own
}

// Chain is the expanded chain and everything derived from it.
type Chain struct {
	Blocks []*Block
	Txs    []*Tx
	Txis   []*In
	Txos   []*Out
	Addrs  map[Hash]*Addr
	ByTxid map[Hash][]int
	Dups   bool
}

type Block struct {
	Height             int
	Hash, Prev, Merkle Hash
	Version            uint32
	Time, MedianTime   uint32
	Bits, Nonce        uint32
	Difficulty         float64
	Txs                []*Tx
	Raw                []byte
	Size, Stripped     int
	Weight             int
}

type Tx struct {
	Height, Index      int
	Block              *Block
	TxId               Hash
	Version, Lock      uint32
	Segwit             bool
	Ins                []*In // as serialized, a coinbase's too
	Outs               []*Out
	Raw                []byte
	Size, Stripped     int
	Weight, VSize      int
	FirstTxi, FirstTxo int // global heights; a coinbase has no inputs in this system
}

type In struct {
	Tx     *Tx
	Height int // global, -1 for a coinbase's
	Prev   Hash
	VOut   uint32
	Sig    []byte
	Wit    [][]byte
	Seq    uint32
}

type Out struct {
	Tx     *Tx
	Height int
	Index  int
	Value  int64
	Script []byte
	Addr   *Addr
}

type Addr struct {
	Hash   Hash
	Height int // the first output's height
	Txos   []int
}

func (t *Tx) Coinbase() bool { return t.Index == 0 }

func dsha(parts ...[]byte) Hash {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return sha256.Sum256(h.Sum(nil))
}

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// CompactSize is the usual variable-length count.
func CompactSize(n int) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, byte(n), byte(n>>8))
	default:
		return append([]byte{0xfe}, le32(uint32(n))...)
	}
}

func cat(parts ...[]byte) (r []byte) {
	for _, p := range parts {
		r = append(r, p...)
	}
	return
}

func (t *Tx) seal() {
	ins, outs, wits := CompactSize(len(t.Ins)), CompactSize(len(t.Outs)), []byte{}
	for _, i := range t.Ins {
		ins = append(ins, i.Prev[:]...)
		ins = append(ins, le32(i.VOut)...)
		ins = append(ins, CompactSize(len(i.Sig))...)
		ins = append(ins, i.Sig...)
		ins = append(ins, le32(i.Seq)...)
		wits = append(wits, CompactSize(len(i.Wit))...)
		for _, w := range i.Wit {
			wits = append(append(wits, CompactSize(len(w))...), w...)
		}
	}
	for _, o := range t.Outs {
		outs = append(outs, le64(uint64(o.Value))...)
		outs = append(append(outs, CompactSize(len(o.Script))...), o.Script...)
	}
	base := cat(le32(t.Version), ins, outs, le32(t.Lock))
	t.TxId = dsha(base)
	t.Stripped = len(base)
	t.Raw = base
	if t.Segwit {
		t.Raw = cat(le32(t.Version), []byte{0, 1}, ins, outs, wits, le32(t.Lock))
	}
	t.Size = len(t.Raw)
	t.Weight = 3*t.Stripped + t.Size
	t.VSize = (t.Weight + 3) / 4
}

func merkle(txs []*Tx) Hash {
	var row []Hash
	for _, t := range txs {
		row = append(row, t.TxId)
	}
	for len(row) > 1 {
		if len(row)%2 == 1 {
			row = append(row, row[len(row)-1])
		}
		var next []Hash
		for i := 0; i < len(row); i += 2 {
			next = append(next, dsha(row[i][:], row[i+1][:]))
		}
		row = next
	}
	return row[0]
}

func (b *Block) header() []byte {
	return cat(le32(b.Version), b.Prev[:], b.Merkle[:], le32(b.Time), le32(b.Bits), le32(b.Nonce))
}

func (b *Block) seal() {
	b.Merkle = merkle(b.Txs)
	h := b.header()
	b.Hash = dsha(h)
	count := CompactSize(len(b.Txs))
	b.Raw = cat(h, count)
	b.Stripped = 80 + len(count)
	for _, t := range b.Txs {
		b.Raw = append(b.Raw, t.Raw...)
		b.Stripped += t.Stripped
	}
	b.Size = len(b.Raw)
	b.Weight = 3*b.Stripped + b.Size
	b.Difficulty = Difficulty(b.Bits)
}

// Difficulty as Bitcoin Core's GetDifficulty computes it.
func Difficulty(bits uint32) float64 {
	shift := int(bits>>24) & 0xff
	d := float64(0x0000ffff) / float64(bits&0x00ffffff)
	for ; shift < 29; shift++ {
		d *= 256
	}
	for ; shift > 29; shift-- {
		d /= 256
	}
	return d
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		vt.Harnessf("hex: %v", err)
	}
	return b
}

func genesis() *Block {
	b := &Block{Version: 1, Time: 1231006505, Bits: 0x1d00ffff, Nonce: 2083236893}
	t := &Tx{Version: 1, Block: b}
	t.Ins = []*In{{Tx: t, Height: -1, VOut: 0xffffffff, Seq: 0xffffffff,
		Sig: unhex("04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73")}}
	t.Outs = []*Out{{Tx: t, Value: 5000000000,
		Script: unhex("4104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac")}}
	t.seal()
	b.Txs = []*Tx{t}
	b.seal()
	if fmt.Sprintf("%x", b.Hash[:4]) != "6fe28c0a" {
		vt.Harnessf("genesis hash %x", b.Hash)
	}
	return b
}

func script(seed, n int) []byte { return vt.Body(uint32(seed)*7919+13, n) }

// MaxSats is every satoshi there will ever be.
const MaxSats = 2_100_000_000_000_000

type outpoint struct {
	tx   *Tx
	vout int
}

// Make expands the spec. The genesis block is the real one.
func (s Spec) Make() *Chain {
	c := &Chain{Addrs: map[Hash]*Addr{}, ByTxid: map[Hash][]int{}}
	var pool []outpoint
	budget := 2 << 20 // bytes, beyond which nothing is repeated
	if s.Huge {
		budget = 24 << 20
	}
	adopt := func(b *Block) {
		b.Height = len(c.Blocks)
		c.Blocks = append(c.Blocks, b)
		var last []uint32
		for i := max(0, b.Height-10); i <= b.Height; i++ {
			last = append(last, c.Blocks[i].Time)
		}
		sort.Slice(last, func(i, j int) bool { return last[i] < last[j] })
		b.MedianTime = last[len(last)/2]
		for i, t := range b.Txs {
			t.Block, t.Index, t.Height = b, i, len(c.Txs)
			t.FirstTxi, t.FirstTxo = len(c.Txis), len(c.Txos)
			c.Txs = append(c.Txs, t)
			c.Dups = c.Dups || len(c.ByTxid[t.TxId]) > 0
			c.ByTxid[t.TxId] = append(c.ByTxid[t.TxId], t.Height)
			for _, in := range t.Ins {
				in.Height = -1
				if i > 0 {
					in.Height = len(c.Txis)
					c.Txis = append(c.Txis, in)
				}
			}
			for n, o := range t.Outs {
				o.Height, o.Index = len(c.Txos), n
				c.Txos = append(c.Txos, o)
				ah := sha256.Sum256(o.Script)
				a := c.Addrs[ah]
				if a == nil {
					a = &Addr{Hash: ah, Height: o.Height}
					c.Addrs[ah] = a
				}
				a.Txos = append(a.Txos, o.Height)
				o.Addr = a
			}
		}
	}
	g := genesis()
	adopt(g)
	pool = append(pool, outpoint{g.Txs[0], 0})
	for bi, bs := range s.Blocks {
		prev := c.Blocks[len(c.Blocks)-1]
		b := &Block{Prev: prev.Hash, Version: bs.Ver, Bits: bs.Bits, Nonce: bs.Nonce}
		b.Time = uint32(min(max(int64(prev.Time)+bs.Step, 0), 0xffffffff))
		inBlock := map[Hash]bool{}
		for ti, ts := range bs.Txs {
			for n := 0; n <= ts.N; n++ {
				if n > 0 && (ti == 0 || budget < 0) {
					break
				}
				t := &Tx{Block: b, Version: ts.Ver, Lock: ts.Lock, Segwit: ts.Segwit}
				dup := false
				if k := len(c.Blocks) - bs.Dup; ti == 0 && bs.Dup > 0 && k > 0 {
					o := c.Blocks[k].Txs[0]
					t.Version, t.Lock, t.Segwit = o.Version, o.Lock, o.Segwit
					for _, i := range o.Ins {
						cp := *i
						cp.Tx = t
						t.Ins = append(t.Ins, &cp)
					}
					for _, x := range o.Outs {
						t.Outs = append(t.Outs, &Out{Tx: t, Value: x.Value, Script: x.Script})
					}
					dup = true
				} else {
					wit := false
					for ii, is := range ts.Ins {
						for m := 0; m <= is.N; m++ {
							if m > 0 && budget < 0 {
								break
							}
							in := &In{Tx: t, Seq: is.Seq, Sig: vt.Body(uint32(is.Sig+m), is.Sig)}
							if ti == 0 {
								if len(t.Ins) > 0 {
									break
								}
								in.VOut = 0xffffffff
								in.Sig = append(append([]byte{8}, le64(uint64(bi)+1000)...), in.Sig...)
							} else {
								if len(pool) == 0 {
									break
								}
								p := (is.Pick / 2) % len(pool)
								if is.Pick%2 == 0 {
									p = len(pool) - 1 - p
								}
								in.Prev, in.VOut = pool[p].tx.TxId, uint32(pool[p].vout)
								pool[p] = pool[len(pool)-1]
								pool = pool[:len(pool)-1]
							}
							if ts.Segwit {
								for wi, w := range is.Wit {
									in.Wit = append(in.Wit, vt.Body(uint32(wi*31+ii), w))
								}
								wit = wit || len(is.Wit) > 0
							}
							t.Ins = append(t.Ins, in)
							budget -= 41 + len(in.Sig)
							for _, w := range in.Wit {
								budget -= 1 + len(w)
							}
						}
					}
					if len(t.Ins) == 0 {
						continue
					}
					t.Segwit = t.Segwit && wit
					for _, os := range ts.Outs {
						for m := 0; m <= os.N; m++ {
							if m > 0 && budget < 0 {
								break
							}
							budget -= 9 + os.Len
							seed := os.Scr
							if os.Uniq {
								seed += m * 1000
							}
							t.Outs = append(t.Outs, &Out{Tx: t, Value: os.Val, Script: script(seed, os.Len)})
						}
					}
				}
				t.seal()
				if inBlock[t.TxId] {
					vt.Harnessf("txid twice in a block")
				}
				inBlock[t.TxId] = true
				if !dup {
					for v := range t.Outs {
						pool = append(pool, outpoint{t, v})
					}
				}
				b.Txs = append(b.Txs, t)
			}
		}
		b.seal()
		adopt(b)
	}
	return c
}

// Rev is a hash as text: bytes reversed.
func Rev(h Hash) string {
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		h[i], h[j] = h[j], h[i]
	}
	return hex.EncodeToString(h[:])
}

func coins(v int64) string { return fmt.Sprintf("%d.%08d", v/100000000, v%100000000) }

func (t *Tx) JSON() string {
	var s strings.Builder
	wtxid := dsha(t.Raw)
	fmt.Fprintf(&s, `{"txid":"%s","hash":"%s","version":%d,"size":%d,"vsize":%d,"weight":%d,"locktime":%d,"vin":[`, Rev(t.TxId), Rev(wtxid), t.Version, t.Size, t.VSize, t.Weight, t.Lock)
	for i, in := range t.Ins {
		if i > 0 {
			s.WriteByte(',')
		}
		if t.Index == 0 {
			fmt.Fprintf(&s, `{"coinbase":"%x",`, in.Sig)
		} else {
			fmt.Fprintf(&s, `{"txid":"%s","vout":%d,"scriptSig":{"asm":"","hex":"%x"},`, Rev(in.Prev), in.VOut, in.Sig)
		}
		if len(in.Wit) > 0 {
			s.WriteString(`"txinwitness":[`)
			for j, w := range in.Wit {
				if j > 0 {
					s.WriteByte(',')
				}
				fmt.Fprintf(&s, `"%x"`, w)
			}
			s.WriteString(`],`)
		}
		fmt.Fprintf(&s, `"sequence":%d}`, in.Seq)
	}
	s.WriteString(`],"vout":[`)
	for i, o := range t.Outs {
		if i > 0 {
			s.WriteByte(',')
		}
		fmt.Fprintf(&s, `{"value":%s,"n":%d,"scriptPubKey":{"asm":"","desc":"raw","hex":"%x","type":"nonstandard"}}`, coins(o.Value), i, o.Script)
	}
	fmt.Fprintf(&s, `],"hex":"%x"}`, t.Raw)
	return s.String()
}

// JSON of the block; next is the hash of the next block, if any.
func (b *Block) JSON(next *Block) string {
	var s strings.Builder
	fmt.Fprintf(&s, `{"hash":"%s","confirmations":7,"height":%d,"version":%d,"versionHex":"%08x","merkleroot":"%s","time":%d,"mediantime":%d,"nonce":%d,"bits":"%08x","difficulty":%s,"chainwork":"00","nTx":%d,`,
		Rev(b.Hash), b.Height, int32(b.Version), b.Version, Rev(b.Merkle), b.Time, b.MedianTime, b.Nonce, b.Bits, fmt.Sprintf("%.16g", b.Difficulty), len(b.Txs))
	if b.Height > 0 {
		fmt.Fprintf(&s, `"previousblockhash":"%s",`, Rev(b.Prev))
	}
	if next != nil {
		fmt.Fprintf(&s, `"nextblockhash":"%s",`, Rev(next.Hash))
	}
	fmt.Fprintf(&s, `"strippedsize":%d,"size":%d,"weight":%d,"tx":[`, b.Stripped, b.Size, b.Weight)
	for i, t := range b.Txs {
		if i > 0 {
			s.WriteByte(',')
		}
		s.WriteString(t.JSON())
	}
	s.WriteString("]}")
	return s.String()
}

// Opts bound what DrawSpec generates.
type Opts struct {
	Blocks   int  // most blocks in most cases
	Long     int  // most blocks in a few
	Wide     bool // now and then hundreds of transactions, inputs or outputs, and scripts of 64 kB
	Dups     bool // repeated coinbases
	AnyBits  bool // any valid target, even those whose difficulty exceeds an int64
	Versions bool // any version numbers
}

func Draw(t *rapid.T, o Opts) Spec {
	var s Spec
	n := vt.Size(t, "blocks", o.Blocks, o.Long)
	scripts := rapid.IntRange(1, 12).Draw(t, "scripts")
	now := int64(1231006505)
	leap := -1 // the block whose time is near where 32 bits get tight
	if vt.Pick(t, "leap", 7, 1) == 1 && n > 0 {
		leap = rapid.IntRange(0, n-1).Draw(t, "leapat")
	}
	for i := 0; i < n; i++ {
		b := BlockSpec{Ver: drawVersion(t, o.Versions), Nonce: rapid.Uint32().Draw(t, "nonce")}
		switch vt.Pick(t, "step", 5, 3, 1, 1) {
		case 0:
			b.Step = rapid.Int64Range(0, 1200).Draw(t, "dt")
		case 1:
			b.Step = rapid.Int64Range(-7000, 7000).Draw(t, "dt")
		case 2:
			b.Step = []int64{0, 1, -1}[rapid.IntRange(0, 2).Draw(t, "dt")]
		default:
			b.Step = rapid.Int64Range(-2000000, 400000000).Draw(t, "dt")
		}
		if i == leap {
			to := []int64{1 << 31, 1<<32 - 1}[vt.Pick(t, "leapto", 3, 1)]
			b.Step = to + rapid.Int64Range(-3000, 3000).Draw(t, "near") - now
		}
		now = min(max(now+b.Step, 0), 0xffffffff)
		b.Bits = drawBits(t, o.AnyBits)
		if o.Dups && i > 0 && vt.Pick(t, "dup", 9, 1) == 1 {
			b.Dup = rapid.IntRange(1, i).Draw(t, "of")
		}
		b.Txs = append(b.Txs, drawTx(t, o, scripts, true))
		for k := vt.Size(t, "txs", 3, 8); k > 0; k-- {
			b.Txs = append(b.Txs, drawTx(t, o, scripts, false))
		}
		s.Blocks = append(s.Blocks, b)
	}
	return s
}

// DrawHuge is a short chain in which some transaction has more outputs (and
// often another as many inputs), or some block more transactions, than two
// bytes can count.
func DrawHuge(t *rapid.T, o Opts) Spec {
	s := Draw(t, o)
	s.Huge = true
	n := func(what string) int {
		return []int{65533, 65534, 65535, 65536, 66000, 70000}[rapid.IntRange(0, 5).Draw(t, what)]
	}
	out := func(uniq bool) OutSpec {
		return OutSpec{Val: rapid.Int64Range(0, 100000).Draw(t, "val"), Scr: rapid.IntRange(0, 12).Draw(t, "script"), Len: 2 + rapid.IntRange(0, 4).Draw(t, "slen"), Uniq: uniq}
	}
	block := func(txs ...TxSpec) {
		s.Blocks = append(s.Blocks, BlockSpec{Ver: 4, Step: 600, Bits: 0x1d00ffff, Nonce: rapid.Uint32().Draw(t, "nonce"), Txs: append([]TxSpec{drawTx(t, o, 12, true)}, txs...)})
	}
	in := func() InSpec {
		return InSpec{Pick: rapid.IntRange(0, 400).Draw(t, "pick"), Sig: rapid.IntRange(0, 9).Draw(t, "sig"), Seq: 0xffffffff}
	}
	fan := out(rapid.Bool().Draw(t, "uniq"))
	fan.N = n("outs")
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 { // the lists of an address are kept a hundred thousand to a file
		fan.N = []int{99990, 100010, 131080}[rapid.IntRange(0, 2).Draw(t, "outs")]
	}
	block(TxSpec{Ver: 1, Ins: []InSpec{in()}, Outs: []OutSpec{out(false), fan}})
	switch rapid.IntRange(0, 2).Draw(t, "then") {
	case 0: // spend many at once
		i := in()
		i.N = n("ins")
		block(TxSpec{Ver: 1, Ins: []InSpec{i}, Outs: []OutSpec{out(false)}})
	case 1: // many transactions
		block(TxSpec{Ver: 2, Ins: []InSpec{in()}, Outs: []OutSpec{out(false)}, N: n("txs")})
	}
	block(drawTx(t, o, 12, false), drawTx(t, o, 12, false))
	late := func(k int) OutSpec { // to an address that is first seen now
		return OutSpec{Val: 1 + int64(k), Scr: 50 + rapid.IntRange(0, 1).Draw(t, "late"), Len: 9, N: rapid.IntRange(0, 3).Draw(t, "times")}
	}
	block(TxSpec{Ver: 1, Ins: []InSpec{in()}, Outs: []OutSpec{late(0), late(1)}}, TxSpec{Ver: 1, Ins: []InSpec{in()}, Outs: []OutSpec{late(2), out(false)}})
	return s
}

func drawVersion(t *rapid.T, any bool) uint32 {
	if any && vt.Pick(t, "anyver", 2, 1) == 1 {
		return rapid.Uint32().Draw(t, "ver")
	}
	return []uint32{1, 2, 4, 0x20000000, 0x3fffe000}[rapid.IntRange(0, 4).Draw(t, "ver")]
}

func drawBits(t *rapid.T, any bool) uint32 {
	switch vt.Pick(t, "bitsk", 3, 3) {
	case 0:
		return []uint32{0x1d00ffff, 0x1b0404cb, 0x170331db, 0x207fffff, 0x1c05a3f4, 0x18013ce9}[rapid.IntRange(0, 5).Draw(t, "bits")]
	default:
		e := rapid.Uint32Range(0x17, 0x20).Draw(t, "exp")
		m := rapid.Uint32Range(0x8000, 0x7fffff).Draw(t, "mant")
		if any {
			e = rapid.Uint32Range(3, 0x21).Draw(t, "exp")
			if rapid.Bool().Draw(t, "smallmant") {
				m = rapid.Uint32Range(1, 0x7fffff).Draw(t, "mant")
			}
		}
		return e<<24 | m
	}
}

func drawTx(t *rapid.T, o Opts, scripts int, coinbase bool) TxSpec {
	x := TxSpec{Ver: []uint32{1, 2, 3}[rapid.IntRange(0, 2).Draw(t, "tver")], Segwit: rapid.Bool().Draw(t, "segwit")}
	if o.Versions && vt.Pick(t, "tvany", 3, 1) == 1 {
		x.Ver = rapid.Uint32().Draw(t, "tver")
	}
	if vt.Pick(t, "lock?", 3, 1) == 1 {
		x.Lock = rapid.Uint32().Draw(t, "lock")
	}
	ins := 1
	if !coinbase {
		ins = 1 + vt.Size(t, "ins", 2, 6)
	}
	for ; ins > 0; ins-- {
		i := InSpec{Pick: rapid.IntRange(0, 400).Draw(t, "pick"), Sig: drawLen(t, o), Seq: 0xffffffff}
		if vt.Pick(t, "seq?", 3, 1) == 1 {
			i.Seq = rapid.Uint32().Draw(t, "seq")
		}
		if x.Segwit {
			for w := vt.Size(t, "wits", 2, 5); w > 0; w-- {
				i.Wit = append(i.Wit, drawLen(t, o))
			}
			if o.Wide && vt.Pick(t, "manywit", 60, 1) == 1 {
				i.Wit = make([]int, 260)
			}
		}
		if coinbase {
			i.Sig = rapid.IntRange(0, 90).Draw(t, "cbsig")
		} else if o.Wide && vt.Pick(t, "manyins", 40, 1) == 1 {
			i.N = []int{100, 251, 252, 253, 300}[rapid.IntRange(0, 4).Draw(t, "n")]
		}
		x.Ins = append(x.Ins, i)
	}
	for k := 1 + vt.Size(t, "outs", 2, 6); k > 0; k-- {
		u := OutSpec{Scr: rapid.IntRange(0, scripts).Draw(t, "script"), Len: []int{25, 25, 23, 67, 0, 1}[rapid.IntRange(0, 5).Draw(t, "slen")]}
		switch vt.Pick(t, "scriptk", 5, 2, 1) {
		case 1:
			u.Scr = rapid.IntRange(0, 100000).Draw(t, "script")
		case 2:
			u.Len = drawLen(t, o)
		}
		switch vt.Pick(t, "valk", 3, 3, 2) {
		case 0:
			u.Val = []int64{0, 1, 546, 5000000000, MaxSats, 99999999, 100000000, 2550000001, MaxSats - 1}[rapid.IntRange(0, 8).Draw(t, "val")]
		case 1:
			u.Val = rapid.Int64Range(0, 500000000).Draw(t, "val")
		default:
			u.Val = rapid.Int64Range(0, MaxSats).Draw(t, "val")
		}
		if o.Wide && vt.Pick(t, "manyouts", 40, 1) == 1 {
			u.N = []int{100, 251, 252, 253, 600}[rapid.IntRange(0, 4).Draw(t, "n")]
			u.Uniq = rapid.Bool().Draw(t, "uniq")
		}
		x.Outs = append(x.Outs, u)
	}
	if !coinbase && o.Wide && vt.Pick(t, "manytxs", 60, 1) == 1 {
		x.N = []int{60, 250, 251, 252, 400}[rapid.IntRange(0, 4).Draw(t, "n")]
	}
	return x
}

func drawLen(t *rapid.T, o Opts) int {
	k := 12
	if !o.Wide {
		k = 0
	}
	switch vt.Pick(t, "lenk", 40, 3, k/12) {
	case 0:
		return rapid.IntRange(0, 110).Draw(t, "len")
	case 1:
		return []int{127, 128, 251, 252, 253, 254, 255, 256, 257, 520}[rapid.IntRange(0, 9).Draw(t, "len")]
	default:
		return []int{0xfffe, 0xffff, 0x10000, 0x10001}[rapid.IntRange(0, 3).Draw(t, "len")]
	}
}

// Describe classes the chain for the evidence.
func (c *Chain) Describe(x *vt.Ctx) {
	sw, reuse, same, many := false, false, false, false
	for _, t := range c.Txs {
		sw = sw || t.Segwit
		many = many || len(t.Ins) > 252 || len(t.Outs) > 252
		for _, i := range t.Ins {
			for _, h := range c.ByTxid[i.Prev] {
				same = same || (i.Height >= 0 && c.Txs[h].Block == t.Block)
			}
		}
	}
	for _, a := range c.Addrs {
		reuse = reuse || len(a.Txos) > 1
	}
	x.ClassIf(sw, "segwit transactions")
	x.ClassIf(reuse, "address reuse")
	x.ClassIf(same, "spent in the same block")
	x.ClassIf(many, "more than 252 inputs or outputs")
	x.ClassIf(c.Dups, "repeated coinbase")
	x.ClassIf(len(c.Blocks) > 11, "more than 11 blocks")
	x.ClassIf(len(c.Txis) > 0, "spends")
}

// Reseal makes the block's bytes and hashes fit its transactions, or, if keep
// is set, its bytes only: the header and its hash stay as they were.
func (b *Block) Reseal(keep bool) {
	h, m := b.Hash, b.Merkle
	for _, t := range b.Txs {
		t.seal()
	}
	b.seal()
	if keep {
		b.Hash, b.Merkle = h, m
		copy(b.Raw, b.header())
	}
}
