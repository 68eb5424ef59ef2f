// Package treegen makes sets of hashes that give trees of every shape: wide
// and narrow nodes, long shared prefixes, and combs as deep as a hash is long.
package treegen

import (
	"verifharness/vt"

	"pgregory.net/rapid"
)

// Fam is a family of hashes. Families of the same seed share a base hash.
type Fam struct {
	Kind int    `json:"kind"` // 0 scattered, 1 fan at one byte, 2 grid of two bytes, 3 comb, 4 counting up in the last bytes
	Seed uint32 `json:"seed"`
	Pos  int    `json:"pos"`
	Pos2 int    `json:"pos2,omitempty"`
	N    int    `json:"n"`
	N2   int    `json:"n2,omitempty"`
	Step int    `json:"step,omitempty"` // added to byte values
}

type Set struct {
	Len    int    `json:"len"`
	Prefix int    `json:"prefix,omitempty"` // leading bytes the same for all
	Fams   []Fam  `json:"fams"`
	Mix    uint32 `json:"mix"` // order of presentation
	Max    int    `json:"max"` // no more hashes than this
}

func base(seed uint32, n int) []byte {
	switch seed % 4 {
	case 0:
		return make([]byte, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = 255
		}
		return b
	}
	return vt.Body(seed, n)
}

// Hashes are the distinct hashes of the set, in order of presentation.
func (s Set) Hashes() [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	pre := vt.Body(s.Mix, s.Prefix)
	room := s.Len - s.Prefix
	if room <= 0 {
		return [][]byte{pre[:s.Len]}
	}
	add := func(b []byte) {
		h := append(append([]byte{}, pre...), b...)
		if len(out) < s.Max && !seen[string(h)] {
			seen[string(h)] = true
			out = append(out, h)
		}
	}
	for _, f := range s.Fams {
		b := base(f.Seed, room)
		p, p2 := f.Pos%room, f.Pos2%room
		put := func(i int, v int) {
			b[i] = byte(v)
		}
		switch f.Kind {
		case 0:
			for i := 0; i < f.N; i++ {
				add(vt.Body(f.Seed*65537+uint32(i)*2654435761+uint32(i), room))
			}
		case 1:
			for i := 0; i < f.N; i++ {
				put(p, i+f.Step)
				add(b)
			}
		case 2:
			for i := 0; i < f.N; i++ {
				for j := 0; j < f.N2; j++ {
					put(p, i+f.Step)
					put(p2, j+f.Step)
					add(b)
				}
			}
		case 3: // the base, and the base changed at one byte of every byte in turn
			add(b)
			for i := 0; i < f.N && i < room; i++ {
				k := (p + i) % room
				old := b[k]
				b[k] = old + byte(f.Step) + 1
				add(b)
				b[k] = old
			}
		default:
			for i := 0; i < f.N; i++ {
				v := i + f.Step
				for k := 1; k <= 3 && k <= room; k++ {
					put(room-k, v)
					v >>= 8
				}
				add(b)
			}
		}
	}
	x := uint64(s.Mix)*0x9E3779B97F4A7C15 + 99
	if s.Mix%3 != 0 {
		for i := len(out) - 1; i > 0; i-- {
			x = x*6364136223846793005 + 1442695040888963407
			j := int((x >> 33) % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// Draw draws a set of hashes of the given length.
func Draw(t *rapid.T, length, prefix, max int) Set {
	s := Set{Len: length, Prefix: prefix, Max: max, Mix: rapid.Uint32Range(0, 1<<16).Draw(t, "mix")}
	for n := (rapid.IntRange(0, 24).Draw(t, "fams") + 4) / 5; n > 0; n-- {
		f := Fam{Kind: vt.Pick(t, "kind", 3, 4, 4, 4, 2), Seed: rapid.Uint32Range(0, 9).Draw(t, "seed"),
			Pos: rapid.IntRange(0, 63).Draw(t, "pos"), Pos2: rapid.IntRange(0, 63).Draw(t, "pos2")}
		switch vt.Pick(t, "step?", 3, 1, 1) {
		case 1:
			f.Step = rapid.IntRange(1, 255).Draw(t, "step")
		case 2:
			f.Step = 255
		}
		switch f.Kind {
		case 0:
			f.N = vt.Size(t, "n", 40, 3000)
		case 1:
			f.N = fan(t, "n")
		case 2:
			f.N, f.N2 = fan(t, "n"), rapid.IntRange(0, 12).Draw(t, "n2")
			if vt.Pick(t, "swap", 1, 1) == 1 {
				f.Pos, f.Pos2 = f.Pos2, f.Pos
			}
		case 3:
			f.N = vt.Size(t, "n", 12, 64)
			if vt.Pick(t, "whole", 2, 1) == 1 {
				f.N = 64
			}
		default:
			f.N = vt.Size(t, "n", 20, 2000)
		}
		s.Fams = append(s.Fams, f)
	}
	return s
}

// fan draws a number of branches, often just beside where node layouts change.
func fan(t *rapid.T, label string) int {
	switch vt.Pick(t, label+"?", 2, 3, 2) {
	case 0:
		return rapid.IntRange(0, 7).Draw(t, label)
	case 1:
		return []int{2, 3, 4, 5, 6, 7, 89, 90, 91, 100, 101, 105, 106, 108, 109, 112, 113, 118, 119, 126, 127, 130, 131, 243, 244, 245, 246, 255, 256}[rapid.IntRange(0, 28).Draw(t, label)]
	}
	return rapid.IntRange(0, 256).Draw(t, label)
}

// Probes are hashes near the listed ones, and a few far from them, that are
// not listed.
func Probes(hashes [][]byte, length, prefix int, seed uint32, n int) [][]byte {
	listed := make(map[string]bool, len(hashes))
	for _, h := range hashes {
		listed[string(h)] = true
	}
	var out [][]byte
	add := func(b []byte) {
		if !listed[string(b)] {
			out = append(out, b)
		}
	}
	x := uint64(seed)*0x9E3779B97F4A7C15 + 7
	rnd := func(n int) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int((x >> 33) % uint64(n))
	}
	for i := 0; i < n; i++ {
		var b []byte
		if len(hashes) > 0 {
			b = append([]byte{}, hashes[rnd(len(hashes))]...)
		} else {
			b = vt.Body(seed+uint32(i), length)
		}
		room := length - prefix
		switch {
		case room <= 0:
		case i%4 == 3:
			copy(b[prefix:], vt.Body(seed*31+uint32(i), room))
		default:
			for k := rnd(3) + 1; k > 0; k-- {
				p := prefix + rnd(room)
				switch rnd(3) {
				case 0:
					b[p]++
				case 1:
					b[p] = byte(rnd(256))
				default: // take the byte of another listed hash: every byte is one that occurs
					if len(hashes) > 0 {
						b[p] = hashes[rnd(len(hashes))][p]
					}
				}
			}
		}
		add(b)
	}
	return out
}
