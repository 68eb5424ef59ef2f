package vt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
)

// Hx is bytes written as hex in a case file.
type Hx []byte

func (h Hx) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hx) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	r, err := hex.DecodeString(s)
	*h = r
	return err
}

// HashSpec describes a 32-byte hash compactly: bytes Fill except explicit parts.
// It expands deterministically, so cases stay small and shrink well.
type HashSpec struct {
	Seed uint32 `json:"s"`           // pseudo-random body
	Base int    `json:"b,omitempty"` // 0: random body; 1: all zero; 2: all 0xFF; 3: body of Seed/4
	Pre  Hx     `json:"p,omitempty"` // overrides leading bytes
	Mid  Hx     `json:"m,omitempty"` // overrides bytes from 8
	Suf  Hx     `json:"x,omitempty"` // overrides trailing bytes
}

func (h HashSpec) Bytes() [32]byte {
	var r [32]byte
	switch h.Base {
	case 1:
	case 2:
		for i := range r {
			r[i] = 0xFF
		}
	default:
		x := uint64(h.Seed)*0x9E3779B97F4A7C15 + 0x1234567
		for i := range r {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			r[i] = byte((x * 0x2545F4914F6CDD1D) >> 56)
		}
	}
	copy(r[:], h.Pre)
	if len(h.Mid) > 0 {
		copy(r[8:], h.Mid)
	}
	if len(h.Suf) > 0 {
		copy(r[32-len(h.Suf):], h.Suf)
	}
	return r
}

// Body returns n deterministic pseudo-random bytes for a seed.
func Body(seed uint32, n int) []byte {
	r := make([]byte, n)
	x := uint64(seed)*0x9E3779B97F4A7C15 + 0x7654321
	for i := range r {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		r[i] = byte((x * 0x2545F4914F6CDD1D) >> 56)
	}
	return r
}

// Pick draws a weighted index: weights[i]/sum.
func Pick(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return len(weights) - 1
}

// Size draws a length skewed to small with an occasional large one.
func Size(t *rapid.T, label string, small, large int) int {
	if Pick(t, label+"?", 4, 1) == 0 {
		return rapid.IntRange(0, small).Draw(t, label)
	}
	return rapid.IntRange(0, large).Draw(t, label)
}

// BytesN draws n bytes, mostly from a tiny alphabet so that values collide.
func BytesN(t *rapid.T, label string, n int) Hx {
	r := make(Hx, n)
	for i := range r {
		switch Pick(t, fmt.Sprintf("%s%d?", label, i), 3, 2, 1) {
		case 0:
			r[i] = []byte{0, 1, 0xFF, 0x7F, 0x80}[rapid.IntRange(0, 4).Draw(t, label)]
		case 1:
			r[i] = byte(rapid.IntRange(0, 3).Draw(t, label))
		default:
			r[i] = byte(rapid.IntRange(0, 255).Draw(t, label))
		}
	}
	return r
}

// Hash draws an adversarial hash: random, extreme, or sharing parts with others.
func Hash(t *rapid.T, label string) HashSpec {
	h := HashSpec{Seed: uint32(rapid.IntRange(1, 1<<20).Draw(t, label))}
	switch Pick(t, label+"k", 6, 1, 1, 3, 2, 2, 1) {
	case 1:
		h.Base = 1
	case 2:
		h.Base = 2
	case 3:
		h.Pre = BytesN(t, label+"p", rapid.IntRange(1, 4).Draw(t, label+"pn"))
	case 4:
		h.Pre = BytesN(t, label+"p", rapid.IntRange(5, 9).Draw(t, label+"pn"))
	case 5: // share the body, differ in the lead
		h.Seed = uint32(rapid.IntRange(1, 3).Draw(t, label+"b"))
		h.Pre = BytesN(t, label+"p", 8)
	case 6:
		h.Seed = uint32(rapid.IntRange(1, 3).Draw(t, label+"b"))
		h.Suf = BytesN(t, label+"x", rapid.IntRange(1, 3).Draw(t, label+"xn"))
	}
	return h
}
