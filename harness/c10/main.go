// C10: how the index is built does not change what it answers.
package main

import (
	"bytes"
	"os"
	"path/filepath"
	"reflect"

	"verifharness/ixgen"
	"verifharness/vt"

	"pgregory.net/rapid"
)

type two struct {
	P    ixgen.Params `json:"p"`
	L    ixgen.List   `json:"list"`
	A, B ixgen.How
	Ma   int `json:"ma"` // reading modes
	Mb   int `json:"mb"`
	// Rebuild B over A's index instead of in a fresh folder.
	Over bool `json:"over"`
	// Build A and B at the same time.
	Together bool `json:"together"`
}

func gen(maxEnts, maxBulk int, force bool) func(t *rapid.T) two {
	return func(t *rapid.T) two {
		v := two{P: ixgen.DrawParams(t)}
		if force && v.P.Bins > 64 {
			v.P.Bins, v.P.SnBytes = 64, 8
		}
		v.L = ixgen.DrawList(t, v.P, maxEnts, maxBulk)
		v.A = ixgen.DrawHow(t, v.P, 0)
		v.B = ixgen.DrawHow(t, v.P, 0)
		if force {
			v.B = ixgen.DrawHow(t, v.P, 1000000)
		}
		v.Ma = rapid.IntRange(0, 3).Draw(t, "ma")
		v.Mb = rapid.IntRange(0, 3).Draw(t, "mb")
		switch vt.Pick(t, "where", 3, 1, 1) {
		case 1:
			v.Over = true
		case 2:
			v.Together = true
		}
		return v
	}
}

func files(dir string) map[string][]byte {
	r := map[string][]byte{}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			vt.Harnessf("walk: %v", err)
		}
		if !d.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				vt.Harnessf("read: %v", err)
			}
			rel, _ := filepath.Rel(dir, p)
			if rel != "HashIndexingParams.json" {
				r[rel] = b
			}
		}
		return nil
	})
	return r
}

func run(c *vt.Ctx, v two) {
	hs := v.L.Hashes()
	if ixgen.Indistinguishable(hs, v.P) {
		c.Class("skipped: all-zero first entry")
		return
	}
	absent := v.L.Absent()
	fa, fb := c.SubDir("a"), c.SubDir("b")
	if v.Over {
		fb = fa
		c.Class("second index built over the first")
	}
	ixgen.WriteHashes(fa+"/H", hs)
	ixgen.WriteHashes(fb+"/H", hs)
	var ansA, ansB ixgen.Answers
	read := func(f string, m int, what string) ixgen.Answers {
		r := ixgen.Open(c, f, "H", v.P, m)
		defer r.Close()
		return ixgen.Ask(c, what, r, hs, absent)
	}
	var filesA map[string][]byte
	if v.Together {
		c.Class("built at the same time")
		ch := make(chan error, 1)
		go func() { ch <- ixgen.Build(fa, "H", v.P, v.A, len(hs)) }()
		errB := ixgen.Build(fb, "H", v.P, v.B, len(hs))
		c.NoErr(<-ch, "build A (%s)", v.A)
		c.NoErr(errB, "build B (%s)", v.B)
		filesA = files(fa + "/H")
		ansA = read(fa, v.Ma, "A")
	} else {
		c.NoErr(ixgen.Build(fa, "H", v.P, v.A, len(hs)), "build A (%s)", v.A)
		filesA = files(fa + "/H")
		ansA = read(fa, v.Ma, "A")
		c.NoErr(ixgen.Build(fb, "H", v.P, v.B, len(hs)), "build B (%s)", v.B)
	}
	ansB = read(fb, v.Mb, "B")
	if !reflect.DeepEqual(ansA, ansB) {
		for i := range ansA.Index {
			if ansA.Index[i] != ansB.Index[i] || ansA.Get[i] != ansB.Get[i] {
				c.Failf("hash %d: A (%s, %s) answers index %d hash %x, B (%s, %s) answers index %d hash %x", i, v.A, ixgen.Modes[v.Ma], ansA.Index[i], ansA.Get[i], v.B, ixgen.Modes[v.Mb], ansB.Index[i], ansB.Get[i])
			}
		}
		c.Failf("A (%s) and B (%s) answer differently: counts %d %d, absent %v %v", v.A, v.B, ansA.Count, ansB.Count, ansA.Missing, ansB.Missing)
	}
	// The stored index is the same, byte for byte.
	filesB := files(fb + "/H")
	for n, b := range filesA {
		if !bytes.Equal(b, filesB[n]) {
			c.Failf("file %s differs between A (%s) and B (%s)", n, v.A, v.B)
		}
	}
	for n := range filesB {
		if _, ok := filesA[n]; !ok {
			c.Failf("file %s exists only for B (%s), not A (%s)", n, v.B, v.A)
		}
	}
	d, _, _, ov := ixgen.Describe(c, hs, v.P)
	c.ClassIf(v.A.Adaptive != v.B.Adaptive, "multipass against adaptive")
	c.ClassIf(v.A.Threads != v.B.Threads, "different thread counts")
	if len(hs) > 2 && (d || ov) && v.A != v.B {
		c.NonTrivial()
	}
}

func main() {
	rule := "at least 3 hashes with a repeat or an overflowing bin, built in two different ways"
	vt.Main("C10",
		vt.New("multipass", rule, 2400, 60000, gen(80, 800, false), run),
		vt.New("adaptive", rule, 320, 8000, gen(80, 800, true), run),
		vt.New("large", rule, 32, 800, gen(400, 20000, true), run),
	)
}
