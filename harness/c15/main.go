// C15: numbers map to folders and files one-to-one.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/KitchenMishap/pudding-shed/numberedfolders"
	"pgregory.net/rapid"
	"verifharness/vt"
)

type ncase struct {
	FileDigits   int     `json:"fd"`
	FolderDigits int     `json:"od"`
	Nums         []int64 `json:"nums"`
}

func pow10(n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

func gen(t *rapid.T) ncase {
	c := ncase{FileDigits: rapid.IntRange(0, 4).Draw(t, "fd"), FolderDigits: rapid.IntRange(1, 4).Draw(t, "od")}
	n := rapid.IntRange(2, 12).Draw(t, "n")
	maxN := int64(1<<63 - 1)
	for i := 0; i < n; i++ {
		var x int64
		switch vt.Pick(t, "k", 3, 3, 2, 3) {
		case 0:
			x = rapid.Int64Range(0, 20000).Draw(t, "x")
		case 1: // around group boundaries
			e := c.FileDigits + c.FolderDigits*rapid.IntRange(0, 4).Draw(t, "g")
			if e > 18 {
				e = 18
			}
			x = pow10(e)*rapid.Int64Range(0, 9).Draw(t, "m") + rapid.Int64Range(-2, 2).Draw(t, "d")
		case 2:
			x = rapid.Int64Range(0, maxN).Draw(t, "x")
		default: // relative to an earlier one
			if len(c.Nums) > 0 {
				b := c.Nums[rapid.IntRange(0, len(c.Nums)-1).Draw(t, "b")]
				x = b + []int64{1, -1, pow10(c.FileDigits), -pow10(c.FileDigits), pow10(c.FileDigits + c.FolderDigits)}[rapid.IntRange(0, 4).Draw(t, "r")]
			}
		}
		if x < 0 {
			x = 0
		}
		c.Nums = append(c.Nums, x)
	}
	return c
}

// groups splits the bucket number into its digit groups, least significant first.
func groups(num int64, fd, od int) (digits []string) {
	first := fd
	if fd == 0 {
		first = od
	}
	s := fmt.Sprint(num)
	for len(s) < first {
		s = "0" + s
	}
	digits = append(digits, s[len(s)-first:])
	s = s[:len(s)-first]
	for len(s) > 0 {
		for len(s) < od {
			s = "0" + s
		}
		digits = append(digits, s[len(s)-od:])
		s = s[:len(s)-od]
	}
	return
}

func isDir(folders string) []string {
	var r []string
	p := ""
	for _, c := range strings.Split(folders, string(filepath.Separator)) {
		p = filepath.Join(p, c)
		r = append(r, p)
	}
	return r
}

func run(c *vt.Ctx, n ncase) {
	nf := numberedfolders.NewNumberedFolders(n.FileDigits, n.FolderDigits)
	per := pow10(n.FileDigits)
	type loc struct {
		folders, file string
		bucket        int64
	}
	var locs []loc
	for _, x := range n.Nums {
		fo, fi, num := nf.NumberToFoldersAndFile(x)
		fo2, fi2, num2 := nf.NumberToFoldersAndFile(x)
		if fo != fo2 || fi != fi2 || num != num2 {
			c.Failf("%d maps to two places", x)
		}
		if num != x-x%per {
			c.Failf("%d: file number %d, want %d", x, num, x-x%per)
		}
		// The documented layout: n groups of digits, the file named after all
		// of them (x's for digits inside the file), nested in folders whose
		// names reveal one more group at each level.
		g := groups(x, n.FileDigits, n.FolderDigits)
		xs := func(s string) string { return strings.Repeat("x", len(s)) }
		file := ""
		for i := len(g) - 1; i >= 0; i-- {
			if i == 0 && n.FileDigits > 0 {
				file += xs(g[i])
			} else {
				file += g[i]
			}
		}
		low := 1
		if n.FileDigits == 0 {
			low = 0
		}
		var comps []string
		for level := len(g) - 1; level >= low; level-- {
			name := ""
			for s := len(g) - 1; s >= 0; s-- {
				if s == 0 || s <= level {
					name += xs(g[s])
				} else {
					name += g[s]
				}
			}
			comps = append(comps, name)
		}
		if want := strings.Join(comps, string(filepath.Separator)); fo != want || fi != file {
			c.Failf("%d (file digits %d, folder digits %d): %q / %q, want %q / %q", x, n.FileDigits, n.FolderDigits, fo, fi, want, file)
		}
		locs = append(locs, loc{fo, fi, x / per})
	}
	boundary, same, groupsUsed := false, false, map[int]bool{}
	for i, a := range locs {
		groupsUsed[len(strings.Split(a.folders, "/"))] = true
		for j, b := range locs[:i] {
			pa, pb := filepath.Join(a.folders, a.file), filepath.Join(b.folders, b.file)
			if (pa == pb) != (a.bucket == b.bucket) {
				c.Failf("%d and %d (buckets %d and %d) have files %q and %q", n.Nums[i], n.Nums[j], a.bucket, b.bucket, pa, pb)
			}
			for _, d := range isDir(a.folders) {
				if d != "" && d == pb {
					c.Failf("folder %q of %d is the file of %d", d, n.Nums[i], n.Nums[j])
				}
			}
			for _, d := range isDir(b.folders) {
				if d != "" && d == pa {
					c.Failf("folder %q of %d is the file of %d", d, n.Nums[j], n.Nums[i])
				}
			}
			if n.Nums[i] != n.Nums[j] {
				same = same || pa == pb
				boundary = boundary || a.folders != b.folders
			}
		}
	}
	if boundary && len(groupsUsed) > 1 {
		c.NonTrivial()
	}
	c.ClassIf(same, "two numbers share a file")
	c.ClassIf(n.FileDigits == 0, "one number per file")
}

func main() {
	vt.Main("C15", vt.New("paths", "sets of numbers around digit-group boundaries under random digit settings, against an independent construction of the documented layout and pairwise injectivity; non-trivial: different folders at different nesting depths", 60000, 1500000, gen, run))
}
