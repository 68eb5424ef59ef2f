// C22: what a sync has said is stored is stored, even if the process ends at
// once, and no file that could not be written is passed over in silence.
package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"syscall"

	"verifharness/parts"
	"verifharness/storegen"
	"verifharness/vt"

	"pgregory.net/rapid"
)

func runCrash(c *vt.Ctx, s parts.Script) {
	c.Class(s.Kind)
	dir := c.SubDir("a")
	p, err := s.Prepare(c, dir)()
	c.NoErr(err, "create")
	puts, syncs := 0, 0
	for i, o := range s.Ops {
		c.NoErr(p.Do(o), "operation %d (%s)", i, o.K)
		if o.K == "put" {
			puts += o.N
		}
		if o.K == "sync" {
			syncs++
			to := c.SubDir(fmt.Sprintf("b%d", i))
			storegen.CopyTree(dir, to)
			p.Look(c, fmt.Sprintf("%s: what a process that ended after operation %d (sync) left", s.Kind, i), to)
			os.RemoveAll(to)
		}
	}
	if puts > 0 && syncs > 0 {
		c.NonTrivial()
	}
}

type fullCase struct {
	S    parts.Script `json:"s"`
	File int          `json:"file"` // which file's size sets the limit
	At   int          `json:"at"`   // thousandths of it
	End  int          `json:"end"`  // 0 sync, 1 close
	From int          `json:"from"` // the first operation while the disk is full
	N    int          `json:"n"`    // how many; after them there is room again. None: it is full from before the first operation to the end
}

// limited runs f while no file may grow beyond so many bytes.
func limited(bytes int64, f func()) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		vt.Harnessf("%v", err)
	}
	set := func(v uint64) {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: v, Max: l.Max}); err != nil {
			vt.Harnessf("%v", err)
		}
	}
	set(uint64(bytes))
	defer set(l.Cur)
	f()
}

func sizes(dir string) (r []int64) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			if i, err := d.Info(); err == nil && i.Size() > 0 {
				r = append(r, i.Size())
			}
		}
		return nil
	})
	return
}

func runFull(c *vt.Ctx, v fullCase) {
	s := v.S
	c.Class(s.Kind)
	// what is written when nothing is wrong
	all := func(p parts.Part, limit int64) error {
		for i, o := range s.Ops {
			var err error
			if limit > 0 && i >= v.From%len(s.Ops) && i < v.From%len(s.Ops)+v.N {
				limited(limit, func() { err = p.Do(o) })
			} else {
				err = p.Do(o)
			}
			if err != nil {
				return fmt.Errorf("operation %d (%s): %w", i, o.K, err)
			}
		}
		if (v.End == 1 || s.Kind == "keyed" && s.Flag[0]) && p.Shut != nil {
			return p.Shut()
		}
		return p.Sync()
	}
	free := c.SubDir("free")
	p, err := s.Prepare(c, free)()
	c.NoErr(err, "create")
	c.NoErr(all(p, 0), "write")
	sz := sizes(free)
	if len(sz) == 0 {
		return
	}
	limit := max(1, sz[v.File%len(sz)]*int64(v.At)/1000)
	dir := c.SubDir("full")
	begin := s.Prepare(c, dir)
	err = errors.New("it panics")
	work := func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case vt.Failure, vt.HarnessError:
				panic(x)
			default: // loud enough
				c.Class("it panics")
			}
		}()
		p, err = begin()
		if err == nil {
			err = all(p, limit)
		}
	}
	if v.N > 0 {
		c.Class("full for a while")
		work()
	} else {
		limited(limit, work)
	}
	if parts.Wrong(err) {
		c.Failf("%s: while no file could grow beyond %d bytes, or afterwards: %v", s.Kind, limit, err)
	}
	bites := false
	for _, n := range sz {
		bites = bites || n > limit
	}
	c.ClassIf(bites && err != nil, "an error is reported")
	if bites {
		c.NonTrivial()
	}
	if err == nil {
		p.Look(c, fmt.Sprintf("%s: no error was reported while no file could grow beyond %d bytes; what is stored", s.Kind, limit), dir)
	}
}

type handleCase struct {
	S    parts.Script `json:"s"`
	From int          `json:"from"` // the first operation while few files can be opened
	N    int          `json:"n"`
	More int          `json:"more"` // how many more files can be opened
	Read []int        `json:"read"` // the same for reading back
	All  bool         `json:"all"`  // read back with every number from none to enough
}

// starved runs f while only so many more files can be opened.
func starved(more int, f func()) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
		vt.Harnessf("%v", err)
	}
	open, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		vt.Harnessf("%v", err)
	}
	set := func(v uint64) {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: v, Max: l.Max}); err != nil {
			vt.Harnessf("%v", err)
		}
	}
	set(uint64(len(open) - 1 + more))
	defer set(l.Cur)
	f()
}

func runHandles(c *vt.Ctx, v handleCase) {
	s := v.S
	c.Class(s.Kind)
	dir := c.SubDir("a")
	var p parts.Part
	var err error
	begin := s.Prepare(c, dir)
	c.NoErr(func() error { p, err = begin(); return err }(), "create")
	from := v.From % len(s.Ops)
	for i, o := range s.Ops {
		if i < from || i >= from+v.N {
			c.NoErr(p.Do(o), "operation %d (%s)", i, o.K)
			continue
		}
		loud := error(nil)
		starved(v.More, func() {
			loud = c.Tolerate(func() {
				err = p.Do(o)
				c.NoErr(err, "operation %d (%s)", i, o.K)
			})
		})
		if parts.Wrong(err) {
			c.Failf("%s: while few files could be opened: %v", s.Kind, err)
		}
		if loud != nil {
			c.Class("an operation says so")
			c.NonTrivial()
			if s.Kind != "map" || o.K == "reopen" {
				return
			}
			// an append that was refused leaves what was there
		}
	}
	if p.Shut != nil {
		c.NoErr(p.Shut(), "close")
	}
	p.Look(c, fmt.Sprintf("%s: no error was reported while few files could be opened; what is stored", s.Kind), dir)
	reads := v.Read
	for k := 0; v.All && k < 80; k++ {
		reads = append(reads, k)
	}
	for i, more := range reads {
		loud := error(nil)
		starved(more, func() {
			loud = c.Tolerate(func() {
				p.Look(c, fmt.Sprintf("%s: read while few files can be opened", s.Kind), dir)
			})
		})
		if loud != nil {
			c.Class("reading says so")
			c.NonTrivial()
		} else if i >= len(v.Read) {
			break // enough
		}
		runtime.GC() // closes what was left open
	}
}

func main() {
	vt.Main("C22",
		vt.New("crash", "something is stored and there is a sync", 3000, 150000, parts.Draw(false), runCrash),
		vt.New("full", "some file would grow beyond the limit", 5000, 150000, func(t *rapid.T) fullCase {
			v := fullCase{S: parts.Draw(true)(t), File: rapid.IntRange(0, 60).Draw(t, "file"), End: rapid.IntRange(0, 1).Draw(t, "end")}
			v.At = rapid.IntRange(0, 999).Draw(t, "at")
			if rapid.Bool().Draw(t, "while") {
				v.From, v.N = rapid.IntRange(0, 20).Draw(t, "from"), rapid.IntRange(1, 4).Draw(t, "n")
			}
			return v
		}, runFull),
		vt.New("handles", "too few files can be opened for something", 3000, 150000, func(t *rapid.T) handleCase {
			v := handleCase{S: parts.Draw(true)(t), From: rapid.IntRange(0, 40).Draw(t, "from"), N: rapid.IntRange(0, 3).Draw(t, "n")}
			v.More = vt.Size(t, "more", 4, 30)
			most := 3
			if v.S.Kind == "chain" || v.S.Kind == "cake" {
				most = 60
			}
			v.All = rapid.IntRange(0, 4).Draw(t, "all") == 0
			for k := rapid.IntRange(0, 3).Draw(t, "reads"); k > 0; k-- {
				v.Read = append(v.Read, rapid.IntRange(0, most).Draw(t, "read"))
			}
			return v
		}, runHandles),
	)
}
