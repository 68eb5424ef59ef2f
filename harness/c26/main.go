// C26: stores that are not one another's do not influence one another.
package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"

	"verifharness/parts"
	"verifharness/vt"

	"pgregory.net/rapid"
)

// files is all that is below dir.
func files(dir string) map[string][]byte {
	r := map[string][]byte{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		if d.IsDir() {
			r[rel+"/"] = nil
			return nil
		}
		r[rel], err = os.ReadFile(p)
		return err
	})
	if err != nil {
		vt.Harnessf("%v", err)
	}
	return r
}

// same checks that what is in got is what is in want.
func same(c *vt.Ctx, what string, got, want map[string][]byte) {
	var all []string
	for f := range got {
		all = append(all, f)
	}
	for f := range want {
		if _, ok := got[f]; !ok {
			all = append(all, f)
		}
	}
	sort.Strings(all)
	for _, f := range all {
		g, ok := got[f]
		w, wok := want[f]
		switch {
		case !ok:
			c.Failf("%s: there is no %s", what, f)
		case !wok:
			c.Failf("%s: there is %s, too", what, f)
		case !bytes.Equal(g, w):
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			c.Failf("%s: %s is of %d bytes, alone it is of %d, the first difference is at %d", what, f, len(g), len(w), i)
		}
	}
}

// work is one store and what is to be done with it.
type work struct {
	s    parts.Script
	dir  string
	p    parts.Part
	done int
}

func (w *work) begin(c *vt.Ctx) {
	w.s.Own = true
	p, err := w.s.Prepare(c, w.dir)()
	c.NoErr(err, "%s: create", w.s.Kind)
	w.p = p
}

func (w *work) over() bool { return w.done > len(w.s.Ops)+1 }

// step does the next thing: creates, does an operation, or closes.
func (w *work) step(c *vt.Ctx, what string) {
	switch i := w.done - 1; {
	case i < 0:
		w.begin(c)
	case i < len(w.s.Ops):
		c.NoErr(w.p.Do(w.s.Ops[i]), "%s: %s: operation %d (%s)", what, w.s.Kind, i, w.s.Ops[i].K)
	case w.p.Shut != nil:
		c.NoErr(w.p.Shut(), "%s: %s: close", what, w.s.Kind)
	case w.p.Close != nil:
		w.p.Close()
	}
	w.done++
}

type severalCase struct {
	S     []parts.Script `json:"s"`
	Order []int          `json:"order"` // whose turn it is
}

func runSeveral(c *vt.Ctx, v severalCase, together bool) {
	var alone []map[string][]byte
	for i, s := range v.S {
		c.Class(s.Kind)
		w := &work{s: s, dir: c.SubDir(fmt.Sprintf("alone%d", i))}
		for !w.over() {
			w.step(c, "alone")
		}
		w.p.Look(c, s.Kind+": alone; what is stored", w.dir)
		alone = append(alone, files(w.dir))
	}
	var ws []*work
	puts := 0
	for i, s := range v.S {
		ws = append(ws, &work{s: s, dir: c.SubDir(fmt.Sprintf("among%d", i))})
		n := 0
		for _, o := range s.Ops {
			if o.K == "put" {
				n += o.N
			}
		}
		if n > 0 {
			puts++
		}
	}
	look := func(c *vt.Ctx, i int, what string) {
		w := ws[i]
		w.p.Look(c, fmt.Sprintf("%s: %s; what is stored", w.s.Kind, what), w.dir)
		same(c, fmt.Sprintf("%s: %s", w.s.Kind, what), files(w.dir), alone[i])
	}
	if together {
		c.Parallel(len(ws), func(i int, c *vt.Ctx) {
			for !ws[i].over() {
				ws[i].step(c, "at the same time as others")
			}
			look(c, i, "written at the same time as others")
		})
	} else {
		for k := 0; ; k++ {
			var open []int
			for i, w := range ws {
				if !w.over() {
					open = append(open, i)
				}
			}
			if len(open) == 0 {
				break
			}
			turn := 0
			if k < len(v.Order) {
				turn = v.Order[k]
			}
			i := open[turn%len(open)]
			ws[i].step(c, "in turns with others")
			if ws[i].over() {
				look(c, i, "written in turns with others")
			}
		}
	}
	for i := range ws {
		look(c, i, "written among others")
	}
	if puts > 1 {
		c.NonTrivial()
	}
}

func draw(t *rapid.T) (v severalCase) {
	one := parts.Draw(true)
	first := one(t)
	v.S = []parts.Script{first}
	n := 0
	for k := vt.Pick(t, "more", 4, 2, 1); k >= 0; k-- {
		s := one(t)
		for try := 0; s.Kind != first.Kind && try < 4 && vt.Pick(t, "same", 1, 3) == 1; try++ {
			s = one(t)
		}
		v.S = append(v.S, s)
	}
	for _, s := range v.S {
		n += len(s.Ops) + 2
	}
	for ; n > 0; n-- {
		v.Order = append(v.Order, rapid.IntRange(0, 11).Draw(t, "turn"))
	}
	return
}

func main() {
	vt.Main("C26",
		vt.New("turns", "something is put in at least two stores", 600, 60000, draw, func(c *vt.Ctx, v severalCase) { runSeveral(c, v, false) }),
		vt.New("together", "something is put in at least two stores", 300, 30000, draw, func(c *vt.Ctx, v severalCase) { runSeveral(c, v, true) }),
	)
}
