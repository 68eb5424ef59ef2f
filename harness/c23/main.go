// C23: an ingestion run that was cut short, or could not do its work, is never
// taken for a finished one, and does not spoil the next.
//
// Every run is a process of its own, so that a run can end at any moment.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	_ "unsafe"

	"verifharness/chaingen"
	"verifharness/fakenode"
	"verifharness/storegen"
	"verifharness/vt"

	"github.com/KitchenMishap/pudding-shed/jobs"
	"pgregory.net/rapid"
)

//go:linkname blocksEachYear github.com/KitchenMishap/pudding-shed/jobs.blocksEachYear
var blocksEachYear []int64

//go:linkname transactionsEachYear github.com/KitchenMishap/pudding-shed/jobs.transactionsEachYear
var transactionsEachYear []int64

// Run is one run of the program.
type Run struct {
	From    int             `json:"from"` // phases, one to three
	To      int             `json:"to"`
	Chi     bool            `json:"chi"`
	Json    bool            `json:"json"`
	Threads int             `json:"threads"`
	Adapt   bool            `json:"adapt"`
	Timing  fakenode.Timing `json:"timing"`
	More    int             `json:"more,omitempty"`  // blocks asked for beyond what the node has
	Fsize   int             `json:"fsize,omitempty"` // no file may grow beyond this
	Files   int             `json:"files,omitempty"` // files that may be open at once
	Kill    int             `json:"kill,omitempty"`  // the process is killed after so many microseconds
}

func (r Run) faulty() bool {
	return len(r.Timing.Fails)+len(r.Timing.Heads)+len(r.Timing.Wrong)+r.Timing.Die+r.More+r.Fsize+r.Files+r.Kill > 0
}

type job struct {
	Case runsCase `json:"case"`
	Run  Run      `json:"run"`
	Dir  string   `json:"dir"`
}

type runsCase struct {
	Chain chaingen.Spec `json:"chain"`
	Pad   int           `json:"pad"`
	Less  int           `json:"less"`
	Limit int           `json:"limit"`
	Runs  []Run         `json:"runs"`
}

// chains is the chain that the node has and the part of it asked for.
func (v runsCase) chains() (full, part *chaingen.Chain) {
	s := v.Chain
	for i := 0; i < v.Pad || len(s.Blocks) == 0; i++ {
		s.Blocks = append(s.Blocks[:len(s.Blocks):len(s.Blocks)], chaingen.BlockSpec{Ver: 1, Step: 600, Bits: 0x1d00ffff, Nonce: uint32(i),
			Txs: []chaingen.TxSpec{{Ver: 1, Ins: []chaingen.InSpec{{Sig: 8}}, Outs: []chaingen.OutSpec{{Val: 50_0000_0000, Scr: i % 50, Len: 25}}}}})
	}
	full = s.Make()
	n := max(1, len(full.Blocks)-max(1, v.Less))
	s.Blocks = s.Blocks[:n-1]
	part = s.Make()
	if len(part.Blocks) != n || part.Blocks[n-1].Hash != full.Blocks[n-1].Hash {
		vt.Harnessf("the first %d blocks of the chain are not the chain of the first %d blocks", n, n)
	}
	return
}

const (
	said   = "C23 says: "
	noMore = 76 // exit status: the program's tables were not found
)

// child is the process of one run.
func child(path string) {
	b, err := os.ReadFile(path)
	var j job
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "C23 job:", err)
		os.Exit(75)
	}
	if len(blocksEachYear) < 3 || len(transactionsEachYear) < 3 {
		os.Exit(noMore)
	}
	full, ch := j.Case.chains()
	r := j.Run
	say := os.NewFile(3, "say")
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	blocksEachYear[2], transactionsEachYear[2] = int64(len(ch.Blocks)), int64(len(ch.Txs))
	if r.More > 0 {
		blocksEachYear[2] = int64(len(full.Blocks) + r.More)
	}
	storegen.Fresh()
	fakenode.Serve(fakenode.New(full, r.Timing))
	limit := func(what, to int) {
		if to > 0 {
			var l syscall.Rlimit
			if syscall.Getrlimit(what, &l) != nil {
				os.Exit(75)
			}
			l.Cur = uint64(to)
			if syscall.Setrlimit(what, &l) != nil {
				os.Exit(75)
			}
		}
	}
	limit(syscall.RLIMIT_FSIZE, r.Fsize)
	limit(syscall.RLIMIT_NOFILE, r.Files)
	fmt.Fprint(say, "begin\n")
	err = jobs.RunIntrinsic(j.Dir, r.Json, "delegated", 2, r.Threads, 1, r.From <= 1 && r.To >= 1, r.From <= 2 && r.To >= 2, r.To >= 3, int64(j.Case.Limit), true, r.Chi, r.Adapt)
	if err != nil {
		fmt.Fprint(say, "error: "+err.Error()+"\n")
	} else {
		fmt.Fprint(say, "done\n")
	}
	os.Exit(0)
}

// run starts a process and reports whether it says that it is done, and how it ended.
func (v runsCase) run(c *vt.Ctx, dir string, r Run, name string) (bool, string) {
	b, err := json.Marshal(job{v, r, dir})
	path := filepath.Join(c.SubDir(name), "job.json")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	exe, err2 := os.Executable()
	rd, wr, err3 := os.Pipe()
	if err != nil || err2 != nil || err3 != nil {
		vt.Harnessf("prepare a process: %v %v %v", err, err2, err3)
	}
	defer rd.Close()
	cmd := exec.Command(exe)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VT_") && !strings.HasPrefix(e, "VERIF_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "C23_JOB="+path, "GOTRACEBACK=single")
	var errs bytes.Buffer
	cmd.Stderr, cmd.ExtraFiles = &errs, []*os.File{wr}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		wr.Close()
		vt.Harnessf("start a process: %v", err)
	}
	wr.Close()
	out := make(chan string, 1)
	begun := make(chan bool, 1)
	go func() {
		var all []byte
		buf := make([]byte, 4096)
		for {
			n, err := rd.Read(buf)
			if len(all) == 0 && n > 0 {
				begun <- true
			}
			all = append(all, buf[:n]...)
			if err != nil {
				break
			}
		}
		select {
		case begun <- true:
		default:
		}
		out <- string(all)
	}()
	if r.Kill > 0 {
		<-begun
		time.Sleep(time.Duration(r.Kill) * time.Microsecond)
		cmd.Process.Kill()
	}
	hung := time.AfterFunc(hang*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	text := <-out
	if !hung.Stop() {
		c.Failf("%s: the run has not ended after %d s; %s", name, hang, clip(errs.String()))
	}
	if st, ok := err.(*exec.ExitError); ok && (st.ExitCode() == 75 || st.ExitCode() == noMore) {
		if st.ExitCode() == noMore {
			return false, "no tables"
		}
		vt.Harnessf("%s: %s", name, errs.String())
	}
	how := "it ends with "
	switch _, t, _ := strings.Cut(text, "begin\n"); {
	case strings.HasPrefix(t, "done"):
		return true, "it says that it is done"
	case t != "":
		return false, how + strings.TrimSpace(t)
	default:
		return false, how + fmt.Sprint(err) + ": " + clip(errs.String())
	}
}

const hang = 100

func clip(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + " ..."
	}
	return s
}

func runRuns(c *vt.Ctx, v runsCase) {
	_, ch := v.chains()
	ch.Describe(c)
	if v.Limit > len(ch.Blocks) {
		v.Limit = 0
	}
	dir := filepath.Join(c.SubDir("a"), "store")
	store := storegen.Store{Blk: storegen.BlkNeis, Trn: storegen.TrnNeis, Delegated: true}
	upto := len(ch.Blocks)
	if v.Limit > 0 && v.Limit < upto {
		upto = v.Limit
	}
	done, begun := 0, 0 // phases
	for i, r := range v.Runs {
		// a run starts at the latest after the phases that are done
		r.From = min(max(r.From, 1), done+1, 3)
		r.To = min(max(r.To, r.From), 3)
		sound := r.From == 1 || r.To < 3 || begun < 3 // the third phase is not done over one that was begun
		if i == len(v.Runs)-1 && !sound {
			r.From, sound = 1, true
		}
		healthy := !r.faulty()
		name := fmt.Sprintf("run %d", i)
		what := fmt.Sprintf("%s, of the phases %d to %d, after %d done and %d begun", name, r.From, r.To, done, begun)
		if i == len(v.Runs)-1 && !healthy {
			vt.Harnessf("the last run is not a plain one")
		}
		ok, how := v.run(c, dir, r, name)
		if how == "no tables" {
			c.Class("the program's tables were not found")
			return
		}
		c.ClassIf(ok, "a run that says it is done")
		c.ClassIf(ok && !healthy, "a run with a fault that says it is done")
		c.ClassIf(!ok, "a run that fails")
		if !ok && len(how) > 20 && strings.Contains(how, "exit status 77") {
			c.Class("a run that ends at a request")
		}
		c.ClassIf(!ok && r.Kill > 0, "a run that is killed")
		c.ClassIf(!ok && r.Fsize > 0, "a run that cannot write")
		if !ok {
			c.NonTrivial()
		}
		switch {
		case r.From == 1:
			done, begun = 0, r.To
		default:
			begun = max(begun, r.To)
		}
		if ok {
			done = r.To
			if r.More > 0 && (r.From == 1 || r.To == 3 && v.Limit == 0) {
				c.Failf("%s: %s, but the node has not as many blocks as were asked for", what, how)
			}
			storegen.CheckLists(c, what+" (said to be done): gathered", dir, ch)
			if done == 3 {
				storegen.Fresh()
				storegen.Open(c, what+" (said to be done)", store.Creator(c, dir)).Check(c, what+" (said to be done)", ch, store, upto)
			}
		} else {
			if healthy && sound {
				c.Failf("%s: nothing is wrong, but %s", what, how)
			}
			done = min(done, r.From-1)
		}
	}
}

type thirdCase struct {
	Chain chaingen.Spec `json:"chain"`
	Runs  []Run         `json:"runs"` // the third phase, within Fsize thousandths of what its largest file needs
}

// runThird does the third phase over and over on what the first two made, with
// no room for all of what it writes.
func runThird(c *vt.Ctx, v thirdCase) {
	rv := runsCase{Chain: v.Chain, Less: 1}
	_, ch := rv.chains()
	dir := filepath.Join(c.SubDir("a"), "store")
	store := storegen.Store{Blk: storegen.BlkNeis, Trn: storegen.TrnNeis, Delegated: true}
	before := map[string]bool{}
	largest := func(clear bool) (n int64) {
		err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || before[p] {
				return err
			}
			i, err := d.Info()
			if err == nil {
				n = max(n, i.Size())
			}
			if clear && err == nil {
				err = os.Remove(p)
			}
			return err
		})
		c.NoErr(err, "look through the store")
		return
	}
	need := int64(0)
	plain := Run{From: 1, To: 2, Threads: 2, Adapt: true}
	for i, r := range append([]Run{plain, {From: 3, To: 3, Threads: 2}}, v.Runs...) {
		name := fmt.Sprintf("run %d", i)
		if i > 1 {
			r.From, r.To = 3, 3
			if n := largest(true); i == 2 {
				need = n
			}
			r.Fsize = max(1, int(need)*r.Fsize/1000)
			c.NonTrivial()
		}
		ok, how := rv.run(c, dir, r, name)
		if how == "no tables" {
			c.Class("the program's tables were not found")
			return
		}
		if i < 2 && !ok {
			c.Failf("%s: nothing is wrong, but %s", name, how)
		}
		if i > 1 {
			c.ClassIf(!ok, "a third phase that cannot write")
			c.ClassIf(ok, "a third phase that says it is done in too little room")
		}
		if i == 0 {
			err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
				before[p] = true
				return err
			})
			c.NoErr(err, "look through the store")
		} else if ok {
			storegen.Fresh()
			storegen.Open(c, name+" (said to be done)", store.Creator(c, dir)).Check(c, name+" (said to be done)", ch, store, len(ch.Blocks))
		}
	}
}

func drawRun(t *rapid.T, blocks, k int) Run {
	r := Run{From: 1 + vt.Pick(t, "from", 3, 2, 2), Chi: rapid.Bool().Draw(t, "chi"), Json: vt.Pick(t, "json", 2, 1) == 1, Adapt: rapid.Bool().Draw(t, "adapt")}
	r.To = r.From + vt.Pick(t, "to", 1, 1, 2)
	r.Threads = []int{1, 2, 4, 16}[vt.Pick(t, "threads", 1, 2, 2, 1)]
	r.Timing.Kind = vt.Pick(t, "timing", 1, 3, 1, 2, 1)
	r.Timing.Seed = rapid.IntRange(0, 1000).Draw(t, "seed")
	r.Timing.Which = rapid.IntRange(0, blocks-1).Draw(t, "which")
	which := rapid.IntRange(0, blocks-1)
	switch k {
	case 1: // a block that cannot be had, whatever is tried
		f := fakenode.Fault{Block: which.Draw(t, "fb")}
		for n := rapid.IntRange(3, 40).Draw(t, "fn"); n > 0; n-- {
			f.Kinds = append(f.Kinds, rapid.IntRange(0, 8).Draw(t, "fk"))
		}
		for len(f.Kinds) < 500 {
			f.Kinds = append(f.Kinds, f.Kinds[0])
		}
		r.Timing.Fails = []fakenode.Fault{f}
	case 2: // headers
		r.Timing.Heads = []fakenode.Head{{Nth: vt.Pick(t, "nth", 3, 1), Kind: rapid.IntRange(0, 4).Draw(t, "hk"), Cut: rapid.IntRange(0, 80*(blocks+1)).Draw(t, "cut")}}
	case 3:
		r.More = vt.Size(t, "more", 3, 1500)
		r.More = max(1, r.More)
	case 4:
		r.Timing.Die = rapid.IntRange(1, 2*blocks+3).Draw(t, "die")
	case 5:
		r.Kill = rapid.IntRange(1, 40).Draw(t, "kill") * rapid.IntRange(1, 40).Draw(t, "killx") * 100
	case 6:
		r.Fsize = max(1, vt.Size(t, "fsize", 600, 60000))
	case 7:
		r.Files = rapid.IntRange(12, 90).Draw(t, "files")
	}
	return r
}

func main() {
	if path := os.Getenv("C23_JOB"); path != "" {
		child(path)
		return
	}
	vt.Main("C23",
		vt.New("runs", "at least one run that was cut short or could not do its work", 160, 12000, func(t *rapid.T) runsCase {
			v := runsCase{Less: 1}
			v.Chain = chaingen.Draw(t, chaingen.Opts{Blocks: 6, Long: 20, Dups: vt.Pick(t, "dups", 3, 1) == 1})
			if vt.Pick(t, "pad", 4, 1) == 1 {
				v.Pad = rapid.IntRange(1, 250).Draw(t, "padn")
			}
			if vt.Pick(t, "limit", 3, 1) == 1 {
				v.Limit = rapid.IntRange(0, len(v.Chain.Blocks)).Draw(t, "limitn")
			}
			blocks := max(1, len(v.Chain.Blocks)+v.Pad)
			for n := 1 + vt.Pick(t, "runs", 4, 2, 1); n > 0; n-- {
				k := vt.Pick(t, "fault", 1, 3, 2, 1, 3, 3, 5, 1)
				r := drawRun(t, blocks, k)
				if k == 6 && vt.Pick(t, "third", 1, 1) == 1 { // what the third phase writes is less than what the others do
					before := drawRun(t, blocks, 0)
					before.From, before.To = 1, 2
					r.From, r.To, r.Fsize = 3, 3, max(1, vt.Size(t, "third size", 200, 5000))
					v.Runs = append(v.Runs, before)
				}
				v.Runs = append(v.Runs, r)
			}
			f := drawRun(t, blocks, 0)
			f.To = 3
			v.Runs = append(v.Runs, f)
			return v
		}, runRuns).Hang(500),
		vt.New("third", "a third phase with too little room", 24, 2000, func(t *rapid.T) thirdCase {
			v := thirdCase{Chain: chaingen.Draw(t, chaingen.Opts{Blocks: 8, Long: 60})}
			for n := 2 + vt.Size(t, "runs", 3, 8); n > 0; n-- {
				r := drawRun(t, max(1, len(v.Chain.Blocks)), 0)
				r.Fsize = rapid.IntRange(0, 999).Draw(t, "share")
				v.Runs = append(v.Runs, r)
			}
			return v
		}, runThird).Hang(500),
	)
}
