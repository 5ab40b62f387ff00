// Checkpoints (C14: a round trip restores the state; C15: an interrupted write never leaves a mixture, a strict resume is refused)
// and the release of old blames (C16), on the exported API of the repo package.
package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"math/rand"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

func lg() logger.Logger { return logger.NewDefaultLogger(io.Discard) }

func hex40(r *rand.Rand) string {
	b := make([]byte, 40)
	for i := range b {
		b[i] = "0123456789abcdef"[r.Intn(16)]
	}
	return string(b)
}

// collide makes two different lines with the same 64-bit xxHash.
func collide(r *rand.Rand) ([]byte, []byte) {
	const p1, p2 uint64 = 11400714785074694791, 14029467366897019727
	inv := p2 // inverse of p2 modulo 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - p2*inv
	}
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }
	for {
		a := make([]byte, 64)
		for i := range a {
			a[i] = byte(32 + r.Intn(90))
		}
		b := append([]byte{}, a...)
		binary.LittleEndian.PutUint64(b, r.Uint64())
		var v0 uint64 = p1
		v0 += p2
		va, vb := round(v0, binary.LittleEndian.Uint64(a)), round(v0, binary.LittleEndian.Uint64(b))
		binary.LittleEndian.PutUint64(b[32:], binary.LittleEndian.Uint64(a[32:])+(va-vb)*inv)
		if !strings.Contains(string(b), "\n") && string(a) != string(b) {
			return a, b
		}
	}
}

func text(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return []byte("same")
	case 2:
		b := make([]byte, r.Intn(20))
		r.Read(b)
		return b
	case 3:
		return []byte(strings.Repeat("x", r.Intn(300)))
	}
	return []byte(fmt.Sprintf("line %d", r.Intn(40)))
}

// state makes a history of snapshots: most files are shared with the parent, changed files share most of their lines.
func state(r *rand.Rand) repo.Repo {
	s := repo.New()
	var prev map[string]*incblame.Blame
	n := r.Intn(7)
	paths := []string{"a", "b", "dir/c", "d e", "ü", "\"q\"", "x\ty", "e", "@@@", ""}
	ca, cb := collide(r)
	withC := r.Intn(4) == 0
	for i := 0; i < n; i++ {
		h := hex40(r)
		s.AddCommit(h)
		for _, p := range vsorted(prev) {
			if r.Intn(10) > 0 {
				s[h][p] = prev[p]
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			p := paths[r.Intn(len(paths))]
			bl := &incblame.Blame{Commit: h}
			switch r.Intn(8) {
			case 0:
				s[h][p] = incblame.BlameBinaryFile(h)
				continue
			case 1: // empty file
			case 2: // the writer stores whatever it is given
				bl.Commit = ""
				bl.IsBinary = r.Intn(2) == 0
				for j := r.Intn(3); j > 0; j-- {
					l := &incblame.Line{Commit: h, Line: text(r)}
					for k := r.Intn(3); k >= 0; k-- {
						bl.Lines = append(bl.Lines, l)
					}
				}
			default:
				var old []*incblame.Line
				if prev[p] != nil {
					old = prev[p].Lines
				}
				for _, l := range old {
					if r.Intn(6) > 0 {
						bl.Lines = append(bl.Lines, l)
					}
				}
				for j := r.Intn(6); j > 0; j-- {
					l := &incblame.Line{Commit: h, Line: text(r)}
					if withC && r.Intn(2) == 0 {
						l.Line = [][]byte{ca, cb}[r.Intn(2)]
					}
					at := r.Intn(len(bl.Lines) + 1)
					bl.Lines = append(bl.Lines[:at:at], append([]*incblame.Line{l}, bl.Lines[at:]...)...)
				}
			}
			s[h][p] = bl
		}
		if r.Intn(8) == 0 {
			s[h] = map[string]*incblame.Blame{}
		}
		prev = s[h]
	}
	return s
}

func vsorted(m map[string]*incblame.Blame) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// show is the full content of a state.
func show(s repo.Repo) string {
	var b strings.Builder
	var cs []string
	for c := range s {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		fmt.Fprintf(&b, "commit %s\n", c)
		for _, p := range vsorted(s[c]) {
			bl := s[c][p]
			if bl == nil {
				fmt.Fprintf(&b, " %q nil\n", p)
				continue
			}
			fmt.Fprintf(&b, " %q by %s binary %v\n", p, bl.Commit, bl.IsBinary)
			for _, l := range bl.Lines {
				fmt.Fprintf(&b, "  %s %q\n", l.Commit, l.Line)
			}
		}
	}
	return b.String()
}

func short(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "..."
	}
	return s
}

func nontrivial(s repo.Repo) bool {
	n := 0
	for _, c := range s {
		n += len(c)
	}
	return n >= 2
}

func roundTrip(r *vlib.Run) {
	s := state(r.R)
	before := show(s)
	r.Input(nontrivial(s), "state:\n%s", short(before))
	d := r.Dir("cp")
	defer os.RemoveAll(d)
	last := hex40(r.R)
	if r.Chance(0.3) {
		must(repo.NewCheckpointWriter(lg()).Write(state(r.R), d, hex40(r.R)))
	}
	if err := repo.NewCheckpointWriter(lg()).Write(s, d, last); err != nil {
		r.Fail("write", "write failed: %v", err)
	}
	r.Same("changed", "the state after it was written", short(before), short(show(s)))
	exp := ""
	if r.Chance(0.5) {
		exp = last
	}
	got, err := repo.NewCheckpointReader(lg()).Read(d, exp)
	if err != nil {
		r.Fail("read", "read failed: %v", err)
	}
	if g := show(got); g != before {
		r.Fail("restored", "restored state differs\nwant: %s\ngot:  %s", short(before), short(g))
	}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprint("set-up: ", err))
	}
}

const calls = "openat,write,close,rename,renameat,renameat2,unlink,unlinkat,mkdir,mkdirat,rmdir,ftruncate"

// crashes: a child process writes the checkpoint and is killed before its n-th file system call, for every n.
func crashes(r *vlib.Run) {
	old, new_ := state(r.R), state(r.R)
	seed := r.R.Int63()
	new_ = state(rand.New(rand.NewSource(seed)))
	had := r.Chance(0.8)
	last0, last1 := hex40(r.R), hex40(r.R)
	r.Input(nontrivial(new_), "interrupted write; checkpoint before: %v\n%s\nnew state:\n%s", had, short(show(old)), short(show(new_)))
	self, err := os.Executable()
	must(err)
	d := r.Dir("crash")
	defer os.RemoveAll(d)
	accept := func(at string) {
		for _, exp := range []string{"", last0, last1} {
			var got repo.Repo
			var err error
			if p := r.Try(func() { got, err = repo.NewCheckpointReader(lg()).Read(d, exp) }); p != nil {
				r.Fail("crash-read", "killed %s: reading panics: %v", at, p)
			}
			if err != nil {
				continue // no checkpoint to be had
			}
			g := show(got)
			okOld := had && g == show(old) && exp != last1
			okNew := g == show(new_) && exp != last0
			if !okOld && !okNew {
				r.Fail("mixture", "killed %s: read (expecting %q) gives neither the old nor the new checkpoint:\n%s", at, exp, short(g))
			}
		}
	}
	reset := func() {
		os.RemoveAll(d)
		must(os.MkdirAll(d, 0755))
		if had {
			must(repo.NewCheckpointWriter(lg()).Write(old, d, last0))
		}
	}
	env := append(os.Environ(), "VERIF_CHILD=write", "GOMAXPROCS=1", "VERIF_CHILD_DIR="+d, "VERIF_CHILD_LAST="+last1, fmt.Sprintf("VERIF_CHILD_SEED=%d", seed))
	// the calls of an undisturbed write, each with its number among the calls of its name (which is what strace counts)
	reset()
	td := r.Dir("trace")
	defer os.RemoveAll(td)
	log := filepath.Join(td, "calls")
	c := exec.Command("strace", "-f", "-qq", "-o", log, "-e", "trace="+calls, self)
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil && strings.Contains(string(out), "error") {
		r.Fail("write", "writing fails: %s", out)
	}
	type point struct {
		call string
		n    int
		line string
	}
	var points []point
	counts := map[string]int{}
	begun := false
	trace, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(trace), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 || !strings.Contains(f[1], "(") {
			continue
		}
		name := f[1][:strings.Index(f[1], "(")]
		counts[f[0]+name]++
		begun = begun || strings.Contains(l, d)
		if begun {
			points = append(points, point{name, counts[f[0]+name], strings.Join(f[1:], " ")})
		}
	}
	if !r.Thorough {
		// all the calls that move, make or remove files, and some of the others
		var some []point
		for _, p := range points {
			if (p.call != "write" && p.call != "close" && r.Chance(0.6)) || r.Chance(0.15) {
				some = append(some, p)
			}
		}
		points = some
	}
	for _, p := range points {
		reset()
		c := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace="+p.call, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", p.call, p.n), self)
		c.Env = env
		c.Run()
		accept(fmt.Sprintf("before %s (%s number %d)", p.line, p.call, p.n))
	}
	if len(points) == 0 {
		// no tracing here: kill at a random moment
		for i := 0; i < 10; i++ {
			reset()
			c := exec.Command(self)
			c.Env = env
			must(c.Start())
			for k := r.R.Intn(200000); k > 0; k-- {
				runtime.Gosched()
			}
			c.Process.Kill()
			c.Wait()
			accept("at a random moment")
		}
	}
	// what an interrupted write leaves behind does not get into the next one
	s3 := state(r.R)
	l3 := hex40(r.R)
	if err := repo.NewCheckpointWriter(lg()).Write(s3, d, l3); err != nil {
		r.Fail("after-crash", "writing after an interrupted write fails: %v", err)
	}
	got, err := repo.NewCheckpointReader(lg()).Read(d, l3)
	if err != nil || show(got) != show(s3) {
		r.Fail("after-crash", "the checkpoint written after an interrupted one is not the one read: %v\nwant %s\ngot %s", err, short(show(s3)), short(show(got)))
	}
}

func child() {
	runtime.LockOSThread()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_CHILD_SEED"), 10, 64)
	s := state(rand.New(rand.NewSource(seed)))
	if err := repo.NewCheckpointWriter(lg()).Write(s, os.Getenv("VERIF_CHILD_DIR"), os.Getenv("VERIF_CHILD_LAST")); err != nil {
		fmt.Println("error", err)
		os.Exit(3)
	}
	fmt.Println("written")
}

// failing: one of the files the writer needs cannot be made; the error is reported and the old checkpoint is still there.
func failing(r *vlib.Run) {
	old, new_ := state(r.R), state(r.R)
	l0, l1 := hex40(r.R), hex40(r.R)
	which := r.Pick([]string{"tmp is a file and not removable", "full"})
	r.Input(nontrivial(old), "failing write (%s) over:\n%s", which, short(show(old)))
	d := r.Dir("fail")
	defer os.RemoveAll(d)
	must(repo.NewCheckpointWriter(lg()).Write(old, d, l0))
	self, err := os.Executable()
	must(err)
	seed := r.R.Int63()
	new_ = state(rand.New(rand.NewSource(seed)))
	call := r.Pick([]string{"openat", "write", "rename,renameat,renameat2", "mkdir,mkdirat", "close"})
	n := 1 + r.R.Intn(12)
	c := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-P", d, "-P", filepath.Join(d, "tmp"), "-P", filepath.Join(d, "checkpoint"),
		"-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:error=ENOSPC:when=%d", call, n), self)
	c.Env = append(os.Environ(), "VERIF_CHILD=write", "GOMAXPROCS=1", "VERIF_CHILD_DIR="+d, "VERIF_CHILD_LAST="+l1, fmt.Sprintf("VERIF_CHILD_SEED=%d", seed))
	out, _ := c.CombinedOutput()
	ok := strings.Contains(string(out), "written")
	got, err := repo.NewCheckpointReader(lg()).Read(d, l1)
	if err == nil {
		if show(got) != show(new_) {
			r.Fail("mixture", "after a failing %s (number %d): the new checkpoint is read, with other content:\n%s", call, n, short(show(got)))
		}
		return
	}
	if ok {
		r.Fail("lost", "the write was reported as done and cannot be read: %v", err)
	}
	got, err = repo.NewCheckpointReader(lg()).Read(d, l0)
	if err == nil && show(got) != show(old) {
		r.Fail("mixture", "after a failing %s (number %d): the old checkpoint is read, with other content:\n%s", call, n, short(show(got)))
	}
}

// strict: a checkpoint is only resumed at the commit it was written at.
func strict(r *vlib.Run) {
	s := state(r.R)
	have, want := hex40(r.R), hex40(r.R)
	switch r.R.Intn(4) {
	case 0:
		want = have[:39]
	case 1:
		want = have + "0"
	case 2:
		want = strings.ToUpper(have[:1]) + have[1:]
	}
	if want == have {
		r.Skip()
	}
	r.Input(true, "checkpoint at %s, resume from %s", have, want)
	d := r.Dir("strict")
	defer os.RemoveAll(d)
	must(repo.NewCheckpointWriter(lg()).Write(s, d, have))
	got, err := repo.NewCheckpointReader(lg()).Read(d, want)
	if err == nil {
		r.Fail("strict", "resume from %s is allowed, the checkpoint is at %s (%d commits read)", want, have, len(got))
	}
	if !strings.Contains(err.Error(), want) || !strings.Contains(err.Error(), have) {
		r.Fail("strict-message", "the error does not name both commits: %v", err)
	}
	if e, ok := err.(repo.ErrCheckpointNotExpected); !ok || e.WantCommit != want || e.HaveCommit != have {
		r.Fail("strict-type", "the error is %#v", err)
	}
	got, err = repo.NewCheckpointReader(lg()).Read(d, have)
	if err != nil || show(got) != show(s) {
		r.Fail("strict-same", "resume at the same commit fails: %v", err)
	}
}

// release: blames go oldest first, once more than a thousand later commits have become releasable.
func release(r *vlib.Run) {
	n := 1 + r.R.Intn(2500)
	s := repo.New()
	var order []string
	for i := 0; i < n; i++ {
		order = append(order, fmt.Sprintf("%040x", i*7919))
		s.AddCommit(order[i])
	}
	extra := r.R.Intn(20)
	for i := 0; i < extra; i++ {
		s.AddCommit(fmt.Sprintf("head%d", i))
	}
	r.R.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
	k := r.R.Intn(n + 1)
	if r.Chance(0.3) {
		k = n
	}
	r.Input(k > 1000, "%d commits in memory, %d of them become releasable, in order %s %s ...", n+extra, k, order[0], order[n-1])
	u := repo.NewUnloader(s)
	for i := 0; i < k; i++ {
		u.Unload(order[i])
		gone := i + 1 - 1000
		if gone < 0 {
			gone = 0
		}
		if len(s) != n+extra-gone {
			r.Fail("count", "after %d commits became releasable %d of %d are kept, want %d", i+1, len(s), n+extra, n+extra-gone)
		}
		if gone > 0 {
			if _, ok := s[order[gone-1]]; ok {
				r.Fail("order", "after %d commits became releasable number %d is still kept", i+1, gone)
			}
		}
	}
	for i := 0; i < n; i++ {
		_, ok := s[order[i]]
		if ok != (i >= k-1000) {
			r.Fail("which", "commit number %d of %d releasable ones: kept %v", i, k, ok)
		}
	}
}

// longHistory: a real repository with more than a thousand releasable commits; what is still kept at the end is in the checkpoint.
func longHistory(r *vlib.Run) {
	n := 1002 + r.R.Intn(60)
	every := 2 + r.R.Intn(60)
	d := r.Dir("long")
	defer os.RemoveAll(d)
	vlib.MustGit(d, nil, "init", "-q", ".")
	var b strings.Builder
	par := map[int][]int{}
	tips := []int{}
	for i := 0; i < n; i++ {
		var ps []int
		switch {
		case i == 0:
		case i%every == 0 && i > every:
			ps = []int{i - 1, i - every + 1 + r.R.Intn(every-1)}
			if ps[1] == i-1 {
				ps = ps[:1]
			}
			for q := i - 2; q > i-every && len(ps) > 1 && len(ps) < 4 && r.Chance(0.5); q-- {
				if q != ps[1] {
					ps = append(ps, q)
				}
			}
		case i%every == 1 && i > 2 && r.Chance(0.5):
			ps = []int{i - 2}
		default:
			ps = []int{i - 1}
		}
		par[i] = ps
		fmt.Fprintf(&b, "reset refs/tmp/t\n\ncommit refs/tmp/t\nmark :%d\ncommitter C <c@x> %d +0000\ndata 1\nx\n", i+1, 130000000+i*10)
		for k, p := range ps {
			fmt.Fprintf(&b, "%s :%d\n", []string{"from", "merge", "merge", "merge"}[k], p+1)
		}
		fmt.Fprintf(&b, "M 100644 inline f%d\ndata 2\n%d\n\n", i%3, i%10)
	}
	has := map[int]int{}
	for _, ps := range par {
		for _, p := range ps {
			has[p]++
		}
	}
	for i := 0; i < n; i++ {
		if has[i] == 0 {
			tips = append(tips, i)
			fmt.Fprintf(&b, "reset refs/heads/t%d\nfrom :%d\n\n", i, i+1)
		}
	}
	fmt.Fprintf(&b, "reset refs/heads/main\nfrom :%d\n\n", n)
	vlib.MustGit(d, []byte(b.String()), "fast-import", "--quiet", "--force")
	vlib.MustGit(d, nil, "update-ref", "-d", "refs/tmp/t")
	vlib.MustGit(d, nil, "symbolic-ref", "HEAD", "refs/heads/main")
	r.Input(true, "history of %d commits, tips %v, a merge every %d", n, tips, every)
	cp := r.Dir("longcp")
	defer os.RemoveAll(cp)
	gr := parentsgraph.New(parentsgraph.Opts{RepoDir: d, AllBranches: true, Logger: lg()})
	must(gr.Read())
	var res []process.Result
	var err error
	p := process.New(process.Opts{Logger: lg(), RepoDir: d, CheckpointsDir: cp, AllBranches: true, ParentsGraph: gr})
	if res, err = p.RunGetAll(); err != nil {
		r.Fail("run", "the run fails: %v", err)
	}
	if len(res) != n {
		r.Fail("results", "%d results for %d commits", len(res), n)
	}
	got, err := repo.NewCheckpointReader(lg()).Read(filepath.Join(cp, "pp-git-cache"), "")
	if err != nil {
		r.Fail("read", "the checkpoint cannot be read: %v", err)
	}
	// the rule, over the order of the results
	done := map[string]int{}
	var rel []string
	kept := map[string]bool{}
	for _, x := range res {
		kept[x.Commit] = true
		for _, q := range gr.Parents[x.Commit] {
			done[q]++
			if done[q] == len(gr.Children[q]) {
				rel = append(rel, q)
			}
		}
	}
	for i := 0; i+1000 < len(rel); i++ {
		delete(kept, rel[i])
	}
	have := map[string]bool{}
	for c := range got {
		have[c] = true
	}
	for c := range kept {
		if !have[c] {
			r.Fail("released", "commit %s was released too early (or lost)", c)
		}
	}
	for c := range have {
		if !kept[c] {
			r.Fail("kept", "commit %s is kept, %d commits became releasable after it", c, len(rel))
		}
	}
}

func main() {
	if os.Getenv("VERIF_CHILD") == "write" {
		child()
		return
	}
	vlib.Main("distinct states with at least two files (C16: at least one release)", func(r *vlib.Run) {
		for _, e := range vlib.GitEnv() {
			k, v, _ := strings.Cut(e, "=")
			os.Setenv(k, v)
		}
		r.CrashGuard = true
		switch r.Prop {
		case "C14":
			roundTrip(r)
		case "C15":
			switch {
			case r.CaseNo%8 == 0:
				crashes(r)
			case r.CaseNo%8 == 1:
				failing(r)
			default:
				strict(r)
			}
		case "C16":
			if r.CaseNo%40 == 0 {
				longHistory(r)
			} else {
				release(r)
			}
		}
	})
}
