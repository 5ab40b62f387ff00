// Whole histories through process.Process on real repositories: what each commit reports (C07), that every commit is reported once
// and in order, merges as one (C08), and that a resumed run reports what a full one does (C23).
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"github.com/pinpt/ripsrc/zz_verif/hist"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

func lg() logger.Logger { return logger.NewDefaultLogger(io.Discard) }

// change is one entry of git's own list of changed files.
type change struct {
	status    byte
	from, to  string
	sameBytes bool
}

// changes are what git finds between two commits (parent "" for a root).
func changes(h *hist.Hist, parent, commit string) []change {
	args := []string{"-c", "diff.renameLimit=10000", "diff-tree", "-r", "-M", "-z", "--raw", "--no-commit-id"}
	if parent == "" {
		args = append(args, "--root", commit)
	} else {
		args = append(args, parent, commit)
	}
	f := strings.Split(vlib.MustGit(h.Dir, nil, args...), "\x00")
	var cs []change
	for i := 0; i+1 < len(f); {
		w := strings.Fields(f[i])
		c := change{status: w[4][0], from: f[i+1], to: f[i+1], sameBytes: w[2] == w[3]}
		i += 2
		switch c.status {
		case 'R', 'C':
			c.to = f[i]
			i++
		case 'A':
			c.from = ""
		case 'D':
			c.to = ""
		}
		cs = append(cs, c)
	}
	return cs
}

func blameText(b *incblame.Blame) string {
	if b == nil {
		return "absent"
	}
	if b.IsBinary {
		return fmt.Sprintf("binary %d lines", len(b.Lines))
	}
	var s strings.Builder
	for _, l := range b.Lines {
		fmt.Fprintf(&s, "%q\n", l.Line)
	}
	return s.String()
}

func wantText(f hist.File) string {
	var s strings.Builder
	for _, l := range hist.Lines(f.Data) {
		fmt.Fprintf(&s, "%q\n", l)
	}
	return s.String()
}

type checker struct {
	r   *vlib.Run
	h   *hist.Hist
	bin map[int]map[string]bool              // is the file recorded as binary
	who map[int]map[string]map[string]string // commit, file, line: the commit that wrote it; nil where ambiguous
}

func (k *checker) name(c int) string { return fmt.Sprintf("commit %d", c) }

func keys(m map[string]*incblame.Blame) []string {
	var s []string
	for p := range m {
		s = append(s, p)
	}
	sort.Strings(s)
	return s
}

// lines checks content and, where every line is written once, who wrote it.
func (k *checker) lines(c *hist.Commit, p string, b *incblame.Blame, what string) {
	f := c.Tree[p]
	bin := k.bin[c.N][p]
	if bin {
		k.r.Same("content", fmt.Sprintf("%s of %q at commit %d", what, p, c.N), "binary 0 lines", blameText(b))
		return
	}
	k.r.Same("content", fmt.Sprintf("%s of %q at commit %d", what, p, c.N), wantText(f), blameText(b))
	who := k.who[c.N][p]
	if !k.h.Unique || who == nil {
		return
	}
	for i, l := range b.Lines {
		w, ok := who[string(l.Line)]
		if ok && !strings.Contains(w, l.Commit) {
			k.r.Fail("author", "%s of %q at commit %d: line %d %q attributed to %s, written in %s", what, p, c.N, i, l.Line, l.Commit, w)
		}
	}
}

// rawLines keeps the line ends: a line that loses its end is a changed line for git.
func rawLines(data string) []string {
	ls := strings.SplitAfter(data, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// inOrder tells whether the lines the two versions have in common stand in the same order in both: then no
// diff has a reason to drop one of them. Where lines changed places git may show either as new.
func inOrder(old, new string) bool {
	at := map[string]int{}
	for i, l := range rawLines(old) {
		if _, twice := at[l]; twice {
			return false
		}
		at[l] = i
	}
	last := -1
	for _, l := range rawLines(new) {
		i, ok := at[l]
		if !ok {
			continue
		}
		if i <= last {
			return false
		}
		last = i
	}
	return true
}

func has(data, line string) bool {
	for _, l := range rawLines(data) {
		if l == line {
			return true
		}
	}
	return false
}

// expect fills in what has to be recorded for the commit, from what is recorded for its parents.
func (k *checker) regular(c *hist.Commit) (files map[string]bool) {
	files = map[string]bool{}
	bin, who := map[string]bool{}, map[string]map[string]string{}
	k.bin[c.N], k.who[c.N] = bin, who
	var pt map[string]hist.File
	ph := ""
	var pbin map[string]bool
	var pwho map[string]map[string]string
	if len(c.Parents) > 0 {
		par := k.h.Commits[c.Parents[0]]
		ph, pt, pbin, pwho = par.Hash, par.Tree, k.bin[par.N], k.who[par.N]
	}
	for p := range c.Tree {
		bin[p] = pbin[p]
		if pwho != nil {
			who[p] = pwho[p]
		}
	}
	for _, ch := range changes(k.h, ph, c.Hash) {
		if ch.to == "" {
			files[ch.from] = true
			continue
		}
		files[ch.to] = true
		nf := c.Tree[ch.to]
		of, had := pt[ch.from]
		had = had && ch.from != ""
		if ch.status == 'T' || had && (of.Mode == "120000") != (nf.Mode == "120000") {
			had = false // listed as a removal and an addition
		}
		switch {
		case had && ch.sameBytes:
			bin[ch.to] = pbin[ch.from]
			who[ch.to] = pwho[ch.from]
			continue
		case hist.Binary(nf.Data) || had && hist.Binary(of.Data):
			bin[ch.to] = true
			who[ch.to] = nil
			continue
		}
		bin[ch.to] = false
		m := map[string]string{}
		who[ch.to] = m
		var pw map[string]string
		old := map[string]bool{}
		if had {
			pw = pwho[ch.from]
			for _, l := range rawLines(of.Data) {
				old[l] = true
			}
		}
		if had && (pbin[ch.from] || pw == nil) {
			who[ch.to] = nil
			continue
		}
		moved := had && !inOrder(of.Data, nf.Data)
		for i, l := range hist.Lines(nf.Data) {
			if !old[rawLines(nf.Data)[i]] {
				m[l] = c.Hash
			} else if m[l] = pw[l]; moved {
				m[l] += " " + c.Hash
			}
		}
	}
	return files
}

// merge returns the files that have to be reported and those that may be.
func (k *checker) merge(c *hist.Commit) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	bin, who := map[string]bool{}, map[string]map[string]string{}
	k.bin[c.N], k.who[c.N] = bin, who
	from := map[string][]string{} // file: its name in each parent, "" if it has none there
	for p := range c.Tree {
		from[p] = make([]string, len(c.Parents))
		for i, q := range c.Parents {
			if _, ok := k.h.Commits[q].Tree[p]; ok {
				from[p][i] = p
			}
		}
	}
	differs := map[string]int{}
	for i, q := range c.Parents {
		for _, ch := range changes(k.h, k.h.Commits[q].Hash, c.Hash) {
			if ch.to == "" {
				may[ch.from] = true
				must[ch.from] = true
				continue
			}
			may[ch.to] = true
			differs[ch.to]++
			from[ch.to][i] = ch.from
			if ch.status == 'T' {
				from[ch.to][i] = ""
			}
		}
	}
	for p, nf := range c.Tree {
		if differs[p] == len(c.Parents) {
			must[p] = true
		}
		anyBin := hist.Binary(nf.Data)
		var same []int
		for i, q := range c.Parents {
			if from[p][i] == "" {
				continue
			}
			of := k.h.Commits[q].Tree[from[p][i]]
			if of == nf && from[p][i] == p {
				same = append(same, i)
			}
			if k.bin[q][from[p][i]] || hist.Binary(of.Data) {
				anyBin = true
			}
		}
		bin[p] = anyBin // refined by the caller when nothing is reported
		m := map[string]string{}
		who[p] = m
		kept := map[string]bool{} // the lines some parent's diff has to keep
		for i, q := range c.Parents {
			if from[p][i] == "" || anyBin {
				continue
			}
			pw := k.who[q][from[p][i]]
			if pw == nil {
				who[p] = nil
				m = nil
			}
			d := k.h.Commits[q].Tree[from[p][i]].Data
			sure := inOrder(d, nf.Data)
			for j, l := range hist.Lines(d) {
				if m != nil && has(nf.Data, rawLines(d)[j]) {
					m[l] += pw[l] + " "
					kept[l] = kept[l] || sure
				}
			}
		}
		for _, l := range hist.Lines(nf.Data) {
			if m != nil && !kept[l] {
				m[l] += c.Hash
			}
		}
	}
	return must, may
}

func opts(dir, ck string) process.Opts {
	return process.Opts{Logger: lg(), RepoDir: dir, CheckpointsDir: ck}
}

func order(h *hist.Hist, all bool, extra ...string) []string {
	a := []string{"log", "--date-order", "--reverse", "--format=%H"}
	if all {
		a = append(a, "--all")
	}
	return strings.Fields(vlib.MustGit(h.Dir, nil, append(a, extra...)...))
}

func hashes(h *hist.Hist, rs []process.Result) []string {
	var s []string
	for _, x := range rs {
		s = append(s, fmt.Sprint(h.By(x.Commit).N, x.Commit))
	}
	return s
}

func full(r *vlib.Run, h *hist.Hist, all bool, ck string) {
	o := opts(h.Dir, ck)
	o.AllBranches = all
	rs, err := process.New(o).RunGetAll()
	if err != nil {
		r.Fail("error", "run failed: %v", err)
	}
	want := order(h, all)
	var ws, gs []string
	for _, x := range want {
		ws = append(ws, fmt.Sprint(h.By(x).N))
	}
	for _, x := range rs {
		if h.By(x.Commit) == nil {
			r.Fail("order", "result for %q, which is no commit", x.Commit)
		}
		gs = append(gs, fmt.Sprint(h.By(x.Commit).N))
	}
	r.Same("order", "commits reported", ws, gs)
	k := &checker{r: r, h: h, bin: map[int]map[string]bool{}, who: map[int]map[string]map[string]string{}}
	var state repo.Repo
	if len(rs) > 0 {
		state, err = repo.NewCheckpointReader(lg()).Read(filepath.Join(ck, "pp-git-cache"), "")
		if err != nil {
			r.Fail("error", "checkpoint: %v", err)
		}
	}
	for _, x := range rs {
		c := h.By(x.Commit)
		if len(c.Parents) < 2 {
			files := k.regular(c)
			r.Same("files", fmt.Sprintf("files reported for commit %d", c.N), vlib.SortedKeys(files), keys(x.Files))
		} else {
			must, may := k.merge(c)
			for p := range must {
				if x.Files[p] == nil {
					r.Fail("files", "merge %d does not report %q", c.N, p)
				}
			}
			for p := range x.Files {
				if !may[p] {
					r.Fail("files", "merge %d reports %q, which is the same in all parents", c.N, p)
				}
			}
			for p := range c.Tree { // a file the merge took over as it was
				if b := state[x.Commit][p]; x.Files[p] == nil && b != nil {
					k.bin[c.N][p] = b.IsBinary && k.bin[c.N][p]
					if !b.IsBinary && !k.bin[c.N][p] {
						k.takeOver(c, p)
					}
				}
			}
		}
		for p, b := range x.Files {
			if _, ok := c.Tree[p]; ok {
				k.lines(c, p, b, "reported content")
			} else if len(b.Lines) != 0 || b.Commit != x.Commit {
				r.Fail("removed", "removed file %q at commit %d reported with %d lines by %q", p, c.N, len(b.Lines), b.Commit)
			}
		}
		if state[x.Commit] == nil {
			r.Fail("recorded", "nothing recorded for commit %d", c.N)
		}
		for _, p := range hist.Paths(c.Tree) {
			k.lines(c, p, state[x.Commit][p], "recorded content")
		}
	}
}

// takeOver: the lines are those of a parent that has the same file.
func (k *checker) takeOver(c *hist.Commit, p string) {
	m := map[string]string{}
	for _, q := range c.Parents {
		if k.h.Commits[q].Tree[p] == c.Tree[p] {
			pw := k.who[q][p]
			if pw == nil {
				k.who[c.N][p] = nil
				return
			}
			for l, w := range pw {
				m[l] += w + " "
			}
		}
	}
	k.who[c.N][p] = m
}

func render(h *hist.Hist, rs []process.Result) string {
	var b strings.Builder
	for _, x := range rs {
		fmt.Fprintf(&b, "commit %d %s\n", h.By(x.Commit).N, x.Commit)
		for _, p := range keys(x.Files) {
			f := x.Files[p]
			fmt.Fprintf(&b, " %q by %s binary %v\n", p, f.Commit, f.IsBinary)
			for _, l := range f.Lines {
				fmt.Fprintf(&b, "  %s %q\n", l.Commit, l.Line)
			}
		}
	}
	return b.String()
}

// resumed runs in steps with a checkpoint after each, and compares with one run.
func resumed(r *vlib.Run, h *hist.Hist, steps []int, incl bool, ck, ckFull string) {
	last := len(h.Commits) - 1
	h.Head(last)
	rs, err := process.New(opts(h.Dir, ckFull)).RunGetAll()
	if err != nil {
		r.Fail("error", "full run failed: %v", err)
	}
	byHash := map[string]process.Result{}
	for _, x := range rs {
		byHash[x.Commit] = x
	}
	from := ""
	for _, s := range steps {
		h.Head(s)
		o := opts(h.Dir, ck)
		o.CommitFromIncl = from
		o.CommitFromMakeNonIncl = from != "" && !incl
		var want []process.Result
		var lst []string
		if from == "" {
			lst = order(h, false)
		} else if incl {
			lst = order(h, false, from+"^..HEAD")
		} else {
			lst = order(h, false, from+"..HEAD")
		}
		for _, x := range lst {
			want = append(want, byHash[x])
		}
		got, err := process.New(o).RunGetAll()
		if err != nil {
			r.Fail("error", "run from %q to commit %d failed: %v", from, s, err)
		}
		r.Same("resumed", fmt.Sprintf("run up to commit %d resumed from %q", s, from), render(h, want), render(h, got))
		from = h.Commits[s].Hash
	}
	// resumed from a commit other than the one the checkpoint is for
	var other []*hist.Commit
	reach := h.Reach(last)
	for i, c := range h.Commits {
		if reach[i] && c.Hash != from {
			other = append(other, c)
		}
	}
	if len(other) == 0 {
		return
	}
	c := other[r.R.Intn(len(other))]
	o := opts(h.Dir, ck)
	o.CommitFromIncl = c.Hash
	o.CommitFromMakeNonIncl = len(c.Parents) == 0 || r.Chance(0.7) // there is nothing before a root commit
	o.AllBranches = r.Chance(0.5)
	got, err := process.New(o).RunGetAll()
	if err == nil {
		r.Fail("strict", "a run from %s is allowed with the checkpoint of %s (%d results)", c.Hash, from, len(got))
	}
	if !strings.Contains(err.Error(), c.Hash) || !strings.Contains(err.Error(), from) {
		r.Fail("strict", "the error of a run from %s with the checkpoint of %s does not name both: %v", c.Hash, from, err)
	}
	o.CommitFromMakeNonIncl = true
	o.NoStrictResume = true
	if got, err = process.New(o).RunGetAll(); err != nil {
		r.Fail("error", "run from %s with the checkpoint of %s and NoStrictResume failed: %v", c.Hash, from, err)
	}
	var want []process.Result
	for _, x := range order(h, false, c.Hash+"..HEAD") {
		want = append(want, byHash[x])
	}
	r.Same("resumed", fmt.Sprintf("run resumed from %s with the checkpoint of %s and NoStrictResume", c.Hash, from), render(h, want), render(h, got))
}

// resumedAll does the same over all branches: the first run reads every branch, the others the wanted ones and HEAD.
func resumedAll(r *vlib.Run, h *hist.Hist, steps []int, ck, ckFull string) {
	refs := map[string]int{}
	set := func(to map[string]int) {
		for n := range refs {
			vlib.MustGit(h.Dir, nil, "update-ref", "-d", n)
		}
		refs = to
		for n, c := range refs {
			h.Ref(n, c)
		}
	}
	all := map[string]int{}
	for i := range h.Commits {
		all[fmt.Sprintf("refs/heads/all%d", i)] = i
	}
	set(all)
	h.Head(len(h.Commits) - 1)
	o := opts(h.Dir, ckFull)
	o.AllBranches = true
	rs, err := process.New(o).RunGetAll()
	if err != nil {
		r.Fail("error", "full run failed: %v", err)
	}
	byHash := map[string]process.Result{}
	for _, x := range rs {
		byHash[x.Commit] = x
	}
	from := ""
	for _, s := range steps {
		some := map[string]int{}
		for i := range h.Commits {
			if r.Chance(0.2) {
				some[fmt.Sprintf("refs/heads/x%d", i)] = i
			}
		}
		set(some)
		h.Head(s)
		o := opts(h.Dir, ck)
		o.AllBranches = true
		o.CommitFromIncl = from
		o.CommitFromMakeNonIncl = from != ""
		o.NoStrictResume = true
		var lst []string
		if from == "" {
			lst = order(h, true)
		} else {
			for _, i := range some {
				o.WantedBranchRefs = append(o.WantedBranchRefs, h.Commits[i].Hash)
			}
			sort.Strings(o.WantedBranchRefs)
			lst = order(h, false, append(append([]string{}, o.WantedBranchRefs...), from+"..HEAD")...)
		}
		var want []process.Result
		for _, x := range lst {
			want = append(want, byHash[x])
		}
		got, err := process.New(o).RunGetAll()
		if err != nil {
			r.Fail("error", "run from %q over branches %v with HEAD at commit %d failed: %v", from, some, s, err)
		}
		r.Same("resumed", fmt.Sprintf("run over branches %v with HEAD at commit %d resumed from %q", some, s, from), render(h, want), render(h, got))
		from = h.Commits[s].Hash
	}
}

func main() {
	vlib.Main("distinct histories of at least three commits", func(r *vlib.Run) {
		r.CrashGuard = true
		o := hist.Opts{MaxCommits: 12, Merges: !r.Chance(0.15), Unique: r.Chance(0.7), Binary: r.Chance(0.6), OddNames: r.Chance(0.4), Links: r.Chance(0.3)}
		if r.Prop == "C07" && r.Chance(0.5) {
			o.Merges = false
		}
		h := hist.Random(r.R, o)
		if r.Prop == "C23" {
			for i, c := range h.Commits {
				if i > 0 && len(c.Parents) == 0 {
					c.Parents = []int{i - 1}
				}
			}
		}
		dir := r.Dir("repo")
		defer os.RemoveAll(dir)
		h.Import(dir)
		ck := r.Dir("ck")
		defer os.RemoveAll(ck)
		if r.Prop == "C23" {
			var steps []int
			reach := h.Reach(len(h.Commits) - 1)
			for i := range h.Commits {
				if !reach[i] {
					continue
				}
				if i == len(h.Commits)-1 || r.Chance(0.3) {
					steps = append(steps, i)
				}
			}
			r.Input(len(h.Commits) > 2, "steps %v\n%s", steps, h)
			ck2 := r.Dir("ck2")
			defer os.RemoveAll(ck2)
			if r.Chance(0.3) {
				resumedAll(r, h, steps, ck, ck2)
			} else {
				resumed(r, h, steps, false, ck, ck2)
			}
			return
		}
		all := r.Chance(0.3)
		r.Input(len(h.Commits) > 2, "all branches %v\n%s", all, h)
		if all {
			for i := range h.Commits {
				if r.Chance(0.3) {
					h.Ref(fmt.Sprintf("refs/heads/b%d", i), i)
				}
			}
		}
		full(r, h, all, ck)
	})
}
