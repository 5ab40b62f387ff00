// Commit graphs: the parents listing and its inverse (C09) and what is reported about branches and pull requests of random
// histories (C10-C13), compared with set computations written directly from the properties.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph/parentsp"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

const nCommits = 36

var (
	repo   string
	hashes []string
)

// setup makes one repository of unrelated commits whose hashes serve as the names of the generated graphs' commits: the
// graph given to the code says how they are related.
func setup(r *vlib.Run) {
	if repo != "" {
		return
	}
	d := r.Dir("graph")
	vlib.MustGit(d, nil, "init", "-q", ".")
	var b bytes.Buffer
	for i := 0; i < nCommits; i++ {
		fmt.Fprintf(&b, "commit refs/tmp/c%d\nmark :%d\ncommitter C <c@x> %d +0000\ndata 1\n%c\n\n", i, i+1, 1500000000+i*10, 'a'+byte(i%26))
	}
	vlib.MustGit(d, b.Bytes(), "fast-import", "--quiet", "--export-marks=marks")
	m, err := os.ReadFile(filepath.Join(d, "marks"))
	if err != nil {
		panic(fmt.Sprint("set-up: ", err))
	}
	hs := map[int]string{}
	for _, l := range strings.Split(strings.TrimSpace(string(m)), "\n") {
		var k int
		var h string
		fmt.Sscanf(l, ":%d %s", &k, &h)
		hs[k] = h
	}
	for i := 0; i < nCommits; i++ {
		hashes = append(hashes, hs[i+1])
	}
	repo = d
}

type dag struct {
	par map[string][]string
	all []string
}

func randomDag(r *vlib.Run) dag {
	g := dag{par: map[string][]string{}}
	n := 1 + r.R.Intn(14)
	if r.Chance(0.15) {
		n = 1 + r.R.Intn(nCommits)
	}
	perm := r.R.Perm(nCommits)
	mergy := r.R.Float64() * 0.6
	near := r.Chance(0.6)
	roots := r.R.Float64() * 0.12
	for i := 0; i < n; i++ {
		h := hashes[perm[i]]
		var ps []string
		if i > 0 && !r.Chance(roots) {
			k := 1
			for r.Chance(mergy) && k < 4 {
				k++
			}
			seen := map[int]bool{}
			for ; k > 0; k-- {
				j := r.R.Intn(i)
				if near && r.Chance(0.8) {
					j = i - 1 - r.R.Intn(minI(i, 4))
				}
				if !seen[j] {
					seen[j] = true
					ps = append(ps, g.all[j])
				}
			}
		}
		g.par[h] = ps
		g.all = append(g.all, h)
	}
	return g
}

func (g dag) text(short map[string]string) string {
	var b strings.Builder
	for _, h := range g.all {
		var ps []string
		for _, p := range g.par[h] {
			ps = append(ps, short[p])
		}
		fmt.Fprintf(&b, "%s <- %s\n", short[h], strings.Join(ps, " "))
	}
	return b.String()
}

// reach: everything reachable from head, without going through stop (stop itself is included if it is come to).
func (g dag) reach(head, stop string) map[string]bool {
	s := map[string]bool{}
	todo := []string{head}
	for len(todo) > 0 {
		h := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if s[h] {
			continue
		}
		s[h] = true
		if h == stop {
			continue
		}
		todo = append(todo, g.par[h]...)
	}
	return s
}

func setStr(m map[string]bool) string { return strings.Join(vlib.SortedKeys(m), " ") }

func toSet(a []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	return m
}

func children(par map[string][]string) map[string][]string {
	c := map[string][]string{}
	for h, ps := range par {
		if c[h] == nil {
			c[h] = []string{}
		}
		for _, p := range ps {
			c[p] = append(c[p], h)
		}
	}
	for _, x := range c {
		sort.Strings(x)
	}
	return c
}

func checkGraph(r *vlib.Run, gr *parentsgraph.Graph, par map[string][]string) {
	if len(gr.Parents) != len(par) {
		r.Fail("parents", "%d commits listed, %d in the graph", len(par), len(gr.Parents))
	}
	for h, ps := range par {
		got, ok := gr.Parents[h]
		if !ok {
			r.Fail("parents", "commit %s has no entry", h)
		}
		r.Same("parents", "parents of "+h, append([]string{}, ps...), append([]string{}, got...))
	}
	want := children(par)
	for h, cs := range want {
		got, ok := gr.Children[h]
		if !ok {
			r.Fail("children", "commit %s has no children entry", h)
		}
		r.Same("children", "children of "+h, cs, append([]string{}, got...))
	}
	for h := range gr.Children {
		if _, ok := want[h]; !ok {
			r.Fail("children", "children entry for %q, which is no commit of the listing", h)
		}
	}
}

func randHex(r *vlib.Run, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdef"[r.R.Intn(16)]
	}
	return string(b)
}

func listing(r *vlib.Run) {
	n := r.R.Intn(12)
	hl := 40
	if r.Chance(0.1) {
		hl = 64
	}
	var all []string
	par := map[string][]string{}
	var b strings.Builder
	for i := 0; i < n; i++ {
		h := randHex(r, hl)
		var ps []string
		k := 0
		switch x := r.R.Intn(10); {
		case x < 5:
			k = 1
		case x < 8:
			k = 2 + r.R.Intn(3)
		}
		if r.Chance(0.02) {
			k = 1500 + r.R.Intn(1000) // longer than a default scanner buffer
		}
		for ; k > 0; k-- {
			if len(all) > 0 && r.Chance(0.9) && k < 100 {
				p := all[r.R.Intn(len(all))]
				dup := false
				for _, q := range ps {
					dup = dup || q == p
				}
				if !dup || r.Chance(0.1) {
					ps = append(ps, p)
				}
			} else {
				ps = append(ps, randHex(r, hl)) // cut off by a shallow clone
			}
		}
		par[h] = ps
		all = append(all, h)
		if i > 0 {
			b.WriteByte('\n')
		}
		b.WriteString(h + "@" + strings.Join(ps, " "))
	}
	if r.Chance(0.2) && n > 0 {
		b.WriteByte('\n')
	}
	text := b.String()
	shown := text
	if len(shown) > 4000 {
		shown = shown[:4000]
	}
	var rd io.Reader = strings.NewReader(text)
	how := r.R.Intn(6)
	fails := false
	switch how {
	case 1:
		rd = iotest.OneByteReader(rd)
	case 2:
		rd = iotest.HalfReader(rd)
	case 3:
		rd = iotest.DataErrReader(rd)
	case 4:
		rd = io.MultiReader(rd, iotest.ErrReader(errors.New("broken pipe")))
		fails = true
	}
	r.Input(n >= 3, "reader %d, listing:\n%s", how, shown)
	got, err := parentsp.New(rd).Run()
	if fails {
		if err == nil {
			r.Fail("error-lost", "the reader failed and Run reported no error")
		}
		return
	}
	if err != nil {
		r.Fail("error", "unexpected error %v", err)
	}
	if len(got) != len(par) {
		r.Fail("parents", "%d commits in the listing, %d read", len(par), len(got))
	}
	for h, ps := range par {
		g, ok := got[h]
		if !ok {
			r.Fail("parents", "commit %s is not in the result", h)
		}
		r.Same("parents", "parents of "+h, append([]string{}, ps...), append([]string{}, g...))
	}
	cp := map[string][]string{}
	for h, p := range got {
		cp[h] = p
	}
	checkGraph(r, parentsgraph.NewFromMap(cp), par)
}

// realListing: a generated repository, read with git.
func realListing(r *vlib.Run) {
	d := r.Dir("repo")
	defer os.RemoveAll(d)
	n := 1 + r.R.Intn(12)
	var b bytes.Buffer
	idx := map[int][]int{}
	branch := map[int]bool{}
	for i := 0; i < n; i++ {
		var ps []int
		if i > 0 && !r.Chance(0.08) {
			for k := 1 + r.R.Intn(4)/2; k > 0; k-- {
				j := r.R.Intn(i)
				dup := false
				for _, q := range ps {
					dup = dup || q == j
				}
				if !dup {
					ps = append(ps, j)
				}
			}
		}
		idx[i] = ps
		msg := r.Pick([]string{"x", "a@b", "commit\n\nabc@def\n", ""})
		fmt.Fprintf(&b, "reset refs/tmp/t\n\ncommit refs/tmp/t\nmark :%d\ncommitter C <c@x> %d +0000\ndata %d\n%s\n", i+1, 1500000000+r.R.Intn(50), len(msg), msg)
		for k, p := range ps {
			if k == 0 {
				fmt.Fprintf(&b, "from :%d\n", p+1)
			} else {
				fmt.Fprintf(&b, "merge :%d\n", p+1)
			}
		}
		b.WriteByte('\n')
		if r.Chance(0.3) {
			branch[i] = true
		}
	}
	head := r.R.Intn(n)
	vlib.MustGit(d, nil, "init", "-q", ".")
	vlib.MustGit(d, b.Bytes(), "fast-import", "--quiet", "--force", "--export-marks=marks")
	m, _ := os.ReadFile(filepath.Join(d, "marks"))
	hs := map[int]string{}
	for _, l := range strings.Split(strings.TrimSpace(string(m)), "\n") {
		var k int
		var h string
		fmt.Sscanf(l, ":%d %s", &k, &h)
		hs[k-1] = h
	}
	def := strings.TrimSpace(vlib.MustGit(d, nil, "symbolic-ref", "HEAD"))
	up := []string{"delete refs/tmp/t", "create " + def + " " + hs[head]}
	for i := range branch {
		up = append(up, fmt.Sprintf("create refs/heads/b%d %s", i, hs[i]))
	}
	vlib.MustGit(d, []byte(strings.Join(up, "\n")+"\n"), "update-ref", "--stdin")
	all := r.Chance(0.5)
	g := dag{par: map[string][]string{}}
	for i, ps := range idx {
		var q []string
		for _, p := range ps {
			q = append(q, hs[p])
		}
		g.par[hs[i]] = q
	}
	keep := g.reach(hs[head], "")
	if all {
		for i := range branch {
			for h := range g.reach(hs[i], "") {
				keep[h] = true
			}
		}
	}
	par := map[string][]string{}
	for h := range keep {
		par[h] = g.par[h]
	}
	r.Input(len(par) >= 3, "repository, head %d, branches %v, all branches %v, parents %v", head, branch, all, idx)
	gr := parentsgraph.New(parentsgraph.Opts{RepoDir: d, AllBranches: all, Logger: logger.NewDefaultLogger(io.Discard)})
	if err := gr.Read(); err != nil {
		r.Fail("error", "unexpected error %v", err)
	}
	checkGraph(r, gr, par)
}

func setRefs(def string, heads map[string]string) {
	hd := filepath.Join(repo, ".git/refs/heads")
	os.RemoveAll(hd)
	os.MkdirAll(hd, 0755)
	os.WriteFile(filepath.Join(repo, ".git/HEAD"), []byte("ref: refs/heads/main\n"), 0644)
	os.WriteFile(filepath.Join(hd, "main"), []byte(def+"\n"), 0644)
	for n, h := range heads {
		p := filepath.Join(hd, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(h+"\n"), 0644)
	}
}

func branchReport(r *vlib.Run) {
	setup(r)
	g := randomDag(r)
	short := map[string]string{}
	for i, h := range g.all {
		short[h] = fmt.Sprintf("c%d(%s)", i, h[:6])
	}
	def := g.all[r.R.Intn(len(g.all))]
	if r.Chance(0.5) {
		def = g.all[len(g.all)-1-r.R.Intn(minI(len(g.all), 4))]
	}
	heads := map[string]string{}
	for i, names := 0, []string{"a", "b", "x/y", "x/z", "fix-1", "ü"}; i < r.R.Intn(7); i++ {
		heads[names[i]] = g.all[r.R.Intn(len(g.all))]
	}
	setRefs(def, heads)
	prs := append([]string{}, g.all...)
	if r.Chance(0.3) {
		prs = append(prs, g.all[0], randHex(r, 40))
	}
	prOnly := r.Chance(0.3)
	incl := r.Chance(0.7)
	hs := ""
	for _, n := range []string{"a", "b", "x/y", "x/z", "fix-1", "ü"} {
		if h, ok := heads[n]; ok {
			hs += " " + n + "=" + short[h]
		}
	}
	r.Input(len(g.all) >= 4, "default head %s, branches%s, pull requests only %v, include default %v, history:\n%s", short[def], hs, prOnly, incl, g.text(short))
	cp := map[string][]string{}
	for h, p := range g.par {
		cp[h] = append([]string(nil), p...)
	}
	gr := parentsgraph.NewFromMap(cp)
	opts := branches2.Opts{Logger: logger.NewDefaultLogger(io.Discard), RepoDir: repo, CommitGraph: gr, PullRequestSHAs: prs, PullRequestsOnly: prOnly, IncludeDefaultBranch: incl, Concurrency: []int{0, 1, 3}[r.R.Intn(3)]}
	res, err := branches2.New(opts).RunSlice(context.Background())
	if err != nil {
		r.Fail("error", "unexpected error %v", err)
	}
	want := map[string]string{} // key -> head
	for _, h := range g.all {
		want["pr "+h] = h
	}
	if !prOnly {
		for n, h := range heads {
			want["branch "+n] = h
		}
		if incl {
			want["default"] = def
		}
	}
	var got = map[string]bool{}
	for _, b := range res {
		k := "branch " + b.Name
		if b.IsPullRequest {
			k = "pr " + b.HeadSHA
		}
		if b.IsDefault {
			k = "default"
		}
		if got[k] {
			r.Fail("twice", "%s is reported twice", k)
		}
		got[k] = true
		h, ok := want[k]
		if !ok {
			r.Fail("unexpected", "%s is reported, it was not asked for", k)
		}
		if h != b.HeadSHA {
			r.Fail("head", "%s has head %s, want %s", k, b.HeadSHA, h)
		}
		check(r, g, short, def, k, b)
	}
	for k := range want {
		if !got[k] {
			r.Fail("missing", "%s is not reported", k)
		}
	}
	r.Same("graph-changed", "the parents of the graph after the run", g.par, cp)
}

// pool runs the same request with different numbers of workers and with consumers that are slow at different moments: every
// run reports the same set of branches, each once, closes its output, and only then returns.
func pool(r *vlib.Run) {
	setup(r)
	g := randomDag(r)
	short := map[string]string{}
	for i, h := range g.all {
		short[h] = fmt.Sprintf("c%d(%s)", i, h[:6])
	}
	def := g.all[r.R.Intn(len(g.all))]
	heads := map[string]string{}
	for i, k := 0, r.R.Intn(9); i < k; i++ {
		heads[fmt.Sprintf("b%d", i)] = g.all[r.R.Intn(len(g.all))]
	}
	setRefs(def, heads)
	var prs []string
	for _, h := range g.all {
		for k := r.R.Intn(3); k > 0; k-- {
			prs = append(prs, h)
		}
	}
	if r.Chance(0.2) {
		prs = append(prs, randHex(r, 40)) // not in the history: nothing is reported for it
	}
	if r.Chance(0.1) {
		prs = nil
	}
	r.R.Shuffle(len(prs), func(i, k int) { prs[i], prs[k] = prs[k], prs[i] })
	prOnly, incl := r.Chance(0.3), r.Chance(0.5)
	dir := repo
	fault := r.Chance(0.1)
	if fault {
		dir = filepath.Join(repo, "no-such-directory")
	}
	r.Input(len(g.all) >= 4, "default head %s, branches %v, pull requests %v, only those %v, include default %v, missing repository %v, history:\n%s", short[def], heads, prs, prOnly, incl, fault, g.text(short))
	gr := parentsgraph.NewFromMap(g.par)
	var first string
	for round, n := range []int{1, 2, 1 + r.R.Intn(4), 8, 0} {
		opts := branches2.Opts{Logger: logger.NewDefaultLogger(io.Discard), RepoDir: dir, CommitGraph: gr, PullRequestSHAs: prs, PullRequestsOnly: prOnly, IncludeDefaultBranch: incl, Concurrency: n}
		out := make(chan branches2.Branch)
		slow := r.R.Intn(4)
		type ended struct {
			got []string
		}
		done := make(chan ended)
		go func() {
			var e ended
			for b := range out {
				e.got = append(e.got, fmt.Sprintf("%+v", b))
				if slow > 0 && len(e.got)%slow == 0 {
					time.Sleep(50 * time.Microsecond)
				}
				for k := slow; k > 0; k-- {
					runtime.Gosched()
				}
			}
			done <- e
		}()
		err := branches2.New(opts).Run(context.Background(), out)
		var e ended
		select {
		case e = <-done:
		case <-time.After(60 * time.Second):
			r.Fail("not-closed", "the output was not closed when the call returned (%d workers)", n)
		}
		if fault {
			if err == nil {
				r.Fail("no-error", "the repository does not exist, and no error is returned (%d workers)", n)
			}
			if len(e.got) != 0 {
				r.Fail("unexpected", "%v is reported for a repository that does not exist", e.got)
			}
			continue
		}
		if err != nil {
			r.Fail("error", "unexpected error %v (%d workers)", err, n)
		}
		sort.Strings(e.got)
		for i := 1; i < len(e.got); i++ {
			if e.got[i] == e.got[i-1] {
				r.Fail("twice", "%s is reported twice (%d workers)", e.got[i], n)
			}
		}
		all := strings.Join(e.got, "\n")
		if round == 0 {
			first = all
		} else {
			r.Same("workers", fmt.Sprintf("what is reported with %d workers, compared with one worker", n), first, all)
		}
	}
}

func check(r *vlib.Run, g dag, short map[string]string, def, k string, b branches2.Branch) {
	head := b.HeadSHA
	fromDef := g.reach(def, "")
	if b.IsDefault {
		if r.Prop == "C10" {
			r.Same("default-commits", "commits of the default branch", setStr(fromDef), setStr(toSet(b.Commits)))
			if len(b.Commits) != len(fromDef) {
				r.Fail("twice", "a commit of the default branch is reported twice: %v", b.Commits)
			}
		}
		return
	}
	merged := fromDef[head]
	base := fromDef
	if merged {
		base = g.reach(def, head)
	}
	cs := map[string]bool{}
	if merged {
		// reachable from the head but not from default with the head taken out
		delete(base, head)
	}
	for h := range g.reach(head, "") {
		if !base[h] {
			cs[h] = true
		}
	}
	switch r.Prop {
	case "C10":
		r.Same("commits", "commits of "+k, setStr(cs), setStr(toSet(b.Commits)))
		if len(b.Commits) != len(cs) {
			r.Fail("twice", "a commit of %s is reported twice: %v", k, b.Commits)
		}
		if b.Commits[len(b.Commits)-1] != head {
			r.Fail("last", "the last commit of %s is not its head: %v", k, b.Commits)
		}
	case "C11":
		pts := map[string]bool{}
		for c := range cs {
			for _, p := range g.par[c] {
				if !cs[p] {
					pts[p] = true
				}
			}
		}
		old := map[string]bool{}
		for p := range pts {
			rp := g.reach(p, "")
			ok := true
			for q := range pts {
				if q != p && rp[q] {
					ok = false
				}
			}
			if ok {
				old[p] = true
			}
		}
		r.Same("points", "branch points of "+k, setStr(old), strings.Join(b.BranchedFromCommits, " "))
	case "C12":
		if b.AheadDefaultCount != len(b.Commits) {
			r.Fail("ahead", "%s: ahead %d, %d commits", k, b.AheadDefaultCount, len(b.Commits))
		}
		if !merged {
			rb := g.reach(head, "")
			shared, behind := false, 0
			for h := range fromDef {
				if rb[h] {
					shared = true
				} else {
					behind++
				}
			}
			if shared && b.BehindDefaultCount != behind {
				r.Fail("behind", "%s: behind %d, want %d", k, b.BehindDefaultCount, behind)
			}
		}
	case "C13":
		if b.IsMerged != merged {
			r.Fail("merged", "%s: merged %v, want %v", k, b.IsMerged, merged)
		}
		cand := map[string]bool{}
		if merged {
			for h := range fromDef {
				for _, p := range g.par[h] {
					if p == head {
						cand[h] = true
					}
				}
			}
		}
		if b.MergeCommit == "" && len(cand) > 0 || b.MergeCommit != "" && !cand[b.MergeCommit] {
			r.Fail("merge-commit", "%s: merge commit %q, want one of %s", k, b.MergeCommit, setStr(cand))
		}
		if b.FirstCommit != b.Commits[0] {
			r.Fail("first", "%s: first commit %q of %v", k, b.FirstCommit, b.Commits)
		}
		id := ""
		if !b.IsPullRequest {
			s := b.Name
			if len(b.BranchedFromCommits) > 0 {
				s += b.BranchedFromCommits[0]
			}
			x := sha256.Sum256([]byte(s))
			id = hex.EncodeToString(x[:])
		}
		r.Same("id", "branch id of "+k, id, b.BranchID)
	}
}

func main() {
	vlib.Main("distinct histories of at least four commits, with every commit as a pull request head (C09: listings of at least three commits)", func(r *vlib.Run) {
		// the code under test runs git by name: give it a clean environment
		for _, e := range vlib.GitEnv() {
			k, v, _ := strings.Cut(e, "=")
			os.Setenv(k, v)
		}
		r.CrashGuard = true
		if r.Prop == "C09" {
			if r.Chance(0.03) {
				realListing(r)
			} else {
				listing(r)
			}
			return
		}
		if r.Prop == "C24" {
			pool(r)
			return
		}
		branchReport(r)
	})
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
