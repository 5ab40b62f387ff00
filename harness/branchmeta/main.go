// Listing of the branches of real repositories with odd branch names.
package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

var names = []string{"master", "main", "a", "b", "feature/x", "feature/y", "heads/a", "heads/master", "origin/a", "origin/HEAD", "refs/heads/a",
	"@@@", "ünï", "x=y", "(HEAD", "(x)", "-1", "1", "a.b", "Z", "z", "A", "tags/a", "remotes/origin/a", "quo\"te", "semi;colon", "h/HEAD", "HEAD/x", "HEADS", "Head", "#1", "%00", "%(refname)", "a'b", "x/y/z", "deadbeef", "!", "\xc3\xa9\xff"}

type ref struct {
	name, commit string
	time         int64
}

func conflict(set map[string]bool, n string) bool {
	for m := range set {
		if m == n || strings.HasPrefix(m, n+"/") || strings.HasPrefix(n, m+"/") {
			return true
		}
	}
	return false
}

func main() {
	for _, e := range vlib.GitEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	vlib.Main("each branch in range is listed once with its name, head and commit time, in the order of names", func(r *vlib.Run) {
		dir := r.Dir("r")
		defer os.RemoveAll(dir)
		vlib.MustGit(dir, nil, "init", "-q")
		// commits
		var fi strings.Builder
		nc := 1 + r.R.Intn(4)
		var times []int64
		for i := 0; i < nc; i++ {
			t := int64(1000000000 + r.R.Intn(500000000))
			times = append(times, t)
			z := []string{"+0000", "+0530", "-0700", "+1245", "-0030"}[r.R.Intn(5)]
			fmt.Fprintf(&fi, "commit refs/c/%d\nmark :%d\nauthor a <a@a> %d +0000\ncommitter c <c@c> %d %s\ndata 1\nm\nM 100644 inline f\ndata 1\n%d\n\n", i, i+1, t-50, t, z, i)
		}
		vlib.MustGit(dir, []byte(fi.String()), "fast-import", "--quiet")
		var hash []string
		for i := 0; i < nc; i++ {
			hash = append(hash, strings.TrimSpace(vlib.MustGit(dir, nil, "rev-parse", fmt.Sprintf("refs/c/%d", i))))
			vlib.MustGit(dir, nil, "update-ref", "-d", fmt.Sprintf("refs/c/%d", i))
		}
		all := map[string][]ref{}
		put := func(prefix string, n int) {
			set := map[string]bool{}
			for i := 0; i < n; i++ {
				s := r.Pick(names)
				if conflict(set, s) {
					continue
				}
				c := r.R.Intn(nc)
				if out, err := exec.Command("git", "-C", dir, "update-ref", prefix+s, hash[c]).CombinedOutput(); err != nil {
					_ = out // git allows no such name
					continue
				}
				set[s] = true
				all[prefix] = append(all[prefix], ref{s, hash[c], times[c]})
			}
		}
		const H, O = "refs/heads/", "refs/remotes/origin/"
		put(H, r.R.Intn(9))
		put(O, r.R.Intn(7))
		put("refs/tags/", r.R.Intn(5))
		put("refs/remotes/other/", r.R.Intn(3))
		put("refs/heads2/", r.R.Intn(2))
		if len(all[H]) > 0 && r.Chance(0.3) {
			vlib.MustGit(dir, nil, "pack-refs", "--all")
		}
		// head: one of the branches, or one without commits
		def := "unborn"
		if len(all[H]) > 0 && r.Chance(0.9) {
			def = all[H][r.R.Intn(len(all[H]))].name
		}
		vlib.MustGit(dir, nil, "symbolic-ref", "HEAD", H+def)
		free := true
		for _, b := range all[O] {
			free = free && !strings.HasPrefix(b.name, "HEAD/")
		}
		if len(all[O]) > 0 && free && r.Chance(0.5) {
			if _, err := vlib.Git(dir, nil, "symbolic-ref", O+"HEAD", O+all[O][r.R.Intn(len(all[O]))].name); err != nil {
				panic("set-up: " + err.Error())
			}
		}
		opts := branchmeta.Opts{Logger: logger.NewDefaultLogger(os.Stderr), RepoDir: dir, UseOrigin: r.Chance(0.5), IncludeDefault: r.Chance(0.5)}
		prefix := H
		if opts.UseOrigin {
			prefix = O
		}
		var want []string
		for _, b := range all[prefix] {
			if opts.IncludeDefault || b.name != def {
				want = append(want, fmt.Sprintf("%q %s %d", b.name, b.commit, b.time))
			}
		}
		r.Input(len(want) > 0, "origin=%v default=%v\nHEAD %q\n%s", opts.UseOrigin, opts.IncludeDefault, def, vlib.MustGit(dir, nil, "for-each-ref"))
		sort.Strings(want)
		ctx, stop := context.WithTimeout(context.Background(), time.Minute)
		defer stop()
		res, err := branchmeta.Get(ctx, opts)
		if err != nil {
			r.Fail("error", "listing failed: %v", err)
		}
		var got []string
		for i, b := range res {
			got = append(got, fmt.Sprintf("%q %s %d", b.Name, b.Commit, b.CommitCommitterTime.Unix()))
			if i > 0 && res[i-1].Name > b.Name {
				r.Fail("order", "%q before %q", res[i-1].Name, b.Name)
			}
		}
		sort.Strings(got)
		r.Same("branches", "branches", strings.Join(want, "\n"), strings.Join(got, "\n"))
	})
}
