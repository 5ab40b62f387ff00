// Annotated listings (git blame --porcelain): each line comes back once, in order, with its content and commit.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/gitblame2"
	"github.com/pinpt/ripsrc/zz_verif/gen"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

func hex(r *vlib.Run) string {
	b := make([]byte, 40)
	for i := range b {
		b[i] = "0123456789abcdef"[r.R.Intn(16)]
	}
	return string(b)
}

func show(ls []gitblame2.Line) string {
	var b strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&b, "%s %q\n", l.CommitHash, l.Content)
	}
	return b.String()
}

func check(r *vlib.Run, dir, commit, file string, want []gitblame2.Line) {
	res, err := gitblame2.Run(dir, commit, file)
	if err != nil {
		r.Fail("error", "error %v", err)
	}
	r.Same("lines", "lines of the listing", show(want), show(res.Lines))
}

// listing makes the porcelain output itself; a stand-in for git prints it.
func listing(r *vlib.Run) {
	commits := []string{}
	for i := 1 + r.R.Intn(4); i > 0; i-- {
		commits = append(commits, hex(r))
	}
	metas := func() string {
		v := r.Pick([]string{"A", "", "two words", "\ttab", "ünï", "<a@x>", "0123456789012345678901234567890123456789 1 1"})
		m := []string{"author " + v, "author-mail <a@x>", "author-time 1", "author-tz +0000", "committer C", "committer-mail <c@x>", "committer-time 1", "committer-tz +0000", "summary " + v}
		if r.Chance(0.3) {
			m = append(m, "boundary")
		}
		if r.Chance(0.3) {
			m = append(m, "previous "+hex(r)+" \"a b\"")
		}
		return strings.Join(append(m, "filename f"), "\n") + "\n"
	}
	var b strings.Builder
	var want []gitblame2.Line
	seen := map[string]bool{}
	n := r.R.Intn(9)
	if r.Chance(0.1) {
		n = 50
	}
	for i := 0; i < n; i++ {
		c := r.Pick(commits)
		t := gen.Text(r.R)
		if r.Chance(0.05) {
			t = r.Pick([]string{commits[0] + " 1 1 1", "\t" + commits[0] + " 1 1", "author x", "filename f"})
		}
		fmt.Fprintf(&b, "%s %d %d", c, 1+r.R.Intn(20), i+1)
		if r.Chance(0.5) {
			fmt.Fprintf(&b, " %d", 1+r.R.Intn(3))
		}
		b.WriteByte('\n')
		if !seen[c] || r.Chance(0.2) {
			b.WriteString(metas())
			seen[c] = true
		} else if r.Chance(0.2) {
			b.WriteString("previous " + hex(r) + " g\nfilename g\n")
		}
		b.WriteString("\t" + t + "\n")
		want = append(want, gitblame2.Line{Content: t, CommitHash: c})
	}
	r.Input(n > 1, "%s", b.String())
	d := r.Dir("fake")
	defer os.RemoveAll(d)
	if err := os.WriteFile(filepath.Join(d, "out"), []byte(b.String()), 0644); err != nil {
		panic("set-up: " + err.Error())
	}
	if err := os.WriteFile(filepath.Join(d, "git"), []byte("#!/bin/sh\nexec /bin/cat '"+d+"/out'\n"), 0755); err != nil {
		panic("set-up: " + err.Error())
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", d+":"+old)
	defer os.Setenv("PATH", old)
	check(r, d, commits[0], "f", want)
}

func real(r *vlib.Run) {
	d := r.Dir("repo")
	defer os.RemoveAll(d)
	vlib.MustGit(d, nil, "init", "-q", ".")
	n := 1 + r.R.Intn(4)
	lines := gen.Lines(r.R, r.R.Intn(10))
	var b strings.Builder
	var last string
	for i := 0; i < n; i++ {
		last = strings.Join(lines, "\n")
		if len(lines) > 0 && !r.Chance(0.2) {
			last += "\n"
		}
		fmt.Fprintf(&b, "commit refs/heads/m\nmark :%d\nauthor A%d <a@x> %d +0000\ncommitter C <c@x> %d +0000\ndata 2\ns\n\nM 100644 inline f\ndata %d\n%s\n", i+1, i, 100+i, 100+i, len(last), last)
		lines = gen.NewOf(gen.Script(r.R, lines))
	}
	vlib.MustGit(d, []byte(b.String()), "fast-import", "--quiet", "--export-marks=marks")
	m := strings.Split(strings.TrimSpace(readFile(filepath.Join(d, "marks"))), "\n")
	c := m[len(m)-1]
	for _, x := range m {
		if strings.HasPrefix(x, fmt.Sprintf(":%d ", n)) {
			c = x
		}
	}
	c = c[strings.Index(c, " ")+1:]
	r.Input(n > 1 && len(last) > 3, "history of one file:\n%s", b.String())
	ann := strings.Split(vlib.MustGit(d, nil, "blame", "-l", "-s", "--root", c, "--", "f"), "\n")
	var want []gitblame2.Line
	var content []string
	if last != "" {
		content = strings.Split(strings.TrimSuffix(last, "\n"), "\n")
	}
	for i, t := range content {
		want = append(want, gitblame2.Line{Content: t, CommitHash: ann[i][:40]})
	}
	check(r, d, c, "f", want)
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		panic("set-up: " + err.Error())
	}
	return string(b)
}

func main() {
	vlib.Main("distinct listings with more than one line, or histories of more than one commit", func(r *vlib.Run) {
		if r.CaseNo%3 == 2 {
			real(r)
		} else {
			listing(r)
		}
	})
}
