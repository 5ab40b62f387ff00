// Code records of whole histories on real repositories, through the public calls: one entry per line, with the commit it is attributed
// to, that commit's author, and the class the line counter gives it.
package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/boyter/scc/processor"
	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"github.com/pinpt/ripsrc/zz_verif/hist"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

func lg() logger.Logger { return logger.NewDefaultLogger(io.Discard) }

var marks = []string{"GENERATED", "DO NOT EDIT", "DO NOT MODIFY", "machine generated"}

func line(r *rand.Rand, n int) string {
	switch k := r.Intn(60); {
	case k < 6:
		return fmt.Sprintf("// note %d", n)
	case k < 8:
		return fmt.Sprintf("/* block %d */", n)
	case k < 10:
		return fmt.Sprintf("\tx%d() // tail", n)
	case k < 13: // a blank line like no other
		b := ""
		for ; n > 0; n /= 2 {
			b += " \t"[n%2 : n%2+1]
		}
		return b
	case k == 13 && r.Intn(4) == 0:
		return fmt.Sprintf("// code %d %s by hand", n, marks[r.Intn(4)])
	case k == 14:
		return fmt.Sprintf("\ts%d := %q", n, marks[r.Intn(4)])
	case k == 15:
		return fmt.Sprintf("/* open %d", n)
	case k == 16:
		return fmt.Sprintf("close %d */", n)
	case k == 17:
		return fmt.Sprintf("\tt%d := `raw // not a comment", n)
	case k == 18:
		return fmt.Sprintf("\tünïcode%d()", n)
	}
	return fmt.Sprintf("\tx%d()", n)
}

// counter notes the class of each line.
type counter struct {
	class map[int]processor.LineType
	lines []string
	gen   bool
}

func (c *counter) ProcessLine(job *processor.FileJob, n int64, t processor.LineType) bool {
	c.class[int(n)] = t
	if t == processor.LINE_COMMENT && int(n) <= len(c.lines) {
		for _, m := range marks {
			if strings.Contains(c.lines[n-1], m) {
				c.gen = true
				return false
			}
		}
	}
	return int(n) <= len(c.lines)
}

// delivery is what arrived on a channel.
type delivery struct {
	commits []string
	recs    [][]string
}

func recText(b ripsrc.BlameResult) string {
	var ls []string
	for _, l := range b.Lines {
		ls = append(ls, fmt.Sprintf("%+v", *l))
	}
	b.Lines = nil
	sha := b.Commit.SHA
	b.Commit = ripsrc.Commit{}
	lic := ""
	if b.License != nil {
		lic = fmt.Sprintf("%+v", *b.License)
	}
	b.License = nil
	return fmt.Sprintf("%s %+v %s %s", sha, b, lic, strings.Join(ls, "|"))
}

// streams calls the streaming functions with consumers that are slow at different moments and with sub-steps that fail: every
// record is delivered once, in the order of the commits, the output is closed, and the call returns after that.
func streams(r *vlib.Run) {
	h := hist.Random(r.R, hist.Opts{MaxCommits: 9, Merges: r.Chance(0.7), Unique: true, Line: line, Names: []string{"main.go", "a/b.go", "c.go", "x.js", "n.txt"}})
	h.Import(r.Dir("repo"))
	h.Head(len(h.Commits) - 1)
	order := strings.Fields(vlib.MustGit(h.Dir, nil, "log", "--date-order", "--reverse", "--format=%H", "HEAD"))
	fault := []string{"", "", "", "no checkpoint", "no repository", "checkpoint not writable", "checkpoint not writable", "empty", "missing object"}[r.R.Intn(9)]
	o := ripsrc.Opts{Logger: lg(), RepoDir: h.Dir, CheckpointsDir: r.Dir("ck")}
	switch fault {
	case "no checkpoint":
		o.CommitFromIncl = order[r.R.Intn(len(order))]
	case "no repository":
		o.RepoDir = filepath.Join(h.Dir, "missing")
	case "checkpoint not writable":
		o.CheckpointsDir = filepath.Join(o.CheckpointsDir, "file")
		os.WriteFile(o.CheckpointsDir, []byte("x"), 0644)
	case "empty":
		// nothing after the commit that is left out
		if _, err := process.New(process.Opts{Logger: lg(), RepoDir: h.Dir, CheckpointsDir: o.CheckpointsDir}).RunGetAll(); err != nil {
			r.Fail("error", "process failed: %v", err)
		}
		o.CommitFromIncl = order[len(order)-1]
		o.CommitFromMakeNonIncl = true
	}
	if fault == "missing object" {
		// git reads a part of the log and then fails
		objs := strings.Fields(vlib.MustGit(h.Dir, nil, "rev-list", "--objects", "--no-object-names", "HEAD"))
		var blobs []string
		for _, x := range objs {
			if x != "e69de29bb2d1d6434b8b29ae775ad8c2e48c5391" && strings.TrimSpace(vlib.MustGit(h.Dir, nil, "cat-file", "-t", x)) == "blob" {
				blobs = append(blobs, x)
			}
		}
		fault = ""
		if len(blobs) > 0 {
			x := blobs[r.R.Intn(len(blobs))]
			if os.Remove(filepath.Join(h.Dir, ".git", "objects", x[:2], x[2:])) == nil {
				fault = "missing object"
			}
		}
	}
	r.Input(len(order) > 2, "fault: %q\n%s", fault, h)
	slow := r.R.Intn(4)
	long := time.Duration(0)
	if fault != "" && r.Chance(0.8) {
		long = 5 * time.Millisecond
	}
	pause := func(n int) {
		if long > 0 {
			time.Sleep(long)
		} else if slow > 0 && n%slow == 0 {
			time.Sleep(100 * time.Microsecond)
		}
	}
	wait := func(what string, done chan bool) {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			r.Fail("not-closed", "%s: the output is not closed when the call returned", what)
		}
	}
	ctx := context.Background()
	failed := func(what string, err error) {
		if want := fault != "" && fault != "empty"; want != (err != nil) {
			r.Fail("error", "%s: fault %q, error %v", what, fault, err)
		}
	}
	if fault == "missing object" {
		var got []string
		ch := make(chan process.Result)
		done := make(chan bool, 1)
		go func() {
			for c := range ch {
				pause(len(got))
				got = append(got, c.Commit)
			}
			done <- true
		}()
		err := process.New(process.Opts{Logger: lg(), RepoDir: h.Dir, CheckpointsDir: r.Dir("ckp")}).Run(ch)
		wait("process.Run", done)
		failed("process.Run", err)
		if len(got) > len(order) {
			r.Fail("order", "process.Run delivers %d commits of %d", len(got), len(order))
		}
		r.Same("order", "the commits that process.Run delivers before git fails", strings.Join(order[:len(got)], "\n"), strings.Join(got, "\n"))
	}
	// by commit
	var d delivery
	ch := make(chan ripsrc.CommitCode)
	done := make(chan bool, 1)
	go func() {
		for c := range ch {
			pause(len(d.commits))
			d.commits = append(d.commits, c.SHA)
			var x []string
			for b := range c.Blames {
				pause(len(x))
				x = append(x, recText(b))
			}
			d.recs = append(d.recs, x)
		}
		done <- true
	}()
	err := ripsrc.New(o).CodeByCommit(ctx, ch)
	wait("CodeByCommit", done)
	failed("CodeByCommit", err)
	want := order
	if fault == "no checkpoint" || fault == "no repository" || fault == "empty" || fault == "missing object" {
		want = nil
	}
	r.Same("order", "the commits that CodeByCommit delivers", strings.Join(want, "\n"), strings.Join(d.commits, "\n"))
	seen := map[string]bool{}
	for i, x := range d.recs {
		for _, t := range x {
			if !strings.HasPrefix(t, d.commits[i]+" ") {
				r.Fail("commit", "record %s under commit %s", t, d.commits[i])
			}
			if seen[t] {
				r.Fail("twice", "record %s is delivered twice", t)
			}
			seen[t] = true
		}
	}
	// one by one, and as a slice: the same records commit by commit
	same := func(what string, got []ripsrc.BlameResult) {
		k := 0
		for i, x := range d.recs {
			if k+len(x) > len(got) {
				r.Fail("missing", "%s delivers %d records, too few", what, len(got))
			}
			var a []string
			for _, b := range got[k : k+len(x)] {
				a = append(a, recText(b))
			}
			k += len(x)
			w := append([]string{}, x...)
			sort.Strings(w)
			sort.Strings(a)
			r.Same("records", what+": the records of commit "+d.commits[i], strings.Join(w, "\n"), strings.Join(a, "\n"))
		}
		if k != len(got) {
			r.Fail("extra", "%s delivers %d records, should be %d", what, len(got), k)
		}
	}
	if fault != "empty" {
		o.CheckpointsDir += "2"
		if fault == "checkpoint not writable" {
			os.WriteFile(o.CheckpointsDir, []byte("x"), 0644)
		}
	}
	var all []ripsrc.BlameResult
	ch2 := make(chan ripsrc.BlameResult)
	go func() {
		for b := range ch2 {
			pause(len(all))
			all = append(all, b)
		}
		done <- true
	}()
	err = ripsrc.New(o).Code(ctx, ch2)
	wait("Code", done)
	failed("Code", err)
	same("Code", all)
	if fault == "" {
		o.CheckpointsDir += "3"
	}
	sl, err := ripsrc.New(o).CodeSlice(ctx)
	failed("CodeSlice", err)
	same("CodeSlice", sl)
	// branches
	n := r.R.Intn(4)
	for i := 0; i < n; i++ {
		h.Ref(fmt.Sprintf("refs/heads/b%d", i), r.R.Intn(len(h.Commits)))
	}
	o.AllBranches = r.Chance(0.8)
	var bs []string
	ch3 := make(chan ripsrc.Branch)
	go func() {
		for b := range ch3 {
			pause(len(bs))
			bs = append(bs, b.Name+" "+b.HeadSHA)
		}
		done <- true
	}()
	err = ripsrc.New(o).Branches(ctx, ch3)
	wait("Branches", done)
	wantErr := !o.AllBranches || fault == "no repository"
	if wantErr != (err != nil) {
		r.Fail("error", "Branches: AllBranches %v, fault %q, error %v", o.AllBranches, fault, err)
	}
	var wb []string
	if !wantErr {
		wb = strings.Split(strings.TrimSpace(vlib.MustGit(h.Dir, nil, "for-each-ref", "--format=%(refname:short) %(objectname)", "refs/heads")), "\n")
	}
	sort.Strings(wb)
	sort.Strings(bs)
	r.Same("branches", "the branches delivered", strings.Join(wb, "\n"), strings.Join(bs, "\n"))
	if !wantErr {
		l, err := ripsrc.New(o).BranchesSlice(ctx)
		if err != nil || len(l) != len(wb) {
			r.Fail("slice", "BranchesSlice gives %d branches and error %v, should be %d", len(l), err, len(wb))
		}
	}
}

func main() {
	vlib.Main("entries, hashes, authors and classes are those of the attributed commits and of the line counter", func(r *vlib.Run) {
		r.CrashGuard = true
		if r.Prop == "C25" {
			streams(r)
			return
		}
		h := hist.Random(r.R, hist.Opts{MaxCommits: 10, Merges: r.Chance(0.6), Unique: true, Long: r.Chance(0.3), Binary: r.Chance(0.3), Line: line,
			Names: []string{"main.go", "a/b.go", "c.go", "x.js", "p.py", "n.txt", "w.json", "vendor/v.go", "d/e/f.java"}})
		for _, c := range h.Commits {
			if r.Chance(0.1) {
				c.AName = ""
			}
			if r.Chance(0.1) {
				c.AEmail = ""
			}
		}
		h.Import(r.Dir("repo"))
		h.Head(len(h.Commits) - 1)
		r.Input(len(h.Commits) > 2, "%s", h)
		want, err := process.New(process.Opts{Logger: lg(), RepoDir: h.Dir, CheckpointsDir: r.Dir("ck1")}).RunGetAll()
		if err != nil {
			r.Fail("error", "process failed: %v", err)
		}
		type rec struct {
			c ripsrc.CommitCode
			b []ripsrc.BlameResult
		}
		rs := ripsrc.New(ripsrc.Opts{Logger: lg(), RepoDir: h.Dir, CheckpointsDir: r.Dir("ck2")})
		var got []rec
		ch := make(chan ripsrc.CommitCode)
		done := make(chan bool)
		go func() {
			for c := range ch {
				x := rec{c: c}
				for b := range c.Blames {
					x.b = append(x.b, b)
				}
				got = append(got, x)
			}
			done <- true
		}()
		err = rs.CodeByCommit(context.Background(), ch)
		<-done
		if err != nil {
			r.Fail("error", "CodeByCommit failed: %v", err)
		}
		if len(got) != len(want) {
			r.Fail("commits", "%d commits, should be %d", len(got), len(want))
		}
		seen := map[string]bool{}
		for i, g := range got {
			w := want[i]
			if g.c.SHA != w.Commit {
				r.Fail("commits", "commit %d is %v, should be %v", i, g.c.SHA, w.Commit)
			}
			c := h.By(w.Commit)
			has := map[string]bool{}
			for _, b := range g.b {
				at := fmt.Sprintf("commit %d, %q: ", c.N, b.Filename)
				if has[b.Filename] {
					r.Fail("once", "%sreported twice", at)
				}
				has[b.Filename] = true
				bl := w.Files[b.Filename]
				if bl == nil {
					r.Fail("blame", "%sno blame for it", at)
				}
				if b.Commit.SHA != w.Commit {
					r.Fail("commit", "%swith commit %v", at, b.Commit.SHA)
				}
				f, there := c.Tree[b.Filename]
				if !there {
					if len(c.Parents) > 1 && b.Status == ripsrc.GitFileCommitStatusModified && b.Size == 0 && len(b.Lines) == 0 {
						r.Report("merge-removed", "%sremoved by the merge, but status %q", at, b.Status)
						continue
					}
					if b.Skipped != "File was removed" || b.Status != ripsrc.GitFileCommitStatusRemoved || len(b.Lines) != 0 || b.Language != "" {
						r.Fail("removed", "%sremoved, but status %q, skipped %q, %d lines, language %q", at, b.Status, b.Skipped, len(b.Lines), b.Language)
					}
					continue
				}
				if b.Status == ripsrc.GitFileCommitStatusRemoved {
					r.Fail("removed", "%snot removed, but status %q", at, b.Status)
				}
				if bl.IsBinary { // the change to it is, there are no lines
					if len(b.Lines) != 0 {
						r.Fail("binary", "%sbinary, with %d lines", at, len(b.Lines))
					}
					continue
				}
				ls := hist.Lines(f.Data)
				content := ""
				var bs [][]byte
				for _, l := range ls {
					content += l + "\n"
					bs = append(bs, []byte(l))
				}
				info, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: b.Filename, Content: []byte(content), Lines: bs})
				if skip != "" {
					if b.Skipped != skip || len(b.Lines) != 0 || b.Language != "" {
						r.Fail("skipped", "%sskipped %q, %d lines, language %q, should be skipped %q", at, b.Skipped, len(b.Lines), b.Language, skip)
					}
					continue
				}
				seen[b.Filename] = true
				cnt := &counter{class: map[int]processor.LineType{}, lines: ls}
				job := &processor.FileJob{Filename: b.Filename, Language: info.Language, Content: []byte(content), Callback: cnt}
				processor.CountStats(job)
				lang, sk := info.Language, ""
				if cnt.gen {
					lang, sk = "", "file was a generated file"
				}
				if b.Language != lang || b.Skipped != sk {
					r.Fail("generated", "%slanguage %q, skipped %q, should be %q, %q\n%s", at, b.Language, b.Skipped, lang, sk, content)
				}
				var ws, gs []string
				blanks, code, comments := int64(0), int64(0), int64(0)
				for k := range ls {
					a := h.By(bl.Lines[k].Commit)
					t, ok := cnt.class[k+1]
					cl := ""
					if ok {
						switch t {
						case processor.LINE_BLANK:
							cl = "blank "
							blanks++
						case processor.LINE_CODE:
							cl = "code "
							code++
						case processor.LINE_COMMENT:
							cl = "comment "
							comments++
						}
					}
					ws = append(ws, fmt.Sprintf("%d: %s%s <%s> %d %s", k, cl, a.AName, a.AEmail, a.ADate, a.Hash))
				}
				for k, l := range b.Lines {
					cl := ""
					if l.Blank {
						cl += "blank "
					}
					if l.Code {
						cl += "code "
					}
					if l.Comment {
						cl += "comment "
					}
					gs = append(gs, fmt.Sprintf("%d: %s%s <%s> %d %s", k, cl, l.Name, l.Email, l.Date.Unix(), l.SHA))
				}
				r.Same("lines", at+"entries of\n"+content, strings.Join(ws, "\n"), strings.Join(gs, "\n"))
				if b.Size != int64(len(content)) || b.Loc != job.Lines || b.Blanks != blanks || b.Sloc != code || b.Comments != comments || b.Complexity != job.Complexity {
					r.Fail("totals", "%ssize %d, lines %d, blank %d, code %d, comments %d, complexity %d; should be %d %d %d %d %d %d", at, b.Size, b.Loc, b.Blanks, b.Sloc, b.Comments, b.Complexity, len(content), job.Lines, blanks, code, comments, job.Complexity)
				}
			}
			if len(c.Parents) < 2 {
				old := map[string]hist.File{}
				if len(c.Parents) == 1 {
					old = h.Commits[c.Parents[0]].Tree
				}
				for _, p := range hist.Paths(c.Tree) {
					if old[p].Data != c.Tree[p].Data && !has[p] {
						r.Fail("all", "commit %d: no record for %q", c.N, p)
					}
				}
				for _, p := range hist.Paths(old) {
					if _, there := c.Tree[p]; !there && !has[p] && w.Files[p] != nil {
						r.Fail("all", "commit %d: no record for %q", c.N, p)
					}
				}
			}
		}
	})
}
