// Commit metadata: records read from real repositories against git's own plumbing output, and from scripted logs against what was scripted.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/zz_verif/hist"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

func fileText(f *commitmeta.CommitFile) string {
	return fmt.Sprintf("%q status %s renamed %v copied %v renamedfrom %q renamedto %q copiedfrom %q +%d -%d binary %v", f.Filename, f.Status, f.Renamed, f.Copied, f.RenamedFrom, f.RenamedTo, f.CopiedFrom, f.Additions, f.Deletions, f.Binary)
}

func text(c commitmeta.Commit) string {
	var fs []string
	for k, f := range c.Files {
		if k == f.Filename {
			fs = append(fs, "  "+fileText(f))
		} else {
			fs = append(fs, fmt.Sprintf("  key %q: %s", k, fileText(f)))
		}
	}
	sort.Strings(fs)
	return fmt.Sprintf("%d %s parents %q author %q <%q> committer %q <%q> date %s message %q\n%s", c.Ordinal, c.SHA, c.Parents, c.AuthorName, c.AuthorEmail, c.CommitterName, c.CommitterEmail, c.Date.Format(time.RFC3339), c.Message, strings.Join(fs, "\n"))
}

var bits = []string{"!SHA: 0123", "!Parents: a b", "!Author: x@y", "!Date: 2001-01-01T00:00:00Z", "!Message: m", ":100644 100644 abc def M\tx", "1\t2\tf", "-\t-\tf", "a => b", "Ünï cødé", "\xff\xfe", "\ttab", " lead", "\"quoted\"", "x\r", "!", ":", "%H %n", "back\\slash", "[x]", "'", "\v\f"}

func word(r *vlib.Run) string {
	switch r.R.Intn(4) {
	case 0:
		return ""
	case 1:
		return r.Pick(bits)
	case 2:
		return fmt.Sprintf("w%d %s", r.R.Intn(100), r.Pick(bits))
	}
	return fmt.Sprintf("word%d", r.R.Intn(100))
}

// name is for an author or a committer: git keeps no such characters at its ends.
func name(r *vlib.Run) string {
	s := strings.Trim(word(r), " \t\r\v\f.,:;<>\"\\'")
	return strings.NewReplacer("<", "", ">", "").Replace(s)
}

func zone(r *vlib.Run) string {
	return r.Pick([]string{"+0000", "+0530", "-0800", "+1300", "-0330", "+0100"})
}

// subject is what git shows as %s.
func subject(msg string) string {
	var out []string
	for _, l := range strings.Split(msg, "\n") {
		l = strings.TrimRight(l, " \t\r")
		if l == "" {
			if len(out) > 0 {
				break
			}
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, " ")
}

func isoZone(sec int64, z string) time.Time {
	h, _ := strconv.Atoi(z[1:3])
	m, _ := strconv.Atoi(z[3:5])
	o := h*3600 + m*60
	if z[0] == '-' {
		o = -o
	}
	return time.Unix(sec, 0).In(time.FixedZone("", o))
}

// stats are the line counts of git's -z output, by new name.
func stats(out string, f map[string]*commitmeta.CommitFile) []string {
	var order []string
	tok := strings.Split(out, "\x00")
	for i := 0; i < len(tok) && tok[i] != ""; i++ {
		p := strings.SplitN(tok[i], "\t", 3)
		n := p[2]
		if n == "" {
			n = tok[i+2]
			i += 2
		}
		order = append(order, n)
		x := f[n]
		if x == nil {
			x = &commitmeta.CommitFile{Filename: n, Status: commitmeta.GitFileCommitStatusModified}
			f[n] = x
		}
		if p[0] == "-" {
			x.Binary = true
			continue
		}
		x.Additions, _ = strconv.Atoi(p[0])
		x.Deletions, _ = strconv.Atoi(p[1])
	}
	return order
}

func regular(mode string) bool { return mode == "100644" || mode == "100755" }

// add notes an entry, the way the record shows it.
func add(f map[string]*commitmeta.CommitFile, dst, act, from, to string) {
	switch {
	case !regular(dst) && dst != "000000":
		f[to] = &commitmeta.CommitFile{Filename: to, Status: commitmeta.GitFileCommitStatusModified}
	case act[0] == 'R':
		f[from] = &commitmeta.CommitFile{Filename: from, Status: commitmeta.GitFileCommitStatusRemoved, Renamed: true, RenamedFrom: from, RenamedTo: to}
		f[to] = &commitmeta.CommitFile{Filename: to, Status: commitmeta.GitFileCommitStatusAdded, Renamed: true, RenamedFrom: from, RenamedTo: to}
	case act[0] == 'C':
		f[to] = &commitmeta.CommitFile{Filename: to, Status: commitmeta.GitFileCommitStatusAdded, Copied: true, CopiedFrom: from}
	case act[0] == 'A':
		f[to] = &commitmeta.CommitFile{Filename: to, Status: commitmeta.GitFileCommitStatusAdded}
	case act[0] == 'D':
		f[to] = &commitmeta.CommitFile{Filename: to, Status: commitmeta.GitFileCommitStatusRemoved}
	default:
		f[to] = &commitmeta.CommitFile{Filename: to, Status: commitmeta.GitFileCommitStatusModified}
	}
}

func run(r *vlib.Run, dir string, o commitmeta.Opts, want []commitmeta.Commit) {
	got, err := commitmeta.New(dir, o).RunSlice()
	if err != nil {
		r.Fail("error", "failed: %v", err)
	}
	for i, w := range want {
		if i < len(got) {
			r.Same("record", fmt.Sprintf("record %d", i), text(w), text(got[i]))
		}
	}
	if len(got) != len(want) {
		r.Fail("once", "%d records, should be %d", len(got), len(want))
	}
	if r.Chance(0.3) {
		m, err := commitmeta.New(dir, o).RunMap()
		if err != nil {
			r.Fail("error", "failed: %v", err)
		}
		if len(m) != len(want) {
			r.Fail("once", "%d records by hash, should be %d", len(m), len(want))
		}
		for _, w := range want {
			r.Same("record", "record of "+w.SHA, text(w), text(m[w.SHA]))
		}
	}
}

func real(r *vlib.Run) {
	h := hist.Random(r.R, hist.Opts{MaxCommits: 12, Merges: r.Chance(0.5), Binary: r.Chance(0.5), OddNames: r.Chance(0.5), Links: r.Chance(0.4), Huge: r.CaseNo%50 == 20})
	anyMerge := false
	for _, c := range h.Commits {
		anyMerge = anyMerge || len(c.Parents) > 1
	}
	for _, c := range h.Commits {
		if anyMerge {
			for _, p := range hist.Paths(c.Tree) {
				if strings.Contains(p, " => ") { // in the stats of a merge nothing tells it from a rename
					delete(c.Tree, p)
				}
			}
		}
		if r.Chance(0.7) {
			c.AName, c.AEmail, c.CName, c.CEmail = name(r), name(r), name(r), name(r)
		}
		c.AZone = zone(r)
		if r.Chance(0.7) {
			n := r.R.Intn(4)
			c.Msg = ""
			for i := 0; i < n; i++ {
				c.Msg += word(r) + "\n"
			}
			if r.Chance(0.05) {
				c.Msg = strings.Repeat(word(r)+"-", 20000) + c.Msg
			}
		}
	}
	dir := r.Dir("repo")
	h.Import(dir)
	h.Head(r.R.Intn(len(h.Commits)))
	refs := []string{"refs/heads/main"}
	for i := 0; i < 2; i++ {
		if r.Chance(0.5) {
			ref := fmt.Sprintf("refs/heads/b%d", i)
			h.Ref(ref, r.R.Intn(len(h.Commits)))
			refs = append(refs, ref)
		}
	}
	o := commitmeta.Opts{AllBranches: r.Chance(0.5)}
	revs := []string{"HEAD"}
	if o.AllBranches {
		revs = []string{"--all"}
	}
	if r.Chance(0.3) {
		if c := h.Commits[r.R.Intn(len(h.Commits))]; len(c.Parents) > 0 {
			o.CommitFromIncl, o.CommitFromMakeNonIncl, o.WantedBranchRefs = c.Hash, r.Chance(0.5), refs
			revs = []string{"^" + c.Hash + "^", "HEAD"}
			if o.CommitFromMakeNonIncl {
				revs[0] = "^" + c.Hash
			}
			if o.AllBranches {
				revs = append(revs, refs...)
			}
		}
	}
	r.Input(len(h.Commits) > 2, "%+v\n%s", o, h)
	var want []commitmeta.Commit
	for _, l := range strings.Fields(vlib.MustGit(dir, nil, append([]string{"rev-list", "--reverse"}, revs...)...)) {
		c := h.By(l)
		w := commitmeta.Commit{SHA: l, AuthorName: c.AName, AuthorEmail: c.AEmail, CommitterName: c.CName, CommitterEmail: c.CEmail, Date: isoZone(c.ADate, c.AZone), Ordinal: int64(len(want) + 1), Message: subject(c.Msg), Files: map[string]*commitmeta.CommitFile{}}
		for _, p := range c.Parents {
			w.Parents = append(w.Parents, h.Commits[p].Hash)
		}
		if len(c.Parents) > 1 {
			stats(vlib.MustGit(dir, nil, "diff-tree", "-r", "-M", "-l10000", "--numstat", "-z", w.Parents[0], l), w.Files)
		} else {
			tok := strings.Split(vlib.MustGit(dir, nil, "diff-tree", "-r", "--root", "--no-commit-id", "-M", "-l10000", "--raw", "-z", l), "\x00")
			for i := 0; i < len(tok) && tok[i] != ""; i++ {
				p := strings.Split(tok[i], " ")
				i++
				from, to := tok[i], tok[i]
				if p[4][0] == 'R' || p[4][0] == 'C' {
					i++
					to = tok[i]
				}
				add(w.Files, p[1], p[4], from, to)
			}
			stats(vlib.MustGit(dir, nil, "diff-tree", "-r", "--root", "--no-commit-id", "-M", "-l10000", "--numstat", "-z", l), w.Files)
		}
		want = append(want, w)
	}
	run(r, dir, o, want)
}

// quote is git's quoting of a name.
func quote(s string) string {
	var b strings.Builder
	odd := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			odd = true
			b.WriteString("\\" + string(rune(c)))
		case c == '\n':
			odd = true
			b.WriteString("\\n")
		case c == '\t':
			odd = true
			b.WriteString("\\t")
		case c == 7:
			odd = true
			b.WriteString("\\a")
		case c < 32 || c > 126:
			odd = true
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	if odd {
		return `"` + b.String() + `"`
	}
	return s
}

var names = []string{"a", "b.go", "d/e", "d/f/g", "x y", "tab\there", "quo\"te", "ünïcode", "a => b", "{x => y}/z", "d/{p}", "\xff", " lead", "end ", "nl\nname", "bell\a", "!SHA: x", ":100644", "M", "A\tB", "back\\slash", "1\t2\tf", "C", "R"}

// scripted runs on a log made up here, through a stand-in for git.
func scripted(r *vlib.Run) {
	dir := r.Dir("script")
	var log strings.Builder
	var want []commitmeta.Commit
	for n := r.R.Intn(6); n > 0; n-- {
		w := commitmeta.Commit{SHA: fmt.Sprintf("%040x", r.R.Int63()), AuthorName: name(r), AuthorEmail: name(r), CommitterName: name(r), CommitterEmail: name(r), Ordinal: int64(len(want) + 1), Message: subject(word(r)), Files: map[string]*commitmeta.CommitFile{}}
		w.Date = isoZone(1000000000+int64(r.R.Intn(1000000000)), zone(r))
		np := []int{0, 1, 1, 1, 2, 3}[r.R.Intn(6)]
		for i := 0; i < np; i++ {
			w.Parents = append(w.Parents, fmt.Sprintf("%040x", r.R.Int63()))
		}
		fmt.Fprintf(&log, "!SHA: %s\n!Parents: %s\n!Committer: %s\n!CName: %s\n!Author: %s\n!AName: %s\n!Date: %s\n!Message: %s\n\n", w.SHA, strings.Join(w.Parents, " "), w.CommitterEmail, w.CommitterName, w.AuthorEmail, w.AuthorName, w.Date.Format("2006-01-02T15:04:05-07:00"), w.Message)
		raw, num, comb := "", "", ""
		used := map[string]bool{}
		pick := func() string {
			for {
				if s := r.Pick(names); !used[s] && (np < 2 || !strings.Contains(s, " => ")) {
					used[s] = true
					return s
				}
			}
		}
		for k := r.R.Intn(4); k > 0; k-- {
			src, dst := r.Pick([]string{"100644", "100755"}), r.Pick([]string{"100644", "100644", "100644", "100755", "120000", "160000"})
			act := r.Pick([]string{"M", "M", "A", "D", "R100", "R090", "C075", "T"})
			switch act {
			case "A":
				src = "000000"
			case "D":
				dst = "000000"
			case "T":
				src = "120000"
			}
			a, d := strconv.Itoa(r.R.Intn(30)), strconv.Itoa(r.R.Intn(12000))
			if r.Chance(0.2) {
				a, d = "-", "-"
			}
			from := pick()
			to := from
			if act[0] == 'R' || act[0] == 'C' {
				to = pick()
			}
			both := quote(from)
			show := both
			if to != from {
				both += "\t" + quote(to)
				show += " => " + quote(to)
			}
			raw += fmt.Sprintf(":%s %s %07x %07x %s\t%s\n", src, dst, r.R.Intn(1<<28), r.R.Intn(1<<28), act, both)
			if np < 2 {
				add(w.Files, dst, act, from, to)
			} else {
				act, dst, to, show = "M", "100644", from, quote(from)
			}
			comb += fmt.Sprintf("::100644 100644 %s 1dbddb0 4cd4b38 904d55b MM\t%s\n", dst, quote(to))
			num += fmt.Sprintf("%s\t%s\t%s\n", a, d, show)
			stats(fmt.Sprintf("%s\t%s\t%s\x00", a, d, to), w.Files)
		}
		if np < 2 {
			log.WriteString(raw + num)
		} else {
			log.WriteString(num)
			if num != "" && r.Chance(0.5) {
				log.WriteString("\n" + comb)
			}
		}
		if n > 1 {
			log.WriteString("\n")
		}
		want = append(want, w)
	}
	must := func(err error) {
		if err != nil {
			panic("set-up: " + err.Error())
		}
	}
	must(os.WriteFile(filepath.Join(dir, "log"), []byte(log.String()), 0644))
	must(os.WriteFile(filepath.Join(dir, "git"), []byte("#!/bin/sh\nexec cat \""+dir+"/log\"\n"), 0755))
	path := os.Getenv("PATH")
	must(os.Setenv("PATH", dir+":"+path))
	defer os.Setenv("PATH", path)
	r.Input(len(want) > 1, "log:\n%s", log.String())
	if len(want) > 0 && r.Chance(0.1) { // a date which is not one
		s := strings.Replace(log.String(), "\n!Date: ", "\n!Date: x", 1)
		must(os.WriteFile(filepath.Join(dir, "log"), []byte(s), 0644))
		if _, err := commitmeta.New(dir, commitmeta.Opts{}).RunSlice(); err == nil {
			r.Fail("bad-log", "no error for a log with a date that is not one")
		}
		return
	}
	run(r, dir, commitmeta.Opts{}, want)
}

func main() {
	vlib.Main("every commit once and in order, with the fields, files, statuses and counts of git's plumbing or of the script", func(r *vlib.Run) {
		r.CrashGuard = true
		if r.Chance(0.4) {
			scripted(r)
		} else {
			real(r)
		}
	})
}
