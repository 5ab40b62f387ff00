// The log parser on generated "git log -p -m" output: every entry comes out once, in order, with the text of its file diffs.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/pinpt/ripsrc/ripsrc/history3/process/parser"
	"github.com/pinpt/ripsrc/zz_verif/gen"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

type entry struct {
	hash, from string
	diffs      []string
}

func hash(r *vlib.Run) string {
	var b strings.Builder
	n := 40
	if r.Chance(0.1) {
		n = 64
	}
	for i := 0; i < n; i++ {
		b.WriteByte("0123456789abcdef"[r.R.Intn(16)])
	}
	return b.String()
}

func word(r *vlib.Run) string {
	return r.Pick([]string{"fix", "diff --git a/x b/x", "commit abc", "Merge: a b", "", " ", "x (from y)", "ünï", "\x01", "@@ -1 +1 @@", "Author: x"})
}

// fileDiff is the text of one file's diff; no line is empty.
func fileDiff(r *vlib.Run) string {
	nm := r.Pick([]string{"a", "dir/b c", "diff", "commit "})
	head := fmt.Sprintf("diff --git a/%s b/%s\n", nm, nm)
	switch r.R.Intn(6) {
	case 0:
		return head + "old mode 100644\nnew mode 100755\n"
	case 1:
		return head + "new file mode 100644\nindex 0000000..e69de29\n"
	case 2:
		return head + "index 1..2 100644\nBinary files a/" + nm + " and b/" + nm + " differ\n"
	}
	old := gen.Lines(r.R, r.R.Intn(8))
	es := gen.Script(r.R, old)
	hs := gen.Hunks(es, r.Chance(0.2), r.Chance(0.2))
	t := gen.HunkText(hs, func(int) string { return r.Pick([]string{"", " func x() {", " commit 1"}) })
	if r.Chance(0.03) {
		t += "+" + strings.Repeat("long", 30000) + "\n"
	}
	return head + "index 1..2 100644\n--- a/" + nm + "\n+++ b/" + nm + "\n" + t
}

func main() {
	vlib.Main("distinct logs with at least two entries of which one has a diff", func(r *vlib.Run) {
		n := r.R.Intn(7)
		var es []entry
		var b strings.Builder
		diffs := 0
		for i := 0; i < n; i++ {
			e := entry{hash: hash(r)}
			b.WriteString("commit " + e.hash)
			if r.Chance(0.3) {
				e.from = hash(r)
				b.WriteString(" (from " + e.from + ")")
			}
			b.WriteByte('\n')
			if e.from != "" || r.Chance(0.2) {
				b.WriteString("Merge: 1234567 89abcde\n")
			}
			b.WriteString("Author: " + r.Pick([]string{"A <a@x>", "commit x <>", "", "diff y"}) + "\n\n")
			for k := r.R.Intn(4); k > 0; k-- {
				b.WriteString("    " + word(r) + "\n")
			}
			more := i+1 < n
			if r.Chance(0.75) {
				b.WriteByte('\n')
				for k := 1 + r.R.Intn(4); k > 0; k-- {
					d := fileDiff(r)
					ls := strings.Split(d, "\n")
					for i := range ls {
						ls[i] = strings.TrimSuffix(ls[i], "\r") // bufio.ScanLines
					}
					e.diffs = append(e.diffs, strings.Join(ls, "\n"))
					b.WriteString(d)
					diffs++
				}
			}
			if more {
				b.WriteByte('\n')
			}
			es = append(es, e)
		}
		text := b.String()
		if r.Chance(0.1) {
			text = strings.TrimSuffix(text, "\n")
		}
		shown := text
		if len(shown) > 20000 {
			shown = shown[:20000]
		}
		var rd io.Reader = strings.NewReader(text)
		how := r.R.Intn(5)
		fails := false
		switch how {
		case 1:
			rd = iotest.OneByteReader(rd)
		case 2:
			rd = iotest.HalfReader(rd)
		case 3:
			rd = iotest.DataErrReader(rd)
		case 4:
			if r.Chance(0.5) {
				rd = io.MultiReader(rd, iotest.ErrReader(errors.New("broken pipe")))
				fails = true
			}
		}
		if how == 1 && len(text) > 5000 {
			rd = strings.NewReader(text)
		}
		r.Input(n >= 2 && diffs > 0, "reader %d, fails %v\n%s", how, fails, shown)
		var got []parser.Commit
		var err error
		if p := r.Try(func() {
			c := make(chan parser.Commit)
			done := make(chan bool)
			go func() {
				for x := range c {
					got = append(got, x)
				}
				close(done)
			}()
			err = parser.New(rd).Run(c)
			<-done
		}); p != nil {
			r.Fail("panic", "Run panics: %v", p)
		}
		if fails {
			if err == nil {
				r.Fail("error", "the reader failed, but Run did not")
			}
			return
		}
		if err != nil {
			r.Fail("error", "Run failed: %v", err)
		}
		if len(got) != len(es) {
			r.Fail("entries", "want %d entries, got %d", len(es), len(got))
		}
		for i, e := range es {
			g := got[i]
			if g.Hash != e.hash || g.MergeDiffFrom != e.from {
				r.Fail("entry", "entry %d: want %s from %q, got %s from %q", i, e.hash, e.from, g.Hash, g.MergeDiffFrom)
			}
			if len(g.Changes) != len(e.diffs) {
				r.Fail("diffs", "entry %d: want %d diffs, got %d", i, len(e.diffs), len(g.Changes))
			}
			for j, d := range e.diffs {
				if string(g.Changes[j].Diff) != d {
					r.Fail("text", "entry %d diff %d:\nwant %q\ngot  %q", i, j, d, g.Changes[j].Diff)
				}
			}
		}
		got2, err := parser.New(strings.NewReader(text)).RunGetAll()
		if err != nil || fmt.Sprint(got2) != fmt.Sprint(got) {
			r.Fail("again", "RunGetAll: %v, %d entries, want %d", err, len(got2), len(got))
		}
	})
}
