package main

import (
	"fmt"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/zz_verif/gen"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

type vl struct{ text, by string }

func commit(i int) string { return fmt.Sprintf("%040x", 0xabc0+i) }

func show(l []vl) string {
	var b strings.Builder
	for i, x := range l {
		fmt.Fprintf(&b, "%d %s %q\n", i, x.by[len(x.by)-4:], x.text)
	}
	return b.String()
}

func blame(ls []vl, c string) incblame.Blame {
	var b incblame.Blame
	b.Commit = c
	for _, l := range ls {
		b.Lines = append(b.Lines, &incblame.Line{Line: []byte(gen.TrimCR(l.text)), Commit: l.by})
	}
	return b
}

func same(want []vl, got incblame.Blame, text, attr bool) string {
	if len(want) != len(got.Lines) {
		return fmt.Sprintf("want %d lines, got %d\nwant:\n%s\ngot:\n%s", len(want), len(got.Lines), show(want), got.String())
	}
	for i, w := range want {
		g := got.Lines[i]
		if g == nil {
			return fmt.Sprintf("line %d is nil", i)
		}
		if text && gen.TrimCR(w.text) != gen.TrimCR(string(g.Line)) {
			return fmt.Sprintf("line %d: want %q, got %q", i, w.text, g.Line)
		}
		if attr && w.by != g.Commit {
			return fmt.Sprintf("line %d %q: want commit %s, got %s", i, w.text, w.by, g.Commit)
		}
	}
	return ""
}

func diffFor(r *vlib.Run, es []gen.Edit, created, deleted bool, oldNo, newNo bool) (incblame.Diff, string) {
	hs := gen.Hunks(es, oldNo, newNo)
	head := func(i int) string { return []string{"", "", "func x() {", "@@ odd @@ heading", "a@b"}[r.R.Intn(5)] }
	t := "diff --git a/f.go b/f.go\n"
	switch {
	case created:
		t += "new file mode 100644\nindex 0000000..1111111\n--- /dev/null\n+++ b/f.go\n"
	default:
		t += "index 0000000..1111111 100644\n--- a/f.go\n+++ b/f.go\n"
	}
	t += gen.HunkText(hs, head)
	if r.Chance(0.5) {
		return incblame.Parse([]byte(t)), t
	}
	// the same diff handed over directly
	d := incblame.Diff{PathPrev: "f.go", Path: "f.go"}
	if created {
		d.PathPrev = ""
	}
	for _, h := range hs {
		d.Hunks = append(d.Hunks, incblame.Hunk{Locations: []incblame.HunkLocation{{Op: incblame.OpDel, Offset: h.OldOff, Lines: h.OldN}, {Op: incblame.OpAdd, Offset: h.NewOff, Lines: h.NewN}}, Data: []byte(h.Data)})
	}
	return d, t
}

func size(r *vlib.Run) int {
	switch r.R.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 40 + r.R.Intn(80)
	case 3:
		if r.Chance(0.02) {
			return 9000
		}
		return 200
	}
	return r.R.Intn(30)
}

type snap struct {
	b     *incblame.Blame
	text  string
	ptrs  []*incblame.Line
	where string
}

func take(b *incblame.Blame, where string) snap {
	return snap{b, fmt.Sprintf("%v|%v|%q", b.IsBinary, len(b.Lines), b.String()), append([]*incblame.Line(nil), b.Lines...), where}
}
func (s snap) check(r *vlib.Run) {
	if t := fmt.Sprintf("%v|%v|%q", s.b.IsBinary, len(s.b.Lines), s.b.String()); t != s.text {
		r.Fail("changed", "%s was changed\nbefore: %s\nafter:  %s", s.where, s.text, t)
	}
}

// chain: a file through several commits.
func chain(r *vlib.Run) {
	var cur []vl
	b := incblame.Blame{}
	n := 1 + r.R.Intn(4)
	var snaps []*snap
	var blames []*incblame.Blame
	hist := ""
	noNL := false
	for k := 0; k < n; k++ {
		var es []gen.Edit
		created := k == 0
		if created {
			for _, t := range gen.Lines(r.R, size(r)) {
				es = append(es, gen.Edit{Op: '+', Text: t})
			}
		} else {
			var old []string
			for _, l := range cur {
				old = append(old, l.text)
			}
			es = gen.Script(r.R, old)
		}
		c := commit(k)
		var next []vl
		i := 0
		for _, e := range es {
			switch e.Op {
			case ' ':
				next = append(next, cur[i])
				i++
			case '-':
				i++
			case '+':
				next = append(next, vl{e.Text, c})
			}
		}
		nn := r.Chance(0.3)
		// a change of the final newline alone is a change of the last line
		if !created && nn != noNL && len(es) > 0 && es[len(es)-1].Op == ' ' {
			nn = noNL
		}
		d, t := diffFor(r, es, created, false, noNL, nn)
		noNL = nn
		hist += fmt.Sprintf("--- commit %s\n%s\n", c, t)
		r.Input(len(d.Hunks) > 0, "%s", hist)
		dt := fmt.Sprintf("%q", fmt.Sprintf("%+v", d))
		res := incblame.Apply(b, d, c, "f.go")
		if r.Prop == "C04" && fmt.Sprintf("%q", fmt.Sprintf("%+v", d)) != dt {
			r.Fail("diff", "the diff data was changed by Apply\nbefore %s\nafter %q", dt, fmt.Sprintf("%+v", d))
		}
		if r.Prop == "C01" {
			if m := same(next, res, true, false); m != "" {
				r.Fail("lines", "after commit %s: %s", c, m)
			}
			if res.IsBinary {
				r.Fail("binary", "text file became binary")
			}
		}
		if r.Prop == "C02" {
			if m := same(next, res, false, true); m != "" && len(next) == len(res.Lines) {
				r.Fail("attribution", "after commit %s: %s", c, m)
			}
			if res.Commit != c {
				r.Fail("version", "version attributed to %q, not %q", res.Commit, c)
			}
		}
		if r.Prop == "C04" {
			for _, s := range snaps {
				s.check(r)
			}
			bb := res
			blames = append(blames, &bb)
			s := take(&bb, "blame of commit "+c)
			snaps = append(snaps, &s)
			// scribbling over the diff must not show in the blame
			for i := range d.Hunks {
				for j := range d.Hunks[i].Data {
					d.Hunks[i].Data[j] = '#'
				}
			}
			for _, s := range snaps {
				s.check(r)
			}
			if k > 0 && r.Chance(0.3) {
				// branch off an earlier version: the same parent gets two children
				x := r.R.Intn(len(blames))
				b = *blames[x]
				if x < len(blames)-1 {
					return
				}
			}
		}
		b = res
		cur = next
	}
}

// merge: several parents, one merged file.
func merge(r *vlib.Run) {
	np := 2 + r.R.Intn(3)
	if r.Chance(0.1) {
		np = 1
	}
	mc := commit(999)
	// the merged file and, for each parent, the version it was made from by an edit script
	merged := gen.Lines(r.R, size(r))
	var parents []incblame.Blame
	var diffs []incblame.Diff
	from := make([]string, len(merged))
	hist := ""
	for p := 0; p < np; p++ {
		// a script from the merged file to the parent, read backwards
		back := gen.Script(r.R, merged)
		var es []gen.Edit
		var old []vl
		var adds, dels []gen.Edit
		flush := func() { es = append(append(es, dels...), adds...); adds, dels = nil, nil }
		mi := 0
		for _, e := range back {
			switch e.Op {
			case ' ':
				flush()
				by := commit(p*100 + r.R.Intn(20))
				if from[mi] == "" {
					from[mi] = by
				}
				es = append(es, e)
				old = append(old, vl{e.Text, by})
				mi++
			case '-':
				adds = append(adds, gen.Edit{Op: '+', Text: e.Text})
				mi++
			case '+':
				dels = append(dels, gen.Edit{Op: '-', Text: e.Text})
				old = append(old, vl{e.Text, commit(p*100 + r.R.Intn(20))})
			}
		}
		flush()
		d, t := diffFor(r, es, false, false, false, false)
		parents = append(parents, blame(old, commit(p)))
		diffs = append(diffs, d)
		hist += fmt.Sprintf("--- parent %d\n%s--- diff\n%s\n", p, show(old), t)
	}
	var want []vl
	for i, t := range merged {
		by := from[i]
		if by == "" {
			by = mc
		}
		want = append(want, vl{t, by})
	}
	r.Input(true, "%s--- merged by %s\n", hist, mc)
	var snaps []snap
	for i := range parents {
		snaps = append(snaps, take(&parents[i], fmt.Sprintf("parent %d of the merge", i)))
	}
	dt := fmt.Sprintf("%q", fmt.Sprintf("%+v", diffs))
	res := incblame.ApplyMerge(parents, diffs, mc, "f.go")
	if r.Prop == "C03" {
		if m := same(want, res, true, true); m != "" {
			r.Fail("merge", "%s", m)
		}
		if res.Commit != mc {
			r.Fail("version", "version attributed to %q, not %q", res.Commit, mc)
		}
	}
	if r.Prop == "C04" {
		for _, s := range snaps {
			s.check(r)
		}
		if t := fmt.Sprintf("%q", fmt.Sprintf("%+v", diffs)); t != dt {
			r.Fail("diff", "the diffs were changed by ApplyMerge")
		}
		// a second merge of the same parents must not disturb the first result
		s := take(&res, "result of the first merge")
		var d2 []incblame.Diff
		for range parents {
			d2 = append(d2, incblame.Diff{PathPrev: "f.go", Path: "f.go"})
		}
		if np == 1 || len(parents[0].Lines) == len(parents[np-1].Lines) && np == 2 {
			incblame.ApplyMerge(parents, d2, commit(1000), "f.go")
		}
		incblame.Apply(res, incblame.Diff{Path: "f.go", PathPrev: "f.go"}, commit(1001), "f.go")
		s.check(r)
		for _, s := range snaps {
			s.check(r)
		}
	}
}

func main() {
	vlib.Main("random file histories (sizes 0..9000, contents that look like patch syntax, CR, missing final newline) and the unified diffs of their edit scripts; non-trivial: at least one hunk", func(r *vlib.Run) {
		switch r.Prop {
		case "C01", "C02":
			chain(r)
		case "C03":
			merge(r)
		case "C04":
			if r.Chance(0.5) {
				chain(r)
			} else {
				merge(r)
			}
		case "C06":
			decode(r)
		}
	})
}
