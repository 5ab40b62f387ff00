package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/zz_verif/gen"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

var nameParts = []string{"a", "b", "dir/x", "main.go", "a/b", "b/a", "x y", "a b/c d", "with  two", "b/ b/x", "a/a", "ä.txt", "dev/null", "rename from", "-", "--- x", "z.md", " lead", "trail ", "q\"uote", "back\\slash", "tab\there", "new\nline", "q\"u x", "ü\"", "\x01", "\xff.bin"}

func name(r *vlib.Run) string {
	n := r.Pick(nameParts)
	if r.Chance(0.4) {
		n += fmt.Sprintf("%d.go", r.R.Intn(5))
	}
	return n
}

// q writes a name as git does: quoted if it has special characters; ascii: other bytes count as special (core.quotePath).
func q(n string, ascii bool) string {
	special := strings.ContainsAny(n, "\"\\")
	for i := 0; i < len(n); i++ {
		if n[i] < 32 || n[i] == 127 || n[i] >= 128 && (ascii || !utf8.ValidString(n)) {
			special = true
		}
	}
	if !special {
		return n
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(n); i++ {
		switch c := n[i]; {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c >= 7 && c <= 13:
			b.WriteByte('\\')
			b.WriteByte("abtnvfr"[c-7])
		case c < 32 || c >= 127 && (ascii || c == 127 || !utf8.ValidString(n)):
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func decode(r *vlib.Run) {
	var es []gen.Edit
	old := gen.Lines(r.R, size(r))
	kind := []string{"mod", "mod", "new", "del", "ren", "renmod", "mode", "binmod", "binnew", "bindel", "binren", "emptynew", "emptydel"}[r.R.Intn(13)]
	a := name(r)
	b := a
	if strings.Contains(kind, "ren") {
		for b == a {
			b = name(r)
		}
	}
	ascii := r.Chance(0.5)
	q := func(p, n string) string { return q(p+n, ascii) }
	t := fmt.Sprintf("diff --git %s %s\n", q("a/", a), q("b/", b))
	wantPrev, want := a, b
	bin := strings.HasPrefix(kind, "bin")
	text := false
	fa, fb := "a/"+a, "b/"+b
	switch kind {
	case "mod", "renmod":
		es = gen.Script(r.R, old)
		text = true
		if kind == "renmod" {
			t += "similarity index 90%\nrename from " + q("", a) + "\nrename to " + q("", b) + "\n"
		} else if r.Chance(0.2) {
			t += "old mode 100644\nnew mode 100755\n"
		}
		t += "index 1111111..2222222 100644\n"
	case "new", "emptynew", "binnew":
		t += "new file mode 100644\nindex 0000000..2222222\n"
		wantPrev = ""
		fa = "/dev/null"
		if kind == "new" {
			text = true
			for _, l := range old {
				es = append(es, gen.Edit{Op: '+', Text: l})
			}
		}
	case "del", "emptydel", "bindel":
		t += "deleted file mode 100644\nindex 1111111..0000000\n"
		want = ""
		fb = "/dev/null"
		if kind == "del" {
			text = true
			for _, l := range old {
				es = append(es, gen.Edit{Op: '-', Text: l})
			}
		}
	case "ren":
		t += "similarity index 100%\nrename from " + q("", a) + "\nrename to " + q("", b) + "\n"
	case "binren":
		t += "similarity index 80%\nrename from " + q("", a) + "\nrename to " + q("", b) + "\nindex 1111111..2222222 100644\n"
	case "mode":
		t += "old mode 100644\nnew mode 100755\n"
	case "binmod":
		t += "index 1111111..2222222 100644\n"
	}
	hs := gen.Hunks(es, r.Chance(0.2), r.Chance(0.2))
	if bin {
		qa, qb := q("", fa), q("", fb)
		t += "Binary files " + qa + " and " + qb + " differ\n"
	}
	if text && len(hs) > 0 {
		tab := func(s string) string {
			if strings.Contains(s, " ") {
				return q("", s) + "\t"
			}
			return q("", s)
		}
		t += "--- " + tab(fa) + "\n+++ " + tab(fb) + "\n"
	}
	if text {
		t += gen.HunkText(hs, func(i int) string {
			return []string{"", "", "func x() {", "@@ odd @@ heading", "a@b", "-1,2 +3"}[r.R.Intn(6)]
		})
	}
	r.Input(true, "%s", t)
	var d incblame.Diff
	d = incblame.Parse([]byte(t))
	if d.PathPrev != wantPrev || d.Path != want {
		r.Fail("paths", "want %q -> %q, got %q -> %q", wantPrev, want, d.PathPrev, d.Path)
	}
	wp := want
	if wp == "" {
		wp = wantPrev
	}
	if d.PathOrPrev() != wp {
		r.Fail("paths", "PathOrPrev: want %q, got %q", wp, d.PathOrPrev())
	}
	if d.IsBinary != bin {
		r.Fail("binary", "want binary=%v, got %v", bin, d.IsBinary)
	}
	if want == "" || !text {
		if want != "" && len(d.Hunks) != 0 {
			r.Fail("hunks", "want no hunks, got %d", len(d.Hunks))
		}
		return
	}
	if len(d.Hunks) != len(hs) {
		r.Fail("hunks", "want %d hunks, got %d", len(hs), len(d.Hunks))
	}
	strip := func(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }
	for i, h := range hs {
		g := d.Hunks[i]
		if strip(string(g.Data)) != strip(h.Data) {
			r.Fail("hunks", "hunk %d: want %q, got %q", i, h.Data, g.Data)
		}
		if len(g.Locations) != 2 {
			r.Fail("range", "hunk %d: want two ranges, got %v", i, g.Locations)
		}
		for k, w := range [][2]int{{h.OldOff, h.OldN}, {h.NewOff, h.NewN}} {
			l := g.Locations[k]
			if l.Lines == w[1] && w[1] == 1 && l.Offset == 0 {
				continue // the short form "@@ -N +M @@" records the number without a count, see DESIGN.md
			}
			if w[1] == 1 && l.Offset == 0 && l.Lines == w[0] {
				continue
			}
			if l.Offset != w[0] || l.Lines != w[1] {
				r.Fail("range", "hunk %d range %d: want %v, got %+v", i, k, w, l)
			}
		}
		if g.Locations[0].Op != incblame.OpDel || g.Locations[1].Op != incblame.OpAdd {
			r.Fail("range", "hunk %d: operations %v", i, g.Locations)
		}
	}
}
