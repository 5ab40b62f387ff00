// Package gen makes file versions and unified diffs between them, by edit scripts of its own (no code of the project is used).
package gen

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
)

// Line of a version: text without its newline, and who wrote it (filled by users).
type Edit struct {
	Op   byte // ' ', '-', '+'
	Text string
}

var texts = []string{"", "a", "b", "c", "x", "}", "{", "\t", " ", "  indented", "-dash", "--dash", "--- a/x", "+plus", "+++ b/y", "@@ -1,2 +3,4 @@", "@@", "@", "\\ No newline at end of file", "\\ back", "diff --git a/x b/y", "!file", "!Hash: 123", "h\xc3\xa9", "\xff\xfe", "tab\tin", "trail ", "Binary files a and b differ", "deleted file mode 100644", "new file mode 100644", "rename from q", "0", "end"}

func Text(r *rand.Rand) string {
	switch k := r.Intn(20); {
	case k < 9:
		return texts[r.Intn(len(texts))]
	case k < 10:
		return strings.Repeat("long", 1+r.Intn(200))
	case k < 11:
		return texts[r.Intn(len(texts))] + "\r"
	default:
		return fmt.Sprintf("l%d", r.Intn(1000))
	}
}

func Lines(r *rand.Rand, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, Text(r))
	}
	return l
}

// Script makes a random edit script for old.
func Script(r *rand.Rand, old []string) []Edit {
	var es []Edit
	pe := []float64{0, 0.02, 0.1, 0.3, 0.7}[r.Intn(5)]
	ins := func() {
		for r.Float64() < pe {
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				es = append(es, Edit{'+', Text(r)})
			}
		}
	}
	if r.Intn(25) == 0 { // all removed
		for _, l := range old {
			es = append(es, Edit{'-', l})
		}
		return es
	}
	for _, l := range old {
		if r.Float64() < 0.3 {
			ins()
		}
		if r.Float64() < pe {
			es = append(es, Edit{'-', l})
			if r.Intn(2) == 0 {
				es = append(es, Edit{'+', Text(r)})
			}
		} else {
			es = append(es, Edit{' ', l})
		}
	}
	ins()
	return normal(es)
}

// normal puts the removals of a run of changes before its additions, as diffs do.
func normal(es []Edit) []Edit {
	var out, add []Edit
	for _, e := range es {
		switch e.Op {
		case ' ':
			out = append(append(out, add...), e)
			add = nil
		case '-':
			out = append(out, e)
		case '+':
			add = append(add, e)
		}
	}
	return append(out, add...)
}

func NewOf(es []Edit) (l []string) {
	for _, e := range es {
		if e.Op != '-' {
			l = append(l, e.Text)
		}
	}
	return
}

type Hunk struct {
	OldOff, OldN, NewOff, NewN int
	Data                       string
}

// Hunks renders the script as hunks with three lines of context; oldNoNL/newNoNL: the version does not end in a newline.
func Hunks(es []Edit, oldNoNL, newNoNL bool) (hs []Hunk) {
	const ctx = 3
	n := len(es)
	// positions before each edit
	op, np := make([]int, n+1), make([]int, n+1)
	for i, e := range es {
		op[i+1], np[i+1] = op[i], np[i]
		if e.Op != '+' {
			op[i+1]++
		}
		if e.Op != '-' {
			np[i+1]++
		}
	}
	i := 0
	for i < n {
		if es[i].Op == ' ' {
			i++
			continue
		}
		lo := i
		for lo > 0 && es[lo-1].Op == ' ' && i-lo < ctx {
			lo--
		}
		hi := i
		run := 0
		for j := i; j < n; j++ {
			if es[j].Op == ' ' {
				run++
				if run > 2*ctx {
					break
				}
			} else {
				run = 0
				hi = j + 1
			}
		}
		e := hi
		for e < n && e-hi < ctx && es[e].Op == ' ' {
			e++
		}
		h := Hunk{OldOff: op[lo] + 1, NewOff: np[lo] + 1, OldN: op[e] - op[lo], NewN: np[e] - np[lo]}
		if h.OldN == 0 {
			h.OldOff--
		}
		if h.NewN == 0 {
			h.NewOff--
		}
		var b bytes.Buffer
		for k := lo; k < e; k++ {
			b.WriteByte(es[k].Op)
			b.WriteString(es[k].Text)
			b.WriteByte('\n')
			lastOld := es[k].Op != '+' && op[k+1] == op[n]
			lastNew := es[k].Op != '-' && np[k+1] == np[n]
			if es[k].Op == ' ' && lastOld && lastNew && oldNoNL && newNoNL || es[k].Op == '-' && lastOld && oldNoNL || es[k].Op == '+' && lastNew && newNoNL {
				b.WriteString("\\ No newline at end of file\n")
			}
		}
		h.Data = b.String()
		hs = append(hs, h)
		i = e
	}
	return
}

func rng(off, n int) string {
	if n == 1 {
		return fmt.Sprint(off)
	}
	return fmt.Sprintf("%d,%d", off, n)
}

// Text of the hunks, with headers as git writes them; heads gives the section headings.
func HunkText(hs []Hunk, heading func(i int) string) string {
	var b strings.Builder
	for i, h := range hs {
		fmt.Fprintf(&b, "@@ -%s +%s @@", rng(h.OldOff, h.OldN), rng(h.NewOff, h.NewN))
		if heading != nil {
			if s := heading(i); s != "" {
				b.WriteString(" " + s)
			}
		}
		b.WriteString("\n" + h.Data)
	}
	return b.String()
}

func TrimCR(s string) string { return strings.TrimRight(s, "\r") }
