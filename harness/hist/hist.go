// Package hist makes random git histories whose trees, lines and authors are known, independently of the code under test.
package hist

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

type File struct {
	Mode string // 100644, 100755, 120000
	Data string
}

type Commit struct {
	N             int
	Parents       []int
	Tree          map[string]File
	AName, AEmail string
	CName, CEmail string
	ADate, CDate  int64
	AZone         string
	Msg           string
	Hash          string
}

type Hist struct {
	Commits []*Commit
	Dir     string
	byHash  map[string]*Commit
	line    int
	Unique  bool // every line was written once
}

type Opts struct {
	MaxCommits int
	Merges     bool
	Unique     bool
	Binary     bool
	OddNames   bool
	Links      bool
	Text       func(r *rand.Rand) string
	Line       func(r *rand.Rand, n int) string // a line for every number, all different
	Names      []string
	Long       bool // some files of many lines
	Huge       bool // a file of tens of thousands of lines
}

var plain = []string{"a", "b", "c.go", "d/e", "d/f/g", "main.go", "x y", "READ me.md"}
var odd = []string{"tab\there", "quo\"te", "back\\slash", "ünïcode", "nl\nname", " lead", "a => b", "{x => y}/z", "d/{p}", "\xff\xfe", "end ", "-dash", "\"q\"", "b/a/c", "sp ace/in dir", "a b/x b/y", "q\x01"}

func (h *Hist) By(hash string) *Commit { return h.byHash[hash] }

func isBin(s string) bool {
	if len(s) > 8000 {
		s = s[:8000]
	}
	return strings.Contains(s, "\x00")
}

// Binary tells whether git treats the content as binary.
func Binary(s string) bool { return isBin(s) }

// Lines are the lines of a text file.
func Lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func (h *Hist) newLine(r *rand.Rand, o Opts) string {
	if o.Unique || r.Intn(2) == 0 {
		h.line++
		if o.Line != nil {
			return o.Line(r, h.line)
		}
		return fmt.Sprintf("%s line %d", []string{"", " ", "\t", "-", "+", "@@", "\\ "}[r.Intn(7)], h.line)
	}
	if o.Text != nil {
		return o.Text(r)
	}
	return []string{"", "}", "{", "a", "b", "\t", "end"}[r.Intn(7)]
}

func (h *Hist) text(r *rand.Rand, o Opts, ls []string) string {
	if len(ls) == 0 {
		return ""
	}
	t := strings.Join(ls, "\n")
	if r.Intn(5) > 0 || ls[len(ls)-1] == "" {
		t += "\n"
	}
	return t
}

func (h *Hist) fresh(r *rand.Rand, o Opts) File {
	m := "100644"
	if r.Intn(8) == 0 {
		m = "100755"
	}
	if o.Binary && r.Intn(8) == 0 {
		h.line++
		return File{m, fmt.Sprintf("bin\x00%d\n\x00", h.line)}
	}
	if o.Links && r.Intn(12) == 0 {
		h.line++
		return File{"120000", fmt.Sprintf("target/%d", h.line)}
	}
	n := []int{0, 1, 2, 5, 12, 30}[r.Intn(6)]
	if o.Long && r.Intn(6) == 0 {
		n = 50 + r.Intn(1000)
	}
	if o.Huge && h.line < 33000 {
		n = 33000 + r.Intn(40000)
	}
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, h.newLine(r, o))
	}
	return File{m, h.text(r, o, ls)}
}

func (h *Hist) edit(r *rand.Rand, o Opts, f File) File {
	if f.Mode == "120000" || isBin(f.Data) || r.Intn(15) == 0 {
		g := h.fresh(r, o)
		if r.Intn(3) > 0 && f.Mode != "120000" && g.Mode != "120000" {
			g.Mode = f.Mode
		}
		return g
	}
	var out []string
	pe := []float64{0.05, 0.2, 0.5}[r.Intn(3)]
	ins := func() {
		for r.Float64() < pe {
			out = append(out, h.newLine(r, o))
		}
	}
	for _, l := range Lines(f.Data) {
		ins()
		if r.Float64() >= pe {
			out = append(out, l)
		}
	}
	ins()
	return File{f.Mode, h.text(r, o, out)}
}

func clone(t map[string]File) map[string]File {
	n := map[string]File{}
	for k, v := range t {
		n[k] = v
	}
	return n
}

func Paths(t map[string]File) []string {
	var k []string
	for p := range t {
		k = append(k, p)
	}
	sort.Strings(k)
	return k
}

// mergeText keeps the lines both have, takes either side's own lines, and may add some.
func (h *Hist) mergeText(r *rand.Rand, o Opts, a, b string) string {
	la, lb := Lines(a), Lines(b)
	inA := map[string]bool{}
	for _, l := range la {
		inA[l] = true
	}
	at := map[string][]string{} // lines of b alone, by the line of a before them
	prev := "\x00start"
	for _, l := range lb {
		if inA[l] {
			prev = l
		} else {
			at[prev] = append(at[prev], l)
		}
	}
	var out []string
	side := func(k string) {
		for _, l := range at[k] {
			if r.Intn(8) > 0 {
				out = append(out, l)
			}
		}
		at[k] = nil
		if r.Intn(12) == 0 {
			out = append(out, h.newLine(r, o))
		}
	}
	side("\x00start")
	for _, l := range la {
		if r.Intn(10) > 0 {
			out = append(out, l)
		}
		side(l)
	}
	return h.text(r, o, out)
}

func Random(r *rand.Rand, o Opts) *Hist {
	h := &Hist{byHash: map[string]*Commit{}, Unique: o.Unique}
	names := append([]string{}, plain...)
	if o.Names != nil {
		names = append([]string{}, o.Names...)
	}
	if o.OddNames {
		for i := 0; i < 5; i++ {
			names = append(names, odd[r.Intn(len(odd))])
		}
	}
	n := 1 + r.Intn(o.MaxCommits)
	name := func() string { return names[r.Intn(len(names))] }
	for i := 0; i < n; i++ {
		c := &Commit{N: i, AName: fmt.Sprintf("A%d", r.Intn(3)), AEmail: fmt.Sprintf("a%d@x", r.Intn(3)), CName: "C", CEmail: "c@x", AZone: "+0000", Msg: fmt.Sprintf("m%d\n", i)}
		c.CDate = 1000000000 + int64(i)*100
		if r.Intn(4) == 0 {
			c.CDate += int64(r.Intn(1000)) - 500
		}
		c.ADate = c.CDate - int64(r.Intn(50))
		if i > 0 && r.Intn(25) > 0 {
			p := i - 1
			if r.Intn(3) == 0 {
				p = r.Intn(i)
			}
			c.Parents = []int{p}
			if o.Merges {
				for k := 0; k < 3 && r.Intn(4-k) == 0; k++ {
					q := r.Intn(i)
					dup := false
					for _, x := range c.Parents {
						dup = dup || x == q
					}
					if !dup {
						c.Parents = append(c.Parents, q)
					}
				}
			}
		}
		c.Tree = map[string]File{}
		if len(c.Parents) > 0 {
			c.Tree = clone(h.Commits[c.Parents[0]].Tree)
		}
		if len(c.Parents) > 1 {
			for _, q := range c.Parents[1:] {
				u := clone(c.Tree)
				other := h.Commits[q].Tree
				for p, f := range other {
					u[p] = f
				}
				same := r.Intn(6) == 0 // take one side as a whole
				for _, p := range Paths(u) {
					a, ina := c.Tree[p]
					b, inb := other[p]
					switch {
					case same:
						if r.Intn(2) == 0 {
							continue
						}
						same = true
					case ina && inb && a == b:
					case ina && inb:
						switch k := r.Intn(4); {
						case k == 0:
						case k == 1:
							c.Tree[p] = b
						case a.Mode != "120000" && b.Mode != "120000" && !isBin(a.Data) && !isBin(b.Data):
							c.Tree[p] = File{a.Mode, h.mergeText(r, o, a.Data, b.Data)}
						}
					case inb && r.Intn(6) > 0:
						c.Tree[p] = b
					case ina && r.Intn(8) == 0:
						delete(c.Tree, p)
					}
				}
			}
		}
		edits := r.Intn(4)
		if len(c.Parents) > 1 && r.Intn(3) > 0 {
			edits = 0
		}
		for k := 0; k < edits; k++ {
			ps := Paths(c.Tree)
			if len(ps) == 0 {
				c.Tree[name()] = h.fresh(r, o)
				continue
			}
			p := ps[r.Intn(len(ps))]
			switch x := r.Intn(20); {
			case x < 9:
				c.Tree[p] = h.edit(r, o, c.Tree[p])
			case x < 13:
				if q := name(); c.Tree[q].Mode == "" {
					c.Tree[q] = h.fresh(r, o)
				}
			case x < 15:
				delete(c.Tree, p)
			case x < 18:
				if q := name(); c.Tree[q].Mode == "" {
					f := c.Tree[p]
					delete(c.Tree, p)
					if r.Intn(2) == 0 && f.Mode != "120000" {
						f = h.edit(r, o, f)
					}
					c.Tree[q] = f
				}
			case x < 19:
				f := c.Tree[p]
				switch f.Mode {
				case "100644":
					f.Mode = "100755"
				case "100755":
					f.Mode = "100644"
				}
				c.Tree[p] = f
			default:
				c.Tree[p] = h.fresh(r, o)
			}
		}
		for _, p := range Paths(c.Tree) { // a name is a file or a directory
			for i := range p {
				if p[i] == '/' {
					delete(c.Tree, p[:i])
				}
			}
		}
		h.Commits = append(h.Commits, c)
	}
	return h
}

func quote(p string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c == '"' || c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, "\\%03o", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Stream is the history for git fast-import.
func (h *Hist) Stream() []byte {
	var b bytes.Buffer
	for _, c := range h.Commits {
		fmt.Fprintf(&b, "reset refs/tmp/t\ncommit refs/tmp/t\nmark :%d\nauthor %s <%s> %d %s\ncommitter %s <%s> %d +0000\ndata %d\n%s\n", c.N+1, c.AName, c.AEmail, c.ADate, c.AZone, c.CName, c.CEmail, c.CDate, len(c.Msg), c.Msg)
		for i, p := range c.Parents {
			if i == 0 {
				fmt.Fprintf(&b, "from :%d\n", p+1)
			} else {
				fmt.Fprintf(&b, "merge :%d\n", p+1)
			}
		}
		b.WriteString("deleteall\n")
		for _, p := range Paths(c.Tree) {
			f := c.Tree[p]
			fmt.Fprintf(&b, "M %s inline %s\ndata %d\n%s\n", f.Mode, quote(p), len(f.Data), f.Data)
		}
	}
	return b.Bytes()
}

// Import makes the repository in dir, with HEAD on branch main at the last commit.
func (h *Hist) Import(dir string) {
	h.Dir = dir
	vlib.MustGit(dir, nil, "init", "-q", ".")
	vlib.MustGit(dir, h.Stream(), "fast-import", "--quiet", "--export-marks=.git/marks")
	m, err := os.ReadFile(filepath.Join(dir, ".git/marks"))
	if err != nil {
		panic("set-up: " + err.Error())
	}
	for _, l := range strings.Split(strings.TrimSpace(string(m)), "\n") {
		var n int
		var hash string
		if _, err := fmt.Sscanf(l, ":%d %s", &n, &hash); err != nil {
			panic("set-up: " + err.Error())
		}
		h.Commits[n-1].Hash = hash
		h.byHash[hash] = h.Commits[n-1]
	}
	vlib.MustGit(dir, nil, "symbolic-ref", "HEAD", "refs/heads/main")
	h.Head(len(h.Commits) - 1)
	vlib.MustGit(dir, nil, "update-ref", "-d", "refs/tmp/t")
}

// Head points main at commit n.
func (h *Hist) Head(n int) { h.Ref("refs/heads/main", n) }

func (h *Hist) Ref(ref string, n int) {
	vlib.MustGit(h.Dir, nil, "update-ref", ref, h.Commits[n].Hash)
}

// Reach are the commits reachable from n, itself included.
func (h *Hist) Reach(n int) map[int]bool {
	m := map[int]bool{}
	var rec func(int)
	rec = func(i int) {
		if !m[i] {
			m[i] = true
			for _, p := range h.Commits[i].Parents {
				rec(p)
			}
		}
	}
	rec(n)
	return m
}

func (h *Hist) String() string {
	var b strings.Builder
	for _, c := range h.Commits {
		fmt.Fprintf(&b, "commit %d %s parents %v\n", c.N, c.Hash, c.Parents)
		for _, p := range Paths(c.Tree) {
			f := c.Tree[p]
			same := false
			for _, q := range c.Parents {
				same = same || h.Commits[q].Tree[p] == f
			}
			if same {
				fmt.Fprintf(&b, "  %q same\n", p)
			} else {
				fmt.Fprintf(&b, "  %q %s %q\n", p, f.Mode, f.Data)
			}
		}
	}
	return b.String()
}
