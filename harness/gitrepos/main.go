// Discovery of repositories in random directory trees.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

type node struct {
	name string
	file bool
	link string
	subs []*node
}

func tree(r *vlib.Run, name string, depth int) *node {
	n := &node{name: name}
	names := []string{"a", "b", "c", "repo", "x.git", "y.git", ".git", "objects", "git", "z.git.git", " sp", "é", ".hidden", "refs", "Z", "a.b"}
	r.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	k := r.R.Intn(4)
	if depth == 0 {
		k = 0
	}
	for _, s := range names[:k] {
		if r.Chance(0.2) {
			n.subs = append(n.subs, &node{name: s, file: true})
		} else {
			n.subs = append(n.subs, tree(r, s, depth-1))
		}
	}
	if depth > 0 && strings.HasSuffix(name, ".git") && r.Chance(0.6) && n.get("objects") == nil {
		n.subs = append(n.subs, &node{name: "objects"})
	}
	if r.Chance(0.1) && n.get("link") == nil {
		n.subs = append(n.subs, &node{name: "link", link: "/tmp"})
	}
	return n
}

func (n *node) get(s string) *node {
	for _, c := range n.subs {
		if c.name == s {
			return c
		}
	}
	return nil
}

func (n *node) dir(s string) bool { c := n.get(s); return c != nil && !c.file && c.link == "" }

func (n *node) make(r *vlib.Run, p string) {
	var err error
	if n.file {
		err = os.WriteFile(p, []byte("x"), 0644)
	} else if n.link != "" {
		err = os.Symlink(filepath.Dir(p), p) // to the directory it is in
	} else {
		err = os.Mkdir(p, 0755)
		for _, c := range n.subs {
			c.make(r, filepath.Join(p, c.name))
		}
	}
	if err != nil {
		panic(err)
	}
}

func (n *node) show(b *strings.Builder, ind string) {
	k := "/"
	if n.file {
		k = ""
	} else if n.link != "" {
		k = " -> ."
	}
	fmt.Fprintf(b, "%s%s%s\n", ind, n.name, k)
	for _, c := range n.subs {
		c.show(b, ind+"  ")
	}
}

// repos in range, below and including n
func (n *node) repos(p string, abs string, depth int) []string {
	if n.dir(".git") {
		return []string{p}
	}
	var res []string
	if strings.HasSuffix(filepath.Base(abs), ".git") && n.dir("objects") {
		res = append(res, p)
	}
	if depth == 0 {
		return res
	}
	for _, c := range n.subs {
		if !c.file && c.link == "" {
			res = append(res, c.repos(filepath.Join(p, c.name), filepath.Join(abs, c.name), depth-1)...)
		}
	}
	return res
}

func main() {
	vlib.Main("the action runs once on each repository in range, not below a repository with a working tree, and not after its first error", func(r *vlib.Run) {
		top := r.Dir("t")
		root := tree(r, r.Pick([]string{"d", "d.git", "d", "d", ".git"}), 4)
		dir := filepath.Join(top, root.name)
		os.RemoveAll(dir)
		root.make(r, dir)
		depth := []int{0, 1, 1, 2, 2, 3, 5, -1}[r.R.Intn(8)]
		fail := -1
		if r.Chance(0.3) {
			fail = r.R.Intn(4)
		}
		arg := dir
		how := r.R.Intn(4)
		switch how {
		case 1:
			arg = dir + "/"
		case 2:
			arg = "."
		case 3:
			arg = filepath.Join(top, ".", "..", filepath.Base(top), root.name) + "/."
		}
		var b strings.Builder
		root.show(&b, "")
		want := root.repos(filepath.Clean(arg), dir, depth)
		r.Input(len(want) > 0, "depth %d, given as %q, action %d fails\n%s", depth, arg, fail, b.String())
		if how == 2 {
			wd, _ := os.Getwd()
			os.Chdir(dir)
			defer os.Chdir(wd)
		}
		var got []string
		bad := errors.New("stop here")
		err := gitrepos.IterDir(arg, depth, func(p string) error {
			got = append(got, filepath.Clean(p))
			if len(got)-1 == fail {
				return bad
			}
			return nil
		})
		if fail >= 0 && fail < len(want) {
			if err != bad {
				r.Fail("error", "returned %v", err)
			}
			if len(got) != fail+1 {
				r.Fail("stop", "ran on %q, the first error came at number %d", got, fail)
			}
			in := map[string]bool{}
			for _, w := range want {
				in[w] = true
			}
			for _, g := range got {
				if !in[g] {
					r.Fail("other", "ran on %q", g)
				}
				delete(in, g)
			}
			return
		}
		if err != nil {
			r.Fail("error", "returned %v", err)
		}
		sort.Strings(got)
		sort.Strings(want)
		r.Same("repos", "repositories", fmt.Sprintf("%q", want), fmt.Sprintf("%q", got))
		// files and missing directories are refused
		f := filepath.Join(top, "plain")
		os.WriteFile(f, nil, 0644)
		for _, p := range []string{f, filepath.Join(top, "missing")} {
			if gitrepos.IterDir(p, depth, func(string) error { r.Fail("other", "ran on %q", p); return nil }) == nil {
				r.Fail("error", "no error for %q", p)
			}
		}
	})
}
