package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

// Clause is one labelled line of a contract.
type Clause struct {
	Props []string // properties it counts for; empty: all
	Text  string
	Line  int
	Name  string
}

type Hint struct {
	Where string // entry, exit, "loop N", "endloop N", "after NAME", "before NAME"
	Text  string
	Props []string
	Line  int
}

type GhostParam struct{ Name, Type string }

// SharedVar is a variable that a lock guards, and what holds of it while nobody has the lock.
type SharedVar struct{ Var, By, Inv string }

type LoopSpec struct {
	Inv    []Clause
	Own    []string
	Alias  []LoopAlias
	Unroll bool
}

type Contract struct {
	File      string
	Line      int
	Pkg       string // import path
	Key       string
	Props     []string
	Ghosts    []GhostParam
	Requires  []Clause
	Ensures   []Clause
	Loops     map[int]*LoopSpec
	Hints     []Hint
	Transient map[string]bool
	Own       map[string]bool
	OwnRet    bool
	LoopAlias bool         // some loop has aliases
	OwnIn     []string     // parts of parameters given to the function for good
	Alias     []GhostParam // maps that are one: the first is a reference to the second
	Locals    []GhostParam
	GhostVars []GhostParam      // ghost state of the body, assigned by "set" hints
	CallGhost map[string]string // "callee.ghost" -> expr
	Trusted   bool
	Merge     bool
	Forks     bool
	Lets      []GhostParam // name, expr (macro)
	NoInline  bool
	Heaps     []string        // struct types with a heap of their own
	Closes    map[string]bool // channel parameters that are closed on return
	Modifies  []string        // heaps a trusted function changes
	Always    []Clause        // hold after every change of ghost state made by a library call
	Midway    string          // what a library call may leave when it is interrupted
	Shared    []SharedVar
	Each      []Clause // what a worker does for one item
	View      []string // the contract counts for these properties alone, in place of the one for the others
	Opaque    bool     // nothing is proved about it: a call changes what its body can change, and returns anything
	Soft      []string // properties for which it replaces an assumption: where it does not fit the code, it is one again
	MayPanic  []string // properties for which a panic is as good as an error; "*": all
}

// LoopAlias: at the head of the loop, when Cond holds, the map at Ref is a reference to the one at Target.
type LoopAlias struct{ Ref, Target, Cond string }

type ContractFile struct {
	Path    string
	Pkg     string
	Theory  []string
	Funcs   []*Contract
	Heaps   []string
	Handles []string // foreign types whose pointers are known by identity only
	Assumes []string // free-text statements of what is assumed
}

var labelRE = regexp.MustCompile(`^\[([A-Za-z0-9_, ]*)\]\s*`)

func hasProp(props []string, p string) bool {
	if len(props) == 0 {
		return true
	}
	for _, x := range props {
		if x == p {
			return true
		}
	}
	return false
}

func parseClause(s string, line int) Clause {
	s = strings.TrimSpace(s)
	c := Clause{Line: line}
	if m := labelRE.FindStringSubmatch(s); m != nil {
		for _, p := range strings.FieldsFunc(m[1], func(r rune) bool { return r == ',' || r == ' ' }) {
			if regexp.MustCompile(`^C\d\d$`).MatchString(p) {
				c.Props = append(c.Props, p)
			} else {
				c.Name = p
			}
		}
		s = s[len(m[0]):]
	}
	c.Text = strings.TrimSpace(s)
	return c
}

func ParseContractFile(path, modPath string) (*ContractFile, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	cf := &ContractFile{Path: path}
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	kws := []string{"package", "extern", "theory", "func", "props", "ghostvar", "ghost", "requires", "ensures", "loop", "invariant", "hint", "locals", "transient", "ownin", "own", "ownret", "callghost", "trusted", "merge", "forks", "let", "assume", "unroll", "alias", "heap", "modifies", "closes", "state", "handle", "always", "midway", "maypanic", "volatile", "view", "opaque", "shared", "each", "soft"}
	for i, ln := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if j := strings.Index(t, " ##"); j >= 0 {
			t = strings.TrimSpace(t[:j])
		}
		kw := ""
		for _, k := range kws {
			if t == k || strings.HasPrefix(t, k+" ") || strings.HasPrefix(t, k+"\t") {
				kw = k
				break
			}
		}
		if kw == "" {
			if len(items) == 0 {
				return nil, fmt.Errorf("%s:%d: unexpected %q", path, i+1, t)
			}
			items[len(items)-1].text += "\n" + t
			continue
		}
		items = append(items, item{kw, strings.TrimSpace(strings.TrimPrefix(t, kw)), i + 1})
	}
	var cur *Contract
	curLoop := 0
	for _, it := range items {
		switch it.kw {
		case "package":
			cf.Pkg = modPath + "/" + it.text
			continue
		case "extern":
			cf.Pkg = it.text
			continue
		case "heap":
			for _, t := range strings.Fields(it.text) {
				if !strings.Contains(t, ".") {
					t = cf.Pkg + "." + t
				}
				cf.Heaps = append(cf.Heaps, t)
				if _, ok := heapVars[t]; !ok {
					heapVars[t] = nil
				}
			}
			continue
		case "state":
			p := strings.SplitN(it.text, ":", 2)
			nm := strings.TrimSpace(p[0])
			stateTypes[nm] = strings.TrimSpace(p[1])
			cf.Heaps = append(cf.Heaps, "state:"+nm)
			continue
		case "volatile":
			for _, t := range strings.Fields(it.text) {
				volatileStates[t] = true
			}
			continue
		case "handle":
			for _, t := range strings.Fields(it.text) {
				cf.Handles = append(cf.Handles, t)
			}
			continue
		case "theory":
			cf.Theory = append(cf.Theory, strings.Fields(it.text)...)
			continue
		case "func":
			cur = &Contract{File: path, Line: it.line, Pkg: cf.Pkg, Key: it.text, Loops: map[int]*LoopSpec{}, Transient: map[string]bool{}, Own: map[string]bool{}, CallGhost: map[string]string{}, Closes: map[string]bool{}}
			cf.Funcs = append(cf.Funcs, cur)
			curLoop = 0
			continue
		case "assume":
			cf.Assumes = append(cf.Assumes, it.text)
			continue
		}
		if cur == nil {
			return nil, fmt.Errorf("%s:%d: %s outside func", path, it.line, it.kw)
		}
		switch it.kw {
		case "props":
			cur.Props = strings.Fields(it.text)
		case "ghost":
			p := strings.SplitN(it.text, ":", 2)
			cur.Ghosts = append(cur.Ghosts, GhostParam{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "ghostvar":
			p := strings.SplitN(it.text, ":", 2)
			cur.GhostVars = append(cur.GhostVars, GhostParam{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "requires":
			cur.Requires = append(cur.Requires, parseClause(it.text, it.line))
		case "ensures":
			cur.Ensures = append(cur.Ensures, parseClause(it.text, it.line))
		case "loop":
			fmt.Sscanf(it.text, "%d", &curLoop)
			if cur.Loops[curLoop] == nil {
				cur.Loops[curLoop] = &LoopSpec{}
			}
		case "invariant":
			cur.Loops[curLoop].Inv = append(cur.Loops[curLoop].Inv, parseClause(it.text, it.line))
		case "unroll":
			cur.Loops[curLoop].Unroll = true
		case "hint":
			p := strings.SplitN(it.text, ":", 2)
			c := parseClause(p[1], it.line)
			cur.Hints = append(cur.Hints, Hint{Where: strings.TrimSpace(p[0]), Text: c.Text, Props: c.Props, Line: it.line})
		case "locals":
			for _, x := range strings.Split(it.text, ",") {
				p := strings.SplitN(x, ":", 2)
				cur.Locals = append(cur.Locals, GhostParam{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
			}
		case "let":
			p := strings.SplitN(it.text, "=", 2)
			cur.Lets = append(cur.Lets, GhostParam{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "transient":
			for _, x := range strings.Fields(it.text) {
				cur.Transient[x] = true
			}
		case "own":
			if curLoop > 0 {
				cur.Loops[curLoop].Own = append(cur.Loops[curLoop].Own, it.text)
			} else {
				cur.Own[it.text] = true
			}
		case "alias":
			p := strings.SplitN(it.text, "=", 2)
			if curLoop > 0 {
				tg := strings.SplitN(p[1], " if ", 2)
				if len(tg) != 2 {
					tg = append(tg, "true")
				}
				cur.Loops[curLoop].Alias = append(cur.Loops[curLoop].Alias, LoopAlias{strings.TrimSpace(p[0]), strings.TrimSpace(tg[0]), strings.TrimSpace(tg[1])})
				cur.LoopAlias = true
				continue
			}
			cur.Alias = append(cur.Alias, GhostParam{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "modifies":
			cur.Modifies = append(cur.Modifies, strings.Fields(it.text)...)
		case "closes":
			for _, x := range strings.Fields(it.text) {
				cur.Closes[x] = true
			}
		case "always":
			cur.Always = append(cur.Always, parseClause(it.text, it.line))
		case "midway":
			cur.Midway = it.text
		case "soft":
			cur.Soft = strings.Fields(it.text)
		case "maypanic":
			cur.MayPanic = strings.Fields(it.text)
			if len(cur.MayPanic) == 0 {
				cur.MayPanic = []string{"*"}
			}
		case "view":
			cur.View = strings.Fields(it.text)
			cur.MayPanic = cur.View
			cur.Props = cur.View
		case "shared": // VAR by LOCK: INVARIANT
			p := strings.SplitN(it.text, ":", 2)
			w := strings.Fields(p[0])
			if len(w) != 3 || w[1] != "by" {
				return nil, fmt.Errorf("%s:%d: shared VAR by LOCK: INVARIANT", path, it.line)
			}
			cur.Shared = append(cur.Shared, SharedVar{w[0], w[2], strings.TrimSpace(p[1])})
		case "each":
			cur.Each = append(cur.Each, parseClause(it.text, it.line))
		case "opaque":
			cur.Opaque = true
		case "ownin":
			cur.OwnIn = append(cur.OwnIn, it.text)
		case "ownret":
			cur.OwnRet = true
		case "callghost":
			p := strings.SplitN(it.text, "=", 2)
			cur.CallGhost[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "trusted":
			cur.Trusted = true
		case "merge":
			cur.Merge = true
		case "forks":
			cur.Forks = true
		}
	}
	for _, c := range cf.Funcs {
		c.Heaps = cf.Heaps
	}
	return cf, nil
}

// mentionsGhost: does the text speak about ghost state of the body, which callers cannot see?
func (c *Contract) mentionsGhost(t string) bool {
	for _, g := range c.GhostVars {
		if regexp.MustCompile(`\b` + g.Name + `\b`).MatchString(t) {
			return true
		}
	}
	return false
}
