package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func splitOwn(s string) (string, string) {
	if i := strings.Index(s, " if "); i >= 0 {
		return strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+4:])
	}
	return s, ""
}

var binderRE = regexp.MustCompile(`\|\s*([A-Za-z_]\w*\s*:[^|]*)\|`)
var letRE = regexp.MustCompile(`\blet\s+([A-Za-z_]\w*)`)
var binderNameRE = regexp.MustCompile(`(?:^|,)\s*([A-Za-z_]\w*)\s*:`)

func boundNames(t string) map[string]bool {
	b := map[string]bool{}
	for _, m := range binderRE.FindAllStringSubmatch(t, -1) {
		for _, n := range binderNameRE.FindAllStringSubmatch(m[1], -1) {
			b[n[1]] = true
		}
	}
	for _, m := range letRE.FindAllStringSubmatch(t, -1) {
		b[m[1]] = true
	}
	return b
}

func isIdentStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isIdent(c byte) bool { return isIdentStart(c) || c >= '0' && c <= '9' }

func (x *Exec) subst(st *State, text string, _ *State) string {
	return x.substCon(st, text, nil, x.con)
}

// substCon replaces the Go names in a contract expression by the terms they stand for in st.
func (x *Exec) substCon(st *State, text string, _ *State, con *Contract) string {
	for round := 0; round < 4; round++ {
		changed := false
		for _, l := range con.Lets {
			re := regexp.MustCompile(`\b` + regexp.QuoteMeta(l.Name) + `\b`)
			if re.MatchString(text) {
				text = re.ReplaceAllString(text, "("+strings.ReplaceAll(l.Type, "$", "$$")+")")
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return x.subst1(st, text, con, boundNames(text))
}

func (x *Exec) subst1(st *State, text string, con *Contract, bound map[string]bool) string {
	var b strings.Builder
	i := 0
	prevDot := func() bool {
		s := strings.TrimRight(b.String(), " \n\t")
		return strings.HasSuffix(s, ".") && !strings.HasSuffix(s, "..") || strings.HasSuffix(s, "::")
	}
	for i < len(text) {
		c := text[i]
		switch {
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(text) && text[j] != '"' {
				if text[j] == '\\' && j+1 < len(text) {
					j++
					switch text[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					default:
						sb.WriteByte(text[j])
					}
				} else {
					sb.WriteByte(text[j])
				}
				j++
			}
			b.WriteString(x.eng.lit(sb.String()))
			i = j + 1
		case c == '\'' && i+2 < len(text) && text[i+2] == '\'':
			fmt.Fprintf(&b, "%dint", text[i+1])
			i += 3
		case c == '$':
			j := i + 1
			for j < len(text) && isIdent(text[j]) {
				j++
			}
			nm := text[i:j]
			v, ok := st.extra[nm]
			if !ok {
				panic(unsupported("contract of " + con.Key + ": " + nm + " has no meaning here"))
			}
			b.WriteString(paren(v))
			i = j
		case isIdentStart(c):
			j := i
			for j < len(text) && isIdent(text[j]) {
				j++
			}
			name := text[i:j]
			k := j
			for k < len(text) && (text[k] == ' ') {
				k++
			}
			nextParen := k < len(text) && text[k] == '('
			if (name == "old" || name == "pre" || name == "head") && nextParen && !prevDot() {
				d := 0
				e := k
				for ; e < len(text); e++ {
					if text[e] == '(' {
						d++
					} else if text[e] == ')' {
						d--
						if d == 0 {
							break
						}
					}
				}
				inner := text[k+1 : e]
				os := st.oldN
				if name == "pre" {
					os = st.preN
				} else if name == "head" {
					os = st.headN
				}
				if os == nil {
					panic(unsupported("contract of " + con.Key + ": no " + name + " state"))
				}
				b.WriteString("(" + x.subst1(os, inner, con, bound) + ")")
				i = e + 1
				continue
			}
			if bound[name] || prevDot() || nextParen || strings.HasPrefix(text[j:], "::") || strings.HasPrefix(text[j:], "!") && !strings.HasPrefix(text[j:], "!=") {
				b.WriteString(name)
				i = j
				continue
			}
			// struct literal or type position: leave capitalised names that are not variables
			t, used, ok := x.resolve(st, name, text[j:], con)
			if !ok {
				b.WriteString(name)
				i = j
				continue
			}
			b.WriteString(t)
			i = j + used
		default:
			b.WriteByte(c)
			i++
		}
	}
	return b.String()
}

func (x *Exec) lookup(st *State, name string, con *Contract) (types.Object, bool) {
	if o, ok := st.names[name]; ok && st.vars[o] != nil {
		return o, true
	}
	if o, ok := x.localMap[name]; ok && st.vars[o] != nil {
		return o, true
	}
	return nil, false
}

// resolve finds the value of name followed by as many field selections as it can take apart.
func (x *Exec) resolve(st *State, name, rest string, con *Contract) (string, int, bool) {
	obj, ok := x.lookup(st, name, con)
	if !ok {
		if p := x.eng.ld.pkgs[con.Pkg]; p != nil {
			switch o := p.Types.Scope().Lookup(name).(type) {
			case *types.Const:
				switch o.Val().Kind() {
				case constant.String:
					return x.eng.lit(constant.StringVal(o.Val())), 0, true
				case constant.Int:
					return o.Val().ExactString() + "int", 0, true
				}
			case *types.Var:
				return x.globalVar(st, o).term, 0, true
			}
		}
		if i := strings.Index(name, "_"); i > 0 {
			// package_variable
			for _, p := range x.eng.ld.pkgs {
				if p.Types != nil && filepath.Base(p.Path) == name[:i] {
					if o, ok := p.Types.Scope().Lookup(name[i+1:]).(*types.Var); ok {
						return x.globalVar(st, o).term, 0, true
					}
				}
			}
		}
		if o, ok := x.renamed(st, name, con); ok {
			obj = o
		} else {
			return "", 0, false
		}
	}
	n := st.vars[obj]
	used := 0
	autoDeref := func(next string) {
		for {
			if n.kind == kAlias {
				a := x.get(st, n.al)
				if isPtrType(a.t) && a.kind == kVal && !handle(a.vt) {
					a = x.child(st, a, Step{k: sDeref, t: a.t.Underlying().(*types.Pointer).Elem()})
				}
				n = a
				continue
			}
			if n.kind == kPtr {
				n = n.p
				continue
			}
			if n.kind == kVal && isPtrType(n.t) && !handle(n.vt) && next != "" && next != "v" && next != "id" {
				n = x.child(st, n, Step{k: sDeref, t: n.t.Underlying().(*types.Pointer).Elem()})
				continue
			}
			return
		}
	}
	autoDeref("")
	for {
		r := rest[used:]
		if len(r) < 2 || r[0] != '.' || !isIdentStart(r[1]) {
			break
		}
		j := 1
		for j < len(r) && isIdent(r[j]) {
			j++
		}
		fn := r[1:j]
		if j < len(r) && r[j] == '(' || strings.HasPrefix(r[j:], "::") {
			break
		}
		autoDeref(fn)
		stt := structOf(n.t)
		if stt == nil || n.vt == "int" {
			break
		}
		var ft types.Type
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == fn {
				ft = stt.Field(i).Type()
			}
		}
		if ft == nil && fn == "v" && n.kind == kVal && (n.f != nil || n.vt != "" && !isPtrType(n.t)) {
			used += j // what a pointer points to
			continue
		}
		if ft == nil {
			break
		}
		n = x.child(st, n, Step{k: sField, name: fn, t: ft})
		used += j
		if n.kind != kVal {
			autoDeref("")
		}
	}
	return paren(x.term(st, n)), used, true
}

// renamed guesses which local a contract name stands for when the source was renamed: see localsOf.
func (x *Exec) renamed(st *State, name string, con *Contract) (types.Object, bool) {
	want := ""
	for _, l := range con.Locals {
		if l.Name == name {
			want = l.Type
		}
	}
	if want == "" {
		return nil, false
	}
	// nth unresolved contract local of this type <-> nth unlisted local of this type, in order of declaration
	idx, n := -1, 0
	listed := map[string]bool{}
	for _, l := range con.Locals {
		listed[l.Name] = true
		if l.Type != want {
			continue
		}
		if _, ok := st.names[l.Name]; ok {
			continue
		}
		if l.Name == name {
			idx = n
		}
		n++
	}
	var cands []types.Object
	for nm, o := range st.names {
		v, ok := o.(*types.Var)
		if !ok || listed[nm] || st.vars[o] == nil || x.isParam(o) {
			continue
		}
		if st.vars[o].cl != nil {
			continue
		}
		q := func(p *types.Package) string { return p.Name() }
		if types.TypeString(v.Type(), q) == want || x.types.V(v.Type()) == want {
			cands = append(cands, o)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Pos() < cands[j].Pos() })
	if idx >= 0 && idx < len(cands) {
		return cands[idx], true
	}
	return nil, false
}

func (x *Exec) isParam(o types.Object) bool {
	if x.entry == nil {
		return false
	}
	_, ok := x.entry.vars[o]
	return ok
}

// hintAt adds the hints of the contract attached to a point.
func (x *Exec) hintAt(st *State, where string, at ast.Node) {
	for _, h := range x.con.Hints {
		if h.Where != where || !hasProp(h.Props, x.eng.prop) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			for _, s := range splitStmts(h.Text) {
				if strings.HasPrefix(s, "set ") {
					p := strings.SplitN(s[4:], "=", 2)
					nm := strings.TrimSpace(p[0])
					v := x.subst(st, strings.TrimSpace(p[1]), st)
					if o, ok := x.localMap[nm]; ok && st.vars[o] != nil {
						n := *st.vars[o]
						n.term = x.nameAlways(st, n.vt, v, nm)
						st.vars[o] = &n
						continue
					}
					st.extra["$"+nm] = v
					continue
				}
				st.add('h', x.subst(st, s, st)+";")
			}
		}()
	}
}

func splitStmts(t string) []string {
	var r []string
	d, last := 0, 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(', '{', '[':
			d++
		case ')', '}', ']':
			d--
		case ';':
			if d == 0 {
				if s := strings.TrimSpace(t[last:i]); s != "" {
					r = append(r, s)
				}
				last = i + 1
			}
		}
	}
	if s := strings.TrimSpace(t[last:]); s != "" {
		r = append(r, s)
	}
	return r
}

func (x *Exec) after(st *State, where string, f func(*State)) {
	st = st.clone()
	x.hintAt(st, "after "+where, nil)
	f(st)
}

func (x *Exec) coverPoint(st *State, name string, at ast.Node) {
	if x.dry > 0 {
		return
	}
	x.eng.covers = append(x.eng.covers, &Obl{Func: x.fnName, Kind: "cover", Name: name, Pos: x.posOf(at), Goal: "false", Items: st.list()})
}

// ---- ownership clauses

func (x *Exec) ownPath(st *State, p string) (*Path, bool) {
	parts := strings.Split(p, ".")
	obj, ok := st.names[parts[0]]
	if !ok {
		return nil, false
	}
	path := &Path{root: obj}
	n := st.vars[obj]
	for n.kind == kAlias {
		path = n.al
		n = x.get(st, n.al)
	}
	for _, f := range parts[1:] {
		if isPtrType(n.t) {
			s := Step{k: sDeref, t: n.t.Underlying().(*types.Pointer).Elem()}
			path = path.with(s)
			n = x.child(st, n, s)
		}
		stt := structOf(n.t)
		if stt == nil {
			return nil, false
		}
		var ft types.Type
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				ft = stt.Field(i).Type()
			}
		}
		if ft == nil {
			return nil, false
		}
		s := Step{k: sField, name: f, t: ft}
		path = path.with(s)
		n = x.child(st, n, s)
	}
	return path, true
}

func (x *Exec) ownAt(st *State, p string) string {
	path, ok := x.ownPath(st, p)
	if !ok {
		return ""
	}
	n := x.get(st, path)
	if n.kind == kPtr && !n.frozen && n.own == "" && x.allOwn(n.p) {
		return "true" // made here and not handed on
	}
	return n.own
}

func (x *Exec) setOwn(st *State, p, own string) {
	path, ok := x.ownPath(st, p)
	if !ok {
		return
	}
	n := *x.get(st, path)
	n.own = own
	x.setNode(st, path, &n)
}

// setNode replaces a node in the tree without any check.
func (x *Exec) setNode(st *State, p *Path, val *Node) {
	var rec func(n *Node, steps []Step) *Node
	rec = func(n *Node, steps []Step) *Node {
		if len(steps) == 0 {
			return val
		}
		s := steps[0]
		switch s.k {
		case sField:
			e := x.explode(n)
			c := *e
			c.f = map[string]*Node{}
			for k, v := range e.f {
				c.f[k] = v
			}
			c.f[s.name] = rec(e.f[s.name], steps[1:])
			return &c
		case sDeref:
			if n.kind == kPtr {
				c := *n
				c.p = rec(n.p, steps[1:])
				return &c
			}
		}
		return n
	}
	st.vars[p.root] = rec(st.vars[p.root], p.steps)
}

func (x *Exec) setOwnPost(st, cs *State, p, own string) {
	path, ok := x.ownPath(cs, p)
	if !ok {
		return
	}
	if st.vars[path.root] == nil {
		return
	}
	for _, s := range path.steps {
		if s.k == sIndex || s.k == sKey {
			return
		}
	}
	n := *x.get(st, path)
	n.own = own
	x.setNode(st, path, &n)
}
