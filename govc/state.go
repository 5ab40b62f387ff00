package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

type Kind int

const (
	kVal   Kind = iota
	kPtr        // pointer to a structure held here
	kAlias      // reference (map, pointer, slice) that stands for the location al
)

// Node is the symbolic value of a variable, as a tree when a struct has been taken apart. Immutable.
type Node struct {
	t       types.Type
	vt      string
	kind    Kind
	term    string
	f       map[string]*Node
	own     string // term under which in-place writes are known to be private; "" = never
	trans   bool   // memory that its provider will overwrite (Scanner.Bytes)
	frozen  bool   // address has been handed out; no more writes
	nilmap  bool
	cl      *Closure
	id      string
	p       *Node
	al      *Path
	deep    bool  // the memory behind the elements belongs to this slice or map alone
	foreign bool  // channel that came with a received record
	dead    bool  // reference whose target was replaced
	parts   []Val // arguments packed for a variadic parameter
	cap1    bool  // capacity known to exceed length by at least one (scanner tokens)
}

type StepKind int

const (
	sField StepKind = iota
	sDeref
	sIndex
	sKey
)

type Step struct {
	k    StepKind
	name string
	key  string
	t    types.Type // type after the step
}

type Path struct {
	root  types.Object
	steps []Step
}

func (p *Path) with(s ...Step) *Path {
	n := &Path{root: p.root}
	n.steps = append(append([]Step{}, p.steps...), s...)
	return n
}

func (p *Path) str() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p", p.root)
	for _, s := range p.steps {
		fmt.Fprintf(&b, "/%d:%s%s", s.k, s.name, s.key)
	}
	return b.String()
}

type Closure struct {
	lit     *ast.FuncLit
	pkg     *Pkg
	name    string
	rec     *RecClosure
	declFn  *types.Func // method value or function
	recv    *Val
	comment string
}

type RecClosure struct {
	con  *Contract
	mods []modLeaf
	key  string
}

type Val struct {
	n    *Node
	path *Path // location it was read from, if any
	from *Path // for append/reslice results: the slice it extends
}

type Item struct {
	prev *Item
	kind byte // 'f' fact, 'c' branch condition, 'h' hint statement
	text string
	n    int
}

type State struct {
	vars   map[types.Object]*Node
	names  map[string]types.Object
	extra  map[string]string
	items  *Item
	oldN   *State // function entry
	preN   *State // enclosing loop entry
	headN  *State // start of the current iteration of the enclosing loop
	trace  []string
	frames []*Frame
	conc   *concSt
}

func (s *State) clone() *State {
	n := *s
	n.vars = make(map[types.Object]*Node, len(s.vars)+4)
	for k, v := range s.vars {
		n.vars[k] = v
	}
	n.names = make(map[string]types.Object, len(s.names)+4)
	for k, v := range s.names {
		n.names[k] = v
	}
	n.extra = make(map[string]string, len(s.extra)+2)
	for k, v := range s.extra {
		n.extra[k] = v
	}
	n.trace = append([]string{}, s.trace...)
	return &n
}

func (s *State) add(kind byte, text string) {
	if text == "true" || text == "" {
		return
	}
	n := 0
	if s.items != nil {
		n = s.items.n + 1
	}
	s.items = &Item{prev: s.items, kind: kind, text: text, n: n}
}

func (s *State) fact(t string) { s.add('f', t) }
func (s *State) cond(t string) { s.add('c', t) }

func (s *State) list() []*Item {
	var r []*Item
	for i := s.items; i != nil; i = i.prev {
		r = append(r, i)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

var simpleRE = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.]*$`)
var atomRE = regexp.MustCompile(`^[A-Za-z0-9_.]+(\([A-Za-z0-9_., ]*\))?$`)

func paren(t string) string {
	if atomRE.MatchString(t) {
		return t
	}
	if balancedParen(t) {
		return t
	}
	return "(" + t + ")"
}

func balancedParen(t string) bool {
	if len(t) < 2 || t[0] != '(' || t[len(t)-1] != ')' {
		return false
	}
	d := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '(' {
			d++
		} else if t[i] == ')' {
			d--
			if d == 0 && i != len(t)-1 {
				return false
			}
		}
	}
	return d == 0
}

func structOf(t types.Type) *types.Struct {
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// leaf makes a value node for a term.
func (x *Exec) leaf(t types.Type, term string) *Node {
	return &Node{t: t, vt: x.types.V(t), term: term}
}

func (x *Exec) term(st *State, n *Node) string {
	switch n.kind {
	case kAlias:
		return x.term(st, x.get(st, n.al))
	case kPtr:
		if x.types.isScanner(n.t) {
			return x.term(st, n.p)
		}
		return fmt.Sprintf("(Ptr { id: %s, v: %s })", n.id, x.term(st, n.p))
	}
	if n.f != nil {
		stt := structOf(n.t)
		var b strings.Builder
		b.WriteString("(" + n.vt + " {")
		for i := 0; i < stt.NumFields(); i++ {
			nm := stt.Field(i).Name()
			fmt.Fprintf(&b, " %s: %s,", fieldName(nm), x.term(st, n.f[nm]))
		}
		b.WriteString(" })")
		return b.String()
	}
	return n.term
}

func (x *Exec) explode(n *Node) *Node {
	if n.f != nil {
		return n
	}
	stt := structOf(n.t)
	if stt == nil {
		panic(unsupported("field of non-struct " + n.t.String()))
	}
	m := *n
	m.f = map[string]*Node{}
	for i := 0; i < stt.NumFields(); i++ {
		m.f[stt.Field(i).Name()] = x.child(nil, n, Step{k: sField, name: stt.Field(i).Name(), t: stt.Field(i).Type()})
	}
	m.term = ""
	return &m
}

func (x *Exec) child(st *State, n *Node, s Step) *Node {
	if n.kind == kAlias {
		n = x.get(st, n.al)
	}
	switch s.k {
	case sField:
		if n.f != nil {
			c := n.f[s.name]
			if c == nil {
				panic(unsupported("no field " + s.name + " in " + n.vt))
			}
			return c
		}
		tm := ""
		if strings.HasPrefix(n.term, "default_") {
			tm = x.types.Default(s.t)
		} else {
			tm = paren(n.term) + "." + fieldName(s.name)
		}
		c := x.leaf(s.t, tm)
		c.own = n.own
		c.trans = n.trans && isSliceType(s.t)
		if n.own == "" {
			// maps and pointers held in a structure: see ownership notes in DESIGN.md
		}
		return c
	case sDeref:
		if n.kind == kPtr {
			return n.p
		}
		if handle(n.vt) || n.vt == "Str" {
			c := *n
			c.t = s.t
			return &c
		}
		c := x.leaf(s.t, paren(n.term)+".v")
		c.own = n.own
		return c
	case sIndex:
		c := x.leaf(s.t, paren(x.term(st, n))+"["+s.key+"]")
		if n.deep {
			c.own = "true"
		}
		return c
	case sKey:
		vt := x.types.V(s.t)
		_ = vt
		c := x.leaf(s.t, fmt.Sprintf("mget(%s, %s, %s)", x.term(st, n), s.key, x.types.Default(s.t)))
		if isMapType(s.t) || isPtrType(s.t) {
			c.own = n.own
		} else if n.deep {
			c.own = "true"
		}
		return c
	}
	panic("step")
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && heapOf(t) == nil && !isHandleType(t)
}

func (x *Exec) get(st *State, p *Path) *Node {
	if p == nil {
		panic(unsupported("use of a reference whose target was replaced"))
	}
	n := st.vars[p.root]
	if n == nil {
		panic(unsupported("unknown variable " + p.root.Name()))
	}
	for _, s := range p.steps {
		n = x.child(st, n, s)
	}
	if n.kind == kAlias {
		return x.get(st, n.al)
	}
	return n
}

// set writes val at path p.
func (x *Exec) set(st *State, p *Path, val *Node, at ast.Node) {
	root := st.vars[p.root]
	if root == nil {
		panic(unsupported("unknown variable " + p.root.Name()))
	}
	if root.frozen && len(p.steps) == 0 {
		x.oblig(st, "false", "alias", at, "assignment to "+p.root.Name()+" after its address was stored")
	}
	st.vars[p.root] = x.upd(st, root, p.steps, val, at)
}

func (x *Exec) upd(st *State, n *Node, steps []Step, val *Node, at ast.Node) *Node {
	if len(steps) == 0 {
		return val
	}
	s := steps[0]
	if n.kind == kAlias {
		panic(unsupported("write through nested alias"))
	}
	if n.frozen {
		x.oblig(st, "false", "alias", at, "write to a variable after its address was stored")
	}
	switch s.k {
	case sField:
		e := x.explode(n)
		m := *e
		m.f = map[string]*Node{}
		for k, v := range e.f {
			m.f[k] = v
		}
		m.f[s.name] = x.upd(st, e.f[s.name], steps[1:], val, at)
		return &m
	case sDeref:
		if n.kind == kPtr {
			m := *n
			m.p = x.upd(st, n.p, steps[1:], val, at)
			return &m
		}
		if handle(n.vt) || n.vt == "Str" {
			c := *n
			c.t = s.t
			r := x.upd(st, &c, steps[1:], val, at)
			r2 := *r
			r2.t = n.t
			return &r2
		}
		c := x.upd(st, x.child(st, n, s), steps[1:], val, at)
		ct := x.term(st, c)
		if n.own == "" {
			x.oblig(st, fmt.Sprintf("%s == %s.v", ct, paren(n.term)), "alias", at, "write through a pointer that others may hold")
		} else {
			x.oblig(st, n.own, "alias", at, "write through a pointer that others may hold")
		}
		m := x.leaf(n.t, fmt.Sprintf("(Ptr { id: %s.id, v: %s })", paren(n.term), ct))
		m.own = n.own
		return m
	case sIndex:
		c := x.upd(st, x.child(st, n, s), steps[1:], val, at)
		ct := x.term(st, c)
		if n.own == "" {
			x.oblig(st, fmt.Sprintf("%s == %s[%s]", ct, paren(n.term), s.key), "alias", at, "write to slice memory that others may hold")
		} else {
			x.oblig(st, n.own, "alias", at, "write to slice memory that others may hold")
		}
		m := *n
		if len(steps) == 1 && hasRefs(s.t) {
			m.deep = false
		}
		m.term = fmt.Sprintf("%s.update(%s, %s)", paren(n.term), s.key, ct)
		m.term = x.name(st, m.vt, m.term, "upd")
		return &m
	case sKey:
		if n.nilmap {
			x.oblig(st, "false", "nilmap", at, "write to nil map")
		}
		if len(steps) > 1 {
			if steps[1].k == sKey || steps[1].k == sIndex {
				x.oblig(st, fmt.Sprintf("%s.dom().contains(%s)", paren(n.term), s.key), "nilmap", at, "write below a missing map entry")
			}
		}
		c := x.upd(st, x.child(st, n, s), steps[1:], val, at)
		ct := x.term(st, c)
		if n.own == "" {
			x.oblig(st, fmt.Sprintf("%s == %s.insert(%s, %s)", n.term, paren(n.term), s.key, ct), "alias", at, "write to a map that others may hold")
		} else {
			x.oblig(st, n.own, "alias", at, "write to a map that others may hold")
		}
		m := *n
		if hasRefs(s.t) && !isMapType(s.t) && !isPtrType(s.t) && !x.allOwn(c) {
			m.deep = false
		}
		m.term = fmt.Sprintf("%s.insert(%s, %s)", paren(n.term), s.key, ct)
		m.term = x.name(st, m.vt, m.term, "mp")
		return &m
	}
	panic("upd")
}

// killAliases: the value at p is replaced as a whole, so references into it no longer have a known target.
func (x *Exec) killAliases(st *State, p *Path) {
	hit := func(al *Path) bool {
		if al == nil || al.root != p.root || len(al.steps) < len(p.steps) {
			return false
		}
		for i, s := range p.steps {
			a := al.steps[i]
			if a.k != s.k || a.name != s.name {
				return false
			}
		}
		return true
	}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.kind == kAlias {
			if hit(n.al) {
				m := *n
				m.al = nil
				return &m
			}
			return n
		}
		if n.f != nil {
			ch := false
			f := map[string]*Node{}
			for k, c := range n.f {
				f[k] = rec(c)
				ch = ch || f[k] != c
			}
			if ch {
				m := *n
				m.f = f
				return &m
			}
		}
		return n
	}
	for o, n := range st.vars {
		if m := rec(n); m != n {
			st.vars[o] = m
		}
	}
}

// borrow: a structure copied out of an element of a private container keeps referring to the container's memory.
func (x *Exec) borrow(st *State, n *Node, p *Path) (*Node, bool) {
	if p == nil || len(p.steps) == 0 || structOf(n.t) == nil || !hasRefs(n.t) || n.vt == "int" || n.kind != kVal {
		return nil, false
	}
	last := p.steps[len(p.steps)-1]
	if last.k != sIndex {
		return nil, false
	}
	c := x.safeGet(st, &Path{root: p.root, steps: p.steps[:len(p.steps)-1]})
	if c == nil || !c.deep {
		return nil, false
	}
	e := x.explode(n)
	m := *e
	m.f = map[string]*Node{}
	for k, ch := range e.f {
		switch {
		case isSliceType(ch.t):
			m.f[k] = &Node{t: ch.t, vt: ch.vt, kind: kAlias, al: p.with(Step{k: sField, name: k, t: ch.t})}
		case hasRefs(ch.t):
			return nil, false
		default:
			m.f[k] = ch
		}
	}
	return &m, true
}

// allOwn: every slice in the value is private.
func (x *Exec) allOwn(n *Node) bool {
	if !hasRefs(n.t) || n.kind == kVal && n.f == nil && n.vt == "int" {
		return true
	}
	if n.kind != kVal {
		return false
	}
	if n.f != nil {
		for _, c := range n.f {
			if !x.allOwn(c) {
				return false
			}
		}
		return true
	}
	if st := structOf(n.t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if isPtrType(st.Field(i).Type()) {
				return false
			}
		}
	}
	if isPtrType(n.t) {
		return false
	}
	return n.own == "true"
}

// lastUse: is the statement or expression at the last place where the local variable is mentioned?
func (x *Exec) lastUse(obj types.Object, at ast.Node) bool {
	v, ok := obj.(*types.Var)
	if !ok || at == nil || v.Pos() == token.NoPos || v.Parent() == v.Pkg().Scope() || v.IsField() {
		return false
	}
	p := x.eng.ld.pkgs[v.Pkg().Path()]
	if p == nil {
		return false
	}
	var file *ast.File
	for _, f := range p.Files {
		if f.Pos() <= v.Pos() && v.Pos() < f.End() && f.Pos() <= at.Pos() && at.Pos() < f.End() {
			file = f
		}
	}
	if file == nil {
		return false
	}
	if x.overwritten(p, file, obj, at) {
		return true
	}
	good := true
	inside := 0
	// closures bound to a local name and only called: their calls count as mentions
	via := map[types.Object]bool{}
	lits := map[*ast.FuncLit]bool{}
	called := map[*ast.Ident]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			if len(y.Lhs) == 1 && len(y.Rhs) == 1 {
				if l, ok := y.Rhs[0].(*ast.FuncLit); ok {
					if i, ok := y.Lhs[0].(*ast.Ident); ok && p.Info.Defs[i] != nil {
						ast.Inspect(l, func(m ast.Node) bool {
							if j, ok := m.(*ast.Ident); ok && p.Info.Uses[j] == obj {
								via[p.Info.Defs[i]] = true
								lits[l] = true
							}
							return true
						})
					}
				}
			}
		case *ast.CallExpr:
			if i, ok := y.Fun.(*ast.Ident); ok {
				called[i] = true
			}
		}
		return true
	})
	ast.Inspect(file, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.Ident:
			if u := p.Info.Uses[y]; u != nil && via[u] {
				if !called[y] || y.Pos() >= at.Pos() {
					good = false
				}
			}
			if p.Info.Uses[y] == obj {
				if y.Pos() >= at.End() {
					good = false
				} else if y.Pos() >= at.Pos() {
					inside++
				}
			}
		case *ast.ForStmt, *ast.RangeStmt:
			// a loop around the place that does not contain the declaration would come back to it
			if y.Pos() <= at.Pos() && at.End() <= y.End() && !(y.Pos() <= v.Pos() && v.Pos() < y.End()) {
				if y.Pos() != at.Pos() {
					good = false
				}
			}
		case *ast.FuncLit:
			if !lits[y] && !(y.Pos() <= v.Pos() && v.Pos() < y.End()) {
				ast.Inspect(y, func(m ast.Node) bool {
					if i, ok := m.(*ast.Ident); ok && p.Info.Uses[i] == obj {
						good = false
					}
					return true
				})
			}
		case *ast.DeferStmt:
			ast.Inspect(y, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok && (p.Info.Uses[i] == obj || via[p.Info.Uses[i]]) {
					good = false
				}
				return true
			})
		case *ast.UnaryExpr:
			if i, ok := y.X.(*ast.Ident); ok && y.Op == token.AND && p.Info.Uses[i] == obj {
				good = false
			}
		}
		return true
	})
	// result variables are read by the return
	return good && inside <= 1 && !x.isResultVar(v)
}

// overwritten: the expression is the only mention of the variable on the right of an assignment that gives it a new value,
// and nothing else can refer to the variable.
func (x *Exec) overwritten(p *Pkg, file *ast.File, obj types.Object, at ast.Node) bool {
	found := false
	good := true
	ast.Inspect(file, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			if len(y.Rhs) != 1 || !(y.Rhs[0].Pos() <= at.Pos() && at.End() <= y.Rhs[0].End()) {
				return true
			}
			k, m := 0, 0
			for _, l := range y.Lhs {
				ast.Inspect(l, func(n ast.Node) bool {
					if i, ok := n.(*ast.Ident); ok && p.Info.Uses[i] == obj {
						m++
						if ast.Node(l) == n {
							k++
						}
					}
					return true
				})
			}
			r := 0
			ast.Inspect(y.Rhs[0], func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok && p.Info.Uses[i] == obj {
					r++
				}
				return true
			})
			if k == 1 && m == 1 && r == 1 {
				found = true
			}
		case *ast.FuncLit:
			if !(y.Pos() <= obj.Pos() && obj.Pos() < y.End()) {
				ast.Inspect(y, func(m ast.Node) bool {
					if i, ok := m.(*ast.Ident); ok && p.Info.Uses[i] == obj {
						good = false
					}
					return true
				})
			}
		case *ast.UnaryExpr:
			if i, ok := y.X.(*ast.Ident); ok && y.Op == token.AND && p.Info.Uses[i] == obj {
				good = false
			}
		}
		return true
	})
	return found && good
}

func (x *Exec) isResultVar(v *types.Var) bool {
	p := x.eng.ld.pkgs[v.Pkg().Path()]
	for fo := range x.eng.ld.declOf {
		if x.eng.ld.pkgOf[fo] != p {
			continue
		}
		if _, ok := resultObj(fo, v); ok {
			return true
		}
	}
	return false
}

// name introduces a symbol for a term when it is long.
func (x *Exec) name(st *State, vt, term, hint string) string {
	if len(term) <= 28 && !strings.Contains(term, "{") {
		return term
	}
	s := x.fresh(vt, hint)
	st.fact(fmt.Sprintf("%s == %s", s, paren(term)))
	return s
}

// leaves of the tree for comparing and havocking.
type modLeaf struct {
	root  types.Object
	steps []Step
	t     types.Type
	own   string
	trans bool
	shal  bool // not deep
	same  bool // the value stays, only what is known about its ownership changes
}

func (x *Exec) diffNodes(a, b *Node, root types.Object, steps []Step, out *[]modLeaf) {
	if a == b {
		return
	}
	if a.kind != b.kind {
		*out = append(*out, modLeaf{root: root, steps: steps, t: b.t, own: "!kind"})
		return
	}
	switch a.kind {
	case kPtr:
		if a.id != b.id {
			*out = append(*out, modLeaf{root: root, steps: steps, t: b.t, own: "!kind"})
			return
		}
		ps := append(append([]Step{}, steps...), Step{k: sDeref, t: a.p.t})
		x.diffNodes(a.p, b.p, root, ps, out)
		return
	case kAlias:
		if a.al != nil && b.al != nil && a.al.str() == b.al.str() {
			return
		}
		*out = append(*out, modLeaf{root: root, steps: steps, t: b.t, own: "!kind"})
		return
	}
	if a.cl != nil || b.cl != nil {
		if a.cl != b.cl {
			*out = append(*out, modLeaf{root: root, steps: steps, t: b.t, own: "!kind"})
		}
		return
	}
	if a.f != nil || b.f != nil {
		ea, eb := x.explode(a), x.explode(b)
		var names []string
		for k := range ea.f {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			ps := append(append([]Step{}, steps...), Step{k: sField, name: k, t: ea.f[k].t})
			x.diffNodes(ea.f[k], eb.f[k], root, ps, out)
		}
		return
	}
	if a.term != b.term || a.own != b.own || a.trans != b.trans || a.deep != b.deep {
		own := b.own
		if a.own != b.own {
			own = ""
		}
		*out = append(*out, modLeaf{root: root, steps: steps, t: a.t, own: own, trans: a.trans || b.trans, shal: !b.deep, same: a.term == b.term && a.vt == b.vt && a.cap1 == b.cap1})
	}
}
