package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

// Obl is one proof obligation.
type Obl struct {
	ID     int
	Func   string // contract function
	Kind   string
	Name   string // stable name
	Pos    string
	Desc   string
	Goal   string
	Items  []*Item
	Trace  []string
	Props  []string
	Status string
	Output string
}

// Exec verifies one function under contract.
type Exec struct {
	eng       *Engine
	types     *TypeReg
	con       *Contract
	pkg       *Pkg
	givenAs   map[types.Object]*types.Var // what the caller passed for a parameter that the body sets
	dry       int
	merge     bool
	loopOrd   map[string]int
	recOrd    map[string]int
	callOrd   map[string]int
	stack     []string
	pending   []func()
	fnName    string
	entry     *State
	inlined   map[string]bool
	used      map[string]bool
	localMap  map[string]types.Object
	depth     int
	consts    *Pkg
	names     map[string]int
	steps     int
	closRun   map[string]bool
	poolEach  func(start, end *State) // called at the end of an item in a worker
	poolOut   *Path                   // the channel workers send on
	heapGuard []types.Object          // structures that a goroutine must not look at
}

type Frame struct {
	pkg     *Pkg
	results []types.Object
	restyp  []types.Type
	defers  []deferred
	key     string
	top     bool
}

type deferred struct {
	call *ast.CallExpr
	pkg  *Pkg
	recv *Val
	args []Val
}

type K struct {
	next func(*State)
	brk  map[string]func(*State)
	cont map[string]func(*State)
	ret  func(*State, []Val)
}

func (k K) withNext(f func(*State)) K { k.next = f; return k }

func (x *Exec) fresh(vt, hint string) string {
	return x.eng.fresh(vt, hint)
}

func (x *Exec) freshNode(t types.Type, hint string) *Node {
	n := x.leaf(t, "")
	n.term = x.fresh(n.vt, hint)
	return n
}

func (x *Exec) posOf(at ast.Node) string {
	if at == nil {
		return ""
	}
	p := x.eng.ld.fset.Position(at.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.eng.ld.repo+"/"), p.Line)
}

func (x *Exec) oblig(st *State, goal, kind string, at ast.Node, desc string) {
	if goal == "true" {
		return
	}
	if x.dry > 0 || panicKinds[kind] && len(x.con.View) > 0 {
		return // the latter: the process ends here when it does not hold
	}
	x.eng.addObl(&Obl{Func: x.fnName, Kind: kind, Pos: x.posOf(at), Desc: desc, Goal: goal, Items: st.list(), Trace: append([]string{}, st.trace...)})
}

// panicKinds: obligations that rule out a run-time panic.
var panicKinds = map[string]bool{"nil": true, "index": true, "slice": true, "make": true, "nilmap": true, "div": true, "type-assertion": true}

func (x *Exec) obligNamed(st *State, goal, kind, name string, at ast.Node, desc string) {
	if x.dry > 0 || goal == "true" {
		return
	}
	x.eng.addObl(&Obl{Func: x.fnName, Kind: kind, Name: name, Pos: x.posOf(at), Desc: desc, Goal: goal, Items: st.list(), Trace: append([]string{}, st.trace...)})
}

func (x *Exec) info() *types.Info { return x.pkg.Info }

// ---- statements

func (x *Exec) block(st *State, stmts []ast.Stmt, k K) {
	saved := st.names
	pkg := x.pkg
	x.stmts(st, stmts, k.withNext(func(s *State) {
		s = s.clone()
		s.names = saved
		p := x.pkg
		x.pkg = pkg
		k.next(s)
		x.pkg = p
	}))
}

func (x *Exec) stmts(st *State, stmts []ast.Stmt, k K) {
	if len(stmts) == 0 {
		k.next(st)
		return
	}
	x.stmt(st, stmts[0], "", k.withNext(func(s *State) { x.stmts(s, stmts[1:], k) }))
}

func (x *Exec) declare(st *State, obj types.Object, n *Node) {
	if obj == nil || obj.Name() == "_" {
		return
	}
	st.vars[obj] = n
	st.names[obj.Name()] = obj
}

func (x *Exec) stmt(st *State, s ast.Stmt, label string, k K) {
	x.steps++
	if x.steps > 400000 {
		panic(unsupported("too many symbolic paths"))
	}
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		k.next(st)
	case *ast.BlockStmt:
		x.block(st, s.List, k)
	case *ast.LabeledStmt:
		x.stmt(st, s.Stmt, s.Label.Name, k)
	case *ast.ExprStmt:
		x.evalMulti(st, s.X, func(s2 *State, _ []Val) { k.next(s2) })
	case *ast.AssignStmt:
		x.assignStmt(st, s, k)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k.next(st)
			return
		}
		var rec func(st *State, specs []ast.Spec)
		rec = func(st *State, specs []ast.Spec) {
			if len(specs) == 0 {
				k.next(st)
				return
			}
			vs := specs[0].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				st = st.clone()
				for _, id := range vs.Names {
					obj := x.info().Defs[id]
					x.declare(st, obj, x.zero(obj.Type()))
				}
				rec(st, specs[1:])
				return
			}
			var lhs []ast.Expr
			for _, id := range vs.Names {
				lhs = append(lhs, id)
			}
			x.assignList(st, lhs, vs.Values, true, s, func(s2 *State) { rec(s2, specs[1:]) })
		}
		rec(st, gd.Specs)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.evalPath(st, s.X, func(st *State, p *Path) {
			st = st.clone()
			n := x.get(st, p)
			o := " + 1"
			if op == token.SUB {
				o = " - 1"
			}
			m := x.leaf(n.t, x.name(st, "int", x.term(st, n)+o, "i"))
			x.set(st, p, m, s)
			k.next(st)
		})
	case *ast.IfStmt:
		saved := st.names
		x.stmt(st, s.Init, "", k.withNext(func(st *State) {
			x.cond(st, s.Cond, func(st *State, c string) {
				next := func(s2 *State) {
					s2 = s2.clone()
					s2.names = saved
					k.next(s2)
				}
				x.branch(st, c, s, k.withNext(next),
					func(st *State, k K) { x.block(st, s.Body.List, k) },
					func(st *State, k K) {
						if s.Else != nil {
							x.stmt(st, s.Else, "", k)
						} else {
							k.next(st)
						}
					})
			})
		}))
	case *ast.SwitchStmt:
		x.switchStmt(st, s, label, k)
	case *ast.ForStmt:
		x.forStmt(st, s, label, k)
	case *ast.RangeStmt:
		x.rangeStmt(st, s, label, k)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			if f := k.brk[l]; f != nil {
				f(st)
				return
			}
		case token.CONTINUE:
			if f := k.cont[l]; f != nil {
				f(st)
				return
			}
		}
		panic(unsupported("branch " + s.Tok.String()))
	case *ast.ReturnStmt:
		fr := x.frame(st)
		if len(s.Results) == 0 {
			var vs []Val
			for _, o := range fr.results {
				vs = append(vs, Val{n: x.valueOf(st, st.vars[o]), path: nil})
			}
			k.ret(st, vs)
			return
		}
		if len(s.Results) == 1 && len(fr.restyp) > 1 {
			x.evalMulti(st, s.Results[0], func(st *State, vs []Val) { x.doReturn(st, vs, s, k) })
			return
		}
		x.evalList(st, s.Results, func(st *State, vs []Val) { x.doReturn(st, vs, s, k) })
	case *ast.DeferStmt:
		st = st.clone()
		fr := x.frame(st)
		nf := *fr
		nf.defers = append(append([]deferred{}, fr.defers...), deferred{call: s.Call, pkg: x.pkg})
		st.frames = append(append([]*Frame{}, st.frames[:len(st.frames)-1]...), &nf)
		k.next(st)
	case *ast.SendStmt:
		x.evalPath(st, s.Chan, func(st *State, p *Path) {
			x.eval(st, s.Value, func(st *State, v Val) {
				st = st.clone()
				v.n = x.handOut(st, v, s)
				v = x.share(st, v, s, true)
				n := x.get(st, p)
				m := *n
				m.term = x.name(st, n.vt, paren(x.term(st, n))+".push("+x.term(st, v.n)+")", "sent")
				x.set(st, p, &m, s)
				x.sendChan(st, x.chanAt(st, p), s)
				x.after(st, "send", k.next)
			})
		})
	case *ast.GoStmt:
		x.goStmt(st, s, k.next)
	case *ast.SelectStmt:
		panic(unsupported("select statement"))
	default:
		panic(unsupported(fmt.Sprintf("statement %T", s)))
	}
}

func (x *Exec) frame(st *State) *Frame { return st.frames[len(st.frames)-1] }

func (x *Exec) doReturn(st *State, vs []Val, at ast.Node, k K) {
	st = st.clone()
	fr := x.frame(st)
	for i := range vs {
		if i < len(fr.restyp) {
			vs[i].n = x.convert(st, vs[i].n, fr.restyp[i])
		}
		if vs[i].n.trans && !x.con.Transient["return"] && fr.top {
			x.oblig(st, "false", "alias", at, "returns memory that the scanner will overwrite")
		}
	}
	for i, o := range fr.results {
		if o != nil && i < len(vs) && o.Name() != "" {
			st.vars[o] = vs[i].n
		}
	}
	k.ret(st, vs)
}

// branch executes both sides of a condition.
func (x *Exec) branch(st *State, c string, at ast.Node, k K, a, b func(*State, K)) {
	if c == "true" {
		a(st, k)
		return
	}
	if c == "false" {
		b(st, k)
		return
	}
	if v, ok := known(st, c); ok {
		if v {
			a(st, k)
		} else {
			b(st, k)
		}
		return
	}
	pkg := x.pkg
	if !x.merge {
		st1 := st.clone()
		st1.cond(c)
		st1.trace = append(st1.trace, x.posOf(at)+" true")
		a(st1, k)
		x.pkg = pkg
		st2 := st.clone()
		st2.cond(neg(c))
		st2.trace = append(st2.trace, x.posOf(at)+" false")
		b(st2, k)
		x.pkg = pkg
		return
	}
	var outs []*State
	col := k.withNext(func(s *State) { outs = append(outs, s) })
	st1 := st.clone()
	st1.cond(c)
	a(st1, col)
	x.pkg = pkg
	st2 := st.clone()
	st2.cond(neg(c))
	b(st2, col)
	x.pkg = pkg
	x.mergeAll(st, outs, func(s *State) { k.next(s) })
}

// plainCond strips parentheses and negations.
func plainCond(c string) (string, bool) {
	pos := true
	for {
		c = strings.TrimSpace(c)
		if strings.HasPrefix(c, "!") && !strings.HasPrefix(c, "!=") && balancedParen(c[1:]) {
			c = c[1:]
			pos = !pos
			continue
		}
		if strings.HasPrefix(c, "(") && balancedParen(c) {
			c = c[1 : len(c)-1]
			continue
		}
		return c, pos
	}
}

// known: has the condition been decided on the way here?
func known(st *State, c string) (bool, bool) {
	t, pos := plainCond(c)
	if l, r, ok := strings.Cut(t, " == "); ok && r == "0" {
		if l == "0int" || l == "0" {
			return pos, true
		}
		pz := l + " > 0"
		for i := st.items; i != nil; i = i.prev {
			if i.kind == 'f' && i.text == pz {
				return !pos, true
			}
		}
	}
	for i := st.items; i != nil; i = i.prev {
		if i.kind != 'c' {
			continue
		}
		if u, p := plainCond(i.text); u == t {
			return p == pos, true
		}
	}
	return false, false
}

func neg(c string) string {
	if strings.HasPrefix(c, "!") && balancedParen(c[1:]) {
		return c[1:]
	}
	return "!" + "(" + c + ")"
}

// since lists the items of s added after base.
func since(base, s *State) (conds []string, rest []*Item, ok bool) {
	var items []*Item
	i := s.items
	for ; i != nil && i != base.items; i = i.prev {
		items = append(items, i)
	}
	if i != base.items {
		return nil, nil, false
	}
	for j := len(items) - 1; j >= 0; j-- {
		if items[j].kind == 'c' {
			conds = append(conds, items[j].text)
		} else {
			rest = append(rest, items[j])
		}
	}
	return conds, rest, true
}

// mergeAll joins states that continue at the same point; it falls back to separate continuation.
func (x *Exec) mergeAll(base *State, outs []*State, next func(*State)) {
	if len(outs) == 0 {
		return
	}
	if len(outs) == 1 {
		next(outs[0])
		return
	}
	m, ok := x.tryMerge(base, outs)
	if !ok {
		for _, o := range outs {
			next(o)
		}
		return
	}
	next(m)
}

func conj(cs []string) string {
	if len(cs) == 0 {
		return "true"
	}
	if len(cs) == 1 {
		return paren(cs[0])
	}
	var p []string
	for _, c := range cs {
		p = append(p, paren(c))
	}
	return "(" + strings.Join(p, " && ") + ")"
}

func (x *Exec) tryMerge(base *State, outs []*State) (*State, bool) {
	m := base.clone()
	m.names = outs[0].names
	m.conc = outs[0].conc
	for _, o := range outs {
		if o.conc != m.conc && !sameConc(o.conc, m.conc, "") {
			return nil, false
		}
	}
	var cs []string
	var conds [][]string
	for _, o := range outs {
		c, rest, ok := since(base, o)
		if !ok {
			return nil, false
		}
		conds = append(conds, c)
		cc := conj(c)
		cs = append(cs, cc)
		// facts hold under the conditions that precede them; all conditions of the path is a sound guard
		for _, it := range rest {
			if it.kind == 'f' {
				m.fact(fmt.Sprintf("%s ==> %s", cc, paren(it.text)))
			} else {
				m.add('h', fmt.Sprintf("if %s { %s }", cc, it.text))
			}
		}
	}
	m.fact(strings.Join(cs, " || "))
	var merge func(ns []*Node) (*Node, bool)
	merge = func(ns []*Node) (*Node, bool) {
		same := true
		for _, n := range ns {
			if n != ns[0] {
				same = false
			}
		}
		if same {
			return ns[0], true
		}
		for _, n := range ns {
			if n == nil || n.kind != ns[0].kind || (n.cl != nil && n.cl != ns[0].cl) || n.frozen != ns[0].frozen || n.nilmap != ns[0].nilmap {
				return nil, false
			}
		}
		switch ns[0].kind {
		case kAlias:
			for _, n := range ns {
				if n.al == nil || ns[0].al == nil || n.al.str() != ns[0].al.str() {
					return nil, false
				}
			}
			return ns[0], true
		case kPtr:
			var ps []*Node
			for _, n := range ns {
				if n.id != ns[0].id {
					return nil, false
				}
				ps = append(ps, n.p)
			}
			p, ok := merge(ps)
			if !ok {
				return nil, false
			}
			r := *ns[0]
			r.p = p
			return &r, true
		}
		anyF := false
		for _, n := range ns {
			if n.f != nil {
				anyF = true
			}
		}
		if anyF {
			r := *x.explode(ns[0])
			f := map[string]*Node{}
			var ks []string
			for k := range r.f {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				var cs []*Node
				for _, n := range ns {
					cs = append(cs, x.explode(n).f[k])
				}
				c, ok := merge(cs)
				if !ok {
					return nil, false
				}
				f[k] = c
			}
			r.f = f
			return &r, true
		}
		r := *ns[0]
		sameTerm, sameOwn := true, true
		for _, n := range ns {
			if n.term != ns[0].term {
				sameTerm = false
			}
			if n.own != r.own {
				sameOwn = false
			}
			if n.trans {
				r.trans = true
			}
			if !n.cap1 {
				r.cap1 = false
			}
			if !n.deep {
				r.deep = false
			}
		}
		if !sameOwn {
			r.own = ""
			if isSliceType(r.t) {
				var g []string
				for i, n := range ns {
					if n.own == "" {
						g = append(g, neg(cs[i]))
					} else if n.own != "true" {
						g = append(g, fmt.Sprintf("(%s ==> %s)", cs[i], paren(n.own)))
					}
				}
				r.own = "(" + strings.Join(g, " && ") + ")"
			}
		}
		if !sameTerm {
			r.term = x.fresh(r.vt, "m")
			for i, n := range ns {
				m.fact(fmt.Sprintf("%s ==> %s == %s", cs[i], r.term, paren(n.term)))
			}
		}
		return &r, true
	}
	for _, obj := range sortedVars(base.vars) {
		var ns []*Node
		for _, o := range outs {
			ns = append(ns, o.vars[obj])
		}
		n, ok := merge(ns)
		if !ok {
			return nil, false
		}
		m.vars[obj] = n
	}
	// variables new in all outs (results of inlined calls)
	for _, obj := range sortedVars(outs[0].vars) {
		n0 := outs[0].vars[obj]
		if _, ok := base.vars[obj]; ok {
			continue
		}
		ns := []*Node{n0}
		all := true
		for _, o := range outs[1:] {
			n := o.vars[obj]
			if n == nil {
				all = false
				break
			}
			ns = append(ns, n)
		}
		if !all {
			continue
		}
		n, ok := merge(ns)
		if !ok {
			if _, isRes := obj.(*types.Var); isRes && obj.Name() == "\x00res" {
				return nil, false
			}
			continue
		}
		m.vars[obj] = n
	}
	for k, v := range outs[0].extra {
		same := true
		for _, o := range outs {
			if o.extra[k] != v {
				same = false
			}
		}
		if same {
			m.extra[k] = v
		}
	}
	m.trace = append([]string{}, base.trace...)
	return m, true
}

func (x *Exec) zero(t types.Type) *Node {
	n := x.leaf(t, x.types.Default(t))
	n.own = "true"
	n.deep = isSliceType(t) || isMapType(t)
	if isMapType(t) {
		n.nilmap = true
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		n.term = "0int"
	}
	return n
}

// ---- assignment

func (x *Exec) assignStmt(st *State, s *ast.AssignStmt, k K) {
	switch s.Tok {
	case token.ASSIGN, token.DEFINE:
		x.assignList(st, s.Lhs, s.Rhs, s.Tok == token.DEFINE, s, k.next)
	default:
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM}[s.Tok]
		if op == 0 {
			panic(unsupported("assignment " + s.Tok.String()))
		}
		x.evalPath(st, s.Lhs[0], func(st *State, p *Path) {
			x.eval(st, s.Rhs[0], func(st *State, v Val) {
				st = st.clone()
				n := x.get(st, p)
				r := x.arith(st, op, n, v.n, n.t, s)
				x.set(st, p, r, s)
				k.next(st)
			})
		})
	}
}

func (x *Exec) assignList(st *State, lhs, rhs []ast.Expr, define bool, at ast.Node, next func(*State)) {
	// evaluate the locations first, then the values, then assign in order
	if len(rhs) == 1 && len(lhs) > 1 {
		x.evalMulti(st, rhs[0], func(st *State, vs []Val) {
			if len(vs) != len(lhs) {
				panic(unsupported("multi-value assignment"))
			}
			x.assignVals(st, lhs, vs, define, at, next)
		})
		return
	}
	// closures assigned to a variable get its name
	if len(lhs) == 1 && len(rhs) == 1 {
		if lit, ok := ast.Unparen(rhs[0]).(*ast.FuncLit); ok {
			x.assignClosure(st, lhs[0], lit, define, next)
			return
		}
	}
	x.evalList(st, rhs, func(st *State, vs []Val) { x.assignVals(st, lhs, vs, define, at, next) })
}

func (x *Exec) assignVals(st *State, lhs []ast.Expr, vs []Val, define bool, at ast.Node, next func(*State)) {
	if len(lhs) == 0 {
		next(st)
		return
	}
	l := ast.Unparen(lhs[0])
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		x.assignVals(st, lhs[1:], vs[1:], define, at, next)
		return
	}
	if id, ok := l.(*ast.Ident); ok && define {
		if obj := x.info().Defs[id]; obj != nil {
			st = st.clone()
			n := x.sliceRef(vs[0], obj)
			if n == nil {
				n = x.bindNode(st, vs[0], obj.Type(), at)
			}
			x.declare(st, obj, n)
			x.assignVals(st, lhs[1:], vs[1:], define, at, next)
			return
		}
	}
	if id, ok := l.(*ast.Ident); ok {
		obj := x.info().Uses[id]
		if v, ok := obj.(*types.Var); ok && st.vars[v] != nil && st.vars[v].kind != kVal {
			// reassigning a reference variable
			st = st.clone()
			st.vars[v] = x.bindNode(st, vs[0], v.Type(), at)
			x.assignVals(st, lhs[1:], vs[1:], define, at, next)
			return
		}
	}
	x.evalPath(st, l, func(st *State, p *Path) {
		st = st.clone()
		v := vs[0]
		if len(p.steps) == 0 {
			n := x.bindNode(st, v, p.root.Type(), at)
			if v.from != nil && v.from.str() == p.str() {
				n = v.n
			}
			x.killAliases(st, p)
			x.set(st, p, n, at)
		} else {
			if _, isChan := x.pathType(p).Underlying().(*types.Chan); isChan && v.path != nil {
				// a channel has identity: the field stands for the same one
				x.noAliasField(st, l)
				x.setNode(st, p, &Node{t: x.pathType(p), vt: x.types.V(x.pathType(p)), kind: kAlias, al: v.path})
				x.assignVals(st, lhs[1:], vs[1:], define, at, next)
				return
			}
			lt := x.pathType(p)
			if v.path != nil && len(v.path.steps) == 0 && v.n.kind == kVal && v.n.own == "true" && !v.n.trans && x.eng.elemWritten(x.pkg)[v.path.root] &&
				isSliceType(lt) && p.root != v.path.root && !x.lastUse(v.path.root, at) {
				// a private slice stored elsewhere and still written: the variable now stands for that place
				x.noAliasField(st, l)
				x.killAliases(st, p)
				x.set(st, p, v.n, at)
				st.vars[v.path.root] = &Node{t: v.n.t, vt: v.n.vt, kind: kAlias, al: p}
				x.assignVals(st, lhs[1:], vs[1:], define, at, next)
				return
			}
			if x.con.LoopAlias && isMapType(lt) && v.path != nil && isMapType(v.n.t) && v.n.cl == nil {
				if tp := x.realPath(st, v.path); len(tp.steps) > 0 && tp.str() != p.str() {
					// the field is another name for that map
					x.noAliasField(st, l)
					x.killAliases(st, p)
					x.setNode(st, p, &Node{t: lt, vt: x.types.V(lt), kind: kAlias, al: tp})
					x.assignVals(st, lhs[1:], vs[1:], define, at, next)
					return
				}
			}
			same := v.from != nil && v.from.str() == p.str()
			if !same {
				v = x.share(st, v, at, true)
			}
			x.noAliasField(st, l)
			x.killAliases(st, p)
			x.set(st, p, x.convert(st, v.n, lt), at)
		}
		x.assignVals(st, lhs[1:], vs[1:], define, at, next)
	})
}

// sliceRef: a slice read from a map entry or field of private memory, whose elements are then written through the variable.
func (x *Exec) sliceRef(v Val, obj types.Object) *Node {
	if v.path == nil || len(v.path.steps) == 0 || !isSliceType(obj.Type()) || v.n.kind != kVal || v.n.own != "true" || v.n.trans || !x.eng.elemWritten(x.pkg)[obj] {
		return nil
	}
	if k := v.path.steps[len(v.path.steps)-1].k; k != sKey && k != sField {
		return nil
	}
	return &Node{t: v.n.t, vt: v.n.vt, kind: kAlias, al: v.path}
}

// noAliasField: a field that stands for another location cannot be given a new value.
func (x *Exec) noAliasField(st *State, l ast.Expr) {
	se, ok := l.(*ast.SelectorExpr)
	if !ok {
		return
	}
	id, ok := ast.Unparen(se.X).(*ast.Ident)
	if !ok {
		return
	}
	n := st.vars[x.info().Uses[id]]
	if n != nil && n.f != nil && n.f[se.Sel.Name] != nil && n.f[se.Sel.Name].kind == kAlias {
		panic(unsupported("assignment to a field that refers to other memory"))
	}
}

func (x *Exec) pathType(p *Path) types.Type {
	if len(p.steps) == 0 {
		return p.root.Type()
	}
	return p.steps[len(p.steps)-1].t
}

// bindNode is the node a variable gets when v is assigned to it.
func (x *Exec) bindNode(st *State, v Val, t types.Type, at ast.Node) *Node {
	if v.n.cl != nil {
		return v.n
	}
	if v.path != nil && (isMapType(t) || isPtrType(t)) && v.n.kind != kPtr && isMapType(t) == isMapType(v.n.t) {
		if isMapType(t) || x.aliasablePtr(st, v.path) {
			return &Node{t: t, vt: x.types.V(t), kind: kAlias, al: v.path}
		}
	}
	if v.path != nil && v.n.kind == kPtr {
		return &Node{t: t, vt: x.types.V(t), kind: kAlias, al: v.path}
	}
	if v.path != nil && isChanType(t) {
		return &Node{t: t, vt: x.types.V(t), kind: kAlias, al: v.path}
	}
	if b, ok := x.borrow(st, v.n, v.path); ok {
		return b
	}
	v = x.share(st, v, at, false)
	return x.convert(st, v.n, t)
}

func (x *Exec) aliasablePtr(st *State, p *Path) bool {
	// pointers read out of a location we may write through later
	n := x.get(st, p)
	return n.kind == kVal && n.own != "" && !handle(n.vt)
}

// share models copying a value out of a location: memory below becomes shared.
func (x *Exec) share(st *State, v Val, at ast.Node, heap bool) Val {
	n := x.valueOf(st, v.n)
	if n.f != nil {
		for _, c := range n.f {
			if c != nil && c.foreign {
				panic(unsupported("copy of a record that came with a channel"))
			}
		}
	}
	if heap && n.trans {
		x.oblig(st, "false", "alias", at, "stores memory that the scanner will overwrite")
	}
	src := v.path
	if src == nil {
		src = v.from
	}
	if v.path != nil && len(v.path.steps) == 0 && n.kind == kVal && hasRefs(n.t) && !isMapType(n.t) && x.lastUse(v.path.root, at) {
		return Val{n: n, from: v.from} // moved: the variable is not mentioned again
	}
	if src != nil && hasRefs(n.t) {
		x.disown(st, src)
	}
	if v.path != nil && hasRefs(n.t) {
		n = x.disowned(n)
	}
	return Val{n: n, from: v.from}
}

func (x *Exec) valueOf(st *State, n *Node) *Node {
	if n.kind == kAlias {
		n = x.get(st, n.al)
	}
	return n
}

func (x *Exec) disowned(n *Node) *Node {
	if n.kind == kAlias || n.cl != nil {
		return n
	}
	m := *n
	m.own = ""
	m.deep = false
	if n.kind == kPtr {
		m.kind = kVal
		m.term = fmt.Sprintf("(Ptr { id: %s, v: %s })", n.id, x.term(nil, n.p))
		m.p = nil
		return &m
	}
	if n.f != nil {
		m.f = map[string]*Node{}
		for k, c := range n.f {
			m.f[k] = x.disowned(c)
		}
	}
	return &m
}

// disown marks the value at a path as shared (only where the tree represents it).
func (x *Exec) disown(st *State, p *Path) {
	root := st.vars[p.root]
	if root == nil {
		return
	}
	var rec func(n *Node, steps []Step) *Node
	rec = func(n *Node, steps []Step) *Node {
		if n.kind == kAlias || n.cl != nil {
			return n
		}
		if len(steps) == 0 {
			m := *n
			if n.kind == kPtr {
				m.frozen = true
				return &m
			}
			if isMapType(n.t) {
				return n // maps: see DESIGN.md
			}
			m.own = ""
			m.deep = false
			if n.f != nil {
				m.f = map[string]*Node{}
				for k, c := range n.f {
					m.f[k] = rec(c, nil)
				}
			}
			return &m
		}
		s := steps[0]
		switch s.k {
		case sField:
			e := x.explode(n)
			m := *e
			m.f = map[string]*Node{}
			for k, c := range e.f {
				m.f[k] = c
			}
			m.f[s.name] = rec(e.f[s.name], steps[1:])
			return &m
		case sDeref:
			if n.kind == kPtr {
				m := *n
				m.p = rec(n.p, steps[1:])
				return &m
			}
		case sIndex:
			if n.deep {
				for _, r := range steps[1:] {
					if r.k != sField {
						return n // what is shared lies behind an element of an inner slice
					}
				}
				m := *n
				m.deep = false
				return &m
			}
		case sKey:
			if n.deep {
				if t := steps[len(steps)-1].t; isMapType(t) || isPtrType(t) {
					return n
				}
				m := *n
				m.deep = false
				return &m
			}
		}
		return n
	}
	st.vars[p.root] = rec(root, p.steps)
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// convert adapts a value to the static type of its destination.
func (x *Exec) convert(st *State, n *Node, t types.Type) *Node {
	if n.cl != nil {
		return n
	}
	if types.Identical(n.t, t) {
		return n
	}
	vt := x.types.V(t)
	if b, ok := n.t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		z := x.zero(t)
		return z
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if x.types.V(n.t) == vt {
			m := *n
			m.t = t
			return &m
		}
		if vt == "Rd" && isHandleType(n.t) {
			m := x.leaf(t, x.nameAlways(st, "Rd", fmt.Sprintf("handle_rd(%s)", x.term(st, n)), "rd"))
			st.fact(fmt.Sprintf("rd_handle(%s) == %s", m.term, x.term(st, n)))
			return m
		}
		if nm, ok := types.Unalias(n.t).(*types.Named); ok && vt == "int" && n.kind == kVal && n.vt != "int" && structOf(nm) != nil && x.concrete(types.NewPointer(nm)) {
			x.types.boxes[n.vt] = true
			m := x.leaf(t, x.name(st, "int", fmt.Sprintf("box_%s(%s)", n.vt, x.term(st, n)), "box"))
			st.fact(m.term + " > 0")
			return m
		}
		if vt == "int" {
			// boxed into an interface: readers keep their content
			m := x.leaf(t, x.fresh("int", "iface"))
			st.fact(m.term + " > 0")
			return m
		}
	}
	m := *n
	m.t = t
	if x.types.V(n.t) != vt {
		if n.vt == vt {
			return &m
		}
		panic(unsupported(fmt.Sprintf("conversion %s to %s", n.t, t)))
	}
	return &m
}

// sinkGo: a goroutine that only takes values off a channel, so that senders never wait
func (x *Exec) sinkGo(s *ast.GoStmt) bool {
	lit, ok := s.Call.Fun.(*ast.FuncLit)
	if !ok || len(s.Call.Args) != 0 || len(lit.Body.List) != 1 {
		return false
	}
	r, ok := lit.Body.List[0].(*ast.RangeStmt)
	return ok && len(r.Body.List) == 0 && isChanType(x.info().TypeOf(r.X))
}

// sortedVars: the variables in an order that is the same on every run
func sortedVars(m map[types.Object]*Node) []types.Object {
	var r []types.Object
	for o := range m {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		return m[a].term < m[b].term
	})
	return r
}
