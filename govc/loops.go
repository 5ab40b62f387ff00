package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (x *Exec) loopOrdinal(pos token.Pos) int {
	key := strings.Join(x.stack, ">") + fmt.Sprint(pos)
	if o, ok := x.loopOrd[key]; ok {
		return o
	}
	o := len(x.loopOrd) + 1
	x.loopOrd[key] = o
	return o
}

// loop is the common treatment: havoc what the body changes, keep the invariant.
// test yields (condition state) for entering the body / leaving; body runs one iteration and calls its continuation for the back edge.
type loopParts struct {
	ord      int
	at       ast.Node
	label    string
	enter    func(st *State, in func(*State), out func(*State)) // evaluates the condition
	body     func(st *State, k K)
	post     func(st *State, next func(*State)) // after body and continue
	extra    func(st *State, ks string)         // facts that hold at the head by construction
	chanPath string
	key      **Path // the variable that receives
}

func withBrk(m map[string]func(*State), label string, f func(*State)) map[string]func(*State) {
	n := map[string]func(*State){}
	for k, v := range m {
		n[k] = v
	}
	n[""] = f
	if label != "" {
		n[label] = f
	}
	return n
}

func (x *Exec) runLoop(st *State, lp loopParts, k K) {
	names := st.names
	pkg := x.pkg
	spec := x.con.Loops[lp.ord]
	if spec == nil {
		spec = &LoopSpec{}
	}
	ksym := fmt.Sprintf("$k%d", lp.ord)
	x.hintAt(st, fmt.Sprintf("before loop %d", lp.ord), lp.at)

	// 1. which leaves does the body change?
	mods := x.loopMods(st, lp, k)
	// 2. invariant holds on entry
	st0 := st.clone()
	st0.extra["$k"] = "0int"
	st0.extra[ksym] = "0int"
	st0.preN = st
	for i, inv := range spec.Inv {
		if !hasProp(inv.Props, x.eng.prop) {
			continue
		}
		t := x.subst(st0, inv.Text, st0)
		x.obligNamed(st0, t, "loop-invariant-entry", fmt.Sprintf("loop%d.inv%s.entry", lp.ord, clauseName(inv, i)), lp.at, "loop invariant holds on entry: "+inv.Text)
	}
	x.checkLoopOwn(st0, lp)
	x.checkLoopAlias(st0, lp)
	// 3. arbitrary iteration
	st1 := st.clone()
	kk := x.fresh("int", "k")
	st1.fact(kk + " >= 0")
	x.havoc(st1, mods)
	x.loopOwn(st1, lp.ord)
	x.loopChans(st1, mods, lp.at)
	if lp.extra != nil {
		lp.extra(st1, kk)
	}
	st1.extra["$k"] = kk
	st1.extra[ksym] = kk
	st1.preN = st
	// a scanner stepped once per iteration: what it has read so far follows from the iteration number
	type scanInv struct {
		path *Path
		pre  string
	}
	var scans []scanInv
	if x.oneScan(lp.at) {
		for _, m := range mods {
			if x.types.V(m.t) != "Scanner" {
				continue
			}
			p := &Path{root: m.root, steps: m.steps}
			if a := x.safeGet(st, p); a != nil && a.term != "" {
				scans = append(scans, scanInv{p, a.term})
			}
		}
	}
	scanText := func(s *State, si scanInv, k string) string {
		c := x.get(s, si.path).term
		return fmt.Sprintf("%[1]s.rd == %[2]s.rd && %[1]s.max == %[2]s.max && %[1]s.pos == %[2]s.pos + %[3]s && (%[3]s == 0 || %[1]s.pos <= scanner_toks(%[2]s).len())", c, si.pre, k)
	}
	for _, si := range scans {
		st1.fact(scanText(st1, si, kk))
	}
	for _, inv := range spec.Inv {
		if !hasProp(inv.Props, x.eng.prop) {
			continue
		}
		st1.fact(x.subst(st1, inv.Text, st1))
	}
	outerK, hadK := st.extra["$k"]
	restore := func(s *State) *State {
		s = s.clone()
		s.names = names
		if hadK {
			s.extra["$k"] = outerK
		} else {
			delete(s.extra, "$k")
		}
		s.preN = st.preN
		s.headN = st.headN
		return s
	}
	for _, st1 := range x.forkAlias(st1, lp.ord) {
		st1.headN = st1.clone()
		x.hintAt(st1, fmt.Sprintf("head %d", lp.ord), lp.at)
		x.coverPoint(st1, fmt.Sprintf("loop%d.head", lp.ord), lp.at)
		lp.enter(st1, func(s *State) {
			s = s.clone()
			s.trace = append(s.trace, fmt.Sprintf("%s loop %d iteration", x.posOf(lp.at), lp.ord))
			x.hintAt(s, fmt.Sprintf("loop %d", lp.ord), lp.at)
			back := func(s *State) {
				x.pkg = pkg
				s = s.clone()
				s.names = names
				s.extra["$k"] = kk
				var key *Path
				if lp.key != nil {
					key = *lp.key
				}
				x.iterEnd(st1, s, key, lp.at)
				if !sameConc(st1.conc, s.conc, lp.chanPath) {
					panic(unsupported("goroutines or channels change in a loop"))
				}
				x.hintAt(s, fmt.Sprintf("endloop %d", lp.ord), lp.at)
				lp.post(s, func(s *State) {
					s = s.clone()
					s.names = names
					s.extra["$k"] = kk + " + 1"
					s.extra[ksym] = kk + " + 1"
					s.preN = st
					for _, si := range scans {
						x.obligNamed(s, scanText(s, si, kk+" + 1"), "loop-invariant", fmt.Sprintf("loop%d.scanner.kept", lp.ord), lp.at, "the scanner is stepped once per iteration")
					}
					for i, inv := range spec.Inv {
						if !hasProp(inv.Props, x.eng.prop) {
							continue
						}
						t := x.subst(s, inv.Text, s)
						x.obligNamed(s, t, "loop-invariant", fmt.Sprintf("loop%d.inv%s.kept", lp.ord, clauseName(inv, i)), lp.at, "loop invariant is kept: "+inv.Text)
					}
					x.checkLoopOwn(s, lp)
					x.checkLoopAlias(s, lp)
				})
			}
			kb := k
			kb.next = back
			kb.cont = withBrk(k.cont, lp.label, back)
			kb.brk = withBrk(k.brk, lp.label, func(s *State) {
				p := x.pkg
				x.pkg = pkg
				s = s.clone()
				x.hintAt(s, fmt.Sprintf("break %d", lp.ord), lp.at)
				s = restore(s)
				k.next(s)
				x.pkg = p
			})
			lp.body(s, kb)
			x.pkg = pkg
		}, func(s *State) {
			s = s.clone()
			s.trace = append(s.trace, fmt.Sprintf("%s loop %d done", x.posOf(lp.at), lp.ord))
			x.hintAt(s, fmt.Sprintf("done %d", lp.ord), lp.at)
			s = restore(s)
			k.next(s)
		})
	}
	x.pkg = pkg
}

// isAlias: the map at one path is a reference to the one at another.
func (x *Exec) isAlias(st *State, ref, target string) bool {
	n := x.rawAt(st, ref)
	tp, ok := x.ownPath(st, target)
	return ok && n != nil && n.kind == kAlias && n.al != nil && x.realPath(st, n.al).str() == x.realPath(st, tp).str()
}

// forkAlias gives the states at the head of a loop: for each alias of the loop, one in which it holds and one in which its condition does not.
func (x *Exec) forkAlias(st *State, ord int) []*State {
	res := []*State{st}
	spec := x.con.Loops[ord]
	if spec == nil {
		return res
	}
	for _, a := range spec.Alias {
		var next []*State
		for _, s := range res {
			cond := x.subst(s, a.Cond, s)
			no := s.clone()
			no.fact("!(" + cond + ")")
			yes := s.clone()
			yes.fact(cond)
			x.setAlias(yes, a.Ref, a.Target)
			next = append(next, no, yes)
		}
		res = next
	}
	return res
}

// wholeRef: the pointer through which an alias of the loop goes may change, and is forgotten as a whole.
func (x *Exec) wholeRef(st *State, ord int, m modLeaf) modLeaf {
	spec := x.con.Loops[ord]
	if spec == nil {
		return m
	}
	for _, a := range spec.Alias {
		tp, ok := x.ownPath(st, a.Ref[:strings.LastIndex(a.Ref, ".")])
		if !ok || tp.root != m.root {
			continue
		}
		n := len(tp.steps)
		if n > 0 && tp.steps[n-1].k == sDeref {
			n--
		}
		if len(m.steps) < n || (&Path{root: m.root, steps: m.steps[:n]}).str() != (&Path{root: m.root, steps: tp.steps[:n]}).str() {
			continue
		}
		t := m.t
		if n > 0 && len(m.steps) > n {
			t = m.steps[n-1].t
		}
		return modLeaf{root: m.root, steps: m.steps[:n], t: t}
	}
	return m
}

func (x *Exec) checkLoopAlias(st *State, lp loopParts) {
	spec := x.con.Loops[lp.ord]
	if spec == nil {
		return
	}
	for _, a := range spec.Alias {
		if x.isAlias(st, a.Ref, a.Target) {
			continue
		}
		x.oblig(st, "!("+x.subst(st, a.Cond, st)+")", "alias", lp.at, a.Ref+" is "+a.Target+" at the loop head")
	}
}

// loopOwn: slices the contract says are private at the head of the loop.
func (x *Exec) loopOwn(st *State, ord int) {
	spec := x.con.Loops[ord]
	if spec == nil {
		return
	}
	for _, p := range spec.Own {
		base, cnd := splitOwn(p)
		own := "true"
		if cnd != "" {
			own = "(" + x.subst(st, cnd, st) + ")"
		}
		x.setOwn(st, base, own)
	}
}

func (x *Exec) checkLoopOwn(st *State, lp loopParts) {
	spec := x.con.Loops[lp.ord]
	if spec == nil {
		return
	}
	for _, p := range spec.Own {
		base, cnd := splitOwn(p)
		own := x.ownAt(st, base)
		if own == "" {
			own = "false"
		}
		if cnd != "" {
			own = "(" + x.subst(st, cnd, st) + ") ==> " + paren(own)
		}
		x.oblig(st, own, "alias", lp.at, base+" is private at the loop head")
	}
}

func clauseName(c Clause, i int) string {
	if c.Name != "" {
		return "." + c.Name
	}
	return fmt.Sprint(i + 1)
}

// loopMods finds, by running the body without recording obligations, the leaves that differ at a back edge.
func (x *Exec) loopMods(st *State, lp loopParts, k K) []modLeaf {
	x.dry++
	defer func() { x.dry-- }()
	pkg := x.pkg
	acc := map[string]modLeaf{}
	for round := 0; ; round++ {
		if round > 5 {
			panic(unsupported("loop effects do not settle"))
		}
		cur := st.clone()
		kk := x.fresh("int", "k")
		cur.extra["$k"] = kk
		cur.extra[fmt.Sprintf("$k%d", lp.ord)] = kk
		cur.preN = st
		var mods []modLeaf
		for _, m := range acc {
			mods = append(mods, m)
		}
		x.havoc(cur, mods)
		x.loopOwn(cur, lp.ord)
		n0 := len(acc)
		changed := false
		nop := func(*State) {}
		back := func(s *State) {
			x.pkg = pkg
			lp.post(s.clone(), func(s *State) {
				for obj, n := range cur.vars {
					var out []modLeaf
					x.diffNodes(n, s.vars[obj], obj, nil, &out)
					for _, m := range out {
						m = x.wholeRef(cur, lp.ord, m)
						if m.own == "!kind" {
							panic(unsupported("reference variable " + obj.Name() + " changes target in a loop"))
						}
						key := (&Path{root: m.root, steps: m.steps}).str()
						old, ok := acc[key]
						if !ok {
							acc[key] = m
							changed = true
						} else if old.own != m.own || old.trans != m.trans || m.shal && !old.shal || old.same && !m.same {
							if old.same && !m.same {
								old.same = false
								changed = true
							}
							if m.shal && !old.shal {
								old.shal = true
								changed = true
							}
							if old.own != m.own && old.own != "" {
								old.own = ""
								changed = true
							}
							if m.trans && !old.trans {
								old.trans = true
								changed = true
							}
							acc[key] = old
						}
					}
				}
			})
		}
		for _, cur = range x.forkAlias(cur, lp.ord) {
			lp.enter(cur, func(s *State) {
				kb := K{next: back, ret: func(*State, []Val) {}}
				kb.cont = map[string]func(*State){}
				kb.brk = map[string]func(*State){}
				for l := range k.cont {
					kb.cont[l] = nop
				}
				for l := range k.brk {
					kb.brk[l] = nop
				}
				kb.cont = withBrk(kb.cont, lp.label, back)
				kb.brk = withBrk(kb.brk, lp.label, nop)
				lp.body(s, kb)
				x.pkg = pkg
			}, func(*State) {})
			x.pkg = pkg
		}
		if !changed && len(acc) == n0 {
			break
		}
	}
	var mods []modLeaf
	for _, m := range acc {
		mods = append(mods, m)
	}
	sortMods(mods)
	return mods
}

func sortMods(m []modLeaf) {
	key := func(a modLeaf) string {
		s := a.root.Name()
		for _, st := range a.steps {
			s += "/" + st.name
		}
		return fmt.Sprintf("%s@%d", s, a.root.Pos())
	}
	for i := 1; i < len(m); i++ {
		for j := i; j > 0 && key(m[j]) < key(m[j-1]); j-- {
			m[j], m[j-1] = m[j-1], m[j]
		}
	}
}

// havoc forgets the given leaves.
func (x *Exec) havoc(st *State, mods []modLeaf) {
	for _, m := range mods {
		root := st.vars[m.root]
		if root == nil {
			continue
		}
		var rec func(n *Node, steps []Step) *Node
		rec = func(n *Node, steps []Step) *Node {
			if len(steps) == 0 && m.same && n.kind == kVal {
				r := *n
				r.own = m.own
				r.trans = m.trans
				r.deep = n.deep && !m.shal
				return &r
			}
			if len(steps) == 0 {
				r := x.freshNode(m.t, x.hintName(m))
				if r.vt != n.vt && len(m.steps) == 0 && m.root.Pkg() == nil {
					r.vt = n.vt // ghost state
					r.term = x.fresh(n.vt, x.hintName(m))
				}
				r.own = m.own
				r.trans = m.trans
				r.cap1 = n.cap1
				r.deep = n.deep && !m.shal
				return r
			}
			s := steps[0]
			switch s.k {
			case sField:
				e := x.explode(n)
				c := *e
				c.f = map[string]*Node{}
				for k, v := range e.f {
					c.f[k] = v
				}
				c.f[s.name] = rec(e.f[s.name], steps[1:])
				return &c
			case sDeref:
				if n.kind == kPtr {
					c := *n
					c.p = rec(n.p, steps[1:])
					return &c
				}
			}
			panic(unsupported("havoc path"))
		}
		st.vars[m.root] = rec(root, m.steps)
	}
}

func (x *Exec) hintName(m modLeaf) string {
	s := m.root.Name()
	for _, st := range m.steps {
		if st.name != "" {
			s += "_" + st.name
		}
	}
	return s
}

func (x *Exec) forStmt(st *State, s *ast.ForStmt, label string, k K) {
	if gs, wg, added := x.poolLoop(s); gs != nil {
		x.startPool(st, s, gs, wg, added, k)
		return
	}
	ord := x.loopOrdinal(s.Pos())
	saved := st.names
	x.stmt(st, s.Init, "", k.withNext(func(st *State) {
		lp := loopParts{ord: ord, at: s, label: label}
		lp.enter = func(st *State, in, out func(*State)) {
			if s.Cond == nil {
				in(st)
				return
			}
			x.cond(st, s.Cond, func(st *State, c string) {
				pkg := x.pkg
				a := st.clone()
				a.cond(c)
				in(a)
				x.pkg = pkg
				b := st.clone()
				b.cond(neg(c))
				out(b)
				x.pkg = pkg
			})
		}
		lp.body = func(st *State, k K) { x.block(st, s.Body.List, k) }
		lp.post = func(st *State, next func(*State)) {
			if s.Post == nil {
				next(st)
				return
			}
			x.stmt(st, s.Post, "", K{next: next})
		}
		// bounds that hold by construction for counting loops
		if up := x.counting(s); up != nil {
			if n := st.vars[up.obj]; n != nil && n.kind == kVal {
				start, pre := n.term, st
				lp.extra = func(st *State, ks string) {
					cur := st.vars[up.obj].term
					if up.down {
						st.fact(fmt.Sprintf("%s == %s - %s", cur, start, ks))
					} else {
						st.fact(fmt.Sprintf("%s == %s + %s", cur, start, ks))
					}
					// one round passed the test with the value before it
					if lim, op := x.limit(pre, st, s, up); lim != "" {
						st.fact(fmt.Sprintf("%s == 0 || %s %s %s", ks, cur, op, lim))
					}
				}
			}
		}
		k2 := k.withNext(func(s2 *State) {
			s2 = s2.clone()
			s2.names = saved
			k.next(s2)
		})
		x.runLoop(st, lp, k2)
	}))
}

type countInfo struct {
	obj  types.Object
	down bool
}

// limit is the bound of a counting loop's test and how the variable compares to it after a step, where the bound is
// made of constants, variables no round changes, and their lengths.
func (x *Exec) limit(pre, st *State, s *ast.ForStmt, up *countInfo) (string, string) {
	b, ok := s.Cond.(*ast.BinaryExpr)
	if !ok {
		return "", ""
	}
	id, ok := ast.Unparen(b.X).(*ast.Ident)
	if !ok || x.info().Uses[id] != up.obj {
		return "", ""
	}
	ops := map[token.Token]string{token.LSS: "<=", token.NEQ: "", token.LEQ: "- 1 <=", token.GTR: ">=", token.GEQ: "+ 1 >="}
	op := ops[b.Op]
	if op == "" || up.down != (b.Op == token.GTR || b.Op == token.GEQ) {
		return "", ""
	}
	fixed := true
	ast.Inspect(b.Y, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			f, ok := n.Fun.(*ast.Ident)
			if !ok || f.Name != "len" {
				fixed = false
			} else if _, ok := x.info().Uses[f].(*types.Builtin); !ok {
				fixed = false
			}
		case *ast.Ident:
			o := x.info().Uses[n]
			if v, ok := o.(*types.Var); ok {
				cur := st.vars[v]
				if cur == nil || cur.kind != kVal || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
					fixed = false
				}
				if was := pre.vars[v]; was == nil || cur != nil && was.term != cur.term {
					fixed = false
				}
			} else if o != nil {
				switch o.(type) {
				case *types.Const, *types.Builtin:
				default:
					fixed = false
				}
			}
		case *ast.BinaryExpr, *ast.ParenExpr, *ast.BasicLit, nil:
			if b, ok := n.(*ast.BinaryExpr); ok && b.Op != token.ADD && b.Op != token.SUB {
				fixed = false
			}
		default:
			fixed = false
		}
		return fixed
	})
	if !fixed {
		return "", ""
	}
	lim := ""
	n := 0
	x.dry++
	x.eval(st.clone(), b.Y, func(s2 *State, v Val) { n++; lim = x.term(s2, x.valueOf(s2, v.n)) })
	x.dry--
	if n != 1 {
		return "", ""
	}
	return paren(lim), op
}

// counting recognises loops whose post statement alone steps the variable by one.
func (x *Exec) counting(s *ast.ForStmt) *countInfo {
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok {
		return nil
	}
	id, ok := inc.X.(*ast.Ident)
	if !ok {
		return nil
	}
	obj := x.info().Uses[id]
	if obj == nil {
		return nil
	}
	bad := false
	ast.Inspect(s.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if i, ok := l.(*ast.Ident); ok && x.info().Uses[i] == obj {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if i, ok := n.X.(*ast.Ident); ok && x.info().Uses[i] == obj {
				bad = true
			}
		case *ast.UnaryExpr:
			if i, ok := n.X.(*ast.Ident); ok && n.Op == token.AND && x.info().Uses[i] == obj {
				bad = true
			}
		case *ast.CallExpr:
			// a captured variable could be changed by a closure
		case *ast.FuncLit:
			ast.Inspect(n, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok && x.info().Uses[i] == obj {
					bad = true
				}
				return true
			})
		}
		return true
	})
	if bad {
		return nil
	}
	return &countInfo{obj: obj, down: inc.Tok == token.DEC}
}

func (x *Exec) rangeStmt(st *State, s *ast.RangeStmt, label string, k K) {
	ord := x.loopOrdinal(s.Pos())
	saved := st.names
	xt := x.info().TypeOf(s.X)
	if _, isInt := xt.Underlying().(*types.Basic); isInt {
		if xt.Underlying().(*types.Basic).Info()&types.IsString != 0 {
			panic(unsupported("range over string"))
		}
	}
	k2 := k.withNext(func(s2 *State) {
		s2 = s2.clone()
		s2.names = saved
		k.next(s2)
	})
	bind := func(st *State, e ast.Expr, val *Node) {
		if e == nil {
			return
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			panic(unsupported("range target"))
		}
		if id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			x.declare(st, x.info().Defs[id], val)
		} else {
			x.set(st, &Path{root: x.info().Uses[id]}, val, s)
		}
	}
	lp := loopParts{ord: ord, at: s, label: label}
	lp.body = func(st *State, k K) { x.block(st, s.Body.List, k) }
	lp.post = func(st *State, next func(*State)) { next(st) }
	if isChanType(xt) {
		x.rangeChan(st, s, ord, lp, bind, k2)
		return
	}
	x.eval(st, s.X, func(st *State, v Val) {
		st = st.clone()
		n := x.valueOf(st, v.n)
		src := x.name(st, n.vt, x.term(st, n), "rng")
		switch u := xt.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Basic:
			intRange := false
			var et types.Type
			if b, ok := u.(*types.Basic); ok {
				intRange = true
				et = b
			} else if sl, ok := u.(*types.Slice); ok {
				et = sl.Elem()
			} else {
				et = u.(*types.Array).Elem()
			}
			length := "(" + paren(src) + ".len() as int)"
			if intRange {
				length = paren(src)
			}
			lp.extra = func(st *State, ks string) {
				st.fact(fmt.Sprintf("%s <= %s || %s == 0", ks, length, ks))
			}
			lp.enter = func(st *State, in, out func(*State)) {
				kk := st.extra[fmt.Sprintf("$k%d", ord)]
				if kk == "" {
					kk = st.extra["$k"]
				}
				pkg := x.pkg
				a := st.clone()
				a.cond(fmt.Sprintf("%s < %s", kk, length))
				kn := x.leaf(types.Typ[types.Int], kk)
				bind(a, s.Key, kn)
				if !intRange && s.Value != nil {
					// the element is read when the iteration starts
					cur := src
					en := x.leaf(et, "")
					if v.path != nil {
						// the slice may have been written in the loop
						if c := x.safeGet(st, v.path); c != nil && c.term != "" && c.term != n.term && x.sameLenWrites(n, c) {
							cur = c.term
						}
					}
					en.term = x.name(a, en.vt, fmt.Sprintf("%s[%s]", paren(cur), kk), "el")
					if n.trans && isSliceType(et) {
						en.trans = true
					}
					if v.path != nil && cur == src {
						if bn, ok := x.borrow(a, en, v.path.with(Step{k: sIndex, key: kk, t: et})); ok {
							en = bn
						} else if c := x.safeGet(a, v.path); c != nil && c.deep && hasRefs(et) {
							x.disown(a, v.path.with(Step{k: sIndex, key: kk, t: et}))
						}
					}
					bind(a, s.Value, en)
				}
				in(a)
				x.pkg = pkg
				b := st.clone()
				b.cond(fmt.Sprintf("%s == %s", kk, length))
				out(b)
				x.pkg = pkg
			}
			_ = k2
			x.runLoop(st, lp, k2)
		case *types.Map:
			x.rangeMap(st, s, u, src, v, lp, bind, k2)
		default:
			panic(unsupported("range over " + xt.String()))
		}
	})
}

func (x *Exec) safeGet(st *State, p *Path) (n *Node) {
	defer func() {
		if r := recover(); r != nil {
			n = nil
		}
	}()
	return x.get(st, p)
}

func (x *Exec) sameLenWrites(a, b *Node) bool { return false }

func (x *Exec) rangeMap(st *State, s *ast.RangeStmt, mt *types.Map, src string, v Val, lp loopParts, bind func(*State, ast.Expr, *Node), k K) {
	kt := x.types.V(mt.Key())
	done := x.doneObj(s)
	dsym := fmt.Sprintf("$done%d", lp.ord)
	st = st.clone()
	dn := &Node{t: types.Typ[types.Int], vt: "Set<" + kt + ">", term: "Set::<" + kt + ">::empty()"}
	st.vars[done] = dn
	st.fact(paren(src) + ".dom().finite()")
	setNames := func(st *State) {
		st.extra["$done"] = st.vars[done].term
		st.extra[dsym] = st.vars[done].term
		st.extra["$m"] = src
		st.extra[fmt.Sprintf("$m%d", lp.ord)] = src
	}
	setNames(st)
	lp.extra = func(st *State, ks string) {
		n := *dn
		n.term = x.fresh(n.vt, "done")
		st.vars[done] = &n
		setNames(st)
		st.fact(fmt.Sprintf("%s.subset_of(%s.dom())", n.term, paren(src)))
		st.fact(fmt.Sprintf("%s.finite()", n.term))
		st.fact(fmt.Sprintf("%s.len() == %s", n.term, ks))
		if v.path != nil {
			if cur := x.safeGet(st, v.path); cur != nil && x.term(st, cur) != src {
				// entries may be changed meanwhile, but none added or removed (checked after each round)
				st.fact(fmt.Sprintf("%s.dom() == %s.dom()", paren(x.term(st, cur)), paren(src)))
			}
		}
	}
	lp.enter = func(st *State, in, out func(*State)) {
		pkg := x.pkg
		d := st.vars[done].term
		a := st.clone()
		ks := x.fresh(kt, "key")
		a.cond(fmt.Sprintf("%s.dom().contains(%s) && !%s.contains(%s)", paren(src), ks, d, ks))
		bind(a, s.Key, x.leaf(mt.Key(), ks))
		a.extra["$key"] = ks
		a.extra[fmt.Sprintf("$key%d", lp.ord)] = ks
		if s.Value != nil {
			var cur *Node
			at := src
			if v.path != nil {
				if cur = x.safeGet(a, v.path); cur != nil {
					at = x.term(a, cur)
				}
			}
			if cur != nil && cur.deep && isSliceType(mt.Elem()) {
				bind(a, s.Value, &Node{t: mt.Elem(), vt: x.types.V(mt.Elem()), kind: kAlias, al: v.path.with(Step{k: sKey, key: ks, t: mt.Elem()})})
			} else {
				if cur != nil && cur.deep && hasRefs(mt.Elem()) {
					x.disown(a, v.path.with(Step{k: sKey, key: ks, t: mt.Elem()}))
				}
				en := x.leaf(mt.Elem(), fmt.Sprintf("mget(%s, %s, %s)", at, ks, x.types.Default(mt.Elem())))
				en.term = x.name(a, en.vt, en.term, "el")
				bind(a, s.Value, en)
			}
		}
		in(a)
		x.pkg = pkg
		b := st.clone()
		b.cond(fmt.Sprintf("%s == %s.dom()", d, paren(src)))
		out(b)
		x.pkg = pkg
	}
	lp.post = func(st *State, next func(*State)) {
		st = st.clone()
		if v.path != nil {
			if cur := x.safeGet(st, v.path); cur != nil && x.term(st, cur) != src {
				// the map itself changed while it was ranged over
				t := x.term(st, cur)
				if t != src && !x.sameMap(st, src, t) {
					x.oblig(st, fmt.Sprintf("%s.dom() =~= %s.dom()", paren(t), paren(src)), "range", s, "map is modified while it is ranged over")
				}
			}
		}
		n := *st.vars[done]
		key := st.extra[fmt.Sprintf("$key%d", lp.ord)]
		n.term = fmt.Sprintf("%s.insert(%s)", n.term, key)
		st.vars[done] = &n
		setNames(st)
		next(st)
	}
	x.runLoop(st, lp, k)
}

// sameMap: was cur introduced as a name for src?
func (x *Exec) sameMap(st *State, src, cur string) bool {
	for _, it := range st.list() {
		if it.kind == 'f' && it.text == fmt.Sprintf("%s == %s", src, cur) {
			return true
		}
	}
	return false
}

func (x *Exec) doneObj(s *ast.RangeStmt) types.Object {
	if o, ok := x.eng.doneObjs[s]; ok {
		return o
	}
	o := types.NewVar(s.Pos(), nil, "\x00done", types.Typ[types.Int])
	x.eng.doneObjs[s] = o
	return o
}

func (x *Exec) switchStmt(st *State, s *ast.SwitchStmt, label string, k K) {
	saved := st.names
	pkg := x.pkg
	end := func(s2 *State) {
		s2 = s2.clone()
		s2.names = saved
		p := x.pkg
		x.pkg = pkg
		k.next(s2)
		x.pkg = p
	}
	kb := k.withNext(end)
	kb.brk = withBrk(k.brk, label, end)
	x.stmt(st, s.Init, "", k.withNext(func(st *State) {
		tagEval := func(st *State, f func(*State, *Node)) {
			if s.Tag == nil {
				f(st, nil)
				return
			}
			x.eval(st, s.Tag, func(st *State, v Val) {
				st = st.clone()
				n := *x.valueOf(st, v.n)
				n.term = x.term(st, v.n)
				if !litTerm(n.term) {
					n.term = x.name(st, n.vt, n.term, "tag")
				}
				f(st, &n)
			})
		}
		tagEval(st, func(st *State, tag *Node) {
			var clauses []*ast.CaseClause
			var def *ast.CaseClause
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
				} else {
					clauses = append(clauses, cc)
				}
			}
			runBody := func(st *State, cc *ast.CaseClause) {
				body := cc.Body
				if len(body) > 0 {
					if b, ok := body[len(body)-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
						panic(unsupported("fallthrough"))
					}
				}
				x.block(st, body, kb)
				x.pkg = pkg
			}
			var rec func(st *State, i int)
			rec = func(st *State, i int) {
				if i == len(clauses) {
					if def != nil {
						runBody(st, def)
					} else {
						end(st)
					}
					return
				}
				cc := clauses[i]
				one := func(st *State, e ast.Expr, f func(*State, string)) {
					if tag == nil {
						x.cond(st, e, f)
						return
					}
					x.eval(st, e, func(st *State, v Val) { f(st, x.equal(st, tag, v.n)) })
				}
				decided := func(st *State, c string) {
					if c == "(false)" || c == "false" {
						rec(st, i+1)
						return
					}
					a := st.clone()
					a.cond(c)
					a.trace = append(a.trace, x.posOf(cc)+" case")
					runBody(a, cc)
					if c == "(true)" || c == "true" {
						return
					}
					b := st.clone()
					b.cond(neg(c))
					rec(b, i+1)
				}
				// the expressions of a case are tried from left to right, up to the first that matches
				var conds func(st *State, es []ast.Expr, l string)
				conds = func(st *State, es []ast.Expr, l string) {
					if len(es) == 0 {
						decided(st, l)
						return
					}
					x.shortCircuit(st, l, true, func(st *State, f func(*State, string)) { one(st, es[0], f) }, func(st *State, c string) { conds(st, es[1:], c) })
				}
				one(st, cc.List[0], func(st *State, c string) { conds(st, cc.List[1:], c) })
			}
			rec(st, 0)
		})
	}))
}

// oneScan: the loop contains exactly one call of bufio.Scanner.Scan outside nested loops and function literals, and none inside them.
func (x *Exec) oneScan(n ast.Node) bool {
	cnt, nested := 0, 0
	var walk func(n ast.Node, depth int)
	walk = func(root ast.Node, depth int) {
		ast.Inspect(root, func(m ast.Node) bool {
			if m == nil || m == root {
				return m == root
			}
			switch y := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
				walk(y, depth+1)
				return false
			case *ast.CallExpr:
				if s, ok := y.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Scan" {
					if t := x.info().TypeOf(s.X); t != nil && typeIs(t, "bufio", "Scanner") {
						if depth == 0 {
							cnt++
						} else {
							nested++
						}
					}
				}
			}
			return true
		})
	}
	walk(n, 0)
	return cnt == 1 && nested == 0
}
