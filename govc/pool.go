package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Workers: several goroutines with the same body, started in a loop, that take items off one channel and are waited for with a
// sync.WaitGroup. Every interleaving is covered by looking at one worker handling one item while all it shares with the others is in
// any state the lock's invariant allows: what it reads outside a lock nobody may change, what it changes must be guarded by a lock, and it
// sends at most one value per item, so what arrives on the output channel is some order of what the single items give.

// poolSt is what the worker being looked at has done so far.
type poolSt struct {
	g     *goRun
	wg    types.Object
	held  map[string]bool
	crit  map[types.Object]*Node // the variables when the lock was taken
	last  map[types.Object]*Node // what guarded variables held when they were last looked at under the lock
	dones int
	done  map[types.Object]*Node // the variables when the worker said it was done
	work  string                 // the channel the items come from
}

func (p *poolSt) clone() *poolSt {
	if p == nil {
		return nil
	}
	n := *p
	n.held = map[string]bool{}
	for k, v := range p.held {
		n.held[k] = v
	}
	n.last = map[types.Object]*Node{}
	for k, v := range p.last {
		n.last[k] = v
	}
	return &n
}

func (p *poolSt) str() string {
	if p == nil {
		return ""
	}
	return fmt.Sprint(p.dones, p.held, p.g.at.Pos())
}

// syncMethod tells whether a call is a method of a type of package sync on a plain variable.
func syncMethod(info *types.Info, c *ast.CallExpr) (o types.Object, typ, name string) {
	sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return
	}
	f, ok := info.Uses[sel.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || f.Pkg().Path() != "sync" {
		return
	}
	r := f.Type().(*types.Signature).Recv()
	if r == nil {
		return
	}
	rt := r.Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	n, ok := rt.(*types.Named)
	if !ok {
		return
	}
	if id, ok := ast.Unparen(sel.X).(*ast.Ident); ok {
		o = info.Uses[id]
	}
	return o, n.Obj().Name(), f.Name()
}

func isWaitGroup(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "WaitGroup"
}

// poolLoop recognises a loop that does nothing but start workers.
func (x *Exec) poolLoop(s *ast.ForStmt) (*ast.GoStmt, types.Object, bool) {
	var gs *ast.GoStmt
	for _, b := range s.Body.List {
		if g, ok := b.(*ast.GoStmt); ok {
			if gs != nil {
				return nil, nil, false
			}
			gs = g
		}
	}
	if gs == nil {
		return nil, nil, false
	}
	lit, ok := gs.Call.Fun.(*ast.FuncLit)
	if !ok || len(gs.Call.Args) != 0 {
		return nil, nil, false
	}
	var wg types.Object
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if o, t, m := syncMethod(x.info(), c); t == "WaitGroup" && m == "Done" && o != nil {
				wg = o
			}
		}
		if id, ok := n.(*ast.Ident); ok && wg == nil {
			if o := x.info().Uses[id]; o != nil && isWaitGroup(o.Type()) {
				wg = o
			}
		}
		return true
	})
	if wg == nil {
		// nothing says when the worker ends; is there a group at all?
		for _, b := range s.Body.List {
			if e, ok := b.(*ast.ExprStmt); ok {
				if c, ok := e.X.(*ast.CallExpr); ok {
					if o, t, _ := syncMethod(x.info(), c); t == "WaitGroup" {
						wg = o
					}
				}
			}
		}
	}
	if wg == nil {
		return nil, nil, false
	}
	added := false
	for _, b := range s.Body.List {
		if b == ast.Stmt(gs) {
			continue
		}
		e, ok := b.(*ast.ExprStmt)
		if !ok {
			panic(unsupported("loop that starts workers does something else"))
		}
		c, ok := e.X.(*ast.CallExpr)
		if !ok {
			panic(unsupported("loop that starts workers does something else"))
		}
		o, t, m := syncMethod(x.info(), c)
		if t != "WaitGroup" || m != "Add" || o != wg {
			panic(unsupported("loop that starts workers does something else"))
		}
		if v := x.info().Types[c.Args[0]].Value; v == nil || v.String() != "1" {
			panic(unsupported("workers are not added one by one"))
		}
		added = b.Pos() < gs.Pos()
	}
	return gs, wg, added
}

// startPool is the loop that starts the workers.
func (x *Exec) startPool(st *State, s *ast.ForStmt, gs *ast.GoStmt, wg types.Object, added bool, k K) {
	x.loopOrdinal(s.Pos())
	saved := st.names
	lit := gs.Call.Fun.(*ast.FuncLit)
	if st.conc != nil && (st.conc.gdeep != nil || st.conc.ps != nil) {
		panic(unsupported("goroutine started by a goroutine"))
	}
	x.stmt(st, s.Init, "", k.withNext(func(st *State) {
		loopVars := map[types.Object]bool{}
		for _, o := range st.names {
			if s.Pos() <= o.Pos() && o.Pos() < s.Body.Pos() {
				loopVars[o] = true
			}
		}
		goOn := func(st *State, c string) {
			st = st.clone()
			x.obligNamed(st, c, "join", "workers", s, "at least one worker is started")
			st.fact(c)
			if !added {
				x.obligNamed(st, "false", "join", "add", gs, "a worker is added to the group before it is started")
			}
			g := &goRun{lit: lit, pkg: x.pkg, at: gs, uses: map[types.Object]bool{}, params: map[types.Object]*Node{}}
			ast.Inspect(lit.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if o, ok := x.info().Uses[id].(*types.Var); ok && st.vars[o] != nil {
						if loopVars[o] {
							panic(unsupported("worker uses the loop variable"))
						}
						g.uses[o] = true
					}
				}
				return true
			})
			g.params = x.snapshot(st, g)
			st.conc = st.conc.copy()
			st.conc.pools = append(st.conc.pools, &poolSt{g: g, wg: wg})
			st.names = saved
			k.next(st)
		}
		if s.Cond == nil {
			panic(unsupported("workers are started for ever"))
		}
		x.cond(st, s.Cond, goOn)
	}))
}

// syncCall models the methods of sync.Mutex and sync.WaitGroup.
func (x *Exec) syncCall(st *State, o types.Object, typ, name string, at ast.Node, f func(*State, []Val)) {
	if o == nil {
		panic(unsupported("sync." + typ + " that is no variable"))
	}
	ps := (*poolSt)(nil)
	if st.conc != nil {
		ps = st.conc.ps
	}
	switch typ + "." + name {
	case "WaitGroup.Done":
		if ps == nil || ps.wg != o {
			panic(unsupported("Done outside a worker"))
		}
		st = st.clone()
		st.conc = st.conc.copy()
		ps = st.conc.ps
		ps.dones++
		if ps.dones > 1 {
			x.oblig(st, "false", "join", at, "a worker says once that it is done")
		}
		ps.done = map[types.Object]*Node{}
		for v, n := range st.vars {
			ps.done[v] = n
		}
		f(st, nil)
	case "WaitGroup.Wait":
		if ps != nil {
			panic(unsupported("worker waits for workers"))
		}
		var mine []*poolSt
		var rest []*poolSt
		if st.conc != nil {
			for _, p := range st.conc.pools {
				if p.wg == o {
					mine = append(mine, p)
				} else {
					rest = append(rest, p)
				}
			}
		}
		if len(mine) == 0 {
			f(st, nil)
			return
		}
		if len(mine) > 1 {
			panic(unsupported("several kinds of workers"))
		}
		st = st.clone()
		st.conc = st.conc.copy()
		st.conc.pools = rest
		x.runPool(st, mine[0], at, f)
	case "Mutex.Lock", "RWMutex.Lock":
		st = st.clone()
		st.conc = st.conc.copy()
		if ps == nil {
			if len(st.conc.pools) > 0 || len(st.conc.gos) > 0 {
				panic(unsupported("lock taken while others run"))
			}
			f(st, nil)
			return
		}
		ps = st.conc.ps
		if len(ps.held) > 0 {
			x.oblig(st, "false", "deadlock", at, "a worker holds one lock at a time")
		}
		x.guardChanged(st, at)
		ps.held[o.Name()] = true
		for _, g := range x.con.Shared {
			if g.By == o.Name() {
				v := x.guarded(st, g)
				x.havoc(st, []modLeaf{{root: v, t: v.Type()}})
				st.fact(x.subst(st, g.Inv, st))
				ps.last[v] = st.vars[v]
			}
		}
		ps.crit = map[types.Object]*Node{}
		for v, n := range st.vars {
			ps.crit[v] = n
		}
		f(st, nil)
	case "Mutex.Unlock", "RWMutex.Unlock":
		st = st.clone()
		st.conc = st.conc.copy()
		if ps == nil {
			f(st, nil)
			return
		}
		ps = st.conc.ps
		if !ps.held[o.Name()] {
			x.oblig(st, "false", "deadlock", at, "a lock that is released is held")
		}
		known := map[types.Object]bool{}
		for _, g := range x.con.Shared {
			if g.By == o.Name() {
				v := x.guarded(st, g)
				known[v] = true
				x.obligNamed(st, x.subst(st, g.Inv, st), "invariant", "shared."+g.Var, at, "what "+g.By+" guards is in order when it is released: "+g.Inv)
				ps.last[v] = st.vars[v]
			}
		}
		for v, n := range ps.crit {
			if !known[v] && st.vars[v] != n && ps.g.uses[v] {
				panic(unsupported("the lock guards " + v.Name() + ", which the contract does not mention"))
			}
		}
		delete(ps.held, o.Name())
		f(st, nil)
	default:
		panic(unsupported("sync." + typ + "." + name))
	}
}

// guarded is the variable a "shared" clause names.
func (x *Exec) guarded(st *State, g SharedVar) types.Object {
	for o := range st.conc.ps.g.uses {
		if o.Name() == g.Var {
			return o
		}
	}
	panic(unsupported("no variable " + g.Var + " in the worker"))
}

// guardChanged: guarded variables have not been set since the lock was released.
func (x *Exec) guardChanged(st *State, at ast.Node) {
	ps := st.conc.ps
	for v, n := range ps.last {
		if st.vars[v] != n {
			x.oblig(st, "false", "race", at, "the worker sets "+v.Name()+" only while it holds the lock")
		}
	}
}

// racedPool: a guarded variable is used without its lock.
func (x *Exec) racedPool(st *State, o types.Object, at ast.Node) {
	if st.conc == nil {
		return
	}
	if ps := st.conc.ps; ps != nil {
		for _, g := range x.con.Shared {
			if g.Var == o.Name() && ps.g.uses[o] && !ps.held[g.By] {
				x.oblig(st, "false", "race", at, "the worker looks at "+g.Var+" only while it holds "+g.By)
			}
		}
		return
	}
	for _, p := range st.conc.pools {
		for _, g := range x.con.Shared {
			if g.Var == o.Name() && p.g.uses[o] {
				x.oblig(st, "false", "join", at, "the workers that change "+o.Name()+" have been waited for")
			}
		}
	}
}

// runPool looks at one worker and then goes on with what all of them leave.
func (x *Exec) runPool(st *State, p *poolSt, at ast.Node, f func(*State, []Val)) {
	// the items are all there
	var works []types.Object
	ast.Inspect(p.g.lit.Body, func(n ast.Node) bool {
		if r, ok := n.(*ast.RangeStmt); ok {
			if id, ok := unparen(r.X).(*ast.Ident); ok {
				if o := p.g.pkg.Info.Uses[id]; o != nil && isChanType(o.Type()) && p.g.uses[o] {
					works = append(works, o)
				}
			}
		}
		return true
	})
	if len(works) != 1 {
		panic(unsupported("workers that do not take items off one channel"))
	}
	for o, n := range p.g.params {
		if n != st.vars[o] && !isChanType(o.Type()) {
			panic(unsupported("variable " + o.Name() + " is changed while workers use it"))
		}
	}
	wp := x.chanAt(st, &Path{root: works[0]})
	x.demand(st, wp, at, func(st *State) {
		st = st.clone()
		st.conc = st.conc.copy()
		wc := x.chanOf(st, wp)
		if !wc.closed {
			x.oblig(st, "false", "deadlock", at, "the channel of the items is closed")
		}
		if wc.recvd != "0int" {
			panic(unsupported("items are taken before the workers start"))
		}
		guard := map[types.Object]bool{}
		ps := p.clone()
		ps.work = wp.str()
		ps.dones = 0
		for _, g := range x.con.Shared {
			for o := range p.g.uses {
				if o.Name() == g.Var {
					guard[o] = true
					ps.last[o] = st.vars[o]
					x.obligNamed(st, x.subst(st, g.Inv, st), "invariant", "shared."+g.Var+".start", at, "what "+g.By+" guards is in order when the workers start: "+g.Inv)
				}
			}
		}
		// what the workers change
		var out *Path
		x.dry++
		x.worker(st, ps, at, func(start, s *State) {
			for o, n := range start.vars {
				if s.vars[o] == nil || guard[o] {
					continue
				}
				var ms []modLeaf
				x.diffNodes(n, s.vars[o], o, nil, &ms)
				for _, m := range ms {
					if isChanType(m.t) {
						q := &Path{root: m.root, steps: m.steps}
						if out != nil && out.str() != q.str() {
							panic(unsupported("workers send on several channels"))
						}
						out = q
					}
				}
			}
		}, nil)
		x.dry--
		x.worker(st, ps, at, func(start, s *State) {
			for _, o := range sortedObjs(start.vars) {
				n := start.vars[o]
				if s.vars[o] == nil || guard[o] || n == s.vars[o] {
					continue
				}
				var ms []modLeaf
				x.diffNodes(n, s.vars[o], o, nil, &ms)
				for _, m := range ms {
					if !isChanType(m.t) {
						q := &Path{root: m.root, steps: m.steps}
						x.obligNamed(s, "false", "race", "race."+o.Name(), p.g.at, "a worker changes "+q.str()+", which the others use, without a lock")
					}
				}
			}
		}, out)
		// what they leave
		st = st.clone()
		st.conc = st.conc.copy()
		items := x.term(st, x.get(st, wp))
		x.taken(st, wp, "("+paren(items)+".len() as int)", true, at)
		for _, g := range x.con.Shared {
			for o := range guard {
				if o.Name() == g.Var {
					x.havoc(st, []modLeaf{{root: o, t: o.Type()}})
					st.fact(x.subst(st, g.Inv, st))
				}
			}
		}
		if out != nil {
			n := x.get(st, out)
			sent := x.fresh(n.vt, "sent")
			outs := x.fresh("Seq<"+n.vt+">", "outs")
			st.fact(fmt.Sprintf("%s.len() == %s.len()", outs, paren(items)))
			for _, c := range x.con.Each {
				if !hasProp(c.Props, x.eng.prop) {
					continue
				}
				i := x.eng.freshName("i")
				q := st.clone()
				q.extra["$item"] = fmt.Sprintf("%s[%s]", paren(items), i)
				q.extra["$sent"] = fmt.Sprintf("%s[%s]", outs, i)
				st.fact(fmt.Sprintf("forall|%s: int| 0 <= %s < %s.len() ==> (#[trigger] %s[%s]).len() >= 0 && (%s)", i, i, paren(items), outs, i, x.subst(q, c.Text, q)))
			}
			st.fact(fmt.Sprintf("forall|i: int| 0 <= i < %s.len() ==> (#[trigger] %s[i]).len() <= 1", paren(items), outs))
			st.fact(fmt.Sprintf("is_shuffle(%s, %s)", outs, sent))
			st.extra["$items"] = items
			st.extra["$outs"] = outs
			st.extra["$sent"] = sent
			m := *n
			m.term = x.name(st, n.vt, fmt.Sprintf("%s + %s", paren(x.term(st, n)), sent), "all")
			x.set(st, out, &m, at)
		}
		x.hintAt(st, "done pool", at)
		f(st, nil)
	})
}

func sortedObjs(m map[types.Object]*Node) []types.Object {
	var r []types.Object
	for o := range m {
		r = append(r, o)
	}
	sortObjs(r)
	return r
}

// worker runs the body of a worker for one arbitrary item.
func (x *Exec) worker(st *State, ps *poolSt, at ast.Node, each func(start, end *State), out *Path) {
	st = st.clone()
	st.conc = st.conc.copy()
	st.conc.ps = ps.clone()
	for o := range ps.g.uses {
		if st.vars[o] == nil {
			st.vars[o] = ps.g.params[o]
		}
	}
	oldEach, oldOut := x.poolEach, x.poolOut
	x.poolEach, x.poolOut = each, out
	pkg, names := x.pkg, st.names
	x.pkg = ps.g.pkg
	sig := ps.g.pkg.Info.TypeOf(ps.g.lit).(*types.Signature)
	x.inline(st, ps.g.pkg, "go@"+fmt.Sprint(ps.g.lit.Pos()), sig, nil, nil, nil, ps.g.lit.Body, ps.g.at, func(s *State, _ []Val) {
		s = s.clone()
		s.names = names
		p := s.conc.ps
		if p.dones != 1 {
			x.oblig(s, "false", "join", ps.g.at, "a worker says once that it is done")
		}
		if len(p.held) > 0 {
			x.oblig(s, "false", "deadlock", ps.g.at, "a worker gives back its lock")
		}
		for o, n := range p.done {
			if s.vars[o] != nil && s.vars[o] != n {
				x.oblig(s, "false", "join", ps.g.at, "a worker changes "+o.Name()+" after it said it was done")
			}
		}
	})
	x.pkg = pkg
	x.poolEach, x.poolOut = oldEach, oldOut
}

// poolRange is the loop of a worker over the items.
func (x *Exec) poolRange(st *State, p *Path, s *ast.RangeStmt, bind func(*State, ast.Expr, *Node), k K) {
	pkg, names := x.pkg, st.names
	n := x.get(st, p)
	et := n.t.Underlying().(*types.Chan).Elem()
	items := x.term(st, n)
	each, out := x.poolEach, x.poolOut
	other := func(st *State) { // what other workers did meanwhile
		if out != nil {
			m := *x.get(st, out)
			m.term = x.fresh(m.vt, "sofar")
			x.set(st, out, &m, s)
		}
	}
	a := st.clone()
	a.conc = a.conc.copy()
	other(a)
	kk := x.fresh("int", "k")
	a.fact(fmt.Sprintf("0 <= %s < %s.len()", kk, paren(items)))
	en := x.leaf(et, "")
	en.term = x.name(a, en.vt, fmt.Sprintf("%s[%s]", paren(items), kk), "el")
	bind(a, s.Key, en)
	a.trace = append(a.trace, x.posOf(s)+" worker takes an item")
	x.hintAt(a, "item", s)
	start := a.clone()
	x.coverPoint(a, "worker.item", s)
	end := func(b *State) {
		x.pkg = pkg
		b = b.clone()
		b.names = names
		if b.conc.ps.str() != start.conc.ps.str() {
			x.oblig(b, "false", "join", s, "a worker is not done, and holds no lock, when it takes the next item")
		}
		x.guardChanged(b, s)
		if out != nil {
			r0, r1 := x.term(start, x.get(start, out)), x.term(b, x.get(b, out))
			x.obligNamed(b, fmt.Sprintf("%[2]s.len() >= %[1]s.len() && %[2]s.len() <= %[1]s.len() + 1 && %[2]s.subrange(0, %[1]s.len() as int) =~= %[1]s", paren(r0), paren(r1)), "postcondition", "one", s, "a worker sends at most one value for an item")
			b.extra["$item"] = en.term
			b.extra["$sent"] = x.name(b, x.get(b, out).vt, fmt.Sprintf("%s.skip(%s.len() as int)", paren(r1), paren(r0)), "sent")
		} else {
			b.extra["$item"] = en.term
		}
		x.hintAt(b, "end item", s)
		for i, c := range x.con.Each {
			if out == nil && strings.Contains(c.Text, "$sent") {
				if x.dry == 0 {
					panic(unsupported("workers that send nothing"))
				}
				continue
			}
			if hasProp(c.Props, x.eng.prop) {
				x.obligNamed(b, x.subst(b, c.Text, b), "postcondition", "each"+clauseName(c, i), s, "for each item: "+c.Text)
			}
		}
		each(start, b)
	}
	leave := func(what string) func(*State) {
		return func(b *State) {
			x.oblig(b, "false", "postcondition", s, "a worker "+what+" only when no item is left")
		}
	}
	kb := K{next: end, ret: func(b *State, _ []Val) { leave("ends")(b) }}
	kb.cont = withBrk(k.cont, "", end)
	kb.brk = withBrk(k.brk, "", leave("leaves its loop"))
	x.block(a, s.Body.List, kb)
	x.pkg = pkg
	b := st.clone()
	other(b)
	k.next(b)
	x.pkg = pkg
}

func (g *Engine) freshName(h string) string {
	g.symN["\x00"+h]++
	return fmt.Sprintf("%s_q%d", h, g.symN["\x00"+h])
}

var _ = token.NoPos
