package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Goroutines that talk to the function that started them over channels only.
//
// Such a network is deterministic: what is sent over each channel does not depend on the schedule as long as every channel has one
// sender and one receiver, receives block, and nothing else is shared while both run. So a goroutine may be run as a whole at the
// moment its starter first needs something from it. What this needs is checked on the way: obligations where a change could break a
// guarantee (a receive that can wait for ever, a channel left open, a goroutine nobody waits for), and outside the subset otherwise.

type goRun struct {
	lit    *ast.FuncLit
	pkg    *Pkg
	at     *ast.GoStmt
	params map[types.Object]*Node // what the variables it uses held when it was started
	uses   map[types.Object]bool
	names  map[string]types.Object
}

type chanSt struct {
	closed bool
	recvd  string // number of values taken off
	sunk   bool
	handed string // what it will carry in all, once it was handed out inside a record
	root   types.Object
}

type concSt struct {
	gos    []*goRun
	ch     map[string]chanSt
	log    []string                // the channels a goroutine has sent on or closed, in order
	gdeep  *goRun                  // the goroutine being run
	racy   map[types.Object]string // variables the goroutine changed, until its last signal is received
	snap   map[types.Object]*Node  // the goroutine's variables at its last signal
	before map[string][]string     // channels a goroutine serves before this one
	pools  []*poolSt               // workers that were started
	ps     *poolSt                 // the worker being looked at
}

func (c *concSt) copy() *concSt {
	n := &concSt{ch: map[string]chanSt{}, racy: map[types.Object]string{}, before: map[string][]string{}}
	if c != nil {
		n.gos = append([]*goRun{}, c.gos...)
		for k, v := range c.ch {
			n.ch[k] = v
		}
		n.log = append([]string{}, c.log...)
		n.gdeep = c.gdeep
		for k, v := range c.racy {
			n.racy[k] = v
		}
		n.snap = c.snap
		n.pools = append([]*poolSt{}, c.pools...)
		n.ps = c.ps.clone()
		for k, v := range c.before {
			n.before[k] = v
		}
	}
	return n
}

func (c *concSt) idle() bool {
	return c == nil || len(c.gos) == 0 && len(c.ch) == 0 && len(c.log) == 0 && len(c.racy) == 0 && c.gdeep == nil
}

func (c chanSt) str() string { return fmt.Sprintf("%v %s %v %s", c.closed, c.recvd, c.sunk, c.handed) }

func sameConc(a, b *concSt, but string) bool {
	if a == b || a.idle() && b.idle() {
		return true
	}
	a, b = a.copy(), b.copy()
	if len(a.pools) != len(b.pools) || a.ps.str() != b.ps.str() {
		return false
	}
	if len(a.gos) != len(b.gos) || a.gdeep != b.gdeep || len(a.racy) != len(b.racy) {
		return false
	}
	for i := range a.gos {
		if a.gos[i] != b.gos[i] {
			return false
		}
	}
	for k := range a.racy {
		if a.racy[k] != b.racy[k] {
			return false
		}
	}
	for k := range b.ch {
		if _, ok := a.ch[k]; !ok {
			a.ch[k] = chanSt{recvd: "0int"}
		}
	}
	for k := range a.ch {
		y, ok := b.ch[k]
		if !ok {
			y = chanSt{recvd: "0int"}
		}
		x := a.ch[k]
		if k == but {
			x.recvd, y.recvd = "", ""
		}
		if x.str() != y.str() {
			return false
		}
	}
	return true
}

// chanAt is the channel an expression stands for.
func (x *Exec) chanAt(st *State, p *Path) *Path {
	p = x.realPath(st, p)
	for _, s := range p.steps {
		if s.k != sField && x.entry != nil && x.entry.vars[p.root] == nil {
			panic(unsupported("channel kept in a local structure"))
		}
	}
	return p
}

func (x *Exec) localChan(p *Path) bool {
	return len(p.steps) == 0 && (x.entry == nil || x.entry.vars[p.root] == nil)
}

func (x *Exec) chanOf(st *State, p *Path) chanSt {
	if st.conc != nil {
		if c, ok := st.conc.ch[p.str()]; ok {
			return c
		}
	}
	return chanSt{recvd: "0int"}
}

func (x *Exec) setChan(st *State, p *Path, c chanSt) {
	c.root = p.root
	st.conc = st.conc.copy()
	st.conc.ch[p.str()] = c
}

// Channels inside records. A record that is sent may carry a channel on which more follows. What that channel will carry in
// all is given a name when the record is sent, and is known to be what was sent on it when it is closed.

func chanFields(t types.Type) []*types.Var {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if isChanType(f.Type()) {
			r = append(r, f)
		} else if len(chanFields(f.Type())) > 0 {
			panic(unsupported("channel in a nested structure"))
		}
	}
	return r
}

// handOut is the record with its channels as the receiver gets them.
func (x *Exec) handOut(st *State, v Val, at ast.Node) *Node {
	fs := chanFields(v.n.t)
	if len(fs) == 0 {
		return v.n
	}
	m := *x.explode(v.n)
	m.f = map[string]*Node{}
	for k, n := range x.explode(v.n).f {
		m.f[k] = n
	}
	for _, f := range fs {
		n := m.f[f.Name()]
		var p *Path
		switch {
		case n.kind == kAlias:
			p = x.chanAt(st, n.al)
		case v.path != nil:
			p = x.chanAt(st, v.path.with(Step{k: sField, name: f.Name(), t: f.Type()}))
		default:
			panic(unsupported("channel handed out that nobody knows"))
		}
		if x.entry == nil || x.entry.vars[p.root] != nil {
			panic(unsupported("channel that was passed in is handed out"))
		}
		c := x.chanOf(st, p)
		cn := x.get(st, p)
		if cn.foreign || c.handed != "" {
			panic(unsupported("channel handed out twice"))
		}
		for _, g := range st.conc.copy().gos {
			if g.uses[p.root] {
				panic(unsupported("channel handed out while a goroutine uses it"))
			}
		}
		have := x.term(st, cn)
		if have != x.types.Default(f.Type()) {
			x.oblig(st, paren(have)+".len() == 0", "deadlock", at, "somebody receives what is sent on "+f.Name())
		}
		c.handed = x.fresh(x.types.V(f.Type()), "all")
		if c.closed {
			st.fact(c.handed + " == " + have)
		}
		x.setChan(st, p, c)
		m.f[f.Name()] = x.leaf(f.Type(), c.handed)
	}
	return &m
}

// iterEnd: what one iteration made is settled before the next.
func (x *Exec) iterEnd(head, st *State, key *Path, at ast.Node) {
	if key != nil {
		for _, f := range chanFields(x.pathType(key)) {
			q := x.chanAt(st, key.with(Step{k: sField, name: f.Name(), t: f.Type()}))
			c := x.chanOf(st, q)
			x.oblig(st, fmt.Sprintf("%s == %s.len()", paren(c.recvd), paren(x.term(st, x.get(st, q)))), "deadlock", at, "everything that follows on "+f.Name()+" is received before the next record")
		}
	}
	if st.conc == nil {
		return
	}
	st.conc = st.conc.copy()
	for k, c := range st.conc.ch {
		if c.root == nil || head.vars[c.root] != nil {
			continue
		}
		x.handedClosed(st, c, at)
		delete(st.conc.ch, k)
	}
	if head.conc == nil && st.conc.idle() {
		st.conc = nil
	}
}

func (x *Exec) handedClosed(st *State, c chanSt, at ast.Node) {
	if c.handed != "" && !c.closed {
		x.oblig(st, "false", "channel", at, "the channel handed out with a record is closed")
	}
}

// event notes that a channel was sent on or closed.
func (x *Exec) event(st *State, p *Path, at ast.Node) {
	if st.conc == nil || st.conc.gdeep == nil || !x.localChan(p) {
		return
	}
	g := st.conc.gdeep
	if !g.uses[p.root] {
		return // a channel of its own
	}
	s := p.str()
	for o := range g.uses {
		q := &Path{root: o}
		if o == p.root || !isChanType(o.Type()) {
			continue
		}
		q = x.chanAt(st, q)
		if x.localChan(q) && q.str() != s && x.receivesFrom(g, o) {
			// values the starter still wants to hand over while it waits for this one
			if c := x.chanOf(st, q); !x.allTaken(st, q, c) {
				x.oblig(st, "false", "deadlock", at, "the goroutine has received everything before it signals")
			}
		}
	}
	st.conc = st.conc.copy()
	l := st.conc.log
	if len(l) == 0 || l[len(l)-1] != s {
		for _, o := range l {
			if o == s {
				panic(unsupported("goroutine alternates between channels"))
			}
		}
		st.conc.log = append(l, s)
	}
	st.conc.snap = x.snapshot(st, g)
}

func (x *Exec) allTaken(st *State, p *Path, c chanSt) bool {
	n := x.get(st, p)
	return c.closed && c.recvd == "("+paren(x.term(st, n))+".len() as int)"
}

func (x *Exec) snapshot(st *State, g *goRun) map[types.Object]*Node {
	m := map[types.Object]*Node{}
	for o := range g.uses {
		m[o] = st.vars[o]
	}
	for o, n := range st.vars {
		if isHeapVar(o) {
			m[o] = n
		}
	}
	return m
}

// receivesFrom: does the goroutine's own text take values off the channel?
func (x *Exec) receivesFrom(g *goRun, o types.Object) bool {
	hit := false
	ast.Inspect(g.lit.Body, func(n ast.Node) bool {
		var e ast.Expr
		switch n := n.(type) {
		case *ast.RangeStmt:
			e = n.X
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				e = n.X
			}
		}
		if id, ok := unparen(e).(*ast.Ident); ok && g.pkg.Info.Uses[id] == o {
			hit = true
		}
		return true
	})
	return hit
}

func (x *Exec) sendChan(st *State, p *Path, at ast.Node) {
	c := x.chanOf(st, p)
	if c.closed {
		x.oblig(st, "false", "channel", at, "no value is sent on a closed channel")
	}
	if len(p.steps) > 0 && x.entry != nil && x.entry.vars[p.root] == nil {
		if x.get(st, p).foreign {
			panic(unsupported("send on a channel that was received"))
		}
		if c.handed == "" {
			x.oblig(st, "false", "deadlock", at, "somebody receives what is sent")
		}
	}
	x.event(st, p, at)
}

func (x *Exec) closeChan(st *State, p *Path, at ast.Node) *State {
	st = st.clone()
	c := x.chanOf(st, p)
	if c.closed {
		x.oblig(st, "false", "channel", at, "a channel is closed once")
	}
	c.closed = true
	if x.get(st, p).foreign {
		panic(unsupported("close of a channel that was received"))
	}
	if c.handed != "" {
		st.fact(c.handed + " == " + x.term(st, x.get(st, p)))
	}
	x.setChan(st, p, c)
	x.event(st, p, at)
	return st
}

// goStmt starts a goroutine.
func (x *Exec) goStmt(st *State, s *ast.GoStmt, next func(*State)) {
	lit, ok := s.Call.Fun.(*ast.FuncLit)
	if !ok || len(s.Call.Args) != 0 {
		panic(unsupported("go statement"))
	}
	if x.sinkGo(s) {
		x.evalPath(st, lit.Body.List[0].(*ast.RangeStmt).X, func(st *State, p *Path) {
			st = st.clone()
			p = x.chanAt(st, p)
			if x.localChan(p) {
				c := x.chanOf(st, p)
				c.sunk = true
				x.setChan(st, p, c)
			}
			next(st)
		})
		return
	}
	g := &goRun{lit: lit, pkg: x.pkg, at: s, uses: map[types.Object]bool{}, params: map[types.Object]*Node{}}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		if o, ok := x.info().Uses[id].(*types.Var); ok && st.vars[o] != nil {
			g.uses[o] = true
		}
		return true
	})
	if st.conc != nil && (st.conc.gdeep != nil || st.conc.ps != nil) {
		panic(unsupported("goroutine started by a goroutine"))
	}
	st = st.clone()
	g.params = x.snapshot(st, g)
	g.names = st.names
	st.conc = st.conc.copy()
	st.conc.gos = append(st.conc.gos, g)
	next(st)
}

// demand runs the goroutines that serve a channel.
func (x *Exec) demand(st *State, p *Path, at ast.Node, f func(*State)) {
	if st.conc == nil {
		f(st)
		return
	}
	var g *goRun
	n := 0
	for _, h := range st.conc.gos {
		for o := range h.uses {
			if isChanType(o.Type()) && x.chanAt(st, &Path{root: o}).str() == p.str() {
				g = h
				n++
			}
		}
	}
	if n > 1 {
		panic(unsupported("channel used by several goroutines"))
	}
	if g == nil {
		f(st)
		return
	}
	if st.conc.gdeep != nil {
		panic(unsupported("goroutine waits for another"))
	}
	x.runGo(st, g, at, f)
}

func (x *Exec) runGo(st *State, g *goRun, at ast.Node, f func(*State)) {
	st = st.clone()
	st.conc = st.conc.copy()
	var rest []*goRun
	for _, h := range st.conc.gos {
		if h != g {
			rest = append(rest, h)
			for o := range h.uses {
				if g.uses[o] && isChanType(o.Type()) && x.localChan(x.chanAt(st, &Path{root: o})) {
					panic(unsupported("channel used by several goroutines"))
				}
			}
		}
	}
	// what the starter did meanwhile does not concern it
	var guard []types.Object
	for o, n := range g.params {
		if isChanType(o.Type()) || n == st.vars[o] || st.vars[o] == nil {
			continue
		}
		if isHeapVar(o) {
			guard = append(guard, o)
			continue
		}
		var out []modLeaf
		x.diffNodes(n, st.vars[o], o, nil, &out)
		for _, m := range out {
			if !isChanType(m.t) && !m.same {
				panic(unsupported("variable " + o.Name() + " is changed while a goroutine uses it"))
			}
		}
	}
	st.conc.gos = rest
	st.conc.gdeep = g
	st.conc.log = nil
	st.conc.snap = nil
	for o := range g.uses {
		if st.vars[o] == nil {
			st.vars[o] = g.params[o]
		}
	}
	start := x.snapshot(st, g)
	oldGuard := x.heapGuard
	x.heapGuard = guard
	pkg := x.pkg
	names := st.names
	st.names = g.names
	x.pkg = g.pkg
	sig := g.pkg.Info.TypeOf(g.lit).(*types.Signature)
	ngos := len(rest)
	x.inline(st, g.pkg, "go@"+fmt.Sprint(g.lit.Pos()), sig, nil, nil, nil, g.lit.Body, g.at, func(st *State, _ []Val) {
		hg := x.heapGuard
		x.heapGuard = oldGuard
		p0 := x.pkg
		x.pkg = pkg
		st = st.clone()
		st.names = names
		st.conc = st.conc.copy()
		if len(st.conc.gos) != ngos {
			panic(unsupported("goroutine started by a goroutine"))
		}
		log := st.conc.log
		// after its last signal it does nothing that can be seen
		if len(log) > 0 {
			for o, n := range st.conc.snap {
				if n == st.vars[o] {
					continue
				}
				var out []modLeaf
				x.diffNodes(n, st.vars[o], o, nil, &out)
				for _, m := range out {
					what := "changes " + o.Name()
					if isChanType(m.t) {
						what = "sends on " + o.Name()
					}
					x.oblig(st, "false", "join", g.at, "the goroutine "+what+" after its last signal to the function that waits for it")
				}
			}
		}
		for i, c := range log {
			st.conc.before[c] = append([]string{}, log[:i]...)
		}
		last := ""
		if len(log) > 0 {
			last = log[len(log)-1]
		}
		for o, n := range start {
			if n == st.vars[o] || isChanType(o.Type()) {
				continue
			}
			if isHeapVar(o) {
				panic(unsupported("goroutine changes shared structures"))
			}
			var out []modLeaf
			x.diffNodes(n, st.vars[o], o, nil, &out)
			real := false
			for _, m := range out {
				real = real || !isChanType(m.t)
			}
			if real {
				x.mainMentions(o, g, at)
				st.conc.racy[o] = last
			}
		}
		st.conc.gdeep = nil
		st.conc.log = nil
		st.conc.snap = nil
		f(st)
		x.pkg = p0
		x.heapGuard = hg
	})
	x.heapGuard = oldGuard
	x.pkg = pkg
}

// mainMentions: between the start of a goroutine and the point where it is waited for, its variables are its own.
func (x *Exec) mainMentions(o types.Object, g *goRun, at ast.Node) {
	if x.noGoPkg(g.pkg) == nil {
		return
	}
	for _, f := range g.pkg.Files {
		if f.Pos() <= g.at.Pos() && g.at.Pos() < f.End() {
			inLit := 0
			var stack []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					if _, ok := stack[len(stack)-1].(*ast.FuncLit); ok {
						inLit--
					}
					stack = stack[:len(stack)-1]
					return true
				}
				if n == ast.Node(g.lit) {
					return false
				}
				stack = append(stack, n)
				if _, ok := n.(*ast.FuncLit); ok {
					inLit++
				}
				if id, ok := n.(*ast.Ident); ok && g.pkg.Info.Uses[id] == o {
					if inLit > 0 || g.at.End() <= id.Pos() && id.Pos() < at.Pos() {
						panic(unsupported("variable " + o.Name() + " is used while a goroutine changes it"))
					}
				}
				return true
			})
		}
	}
}

func (x *Exec) noGoPkg(p *Pkg) *Pkg { return p }

// taken: values up to n have been received.
func (x *Exec) taken(st *State, p *Path, n string, whole bool, at ast.Node) {
	c := x.chanOf(st, p)
	for _, b := range st.conc.copy().before[p.str()] {
		for o := range st.vars {
			q := &Path{root: o}
			if q.str() != b {
				continue
			}
			cb := x.chanOf(st, q)
			sent := x.term(st, x.get(st, q))
			x.oblig(st, fmt.Sprintf("%s >= %s.len()", paren(cb.recvd), paren(sent)), "deadlock", at, "everything the goroutine sends on "+o.Name()+" first has been received")
		}
	}
	c.recvd = n
	x.setChan(st, p, c)
	for o, s := range st.conc.racy {
		if s == p.str() {
			delete(st.conc.racy, o)
		}
	}
}

// receive is a single receive, <-ch
func (x *Exec) receive(st *State, e *ast.UnaryExpr, f func(*State, Val)) {
	x.evalPath(st, e.X, func(st *State, p *Path) {
		p = x.chanAt(st, p)
		if !x.localChan(p) {
			panic(unsupported("receive from a channel that was passed in"))
		}
		x.demand(st, p, e, func(st *State) {
			st = st.clone()
			c := x.chanOf(st, p)
			n := x.get(st, p)
			sent := x.term(st, n)
			et := n.t.Underlying().(*types.Chan).Elem()
			if x.localOwner(st, p) {
				x.oblig(st, "false", "deadlock", e, "somebody sends what is waited for")
				return
			}
			if !c.closed {
				x.oblig(st, fmt.Sprintf("%s < %s.len()", paren(c.recvd), paren(sent)), "deadlock", e, "somebody sends what is waited for")
				st.fact(fmt.Sprintf("%s < %s.len()", paren(c.recvd), paren(sent)))
			}
			v := x.leaf(et, fmt.Sprintf("if %s < %s.len() { %s[%s] } else { %s }", paren(c.recvd), paren(sent), paren(sent), c.recvd, x.types.Default(et)))
			v.term = x.name(st, v.vt, "("+v.term+")", "rcv")
			nr := x.name(st, "int", fmt.Sprintf("(if %s < %s.len() { %s + 1 } else { %s })", paren(c.recvd), paren(sent), paren(c.recvd), c.recvd), "rcvd")
			x.taken(st, p, nr, true, e)
			f(st, Val{n: v})
		})
	})
}

// localOwner: nobody else can send on the channel any more
func (x *Exec) localOwner(st *State, p *Path) bool { return false }

// rangeChan is for v := range ch
func (x *Exec) rangeChan(st *State, s *ast.RangeStmt, ord int, lp loopParts, bind func(*State, ast.Expr, *Node), k K) {
	x.evalPath(st, s.X, func(st *State, p *Path) {
		p = x.chanAt(st, p)
		foreign := x.get(st, p).foreign
		if !x.localChan(p) && !foreign {
			panic(unsupported("receive from a channel that was passed in"))
		}
		if st.conc != nil && st.conc.ps != nil && st.conc.ps.work == p.str() {
			x.poolRange(st, p, s, bind, k)
			return
		}
		x.demand(st, p, s, func(st *State) {
			st = st.clone()
			c := x.chanOf(st, p)
			n := x.get(st, p)
			et := n.t.Underlying().(*types.Chan).Elem()
			if !c.closed && !foreign {
				x.oblig(st, "false", "deadlock", s, "the channel is closed when everything was sent")
			}
			all := x.term(st, n)
			base := c.recvd
			src := all
			if base != "0int" {
				src = x.name(st, n.vt, fmt.Sprintf("%s.skip(%s)", paren(all), base), "rest")
				st.fact(fmt.Sprintf("0 <= %s && %s <= %s.len()", base, base, paren(all)))
			}
			st.extra[fmt.Sprintf("$src%d", ord)] = src
			length := "(" + paren(src) + ".len() as int)"
			lp.extra = func(st *State, ks string) {
				st.fact(fmt.Sprintf("%s <= %s || %s == 0", ks, length, ks))
			}
			lp.chanPath = p.str()
			keyp := new(*Path)
			lp.key = keyp
			lp.enter = func(st *State, in, out func(*State)) {
				kk := st.extra[fmt.Sprintf("$k%d", ord)]
				if kk == "" {
					kk = st.extra["$k"]
				}
				pkg := x.pkg
				a := st.clone()
				if x.term(a, x.get(a, p)) != all {
					panic(unsupported("channel changes while it is ranged over"))
				}
				a.cond(fmt.Sprintf("%s < %s", kk, length))
				en := x.leaf(et, "")
				en.term = x.name(a, en.vt, fmt.Sprintf("%s[%s]", paren(src), kk), "el")
				nr := kk + " + 1"
				if base != "0int" {
					nr = paren(base) + " + " + kk + " + 1"
				}
				x.taken(a, p, nr, false, s)
				if len(chanFields(et)) > 0 {
					en = x.explode(en)
					for _, f := range chanFields(et) {
						m := *en.f[f.Name()]
						m.foreign = true
						en.f[f.Name()] = &m
					}
					if id, ok := s.Key.(*ast.Ident); ok {
						if o := x.info().Defs[id]; o != nil {
							*keyp = &Path{root: o}
						}
					}
					if *keyp == nil {
						panic(unsupported("records with channels received into something else than a new variable"))
					}
				}
				bind(a, s.Key, en)
				in(a)
				x.pkg = pkg
				b := st.clone()
				b.cond(fmt.Sprintf("%s == %s", kk, length))
				x.taken(b, p, "("+paren(all)+".len() as int)", true, s)
				out(b)
				x.pkg = pkg
			}
			x.runLoop(st, lp, k)
		})
	})
}

// exitConc: what must hold when the function returns.
func (x *Exec) exitConc(st *State, c *Contract, at ast.Node) {
	for _, g := range st.conc.copy().gos {
		x.obligNamed(st, "false", "join", "join", g.at, "the goroutine is waited for before the function returns")
	}
	for _, g := range st.conc.copy().pools {
		x.obligNamed(st, "false", "join", "join", g.g.at, "the workers are waited for before the function returns")
	}
	for _, c := range st.conc.copy().ch {
		x.handedClosed(st, c, at)
	}
	for o, ch := range st.conc.copy().racy {
		if ch != "" || true {
			x.obligNamed(st, "false", "join", "join", at, "the goroutine that changes "+o.Name()+" is waited for before the function returns")
		}
	}
	var objs []types.Object
	for o, n := range st.vars {
		if isChanType(o.Type()) && n.kind != kAlias {
			objs = append(objs, o)
		}
	}
	sortObjs(objs)
	for _, o := range objs {
		p := &Path{root: o}
		if !x.localChan(p) || o.Pos() == token.NoPos {
			continue
		}
		cs := x.chanOf(st, p)
		if cs.sunk || cs.handed != "" {
			continue
		}
		sent := x.term(st, x.get(st, p))
		if cs.recvd == "("+paren(sent)+".len() as int)" {
			continue
		}
		if sent == x.types.Default(o.Type()) {
			continue
		}
		x.obligNamed(st, fmt.Sprintf("%s >= %s.len()", paren(cs.recvd), paren(sent)), "deadlock", "received."+o.Name(), at, "everything sent on "+o.Name()+" is received before the function returns")
	}
	for o := range x.entry.vars {
		if !isChanType(o.Type()) {
			continue
		}
		p := x.chanAt(st, &Path{root: o})
		want := c.Closes[o.Name()]
		got := x.chanOf(st, p).closed
		if want != got {
			goal := "closed on return: " + o.Name()
			if !want {
				goal = "left open on return: " + o.Name()
			}
			x.obligNamed(st, "false", "channel", "closes."+o.Name(), at, goal)
		} else if want {
			x.obligNamed(st, "true", "channel", "closes."+o.Name(), at, "closed on return: "+o.Name())
		}
	}
	for nm := range c.Closes {
		ok := false
		for o := range x.entry.vars {
			ok = ok || o.Name() == nm && isChanType(o.Type())
		}
		if !ok {
			panic(unsupported("no channel parameter " + nm))
		}
	}
}

func sortObjs(o []types.Object) {
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && (o[j].Pos() < o[j-1].Pos() || o[j].Pos() == o[j-1].Pos() && strings.Compare(o[j].Name(), o[j-1].Name()) < 0); j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return ast.Unparen(e)
}

// raced: a variable that a goroutine has changed is used before that goroutine was waited for.
func (x *Exec) raced(st *State, o types.Object, at ast.Node) {
	x.racedPool(st, o, at)
	if st.conc == nil || st.conc.gdeep != nil {
		return
	}
	if _, ok := st.conc.racy[o]; ok {
		x.oblig(st, "false", "join", at, "the goroutine that changes "+o.Name()+" has been waited for")
	}
}

// loopChans notes what a loop sends on.
func (x *Exec) loopChans(st *State, mods []modLeaf, at ast.Node) {
	for _, m := range mods {
		if isChanType(m.t) {
			x.event(st, x.chanAt(st, &Path{root: m.root, steps: m.steps}), at)
		}
	}
}

// calleeChans: what a function under contract does with the channels it is given.
func (x *Exec) calleeChans(st, cs *State, con *Contract, sig *types.Signature, objOf map[types.Object]types.Object, mods []modLeaf, at ast.Node) *State {
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if !isChanType(p.Type()) {
			continue
		}
		n := cs.vars[objOf[p]]
		if n == nil || n.kind != kAlias {
			panic(unsupported("channel argument"))
		}
		path := x.chanAt(st, n.al)
		c := x.chanOf(st, path)
		mod := false
		for _, m := range mods {
			mod = mod || m.root == types.Object(p)
		}
		if c.closed && (mod || con.Closes[p.Name()]) {
			x.oblig(st, "false", "channel", at, "the channel passed to "+con.Key+" is not closed yet")
		}
		if mod {
			st = st.clone()
			x.event(st, path, at)
		}
		if con.Closes[p.Name()] && !c.closed {
			st = x.closeChan(st, path, at)
		}
	}
	return st
}
