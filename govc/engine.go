package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

type Engine struct {
	ld        *Loader
	types     *TypeReg
	prop      string
	contracts map[string]*Contract
	files     []*ContractFile
	theory    []string
	assumes   []string
	symT      map[string]string
	symN      map[string]int
	lits      map[string]string
	litOrder  []string
	sent      map[types.Object]string
	sentOrder []string
	globals   map[types.Object]string
	obls      []*Obl
	covers    []*Obl
	doneObjs  map[*ast.RangeStmt]types.Object
	effCache  map[*Contract][]modLeaf
	effBusy   map[*Contract]bool
	work      []*Contract
	workSet   map[*Contract]bool
	verified  []string
	inlined   map[string]map[string]bool
	usedCon   map[string]map[string]bool
	mutCache  map[*Pkg]map[types.Object]bool
	setCache  map[*Pkg]map[types.Object]bool
	elemCache map[*Pkg]map[types.Object]bool
	trusted   map[string]bool
	modelled  map[string]bool
	opaque    []string
	constGl   map[types.Object]bool
	rePat     map[string]string // variable holding a compiled pattern -> pattern
	failures  []string
	stale     []string // functions whose loops are not those the contract speaks about
}

func NewEngine(ld *Loader, prop string) *Engine {
	return &Engine{ld: ld, types: NewTypeReg(ld.modPath), prop: prop, contracts: map[string]*Contract{}, symT: map[string]string{}, symN: map[string]int{},
		lits: map[string]string{}, sent: map[types.Object]string{}, globals: map[types.Object]string{}, doneObjs: map[*ast.RangeStmt]types.Object{},
		effCache: map[*Contract][]modLeaf{}, effBusy: map[*Contract]bool{}, workSet: map[*Contract]bool{}, inlined: map[string]map[string]bool{},
		usedCon: map[string]map[string]bool{}, mutCache: map[*Pkg]map[types.Object]bool{}, setCache: map[*Pkg]map[types.Object]bool{}, elemCache: map[*Pkg]map[types.Object]bool{}, trusted: map[string]bool{}, modelled: map[string]bool{}, constGl: map[types.Object]bool{}, rePat: map[string]string{}}
}

func (g *Engine) fresh(vt, hint string) string {
	h := strings.Map(func(r rune) rune {
		if r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, hint)
	g.symN[h]++
	s := fmt.Sprintf("%s_%d_", h, g.symN[h])
	g.symT[s] = vt
	return s
}

func (g *Engine) lit(s string) string {
	if s == "" {
		return "str_empty()"
	}
	if n, ok := g.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit_%d()", len(g.litOrder))
	g.lits[s] = n
	g.litOrder = append(g.litOrder, s)
	return n
}

func (g *Engine) sentinel(o types.Object) string {
	if s, ok := g.sent[o]; ok {
		return s
	}
	n := fmt.Sprintf("errv_%s_%s()", strings.ReplaceAll(filepath.Base(o.Pkg().Path()), "-", "_"), o.Name())
	g.sent[o] = n
	g.sentOrder = append(g.sentOrder, n)
	return n
}

func (g *Engine) global(o types.Object, vt string) string {
	if s, ok := g.globals[o]; ok {
		return s
	}
	n := fmt.Sprintf("gv_%s_%s", strings.ReplaceAll(filepath.Base(o.Pkg().Path()), "-", "_"), o.Name())
	g.globals[o] = n
	g.symT[n] = vt
	return n
}

func (g *Engine) shortPkg(p string) string { return strings.TrimPrefix(p, g.ld.modPath+"/") }

func (g *Engine) addObl(o *Obl) {
	o.ID = len(g.obls)
	g.obls = append(g.obls, o)
}

func (g *Engine) contractByKey(pkg, key string) *Contract {
	return g.contracts[pkg+"\x00"+key]
}

func (g *Engine) noteContract(c *Contract, key string) {
	g.verified = append(g.verified, g.shortPkg(c.Pkg)+"."+key)
}

func (g *Engine) noteInlined(fn, key string) {
	if g.inlined[fn] == nil {
		g.inlined[fn] = map[string]bool{}
	}
	g.inlined[fn][key] = true
}

func (g *Engine) noteUsed(fn string, c *Contract) {
	if g.usedCon[fn] == nil {
		g.usedCon[fn] = map[string]bool{}
	}
	g.usedCon[fn][c.Key] = true
}

func (g *Engine) wantFunc(c *Contract) {
	if g.workSet[c] {
		return
	}
	g.workSet[c] = true
	g.work = append(g.work, c)
}

// reassigned: variables of the package whose own value (not memory it refers to) is set outside the declaration.
func (g *Engine) reassigned(p *Pkg) map[types.Object]bool {
	if m, ok := g.setCache[p]; ok {
		return m
	}
	m := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		for e != nil {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
			case *ast.IndexExpr:
				if t := p.Info.TypeOf(y.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = y.X
						continue
					}
				}
				return
			case *ast.SelectorExpr:
				if t := p.Info.TypeOf(y.X); t == nil || isPtrType(t) {
					return
				}
				e = y.X
			case *ast.Ident:
				if o := p.Info.Uses[y]; o != nil {
					m[o] = true
				}
				return
			default:
				return
			}
		}
	}
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					mark(n.Key)
					mark(n.Value)
				}
			}
			return true
		})
	}
	g.setCache[p] = m
	return m
}

// mutable: objects of the package assigned or written through outside their declaration.
func (g *Engine) mutable(p *Pkg) map[types.Object]bool {
	if m, ok := g.mutCache[p]; ok {
		return m
	}
	m := map[types.Object]bool{}
	root := func(e ast.Expr) types.Object {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
			case *ast.IndexExpr:
				e = y.X
			case *ast.SelectorExpr:
				e = y.X
			case *ast.StarExpr:
				e = y.X
			case *ast.SliceExpr:
				e = y.X
			case *ast.Ident:
				return p.Info.Uses[y]
			default:
				return nil
			}
		}
	}
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if o := root(l); o != nil {
						m[o] = true
					}
				}
			case *ast.IncDecStmt:
				if o := root(n.X); o != nil {
					m[o] = true
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if o := root(n.X); o != nil {
						m[o] = true
					}
				}
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					for _, e := range []ast.Expr{n.Key, n.Value} {
						if e != nil {
							if o := root(e); o != nil {
								m[o] = true
							}
						}
					}
				}
			case *ast.CallExpr:
				// passing a map or slice, or calling a pointer method, may change it
				for _, a := range n.Args {
					if t := p.Info.TypeOf(a); t != nil && hasRefs(t) && !isPtrType(t) {
						if o := root(a); o != nil {
							if _, isCall := ast.Unparen(n.Fun).(*ast.Ident); isCall && isBuiltinReader(n) {
								continue
							}
							if id, ok := a.(*ast.Ident); ok {
								_ = id
								m[o] = m[o] || g.mayChangeArg(p, n)
							}
						}
					}
				}
			}
			return true
		})
	}
	g.mutCache[p] = m
	return m
}

// elemWritten are the slice variables with an assignment to an element.
func (g *Engine) elemWritten(p *Pkg) map[types.Object]bool {
	if m, ok := g.elemCache[p]; ok {
		return m
	}
	m := map[types.Object]bool{}
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			a, ok := n.(*ast.AssignStmt)
			if !ok {
				return true
			}
			for _, l := range a.Lhs {
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
					if id, ok := ast.Unparen(ix.X).(*ast.Ident); ok {
						if o := p.Info.Uses[id]; o != nil && isSliceType(o.Type()) {
							m[o] = true
						}
					}
				}
			}
			return true
		})
	}
	g.elemCache[p] = m
	return m
}

func isBuiltinReader(c *ast.CallExpr) bool {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	return ok && (id.Name == "len" || id.Name == "append" || id.Name == "cap")
}

func (g *Engine) mayChangeArg(p *Pkg, c *ast.CallExpr) bool {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.SelectorExpr:
		if fo, ok := p.Info.Uses[f.Sel].(*types.Func); ok && fo.Pkg() != nil {
			if fo.Pkg().Path() == "sort" {
				return true
			}
			return g.ld.declOf[fo] != nil
		}
	case *ast.Ident:
		if f.Name == "copy" || f.Name == "delete" {
			return true
		}
		if fo, ok := p.Info.Uses[f].(*types.Func); ok {
			return g.ld.declOf[fo] != nil
		}
	}
	return false
}

func (g *Engine) resObjs(n int, vs []Val) []types.Object {
	var r []types.Object
	for i := 0; i < n; i++ {
		r = append(r, types.NewVar(token.NoPos, nil, "\x00res", vs[i].n.t))
	}
	return r
}

func (g *Engine) newExec(c *Contract, pkg *Pkg) *Exec {
	return &Exec{eng: g, types: g.types, con: c, pkg: pkg, loopOrd: map[string]int{}, recOrd: map[string]int{}, callOrd: map[string]int{},
		fnName: filepath.Base(c.Pkg) + "." + c.Key, inlined: map[string]bool{}, used: map[string]bool{}, localMap: map[string]types.Object{}, closRun: map[string]bool{}, merge: c.Merge}
}

// entryState gives every parameter an arbitrary value.
func (x *Exec) entryState(fo *types.Func) *State {
	st := &State{vars: map[types.Object]*Node{}, names: map[string]types.Object{}, extra: map[string]string{}}
	sig := fo.Type().(*types.Signature)
	fr := &Frame{pkg: x.pkg, key: x.con.Key, top: true}
	param := func(p *types.Var) {
		t := p.Type()
		var n *Node
		if pt, ok := t.Underlying().(*types.Pointer); ok && !handle(x.types.V(t)) && x.types.V(t) != "Str" && strings.HasPrefix(x.types.V(t), "Ptr<") {
			n = &Node{t: t, vt: x.types.V(t), kind: kPtr, id: x.fresh("int", p.Name()+"_id"), p: x.paramNode(pt.Elem(), p.Name(), true)}
			st.fact(n.id + " > 0")
		} else {
			n = x.paramNode(t, p.Name(), false)
		}
		if x.con.Transient[p.Name()] {
			m := *n
			m.trans = true
			m.cap1 = true
			n = &m
		}
		st.vars[p] = n
		if p.Name() != "" && p.Name() != "_" {
			st.names[p.Name()] = p
		}
		x.given(st, p, n)
	}
	if r := sig.Recv(); r != nil {
		param(r)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		param(sig.Params().At(i))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		fr.restyp = append(fr.restyp, r.Type())
		if r.Name() != "" {
			fr.results = append(fr.results, r)
			x.declare(st, r, x.zero(r.Type()))
			st.vars[r] = x.zero(r.Type())
		}
	}
	for _, gp := range x.con.Ghosts {
		o := types.NewVar(token.NoPos, nil, gp.Name, types.Typ[types.Int])
		st.vars[o] = &Node{t: types.Typ[types.Int], vt: gp.Type, term: x.fresh(gp.Type, gp.Name)}
		st.names[gp.Name] = o
	}
	for _, gp := range x.con.GhostVars {
		o := types.NewVar(token.NoPos, nil, gp.Name, types.Typ[types.Int])
		st.vars[o] = &Node{t: types.Typ[types.Int], vt: gp.Type, term: x.fresh(gp.Type, gp.Name)}
		st.names[gp.Name] = o
		x.localMap[gp.Name] = o
	}
	for _, hn := range x.con.Heaps {
		h := x.eng.heapVar(hn)
		n := x.leaf(h.Type(), x.fresh(x.types.V(h.Type()), h.Name()))
		n.own = "true"
		st.vars[h] = n
		st.names[h.Name()] = h
	}
	st.frames = []*Frame{fr}
	for p := range x.con.Own {
		base, cnd := splitOwn(p)
		if strings.HasPrefix(base, "result") {
			continue
		}
		own := "true"
		if cnd != "" {
			own = "(" + x.subst(st, cnd, st) + ")"
		}
		x.setOwn(st, base, own)
	}
	for _, p := range x.con.OwnIn {
		x.setOwn(st, p, "true")
	}
	for _, a := range x.con.Alias {
		x.setAlias(st, a.Name, a.Type)
	}
	return st
}

// setAlias makes the map at one path of a parameter a reference to the map at another.
func (x *Exec) setAlias(st *State, ref, target string) {
	tp, ok := x.ownPath(st, target)
	parts := strings.Split(ref, ".")
	obj, ok2 := st.names[parts[0]]
	if !ok || !ok2 {
		panic(unsupported("alias " + ref))
	}
	var rec func(n *Node, fs []string) *Node
	rec = func(n *Node, fs []string) *Node {
		if len(fs) == 0 {
			if !isMapType(n.t) {
				panic(unsupported("alias that is no map"))
			}
			return &Node{t: n.t, vt: n.vt, kind: kAlias, al: tp}
		}
		c := *n
		if isPtrType(n.t) {
			if n.kind == kVal {
				c = Node{t: n.t, vt: n.vt, kind: kPtr, id: paren(n.term) + ".id", p: x.child(st, n, Step{k: sDeref, t: n.t.Underlying().(*types.Pointer).Elem()}), own: n.own}
				st.fact(c.id + " > 0")
			}
			c.p = rec(c.p, fs)
			return &c
		}
		e := *x.explode(n)
		f := map[string]*Node{}
		for k, v := range e.f {
			f[k] = v
		}
		if f[fs[0]] == nil {
			panic(unsupported("alias " + ref))
		}
		f[fs[0]] = rec(f[fs[0]], fs[1:])
		e.f = f
		return &e
	}
	st.vars[obj] = rec(st.vars[obj], parts[1:])
}

// rawAt is the node at a path of names, without following a reference at its end.
func (x *Exec) rawAt(st *State, ref string) *Node {
	i := strings.LastIndex(ref, ".")
	p, ok := x.ownPath(st, ref[:i])
	if !ok {
		return nil
	}
	n := x.get(st, p)
	if isPtrType(n.t) {
		if n.kind != kPtr {
			return nil
		}
		n = n.p
	}
	if n.f == nil {
		return nil
	}
	return n.f[ref[i+1:]]
}

// realPath follows the references met on the way to the end of a path, and the one at its end.
func (x *Exec) realPath(st *State, p *Path) *Path {
	for round := 0; round < 8; round++ {
		n := st.vars[p.root]
		hit := false
		for i := 0; n != nil; i++ {
			if n.kind == kAlias && n.al != nil {
				p = n.al.with(p.steps[i:]...)
				hit = true
				break
			}
			if i == len(p.steps) {
				break
			}
			s := p.steps[i]
			switch {
			case s.k == sField && n.f != nil:
				n = n.f[s.name]
			case s.k == sDeref && n.kind == kPtr:
				n = n.p
			default:
				n = nil
			}
		}
		if !hit {
			return p
		}
	}
	return p
}

// given: a parameter that the body sets keeps what the caller passed under another variable; the caller sees only that.
func (x *Exec) given(st *State, p *types.Var, n *Node) {
	if !x.eng.reassigned(x.pkg)[p] {
		return
	}
	o := types.NewVar(token.NoPos, nil, p.Name(), p.Type())
	st.vars[o] = n
	if x.givenAs == nil {
		x.givenAs = map[types.Object]*types.Var{}
	}
	x.givenAs[p] = o
	switch {
	case isMapType(p.Type()):
		st.vars[p] = &Node{t: p.Type(), vt: x.types.V(p.Type()), kind: kAlias, al: &Path{root: o}}
	case n.kind != kVal || isChanType(p.Type()):
		panic(unsupported("parameter " + p.Name() + " is given another value"))
	case isSliceType(p.Type()) && x.con.Own[p.Name()]:
		panic(unsupported("parameter " + p.Name() + " owns its memory and is given another value"))
	}
}

// paramNode: maps, pointers and channels held by a receiver or pointer parameter count as its own.
func (x *Exec) paramNode(t types.Type, name string, ref bool) *Node {
	n := x.freshNode(t, name)
	if isMapType(t) {
		n.own = "true"
		return n
	}
	if ref && structOf(t) != nil && n.vt != "int" {
		n = x.explode(n)
		var fix func(c *Node) *Node
		fix = func(c *Node) *Node {
			m := *c
			switch {
			case isMapType(c.t), isPtrType(c.t):
				m.own = "true"
			case isSliceType(c.t):
				m.own = ""
			case structOf(c.t) != nil && c.vt != "int":
				e := x.explode(c)
				m = *e
				m.f = map[string]*Node{}
				for k, v := range e.f {
					m.f[k] = fix(v)
				}
			}
			return &m
		}
		f := map[string]*Node{}
		for k, v := range n.f {
			f[k] = fix(v)
		}
		m := *n
		m.f = f
		return &m
	}
	return n
}

func (g *Engine) declFor(c *Contract) (*Pkg, *ast.FuncDecl, *types.Func, error) {
	p, err := g.ld.Load(c.Pkg)
	if err != nil {
		return nil, nil, nil, err
	}
	fd := p.Funcs[c.Key]
	if fd == nil {
		return p, nil, nil, fmt.Errorf("function %s.%s not found in the source", c.Pkg, c.Key)
	}
	return p, fd, p.Info.Defs[fd.Name].(*types.Func), nil
}

// effects of a contract function on its parameters, from its body.
func (g *Engine) effects(c *Contract, from *Exec) []modLeaf {
	if m, ok := g.effCache[c]; ok {
		return m
	}
	if c.Trusted {
		g.trusted[g.shortPkg(c.Pkg)+"."+c.Key] = true
		g.effCache[c] = nil
		for _, m := range c.Modifies {
			for _, h := range heapVars {
				if h != nil && h.Name() == m {
					g.effCache[c] = append(g.effCache[c], modLeaf{root: h, t: h.Type(), own: "true"})
				}
			}
		}
		sortMods(g.effCache[c])
		return g.effCache[c]
	}
	p, fd, fo, err := g.declFor(c)
	if err != nil {
		panic(unsupported(err.Error()))
	}
	g.effCache[c] = nil
	acc := map[string]modLeaf{}
	for round := 0; round < 5; round++ {
		n0 := len(acc)
		y := g.newExec(c, p)
		y.dry = 1
		st := y.entryState(fo)
		entry := st.clone()
		st.oldN = entry
		y.entry = entry
		y.inBody(st, fd.Body, func(s *State, vs []Val) {
			for obj, n := range entry.vars {
				if _, isRes := resultObj(fo, obj); isRes {
					continue
				}
				var out []modLeaf
				if y.givenAs[obj] != nil {
					continue
				}
				y.diffNodes(n, s.vars[obj], obj, nil, &out)
				for i := range out {
					for p, o := range y.givenAs {
						if o == out[i].root {
							out[i].root = p
						}
					}
				}
				for _, m := range out {
					if m.own == "!kind" {
						// a reference parameter that is given another value: no effect outside
						continue
					}
					if !visible(m) {
						continue
					}
					m.same = false
					k := (&Path{root: m.root, steps: m.steps}).str()
					if _, ok := acc[k]; !ok {
						acc[k] = m
					}
				}
			}
		})
		var ms []modLeaf
		for _, m := range acc {
			ms = append(ms, m)
		}
		sortMods(ms)
		g.effCache[c] = ms
		if len(acc) == n0 {
			break
		}
	}
	return g.effCache[c]
}

func resultObj(fo *types.Func, o types.Object) (int, bool) {
	r := fo.Type().(*types.Signature).Results()
	for i := 0; i < r.Len(); i++ {
		if types.Object(r.At(i)) == o {
			return i, true
		}
	}
	return 0, false
}

// visible: can the caller see a change of this leaf?
func visible(m modLeaf) bool {
	if isHeapVar(m.root) {
		return true
	}
	for _, s := range m.steps {
		if s.k == sDeref {
			return true
		}
	}
	if len(m.steps) == 0 {
		return isMapType(m.t) || isSliceType(m.t) || isChanType(m.t)
	}
	if isMapType(m.t) {
		panic(unsupported("writes to a map held in a structure passed by value"))
	}
	return false
}

func isChanType(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

// Verify generates the obligations of one contract.
func (g *Engine) Verify(c *Contract) (err error) {
	p, fd, fo, e := g.declFor(c)
	if e != nil {
		g.addObl(&Obl{Func: filepath.Base(c.Pkg) + "." + c.Key, Kind: "missing", Name: "function", Desc: e.Error(), Goal: "false"})
		return nil
	}
	x := g.newExec(c, p)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				panic(r)
			}
			g.addObl(&Obl{Func: x.fnName, Kind: "unsupported", Name: "subset", Desc: u.msg, Goal: "false"})
			g.failures = append(g.failures, x.fnName+": "+u.msg)
		}
	}()
	st := x.entryState(fo)
	x.entry = st.clone()
	st.oldN = st.clone()
	for _, r := range c.Requires {
		if hasProp(r.Props, g.prop) {
			st.fact(x.subst(st, r.Text, st))
		}
	}
	x.coverPoint(st, "precondition", fd)
	x.hintAt(st, "entry", fd)
	st.oldN = st.clone()
	nret := 0
	x.inBody(st, fd.Body, func(s *State, vs []Val) {
		nret++
		x.exitObligs(s, x.entry, vs, c, fd)
	})
	g.noteContract(c, c.Key)
	x.checkLoops(c)
	if nret == 0 {
		g.addObl(&Obl{Func: x.fnName, Kind: "unsupported", Name: "noreturn", Desc: "no path returns", Goal: "false"})
	}
	return nil
}

func (x *Exec) exitObligs(s *State, entry *State, vs []Val, c *Contract, at ast.Node) {
	s = s.clone()
	s.names = cloneNames(s.names)
	for i, v := range vs {
		o := types.NewVar(token.NoPos, nil, "result", v.n.t)
		s.vars[o] = v.n
		s.names[fmt.Sprintf("result%d", i)] = o
		if len(vs) == 1 {
			s.names["result"] = o
		}
		fr := x.frame(s)
		if i < len(fr.results) {
			s.vars[fr.results[i]] = v.n
			s.names[fr.results[i].Name()] = fr.results[i]
		}
		if v.n.trans && !c.Transient["return"] {
			x.oblig(s, "false", "alias", at, "returns memory that the scanner will overwrite")
		}
	}
	// parameters keep their names for the postcondition
	for nm, o := range entry.names {
		if _, shadow := s.names[nm]; !shadow || s.vars[s.names[nm]] == nil || x.isEntryParam(entry, o) {
			if s.vars[o] != nil {
				s.names[nm] = o
			}
		}
		if o2 := x.givenAs[o]; o2 != nil && s.vars[o2] != nil && at.Pos() <= o.Pos() && o.Pos() < at.End() {
			s.names[nm] = o2
		}
	}
	x.hintAt(s, "exit", at)
	x.exitConc(s, c, at)
	for i, en := range c.Ensures {
		if !hasProp(en.Props, x.eng.prop) {
			continue
		}
		t := x.subst(s, en.Text, s)
		x.obligNamed(s, t, "postcondition", "ensures"+clauseName(en, i), at, "postcondition: "+en.Text)
	}
	for _, p := range sortedKeys(c.Own) {
		base, cnd := splitOwn(p)
		own := x.ownAt(s, base)
		if own == "" {
			own = "false"
		}
		if cnd != "" {
			own = "(" + x.subst(s, cnd, s) + ") ==> " + own
		}
		x.oblig(s, own, "alias", at, base+" is not shared on return")
	}
	if c.OwnRet {
		for _, v := range vs {
			if isSliceType(v.n.t) && v.n.own != "true" {
				g := v.n.own
				if g == "" {
					g = "false"
				}
				x.oblig(s, g, "alias", at, "result is not shared with anything else")
			}
		}
	}
}

func (x *Exec) isEntryParam(entry *State, o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && v != nil
}

func (g *Engine) loadContracts(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		cf, err := ParseContractFile(f, g.ld.modPath)
		if err != nil {
			return err
		}
		g.files = append(g.files, cf)
		for _, c := range cf.Funcs {
			k := c.Pkg + "\x00" + c.Key
			if len(c.View) > 0 && !hasProp(c.View, g.prop) {
				continue
			}
			if c.Trusted && len(c.Props) > 0 && !hasProp(c.Props, g.prop) && !g.ld.inRepo(c.Pkg) {
				continue // a library function: its model does
			}
			if o := g.contracts[k]; o != nil {
				if len(o.View) > 0 == (len(c.View) > 0) {
					return fmt.Errorf("duplicate contract %s", c.Key)
				}
				if len(o.View) > 0 {
					continue
				}
			}
			g.contracts[k] = c
		}
	}
	// only the heaps of the contracts that count for the property
	for k := range heapVars {
		delete(heapVars, k)
	}
	for _, cf := range g.files {
		use := false
		for _, c := range cf.Funcs {
			use = use || len(c.Props) > 0 && hasProp(c.Props, g.prop)
		}
		if use {
			for _, t := range cf.Handles {
				handleTypes[t] = true
			}
			for _, t := range cf.Heaps {
				heapVars[t] = nil
			}
		}
	}
	return nil
}

// Run generates everything for the property.
func (g *Engine) Run() error {
	for _, cf := range g.files {
		for _, c := range cf.Funcs {
			if !g.ld.inRepo(c.Pkg) {
				continue
			}
			if len(c.Props) > 0 && hasProp(c.Props, g.prop) && !strings.Contains(c.Key, ".rec") && g.contracts[c.Pkg+"\x00"+c.Key] == c && !c.Opaque {
				if _, err := g.ld.Load(c.Pkg); err != nil {
					return err
				}
				g.wantFunc(c)
			}
		}
	}
	for i := 0; i < len(g.work); i++ {
		c := g.work[i]
		if c.Trusted {
			g.trusted[g.shortPkg(c.Pkg)+"."+c.Key] = true
			continue
		}
		if c.Opaque {
			g.opaque = append(g.opaque, g.shortPkg(c.Pkg)+"."+c.Key)
			continue
		}
		if err := g.Verify(c); err != nil {
			return err
		}
	}
	files := map[string]bool{}
	for _, c := range g.work {
		files[c.File] = true
	}
	seen := map[string]bool{}
	for _, cf := range g.files {
		if files[cf.Path] {
			for _, t := range cf.Theory {
				if !seen[t] {
					seen[t] = true
					g.theory = append(g.theory, t)
				}
			}
			g.assumes = append(g.assumes, cf.Assumes...)
		}
	}
	return nil
}

// checkLoops notes when the loops met in the code are not the ones the contract numbers.
func (x *Exec) checkLoops(c *Contract) {
	n := len(x.loopOrd)
	ok := true
	for o := range c.Loops {
		if o > n {
			ok = false
		}
	}
	for o := 1; o <= n; o++ {
		if c.Loops[o] == nil {
			ok = false
		}
	}
	if !ok {
		x.eng.stale = append(x.eng.stale, fmt.Sprintf("%s: %d loops in the code, %d in the contract", x.fnName, n, len(c.Loops)))
	}
}

func (g *Engine) heapVar(name string) *types.Var {
	if strings.HasPrefix(name, "state:") {
		return stateVar(name)
	}
	if h := heapVars[name]; h != nil {
		return h
	}
	i := strings.LastIndex(name, ".")
	look := func(p *types.Package) *types.Var {
		if p == nil || p.Path() != name[:i] {
			return nil
		}
		if tn, ok := p.Scope().Lookup(name[i+1:]).(*types.TypeName); ok {
			return heapOf(types.NewPointer(tn.Type()))
		}
		return nil
	}
	for _, p := range g.ld.pkgs {
		if h := look(p.Types); h != nil {
			return h
		}
		if p.Types == nil {
			continue
		}
		for _, q := range p.Types.Imports() {
			if h := look(q); h != nil {
				return h
			}
		}
	}
	panic(unsupported("no type " + name))
}

// softFuncs: functions whose contract replaces an assumption for this property
func (g *Engine) softFuncs() []string {
	r := []string{}
	for _, c := range g.work {
		if len(c.Soft) > 0 && hasProp(c.Soft, g.prop) {
			p := g.shortPkg(c.Pkg)
			r = append(r, p[strings.LastIndex(p, "/")+1:]+"."+c.Key)
		}
	}
	return r
}
