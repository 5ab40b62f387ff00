package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (x *Exec) call(st *State, e *ast.CallExpr, f func(*State, []Val)) {
	fun := ast.Unparen(e.Fun)
	tv := x.info().Types[fun]
	if tv.IsType() {
		x.conversion(st, e, tv.Type, f)
		return
	}
	if tv.IsBuiltin() {
		x.builtin(st, e, fun, f)
		return
	}
	if o, t, m := syncMethod(x.info(), e); t != "" && (t == "Mutex" || t == "RWMutex" || t == "WaitGroup") {
		x.args(st, e, x.info().Uses[fun.(*ast.SelectorExpr).Sel].(*types.Func).Type().(*types.Signature), func(st *State, _ []Val) {
			x.syncCall(st, o, t, m, e, f)
		})
		return
	}
	// method call?
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel := x.info().Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			fo := sel.Obj().(*types.Func)
			x.eval(st, se.X, func(st *State, recv Val) {
				// promoted through embedded fields
				if len(sel.Index()) > 1 {
					panic(unsupported("promoted method"))
				}
				fo := fo
				if types.IsInterface(sel.Recv()) && !types.IsInterface(recv.n.t) {
					// the concrete value is known here
					if m := types.NewMethodSet(recv.n.t).Lookup(fo.Pkg(), fo.Name()); m != nil && len(m.Index()) == 1 {
						fo = m.Obj().(*types.Func)
					}
				}
				x.args(st, e, fo.Type().(*types.Signature), func(st *State, args []Val) {
					x.callFunc(st, fo, &recv, args, e, f)
				})
			})
			return
		}
	}
	var fo *types.Func
	switch y := fun.(type) {
	case *ast.Ident:
		fo, _ = x.info().Uses[y].(*types.Func)
	case *ast.SelectorExpr:
		fo, _ = x.info().Uses[y.Sel].(*types.Func)
	}
	if fo != nil {
		x.args(st, e, fo.Type().(*types.Signature), func(st *State, args []Val) {
			x.callFunc(st, fo, nil, args, e, f)
		})
		return
	}
	// function value
	x.eval(st, fun, func(st *State, fv Val) {
		n := x.valueOf(st, fv.n)
		sig := n.t.Underlying().(*types.Signature)
		x.args(st, e, sig, func(st *State, args []Val) {
			if n.cl == nil && isCallback(n.t) && fv.path != nil {
				st = st.clone()
				m := *n
				m.term = x.nameAlways(st, n.vt, fmt.Sprintf("%s.push(%s)", paren(n.term), x.term(st, x.valueOf(st, args[0].n))), "calls")
				x.set(st, fv.path, &m, e)
				r := x.freshNode(sig.Results().At(0).Type(), "cberr")
				st.fact(fmt.Sprintf("%s == callback_result(%s) && %s >= 0", r.term, m.term, r.term))
				f(st, []Val{{n: r}})
				return
			}
			if n.cl == nil {
				panic(unsupported("call of an unknown function value"))
			}
			x.callClosure(st, n.cl, args, sig, e, f)
		})
	})
}

// args evaluates arguments; variadic extras are packed unless spread.
func (x *Exec) args(st *State, e *ast.CallExpr, sig *types.Signature, f func(*State, []Val)) {
	if len(e.Args) == 1 && sig.Params().Len() > 1 {
		if _, ok := x.info().TypeOf(e.Args[0]).(*types.Tuple); ok {
			x.evalMulti(st, e.Args[0], f)
			return
		}
	}
	x.evalList(st, e.Args, func(st *State, vs []Val) {
		if sig.Variadic() && !e.Ellipsis.IsValid() {
			np := sig.Params().Len()
			st = st.clone()
			et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			var ts []string
			for _, v := range vs[np-1:] {
				if x.types.V(et) == "int" {
					if b, ok := et.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
						ts = append(ts, "0int")
						continue
					}
				}
				v = x.share(st, v, e, true)
				ts = append(ts, x.term(st, x.convert(st, v.n, et)))
			}
			term := "Seq::<" + x.types.V(et) + ">::empty()"
			if len(ts) > 0 {
				term = "seq![" + strings.Join(ts, ", ") + "]"
			}
			n := x.leaf(sig.Params().At(np-1).Type(), term)
			n.own = "true"
			n.parts = vs[np-1:]
			nv := append([]Val{}, vs[:np-1]...)
			nv = append(nv, Val{n: n})
			f(st, nv)
			return
		}
		f(st, vs)
	})
}

func (x *Exec) conversion(st *State, e *ast.CallExpr, t types.Type, f func(*State, []Val)) {
	x.eval(st, e.Args[0], func(st *State, v Val) {
		st = st.clone()
		n := x.valueOf(st, v.n)
		from := n.t
		fb, _ := from.Underlying().(*types.Basic)
		tb, _ := t.Underlying().(*types.Basic)
		if tb != nil && tb.Info()&types.IsString != 0 {
			if fb != nil && fb.Info()&types.IsInteger != 0 {
				panic(unsupported("string(int)"))
			}
			m := x.leaf(t, x.term(st, n))
			f(st, []Val{{n: m}})
			return
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				panic(unsupported("conversion to []rune"))
			}
			m := x.leaf(t, x.term(st, n))
			m.own = "true"
			f(st, []Val{{n: m}})
			return
		}
		if n.cl != nil {
			f(st, []Val{v})
			return
		}
		if isNil(n) {
			f(st, []Val{{n: x.zero(t)}})
			return
		}
		if n.vt == x.types.V(t) && fb == nil {
			m := *n
			m.t = t
			f(st, []Val{{n: &m, path: v.path, from: v.from}})
			return
		}
		m := x.leaf(t, x.term(st, n))
		f(st, []Val{{n: m}})
	})
}

func (x *Exec) builtin(st *State, e *ast.CallExpr, fun ast.Expr, f func(*State, []Val)) {
	name := ""
	if id, ok := fun.(*ast.Ident); ok {
		name = id.Name
	}
	one := func(st *State, n *Node) { f(st, []Val{{n: n}}) }
	switch name {
	case "len", "cap":
		x.eval(st, e.Args[0], func(st *State, v Val) {
			n := x.valueOf(st, v.n)
			t := x.term(st, n)
			if name == "cap" {
				st = st.clone()
				c := x.freshNode(types.Typ[types.Int], "cap")
				st.fact(fmt.Sprintf("%s >= %s.len()", c.term, paren(t)))
				if old, ok := st.extra["cap "+t]; ok {
					st.fact(fmt.Sprintf("%s == %s", c.term, old))
				}
				st.extra["cap "+t] = c.term
				one(st, c)
				return
			}
			if isMapType(n.t) {
				st = st.clone()
				st.fact(paren(t) + ".dom().finite()")
				one(st, x.leaf(types.Typ[types.Int], "("+paren(t)+".dom().len() as int)"))
				return
			}
			one(st, x.leaf(types.Typ[types.Int], "("+paren(t)+".len() as int)"))
		})
	case "append":
		x.evalList(st, e.Args, func(st *State, vs []Val) {
			st = st.clone()
			b := x.valueOf(st, vs[0].n)
			rt := x.info().TypeOf(e)
			if isNil(b) {
				b = x.zero(rt)
			}
			if x.types.V(b.t) == "int" {
				panic(unsupported("append to opaque"))
			}
			bt := x.term(st, b)
			if len(vs) > 1 {
				// appending may write into memory beyond the length of a slice others hold
				if b.own == "" {
					x.oblig(st, "false", "alias", e, "append to a slice that others may hold")
				} else {
					x.oblig(st, b.own, "alias", e, "append to a slice that others may hold")
				}
			}
			et := rt.Underlying().(*types.Slice).Elem()
			term := bt
			m := x.leaf(rt, "")
			m.own = "true"
			m.deep = b.deep && !e.Ellipsis.IsValid()
			if e.Ellipsis.IsValid() {
				a := x.valueOf(st, vs[1].n)
				if isNil(a) {
					m.term = bt
				} else {
					m.term = fmt.Sprintf("%s + %s", paren(bt), paren(x.term(st, a)))
				}
				if a.trans && isSliceType(et) {
					x.oblig(st, "false", "alias", e, "stores memory that the scanner will overwrite")
				}
				if hasRefs(et) && vs[1].path != nil {
					// elements are shared, the slice is not
				}
			} else {
				for _, v := range vs[1:] {
					v = x.share(st, v, e, true)
					if v.path != nil || !x.allOwn(v.n) {
						m.deep = false
					}
					if v.n.kind == kPtr {
						v.n = x.freeze(v.n)
					}
					term = fmt.Sprintf("%s.push(%s)", paren(term), x.term(st, x.convert(st, v.n, et)))
				}
				m.term = term
			}
			m.term = x.name(st, m.vt, m.term, "app")
			if (m.vt == "Str" || m.vt == "Seq<int>") && len(vs) == 2 && !e.Ellipsis.IsValid() {
				// the same text, as a concatenation
				c := x.term(st, x.convert(st, vs[1].n, et))
				st.add('h', fmt.Sprintf("/*lit:%s*/assert(%s =~= %s + seq![%s]);", c, paren(m.term), paren(bt), c))
			}
			src := vs[0].path
			if vs[0].from != nil {
				src = vs[0].from
			}
			f(st, []Val{{n: m, from: src}})
		})
	case "copy":
		x.eval(st, e.Args[0], func(st *State, d Val) {
			x.eval(st, e.Args[1], func(st *State, s Val) {
				st = st.clone()
				if d.path == nil {
					panic(unsupported("copy to a temporary"))
				}
				dn := x.valueOf(st, d.n)
				dt, sv := x.term(st, dn), x.term(st, s.n)
				r := x.freshNode(types.Typ[types.Int], "n")
				st.fact(fmt.Sprintf("%s == (if %s.len() < %s.len() { %s.len() as int } else { %s.len() as int })", r.term, paren(dt), paren(sv), paren(dt), paren(sv)))
				nt := x.fresh(dn.vt, "cp")
				st.fact(fmt.Sprintf("%s == %s.subrange(0, %s) + %s.subrange(%s, %s.len() as int)", nt, paren(sv), r.term, paren(dt), r.term, paren(dt)))
				st.fact(fmt.Sprintf("%s.len() == %s.len() ==> %s =~= %s", paren(dt), paren(sv), nt, sv))
				if dn.own == "" {
					x.oblig(st, fmt.Sprintf("%s == %s", nt, dt), "alias", e, "copy into memory that others may hold")
				} else {
					x.oblig(st, dn.own, "alias", e, "copy into memory that others may hold")
				}
				m := *dn
				m.term = nt
				x.set(st, d.path, &m, e)
				one(st, r)
			})
		})
	case "make":
		t := x.info().TypeOf(e)
		switch u := t.Underlying().(type) {
		case *types.Map:
			n := x.zero(t)
			n.nilmap = false
			one(st, n)
		case *types.Slice:
			x.evalList(st, e.Args[1:], func(st *State, vs []Val) {
				st = st.clone()
				ln := x.term(st, vs[0].n)
				x.oblig(st, ln+" >= 0", "make", e, "make with a negative length")
				st.fact(ln + " >= 0")
				m := x.leaf(t, "")
				if ln == "0int" {
					m.term = x.types.Default(t)
				} else {
					m.term = x.name(st, m.vt, fmt.Sprintf("Seq::new(%s as nat, |i_: int| %s)", paren(ln), x.types.Default(u.Elem())), "mk")
				}
				m.own = "true"
				m.deep = true
				one(st, m)
			})
		case *types.Chan:
			one(st, x.zero(t))
		default:
			panic(unsupported("make"))
		}
	case "new":
		t := x.info().TypeOf(e)
		f2, n := x.alloc(st, t, x.zero(t.Underlying().(*types.Pointer).Elem()))
		f(f2, []Val{{n: n}})
	case "delete":
		x.evalPath(st, e.Args[0], func(st *State, p *Path) {
			x.eval(st, e.Args[1], func(st *State, kv Val) {
				st = st.clone()
				n := x.get(st, p)
				m := *n
				kt := n.t.Underlying().(*types.Map).Key()
				key := x.term(st, x.convert(st, x.valueOf(st, kv.n), kt))
				m.term = x.name(st, n.vt, fmt.Sprintf("%s.remove(%s)", paren(x.term(st, n)), key), "mp")
				x.ownedMap(st, n, m.term, e)
				x.set(st, p, &m, e)
				f(st, nil)
			})
		})
	case "panic":
		x.evalList(st, e.Args, func(st *State, _ []Val) {
			if !mayPanic(x.con, x.eng.prop) {
				x.oblig(st, "false", "panic", e, "panic is unreachable")
			}
			// path ends
		})
	case "close":
		x.evalPath(st, e.Args[0], func(st *State, p *Path) { f(x.closeChan(st, x.chanAt(st, p), e), nil) })
	case "print", "println":
		x.evalList(st, e.Args, func(st *State, _ []Val) { f(st, nil) })
	default:
		panic(unsupported("builtin " + name))
	}
}

func (x *Exec) ownedMap(st *State, n *Node, newTerm string, at ast.Node) {
	if n.own == "" {
		x.oblig(st, fmt.Sprintf("%s == %s", newTerm, x.term(st, n)), "alias", at, "write to a map that others may hold")
	} else {
		x.oblig(st, n.own, "alias", at, "write to a map that others may hold")
	}
}

func (x *Exec) assignClosure(st *State, lhs ast.Expr, lit *ast.FuncLit, define bool, next func(*State)) {
	id, ok := lhs.(*ast.Ident)
	if !ok {
		panic(unsupported("closure stored in a structure"))
	}
	var obj types.Object
	if define {
		obj = x.info().Defs[id]
	}
	if obj == nil {
		obj = x.info().Uses[id]
	}
	st = st.clone()
	cl := &Closure{lit: lit, pkg: x.pkg, name: id.Name}
	n := x.leaf(obj.Type(), "0int")
	n.cl = cl
	rec := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && x.info().Uses[i] == obj {
			rec = true
		}
		return true
	})
	x.declare(st, obj, n)
	if rec {
		x.recClosure(st, cl, obj, lit)
	}
	next(st)
}

func (x *Exec) recOrdinal(pos token.Pos) int {
	key := strings.Join(x.stack, ">") + fmt.Sprint(pos)
	if o, ok := x.recOrd[key]; ok {
		return o
	}
	o := len(x.recOrd) + 1
	x.recOrd[key] = o
	return o
}

// recClosure verifies a recursive closure against its contract, on entry values it cannot choose.
func (x *Exec) recClosure(st *State, cl *Closure, self types.Object, lit *ast.FuncLit) {
	ord := x.recOrdinal(lit.Pos())
	key := fmt.Sprintf("%s.rec%d", x.con.Key, ord)
	con := x.eng.contractByKey(x.con.Pkg, key)
	if con == nil {
		panic(unsupported("recursive closure without contract (" + key + ")"))
	}
	cl.rec = &RecClosure{con: con, key: key}
	sig := x.info().TypeOf(lit).(*types.Signature)
	// variables that anything but their declaration changes
	mutable := x.mutableVars()
	base := st.clone()
	for obj, n := range st.vars {
		if obj == self || n.cl != nil || n.kind == kAlias {
			continue
		}
		if !mutable[obj] && x.isLocalVar(obj) {
			continue
		}
		base.vars[obj] = x.havocAll(n, obj.Name())
	}
	run := func(dry bool, onRet func(entry, s *State, vs []Val)) {
		s := base.clone()
		sub := &Frame{pkg: x.pkg, key: key, top: true}
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			n := x.freshNode(p.Type(), p.Name())
			x.declare(s, p, n)
			x.given(s, p, n)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			r := sig.Results().At(i)
			sub.restyp = append(sub.restyp, r.Type())
			if r.Name() != "" {
				sub.results = append(sub.results, r)
				x.declare(s, r, x.zero(r.Type()))
			}
		}
		for p := range con.Own {
			x.setOwn(s, p, "true")
		}
		for _, g := range con.Ghosts {
			o := types.NewVar(token.NoPos, nil, g.Name, types.Typ[types.Int])
			s.vars[o] = &Node{t: types.Typ[types.Int], vt: g.Type, term: x.fresh(g.Type, g.Name)}
			s.names[g.Name] = o
		}
		s.frames = append(append([]*Frame{}, s.frames...), sub)
		s.oldN = s.clone()
		s.extra = map[string]string{}
		outer := x.con
		outerName := x.fnName
		x.con = con
		x.fnName = outerName + "/" + key[strings.LastIndex(key, ".")+1:]
		loops := x.loopOrd
		x.loopOrd = map[string]int{}
		if !dry {
			for _, r := range con.Requires {
				if hasProp(r.Props, x.eng.prop) {
					s.fact(x.subst(s, r.Text, s))
				}
			}
			x.coverPoint(s, "precondition", lit)
			x.hintAt(s, "entry", lit)
		}
		s.oldN = s.clone()
		entry := s
		if dry {
			x.dry++
		}
		x.inBody(s, lit.Body, func(s *State, vs []Val) { onRet(entry, s, vs) })
		if dry {
			x.dry--
		}
		if !dry && x.dry == 0 {
			x.checkLoops(con)
		}
		x.con = outer
		x.fnName = outerName
		x.loopOrd = loops
	}
	// effects: fixpoint
	acc := map[string]modLeaf{}
	for round := 0; round < 6; round++ {
		n0 := len(acc)
		changed := false
		run(true, func(entry, s *State, vs []Val) {
			for obj, n := range entry.vars {
				if _, mine := base.vars[obj]; !mine {
					continue
				}
				var out []modLeaf
				x.diffNodes(n, s.vars[obj], obj, nil, &out)
				for _, m := range out {
					if m.own == "!kind" {
						panic(unsupported("closure changes reference variable " + obj.Name()))
					}
					m.same = false
					k := (&Path{root: m.root, steps: m.steps}).str()
					if old, ok := acc[k]; !ok {
						acc[k] = m
					} else if old.own != m.own && old.own != "" {
						old.own = ""
						acc[k] = old
						changed = true
					}
				}
			}
		})
		cl.rec.mods = nil
		for _, m := range acc {
			cl.rec.mods = append(cl.rec.mods, m)
		}
		sortMods(cl.rec.mods)
		if len(acc) == n0 && !changed {
			break
		}
	}
	if x.dry > 0 {
		return
	}
	vk := x.fnName + "/" + key + strings.Join(x.stack, ">")
	if x.closRun[vk] {
		return
	}
	x.closRun[vk] = true
	x.eng.noteContract(con, key)
	run(false, func(entry, s *State, vs []Val) {
		x.exitObligs(s, entry, vs, con, lit)
	})
}

// concrete: a pointer to a structure of the repository, which an interface it is stored in does not hide
func (x *Exec) concrete(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && x.eng.ld.inRepo(n.Obj().Pkg().Path()) && structOf(p.Elem()) != nil
}

// always: what has to hold of the ghost state whenever a library call has changed it
func (x *Exec) always(st *State, con *Contract, e ast.Node, when string) {
	s := st.clone()
	s.names = x.entry.names
	for i, c := range x.con.Always {
		if hasProp(c.Props, x.eng.prop) {
			x.obligNamed(st, x.subst(s, c.Text, s), "crash", "always"+clauseName(c, i), e, when+" "+shortKey(con.Key)+": "+c.Text)
		}
	}
}

func (x *Exec) isLocalVar(o types.Object) bool { _, ok := o.(*types.Var); return ok }

// mutableVars: variables assigned or written through anywhere but in their declaration, in any function being executed.
func (x *Exec) mutableVars() map[types.Object]bool {
	return x.eng.mutable(x.pkg)
}

func (x *Exec) havocAll(n *Node, hint string) *Node {
	switch n.kind {
	case kPtr:
		m := *n
		m.p = x.havocAll(n.p, hint)
		return &m
	case kAlias:
		return n
	}
	if n.cl != nil {
		return n
	}
	m := *n
	m.f = nil
	m.term = x.fresh(n.vt, hint)
	if isSliceType(n.t) {
		m.own = ""
	}
	return &m
}

// inBody runs a function body in the frame on top of st.
func (x *Exec) inBody(st *State, body *ast.BlockStmt, onRet func(*State, []Val)) {
	pkg := x.pkg
	finish := func(s *State, vs []Val) {
		x.runDefers(s, func(s *State) {
			fr := x.frame(s)
			if len(fr.results) == len(vs) && len(vs) > 0 {
				// named results may have been changed by deferred calls
				nv := make([]Val, len(vs))
				for i, o := range fr.results {
					if o.Name() == "_" {
						nv[i] = vs[i]
						continue
					}
					nv[i] = Val{n: x.valueOf(s, s.vars[o])}
				}
				vs = nv
			}
			onRet(s, vs)
		})
	}
	x.block(st, body.List, K{
		ret: finish,
		next: func(s *State) {
			fr := x.frame(s)
			var vs []Val
			for _, o := range fr.results {
				vs = append(vs, Val{n: x.valueOf(s, s.vars[o])})
			}
			finish(s, vs)
		},
		brk:  map[string]func(*State){},
		cont: map[string]func(*State){},
	})
	x.pkg = pkg
}

func (x *Exec) runDefers(st *State, f func(*State)) {
	fr := x.frame(st)
	if len(fr.defers) == 0 {
		f(st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	st = st.clone()
	nf := *fr
	nf.defers = fr.defers[:len(fr.defers)-1]
	st.frames = append(append([]*Frame{}, st.frames[:len(st.frames)-1]...), &nf)
	x.call(st, d.call, func(s *State, _ []Val) { x.runDefers(s, f) })
}

func (x *Exec) callClosure(st *State, cl *Closure, args []Val, sig *types.Signature, e *ast.CallExpr, f func(*State, []Val)) {
	if cl.declFn != nil {
		x.callFunc(st, cl.declFn, cl.recv, args, e, f)
		return
	}
	if cl.rec != nil {
		var params []*types.Var
		for i := 0; i < sig.Params().Len(); i++ {
			params = append(params, sig.Params().At(i))
		}
		lsig := cl.pkg.Info.TypeOf(cl.lit).(*types.Signature)
		x.callContract(st, cl.rec.con, lsig, nil, nil, args, cl.rec.mods, true, e, f)
		return
	}
	lsig := cl.pkg.Info.TypeOf(cl.lit).(*types.Signature)
	x.inline(st, cl.pkg, "closure@"+fmt.Sprint(cl.lit.Pos()), lsig, nil, nil, args, cl.lit.Body, e, f)
}

func (x *Exec) callFunc(st *State, fo *types.Func, recv *Val, args []Val, e *ast.CallExpr, f func(*State, []Val)) {
	sig := fo.Type().(*types.Signature)
	fd := x.eng.ld.declOf[fo]
	if fd == nil {
		x.model(st, fo, recv, args, e, f)
		return
	}
	pkg := x.eng.ld.pkgOf[fo]
	key := funcKey(fo)
	con := x.eng.contractByKey(pkg.Path, key)
	inRec := 0
	for _, s := range x.stack {
		if s == pkg.Path+"."+key {
			inRec++
		}
	}
	if con != nil {
		x.eng.wantFunc(con)
		mods := x.eng.effects(con, x)
		x.callContract(st, con, sig, fo, recv, args, mods, false, e, f)
		return
	}
	if inRec > 3 || (x.con.Pkg == pkg.Path && x.con.Key == key) {
		panic(unsupported("recursive function without contract: " + key))
	}
	if fd.Body == nil {
		panic(unsupported("function without body: " + key))
	}
	x.eng.noteInlined(x.fnName, pkg.Path+"."+key)
	x.inline(st, pkg, pkg.Path+"."+key, sig, fo, recv, args, fd.Body, e, f)
}

// bindParam is the node a parameter gets from an argument.
func (x *Exec) bindParam(st *State, t types.Type, v Val, at ast.Node) *Node {
	if v.n.cl != nil {
		return v.n
	}
	if isPtrType(t) {
		vt := x.types.V(t)
		if v.path != nil {
			return &Node{t: t, vt: vt, kind: kAlias, al: v.path}
		}
		if v.n.kind == kPtr {
			return v.n
		}
		return x.convert(st, v.n, t)
	}
	if v.path != nil && (isMapType(t) || isSliceType(t)) && (isMapType(v.n.t) || isSliceType(v.n.t)) {
		return &Node{t: t, vt: x.types.V(t), kind: kAlias, al: v.path}
	}
	if _, ok := t.Underlying().(*types.Chan); (ok || isCallback(t)) && v.path != nil {
		return &Node{t: t, vt: x.types.V(t), kind: kAlias, al: v.path}
	}
	v = x.share(st, v, at, false)
	return x.convert(st, v.n, t)
}

func (x *Exec) inline(st *State, pkg *Pkg, key string, sig *types.Signature, fo *types.Func, recv *Val, args []Val, body *ast.BlockStmt, e ast.Node, f func(*State, []Val)) {
	if len(x.stack) > 12 {
		panic(unsupported("inlining too deep at " + key))
	}
	base := st
	st = st.clone()
	names := st.names
	st.names = map[string]types.Object{}
	for k, v := range names {
		st.names[k] = v
	}
	fr := &Frame{pkg: pkg, key: key}
	if recv != nil && sig.Recv() != nil {
		n := x.bindParam(st, sig.Recv().Type(), *recv, e)
		x.declare(st, sig.Recv(), n)
		if sig.Recv().Name() == "" {
			st.vars[sig.Recv()] = n
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		pt := p.Type()
		if types.IsInterface(pt) && isPtrType(args[i].n.t) && x.concrete(args[i].n.t) {
			pt = args[i].n.t
		}
		x.declare(st, p, x.bindParam(st, pt, args[i], e))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		fr.restyp = append(fr.restyp, r.Type())
		if r.Name() != "" {
			fr.results = append(fr.results, r)
			x.declare(st, r, x.zero(r.Type()))
			st.vars[r] = x.zero(r.Type())
		}
	}
	st.frames = append(append([]*Frame{}, st.frames...), fr)
	callerPkg, callerStack := x.pkg, x.stack
	x.pkg = pkg
	x.stack = append(append([]string{}, x.stack...), key+"@"+fmt.Sprint(e.Pos()))
	var outs []*State
	var vals [][]Val
	x.inBody(st, body, func(s *State, vs []Val) {
		s = s.clone()
		s.names = names
		s.frames = s.frames[:len(s.frames)-1]
		nv := make([]Val, len(vs))
		for i, v := range vs {
			nv[i] = Val{n: x.valueOf(s, v.n), from: v.from}
			if v.path != nil && isChanType(v.n.t) {
				nv[i].path = x.realPath(s, v.path)
				continue
			}
			if v.path != nil && isPtrType(v.n.t) && v.path.root != nil && !x.isParamOf(sig, v.path.root) {
				nv[i].path = nil
			}
			if v.path != nil && hasRefs(v.n.t) && v.n.kind == kVal && !x.localTo(base, v.path.root) {
				// returned memory that the caller can also reach
				nv[i] = x.share(s, v, e, false)
				nv[i].from = nil
			}
			if v.n.kind == kPtr {
				nv[i].n = v.n
			}
		}
		for obj, n := range s.vars { // references the callee had
			if n.kind == kAlias && base.vars[obj] == nil && body.Pos() <= obj.Pos() && obj.Pos() <= body.End() {
				delete(s.vars, obj)
			}
		}
		if fo != nil { // parameters are not seen any more, unless a function made in the callee lives on
			ps := []*types.Var{}
			if sig.Recv() != nil {
				ps = append(ps, sig.Recv())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ps = append(ps, sig.Params().At(i))
			}
			for _, p := range ps {
				if base.vars[p] == nil && s.vars[p] != nil && s.vars[p].cl == nil && (s.vars[p].kind == kAlias || s.vars[p].kind == kPtr) && !hasFuncLit(body) {
					delete(s.vars, p)
				}
			}
		}
		outs = append(outs, s)
		vals = append(vals, nv)
	})
	x.pkg, x.stack = callerPkg, callerStack
	if len(outs) > 1 && !x.con.Forks {
		pure := true
		for _, o := range outs {
			if !sameVars(base, o) {
				pure = false
			}
		}
		plain := true
		for _, vs := range vals {
			for _, v := range vs {
				if v.n.kind != kVal || v.n.cl != nil {
					plain = false
				}
			}
		}
		if pure && plain && len(vals[0]) <= 3 {
			objs := x.eng.resObjs(len(vals[0]), vals[0])
			for i, o := range outs {
				for j, v := range vals[i] {
					o.vars[objs[j]] = x.convertQuiet(v.n, objs[j].Type())
				}
			}
			if m, ok := x.tryMerge(base, outs); ok {
				var vs []Val
				good := true
				for _, o := range objs {
					n := m.vars[o]
					if n == nil {
						good = false
						break
					}
					delete(m.vars, o)
					vs = append(vs, Val{n: n})
				}
				if good {
					m.frames = base.frames
					m.names = names
					f(m, vs)
					return
				}
			}
		}
	}
	for i, o := range outs {
		f(o, vals[i])
		x.pkg, x.stack = callerPkg, callerStack
	}
}

func (x *Exec) convertQuiet(n *Node, t types.Type) *Node { m := *n; return &m }

func (x *Exec) isParamOf(sig *types.Signature, o types.Object) bool { return false }

// localTo: was the variable already there before the call?
func (x *Exec) localTo(base *State, o types.Object) bool {
	_, there := base.vars[o]
	return !there
}

// callContract checks the precondition and assumes the postcondition of the callee.
func (x *Exec) callContract(st *State, con *Contract, sig *types.Signature, fo *types.Func, recv *Val, args []Val, mods []modLeaf, closure bool, e ast.Node, f func(*State, []Val)) {
	st = st.clone()
	x.eng.noteUsed(x.fnName, con)
	cs := st.clone()
	if !closure {
		cs.names = map[string]types.Object{}
	}
	cs.extra = map[string]string{}
	for _, hn := range con.Heaps {
		h := x.eng.heapVar(hn)
		for _, g := range x.heapGuard {
			if g == h {
				panic(unsupported("goroutine looks at structures that were changed meanwhile"))
			}
		}
		cs.names[h.Name()] = h
	}
	type bound struct {
		obj    types.Object
		pseudo types.Object
	}
	objOf := map[types.Object]types.Object{} // callee param -> pseudo
	bind := func(p *types.Var, v Val) {
		ps := types.NewVar(token.NoPos, nil, p.Name(), p.Type())
		var n *Node
		if v.n.trans && !con.Transient[p.Name()] && isSliceType(p.Type()) {
			x.oblig(st, "false", "alias", e, "passes memory that the scanner will overwrite to "+con.Key)
		}
		n = x.bindParam(st, p.Type(), v, e)
		cs.vars[ps] = n
		if p.Name() != "" && p.Name() != "_" {
			cs.names[p.Name()] = ps
		} else if p == sig.Recv() {
			cs.names["recv"] = ps
		}
		objOf[p] = ps
	}
	if recv != nil && sig.Recv() != nil {
		v := *recv
		if isPtrType(v.n.t) && !isPtrType(sig.Recv().Type()) {
			var s2 *State
			s2, v = x.deref(st, v, e)
			st = s2
		} else if isPtrType(v.n.t) && v.n.kind == kVal && !handle(v.n.vt) {
			x.oblig(st, paren(x.term(st, v.n))+".id != 0", "nil", e, "nil pointer receiver")
		}
		bind(sig.Recv(), v)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		bind(sig.Params().At(i), args[i])
	}
	cs.items = st.items
	for k, v := range st.vars {
		cs.vars[k] = v
	}
	for _, g := range con.Ghosts {
		o := types.NewVar(token.NoPos, nil, g.Name, types.Typ[types.Int])
		ex, ok := x.con.CallGhost[con.Key+"."+g.Name]
		if !ok {
			ex, ok = x.con.CallGhost[shortKey(con.Key)+"."+g.Name]
		}
		if !ok && con == x.con {
			ex, ok = g.Name, true
		}
		if !ok && closure {
			ex, ok = g.Name, true
		}
		if x.con.Opaque {
			cs.vars[o] = &Node{t: types.Typ[types.Int], vt: g.Type, term: x.fresh(g.Type, g.Name)}
			cs.names[g.Name] = o
			continue
		}
		if !ok {
			panic(unsupported("no value for ghost " + g.Name + " of " + con.Key))
		}
		t := x.subst(st, ex, st)
		cs.vars[o] = &Node{t: types.Typ[types.Int], vt: g.Type, term: t}
		cs.names[g.Name] = o
	}
	for i, p := range args {
		if p.n.cl == nil && (p.n.kind == kVal || p.path == nil) {
			st.extra[fmt.Sprintf("$arg%d", i)] = x.term(st, p.n)
		}
	}
	if recv != nil && sig.Recv() != nil {
		for ps, n := range cs.vars {
			if ps == objOf[sig.Recv()] {
				if n.kind == kAlias || n.kind == kPtr {
					n = x.valueOf(st, n)
				}
				if n.kind == kPtr {
					n = x.valueOf(st, n.p)
				}
				st.extra["$recv"] = x.term(st, n)
			}
		}
	}
	x.hintAt(st, "before "+shortKey(con.Key), e)
	if con.Key != shortKey(con.Key) {
		x.hintAt(st, "before "+con.Key, e)
	}
	cs.items = st.items
	for i, r := range con.Requires {
		if !hasProp(r.Props, x.eng.prop) || x.con.Opaque {
			continue
		}
		x.obligNamed(st, x.substCon(cs, r.Text, cs, con), "precondition", fmt.Sprintf("call.%s.requires%s", shortKey(con.Key), clauseName(r, i)), e, "precondition of "+con.Key+": "+r.Text)
	}
	for _, p := range sortedKeys(con.Own) {
		base, cnd := splitOwn(p)
		if strings.HasPrefix(base, "result") {
			continue
		}
		own := x.ownAt(cs, base)
		if own == "" {
			own = "false"
		}
		if cnd != "" {
			own = "(" + x.substCon(cs, cnd, cs, con) + ") ==> " + own
		}
		x.oblig(st, own, "alias", e, "argument "+p+" of "+con.Key+" must not be shared")
	}
	for _, p := range con.OwnIn {
		own := x.ownAt(cs, p)
		if own == "" {
			own = "false"
		}
		x.oblig(st, own, "alias", e, "argument "+p+" of "+con.Key+" must not be shared")
	}
	for _, a := range con.Alias {
		if !x.isAlias(cs, a.Name, a.Type) {
			if x.con.LoopAlias {
				// on a path that must be dead
				x.oblig(st, "false", "alias", e, "argument "+a.Name+" of "+con.Key+" must be "+a.Type)
				continue
			}
			panic(unsupported("argument " + a.Name + " of " + con.Key + " must be " + a.Type))
		}
	}
	pre := cs.clone()
	watched := con.Trusted && len(con.Modifies) > 0 && len(x.con.Always) > 0
	if !con.Trusted && len(x.con.Always) > 0 {
		for _, m := range mods {
			if nm := m.root.Name(); m.root.Pkg() == nil && stateTypes[nm] != "" && isHeapVar(m.root) {
				if !volatileStates[nm] {
					panic(unsupported("call of " + con.Key + ", which changes " + nm + " on its way"))
				}
				watched = true
			}
		}
	}
	if watched && con.Midway != "" && x.dry == 0 {
		ms := st.clone()
		x.havoc(ms, mods)
		mp := ms.clone()
		mp.names, mp.extra, mp.oldN = cs.names, map[string]string{}, pre
		for k, v := range cs.vars {
			if _, ok := mp.vars[k]; !ok {
				mp.vars[k] = v
			}
		}
		ms.fact(x.substCon(mp, con.Midway, mp, con))
		x.always(ms, con, e, "during")
	}
	// effects
	var cl []modLeaf
	for _, m := range mods {
		if ps, ok := objOf[m.root]; ok {
			n := cs.vars[ps]
			if n.kind == kAlias {
				steps := m.steps
				p := n.al
				// pointer parameter bound to a structure or to a location holding a pointer
				if isPtrType(m.root.Type()) && len(steps) > 0 && steps[0].k == sDeref {
					at := x.get(st, p)
					if !isPtrType(at.t) {
						steps = steps[1:]
					}
				}
				x.havocPath(st, p.with(steps...), m, e)
				continue
			}
			if n.kind == kPtr {
				cs.vars[ps] = x.havocNode(n, m.steps, m)
				continue
			}
			continue
		}
		if isHeapVar(m.root) {
			x.havoc(st, []modLeaf{m})
			continue
		}
		cl = append(cl, m)
	}
	if closure {
		x.havoc(st, cl)
	}
	st = x.calleeChans(st, cs, con, sig, objOf, mods, e)
	post := st.clone()
	post.names = cs.names
	post.extra = map[string]string{}
	for k, v := range cs.vars {
		if _, ok := post.vars[k]; !ok {
			post.vars[k] = v
		}
	}
	post.oldN = pre
	var vs []Val
	var resVars []types.Object
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		n := x.freshNode(r.Type(), "ret_"+shortName(con.Key))
		if con.OwnRet || isMapType(r.Type()) {
			n.own = "true"
		}
		o := types.NewVar(token.NoPos, nil, "result", r.Type())
		post.vars[o] = n
		resVars = append(resVars, o)
		post.names = cloneNames(post.names)
		post.names[fmt.Sprintf("result%d", i)] = o
		if sig.Results().Len() == 1 {
			post.names["result"] = o
		}
		if r.Name() != "" && r.Name() != "_" {
			post.names[r.Name()] = o
		}
		vs = append(vs, Val{n: n})
	}
	for _, en := range con.Ensures {
		if !hasProp(en.Props, x.eng.prop) || x.con.Opaque || con.mentionsGhost(en.Text) {
			continue
		}
		st.fact(x.substCon(post, en.Text, post, con))
	}
	for _, p := range sortedKeys(con.Own) {
		base, cnd := splitOwn(p)
		own := "true"
		if cnd != "" {
			own = "(" + x.substCon(post, cnd, post, con) + ")"
		}
		if strings.HasPrefix(base, "result") {
			x.setOwn(post, base, own)
			for i := range vs {
				vs[i].n = post.vars[resVars[i]]
			}
			continue
		}
		x.setOwnPost(st, post, base, own)
	}
	st.items = x.joinItems(st.items)
	st = st.clone()
	x.ghostResults(st, con, vs)
	if watched && x.dry == 0 {
		x.always(st, con, e, "after")
	}
	x.hintAt(st, "after "+shortKey(con.Key), e)
	if con.Key != shortKey(con.Key) {
		x.hintAt(st, "after "+con.Key, e)
	}
	f(st, vs)
}

func (x *Exec) joinItems(i *Item) *Item { return i }

// ghostResults makes the results of the last call of a contract function available to hints as $ret, $ret1 ...
func (x *Exec) ghostResults(st *State, con *Contract, vs []Val) {
	for i, v := range vs {
		t := x.term(st, v.n)
		if i == 0 {
			st.extra["$ret"] = t
		}
		st.extra[fmt.Sprintf("$ret%d", i)] = t
		st.extra[fmt.Sprintf("$ret_%s%d", shortName(con.Key), i)] = t
	}
}

func cloneNames(m map[string]types.Object) map[string]types.Object {
	n := map[string]types.Object{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, ")."); i >= 0 {
		return k[i+2:]
	}
	return k
}

func shortName(k string) string {
	k = shortKey(k)
	return strings.Map(func(r rune) rune {
		if r == '.' || r == '(' || r == ')' || r == '*' {
			return '_'
		}
		return r
	}, k)
}

func (x *Exec) havocPath(st *State, p *Path, m modLeaf, at ast.Node) {
	p = x.realPath(st, p)
	mm := m
	r := x.freshNode(m.t, x.hintName(mm))
	r.own = m.own
	if r.own != "true" {
		r.own = ""
	}
	if isMapType(m.t) {
		r.own = "true"
	}
	r.trans = m.trans
	if _, isChan := m.t.Underlying().(*types.Chan); len(m.steps) > 0 && !isChan {
		x.killAliases(st, p)
	}
	x.set(st, p, r, at)
}

func (x *Exec) havocNode(n *Node, steps []Step, m modLeaf) *Node {
	if len(steps) == 0 {
		r := x.freshNode(m.t, x.hintName(m))
		r.own = m.own
		return r
	}
	s := steps[0]
	switch s.k {
	case sField:
		e := x.explode(n)
		c := *e
		c.f = map[string]*Node{}
		for k, v := range e.f {
			c.f[k] = v
		}
		c.f[s.name] = x.havocNode(e.f[s.name], steps[1:], m)
		return &c
	case sDeref:
		if n.kind == kPtr {
			c := *n
			c.p = x.havocNode(n.p, steps[1:], m)
			return &c
		}
	}
	panic(unsupported("havoc of " + s.name))
}

func isHeapVar(o types.Object) bool {
	for _, h := range heapVars {
		if h != nil && types.Object(h) == o {
			return true
		}
	}
	return false
}

func hasFuncLit(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

func mayPanic(c *Contract, prop string) bool {
	for _, p := range c.MayPanic {
		if p == "*" || p == prop {
			return true
		}
	}
	return false
}
