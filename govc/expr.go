package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"
)

func (x *Exec) evalList(st *State, es []ast.Expr, f func(*State, []Val)) {
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if i == len(es) {
			f(st, acc)
			return
		}
		x.eval(st, es[i], func(st *State, v Val) {
			rec(st, i+1, append(append([]Val{}, acc...), v))
		})
	}
	rec(st, 0, nil)
}

func (x *Exec) evalMulti(st *State, e ast.Expr, f func(*State, []Val)) {
	switch e := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		x.call(st, e, f)
		return
	case *ast.IndexExpr:
		if mt, ok := x.info().TypeOf(e.X).Underlying().(*types.Map); ok {
			if tt, ok := x.info().TypeOf(e).(*types.Tuple); ok && tt.Len() == 2 {
				x.mapIndex(st, e, mt, func(st *State, v Val, m, key string) {
					okn := x.leaf(types.Typ[types.Bool], fmt.Sprintf("%s.dom().contains(%s)", paren(m), key))
					f(st, []Val{v, {n: okn}})
				})
				return
			}
		}
	}
	x.eval(st, e, func(st *State, v Val) { f(st, []Val{v}) })
}

func (x *Exec) mapIndex(st *State, e *ast.IndexExpr, mt *types.Map, f func(*State, Val, string, string)) {
	g := func(st *State, mv Val) {
		x.eval(st, e.Index, func(st *State, kv Val) {
			st = st.clone()
			key := x.term(st, x.convert(st, x.valueOf(st, kv.n), mt.Key()))
			key = x.name(st, x.types.V(mt.Key()), key, "key")
			m := x.term(st, mv.n)
			if mv.path != nil {
				p := mv.path.with(Step{k: sKey, key: key, t: mt.Elem()})
				n := x.get(st, p)
				f(st, Val{n: n, path: p}, m, key)
				return
			}
			n := x.leaf(mt.Elem(), fmt.Sprintf("mget(%s, %s, %s)", m, key, x.types.Default(mt.Elem())))
			f(st, Val{n: n}, m, key)
		})
	}
	x.eval(st, e.X, g)
}

// eval evaluates a single-valued expression.
func (x *Exec) eval(st *State, e ast.Expr, f func(*State, Val)) {
	e = ast.Unparen(e)
	tv := x.info().Types[e]
	if tv.Value != nil {
		f(st, Val{n: x.constNode(tv.Value, tv.Type)})
		return
	}
	switch e := e.(type) {
	case *ast.Ident:
		if tv.IsNil() {
			f(st, Val{n: x.leaf(types.Typ[types.UntypedNil], "0int")})
			return
		}
		obj := x.info().Uses[e]
		if obj == nil {
			obj = x.info().Defs[e]
		}
		switch o := obj.(type) {
		case *types.Var:
			if n, ok := st.vars[o]; ok {
				x.raced(st, o, e)
				if n.kind == kAlias {
					f(st, Val{n: x.get(st, n.al), path: n.al})
					return
				}
				f(st, Val{n: n, path: &Path{root: o}})
				return
			}
			if o.Parent() == o.Pkg().Scope() {
				f(st, Val{n: x.globalVar(st, o)})
				return
			}
			panic(unsupported("variable " + o.Name() + " has no value"))
		case *types.Func:
			n := x.leaf(o.Type(), "0int")
			n.cl = &Closure{declFn: o}
			f(st, Val{n: n})
			return
		}
		panic(unsupported("identifier " + e.Name))
	case *ast.SelectorExpr:
		sel := x.info().Selections[e]
		if sel == nil {
			obj := x.info().Uses[e.Sel]
			switch o := obj.(type) {
			case *types.Var:
				f(st, Val{n: x.globalVar(st, o)})
				return
			case *types.Func:
				n := x.leaf(o.Type(), "0int")
				n.cl = &Closure{declFn: o}
				f(st, Val{n: n})
				return
			}
			panic(unsupported("selector " + e.Sel.Name))
		}
		if sel.Kind() == types.MethodVal {
			x.eval(st, e.X, func(st *State, v Val) {
				n := x.leaf(sel.Type(), "0int")
				n.cl = &Closure{declFn: sel.Obj().(*types.Func), recv: &v}
				f(st, Val{n: n})
			})
			return
		}
		x.eval(st, e.X, func(st *State, v Val) {
			st, r := x.field(st, v, sel, e)
			f(st, r)
		})
	case *ast.IndexExpr:
		t := x.info().TypeOf(e.X).Underlying()
		switch u := t.(type) {
		case *types.Map:
			x.mapIndex(st, e, u, func(st *State, v Val, _, _ string) { f(st, v) })
		case *types.Slice, *types.Array, *types.Basic, *types.Pointer:
			x.eval(st, e.X, func(st *State, v Val) {
				x.eval(st, e.Index, func(st *State, iv Val) {
					st = st.clone()
					s := x.term(st, v.n)
					i := x.term(st, iv.n)
					ln := paren(s) + ".len()"
					if v.n.cap1 {
						// no extension for indexing
					}
					x.oblig(st, fmt.Sprintf("0 <= %s < %s", i, ln), "index", e, "index in range")
					st.fact(fmt.Sprintf("0 <= %s < %s", i, ln))
					var et types.Type
					if sl, ok := u.(*types.Slice); ok {
						et = sl.Elem()
					} else if ar, ok := u.(*types.Array); ok {
						et = ar.Elem()
					} else {
						et = types.Typ[types.Byte]
					}
					if v.path != nil {
						p := v.path.with(Step{k: sIndex, key: i, t: et})
						n := x.child(st, v.n, Step{k: sIndex, key: i, t: et})
						if v.n.trans && isSliceType(et) {
							m := *n
							m.trans = true
							n = &m
						}
						f(st, Val{n: n, path: p})
						return
					}
					n := x.leaf(et, fmt.Sprintf("%s[%s]", paren(s), i))
					if v.n.trans && isSliceType(et) {
						n.trans = true
					}
					f(st, Val{n: n})
				})
			})
		default:
			panic(unsupported("index of " + t.String()))
		}
	case *ast.SliceExpr:
		x.sliceExpr(st, e, f)
	case *ast.StarExpr:
		x.eval(st, e.X, func(st *State, v Val) {
			st = st.clone()
			st2, r := x.deref(st, v, e)
			f(st2, r)
		})
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			x.cond(st, e.X, func(st *State, c string) { f(st, Val{n: x.leaf(types.Typ[types.Bool], neg(c))}) })
		case token.SUB:
			x.eval(st, e.X, func(st *State, v Val) { f(st, Val{n: x.leaf(v.n.t, "(-"+paren(x.term(st, v.n))+")")}) })
		case token.ADD:
			x.eval(st, e.X, f)
		case token.AND:
			x.addrOf(st, e, f)
		case token.ARROW:
			x.receive(st, e, f)
		default:
			panic(unsupported("unary " + e.Op.String()))
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND, token.LOR:
			x.cond(st, e, func(st *State, c string) { f(st, Val{n: x.leaf(types.Typ[types.Bool], c)}) })
			return
		}
		x.eval(st, e.X, func(st *State, a Val) {
			x.eval(st, e.Y, func(st *State, b Val) {
				st = st.clone()
				switch e.Op {
				case token.EQL:
					f(st, Val{n: x.leaf(types.Typ[types.Bool], x.equal(st, a.n, b.n))})
				case token.NEQ:
					f(st, Val{n: x.leaf(types.Typ[types.Bool], neg(x.equal(st, a.n, b.n)))})
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					at, bt := x.term(st, a.n), x.term(st, b.n)
					if x.types.V(a.n.t) == "Str" || x.types.V(b.n.t) == "Str" {
						var r string
						switch e.Op {
						case token.LSS:
							r = fmt.Sprintf("str_lt(%s, %s)", at, bt)
						case token.GTR:
							r = fmt.Sprintf("str_lt(%s, %s)", bt, at)
						case token.LEQ:
							r = fmt.Sprintf("!str_lt(%s, %s)", bt, at)
						case token.GEQ:
							r = fmt.Sprintf("!str_lt(%s, %s)", at, bt)
						}
						f(st, Val{n: x.leaf(types.Typ[types.Bool], r)})
						return
					}
					f(st, Val{n: x.leaf(types.Typ[types.Bool], fmt.Sprintf("(%s %s %s)", at, e.Op.String(), bt))})
				default:
					f(st, Val{n: x.arith(st, e.Op, a.n, b.n, x.info().TypeOf(e), e)})
				}
			})
		})
	case *ast.CallExpr:
		x.call(st, e, func(st *State, vs []Val) {
			if len(vs) == 0 {
				f(st, Val{n: x.leaf(types.NewTuple(), "0int")})
				return
			}
			f(st, vs[0])
		})
	case *ast.CompositeLit:
		x.compositeLit(st, e, x.info().TypeOf(e), f)
	case *ast.FuncLit:
		n := x.leaf(x.info().TypeOf(e), "0int")
		n.cl = &Closure{lit: e, pkg: x.pkg}
		f(st, Val{n: n})
	case *ast.TypeAssertExpr:
		t := x.info().TypeOf(e)
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			panic(unsupported("type assertion"))
		}
		x.eval(st, e.X, func(st *State, v Val) {
			st = st.clone()
			tm := x.term(st, x.valueOf(st, v.n))
			x.oblig(st, "is_str("+tm+")", "type-assertion", e, "type assertion holds")
			n := x.leaf(t, "unbox_str("+tm+")")
			n.term = x.name(st, "Str", n.term, "str")
			f(st, Val{n: n})
		})
	default:
		panic(unsupported(fmt.Sprintf("expression %T", e)))
	}
}

func (x *Exec) arith(st *State, op token.Token, a, b *Node, t types.Type, at ast.Node) *Node {
	l, r := x.term(st, a), x.term(st, b)
	if x.types.V(a.t) == "Str" {
		return x.leaf(t, fmt.Sprintf("(%s + %s)", paren(l), paren(r)))
	}
	switch op {
	case token.ADD, token.SUB, token.MUL:
		return x.leaf(t, fmt.Sprintf("(%s %s %s)", paren(l), op.String(), paren(r)))
	case token.QUO:
		x.oblig(st, paren(r)+" != 0", "div", at, "division by zero")
		return x.leaf(t, fmt.Sprintf("go_div(%s, %s)", l, r))
	case token.REM:
		x.oblig(st, paren(r)+" != 0", "div", at, "division by zero")
		return x.leaf(t, fmt.Sprintf("go_mod(%s, %s)", l, r))
	}
	panic(unsupported("operator " + op.String()))
}

func isNil(n *Node) bool {
	b, ok := n.t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Exec) equal(st *State, a, b *Node) string {
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		av := x.valueOf(st, a)
		if av.kind == kPtr {
			return "false"
		}
		if av.cl != nil {
			return "false"
		}
		switch a.t.Underlying().(type) {
		case *types.Pointer:
			if av.vt == "GoElem" || av.vt == "GoList" {
				return "!" + paren(x.term(st, av)) + ".ok"
			}
			if av.vt == "Scanner" || av.vt == "Rd" {
				return "false"
			}
			if heapOf(a.t) != nil || isHandleType(a.t) {
				return paren(x.term(st, av)) + " == 0"
			}
			return paren(x.term(st, av)) + ".id == 0"
		case *types.Interface:
			if av.vt == "Rd" {
				return "false"
			}
			return paren(x.term(st, av)) + " == 0"
		case *types.Slice:
			return fmt.Sprintf("is_nil_seq(%s)", x.term(st, av))
		case *types.Map:
			return fmt.Sprintf("is_nil_map(%s)", x.term(st, av))
		}
		return paren(x.term(st, av)) + " == 0"
	}
	l, r := x.term(st, a), x.term(st, b)
	if l == r {
		return "true"
	}
	if litTerm(l) && litTerm(r) {
		return "false"
	}
	if isPtrType(a.t) {
		return fmt.Sprintf("%s.id == %s.id", paren(l), paren(r))
	}
	return fmt.Sprintf("%s == %s", paren(l), paren(r))
}

// litTerm: a string literal (equal literals have equal terms).
func litTerm(s string) bool {
	if !strings.HasPrefix(s, "lit_") || !strings.HasSuffix(s, "()") {
		return false
	}
	for _, c := range s[4 : len(s)-2] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func (x *Exec) constNode(v constant.Value, t types.Type) *Node {
	switch v.Kind() {
	case constant.Bool:
		return x.leaf(t, fmt.Sprint(constant.BoolVal(v)))
	case constant.String:
		n := x.leaf(t, x.eng.lit(constant.StringVal(v)))
		n.vt = "Str"
		return n
	case constant.Int:
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return x.leaf(t, "("+s+"int)")
		}
		return x.leaf(t, s+"int")
	}
	n := x.leaf(t, x.fresh("int", "const"))
	return n
}

// shortCircuit: l && y or l || y, where y is evaluated only if l does not decide.
func (x *Exec) shortCircuit(st *State, l string, or bool, y func(*State, func(*State, string)), f func(*State, string)) {
	if !or && l == "false" || or && l == "true" {
		f(st, l)
		return
	}
	g := l
	if or {
		g = neg(l)
	}
	in := st.clone()
	in.cond(g)
	var outs []*State
	var rs []string
	pkg := x.pkg
	y(in, func(s *State, r string) { outs = append(outs, s); rs = append(rs, r) })
	x.pkg = pkg
	if len(outs) == 1 && sameVars(st, outs[0]) {
		conds, rest, ok := since(st, outs[0])
		if ok && len(conds) == 1 {
			st = st.clone()
			for _, it := range rest {
				if it.kind == 'f' {
					if x.defines(it.text) {
						st.fact(it.text)
					} else {
						st.fact(fmt.Sprintf("%s ==> %s", paren(g), paren(it.text)))
					}
				} else {
					st.add('h', fmt.Sprintf("if %s { %s }", g, it.text))
				}
			}
			op := "&&"
			if or {
				op = "||"
			}
			f(st, fmt.Sprintf("(%s %s %s)", paren(l), op, paren(rs[0])))
			return
		}
	}
	// fork
	for i, o := range outs {
		f(o, rs[i])
		x.pkg = pkg
	}
	no := st.clone()
	no.cond(neg(g))
	if !or {
		f(no, "false")
	} else {
		f(no, "true")
	}
	x.pkg = pkg
}

// cond evaluates a boolean expression with short-circuit semantics.
func (x *Exec) cond(st *State, e ast.Expr, f func(*State, string)) {
	e = ast.Unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && x.info().Types[e].Value == nil {
		x.cond(st, b.X, func(st *State, l string) {
			x.shortCircuit(st, l, b.Op == token.LOR, func(st *State, f func(*State, string)) { x.cond(st, b.Y, f) }, f)
		})
		return
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		x.cond(st, u.X, func(st *State, c string) { f(st, negSimple(c)) })
		return
	}
	x.eval(st, e, func(st *State, v Val) { f(st, x.term(st, v.n)) })
}

func negSimple(c string) string {
	if c == "true" {
		return "false"
	}
	if c == "false" {
		return "true"
	}
	return neg(c)
}

// defines: facts "sym == term" for fresh symbols may be kept unconditionally.
func (x *Exec) defines(t string) bool { return false }

func sameVars(a, b *State) bool {
	for k, v := range a.vars {
		if b.vars[k] != v {
			return false
		}
	}
	return true
}

// deref reads through a pointer value.
func (x *Exec) deref(st *State, v Val, at ast.Node) (*State, Val) {
	n := v.n
	if n.kind == kAlias {
		v = Val{n: x.get(st, n.al), path: n.al}
		n = v.n
	}
	pt, ok := n.t.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("dereference of " + n.t.String()))
	}
	if h := heapOf(n.t); h != nil {
		key := x.term(st, n)
		x.oblig(st, paren(key)+" != 0", "nil", at, "nil pointer dereference")
		st.fact(paren(key) + " != 0")
		for _, g := range x.heapGuard {
			if g == h {
				panic(unsupported("goroutine looks at structures that were changed meanwhile"))
			}
		}
		if st.vars[h] == nil {
			panic(unsupported("no heap of " + pt.Elem().String() + " here"))
		}
		p := &Path{root: h, steps: []Step{{k: sKey, key: x.name(st, "int", key, "addr"), t: pt.Elem()}}}
		return st, Val{n: x.get(st, p), path: p}
	}
	step := Step{k: sDeref, t: pt.Elem()}
	if n.kind != kPtr && !handle(n.vt) && n.vt != "Str" {
		x.oblig(st, paren(n.term)+".id != 0", "nil", at, "nil pointer dereference")
		st.fact(paren(n.term) + ".id != 0")
	}
	c := x.child(st, n, step)
	if v.path != nil {
		return st, Val{n: c, path: v.path.with(step)}
	}
	return st, Val{n: c}
}

func (x *Exec) field(st *State, v Val, sel *types.Selection, at ast.Node) (*State, Val) {
	idx := sel.Index()
	cur := v
	st = st.clone()
	for _, i := range idx {
		if isPtrType(cur.n.t) || heapOf(cur.n.t) != nil {
			st, cur = x.deref(st, cur, at)
		}
		stt := structOf(cur.n.t)
		if stt == nil {
			panic(unsupported("field of " + cur.n.t.String()))
		}
		fv := stt.Field(i)
		s := Step{k: sField, name: fv.Name(), t: fv.Type()}
		if cur.n.vt == "GoElem" && fv.Name() == "Value" {
			x.oblig(st, paren(cur.n.term)+".ok", "nil", at, "nil pointer dereference")
			cur = Val{n: x.leaf(fv.Type(), paren(cur.n.term)+".val")}
			continue
		}
		if cur.n.vt == "int" || handle(cur.n.vt) {
			// field of a foreign struct: unknown
			cur = Val{n: x.freshNode(fv.Type(), "ext")}
			continue
		}
		c := x.child(st, cur.n, s)
		nv := Val{n: c}
		if cur.path != nil {
			nv.path = cur.path.with(s)
		}
		if c.kind == kAlias {
			nv = Val{n: x.get(st, c.al), path: c.al}
		}
		cur = nv
	}
	return st, cur
}

// evalPath evaluates an assignable expression to a location.
func (x *Exec) evalPath(st *State, e ast.Expr, f func(*State, *Path)) {
	x.eval(st, e, func(st *State, v Val) {
		if v.path == nil {
			panic(unsupported("not a location: " + fmt.Sprintf("%T", e)))
		}
		f(st, v.path)
	})
}

func (x *Exec) sliceExpr(st *State, e *ast.SliceExpr, f func(*State, Val)) {
	if e.Slice3 {
		panic(unsupported("three-index slice"))
	}
	x.eval(st, e.X, func(st *State, v Val) {
		var es []ast.Expr
		if e.Low != nil {
			es = append(es, e.Low)
		}
		if e.High != nil {
			es = append(es, e.High)
		}
		x.evalList(st, es, func(st *State, vs []Val) {
			st = st.clone()
			n := x.valueOf(st, v.n)
			s := x.term(st, n)
			lo, hi := "0int", ""
			i := 0
			if e.Low != nil {
				lo = x.term(st, vs[i].n)
				i++
			}
			ln := "(" + paren(s) + ".len() as int)"
			if e.High != nil {
				hi = x.term(st, vs[i].n)
			} else {
				hi = ln
			}
			rt := x.info().TypeOf(e)
			var m *Node
			if n.cap1 && e.High != nil {
				x.oblig(st, fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s + 1", lo, lo, hi, hi, ln), "slice", e, "slice bounds within capacity")
				st.fact(fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s + 1", lo, lo, hi, hi, ln))
				m = x.freshNode(rt, "capslice")
				st.fact(fmt.Sprintf("%s.len() == %s - %s", m.term, hi, lo))
				st.fact(fmt.Sprintf("forall|i_: int| 0 <= i_ && i_ < %s - %s && %s + i_ < %s ==> #[trigger] %s[i_] == %s[%s + i_]", hi, lo, lo, ln, m.term, paren(s), lo))
				st.fact(fmt.Sprintf("%s <= %s ==> %s == %s.subrange(%s, %s)", hi, ln, m.term, paren(s), lo, hi))
			} else if cp, ok := st.extra["cap "+s]; ok && e.High != nil {
				x.oblig(st, fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s", lo, lo, hi, hi, cp), "slice", e, "slice bounds within capacity")
				st.fact(fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s", lo, lo, hi, hi, cp))
				m = x.freshNode(rt, "capslice")
				st.fact(fmt.Sprintf("%s.len() == %s - %s", m.term, hi, lo))
				st.fact(fmt.Sprintf("%s <= %s ==> %s == %s.subrange(%s, %s)", hi, ln, m.term, paren(s), lo, hi))
			} else {
				x.oblig(st, fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s", lo, lo, hi, hi, ln), "slice", e, "slice bounds in range")
				st.fact(fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s", lo, lo, hi, hi, ln))
				m = x.leaf(rt, fmt.Sprintf("%s.subrange(%s, %s)", paren(s), lo, hi))
			}
			m.trans = n.trans
			m.own = n.own
			if e.High == nil {
				m.cap1 = n.cap1
			}
			r := Val{n: m}
			if isSliceType(rt) {
				r.from = v.path
				if v.from != nil {
					r.from = v.from
				}
			}
			f(st, r)
		})
	})
}

// alloc makes a pointer of type t to a new value.
func (x *Exec) alloc(st *State, t types.Type, v *Node) (*State, *Node) {
	if x.types.V(t) == "Str" { // a buffer, which is its content
		n := *v
		n.t, n.vt = t, "Str"
		return st, &n
	}
	st = st.clone()
	id := x.fresh("int", "ptr")
	st.fact(id + " > 0")
	h := heapOf(t)
	if h == nil {
		return st, &Node{t: t, vt: x.types.V(t), kind: kPtr, id: id, p: v}
	}
	if st.vars[h] == nil {
		panic(unsupported("no heap for " + t.String() + " here"))
	}
	n := x.get(st, &Path{root: h})
	st.fact(fmt.Sprintf("!%s.dom().contains(%s)", paren(x.term(st, n)), id))
	m := *n
	m.term = x.nameAlways(st, n.vt, fmt.Sprintf("%s.insert(%s, %s)", paren(x.term(st, n)), id, x.term(st, v)), "heap")
	st.vars[h] = &m
	return st, x.leaf(t, id)
}

// addrOf handles &x.
func (x *Exec) addrOf(st *State, e *ast.UnaryExpr, f func(*State, Val)) {
	switch y := ast.Unparen(e.X).(type) {
	case *ast.CompositeLit:
		x.compositeLit(st, y, x.info().TypeOf(y), func(st *State, v Val) {
			f2, n := x.alloc(st, x.info().TypeOf(e), v.n)
			f(f2, Val{n: n})
		})
		return
	case *ast.Ident:
		obj := x.info().Uses[y]
		n := st.vars[obj]
		if n == nil || heapOf(x.info().TypeOf(e)) != nil {
			panic(unsupported("address of " + y.Name))
		}
		st = st.clone()
		// the address is taken as a value: the variable must not change afterwards
		pk := "&" + fmt.Sprintf("%p", obj)
		id := st.extra[pk]
		if id == "" || !n.frozen {
			id = x.fresh("int", "ptr")
			st.fact(id + " > 0")
			st.extra[pk] = id
		}
		m := *n
		m.frozen = true
		st.vars[obj] = &m
		t := x.info().TypeOf(e)
		f(st, Val{n: x.leafPtr(t, id, x.term(st, n))})
		return
	}
	x.evalPath(st, e.X, func(st *State, p *Path) {
		panic(unsupported("address of a field or element"))
	})
}

func (x *Exec) leafPtr(t types.Type, id, term string) *Node {
	return x.leaf(t, fmt.Sprintf("(Ptr { id: %s, v: %s })", id, term))
}

func (x *Exec) compositeLit(st *State, e *ast.CompositeLit, t types.Type, f func(*State, Val)) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		x.compositeLit(st, e, pt.Elem(), func(st *State, v Val) {
			f2, n := x.alloc(st, t, v.n)
			f(f2, Val{n: n})
		})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := &Node{t: t, vt: x.types.V(t), f: map[string]*Node{}, own: "true"}
		for i := 0; i < u.NumFields(); i++ {
			z := x.zero(u.Field(i).Type())
			n.f[u.Field(i).Name()] = z
		}
		if n.vt == "int" {
			f(st, Val{n: x.freshNode(t, "ext")})
			return
		}
		if n.vt == "Str" { // a buffer, which is its content
			f(st, Val{n: x.zero(t)})
			return
		}
		var es []ast.Expr
		var names []string
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				names = append(names, kv.Key.(*ast.Ident).Name)
				es = append(es, kv.Value)
			} else {
				names = append(names, u.Field(i).Name())
				es = append(es, el)
			}
		}
		x.evalList(st, es, func(st *State, vs []Val) {
			st = st.clone()
			m := *n
			m.f = map[string]*Node{}
			for k, v := range n.f {
				m.f[k] = v
			}
			for i, v := range vs {
				ft := n.f[names[i]].t
				if v.n.kind == kVal && v.path != nil && isMapType(ft) {
					// map stored in a new struct
				}
				v = x.share(st, v, e, true)
				c := x.convert(st, v.n, ft)
				if c.kind == kPtr {
					c = x.freeze(c)
				}
				m.f[names[i]] = c
			}
			f(st, Val{n: &m})
		})
	case *types.Slice, *types.Array:
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		var es []ast.Expr
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed slice literal"))
			}
			es = append(es, el)
		}
		x.evalElems(st, es, et, func(st *State, vs []Val) {
			st = st.clone()
			ev := x.types.V(et)
			term := "Seq::<" + ev + ">::empty()"
			if len(vs) > 0 {
				var ts []string
				for _, v := range vs {
					v = x.share(st, v, e, true)
					ts = append(ts, x.term(st, x.convert(st, v.n, et)))
				}
				term = "seq![" + strings.Join(ts, ", ") + "]"
			}
			n := x.leaf(t, term)
			n.own = "true"
			n.term = x.name(st, n.vt, n.term, "lit")
			f(st, Val{n: n})
		})
	case *types.Map:
		n := x.leaf(t, x.types.Default(t))
		n.own = "true"
		n.deep = len(e.Elts) == 0
		var rec func(st *State, i int, cur *Node)
		rec = func(st *State, i int, cur *Node) {
			if i == len(e.Elts) {
				f(st, Val{n: cur})
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			x.evalElems(st, []ast.Expr{kv.Key}, u.Key(), func(st *State, ks []Val) {
				x.evalElems(st, []ast.Expr{kv.Value}, u.Elem(), func(st *State, vs []Val) {
					st = st.clone()
					v := x.share(st, vs[0], e, true)
					m := *cur
					m.term = fmt.Sprintf("%s.insert(%s, %s)", paren(cur.term), x.term(st, x.convert(st, ks[0].n, u.Key())), x.term(st, x.convert(st, v.n, u.Elem())))
					rec(st, i+1, &m)
				})
			})
		}
		rec(st, 0, n)
	default:
		panic(unsupported("composite literal of " + t.String()))
	}
}

func (x *Exec) freeze(n *Node) *Node {
	m := *n
	m.kind = kVal
	m.term = fmt.Sprintf("(Ptr { id: %s, v: %s })", n.id, x.term(nil, n.p))
	m.p = nil
	return &m
}

// evalElems evaluates literals whose type may be elided.
func (x *Exec) evalElems(st *State, es []ast.Expr, et types.Type, f func(*State, []Val)) {
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if i == len(es) {
			f(st, acc)
			return
		}
		g := func(st *State, v Val) { rec(st, i+1, append(append([]Val{}, acc...), v)) }
		if cl, ok := es[i].(*ast.CompositeLit); ok && cl.Type == nil {
			x.compositeLit(st, cl, et, g)
			return
		}
		x.eval(st, es[i], g)
	}
	rec(st, 0, nil)
}

// globalVar is a package-level variable: error sentinels are distinct constants, others unknown but fixed.
func (x *Exec) globalVar(st *State, o *types.Var) *Node {
	t := o.Type()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return x.leaf(t, x.eng.sentinel(o))
	}
	g := x.eng
	if o.Pkg() != nil && g.ld.inRepo(o.Pkg().Path()) && !handle(x.types.V(t)) {
		if !g.constGlobal(o) {
			return x.freshNode(t, o.Name())
		}
		if init := g.globalInit(o); init != nil {
			if lit, ok := litInit(g.ld.pkgs[o.Pkg().Path()], init); ok {
				return x.leaf(t, g.lit(lit))
			}
			if pat, ok := reInit(g.ld.pkgs[o.Pkg().Path()], init); ok {
				n := x.leaf(t, g.global(o, x.types.V(t)))
				g.rePat[n.term] = pat
				return n
			}
		}
	}
	n := x.leaf(t, g.global(o, x.types.V(t)))
	return n
}

// globalInit is the initial value of a package-level variable of the repository.
func (g *Engine) globalInit(o *types.Var) ast.Expr {
	p := g.ld.pkgs[o.Pkg().Path()]
	if p == nil {
		return nil
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, nm := range vs.Names {
					if p.Info.Defs[nm] == o && len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
				}
			}
		}
	}
	return nil
}

// constGlobal: nothing in the repository assigns the variable or takes its address.
func (g *Engine) constGlobal(o *types.Var) bool {
	if r, ok := g.constGl[o]; ok {
		return r
	}
	root := func(p *Pkg, e ast.Expr) types.Object {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
			case *ast.IndexExpr:
				e = y.X
			case *ast.SliceExpr:
				e = y.X
			case *ast.StarExpr:
				e = y.X
			case *ast.SelectorExpr:
				if v, ok := p.Info.Uses[y.Sel].(*types.Var); ok && v == o {
					return v
				}
				e = y.X
			case *ast.Ident:
				return p.Info.Uses[y]
			default:
				return nil
			}
		}
	}
	res := true
	for _, p := range g.ld.pkgs {
		p := p
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch y := n.(type) {
				case *ast.AssignStmt:
					for _, l := range y.Lhs {
						if root(p, l) == o {
							res = false
						}
					}
				case *ast.IncDecStmt:
					if root(p, y.X) == o {
						res = false
					}
				case *ast.UnaryExpr:
					if y.Op == token.AND && root(p, y.X) == o {
						res = false
					}
				case *ast.RangeStmt:
					if y.Key != nil && root(p, y.Key) == o || y.Value != nil && root(p, y.Value) == o {
						res = false
					}
				}
				return true
			})
		}
	}
	g.constGl[o] = res
	return res
}

func constString(p *Pkg, e ast.Expr) (string, bool) {
	if tv, ok := p.Info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value), true
	}
	return "", false
}

// litInit: a string, or a conversion of a constant string to bytes
func litInit(p *Pkg, e ast.Expr) (string, bool) {
	e = ast.Unparen(e)
	if s, ok := constString(p, e); ok {
		return s, true
	}
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 && p.Info.Types[c.Fun].IsType() {
		if sl, ok := p.Info.Types[c.Fun].Type.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return constString(p, c.Args[0])
			}
		}
	}
	return "", false
}

// reInit: regexp.MustCompile of a constant
func reInit(p *Pkg, e ast.Expr) (string, bool) {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return "", false
	}
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", false
	}
	fo, ok := p.Info.Uses[se.Sel].(*types.Func)
	if !ok || fo.FullName() != "regexp.MustCompile" {
		return "", false
	}
	return constString(p, c.Args[0])
}

// reFormula is "text s matches the pattern" where the pattern is a plain one; otherwise an unknown but fixed predicate.
func (x *Exec) reFormula(re, s string) string {
	pat, ok := x.eng.rePat[re]
	if ok {
		if r, err := syntax.Parse(pat, syntax.Perl); err == nil {
			if t, ok := x.rePlain(r, s, false, false); ok {
				return t
			}
		}
	}
	return fmt.Sprintf("re_match(%s, %s)", re, s)
}

func (x *Exec) rePlain(r *syntax.Regexp, s string, atStart, atEnd bool) (string, bool) {
	switch r.Op {
	case syntax.OpCapture:
		return x.rePlain(r.Sub[0], s, atStart, atEnd)
	case syntax.OpLiteral:
		if r.Flags&syntax.FoldCase != 0 {
			return "", false
		}
		for _, c := range r.Rune {
			if c >= 128 {
				return "", false
			}
		}
		l := x.eng.lit(string(r.Rune))
		switch {
		case atStart && atEnd:
			return fmt.Sprintf("(%s == %s)", s, l), true
		case atStart:
			return fmt.Sprintf("starts_with(%s, %s)", s, l), true
		case atEnd:
			return fmt.Sprintf("ends_with(%s, %s)", s, l), true
		}
		return fmt.Sprintf("str_contains(%s, %s)", s, l), true
	case syntax.OpAlternate:
		var ts []string
		for _, a := range r.Sub {
			t, ok := x.rePlain(a, s, atStart, atEnd)
			if !ok {
				return "", false
			}
			ts = append(ts, t)
		}
		return "(" + strings.Join(ts, " || ") + ")", true
	case syntax.OpCharClass:
		var ts []string
		n := 0
		for i := 0; i+1 < len(r.Rune); i += 2 {
			for c := r.Rune[i]; c <= r.Rune[i+1]; c++ {
				if n++; n > 64 || c >= 128 {
					return "", false
				}
				t, ok := x.rePlain(&syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{c}}, s, atStart, atEnd)
				if !ok {
					return "", false
				}
				ts = append(ts, t)
			}
		}
		return "(" + strings.Join(ts, " || ") + ")", len(ts) > 0
	case syntax.OpConcat:
		var words []string
		subs := r.Sub
		if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
			atStart = true
			subs = subs[1:]
		}
		if len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
			atEnd = true
			subs = subs[:len(subs)-1]
		}
		words, ok := reWords(subs)
		if !ok {
			return "", false
		}
		var ts []string
		for _, w := range words {
			t, ok := x.rePlain(&syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune(w)}, s, atStart, atEnd)
			if !ok {
				return "", false
			}
			ts = append(ts, t)
		}
		return "(" + strings.Join(ts, " || ") + ")", true
	}
	return "", false
}

// reWords: all texts a sequence of plain patterns stands for
func reWords(subs []*syntax.Regexp) ([]string, bool) {
	words := []string{""}
	for _, r := range subs {
		var ws []string
		for r.Op == syntax.OpCapture {
			r = r.Sub[0]
		}
		switch r.Op {
		case syntax.OpLiteral:
			if r.Flags&syntax.FoldCase != 0 {
				return nil, false
			}
			ws = []string{string(r.Rune)}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				for c := r.Rune[i]; c <= r.Rune[i+1] && len(ws) < 65; c++ {
					ws = append(ws, string(c))
				}
			}
		case syntax.OpConcat:
			w, ok := reWords(r.Sub)
			if !ok {
				return nil, false
			}
			ws = w
		case syntax.OpAlternate:
			for _, a := range r.Sub {
				w, ok := reWords([]*syntax.Regexp{a})
				if !ok {
					return nil, false
				}
				ws = append(ws, w...)
			}
		case syntax.OpQuest:
			w, ok := reWords(r.Sub)
			if !ok {
				return nil, false
			}
			ws = append([]string{""}, w...)
		default:
			return nil, false
		}
		var out []string
		for _, a := range words {
			for _, b := range ws {
				out = append(out, a+b)
			}
		}
		if len(out) > 64 {
			return nil, false
		}
		words = out
	}
	return words, true
}
