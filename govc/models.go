package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp/syntax"
	"strings"
)

// Pure library functions, each standing for a spec function of specs/std.rs with the same arguments.
var pureModels = map[string]string{
	"bytes.Equal": "str_eq", "bytes.Split": "str_split", "strings.Split": "str_split", "bytes.SplitN": "str_splitn", "strings.SplitN": "str_splitn",
	"bytes.Trim": "str_trim", "strings.Trim": "str_trim", "bytes.TrimSpace": "str_trimspace", "strings.TrimSpace": "str_trimspace",
	"bytes.IndexByte": "str_indexbyte", "strings.IndexByte": "str_indexbyte",
	"bytes.HasPrefix": "starts_with", "strings.HasPrefix": "starts_with", "bytes.HasSuffix": "ends_with", "strings.HasSuffix": "ends_with",
	"strings.Contains": "str_contains", "bytes.Contains": "str_contains", "strings.TrimPrefix": "trim_prefix", "bytes.TrimPrefix": "trim_prefix",
	"strings.TrimSuffix": "trim_suffix", "bytes.TrimSuffix": "trim_suffix",
	"strings.Join": "str_join", "bytes.Join": "str_join", "strings.Index": "str_index", "bytes.Index": "str_index", "strings.LastIndex": "str_lastindex", "strings.Fields": "str_fields",
	"strconv.Itoa": "str_itoa", "strings.ToLower": "str_lower", "strings.ToUpper": "str_upper", "strings.Replace": "str_replace", "strings.ReplaceAll": "str_replaceall",
	"strings.TrimLeft": "str_trimleft", "strings.TrimRight": "str_trimright", "bytes.TrimRight": "str_trimright", "bytes.TrimLeft": "str_trimleft",
	"strings.Repeat": "str_repeat", "strings.Count": "str_count", "bytes.Count": "str_count",
	"path/filepath.Join": "path_join", "path/filepath.Base": "path_base", "path/filepath.Ext": "path_ext", "path/filepath.Dir": "path_dir", "path.Join": "path_join", "path.Base": "path_base", "path.Ext": "path_ext",
}

// Calls without effect on the modelled state; results are arbitrary values.
var opaqueModels = map[string]bool{
	"fmt.Sprint": true, "fmt.Printf": true, "fmt.Println": true, "fmt.Print": true, "fmt.Fprintln": true, "fmt.Fprintf": true,
	"time.Now": true, "time.Since": true, "encoding/hex.EncodeToString": true, "time.Duration.Seconds": true, "log.Println": true, "log.Printf": true,
	"runtime.NumCPU": true, "context.Background": true,
}

func (x *Exec) model(st *State, fo *types.Func, recv *Val, args []Val, e *ast.CallExpr, f func(*State, []Val)) {
	pkg := ""
	if fo.Pkg() != nil {
		pkg = fo.Pkg().Path()
	}
	name := pkg + "." + fo.Name()
	sig := fo.Type().(*types.Signature)
	if recv != nil {
		rt := sig.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		tn := "?"
		if n, ok := rt.(*types.Named); ok {
			tn = n.Obj().Name()
		}
		name = pkg + "." + tn + "." + fo.Name()
	}
	st = st.clone()
	x.eng.modelled[name] = true
	if con := x.eng.contractByKey(pkg, funcKey(fo)); con != nil && con.Trusted {
		x.eng.wantFunc(con)
		x.callContract(st, con, sig, fo, recv, args, x.eng.effects(con, x), false, e, f)
		return
	}
	t := func(i int) string { return x.term(st, x.valueOf(st, args[i].n)) }
	ret := func(ns ...*Node) {
		var vs []Val
		for _, n := range ns {
			vs = append(vs, Val{n: n})
		}
		f(st, vs)
	}
	rtyp := func(i int) types.Type { return sig.Results().At(i).Type() }
	if sp, ok := pureModels[name]; ok {
		var ts []string
		for i := range args {
			ts = append(ts, t(i))
		}
		n := x.leaf(rtyp(0), fmt.Sprintf("%s(%s)", sp, strings.Join(ts, ", ")))
		switch sp {
		case "str_index", "str_indexbyte", "str_lastindex":
			h := fmt.Sprintf("lemma_%s(%s);", sp, strings.Join(ts, ", "))
			if sp == "str_indexbyte" {
				h = "/*lit:" + ts[1] + "*/" + h
			}
			st.add('h', h)
		case "str_splitn":
			if ts[2] == "2int" {
				st.add('h', fmt.Sprintf("lemma_str_index(%s, %s);", ts[0], ts[1]))
			}
		}
		// parts of a byte slice share its memory
		if len(args) > 0 && args[0].n.trans && hasRefs(rtyp(0)) {
			n.trans = true
		} else if strings.HasPrefix(name, "strings.Split") {
			n.own = "true"
		}
		if n.vt != "bool" && n.vt != "int" {
			n.term = x.name(st, n.vt, n.term, sp)
		}
		ret(n)
		return
	}
	// project-defined model in the theory: ext_<pkg>_<name>
	if opaqueModels[name] || strings.HasPrefix(name, x.eng.ld.modPath+"/ripsrc/pkg/logger") || strings.HasPrefix(name, "time.") {
		var ns []*Node
		for i := 0; i < sig.Results().Len(); i++ {
			ns = append(ns, x.freshNode(rtyp(i), "ext"))
		}
		ret(ns...)
		return
	}
	switch name {
	case "strings.Cut", "bytes.Cut":
		s, p := x.name(st, "Str", t(0), "cut"), t(1)
		st.add('h', fmt.Sprintf("lemma_str_index(%s, %s);", s, p))
		i := x.name(st, "int", fmt.Sprintf("str_index(%s, %s)", s, p), "cutat")
		ns := []*Node{
			x.leaf(rtyp(0), fmt.Sprintf("if %s < 0 { %s } else { %s.subrange(0, %s) }", i, s, paren(s), i)),
			x.leaf(rtyp(1), fmt.Sprintf("if %s < 0 { str_empty() } else { %s.subrange(%s + %s.len(), %s.len() as int) }", i, paren(s), i, paren(p), paren(s))),
			x.leaf(rtyp(2), fmt.Sprintf("(%s >= 0)", i)),
		}
		for _, n := range ns[:2] {
			n.term = x.name(st, n.vt, n.term, "part")
			n.trans = args[0].n.trans && hasRefs(rtyp(0))
		}
		ret(ns...)
	case "strings.CutPrefix", "strings.CutSuffix":
		s, p, w := x.name(st, "Str", t(0), "cut"), t(1), "prefix"
		has := "starts_with"
		if name == "strings.CutSuffix" {
			w, has = "suffix", "ends_with"
		}
		n := x.leaf(rtyp(0), fmt.Sprintf("trim_%s(%s, %s)", w, s, p))
		n.term = x.name(st, n.vt, n.term, "part")
		ret(n, x.leaf(rtyp(1), fmt.Sprintf("%s(%s, %s)", has, s, p)))
	case "fmt.Errorf", "errors.New":
		n := x.freshNode(rtyp(0), "err")
		st.fact(n.term + " > 0")
		if tx, ok := x.sprintf(st, args); ok {
			st.fact(fmt.Sprintf("errtext(%s) == %s", n.term, tx))
		}
		ret(n)
	case "fmt.Sprintf":
		n := x.freshNode(rtyp(0), "text")
		if tx, ok := x.sprintf(st, args); ok {
			n = x.leaf(rtyp(0), x.name(st, "Str", tx, "text"))
		}
		ret(n)
	case "regexp.Regexp.FindAllStringIndex":
		re := x.term(st, x.valueOf(st, recv.n))
		if t(1) != "-1int" && t(1) != "(-1int)" {
			panic(unsupported("FindAllStringIndex: only for all matches, not " + t(1)))
		}
		n := x.leaf(rtyp(0), x.nameAlways(st, x.types.V(rtyp(0)), fmt.Sprintf("re_find_all(%s, %s)", re, t(0)), "found"))
		n.own = "true"
		// the patterns of one plain character, also where the pattern is a parameter
		for _, p := range x.rePatterns(re) {
			if c, ok := x.reByte(p); ok {
				st.fact(fmt.Sprintf("%s == %s ==> %s == find_bytes(%s, %dint, 0)", re, p, n.term, t(0), c))
			}
		}
		ret(n)
	case "regexp.Regexp.FindStringSubmatch":
		re := x.term(st, x.valueOf(st, recv.n))
		pat, ok := x.eng.rePat[re]
		if !ok {
			panic(unsupported("FindStringSubmatch of an unknown pattern"))
		}
		r, err := syntax.Parse(pat, syntax.Perl)
		if err != nil {
			panic(unsupported("pattern " + pat))
		}
		n := x.leaf(rtyp(0), x.nameAlways(st, x.types.V(rtyp(0)), fmt.Sprintf("re_groups(%s, %s)", x.eng.lit(pat), t(0)), "groups"))
		st.fact(fmt.Sprintf("%[1]s.len() == 0 || %[1]s.len() == %[2]d", n.term, r.MaxCap()+1))
		st.fact(fmt.Sprintf("%s ==> %s.len() == %d", x.reMatch(st, re, t(0)), n.term, r.MaxCap()+1))
		n.own = "true"
		ret(n)
	case "regexp.Regexp.MatchString", "regexp.Regexp.Match":
		x.reMatch(st, x.term(st, x.valueOf(st, recv.n)), t(0))
		ret(x.leaf(rtyp(0), x.reFormula(x.term(st, x.valueOf(st, recv.n)), t(0))))
	case "strconv.Unquote":
		a := t(0)
		n := x.leaf(rtyp(0), fmt.Sprintf("str_unquote(%s)", a))
		e2 := x.freshNode(rtyp(1), "err")
		st.fact(fmt.Sprintf("%s >= 0 && (%s == 0) == unquote_ok(%s)", e2.term, e2.term, paren(a)))
		n.term = x.name(st, "Str", fmt.Sprintf("if unquote_ok(%s) { %s } else { str_empty() }", paren(a), n.term), "unq")
		ret(n, e2)
	case "io.Copy":
		if args[1].path != nil { // what is left of it afterwards is not known
			x.set(st, args[1].path, x.freshNode(args[1].n.t, "rest"), e)
		}
		ret(x.freshNode(rtyp(0), "n"), x.freshNode(rtyp(1), "err"))
	case "io/ioutil.TempFile", "os.CreateTemp":
		n := x.freshNode(rtyp(0), "file")
		er := x.freshNode(rtyp(1), "err")
		st.fact(fmt.Sprintf("%s >= 0 && (%s == 0) == (%s.id != 0)", er.term, er.term, paren(n.term)))
		ret(n, er)
	case "os.File.Name":
		ret(x.leaf(rtyp(0), fmt.Sprintf("file_name(%s.v)", paren(x.term(st, x.valueOf(st, recv.n))))))
	case "os.File.Close", "io.Closer.Close", "io.ReadCloser.Close":
		er := x.freshNode(rtyp(0), "err")
		st.fact(er.term + " >= 0")
		ret(er)
	case "bytes.NewReader", "strings.NewReader":
		n := x.leaf(rtyp(0), fmt.Sprintf("rd_of(%s)", t(0)))
		ret(n)
	case "bytes.NewBuffer":
		n := x.leaf(rtyp(0), t(0))
		if isNil(args[0].n) {
			n.term = "str_empty()"
		}
		ret(n)
	case "bytes.Buffer.WriteString", "bytes.Buffer.Write", "strings.Builder.WriteString":
		if recv.path == nil {
			panic(unsupported("write to a temporary buffer"))
		}
		n := x.valueOf(st, recv.n)
		m := *n
		m.term = x.name(st, "Str", fmt.Sprintf("%s + %s", paren(x.term(st, n)), paren(t(0))), "buf")
		x.set(st, recv.path, &m, e)
		a := x.leaf(rtyp(0), fmt.Sprintf("(%s.len() as int)", paren(t(0))))
		ret(a, x.leaf(rtyp(1), "0int"))
	case "bytes.Buffer.WriteByte", "strings.Builder.WriteByte":
		n := x.valueOf(st, recv.n)
		m := *n
		m.term = x.name(st, "Str", fmt.Sprintf("%s.push(%s)", paren(x.term(st, n)), t(0)), "buf")
		x.set(st, recv.path, &m, e)
		ret(x.leaf(rtyp(0), "0int"))
	case "bytes.Buffer.Bytes", "bytes.Buffer.String", "strings.Builder.String":
		n := x.leaf(rtyp(0), x.term(st, x.valueOf(st, recv.n)))
		ret(n)
	case "bytes.Buffer.Len":
		ret(x.leaf(rtyp(0), fmt.Sprintf("(%s.len() as int)", paren(x.term(st, x.valueOf(st, recv.n))))))
	case "container/list.New":
		ret(x.leaf(rtyp(0), "new_list()"))
	case "container/list.List.PushFront", "container/list.List.PushBack", "container/list.List.Remove", "container/list.List.Init":
		n := x.valueOf(st, recv.n)
		if recv.path == nil {
			panic(unsupported("list without a location"))
		}
		x.oblig(st, paren(n.term)+".ok", "nil", e, "nil list")
		var tm string
		var r *Node
		switch fo.Name() {
		case "PushFront", "PushBack":
			b := x.box(st, args[0])
			i := "0int"
			tm = fmt.Sprintf("GoList { items: seq![%s] + %s.items, ..%s }", b, paren(n.term), n.term)
			if fo.Name() == "PushBack" {
				tm = fmt.Sprintf("GoList { items: %s.items.push(%s), ..%s }", paren(n.term), b, n.term)
				i = fmt.Sprintf("%s.items.len() as int", paren(n.term))
			}
			tm = x.nameAlways(st, "GoList", tm, "list")
			r = x.leaf(rtyp(0), fmt.Sprintf("(GoElem { ok: true, l: %s, i: %s, val: %s })", tm, i, b))
		case "Remove":
			// the place of the element is known while the list is as it was
			el := t(0)
			x.oblig(st, paren(el)+".ok", "nil", e, "nil list element")
			tm = x.nameAlways(st, "GoList", fmt.Sprintf("list_remove(%s, %s)", n.term, el), "list")
			r = x.leaf(rtyp(0), paren(el)+".val")
		default:
			tm = "new_list()"
			r = x.leaf(rtyp(0), tm)
		}
		m := *n
		m.term = tm
		x.set(st, recv.path, &m, e)
		ret(r)
	case "container/list.List.Front", "container/list.List.Back", "container/list.List.Len":
		n := x.valueOf(st, recv.n)
		x.oblig(st, paren(n.term)+".ok", "nil", e, "nil list")
		switch fo.Name() {
		case "Len":
			ret(x.leaf(rtyp(0), fmt.Sprintf("(%s.items.len() as int)", paren(n.term))))
		case "Front":
			ret(x.leaf(rtyp(0), x.nameAlways(st, "GoElem", fmt.Sprintf("list_elem(%s, 0)", n.term), "elem")))
		default:
			ret(x.leaf(rtyp(0), x.nameAlways(st, "GoElem", fmt.Sprintf("list_elem(%s, %s.items.len() - 1)", n.term, paren(n.term)), "elem")))
		}
	case "container/list.Element.Next", "container/list.Element.Prev":
		n := x.valueOf(st, recv.n)
		x.oblig(st, paren(n.term)+".ok", "nil", e, "nil list element")
		d := "+ 1"
		if fo.Name() == "Prev" {
			d = "- 1"
		}
		ret(x.leaf(rtyp(0), x.nameAlways(st, "GoElem", fmt.Sprintf("list_elem(%s.l, %s.i %s)", paren(n.term), paren(n.term), d), "elem")))
	case "bufio.NewScanner":
		n := x.leaf(rtyp(0), fmt.Sprintf("scanner_new(%s, 65536)", t(0)))
		n.term = x.nameAlways(st, "Scanner", n.term, "scanner")
		ret(n)
	case "bufio.Scanner.Buffer":
		n := x.valueOf(st, recv.n)
		m := *n
		m.term = x.nameAlways(st, "Scanner", fmt.Sprintf("(Scanner { max: %s, ..%s })", t(1), n.term), "scanner")
		x.set(st, recv.path, &m, e)
		ret()
	case "bufio.Scanner.Scan":
		n := x.valueOf(st, recv.n)
		m := *n
		m.term = x.nameAlways(st, "Scanner", fmt.Sprintf("scanner_next(%s)", n.term), "scanner")
		x.set(st, recv.path, &m, e)
		ret(x.leaf(rtyp(0), fmt.Sprintf("scanner_has(%s)", m.term)))
	case "bufio.Scanner.Bytes", "bufio.Scanner.Text":
		n := x.valueOf(st, recv.n)
		m := x.leaf(rtyp(0), fmt.Sprintf("scanner_tok(%s)", n.term))
		m.term = x.nameAlways(st, "Str", m.term, "tok")
		if fo.Name() == "Bytes" {
			m.trans = true
			m.cap1 = true
		}
		ret(m)
	case "bufio.Scanner.Err":
		n := x.valueOf(st, recv.n)
		ret(x.leaf(rtyp(0), fmt.Sprintf("scanner_err(%s)", n.term)))
	case "strconv.ParseInt":
		n := x.leaf(rtyp(0), fmt.Sprintf("parse_int(%s, %s, %s)", t(0), t(1), t(2)))
		er := x.freshNode(rtyp(1), "err")
		st.fact(fmt.Sprintf("%s >= 0 && (%s == 0) == parse_int_ok(%s, %s, %s)", er.term, er.term, t(0), t(1), t(2)))
		ret(n, er)
	case "strconv.Atoi":
		n := x.freshNode(rtyp(0), "atoi")
		er := x.freshNode(rtyp(1), "err")
		s := t(0)
		st.fact(fmt.Sprintf("atoi_ok(%s) ==> %s == atoi_val(%s) && %s == 0", s, n.term, s, er.term))
		st.fact(fmt.Sprintf("!atoi_ok(%s) ==> %s > 0 && %s == 0", s, er.term, n.term))
		ret(n, er)
	case "sort.Strings":
		n := x.valueOf(st, args[0].n)
		m := *n
		m.term = x.nameAlways(st, n.vt, fmt.Sprintf("str_sorted(%s)", x.term(st, n)), "sorted")
		st.extra["$unsorted"] = x.term(st, n)
		st.extra["$sorted"] = m.term
		x.hintAt(st, "after sort", e)
		x.inPlace(st, args[0], &m, e)
		ret()
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(st, args, e, f)
	case "error.Error", ".error.Error":
		ret(x.leaf(rtyp(0), fmt.Sprintf("errtext(%s)", x.term(st, x.valueOf(st, recv.n)))))
	default:
		if recv != nil {
			if it := sig.Recv().Type(); types.IsInterface(it) && strings.Contains(it.String(), "logger.Logger") {
				ret()
				return
			}
		}
		panic(unsupported("call of " + name))
	}
}

// rePatterns are the terms a pattern may equal: itself, or the constant patterns of the package
func (x *Exec) rePatterns(re string) []string {
	if _, ok := x.eng.rePat[re]; ok {
		return []string{re}
	}
	var res []string
	sc := x.pkg.Types.Scope()
	for _, name := range sc.Names() {
		if o, ok := sc.Lookup(name).(*types.Var); ok && o.Type().String() == "*regexp.Regexp" {
			n := x.globalVar(nil, o)
			if _, ok := x.eng.rePat[n.term]; ok {
				res = append(res, n.term)
			}
		}
	}
	return res
}

// reByte: the one plain character a pattern stands for
func (x *Exec) reByte(re string) (int, bool) {
	r, err := syntax.Parse(x.eng.rePat[re], syntax.Perl)
	if err != nil {
		return 0, false
	}
	switch {
	case r.Op == syntax.OpLiteral && len(r.Rune) == 1 && r.Rune[0] < 128 && r.Flags&syntax.FoldCase == 0:
		return int(r.Rune[0]), true
	case r.Op == syntax.OpCharClass && len(r.Rune) == 2 && r.Rune[0] == r.Rune[1] && r.Rune[0] < 128:
		return int(r.Rune[0]), true
	}
	return 0, false
}

// reMatch is reFormula, by the text of the pattern where that is known
func (x *Exec) reMatch(st *State, re, s string) string {
	f := x.reFormula(re, s)
	if pat, ok := x.eng.rePat[re]; ok && strings.HasPrefix(f, "re_match(") {
		st.fact(fmt.Sprintf("%s == re_matches(%s, %s)", f, x.eng.lit(pat), s))
	}
	return f
}

func (x *Exec) nameAlways(st *State, vt, term, hint string) string {
	s := x.fresh(vt, hint)
	st.fact(fmt.Sprintf("%s == %s", s, paren(term)))
	return s
}

// inPlace rewrites the slice passed as an argument.
func (x *Exec) inPlace(st *State, a Val, m *Node, at ast.Node) {
	n := x.valueOf(st, a.n)
	goal := n.own
	if goal == "" || goal == "false" {
		goal = fmt.Sprintf("%s == %s", m.term, x.term(st, n))
	}
	x.oblig(st, goal, "alias", at, "in-place change of a slice that others may hold")
	if a.path == nil {
		return
	}
	x.set(st, a.path, m, at)
}

func (x *Exec) sortSlice(st *State, args []Val, e *ast.CallExpr, f func(*State, []Val)) {
	n := x.valueOf(st, args[0].n)
	if n.cl == nil && args[1].n.cl == nil {
		panic(unsupported("sort with unknown comparison"))
	}
	cl := args[1].n.cl
	lit := cl.lit
	if lit == nil {
		panic(unsupported("sort with a named comparison"))
	}
	sig := cl.pkg.Info.TypeOf(lit).(*types.Signature)
	st = st.clone()
	// the comparison, on the slice as it is at any time during the sort: it is a permutation of the input
	before := x.term(st, n)
	perm := x.fresh(n.vt, "perm")
	cs := st.clone()
	pm := *n
	pm.term = perm
	cs.fact(fmt.Sprintf("%s.len() == %s.len()", perm, paren(before)))
	cs.fact(fmt.Sprintf("seq_perm(%s, %s)", perm, before))
	if args[0].path == nil {
		panic(unsupported("sort of a temporary"))
	}
	x.setAny(cs, args[0].path, &pm)
	i, j := x.fresh("int", "si"), x.fresh("int", "sj")
	cs.fact(fmt.Sprintf("0 <= %s && %s < %s.len() && 0 <= %s && %s < %s.len()", i, i, perm, j, j, perm))
	// each element is one of the input's
	for _, q := range []string{i, j} {
		o := x.fresh("int", "so")
		cs.fact(fmt.Sprintf("0 <= %s && %s < %s.len() && %s[%s] == %s[%s]", o, o, paren(before), perm, q, paren(before), o))
	}
	it := types.Typ[types.Int]
	var res []string
	var items [][]*Item
	x.inline(cs, cl.pkg, "less@"+fmt.Sprint(lit.Pos()), sig, nil, nil, []Val{{n: x.leaf(it, i)}, {n: x.leaf(it, j)}}, lit.Body, e, func(s *State, vs []Val) {
		res = append(res, x.term(s, vs[0].n))
		_, rest, _ := since(cs, s)
		items = append(items, rest)
	})
	if len(res) != 1 {
		panic(unsupported("comparison function with several paths"))
	}
	less := res[0]
	// definitions made inside the comparison are unfolded
	for k := len(items[0]) - 1; k >= 0; k-- {
		it := items[0][k]
		if it.kind != 'f' {
			continue
		}
		p := strings.SplitN(it.text, " == ", 2)
		if len(p) == 2 && simpleRE.MatchString(p[0]) {
			less = replaceTok(less, p[0], p[1])
		}
	}
	out := x.fresh(n.vt, "sortd")
	st.fact(fmt.Sprintf("%s.len() == %s.len()", out, paren(before)))
	st.fact(fmt.Sprintf("seq_perm(%s, %s)", out, before))
	l2 := replaceTok(replaceTok(replaceTok(less, perm, out), i, "j_"), j, "i_")
	st.fact(fmt.Sprintf("forall|i_: int, j_: int| #![trigger %s[i_], %s[j_]] 0 <= i_ && i_ < j_ && j_ < %s.len() ==> !(%s)", out, out, out, l2))
	st.extra["$sorted"] = out
	st.extra["$unsorted"] = before
	m := *n
	m.term = out
	x.hintAt(st, "after sort", e)
	x.inPlace(st, args[0], &m, e)
	f(st, nil)
}

func (x *Exec) setAny(st *State, p *Path, n *Node) {
	x.dry++
	x.set(st, p, n, nil)
	x.dry--
}

func replaceTok(s, from, to string) string {
	var b strings.Builder
	i := 0
	for i < len(s) {
		if isIdentStart(s[i]) {
			j := i
			for j < len(s) && isIdent(s[j]) {
				j++
			}
			if s[i:j] == from && (i == 0 || s[i-1] != '.') {
				b.WriteString(to)
			} else {
				b.WriteString(s[i:j])
			}
			i = j
			continue
		}
		if s[i] >= '0' && s[i] <= '9' {
			j := i
			for j < len(s) && isIdent(s[j]) {
				j++
			}
			b.WriteString(s[i:j])
			i = j
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// box is the interface value that holds v.
func (x *Exec) box(st *State, v Val) string {
	n := x.valueOf(st, v.n)
	tm := x.term(st, n)
	if n.vt != "Str" || isSliceType(n.t) {
		return x.fresh("int", "boxed")
	}
	b := x.fresh("int", "boxed")
	st.fact(fmt.Sprintf("%s == box_str(%s)", b, tm))
	st.fact(fmt.Sprintf("is_str(%s) && unbox_str(%s) == %s && %s != 0", b, b, tm, b))
	return b
}

// sprintf is the text fmt makes of a constant format with plain verbs.
func (x *Exec) sprintf(st *State, args []Val) (string, bool) {
	f := x.valueOf(st, args[0].n)
	format := ""
	found := false
	for l, n := range x.eng.lits {
		if n == f.term {
			format, found = l, true
		}
	}
	if f.term == "str_empty()" {
		found = true
	}
	if !found {
		return "", false
	}
	var parts []Val
	if len(args) > 1 {
		if args[1].n.parts == nil && args[1].n.term != "Seq::<int>::empty()" {
			return "", false
		}
		parts = args[1].n.parts
	}
	var ts []string
	lit := ""
	flush := func() {
		if lit != "" {
			ts = append(ts, x.eng.lit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || len(args) == 1 {
			lit += format[i : i+1]
			continue
		}
		i++
		if i >= len(format) {
			return "", false
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if len(parts) == 0 {
			return "", false
		}
		v := parts[0]
		parts = parts[1:]
		n := x.valueOf(st, v.n)
		if n.t == nil {
			return "", false
		}
		_, named := n.t.(*types.Named)
		b, basic := n.t.Underlying().(*types.Basic)
		flush()
		switch {
		case basic && !named && b.Info()&types.IsString != 0 && (format[i] == 'v' || format[i] == 's'):
			ts = append(ts, x.term(st, n))
		case basic && !named && b.Info()&types.IsInteger != 0 && (format[i] == 'v' || format[i] == 'd'):
			ts = append(ts, fmt.Sprintf("str_itoa(%s)", x.term(st, n)))
		case types.Identical(n.t, types.Universe.Lookup("error").Type()) && (format[i] == 'v' || format[i] == 's'):
			ts = append(ts, fmt.Sprintf("errtext(%s)", x.term(st, n)))
		default:
			ts = append(ts, x.fresh("Str", "text"))
		}
	}
	flush()
	if len(parts) != 0 {
		return "", false
	}
	if len(ts) == 0 {
		return "str_empty()", true
	}
	return strings.Join(ts, " + "), true
}
