package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// TypeReg maps Go types to the Verus types that stand for their values.
type TypeReg struct {
	modPath string
	structs map[string]*types.Struct // verus name -> struct
	order   []string
	busy    map[string]bool
	opaque  map[string]bool
	boxes   map[string]bool // structures that were stored in interfaces
}

func NewTypeReg(mod string) *TypeReg {
	return &TypeReg{modPath: mod, structs: map[string]*types.Struct{}, busy: map[string]bool{}, opaque: map[string]bool{}, boxes: map[string]bool{}}
}

var reserved = map[string]bool{"type": true, "ref": true, "match": true, "mod": true, "fn": true, "in": true, "move": true, "self": true,
	"impl": true, "use": true, "where": true, "loop": true, "let": true, "mut": true, "pub": true, "struct": true, "box": true, "enum": true,
	"trait": true, "as": true, "dyn": true, "async": true, "crate": true, "super": true, "static": true, "const": true, "extern": true,
	"open": true, "spec": true, "proof": true, "exec": true, "ghost": true, "tracked": true, "assert": true, "assume": true, "forall": true, "exists": true, "choose": true, "is": true, "has": true, "final": true, "by": true}

func fieldName(s string) string {
	if reserved[s] {
		return s + "_"
	}
	return s
}

// heapVars: struct types whose pointers are addresses into a heap of their own (declared by "heap" in a contract file)
var heapVars = map[string]*types.Var{}

// stateTypes: the types of ghost state that library calls change (declared by "state")
var stateTypes = map[string]string{}

// volatileStates: ghost state in memory, which an interrupted process leaves nothing of (declared by "volatile")
var volatileStates = map[string]bool{}

// handleTypes: foreign types whose pointers are numbers, zero for nil
var handleTypes = map[string]bool{}

func isHandleType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && handleTypes[typeName(p.Elem())]
}

func stateVar(key string) *types.Var {
	if h := heapVars[key]; h != nil {
		return h
	}
	nm := strings.TrimPrefix(key, "state:")
	tn := types.NewTypeName(token.NoPos, nil, "ghost:"+stateTypes[nm], nil)
	h := types.NewVar(token.NoPos, nil, nm, types.NewNamed(tn, types.Typ[types.Int], nil))
	heapVars[key] = h
	return h
}

func typeName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// heapOf: the heap pointers of type t point into
func heapOf(t types.Type) *types.Var {
	if len(heapVars) == 0 {
		return nil
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	nm := typeName(p.Elem())
	h, ok := heapVars[nm]
	if !ok {
		return nil
	}
	if h == nil {
		n := types.Unalias(p.Elem()).(*types.Named)
		h = types.NewVar(token.NoPos, nil, "heap_"+n.Obj().Name(), types.NewMap(types.Typ[types.Int], p.Elem()))
		heapVars[nm] = h
	}
	return h
}

// handle: library objects modelled as values that stand for the pointer as well
func handle(vt string) bool {
	switch vt {
	case "Scanner", "Rd", "GoList", "GoElem":
		return true
	}
	return false
}

func (r *TypeReg) isScanner(t types.Type) bool {
	return typeIs(t, "bufio", "Scanner")
}

// isCallback: func(string) error, known by the calls made to it
func isCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 || s.Variadic() {
		return false
	}
	b, ok := s.Params().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && types.Identical(s.Results().At(0).Type(), types.Universe.Lookup("error").Type())
}

func typeIs(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// V returns the Verus type of values of the Go type t.
func (r *TypeReg) V(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		obj := x.Obj()
		if obj.Pkg() == nil {
			if obj.Name() == "error" {
				return "int"
			}
			if strings.HasPrefix(obj.Name(), "ghost:") {
				return obj.Name()[6:]
			}
		} else {
			p := obj.Pkg().Path()
			full := p + "." + obj.Name()
			switch full {
			case "bufio.Scanner":
				return "Scanner"
			case "container/list.List":
				return "GoList"
			case "container/list.Element":
				return "GoElem"
			case "bytes.Reader", "strings.Reader", "io.Reader", "io.ReadCloser":
				return "Rd"
			case "bytes.Buffer", "strings.Builder":
				return "Str"
			}
			if st, ok := x.Underlying().(*types.Struct); ok {
				if _, heap := heapVars[full]; !heap && !strings.HasPrefix(p, r.modPath) {
					return "int" // opaque foreign struct
				}
				name := filepath.Base(p) + "_" + obj.Name()
				r.add(name, st)
				return name
			}
		}
		return r.V(x.Underlying())
	case *types.Alias:
		return r.V(types.Unalias(x))
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "bool"
		case x.Info()&types.IsString != 0:
			return "Str"
		case x.Info()&types.IsInteger != 0:
			return "int"
		}
		return "int"
	case *types.Slice:
		return "Seq<" + r.V(x.Elem()) + ">"
	case *types.Array:
		return "Seq<" + r.V(x.Elem()) + ">"
	case *types.Map:
		return "Map<" + r.V(x.Key()) + "," + r.V(x.Elem()) + ">"
	case *types.Pointer:
		if r.isScanner(x) {
			return "Scanner"
		}
		if typeIs(x, "container/list", "List") {
			return "GoList"
		}
		if typeIs(x, "container/list", "Element") {
			return "GoElem"
		}
		if typeIs(x, "bytes", "Reader") || typeIs(x, "strings", "Reader") {
			return "Rd"
		}
		if typeIs(x, "bytes", "Buffer") && heapOf(x) == nil || typeIs(x, "strings", "Builder") {
			return "Str"
		}
		if heapOf(x) != nil || isHandleType(x) {
			return "int"
		}
		return "Ptr<" + r.V(x.Elem()) + ">"
	case *types.Chan:
		return "Seq<" + r.V(x.Elem()) + ">"
	case *types.Interface:
		return "int"
	case *types.Struct:
		if x.NumFields() == 0 {
			r.add("anon_empty", x)
			return "anon_empty"
		}
		var fs []string
		for i := 0; i < x.NumFields(); i++ {
			fs = append(fs, x.Field(i).Name())
		}
		name := "anon_" + strings.Join(fs, "_")
		r.add(name, x)
		return name
	case *types.Signature:
		if isCallback(x) {
			return "Seq<Str>" // the calls made so far
		}
		return "int"
	case *types.Tuple:
		return "int"
	}
	return "int"
}

func (r *TypeReg) add(name string, st *types.Struct) {
	if r.structs[name] != nil {
		return
	}
	r.structs[name] = st
	for i := 0; i < st.NumFields(); i++ {
		r.V(st.Field(i).Type())
	}
	r.order = append(r.order, name)
}

// Default is the zero value of the Go type.
func (r *TypeReg) Default(t types.Type) string {
	v := r.V(t)
	return r.defaultV(v, t)
}

func (r *TypeReg) defaultV(v string, t types.Type) string {
	switch {
	case v == "int":
		return "0int"
	case v == "bool":
		return "false"
	case v == "Str":
		return "str_empty()"
	case v == "Scanner":
		return "nil_scanner()"
	case v == "Rd":
		return "nil_rd()"
	case v == "GoList":
		return "nil_list()"
	case v == "GoElem":
		return "nil_elem()"
	case strings.HasPrefix(v, "Seq<"):
		return "Seq::<" + v[4:len(v)-1] + ">::empty()"
	case strings.HasPrefix(v, "Map<"):
		return "Map::<" + v[4:len(v)-1] + ">::empty()"
	case strings.HasPrefix(v, "Ptr<"):
		return "nilptr::<" + v[4:len(v)-1] + ">()"
	}
	return "default_" + v + "()"
}

// Decls renders the struct declarations and zero values.
func (r *TypeReg) Decls() string {
	var b strings.Builder
	names := append([]string{}, r.order...)
	sort.Strings(names)
	for _, n := range names {
		st := r.structs[n]
		fmt.Fprintf(&b, "pub ghost struct %s {\n", n)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fmt.Fprintf(&b, "    pub %s: %s,\n", fieldName(f.Name()), r.V(f.Type()))
		}
		b.WriteString("}\n")
		fmt.Fprintf(&b, "pub uninterp spec fn arb_%s() -> %s;\n", n, n)
		fmt.Fprintf(&b, "pub open spec fn default_%s() -> %s { %s {", n, n, n)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fmt.Fprintf(&b, " %s: %s,", fieldName(f.Name()), r.Default(f.Type()))
		}
		b.WriteString(" } }\n")
		if r.boxes[n] {
			fmt.Fprintf(&b, "pub uninterp spec fn box_%s(v: %s) -> int;\n", n, n)
		}
	}
	return b.String()
}
