package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var identRE = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
var litUseRE = regexp.MustCompile(`lit_(\d+)\(\)`)
var litMacroRE = regexp.MustCompile(`@facts"((?:[^"\\]|\\.)*)"|@"((?:[^"\\]|\\.)*)"`)

// where a single character is used, what the text of that one character is
var oneChar = regexp.MustCompile(`/\*lit:(\d+)int\*/`)

func unesc(s string) string {
	s = strings.ReplaceAll(s, `\n`, "\n")
	s = strings.ReplaceAll(s, `\t`, "\t")
	s = strings.ReplaceAll(s, `\"`, `"`)
	s = strings.ReplaceAll(s, `\\`, `\`)
	return s
}

// expandTheory replaces @"text" by the constant for the string, @facts"text" by its facts.
func (g *Engine) expandTheory(t string) string {
	return litMacroRE.ReplaceAllStringFunc(t, func(m string) string {
		s := litMacroRE.FindStringSubmatch(m)
		if strings.HasPrefix(m, "@facts") {
			return strings.TrimSuffix(g.lit(unesc(s[1])), "()") + "_facts()"
		}
		return g.lit(unesc(s[2]))
	})
}

type oblOut struct {
	ID    int      `json:"id"`
	Func  string   `json:"func"`
	Kind  string   `json:"kind"`
	Name  string   `json:"name"`
	Pos   string   `json:"pos"`
	Desc  string   `json:"desc"`
	Trace []string `json:"trace"`
	Line0 int      `json:"line0"`
	Line1 int      `json:"line1"`
	Cover bool     `json:"cover"`
}

var typeUseRE = regexp.MustCompile(`\b(?:default_|arb_)?([a-z][a-z0-9]*)_([A-Za-z][A-Za-z0-9]*)\b`)

// theoryTypes declares the types of the repository that the theory speaks about.
func (g *Engine) theoryTypes(text string) {
	seen := map[string]bool{}
	for _, m := range typeUseRE.FindAllStringSubmatch(text, -1) {
		k := m[1] + "_" + m[2]
		if seen[k] || g.types.structs[k] != nil {
			continue
		}
		seen[k] = true
		for p := range g.ld.list {
			if !strings.HasPrefix(p, g.ld.modPath) || filepath.Base(p) != m[1] {
				continue
			}
			pkg, err := g.ld.Load(p)
			if err != nil {
				continue
			}
			if o := pkg.Types.Scope().Lookup(m[2]); o != nil {
				if _, ok := o.(*types.TypeName); ok {
					g.types.V(o.Type())
				}
			}
		}
	}
}

func (g *Engine) Emit(specDir, out, meta string, only map[int]bool, covers bool) error {
	var body strings.Builder
	// theory first so that its literals are known
	var th strings.Builder
	for _, f := range append([]string{"std.rs"}, g.theory...) {
		data, err := os.ReadFile(filepath.Join(specDir, f))
		if err != nil {
			return err
		}
		fmt.Fprintf(&th, "// ---- %s\n%s\n", f, g.expandTheory(string(data)))
	}
	g.theoryTypes(th.String())
	var outs []oblOut
	var obls strings.Builder
	emit := func(o *Obl, cover bool, idx int) {
		var items []*Item
		items = o.Items
		text := o.Goal
		for _, it := range items {
			text += "\n" + it.text
		}
		syms := map[string]bool{}
		for _, s := range identRE.FindAllString(text, -1) {
			if _, ok := g.symT[s]; ok {
				syms[s] = true
			}
		}
		var ps []string
		for s := range syms {
			ps = append(ps, s)
		}
		sort.Strings(ps)
		lits := map[string]bool{}
		for _, m := range litUseRE.FindAllStringSubmatch(text, -1) {
			lits[m[1]] = true
		}
		nm := fmt.Sprintf("ob_%d", o.ID)
		if cover {
			nm = fmt.Sprintf("cover_%d", idx)
		}
		fmt.Fprintf(&obls, "//@@ %s\n", nm)
		fmt.Fprintf(&obls, "proof fn %s(", nm)
		for i, s := range ps {
			if i > 0 {
				obls.WriteString(", ")
			}
			fmt.Fprintf(&obls, "%s: %s", s, g.symT[s])
		}
		obls.WriteString(")\n")
		first := true
		hints := []string{}
		nf := 0
		// facts that precede every hint may be stated as preconditions; hints replay in order and only use facts before them,
		// so all facts can be preconditions
		for _, it := range items {
			if it.kind == 'h' {
				hints = append(hints, it.text)
				continue
			}
			if first {
				obls.WriteString("    requires\n")
				first = false
			}
			nf++
			fmt.Fprintf(&obls, "        %s,\n", strings.ReplaceAll(it.text, "\n", " "))
		}
		obls.WriteString("{\n")
		var ls []string
		for l := range lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			fmt.Fprintf(&obls, "    lit_%s_facts();\n", l)
		}
		for _, h := range hints {
			fmt.Fprintf(&obls, "    %s\n", strings.ReplaceAll(h, "\n", " "))
		}
		fmt.Fprintf(&obls, "    assert(%s); // GOAL\n}\n", strings.ReplaceAll(o.Goal, "\n", " "))
		outs = append(outs, oblOut{ID: o.ID, Func: o.Func, Kind: o.Kind, Name: o.Name, Pos: o.Pos, Desc: o.Desc, Trace: o.Trace, Cover: cover})
		if cover {
			outs[len(outs)-1].ID = 100000 + idx
		}
	}
	for _, o := range g.obls {
		if only != nil && !only[o.ID] {
			continue
		}
		emit(o, false, 0)
	}
	if covers {
		for i, o := range g.covers {
			if only != nil && !only[100000+i] {
				continue
			}
			emit(o, true, i)
		}
	}
	body.WriteString("#![allow(unused_imports, unused_variables, dead_code, non_snake_case, non_camel_case_types, unused_mut, unused_parens, unused_braces, non_upper_case_globals)]\nuse vstd::prelude::*;\nuse vstd::seq_lib::*;\nuse vstd::set_lib::*;\nuse vstd::map_lib::*;\nuse vstd::multiset::*;\nverus! {\n")
	body.WriteString(th.String())
	body.WriteString(g.types.Decls())
	// string literals
	for i, s := range g.litOrder {
		var cs []string
		for j := 0; j < len(s); j++ {
			cs = append(cs, fmt.Sprintf("%dint", s[j]))
		}
		if len(s) > 200 { // long patterns are never looked into: only that they are that long, and how they begin
			fmt.Fprintf(&body, "// %q\npub uninterp spec fn lit_%d() -> Str;\n#[verifier::external_body]\npub proof fn lit_%d_facts() ensures lit_%d().len() == %d", s, i, i, i, len(s))
			for j := 0; j < 16; j++ {
				fmt.Fprintf(&body, ", lit_%d()[%d] == %d", i, j, s[j])
			}
			body.WriteString(" { }\n")
			continue
		}
		fmt.Fprintf(&body, "// %q\n#[verifier::opaque]\npub open spec fn lit_%d() -> Str { seq![%s] }\n", s, i, strings.Join(cs, ", "))
		fmt.Fprintf(&body, "pub proof fn lit_%d_facts() ensures lit_%d().len() == %d", i, i, len(s))
		for j := 0; j < len(s); j++ {
			fmt.Fprintf(&body, ", lit_%d()[%d] == %d", i, j, s[j])
		}
		fmt.Fprintf(&body, " { reveal(lit_%d); }\n", i)
	}
	for i, s := range g.sentOrder {
		fmt.Fprintf(&body, "pub open spec fn %s -> int { -%d }\n", s, i+101)
	}
	body.WriteString("//@@ OBLIGATIONS\n")
	// modules are verified in parallel
	oblText := oneChar.ReplaceAllStringFunc(obls.String(), func(m string) string {
		c, _ := strconv.Atoi(oneChar.FindStringSubmatch(m)[1])
		for i, s := range g.litOrder {
			if len(s) == 1 && int(s[0]) == c {
				return fmt.Sprintf("reveal(lit_%d);", i)
			}
		}
		return ""
	})
	parts := strings.Split(oblText, "//@@ ")[1:]
	nm := 16
	if len(parts) < nm {
		nm = len(parts)
	}
	for m := 0; m < nm; m++ {
		fmt.Fprintf(&body, "pub mod obs%d { use super::*;\n", m)
		for i := m; i < len(parts); i += nm {
			body.WriteString("//@@ " + parts[i])
		}
		body.WriteString("//@@ END\n}\n")
	}
	body.WriteString("} // verus!\nfn main() {}\n")
	text := body.String()
	// line ranges
	lineOf := map[string]int{}
	lines := strings.Split(text, "\n")
	prev := ""
	last := map[string]int{}
	for i, l := range lines {
		if strings.HasPrefix(l, "//@@ ") {
			l = strings.TrimSpace(l)
			if prev != "" {
				last[prev] = i
			}
			prev = strings.TrimPrefix(l, "//@@ ")
			lineOf[prev] = i + 1
		}
	}
	last[prev] = len(lines)
	for i := range outs {
		nm := fmt.Sprintf("ob_%d", outs[i].ID)
		if outs[i].Cover {
			nm = fmt.Sprintf("cover_%d", outs[i].ID-100000)
		}
		outs[i].Line0, outs[i].Line1 = lineOf[nm], last[nm]
	}
	if err := os.WriteFile(out, []byte(text), 0644); err != nil {
		return err
	}
	inl := map[string][]string{}
	for k, m := range g.inlined {
		for f := range m {
			inl[k] = append(inl[k], strings.TrimPrefix(f, g.ld.modPath+"/"))
		}
		sort.Strings(inl[k])
	}
	md := map[string]interface{}{
		"obligations": outs,
		"verified":    g.verified,
		"inlined":     inl,
		"trusted":     sortedKeys(g.trusted),
		"opaque":      g.opaque,
		"models":      sortedKeys(g.modelled),
		"assumes":     g.assumes,
		"failures":    g.failures,
		"stale":       g.stale,
		"soft":        g.softFuncs(),
		"theory":      g.theory,
	}
	js, _ := json.MarshalIndent(md, "", " ")
	return os.WriteFile(meta, js, 0644)
}
