// What a unified diff means, stated over the lines of the old version and the patch lines.

// one line of a version: content and the commit it is attributed to
#[verifier::ext_equal]
pub ghost struct LV { pub c: Str, pub by: Str }
pub open spec fn lv(p: Ptr<incblame_Line>) -> LV { LV { c: p.v.Line, by: p.v.Commit } }
pub open spec fn lvs(ls: Seq<Ptr<incblame_Line>>) -> Seq<LV> { ls.map_values(|p: Ptr<incblame_Line>| lv(p)) }

pub open spec fn nonnil(ls: Seq<Ptr<incblame_Line>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).id != 0 }

pub open spec fn hunk_toks(h: incblame_Hunk) -> Seq<Str> { scan_toks(h.Data, max_line()) }
pub open spec fn hunk_off(h: incblame_Hunk) -> int { h.Locations[0].Offset }
// index of the first old line the hunk speaks about
pub open spec fn hunk_start(h: incblame_Hunk) -> int { if hunk_off(h) == 0 { 0 } else { hunk_off(h) - 1 } }

pub open spec fn is_ctx(t: Str) -> bool { t.len() > 0 && t[0] == 32 }
pub open spec fn is_del(t: Str) -> bool { t.len() > 0 && t[0] == 45 }
pub open spec fn is_add(t: Str) -> bool { t.len() > 0 && t[0] == 43 }
pub open spec fn is_nonl(t: Str) -> bool { t == @"\\ No newline at end of file" }

// old lines covered by the first n patch lines
pub open spec fn old_count(t: Seq<Str>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { old_count(t, n - 1) + if is_ctx(t[n - 1]) || is_del(t[n - 1]) { 1int } else { 0int } }
}
// new lines stated by the first n patch lines: the text is the patch's, the attribution that of the old line or the commit
pub open spec fn hunk_out(old: Seq<LV>, start: int, t: Seq<Str>, n: int, commit: Str) -> Seq<LV> decreases n {
    if n <= 0 { Seq::<LV>::empty() } else {
        let r = hunk_out(old, start, t, n - 1, commit);
        let text = t[n - 1].subrange(1, t[n - 1].len() as int);
        if is_ctx(t[n - 1]) { r.push(LV { c: text, by: old[start + old_count(t, n - 1)].by }) }
        else if is_add(t[n - 1]) { r.push(LV { c: text, by: commit }) }
        else { r }
    }
}
// every patch line is one of the four kinds, and context lines are those of the old version
pub open spec fn hunk_lines_ok(old: Seq<LV>, start: int, t: Seq<Str>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> {
        let x = #[trigger] t[i];
        &&& is_ctx(x) || is_del(x) || is_add(x) || is_nonl(x)
        &&& is_ctx(x) ==> start + old_count(t, i) < old.len() && old[start + old_count(t, i)].c == x.subrange(1, x.len() as int)
        &&& is_del(x) ==> start + old_count(t, i) < old.len()
    }
}
pub open spec fn hunk_end(h: incblame_Hunk) -> int { hunk_start(h) + old_count(hunk_toks(h), hunk_toks(h).len() as int) }
// hunk h fits the old version, from old line `from` on
pub open spec fn hunk_ok(old: Seq<LV>, h: incblame_Hunk, from: int) -> bool {
    &&& h.Locations.len() > 0
    &&& hunk_off(h) >= 0
    &&& scan_fits(h.Data, max_line())
    &&& from <= hunk_start(h) && hunk_end(h) <= old.len()
    &&& hunk_lines_ok(old, hunk_start(h), hunk_toks(h))
}
// the hunks from number k on
pub open spec fn rest_ok(old: Seq<LV>, hs: Seq<incblame_Hunk>, k: int, from: int) -> bool decreases hs.len() - k {
    if k < 0 || k >= hs.len() { true } else { hunk_ok(old, hs[k], from) && rest_ok(old, hs, k + 1, hunk_end(hs[k])) }
}
pub open spec fn rest_out(old: Seq<LV>, hs: Seq<incblame_Hunk>, k: int, from: int, commit: Str) -> Seq<LV> decreases hs.len() - k {
    if k < 0 || k >= hs.len() { old.subrange(from, old.len() as int) } else {
        old.subrange(from, hunk_start(hs[k]))
            + hunk_out(old, hunk_start(hs[k]), hunk_toks(hs[k]), hunk_toks(hs[k]).len() as int, commit)
            + rest_out(old, hs, k + 1, hunk_end(hs[k]), commit)
    }
}
pub open spec fn offsets_strict(hs: Seq<incblame_Hunk>) -> bool {
    forall|i: int, j: int| 0 <= i < j < hs.len() ==> hunk_off(#[trigger] hs[i]) < hunk_off(#[trigger] hs[j])
}
// a well-formed diff against old
pub open spec fn diff_ok(old: Seq<LV>, hs: Seq<incblame_Hunk>) -> bool {
    rest_ok(old, hs, 0, 0) && offsets_strict(hs) && forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).Locations.len() > 0
}
// the new version
pub open spec fn patched(old: Seq<LV>, hs: Seq<incblame_Hunk>, commit: Str) -> Seq<LV> { rest_out(old, hs, 0, 0, commit) }

pub proof fn lemma_old_count_mono(t: Seq<Str>, a: int, b: int)
    requires a <= b
    ensures old_count(t, a) <= old_count(t, b), 0 <= old_count(t, a)
    decreases b
{
    if b > 0 && a < b { lemma_old_count_mono(t, a, b - 1); }
    if a > 0 { lemma_old_count_mono(t, a - 1, a - 1); }
}
// sorting what is already in strict order changes nothing
pub proof fn lemma_sort_noop(a: Seq<incblame_Hunk>, b: Seq<incblame_Hunk>)
    requires seq_perm(b, a), a.len() == b.len(), offsets_strict(a),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> !(hunk_off(#[trigger] b[j]) < hunk_off(#[trigger] b[i]))
    ensures b == a
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= b); } else {
        let n = a.len() - 1;
        let la = a[n];
        let lb = b[n];
        a.to_multiset_ensures();
        b.to_multiset_ensures();
        assert(b.to_multiset().count(la) > 0) by { assert(a.contains(la)); }
        assert(b.contains(la));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == la;
        assert(a.to_multiset().count(lb) > 0) by { assert(b.contains(lb)); }
        assert(a.contains(lb));
        let m = choose|m: int| 0 <= m < a.len() && a[m] == lb;
        assert(la == lb) by {
            if m != n { assert(hunk_off(a[m]) < hunk_off(a[n])); if k != n { assert(!(hunk_off(b[n]) < hunk_off(b[k]))); } }
        }
        let a2 = a.drop_last();
        let b2 = b.drop_last();
        assert(a =~= a2.push(la));
        assert(b =~= b2.push(lb));
        assert(a2.to_multiset() =~= a.to_multiset().remove(la)) by { assert(a2 =~= a.remove(n)); }
        assert(b2.to_multiset() =~= b.to_multiset().remove(lb)) by { assert(b2 =~= b.remove(n)); }
        assert forall|i: int, j: int| 0 <= i < j < a2.len() implies hunk_off(#[trigger] a2[i]) < hunk_off(#[trigger] a2[j]) by { assert(a2[i] == a[i] && a2[j] == a[j]); }
        assert forall|i: int, j: int| 0 <= i < j < b2.len() implies !(hunk_off(#[trigger] b2[j]) < hunk_off(#[trigger] b2[i])) by { assert(b2[i] == b[i] && b2[j] == b[j]); }
        lemma_sort_noop(a2, b2);
    }
}
pub proof fn lemma_lvs_push(s: Seq<Ptr<incblame_Line>>, p: Ptr<incblame_Line>)
    ensures lvs(s.push(p)) == lvs(s).push(lv(p))
{ assert(lvs(s.push(p)) =~= lvs(s).push(lv(p))); }
pub proof fn lemma_lvs_add(s: Seq<Ptr<incblame_Line>>, t: Seq<Ptr<incblame_Line>>)
    ensures lvs(s + t) == lvs(s) + lvs(t)
{ assert(lvs(s + t) =~= lvs(s) + lvs(t)); }
pub proof fn lemma_hunk_line(old: Seq<LV>, h: incblame_Hunk, k: int)
    requires hunk_lines_ok(old, hunk_start(h), hunk_toks(h)), 0 <= k < hunk_toks(h).len()
    ensures ({
        let t = hunk_toks(h);
        let x = t[k];
        let at = hunk_start(h) + old_count(t, k);
        &&& is_ctx(x) || is_del(x) || is_add(x) || is_nonl(x)
        &&& x.len() > 0
        &&& is_nonl(x) ==> x[0] == 92
        &&& is_ctx(x) ==> at < old.len() && old[at].c == x.subrange(1, x.len() as int)
        &&& is_del(x) ==> at < old.len()
        &&& 0 <= old_count(t, k)
        &&& old_count(t, k + 1) == old_count(t, k) + if is_ctx(x) || is_del(x) { 1int } else { 0int }
        &&& old_count(t, k + 1) <= old_count(t, t.len() as int)
    })
{
    let t = hunk_toks(h);
    let x = t[k];
    lemma_old_count_mono(t, k + 1, t.len() as int);
    lemma_old_count_mono(t, k, k);
    @facts"\\ No newline at end of file";
}
// appending one line appends its view
pub proof fn lemma_lvs_step(a: Seq<Ptr<incblame_Line>>, b: Seq<Ptr<incblame_Line>>)
    ensures b.len() == a.len() + 1 && b.drop_last() =~= a ==> lvs(b) == lvs(a).push(lv(b.last()))
{ if b.len() == a.len() + 1 && b.drop_last() =~= a { assert(b =~= a.push(b.last())); lemma_lvs_push(a, b.last()); } }
