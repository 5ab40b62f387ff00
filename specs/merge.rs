// Which line of the old version each line of the new one is; -1 for a line the diff adds.
pub open spec fn hunk_src(start: int, t: Seq<Str>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::<int>::empty() } else {
        let r = hunk_src(start, t, n - 1);
        if is_ctx(t[n - 1]) { r.push(start + old_count(t, n - 1)) } else if is_add(t[n - 1]) { r.push(-1int) } else { r }
    }
}
pub open spec fn run_src(a: int, b: int) -> Seq<int> { Seq::new((if b > a { b - a } else { 0 }) as nat, |i: int| a + i) }
pub open spec fn rest_src(n: int, hs: Seq<incblame_Hunk>, k: int, from: int) -> Seq<int> decreases hs.len() - k {
    if k < 0 || k >= hs.len() { run_src(from, n) } else {
        run_src(from, hunk_start(hs[k])) + hunk_src(hunk_start(hs[k]), hunk_toks(hs[k]), hunk_toks(hs[k]).len() as int) + rest_src(n, hs, k + 1, hunk_end(hs[k]))
    }
}
pub open spec fn patched_src(n: int, hs: Seq<incblame_Hunk>) -> Seq<int> { rest_src(n, hs, 0, 0) }

pub open spec fn src_matches(out: Seq<LV>, src: Seq<int>, old: Seq<LV>, commit: Str) -> bool {
    out.len() == src.len() && forall|i: int| #![trigger src[i]] #![trigger out[i]] 0 <= i < out.len() ==> -1 <= src[i] < old.len() && out[i].by == (if src[i] >= 0 { old[src[i]].by } else { commit })
}
pub proof fn lemma_hunk_src(old: Seq<LV>, start: int, t: Seq<Str>, n: int, commit: Str)
    requires hunk_lines_ok(old, start, t), 0 <= start, 0 <= n <= t.len()
    ensures src_matches(hunk_out(old, start, t, n, commit), hunk_src(start, t, n), old, commit)
    decreases n
{
    if n > 0 {
        lemma_hunk_src(old, start, t, n - 1, commit);
        lemma_old_count_mono(t, 0, n - 1);
        let x = t[n - 1];
    }
}
pub proof fn lemma_rest_src(old: Seq<LV>, hs: Seq<incblame_Hunk>, k: int, from: int, commit: Str)
    requires rest_ok(old, hs, k, from), 0 <= k, 0 <= from <= old.len()
    ensures src_matches(rest_out(old, hs, k, from, commit), rest_src(old.len() as int, hs, k, from), old, commit)
    decreases hs.len() - k
{
    if k < hs.len() {
        let h = hs[k];
        lemma_old_count_mono(hunk_toks(h), 0, hunk_toks(h).len() as int);
        lemma_hunk_src(old, hunk_start(h), hunk_toks(h), hunk_toks(h).len() as int, commit);
        lemma_rest_src(old, hs, k + 1, hunk_end(h), commit);
    }
}
pub open spec fn pv(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str, j: int) -> Seq<LV> { patched(lvs(ps[j].Lines), ds[j].Hunks, commit) }
pub open spec fn psrc(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, j: int) -> Seq<int> { patched_src(ps[j].Lines.len() as int, ds[j].Hunks) }
// the commit of the first parent, from number j on, in which line i was already there; the merge commit if none
pub open spec fn merged_by(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str, i: int, j: int) -> Str decreases ps.len() - j {
    if j < 0 || j >= ps.len() { commit }
    else if psrc(ps, ds, j)[i] >= 0 { lvs(ps[j].Lines)[psrc(ps, ds, j)[i]].by }
    else { merged_by(ps, ds, commit, i, j + 1) }
}
// a merge: every diff leads from its parent to the same text, and the merge commit is new
pub open spec fn merge_ok(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str) -> bool {
    &&& ps.len() == ds.len() && ps.len() >= 1
    &&& forall|j: int| #![trigger ps[j]] #![trigger ds[j]] 0 <= j < ps.len() ==> !ps[j].IsBinary && !ds[j].IsBinary && nonnil(ps[j].Lines) && diff_ok(lvs(ps[j].Lines), ds[j].Hunks)
    &&& forall|j: int, i: int| 0 <= j < ps.len() && 0 <= i < ps[j].Lines.len() ==> (#[trigger] lvs(ps[j].Lines)[i]).by != commit
    &&& forall|j: int| 0 <= j < ps.len() ==> (#[trigger] pv(ps, ds, commit, j)).len() == pv(ps, ds, commit, 0).len()
    &&& forall|j: int, i: int| 0 <= j < ps.len() && 0 <= i < pv(ps, ds, commit, 0).len() ==> (#[trigger] pv(ps, ds, commit, j)[i]).c == pv(ps, ds, commit, 0)[i].c
}
pub proof fn lemma_pv(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str, j: int)
    requires merge_ok(ps, ds, commit), 0 <= j < ps.len()
    ensures src_matches(pv(ps, ds, commit, j), psrc(ps, ds, j), lvs(ps[j].Lines), commit),
        forall|i: int| 0 <= i < pv(ps, ds, commit, j).len() ==> ((#[trigger] pv(ps, ds, commit, j)[i]).by == commit <==> psrc(ps, ds, j)[i] < 0)
{
    let p = ps[j];
    lemma_rest_src(lvs(ps[j].Lines), ds[j].Hunks, 0, 0, commit);
    assert forall|i: int| 0 <= i < pv(ps, ds, commit, j).len() implies ((#[trigger] pv(ps, ds, commit, j)[i]).by == commit <==> psrc(ps, ds, j)[i] < 0) by {
        let s = psrc(ps, ds, j)[i];
        if s >= 0 { let q = lvs(ps[j].Lines)[s]; }
    }
}
// the first parents have all added line i themselves
pub open spec fn none_before(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str, i: int, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> (#[trigger] psrc(ps, ds, j))[i] < 0
}
pub proof fn lemma_merged_by(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str, i: int, j: int, k: int)
    requires 0 <= j <= k <= ps.len(), none_before(ps, ds, commit, i, k)
    ensures merged_by(ps, ds, commit, i, j) == merged_by(ps, ds, commit, i, k)
    decreases k - j
{
    if j < k { let s = psrc(ps, ds, j); lemma_merged_by(ps, ds, commit, i, j + 1, k); }
}
