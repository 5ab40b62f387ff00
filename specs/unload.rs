// commits kept although no later one needs them
pub open spec fn max_kept() -> int { 1000 }
// how many of the releasable commits q, oldest first, have been released
pub open spec fn gone_of(q: Seq<Str>) -> int { if q.len() > max_kept() { q.len() - max_kept() } else { 0 } }
// the list holds the releasable commits not yet released, newest first
pub open spec fn list_is(l: GoList, q: Seq<Str>) -> bool {
    &&& l.ok && l.items.len() == q.len() - gone_of(q)
    &&& forall|i: int| 0 <= i < l.items.len() ==> is_str(#[trigger] l.items[i]) && unbox_str(l.items[i]) == q[q.len() - 1 - i]
}
pub open spec fn in_range(q: Seq<Str>, from: int, to: int, c: Str) -> bool { exists|i: int| from <= i < to && #[trigger] q[i] == c }
// b is a without commits number from to to of q
pub open spec fn released(a: RepoMap, b: RepoMap, q: Seq<Str>, from: int, to: int) -> bool {
    &&& forall|c: Str| #[trigger] b.dom().contains(c) <==> a.dom().contains(c) && !in_range(q, from, to, c)
    &&& forall|c: Str| #[trigger] b.dom().contains(c) ==> b[c] == a[c]
}
// how many of s are in d
pub open spec fn count_in(s: Seq<Str>, d: Set<Str>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { count_in(s.drop_last(), d) + if d.contains(s.last()) { 1int } else { 0 } }
}
pub open spec fn all_in(s: Seq<Str>, d: Set<Str>) -> bool { forall|i: int| 0 <= i < s.len() ==> d.contains(#[trigger] s[i]) }
pub type Links = Map<Str, Seq<Str>>;
// with this parent of the commit, number j, all children of the parent are processed; before it those of d were
pub open spec fn full_at(k: Links, d: Set<Str>, ps: Seq<Str>, j: int) -> bool { count_in(kids(k, ps[j]), d) + times(ps.subrange(0, j + 1), ps[j]) == kids(k, ps[j]).len() }
// the parents, among the first n, that become releasable
pub open spec fn newly(k: Links, d: Set<Str>, ps: Seq<Str>, n: int) -> Seq<Str> decreases n {
    if n <= 0 { Seq::<Str>::empty() } else { let r = newly(k, d, ps, n - 1); if full_at(k, d, ps, n - 1) { r.push(ps[n - 1]) } else { r } }
}
pub open spec fn inverse(p: Links, k: Links) -> bool { forall|a: Str, c: Str| #[trigger] times(kids(k, a), c) == times(pars(p, c), a) }
pub open spec fn counts_ok(m: Map<Str, int>, k: Links, d: Set<Str>) -> bool { forall|p: Str| #[trigger] mget(m, p, 0) == count_in(kids(k, p), d) }
// all of q have no child outside d
pub open spec fn unneeded(q: Seq<Str>, k: Links, d: Set<Str>) -> bool { forall|i: int| 0 <= i < q.len() ==> all_in(kids(k, #[trigger] q[i]), d) }

pub proof fn lemma_count(s: Seq<Str>, d: Set<Str>, c: Str)
    requires !d.contains(c)
    ensures count_in(s, d.insert(c)) == count_in(s, d) + times(s, c), 0 <= count_in(s, d) <= s.len(), count_in(s, d) == s.len() <==> all_in(s, d)
    decreases s.len()
{
    lemma_times();
    if s.len() == 0 { assert(s =~= Seq::<Str>::empty()); } else {
        let t = s.drop_last();
        lemma_count(t, d, c);
        assert(s =~= t.push(s.last()));
        assert(times(t.push(s.last()), c) == times(t, c) + if c == s.last() { 1nat } else { 0nat });
        if all_in(s, d) { assert forall|i: int| 0 <= i < t.len() implies d.contains(#[trigger] t[i]) by { assert(s[i] == t[i]); } assert(d.contains(s[s.len() - 1])); }
        if count_in(s, d) == s.len() { assert forall|i: int| 0 <= i < s.len() implies d.contains(#[trigger] s[i]) by { if i < t.len() { assert(s[i] == t[i]); } } }
    }
}
pub proof fn lemma_counts(m: Map<Str, int>, k: Links, d: Set<Str>, c: Str)
    requires !d.contains(c), forall|p: Str| #[trigger] mget(m, p, 0) == count_in(kids(k, p), d) + times(kids(k, p), c)
    ensures counts_ok(m, k, d.insert(c))
{
    assert forall|p: Str| #[trigger] mget(m, p, 0) == count_in(kids(k, p), d.insert(c)) by { lemma_count(kids(k, p), d, c); }
}
pub proof fn lemma_times_part(s: Seq<Str>, j: int, x: Str)
    requires 0 <= j <= s.len()
    ensures times(s.subrange(0, j), x) <= times(s, x)
    decreases s.len() - j
{
    if j < s.len() { lemma_next_times(s, j); lemma_times_part(s, j + 1, x); } else { assert(s.subrange(0, j) =~= s); }
}
// a parent that becomes releasable has no child left
pub proof fn lemma_full_at(p: Links, k: Links, d: Set<Str>, c: Str, j: int)
    requires inverse(p, k), !d.contains(c), 0 <= j < pars(p, c).len(), full_at(k, d, pars(p, c), j)
    ensures all_in(kids(k, pars(p, c)[j]), d.insert(c))
{
    let ps = pars(p, c); let a = ps[j]; let s = kids(k, a);
    lemma_times_part(ps, j + 1, a);
    lemma_count(s, d, c);
    assert(times(kids(k, a), c) == times(pars(p, c), a));
    // counting with the larger set
    lemma_all_count(s, d.insert(c));
}
pub proof fn lemma_all_count(s: Seq<Str>, d: Set<Str>)
    ensures count_in(s, d) <= s.len(), count_in(s, d) == s.len() ==> all_in(s, d)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_all_count(t, d);
        if count_in(s, d) == s.len() { assert forall|i: int| 0 <= i < s.len() implies d.contains(#[trigger] s[i]) by { if i < t.len() { assert(s[i] == t[i]); } } }
    }
}
pub proof fn lemma_unneeded(q: Seq<Str>, p: Links, k: Links, d: Set<Str>, c: Str, n: int)
    requires inverse(p, k), !d.contains(c), unneeded(q, k, d), 0 <= n <= pars(p, c).len()
    ensures unneeded(q + newly(k, d, pars(p, c), n), k, d.insert(c))
    decreases n
{
    let ps = pars(p, c);
    let r = q + newly(k, d, ps, n);
    if n <= 0 {
        assert forall|i: int| 0 <= i < r.len() implies all_in(kids(k, #[trigger] r[i]), d.insert(c)) by { assert(r[i] == q[i]); assert(all_in(kids(k, q[i]), d)); }
    } else {
        lemma_unneeded(q, p, k, d, c, n - 1);
        let r0 = q + newly(k, d, ps, n - 1);
        if full_at(k, d, ps, n - 1) { lemma_full_at(p, k, d, c, n - 1); assert(r =~= r0.push(ps[n - 1])); } else { assert(r =~= r0); }
        assert forall|i: int| 0 <= i < r.len() implies all_in(kids(k, #[trigger] r[i]), d.insert(c)) by { if i < r0.len() { assert(r[i] == r0[i]); assert(all_in(kids(k, r0[i]), d.insert(c))); } }
    }
}
pub proof fn lemma_released_step(a: RepoMap, b: RepoMap, c: RepoMap, q: Seq<Str>, x: Str, e0: int)
    requires 0 <= e0 <= gone_of(q), released(a, b, q, e0, gone_of(q)), released(b, c, q.push(x), gone_of(q), gone_of(q.push(x)))
    ensures released(a, c, q.push(x), e0, gone_of(q.push(x)))
{
    let e1 = gone_of(q); let e2 = gone_of(q.push(x)); let p = q.push(x);
    assert(e1 <= e2 && e1 <= q.len());
    assert forall|h: Str| in_range(p, e0, e2, h) <==> in_range(q, e0, e1, h) || in_range(p, e1, e2, h) by {
        if in_range(p, e0, e2, h) {
            let i = choose|i: int| e0 <= i < e2 && #[trigger] p[i] == h;
            if i < e1 { assert(q[i] == h); } else { assert(p[i] == h); }
        }
        if in_range(q, e0, e1, h) { let i = choose|i: int| e0 <= i < e1 && #[trigger] q[i] == h; assert(p[i] == h); }
        if in_range(p, e1, e2, h) { let i = choose|i: int| e1 <= i < e2 && #[trigger] p[i] == h; assert(p[i] == h); }
    }
    assert forall|h: Str| #[trigger] c.dom().contains(h) <==> a.dom().contains(h) && !in_range(p, e0, e2, h) by { let w = b.dom().contains(h); }
    assert forall|h: Str| #[trigger] c.dom().contains(h) implies c[h] == a[h] by { assert(b.dom().contains(h)); }
}

// the repository without commits number from to to of q
pub open spec fn unload(a: RepoMap, q: Seq<Str>, from: int, to: int) -> RepoMap { Map::new(a.dom().filter(|c: Str| !in_range(q, from, to, c)), |c: Str| a[c]) }
pub proof fn lemma_unload(a: RepoMap, b: RepoMap, q: Seq<Str>, from: int, to: int)
    requires released(a, b, q, from, to)
    ensures b == unload(a, q, from, to)
{
    let u = unload(a, q, from, to);
    assert forall|c: Str| b.dom().contains(c) <==> u.dom().contains(c) by { }
    assert(b =~= u);
}
// what the single result of a merge has to be
pub open spec fn merge_result(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, r: process_Result) -> bool {
    &&& r.Commit == commit
    &&& forall|f: Str| #[trigger] r.Files.dom().contains(f) <==> shown(parts, ph, repo, f) || gone(parts, ph, f)
    &&& forall|f: Str| #[trigger] r.Files.dom().contains(f) ==> if hk(parts, ph, f) { mrec(parts, ph, repo, commit, f, r.Files[f]) } else { removed_rec(commit, r.Files[f]) }
}
// what is recorded for a merge
pub open spec fn merge_recorded(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, fs: FileMap) -> bool {
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> hk(parts, ph, f) || in_parent(ph, repo, f, ph.len() as int)
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) ==> if hk(parts, ph, f) { mrec(parts, ph, repo, commit, f, fs[f]) } else { of_parent(ph, repo, f, fs[f]) }
}

// what the result of a commit that is no merge has to be
pub open spec fn regular_result(c: parser_Commit, repo: RepoMap, dir: Str, r: process_Result) -> bool {
    r.Commit == c.Hash && reported(c.Changes, c.Changes.len() as int, parent_files(c.Parents, repo), c.Hash, dir, r.Files)
}
