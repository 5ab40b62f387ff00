// ---- git blame --porcelain: per line of the file a header (commit and more), details of the commit or none, and the content
pub ghost struct BEntry { pub commit: Str, pub rest: Str, pub metas: Seq<Str>, pub content: Str }
pub open spec fn one_line(s: Str) -> bool { !s.contains(10int) }
pub open spec fn bentry_ok(e: BEntry) -> bool {
    &&& e.commit.len() > 0 && !e.commit.contains(32int) && one_line(e.commit)
    &&& (e.rest.len() == 0 || e.rest[0] == 32) && one_line(e.rest)
    &&& one_line(e.content)
    &&& forall|j: int| 0 <= j < e.metas.len() ==> (#[trigger] e.metas[j]).len() > 0 && e.metas[j][0] != 9 && one_line(e.metas[j])
}
pub open spec fn bentry_lines(e: BEntry) -> Seq<Str> { seq![e.commit + e.rest] + e.metas + seq![seq![9int] + e.content] }
pub open spec fn blame_lines(es: Seq<BEntry>, n: int) -> Seq<Str> decreases n {
    if n <= 0 { Seq::<Str>::empty() } else { blame_lines(es, n - 1) + bentry_lines(es[n - 1]) }
}
pub open spec fn bstart(es: Seq<BEntry>, n: int) -> int { blame_lines(es, n).len() as int }
pub open spec fn all_blame_lines(es: Seq<BEntry>) -> Seq<Str> { blame_lines(es, es.len() as int).push(str_empty()) }
pub open spec fn is_blame(data: Str, es: Seq<BEntry>) -> bool {
    &&& forall|k: int| 0 <= k < es.len() ==> bentry_ok(#[trigger] es[k])
    &&& data == str_join(all_blame_lines(es), @"\n")
}
pub proof fn lemma_blame_prefix(es: Seq<BEntry>, k: int, n: int)
    requires 0 <= k <= n <= es.len()
    ensures bstart(es, k) <= bstart(es, n), forall|q: int| 0 <= q < bstart(es, k) ==> #[trigger] blame_lines(es, n)[q] == blame_lines(es, k)[q]
    decreases n - k
{ if k < n { lemma_blame_prefix(es, k, n - 1); } }
pub proof fn lemma_one_line(es: Seq<BEntry>, n: int)
    requires 0 <= n <= es.len(), forall|k: int| 0 <= k < es.len() ==> bentry_ok(#[trigger] es[k])
    ensures forall|q: int| 0 <= q < bstart(es, n) ==> one_line(#[trigger] blame_lines(es, n)[q])
    decreases n
{
    if n > 0 {
        lemma_one_line(es, n - 1);
        let e = es[n - 1];
        assert(bentry_ok(e));
        lemma_lacks(e.commit, e.rest, 10);
        let t = seq![9int];
        assert(!t.contains(10int));
        lemma_lacks(t, e.content, 10);
        let l = bentry_lines(e); let b = bstart(es, n - 1);
        assert forall|q: int| 0 <= q < l.len() implies one_line(#[trigger] l[q]) by {
            if q == 0 { } else if q <= e.metas.len() { assert(l[q] == e.metas[q - 1]); } else { assert(l[q] == t + e.content); }
        }
        assert forall|q: int| 0 <= q < bstart(es, n) implies one_line(#[trigger] blame_lines(es, n)[q]) by {
            if q >= b { assert(blame_lines(es, n)[q] == l[q - b]); } else { assert(blame_lines(es, n)[q] == blame_lines(es, n - 1)[q]); }
        }
    }
}
pub proof fn lemma_blame_split(data: Str, es: Seq<BEntry>)
    requires is_blame(data, es)
    ensures str_split(data, @"\n") == all_blame_lines(es)
{
    @facts"\n";
    let q = all_blame_lines(es); let p = @"\n"; let n = es.len() as int;
    lemma_one_line(es, n);
    assert forall|i: int| 0 <= i < q.len() implies !(#[trigger] q[i]).contains(p[0]) by {
        if i < bstart(es, n) { assert(q[i] == blame_lines(es, n)[i]); assert(one_line(blame_lines(es, n)[i])); }
    }
    lemma_join_atleast(q, p);
    lemma_split_join(q, p, data.len());
}
pub proof fn lemma_join_atleast(q: Seq<Str>, p: Str)
    requires p.len() == 1, q.len() > 0
    ensures str_join(q, p).len() >= q.len() - 1
    decreases q.len()
{ if q.len() > 1 { lemma_join_atleast(q.drop_last(), p); } }
// entry k lies between its start and the next one's
pub proof fn lemma_bentry(es: Seq<BEntry>, k: int)
    requires 0 <= k < es.len()
    ensures
        bstart(es, 0) == 0,
        bstart(es, k) >= 0,
        bstart(es, k + 1) == bstart(es, k) + es[k].metas.len() + 2,
        bstart(es, k + 1) <= bstart(es, es.len() as int),
        all_blame_lines(es).len() == bstart(es, es.len() as int) + 1,
        all_blame_lines(es)[bstart(es, k)] == es[k].commit + es[k].rest,
        forall|j: int| 0 <= j < es[k].metas.len() ==> all_blame_lines(es)[bstart(es, k) + 1 + j] == #[trigger] es[k].metas[j],
        all_blame_lines(es)[bstart(es, k) + 1 + es[k].metas.len()] == seq![9int] + es[k].content,
{
    let n = es.len() as int; let b = bstart(es, k); let l = bentry_lines(es[k]);
    lemma_blame_prefix(es, k + 1, n);
    let a = all_blame_lines(es);
    assert forall|q: int| 0 <= q < l.len() implies a[b + q] == #[trigger] l[q] by {
        assert(blame_lines(es, k + 1)[b + q] == l[q]);
        assert(blame_lines(es, n)[b + q] == blame_lines(es, k + 1)[b + q]);
    }
    assert(a[b] == l[0]);
    assert forall|j: int| 0 <= j < es[k].metas.len() implies a[b + 1 + j] == #[trigger] es[k].metas[j] by { assert(l[1 + j] == es[k].metas[j]); assert(a[b + (1 + j)] == l[1 + j]); }
    let m = es[k].metas.len() as int;
    assert(l[1 + m] == seq![9int] + es[k].content);
    assert(a[b + (1 + m)] == l[1 + m]);
}
pub proof fn lemma_blame_head(e: BEntry)
    requires bentry_ok(e)
    ensures str_split(e.commit + e.rest, @" ").len() >= 1, str_split(e.commit + e.rest, @" ")[0] == e.commit
{
    @facts" ";
    let sp = @" "; let s = e.commit + e.rest;
    if e.rest.len() == 0 { assert(s =~= e.commit); lemma_split_none(s, sp, s.len()); }
    else {
        let b = e.rest.subrange(1, e.rest.len() as int);
        assert(s =~= e.commit + sp + b);
        lemma_split_first(e.commit, sp, b, s.len());
    }
}
// what git blame shows for a file at a commit, and the command that asks for it
pub uninterp spec fn git_blame(dir: Str, commit: Str, file: Str) -> Seq<BEntry>;
pub open spec fn blame_args(commit: Str, file: Str) -> Seq<Str> { seq![@"git", @"blame", commit, @"--porcelain", @"--", file] }
pub open spec fn blame_args2(commit: Str, file: Str) -> Seq<Str> { seq![@"git", @"blame", @"--porcelain", commit, @"--", file] }
