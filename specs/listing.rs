// ---- the commit listing: a line for each commit with its hash, an at sign, and the hashes of its parents
pub open spec fn is_hash(h: Str) -> bool { !h.contains(@"@"[0]) && !h.contains(@" "[0]) && h.len() > 0 }
pub open spec fn listing_line(h: Str, p: Seq<Str>) -> Str { h + @"@" + str_join(p, @" ") }
pub open spec fn is_listing(t: Seq<Str>, h: Seq<Str>, p: Seq<Seq<Str>>) -> bool {
    &&& h.len() == t.len() && p.len() == t.len()
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == listing_line(h[i], p[i]) && is_hash(h[i])
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < p[i].len() ==> is_hash(#[trigger] p[i][j])
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] h[i] == #[trigger] h[j] ==> p[i] == p[j]
}
pub proof fn lemma_find1(s: Str, p: Str, i: int, j: int)
    requires p.len() == 1, 0 <= i <= j <= s.len(), forall|q: int| i <= q < j ==> #[trigger] s[q] != p[0], j < s.len() ==> s[j] == p[0]
    ensures find_str(s, p, i) == if j < s.len() { j } else { s.len() as int + 1 }
    decreases j - i
{
    if i < j {
        assert(s.subrange(i, i + 1)[0] == s[i]);
        lemma_find1(s, p, i + 1, j);
    } else if j < s.len() { assert(s.subrange(i, i + 1) =~= p); }
}
pub proof fn lemma_split_none(s: Str, p: Str, fuel: nat)
    requires p.len() == 1, !s.contains(p[0])
    ensures split_from(s, p, fuel) == seq![s]
{ lemma_find1(s, p, 0, s.len() as int); }
pub proof fn lemma_split_first(a: Str, p: Str, b: Str, fuel: nat)
    requires p.len() == 1, !a.contains(p[0]), fuel > 0
    ensures split_from(a + p + b, p, fuel) == seq![a] + split_from(b, p, (fuel - 1) as nat)
{
    let s = a + p + b;
    assert forall|q: int| 0 <= q < a.len() implies #[trigger] s[q] != p[0] by { assert(a.contains(a[q])); assert(s[q] == a[q]); }
    assert(s[a.len() as int] == p[0]);
    lemma_find1(s, p, 0, a.len() as int);
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(s.subrange(a.len() as int + 1, s.len() as int) =~= b);
}
// joined parts come apart again
pub proof fn lemma_split_join(q: Seq<Str>, p: Str, fuel: nat)
    requires p.len() == 1, q.len() > 0, fuel >= q.len() - 1, forall|i: int| 0 <= i < q.len() ==> !(#[trigger] q[i]).contains(p[0])
    ensures split_from(str_join(q, p), p, fuel) == q
    decreases q.len()
{
    if q.len() == 1 { assert(!q[0].contains(p[0])); lemma_split_none(q[0], p, fuel); assert(seq![q[0]] =~= q); }
    else {
        let r = q.subrange(1, q.len() as int);
        lemma_join_first(q, p);
        assert(!q[0].contains(p[0]));
        assert forall|i: int| 0 <= i < r.len() implies !(#[trigger] r[i]).contains(p[0]) by { assert(r[i] == q[i + 1]); }
        lemma_split_first(q[0], p, str_join(r, p), fuel);
        lemma_split_join(r, p, (fuel - 1) as nat);
        assert(seq![q[0]] + r =~= q);
    }
}
pub proof fn lemma_join_first(q: Seq<Str>, p: Str)
    requires q.len() > 1
    ensures str_join(q, p) == q[0] + p + str_join(q.subrange(1, q.len() as int), p)
    decreases q.len()
{
    let r = q.subrange(1, q.len() as int);
    assert(str_join(q, p) == str_join(q.drop_last(), p) + p + q.last());
    if q.len() == 2 {
        assert(str_join(q.drop_last(), p) == q[0]);
        assert(str_join(r, p) == q[1]);
    } else {
        lemma_join_first(q.drop_last(), p);
        assert(q.drop_last().subrange(1, q.len() - 1) =~= r.drop_last());
        assert(str_join(r, p) == str_join(r.drop_last(), p) + p + r.last());
        assert(q[0] + p + str_join(r.drop_last(), p) + p + q.last() =~= q[0] + p + (str_join(r.drop_last(), p) + p + q.last()));
    }
}
pub proof fn lemma_join_lacks(q: Seq<Str>, p: Str, c: int)
    requires !p.contains(c), forall|i: int| 0 <= i < q.len() ==> !(#[trigger] q[i]).contains(c)
    ensures !str_join(q, p).contains(c)
    decreases q.len()
{
    if q.len() == 1 { assert(!q[0].contains(c)); }
    else if q.len() > 1 {
        let a = str_join(q.drop_last(), p);
        assert forall|i: int| 0 <= i < q.len() - 1 implies !(#[trigger] q.drop_last()[i]).contains(c) by { assert(q.drop_last()[i] == q[i]); }
        lemma_join_lacks(q.drop_last(), p, c);
        assert(!q.last().contains(c));
        lemma_lacks(a, p, c);
        lemma_lacks(a + p, q.last(), c);
    }
}
pub proof fn lemma_lacks(a: Str, b: Str, c: int)
    requires !a.contains(c), !b.contains(c)
    ensures !(a + b).contains(c)
{
    if (a + b).contains(c) {
        let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == c;
        if i < a.len() { assert(a.contains(a[i])); } else { assert(b.contains(b[i - a.len()])); }
    }
}
pub proof fn lemma_join_len(q: Seq<Str>, p: Str)
    requires p.len() == 1, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() > 0
    ensures str_join(q, p).len() >= q.len()
    decreases q.len()
{
    if q.len() == 1 { assert(q[0].len() > 0); }
    else if q.len() > 1 {
        assert forall|i: int| 0 <= i < q.len() - 1 implies (#[trigger] q.drop_last()[i]).len() > 0 by { assert(q.drop_last()[i] == q[i]); }
        lemma_join_len(q.drop_last(), p);
    }
}
pub proof fn lemma_listing_line(t: Seq<Str>, h: Seq<Str>, p: Seq<Seq<Str>>, i: int)
    requires is_listing(t, h, p), 0 <= i < t.len()
    ensures str_split(t[i], @"@") == seq![h[i], str_join(p[i], @" ")],
        p[i].len() == 0 <==> str_join(p[i], @" ").len() == 0,
        p[i].len() > 0 ==> str_split(str_join(p[i], @" "), @" ") == p[i],
        p[i].len() == 0 ==> p[i] == Seq::<Str>::empty(),
{
    @facts"@"; @facts" ";
    let at = @"@"; let sp = @" ";
    let r = str_join(p[i], sp);
    assert(t[i] == listing_line(h[i], p[i])); assert(is_hash(h[i]));
    assert(!sp.contains(at[0]));
    assert forall|j: int| 0 <= j < p[i].len() implies !(#[trigger] p[i][j]).contains(at[0]) && !p[i][j].contains(sp[0]) && p[i][j].len() > 0 by { assert(is_hash(p[i][j])); }
    lemma_join_lacks(p[i], sp, at[0]);
    lemma_join_len(p[i], sp);
    lemma_split_first(h[i], at, r, t[i].len());
    lemma_split_none(r, at, (t[i].len() - 1) as nat);
    assert(seq![h[i]] + seq![r] =~= seq![h[i], r]);
    if p[i].len() > 0 { lemma_split_join(p[i], sp, r.len()); } else { assert(p[i] =~= Seq::<Str>::empty()); }
}
