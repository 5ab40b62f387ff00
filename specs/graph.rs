// Reachability in the commit graph, given as the parents of each commit.
pub type Gr = Map<Str, Seq<Str>>;
pub open spec fn pars(g: Gr, x: Str) -> Seq<Str> { mget(g, x, Seq::<Str>::empty()) }
// a walk from child to parent which goes on past no commit of stop
pub open spec fn walk(g: Gr, stop: Set<Str>, p: Seq<Str>) -> bool {
    p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> !stop.contains(#[trigger] p[i]) && pars(g, p[i]).contains(p[i + 1])
}
pub open spec fn reach(g: Gr, stop: Set<Str>, a: Str, b: Str) -> bool {
    exists|p: Seq<Str>| #[trigger] walk(g, stop, p) && p[0] == a && p.last() == b
}
pub open spec fn anc(g: Gr, a: Str, b: Str) -> bool { reach(g, Set::empty(), a, b) }
pub open spec fn is_closed(g: Gr, stop: Set<Str>, s: spec_fn(Str) -> bool) -> bool {
    forall|x: Str, i: int| s(x) && !stop.contains(x) && 0 <= i < pars(g, x).len() ==> s(#[trigger] pars(g, x)[i])
}
// every commit named as a parent is in the graph
pub open spec fn is_whole(g: Gr) -> bool {
    forall|x: Str, i: int| 0 <= i < pars(g, x).len() ==> g.dom().contains(#[trigger] pars(g, x)[i])
}
pub open spec fn is_in(m: Map<Str, bool>) -> spec_fn(Str) -> bool { |x: Str| mget(m, x, false) }
pub open spec fn in_either(a: Map<Str, bool>, b: Map<Str, bool>) -> spec_fn(Str) -> bool { |x: Str| mget(a, x, false) || mget(b, x, false) }
pub open spec fn ranked(g: Gr, rk: Map<Str, int>) -> bool {
    forall|x: Str, i: int| 0 <= i < pars(g, x).len() ==> rk[#[trigger] pars(g, x)[i]] < rk[x]
}
pub proof fn lemma_reach_refl(g: Gr, stop: Set<Str>, a: Str)
    ensures reach(g, stop, a, a)
{ assert(walk(g, stop, seq![a])); }
pub proof fn lemma_reach_first(g: Gr, stop: Set<Str>, a: Str, i: int)
    requires 0 <= i < pars(g, a).len(), !stop.contains(a)
    ensures forall|b: Str| #[trigger] reach(g, stop, pars(g, a)[i], b) ==> reach(g, stop, a, b)
{
    assert forall|b: Str| #[trigger] reach(g, stop, pars(g, a)[i], b) implies reach(g, stop, a, b) by {
        let p = choose|p: Seq<Str>| #[trigger] walk(g, stop, p) && p[0] == pars(g, a)[i] && p.last() == b;
        let q = seq![a] + p;
        assert forall|j: int| 0 <= j < q.len() - 1 implies !stop.contains(#[trigger] q[j]) && pars(g, q[j]).contains(q[j + 1]) by {
            if j > 0 { assert(q[j] == p[j - 1]); assert(q[j + 1] == p[j]); }
        }
        assert(walk(g, stop, q));
        assert(q.last() == b);
    }
}
pub proof fn lemma_reach_in(g: Gr, stop: Set<Str>, s: spec_fn(Str) -> bool, p: Seq<Str>, n: int)
    requires is_closed(g, stop, s), walk(g, stop, p), s(p[0]), 0 <= n < p.len()
    ensures s(p[n])
    decreases n
{
    if n > 0 {
        lemma_reach_in(g, stop, s, p, n - 1);
        let w = p[n - 1];
        let i = choose|i: int| 0 <= i < pars(g, w).len() && pars(g, w)[i] == p[n - 1 + 1];
        assert(s(pars(g, w)[i]));
    }
}
// a set closed under parents has all that can be reached from its members
pub proof fn lemma_reach_closed(g: Gr, stop: Set<Str>, s: spec_fn(Str) -> bool, a: Str)
    requires is_closed(g, stop, s), s(a)
    ensures forall|b: Str| #[trigger] reach(g, stop, a, b) ==> s(b)
{
    assert forall|b: Str| #[trigger] reach(g, stop, a, b) implies s(b) by {
        let p = choose|p: Seq<Str>| #[trigger] walk(g, stop, p) && p[0] == a && p.last() == b;
        lemma_reach_in(g, stop, s, p, p.len() - 1);
    }
}
pub proof fn lemma_anc_first(g: Gr, a: Str, i: int)
    requires 0 <= i < pars(g, a).len()
    ensures pars(g, a)[i] == mget(g, a, Seq::<Str>::empty())[i], forall|b: Str| #[trigger] anc(g, pars(g, a)[i], b) ==> anc(g, a, b)
{
    lemma_reach_first(g, Set::empty(), a, i);
    assert forall|b: Str| #[trigger] anc(g, pars(g, a)[i], b) implies anc(g, a, b) by {
        assert(reach(g, Set::empty(), pars(g, a)[i], b));
    }
}
pub proof fn lemma_anc_refl(g: Gr, a: Str)
    ensures anc(g, a, a)
{ lemma_reach_refl(g, Set::empty(), a); }
pub proof fn lemma_reach_next(g: Gr, stop: Set<Str>, a: Str)
    ensures forall|x: Str, i: int| #![trigger reach(g, stop, a, x), pars(g, x)[i]] reach(g, stop, a, x) && !stop.contains(x) && 0 <= i < pars(g, x).len() ==> reach(g, stop, a, pars(g, x)[i])
{
    assert forall|x: Str, i: int| #![trigger reach(g, stop, a, x), pars(g, x)[i]] reach(g, stop, a, x) && !stop.contains(x) && 0 <= i < pars(g, x).len() implies reach(g, stop, a, pars(g, x)[i]) by {
        let p = choose|p: Seq<Str>| #[trigger] walk(g, stop, p) && p[0] == a && p.last() == x;
        let q = p.push(pars(g, x)[i]);
        assert forall|j: int| 0 <= j < q.len() - 1 implies !stop.contains(#[trigger] q[j]) && pars(g, q[j]).contains(q[j + 1]) by {
            assert(q[j] == p[j]);
            if j < p.len() - 1 { assert(q[j + 1] == p[j + 1]); } else { assert(q[j + 1] == pars(g, x)[i]); }
        }
        assert(walk(g, stop, q));
        assert(q[0] == a && q.last() == pars(g, x)[i]);
    }
}
pub proof fn lemma_anc_next(g: Gr, a: Str)
    ensures forall|x: Str, i: int| #![trigger anc(g, a, x), pars(g, x)[i]] anc(g, a, x) && 0 <= i < pars(g, x).len() ==> anc(g, a, pars(g, x)[i])
{
    lemma_reach_next(g, Set::empty(), a);
    assert forall|x: Str, i: int| #![trigger anc(g, a, x), pars(g, x)[i]] anc(g, a, x) && 0 <= i < pars(g, x).len() implies anc(g, a, pars(g, x)[i]) by {
        assert(reach(g, Set::empty(), a, x));
    }
}

// ---- commits of default not in the branch
pub open spec fn behind_set(g: Gr, d: Str, b: Str, s: Set<Str>) -> bool { forall|x: Str| #[trigger] s.contains(x) <==> anc(g, d, x) && !anc(g, b, x) }
pub open spec fn is_behind(g: Gr, d: Str, b: Str, n: int) -> bool { exists|s: Set<Str>| #[trigger] behind_set(g, d, b, s) && s.len() == n }
pub open spec fn counted(done: Map<Str, bool>, r: Map<Str, bool>) -> Set<Str> { done.dom().filter(|x: Str| mget(done, x, false) && !mget(r, x, false)) }
pub proof fn lemma_counted(done: Map<Str, bool>, r: Map<Str, bool>, h: Str)
    requires !mget(done, h, false)
    ensures counted(done.insert(h, true), r).len() == counted(done, r).len() + if mget(r, h, false) { 0int } else { 1int }
{
    let d = done.insert(h, true);
    if mget(r, h, false) { assert(counted(d, r) =~= counted(done, r)); }
    else { assert(counted(d, r) =~= counted(done, r).insert(h)); }
}
pub proof fn lemma_behind(g: Gr, d: Str, b: Str, done: Map<Str, bool>, r: Map<Str, bool>)
    requires
        forall|x: Str| mget(r, x, false) == #[trigger] anc(g, b, x),
        forall|x: Str| #[trigger] mget(done, x, false) ==> anc(g, d, x),
        forall|x: Str, i: int| mget(done, x, false) && !mget(r, x, false) && 0 <= i < pars(g, x).len() ==> mget(done, #[trigger] pars(g, x)[i], false),
        mget(done, d, false),
    ensures is_behind(g, d, b, counted(done, r).len() as int)
{
    let s = in_either(done, r);
    lemma_anc_next(g, b);
    assert forall|x: Str, i: int| s(x) && 0 <= i < pars(g, x).len() implies s(#[trigger] pars(g, x)[i]) by {
        if mget(r, x, false) { assert(anc(g, b, x)); assert(anc(g, b, pars(g, x)[i])); }
    }
    assert(is_closed(g, Set::empty(), s));
    lemma_reach_closed(g, Set::empty(), s, d);
    let c = counted(done, r);
    assert forall|x: Str| #[trigger] c.contains(x) <==> anc(g, d, x) && !anc(g, b, x) by {
        if anc(g, d, x) && !anc(g, b, x) { assert(reach(g, Set::empty(), d, x)); assert(s(x)); assert(mget(done, x, false)); }
        if c.contains(x) { assert(mget(done, x, false)); }
    }
    assert(behind_set(g, d, b, c));
}

// ---- commits of a branch
// what default has without the branch head
pub open spec fn on_default(g: Gr, d: Str, b: Str, x: Str) -> bool { if anc(g, d, b) { reach(g, Set::empty().insert(b), d, x) } else { anc(g, d, x) } }
pub open spec fn in_branch(g: Gr, d: Str, b: Str, x: Str) -> bool { x == b || (anc(g, b, x) && !on_default(g, d, b, x)) }
pub open spec fn is_parent_in(g: Gr, d: Str, b: Str, x: Str) -> bool { exists|c: Str| #[trigger] in_branch(g, d, b, c) && pars(g, c).contains(x) }
pub open spec fn left_from(g: Gr, d: Str, b: Str, x: Str) -> bool { on_default(g, d, b, x) && is_parent_in(g, d, b, x) }
// x reaches one of a set, itself included
pub open spec fn sees(g: Gr, c: Seq<Str>, x: Str) -> bool { exists|y: Str| c.contains(y) && #[trigger] anc(g, x, y) }
pub open spec fn outermost(g: Gr, c: Seq<Str>, x: Str) -> bool { c.contains(x) && forall|i: int| 0 <= i < pars(g, x).len() ==> !sees(g, c, #[trigger] pars(g, x)[i]) }
pub open spec fn branch_point(g: Gr, d: Str, b: Str, x: Str) -> bool {
    left_from(g, d, b, x) && forall|i: int, y: Str| #![trigger pars(g, x)[i], left_from(g, d, b, y)] 0 <= i < pars(g, x).len() && left_from(g, d, b, y) ==> !anc(g, pars(g, x)[i], y)
}
pub open spec fn no_dups(s: Seq<Str>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub proof fn lemma_cut(g: Gr, d: Str, b: Str, r: Map<Str, bool>)
    requires anc(g, d, b), mget(r, d, false),
        forall|x: Str| #[trigger] mget(r, x, false) ==> reach(g, Set::empty().insert(b), d, x),
        forall|x: Str, i: int| mget(r, x, false) && x != b && 0 <= i < pars(g, x).len() ==> mget(r, #[trigger] pars(g, x)[i], false),
    ensures forall|x: Str| #[trigger] mget(r, x, false) == on_default(g, d, b, x)
{
    assert forall|x: Str, i: int| is_in(r)(x) && !Set::empty().insert(b).contains(x) && 0 <= i < pars(g, x).len() implies is_in(r)(#[trigger] pars(g, x)[i]) by { }
    lemma_reach_closed(g, Set::empty().insert(b), is_in(r), d);
    assert forall|x: Str| #[trigger] mget(r, x, false) == on_default(g, d, b, x) by {
        if on_default(g, d, b, x) { assert(reach(g, Set::empty().insert(b), d, x)); assert(is_in(r)(x)); }
    }
}
// what the walk from the branch head finds is the branch
pub proof fn lemma_branch(g: Gr, d: Str, b: Str, done: Map<Str, bool>, r: Map<Str, bool>, raw: Seq<Str>)
    requires
        forall|x: Str| #[trigger] mget(r, x, false) == on_default(g, d, b, x),
        mget(done, b, false),
        forall|x: Str| #[trigger] mget(done, x, false) ==> anc(g, b, x) && (x == b || !mget(r, x, false)),
        forall|x: Str, i: int| mget(done, x, false) && 0 <= i < pars(g, x).len() ==> mget(done, #[trigger] pars(g, x)[i], false) || mget(r, pars(g, x)[i], false),
        forall|x: Str, i: int| mget(done, x, false) && 0 <= i < pars(g, x).len() && mget(r, pars(g, x)[i], false) ==> raw.contains(#[trigger] pars(g, x)[i]),
        forall|y: Str| #[trigger] raw.contains(y) ==> mget(r, y, false) && exists|c: Str| #[trigger] mget(done, c, false) && pars(g, c).contains(y),
    ensures forall|x: Str| #[trigger] mget(done, x, false) == in_branch(g, d, b, x),
        forall|x: Str| #[trigger] raw.contains(x) <==> left_from(g, d, b, x),
        forall|x: Str| #[trigger] raw.contains(x) ==> anc(g, b, x),
{
    let s = in_either(done, r);
    lemma_anc_next(g, d);
    lemma_anc_next(g, b);
    lemma_reach_next(g, Set::empty().insert(b), d);
    assert forall|x: Str, i: int| s(x) && 0 <= i < pars(g, x).len() implies s(#[trigger] pars(g, x)[i]) by {
        if !mget(done, x, false) {
            assert(mget(r, x, false) && x != b);
            assert(on_default(g, d, b, x));
            if anc(g, d, b) { assert(reach(g, Set::empty().insert(b), d, x)); assert(reach(g, Set::empty().insert(b), d, pars(g, x)[i])); }
            else { assert(anc(g, d, x)); assert(anc(g, d, pars(g, x)[i])); }
            assert(on_default(g, d, b, pars(g, x)[i]));
            assert(mget(r, pars(g, x)[i], false));
        }
    }
    assert(is_closed(g, Set::empty(), s));
    lemma_reach_closed(g, Set::empty(), s, b);
    assert forall|x: Str| #[trigger] mget(done, x, false) == in_branch(g, d, b, x) by {
        if in_branch(g, d, b, x) && x != b {
            assert(reach(g, Set::empty(), b, x));
            assert(s(x));
            assert(mget(r, x, false) == on_default(g, d, b, x));
        }
        if mget(done, x, false) { assert(mget(r, x, false) == on_default(g, d, b, x)); }
    }
    assert forall|x: Str| #[trigger] raw.contains(x) <==> left_from(g, d, b, x) by {
        if raw.contains(x) {
            let c = choose|c: Str| #[trigger] mget(done, c, false) && pars(g, c).contains(x);
            assert(mget(done, c, false) && pars(g, c).contains(x));
            assert(in_branch(g, d, b, c));
            assert(mget(r, x, false) == on_default(g, d, b, x));
        }
        if left_from(g, d, b, x) {
            let c = choose|c: Str| #[trigger] in_branch(g, d, b, c) && pars(g, c).contains(x);
            assert(mget(done, c, false) == in_branch(g, d, b, c));
            let i = choose|i: int| 0 <= i < pars(g, c).len() && pars(g, c)[i] == x;
            assert(mget(r, x, false) == on_default(g, d, b, x));
            assert(raw.contains(pars(g, c)[i]));
        }
    }
    assert forall|x: Str| #[trigger] raw.contains(x) implies anc(g, b, x) by {
        let c = choose|c: Str| #[trigger] mget(done, c, false) && pars(g, c).contains(x);
        assert(mget(done, c, false));
        let i = choose|i: int| 0 <= i < pars(g, c).len() && pars(g, c)[i] == x;
        assert(anc(g, b, c));
        assert(anc(g, b, pars(g, c)[i]));
    }
}
pub proof fn lemma_push_contains(s: Seq<Str>, v: Str)
    ensures forall|x: Str| #[trigger] s.push(v).contains(x) <==> s.contains(x) || x == v
{
    assert forall|x: Str| #[trigger] s.push(v).contains(x) <==> s.contains(x) || x == v by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(v)[i] == x); }
        if x == v { assert(s.push(v)[s.len() as int] == v); }
        if s.push(v).contains(x) { let i = choose|i: int| 0 <= i < s.push(v).len() && s.push(v)[i] == x; if i < s.len() { assert(s[i] == x); } }
    }
}
pub proof fn lemma_cut_first(g: Gr, b: Str, a: Str, i: int)
    requires 0 <= i < pars(g, a).len(), a != b
    ensures pars(g, a)[i] == mget(g, a, Seq::<Str>::empty())[i],
        forall|x: Str| #[trigger] reach(g, Set::empty().insert(b), pars(g, a)[i], x) ==> reach(g, Set::empty().insert(b), a, x)
{ lemma_reach_first(g, Set::empty().insert(b), a, i); }
// one of the first k parents of x reaches one of a set
pub open spec fn parent_sees(g: Gr, c: Seq<Str>, x: Str, k: int) -> bool decreases k {
    0 < k && (parent_sees(g, c, x, k - 1) || sees(g, c, pars(g, x)[k - 1]))
}
pub proof fn lemma_parent_sees(g: Gr, c: Seq<Str>, x: Str, k: int)
    requires 0 <= k
    ensures parent_sees(g, c, x, k) <==> exists|i: int| 0 <= i < k && sees(g, c, #[trigger] pars(g, x)[i])
    decreases k
{ if k > 0 { lemma_parent_sees(g, c, x, k - 1); } }
pub proof fn lemma_sees(g: Gr, c: Seq<Str>, x: Str)
    ensures sees(g, c, x) == (c.contains(x) || parent_sees(g, c, x, pars(g, x).len() as int))
{
    let n = pars(g, x).len() as int;
    lemma_parent_sees(g, c, x, n);
    lemma_anc_refl(g, x);
    if parent_sees(g, c, x, n) {
        let i = choose|i: int| 0 <= i < n && sees(g, c, #[trigger] pars(g, x)[i]);
        let y = choose|y: Str| c.contains(y) && #[trigger] anc(g, pars(g, x)[i], y);
        lemma_anc_first(g, x, i);
        assert(anc(g, x, y));
    }
    if sees(g, c, x) {
        let y = choose|y: Str| c.contains(y) && #[trigger] anc(g, x, y);
        let p = choose|p: Seq<Str>| #[trigger] walk(g, Set::empty(), p) && p[0] == x && p.last() == y;
        if p.len() > 1 {
            let q = p.subrange(1, p.len() as int);
            assert(pars(g, p[0]).contains(p[0int + 1]));
            let i = choose|i: int| 0 <= i < pars(g, x).len() && pars(g, x)[i] == p[1];
            assert forall|j: int| 0 <= j < q.len() - 1 implies pars(g, #[trigger] q[j]).contains(q[j + 1]) by {
                assert(q[j] == p[j + 1]); assert(q[j + 1] == p[j + 1 + 1]);
            }
            assert(walk(g, Set::empty(), q));
            assert(q[0] == pars(g, x)[i] && q.last() == y);
            assert(reach(g, Set::empty(), pars(g, x)[i], y));
            assert(anc(g, pars(g, x)[i], y));
            assert(sees(g, c, pars(g, x)[i]));
        }
    }
}
pub proof fn lemma_all_in(g: Gr, m: Map<Str, bool>, a: Str)
    requires m.dom().contains(a), forall|x: Str, i: int| m.dom().contains(x) && 0 <= i < pars(g, x).len() ==> m.dom().contains(#[trigger] pars(g, x)[i])
    ensures forall|x: Str| #[trigger] anc(g, a, x) ==> m.dom().contains(x)
{
    let s = |x: Str| m.dom().contains(x);
    lemma_reach_closed(g, Set::empty(), s, a);
    assert forall|x: Str| #[trigger] anc(g, a, x) implies m.dom().contains(x) by { assert(reach(g, Set::empty(), a, x)); assert(s(x)); }
}
pub proof fn lemma_outermost(g: Gr, c: Seq<Str>, x: Str)
    requires c.contains(x)
    ensures outermost(g, c, x) == !parent_sees(g, c, x, pars(g, x).len() as int)
{ lemma_parent_sees(g, c, x, pars(g, x).len() as int); }
pub proof fn lemma_sorted_nodups(a: Seq<Str>, b: Seq<Str>)
    requires no_dups(a), seq_perm(a, b)
    ensures no_dups(b), forall|x: Str| #[trigger] b.contains(x) <==> a.contains(x)
{
    assert(a.to_multiset() == b.to_multiset());
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|x: Str| #[trigger] b.contains(x) <==> a.contains(x) by { assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
    assert(a.no_duplicates());
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
}
pub proof fn lemma_next_contains(s: Seq<Str>, k: int)
    requires 0 <= k < s.len()
    ensures forall|x: Str| #[trigger] s.subrange(0, k + 1).contains(x) <==> s.subrange(0, k).contains(x) || x == s[k]
{
    assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
    lemma_push_contains(s.subrange(0, k), s[k]);
}
pub proof fn lemma_push_nodups(s: Seq<Str>, v: Str)
    ensures no_dups(s) && !s.contains(v) ==> no_dups(s.push(v))
{
    if no_dups(s) && !s.contains(v) {
        assert forall|i: int, j: int| 0 <= i < j < s.push(v).len() implies #[trigger] s.push(v)[i] != #[trigger] s.push(v)[j] by {
            assert(s.contains(s[i]));
            if j < s.len() { assert(s[i] != s[j]); }
        }
    }
}
pub proof fn lemma_reversed(a: Seq<Str>, b: Seq<Str>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[b.len() - 1 - i]
    ensures forall|x: Str| #[trigger] b.contains(x) <==> a.contains(x), no_dups(a) ==> no_dups(b)
{
    assert forall|x: Str| #[trigger] b.contains(x) <==> a.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[b.len() - 1 - i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[b.len() - 1 - i] == x); }
    }
}
pub proof fn lemma_points(g: Gr, d: Str, b: Str, raw: Seq<Str>)
    requires forall|x: Str| #[trigger] raw.contains(x) <==> left_from(g, d, b, x)
    ensures forall|x: Str| #[trigger] outermost(g, raw, x) == branch_point(g, d, b, x)
{
    assert forall|x: Str| #[trigger] outermost(g, raw, x) == branch_point(g, d, b, x) by {
        assert(raw.contains(x) <==> left_from(g, d, b, x));
        if outermost(g, raw, x) {
            assert forall|i: int, y: Str| #![trigger pars(g, x)[i], left_from(g, d, b, y)] 0 <= i < pars(g, x).len() && left_from(g, d, b, y) implies !anc(g, pars(g, x)[i], y) by {
                assert(raw.contains(y)); assert(!sees(g, raw, pars(g, x)[i]));
            }
        }
        if branch_point(g, d, b, x) {
            assert forall|i: int| 0 <= i < pars(g, x).len() implies !sees(g, raw, #[trigger] pars(g, x)[i]) by {
                if sees(g, raw, pars(g, x)[i]) {
                    let y = choose|y: Str| raw.contains(y) && #[trigger] anc(g, pars(g, x)[i], y);
                    assert(raw.contains(y)); assert(left_from(g, d, b, y));
                }
            }
        }
    }
}
pub proof fn lemma_mget_insert<V>(m: Map<Str, V>, k: Str, v: V, d: V)
    ensures forall|x: Str| #[trigger] mget(m.insert(k, v), x, d) == if x == k { v } else { mget(m, x, d) }
{ }
pub proof fn lemma_mget_grow(m: Map<Str, bool>, k: Str)
    ensures forall|x: Str| #[trigger] mget(m, x, false) ==> mget(m.insert(k, true), x, false)
{ }
// ---- every history has a first commit
pub proof fn lemma_rank(g: Gr, rk: Map<Str, int>, p: Seq<Str>, n: int)
    requires ranked(g, rk), walk(g, Set::empty(), p), 0 <= n < p.len()
    ensures rk[p[n]] <= rk[p[0]]
    decreases n
{
    if n > 0 {
        lemma_rank(g, rk, p, n - 1);
        let w = p[n - 1];
        let i = choose|i: int| 0 <= i < pars(g, w).len() && pars(g, w)[i] == p[n - 1 + 1];
        assert(rk[pars(g, w)[i]] < rk[w]);
    }
}
pub proof fn lemma_anc_rank(g: Gr, rk: Map<Str, int>, a: Str, b: Str)
    requires ranked(g, rk), anc(g, a, b)
    ensures rk[b] <= rk[a]
{
    let p = choose|p: Seq<Str>| #[trigger] walk(g, Set::empty(), p) && p[0] == a && p.last() == b;
    lemma_rank(g, rk, p, p.len() - 1);
}
pub proof fn lemma_min_rank(rk: Map<Str, int>, c: Seq<Str>, n: int) -> (m: int)
    requires 0 < n <= c.len()
    ensures 0 <= m < n, forall|j: int| 0 <= j < n ==> rk[c[m]] <= rk[#[trigger] c[j]]
    decreases n
{
    if n == 1 { 0 } else { let m = lemma_min_rank(rk, c, n - 1); if rk[c[n - 1]] < rk[c[m]] { n - 1 } else { m } }
}
pub proof fn lemma_some_outermost(g: Gr, rk: Map<Str, int>, c: Seq<Str>)
    requires ranked(g, rk), c.len() > 0
    ensures exists|x: Str| c.contains(x) && #[trigger] outermost(g, c, x)
{
    let m = lemma_min_rank(rk, c, c.len() as int);
    let x = c[m];
    assert(c.contains(x));
    assert forall|i: int| 0 <= i < pars(g, x).len() implies !sees(g, c, #[trigger] pars(g, x)[i]) by {
        if sees(g, c, pars(g, x)[i]) {
            let y = choose|y: Str| c.contains(y) && #[trigger] anc(g, pars(g, x)[i], y);
            lemma_anc_rank(g, rk, pars(g, x)[i], y);
            let j = choose|j: int| 0 <= j < c.len() && c[j] == y;
            assert(rk[c[m]] <= rk[c[j]]);
        }
    }
    assert(outermost(g, c, x));
}
// the histories of d and b meet
pub open spec fn shares(g: Gr, d: Str, b: Str) -> bool { exists|x: Str| #[trigger] anc(g, b, x) && anc(g, d, x) }
pub proof fn lemma_first_shared(g: Gr, d: Str, b: Str, p: Seq<Str>, n: int)
    requires walk(g, Set::empty(), p), p[0] == b, 0 <= n < p.len(), anc(g, d, p[n]), !anc(g, d, b)
    ensures exists|y: Str| left_from(g, d, b, y)
    decreases n
{
    assert(n > 0);
    if anc(g, d, p[n - 1]) { lemma_first_shared(g, d, b, p, n - 1); }
    else {
        let q = p.subrange(0, n);
        assert forall|j: int| 0 <= j < q.len() - 1 implies pars(g, #[trigger] q[j]).contains(q[j + 1]) by { assert(q[j] == p[j]); assert(q[j + 1] == p[j + 1]); }
        assert(walk(g, Set::empty(), q) && q[0] == b && q.last() == p[n - 1]);
        assert(reach(g, Set::empty(), b, p[n - 1]));
        assert(in_branch(g, d, b, p[n - 1]));
        assert(pars(g, p[n - 1]).contains(p[n - 1 + 1]));
        assert(left_from(g, d, b, p[n]));
    }
}
pub proof fn lemma_shares(g: Gr, d: Str, b: Str, raw: Seq<Str>)
    requires shares(g, d, b), !anc(g, d, b), forall|x: Str| #[trigger] raw.contains(x) <==> left_from(g, d, b, x)
    ensures raw.len() > 0
{
    let x = choose|x: Str| #[trigger] anc(g, b, x) && anc(g, d, x);
    let p = choose|p: Seq<Str>| #[trigger] walk(g, Set::empty(), p) && p[0] == b && p.last() == x;
    lemma_first_shared(g, d, b, p, p.len() - 1);
    let y = choose|y: Str| left_from(g, d, b, y);
    assert(raw.contains(y));
}
// ---- names and ids
pub uninterp spec fn sha_hex(s: Str) -> Str;
pub open spec fn branch_id(name: Str, from: Seq<Str>) -> Str { sha_hex(if from.len() > 0 { name + from[0] } else { name }) }
pub proof fn lemma_branch_id(name: Str, from: Seq<Str>)
    ensures str_join(seq![name], @"") == name, from.len() > 0 ==> str_join(seq![name].push(from[0]), @"") == name + from[0]
{
    let s = seq![name].push(from[0]);
    assert(s.drop_last() =~= seq![name]);
    assert(name + @"" + from[0] =~= name + from[0]);
    assert(str_join(seq![name], @"") == name);
    assert(str_join(s, @"") == str_join(s.drop_last(), @"") + @"" + s.last());
}
pub open spec fn merge_commit_ok(g: Gr, d: Str, children: Seq<Str>, m: Str) -> bool {
    (children.contains(m) && anc(g, d, m)) || (m.len() == 0 && forall|i: int| 0 <= i < children.len() ==> !anc(g, d, #[trigger] children[i]))
}
pub proof fn lemma_all_marked(g: Gr, a: Str, done: Map<Str, bool>)
    requires forall|b: Str| #[trigger] reach(g, Set::empty(), a, b) ==> is_in(done)(b)
    ensures forall|b: Str| #[trigger] anc(g, a, b) ==> mget(done, b, false)
{
    assert forall|b: Str| #[trigger] anc(g, a, b) implies mget(done, b, false) by { assert(reach(g, Set::empty(), a, b)); assert(is_in(done)(b)); }
}
// ---- parents and children
pub open spec fn times(s: Seq<Str>, x: Str) -> nat { s.to_multiset().count(x) }
pub open spec fn kids(m: Map<Str, Seq<Str>>, x: Str) -> Seq<Str> { mget(m, x, Seq::<Str>::empty()) }
pub proof fn lemma_times()
    ensures forall|x: Str| #[trigger] times(Seq::<Str>::empty(), x) == 0,
        forall|s: Seq<Str>, v: Str, x: Str| #[trigger] times(s.push(v), x) == times(s, x) + if x == v { 1nat } else { 0nat },
        forall|m: Map<Str, Seq<Str>>, k: Str, v: Seq<Str>, x: Str| #[trigger] kids(m.insert(k, v), x) == if x == k { v } else { kids(m, x) },
        forall|s: Seq<Str>, x: Str| #[trigger] times(s.subrange(0, 0), x) == 0,
{
    Seq::<Str>::empty().to_multiset_ensures();
    assert(Seq::<Str>::empty().to_multiset() =~= vstd::multiset::Multiset::empty());
    assert forall|s: Seq<Str>, v: Str, x: Str| #[trigger] times(s.push(v), x) == times(s, x) + if x == v { 1nat } else { 0nat } by { s.to_multiset_ensures(); }
    assert forall|s: Seq<Str>, x: Str| #[trigger] times(s.subrange(0, 0), x) == 0 by { assert(s.subrange(0, 0) =~= Seq::<Str>::empty()); }
}
pub proof fn lemma_mget_key(m: Map<Str, Seq<Str>>, k: Str, v: Seq<Str>)
    requires !m.dom().contains(k)
    ensures forall|x: Str| #[trigger] kids(m.insert(k, v), x) == if x == k { v } else { kids(m, x) }
{ }
pub proof fn lemma_next_times(s: Seq<Str>, k: int)
    requires 0 <= k < s.len()
    ensures forall|x: Str| #[trigger] times(s.subrange(0, k + 1), x) == times(s.subrange(0, k), x) + if x == s[k] { 1nat } else { 0nat }
{
    lemma_times();
    assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
}
