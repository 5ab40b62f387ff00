// What a run reports and records for a commit, as a function of what is recorded for the commit's parents: contents only, no pointers.

pub ghost struct BC { pub by: Str, pub bin: bool, pub lines: Seq<LV> }
pub type FC = Map<Str, BC>;
pub type WC = Map<Str, FC>;
pub open spec fn bc(b: incblame_Blame) -> BC { BC { by: b.Commit, bin: b.IsBinary, lines: lvs(b.Lines) } }
pub open spec fn fc(m: Map<Str, Ptr<incblame_Blame>>) -> FC { Map::new(m.dom(), |f: Str| bc(m[f].v)) }
pub open spec fn wc(r: Map<Str, Map<Str, Ptr<incblame_Blame>>>) -> WC { Map::new(r.dom(), |c: Str| fc(r[c])) }
pub open spec fn ids_ok(m: Map<Str, Ptr<incblame_Blame>>) -> bool { forall|f: Str| #[trigger] m.dom().contains(f) ==> m[f].id != 0 }
pub open spec fn all_ids_ok(r: Map<Str, Map<Str, Ptr<incblame_Blame>>>) -> bool { forall|c: Str| #[trigger] r.dom().contains(c) ==> ids_ok(r[c]) }
pub open spec fn no_fc() -> FC { Map::<Str, BC>::empty() }

// what a file diff says (C06), and what applying it (C01, C02), merging files (C03) and git blame (C18) give: functions of their arguments
pub uninterp spec fn pd(c: Str) -> incblame_Diff;
pub uninterp spec fn applied(b: BC, d: incblame_Diff, commit: Str) -> BC;
pub uninterp spec fn merged(bs: Seq<BC>, ds: Seq<incblame_Diff>, commit: Str) -> BC;
pub uninterp spec fn blamed(dir: Str, commit: Str, file: Str) -> BC;

pub open spec fn goes(c: Str) -> bool { pd(c).Path == str_empty() }
pub open spec fn about(c: Str) -> Str { if goes(c) { pd(c).PathPrev } else { pd(c).Path } }
pub open spec fn ab(cs: Seq<parser_Change>, n: int, f: Str) -> int decreases n {
    if n <= 0 { -1 } else if about(cs[n - 1].Diff) == f { n - 1 } else { ab(cs, n - 1, f) }
}
pub open spec fn kp(cs: Seq<parser_Change>, n: int, f: Str) -> int decreases n {
    if n <= 0 { -1 } else if !goes(cs[n - 1].Diff) && pd(cs[n - 1].Diff).Path == f { n - 1 } else { kp(cs, n - 1, f) }
}
pub open spec fn empty_bc() -> BC { BC { by: str_empty(), bin: false, lines: Seq::<LV>::empty() } }
pub open spec fn had(c: Str, p: FC) -> bool { pd(c).PathPrev != str_empty() && p.dom().contains(pd(c).PathPrev) }
pub open spec fn upd(c: Str, p: FC, commit: Str, dir: Str) -> BC {
    let d = pd(c);
    if d.IsBinary { BC { by: commit, bin: true, lines: Seq::<LV>::empty() } }
    else if goes(c) { BC { by: commit, bin: false, lines: Seq::<LV>::empty() } }
    else if had(c, p) {
        let b = p[d.PathPrev];
        if b.bin { if d.Hunks.len() == 0 { b } else { blamed(dir, commit, d.Path) } } else { applied(b, d, commit) }
    } else { applied(empty_bc(), d, commit) }
}
// what is reported after the first n changes
pub open spec fn rep(cs: Seq<parser_Change>, n: int, p: FC, commit: Str, dir: Str, r: FC) -> bool {
    &&& forall|f: Str| #[trigger] r.dom().contains(f) <==> ab(cs, n, f) >= 0
    &&& forall|f: Str| #[trigger] r.dom().contains(f) ==> r[f] == upd(cs[ab(cs, n, f)].Diff, p, commit, dir)
}
// what is recorded after the first n changes, and the files of the parent done so far
pub open spec fn rcd(cs: Seq<parser_Change>, n: int, p: FC, done: Set<Str>, commit: Str, dir: Str, r: FC) -> bool {
    &&& forall|f: Str| #[trigger] r.dom().contains(f) <==> kp(cs, n, f) >= 0 || (done.contains(f) && ab(cs, n, f) < 0)
    &&& forall|f: Str| #[trigger] r.dom().contains(f) ==> r[f] == if kp(cs, n, f) >= 0 { upd(cs[kp(cs, n, f)].Diff, p, commit, dir) } else { p[f] }
}
pub proof fn lemma_ab(cs: Seq<parser_Change>, n: int, f: Str)
    requires 0 <= n <= cs.len()
    ensures ab(cs, n, f) < n, kp(cs, n, f) < n, ab(cs, n, f) >= -1, kp(cs, n, f) >= -1, kp(cs, n, f) >= 0 ==> ab(cs, n, f) >= 0,
    decreases n
{
    if n > 0 { lemma_ab(cs, n - 1, f); }
}
pub open spec fn par_fc(parents: Seq<Str>, w: WC) -> FC { if parents.len() == 0 { no_fc() } else { mget(w, parents[0], no_fc()) } }
pub proof fn lemma_fc()
    ensures forall|m: Map<Str, Ptr<incblame_Blame>>, f: Str, b: Ptr<incblame_Blame>| #[trigger] fc(m.insert(f, b)) == fc(m).insert(f, bc(b.v)),
        fc(Map::empty()) == no_fc(),
        lvs(Seq::<Ptr<incblame_Line>>::empty()) == Seq::<LV>::empty(),
        forall|r: Map<Str, Map<Str, Ptr<incblame_Blame>>>, c: Str| r.dom().contains(c) ==> #[trigger] wc(r)[c] == fc(r[c]),
{
    assert forall|m: Map<Str, Ptr<incblame_Blame>>, f: Str, b: Ptr<incblame_Blame>| #[trigger] fc(m.insert(f, b)) == fc(m).insert(f, bc(b.v)) by { assert(fc(m.insert(f, b)) =~= fc(m).insert(f, bc(b.v))); }
    assert(fc(Map::empty()) =~= no_fc());
    assert(lvs(Seq::<Ptr<incblame_Line>>::empty()) =~= Seq::<LV>::empty());
}
// the records of other commits
pub proof fn lemma_others(a: Map<Str, Map<Str, Ptr<incblame_Blame>>>, b: Map<Str, Map<Str, Ptr<incblame_Blame>>>, h: Str)
    requires a.remove(h) == b.remove(h)
    ensures forall|c: Str| c != h ==> #[trigger] a.dom().contains(c) == b.dom().contains(c), forall|c: Str| c != h && b.dom().contains(c) ==> a[c] == #[trigger] b[c],
{
    assert(a.remove(h).dom() =~= a.dom().remove(h)); assert(b.remove(h).dom() =~= b.dom().remove(h));
    assert forall|c: Str| c != h implies #[trigger] a.dom().contains(c) == b.dom().contains(c) by { assert(a.dom().remove(h).contains(c) == b.dom().remove(h).contains(c)); }
    assert forall|c: Str| c != h && b.dom().contains(c) implies a[c] == #[trigger] b[c] by { assert(a.remove(h)[c] == b.remove(h)[c]); }
}
pub type PartMap = Map<Str, parser_Commit>;
pub type DiffTable = Map<Str, Seq<Ptr<incblame_Diff>>>;
pub open spec fn del_prefix() -> Str { @"@@@del@@@" }
pub open spec fn kept_key(k: Str) -> bool { !starts_with(k, del_prefix()) }
// the key under which a diff is collected: removals apart from the rest
pub open spec fn mkey(c: Str) -> Str { if goes(c) { del_prefix() + pd(c).PathPrev } else { pd(c).Path } }
// last of the first n changes with a key; -1 if there is none
pub open spec fn lk(cs: Seq<parser_Change>, n: int, key: Str) -> int decreases n {
    if n <= 0 { -1 } else if mkey(cs[n - 1].Diff) == key { n - 1 } else { lk(cs, n - 1, key) }
}
pub open spec fn part(parts: PartMap, q: Str) -> Seq<parser_Change> { if parts.dom().contains(q) { parts[q].Changes } else { Seq::<parser_Change>::empty() } }
// the change against parent j under a key; -1 if there is none
pub open spec fn cd(parts: PartMap, ph: Seq<Str>, key: Str, j: int) -> int { lk(part(parts, ph[j]), part(parts, ph[j]).len() as int, key) }
pub open spec fn dd(parts: PartMap, ph: Seq<Str>, key: Str, j: int) -> incblame_Diff { pd(part(parts, ph[j])[cd(parts, ph, key, j)].Diff) }
pub open spec fn has_any(parts: PartMap, ph: Seq<Str>, key: Str) -> bool { exists|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, key, j) >= 0 }
pub open spec fn all_have(parts: PartMap, ph: Seq<Str>, key: Str) -> bool { forall|j: int| 0 <= j < ph.len() ==> #[trigger] cd(parts, ph, key, j) >= 0 }
// how many of the changes against parent q have been collected
pub open spec fn cnt(parts: PartMap, q: Str, done: Set<Str>, cur: Str, k: int) -> int {
    if done.contains(q) { part(parts, q).len() as int } else if q == cur { k } else { 0 }
}
pub open spec fn slot_is(p: Ptr<incblame_Diff>, cs: Seq<parser_Change>, n: int, key: Str) -> bool {
    if lk(cs, n, key) < 0 { p.id == 0 } else { p.id != 0 && p.v == pd(cs[lk(cs, n, key)].Diff) }
}
pub open spec fn some_have(parts: PartMap, ph: Seq<Str>, done: Set<Str>, cur: Str, k: int, key: Str) -> bool {
    exists|j: int| 0 <= j < ph.len() && lk(part(parts, #[trigger] ph[j]), cnt(parts, ph[j], done, cur, k), key) >= 0
}
pub open spec fn table(d: DiffTable, parts: PartMap, ph: Seq<Str>, done: Set<Str>, cur: Str, k: int) -> bool {
    &&& forall|key: Str| #[trigger] d.dom().contains(key) <==> some_have(parts, ph, done, cur, k, key)
    &&& forall|key: Str| #[trigger] d.dom().contains(key) ==> d[key].len() == ph.len()
    &&& forall|key: Str, j: int| d.dom().contains(key) && 0 <= j < ph.len() ==> slot_is(#[trigger] d[key][j], part(parts, ph[j]), cnt(parts, ph[j], done, cur, k), key)
}
// the complete table
pub open spec fn full_table(d: DiffTable, parts: PartMap, ph: Seq<Str>) -> bool {
    &&& forall|key: Str| #[trigger] d.dom().contains(key) <==> has_any(parts, ph, key)
    &&& forall|key: Str| #[trigger] d.dom().contains(key) ==> d[key].len() == ph.len()
    &&& forall|key: Str, j: int| d.dom().contains(key) && 0 <= j < ph.len() ==> if cd(parts, ph, key, j) < 0 { (#[trigger] d[key][j]).id == 0 } else { d[key][j].id != 0 && d[key][j].v == dd(parts, ph, key, j) }
}
pub proof fn lemma_full(d: DiffTable, parts: PartMap, ph: Seq<Str>, done: Set<Str>, cur: Str, k: int)
    requires table(d, parts, ph, done, cur, k), forall|q: Str| #[trigger] done.contains(q) <==> parts.dom().contains(q), !parts.dom().contains(cur) || done.contains(cur), k == 0
    ensures full_table(d, parts, ph)
{
    assert forall|q: Str| #[trigger] cnt(parts, q, done, cur, k) == part(parts, q).len() by { }
    assert forall|key: Str| #[trigger] d.dom().contains(key) <==> has_any(parts, ph, key) by {
        if d.dom().contains(key) {
            let j = choose|j: int| 0 <= j < ph.len() && lk(part(parts, #[trigger] ph[j]), cnt(parts, ph[j], done, cur, k), key) >= 0;
            assert(cd(parts, ph, key, j) >= 0);
        }
        if has_any(parts, ph, key) {
            let j = choose|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, key, j) >= 0;
            assert(lk(part(parts, ph[j]), cnt(parts, ph[j], done, cur, k), key) >= 0);
        }
    }
    assert forall|key: Str, j: int| d.dom().contains(key) && 0 <= j < ph.len() implies if cd(parts, ph, key, j) < 0 { (#[trigger] d[key][j]).id == 0 } else { d[key][j].id != 0 && d[key][j].v == dd(parts, ph, key, j) } by {
        assert(slot_is(d[key][j], part(parts, ph[j]), cnt(parts, ph[j], done, cur, k), key));
    }
}
pub proof fn lemma_lk(cs: Seq<parser_Change>, n: int, key: Str)
    requires 0 <= n <= cs.len()
    ensures lk(cs, n, key) < n, lk(cs, n, key) >= -1, lk(cs, n, key) >= 0 ==> mkey(cs[lk(cs, n, key)].Diff) == key
    decreases n
{
    if n > 0 { lemma_lk(cs, n - 1, key); }
}
pub proof fn lemma_del(f: Str)
    ensures !kept_key(del_prefix() + f), (del_prefix() + f).subrange(9, 9 + f.len() as int) == f, del_prefix().len() == 9
{
    @facts"@@@del@@@";
    assert((del_prefix() + f).subrange(0, 9) =~= del_prefix());
    assert((del_prefix() + f).subrange(9, 9 + f.len() as int) =~= f);
}
pub proof fn lemma_del_all()
    ensures forall|f: Str| !kept_key(#[trigger] (del_prefix() + f)) && (del_prefix() + f).subrange(9, 9 + f.len() as int) == f
{
    assert forall|f: Str| !kept_key(#[trigger] (del_prefix() + f)) && (del_prefix() + f).subrange(9, 9 + f.len() as int) == f by { lemma_del(f); }
}

pub open spec fn pfc(w: WC, ph: Seq<Str>, j: int) -> FC { mget(w, ph[j], no_fc()) }
pub open spec fn bin_at(parts: PartMap, ph: Seq<Str>, w: WC, f: Str, j: int) -> bool {
    cd(parts, ph, f, j) >= 0 && (dd(parts, ph, f, j).IsBinary || (dd(parts, ph, f, j).PathPrev != str_empty() && pfc(w, ph, j)[dd(parts, ph, f, j).PathPrev].bin))
}
pub open spec fn any_bin(parts: PartMap, ph: Seq<Str>, w: WC, f: Str) -> bool { exists|j: int| 0 <= j < ph.len() && #[trigger] bin_at(parts, ph, w, f, j) }
// parent j has the file just so
pub open spec fn same_at(parts: PartMap, ph: Seq<Str>, w: WC, f: Str, j: int) -> bool { cd(parts, ph, f, j) < 0 && pfc(w, ph, j).dom().contains(f) }
pub open spec fn first_same(parts: PartMap, ph: Seq<Str>, w: WC, f: Str, n: int) -> int decreases n {
    if n <= 0 { -1 } else if first_same(parts, ph, w, f, n - 1) >= 0 { first_same(parts, ph, w, f, n - 1) } else if same_at(parts, ph, w, f, n - 1) { n - 1 } else { -1 }
}
pub open spec fn prev_bc(parts: PartMap, ph: Seq<Str>, w: WC, f: Str, j: int) -> BC {
    if dd(parts, ph, f, j).PathPrev == str_empty() { empty_bc() } else { pfc(w, ph, j)[dd(parts, ph, f, j).PathPrev] }
}
pub open spec fn prevs(parts: PartMap, ph: Seq<Str>, w: WC, f: Str) -> Seq<BC> { Seq::new(ph.len(), |j: int| prev_bc(parts, ph, w, f, j)) }
pub open spec fn dds(parts: PartMap, ph: Seq<Str>, f: Str) -> Seq<incblame_Diff> { Seq::new(ph.len(), |j: int| dd(parts, ph, f, j)) }
pub open spec fn mval(parts: PartMap, ph: Seq<Str>, w: WC, commit: Str, f: Str) -> BC {
    if any_bin(parts, ph, w, f) { BC { by: commit, bin: true, lines: Seq::<LV>::empty() } }
    else if first_same(parts, ph, w, f, ph.len() as int) >= 0 { pfc(w, ph, first_same(parts, ph, w, f, ph.len() as int))[f] }
    else { merged(prevs(parts, ph, w, f), dds(parts, ph, f), commit) }
}
pub open spec fn hk(parts: PartMap, ph: Seq<Str>, f: Str) -> bool { kept_key(f) && has_any(parts, ph, f) }
pub open spec fn last_with(ph: Seq<Str>, w: WC, f: Str, n: int) -> int decreases n {
    if n <= 0 { -1 } else if pfc(w, ph, n - 1).dom().contains(f) { n - 1 } else { last_with(ph, w, f, n - 1) }
}
pub open spec fn mshown(parts: PartMap, ph: Seq<Str>, w: WC, f: Str) -> bool { kept_key(f) && (any_bin(parts, ph, w, f) || first_same(parts, ph, w, f, ph.len() as int) < 0) }
// what is reported for the merge with the keys done
pub open spec fn mrep(parts: PartMap, ph: Seq<Str>, w: WC, commit: Str, done: Set<Str>, r: FC) -> bool {
    &&& forall|f: Str| #[trigger] r.dom().contains(f) <==> (done.contains(f) && mshown(parts, ph, w, f)) || (done.contains(del_prefix() + f) && !has_any(parts, ph, f))
    &&& forall|f: Str| #[trigger] r.dom().contains(f) ==> r[f] == if hk(parts, ph, f) { mval(parts, ph, w, commit, f) } else { BC { by: commit, bin: false, lines: Seq::<LV>::empty() } }
}
// what is recorded for the merge with the keys done and those files of the parents done
pub open spec fn mrcd(parts: PartMap, ph: Seq<Str>, w: WC, commit: Str, done: Set<Str>, files: Set<Str>, r: FC) -> bool {
    &&& forall|f: Str| #[trigger] r.dom().contains(f) <==> (done.contains(f) && kept_key(f)) || files.contains(f)
    &&& forall|f: Str| #[trigger] r.dom().contains(f) ==> r[f] == if hk(parts, ph, f) { mval(parts, ph, w, commit, f) } else { pfc(w, ph, last_with(ph, w, f, ph.len() as int))[f] }
}
// the log lists a merge once against each of its parents; no file name starts with the prefix
pub open spec fn parts_ok(parts: PartMap, ph: Seq<Str>, commit: Str) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ph.len() ==> ph[i] != ph[j]
    &&& forall|j: int| 0 <= j < ph.len() ==> #[trigger] ph[j] != commit
    &&& forall|q: Str| #[trigger] parts.dom().contains(q) ==> ph.contains(q)
    &&& forall|j: int, i: int| 0 <= j < ph.len() && 0 <= i < part(parts, ph[j]).len() ==> kept_key(pd((#[trigger] part(parts, ph[j])[i]).Diff).Path)
}
// what the table says about one key
pub proof fn lemma_row(d: Seq<Ptr<incblame_Diff>>, t: DiffTable, parts: PartMap, ph: Seq<Str>, commit: Str, k: Str)
    requires full_table(t, parts, ph), t.dom().contains(k), d == t[k], parts_ok(parts, ph, commit)
    ensures d.len() == ph.len(), has_any(parts, ph, k),
        forall|j: int| 0 <= j < d.len() ==> ((#[trigger] d[j]).id == 0 <==> cd(parts, ph, k, j) < 0) && (d[j].id != 0 ==> d[j].v == dd(parts, ph, k, j)),
        forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0 ==> if kept_key(k) { d[j].v.Path == k && k != str_empty() } else { d[j].v.Path == str_empty() && k == del_prefix() + d[j].v.PathPrev },
        exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0,
{
    assert forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0 implies (if kept_key(k) { d[j].v.Path == k && k != str_empty() } else { d[j].v.Path == str_empty() && k == del_prefix() + d[j].v.PathPrev }) by {
        assert(t[k][j] == d[j]);
        let cs = part(parts, ph[j]);
        lemma_lk(cs, cs.len() as int, k);
        let i = lk(cs, cs.len() as int, k);
        assert(cd(parts, ph, k, j) == i);
        assert(kept_key(pd(cs[i].Diff).Path));
        lemma_del(pd(cs[i].Diff).PathPrev);
    }
    assert(has_any(parts, ph, k));
    let j = choose|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, k, j) >= 0;
    assert(t[k][j].id != 0);
    assert(d[j].id != 0);
    assert forall|j: int| 0 <= j < d.len() implies ((#[trigger] d[j]).id == 0 <==> cd(parts, ph, k, j) < 0) && (d[j].id != 0 ==> d[j].v == dd(parts, ph, k, j)) by { assert(t[k][j] == d[j]); }
}
pub proof fn lemma_bin(d: Seq<Ptr<incblame_Diff>>, parts: PartMap, ph: Seq<Str>, w: WC, k: Str)
    requires d.len() == ph.len(), forall|j: int| 0 <= j < d.len() ==> ((#[trigger] d[j]).id == 0 <==> cd(parts, ph, k, j) < 0) && (d[j].id != 0 ==> d[j].v == dd(parts, ph, k, j))
    ensures any_bin(parts, ph, w, k) <==> (exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.IsBinary)
        || (exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.PathPrev != str_empty() && pfc(w, ph, i)[d[i].v.PathPrev].bin)
{
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] bin_at(parts, ph, w, k, i) <==> d[i].id != 0 && (d[i].v.IsBinary || d[i].v.PathPrev != str_empty() && pfc(w, ph, i)[d[i].v.PathPrev].bin)) by { let x = d[i]; }
    if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.IsBinary {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.IsBinary; assert(bin_at(parts, ph, w, k, i));
    }
    if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.PathPrev != str_empty() && pfc(w, ph, i)[d[i].v.PathPrev].bin {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.PathPrev != str_empty() && pfc(w, ph, i)[d[i].v.PathPrev].bin; assert(bin_at(parts, ph, w, k, i));
    }
}
pub proof fn lemma_last_with(ph: Seq<Str>, w: WC, f: Str, n: int)
    requires 0 <= n <= ph.len()
    ensures -1 <= last_with(ph, w, f, n) < n, last_with(ph, w, f, n) >= 0 ==> pfc(w, ph, last_with(ph, w, f, n)).dom().contains(f),
        last_with(ph, w, f, n) >= 0 <==> in_par(ph, w, f, n),
    decreases n
{
    if n > 0 {
        lemma_last_with(ph, w, f, n - 1);
        if in_par(ph, w, f, n) { let j = choose|j: int| 0 <= j < n && (#[trigger] pfc(w, ph, j)).dom().contains(f); if j < n - 1 { assert(in_par(ph, w, f, n - 1)); } }
        if in_par(ph, w, f, n - 1) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] pfc(w, ph, j)).dom().contains(f); assert(in_par(ph, w, f, n)); }
        if pfc(w, ph, n - 1).dom().contains(f) { assert(in_par(ph, w, f, n)); }
    }
}
pub open spec fn in_par(ph: Seq<Str>, w: WC, f: Str, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] pfc(w, ph, j)).dom().contains(f) }
pub proof fn lemma_first_same(parts: PartMap, ph: Seq<Str>, w: WC, f: Str, n: int)
    requires 0 <= n <= ph.len()
    ensures -1 <= first_same(parts, ph, w, f, n) < n,
        first_same(parts, ph, w, f, n) >= 0 ==> same_at(parts, ph, w, f, first_same(parts, ph, w, f, n)),
        first_same(parts, ph, w, f, n) < 0 ==> forall|j: int| 0 <= j < n ==> !#[trigger] same_at(parts, ph, w, f, j),
        forall|m: int| n <= m <= ph.len() && first_same(parts, ph, w, f, n) >= 0 ==> #[trigger] first_same(parts, ph, w, f, m) == first_same(parts, ph, w, f, n),
    decreases n
{
    if n > 0 { lemma_first_same(parts, ph, w, f, n - 1); }
    if first_same(parts, ph, w, f, n) >= 0 { lemma_first_stays(parts, ph, w, f, n, ph.len() as int); }
}
pub proof fn lemma_first_stays(parts: PartMap, ph: Seq<Str>, w: WC, f: Str, n: int, m: int)
    requires 0 <= n <= m, first_same(parts, ph, w, f, n) >= 0
    ensures forall|i: int| n <= i <= m ==> #[trigger] first_same(parts, ph, w, f, i) == first_same(parts, ph, w, f, n)
    decreases m
{
    if m > n {
        lemma_first_stays(parts, ph, w, f, n, m - 1);
        assert(first_same(parts, ph, w, f, m - 1) == first_same(parts, ph, w, f, n));
        assert(first_same(parts, ph, w, f, m) == first_same(parts, ph, w, f, n));
    }
}

pub open spec fn mrep_all(parts: PartMap, ph: Seq<Str>, w: WC, commit: Str, r: FC) -> bool {
    &&& forall|f: Str| #[trigger] r.dom().contains(f) <==> (has_any(parts, ph, f) && mshown(parts, ph, w, f)) || (has_any(parts, ph, del_prefix() + f) && !has_any(parts, ph, f))
    &&& forall|f: Str| #[trigger] r.dom().contains(f) ==> r[f] == if hk(parts, ph, f) { mval(parts, ph, w, commit, f) } else { BC { by: commit, bin: false, lines: Seq::<LV>::empty() } }
}
pub open spec fn mrcd_all(parts: PartMap, ph: Seq<Str>, w: WC, commit: Str, r: FC) -> bool {
    &&& forall|f: Str| #[trigger] r.dom().contains(f) <==> hk(parts, ph, f) || in_par(ph, w, f, ph.len() as int)
    &&& forall|f: Str| #[trigger] r.dom().contains(f) ==> r[f] == if hk(parts, ph, f) { mval(parts, ph, w, commit, f) } else { pfc(w, ph, last_with(ph, w, f, ph.len() as int))[f] }
}
pub proof fn lemma_in_par(ph: Seq<Str>, w: WC, n: int)
    requires 0 <= n < ph.len()
    ensures forall|f: Str| #[trigger] in_par(ph, w, f, n + 1) <==> in_par(ph, w, f, n) || pfc(w, ph, n).dom().contains(f),
        forall|f: Str| !in_par(ph, w, f, 0),
{
    assert forall|f: Str| #[trigger] in_par(ph, w, f, n + 1) <==> in_par(ph, w, f, n) || pfc(w, ph, n).dom().contains(f) by {
        if in_par(ph, w, f, n + 1) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] pfc(w, ph, j)).dom().contains(f); if j < n { assert(in_par(ph, w, f, n)); } }
        if in_par(ph, w, f, n) { let j = choose|j: int| 0 <= j < n && (#[trigger] pfc(w, ph, j)).dom().contains(f); assert(in_par(ph, w, f, n + 1)); }
        if pfc(w, ph, n).dom().contains(f) { assert(in_par(ph, w, f, n + 1)); }
    }
}

// ---- the whole history
// the parents git gives for a commit, what its log shows for a commit with at most one parent and for a merge, and what processing everything from the start records for each commit.
// Nothing is assumed about these but what log_says, known_graph say: everything holds whatever they are.
pub uninterp spec fn gp() -> Map<Str, Seq<Str>>;
pub uninterp spec fn shown_for(c: Str) -> Seq<parser_Change>;
pub uninterp spec fn shown_for_merge(c: Str) -> PartMap;
pub uninterp spec fn hist() -> WC;
pub uninterp spec fn rdir() -> Str;
pub open spec fn pars_of(c: Str) -> Seq<Str> { mget(gp(), c, Seq::<Str>::empty()) }
pub open spec fn is_merge(c: Str) -> bool { pars_of(c).len() > 1 }
// what is recorded for c in the full history follows from what is recorded there for its parents
pub open spec fn follows(c: Str) -> bool {
    if is_merge(c) { parts_ok(shown_for_merge(c), pars_of(c), c) && mrcd_all(shown_for_merge(c), pars_of(c), hist(), c, mget(hist(), c, no_fc())) }
    else { let p = par_fc(pars_of(c), hist()); (pars_of(c).len() > 0 ==> pars_of(c)[0] != c) && rcd(shown_for(c), shown_for(c).len() as int, p, p.dom(), c, rdir(), mget(hist(), c, no_fc())) }
}
// r reports for its commit what follows from the full history
pub open spec fn says(r: process_Result) -> bool {
    if is_merge(r.Commit) { mrep_all(shown_for_merge(r.Commit), pars_of(r.Commit), hist(), r.Commit, fc(r.Files)) }
    else { rep(shown_for(r.Commit), shown_for(r.Commit).len() as int, par_fc(pars_of(r.Commit), hist()), r.Commit, rdir(), fc(r.Files)) }
}
pub open spec fn all_say(rs: Seq<process_Result>) -> bool { forall|i: int| 0 <= i < rs.len() ==> says(#[trigger] rs[i]) }
// what is kept is what the full history has
pub open spec fn agrees(r: Map<Str, Map<Str, Ptr<incblame_Blame>>>) -> bool {
    all_ids_ok(r) && forall|c: Str| #[trigger] r.dom().contains(c) ==> hist().dom().contains(c) && fc(r[c]) == hist()[c]
}
// the entry as it is handed to processCommit
pub open spec fn entry_of(e: parser_Commit) -> parser_Commit { parser_Commit { Parents: pars_of(e.Hash), ..e } }
// the parts of the merge the first n entries end with
pub open spec fn run_of(l: Seq<parser_Commit>, n: int) -> PartMap decreases n {
    if n <= 0 { Map::<Str, parser_Commit>::empty() }
    else if n > 1 && l[n - 2].Hash == l[n - 1].Hash { run_of(l, n - 1).insert(l[n - 1].MergeDiffFrom, entry_of(l[n - 1])) }
    else { Map::<Str, parser_Commit>::empty().insert(l[n - 1].MergeDiffFrom, entry_of(l[n - 1])) }
}
// git's log shows the same for a commit whatever range it is asked for, a merge in consecutive entries
pub open spec fn log_says(l: Seq<parser_Commit>, whole: bool) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> follows((#[trigger] l[i]).Hash) && hist().dom().contains(l[i].Hash) && (!is_merge(l[i].Hash) ==> l[i].Changes == shown_for(l[i].Hash))
    &&& forall|n: int| 0 < n <= l.len() && is_merge(l[n - 1].Hash) && (if n < l.len() { l[n].Hash != l[n - 1].Hash } else { whole }) ==> #[trigger] run_of(l, n) == shown_for_merge(l[n - 1].Hash)
}
pub type RM = Map<Str, Map<Str, Ptr<incblame_Blame>>>;
// a commit the history follows, recorded from the kept parents, is as in the full history
pub proof fn lemma_agree(a: RM, b: RM, c: Str)
    requires agrees(a), all_ids_ok(b), b.remove(c) =~= a.remove(c), b.dom().contains(c) ==> hist().dom().contains(c) && fc(b[c]) == hist()[c]
    ensures agrees(b)
{
    lemma_others(a, b, c);
    assert forall|x: Str| #[trigger] b.dom().contains(x) implies hist().dom().contains(x) && fc(b[x]) == hist()[x] by { if x != c { assert(a.dom().contains(x)); assert(a[x] == b[x]); } }
}
pub proof fn lemma_sub(a: RM, b: RM)
    requires agrees(a), forall|c: Str| #[trigger] b.dom().contains(c) ==> a.dom().contains(c) && b[c] == a[c]
    ensures agrees(b)
{
}
pub proof fn lemma_rcd_same(cs: Seq<parser_Change>, p: FC, c: Str, r1: FC, r2: FC)
    requires rcd(cs, cs.len() as int, p, p.dom(), c, rdir(), r1), rcd(cs, cs.len() as int, p, p.dom(), c, rdir(), r2)
    ensures r1 == r2
{
    assert(r1.dom() =~= r2.dom());
    assert(r1 =~= r2);
}
pub proof fn lemma_mrcd_same(parts: PartMap, ph: Seq<Str>, w: WC, c: Str, r1: FC, r2: FC)
    requires mrcd_all(parts, ph, w, c, r1), mrcd_all(parts, ph, w, c, r2)
    ensures r1 == r2
{
    assert(r1.dom() =~= r2.dom());
    assert(r1 =~= r2);
}
// a commit whose parents are all kept
pub proof fn lemma_wpars(a: RM, c: Str)
    requires agrees(a), forall|j: int| 0 <= j < pars_of(c).len() ==> a.dom().contains(#[trigger] pars_of(c)[j])
    ensures forall|j: int| 0 <= j < pars_of(c).len() ==> #[trigger] pfc(wc(a), pars_of(c), j) == pfc(hist(), pars_of(c), j),
        pars_of(c).len() > 0 ==> par_fc(pars_of(c), wc(a)) == par_fc(pars_of(c), hist()),
{
    lemma_fc();
    assert forall|j: int| 0 <= j < pars_of(c).len() implies #[trigger] pfc(wc(a), pars_of(c), j) == pfc(hist(), pars_of(c), j) by { assert(a.dom().contains(pars_of(c)[j])); assert(wc(a).dom().contains(pars_of(c)[j])); assert(wc(a)[pars_of(c)[j]] == fc(a[pars_of(c)[j]])); }
    if pars_of(c).len() > 0 { assert(pfc(wc(a), pars_of(c), 0) == pfc(hist(), pars_of(c), 0)); }
}
// equal records of the parents give equal records of the merge
pub proof fn lemma_w(parts: PartMap, ph: Seq<Str>, w: WC, v: WC, c: Str)
    requires forall|j: int| 0 <= j < ph.len() ==> #[trigger] pfc(w, ph, j) == pfc(v, ph, j)
    ensures forall|r: FC| #[trigger] mrep_all(parts, ph, w, c, r) == mrep_all(parts, ph, v, c, r), forall|r: FC| #[trigger] mrcd_all(parts, ph, w, c, r) == mrcd_all(parts, ph, v, c, r),
{
    assert forall|f: Str| #[trigger] any_bin(parts, ph, w, f) == any_bin(parts, ph, v, f) by {
        assert forall|j: int| 0 <= j < ph.len() implies #[trigger] bin_at(parts, ph, w, f, j) == bin_at(parts, ph, v, f, j) by { let x = pfc(w, ph, j); }
        if any_bin(parts, ph, w, f) { let j = choose|j: int| 0 <= j < ph.len() && #[trigger] bin_at(parts, ph, w, f, j); assert(bin_at(parts, ph, v, f, j)); }
        if any_bin(parts, ph, v, f) { let j = choose|j: int| 0 <= j < ph.len() && #[trigger] bin_at(parts, ph, v, f, j); assert(bin_at(parts, ph, w, f, j)); }
    }
    assert forall|f: Str| #[trigger] first_same(parts, ph, w, f, ph.len() as int) == first_same(parts, ph, v, f, ph.len() as int) by { lemma_w_first(parts, ph, w, v, f, ph.len() as int); }
    assert forall|f: Str| #[trigger] last_with(ph, w, f, ph.len() as int) == last_with(ph, v, f, ph.len() as int) by { lemma_w_last(ph, w, v, f, ph.len() as int); }
    assert forall|f: Str| #[trigger] prevs(parts, ph, w, f) == prevs(parts, ph, v, f) by {
        assert forall|j: int| 0 <= j < ph.len() implies prev_bc(parts, ph, w, f, j) == prev_bc(parts, ph, v, f, j) by { let x = pfc(w, ph, j); }
        assert(prevs(parts, ph, w, f) =~= prevs(parts, ph, v, f));
    }
    assert forall|f: Str| #[trigger] mval(parts, ph, w, c, f) == mval(parts, ph, v, c, f) by {
        let n = first_same(parts, ph, w, f, ph.len() as int);
        lemma_first_same(parts, ph, w, f, ph.len() as int);
        if n >= 0 { let x = pfc(w, ph, n); }
    }
    assert forall|f: Str| #[trigger] mshown(parts, ph, w, f) == mshown(parts, ph, v, f) by {}
    assert forall|f: Str| #[trigger] in_par(ph, w, f, ph.len() as int) == in_par(ph, v, f, ph.len() as int) by {
        lemma_last_with(ph, w, f, ph.len() as int); lemma_last_with(ph, v, f, ph.len() as int);
    }
    assert forall|r: FC| #[trigger] mrep_all(parts, ph, w, c, r) == mrep_all(parts, ph, v, c, r) by { lemma_w_rep(parts, ph, w, v, c, r); }
    assert forall|r: FC| #[trigger] mrcd_all(parts, ph, w, c, r) == mrcd_all(parts, ph, v, c, r) by { lemma_w_rcd(parts, ph, w, v, c, r); }
}
pub open spec fn same_parts(parts: PartMap, ph: Seq<Str>, w: WC, v: WC, c: Str) -> bool {
    &&& forall|j: int| 0 <= j < ph.len() ==> #[trigger] pfc(w, ph, j) == pfc(v, ph, j)
    &&& forall|f: Str| #[trigger] mval(parts, ph, w, c, f) == mval(parts, ph, v, c, f)
    &&& forall|f: Str| #[trigger] mshown(parts, ph, w, f) == mshown(parts, ph, v, f)
    &&& forall|f: Str| #[trigger] in_par(ph, w, f, ph.len() as int) == in_par(ph, v, f, ph.len() as int)
    &&& forall|f: Str| #[trigger] last_with(ph, w, f, ph.len() as int) == last_with(ph, v, f, ph.len() as int)
}
pub proof fn lemma_w_rep(parts: PartMap, ph: Seq<Str>, w: WC, v: WC, c: Str, r: FC)
    requires same_parts(parts, ph, w, v, c)
    ensures mrep_all(parts, ph, w, c, r) == mrep_all(parts, ph, v, c, r)
{
}
pub proof fn lemma_w_rcd(parts: PartMap, ph: Seq<Str>, w: WC, v: WC, c: Str, r: FC)
    requires same_parts(parts, ph, w, v, c)
    ensures mrcd_all(parts, ph, w, c, r) == mrcd_all(parts, ph, v, c, r)
{
    assert forall|f: Str| in_par(ph, w, f, ph.len() as int) implies pfc(w, ph, last_with(ph, w, f, ph.len() as int)) == #[trigger] pfc(v, ph, last_with(ph, w, f, ph.len() as int)) by {
        lemma_last_with(ph, w, f, ph.len() as int);
        let x = pfc(w, ph, last_with(ph, w, f, ph.len() as int));
    }
}
pub proof fn lemma_w_first(parts: PartMap, ph: Seq<Str>, w: WC, v: WC, f: Str, n: int)
    requires forall|j: int| 0 <= j < ph.len() ==> #[trigger] pfc(w, ph, j) == pfc(v, ph, j), 0 <= n <= ph.len()
    ensures first_same(parts, ph, w, f, n) == first_same(parts, ph, v, f, n)
    decreases n
{
    if n > 0 { lemma_w_first(parts, ph, w, v, f, n - 1); let x = pfc(w, ph, n - 1); }
}
pub proof fn lemma_w_last(ph: Seq<Str>, w: WC, v: WC, f: Str, n: int)
    requires forall|j: int| 0 <= j < ph.len() ==> #[trigger] pfc(w, ph, j) == pfc(v, ph, j), 0 <= n <= ph.len()
    ensures last_with(ph, w, f, n) == last_with(ph, v, f, n)
    decreases n
{
    if n > 0 { lemma_w_last(ph, w, v, f, n - 1); let x = pfc(w, ph, n - 1); }
}
// the property: two runs, each from a checkpoint (or nothing) that agrees with the full history, report the same for a commit
pub proof fn lemma_same_report(r1: process_Result, r2: process_Result)
    requires says(r1), says(r2), r1.Commit == r2.Commit
    ensures fc(r1.Files) == fc(r2.Files)
{
    assert(fc(r1.Files).dom() =~= fc(r2.Files).dom());
    assert(fc(r1.Files) =~= fc(r2.Files));
}
// the commands
pub uninterp spec fn patch_log(cmd: Str, dir: Str, opts: process_Opts) -> Rd;
pub open spec fn patch_flags(tmp: Str) -> Seq<Str> {
    seq![@"-c", @"core.attributesFile=" + tmp, @"-c", @"diff.renameLimit=10000", @"log", @"-p", @"-m", @"--date-order", @"--reverse", @"--no-abbrev-commit", @"--pretty=short"]
}
// the commits that were asked for: all, or those after the commit the checkpoint is for
pub open spec fn patch_range(opts: process_Opts) -> Seq<Str> {
    if opts.CommitFromIncl != str_empty() {
        (if opts.AllBranches { opts.WantedBranchRefs } else { Seq::<Str>::empty() }).push(opts.CommitFromIncl + (if opts.CommitFromMakeNonIncl { @"..HEAD" } else { @"^..HEAD" }))
    } else if opts.AllBranches { seq![@"--all"] } else { Seq::<Str>::empty() }
}
pub open spec fn patch_args(opts: process_Opts, tmp: Str) -> Seq<Str> { patch_flags(tmp) + patch_range(opts) }
