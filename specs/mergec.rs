pub type PartMap = Map<Str, parser_Commit>;
pub type DiffTable = Map<Str, Seq<Ptr<incblame_Diff>>>;
pub open spec fn del_prefix() -> Str { @"@@@del@@@" }
pub open spec fn kept_key(k: Str) -> bool { !starts_with(k, del_prefix()) }
// the key under which a diff is collected: removals apart from the rest
pub open spec fn mkey(c: Str) -> Str { if is_removal(c) { del_prefix() + chg(c).PathPrev } else { chg(c).Path } }
// last of the first n changes with a key; -1 if there is none
pub open spec fn lk(cs: Seq<parser_Change>, n: int, key: Str) -> int decreases n {
    if n <= 0 { -1 } else if mkey(cs[n - 1].Diff) == key { n - 1 } else { lk(cs, n - 1, key) }
}
pub open spec fn part(parts: PartMap, q: Str) -> Seq<parser_Change> { if parts.dom().contains(q) { parts[q].Changes } else { Seq::<parser_Change>::empty() } }
// the change against parent j under a key; -1 if there is none
pub open spec fn cd(parts: PartMap, ph: Seq<Str>, key: Str, j: int) -> int { lk(part(parts, ph[j]), part(parts, ph[j]).len() as int, key) }
pub open spec fn dd(parts: PartMap, ph: Seq<Str>, key: Str, j: int) -> incblame_Diff { chg(part(parts, ph[j])[cd(parts, ph, key, j)].Diff) }
pub open spec fn has_any(parts: PartMap, ph: Seq<Str>, key: Str) -> bool { exists|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, key, j) >= 0 }
pub open spec fn all_have(parts: PartMap, ph: Seq<Str>, key: Str) -> bool { forall|j: int| 0 <= j < ph.len() ==> #[trigger] cd(parts, ph, key, j) >= 0 }
// the file is in the merge and differs from some parent
pub open spec fn hk(parts: PartMap, ph: Seq<Str>, f: Str) -> bool { kept_key(f) && has_any(parts, ph, f) }
// the file is gone from the merge and was in some parent
pub open spec fn gone(parts: PartMap, ph: Seq<Str>, f: Str) -> bool { has_any(parts, ph, del_prefix() + f) && !has_any(parts, ph, f) }

pub open spec fn pfiles(repo: RepoMap, ph: Seq<Str>, j: int) -> FileMap { mget(repo, ph[j], no_files()) }
// the diff against parent j is binary, or the file was binary there
pub open spec fn bin_at(parts: PartMap, ph: Seq<Str>, repo: RepoMap, f: Str, j: int) -> bool {
    cd(parts, ph, f, j) >= 0 && (dd(parts, ph, f, j).IsBinary || (dd(parts, ph, f, j).PathPrev != str_empty() && pfiles(repo, ph, j)[dd(parts, ph, f, j).PathPrev].v.IsBinary))
}
pub open spec fn any_bin(parts: PartMap, ph: Seq<Str>, repo: RepoMap, f: Str) -> bool { exists|j: int| 0 <= j < ph.len() && #[trigger] bin_at(parts, ph, repo, f, j) }
// the file as parent j has it
pub open spec fn prev_blame(parts: PartMap, ph: Seq<Str>, repo: RepoMap, f: Str, j: int) -> incblame_Blame {
    if dd(parts, ph, f, j).PathPrev == str_empty() { default_incblame_Blame() } else { pfiles(repo, ph, j)[dd(parts, ph, f, j).PathPrev].v }
}
pub open spec fn prevs(parts: PartMap, ph: Seq<Str>, repo: RepoMap, f: Str) -> Seq<incblame_Blame> { Seq::new(ph.len(), |j: int| prev_blame(parts, ph, repo, f, j)) }
pub open spec fn dds(parts: PartMap, ph: Seq<Str>, f: Str) -> Seq<incblame_Diff> { Seq::new(ph.len(), |j: int| dd(parts, ph, f, j)) }
// b is the record of f of some parent
pub open spec fn of_parent(ph: Seq<Str>, repo: RepoMap, f: Str, b: Ptr<incblame_Blame>) -> bool {
    exists|j: int| 0 <= j < ph.len() && (#[trigger] pfiles(repo, ph, j)).dom().contains(f) && pfiles(repo, ph, j)[f] == b
}
// b is the record of f of a parent that has the file just so
pub open spec fn of_same(parts: PartMap, ph: Seq<Str>, repo: RepoMap, f: Str, b: Ptr<incblame_Blame>) -> bool {
    exists|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, f, j) < 0 && pfiles(repo, ph, j).dom().contains(f) && pfiles(repo, ph, j)[f] == b
}
// the file blame that the diffs against all parents give together (C03)
pub open spec fn is_merged(ps: Seq<incblame_Blame>, ds: Seq<incblame_Diff>, commit: Str, b: incblame_Blame) -> bool {
    &&& b.Lines.len() == pv(ps, ds, commit, 0).len()
    &&& forall|q: int| 0 <= q < b.Lines.len() ==> (#[trigger] lvs(b.Lines)[q]).c == pv(ps, ds, commit, 0)[q].c
    &&& forall|q: int| 0 <= q < b.Lines.len() ==> (#[trigger] lvs(b.Lines)[q]).by == merged_by(ps, ds, commit, q, 0)
}
// b is what has to be recorded for file f of the merge
pub open spec fn mrec(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, f: Str, b: Ptr<incblame_Blame>) -> bool {
    &&& file_ok(b)
    &&& if any_bin(parts, ph, repo, f) { b.v.Commit == commit && b.v.IsBinary }
        else if all_have(parts, ph, f) { b.v.Commit == commit && !b.v.IsBinary && is_merged(prevs(parts, ph, repo, f), dds(parts, ph, f), commit, b.v) }
        else { of_same(parts, ph, repo, f, b) }
}
pub open spec fn shown(parts: PartMap, ph: Seq<Str>, repo: RepoMap, f: Str) -> bool { hk(parts, ph, f) && (any_bin(parts, ph, repo, f) || all_have(parts, ph, f)) }
pub open spec fn removed_rec(commit: Str, b: Ptr<incblame_Blame>) -> bool { b.id != 0 && b.v.Commit == commit && !b.v.IsBinary && b.v.Lines.len() == 0 }
// what the merge has to report, with the keys done
pub open spec fn mreported(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, done: Set<Str>, fs: FileMap) -> bool {
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> (done.contains(f) && shown(parts, ph, repo, f)) || (done.contains(del_prefix() + f) && gone(parts, ph, f))
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) ==> if hk(parts, ph, f) { mrec(parts, ph, repo, commit, f, fs[f]) } else { removed_rec(commit, fs[f]) }
}
pub open spec fn mkept(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, done: Set<Str>, fs: FileMap) -> bool {
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> done.contains(f) && kept_key(f)
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) ==> mrec(parts, ph, repo, commit, f, fs[f])
}
pub open spec fn in_parent(ph: Seq<Str>, repo: RepoMap, f: Str, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] pfiles(repo, ph, j)).dom().contains(f) }
// everything recorded for the merge, with those files of the parents done
pub open spec fn mrecorded(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, done: Set<Str>, fs: FileMap) -> bool {
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> hk(parts, ph, f) || done.contains(f)
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) ==> if hk(parts, ph, f) { mrec(parts, ph, repo, commit, f, fs[f]) } else { of_parent(ph, repo, f, fs[f]) }
}
// a diff of a merge against a parent with files p
pub open spec fn mchange_ok(c: Str, p: FileMap) -> bool {
    &&& fd_named(c, name_a(c))
    &&& chg_key(c) != str_empty() && kept_key(chg_key(c))
    &&& !is_removal(c) && chg(c).PathPrev != str_empty() ==> p.dom().contains(chg(c).PathPrev)
}
// the diffs git prints for a merge, against all of its parents
pub open spec fn mcommit_ok(parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ph.len() ==> ph[i] != ph[j]
    &&& forall|j: int| 0 <= j < ph.len() ==> #[trigger] ph[j] != commit && repo.dom().contains(ph[j]) && files_ok(repo[ph[j]])
    &&& forall|q: Str| #[trigger] parts.dom().contains(q) ==> ph.contains(q)
    &&& forall|j: int, i: int| 0 <= j < ph.len() && 0 <= i < part(parts, ph[j]).len() ==> mchange_ok((#[trigger] part(parts, ph[j])[i]).Diff, pfiles(repo, ph, j))
    // a file without a diff against a parent is there as it is here
    &&& forall|f: Str, j: int| 0 <= j < ph.len() && hk(parts, ph, f) && #[trigger] cd(parts, ph, f, j) < 0 ==> pfiles(repo, ph, j).dom().contains(f)
    &&& forall|f: Str| hk(parts, ph, f) && all_have(parts, ph, f) && !any_bin(parts, ph, repo, f) ==> #[trigger] merge_ok(prevs(parts, ph, repo, f), dds(parts, ph, f), commit)
}
// how many of the changes against parent q have been collected
pub open spec fn cnt(parts: PartMap, q: Str, done: Set<Str>, cur: Str, k: int) -> int {
    if done.contains(q) { part(parts, q).len() as int } else if q == cur { k } else { 0 }
}
pub open spec fn slot_is(p: Ptr<incblame_Diff>, cs: Seq<parser_Change>, n: int, key: Str) -> bool {
    if lk(cs, n, key) < 0 { p.id == 0 } else { p.id != 0 && p.v == chg(cs[lk(cs, n, key)].Diff) }
}
pub open spec fn some_have(parts: PartMap, ph: Seq<Str>, done: Set<Str>, cur: Str, k: int, key: Str) -> bool {
    exists|j: int| 0 <= j < ph.len() && lk(part(parts, #[trigger] ph[j]), cnt(parts, ph[j], done, cur, k), key) >= 0
}
pub open spec fn table(d: DiffTable, parts: PartMap, ph: Seq<Str>, done: Set<Str>, cur: Str, k: int) -> bool {
    &&& forall|key: Str| #[trigger] d.dom().contains(key) <==> some_have(parts, ph, done, cur, k, key)
    &&& forall|key: Str| #[trigger] d.dom().contains(key) ==> d[key].len() == ph.len()
    &&& forall|key: Str, j: int| d.dom().contains(key) && 0 <= j < ph.len() ==> slot_is(#[trigger] d[key][j], part(parts, ph[j]), cnt(parts, ph[j], done, cur, k), key)
}
// the complete table
pub open spec fn full_table(d: DiffTable, parts: PartMap, ph: Seq<Str>) -> bool {
    &&& forall|key: Str| #[trigger] d.dom().contains(key) <==> has_any(parts, ph, key)
    &&& forall|key: Str| #[trigger] d.dom().contains(key) ==> d[key].len() == ph.len()
    &&& forall|key: Str, j: int| d.dom().contains(key) && 0 <= j < ph.len() ==> if cd(parts, ph, key, j) < 0 { (#[trigger] d[key][j]).id == 0 } else { d[key][j].id != 0 && d[key][j].v == dd(parts, ph, key, j) }
}
pub proof fn lemma_full(d: DiffTable, parts: PartMap, ph: Seq<Str>, done: Set<Str>, cur: Str, k: int)
    requires table(d, parts, ph, done, cur, k), forall|q: Str| #[trigger] done.contains(q) <==> parts.dom().contains(q), !parts.dom().contains(cur) || done.contains(cur), k == 0
    ensures full_table(d, parts, ph)
{
    assert forall|q: Str| #[trigger] cnt(parts, q, done, cur, k) == part(parts, q).len() by { }
    assert forall|key: Str| #[trigger] d.dom().contains(key) <==> has_any(parts, ph, key) by {
        if d.dom().contains(key) {
            let j = choose|j: int| 0 <= j < ph.len() && lk(part(parts, #[trigger] ph[j]), cnt(parts, ph[j], done, cur, k), key) >= 0;
            assert(cd(parts, ph, key, j) >= 0);
        }
        if has_any(parts, ph, key) {
            let j = choose|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, key, j) >= 0;
            assert(lk(part(parts, ph[j]), cnt(parts, ph[j], done, cur, k), key) >= 0);
        }
    }
    assert forall|key: Str, j: int| d.dom().contains(key) && 0 <= j < ph.len() implies if cd(parts, ph, key, j) < 0 { (#[trigger] d[key][j]).id == 0 } else { d[key][j].id != 0 && d[key][j].v == dd(parts, ph, key, j) } by {
        assert(slot_is(d[key][j], part(parts, ph[j]), cnt(parts, ph[j], done, cur, k), key));
    }
}
pub proof fn lemma_lk(cs: Seq<parser_Change>, n: int, key: Str)
    requires 0 <= n <= cs.len()
    ensures lk(cs, n, key) < n, lk(cs, n, key) >= -1, lk(cs, n, key) >= 0 ==> mkey(cs[lk(cs, n, key)].Diff) == key
    decreases n
{
    if n > 0 { lemma_lk(cs, n - 1, key); }
}
// what the table says about one key
pub proof fn lemma_row(d: Seq<Ptr<incblame_Diff>>, t: DiffTable, parts: PartMap, ph: Seq<Str>, repo: RepoMap, commit: Str, k: Str)
    requires full_table(t, parts, ph), t.dom().contains(k), d == t[k], mcommit_ok(parts, ph, repo, commit)
    ensures d.len() == ph.len(), has_any(parts, ph, k),
        forall|j: int| 0 <= j < d.len() ==> ((#[trigger] d[j]).id == 0 <==> cd(parts, ph, k, j) < 0) && (d[j].id != 0 ==> d[j].v == dd(parts, ph, k, j)),
        forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0 ==> if kept_key(k) { d[j].v.Path == k && k != str_empty() } else { d[j].v.Path == str_empty() && k == del_prefix() + d[j].v.PathPrev && kept_key(d[j].v.PathPrev) },
        forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0 && d[j].v.Path != str_empty() && d[j].v.PathPrev != str_empty() ==> pfiles(repo, ph, j).dom().contains(d[j].v.PathPrev),
        exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0,
{
    assert forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id != 0 implies (if kept_key(k) { d[j].v.Path == k && k != str_empty() } else { d[j].v.Path == str_empty() && k == del_prefix() + d[j].v.PathPrev && kept_key(d[j].v.PathPrev) }) && (d[j].v.Path != str_empty() && d[j].v.PathPrev != str_empty() ==> pfiles(repo, ph, j).dom().contains(d[j].v.PathPrev)) by {
        assert(t[k][j] == d[j]);
        let cs = part(parts, ph[j]);
        lemma_lk(cs, cs.len() as int, k);
        let i = lk(cs, cs.len() as int, k);
        assert(cd(parts, ph, k, j) == i);
        assert(mchange_ok(cs[i].Diff, pfiles(repo, ph, j)));
        lemma_del(chg(cs[i].Diff).PathPrev);
    }
    assert(has_any(parts, ph, k));
    let j = choose|j: int| 0 <= j < ph.len() && #[trigger] cd(parts, ph, k, j) >= 0;
    assert(t[k][j].id != 0);
    assert(d[j].id != 0);
    assert forall|j: int| 0 <= j < d.len() implies ((#[trigger] d[j]).id == 0 <==> cd(parts, ph, k, j) < 0) && (d[j].id != 0 ==> d[j].v == dd(parts, ph, k, j)) by { assert(t[k][j] == d[j]); }
}
pub proof fn lemma_del(f: Str)
    ensures !kept_key(del_prefix() + f), (del_prefix() + f).subrange(9, 9 + f.len() as int) == f, del_prefix().len() == 9
{
    @facts"@@@del@@@";
    assert((del_prefix() + f).subrange(0, 9) =~= del_prefix());
    assert((del_prefix() + f).subrange(9, 9 + f.len() as int) =~= f);
}
pub proof fn lemma_del_all()
    ensures forall|f: Str| !kept_key(#[trigger] (del_prefix() + f)) && (del_prefix() + f).subrange(9, 9 + f.len() as int) == f
{
    assert forall|f: Str| !kept_key(#[trigger] (del_prefix() + f)) && (del_prefix() + f).subrange(9, 9 + f.len() as int) == f by { lemma_del(f); }
}
pub proof fn lemma_bin(d: Seq<Ptr<incblame_Diff>>, parts: PartMap, ph: Seq<Str>, repo: RepoMap, k: Str)
    requires d.len() == ph.len(), forall|j: int| 0 <= j < d.len() ==> ((#[trigger] d[j]).id == 0 <==> cd(parts, ph, k, j) < 0) && (d[j].id != 0 ==> d[j].v == dd(parts, ph, k, j))
    ensures any_bin(parts, ph, repo, k) <==> (exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.IsBinary)
        || (exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.PathPrev != str_empty() && pfiles(repo, ph, i)[d[i].v.PathPrev].v.IsBinary)
{
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] bin_at(parts, ph, repo, k, i) <==> d[i].id != 0 && (d[i].v.IsBinary || d[i].v.PathPrev != str_empty() && pfiles(repo, ph, i)[d[i].v.PathPrev].v.IsBinary)) by { let w = d[i]; }
    if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.IsBinary {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.IsBinary; assert(bin_at(parts, ph, repo, k, i));
    }
    if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.PathPrev != str_empty() && pfiles(repo, ph, i)[d[i].v.PathPrev].v.IsBinary {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id != 0 && d[i].v.PathPrev != str_empty() && pfiles(repo, ph, i)[d[i].v.PathPrev].v.IsBinary; assert(bin_at(parts, ph, repo, k, i));
    }
}
