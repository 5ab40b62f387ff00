pub type FileMap = Map<Str, Ptr<incblame_Blame>>;
pub type RepoMap = Map<Str, FileMap>;
pub open spec fn no_files() -> FileMap { Map::<Str, Ptr<incblame_Blame>>::empty() }

// the names in the declaration of a file diff
pub open spec fn fd_named(c: Str, a: Str) -> bool { exists|b: Str| #[trigger] fd_ok(c, a, b) }
pub open spec fn name_a(c: Str) -> Str { choose|a: Str| #[trigger] fd_named(c, a) }
pub open spec fn name_b(c: Str) -> Str { choose|b: Str| fd_ok(c, name_a(c), b) }
// what one file diff says
pub open spec fn chg(c: Str) -> incblame_Diff {
    incblame_Diff { PathPrev: path_before(c, name_a(c)), Path: path_after(c, name_a(c)), IsBinary: header(scan_toks(c, max_line()), @"Binary files").len() > 0, Hunks: fd_hunks(c) }
}
pub open spec fn is_removal(c: Str) -> bool { chg(c).Path == str_empty() }
// the file a diff is about
pub open spec fn chg_key(c: Str) -> Str { if is_removal(c) { chg(c).PathPrev } else { chg(c).Path } }
// last of the first n changes about file f; -1 if there is none
pub open spec fn last_about(cs: Seq<parser_Change>, n: int, f: Str) -> int decreases n {
    if n <= 0 { -1 } else if chg_key(cs[n - 1].Diff) == f { n - 1 } else { last_about(cs, n - 1, f) }
}
// last of the first n changes that leaves file f in the tree
pub open spec fn last_kept(cs: Seq<parser_Change>, n: int, f: Str) -> int decreases n {
    if n <= 0 { -1 } else if !is_removal(cs[n - 1].Diff) && chg(cs[n - 1].Diff).Path == f { n - 1 } else { last_kept(cs, n - 1, f) }
}
// the lines git blame shows for a file at a commit
pub open spec fn blame_lvs(es: Seq<BEntry>) -> Seq<LV> { es.map_values(|e: BEntry| LV { c: e.content, by: e.commit }) }
pub open spec fn git_blamed(dir: Str, commit: Str, file: Str, b: incblame_Blame) -> bool { lvs(b.Lines) =~= blame_lvs(git_blame(dir, commit, file)) }

pub open spec fn file_ok(p: Ptr<incblame_Blame>) -> bool { p.id != 0 && nonnil(p.v.Lines) && (p.v.IsBinary ==> p.v.Lines.len() == 0) }
pub open spec fn files_ok(m: FileMap) -> bool { forall|f: Str| #[trigger] m.dom().contains(f) ==> file_ok(m[f]) }

pub open spec fn parent_files(parents: Seq<Str>, repo: RepoMap) -> FileMap { if parents.len() == 0 { no_files() } else { mget(repo, parents[0], no_files()) } }
pub open spec fn has_prev(c: Str, p: FileMap) -> bool { chg(c).PathPrev != str_empty() && p.dom().contains(chg(c).PathPrev) }
// lines before the change
pub open spec fn prev_lines(c: Str, p: FileMap) -> Seq<LV> { if has_prev(c, p) { lvs(p[chg(c).PathPrev].v.Lines) } else { Seq::<LV>::empty() } }
pub open spec fn is_rename(c: Str) -> bool { chg(c).PathPrev != str_empty() && !is_removal(c) && chg(c).PathPrev != chg(c).Path }

// a file diff git prints for a commit whose parent has the files p
pub open spec fn change_ok(c: Str, p: FileMap, root: bool) -> bool {
    &&& fd_named(c, name_a(c))
    &&& chg_key(c) != str_empty()
    &&& is_rename(c) ==> !root && p.dom().contains(chg(c).PathPrev)
    &&& !chg(c).IsBinary && !is_removal(c) && !(has_prev(c, p) && p[chg(c).PathPrev].v.IsBinary) ==> diff_ok(prev_lines(c, p), chg(c).Hunks)
}
pub open spec fn commit_ok(c: parser_Commit, repo: RepoMap) -> bool {
    let p = parent_files(c.Parents, repo);
    &&& c.Parents.len() <= 1
    &&& c.Parents.len() == 1 ==> c.Parents[0] != c.Hash && repo.dom().contains(c.Parents[0]) && files_ok(repo[c.Parents[0]])
    &&& forall|i: int| 0 <= i < c.Changes.len() ==> change_ok((#[trigger] c.Changes[i]).Diff, p, c.Parents.len() == 0)
}
// b is what has to be recorded for the file of change c
pub open spec fn updated(c: Str, p: FileMap, commit: Str, dir: Str, b: Ptr<incblame_Blame>) -> bool {
    let d = chg(c);
    &&& file_ok(b)
    &&& if d.IsBinary { b.v.Commit == commit && b.v.IsBinary }
        else if is_removal(c) { b.v.Commit == commit && !b.v.IsBinary && b.v.Lines.len() == 0 }
        else if has_prev(c, p) && p[d.PathPrev].v.IsBinary {
            if d.Hunks.len() == 0 { b == p[d.PathPrev] } else { b.v.Commit == commit && !b.v.IsBinary && git_blamed(dir, commit, d.Path, b.v) }
        } else { b.v.Commit == commit && !b.v.IsBinary && lvs(b.v.Lines) == patched(prev_lines(c, p), d.Hunks, commit) }
}
// a binary file is now text: git blame has to be asked
pub open spec fn needs_blame(c: Str, p: FileMap) -> bool {
    !chg(c).IsBinary && !is_removal(c) && has_prev(c, p) && p[chg(c).PathPrev].v.IsBinary && chg(c).Hunks.len() > 0
}
pub open spec fn reported(cs: Seq<parser_Change>, n: int, p: FileMap, commit: Str, dir: Str, fs: FileMap) -> bool {
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> last_about(cs, n, f) >= 0
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) ==> updated(cs[last_about(cs, n, f)].Diff, p, commit, dir, fs[f])
}
pub open spec fn kept(cs: Seq<parser_Change>, n: int, p: FileMap, commit: Str, dir: Str, fs: FileMap) -> bool {
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> last_kept(cs, n, f) >= 0
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) ==> updated(cs[last_kept(cs, n, f)].Diff, p, commit, dir, fs[f])
}
// what is recorded for the commit: its changed files, and those files of the parent among done that it did not change
pub open spec fn recorded(cs: Seq<parser_Change>, p: FileMap, done: Set<Str>, commit: Str, dir: Str, fs: FileMap) -> bool {
    let n = cs.len() as int;
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) <==> last_kept(cs, n, f) >= 0 || (done.contains(f) && last_about(cs, n, f) < 0)
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) && last_kept(cs, n, f) >= 0 ==> updated(cs[last_kept(cs, n, f)].Diff, p, commit, dir, fs[f])
    &&& forall|f: Str| #[trigger] fs.dom().contains(f) && last_kept(cs, n, f) < 0 ==> fs[f] == p[f]
}
pub proof fn lemma_last(cs: Seq<parser_Change>, n: int, f: Str)
    requires 0 <= n <= cs.len()
    ensures last_about(cs, n, f) < n, last_kept(cs, n, f) < n, last_about(cs, n, f) >= -1, last_kept(cs, n, f) >= -1,
        last_kept(cs, n, f) >= 0 ==> last_about(cs, n, f) >= 0,
    decreases n
{
    if n > 0 { lemma_last(cs, n - 1, f); }
}
pub proof fn lemma_mget(a: RepoMap, b: RepoMap, h: Str)
    requires a.remove(h) == b.remove(h)
    ensures forall|c: Str| c != h ==> #[trigger] a.dom().contains(c) == b.dom().contains(c), forall|c: Str| c != h && b.dom().contains(c) ==> a[c] == #[trigger] b[c],
{
    assert(a.remove(h).dom() =~= a.dom().remove(h)); assert(b.remove(h).dom() =~= b.dom().remove(h));
    assert forall|c: Str| c != h implies #[trigger] a.dom().contains(c) == b.dom().contains(c) by { assert(a.dom().remove(h).contains(c) == b.dom().remove(h).contains(c)); }
    assert forall|c: Str| c != h && b.dom().contains(c) implies a[c] == #[trigger] b[c] by { assert(a.remove(h)[c] == b.remove(h)[c]); }
}
pub proof fn lemma_recorded_ok(cs: Seq<parser_Change>, p: FileMap, done: Set<Str>, commit: Str, dir: Str, fs: FileMap)
    requires recorded(cs, p, done, commit, dir, fs), files_ok(p), done.subset_of(p.dom())
    ensures files_ok(fs)
{
    assert forall|f: Str| #[trigger] fs.dom().contains(f) implies file_ok(fs[f]) by { lemma_last(cs, cs.len() as int, f); }
}
pub proof fn lemma_lvs_empty() ensures lvs(Seq::<Ptr<incblame_Line>>::empty()) == Seq::<LV>::empty() { assert(lvs(Seq::<Ptr<incblame_Line>>::empty()) =~= Seq::<LV>::empty()); }
