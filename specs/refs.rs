// ---- refs as git lists them
pub ghost struct GitRef { pub commit: Str, pub name: Str, pub date: Str }
pub uninterp spec fn git_refs(dir: Str, prefix: Str) -> Seq<GitRef>;
pub uninterp spec fn git_head(dir: Str) -> Str;
pub uninterp spec fn list_fails(dir: Str, prefix: Str) -> bool;
pub uninterp spec fn head_fails(dir: Str) -> bool;
pub uninterp spec fn date_ok(d: Str) -> bool;
pub uninterp spec fn date_val(d: Str) -> int;
pub open spec fn is_list_args(args: Seq<Str>) -> bool {
    args.len() == 4 && args[0] == @"for-each-ref" && args[1] == @"--format" && args[2] == @"%(objectname) %(refname) %(committerdate)"
}
pub open spec fn is_head_args(args: Seq<Str>) -> bool { args.len() == 2 && args[0] == @"symbolic-ref" && args[1] == @"HEAD" }
pub open spec fn ref_line(r: GitRef) -> Str { r.commit + @" " + (r.name + @" " + r.date) }
pub open spec fn ref_ok(r: GitRef, prefix: Str) -> bool {
    &&& r.commit.len() > 0 && r.commit[0] != 40 && !r.commit.contains(@" "[0]) && !r.name.contains(@" "[0])
    &&& starts_with(r.name, prefix) && date_ok(r.date) && str_trimspace(ref_line(r)) == ref_line(r)
}
// the output of git for these refs: one line each
pub open spec fn is_ref_list(data: Str, rs: Seq<GitRef>, prefix: Str) -> bool {
    let ls = str_split(data, @"\n");
    &&& ls.len() == rs.len() + 1 && str_trimspace(ls[rs.len() as int]) == str_empty()
    &&& forall|i: int| 0 <= i < rs.len() ==> #[trigger] ls[i] == ref_line(rs[i]) && ref_ok(rs[i], prefix)
}
pub open spec fn branch_of(r: GitRef, prefix: Str) -> branchmeta_BranchWithCommitTime {
    branchmeta_BranchWithCommitTime { Name: trim_prefix(r.name, prefix), Commit: r.commit, CommitCommitterTime: date_val(r.date) }
}
// left out: the symbolic head of a remote, and the default branch unless it is asked for
pub open spec fn left_out(name: Str, default: Str, all: bool) -> bool { name == @"HEAD" || (!all && name == default) }
pub open spec fn wanted(rs: Seq<GitRef>, n: int, prefix: Str, default: Str, all: bool) -> Seq<branchmeta_BranchWithCommitTime> decreases n {
    if n <= 0 { Seq::<branchmeta_BranchWithCommitTime>::empty() }
    else {
        let r = wanted(rs, n - 1, prefix, default, all);
        if left_out(trim_prefix(rs[n - 1].name, prefix), default, all) { r } else { r.push(branch_of(rs[n - 1], prefix)) }
    }
}
pub open spec fn ref_prefix(origin: bool) -> Str { if origin { @"refs/remotes/origin/" } else { @"refs/heads/" } }
pub open spec fn default_name(dir: Str) -> Str { trim_prefix(git_head(dir), @"refs/heads/") }

pub proof fn lemma_ref_line(r: GitRef, prefix: Str)
    requires ref_ok(r, prefix)
    ensures str_splitn(ref_line(r), @" ", 3) == seq![r.commit, r.name, r.date], ref_line(r).len() > 0, ref_line(r)[0] != 40
{
    @facts" ";
    let sp = @" ";
    assert(sp.len() == 1);
    assert(ref_line(r)[0] == r.commit[0]);
    lemma_split_first(r.commit, sp, r.name + sp + r.date, 2);
    lemma_split_first(r.name, sp, r.date, 1);
    assert(split_from(r.date, sp, 0) =~= seq![r.date]);
    assert(seq![r.commit] + (seq![r.name] + seq![r.date]) =~= seq![r.commit, r.name, r.date]);
}
pub open spec fn bb_at(h: Map<int, Str>, p: int) -> Str { mget(h, p, str_empty()) }
