package ripsrc/history3/incblame
func Parse
view C23
trusted
ensures result == pd(content)
assume parsing a file diff gives the same for the same text (incblame.Parse; C06)

func Apply
view C23
trusted
ensures bc(result) == applied(bc(file), diff, commit)
assume applying a diff gives the same for the same file and diff (incblame.Apply; C01, C02)

func ApplyMerge
view C23
trusted
ensures bc(result) == merged(parents.map_values(|b: incblame_Blame| bc(b)), diffs, commit)
assume merging blames gives the same for the same blames and diffs (incblame.ApplyMerge; C03)

package ripsrc/history3/process/repo
func (*Unloader).Unload
view C23
ensures forall|c: Str| #[trigger] s.repo.dom().contains(c) ==> old(s.repo).dom().contains(c) && s.repo[c] == old(s.repo)[c]

package ripsrc/history3/process
theory patch.rs resume.rs
func (*Process).slowGitBlame
view C23
trusted
ensures result1 == 0 ==> bc(result0) == blamed(s.opts.RepoDir, commitHash, filePath)
assume git blame gives the same for the same file of the same commit (C18)

func (*Timing).UpdateSlowestCommitsWith
view C23
trusted
assume the time statistics are not looked at

func (*Process).processRegularCommit
view C23
let P = par_fc(commit.Parents, wc(old(s.repo)))
let CS = commit.Changes
let DIR = old(s.opts).RepoDir
requires all_ids_ok(s.repo) && (commit.Parents.len() > 0 ==> commit.Parents[0] != commit.Hash)
merge
ensures [reported] result1 == 0 ==> result0.Commit == commit.Hash && rep(CS, CS.len() as int, P, commit.Hash, DIR, fc(result0.Files))
ensures [recorded] result1 == 0 ==> s.repo.dom().contains(commit.Hash) && rcd(CS, CS.len() as int, P, P.dom(), commit.Hash, DIR, fc(s.repo[commit.Hash]))
ensures [others] s.repo.remove(commit.Hash) =~= old(s.repo).remove(commit.Hash)
ensures [last] s.lastProcessedCommitHash == commit.Hash && s.opts == old(s.opts) && s.graph == old(s.graph)
ensures [needs parent] result1 == 0 && commit.Parents.len() > 0 ==> old(s.repo).dom().contains(commit.Parents[0])
ensures all_ids_ok(s.repo)
loop 1
invariant s.repo.dom().contains(commit.Hash) && s.repo.remove(commit.Hash) =~= old(s.repo).remove(commit.Hash)
invariant all_ids_ok(s.repo) && ids_ok(res.Files)
invariant rep(CS, $k, P, commit.Hash, DIR, fc(res.Files))
invariant rcd(CS, $k, P, Set::empty(), commit.Hash, DIR, fc(s.repo[commit.Hash]))
invariant res.Commit == commit.Hash && rerr == 0
hint loop 1: lemma_fc(); lemma_others(old(s.repo), s.repo, commit.Hash);
hint endloop 1: lemma_fc(); lemma_ab(CS, $k, about(CS[$k].Diff));
hint exit: lemma_fc();
hint done 1: lemma_others(old(s.repo), s.repo, commit.Hash);
loop 2
invariant s.repo.dom().contains(commit.Hash) && s.repo.remove(commit.Hash) =~= old(s.repo).remove(commit.Hash)
invariant all_ids_ok(s.repo)
invariant rcd(CS, CS.len() as int, P, $done, commit.Hash, DIR, fc(s.repo[commit.Hash]))
hint loop 2: lemma_fc(); lemma_ab(CS, CS.len() as int, $key); lemma_others(old(s.repo), s.repo, commit.Hash);
hint done 2: lemma_others(old(s.repo), s.repo, commit.Hash); lemma_fc(); let p0 = commit.Parents[0]; assert(old(s.repo).dom().contains(p0)); assert(P == fc(old(s.repo)[p0])); assert(P.dom() =~= $done);

func (*Process).processMergeCommit
view C23
let PH = mget(old(s.graph.v).Parents, commitHash, Seq::empty())
let W = wc(old(s.repo))
requires all_ids_ok(s.repo) && parts_ok(parts, mget(s.graph.v.Parents, commitHash, Seq::empty()), commitHash)
merge
ensures [reported] result1 == 0 ==> result0.Commit == commitHash && mrep_all(parts, PH, W, commitHash, fc(result0.Files))
ensures [recorded] result1 == 0 ==> s.repo.dom().contains(commitHash) && mrcd_all(parts, PH, W, commitHash, fc(s.repo[commitHash]))
ensures [others] s.repo.remove(commitHash) =~= old(s.repo).remove(commitHash)
ensures [last] s.lastProcessedCommitHash == commitHash && s.opts == old(s.opts) && s.graph == old(s.graph)
ensures [needs parents] result1 == 0 ==> forall|j: int| 0 <= j < PH.len() ==> old(s.repo).dom().contains(#[trigger] PH[j])
ensures all_ids_ok(s.repo)
loop 1
invariant forall|j: int| 0 <= j < $k ==> hashToParOrd.dom().contains(#[trigger] PH[j]) && hashToParOrd[PH[j]] == j
loop 2
invariant table(diffs, parts, PH, $done, str_empty(), 0)
hint done 2: lemma_full(diffs, parts, PH, $done, str_empty(), 0);
loop 3
invariant table(diffs, parts, PH, $done, parHash, $k)
hint loop 3: assert(PH.contains(parHash)); let jj = choose|jj: int| 0 <= jj < PH.len() && PH[jj] == parHash; assert(part(parts, PH[jj]) == parts[parHash].Changes); let w = part(parts, PH[jj])[$k];
loop 4
invariant forall|f: Str| #[trigger] files.dom().contains(f) <==> $done.contains(f)
invariant forall|f: Str| #[trigger] files.dom().contains(f) ==> files[f]
loop 5
invariant s.repo.dom().contains(commitHash) && s.repo.remove(commitHash) =~= old(s.repo).remove(commitHash)
invariant all_ids_ok(s.repo) && ids_ok(res.Files)
invariant mrep(parts, PH, W, commitHash, $done, fc(res.Files))
invariant mrcd(parts, PH, W, commitHash, $done, Set::empty(), fc(s.repo[commitHash]))
invariant res.Commit == commitHash && rerr == 0
hint loop 5: lemma_fc(); lemma_row(diffs[k], diffs, parts, PH, commitHash, k); lemma_others(old(s.repo), s.repo, commitHash); lemma_first_same(parts, PH, W, k, PH.len() as int);
hint endloop 5: lemma_fc();
loop 6
invariant isDelete == forall|i: int| 0 <= i < $k ==> (#[trigger] diffs[i]).id == 0 || diffs[i].v.Path == str_empty()
hint done 6: let j0 = choose|j: int| 0 <= j < diffs.len() && (#[trigger] diffs[j]).id != 0; if !kept_key(k) { lemma_del(diffs[j0].v.PathPrev); }
hint done 6: lemma_del_all();
loop 7
invariant 0 <= binaryDiffs && (binaryDiffs > 0 <==> exists|i: int| 0 <= i < $k && (#[trigger] diffs[i]).id != 0 && diffs[i].v.IsBinary)
loop 8
invariant 0 <= binParentsWithDiffs && (binParentsWithDiffs > 0 <==> exists|i: int| 0 <= i < $k && (#[trigger] diffs[i]).id != 0 && diffs[i].v.PathPrev != str_empty() && pfc(W, PH, i)[diffs[i].v.PathPrev].bin)
hint done 8: lemma_bin(diffs, parts, PH, W, k);
loop 9
invariant first_same(parts, PH, W, k, $k) < 0
hint loop 9: let w3 = PH[$k]; lemma_others(old(s.repo), s.repo, commitHash); lemma_fc(); lemma_first_same(parts, PH, W, k, $k + 1);
loop 10
invariant parents.len() == $k && forall|i: int| 0 <= i < $k ==> bc(#[trigger] parents[i]) == prev_bc(parts, PH, W, k, i)
invariant forall|i: int| 0 <= i < $k ==> #[trigger] cd(parts, PH, k, i) >= 0
hint loop 10: let w4 = diffs[$k]; assert(same_at(parts, PH, W, k, $k) == (cd(parts, PH, k, $k) < 0 && pfc(W, PH, $k).dom().contains(k)));
hint loop 10: let w3 = PH[$k]; lemma_others(old(s.repo), s.repo, commitHash); lemma_fc(); lemma_first_same(parts, PH, W, k, PH.len() as int);
loop 11
invariant diffs2.len() == $k && forall|i: int| 0 <= i < $k ==> #[trigger] diffs2[i] == dd(parts, PH, k, i)
hint done 11: assert(parents.map_values(|b: incblame_Blame| bc(b)) =~= prevs(parts, PH, W, k)); assert(diffs2 =~= dds(parts, PH, k));
hint loop 11: let w4 = diffs[$k]; let w5 = cd(parts, PH, k, $k);
loop 12
hint endloop 12: lemma_in_par(PH, W, $k); lemma_fc(); lemma_others(old(s.repo), s.repo, commitHash); let w3 = PH[$k];
invariant forall|f: Str| #[trigger] files.dom().contains(f) <==> in_par(PH, W, f, $k)
invariant forall|j: int| 0 <= j < $k ==> old(s.repo).dom().contains(#[trigger] PH[j])
loop 13
invariant forall|f: Str| #[trigger] files.dom().contains(f) <==> in_par(PH, W, f, $k12) || $done.contains(f)
loop 14
invariant s.repo.dom().contains(commitHash) && s.repo.remove(commitHash) =~= old(s.repo).remove(commitHash)
invariant all_ids_ok(s.repo)
invariant mrcd(parts, PH, W, commitHash, diffs.dom(), $done, fc(s.repo[commitHash]))
hint loop 14: lemma_fc(); lemma_others(old(s.repo), s.repo, commitHash); lemma_last_with(PH, W, f, PH.len() as int);
hint endloop 14: lemma_fc();
hint done 14: lemma_others(old(s.repo), s.repo, commitHash);
loop 15
invariant forall|i: int| 0 <= i < candidates.len() ==> (#[trigger] candidates[i]).id != 0
invariant candidates.len() > 0 <==> last_with(PH, W, f, $k) >= 0
invariant candidates.len() > 0 ==> bc(candidates.last().v) == pfc(W, PH, last_with(PH, W, f, $k))[f]
hint loop 15: let w3 = PH[$k]; lemma_others(old(s.repo), s.repo, commitHash); lemma_fc(); lemma_last_with(PH, W, f, $k);
loop 16
invariant if $k == 0 { res2.id == 0 } else { res2 == candidates[$k - 1] }

func (*Process).trimGraphAfterCommitProcessed
view C23
alias s.unloader.repo = s.repo
ensures forall|c: Str| #[trigger] s.repo.dom().contains(c) ==> old(s.repo).dom().contains(c) && s.repo[c] == old(s.repo)[c]
ensures s.opts == old(s.opts) && s.graph == old(s.graph) && s.lastProcessedCommitHash == old(s.lastProcessedCommitHash)
loop 1
invariant forall|c: Str| #[trigger] s.repo.dom().contains(c) ==> old(s.repo).dom().contains(c) && s.repo[c] == old(s.repo)[c]

func (*Process).processGotMergeParts
view C23
alias s.unloader.repo = s.repo
let H = old(s.mergePartsCommit)
requires agrees(s.repo) && s.graph.v.Parents == gp() && s.opts.RepoDir == rdir()
requires is_merge(s.mergePartsCommit) && s.mergeParts == shown_for_merge(s.mergePartsCommit) && follows(s.mergePartsCommit) && hist().dom().contains(s.mergePartsCommit)
ensures [reported] all_say(old(resChan)) ==> all_say(resChan)
ensures [kept] agrees(s.repo)
ensures [emptied] s.mergeParts.len() == 0
ensures [last] s.lastProcessedCommitHash == H
ensures s.opts == old(s.opts) && s.graph == old(s.graph)
hint after processMergeCommit: lemma_fc(); lemma_wpars(old(s.repo), H); lemma_w(shown_for_merge(H), pars_of(H), wc(old(s.repo)), hist(), H); lemma_mrcd_same(shown_for_merge(H), pars_of(H), hist(), H, fc(s.repo[H]), mget(hist(), H, no_fc())); lemma_agree(old(s.repo), s.repo, H);

func (*Process).processCommit
view C23
alias s.unloader.repo = s.repo
let H = old(s.mergePartsCommit)
let SAME = (old(s.mergeParts).len() > 0 && old(s.mergePartsCommit) == commit.Hash)
let FL = (old(s.mergeParts).len() > 0 && old(s.mergePartsCommit) != commit.Hash)
let REG = (commit.Parents.len() <= 1)
requires agrees(s.repo) && s.graph.v.Parents == gp() && s.opts.RepoDir == rdir()
requires commit.Parents == pars_of(commit.Hash) && follows(commit.Hash) && hist().dom().contains(commit.Hash) && (REG ==> commit.Changes == shown_for(commit.Hash))
requires FL ==> is_merge(H) && s.mergeParts == shown_for_merge(H) && follows(H) && hist().dom().contains(H)
ensures [reported] all_say(old(resChan)) && result == 0 ==> all_say(resChan)
ensures [kept] result == 0 ==> agrees(s.repo)
ensures [same] SAME ==> s.mergePartsCommit == H && s.mergeParts == old(s.mergeParts).insert(commit.MergeDiffFrom, commit)
ensures [new] !SAME && !REG ==> s.mergePartsCommit == commit.Hash && s.mergeParts == Map::<Str, parser_Commit>::empty().insert(commit.MergeDiffFrom, commit)
ensures [regular] !SAME && REG && result == 0 ==> s.mergeParts.len() == 0
ghostvar R0: RM
hint before processRegularCommit: set R0 = s.repo
hint after processRegularCommit: lemma_fc(); if $ret1 == 0 { lemma_wpars(R0, commit.Hash); lemma_rcd_same(commit.Changes, par_fc(commit.Parents, wc(R0)), commit.Hash, fc(s.repo[commit.Hash]), mget(hist(), commit.Hash, no_fc())); lemma_agree(R0, s.repo, commit.Hash); }
ensures [last] result == 0 && !SAME && REG ==> s.lastProcessedCommitHash == commit.Hash
ensures s.opts == old(s.opts) && s.graph == old(s.graph)

func (*Process).gitLogPatches
view C23
ensures [command] result1 == 0 ==> result0 == patch_log(s.gitCommand, s.opts.RepoDir, s.opts)
ensures s.opts == old(s.opts)
loop 1
invariant args == patch_flags(file_name(f.v)) + s.opts.WantedBranchRefs.subrange(0, $k)
hint before loop 1: assert(args =~= patch_flags(file_name(f.v)) + s.opts.WantedBranchRefs.subrange(0, 0));
hint endloop 1: assert(args =~= patch_flags(file_name(f.v)) + s.opts.WantedBranchRefs.subrange(0, $k + 1));
hint done 1: assert(s.opts.WantedBranchRefs.subrange(0, s.opts.WantedBranchRefs.len() as int) =~= s.opts.WantedBranchRefs);
hint before ExecPiped: assert(args =~= patch_args(s.opts, file_name(f.v)));

func (*Process).Run
view C23
closes resChan
ghostvar L: Seq<parser_Commit>
ghostvar DONE: bool
ghostvar W: RM
ghostvar WDIR: Str
ghostvar WCOMMIT: Str
ghostvar WROTE: bool
ghostvar INIT: RM
ghostvar R: RM
ghostvar EXP: Str
ghostvar DIR: Str
ghostvar READ: bool
let FROM = (s.opts.CommitFromIncl != str_empty())
requires resChan.len() == 0 && s.mergeParts.len() == 0 && s.opts.RepoDir == rdir()
requires s.opts.ParentsGraph.id != 0 ==> s.opts.ParentsGraph.v.Parents == gp()
ensures [reported] result == 0 ==> all_say(resChan)
ensures [start] result == 0 && L.len() > 0 ==> if FROM { READ && INIT == R && DIR == s.checkpointsDir && EXP == (if s.opts.NoStrictResume { str_empty() } else { s.opts.CommitFromIncl }) } else { INIT == RM::empty() }
ensures [saved] result == 0 && L.len() > 0 ==> WROTE && agrees(W) && WDIR == s.checkpointsDir && WCOMMIT == L.last().Hash
hint entry: set L = Seq::empty(); set DONE = false; set WROTE = false; set READ = false
hint after (*CheckpointReader).Read: set READ = true; set R = $ret0; set EXP = $arg1; set DIR = $arg0
hint after Write: set WROTE = true; set W = $arg0; set WDIR = $arg1; set WCOMMIT = $arg2
hint before processCommit: set INIT = if $k == 0 { s.repo } else { INIT }
loop 1
alias s.unloader.repo = s.repo if $k > 0
invariant all_say(resChan) && s.graph.v.Parents == gp() && s.opts == old(s.opts) && s.checkpointsDir == old(s.checkpointsDir)
invariant i == $k
invariant $k > 0 ==> agrees(s.repo)
invariant $k > 0 ==> if FROM { READ && INIT == R && DIR == s.checkpointsDir && EXP == (if s.opts.NoStrictResume { str_empty() } else { s.opts.CommitFromIncl }) } else { INIT == RM::empty() }
invariant s.mergeParts.len() > 0 <==> $k > 0 && is_merge($src1[$k - 1].Hash)
invariant s.mergeParts.len() > 0 ==> s.mergePartsCommit == $src1[$k - 1].Hash && s.mergeParts == run_of($src1, $k)
invariant $k > 0 && s.mergeParts.len() == 0 ==> s.lastProcessedCommitHash == $src1[$k - 1].Hash
hint done 1: set L = $src1; set DONE = true
loop 2
loop 3

package ripsrc/gitexec
func ExecPiped
view C23
trusted
ensures result1 == 0 ==> forall|opts: process_Opts, tmp: Str| args == #[trigger] patch_args(opts, tmp) ==> result0 == patch_log(gitCommand, repoDir, opts)
assume the output of git is that of the command with these arguments in the repository

package ripsrc/parentsgraph
func (*Graph).Read
view C23
trusted
ensures result == 0 && old(s).opts.RepoDir == rdir() ==> s.Parents == gp()
assume the parents of the commits are those git gives (C09)

package ripsrc/history3/process/repo
func (*CheckpointReader).Read
view C23
trusted
ensures result1 == 0 ==> agrees(result0)
assume a checkpoint that can be read has the records that were written (C14, C15), and those are of the full history when they were written (postcondition [saved] of Run)

func (*CheckpointWriter).Write
view C23
trusted
assume the records are written as they are or the call fails (C14, C15)

package ripsrc/history3/process/parser
func (*Parser).Run
view C23
closes res
opaque
ensures forall|cmd: Str, opts: process_Opts| old(s).r == #[trigger] patch_log(cmd, rdir(), opts) ==> log_says(res, result == 0)
assume git's log shows the same for a commit whatever range it is asked for, and the parser returns what it shows (C05)
