package ripsrc/history3/process
theory graph.rs patch.rs merge.rs filediff.rs listing.rs blame.rs process.rs mergec.rs unload.rs

func (*Process).slowGitBlame
props C07
soft C07 C08
maypanic
let E = git_blame(s.opts.RepoDir, commitHash, filePath)
ensures [blamed] result1 == 0 ==> git_blamed(s.opts.RepoDir, commitHash, filePath, result0) && result0.Commit == commitHash && !result0.IsBinary
ensures [there] nonnil(result0.Lines)
loop 1
invariant res.Lines.len() == $k && forall|k: int| 0 <= k < $k ==> (#[trigger] res.Lines[k]).id != 0 && res.Lines[k].v.Commit == E[k].commit && res.Lines[k].v.Line == E[k].content

func (*Timing).UpdateSlowestCommitsWith
trusted
props C07
assume the time statistics are not looked at

func (*Process).processRegularCommit
props C07
let P = parent_files(commit.Parents, old(s.repo))
let CS = commit.Changes
requires commit_ok(commit, s.repo)
requires s.timing.id != 0
callghost Parse.A = name_a(ch.Diff)
callghost Parse.B = name_b(ch.Diff)
merge
ensures [C07 error] result1 != 0 ==> exists|i: int| 0 <= i < CS.len() && needs_blame((#[trigger] CS[i]).Diff, P)
ensures [C07,C08 files] result1 == 0 ==> result0.Commit == commit.Hash && reported(CS, CS.len() as int, P, commit.Hash, s.opts.RepoDir, result0.Files)
ensures [C07 recorded] result1 == 0 ==> s.repo.dom().contains(commit.Hash) && recorded(CS, P, P.dom(), commit.Hash, s.opts.RepoDir, s.repo[commit.Hash])
ensures [C07 others] s.repo.remove(commit.Hash) =~= old(s.repo).remove(commit.Hash)
ensures s.opts == old(s.opts) && s.timing.id == old(s.timing.id) && files_ok(s.repo[commit.Hash])
loop 1
invariant s.timing.id != 0
invariant s.repo.dom().contains(commit.Hash) && s.repo.remove(commit.Hash) =~= old(s.repo).remove(commit.Hash)
invariant reported(CS, $k, P, commit.Hash, s.opts.RepoDir, res.Files)
invariant kept(CS, $k, P, commit.Hash, s.opts.RepoDir, s.repo[commit.Hash])
invariant res.Commit == commit.Hash && rerr == 0
hint loop 1: let w = CS[$k]; lemma_lvs_empty(); lemma_mget(old(s.repo), s.repo, commit.Hash);
hint exit: if result1 == 0 { lemma_recorded_ok(CS, P, P.dom(), commit.Hash, s.opts.RepoDir, s.repo[commit.Hash]); }
hint done 1: lemma_mget(old(s.repo), s.repo, commit.Hash);
loop 2
invariant s.repo.dom().contains(commit.Hash) && s.repo.remove(commit.Hash) =~= old(s.repo).remove(commit.Hash)
invariant recorded(CS, P, $done, commit.Hash, s.opts.RepoDir, s.repo[commit.Hash])
hint loop 2: lemma_last(CS, CS.len() as int, fp); lemma_mget(old(s.repo), s.repo, commit.Hash);
hint done 2: lemma_mget(old(s.repo), s.repo, commit.Hash); assert($done =~= P.dom());

func (*Process).processMergeCommit
props C08
let PH = mget(s.graph.v.Parents, commitHash, Seq::empty())
let R = old(s.repo)
requires s.timing.id != 0 && s.graph.id != 0
requires mcommit_ok(parts, mget(s.graph.v.Parents, commitHash, Seq::empty()), s.repo, commitHash)
callghost Parse.A = name_a(ch.Diff)
callghost Parse.B = name_b(ch.Diff)
merge
ensures s.timing.id == old(s.timing.id) && s.opts == old(s.opts)
ensures [C08 merged] result1 == 0 && result0.Commit == commitHash
ensures [C08 files] forall|f: Str| #[trigger] result0.Files.dom().contains(f) <==> shown(parts, PH, R, f) || gone(parts, PH, f)
ensures [C08 content] forall|f: Str| #[trigger] result0.Files.dom().contains(f) ==> if hk(parts, PH, f) { mrec(parts, PH, R, commitHash, f, result0.Files[f]) } else { removed_rec(commitHash, result0.Files[f]) }
ensures [C08 recorded] s.repo.dom().contains(commitHash) && forall|f: Str| #[trigger] s.repo[commitHash].dom().contains(f) <==> hk(parts, PH, f) || in_parent(PH, R, f, PH.len() as int)
ensures [C08 copied] forall|f: Str| #[trigger] s.repo[commitHash].dom().contains(f) ==> if hk(parts, PH, f) { mrec(parts, PH, R, commitHash, f, s.repo[commitHash][f]) } else { of_parent(PH, R, f, s.repo[commitHash][f]) }
ensures [C08 others] s.repo.remove(commitHash) =~= old(s.repo).remove(commitHash)
loop 1
invariant forall|j: int| 0 <= j < $k ==> hashToParOrd.dom().contains(#[trigger] PH[j]) && hashToParOrd[PH[j]] == j
loop 2
invariant table(diffs, parts, PH, $done, str_empty(), 0)
hint done 2: lemma_full(diffs, parts, PH, $done, str_empty(), 0);
loop 3
invariant table(diffs, parts, PH, $done, parHash, $k)
hint loop 3: assert(PH.contains(parHash)); let jj = choose|jj: int| 0 <= jj < PH.len() && PH[jj] == parHash; assert(part(parts, PH[jj]) == parts[parHash].Changes); let w = part(parts, PH[jj])[$k]; let w2 = pfiles(R, PH, jj); assert(fd_named(w.Diff, name_a(w.Diff)));
loop 4
invariant forall|f: Str| #[trigger] files.dom().contains(f) <==> $done.contains(f)
invariant forall|f: Str| #[trigger] files.dom().contains(f) ==> files[f]
loop 5
invariant s.repo.dom().contains(commitHash) && s.repo.remove(commitHash) =~= old(s.repo).remove(commitHash)
invariant mreported(parts, PH, R, commitHash, $done, res.Files)
invariant mkept(parts, PH, R, commitHash, $done, s.repo[commitHash])
invariant res.Commit == commitHash && rerr == 0
hint loop 5: lemma_row(diffs[k], diffs, parts, PH, R, commitHash, k); lemma_mget(R, s.repo, commitHash);
hint endloop 5: if kept_key($key) && s.repo[commitHash].dom().contains($key) { assert(mrec(parts, PH, R, commitHash, $key, s.repo[commitHash][$key])); }
loop 6
invariant isDelete == forall|i: int| 0 <= i < $k ==> (#[trigger] diffs[i]).id == 0 || diffs[i].v.Path == str_empty()
hint done 6: let j0 = choose|j: int| 0 <= j < diffs.len() && (#[trigger] diffs[j]).id != 0; if !kept_key(k) { lemma_del(diffs[j0].v.PathPrev); }
hint done 6: lemma_del_all();
loop 7
invariant 0 <= binaryDiffs && (binaryDiffs > 0 <==> exists|i: int| 0 <= i < $k && (#[trigger] diffs[i]).id != 0 && diffs[i].v.IsBinary)
loop 8
invariant 0 <= binParentsWithDiffs && (binParentsWithDiffs > 0 <==> exists|i: int| 0 <= i < $k && (#[trigger] diffs[i]).id != 0 && diffs[i].v.PathPrev != str_empty() && pfiles(R, PH, i)[diffs[i].v.PathPrev].v.IsBinary)
hint done 8: lemma_bin(diffs, parts, PH, R, k);
loop 9
invariant forall|i: int| 0 <= i < $k ==> (#[trigger] diffs[i]).id != 0
hint loop 9: let w = cd(parts, PH, k, $k); let w2 = pfiles(R, PH, $k); let w3 = PH[$k]; lemma_mget(R, s.repo, commitHash); assert(R.dom().contains(w3) && files_ok(R[w3]));
loop 10
invariant parents.len() == $k && forall|i: int| 0 <= i < $k ==> #[trigger] parents[i] == prev_blame(parts, PH, R, k, i)
loop 11
invariant diffs2.len() == $k && forall|i: int| 0 <= i < $k ==> #[trigger] diffs2[i] == diffs[i].v
hint done 11: assert(parents =~= prevs(parts, PH, R, k)); assert(diffs2 =~= dds(parts, PH, k)); assert forall|j: int| 0 <= j < PH.len() implies #[trigger] cd(parts, PH, k, j) >= 0 by { let w = diffs[j]; } assert(all_have(parts, PH, k));
loop 12
invariant forall|f: Str| #[trigger] files.dom().contains(f) <==> in_parent(PH, R, f, $k)
hint loop 12: let w = pfiles(R, PH, $k); let w3 = PH[$k]; lemma_mget(R, s.repo, commitHash); assert(R.dom().contains(w3) && files_ok(R[w3]));
loop 13
invariant forall|f: Str| #[trigger] files.dom().contains(f) <==> in_parent(PH, R, f, $k12) || $done.contains(f)
loop 14
invariant s.repo.dom().contains(commitHash) && s.repo.remove(commitHash) =~= old(s.repo).remove(commitHash)
invariant mrecorded(parts, PH, R, commitHash, $done, s.repo[commitHash])
loop 15
invariant forall|i: int| 0 <= i < candidates.len() ==> (#[trigger] candidates[i]).id != 0 && of_parent(PH, R, f, candidates[i])
invariant candidates.len() > 0 <==> in_parent(PH, R, f, $k)
hint loop 15: let w = pfiles(R, PH, $k); let w3 = PH[$k]; lemma_mget(R, s.repo, commitHash); assert(R.dom().contains(w3) && files_ok(R[w3]));
loop 16
invariant $k > 0 ==> res2.id != 0 && of_parent(PH, R, f, res2)

func (*Process).trimGraphAfterCommitProcessed
props C16
ghost D: Set<Str>
ghost Q: Seq<Str>
let K = s.graph.v.Children
let PS = pars(s.graph.v.Parents, commit)
alias s.unloader.repo = s.repo
requires s.graph.id != 0
requires inverse(s.graph.v.Parents, K) && !D.contains(commit) && counts_ok(s.childrenProcessed, K, D) && unneeded(Q, K, D)
requires list_is(s.unloader.toUnload, Q)
callghost Unload.Q = Q + newly(K, D, PS, $k)
ensures [counted] counts_ok(s.childrenProcessed, K, D.insert(commit))
ensures [list] list_is(s.unloader.toUnload, Q + newly(K, D, PS, PS.len() as int))
ensures [unneeded] unneeded(Q + newly(K, D, PS, PS.len() as int), K, D.insert(commit))
ensures [release] released(old(s.repo), s.repo, Q + newly(K, D, PS, PS.len() as int), gone_of(Q), gone_of(Q + newly(K, D, PS, PS.len() as int)))
hint exit: lemma_times(); assert(PS.subrange(0, PS.len() as int) =~= PS); assert forall|p: Str| #[trigger] mget(s.childrenProcessed, p, 0) == count_in(kids(K, p), D) + times(kids(K, p), commit) by { assert(times(kids(K, p), commit) == times(PS, p)); } lemma_counts(s.childrenProcessed, K, D, commit); lemma_unneeded(Q, s.graph.v.Parents, K, D, commit, PS.len() as int);
hint entry: lemma_times();
loop 1
invariant forall|p: Str| #[trigger] mget(s.childrenProcessed, p, 0) == count_in(kids(K, p), D) + times(PS.subrange(0, $k), p)
invariant list_is(s.unloader.toUnload, Q + newly(K, D, PS, $k))
invariant released(old(s.repo), s.repo, Q + newly(K, D, PS, $k), gone_of(Q), gone_of(Q + newly(K, D, PS, $k)))
hint endloop 1: assert forall|p: Str| #[trigger] mget(s.childrenProcessed, p, 0) == count_in(kids(K, p), D) + times(PS.subrange(0, $k + 1), p) by { let w = mget(head(s.childrenProcessed), p, 0); }
hint loop 1: lemma_next_times(PS, $k); assert((Q + newly(K, D, PS, $k)).push(PS[$k]) =~= Q + newly(K, D, PS, $k).push(PS[$k]));
hint endloop 1: let q0 = Q + newly(K, D, PS, $k); if full_at(K, D, PS, $k) { assert(q0.push(PS[$k]) =~= Q + newly(K, D, PS, $k + 1)); lemma_released_step(old(s.repo), head(s.repo), s.repo, q0, PS[$k], gone_of(Q)); }

func (*Process).processGotMergeParts
props C08
ghost D: Set<Str>
ghost Q: Seq<Str>
let G = s.graph.v
let H = old(s.mergePartsCommit)
let PS = pars(s.graph.v.Parents, old(s.mergePartsCommit))
let Q2 = Q + newly(s.graph.v.Children, D, pars(s.graph.v.Parents, old(s.mergePartsCommit)), pars(s.graph.v.Parents, old(s.mergePartsCommit)).len() as int)
ghostvar F0: FileMap
alias s.unloader.repo = s.repo
requires s.timing.id != 0 && s.graph.id != 0
requires inverse(s.graph.v.Parents, s.graph.v.Children) && !D.contains(s.mergePartsCommit) && counts_ok(s.childrenProcessed, s.graph.v.Children, D) && unneeded(Q, s.graph.v.Children, D)
requires list_is(s.unloader.toUnload, Q)
requires mcommit_ok(s.mergeParts, mget(s.graph.v.Parents, s.mergePartsCommit, Seq::empty()), s.repo, s.mergePartsCommit)
callghost trimGraphAfterCommitProcessed.D = D
callghost trimGraphAfterCommitProcessed.Q = Q
ensures [one] resChan.len() == old(resChan).len() + 1 && resChan.drop_last() =~= old(resChan)
ensures [result] merge_result(old(s.mergeParts), PS, old(s.repo), H, resChan.last())
ensures [repo] exists|F: FileMap| #[trigger] merge_recorded(old(s.mergeParts), PS, old(s.repo), H, F) && s.repo =~= unload(old(s.repo).insert(H, F), Q2, gone_of(Q), gone_of(Q2))
ensures [emptied] s.mergeParts.len() == 0
ensures s.timing.id == old(s.timing.id) && s.opts == old(s.opts)
ensures counts_ok(s.childrenProcessed, G.Children, D.insert(H)) && list_is(s.unloader.toUnload, Q2) && unneeded(Q2, G.Children, D.insert(H))
hint after processMergeCommit: set F0 = s.repo[s.mergePartsCommit]
hint after processMergeCommit: assert(merge_recorded(old(s.mergeParts), PS, old(s.repo), H, s.repo[H])); lemma_mget(s.repo, old(s.repo), H); assert(s.repo =~= old(s.repo).insert(H, s.repo[H]));
hint exit: let R1 = old(s.repo).insert(H, F0); assert(merge_recorded(old(s.mergeParts), PS, old(s.repo), H, F0)); lemma_unload(R1, s.repo, Q2, gone_of(Q), gone_of(Q2));

func (*Process).processCommit
props C08
ghost D: Set<Str>
ghost Q: Seq<Str>
let K = old(s.graph.v.Children)
let H = old(s.mergePartsCommit)
let PS = pars(old(s.graph.v.Parents), old(s.mergePartsCommit))
let PEND = (old(s.mergeParts).len() > 0)
let SAME = (old(s.mergeParts).len() > 0 && old(s.mergePartsCommit) == commit.Hash)
let FL = (old(s.mergeParts).len() > 0 && old(s.mergePartsCommit) != commit.Hash)
let REG = (commit.Parents.len() <= 1)
let D1 = (if old(s.mergeParts).len() > 0 { D.insert(old(s.mergePartsCommit)) } else { D })
let Q1 = (if old(s.mergeParts).len() > 0 { Q + newly(old(s.graph.v.Children), D, pars(old(s.graph.v.Parents), old(s.mergePartsCommit)), pars(old(s.graph.v.Parents), old(s.mergePartsCommit)).len() as int) } else { Q })
ghostvar F0: FileMap
ghostvar R0: RepoMap
alias s.unloader.repo = s.repo
requires s.timing.id != 0 && s.graph.id != 0
requires inverse(s.graph.v.Parents, s.graph.v.Children) && counts_ok(s.childrenProcessed, s.graph.v.Children, D) && unneeded(Q, s.graph.v.Children, D) && list_is(s.unloader.toUnload, Q)
requires FL ==> !D.contains(H) && mcommit_ok(s.mergeParts, PS, s.repo, H)
requires REG ==> commit.Parents == pars(s.graph.v.Parents, commit.Hash)
requires !SAME && REG ==> !D1.contains(commit.Hash)
requires !PEND && REG ==> commit_ok(commit, s.repo)
requires FL && REG ==> forall|F: FileMap| #[trigger] merge_recorded(s.mergeParts, PS, s.repo, H, F) ==> commit_ok(commit, unload(s.repo.insert(H, F), Q1, gone_of(Q), gone_of(Q1)))
callghost processGotMergeParts.D = D
callghost processGotMergeParts.Q = Q
callghost trimGraphAfterCommitProcessed.D = D1
callghost trimGraphAfterCommitProcessed.Q = Q1
ensures [same] SAME ==> result == 0 && resChan == old(resChan) && s.mergeParts == old(s.mergeParts).insert(commit.MergeDiffFrom, commit) && s.mergePartsCommit == H && s.repo == old(s.repo)
ensures [count] !SAME ==> resChan.len() == old(resChan).len() + (if FL { 1int } else { 0 }) + (if REG && result == 0 { 1int } else { 0 }) && resChan.subrange(0, old(resChan).len() as int) =~= old(resChan)
ensures [merge result] FL ==> merge_result(old(s.mergeParts), PS, old(s.repo), H, resChan[old(resChan).len() as int])
ensures [regular result] !PEND && REG && result == 0 ==> regular_result(commit, old(s.repo), s.opts.RepoDir, resChan.last())
ensures [regular after merge] FL && REG && result == 0 ==> exists|F: FileMap| #[trigger] merge_recorded(old(s.mergeParts), PS, old(s.repo), H, F) && regular_result(commit, unload(old(s.repo).insert(H, F), Q1, gone_of(Q), gone_of(Q1)), s.opts.RepoDir, resChan.last())
ensures [new merge] !SAME && !REG ==> result == 0 && s.mergePartsCommit == commit.Hash && s.mergeParts =~= Map::<Str, parser_Commit>::empty().insert(commit.MergeDiffFrom, commit)
ensures [none pending] !SAME && REG && result == 0 ==> s.mergeParts.len() == 0
hint after processGotMergeParts: set F0 = choose|F: FileMap| #[trigger] merge_recorded(old(s.mergeParts), PS, old(s.repo), H, F) && s.repo =~= unload(old(s.repo).insert(H, F), Q1, gone_of(Q), gone_of(Q1))
hint after processGotMergeParts: assert(merge_recorded(old(s.mergeParts), PS, old(s.repo), H, F0) && s.repo == unload(old(s.repo).insert(H, F0), Q1, gone_of(Q), gone_of(Q1)));
hint exit: if FL && REG && result == 0 { assert(merge_recorded(old(s.mergeParts), PS, old(s.repo), H, F0)); }
