package ripsrc/branches2
theory graph.rs

func newReachableFromHead
props C10 C12 C13
let G = gr.Parents
ensures [reach] forall|x: Str| mget(result, x, false) == anc(G, defaultHead, x)
hint exit: lemma_reach_closed(G, Set::empty(), is_in(done), defaultHead);

func newReachableFromHead.rec1
let G = gr.Parents
requires res == done
ensures res == done
ensures forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
ensures mget(done, hash, false)
ensures forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> anc(G, hash, x)
ensures forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
hint entry: lemma_reach_refl(G, Set::empty(), hash);
loop 1
invariant res == done
invariant forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
invariant mget(done, hash, false)
invariant forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> anc(G, hash, x)
invariant forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && x != hash && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
invariant forall|i: int| 0 <= i < $k ==> mget(done, #[trigger] pars(G, hash)[i], false)
hint loop 1: lemma_anc_first(G, hash, $k);

func behindBranch
props C12
let G = gr.Parents
ensures [count] is_behind(G, defaultHead, branchHead, result)
hint before behindBranch.rec1: assert(counted(done, rfb) =~= Set::empty());
hint exit: lemma_behind(G, defaultHead, branchHead, done, rfb);

func behindBranch.rec1
let G = gr.Parents
requires res == counted(done, rfb).len()
ensures res == counted(done, rfb).len()
ensures forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
ensures mget(done, hash, false)
ensures forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> anc(G, hash, x)
ensures forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && !mget(rfb, x, false) && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
hint entry: lemma_reach_refl(G, Set::empty(), hash); if !mget(done, hash, false) { lemma_counted(done, rfb, hash); }
loop 1
invariant res == counted(done, rfb).len()
invariant forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
invariant mget(done, hash, false)
invariant forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> anc(G, hash, x)
invariant forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && !mget(rfb, x, false) && x != hash && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
invariant forall|i: int| 0 <= i < $k ==> mget(done, #[trigger] pars(G, hash)[i], false)
hint loop 1: lemma_anc_first(G, hash, $k);

func reverseStrings
props C10 C11 C12 C13
own arr
ensures arr.len() == old(arr).len()
ensures forall|i: int| 0 <= i < arr.len() ==> #[trigger] arr[i] == old(arr)[arr.len() - 1 - i]
ensures forall|x: Str| #[trigger] arr.contains(x) <==> old(arr).contains(x)
ensures no_dups(old(arr)) ==> no_dups(arr)
hint exit: lemma_reversed(old(arr), arr);
loop 1
invariant arr.len() == old(arr).len() && i == $k && j == arr.len() - 1 - $k && 2 * $k <= arr.len() + 1
invariant forall|q: int| 0 <= q < arr.len() ==> #[trigger] arr[q] == old(arr)[if $k <= q < arr.len() - $k { q } else { arr.len() - 1 - q }]

func toSet
props C10 C11 C12 C13
ensures forall|x: Str| #[trigger] mget(result, x, false) == arr.contains(x)
ensures forall|x: Str| #[trigger] result.dom().contains(x) ==> arr.contains(x)
ensures forall|x: Str| #[trigger] arr.contains(x) ==> result.dom().contains(x)
hint exit: assert forall|x: Str| #[trigger] arr.contains(x) implies result.dom().contains(x) by { assert(mget(result, x, false)); }
loop 1
invariant forall|x: Str| #[trigger] mget(res, x, false) == arr.subrange(0, $k).contains(x)
invariant forall|x: Str| #[trigger] res.dom().contains(x) ==> arr.subrange(0, $k).contains(x)
hint loop 1: lemma_next_contains(arr, $k); lemma_mget_insert(res, arr[$k], true, false);
hint done 1: assert(arr.subrange(0, arr.len() as int) =~= arr);

func branchCommits
props C10 C11 C12 C13
ghost rk: Map<Str, int>
callghost dedupLinearFromHead.rk = rk
let G = gr.Parents
requires is_whole(G) && ranked(G, rk) && G.dom().contains(branchHead) && G.dom().contains(defaultHead)
requires forall|x: Str| mget(reachableFromHead, x, false) == #[trigger] anc(G, defaultHead, x)
ensures [C10 C12 C13 once] no_dups(result0)
ensures [C10 C11 C12 C13 last] result0.len() > 0 && result0.last() == branchHead
ensures [C10 commits] forall|x: Str| #[trigger] result0.contains(x) <==> in_branch(G, defaultHead, branchHead, x)
ensures [C11 points] forall|x: Str| #[trigger] result1.contains(x) <==> branch_point(G, defaultHead, branchHead, x)
ensures [C11 sorted] no_dups(result1) && is_str_sorted(result1)
ensures [C12 shared] shares(G, defaultHead, branchHead) && !anc(G, defaultHead, branchHead) ==> result1.len() > 0
hint after branchCommits.rec1: lemma_cut(G, defaultHead, branchHead, reachableFromHead);
hint after branchCommits.rec2: lemma_branch(G, defaultHead, branchHead, commitsDone, reachableFromHead, branchedFrom);
hint before dedupLinearFromHead: assert forall|i: int| 0 <= i < branchedFrom.len() implies anc(G, branchHead, #[trigger] branchedFrom[i]) by { assert(branchedFrom.contains(branchedFrom[i])); } lemma_points(G, defaultHead, branchHead, branchedFrom); if shares(G, defaultHead, branchHead) && !anc(G, defaultHead, branchHead) { lemma_shares(G, defaultHead, branchHead, branchedFrom); }

func branchCommits.rec1
let G = gr.Parents
requires reachableFromHead == done && is_whole(G) && G.dom().contains(hash)
ensures reachableFromHead == done
ensures forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
ensures mget(done, hash, false)
ensures forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> reach(G, Set::empty().insert(branchHead), hash, x)
ensures forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && x != branchHead && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
hint entry: lemma_reach_refl(G, Set::empty().insert(branchHead), hash);
loop 1
invariant reachableFromHead == done
invariant forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
invariant mget(done, hash, false)
invariant forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> reach(G, Set::empty().insert(branchHead), hash, x)
invariant forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && x != branchHead && x != hash && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
invariant forall|i: int| 0 <= i < $k ==> mget(done, #[trigger] pars(G, hash)[i], false)
hint loop 1: lemma_cut_first(G, branchHead, hash, $k);

func branchCommits.rec2
own commits
own branchedFrom
let G = gr.Parents
let R = reachableFromHead
requires is_whole(G) && G.dom().contains(hash)
requires forall|x: Str| #[trigger] commits.contains(x) <==> mget(commitsDone, x, false)
requires no_dups(commits)
requires forall|y: Str| #[trigger] branchedFrom.contains(y) ==> mget(R, y, false) && exists|c: Str| #[trigger] mget(commitsDone, c, false) && pars(G, c).contains(y)
ensures forall|x: Str| #[trigger] commits.contains(x) <==> mget(commitsDone, x, false)
ensures no_dups(commits)
ensures forall|y: Str| #[trigger] branchedFrom.contains(y) ==> mget(R, y, false) && exists|c: Str| #[trigger] mget(commitsDone, c, false) && pars(G, c).contains(y)
ensures old(commits).len() <= commits.len() && forall|i: int| 0 <= i < old(commits).len() ==> #[trigger] commits[i] == old(commits)[i]
ensures !mget(old(commitsDone), hash, false) ==> old(commits).len() < commits.len() && commits[old(commits).len() as int] == hash
ensures forall|x: Str| #[trigger] mget(old(commitsDone), x, false) ==> mget(commitsDone, x, false)
ensures mget(commitsDone, hash, false)
ensures forall|y: Str| #[trigger] old(branchedFrom).contains(y) ==> branchedFrom.contains(y)
ensures forall|x: Str| #[trigger] mget(commitsDone, x, false) && !mget(old(commitsDone), x, false) ==> anc(G, hash, x) && (x == hash || !mget(R, x, false))
ensures forall|x: Str, i: int| mget(commitsDone, x, false) && !mget(old(commitsDone), x, false) && 0 <= i < pars(G, x).len() ==> if mget(R, pars(G, x)[i], false) { branchedFrom.contains(#[trigger] pars(G, x)[i]) } else { mget(commitsDone, pars(G, x)[i], false) }
hint entry: lemma_anc_refl(G, hash); lemma_push_contains(commits, hash); lemma_push_nodups(commits, hash); lemma_mget_grow(commitsDone, hash);
loop 1
invariant forall|x: Str| #[trigger] commits.contains(x) <==> mget(commitsDone, x, false)
invariant no_dups(commits)
invariant forall|y: Str| #[trigger] branchedFrom.contains(y) ==> mget(R, y, false) && exists|c: Str| #[trigger] mget(commitsDone, c, false) && pars(G, c).contains(y)
invariant old(commits).len() < commits.len() && commits[old(commits).len() as int] == hash && forall|i: int| 0 <= i < old(commits).len() ==> #[trigger] commits[i] == old(commits)[i]
invariant forall|x: Str| #[trigger] mget(old(commitsDone), x, false) ==> mget(commitsDone, x, false)
invariant mget(commitsDone, hash, false)
invariant forall|y: Str| #[trigger] old(branchedFrom).contains(y) ==> branchedFrom.contains(y)
invariant forall|x: Str| #[trigger] mget(commitsDone, x, false) && !mget(old(commitsDone), x, false) ==> anc(G, hash, x) && (x == hash || !mget(R, x, false))
invariant forall|x: Str, i: int| mget(commitsDone, x, false) && !mget(old(commitsDone), x, false) && x != hash && 0 <= i < pars(G, x).len() ==> if mget(R, pars(G, x)[i], false) { branchedFrom.contains(#[trigger] pars(G, x)[i]) } else { mget(commitsDone, pars(G, x)[i], false) }
invariant i == pars(G, hash).len() - 1 - $k
invariant forall|q: int| i < q < pars(G, hash).len() ==> if mget(R, pars(G, hash)[q], false) { branchedFrom.contains(#[trigger] pars(G, hash)[q]) } else { mget(commitsDone, pars(G, hash)[q], false) }
hint loop 1: lemma_anc_first(G, hash, i); lemma_push_contains(branchedFrom, pars(G, hash)[i]);

func dedupLinearFromHead
props C10 C11 C12 C13
ghost rk: Map<Str, int>
let G = gr.Parents
requires ranked(G, rk)
requires forall|i: int| 0 <= i < commits.len() ==> anc(G, defaultHead, #[trigger] commits[i])
ensures [C11 points] forall|x: Str| #[trigger] result.contains(x) <==> outermost(G, commits, x)
ensures [C11 sorted] no_dups(result) && is_str_sorted(result)
ensures [C12 some] commits.len() > 0 ==> result.len() > 0
hint exit: if commits.len() > 0 { lemma_some_outermost(G, rk, commits); let x = choose|x: Str| commits.contains(x) && #[trigger] outermost(G, commits, x); assert(result.contains(x)); }
hint after dedupLinearFromHead.rec1: lemma_all_in(G, hasDeep, defaultHead);
loop 1
invariant forall|x: Str| #[trigger] dup.dom().contains(x) <==> $done.contains(x)
invariant forall|x: Str| #[trigger] $done.contains(x) ==> mget(dup, x, false) == !outermost(G, commits, x)
hint loop 1: lemma_outermost(G, commits, h);
loop 2
invariant d == parent_sees(G, commits, h, $k)
hint done 2: assert(pars(G, h) == mget(G, h, Seq::empty()));
loop 3
invariant no_dups(res)
invariant forall|x: Str| #[trigger] res.contains(x) <==> $done.contains(x) && !mget(dup, x, false)
hint loop 3: lemma_push_contains(res, c); lemma_push_nodups(res, c);
hint after sort: lemma_str_sorted($unsorted); lemma_sorted_nodups($unsorted, $sorted);

func dedupLinearFromHead.rec1
ghost rk: Map<Str, int>
callghost dedupLinearFromHead.rec1.rk = rk
let G = gr.Parents
requires ranked(G, rk)
requires forall|x: Str| #[trigger] mget(commitsHash, x, false) == commits.contains(x)
requires forall|x: Str| #[trigger] hasDeep.dom().contains(x) ==> mget(done, x, false) && mget(hasDeep, x, false) == sees(G, commits, x)
requires forall|x: Str| #[trigger] mget(done, x, false) && !hasDeep.dom().contains(x) ==> rk[x] > rk[hash]
ensures forall|x: Str| #[trigger] hasDeep.dom().contains(x) ==> mget(done, x, false) && mget(hasDeep, x, false) == sees(G, commits, x)
ensures forall|x: Str| #[trigger] mget(done, x, false) && !hasDeep.dom().contains(x) <==> mget(old(done), x, false) && !old(hasDeep).dom().contains(x)
ensures forall|x: Str| #[trigger] old(hasDeep).dom().contains(x) ==> hasDeep.dom().contains(x)
ensures forall|x: Str, i: int| hasDeep.dom().contains(x) && !old(hasDeep).dom().contains(x) && 0 <= i < pars(G, x).len() ==> hasDeep.dom().contains(#[trigger] pars(G, x)[i])
ensures hasDeep.dom().contains(hash) && result == sees(G, commits, hash)
loop 1
invariant forall|x: Str| #[trigger] hasDeep.dom().contains(x) ==> mget(done, x, false) && mget(hasDeep, x, false) == sees(G, commits, x)
invariant forall|x: Str| #[trigger] mget(done, x, false) && !hasDeep.dom().contains(x) <==> x == hash || (mget(old(done), x, false) && !old(hasDeep).dom().contains(x))
invariant forall|x: Str| #[trigger] old(hasDeep).dom().contains(x) ==> hasDeep.dom().contains(x)
invariant forall|x: Str, i: int| hasDeep.dom().contains(x) && !old(hasDeep).dom().contains(x) && 0 <= i < pars(G, x).len() ==> hasDeep.dom().contains(#[trigger] pars(G, x)[i])
invariant forall|i: int| 0 <= i < $k ==> hasDeep.dom().contains(#[trigger] pars(G, hash)[i])
invariant has == (commits.contains(hash) || parent_sees(G, commits, hash, $k))
hint loop 1: assert(pars(G, hash)[$k] == mget(G, hash, Seq::empty())[$k]); assert(rk[pars(G, hash)[$k]] < rk[hash]);
hint done 1: lemma_sees(G, commits, hash); assert(pars(G, hash) == mget(G, hash, Seq::empty()));

func getMergeCommit
props C13
requires gr.Children.dom().contains(branchHead)
let K = gr.Children
ensures [child] (K[branchHead].contains(result) && mget(reachableFromHead, result, false)) || (result.len() == 0 && forall|i: int| 0 <= i < K[branchHead].len() ==> !mget(reachableFromHead, #[trigger] K[branchHead][i], false))
loop 1
invariant forall|i: int| 0 <= i < $k ==> !mget(reachableFromHead, #[trigger] K[branchHead][i], false)

func hash
trusted
ensures result == sha_hex(s)

func branchID
props C13
ensures [id] result == branch_id(name, branchedFrom)
hint exit: lemma_branch_id(name, branchedFrom);

func getAllCommits
props C10
let G = gr.Parents
requires is_whole(G) && G.dom().contains(head)
ensures [once] no_dups(result)
ensures [last] result.len() > 0 && result.last() == head
ensures [all] forall|x: Str| #[trigger] result.contains(x) <==> anc(G, head, x)
hint after getAllCommits.rec1: lemma_reach_closed(G, Set::empty(), is_in(done), head); lemma_all_marked(G, head, done);

func getAllCommits.rec1
own res
let G = gr.Parents
requires is_whole(G) && G.dom().contains(h)
requires forall|x: Str| #[trigger] res.contains(x) <==> mget(done, x, false)
requires no_dups(res)
ensures forall|x: Str| #[trigger] res.contains(x) <==> mget(done, x, false)
ensures no_dups(res)
ensures old(res).len() <= res.len() && forall|i: int| 0 <= i < old(res).len() ==> #[trigger] res[i] == old(res)[i]
ensures !mget(old(done), h, false) ==> old(res).len() < res.len() && res[old(res).len() as int] == h
ensures forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
ensures mget(done, h, false)
ensures forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> anc(G, h, x)
ensures forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
hint entry: lemma_anc_refl(G, h); lemma_push_contains(res, h); lemma_push_nodups(res, h); lemma_mget_grow(done, h);
loop 1
invariant forall|x: Str| #[trigger] res.contains(x) <==> mget(done, x, false)
invariant no_dups(res)
invariant old(res).len() < res.len() && res[old(res).len() as int] == h && forall|i: int| 0 <= i < old(res).len() ==> #[trigger] res[i] == old(res)[i]
invariant forall|x: Str| #[trigger] mget(old(done), x, false) ==> mget(done, x, false)
invariant mget(done, h, false)
invariant forall|x: Str| #[trigger] mget(done, x, false) && !mget(old(done), x, false) ==> anc(G, h, x)
invariant forall|x: Str, i: int| mget(done, x, false) && !mget(old(done), x, false) && x != h && 0 <= i < pars(G, x).len() ==> mget(done, #[trigger] pars(G, x)[i], false)
invariant i == pars(G, h).len() - 1 - $k
invariant forall|q: int| i < q < pars(G, h).len() ==> mget(done, #[trigger] pars(G, h)[q], false)
hint loop 1: lemma_anc_first(G, h, i);

func (*Process).processBranch
props C10 C11 C12 C13
ghost rk: Map<Str, int>
callghost branchCommits.rk = rk
let G = s.opts.CommitGraph.v.Parents
let D = s.defaultBranch.Commit
let B = nameAndHash.Commit
let R = resChan.last()
requires is_whole(G) && ranked(G, rk) && G.dom().contains(D) && s.opts.CommitGraph.id > 0
requires forall|x: Str| mget(s.reachableFromHead, x, false) == #[trigger] anc(G, D, x)
requires nameAndHash.Name.len() > 0 ==> G.dom().contains(B)
hint entry: assert(nameAndHash.Name.len() == 0 ==> nameAndHash.Name =~= Seq::empty());
requires forall|x: Str| #[trigger] G.dom().contains(x) ==> s.opts.CommitGraph.v.Children.dom().contains(x)
ensures result == 0
ensures [skipped] !G.dom().contains(B) ==> resChan == old(resChan)
ensures [one] G.dom().contains(B) ==> resChan == old(resChan).push(R) && R.Name == nameAndHash.Name && R.HeadSHA == B && R.IsPullRequest == (R.Name.len() == 0) && !R.IsDefault
ensures [C10 commits] G.dom().contains(B) ==> no_dups(R.Commits) && R.Commits.last() == B && forall|x: Str| #[trigger] R.Commits.contains(x) <==> in_branch(G, D, B, x)
ensures [C11 points] G.dom().contains(B) ==> no_dups(R.BranchedFromCommits) && is_str_sorted(R.BranchedFromCommits) && forall|x: Str| #[trigger] R.BranchedFromCommits.contains(x) <==> branch_point(G, D, B, x)
ensures [C12 behind] G.dom().contains(B) && !anc(G, D, B) && shares(G, D, B) ==> is_behind(G, D, B, R.BehindDefaultCount)
ensures [C12 merged] G.dom().contains(B) && anc(G, D, B) ==> R.BehindDefaultCount == 0
ensures [C12 ahead] G.dom().contains(B) ==> R.AheadDefaultCount == R.Commits.len()
ensures [C13 merged] G.dom().contains(B) ==> R.IsMerged == anc(G, D, B)
ensures [C13 merge_commit] G.dom().contains(B) && R.IsMerged ==> merge_commit_ok(G, D, s.opts.CommitGraph.v.Children[B], R.MergeCommit)
ensures [C13 not_merged] G.dom().contains(B) && !R.IsMerged ==> R.MergeCommit.len() == 0
ensures [C13 first] G.dom().contains(B) ==> R.FirstCommit == R.Commits[0]
ensures [C13 id] G.dom().contains(B) ==> R.BranchID == if R.Name.len() == 0 { Seq::empty() } else { branch_id(R.Name, R.BranchedFromCommits) }
