package ripsrc/branches2
theory pool.rs

func uniqueStrings
props C24
ensures [once] no_dups(result)
ensures [all] forall|x: Str| #[trigger] result.contains(x) <==> arr1.contains(x)
loop 1
invariant forall|x: Str| #[trigger] m.dom().contains(x) <==> arr1.subrange(0, $k).contains(x)
hint loop 1: lemma_next_contains(arr1, $k);
hint done 1: assert(arr1.subrange(0, arr1.len() as int) =~= arr1);
loop 2
invariant no_dups(res)
invariant forall|x: Str| #[trigger] res.contains(x) <==> $done.contains(x)
hint loop 2: lemma_push_contains(res, s); lemma_push_nodups(res, s);

func (*Process).processBranch
view C24 C25
let R = resChan.last()
let X = nameAndHash
ensures result == 0
ensures [one] resChan.len() >= old(resChan).len() && is_out(X, s.opts.CommitGraph.v.Parents, resChan.skip(old(resChan).len() as int)) && resChan.subrange(0, old(resChan).len() as int) =~= old(resChan)

func branchCommits
view C24 C25
opaque

func behindBranch
view C24 C25
opaque

func getMergeCommit
view C24 C25
opaque

func getAllCommits
view C24 C25
opaque

func newReachableFromHead
view C24 C25
opaque

func branchID
view C24 C25
opaque

func hash
view C24 C25
trusted

func execCommand
view C24 C25
trusted

func (*Process).getNamesAndHashes
view C24 C25
ownret
ghostvar L: Seq<branchmeta_BranchWithCommitTime>
ensures [listed] result1 == 0 ==> result0.len() == L.len() && forall|i: int| 0 <= i < L.len() ==> (#[trigger] result0[i]).Name == L[i].Name && result0[i].Commit == L[i].Commit
hint after Get: set L = $ret
loop 1
invariant res.len() == $k && forall|i: int| 0 <= i < $k ==> (#[trigger] res[i]).Name == L[i].Name && res[i].Commit == L[i].Commit

func (*Process).Run
view C24 C25
closes res
shared lastErr by lastErrMu: lastErr == 0
each [one] is_out($item, s.opts.CommitGraph.v.Parents, $sent)
ghostvar N: Seq<branches2_nameAndHash>
ghostvar U: Seq<Str>
ghostvar B: Seq<branches2_Branch>
let G = s.opts.CommitGraph.v.Parents
let DEF = (!s.opts.PullRequestsOnly && s.opts.IncludeDefaultBranch)
requires res.len() == 0 && s.opts.Concurrency >= 1
ensures [default] result == 0 ==> (if DEF { res.len() >= 1 && res[0].IsDefault && res[0].Name == s.defaultBranch.Name && res[0].HeadSHA == s.defaultBranch.Commit } else { true })
ensures [once] result == 0 ==> each_once(work_items(N, U), G, res.skip(if DEF { 1int } else { 0int })) && (s.opts.PullRequestsOnly ==> N.len() == 0)
ensures [requested] result == 0 ==> no_dups(U) && forall|x: Str| #[trigger] U.contains(x) <==> s.opts.PullRequestSHAs.contains(x)
ensures [error] result != 0 ==> res.len() <= 1
hint entry: set N = Seq::empty()
hint after getNamesAndHashes: set N = $ret
hint after uniqueStrings: set U = $ret
loop 1
invariant namesAndHashes == work_items(N, U.subrange(0, $k))
hint before loop 1: assert(work_items(N, U.subrange(0, 0)) =~= N);
hint endloop 1: assert(work_items(N, U.subrange(0, $k + 1)) =~= work_items(N, U.subrange(0, $k)).push(branches2_nameAndHash { Name: str_empty(), Commit: U[$k] }));
hint done 1: assert(U.subrange(0, U.len() as int) =~= U);
hint done pool: assert(forall|i: int| 0 <= i < $items.len() ==> is_out($items[i], G, #[trigger] $outs[i])); assert(each_once($items, G, $sent)); assert(res.skip(if DEF { 1int } else { 0int }) =~= $sent); assert($items =~= work_items(N, U));
loop 2
loop 3
invariant res == s.subrange(0, $k)
loop 4

func New
props C24 C25
ownret
ensures result.opts.Concurrency >= 1 || opts.Concurrency < 0

package ripsrc/branchmeta
func GetDefault
view C24 C25
trusted
assume git names the default branch, or fails (branchmeta.GetDefault)

func Get
view C24 C25
trusted
assume git lists the branches, or fails (branchmeta.Get)

extern runtime
func NumCPU
trusted
ensures result >= 1
assume the machine has a processor
