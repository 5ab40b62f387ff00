package ripsrc/branches2
func (*Process).RunSlice
view C25
requires s.opts.Concurrency >= 1
ghostvar G: Seq<branches2_Branch>
ensures [all] result0 == G
hint entry: set G = Seq::empty()
hint after Run: set G = resChan
loop 1
invariant res == $src1.subrange(0, $k)
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
hint endloop 1: assert(res =~= $src1.subrange(0, $k + 1));

package ripsrc
theory stream.rs
func (*Ripsrc).prepareGitExec
view C25
opaque

func (*Ripsrc).buildCommitGraph
view C25
opaque

func (*Ripsrc).Branches
view C25
closes res
ghostvar G: Seq<branches2_Branch>
requires res.len() == 0
ensures [all] res == G
hint entry: set G = Seq::empty()
hint after Run: set G = res2
loop 1
invariant res == $src1.subrange(0, $k)
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
hint endloop 1: assert(res =~= $src1.subrange(0, $k + 1));

func (*Ripsrc).BranchesSlice
view C25
ghostvar G: Seq<branches2_Branch>
ensures [all] result0 == G
hint entry: set G = Seq::empty()
hint after Branches: set G = resChan
loop 1
invariant res == $src1.subrange(0, $k)
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
hint endloop 1: assert(res =~= $src1.subrange(0, $k + 1));

func (*Ripsrc).getCommitInfo
view C25
opaque

func (*Ripsrc).codeInfoFiles
view C25
opaque

func (*Ripsrc).codeInfoFile
view C25
trusted
assume the contents of a record are decided elsewhere (C20)

func blameToFileContent
view C25
opaque

func blameToByteLines
view C25
opaque

func (*Ripsrc).CodeByCommit
view C25
closes res
maypanic C25
ghostvar G: Seq<process_Result>
ghostvar A: Seq<process_Result>
ghostvar M: Seq<Seq<ripsrc_BlameResult>>
ghostvar CALLED: bool
requires res.len() == 0
ensures [called] result == 0 ==> CALLED
ensures [each] A == G && res.len() == G.len() && forall|i: int| 0 <= i < G.len() ==> (#[trigger] res[i]).Blames == M[i] && commit_of(s.commitMeta, G[i].Commit, res[i])
hint entry: set G = Seq::empty(); set A = Seq::empty(); set M = Seq::empty(); set CALLED = false
hint after Run: set G = gitRes; set CALLED = true
loop 1
invariant A == $src1.subrange(0, $k) && res.len() == $k && M.len() == $k && forall|i: int| 0 <= i < $k ==> (#[trigger] res[i]).Blames == M[i] && commit_of(s.commitMeta, $src1[i].Commit, res[i])
hint after codeInfoFiles: set A = A.push($arg0); set M = M.push($ret)
hint endloop 1: assert(A =~= $src1.subrange(0, $k + 1));
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
loop 2
invariant rc.Blames == rs.subrange(0, $k)
hint endloop 2: assert(rc.Blames =~= rs.subrange(0, $k + 1));
hint done 2: assert(rs.subrange(0, rs.len() as int) =~= rs);

func (*Ripsrc).Code
view C25
closes res
ghostvar G: Seq<ripsrc_CommitCode>
ghostvar CALLED: bool
requires res.len() == 0
ensures [all] res == flat(G)
ensures [called] CALLED
hint entry: set G = Seq::empty(); set CALLED = false
hint after CodeByCommit: set G = res2; set CALLED = true
loop 1
invariant res == flat($src1.subrange(0, $k1))
hint before loop 1: lemma_flat_empty();
hint endloop 1: lemma_flat_step($src1, $k1); assert($src1[$k1].Blames.subrange(0, $src1[$k1].Blames.len() as int) =~= $src1[$k1].Blames);
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
loop 2
invariant res == flat($src1.subrange(0, $k1)) + $src2.subrange(0, $k2)
hint before loop 2: assert(flat($src1.subrange(0, $k1)) + $src1[$k1].Blames.subrange(0, 0) =~= flat($src1.subrange(0, $k1)));
hint endloop 2: assert(res =~= flat($src1.subrange(0, $k1)) + $src2.subrange(0, $k2 + 1));

func (*Ripsrc).CodeSlice
view C25
ghostvar G: Seq<ripsrc_BlameResult>
ensures [all] result0 == G
hint entry: set G = Seq::empty()
hint after Code: set G = resChan
loop 1
invariant res == $src1.subrange(0, $k)
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
hint endloop 1: assert(res =~= $src1.subrange(0, $k + 1));

package ripsrc/gitexec
func Prepare
view C25
trusted
assume the repository has a head commit, or the call fails (gitexec.Prepare)

func ExecPiped
view C25
trusted
assume git runs the command and gives its output, or fails (gitexec.ExecPiped)

package ripsrc/fileinfo
func (*Process).GetInfo
view C25
trusted
assume what is found out about a file is decided elsewhere (C19)

package ripsrc/commitmeta
func (*Processor).RunMap
view C25
trusted
assume the records of the commits are read from git's log, or the call fails (commitmeta.RunMap)

package ripsrc/history3/process/parser
func (*Parser).Run
view C25
closes res
opaque

package ripsrc/history3/process/repo
func (*CheckpointReader).Read
view C25
trusted
assume the checkpoint is read or the call fails (C14, C15)

func (*CheckpointWriter).Write
view C25
trusted
assume the checkpoint is written or the call fails (C14, C15)

func (*Unloader).Unload
view C25
opaque

package ripsrc/parentsgraph
func (*Graph).Read
view C25
trusted
assume the commits' parents are read or the call fails (C09)

package ripsrc/history3/incblame
func Parse
view C25
opaque

func Apply
view C25
opaque

func ApplyMerge
view C25
opaque

func BlameBinaryFile
view C25
opaque

package ripsrc/history3/process
theory stream2.rs
func (*Process).slowGitBlame
view C25
trusted
assume git blame gives the lines of the file, or fails

func (*Process).gitLogPatches
view C25
trusted
assume git log gives its output, or fails

func (*Timing).UpdateSlowestCommitsWith
view C25
trusted
assume the time statistics are not looked at

func (*Process).trimGraphAfterCommitProcessed
view C25
opaque

func (*Process).processRegularCommit
view C25
ensures [commit] result1 == 0 ==> result0.Commit == commit.Hash
loop 1
loop 2

func (*Process).processMergeCommit
view C25
ensures [commit] result1 == 0 ==> result0.Commit == commitHash
loop 1
loop 2
loop 3
loop 4
loop 5
loop 6
loop 7
loop 8
loop 9
loop 10
loop 11
loop 12
loop 13
loop 14
loop 15
loop 16

func (*Process).processGotMergeParts
view C25
ensures [one] resChan.len() == old(resChan).len() + 1 && begins_with(resChan, old(resChan)) && resChan.last().Commit == old(s.mergePartsCommit)
ensures [emptied] s.mergeParts.len() == 0

func (*Process).processCommit
view C25
let H = old(s.mergePartsCommit)
let SAME = (old(s.mergeParts).len() > 0 && old(s.mergePartsCommit) == commit.Hash)
let FL = (old(s.mergeParts).len() > 0 && old(s.mergePartsCommit) != commit.Hash)
let REG = (commit.Parents.len() <= 1)
ensures [same] SAME ==> result == 0 && resChan == old(resChan) && s.mergeParts.len() > 0 && s.mergePartsCommit == H
ensures [count] !SAME ==> resChan.len() == old(resChan).len() + (if FL { 1int } else { 0 }) + (if REG && result == 0 { 1int } else { 0 }) && begins_with(resChan, old(resChan))
ensures [merge] FL ==> resChan[old(resChan).len() as int].Commit == H
ensures [regular] !SAME && REG && result == 0 ==> resChan.last().Commit == commit.Hash && s.mergeParts.len() == 0
ensures [new] !SAME && !REG ==> result == 0 && s.mergeParts.len() > 0 && s.mergePartsCommit == commit.Hash

func (*Process).Run
view C25
closes resChan
ghostvar L: Seq<parser_Commit>
ghostvar N: int
ghostvar DONE: bool
ghostvar PE: int
let P = s.graph.v.Parents
let GR = group($src1, P, $k)
requires resChan.len() == 0 && s.mergeParts.len() == 0
ensures [all] result == 0 ==> DONE && hashes_are(resChan, settled(group(L, P, L.len() as int)))
ensures [failed] DONE && PE != 0 ==> result != 0
ensures [prefix] result != 0 ==> 0 <= N <= L.len() && first_hashes_are(resChan, group(L, P, N))
hint entry: set L = Seq::empty(); set DONE = false; set N = 0; set PE = 0
hint after (*Parser).Run: set PE = $ret
loop 1
invariant hashes_are(resChan, group($src1, P, $k).out)
invariant group($src1, P, $k).pend == (s.mergeParts.len() > 0)
invariant s.mergeParts.len() > 0 ==> s.mergePartsCommit == group($src1, P, $k).h
hint loop 1: set L = $src1; set N = $k; assert(group($src1, P, $k + 1) == group_step(group($src1, P, $k), $src1[$k].Hash, mget(P, $src1[$k].Hash, Seq::empty()).len() > 1));
hint done 1: set L = $src1; set DONE = true; set N = $src1.len() as int
loop 2
loop 3
