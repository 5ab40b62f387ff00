package ripsrc/gitblame2
theory listing.rs blame.rs
heap os/exec.Cmd

func parseOutput
props C18 C07 C08
soft C07 C08
ghost E: Seq<BEntry>
requires is_blame(data, E)
ensures [lines] result.len() == E.len() && forall|k: int| 0 <= k < E.len() ==> (#[trigger] result[k]).CommitHash == E[k].commit && result[k].Content == E[k].content
let N = E.len() as int
hint entry: lemma_blame_split(data, E);
loop 1
invariant 0 <= $k <= N && i == bstart(E, $k) && res.len() == $k
invariant forall|k: int| 0 <= k < $k ==> (#[trigger] res[k]).CommitHash == E[k].commit && res[k].Content == E[k].content
hint head 1: if $k < N { lemma_bentry(E, $k); lemma_blame_head(E[$k]); assert(bentry_ok(E[$k])); }
loop 2
invariant 0 <= $k2 <= E[$k1].metas.len() && i == bstart(E, $k1) + $k2
invariant rl.CommitHash == E[$k1].commit
hint head 2: if $k2 < E[$k1].metas.len() { let w = E[$k1].metas[$k2]; }

func Run
props C18 C07 C08
soft C07 C08
let E = git_blame(repoDir, commitHash, file)
callghost parseOutput.E = E
maypanic
hint entry: let w = blame_args(commitHash, file);
ensures [lines] result1 == 0 ==> result0.Lines.len() == E.len() && forall|k: int| 0 <= k < E.len() ==> (#[trigger] result0.Lines[k]).CommitHash == E[k].commit && result0.Lines[k].Content == E[k].content
loop 1
invariant res.Lines.len() == $k && forall|k: int| 0 <= k < $k ==> (#[trigger] res.Lines[k]).CommitHash == E[k].commit && res.Lines[k].Content == E[k].content
