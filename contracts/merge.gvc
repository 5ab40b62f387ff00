package ripsrc/history3/incblame
theory patch.rs merge.rs

func ApplyMerge
props C03 C04
requires merge_ok(parents, diffs, commit)
ensures [C03 C08 lines] result.Lines.len() == pv(parents, diffs, commit, 0).len() && (forall|q: int| 0 <= q < result.Lines.len() ==> (#[trigger] lvs(result.Lines)[q]).c == pv(parents, diffs, commit, 0)[q].c)
ensures [C03 C08 attribution] forall|q: int| 0 <= q < result.Lines.len() ==> (#[trigger] lvs(result.Lines)[q]).by == merged_by(parents, diffs, commit, q, 0)
ensures [C03 C08 commit] nonnil(result.Lines) && result.Commit == commit && !result.IsBinary
let P0 = pv(parents, diffs, commit, 0)
loop 1
loop 2
loop 3
invariant cand.len() == $k
invariant forall|j: int| 0 <= j < $k ==> nonnil((#[trigger] cand[j]).Lines) && lvs(cand[j].Lines) == pv(parents, diffs, commit, j) && cand[j].Commit == commit && !cand[j].IsBinary
hint loop 3: let w = parents[$k]; let w2 = diffs[$k];
loop 4
loop 5
hint loop 5: let w = pv(parents, diffs, commit, $k); let w2 = pv(parents, diffs, commit, 0);
loop 6
invariant nonnil(cand[0].Lines) && cand.len() == parents.len() && cand[0].Lines.len() == P0.len() && cand[0].Commit == commit && !cand[0].IsBinary
invariant forall|j: int| 1 <= j < cand.len() ==> #[trigger] cand[j] == pre(cand)[j]
invariant forall|q: int| $k <= q < P0.len() ==> #[trigger] cand[0].Lines[q] == pre(cand)[0].Lines[q]
invariant forall|q: int| 0 <= q < $k ==> lv(#[trigger] cand[0].Lines[q]).c == P0[q].c && lv(cand[0].Lines[q]).by == merged_by(parents, diffs, commit, q, 0)
loop 7
invariant none_before(parents, diffs, commit, i, $k)
hint loop 7: lemma_pv(parents, diffs, commit, $k); lemma_merged_by(parents, diffs, commit, i, 0, $k); let w = pv(parents, diffs, commit, $k)[i]; let w2 = lvs(cand[$k].Lines)[i]; let w3 = cand[$k].Lines[i]; let w4 = pv(parents, diffs, commit, 0)[i]; let w5 = lvs(cand[0].Lines)[i];
hint done 7: lemma_merged_by(parents, diffs, commit, i, 0, parents.len() as int); lemma_pv(parents, diffs, commit, 0); let w4 = pv(parents, diffs, commit, 0)[i]; let w5 = lvs(cand[0].Lines)[i]; let w6 = psrc(parents, diffs, 0); assert(lv(pre(cand)[0].Lines[i]) == lvs(pre(cand)[0].Lines)[i]);
