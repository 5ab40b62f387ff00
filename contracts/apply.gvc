package ripsrc/history3/incblame
theory patch.rs

func Apply
props C01 C02 C04
requires !file.IsBinary && !diff.IsBinary
requires diff_ok(lvs(file.Lines), diff.Hunks)
requires nonnil(file.Lines)
ensures [C01 C03 C04 C07 C08 lines] result.Lines.len() == patched(lvs(file.Lines), diff.Hunks, commit).len() && (forall|i: int| 0 <= i < result.Lines.len() ==> (#[trigger] lvs(result.Lines)[i]).c == patched(lvs(file.Lines), diff.Hunks, commit)[i].c)
ensures [C02 C03 C04 C07 C08 attribution] lvs(result.Lines) == patched(lvs(file.Lines), diff.Hunks, commit) && result.Commit == commit
ensures [text] !result.IsBinary
ensures [lines] nonnil(result.Lines)
own result.Lines
merge
hint after sort: lemma_sort_noop($unsorted, $sorted);
let H = diff.Hunks[$k1]
let T = hunk_toks(diff.Hunks[$k1])
let OLD = lvs(file.Lines)
loop 1
invariant nonnil(res)
invariant 0 <= oldFileIndex && oldFileIndex <= file.Lines.len()
invariant rest_ok(OLD, diff.Hunks, $k, oldFileIndex)
invariant lvs(res) + rest_out(OLD, diff.Hunks, $k, oldFileIndex, commit) == patched(OLD, diff.Hunks, commit)
loop 2
invariant nonnil(res)
invariant lvs(res) == lvs(pre(res)) + hunk_out(OLD, hunk_start(H), T, $k, commit)
invariant oldFileIndex == hunk_start(H) + old_count(T, $k)
hint loop 1: lemma_old_count_mono(T, 0, T.len() as int);
hint loop 2: lemma_hunk_line(OLD, H, $k);
hint endloop 2: lemma_lvs_step(head(res), res);
