package ripsrc/history3/process/parser
theory gitlog.rs

func (*Parser).Run
props C05
closes res
ghostvar g: int
ghostvar h: int
merge
let T = scan_toks(s.r.data, max_line())
let D = body_at(T, g)
requires s.commit.Changes.len() == 0 && res.len() == 0
requires log_ok(T, 0)
ensures [all] scan_fits(s.r.data, max_line()) && s.r.err == 0 ==> result == 0 && res == entries(T, 0)
ensures [error] !scan_fits(s.r.data, max_line()) || s.r.err != 0 ==> result != 0
loop 1
own s.diff if s.state == "stInDiff"
own s.commit.Changes if s.state != "stCommitNext" && s.state != "stNotStarted"
invariant [states] ($k == 0 && s.state == "stNotStarted") || ($k > 0 && (s.state == "stParentsNext" || s.state == "stSkippingMessageDiffOrCommitNext" || s.state == "stInDiff" || s.state == "stCommitNext"))
invariant [start] $k == 0 ==> res.len() == 0
invariant [entry] $k > 0 ==> 0 <= g && g < $k && log_ok(T, g) && s.commit.Hash == commit_hash(T[g]) && s.commit.MergeDiffFrom == commit_parent(T[g]) && s.commit.Parents.len() == 0
invariant [rest] $k > 0 && s.state != "stCommitNext" ==> res + entries(T, g) == entries(T, 0)
invariant [parents] s.state == "stParentsNext" ==> author_at(T, g + 1) == author_at(T, $k) && s.commit.Changes.len() == 0
invariant [message] s.state == "stSkippingMessageDiffOrCommitNext" ==> D == message_end(T, $k) && s.commit.Changes.len() == 0
invariant [diff] s.state == "stInDiff" ==> g < D && D <= h && h < $k && D < T.len() && is_diff(T[D]) && is_diff(T[h]) && diffs_end(T, D) == diffs_end(T, $k) && diff_end(T, h + 1) == diff_end(T, $k) && s.commit.Changes + diffs(T, h) == diffs(T, D) && s.diff == text(T, h, $k)
invariant [next] s.state == "stCommitNext" ==> $k == next_entry(T, g) && $k < T.len() && log_ok(T, $k) && res + entries(T, $k) == entries(T, 0)
hint loop 1: let w = T[$k]; lemma_lits(); lemma_commit_line(T[$k]); lemma_entry(T, g, $k); lemma_entry(T, $k, $k + 1); lemma_step(T, $k); lemma_step(T, $k + 1); if $k > 0 && s.state == "stInDiff" { lemma_step(T, h + 1); lemma_diffs(T, h, $k); if T[$k].len() == 0 { lemma_complete(T, g, h, $k, s.commit.Changes, true); } }
hint loop 1: if $k > 0 && s.state == "stSkippingMessageDiffOrCommitNext" && !in_message(T[$k]) && !is_diff(T[$k]) { lemma_complete(T, g, 0, $k, s.commit.Changes, false); assert(s.commit.Parents =~= Seq::empty()); }
hint loop 1: if $k > 0 { assert(s.commit.Parents =~= Seq::empty()); }
hint endloop 1: set g = if s.state == "stParentsNext" && head(s.state) != "stParentsNext" { $k1 } else { g }
hint endloop 1: set h = if s.state == "stInDiff" && is_diff(T[$k1]) { $k1 } else { h }
hint endloop 1: lemma_diffs(T, $k1, $k1 + 1);
hint done 1: lemma_entry(T, g, $k1); lemma_step(T, $k1); if $k1 > 0 && s.state == "stInDiff" { lemma_diffs(T, h, $k1); lemma_complete(T, g, h, $k1, s.commit.Changes, true); } else if $k1 > 0 { lemma_step(T, $k1 + 1); lemma_complete(T, g, 0, $k1, s.commit.Changes, false); }
hint done 1: if $k1 > 0 { assert(s.commit.Parents =~= Seq::empty()); }

func (*Parser).RunGetAll
props C05
let T = scan_toks(s.r.data, max_line())
requires s.commit.Changes.len() == 0
requires log_ok(T, 0)
ensures [all] scan_fits(old(s).r.data, max_line()) && old(s).r.err == 0 ==> result1 == 0 && result0 == entries(old(T), 0)
ensures [error] !scan_fits(old(s).r.data, max_line()) || old(s).r.err != 0 ==> result1 != 0
loop 1
invariant res2 == $src1.subrange(0, $k)
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
hint endloop 1: assert(res2 =~= $src1.subrange(0, $k + 1));
