package ripsrc/history3/process/repo
theory graph.rs patch.rs merge.rs filediff.rs listing.rs blame.rs process.rs unload.rs

func (*Unloader).Unload
props C16
ghost Q: Seq<Str>
requires list_is(s.toUnload, Q)
ensures [list] list_is(s.toUnload, Q.push(commitHash))
ensures [release] released(old(s.repo), s.repo, Q.push(commitHash), gone_of(Q), gone_of(Q.push(commitHash)))
ensures forall|c: Str| #[trigger] s.repo.dom().contains(c) ==> old(s.repo).dom().contains(c) && s.repo[c] == old(s.repo)[c]
hint exit: let q = Q.push(commitHash); assert(gone_of(q) == gone_of(Q) || gone_of(q) == gone_of(Q) + 1); assert forall|c: Str| in_range(q, gone_of(Q), gone_of(q), c) <==> gone_of(q) > gone_of(Q) && q[gone_of(Q)] == c by { if gone_of(q) > gone_of(Q) { assert(q[gone_of(Q)] == q[gone_of(Q)]); } } assert(0 < Q.len() ==> q[gone_of(Q)] == Q[gone_of(Q)]);
