package ripsrc/parentsgraph
theory graph.rs

func (*Graph).childrenFromParents
props C09
let P = s.Parents
ensures s.Parents == old(s.Parents)
ensures [inverse] forall|p: Str, c: Str| #[trigger] times(kids(s.Children, p), c) == times(pars(P, c), p)
ensures [entries] forall|c: Str| #[trigger] P.dom().contains(c) ==> s.Children.dom().contains(c)
ensures [sorted] forall|p: Str| is_str_sorted(#[trigger] kids(s.Children, p))
hint entry: lemma_times();
loop 1
invariant s.Parents == old(s.Parents)
invariant forall|p: Str, c: Str| #[trigger] times(kids(s.Children, p), c) == if $done.contains(c) { times(pars(P, c), p) } else { 0 }
invariant forall|c: Str| #[trigger] $done.contains(c) ==> s.Children.dom().contains(c)
loop 2
invariant s.Parents == old(s.Parents)
invariant forall|p: Str, c: Str| #[trigger] times(kids(s.Children, p), c) == if $done.contains(c) { times(pars(P, c), p) } else if c == commit { times(pars(P, c).subrange(0, $k), p) } else { 0 }
invariant forall|c: Str| #[trigger] $done.contains(c) ==> s.Children.dom().contains(c)
invariant s.Children.dom().contains(commit)
hint loop 2: lemma_next_times(pars(P, commit), $k); assert(kids(s.Children, p) == mget(s.Children, p, Seq::empty())); assert(pars(P, commit) == mget(P, commit, Seq::empty()));
hint done 2: assert(pars(P, commit).subrange(0, pars(P, commit).len() as int) =~= pars(P, commit));
loop 3
invariant s.Parents == old(s.Parents)
invariant forall|p: Str, c: Str| #[trigger] times(kids(s.Children, p), c) == times(pars(P, c), p)
invariant forall|c: Str| #[trigger] P.dom().contains(c) ==> s.Children.dom().contains(c)
invariant forall|p: Str| $done.contains(p) ==> is_str_sorted(#[trigger] kids(s.Children, p))
hint after sort: lemma_str_sorted($unsorted); assert forall|x: Str| #[trigger] times($sorted, x) == times($unsorted, x) by { }
