package ripsrc/parentsgraph/parentsp
theory listing.rs

func (*Parser).Run
props C09
ghost H: Seq<Str>
ghost P: Seq<Seq<Str>>
let T = scan_toks(s.r.data, 1000000)
requires is_listing(T, H, P)
ensures [error] !scan_fits(s.r.data, 1000000) || s.r.err != 0 ==> result1 != 0
ensures [read] scan_fits(s.r.data, 1000000) && s.r.err == 0 ==> result1 == 0 && (forall|i: int| 0 <= i < T.len() ==> result0.dom().contains(#[trigger] H[i]) && result0[H[i]] == P[i]) && forall|x: Str| #[trigger] result0.dom().contains(x) ==> H.contains(x)
hint entry: let t1 = ""; let t2 = " ";
loop 1
invariant forall|i: int| 0 <= i < $k ==> res.dom().contains(#[trigger] H[i]) && res[H[i]] == P[i]
invariant forall|x: Str| #[trigger] res.dom().contains(x) ==> H.contains(x)
hint loop 1: lemma_listing_line(T, H, P, $k); assert(H.contains(H[$k]));
