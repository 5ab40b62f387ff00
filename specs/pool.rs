// branches reported by the workers of branches2.Process.Run

// what one listed name or commit gives: its record, or nothing for a commit that was asked for and is not known
pub open spec fn is_out(x: branches2_nameAndHash, g: Map<Str, Seq<Str>>, out: Seq<branches2_Branch>) -> bool {
    if x.Name != str_empty() || g.dom().contains(x.Commit) {
        out.len() == 1 && is_for(x, out[0])
    } else {
        out.len() == 0
    }
}
pub open spec fn is_for(x: branches2_nameAndHash, b: branches2_Branch) -> bool {
    b.Name == x.Name && b.HeadSHA == x.Commit && b.IsPullRequest == (x.Name == str_empty()) && !b.IsDefault
}
// every item gives what it gives exactly once, in some order
pub open spec fn each_once(items: Seq<branches2_nameAndHash>, g: Map<Str, Seq<Str>>, sent: Seq<branches2_Branch>) -> bool {
    exists|outs: Seq<Seq<branches2_Branch>>| outs.len() == items.len() && (forall|i: int| 0 <= i < items.len() ==> is_out(items[i], g, #[trigger] outs[i])) && #[trigger] is_shuffle(outs, sent)
}
pub open spec fn work_items(names: Seq<branches2_nameAndHash>, shas: Seq<Str>) -> Seq<branches2_nameAndHash> {
    names + Seq::new(shas.len(), |i: int| branches2_nameAndHash { Name: str_empty(), Commit: shas[i] })
}
