// Which commits are reported, in which order: a merge is listed once per parent, one listing after the other, and reported once.

pub ghost struct Grp { pub out: Seq<Str>, pub pend: bool, pub h: Str }

pub open spec fn group(l: Seq<parser_Commit>, p: Map<Str, Seq<Str>>, k: int) -> Grp
    decreases k
{
    if k <= 0 || k > l.len() { Grp { out: Seq::empty(), pend: false, h: str_empty() } }
    else { group_step(group(l, p, k - 1), l[k - 1].Hash, mget(p, l[k - 1].Hash, Seq::empty()).len() > 1) }
}

pub open spec fn group_step(g: Grp, c: Str, merge: bool) -> Grp {
    if g.pend && g.h == c { g }
    else if merge { Grp { out: settled(g), pend: true, h: c } }
    else { Grp { out: settled(g).push(c), pend: false, h: c } }
}

pub open spec fn settled(g: Grp) -> Seq<Str> {
    if g.pend { g.out.push(g.h) } else { g.out }
}

pub open spec fn hashes_are(r: Seq<process_Result>, h: Seq<Str>) -> bool {
    r.len() == h.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).Commit == h[i]
}

// what was reported when the run failed: everything before, the failing commit not
pub open spec fn first_hashes_are(r: Seq<process_Result>, g: Grp) -> bool {
    hashes_are(r, g.out) || hashes_are(r, settled(g))
}

pub open spec fn begins_with(a: Seq<process_Result>, b: Seq<process_Result>) -> bool {
    a.len() >= b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] a[i] == b[i]
}
