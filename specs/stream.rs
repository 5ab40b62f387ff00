// Records delivered commit by commit.

// flat(g) is the records of all commits, one commit after the other
pub open spec fn flat(g: Seq<ripsrc_CommitCode>) -> Seq<ripsrc_BlameResult>
    decreases g.len()
{
    if g.len() == 0 { Seq::empty() } else { flat(g.subrange(0, g.len() - 1)) + g.last().Blames }
}

pub proof fn lemma_flat_empty()
    ensures forall|g: Seq<ripsrc_CommitCode>| #![trigger g.subrange(0, 0)] flat(g.subrange(0, 0)) == Seq::<ripsrc_BlameResult>::empty()
{
}

pub proof fn lemma_flat_step(g: Seq<ripsrc_CommitCode>, k: int)
    requires 0 <= k < g.len()
    ensures flat(g.subrange(0, k + 1)) == flat(g.subrange(0, k)) + g[k].Blames
{
    assert(g.subrange(0, k + 1).subrange(0, k) =~= g.subrange(0, k));
}

pub open spec fn commit_of(meta: Map<Str, commitmeta_Commit>, sha: Str, r: ripsrc_CommitCode) -> bool {
    meta.dom().contains(sha) && r.Commit == meta[sha]
}
