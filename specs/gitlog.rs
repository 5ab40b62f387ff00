// What the output of "git log -p -m --pretty=short" says: entries with the text of their file diffs.
pub open spec fn is_diff(l: Str) -> bool { l.len() > 4 && starts_with(l, @"diff") }
pub open spec fn in_message(l: Str) -> bool { l.len() == 0 || l[0] == 32 }
// "commit HASH" or "commit HASH (from PARENT)"
pub open spec fn commit_data(l: Str) -> Str { l.subrange(7, l.len() as int) }
pub open spec fn commit_from(l: Str) -> Str { str_splitn(commit_data(l), @" ", 2)[1] }
pub open spec fn commit_ok(l: Str) -> bool {
    &&& starts_with(l, @"commit ")
    &&& str_contains(commit_data(l), @" ") ==> starts_with(commit_from(l), @"(from ") && commit_from(l).len() >= 7
}
pub open spec fn commit_hash(l: Str) -> Str {
    if str_contains(commit_data(l), @" ") { str_splitn(commit_data(l), @" ", 2)[0] } else { commit_data(l) }
}
pub open spec fn commit_parent(l: Str) -> Str {
    if str_contains(commit_data(l), @" ") { commit_from(l).subrange(6, commit_from(l).len() - 1) } else { str_empty() }
}
// the author line of the entry, past a line "Merge: ..."
pub open spec fn author_at(t: Seq<Str>, i: int) -> int decreases t.len() - i {
    if i < 0 || i >= t.len() { t.len() as int } else if starts_with(t[i], @"Merge: ") { author_at(t, i + 1) } else { i }
}
pub open spec fn message_end(t: Seq<Str>, i: int) -> int decreases t.len() - i {
    if i < 0 || i >= t.len() { t.len() as int } else if in_message(t[i]) { message_end(t, i + 1) } else { i }
}
// an entry's diffs end at the first empty line
pub open spec fn diffs_end(t: Seq<Str>, i: int) -> int decreases t.len() - i {
    if i < 0 || i >= t.len() { t.len() as int } else if t[i].len() == 0 { i } else { diffs_end(t, i + 1) }
}
// the next file's diff, or the end of the entry
pub open spec fn diff_end(t: Seq<Str>, i: int) -> int decreases t.len() - i {
    if i < 0 || i >= t.len() { t.len() as int } else if t[i].len() == 0 || is_diff(t[i]) { i } else { diff_end(t, i + 1) }
}
pub open spec fn body_at(t: Seq<Str>, g: int) -> int { message_end(t, author_at(t, g + 1) + 1) }
pub open spec fn has_diffs(t: Seq<Str>, g: int) -> bool { body_at(t, g) < t.len() && is_diff(t[body_at(t, g)]) }
pub open spec fn next_entry(t: Seq<Str>, g: int) -> int {
    if has_diffs(t, g) { diffs_end(t, body_at(t, g)) + 1 } else { body_at(t, g) }
}
// lines i..j, each with its line end
pub open spec fn text(t: Seq<Str>, i: int, j: int) -> Str decreases j - i {
    if j <= i || i < 0 || j > t.len() { str_empty() } else { text(t, i, j - 1) + t[j - 1].push(10) }
}
// the file diffs from the one which starts at h
pub open spec fn diffs(t: Seq<Str>, h: int) -> Seq<parser_Change> decreases t.len() - h {
    if h < 0 || h >= t.len() || !is_diff(t[h]) { Seq::empty() } else {
        seq![parser_Change { Diff: text(t, h, diff_end(t, h + 1)) }] + (if h < diff_end(t, h + 1) < t.len() { diffs(t, diff_end(t, h + 1)) } else { Seq::empty() })
    }
}
pub open spec fn entry(t: Seq<Str>, g: int) -> parser_Commit {
    parser_Commit { Hash: commit_hash(t[g]), Parents: Seq::empty(), MergeDiffFrom: commit_parent(t[g]),
        Changes: if has_diffs(t, g) { diffs(t, body_at(t, g)) } else { Seq::empty() } }
}
pub open spec fn log_ok(t: Seq<Str>, g: int) -> bool decreases t.len() - g {
    g >= t.len() || (g >= 0 && commit_ok(t[g]) && body_at(t, g) > g && (body_at(t, g) >= t.len()
        || (is_diff(t[body_at(t, g)]) && (diffs_end(t, body_at(t, g)) == t.len() || (next_entry(t, g) < t.len() && g < next_entry(t, g) && log_ok(t, next_entry(t, g)))))
        || (!is_diff(t[body_at(t, g)]) && starts_with(t[body_at(t, g)], @"commit ") && log_ok(t, body_at(t, g)))))
}
pub open spec fn entries(t: Seq<Str>, g: int) -> Seq<parser_Commit> decreases t.len() - g {
    if g < 0 || g >= t.len() { Seq::empty() } else {
        seq![entry(t, g)] + (if g < next_entry(t, g) < t.len() { entries(t, next_entry(t, g)) } else { Seq::empty() })
    }
}

pub proof fn lemma_lits()
    ensures (@"diff").len() == 4, (@"commit ").len() == 7, (@"Merge: ").len() == 7, (@"(from ").len() == 6
{ @facts"diff"; @facts"commit "; @facts"Merge: "; @facts"(from "; }
pub proof fn lemma_commit_line(l: Str)
    ensures l.len() >= 7 && str_contains(commit_data(l), @" ") ==> str_splitn(commit_data(l), @" ", 2).len() == 2
{
    @facts" ";
    reveal_with_fuel(split_from, 3);
}
// where things end, one line at a time
pub proof fn lemma_step(t: Seq<Str>, i: int)
    requires 0 <= i
    ensures i < t.len() ==> author_at(t, i) == (if starts_with(t[i], @"Merge: ") { author_at(t, i + 1) } else { i }),
        i < t.len() ==> message_end(t, i) == (if in_message(t[i]) { message_end(t, i + 1) } else { i }),
        i < t.len() ==> diffs_end(t, i) == (if t[i].len() == 0 { i } else { diffs_end(t, i + 1) }),
        i < t.len() ==> diff_end(t, i) == (if t[i].len() == 0 || is_diff(t[i]) { i } else { diff_end(t, i + 1) }),
        i >= t.len() ==> author_at(t, i) == t.len() && message_end(t, i) == t.len() && diffs_end(t, i) == t.len() && diff_end(t, i) == t.len(),
        author_at(t, i) <= t.len(), i <= t.len() ==> i <= author_at(t, i),
        message_end(t, i) <= t.len(), i <= t.len() ==> i <= message_end(t, i), message_end(t, i) < t.len() ==> !in_message(t[message_end(t, i)]),
        diffs_end(t, i) <= t.len(), i <= t.len() ==> i <= diffs_end(t, i),
        diff_end(t, i) <= t.len(), i <= t.len() ==> i <= diff_end(t, i), diff_end(t, i) < t.len() ==> t[diff_end(t, i)].len() == 0 || is_diff(t[diff_end(t, i)])
    decreases t.len() - i
{ if i < t.len() { lemma_step(t, i + 1); } }
pub proof fn lemma_entry(t: Seq<Str>, g: int, k: int)
    ensures 0 <= g < t.len() ==> entries(t, g) == seq![entry(t, g)] + (if g < next_entry(t, g) < t.len() { entries(t, next_entry(t, g)) } else { Seq::empty() }),
        0 <= g < t.len() ==> body_at(t, g) <= t.len() && author_at(t, g + 1) <= t.len(),
        0 <= g < t.len() && log_ok(t, g) && next_entry(t, g) < t.len() ==> g < next_entry(t, g) && log_ok(t, next_entry(t, g)) && commit_ok(t[next_entry(t, g)]),
        0 <= g < t.len() && log_ok(t, g) && body_at(t, g) < t.len() ==> is_diff(t[body_at(t, g)]) || starts_with(t[body_at(t, g)], @"commit "),
        0 <= g < t.len() && log_ok(t, g) && has_diffs(t, g) && next_entry(t, g) <= t.len() ==> next_entry(t, g) < t.len(),
        forall|a: Seq<parser_Commit>, b: parser_Commit, c: Seq<parser_Commit>| (#[trigger] (a.push(b) + c)) == a + (seq![b] + c),
        forall|a: Seq<parser_Commit>| #[trigger] (a + Seq::<parser_Commit>::empty()) == a
{
    if 0 <= g < t.len() && log_ok(t, g) && next_entry(t, g) < t.len() { assert(log_ok(t, next_entry(t, g))); }
    if 0 <= g < t.len() { lemma_step(t, g + 1); lemma_step(t, author_at(t, g + 1) + 1); lemma_step(t, body_at(t, g)); }
    assert forall|a: Seq<parser_Commit>, b: parser_Commit, c: Seq<parser_Commit>| (#[trigger] (a.push(b) + c)) == a + (seq![b] + c) by {
        assert(a.push(b) + c =~= a + (seq![b] + c));
    }
    assert forall|a: Seq<parser_Commit>| #[trigger] (a + Seq::<parser_Commit>::empty()) == a by { assert(a + Seq::<parser_Commit>::empty() =~= a); }
}
pub proof fn lemma_diffs(t: Seq<Str>, h: int, k: int)
    ensures 0 <= h < t.len() && is_diff(t[h]) ==> diffs(t, h) == seq![parser_Change { Diff: text(t, h, diff_end(t, h + 1)) }] + (if h < diff_end(t, h + 1) < t.len() { diffs(t, diff_end(t, h + 1)) } else { Seq::empty() }),
        0 <= h < t.len() && !is_diff(t[h]) ==> diffs(t, h) == Seq::<parser_Change>::empty(),
        0 <= k < t.len() && !is_diff(t[k]) ==> diffs(t, k) == Seq::<parser_Change>::empty(),
        forall|a: Seq<parser_Change>, b: parser_Change, c: Seq<parser_Change>| (#[trigger] (a.push(b) + c)) == a + (seq![b] + c),
        forall|a: Seq<parser_Change>| #[trigger] (a + Seq::<parser_Change>::empty()) == a,
        0 <= h < k <= t.len() ==> text(t, h, k) == text(t, h, k - 1) + t[k - 1].push(10),
        0 <= h <= k < t.len() ==> text(t, h, k + 1) == text(t, h, k) + t[k].push(10),
{
    assert forall|a: Seq<parser_Change>, b: parser_Change, c: Seq<parser_Change>| (#[trigger] (a.push(b) + c)) == a + (seq![b] + c) by {
        assert(a.push(b) + c =~= a + (seq![b] + c));
    }
    assert forall|a: Seq<parser_Change>| #[trigger] (a + Seq::<parser_Change>::empty()) == a by { assert(a + Seq::<parser_Change>::empty() =~= a); }
}

pub proof fn lemma_line(t: Seq<Str>, g: int, h: int, k: int)
    requires 0 <= k < t.len()
    ensures ({ let l = t[k]; l.len() >= 7 && str_contains(commit_data(l), @" ") ==> str_splitn(commit_data(l), @" ", 2).len() == 2 })
{ lemma_commit_line(t[k]); }

// the entry at g is complete when its last diff (if any) ends at k
pub proof fn lemma_complete(t: Seq<Str>, g: int, h: int, k: int, c: Seq<parser_Change>, diff: bool)
    requires 0 <= g < t.len(), log_ok(t, g), k <= t.len(), diff == has_diffs(t, g),
        diff ==> body_at(t, g) <= h < k && is_diff(t[h]) && c + diffs(t, h) == diffs(t, body_at(t, g)) && diff_end(t, h + 1) == k && (k < t.len() ==> !is_diff(t[k])),
        !diff ==> c.len() == 0,
    ensures entry(t, g) == (parser_Commit { Hash: commit_hash(t[g]), Parents: Seq::empty(), MergeDiffFrom: commit_parent(t[g]),
            Changes: if diff { c.push(parser_Change { Diff: text(t, h, k) }) } else { c } }),
        forall|a: Seq<parser_Commit>| #[trigger] a.push(entry(t, g)) + (if g < next_entry(t, g) < t.len() { entries(t, next_entry(t, g)) } else { Seq::empty() }) == a + entries(t, g),
{
    let x = parser_Change { Diff: text(t, h, k) };
    if diff {
        lemma_diffs(t, h, k);
        assert(diffs(t, h) =~= seq![x]);
        assert(c + diffs(t, h) =~= c.push(x));
    } else {
        assert(c =~= Seq::empty());
    }
    assert forall|a: Seq<parser_Commit>| #[trigger] a.push(entry(t, g)) + (if g < next_entry(t, g) < t.len() { entries(t, next_entry(t, g)) } else { Seq::empty() }) == a + entries(t, g) by {
        assert(a.push(entry(t, g)) + (if g < next_entry(t, g) < t.len() { entries(t, next_entry(t, g)) } else { Seq::empty() }) =~= a + entries(t, g));
    }
}
