// What the checkpoint library calls do: records are written as message-pack items to a buffered writer, compressed into a file,
// and read back as the same items.
pub enum Tok { Num(int), Text(Str), Raw(Str), Flag(bool), Items(int), Fields(int), Junk }
// no call of the operating system or the libraries fails
pub uninterp spec fn io_ok() -> bool;

// the items that a run of message-pack bytes stands for: small map headers and short strings are all the encoders write literally
pub open spec fn bytes_toks(b: Str) -> Seq<Tok> decreases b.len() {
    if b.len() == 0 { Seq::empty() }
    else if 128 <= b[0] <= 143 { seq![Tok::Fields(b[0] - 128)] + bytes_toks(b.subrange(1, b.len() as int)) }
    else if 160 <= b[0] <= 191 && b[0] - 159 <= b.len() { seq![Tok::Text(b.subrange(1, b[0] - 159))] + bytes_toks(b.subrange(b[0] - 159, b.len() as int)) }
    else { seq![Tok::Junk] }
}
pub proof fn lemma_bytes(b: Str)
    ensures b.len() > 0 && 160 <= b[0] <= 191 && b.len() == b[0] - 159 ==> bytes_toks(b) == seq![Tok::Text(b.subrange(1, b.len() as int))],
        b.len() > 1 && 128 <= b[0] <= 143 && 160 <= b[1] <= 191 && b.len() == b[1] - 158 ==> bytes_toks(b) == seq![Tok::Fields(b[0] - 128), Tok::Text(b.subrange(2, b.len() as int))],
    decreases b.len()
{
    if b.len() > 0 && 160 <= b[0] <= 191 && b.len() == b[0] - 159 {
        let e = b.subrange(b[0] - 159, b.len() as int);
        assert(e.len() == 0);
        assert(bytes_toks(e) =~= Seq::empty());
        assert(bytes_toks(b) =~= seq![Tok::Text(b.subrange(1, b.len() as int))]);
    }
    if b.len() > 1 && 128 <= b[0] <= 143 && 160 <= b[1] <= 191 && b.len() == b[1] - 158 {
        let c = b.subrange(1, b.len() as int);
        assert(c[0] == b[1] && c.len() == c[0] - 159);
        lemma_bytes(c);
        assert(c.subrange(1, c.len() as int) =~= b.subrange(2, b.len() as int));
        assert(bytes_toks(b) =~= seq![Tok::Fields(b[0] - 128), Tok::Text(b.subrange(2, b.len() as int))]);
    }
}
// b is the short string s
pub open spec fn spells(b: Str, s: Str) -> bool { s.len() < 32 && b.len() == s.len() + 1 && b[0] == 160 + s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == b[i + 1] }
pub open spec fn spells_after(b: Str, n: int, s: Str) -> bool { 0 <= n < 16 && b.len() == s.len() + 2 && b[0] == 128 + n && spells(b.subrange(1, b.len() as int), s) }
pub proof fn lemma_spells(b: Str, s: Str) ensures spells(b, s) ==> bytes_toks(b) == seq![Tok::Text(s)] {
    if spells(b, s) { lemma_bytes(b); assert(b.subrange(1, b.len() as int) =~= s); }
}
pub proof fn lemma_spells_after(b: Str, n: int, s: Str) ensures spells_after(b, n, s) ==> bytes_toks(b) == seq![Tok::Fields(n), Tok::Text(s)] {
    if spells_after(b, n, s) { let c = b.subrange(1, b.len() as int); assert(c[0] == b[1]); lemma_bytes(b); assert(b.subrange(2, b.len() as int) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies b.subrange(2, b.len() as int)[i] == s[i] by { assert(c[i + 1] == s[i]); } } }
}
pub open spec fn key_texts() -> bool { @"c".len() == 1 && @"c"[0] == 99
    && @"p".len() == 1 && @"p"[0] == 112
    && @"bp".len() == 2 && @"bp"[0] == 98 && @"bp"[1] == 112
    && @"lp".len() == 2 && @"lp"[0] == 108 && @"lp"[1] == 112
    && @"ib".len() == 2 && @"ib"[0] == 105 && @"ib"[1] == 98
    && @"ldp".len() == 3 && @"ldp"[0] == 108 && @"ldp"[1] == 100 && @"ldp"[2] == 112
    && @"d".len() == 1 && @"d"[0] == 100 }
pub proof fn lemma_key_texts() ensures key_texts() { @facts"c"; @facts"p"; @facts"bp"; @facts"lp"; @facts"ib"; @facts"ldp"; @facts"d"; }
pub proof fn lemma_keys(b: Str)
    ensures spells(b, @"c") ==> bytes_toks(b) == seq![Tok::Text(@"c")], spells(b, @"p") ==> bytes_toks(b) == seq![Tok::Text(@"p")], spells(b, @"bp") ==> bytes_toks(b) == seq![Tok::Text(@"bp")],
        spells(b, @"lp") ==> bytes_toks(b) == seq![Tok::Text(@"lp")], spells(b, @"ib") ==> bytes_toks(b) == seq![Tok::Text(@"ib")], spells(b, @"ldp") ==> bytes_toks(b) == seq![Tok::Text(@"ldp")], spells(b, @"d") ==> bytes_toks(b) == seq![Tok::Text(@"d")],
        spells_after(b, 3, @"c") ==> bytes_toks(b) == seq![Tok::Fields(3), Tok::Text(@"c")],
        spells_after(b, 2, @"p") ==> bytes_toks(b) == seq![Tok::Fields(2), Tok::Text(@"p")],
        spells_after(b, 3, @"p") ==> bytes_toks(b) == seq![Tok::Fields(3), Tok::Text(@"p")],
        spells_after(b, 4, @"p") ==> bytes_toks(b) == seq![Tok::Fields(4), Tok::Text(@"p")],
        key_texts(),
{
    lemma_key_texts();
    lemma_spells(b, @"c"); lemma_spells(b, @"p"); lemma_spells(b, @"bp"); lemma_spells(b, @"lp"); lemma_spells(b, @"ib"); lemma_spells(b, @"ldp"); lemma_spells(b, @"d");
    lemma_spells_after(b, 3, @"c"); lemma_spells_after(b, 2, @"p"); lemma_spells_after(b, 3, @"p"); lemma_spells_after(b, 4, @"p");
}
pub open spec fn enc_row(r: disk_DataRow) -> Seq<Tok> { seq![Tok::Fields(3), Tok::Text(@"c"), Tok::Text(r.Commit), Tok::Text(@"p"), Tok::Text(r.Path), Tok::Text(@"bp"), Tok::Num(r.BlamePointer)] }
pub open spec fn enc_line(r: disk_Line) -> Seq<Tok> { seq![Tok::Fields(3), Tok::Text(@"p"), Tok::Num(r.Pointer), Tok::Text(@"c"), Tok::Text(r.Commit), Tok::Text(@"ldp"), Tok::Num(r.LineDataPointer)] }
pub open spec fn enc_data(r: disk_LineData) -> Seq<Tok> { seq![Tok::Fields(2), Tok::Text(@"p"), Tok::Num(r.Pointer), Tok::Text(@"d"), Tok::Raw(r.Data)] }
pub open spec fn nums(s: Seq<int>) -> Seq<Tok> { s.map_values(|p: int| Tok::Num(p)) }
pub open spec fn enc_blame(r: disk_Blame) -> Seq<Tok> {
    seq![Tok::Fields(4), Tok::Text(@"p"), Tok::Num(r.Pointer), Tok::Text(@"c"), Tok::Text(r.Commit), Tok::Text(@"lp"), Tok::Items(r.LinePointers.len() as int)] + nums(r.LinePointers) + seq![Tok::Text(@"ib"), Tok::Flag(r.IsBinary)]
}
pub open spec fn put(m: Map<int, Seq<Tok>>, id: int, t: Seq<Tok>) -> Map<int, Seq<Tok>> { m.insert(id, toks_of(m, id) + t) }
pub open spec fn toks_of(m: Map<int, Seq<Tok>>, id: int) -> Seq<Tok> { mget(m, id, Seq::empty()) }

// reading
pub uninterp spec fn cut_short(r: int) -> bool; // the compressed stream behind the reader was not closed
pub open spec fn left(m: Map<int, Seq<Tok>>, id: int) -> Seq<Tok> { toks_of(m, id) }
pub open spec fn taken(m: Map<int, Seq<Tok>>, id: int) -> Map<int, Seq<Tok>> { m.insert(id, left(m, id).subrange(1, left(m, id).len() as int)) }
pub open spec fn others(m0: Map<int, Seq<Tok>>, m1: Map<int, Seq<Tok>>, id: int) -> bool { forall|q: int| q != id ==> #[trigger] left(m1, q) == left(m0, q) }
pub open spec fn read_ok(m0: Map<int, Seq<Tok>>, m1: Map<int, Seq<Tok>>, id: int, t: Tok) -> bool { left(m0, id).len() > 0 && left(m0, id)[0] == t && m1 == taken(m0, id) }
// what an error means: the end is told by its text
pub open spec fn read_err(m: Map<int, Seq<Tok>>, id: int, e: int) -> bool { e != 0 && (errtext(e) == @"unexpected EOF" ==> left(m, id).len() == 0) && (io_ok() && left(m, id).len() == 0 && cut_short(id) ==> errtext(e) == @"unexpected EOF") }
pub open spec fn tail_row(x: disk_DataRow, n: int) -> Seq<Tok> {
    if n == 3 { seq![Tok::Text(@"c"), Tok::Text(x.Commit), Tok::Text(@"p"), Tok::Text(x.Path), Tok::Text(@"bp"), Tok::Num(x.BlamePointer)] }
    else if n == 2 { seq![Tok::Text(@"p"), Tok::Text(x.Path), Tok::Text(@"bp"), Tok::Num(x.BlamePointer)] }
    else if n == 1 { seq![Tok::Text(@"bp"), Tok::Num(x.BlamePointer)] } else { Seq::empty() }
}
pub open spec fn tail_line(x: disk_Line, n: int) -> Seq<Tok> {
    if n == 3 { seq![Tok::Text(@"p"), Tok::Num(x.Pointer), Tok::Text(@"c"), Tok::Text(x.Commit), Tok::Text(@"ldp"), Tok::Num(x.LineDataPointer)] }
    else if n == 2 { seq![Tok::Text(@"c"), Tok::Text(x.Commit), Tok::Text(@"ldp"), Tok::Num(x.LineDataPointer)] }
    else if n == 1 { seq![Tok::Text(@"ldp"), Tok::Num(x.LineDataPointer)] } else { Seq::empty() }
}
pub open spec fn tail_data(x: disk_LineData, n: int) -> Seq<Tok> {
    if n == 2 { seq![Tok::Text(@"p"), Tok::Num(x.Pointer), Tok::Text(@"d"), Tok::Raw(x.Data)] } else if n == 1 { seq![Tok::Text(@"d"), Tok::Raw(x.Data)] } else { Seq::empty() }
}
pub open spec fn tail_blame(x: disk_Blame, n: int) -> Seq<Tok> {
    let last = seq![Tok::Text(@"ib"), Tok::Flag(x.IsBinary)];
    let lp = seq![Tok::Text(@"lp"), Tok::Items(x.LinePointers.len() as int)] + nums(x.LinePointers) + last;
    let c = seq![Tok::Text(@"c"), Tok::Text(x.Commit)] + lp;
    if n == 4 { seq![Tok::Text(@"p"), Tok::Num(x.Pointer)] + c } else if n == 3 { c } else if n == 2 { lp } else if n == 1 { last } else { Seq::empty() }
}

// the next field of a record, and what follows it
pub proof fn lemma_tail_row(x: disk_DataRow, n: int, rest: Seq<Tok>) requires 0 < n <= 3
    ensures ({ let t = tail_row(x, n) + rest; let u = tail_row(x, n - 1) + rest; t.len() == u.len() + 2 && t[0] == tail_row(x, n)[0] && t[1] == tail_row(x, n)[1] && t.subrange(1, t.len() as int)[0] == t[1] && t.subrange(1, t.len() as int).subrange(1, t.len() - 1) == u })
{
    let t = tail_row(x, n) + rest; let u = tail_row(x, n - 1) + rest;
    assert(t.subrange(1, t.len() as int).subrange(1, t.len() - 1) =~= u);
}

// the next field of a record, and what follows it
pub proof fn lemma_tail_line(x: disk_Line, n: int, rest: Seq<Tok>) requires 0 < n <= 3
    ensures ({ let t = tail_line(x, n) + rest; let u = tail_line(x, n - 1) + rest; t.len() == u.len() + 2 && t[0] == tail_line(x, n)[0] && t[1] == tail_line(x, n)[1] && t.subrange(1, t.len() as int)[0] == t[1] && t.subrange(1, t.len() as int).subrange(1, t.len() - 1) == u })
{
    let t = tail_line(x, n) + rest; let u = tail_line(x, n - 1) + rest;
    assert(t.subrange(1, t.len() as int).subrange(1, t.len() - 1) =~= u);
}

// the next field of a record, and what follows it
pub proof fn lemma_tail_data(x: disk_LineData, n: int, rest: Seq<Tok>) requires 0 < n <= 2
    ensures ({ let t = tail_data(x, n) + rest; let u = tail_data(x, n - 1) + rest; t.len() == u.len() + 2 && t[0] == tail_data(x, n)[0] && t[1] == tail_data(x, n)[1] && t.subrange(1, t.len() as int)[0] == t[1] && t.subrange(1, t.len() as int).subrange(1, t.len() - 1) == u })
{
    let t = tail_data(x, n) + rest; let u = tail_data(x, n - 1) + rest;
    assert(t.subrange(1, t.len() as int).subrange(1, t.len() - 1) =~= u);
}

pub proof fn lemma_nums(s: Seq<int>, k: int, rest: Seq<Tok>) requires 0 <= k < s.len()
    ensures ({ let t = nums(s.subrange(k, s.len() as int)); t.len() > 0 && t[0] == Tok::Num(s[k]) && t.subrange(1, t.len() as int) == nums(s.subrange(k + 1, s.len() as int)) })
{
    let t = nums(s.subrange(k, s.len() as int));
    assert(t.subrange(1, t.len() as int) =~= nums(s.subrange(k + 1, s.len() as int)));
}
pub proof fn lemma_tail_blame(x: disk_Blame, n: int, rest: Seq<Tok>) requires 0 < n <= 4
    ensures ({ let t = tail_blame(x, n) + rest; let u = tail_blame(x, n - 1) + rest; t.len() >= 2 && t[0] == tail_blame(x, n)[0] && t[1] == tail_blame(x, n)[1]
        && tail_blame(x, n)[0] == Tok::Text(if n == 4 { @"p" } else if n == 3 { @"c" } else if n == 2 { @"lp" } else { @"ib" })
        && tail_blame(x, n)[1] == (if n == 4 { Tok::Num(x.Pointer) } else if n == 3 { Tok::Text(x.Commit) } else if n == 2 { Tok::Items(x.LinePointers.len() as int) } else { Tok::Flag(x.IsBinary) })
        && t.subrange(1, t.len() as int)[0] == t[1] && t.subrange(1, t.len() as int).subrange(1, t.len() - 1) == (if n == 2 { nums(x.LinePointers) + tail_blame(x, 1) + rest } else { u }) })
{
    let t = tail_blame(x, n) + rest; let u = tail_blame(x, n - 1) + rest;
    if n == 2 { assert(t.subrange(1, t.len() as int).subrange(1, t.len() - 1) =~= nums(x.LinePointers) + tail_blame(x, 1) + rest); }
    else { assert(t.subrange(1, t.len() as int).subrange(1, t.len() - 1) =~= u); }
}
