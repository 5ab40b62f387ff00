// What a file diff of git says: names, kind, and hunks with their ranges and patch lines.

// ---- "@@ -10,3 +9 @@ heading"; merges have one more @ and range per parent
pub open spec fn at_run(s: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] != 64 { 0 } else { 1 + at_run(s, i + 1) }
}
pub open spec fn range_end(s: Str) -> int { find_byte(s, 64, at_run(s, 0)) }
pub open spec fn range_parts(s: Str) -> Seq<Str> { str_split(s.subrange(at_run(s, 0) + 1, range_end(s) - 1), @" ") }
pub open spec fn part_ok(p: Str) -> bool {
    let n = str_split(p.subrange(1, p.len() as int), @",");
    &&& p.len() >= 2 && (p[0] == 43 || p[0] == 45)
    &&& n.len() == 1 || n.len() == 2
    &&& forall|i: int| 0 <= i < n.len() ==> atoi_ok(#[trigger] n[i])
}
pub open spec fn one_range(p: Str) -> incblame_HunkLocation {
    let n = str_split(p.subrange(1, p.len() as int), @",");
    incblame_HunkLocation { Op: p[0], Offset: if n.len() == 2 { atoi_val(n[0]) } else { 0 }, Lines: atoi_val(n.last()) }
}
pub open spec fn range_line_ok(s: Str) -> bool {
    let n = at_run(s, 0);
    let e = range_end(s);
    &&& n >= 2 && n + 3 <= e && e + n <= s.len() && at_run(s, e) >= n
    &&& s[n] == 32 && s[e - 1] == 32 && s[n + 1] != 32 && s[e - 2] != 32
    &&& forall|i: int| 0 <= i < range_parts(s).len() ==> part_ok(#[trigger] range_parts(s)[i])
}
pub open spec fn ranges(s: Str) -> Seq<incblame_HunkLocation> { range_parts(s).map_values(|p: Str| one_range(p)) }

pub proof fn lemma_at_run(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures 0 <= at_run(s, i) <= s.len() - i, forall|j: int| i <= j < i + at_run(s, i) ==> #[trigger] s[j] == 64,
        i + at_run(s, i) < s.len() ==> s[i + at_run(s, i)] != 64
    decreases s.len() - i
{ if i < s.len() && s[i] == 64 { lemma_at_run(s, i + 1); } }
pub proof fn lemma_find_byte(s: Str, b: int, i: int)
    requires 0 <= i <= s.len()
    ensures i <= find_byte(s, b, i) <= s.len(), forall|j: int| i <= j < find_byte(s, b, i) ==> #[trigger] s[j] != b,
        find_byte(s, b, i) < s.len() ==> s[find_byte(s, b, i)] == b
    decreases s.len() - i
{ if i < s.len() && s[i] != b { lemma_find_byte(s, b, i + 1); } }
pub proof fn lemma_trimleft(s: Str, cut: Str, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> in_set(cut, #[trigger] s[j]), n < s.len() ==> !in_set(cut, s[n])
    ensures str_trimleft(s, cut) == s.subrange(n, s.len() as int)
    decreases n
{
    if n == 0 { assert(s.subrange(0, s.len() as int) =~= s); } else {
        let r = s.subrange(1, s.len() as int);
        assert(in_set(cut, s[0]));
        assert forall|j: int| 0 <= j < n - 1 implies in_set(cut, #[trigger] r[j]) by { assert(r[j] == s[j + 1]); }
        lemma_trimleft(r, cut, n - 1);
        assert(r.subrange(n - 1, r.len() as int) =~= s.subrange(n, s.len() as int));
    }
}
pub proof fn lemma_trimright(s: Str, cut: Str, n: int)
    requires 0 <= n <= s.len(), forall|j: int| n <= j < s.len() ==> in_set(cut, #[trigger] s[j]), n > 0 ==> !in_set(cut, s[n - 1])
    ensures str_trimright(s, cut) == s.subrange(0, n)
    decreases s.len() - n
{
    if n == s.len() { assert(s.subrange(0, n) =~= s); } else {
        let r = s.subrange(0, s.len() - 1);
        assert(in_set(cut, s[s.len() - 1]));
        lemma_trimright(r, cut, n);
        assert(r.subrange(0, n) =~= s.subrange(0, n));
    }
}
pub proof fn lemma_range_line(s: Str)
    requires range_line_ok(s)
    ensures ({
        let n = at_run(s, 0);
        let e = range_end(s);
        &&& forall|j: int| 0 <= j < n ==> #[trigger] s[j] == 64
        &&& forall|j: int| n <= j < e ==> #[trigger] s[j] != 64
        &&& forall|j: int| e <= j < e + n ==> #[trigger] s[j] == 64
        &&& str_trim(s.subrange(0, e + n - 1), @"@ ") == s.subrange(n + 1, e - 1)
    })
{
    let n = at_run(s, 0);
    let e = range_end(s);
    let cut = @"@ ";
    @facts"@ ";
    lemma_at_run(s, 0);
    lemma_find_byte(s, 64, n);
    lemma_at_run(s, e);
    let b = s.subrange(0, e + n - 1);
    assert(cut.contains(64)) by { assert(cut[0] == 64); }
    assert(cut.contains(32)) by { assert(cut[1] == 32); }
    assert forall|x: int| #[trigger] cut.contains(x) implies x == 64 || x == 32 by { }
    assert forall|j: int| 0 <= j < n + 1 implies in_set(cut, #[trigger] b[j]) by { assert(b[j] == s[j]); }
    assert(b[n + 1] == s[n + 1]);
    lemma_trimleft(b, cut, n + 1);
    let r = b.subrange(n + 1, b.len() as int);
    assert forall|j: int| e - 2 - n <= j < r.len() implies in_set(cut, #[trigger] r[j]) by { assert(r[j] == s[j + n + 1]); }
    assert(r[e - 3 - n] == s[e - 2]);
    lemma_trimright(r, cut, e - 2 - n);
    assert(r.subrange(0, e - 2 - n) =~= s.subrange(n + 1, e - 1));
}

// ---- names
// a name as git writes it: in quotes if it has special characters
pub open spec fn unq(s: Str) -> Str {
    if s.len() < 2 || s[0] != 34 || s[s.len() - 1] != 34 { s }
    else if unquote_ok(s) { str_unquote(s) }
    else { s.subrange(1, s.len() - 1) }
}
pub open spec fn decl_name(s: Str, p: Str) -> bool { starts_with(unq(s), p) && unq(s).len() > p.len() }
pub open spec fn name_in(s: Str) -> Str { unq(s).subrange(2, unq(s).len() as int) }
pub open spec fn count_byte(s: Str, b: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { count_byte(s, b, n - 1) + if s[n - 1] == b { 1int } else { 0int } }
}
pub proof fn lemma_count_byte(s: Str, b: int, n: int)
    requires 0 <= n <= s.len()
    ensures 0 <= count_byte(s, b, n) <= n, count_byte(s, b, n) == 0 <==> forall|j: int| 0 <= j < n ==> #[trigger] s[j] != b
    decreases n
{ if n > 0 { lemma_count_byte(s, b, n - 1); let x = s[n - 1]; } }
pub proof fn lemma_count_prefix(s: Str, t: Str, b: int, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), forall|j: int| 0 <= j < n ==> #[trigger] s[j] == t[j]
    ensures count_byte(s, b, n) == count_byte(t, b, n)
    decreases n
{ if n > 0 { lemma_count_prefix(s, t, b, n - 1); let x = s[n - 1]; } }
pub proof fn lemma_count_add(s: Str, t: Str, b: int, n: int)
    requires 0 <= n <= t.len()
    ensures count_byte(s + t, b, s.len() + n) == count_byte(s, b, s.len() as int) + count_byte(t, b, n)
    decreases n
{
    if n > 0 { lemma_count_add(s, t, b, n - 1); assert((s + t)[s.len() + n - 1] == t[n - 1]); }
    else { lemma_count_prefix(s + t, s, b, s.len() as int); }
}
pub open spec fn decl_line(a: Str, b: Str) -> Str { @"diff --git " + (a + @" " + b) }
// how the two names lie in the declaration
pub proof fn lemma_decl(a: Str, b: Str)
    ensures ({
        let d = a + @" " + b;
        let n = count_byte(d, 32, d.len() as int);
        &&& starts_with(decl_line(a, b), @"diff --git ") && decl_line(a, b).subrange(11, decl_line(a, b).len() as int) == d
        &&& n >= 1
        &&& n == 1 ==> str_indexbyte(d, 32) == a.len()
        &&& d.len() == a.len() + 1 + b.len()
        &&& d.subrange(0, a.len() as int) == a && d[a.len() as int] == 32 && d.subrange(a.len() as int + 1, d.len() as int) == b
    })
{
    @facts"diff --git ";
    @facts" ";
    let d = a + @" " + b;
    assert(decl_line(a, b).subrange(0, 11) =~= @"diff --git ");
    assert(decl_line(a, b).subrange(11, decl_line(a, b).len() as int) =~= d);
    assert(d.subrange(0, a.len() as int) =~= a);
    assert(d.subrange(a.len() as int + 1, d.len() as int) =~= b);
    lemma_count_byte(d, 32, d.len() as int);
    lemma_count_byte(d, 32, a.len() as int);
    lemma_count_byte(a, 32, a.len() as int);
    lemma_count_byte(b, 32, b.len() as int);
    lemma_count_add(a, @" ", 32, 1);
    lemma_count_add(a + @" ", b, 32, b.len() as int);
    assert(count_byte(@" ", 32, 1) == 1) by { reveal_with_fuel(count_byte, 3); }
    lemma_find_byte(d, 32, 0);
    if count_byte(d, 32, d.len() as int) == 1 {
        let i = find_byte(d, 32, 0);
        if i < a.len() { assert(a[i] == d[i]); assert(false); }
        if i > a.len() { assert(d[a.len() as int] == 32); assert(false); }
    }
}

// ---- the whole file diff, as lines
pub open spec fn next_with(t: Seq<Str>, p: Str, i: int) -> int decreases t.len() - i {
    if i < 0 || i >= t.len() { t.len() as int } else if starts_with(t[i], p) { i } else { next_with(t, p, i + 1) }
}
pub proof fn lemma_next_with(t: Seq<Str>, p: Str, i: int)
    requires 0 <= i
    ensures i < t.len() ==> i <= next_with(t, p, i) <= t.len(), i >= t.len() ==> next_with(t, p, i) == t.len(),
        forall|j: int| i <= j < next_with(t, p, i) ==> !starts_with(#[trigger] t[j], p),
        next_with(t, p, i) < t.len() ==> starts_with(t[next_with(t, p, i)], p)
    decreases t.len() - i
{ if i < t.len() && !starts_with(t[i], p) { lemma_next_with(t, p, i + 1); } }
// where the lines "--- name", "+++ name" are; t.len() if the diff has no text part
pub open spec fn text_at(t: Seq<Str>) -> int { next_with(t, @"---", 1) }
// value of the last header line before line k that starts with s
pub open spec fn meta(t: Seq<Str>, k: int, s: Str) -> Str decreases k {
    if k <= 1 || k > t.len() { str_empty() }
    else if starts_with(t[k - 1], s + @" ") { t[k - 1].subrange(s.len() as int + 1, t[k - 1].len() as int) }
    else { meta(t, k - 1, s) }
}
pub open spec fn header(t: Seq<Str>, s: Str) -> Str { meta(t, text_at(t), s) }
// patch lines a..b, each ended by a newline
pub open spec fn lines_data(t: Seq<Str>, a: int, b: int) -> Str decreases b - a {
    if b <= a { str_empty() } else { lines_data(t, a, b - 1) + t[b - 1] + @"\n" }
}
pub open spec fn hunk_at(t: Seq<Str>, i: int) -> incblame_Hunk { incblame_Hunk { Locations: ranges(t[i]), Data: lines_data(t, i + 1, next_with(t, @"@@", i + 1)) } }
pub open spec fn hunks_from(t: Seq<Str>, i: int) -> Seq<incblame_Hunk> decreases t.len() - i {
    if i < 0 || i >= t.len() { Seq::<incblame_Hunk>::empty() } else {
        let j = next_with(t, @"@@", i + 1);
        if j <= i || j > t.len() { Seq::<incblame_Hunk>::empty() } else { seq![hunk_at(t, i)] + hunks_from(t, j) }
    }
}
pub open spec fn first_hunk(t: Seq<Str>) -> int { if text_at(t) + 2 < t.len() { next_with(t, @"@@", text_at(t) + 2) } else { t.len() as int } }
pub open spec fn all_hunks(t: Seq<Str>) -> Seq<incblame_Hunk> { hunks_from(t, first_hunk(t)) }

// a file diff as git prints it: a declaration of two names, header lines, and hunks of patch lines
pub open spec fn fd_ok(c: Str, a: Str, b: Str) -> bool {
    let t = scan_toks(c, max_line());
    &&& c.len() > 0 && scan_fits(c, max_line()) && t.len() > 0
    &&& t[0] == decl_line(a, b) && decl_name(a, @"a/") && decl_name(b, @"b/")
    &&& forall|i: int| text_at(t) + 2 <= i < t.len() ==> (#[trigger] t[i]).len() > 0 && (if t[i][0] == 64 { range_line_ok(t[i]) && ranges(t[i]).len() > 0 } else { true })
    // a rename names both sides
    &&& header(t, @"rename from").len() > 0 ==> header(t, @"rename to").len() > 0
    // otherwise both names are the same, and written alike
    &&& header(t, @"rename from").len() == 0 ==> a.len() == b.len() && name_in(a) == name_in(b)
}
pub open spec fn path_before(c: Str, a: Str) -> Str {
    let t = scan_toks(c, max_line());
    if header(t, @"rename from").len() > 0 { unq(header(t, @"rename from")) }
    else if header(t, @"new file").len() > 0 { str_empty() }
    else { name_in(a) }
}
pub open spec fn path_after(c: Str, a: Str) -> Str {
    let t = scan_toks(c, max_line());
    if header(t, @"rename from").len() > 0 { unq(header(t, @"rename to")) }
    else if header(t, @"deleted file").len() > 0 { str_empty() }
    else { name_in(a) }
}
pub open spec fn fd_hunks(c: Str) -> Seq<incblame_Hunk> {
    let t = scan_toks(c, max_line());
    if header(t, @"deleted file").len() > 0 { Seq::<incblame_Hunk>::empty() } else { all_hunks(t) }
}
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
// number of a header key in the order the code looks for them
pub open spec fn wanted_index(s: Str) -> int {
    if s == @"rename from" { 0 } else if s == @"rename to" { 1 } else if s == @"new file" { 2 } else if s == @"deleted file" { 3 } else { 4 }
}
pub proof fn lemma_text_at(t: Seq<Str>)
    ensures t.len() >= 1 ==> 1 <= text_at(t) <= t.len(),
        forall|j: int| 1 <= j < text_at(t) ==> !starts_with(#[trigger] t[j], @"---"),
        text_at(t) < t.len() ==> starts_with(t[text_at(t)], @"---")
{ lemma_next_with(t, @"---", 1); }
pub proof fn lemma_first_hunk(t: Seq<Str>)
    ensures t.len() >= 1 ==> first_hunk(t) <= t.len(), t.len() >= 1 && text_at(t) + 2 < t.len() ==> text_at(t) + 2 <= first_hunk(t),
        forall|j: int| text_at(t) + 2 <= j < first_hunk(t) ==> !starts_with(#[trigger] t[j], @"@@"),
        text_at(t) + 2 < t.len() && first_hunk(t) < t.len() ==> starts_with(t[first_hunk(t)], @"@@")
{ lemma_text_at(t); if t.len() >= 1 && text_at(t) + 2 < t.len() { lemma_next_with(t, @"@@", text_at(t) + 2); } }
pub proof fn lemma_empty(s: Str)
    ensures s.len() == 0 <==> s == str_empty()
{ if s.len() == 0 { assert(s =~= str_empty()); } }
// the hunk that starts at line g ends before line k, where the next one starts
pub proof fn lemma_hunk_done(t: Seq<Str>, res: Seq<incblame_Hunk>, g: int, k: int)
    requires 0 <= g < k <= t.len(), next_with(t, @"@@", g + 1) == k
    ensures res + hunks_from(t, g) == res.push(hunk_at(t, g)) + hunks_from(t, k), hunk_at(t, g).Data == lines_data(t, g + 1, k), hunk_at(t, g).Locations == ranges(t[g])
{
    assert(hunks_from(t, g) == seq![hunk_at(t, g)] + hunks_from(t, k));
    assert(res + (seq![hunk_at(t, g)] + hunks_from(t, k)) =~= res.push(hunk_at(t, g)) + hunks_from(t, k));
}
