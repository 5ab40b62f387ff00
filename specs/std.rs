// Shared mathematical vocabulary. Everything here is a definition, a proved lemma, or (uninterp) an unspecified function;
// there are no axioms, admits or assumed facts.
pub type Str = Seq<int>;
pub open spec fn str_empty() -> Str { Seq::<int>::empty() }

// a pointer to data: identity and the pointed-to value; identity 0 is nil
#[verifier::ext_equal]
pub ghost struct Ptr<T> { pub id: int, pub v: T }
pub uninterp spec fn arb<T>() -> T;
pub open spec fn nilptr<T>() -> Ptr<T> { Ptr { id: 0, v: arb::<T>() } }

pub open spec fn mget<K, V>(m: Map<K, V>, k: K, d: V) -> V { if m.dom().contains(k) { m[k] } else { d } }

pub uninterp spec fn is_nil_seq<T>(s: Seq<T>) -> bool;
pub uninterp spec fn is_nil_map<K, V>(m: Map<K, V>) -> bool;
pub open spec fn seq_perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() == b.to_multiset() }

pub open spec fn go_div(a: int, b: int) -> int { if (a >= 0) == (b > 0) || a % b == 0 { a / b } else { a / b + 1 } }
pub open spec fn go_mod(a: int, b: int) -> int { a - b * go_div(a, b) }

// ---- strings
pub open spec fn str_eq(a: Str, b: Str) -> bool { a == b }
pub open spec fn starts_with(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn ends_with(s: Str, p: Str) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn trim_prefix(s: Str, p: Str) -> Str { if starts_with(s, p) { s.subrange(p.len() as int, s.len() as int) } else { s } }
pub open spec fn trim_suffix(s: Str, p: Str) -> Str { if ends_with(s, p) { s.subrange(0, s.len() - p.len()) } else { s } }
// first position of byte b at or after i; s.len() if none
pub open spec fn find_byte(s: Str, b: int, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == b { i } else { find_byte(s, b, i + 1) }
}
pub open spec fn str_indexbyte(s: Str, b: int) -> int { if find_byte(s, b, 0) < s.len() { find_byte(s, b, 0) } else { -1 } }
// first position of p at or after i; s.len()+1 if none
pub open spec fn find_str(s: Str, p: Str, i: int) -> int decreases s.len() - i + 1 {
    if i < 0 || i + p.len() > s.len() { s.len() as int + 1 } else if s.subrange(i, i + p.len()) == p { i } else { find_str(s, p, i + 1) }
}
pub open spec fn str_index(s: Str, p: Str) -> int { if find_str(s, p, 0) <= s.len() { find_str(s, p, 0) } else { -1 } }
pub open spec fn str_contains(s: Str, p: Str) -> bool { find_str(s, p, 0) <= s.len() }
// parts of s between separators (non-empty separator)
pub open spec fn split_from(s: Str, p: Str, fuel: nat) -> Seq<Str> decreases fuel {
    let i = find_str(s, p, 0);
    if fuel == 0 || p.len() == 0 || i > s.len() { seq![s] }
    else { seq![s.subrange(0, i)] + split_from(s.subrange(i + p.len(), s.len() as int), p, (fuel - 1) as nat) }
}
pub open spec fn str_split(s: Str, p: Str) -> Seq<Str> { split_from(s, p, s.len()) }
pub open spec fn str_splitn(s: Str, p: Str, n: int) -> Seq<Str> {
    if n == 0 { Seq::<Str>::empty() } else if n < 0 { str_split(s, p) } else { split_from(s, p, (n - 1) as nat) }
}
pub open spec fn in_set(cut: Str, b: int) -> bool { cut.contains(b) }
pub open spec fn str_trimleft(s: Str, cut: Str) -> Str decreases s.len() {
    if s.len() > 0 && in_set(cut, s[0]) { str_trimleft(s.subrange(1, s.len() as int), cut) } else { s }
}
pub open spec fn str_trimright(s: Str, cut: Str) -> Str decreases s.len() {
    if s.len() > 0 && in_set(cut, s[s.len() - 1]) { str_trimright(s.subrange(0, s.len() - 1), cut) } else { s }
}
pub open spec fn str_trim(s: Str, cut: Str) -> Str { str_trimright(str_trimleft(s, cut), cut) }
pub uninterp spec fn str_trimspace(s: Str) -> Str;
pub open spec fn str_join(p: Seq<Str>, sep: Str) -> Str decreases p.len() {
    if p.len() == 0 { str_empty() } else if p.len() == 1 { p[0] } else { str_join(p.drop_last(), sep) + sep + p.last() }
}
// what a callback answers to the last of these calls
pub uninterp spec fn callback_result(calls: Seq<Str>) -> int;
// the text of an error value
pub uninterp spec fn errtext(e: int) -> Str;
// whether a text matches a compiled pattern
pub uninterp spec fn re_match(re: Ptr<int>, s: Str) -> bool;
pub uninterp spec fn re_matches(pattern: Str, s: Str) -> bool;
// the text matched and that of every group, empty if there is no match
pub uninterp spec fn re_groups(pattern: Str, s: Str) -> Seq<Str>;
// where byte b is, from i on, as [from, to)
pub open spec fn find_bytes(s: Str, b: int, i: int) -> Seq<Seq<int>> decreases s.len() - i {
    if i < 0 || i > s.len() { Seq::<Seq<int>>::empty() } else {
        let j = find_byte(s, b, i);
        if j < i || j >= s.len() { Seq::<Seq<int>>::empty() } else { seq![seq![j, j + 1]] + find_bytes(s, b, j + 1) }
    }
}
pub uninterp spec fn re_find_all(re: Ptr<int>, s: Str) -> Seq<Seq<int>>;
// numbers as strconv.ParseInt reads them, the value also in case of an error
pub uninterp spec fn parse_int(s: Str, base: int, bits: int) -> int;
pub uninterp spec fn parse_int_ok(s: Str, base: int, bits: int) -> bool;
pub uninterp spec fn file_name(f: int) -> Str;
// last position of p at or before i; -1 if none
pub open spec fn rfind_str(s: Str, p: Str, i: int) -> int decreases i + 1 {
    if i < 0 || i + p.len() > s.len() { -1 } else if s.subrange(i, i + p.len()) == p { i } else { rfind_str(s, p, i - 1) }
}
pub open spec fn str_lastindex(s: Str, p: Str) -> int { rfind_str(s, p, s.len() - p.len()) }
proof fn lemma_std_find_byte(s: Str, b: int, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= find_byte(s, b, i) <= s.len(), find_byte(s, b, i) < s.len() ==> s[find_byte(s, b, i)] == b,
        forall|j: int| i <= j < find_byte(s, b, i) ==> #[trigger] s[j] != b,
    decreases s.len() - i
{ if i < s.len() && s[i] != b { lemma_std_find_byte(s, b, i + 1); } }
proof fn lemma_std_find_str(s: Str, p: Str, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= find_str(s, p, i) <= s.len() - p.len() || find_str(s, p, i) == s.len() + 1,
        find_str(s, p, i) <= s.len() ==> s.subrange(find_str(s, p, i), find_str(s, p, i) + p.len()) == p,
    decreases s.len() - i
{ if p.len() == 0 { assert(s.subrange(i, i + p.len()) =~= p); } if i + p.len() <= s.len() && s.subrange(i, i + p.len()) != p && i < s.len() { lemma_std_find_str(s, p, i + 1); } }
proof fn lemma_rfind_str(s: Str, p: Str, i: int)
    requires i + p.len() <= s.len(),
    ensures -1 <= rfind_str(s, p, i), rfind_str(s, p, i) >= 0 ==> rfind_str(s, p, i) <= i && s.subrange(rfind_str(s, p, i), rfind_str(s, p, i) + p.len()) == p,
    decreases i + 1
{ if i >= 0 && s.subrange(i, i + p.len()) != p { lemma_rfind_str(s, p, i - 1); } }
// given at every call of the functions in the code
pub proof fn lemma_str_indexbyte(s: Str, b: int)
    ensures -1 <= str_indexbyte(s, b) < s.len(), str_indexbyte(s, b) >= 0 ==> s[str_indexbyte(s, b)] == b,
        forall|j: int| 0 <= j < str_indexbyte(s, b) ==> #[trigger] s[j] != b,
        str_indexbyte(s, b) < 0 ==> forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != b,
        str_indexbyte(s, b) == str_index(s, seq![b]),
{ lemma_std_find_byte(s, b, 0); lemma_std_one_byte(s, b, 0); }
proof fn lemma_std_one_byte(s: Str, b: int, i: int)
    requires 0 <= i <= s.len(),
    ensures find_byte(s, b, i) < s.len() ==> find_str(s, seq![b], i) == find_byte(s, b, i), find_byte(s, b, i) >= s.len() ==> find_str(s, seq![b], i) == s.len() + 1,
    decreases s.len() - i
{
    if i < s.len() {
        assert(s.subrange(i, i + 1)[0] == s[i]);
        assert(s[i] == b ==> s.subrange(i, i + 1) =~= seq![b]);
        lemma_std_one_byte(s, b, i + 1);
    }
}
pub proof fn lemma_str_index(s: Str, p: Str)
    ensures -1 <= str_index(s, p) <= s.len() - p.len() || str_index(s, p) == -1,
        str_index(s, p) >= 0 ==> s.subrange(str_index(s, p), str_index(s, p) + p.len()) == p,
        p.len() > 0 ==> str_splitn(s, p, 2) == halves(s, p), str_contains(s, p) == (str_index(s, p) >= 0),
{
    lemma_std_find_str(s, p, 0);
    let i = find_str(s, p, 0);
    if p.len() > 0 && i <= s.len() {
        let r = s.subrange(i + p.len(), s.len() as int);
        assert(split_from(r, p, 0) =~= seq![r]);
        assert(split_from(s, p, 1) =~= seq![s.subrange(0, i)] + split_from(r, p, 0));
        assert(str_splitn(s, p, 2) =~= halves(s, p));
    }
}
pub open spec fn halves(s: Str, p: Str) -> Seq<Str> {
    let i = str_index(s, p);
    if i < 0 { seq![s] } else { seq![s.subrange(0, i), s.subrange(i + p.len(), s.len() as int)] }
}
pub proof fn lemma_str_lastindex(s: Str, p: Str)
    ensures -1 <= str_lastindex(s, p) <= s.len() - p.len() || str_lastindex(s, p) == -1,
        str_lastindex(s, p) >= 0 ==> s.subrange(str_lastindex(s, p), str_lastindex(s, p) + p.len()) == p,
{ lemma_rfind_str(s, p, s.len() - p.len()); }
pub uninterp spec fn str_fields(s: Str) -> Seq<Str>;
pub uninterp spec fn str_itoa(n: int) -> Str;
pub uninterp spec fn str_lower(s: Str) -> Str;
pub uninterp spec fn str_upper(s: Str) -> Str;
pub uninterp spec fn str_replace(s: Str, a: Str, b: Str, n: int) -> Str;
pub uninterp spec fn str_replaceall(s: Str, a: Str, b: Str) -> Str;
pub uninterp spec fn str_repeat(s: Str, n: int) -> Str;
pub uninterp spec fn str_count(s: Str, p: Str) -> int;
pub uninterp spec fn path_join(p: Seq<Str>) -> Str;
pub uninterp spec fn path_base(p: Str) -> Str;
pub uninterp spec fn path_ext(p: Str) -> Str;
pub uninterp spec fn path_dir(p: Str) -> Str;
// decimal numbers as strconv.Atoi reads them
pub uninterp spec fn atoi_ok(s: Str) -> bool;
pub uninterp spec fn atoi_val(s: Str) -> int;
// quoted names as strconv.Unquote reads them
pub uninterp spec fn unquote_ok(s: Str) -> bool;
pub uninterp spec fn str_unquote(s: Str) -> Str;
// byte-wise order
pub open spec fn str_lt(a: Str, b: Str) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] }
    else { str_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn is_str_sorted(s: Seq<Str>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !str_lt(#[trigger] s[j], #[trigger] s[i]) }
pub open spec fn str_sorted(s: Seq<Str>) -> Seq<Str> { s.sort_by(|a: Str, b: Str| !str_lt(b, a)) }
pub proof fn lemma_str_lt(a: Str, b: Str)
    ensures str_lt(a, b) ==> !str_lt(b, a), !str_lt(a, b) && !str_lt(b, a) ==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        let (x, y) = (a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
        lemma_str_lt(x, y);
        if x == y && a[0] == b[0] { assert(a =~= seq![a[0]] + x); assert(b =~= seq![b[0]] + y); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_str_le_trans(a: Str, b: Str, c: Str)
    requires !str_lt(b, a), !str_lt(c, b)
    ensures !str_lt(c, a)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] {
            lemma_str_le_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
        }
    }
}
pub proof fn lemma_str_sorted(s: Seq<Str>)
    ensures is_str_sorted(str_sorted(s)), seq_perm(s, str_sorted(s))
{
    let le = |a: Str, b: Str| !str_lt(b, a);
    assert forall|x: Str| #[trigger] le(x, x) by { lemma_str_lt(x, x); }
    assert forall|x: Str, y: Str| #[trigger] le(x, y) && #[trigger] le(y, x) implies x == y by { lemma_str_lt(x, y); }
    assert forall|x: Str, y: Str, z: Str| #[trigger] le(x, y) && #[trigger] le(y, z) implies le(x, z) by { lemma_str_le_trans(x, y, z); }
    assert forall|x: Str, y: Str| #[trigger] le(x, y) || #[trigger] le(y, x) by { lemma_str_lt(x, y); }
    assert(vstd::relations::total_ordering(le));
    s.lemma_sort_by_ensures(le);
    let t = s.sort_by(le);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies !str_lt(#[trigger] t[j], #[trigger] t[i]) by { assert(le(t[i], t[j])); }
}

// ---- readers and scanners
// everything a reader yields until it ends, and the error it ends with (0: end of file)
#[verifier::ext_equal]
pub ghost struct Rd { pub data: Str, pub err: int }
// a reader that is an open file or a library reader, known by its number
pub uninterp spec fn handle_rd(h: int) -> Rd;
pub uninterp spec fn rd_handle(r: Rd) -> int;
pub open spec fn nil_rd() -> Rd { Rd { data: str_empty(), err: 0 } }
pub open spec fn rd_of(s: Str) -> Rd { Rd { data: s, err: 0 } }

pub open spec fn drop_cr(s: Str) -> Str { if s.len() > 0 && s[s.len() - 1] == 13 { s.subrange(0, s.len() - 1) } else { s } }
// bufio.ScanLines with a token limit: lines up to the first that does not fit
pub open spec fn scan_toks(s: Str, max: int) -> Seq<Str> decreases s.len() {
    if s.len() == 0 { Seq::<Str>::empty() } else {
        let i = find_byte(s, 10, 0);
        if i >= max || i < 0 { Seq::<Str>::empty() }
        else if i >= s.len() { seq![drop_cr(s)] }
        else { seq![drop_cr(s.subrange(0, i))] + scan_toks(s.subrange(i + 1, s.len() as int), max) }
    }
}
pub open spec fn scan_fits(s: Str, max: int) -> bool decreases s.len() {
    if s.len() == 0 { true } else {
        let i = find_byte(s, 10, 0);
        if i >= max || i < 0 { false }
        else if i >= s.len() { true }
        else { scan_fits(s.subrange(i + 1, s.len() as int), max) }
    }
}
#[verifier::ext_equal]
pub ghost struct Scanner { pub rd: Rd, pub max: int, pub pos: int }
pub open spec fn nil_scanner() -> Scanner { Scanner { rd: nil_rd(), max: 0, pos: 0 } }
pub open spec fn scanner_new(rd: Rd, max: int) -> Scanner { Scanner { rd: rd, max: max, pos: 0 } }
pub open spec fn scanner_toks(s: Scanner) -> Seq<Str> { scan_toks(s.rd.data, s.max) }
pub open spec fn scanner_next(s: Scanner) -> Scanner { if s.pos <= scanner_toks(s).len() { Scanner { pos: s.pos + 1, ..s } } else { s } }
pub open spec fn scanner_has(s: Scanner) -> bool { s.pos <= scanner_toks(s).len() }
pub open spec fn scanner_tok(s: Scanner) -> Str { if 0 < s.pos && s.pos <= scanner_toks(s).len() { scanner_toks(s)[s.pos - 1] } else { str_empty() } }
pub uninterp spec fn err_toolong() -> nat;
pub uninterp spec fn err_early(s: Scanner) -> int;
pub open spec fn scanner_err(s: Scanner) -> int {
    if s.pos <= scanner_toks(s).len() { err_early(s) } else if !scan_fits(s.rd.data, s.max) { (1 + err_toolong()) as int } else { s.rd.err }
}
pub open spec fn max_line() -> int { 100000000 }

// ---- interface values and container/list
pub uninterp spec fn box_str(s: Str) -> int;
pub uninterp spec fn unbox_str(i: int) -> Str;
pub uninterp spec fn is_str(i: int) -> bool;
#[verifier::ext_equal]
pub ghost struct GoList { pub ok: bool, pub items: Seq<int> }
pub open spec fn nil_list() -> GoList { GoList { ok: false, items: Seq::<int>::empty() } }
pub open spec fn new_list() -> GoList { GoList { ok: true, items: Seq::<int>::empty() } }
pub ghost struct GoElem { pub ok: bool, pub l: GoList, pub i: int, pub val: int }
pub open spec fn nil_elem() -> GoElem { GoElem { ok: false, l: nil_list(), i: 0, val: 0 } }
pub open spec fn list_elem(l: GoList, i: int) -> GoElem { if 0 <= i && i < l.items.len() { GoElem { ok: true, l: l, i: i, val: l.items[i] } } else { nil_elem() } }
pub uninterp spec fn list_unknown(l: GoList, e: GoElem) -> GoList;
// Remove, for an element taken from the list as it is
pub open spec fn list_remove(l: GoList, e: GoElem) -> GoList { if e.l == l && 0 <= e.i && e.i < l.items.len() { GoList { items: l.items.remove(e.i), ..l } } else { list_unknown(l, e) } }

// what workers send: some order of what the single items give
pub open spec fn multi_of<A>(outs: Seq<Seq<A>>, n: int) -> Multiset<A> decreases n {
    if n <= 0 { Multiset::empty() } else { multi_of(outs, n - 1).add(outs[n - 1].to_multiset()) }
}
pub open spec fn is_shuffle<A>(outs: Seq<Seq<A>>, sent: Seq<A>) -> bool { sent.to_multiset() =~= multi_of(outs, outs.len() as int) }
