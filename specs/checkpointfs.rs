// The files of a checkpoint and the state they stand for.

// ---- the file system: directories with their files, and what the files hold. A name refers to a file, so moving a name moves what
// is in the file, whoever has it open.
pub type Files = Map<Str, int>;
pub type Dirs = Map<Str, Files>;
pub enum Content { Partial, Bytes(Str), Packed { from: int, toks: Seq<Tok>, closed: bool } }
// the file behind an open file handle, a compressing writer, a decompressing reader; the compressing writer a record writer writes to
pub uninterp spec fn h_ino(f: int) -> int;
pub uninterp spec fn gw_file(w: int) -> int;
pub open spec fn gw_ino(w: int) -> int { h_ino(gw_file(w)) }
pub uninterp spec fn gr_ino(r: int) -> int;
pub uninterp spec fn mw_gz(mw: int) -> int;
// directory d is p or is inside p
pub uninterp spec fn within(d: Str, p: Str) -> bool;
// a name without directories
pub open spec fn plain(n: Str) -> bool { n.len() > 2 && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != 47 }
// the directory d, as filepath.Dir names it
pub open spec fn at(d: Str) -> Str { if d == str_empty() { @"." } else { path_join(seq![d]) } }
pub open spec fn loc(d: Str, n: Str) -> Str { path_join(seq![d, n]) }
// what filepath does with the names of files in a directory
#[verifier::external_body]
pub proof fn paths(d: Str, n: Str)
    requires plain(n)
    ensures path_base(loc(d, n)) == n, path_dir(loc(d, n)) == at(d), path_base(loc(d, n) + @".tmp") == n + @".tmp", path_dir(loc(d, n) + @".tmp") == at(d),
        path_join(seq![loc(d, n)]) == loc(d, n), loc(d, n) != str_empty(), loc(d, n) != at(d),
        within(loc(d, n) + @".tmp", at(d)), !within(at(d), loc(d, n) + @".tmp"), loc(d, n) + @".tmp" != at(d),
        within(loc(d, n), at(d)), !within(at(d), loc(d, n))
{}
#[verifier::external_body]
pub proof fn siblings(d: Str, m: Str, n: Str)
    requires plain(m), plain(n), m != n
    ensures loc(d, m) != loc(d, n), !within(loc(d, m), loc(d, n)), !within(at(d), loc(d, n))
{}
pub open spec fn has_file(fs: Dirs, p: Str) -> bool { fs.dom().contains(path_dir(p)) && fs[path_dir(p)].dom().contains(path_base(p)) }
pub open spec fn file_at(fs: Dirs, p: Str) -> int { fs[path_dir(p)][path_base(p)] }
pub open spec fn put_file(fs: Dirs, p: Str, i: int) -> Dirs { fs.insert(path_dir(p), fs[path_dir(p)].insert(path_base(p), i)) }
pub open spec fn del_file(fs: Dirs, p: Str) -> Dirs { fs.insert(path_dir(p), fs[path_dir(p)].remove(path_base(p))) }
// a file that is opened for writing: the one that is there, or a new one
pub open spec fn opened_file(fs: Dirs, disk: Map<int, Content>, p: Str, i: int) -> bool { if has_file(fs, p) { i == file_at(fs, p) } else { !disk.dom().contains(i) } }
pub open spec fn written_file(fs0: Dirs, disk0: Map<int, Content>, fs1: Dirs, disk1: Map<int, Content>, p: Str, c: Content) -> bool {
    exists|i: int| opened_file(fs0, disk0, p, i) && fs0.dom().contains(path_dir(p)) && fs1 == put_file(fs0, p, i) && disk1 == #[trigger] disk0.insert(i, c)
}
// everything is as before, but for what is at p, of which some may be gone
pub open spec fn less(fs0: Dirs, fs1: Dirs, p: Str) -> bool {
    forall|d: Str| #![trigger fs1.dom().contains(d)]
        if within(d, p) || d == p { fs1.dom().contains(d) ==> fs0.dom().contains(d) && sub_files(fs1[d], fs0[d]) }
        else { fs1.dom().contains(d) == fs0.dom().contains(d) && (fs0.dom().contains(d) ==> fs1[d] == fs0[d] || d == path_dir(p) && fs1[d] == fs0[d].remove(path_base(p))) }
}
pub open spec fn sub_files(a: Files, b: Files) -> bool { forall|n: Str| #[trigger] a.dom().contains(n) ==> b.dom().contains(n) && a[n] == b[n] }
pub open spec fn moved(fs0: Dirs, fs1: Dirs, p: Str, q: Str) -> bool {
    if fs0.dom().contains(p) { fs1.dom().contains(q) && fs1[q] == fs0[p] && !fs1.dom().contains(p) }
    else { has_file(fs0, p) && !fs0.dom().contains(q) && fs1 == put_file(del_file(fs0, p), q, file_at(fs0, p)) }
}
pub open spec fn can_move(fs: Dirs, p: Str, q: Str) -> bool {
    &&& path_dir(p) == path_dir(q) && p != q
    &&& if fs.dom().contains(p) { (!fs.dom().contains(q) || fs[q].dom() =~= Set::<Str>::empty()) && !has_file(fs, q) } else { has_file(fs, p) && !fs.dom().contains(q) }
}
pub open spec fn fs_dir(fs: Dirs, p: Str) -> bool { fs.dom().contains(p) }
// everything is as before, but for new empty directories on the way to p
pub open spec fn more(fs0: Dirs, fs1: Dirs, p: Str) -> bool {
    forall|d: Str| #![trigger fs1.dom().contains(d)] (fs0.dom().contains(d) ==> fs1.dom().contains(d) && fs1[d] == fs0[d]) && (fs1.dom().contains(d) && !fs0.dom().contains(d) ==> fs1[d] == Map::<Str, int>::empty() && (d == p || within(p, d)))
}
// nothing is left of p
pub open spec fn gone(fs: Dirs, p: Str) -> bool { !fs.dom().contains(p) && !has_file(fs, p) && forall|d: Str| within(d, p) ==> !#[trigger] fs.dom().contains(d) }
pub open spec fn packed(disk: Map<int, Content>, i: int) -> bool { disk.dom().contains(i) && disk[i] is Packed }
pub open spec fn packed_toks(disk: Map<int, Content>, i: int) -> Seq<Tok> { disk[i]->toks }
pub open spec fn packed_closed(disk: Map<int, Content>, i: int) -> bool { disk[i]->closed }
pub open spec fn sealed(c: Content) -> Content { match c { Content::Packed { from, toks, closed } => Content::Packed { from: from, toks: toks, closed: true }, _ => c } }
// a hash; different data may have the same
pub uninterp spec fn hash_of(b: Str) -> int;
// the items a file holds, all of what its writer was given
pub open spec fn holds(disk: Map<int, Content>, wtoks: Map<int, Seq<Tok>>, i: int, t: Seq<Tok>) -> bool {
    disk.dom().contains(i) && (disk[i] matches Content::Packed { from, toks, closed } && toks == t && !closed && wtoks.dom().contains(from) && wtoks[from] == t)
}

// ---- the state in a checkpoint
pub ghost struct FileV { pub by: Str, pub bin: bool, pub lines: Seq<LV> }
pub ghost struct Tables { pub rows: Seq<disk_DataRow>, pub blames: Seq<disk_Blame>, pub lines: Seq<disk_Line>, pub datas: Seq<disk_LineData> }
pub open spec fn no_tables() -> Tables { Tables { rows: Seq::empty(), blames: Seq::empty(), lines: Seq::empty(), datas: Seq::empty() } }
pub open spec fn blame_view(b: incblame_Blame) -> FileV { FileV { by: b.Commit, bin: b.IsBinary, lines: lvs(b.Lines) } }
pub open spec fn repo_ok(m: Map<Str, Map<Str, Ptr<incblame_Blame>>>) -> bool { forall|c: Str, f: Str| #![trigger m[c].dom().contains(f)] m.dom().contains(c) && m[c].dom().contains(f) ==> m[c][f].id != 0 && nonnil(m[c][f].v.Lines) }
pub open spec fn files_view(m: Map<Str, Ptr<incblame_Blame>>) -> Map<Str, FileV> { Map::new(m.dom(), |f: Str| blame_view(m[f].v)) }
pub open spec fn repo_view(m: Map<Str, Map<Str, Ptr<incblame_Blame>>>) -> Map<Str, Map<Str, FileV>> { Map::new(m.dom(), |c: Str| files_view(m[c])) }
pub open spec fn data_map(d: Seq<disk_LineData>) -> Map<int, Str> decreases d.len() {
    if d.len() == 0 { Map::empty() } else { data_map(d.drop_last()).insert(d.last().Pointer, d.last().Data) }
}
pub open spec fn line_map(dm: Map<int, Str>, l: Seq<disk_Line>) -> Map<int, LV> decreases l.len() {
    if l.len() == 0 { Map::empty() } else { line_map(dm, l.drop_last()).insert(l.last().Pointer, LV { c: dm[l.last().LineDataPointer], by: l.last().Commit }) }
}
pub open spec fn row_blame(lm: Map<int, LV>, b: disk_Blame) -> FileV { FileV { by: b.Commit, bin: b.IsBinary, lines: b.LinePointers.map_values(|p: int| lm[p]) } }
pub open spec fn blame_map(lm: Map<int, LV>, b: Seq<disk_Blame>) -> Map<int, FileV> decreases b.len() {
    if b.len() == 0 { Map::empty() } else { blame_map(lm, b.drop_last()).insert(b.last().Pointer, row_blame(lm, b.last())) }
}
pub open spec fn no_file_views() -> Map<Str, FileV> { Map::empty() }
pub open spec fn with_row(m: Map<Str, Map<Str, FileV>>, bm: Map<int, FileV>, r: disk_DataRow) -> Map<Str, Map<Str, FileV>> {
    m.insert(r.Commit, if r.BlamePointer == 0 { mget(m, r.Commit, no_file_views()) } else { mget(m, r.Commit, no_file_views()).insert(r.Path, bm[r.BlamePointer]) })
}
pub open spec fn row_map(bm: Map<int, FileV>, r: Seq<disk_DataRow>) -> Map<Str, Map<Str, FileV>> decreases r.len() {
    if r.len() == 0 { Map::empty() } else { with_row(row_map(bm, r.drop_last()), bm, r.last()) }
}
pub open spec fn lines_ok(dm: Map<int, Str>, l: Seq<disk_Line>) -> bool { forall|i: int| 0 <= i < l.len() ==> dm.dom().contains((#[trigger] l[i]).LineDataPointer) }
pub open spec fn refs_ok(lm: Map<int, LV>, b: disk_Blame) -> bool { forall|j: int| 0 <= j < b.LinePointers.len() ==> lm.dom().contains(#[trigger] b.LinePointers[j]) }
pub open spec fn blames_ok(lm: Map<int, LV>, b: Seq<disk_Blame>) -> bool { forall|i: int| 0 <= i < b.len() ==> refs_ok(lm, #[trigger] b[i]) }
pub open spec fn rows_ok(bm: Map<int, FileV>, r: Seq<disk_DataRow>) -> bool { forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).BlamePointer == 0 || bm.dom().contains(r[i].BlamePointer) }
pub open spec fn t_dm(t: Tables) -> Map<int, Str> { data_map(t.datas) }
pub open spec fn t_lm(t: Tables) -> Map<int, LV> { line_map(t_dm(t), t.lines) }
pub open spec fn t_bm(t: Tables) -> Map<int, FileV> { blame_map(t_lm(t), t.blames) }
pub open spec fn tables_ok(t: Tables) -> bool { lines_ok(t_dm(t), t.lines) && blames_ok(t_lm(t), t.blames) && rows_ok(t_bm(t), t.rows) }
pub open spec fn tables_state(t: Tables) -> Map<Str, Map<Str, FileV>> { row_map(t_bm(t), t.rows) }

// directory d holds the tables t
pub open spec fn complete(fs: Dirs, disk: Map<int, Content>, wtoks: Map<int, Seq<Tok>>, d: Str, t: Tables) -> bool {
    &&& tables_ok(t) && has_all(fs, d)
    &&& holds(disk, wtoks, fs[d][@"repo"], flat_row(t.rows)) && holds(disk, wtoks, fs[d][@"blames"], flat_blame(t.blames))
    &&& holds(disk, wtoks, fs[d][@"lines"], flat_line(t.lines)) && holds(disk, wtoks, fs[d][@"line-data"], flat_data(t.datas))
}
pub open spec fn has_all(fs: Dirs, d: Str) -> bool { fs.dom().contains(d) && fs[d].dom().contains(@"repo") && fs[d].dom().contains(@"blames") && fs[d].dom().contains(@"lines") && fs[d].dom().contains(@"line-data") }
// what the version file says
pub open spec fn versioned(fs: Dirs, disk: Map<int, Content>, d: Str, v: Str) -> bool { disk.dom().contains(fs[d][@"checkpoint-version"]) && disk[fs[d][@"checkpoint-version"]] == Content::Bytes(v) }
pub open spec fn has_version(fs: Dirs, d: Str) -> bool { fs.dom().contains(d) && fs[d].dom().contains(@"checkpoint-version") }
// a read of d finds the checkpoint with version v and tables t, or none
pub open spec fn recoverable(fs: Dirs, disk: Map<int, Content>, wtoks: Map<int, Seq<Tok>>, d: Str, v: Str, t: Tables) -> bool {
    (has_all(fs, d) ==> complete(fs, disk, wtoks, d, t)) && (has_version(fs, d) ==> versioned(fs, disk, d, v))
}

// ---- interruption
// every file of d is stored
pub open spec fn stored(fs: Dirs, disk: Map<int, Content>, d: Str) -> bool { forall|n: Str| fs.dom().contains(d) && #[trigger] fs[d].dom().contains(n) ==> disk.dom().contains(fs[d][n]) }
// d has the files it had, or some of them, with what they held
pub open spec fn as_before(fs: Dirs, disk: Map<int, Content>, fs0: Dirs, disk0: Map<int, Content>, d: Str) -> bool {
    fs.dom().contains(d) ==> fs0.dom().contains(d) && forall|n: Str| #[trigger] fs[d].dom().contains(n) ==> fs0[d].dom().contains(n) && fs[d][n] == fs0[d][n] && disk[fs[d][n]] == disk0[fs0[d][n]]
}
// the file holds all that its writer, made after w0, was given
pub open spec fn held(disk: Map<int, Content>, wtoks: Map<int, Seq<Tok>>, w0: Map<int, Seq<Tok>>, i: int) -> bool {
    disk.dom().contains(i) && (disk[i] matches Content::Packed { from, toks, closed } && !closed && toks == toks_of(wtoks, from) && !w0.dom().contains(from))
}
// d holds a new checkpoint, all of it
pub open spec fn whole_new(fs: Dirs, disk: Map<int, Content>, wtoks: Map<int, Seq<Tok>>, w0: Map<int, Seq<Tok>>, d: Str, v: Str) -> bool {
    &&& has_all(fs, d) && has_version(fs, d) && versioned(fs, disk, d, v)
    &&& held(disk, wtoks, w0, fs[d][@"repo"]) && held(disk, wtoks, w0, fs[d][@"blames"]) && held(disk, wtoks, w0, fs[d][@"lines"]) && held(disk, wtoks, w0, fs[d][@"line-data"])
}

pub open spec fn flat_row(s: Seq<disk_DataRow>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc_row(s[0]) + flat_row(s.subrange(1, s.len() as int)) } }
pub proof fn lemma_flat_row(s: Seq<disk_DataRow>, x: disk_DataRow) ensures flat_row(s.push(x)) == flat_row(s) + enc_row(x) decreases s.len() {
    let p = s.push(x);
    if s.len() == 0 { assert(p.subrange(1, 1) =~= Seq::<disk_DataRow>::empty()); assert(flat_row(p.subrange(1, 1)) =~= Seq::<Tok>::empty()); assert(flat_row(p) =~= flat_row(s) + enc_row(x)); }
    else {
        let r = s.subrange(1, s.len() as int);
        lemma_flat_row(r, x);
        assert(p.subrange(1, p.len() as int) =~= r.push(x));
        assert(flat_row(p) =~= flat_row(s) + enc_row(x));
    }
}
// what is left to read after the first k records
pub open spec fn rest_row(s: Seq<disk_DataRow>, k: int) -> Seq<Tok> { if 0 <= k <= s.len() { flat_row(s.subrange(k, s.len() as int)) } else { Seq::empty() } }
pub proof fn lemma_rest_row(s: Seq<disk_DataRow>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> rest_row(s, k) == enc_row(s[k]) + rest_row(s, k + 1) && rest_row(s, k).len() > 0, k >= s.len() ==> rest_row(s, k).len() == 0, rest_row(s, 0) == flat_row(s)
{
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let t = s.subrange(k, s.len() as int); assert(t.subrange(1, t.len() as int) =~= s.subrange(k + 1, s.len() as int)); }
}

pub open spec fn flat_line(s: Seq<disk_Line>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc_line(s[0]) + flat_line(s.subrange(1, s.len() as int)) } }
pub proof fn lemma_flat_line(s: Seq<disk_Line>, x: disk_Line) ensures flat_line(s.push(x)) == flat_line(s) + enc_line(x) decreases s.len() {
    let p = s.push(x);
    if s.len() == 0 { assert(p.subrange(1, 1) =~= Seq::<disk_Line>::empty()); assert(flat_line(p.subrange(1, 1)) =~= Seq::<Tok>::empty()); assert(flat_line(p) =~= flat_line(s) + enc_line(x)); }
    else {
        let r = s.subrange(1, s.len() as int);
        lemma_flat_line(r, x);
        assert(p.subrange(1, p.len() as int) =~= r.push(x));
        assert(flat_line(p) =~= flat_line(s) + enc_line(x));
    }
}
// what is left to read after the first k records
pub open spec fn rest_line(s: Seq<disk_Line>, k: int) -> Seq<Tok> { if 0 <= k <= s.len() { flat_line(s.subrange(k, s.len() as int)) } else { Seq::empty() } }
pub proof fn lemma_rest_line(s: Seq<disk_Line>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> rest_line(s, k) == enc_line(s[k]) + rest_line(s, k + 1) && rest_line(s, k).len() > 0, k >= s.len() ==> rest_line(s, k).len() == 0, rest_line(s, 0) == flat_line(s)
{
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let t = s.subrange(k, s.len() as int); assert(t.subrange(1, t.len() as int) =~= s.subrange(k + 1, s.len() as int)); }
}

pub open spec fn flat_data(s: Seq<disk_LineData>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc_data(s[0]) + flat_data(s.subrange(1, s.len() as int)) } }
pub proof fn lemma_flat_data(s: Seq<disk_LineData>, x: disk_LineData) ensures flat_data(s.push(x)) == flat_data(s) + enc_data(x) decreases s.len() {
    let p = s.push(x);
    if s.len() == 0 { assert(p.subrange(1, 1) =~= Seq::<disk_LineData>::empty()); assert(flat_data(p.subrange(1, 1)) =~= Seq::<Tok>::empty()); assert(flat_data(p) =~= flat_data(s) + enc_data(x)); }
    else {
        let r = s.subrange(1, s.len() as int);
        lemma_flat_data(r, x);
        assert(p.subrange(1, p.len() as int) =~= r.push(x));
        assert(flat_data(p) =~= flat_data(s) + enc_data(x));
    }
}
// what is left to read after the first k records
pub open spec fn rest_data(s: Seq<disk_LineData>, k: int) -> Seq<Tok> { if 0 <= k <= s.len() { flat_data(s.subrange(k, s.len() as int)) } else { Seq::empty() } }
pub proof fn lemma_rest_data(s: Seq<disk_LineData>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> rest_data(s, k) == enc_data(s[k]) + rest_data(s, k + 1) && rest_data(s, k).len() > 0, k >= s.len() ==> rest_data(s, k).len() == 0, rest_data(s, 0) == flat_data(s)
{
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let t = s.subrange(k, s.len() as int); assert(t.subrange(1, t.len() as int) =~= s.subrange(k + 1, s.len() as int)); }
}

pub open spec fn flat_blame(s: Seq<disk_Blame>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc_blame(s[0]) + flat_blame(s.subrange(1, s.len() as int)) } }
pub proof fn lemma_flat_blame(s: Seq<disk_Blame>, x: disk_Blame) ensures flat_blame(s.push(x)) == flat_blame(s) + enc_blame(x) decreases s.len() {
    let p = s.push(x);
    if s.len() == 0 { assert(p.subrange(1, 1) =~= Seq::<disk_Blame>::empty()); assert(flat_blame(p.subrange(1, 1)) =~= Seq::<Tok>::empty()); assert(flat_blame(p) =~= flat_blame(s) + enc_blame(x)); }
    else {
        let r = s.subrange(1, s.len() as int);
        lemma_flat_blame(r, x);
        assert(p.subrange(1, p.len() as int) =~= r.push(x));
        assert(flat_blame(p) =~= flat_blame(s) + enc_blame(x));
    }
}
// what is left to read after the first k records
pub open spec fn rest_blame(s: Seq<disk_Blame>, k: int) -> Seq<Tok> { if 0 <= k <= s.len() { flat_blame(s.subrange(k, s.len() as int)) } else { Seq::empty() } }
pub proof fn lemma_rest_blame(s: Seq<disk_Blame>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> rest_blame(s, k) == enc_blame(s[k]) + rest_blame(s, k + 1) && rest_blame(s, k).len() > 0, k >= s.len() ==> rest_blame(s, k).len() == 0, rest_blame(s, 0) == flat_blame(s)
{
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let t = s.subrange(k, s.len() as int); assert(t.subrange(1, t.len() as int) =~= s.subrange(k + 1, s.len() as int)); }
}

pub open spec fn file_names() -> Seq<Str> { seq![@"repo", @"blames", @"lines", @"line-data", @"checkpoint-version", @"repo.tmp", @"blames.tmp", @"lines.tmp", @"line-data.tmp", @"checkpoint-version.tmp"] }
pub proof fn lemma_plain() ensures plain(@"tmp"), plain(@"checkpoint"), @"tmp" != @"checkpoint", plain(@"repo"), @"repo" + @".tmp" == @"repo.tmp", plain(@"blames"), @"blames" + @".tmp" == @"blames.tmp", plain(@"lines"), @"lines" + @".tmp" == @"lines.tmp", plain(@"line-data"), @"line-data" + @".tmp" == @"line-data.tmp", plain(@"checkpoint-version"), @"checkpoint-version" + @".tmp" == @"checkpoint-version.tmp" {
    @facts"repo";
    @facts"blames";
    @facts"lines";
    @facts"line-data";
    @facts"checkpoint-version";
    @facts"repo.tmp";
    @facts"blames.tmp";
    @facts"lines.tmp";
    @facts"line-data.tmp";
    @facts"checkpoint-version.tmp";
    @facts"tmp";
    @facts"checkpoint";
    @facts".tmp";
    assert(@"repo" + @".tmp" =~= @"repo.tmp");
    assert(@"blames" + @".tmp" =~= @"blames.tmp");
    assert(@"lines" + @".tmp" =~= @"lines.tmp");
    assert(@"line-data" + @".tmp" =~= @"line-data.tmp");
    assert(@"checkpoint-version" + @".tmp" =~= @"checkpoint-version.tmp");
}
pub proof fn lemma_distinct() ensures @"repo" != @"blames", @"repo" != @"lines", @"repo" != @"line-data", @"repo" != @"checkpoint-version", @"repo" != @"repo.tmp", @"repo" != @"blames.tmp", @"repo" != @"lines.tmp", @"repo" != @"line-data.tmp", @"repo" != @"checkpoint-version.tmp", @"blames" != @"lines", @"blames" != @"line-data", @"blames" != @"checkpoint-version", @"blames" != @"repo.tmp", @"blames" != @"blames.tmp", @"blames" != @"lines.tmp", @"blames" != @"line-data.tmp", @"blames" != @"checkpoint-version.tmp", @"lines" != @"line-data", @"lines" != @"checkpoint-version", @"lines" != @"repo.tmp", @"lines" != @"blames.tmp", @"lines" != @"lines.tmp", @"lines" != @"line-data.tmp", @"lines" != @"checkpoint-version.tmp", @"line-data" != @"checkpoint-version", @"line-data" != @"repo.tmp", @"line-data" != @"blames.tmp", @"line-data" != @"lines.tmp", @"line-data" != @"line-data.tmp", @"line-data" != @"checkpoint-version.tmp", @"checkpoint-version" != @"repo.tmp", @"checkpoint-version" != @"blames.tmp", @"checkpoint-version" != @"lines.tmp", @"checkpoint-version" != @"line-data.tmp", @"checkpoint-version" != @"checkpoint-version.tmp", @"repo.tmp" != @"blames.tmp", @"repo.tmp" != @"lines.tmp", @"repo.tmp" != @"line-data.tmp", @"repo.tmp" != @"checkpoint-version.tmp", @"blames.tmp" != @"lines.tmp", @"blames.tmp" != @"line-data.tmp", @"blames.tmp" != @"checkpoint-version.tmp", @"lines.tmp" != @"line-data.tmp", @"lines.tmp" != @"checkpoint-version.tmp", @"line-data.tmp" != @"checkpoint-version.tmp" {
    @facts"repo";
    @facts"blames";
    @facts"lines";
    @facts"line-data";
    @facts"checkpoint-version";
    @facts"repo.tmp";
    @facts"blames.tmp";
    @facts"lines.tmp";
    @facts"line-data.tmp";
    @facts"checkpoint-version.tmp";
    let l = @"line-data"; let m = @"lines.tmp"; assert(l[4] != m[4]);
}
// the files of directory d/m
pub proof fn lemma_names(d: Str, m: Str) requires plain(m) ensures path_dir(loc(d, m)) == at(d), path_base(loc(d, m)) == m, loc(d, m) != at(d), path_dir(loc(loc(d, m), @"repo")) == loc(d, m), path_base(loc(loc(d, m), @"repo")) == @"repo", path_dir(loc(loc(d, m), @"repo") + @".tmp") == loc(d, m), path_base(loc(loc(d, m), @"repo") + @".tmp") == @"repo.tmp", path_dir(loc(loc(d, m), @"blames")) == loc(d, m), path_base(loc(loc(d, m), @"blames")) == @"blames", path_dir(loc(loc(d, m), @"blames") + @".tmp") == loc(d, m), path_base(loc(loc(d, m), @"blames") + @".tmp") == @"blames.tmp", path_dir(loc(loc(d, m), @"lines")) == loc(d, m), path_base(loc(loc(d, m), @"lines")) == @"lines", path_dir(loc(loc(d, m), @"lines") + @".tmp") == loc(d, m), path_base(loc(loc(d, m), @"lines") + @".tmp") == @"lines.tmp", path_dir(loc(loc(d, m), @"line-data")) == loc(d, m), path_base(loc(loc(d, m), @"line-data")) == @"line-data", path_dir(loc(loc(d, m), @"line-data") + @".tmp") == loc(d, m), path_base(loc(loc(d, m), @"line-data") + @".tmp") == @"line-data.tmp", path_dir(loc(loc(d, m), @"checkpoint-version")) == loc(d, m), path_base(loc(loc(d, m), @"checkpoint-version")) == @"checkpoint-version", path_dir(loc(loc(d, m), @"checkpoint-version") + @".tmp") == loc(d, m), path_base(loc(loc(d, m), @"checkpoint-version") + @".tmp") == @"checkpoint-version.tmp", within(loc(loc(d, m), @"repo") + @".tmp", loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"repo") + @".tmp"), loc(loc(d, m), @"repo") + @".tmp" != loc(d, m), within(loc(loc(d, m), @"repo"), loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"repo")), loc(loc(d, m), @"repo") != loc(d, m), within(loc(loc(d, m), @"blames") + @".tmp", loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"blames") + @".tmp"), loc(loc(d, m), @"blames") + @".tmp" != loc(d, m), within(loc(loc(d, m), @"blames"), loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"blames")), loc(loc(d, m), @"blames") != loc(d, m), within(loc(loc(d, m), @"lines") + @".tmp", loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"lines") + @".tmp"), loc(loc(d, m), @"lines") + @".tmp" != loc(d, m), within(loc(loc(d, m), @"lines"), loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"lines")), loc(loc(d, m), @"lines") != loc(d, m), within(loc(loc(d, m), @"line-data") + @".tmp", loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"line-data") + @".tmp"), loc(loc(d, m), @"line-data") + @".tmp" != loc(d, m), within(loc(loc(d, m), @"line-data"), loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"line-data")), loc(loc(d, m), @"line-data") != loc(d, m), within(loc(loc(d, m), @"checkpoint-version") + @".tmp", loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"checkpoint-version") + @".tmp"), loc(loc(d, m), @"checkpoint-version") + @".tmp" != loc(d, m), within(loc(loc(d, m), @"checkpoint-version"), loc(d, m)), !within(loc(d, m), loc(loc(d, m), @"checkpoint-version")), loc(loc(d, m), @"checkpoint-version") != loc(d, m) {
    lemma_plain(); paths(d, m);
    paths(loc(d, m), @"repo");
    paths(loc(d, m), @"blames");
    paths(loc(d, m), @"lines");
    paths(loc(d, m), @"line-data");
    paths(loc(d, m), @"checkpoint-version");
}
pub proof fn lemma_data_step(s: Seq<disk_LineData>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> data_map(s.subrange(0, k + 1)) == data_map(s.subrange(0, k)).insert(s[k].Pointer, s[k].Data), s.subrange(0, s.len() as int) == s, data_map(s.subrange(0, 0)) == data_map(Seq::<disk_LineData>::empty())
{
    assert(s.subrange(0, 0) =~= Seq::<disk_LineData>::empty());
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let u = s.subrange(0, k + 1); assert(u.drop_last() =~= s.subrange(0, k)); assert(u.last() == s[k]); }
}
pub proof fn lemma_line_step(dm: Map<int, Str>, s: Seq<disk_Line>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> line_map(dm, s.subrange(0, k + 1)) == line_map(dm, s.subrange(0, k)).insert(s[k].Pointer, LV { c: dm[s[k].LineDataPointer], by: s[k].Commit }), s.subrange(0, s.len() as int) == s, line_map(dm, s.subrange(0, 0)) == line_map(dm, Seq::<disk_Line>::empty())
{
    assert(s.subrange(0, 0) =~= Seq::<disk_Line>::empty());
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let u = s.subrange(0, k + 1); assert(u.drop_last() =~= s.subrange(0, k)); assert(u.last() == s[k]); }
}
pub proof fn lemma_blame_step(lm: Map<int, LV>, s: Seq<disk_Blame>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> blame_map(lm, s.subrange(0, k + 1)) == blame_map(lm, s.subrange(0, k)).insert(s[k].Pointer, row_blame(lm, s[k])), s.subrange(0, s.len() as int) == s, blame_map(lm, s.subrange(0, 0)) == blame_map(lm, Seq::<disk_Blame>::empty())
{
    assert(s.subrange(0, 0) =~= Seq::<disk_Blame>::empty());
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let u = s.subrange(0, k + 1); assert(u.drop_last() =~= s.subrange(0, k)); assert(u.last() == s[k]); }
}
pub proof fn lemma_row_step(bm: Map<int, FileV>, s: Seq<disk_DataRow>, k: int)
    requires 0 <= k
    ensures k < s.len() ==> row_map(bm, s.subrange(0, k + 1)) == with_row(row_map(bm, s.subrange(0, k)), bm, s[k]), s.subrange(0, s.len() as int) == s, row_map(bm, s.subrange(0, 0)) == row_map(bm, Seq::<disk_DataRow>::empty())
{
    assert(s.subrange(0, 0) =~= Seq::<disk_DataRow>::empty());
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { let u = s.subrange(0, k + 1); assert(u.drop_last() =~= s.subrange(0, k)); assert(u.last() == s[k]); }
}

pub open spec fn same_lines(m: Map<int, Ptr<incblame_Line>>, lm: Map<int, LV>) -> bool {
    &&& forall|p: int| #[trigger] m.dom().contains(p) <==> lm.dom().contains(p)
    &&& forall|p: int| #[trigger] m.dom().contains(p) ==> m[p].id != 0 && lv(m[p]) == lm[p]
}
pub open spec fn same_blames(m: Map<int, Ptr<incblame_Blame>>, bm: Map<int, FileV>) -> bool {
    &&& forall|p: int| #[trigger] m.dom().contains(p) <==> bm.dom().contains(p)
    &&& forall|p: int| #[trigger] m.dom().contains(p) ==> m[p].id != 0 && blame_view(m[p].v) == bm[p]
}

pub proof fn lemma_views()
    ensures forall|m: Map<Str, Ptr<incblame_Blame>>, f: Str, b: Ptr<incblame_Blame>| #[trigger] files_view(m.insert(f, b)) == files_view(m).insert(f, blame_view(b.v)),
        files_view(Map::empty()) == no_file_views(),
        forall|r: Map<Str, Map<Str, Ptr<incblame_Blame>>>, c: Str, m: Map<Str, Ptr<incblame_Blame>>| #[trigger] repo_view(r.insert(c, m)) == repo_view(r).insert(c, files_view(m)),
        forall|r: Map<Str, Map<Str, Ptr<incblame_Blame>>>, c: Str| r.dom().contains(c) ==> #[trigger] repo_view(r)[c] == files_view(r[c]),
        forall|r: Map<Str, Map<Str, Ptr<incblame_Blame>>>| #[trigger] repo_view(r).dom() == r.dom()
{
    assert forall|m: Map<Str, Ptr<incblame_Blame>>, f: Str, b: Ptr<incblame_Blame>| #[trigger] files_view(m.insert(f, b)) == files_view(m).insert(f, blame_view(b.v)) by { assert(files_view(m.insert(f, b)) =~= files_view(m).insert(f, blame_view(b.v))); }
    assert(files_view(Map::empty()) =~= no_file_views());
    assert forall|r: Map<Str, Map<Str, Ptr<incblame_Blame>>>, c: Str, m: Map<Str, Ptr<incblame_Blame>>| #[trigger] repo_view(r.insert(c, m)) == repo_view(r).insert(c, files_view(m)) by { assert(repo_view(r.insert(c, m)) =~= repo_view(r).insert(c, files_view(m))); }
    assert forall|r: Map<Str, Map<Str, Ptr<incblame_Blame>>>| #[trigger] repo_view(r).dom() == r.dom() by { assert(repo_view(r).dom() =~= r.dom()); }
}
// ---- writing
// what the four record writers were given
pub open spec fn writing(w: Map<int, Seq<Tok>>, w0: Map<int, Seq<Tok>>, rw: int, bw: int, lw: int, dw: int, t: Tables) -> bool {
    &&& rw != bw && rw != lw && rw != dw && bw != lw && bw != dw && lw != dw
    &&& !w0.dom().contains(rw) && !w0.dom().contains(bw) && !w0.dom().contains(lw) && !w0.dom().contains(dw)
    &&& w.dom().contains(rw) && w.dom().contains(bw) && w.dom().contains(lw) && w.dom().contains(dw)
    &&& w[rw] == flat_row(t.rows) && w[bw] == flat_blame(t.blames) && w[lw] == flat_line(t.lines) && w[dw] == flat_data(t.datas)
    &&& forall|i: int| #[trigger] w0.dom().contains(i) ==> w.dom().contains(i) && w[i] == w0[i]
}
// the objects already written, and where
pub open spec fn kept(t: Tables, bc: int, bps: Map<Ptr<incblame_Blame>, int>, lc: int, lps: Map<Ptr<incblame_Line>, int>, ld: Map<int, Str>) -> bool {
    let lm = t_lm(t);
    let bm = t_bm(t);
    &&& 0 <= bc && 0 <= lc && ld == data_map(t.datas) && tables_ok(t)
    &&& forall|p: int| #[trigger] lm.dom().contains(p) ==> 1 <= p <= lc
    &&& forall|p: int| #[trigger] bm.dom().contains(p) ==> 1 <= p <= bc
    &&& forall|l: Ptr<incblame_Line>| #[trigger] lps.dom().contains(l) ==> lm.dom().contains(lps[l]) && lm[lps[l]] == lv(l)
    &&& forall|b: Ptr<incblame_Blame>| #[trigger] bps.dom().contains(b) ==> bm.dom().contains(bps[b]) && bm[bps[b]] == blame_view(b.v) && bps[b] >= 1
}
// the rows stand for the commits in done
pub open spec fn repo_is(m: Map<Str, Map<Str, FileV>>, repo: Map<Str, Map<Str, Ptr<incblame_Blame>>>, done: Set<Str>) -> bool {
    &&& m.dom() =~= done
    &&& forall|c: Str| #[trigger] done.contains(c) ==> m[c] == files_view(repo[c])
}
// ... and for the files in done of commit ch
pub open spec fn commit_is(m: Map<Str, Map<Str, FileV>>, m0: Map<Str, Map<Str, FileV>>, ch: Str, files: Map<Str, Ptr<incblame_Blame>>, done: Set<Str>) -> bool {
    &&& forall|c: Str| c != ch ==> (#[trigger] m.dom().contains(c) <==> m0.dom().contains(c)) && (m0.dom().contains(c) ==> m[c] == m0[c])
    &&& (m.dom().contains(ch) <==> exists|f: Str| done.contains(f))
    &&& mget(m, ch, no_file_views()).dom() =~= done
    &&& forall|f: Str| #[trigger] done.contains(f) ==> mget(m, ch, no_file_views())[f] == blame_view(files[f].v)
}
pub proof fn lemma_commit_done(m: Map<Str, Map<Str, FileV>>, m0: Map<Str, Map<Str, FileV>>, repo: Map<Str, Map<Str, Ptr<incblame_Blame>>>, done: Set<Str>, ch: Str)
    requires repo_is(m0, repo, done), !done.contains(ch)
    ensures (repo[ch].dom() != Set::<Str>::empty()) && commit_is(m, m0, ch, repo[ch], repo[ch].dom()) ==> repo_is(m, repo, done.insert(ch)),
        repo[ch].dom() =~= Set::<Str>::empty() && m == m0.insert(ch, no_file_views()) ==> repo_is(m, repo, done.insert(ch))
{
    let files = repo[ch];
    if files.dom() != Set::<Str>::empty() && commit_is(m, m0, ch, files, files.dom()) {
        assert(exists|f: Str| files.dom().contains(f)) by { if forall|f: Str| !files.dom().contains(f) { assert(files.dom() =~= Set::<Str>::empty()); } }
        assert(m.dom().contains(ch));
        assert(mget(m, ch, no_file_views()) == m[ch]);
        assert(m[ch] =~= files_view(files));
        assert forall|c: Str| #[trigger] done.insert(ch).contains(c) implies m[c] == files_view(repo[c]) by { if c != ch { assert(done.contains(c)); assert(m0.dom().contains(c)); assert(m.dom().contains(c) <==> m0.dom().contains(c)); } }
        assert forall|c: Str| m.dom().contains(c) == done.insert(ch).contains(c) by { if c != ch { assert(m.dom().contains(c) <==> m0.dom().contains(c)); } }
        assert(m.dom() =~= done.insert(ch));
    }
    if files.dom() =~= Set::<Str>::empty() && m == m0.insert(ch, no_file_views()) {
        assert(files_view(files) =~= no_file_views());
        assert forall|c: Str| #[trigger] done.insert(ch).contains(c) implies m[c] == files_view(repo[c]) by { if c != ch { assert(done.contains(c)); assert(m0.dom().contains(c)); assert(m[c] == m0[c]); } else { assert(m[c] == files_view(files)); } }
        assert(m.dom() =~= done.insert(ch));
    }
}
pub proof fn lemma_commit_row(m: Map<Str, Map<Str, FileV>>, m0: Map<Str, Map<Str, FileV>>, ch: Str, files: Map<Str, Ptr<incblame_Blame>>, done: Set<Str>, fp: Str, v: FileV)
    ensures commit_is(m, m0, ch, files, done) && v == blame_view(files[fp].v) ==> commit_is(m.insert(ch, mget(m, ch, no_file_views()).insert(fp, v)), m0, ch, files, done.insert(fp))
{
    if commit_is(m, m0, ch, files, done) && v == blame_view(files[fp].v) {
        let w = mget(m, ch, no_file_views());
        let n = m.insert(ch, w.insert(fp, v));
        assert(mget(n, ch, no_file_views()) == w.insert(fp, v));
        assert(done.insert(fp).contains(fp));
        assert(n.dom().contains(ch));
        assert(w.insert(fp, v).dom() =~= done.insert(fp));
        assert forall|c: Str| c != ch implies (#[trigger] n.dom().contains(c) <==> m0.dom().contains(c)) && (m0.dom().contains(c) ==> n[c] == m0[c]) by { assert(m.dom().contains(c) <==> m0.dom().contains(c)); }
        assert forall|f: Str| #[trigger] done.insert(fp).contains(f) implies mget(n, ch, no_file_views())[f] == blame_view(files[f].v) by { if f != fp { assert(done.contains(f)); } }
    }
}
// more is written, what was written still means the same
pub open spec fn grown(a: Tables, b: Tables) -> bool {
    &&& forall|p: int| #[trigger] t_lm(a).dom().contains(p) ==> t_lm(b).dom().contains(p) && t_lm(b)[p] == t_lm(a)[p]
    &&& forall|p: int| #[trigger] t_bm(a).dom().contains(p) ==> t_bm(b).dom().contains(p) && t_bm(b)[p] == t_bm(a)[p]
}
pub proof fn lemma_empty_tables(t: Tables) requires t == no_tables()
    ensures tables_ok(t), t_dm(t) == Map::<int, Str>::empty(), t_lm(t) == Map::<int, LV>::empty(), t_bm(t) == Map::<int, FileV>::empty(), row_map(t_bm(t), t.rows) == Map::<Str, Map<Str, FileV>>::empty(),
        flat_row(t.rows) == Seq::<Tok>::empty(), flat_blame(t.blames) == Seq::<Tok>::empty(), flat_line(t.lines) == Seq::<Tok>::empty(), flat_data(t.datas) == Seq::<Tok>::empty()
{}

pub open spec fn with_data(t: Tables, x: disk_LineData) -> Tables { Tables { datas: t.datas.push(x), ..t } }
pub open spec fn with_line(t: Tables, x: disk_Line) -> Tables { Tables { lines: t.lines.push(x), ..t } }
pub open spec fn with_blame(t: Tables, x: disk_Blame) -> Tables { Tables { blames: t.blames.push(x), ..t } }
pub open spec fn with_row_of(t: Tables, x: disk_DataRow) -> Tables { Tables { rows: t.rows.push(x), ..t } }
pub open spec fn inside<V>(a: Map<int, V>, b: Map<int, V>) -> bool { forall|p: int| #[trigger] a.dom().contains(p) ==> b.dom().contains(p) && b[p] == a[p] }
pub proof fn lemma_line_mono(a: Map<int, Str>, b: Map<int, Str>, l: Seq<disk_Line>)
    requires inside(a, b), lines_ok(a, l) ensures lines_ok(b, l), line_map(b, l) == line_map(a, l) decreases l.len()
{
    assert forall|i: int| 0 <= i < l.len() implies b.dom().contains((#[trigger] l[i]).LineDataPointer) by { assert(a.dom().contains(l[i].LineDataPointer)); }
    if l.len() > 0 {
        let d = l.drop_last();
        assert(lines_ok(a, d)) by { assert forall|i: int| 0 <= i < d.len() implies a.dom().contains((#[trigger] d[i]).LineDataPointer) by { assert(d[i] == l[i]); } }
        lemma_line_mono(a, b, d);
        let x = l.last(); assert(x == l[l.len() - 1]); assert(a.dom().contains(x.LineDataPointer));
    }
}
pub proof fn lemma_row_blame(a: Map<int, LV>, b: Map<int, LV>, x: disk_Blame) requires inside(a, b), refs_ok(a, x) ensures refs_ok(b, x), row_blame(b, x) == row_blame(a, x) {
    assert forall|j: int| 0 <= j < x.LinePointers.len() implies b.dom().contains(#[trigger] x.LinePointers[j]) && b[x.LinePointers[j]] == a[x.LinePointers[j]] by { assert(a.dom().contains(x.LinePointers[j])); }
    assert(row_blame(b, x).lines =~= row_blame(a, x).lines);
}
pub proof fn lemma_blame_mono(a: Map<int, LV>, b: Map<int, LV>, l: Seq<disk_Blame>)
    requires inside(a, b), blames_ok(a, l) ensures blames_ok(b, l), blame_map(b, l) == blame_map(a, l) decreases l.len()
{
    assert forall|i: int| 0 <= i < l.len() implies refs_ok(b, #[trigger] l[i]) by { assert(refs_ok(a, l[i])); lemma_row_blame(a, b, l[i]); }
    if l.len() > 0 {
        let d = l.drop_last();
        assert(blames_ok(a, d)) by { assert forall|i: int| 0 <= i < d.len() implies refs_ok(a, #[trigger] d[i]) by { assert(d[i] == l[i]); } }
        lemma_blame_mono(a, b, d);
        let x = l.last(); assert(x == l[l.len() - 1]); assert(refs_ok(a, x)); lemma_row_blame(a, b, x);
    }
}
pub proof fn lemma_row_mono(a: Map<int, FileV>, b: Map<int, FileV>, l: Seq<disk_DataRow>)
    requires inside(a, b), rows_ok(a, l) ensures rows_ok(b, l), row_map(b, l) == row_map(a, l) decreases l.len()
{
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).BlamePointer == 0 || b.dom().contains(l[i].BlamePointer) by { assert(l[i].BlamePointer == 0 || a.dom().contains(l[i].BlamePointer)); }
    if l.len() > 0 {
        let d = l.drop_last();
        assert(rows_ok(a, d)) by { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).BlamePointer == 0 || a.dom().contains(d[i].BlamePointer) by { assert(d[i] == l[i]); } }
        lemma_row_mono(a, b, d);
        let x = l.last(); assert(x == l[l.len() - 1]); assert(x.BlamePointer == 0 || a.dom().contains(x.BlamePointer));
    }
}
pub proof fn lemma_add_data(t: Tables, x: disk_LineData)
    ensures flat_data(with_data(t, x).datas) == flat_data(t.datas) + enc_data(x),
        tables_ok(t) && !t_dm(t).dom().contains(x.Pointer) ==> ({ let u = with_data(t, x); tables_ok(u) && t_dm(u) == t_dm(t).insert(x.Pointer, x.Data) && t_lm(u) == t_lm(t) && t_bm(u) == t_bm(t) && row_map(t_bm(u), u.rows) == row_map(t_bm(t), t.rows) })
{
    lemma_flat_data(t.datas, x);
    let u = with_data(t, x);
    assert(u.datas.drop_last() =~= t.datas);
    if tables_ok(t) && !t_dm(t).dom().contains(x.Pointer) { lemma_line_mono(t_dm(t), t_dm(u), t.lines); }
}
pub proof fn lemma_add_line(t: Tables, x: disk_Line)
    ensures flat_line(with_line(t, x).lines) == flat_line(t.lines) + enc_line(x),
        tables_ok(t) && t_dm(t).dom().contains(x.LineDataPointer) && !t_lm(t).dom().contains(x.Pointer) ==> ({ let u = with_line(t, x); tables_ok(u) && t_lm(u) == t_lm(t).insert(x.Pointer, LV { c: t_dm(t)[x.LineDataPointer], by: x.Commit }) && t_dm(u) == t_dm(t) && t_bm(u) == t_bm(t) && row_map(t_bm(u), u.rows) == row_map(t_bm(t), t.rows) })
{
    lemma_flat_line(t.lines, x);
    let u = with_line(t, x);
    assert(u.lines.drop_last() =~= t.lines);
    if tables_ok(t) && t_dm(t).dom().contains(x.LineDataPointer) && !t_lm(t).dom().contains(x.Pointer) {
        lemma_blame_mono(t_lm(t), t_lm(u), t.blames);
        assert forall|i: int| 0 <= i < u.lines.len() implies t_dm(u).dom().contains((#[trigger] u.lines[i]).LineDataPointer) by { if i < t.lines.len() { assert(u.lines[i] == t.lines[i]); } }
    }
}
pub proof fn lemma_add_blame(t: Tables, x: disk_Blame)
    ensures flat_blame(with_blame(t, x).blames) == flat_blame(t.blames) + enc_blame(x),
        tables_ok(t) && refs_ok(t_lm(t), x) && !t_bm(t).dom().contains(x.Pointer) ==> ({ let u = with_blame(t, x); tables_ok(u) && t_bm(u) == t_bm(t).insert(x.Pointer, row_blame(t_lm(t), x)) && t_dm(u) == t_dm(t) && t_lm(u) == t_lm(t) && row_map(t_bm(u), u.rows) == row_map(t_bm(t), t.rows) })
{
    lemma_flat_blame(t.blames, x);
    let u = with_blame(t, x);
    assert(u.blames.drop_last() =~= t.blames);
    if tables_ok(t) && refs_ok(t_lm(t), x) && !t_bm(t).dom().contains(x.Pointer) {
        lemma_row_mono(t_bm(t), t_bm(u), t.rows);
        assert forall|i: int| 0 <= i < u.blames.len() implies refs_ok(t_lm(u), #[trigger] u.blames[i]) by { if i < t.blames.len() { assert(u.blames[i] == t.blames[i]); } }
    }
}
pub proof fn lemma_add_row(t: Tables, x: disk_DataRow)
    ensures flat_row(with_row_of(t, x).rows) == flat_row(t.rows) + enc_row(x),
        tables_ok(t) && (x.BlamePointer == 0 || t_bm(t).dom().contains(x.BlamePointer)) ==> ({ let u = with_row_of(t, x); tables_ok(u) && t_bm(u) == t_bm(t) && t_dm(u) == t_dm(t) && t_lm(u) == t_lm(t) && row_map(t_bm(u), u.rows) == with_row(row_map(t_bm(t), t.rows), t_bm(t), x) })
{
    lemma_flat_row(t.rows, x);
    let u = with_row_of(t, x);
    assert(u.rows.drop_last() =~= t.rows);
    if tables_ok(t) && (x.BlamePointer == 0 || t_bm(t).dom().contains(x.BlamePointer)) {
        assert forall|i: int| 0 <= i < u.rows.len() implies (#[trigger] u.rows[i]).BlamePointer == 0 || t_bm(u).dom().contains(u.rows[i].BlamePointer) by { if i < t.rows.len() { assert(u.rows[i] == t.rows[i]); } }
    }
}

// ---- error texts
pub open spec fn mentions(t: Str, w: Str) -> bool { exists|i: int| 0 <= i <= t.len() - w.len() && #[trigger] t.subrange(i, i + w.len()) == w }
pub proof fn lemma_mentions(w: Str)
    ensures mentions(w, w), forall|x: Str, y: Str| mentions(x, w) || mentions(y, w) ==> #[trigger] mentions(x + y, w)
{
    let z = 0int; assert(w.subrange(z, z + w.len()) =~= w); assert(0 <= z <= w.len() - w.len());
    assert forall|x: Str, y: Str| mentions(x, w) || mentions(y, w) implies #[trigger] mentions(x + y, w) by {
        if mentions(x, w) { let i = choose|i: int| 0 <= i <= x.len() - w.len() && #[trigger] x.subrange(i, i + w.len()) == w; assert((x + y).subrange(i, i + w.len()) =~= w); }
        else { let i = choose|i: int| 0 <= i <= y.len() - w.len() && #[trigger] y.subrange(i, i + w.len()) == w; let j = x.len() + i; assert((x + y).subrange(j, j + w.len()) =~= w); }
    }
}
