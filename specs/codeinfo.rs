// ---- the line counter (scc): the class of each line it reports for a file, in order
pub uninterp spec fn scc_classes(path: Str, lang: Str, content: Str) -> Seq<int>;
pub uninterp spec fn scc_complexity(path: Str, lang: Str, content: Str) -> int;
pub open spec fn is_generated_text(s: Str) -> bool {
    str_contains(s, @"GENERATED") || str_contains(s, @"DO NOT EDIT") || str_contains(s, @"DO NOT MODIFY") || str_contains(s, @"machine generated")
}
pub open spec fn cls_blank() -> int { 0 }
pub open spec fn cls_code() -> int { 1 }
pub open spec fn cls_comment() -> int { 2 }
pub open spec fn with_class(b: ripsrc_BlameLine, c: int) -> ripsrc_BlameLine {
    ripsrc_BlameLine { Name: b.Name, Email: b.Email, Date: b.Date, SHA: b.SHA, Blank: b.Blank || c == cls_blank(), Code: b.Code || c == cls_code(), Comment: b.Comment || c == cls_comment() }
}
pub open spec fn bl_at(h: Map<int, ripsrc_BlameLine>, p: int) -> ripsrc_BlameLine { mget(h, p, default_ripsrc_BlameLine()) }
pub open spec fn sl_at(h: Map<int, ripsrc_statsLine>, p: int) -> ripsrc_statsLine { mget(h, p, default_ripsrc_statsLine()) }
pub open spec fn sp_at(h: Map<int, ripsrc_statsProcessor>, p: int) -> ripsrc_statsProcessor { mget(h, p, default_ripsrc_statsProcessor()) }
pub open spec fn fj_at(h: Map<int, processor_FileJob>, p: int) -> processor_FileJob { mget(h, p, default_processor_FileJob()) }

// what the callback does with the report of one line
pub ghost struct Scan { pub hb: Map<int, ripsrc_BlameLine>, pub hs: Map<int, ripsrc_statsLine>, pub gen: bool, pub on: bool, pub n: int }
pub open spec fn one_line(w: Scan, lines: Seq<int>, number: int, c: int) -> Scan {
    let i = number - 1;
    if i < 0 || i >= lines.len() { Scan { hb: w.hb, hs: w.hs, gen: w.gen, on: false, n: w.n + 1 } }
    else {
        let l = lines[i];
        let s = sl_at(w.hs, l);
        let nb = with_class(bl_at(w.hb, s.BlameLine), c);
        let bl = if c == cls_blank() || c == cls_code() || c == cls_comment() { w.hb.insert(s.BlameLine, nb) } else { w.hb };
        if !is_nil_seq(s.line) && nb.Comment {
            Scan { hb: bl, hs: w.hs.insert(l, ripsrc_statsLine { BlameLine: s.BlameLine, line: str_empty() }), gen: w.gen || is_generated_text(s.line), on: !is_generated_text(s.line), n: w.n + 1 }
        } else { Scan { hb: bl, hs: w.hs, gen: w.gen, on: true, n: w.n + 1 } }
    }
}
// the first k reports, until the callback has had enough
pub open spec fn scan(w: Scan, lines: Seq<int>, cls: Seq<int>, k: int) -> Scan decreases k {
    if k <= 0 { w } else { let p = scan(w, lines, cls, k - 1); if !p.on { p } else { one_line(p, lines, k, cls[k - 1]) } }
}
pub open spec fn count_cls(cls: Seq<int>, k: int, c: int) -> int decreases k {
    if k <= 0 { 0 } else { count_cls(cls, k - 1, c) + (if cls[k - 1] == c { 1int } else { 0int }) }
}
pub open spec fn known_cls(cls: Seq<int>) -> bool { forall|i: int| 0 <= i < cls.len() ==> cls_blank() <= #[trigger] cls[i] <= cls_comment() }
// the counting ends after a comment that marks generated code and after a report of a line that is not there
pub open spec fn marks(texts: Seq<Str>, cls: Seq<int>, i: int) -> bool { 0 <= i < texts.len() && cls[i] == cls_comment() && is_generated_text(texts[i]) }
pub open spec fn stops(texts: Seq<Str>, cls: Seq<int>, i: int) -> bool { i >= texts.len() || marks(texts, cls, i) }
pub open spec fn seen_from(texts: Seq<Str>, cls: Seq<int>, i: int) -> int decreases cls.len() - i {
    if i < 0 || i >= cls.len() { cls.len() as int } else if stops(texts, cls, i) { i + 1 } else { seen_from(texts, cls, i + 1) }
}
// the number of lines that are counted
pub open spec fn seen(texts: Seq<Str>, cls: Seq<int>) -> int { seen_from(texts, cls, 0) }
pub proof fn lemma_seen(texts: Seq<Str>, cls: Seq<int>, i: int)
    requires 0 <= i <= cls.len()
    ensures ({ let r = seen_from(texts, cls, i);
        &&& i <= r <= cls.len() && (r < cls.len() ==> r > i && stops(texts, cls, r - 1))
        &&& forall|j: int| i <= j < r - 1 ==> !#[trigger] stops(texts, cls, j)
        &&& r == i ==> i == cls.len() })
    decreases cls.len() - i
{
    if i < cls.len() && !stops(texts, cls, i) { lemma_seen(texts, cls, i + 1); }
}
pub open spec fn is_gen(texts: Seq<Str>, cls: Seq<int>) -> bool { let n = seen(texts, cls); n > 0 && marks(texts, cls, n - 1) }
// the pointers of a file's lines, all different, to the texts
pub open spec fn lines_set_up(bl: Map<int, ripsrc_BlameLine>, sl: Map<int, ripsrc_statsLine>, lines: Seq<int>, texts: Seq<Str>) -> bool {
    &&& lines.len() == texts.len()
    &&& forall|i: int| 0 <= i < lines.len() ==> {
        let l = #[trigger] lines[i];
        &&& l != 0 && sl.dom().contains(l) && sl[l].BlameLine != 0 && bl.dom().contains(sl[l].BlameLine) && sl[l].line == texts[i]
        &&& !bl[sl[l].BlameLine].Blank && !bl[sl[l].BlameLine].Code && !bl[sl[l].BlameLine].Comment
        &&& is_nil_seq(texts[i]) ==> texts[i].len() == 0 }
    &&& forall|i: int, j: int| 0 <= i < j < lines.len() ==> #[trigger] lines[i] != #[trigger] lines[j] && sl[lines[i]].BlameLine != sl[lines[j]].BlameLine
}
pub open spec fn lines_there(sl: Map<int, ripsrc_statsLine>, lines: Seq<int>) -> bool { forall|i: int| 0 <= i < lines.len() ==> #[trigger] lines[i] != 0 && sl_at(sl, lines[i]).BlameLine != 0 }
pub open spec fn is_line(sl: Map<int, ripsrc_statsLine>, lines: Seq<int>, p: int) -> bool { exists|i: int| 0 <= i < lines.len() && sl[#[trigger] lines[i]].BlameLine == p }
pub open spec fn scanned(w: Scan, s: Scan, lines: Seq<int>, texts: Seq<Str>, cls: Seq<int>, m: int) -> bool {
    &&& s.n == m && s.on == !(m > 0 && stops(texts, cls, m - 1)) && s.gen == (m > 0 && marks(texts, cls, m - 1))
    &&& s.hb.dom() == w.hb.dom() && s.hs.dom() == w.hs.dom()
    &&& forall|i: int| 0 <= i < lines.len() ==> {
        let l = #[trigger] lines[i];
        let b = w.hs[l].BlameLine;
        &&& s.hs[l].BlameLine == b
        &&& s.hb[b] == (if i < m { with_class(w.hb[b], cls[i]) } else { w.hb[b] })
        &&& i >= m ==> s.hs[l].line == texts[i] }
    &&& forall|p: int| w.hb.dom().contains(p) && !is_line(w.hs, lines, p) ==> #[trigger] s.hb[p] == w.hb[p]
}
pub proof fn lemma_plain_empty(s: Str)
    ensures s.len() == 0 ==> !is_generated_text(s)
{ @facts"GENERATED"; @facts"DO NOT EDIT"; @facts"DO NOT MODIFY"; @facts"machine generated"; }
pub proof fn lemma_scan(w: Scan, lines: Seq<int>, texts: Seq<Str>, cls: Seq<int>, k: int)
    requires w.on, !w.gen, w.n == 0, lines_set_up(w.hb, w.hs, lines, texts), known_cls(cls), 0 <= k <= cls.len()
    ensures scanned(w, scan(w, lines, cls, k), lines, texts, cls, if k < seen(texts, cls) { k } else { seen(texts, cls) })
    decreases k
{
    let n = seen(texts, cls);
    lemma_seen(texts, cls, 0);
    let s = scan(w, lines, cls, k);
    if k == 0 {
        assert(scanned(w, s, lines, texts, cls, 0));
    } else {
        lemma_scan(w, lines, texts, cls, k - 1);
        let p = scan(w, lines, cls, k - 1);
        let m0 = if k - 1 < n { k - 1 } else { n };
        assert(scanned(w, p, lines, texts, cls, m0));
        if k - 1 < n {
            if k > 1 { assert(!stops(texts, cls, k - 2)); }
            assert(p.on);
            let c = cls[k - 1];
            assert(cls_blank() <= c <= cls_comment());
            if k - 1 < lines.len() {
                let l = lines[k - 1];
                let b = w.hs[l].BlameLine;
                lemma_plain_empty(texts[k - 1]);
                assert(sl_at(p.hs, l) == p.hs[l] && bl_at(p.hb, b) == p.hb[b]);
                assert(p.hs[l].line == texts[k - 1]);
                assert(with_class(p.hb[b], c) == with_class(w.hb[b], c));
                assert(s.hb.dom() =~= p.hb.dom());
                assert(s.hs.dom() =~= p.hs.dom());
                assert forall|i: int| 0 <= i < lines.len() implies {
                    let l2 = #[trigger] lines[i];
                    let b2 = w.hs[l2].BlameLine;
                    &&& s.hs[l2].BlameLine == b2
                    &&& s.hb[b2] == (if i < k { with_class(w.hb[b2], cls[i]) } else { w.hb[b2] })
                    &&& i >= k ==> s.hs[l2].line == texts[i] } by {
                    let l2 = lines[i];
                    if i < k - 1 { assert(lines[i] != lines[k - 1]); } else if i > k - 1 { assert(lines[k - 1] != lines[i]); }
                }
                assert forall|q: int| w.hb.dom().contains(q) && !is_line(w.hs, lines, q) implies #[trigger] s.hb[q] == w.hb[q] by {
                    assert(p.hb[q] == w.hb[q]);
                    assert(w.hs[lines[k - 1]].BlameLine == b);
                }
            }
            assert(scanned(w, s, lines, texts, cls, k));
        } else {
            assert(s == p);
        }
    }
}

// ---- the file as it is analysed
pub open spec fn texts_of(ls: Seq<Ptr<incblame_Line>>) -> Seq<Str> { Seq::new(ls.len(), |i: int| ls[i].v.Line) }
pub open spec fn content_upto(ls: Seq<Ptr<incblame_Line>>, k: int) -> Str decreases k {
    if k <= 0 { str_empty() } else { content_upto(ls, k - 1) + ls[k - 1].v.Line + @"\n" }
}
pub open spec fn content_of(ls: Seq<Ptr<incblame_Line>>) -> Str { content_upto(ls, ls.len() as int) }
pub open spec fn line_entry(l: incblame_Line, meta: Map<Str, commitmeta_Commit>) -> ripsrc_BlameLine {
    let m = mget(meta, l.Commit, default_commitmeta_Commit());
    ripsrc_BlameLine { Name: m.AuthorName, Email: m.AuthorEmail, Date: m.Date, Comment: false, Code: false, Blank: false, SHA: l.Commit }
}
// the analysed part of a record
pub open spec fn analysed(r: ripsrc_BlameResult, h: Map<int, ripsrc_BlameLine>, path: Str, lang: Str, ls: Seq<Ptr<incblame_Line>>, meta: Map<Str, commitmeta_Commit>) -> bool {
    let content = content_of(ls);
    let texts = texts_of(ls);
    let cls = scc_classes(path, lang, content);
    let n = seen(texts, cls);
    &&& r.Lines.len() == ls.len()
    &&& forall|i: int| 0 <= i < ls.len() ==> h.dom().contains(#[trigger] r.Lines[i])
            && h[r.Lines[i]] == (if i < n { with_class(line_entry(ls[i].v, meta), cls[i]) } else { line_entry(ls[i].v, meta) })
    &&& forall|i: int, j: int| 0 <= i < j < ls.len() ==> #[trigger] r.Lines[i] != #[trigger] r.Lines[j]
    &&& r.Size == content.len() && r.Loc == n && r.Blanks == count_cls(cls, n, cls_blank()) && r.Sloc == count_cls(cls, n, cls_code()) && r.Comments == count_cls(cls, n, cls_comment())
    &&& r.Language == (if is_gen(texts, cls) { str_empty() } else { lang })
    &&& r.Skipped == (if is_gen(texts, cls) { @"file was a generated file" } else { str_empty() })
}
pub open spec fn is_record(r: ripsrc_BlameResult, h: Map<int, ripsrc_BlameLine>, path: Str, bl: Ptr<incblame_Blame>, cm: commitmeta_Commit, meta: Map<Str, commitmeta_Commit>, lic: bool, ign: bool) -> bool {
    let st = cm.Files[path].v.Status;
    let a = fileinfo_InfoArgs { FilePath: path, Lines: texts_of(bl.v.Lines), Content: content_of(bl.v.Lines) };
    let skip = skip_of(a, lic, ign);
    &&& cm.Files.dom().contains(path) && r.Filename == path && r.Commit == cm && r.Status == st
    &&& if st == @"removed" { r.Skipped == @"File was removed" && r.Language == str_empty() && r.Lines.len() == 0 }
        else if skip != str_empty() { r.Skipped == skip && r.Language == str_empty() && r.Lines.len() == 0 }
        else { analysed(r, h, path, enry_language(path, a.Content), bl.v.Lines, meta) }
}
pub open spec fn kept(a: Map<int, ripsrc_BlameLine>, b: Map<int, ripsrc_BlameLine>) -> bool { forall|p: int| #[trigger] a.dom().contains(p) ==> b.dom().contains(p) && b[p] == a[p] }
pub open spec fn blame_there(b: Ptr<incblame_Blame>) -> bool {
    b.id != 0 && forall|i: int| 0 <= i < b.v.Lines.len() ==> (#[trigger] b.v.Lines[i]).id != 0 && (is_nil_seq(b.v.Lines[i].v.Line) ==> b.v.Lines[i].v.Line.len() == 0)
}
pub open spec fn is_rec(r: ripsrc_BlameResult, h: Map<int, ripsrc_BlameLine>, files: Map<Str, Ptr<incblame_Blame>>, cm: commitmeta_Commit, meta: Map<Str, commitmeta_Commit>, licre: Ptr<int>, ignre: Ptr<int>) -> bool {
    files.dom().contains(r.Filename) && r.Filename != str_empty() && is_record(r, h, r.Filename, files[r.Filename], cm, meta, re_match(licre, r.Filename), re_match(ignre, r.Filename))
}
pub open spec fn has_rec(rs: Seq<ripsrc_BlameResult>, p: Str) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).Filename == p }
pub proof fn lemma_keep(r: ripsrc_BlameResult, a: Map<int, ripsrc_BlameLine>, b: Map<int, ripsrc_BlameLine>, files: Map<Str, Ptr<incblame_Blame>>, cm: commitmeta_Commit, meta: Map<Str, commitmeta_Commit>, licre: Ptr<int>, ignre: Ptr<int>)
    requires kept(a, b), is_rec(r, a, files, cm, meta, licre, ignre)
    ensures is_rec(r, b, files, cm, meta, licre, ignre)
{
    let ls = files[r.Filename].v.Lines;
    assert forall|i: int| 0 <= i < r.Lines.len() implies b.dom().contains(#[trigger] r.Lines[i]) && b[r.Lines[i]] == a[r.Lines[i]] || !a.dom().contains(r.Lines[i]) by { };
}
