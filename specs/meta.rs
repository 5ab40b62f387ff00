// ---- the commit metadata log
// a record as it is seen: the fields and, for every name, the entry of the file
#[verifier::ext_equal]
pub ghost struct MRec { pub c: commitmeta_Commit, pub files: Map<Str, commitmeta_CommitFile> }
pub open spec fn cf_at(h: Map<int, commitmeta_CommitFile>, p: int) -> commitmeta_CommitFile { mget(h, p, default_commitmeta_CommitFile()) }
pub open spec fn no_files(c: commitmeta_Commit) -> commitmeta_Commit { commitmeta_Commit { Files: Map::empty(), ..c } }
pub open spec fn files_of(h: Map<int, commitmeta_CommitFile>, f: Map<Str, int>) -> Map<Str, commitmeta_CommitFile> { Map::new(f.dom(), |k: Str| cf_at(h, f[k])) }
pub open spec fn rec_of(h: Map<int, commitmeta_CommitFile>, c: commitmeta_Commit) -> MRec { MRec { c: no_files(c), files: files_of(h, c.Files) } }

// how far the log is read: the section, the record being read, the files whose counts are still to come, the records before it, and their number
#[verifier::ext_equal]
pub ghost struct MSt { pub st: int, pub has: bool, pub cur: MRec, pub pend: Seq<commitmeta_CommitFile>, pub out: Seq<MRec>, pub n: int }
pub open spec fn in_header() -> int { 0 }
pub open spec fn in_files() -> int { 1 }
pub open spec fn in_stats() -> int { 2 }
pub open spec fn in_rest() -> int { 3 }

pub uninterp spec fn rfc3339_ok(s: Str) -> bool;
pub uninterp spec fn rfc3339(s: Str) -> int;

pub open spec fn after(s: Str, p: Str) -> Str { s.subrange(p.len() as int, s.len() as int) }
// the hash, without what the log may show behind it
pub open spec fn sha_of(s: Str) -> Str { let i = str_index(s, @" "); if i > 0 { s.subrange(0, i) } else { s } }
pub open spec fn new_rec(sha: Str, n: int) -> MRec { MRec { c: commitmeta_Commit { SHA: sha, Ordinal: n, ..default_commitmeta_Commit() }, files: Map::empty() } }
pub open spec fn finish(a: MSt) -> Seq<MRec> { if a.has && a.cur.c.SHA != str_empty() { a.out.push(a.cur) } else { a.out } }
pub open spec fn bad_date(line: Str) -> bool { starts_with(line, @"!Date: ") && !rfc3339_ok(str_trimspace(after(line, @"!Date: "))) }
pub open spec fn parents_of(s: Str) -> Seq<Str> { str_split(s, @" ") }

pub open spec fn with_fields(a: MSt, c: commitmeta_Commit) -> MSt { MSt { cur: MRec { c: c, ..a.cur }, ..a } }
pub open spec fn header(a: MSt, line: Str) -> MSt {
    let c = a.cur.c;
    if starts_with(line, @"!SHA: ") {
        MSt { st: in_header(), has: true, cur: new_rec(sha_of(after(line, @"!SHA: ")), a.n + 1), pend: Seq::empty(), out: finish(a), n: a.n + 1 }
    }
    else if starts_with(line, @"!Parents: ") { if line.len() == @"!Parents: ".len() { a } else { with_fields(a, commitmeta_Commit { Parents: parents_of(after(line, @"!Parents: ")), ..c }) } }
    else if starts_with(line, @"!Committer: ") { with_fields(a, commitmeta_Commit { CommitterEmail: after(line, @"!Committer: "), ..c }) }
    else if starts_with(line, @"!CName: ") { with_fields(a, commitmeta_Commit { CommitterName: after(line, @"!CName: "), ..c }) }
    else if starts_with(line, @"!Author: ") { with_fields(a, commitmeta_Commit { AuthorEmail: after(line, @"!Author: "), ..c }) }
    else if starts_with(line, @"!AName: ") { with_fields(a, commitmeta_Commit { AuthorName: after(line, @"!AName: "), ..c }) }
    else if starts_with(line, @"!Date: ") { with_fields(a, commitmeta_Commit { Date: rfc3339(str_trimspace(after(line, @"!Date: "))), ..c }) }
    else if starts_with(line, @"!Message: ") { MSt { st: in_files(), ..with_fields(a, commitmeta_Commit { Message: after(line, @"!Message: "), ..c }) } }
    else { a }
}

// ---- names: in quotes where git found special characters
pub open spec fn plain_name(s: Str) -> Str { if s.len() >= 2 && s[0] == 34 && s[s.len() - 1] == 34 && unquote_ok(s) { str_unquote(s) } else { s } }
// the new name in the stats of a merge, which have "old => new" for a renaming, or "dir/{old => new}/name"
pub open spec fn stat_name(s: Str) -> Str {
    let g = re_groups(@"(.*)\\{(.*) => (.*)\\}(.*)", s);
    let p = str_split(s, @" => ");
    if plain_name(s) != s { plain_name(s) }
    else if re_matches(@"(.*)\\{(.*) => (.*)\\}(.*)", s) { path_join(seq![g[1], g[3], g[4]]) }
    else if p.len() > 1 { plain_name(p[1]) }
    else { s }
}

// ---- raw lines   :100644 100755 1234567 89abcde M<tab>name[<tab>new name]
pub open spec fn raw_words(line: Str) -> Seq<Str> { str_split(line, @" ") }
pub open spec fn raw_tail(line: Str) -> Seq<Str> { str_split(str_join(raw_words(line).subrange(4, raw_words(line).len() as int), @" "), @"\t") }
pub open spec fn raw_action(line: Str) -> Str { raw_tail(line)[0] }
pub open spec fn is_rename(act: Str) -> bool { act.len() != 1 && starts_with(act, @"R") }
pub open spec fn is_copy(act: Str) -> bool { act.len() != 1 && !starts_with(act, @"R") && starts_with(act, @"C") }
pub open spec fn known_action(act: Str) -> bool { act == @"A" || act == @"D" || act == @"M" || act == @"R" || act == @"C" || act == @"MM" || act == @"T" }
// not a regular file afterwards: a link or a submodule
pub open spec fn is_special(line: Str) -> bool { let m = raw_words(line)[1]; m != @"100644" && m != @"100755" && m != @"000000" }
pub open spec fn raw_ok(line: Str) -> bool {
    &&& raw_words(line).len() >= 5
    &&& raw_tail(line).len() >= 2
    &&& is_special(line) || known_action(raw_action(line)) || is_copy(raw_action(line)) && raw_tail(line).len() >= 3 || is_rename(raw_action(line)) && raw_tail(line).len() >= 3
}
pub open spec fn name1(line: Str) -> Str { plain_name(raw_tail(line)[1]) }
pub open spec fn name2(line: Str) -> Str { plain_name(raw_tail(line)[2]) }
pub open spec fn entry(name: Str, status: Str) -> commitmeta_CommitFile { commitmeta_CommitFile { Filename: name, Status: status, ..default_commitmeta_CommitFile() } }
pub open spec fn status_of(act: Str) -> Str { if act == @"A" { @"added" } else if act == @"D" { @"removed" } else { @"modified" } }
pub open spec fn raw_entry(line: Str) -> commitmeta_CommitFile {
    let act = raw_action(line);
    if is_special(line) { entry(plain_name(raw_tail(line)[raw_tail(line).len() - 1]), @"modified") }
    else if is_rename(act) { commitmeta_CommitFile { Renamed: true, RenamedFrom: name1(line), RenamedTo: name2(line), ..entry(name2(line), @"added") } }
    else if is_copy(act) { commitmeta_CommitFile { Copied: true, CopiedFrom: name1(line), ..entry(name2(line), @"added") } }
    else { entry(name1(line), status_of(act)) }
}
pub open spec fn renamed_away(line: Str) -> commitmeta_CommitFile { commitmeta_CommitFile { Renamed: true, RenamedFrom: name1(line), RenamedTo: name2(line), ..entry(name1(line), @"removed") } }
pub open spec fn raw(a: MSt, line: Str) -> MSt {
    let e = raw_entry(line);
    let f0 = if !is_special(line) && is_rename(raw_action(line)) { a.cur.files.insert(name1(line), renamed_away(line)) } else { a.cur.files };
    // links and submodules get their entry with their counts
    let f = if is_special(line) { f0 } else { f0.insert(e.Filename, e) };
    MSt { cur: MRec { files: f, ..a.cur }, pend: a.pend.push(e), ..a }
}

// ---- lines of counts   12<tab>3<tab>name   -<tab>-<tab>name
pub open spec fn with_counts(e: commitmeta_CommitFile, t: Seq<Str>) -> commitmeta_CommitFile {
    if t[0] == @"-" { commitmeta_CommitFile { Binary: true, ..e } }
    else { commitmeta_CommitFile { Additions: parse_int(t[0], 10, 32), Deletions: parse_int(t[1], 10, 32), ..e } }
}
pub open spec fn stat(a: MSt, t: Seq<Str>) -> MSt {
    // in the order of the raw lines; merges have none
    let e = with_counts(if a.pend.len() > 0 { a.pend[0] } else { entry(stat_name(t[2]), @"modified") }, t);
    MSt { cur: MRec { files: a.cur.files.insert(e.Filename, e), ..a.cur }, pend: if a.pend.len() > 0 { a.pend.subrange(1, a.pend.len() as int) } else { a.pend }, ..a }
}

pub open spec fn step(a: MSt, line: Str) -> MSt {
    if line.len() == 0 { a }
    else if a.st == in_files() && line[0] == 58 { raw(a, line) }
    else if (a.st == in_files() || a.st == in_stats()) && str_split(line, @"\t").len() == 3 { stat(MSt { st: in_stats(), ..a }, str_split(line, @"\t")) }
    else if a.st != in_header() && line[0] != 33 { MSt { st: in_rest(), ..a } }
    else { header(MSt { st: in_header(), ..a }, line) }
}
pub open spec fn in_header_line(a: MSt, line: Str) -> bool {
    line.len() > 0 && (a.st == in_header() || line[0] == 33 && (a.st == in_rest() || str_split(line, @"\t").len() != 3))
}
// what git writes
pub open spec fn line_ok(a: MSt, line: Str) -> bool {
    line.len() > 0 ==> {
        &&& a.st == in_files() && line[0] == 58 ==> raw_ok(line)
        &&& !a.has ==> a.st == in_header() && (starts_with(line, @"!SHA: ") || !starts_with(line, @"!"))
    }
}
pub open spec fn start() -> MSt { MSt { st: in_header(), has: false, cur: no_rec(), pend: Seq::empty(), out: Seq::empty(), n: 0 } }
pub uninterp spec fn no_rec() -> MRec;
pub open spec fn fold(t: Seq<Str>, k: int) -> MSt decreases k { if k <= 0 { start() } else { step(fold(t, k - 1), t[k - 1]) } }
pub open spec fn log_ok(t: Seq<Str>) -> bool { forall|k: int| 0 <= k < t.len() ==> #[trigger] line_ok(fold(t, k), t[k]) }
// a date that is none
pub open spec fn fails_at(t: Seq<Str>, k: int) -> bool { in_header_line(fold(t, k), t[k]) && bad_date(t[k]) }

// ---- the parser's own state
pub open spec fn vals(h: Map<int, commitmeta_CommitFile>, s: Seq<int>) -> Seq<commitmeta_CommitFile> { Seq::new(s.len(), |i: int| cf_at(h, s[i])) }
pub open spec fn recs(h: Map<int, commitmeta_CommitFile>, s: Seq<commitmeta_Commit>) -> Seq<MRec> { Seq::new(s.len(), |i: int| rec_of(h, s[i])) }
pub open spec fn abs(h: Map<int, commitmeta_CommitFile>, p: commitmeta_parser) -> MSt {
    MSt { st: p.state, has: p.commit.id != 0, cur: if p.commit.id != 0 { rec_of(h, p.commit.v) } else { no_rec() }, pend: vals(h, p.rawFiles), out: recs(h, p.commits), n: p.ordinal }
}
pub open spec fn sound(h: Map<int, commitmeta_CommitFile>, p: commitmeta_parser) -> bool {
    &&& 0 <= p.state <= 3
    &&& p.limit == 0
    &&& !h.dom().contains(0)
    &&& forall|i: int| 0 <= i < p.rawFiles.len() ==> h.dom().contains(#[trigger] p.rawFiles[i])
    &&& forall|i: int, j: int| 0 <= i < j < p.rawFiles.len() ==> #[trigger] p.rawFiles[i] != #[trigger] p.rawFiles[j]
    &&& p.commit.id != 0 ==> forall|k: Str| #[trigger] p.commit.v.Files.dom().contains(k) ==> h.dom().contains(p.commit.v.Files[k]) && cf_at(h, p.commit.v.Files[k]).Filename == k
    // the entries of records that were handed on are not touched any more
    &&& forall|i: int, k: Str| 0 <= i < p.commits.len() && #[trigger] p.commits[i].Files.dom().contains(k) ==> h.dom().contains(p.commits[i].Files[k]) && !p.rawFiles.contains(p.commits[i].Files[k])
}

// a prefix says what the first characters are
pub proof fn lemma_starts(s: Str, p: Str)
    ensures starts_with(s, p) ==> forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == s[i]
{
    if starts_with(s, p) { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == s[i] by { assert(s.subrange(0, p.len() as int)[i] == s[i]); } }
}
// the prefixes of the header exclude one another
pub proof fn lemma_header(s: Str)
    ensures
        starts_with(s, @"!SHA: ") ==> s[1] == 83,
        starts_with(s, @"!Parents: ") ==> s[1] == 80,
        starts_with(s, @"!Committer: ") ==> s[1] == 67 && s[2] == 111,
        starts_with(s, @"!CName: ") ==> s[1] == 67 && s[2] == 78,
        starts_with(s, @"!Author: ") ==> s[1] == 65 && s[2] == 117,
        starts_with(s, @"!AName: ") ==> s[1] == 65 && s[2] == 78,
        starts_with(s, @"!Date: ") ==> s[1] == 68,
        starts_with(s, @"!Message: ") ==> s[1] == 77,
        s.len() > 0 ==> (s.subrange(0, 1) == @"!") == (s[0] == 33),
        starts_with(s, @"!") == (s.len() > 0 && s[0] == 33),
        s != str_empty() ==> s.len() > 0,
{
    if s.len() == 0 { assert(s =~= str_empty()); }
    @facts"!SHA: "; @facts"!Parents: "; @facts"!Committer: "; @facts"!CName: "; @facts"!Author: "; @facts"!AName: "; @facts"!Date: "; @facts"!Message: "; @facts"!";
    lemma_starts(s, @"!SHA: "); lemma_starts(s, @"!Parents: "); lemma_starts(s, @"!Committer: "); lemma_starts(s, @"!CName: ");
    lemma_starts(s, @"!Author: "); lemma_starts(s, @"!AName: "); lemma_starts(s, @"!Date: "); lemma_starts(s, @"!Message: ");
    if s.len() > 0 {
        assert(s.subrange(0, 1)[0] == s[0]);
        if s[0] == 33 { assert(s.subrange(0, 1) =~= @"!"); }
    }
}
pub proof fn lemma_action(act: Str)
    ensures
        starts_with(act, @"R") ==> act[0] == 82,
        starts_with(act, @"C") ==> act[0] == 67,
        known_action(act) && act.len() != 1 ==> act[0] == 77,
{
    @facts"A"; @facts"D"; @facts"M"; @facts"R"; @facts"C"; @facts"MM"; @facts"T";
    lemma_starts(act, @"R"); lemma_starts(act, @"C");
}

// ---- splitting at one character, by the places where it is
pub open spec fn part_start(f: Seq<Seq<int>>, k: int, i: int) -> int { if k <= 0 { i } else { f[k - 1][1] } }
pub open spec fn parts_ok(r: Seq<Str>, t: Seq<Str>, k: int) -> bool { forall|i: int| 0 <= i < k && i < r.len() ==> #[trigger] r[i] == t[i] }
pub open spec fn at_places(t: Seq<Str>, s: Str, f: Seq<Seq<int>>, i: int) -> bool {
    &&& t.len() == f.len() + 1
    &&& forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).len() == 2 && i <= part_start(f, k, i) <= f[k][0] && f[k][1] == f[k][0] + 1 && f[k][1] <= s.len() && t[k] == s.subrange(part_start(f, k, i), f[k][0])
    &&& i <= part_start(f, f.len() as int, i) <= s.len()
    &&& t[f.len() as int] == s.subrange(part_start(f, f.len() as int, i), s.len() as int)
}
pub proof fn lemma_find_byte(s: Str, b: int, i: int)
    requires 0 <= i <= s.len()
    ensures i <= find_byte(s, b, i) <= s.len(), find_byte(s, b, i) < s.len() ==> s[find_byte(s, b, i)] == b, forall|j: int| i <= j < find_byte(s, b, i) ==> s[j] != b
    decreases s.len() - i
{ if i < s.len() && s[i] != b { lemma_find_byte(s, b, i + 1); } }
pub proof fn lemma_find_one(s: Str, p: Str, b: int, i: int, x: int)
    requires p.len() == 1, p[0] == b, 0 <= i <= x <= s.len()
    ensures ({ let r = find_str(s.subrange(i, s.len() as int), p, x - i); let j = find_byte(s, b, x); if j < s.len() { r == j - i } else { r == s.len() - i + 1 } })
    decreases s.len() - x
{
    let u = s.subrange(i, s.len() as int);
    if x < s.len() {
        let c = u.subrange(x - i, x - i + 1);
        assert(c[0] == s[x]);
        if s[x] == b { assert(c =~= p); } else { assert(c != p); lemma_find_one(s, p, b, i, x + 1); }
    }
}
pub proof fn lemma_split_at(s: Str, p: Str, b: int, i: int, fuel: nat)
    requires p.len() == 1, p[0] == b, 0 <= i <= s.len(), fuel >= s.len() - i
    ensures at_places(split_from(s.subrange(i, s.len() as int), p, fuel), s, find_bytes(s, b, i), i)
    decreases fuel
{
    let u = s.subrange(i, s.len() as int);
    let j = find_byte(s, b, i);
    lemma_find_byte(s, b, i);
    lemma_find_one(s, p, b, i, i);
    let f = find_bytes(s, b, i);
    let t = split_from(u, p, fuel);
    if fuel == 0 || j >= s.len() {
        assert(f =~= Seq::<Seq<int>>::empty());
        assert(t =~= seq![u]);
    } else {
        assert(u.subrange(j - i + 1, u.len() as int) =~= s.subrange(j + 1, s.len() as int));
        lemma_split_at(s, p, b, j + 1, (fuel - 1) as nat);
        let g = find_bytes(s, b, j + 1);
        let r = split_from(s.subrange(j + 1, s.len() as int), p, (fuel - 1) as nat);
        assert(f =~= seq![seq![j, j + 1]] + g);
        assert(t =~= seq![u.subrange(0, j - i)] + r);
        assert(u.subrange(0, j - i) =~= s.subrange(i, j));
        assert(f[0] == seq![j, j + 1]);
        assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).len() == 2 && i <= part_start(f, k, i) <= f[k][0] && f[k][1] == f[k][0] + 1 && f[k][1] <= s.len() && t[k] == s.subrange(part_start(f, k, i), f[k][0]) by {
            if k > 0 { assert(f[k] == g[k - 1]); assert(t[k] == r[k - 1]); if k > 1 { assert(f[k - 1] == g[k - 2]); } }
        }
        let n = f.len() as int;
        assert(t[n] == r[n - 1]);
        if n > 1 { assert(f[n - 1] == g[n - 2]); }
    }
}

// records that were handed on keep what they say
pub open spec fn keeps(h0: Map<int, commitmeta_CommitFile>, h1: Map<int, commitmeta_CommitFile>, f: Seq<int>) -> bool { forall|k: int| h0.dom().contains(k) && !f.contains(k) ==> #[trigger] cf_at(h1, k) == cf_at(h0, k) }
pub proof fn lemma_out(h0: Map<int, commitmeta_CommitFile>, h1: Map<int, commitmeta_CommitFile>, p: commitmeta_parser)
    ensures sound(h0, p) && keeps(h0, h1, p.rawFiles) ==> recs(h1, p.commits) == recs(h0, p.commits)
{
    if sound(h0, p) && keeps(h0, h1, p.rawFiles) {
        assert forall|i: int| 0 <= i < p.commits.len() implies #[trigger] recs(h1, p.commits)[i] == recs(h0, p.commits)[i] by {
            let c = p.commits[i];
            assert forall|k: Str| #[trigger] c.Files.dom().contains(k) implies cf_at(h1, c.Files[k]) == cf_at(h0, c.Files[k]) by {}
            assert(files_of(h1, c.Files) =~= files_of(h0, c.Files));
        }
        assert(recs(h1, p.commits) =~= recs(h0, p.commits));
    }
}

// ---- the command
pub open spec fn max_meta_line() -> int { 1073741824 }
pub uninterp spec fn git_log(cmd: Str, dir: Str, opts: commitmeta_Opts) -> Rd;
pub open spec fn log_flags(tmp: Str) -> Seq<Str> {
    seq![@"-c", @"core.attributesFile=" + tmp, @"-c", @"diff.renameLimit=10000", @"log", @"-c", @"--raw", @"--reverse", @"--numstat",
        @"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n"]
}
// the commits that were asked for
pub open spec fn log_range(opts: commitmeta_Opts) -> Seq<Str> {
    if opts.CommitFromIncl != str_empty() {
        (if opts.AllBranches { opts.WantedBranchRefs } else { Seq::<Str>::empty() }).push(opts.CommitFromIncl + (if opts.CommitFromMakeNonIncl { @"..HEAD" } else { @"^..HEAD" }))
    } else if opts.AllBranches { seq![@"--all"] } else { Seq::<Str>::empty() }
}
pub open spec fn log_args(opts: commitmeta_Opts, tmp: Str) -> Seq<Str> { log_flags(tmp) + log_range(opts) }

// one record per SHA, the last one with it
pub open spec fn by_sha(s: Seq<MRec>) -> Map<Str, MRec> decreases s.len() { if s.len() == 0 { Map::empty() } else { by_sha(s.drop_last()).insert(s.last().c.SHA, s.last()) } }
pub open spec fn map_recs(h: Map<int, commitmeta_CommitFile>, m: Map<Str, commitmeta_Commit>) -> Map<Str, MRec> { Map::new(m.dom(), |k: Str| rec_of(h, m[k])) }
pub proof fn lemma_by_sha(h: Map<int, commitmeta_CommitFile>, m: Map<Str, commitmeta_Commit>, s: Seq<commitmeta_Commit>, k: int)
    requires 0 <= k < s.len(), map_recs(h, m) == by_sha(recs(h, s).subrange(0, k)),
    ensures map_recs(h, m.insert(s[k].SHA, s[k])) == by_sha(recs(h, s).subrange(0, k + 1)),
{
    let t = recs(h, s).subrange(0, k + 1);
    assert(t.drop_last() =~= recs(h, s).subrange(0, k));
    assert(t.last() == rec_of(h, s[k]));
    assert(t.last().c.SHA == s[k].SHA);
    assert(map_recs(h, m.insert(s[k].SHA, s[k])) =~= map_recs(h, m).insert(s[k].SHA, rec_of(h, s[k])));
}
