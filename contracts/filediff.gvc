package ripsrc/history3/incblame
theory filediff.rs

func countByte
props C06
transient data
ensures result == count_byte(data, b, data.len() as int)
loop 1
invariant res == count_byte(data, b, $k)

func parseContext
props C06
transient b0
merge
requires range_line_ok(b0)
ensures result == ranges(b0)
let N = at_run(b0, 0)
let E = range_end(b0)
hint entry: lemma_range_line(b0);
loop 1
invariant atc == $k && $k <= N
loop 2
invariant atc == N && endInd == 0
invariant $k < E + N
invariant c == if $k <= N { $k } else if $k <= E { N } else { N + $k - E }
loop 3
invariant res.len() == $k
invariant forall|j: int| 0 <= j < $k ==> #[trigger] res[j] == one_range(range_parts(b0)[j])
hint loop 3: let w = range_parts(b0)[$k]; assert(part_ok(w)); let w2 = str_split(w.subrange(1, w.len() as int), ","); assert(atoi_ok(w2[0]) && atoi_ok(w2.last()));

func parseDiffDecl
props C06
transient diff
merge
ghost A: Str
ghost B: Str
requires diff == decl_line(A, B) && decl_name(A, "a/") && decl_name(B, "b/")
ensures result2 == 0 || result2 == errParseDiffDeclRenameWithSpaces
ensures A.len() == B.len() && name_in(A) == name_in(B) ==> result2 == 0 && result0 == name_in(A) && result1 == name_in(A)
hint entry: lemma_decl(A, B);

func Parse
props C06
ghost A: Str
ghost B: Str
callghost parseDiffDecl.A = A
callghost parseDiffDecl.B = B
ghostvar g: int
merge
requires fd_ok(content, A, B)
ensures [paths] result.PathPrev == path_before(content, A) && result.Path == path_after(content, A)
ensures [binary] result.IsBinary == (header(T, "Binary files").len() > 0)
ensures [hunks] result.Hunks == fd_hunks(content)
let T = scan_toks(content, max_line())
let H = text_at(T)
let F = first_hunk(T)
hint entry: lemma_text_at(T); lemma_first_hunk(T);
loop 1
invariant [states] ($k == 0 && p.state == "stParseDiff") || (1 <= $k && $k <= H && p.state == "stParsingPreMeta") || ($k == H + 1 && p.state == "stNextIsCurrName") || (H + 2 <= $k && $k <= F && p.state == "stNextIsContext") || (H + 2 <= F && F < $k && p.state == "stInPatchLines")
invariant [names] 1 <= $k && header(T, "rename from").len() == 0 ==> p.diff.PathPrev == name_in(A) && p.diff.Path == name_in(A)
invariant [kind] !p.diff.IsBinary
invariant [header] forall|s: Str| s == "rename from" || s == "rename to" || s == "new file" || s == "deleted file" || s == "Binary files" ==> #[trigger] mget(p.preMeta, s, str_empty()) == meta(T, min2($k, H), s)
invariant [before] $k <= F ==> p.res.len() == 0 && p.currentContexts.len() == 0 && p.currentLines.len() == 0
invariant [hunks] $k > F && F >= H + 2 ==> F <= g && g < $k && starts_with(T[g], "@@") && $k <= next_with(T, "@@", g + 1) && p.res + hunks_from(T, g) == hunks_from(T, F) && p.currentContexts == ranges(T[g]) && p.currentLines == lines_data(T, g + 1, $k)
hint after parseContext: set g = $k1
hint loop 1: let w = T[$k];
hint endloop 1: lemma_next_with(T, "@@", $k1 + 1); if $k1 > F && F >= H + 2 { lemma_next_with(T, "@@", head(g) + 1); let w = T[head(g)]; if g != head(g) { lemma_hunk_done(T, head(p.res), head(g), $k1); } } else { assert(p.currentLines =~= str_empty()); assert(p.res + hunks_from(T, F) =~= hunks_from(T, F)); }
hint done 1: lemma_empty(header(T, "rename from")); lemma_empty(header(T, "rename to")); lemma_empty(header(T, "new file")); lemma_empty(header(T, "deleted file")); lemma_empty(header(T, "Binary files")); if $k1 > F && F >= H + 2 { lemma_next_with(T, "@@", g + 1); lemma_hunk_done(T, p.res, g, $k1); let w = T[g]; assert(p.res.push(hunk_at(T, g)) + Seq::empty() =~= p.res.push(hunk_at(T, g))); } else { assert(p.res =~= Seq::empty()); assert(fd_hunks(content) =~= Seq::empty()); }
loop 2
invariant [header] forall|s: Str| s == "rename from" || s == "rename to" || s == "new file" || s == "deleted file" || s == "Binary files" ==> #[trigger] mget(p.preMeta, s, str_empty()) == meta(T, if wanted_index(s) < $k { $k1 + 1 } else { $k1 }, s)
hint loop 2: assert($k == 0 ==> s == "rename from"); assert($k == 1 ==> s == "rename to"); assert($k == 2 ==> s == "new file"); assert($k == 3 ==> s == "deleted file"); assert($k == 4 ==> s == "Binary files");

func (Diff).PathOrPrev
props C06
ensures result == if d.Path == "" { d.PathPrev } else { d.Path }
