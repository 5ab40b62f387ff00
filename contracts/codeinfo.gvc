package ripsrc
heap BlameLine statsLine statsProcessor github.com/boyter/scc/processor.FileJob
theory fileinfo.rs codeinfo.rs

func blameToFileContent
props C20
requires forall|i: int| 0 <= i < bl.Lines.len() ==> (#[trigger] bl.Lines[i]).id != 0
ensures [C20 content] result == content_of(bl.Lines)
ownret
loop 1
invariant res == content_upto(bl.Lines, if $k < bl.Lines.len() { $k } else { bl.Lines.len() as int })
hint loop 1: if $k < bl.Lines.len() { let l = bl.Lines[$k]; }

func blameToByteLines
props C20
requires forall|i: int| 0 <= i < bl.Lines.len() ==> (#[trigger] bl.Lines[i]).id != 0
ensures [C20 lines] result =~= texts_of(bl.Lines)
loop 1
invariant res == texts_of(bl.Lines).take(if $k < bl.Lines.len() { $k } else { bl.Lines.len() as int })
hint loop 1: if $k < bl.Lines.len() { let l = bl.Lines[$k]; }

func (*statsProcessor).ProcessLine
props C20
let W = Scan { hb: old(heap_BlameLine), hs: old(heap_statsLine), gen: sp_at(old(heap_statsProcessor), old(p)).generated, on: true, n: 0 }
let R = one_line(W, sp_at(old(heap_statsProcessor), old(p)).lines, currentLine, lineType)
requires p != 0 && heap_statsProcessor.dom().contains(p)
requires lines_there(heap_statsLine, sp_at(heap_statsProcessor, p).lines)
hint entry: assert(mget(heap_statsProcessor, p, default_ripsrc_statsProcessor()) == heap_statsProcessor[p]); assert forall|i: int| 0 <= i < heap_statsProcessor[p].lines.len() implies #[trigger] heap_statsProcessor[p].lines[i] != 0 && mget(heap_statsLine, heap_statsProcessor[p].lines[i], default_ripsrc_statsLine()).BlameLine != 0 by { };
ensures [C20 line] heap_BlameLine == R.hb && heap_statsLine == R.hs && result == R.on
ensures [C20 generated] heap_statsProcessor =~= old(heap_statsProcessor).insert(p, ripsrc_statsProcessor { lines: sp_at(old(heap_statsProcessor), p).lines, generated: R.gen })

extern github.com/boyter/scc/processor
func CountStats
trusted
modifies heap_BlameLine heap_statsLine heap_statsProcessor heap_FileJob
let F = fj_at(old(heap_FileJob), fileJob)
let CLS = scc_classes(F.Filename, F.Language, F.Content)
let P = sp_at(old(heap_statsProcessor), F.Callback)
let ST = scan(Scan { hb: old(heap_BlameLine), hs: old(heap_statsLine), gen: P.generated, on: true, n: 0 }, P.lines, CLS, CLS.len() as int)
let Q = fj_at(heap_FileJob, fileJob)
requires fileJob != 0 && heap_FileJob.dom().contains(fileJob) && heap_FileJob[fileJob].PossibleLanguages.len() == 0
requires heap_FileJob[fileJob].Callback != 0 && heap_statsProcessor.dom().contains(heap_FileJob[fileJob].Callback)
requires lines_there(heap_statsLine, sp_at(heap_statsProcessor, heap_FileJob[fileJob].Callback).lines)
ensures known_cls(CLS)
ensures heap_BlameLine == ST.hb && heap_statsLine == ST.hs
ensures heap_statsProcessor == old(heap_statsProcessor).insert(F.Callback, ripsrc_statsProcessor { lines: P.lines, generated: ST.gen })
ensures Q.Lines == ST.n && Q.Blank == count_cls(CLS, ST.n, cls_blank()) && Q.Code == count_cls(CLS, ST.n, cls_code()) && Q.Comment == count_cls(CLS, ST.n, cls_comment())
assume the line counter (scc) reports the lines of a file in order from 1 to the callback it is given until that returns false, each with one of the three classes, and counts what it reports; what it reports depends on the language and the content alone

package ripsrc
func (*Ripsrc).codeInfoFile
props C20
ghostvar H0: Map<int, ripsrc_BlameLine>
ghostvar S0: Map<int, ripsrc_statsLine>
let TX = texts_of(bl.Lines)
let CLS = scc_classes(filePath, old(res).Language, content_of(bl.Lines))
requires s.CodeInfoTimings.id != 0
requires forall|i: int| 0 <= i < bl.Lines.len() ==> (#[trigger] bl.Lines[i]).id != 0 && (is_nil_seq(bl.Lines[i].v.Line) ==> bl.Lines[i].v.Line.len() == 0)
requires fileBytes == content_of(bl.Lines) && res.Lines.len() == 0 && res.Skipped == str_empty()
ownin res.Lines
ensures [C20 analysed] result1 == 0 && analysed(result0, heap_BlameLine, filePath, old(res).Language, bl.Lines, s.commitMeta)
ensures [C20 kept] result0.Filename == old(res).Filename && result0.Commit == old(res).Commit && result0.Status == old(res).Status && result0.License == old(res).License
ensures [C20 others] kept(old(heap_BlameLine), heap_BlameLine)
ensures [C20 timings] s.CodeInfoTimings.id != 0
loop 1
let KK = if $k < bl.Lines.len() { $k } else { bl.Lines.len() as int }
invariant lines_set_up(heap_BlameLine, heap_statsLine, lines, TX.take(KK)) && kept(old(heap_BlameLine), heap_BlameLine)
invariant forall|i: int| 0 <= i < KK ==> heap_BlameLine[heap_statsLine[#[trigger] lines[i]].BlameLine] == line_entry(bl.Lines[i].v, s.commitMeta) && !old(heap_BlameLine).dom().contains(heap_statsLine[lines[i]].BlameLine)
hint loop 1: if $k < bl.Lines.len() { let l = bl.Lines[$k]; }
hint before CountStats: set H0 = heap_BlameLine; set S0 = heap_statsLine
hint after CountStats: assert(TX.take(bl.Lines.len() as int) =~= TX); lemma_seen(TX, CLS, 0); lemma_scan(Scan { hb: H0, hs: S0, gen: false, on: true, n: 0 }, lines, TX, CLS, CLS.len() as int);
loop 2
invariant res.Lines == Seq::new((if $k < lines.len() { $k } else { lines.len() as int }) as nat, |i: int| heap_statsLine[lines[i]].BlameLine)

func (*Ripsrc).codeInfoFiles
props C20
let CM = mget(s.commitMeta, blame.Commit, default_commitmeta_Commit())
requires s.CodeInfoTimings.id != 0 && s.fileInfo.id != 0 && cache_ok(s.fileInfo.checkFilePathCache, fileinfo_ignorePatterns)
requires forall|p: Str| #[trigger] CM.Files.dom().contains(p) ==> CM.Files[p].id != 0 && (CM.Files[p].v.Renamed ==> blame.Files.dom().contains(CM.Files[p].v.RenamedTo))
requires forall|p: Str| #[trigger] blame.Files.dom().contains(p) ==> blame_there(blame.Files[p])
ensures [C20 records] result1 == 0 && forall|i: int| 0 <= i < result0.len() ==> is_rec(#[trigger] result0[i], heap_BlameLine, blame.Files, CM, s.commitMeta, fileinfo_licenses, fileinfo_ignorePatterns)
ensures [C20 once] forall|i: int, j: int| 0 <= i < j < result0.len() ==> (#[trigger] result0[i]).Filename != (#[trigger] result0[j]).Filename
ensures [C20 all] forall|p: Str| #[trigger] blame.Files.dom().contains(p) && CM.Files.dom().contains(p) && p != str_empty() ==> has_rec(result0, p)
loop 1
invariant forall|p: Str| #[trigger] files.dom().contains(p) ==> blame.Files.dom().contains(p)
loop 2
invariant forall|p: Str| #[trigger] files.dom().contains(p) ==> blame.Files.dom().contains(p)
loop 3
loop 4
invariant s.CodeInfoTimings.id != 0 && s.fileInfo.id != 0
invariant cache_ok(s.fileInfo.checkFilePathCache, fileinfo_ignorePatterns)
invariant forall|i: int| 0 <= i < res.len() ==> is_rec(#[trigger] res[i], heap_BlameLine, blame.Files, CM, s.commitMeta, fileinfo_licenses, fileinfo_ignorePatterns) && $done.contains(res[i].Filename)
invariant forall|i: int, j: int| 0 <= i < j < res.len() ==> (#[trigger] res[i]).Filename != (#[trigger] res[j]).Filename
invariant forall|p: Str| #[trigger] $done.contains(p) && CM.Files.dom().contains(p) && p != str_empty() ==> has_rec(res, p)
hint endloop 4: assert forall|i: int| 0 <= i < res.len() implies is_rec(#[trigger] res[i], heap_BlameLine, blame.Files, CM, s.commitMeta, fileinfo_licenses, fileinfo_ignorePatterns) && ($done.contains(res[i].Filename) || res[i].Filename == $key) by { if i < head(res.len()) { assert(res[i] == head(res)[i]); lemma_keep(res[i], head(heap_BlameLine), heap_BlameLine, blame.Files, CM, s.commitMeta, fileinfo_licenses, fileinfo_ignorePatterns); } else { let q = CM.Files[$key]; let b = blame.Files[$key]; } };
hint endloop 4: assert forall|p: Str| ($done.contains(p) || p == $key) && CM.Files.dom().contains(p) && p != str_empty() implies #[trigger] has_rec(res, p) by { if $done.contains(p) { assert(has_rec(head(res), p)); let i = choose|i: int| 0 <= i < head(res).len() && (#[trigger] head(res)[i]).Filename == p; assert(res[i] == head(res)[i]); } else { assert(res[res.len() - 1].Filename == $key); } };
