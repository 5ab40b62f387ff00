package ripsrc/commitmeta
heap CommitFile
theory meta.rs

func (*parser).parse
props C17
own p.commit
own p.rawFiles
let A = abs(old(heap_CommitFile), old(p))
let B = abs(heap_CommitFile, p)
requires sound(heap_CommitFile, p) && line_ok(abs(heap_CommitFile, p), line)
ensures [C17 sound] result1 == 0 ==> sound(heap_CommitFile, p)
ensures [C17 step] result1 == 0 ==> result0 && B == step(A, line)
hint entry: lemma_header(line);
hint entry: lemma_action(raw_action(line));
hint exit: if result1 == 0 { lemma_out(old(heap_CommitFile), heap_CommitFile, old(p)); let b = abs(heap_CommitFile, p); let a = step(abs(old(heap_CommitFile), old(p)), line); assert(b.cur.files =~= a.cur.files); assert(b.pend =~= a.pend); assert(b.out =~= a.out); }
ensures [C17 error] (result1 != 0) == (in_header_line(A, line) && bad_date(line))
loop 1
invariant sound(heap_CommitFile, p) && heap_CommitFile == old(heap_CommitFile)
invariant p == (commitmeta_parser { state: p.state, ..old(p) })
invariant step(abs(heap_CommitFile, p), line) == step(A, line) && in_header_line(abs(heap_CommitFile, p), line) == in_header_line(A, line)
invariant line_ok(abs(heap_CommitFile, p), line)
loop 2
invariant result.len() == indexes.len() + 1 && 0 <= $k && laststart == part_start(indexes, $k, 0) && parts_ok(result, str_split(text, "\t"), $k)
hint before loop 2: lemma_split_at(text, "\t", 9, 0, text.len());
hint before loop 2: assert(text.subrange(0, text.len() as int) =~= text);
hint done 2: assert(result.update(indexes.len() as int, text.subrange(laststart, text.len() as int)) =~= str_split(text, "\t"));
func getFilename
props C17
ensures [C17 name] result0 == stat_name(fn)

func (*Processor).gitLog
props C17
ensures [C17 command] result1 == 0 ==> result0 == git_log(s.gitCommand, s.repoDir, s.opts)
loop 1
invariant args == log_flags(file_name(f.v)) + s.opts.WantedBranchRefs.subrange(0, $k)
hint before loop 1: assert(args =~= log_flags(file_name(f.v)) + s.opts.WantedBranchRefs.subrange(0, 0));
hint endloop 1: assert(args =~= log_flags(file_name(f.v)) + s.opts.WantedBranchRefs.subrange(0, $k + 1));
hint done 1: assert(s.opts.WantedBranchRefs.subrange(0, s.opts.WantedBranchRefs.len() as int) =~= s.opts.WantedBranchRefs);
hint before ExecPiped: assert(args =~= log_args(s.opts, file_name(f.v)));

func (*Processor).Run
props C17
closes res
let L = git_log(s.gitCommand, s.repoDir, s.opts)
let T = scan_toks(L.data, max_meta_line())
requires log_ok(scan_toks(git_log(s.gitCommand, s.repoDir, s.opts).data, max_meta_line())) && res.len() == 0
requires !heap_CommitFile.dom().contains(0)
let OK = scan_fits(L.data, max_meta_line()) && L.err == 0
ensures [C17 reported] result == 0 ==> recs(heap_CommitFile, res) == finish(fold(T, T.len() as int))
ensures [C17 complete] result == 0 ==> OK && (forall|k: int| 0 <= k < T.len() ==> !#[trigger] fails_at(T, k))
loop 1
invariant sound(heap_CommitFile, parser) && abs(heap_CommitFile, parser) == fold(T, $k)
invariant forall|k: int| 0 <= k < $k ==> !#[trigger] fails_at(T, k)
hint loop 1: assert(line_ok(fold(T, $k), T[$k]));
hint endloop 1: assert(fails_at(T, $k) == fails_at(T, $k));
hint before loop 1: assert(abs(heap_CommitFile, parser) =~= start());

func (*Processor).RunSlice
props C17
let L = git_log(s.gitCommand, s.repoDir, s.opts)
let T = scan_toks(L.data, max_meta_line())
requires log_ok(scan_toks(git_log(s.gitCommand, s.repoDir, s.opts).data, max_meta_line()))
requires !heap_CommitFile.dom().contains(0)
let OK = scan_fits(L.data, max_meta_line()) && L.err == 0
ensures [C17 reported] result1 == 0 ==> recs(heap_CommitFile, result0) == finish(fold(T, T.len() as int))
ensures [C17 complete] result1 == 0 ==> OK && (forall|k: int| 0 <= k < T.len() ==> !#[trigger] fails_at(T, k))
loop 1
invariant res == $src1.subrange(0, $k)
hint before loop 1: assert($src1.subrange(0, 0) =~= Seq::empty());
hint done 1: assert($src1.subrange(0, $src1.len() as int) =~= $src1);
hint endloop 1: assert(res =~= $src1.subrange(0, $k + 1));

func (*Processor).RunMap
props C17
let L = git_log(s.gitCommand, s.repoDir, s.opts)
let T = scan_toks(L.data, max_meta_line())
requires log_ok(scan_toks(git_log(s.gitCommand, s.repoDir, s.opts).data, max_meta_line()))
requires !heap_CommitFile.dom().contains(0)
let OK = scan_fits(L.data, max_meta_line()) && L.err == 0
ensures [C17 reported] result1 == 0 ==> map_recs(heap_CommitFile, result0) == by_sha(finish(fold(T, T.len() as int)))
ensures [C17 complete] result1 == 0 ==> OK && (forall|k: int| 0 <= k < T.len() ==> !#[trigger] fails_at(T, k))
loop 1
invariant map_recs(heap_CommitFile, res) == by_sha(recs(heap_CommitFile, $src1).subrange(0, $k))
hint before loop 1: assert(map_recs(heap_CommitFile, res) =~= Map::empty()); assert(recs(heap_CommitFile, $src1).subrange(0, 0) =~= Seq::empty());
hint loop 1: lemma_by_sha(heap_CommitFile, res, $src1, $k);
hint done 1: assert(recs(heap_CommitFile, $src1).subrange(0, $src1.len() as int) =~= recs(heap_CommitFile, $src1));
