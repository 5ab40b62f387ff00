package ripsrc/history3/process/repo
theory patch.rs merge.rs checkpoint.rs checkpointfs.rs
handle os.File compress/gzip.Writer compress/gzip.Reader github.com/tinylib/msgp/msgp.Writer github.com/tinylib/msgp/msgp.Reader
state wtoks: Map<int, Seq<Tok>>
state rtoks: Map<int, Seq<Tok>>
state fs: Dirs
state disk: Map<int, Content>
state opened: Set<int>
state gzs: Map<int, Content>
volatile wtoks rtoks gzs opened

func (*CheckpointWriter).Write
props C14 C15
maypanic
ghostvar T: Tables
hint entry: set T = no_tables()
let CHK = loc(old(dir), "checkpoint")
let TMP = loc(old(dir), "tmp")
requires lastCommit != str_empty() && repo_ok(repo)
requires [C15] stored(fs, disk, loc(dir, "checkpoint"))
always [C15 whole] as_before(fs, disk, old(fs), old(disk), CHK) || whole_new(fs, disk, wtoks, old(wtoks), CHK, lastCommit)
ensures [C14 written] result == 0 ==> complete(fs, disk, wtoks, CHK, T) && tables_state(T) == repo_view(repo)
ensures [C14,C15 version] result == 0 ==> has_version(fs, CHK) && versioned(fs, disk, CHK, lastCommit)
ensures [C14 succeeds] io_ok() ==> result == 0
hint before (DataRow).EncodeMsg: [C14] lemma_add_row(T, $recv);
hint before (DataRow).EncodeMsg: set T = with_row_of(T, $recv)
hint before (Line).EncodeMsg: [C14] lemma_add_line(T, $recv);
hint before (Line).EncodeMsg: set T = with_line(T, $recv)
hint before (*LineData).EncodeMsg: [C14] lemma_add_data(T, $recv);
hint before (*LineData).EncodeMsg: set T = with_data(T, $recv)
hint before (*Blame).EncodeMsg: [C14] lemma_add_blame(T, $recv);
hint before (*Blame).EncodeMsg: set T = with_blame(T, $recv)
let RW = repoWr.wr
let WR = writing(wtoks, old(wtoks), repoWr.wr, blamesWr.wr, linesWr.wr, lineDataWr.wr, T)
let MEM = kept(T, blamePointerC, blamePointers, linePointerC, linePointers, lineData)
hint entry: lemma_plain(); lemma_distinct(); lemma_names(dir, "checkpoint"); lemma_names(dir, "tmp"); siblings(dir, "checkpoint", "tmp"); siblings(dir, "tmp", "checkpoint");
loop 1
invariant [C14] WR
invariant [C14] MEM
invariant [C14] repo_is(row_map(t_bm(T), T.rows), repo, $done)
hint endloop 1: [C14] lemma_commit_done(row_map(t_bm(T), T.rows), row_map(t_bm(head(T)), head(T).rows), repo, $done1, $key);
hint before loop 1: [C14] lemma_empty_tables(T); assert(lineData =~= data_map(T.datas));
loop 2
invariant [C14] WR
invariant [C14] MEM
invariant [C14] commit_is(row_map(t_bm(T), T.rows), row_map(t_bm(pre(T)), pre(T).rows), ch, commit, $done)
hint endloop 2: [C14] lemma_commit_row(row_map(t_bm(head(T)), head(T).rows), row_map(t_bm(pre(T)), pre(T).rows), ch, commit, $done2, $key, blame_view(commit[$key].v));
loop 3
invariant [C14] WR
invariant [C14] kept(T, blamePointerC - 1, blamePointers.remove(commit[fp]), linePointerC, linePointers, lineData)
invariant [C14] row_map(t_bm(T), T.rows) == row_map(t_bm(pre(T)), pre(T).rows)
invariant [C14] T.rows == pre(T).rows && T.blames == pre(T).blames && grown(pre(T), T)
invariant [C14] bl.LinePointers.len() == $k && (forall|j: int| 0 <= j < $k ==> t_lm(T).dom().contains(#[trigger] bl.LinePointers[j]) && t_lm(T)[bl.LinePointers[j]] == lv(file.Lines[j]))
hint done 3: [C14] assert(refs_ok(t_lm(T), bl)); assert(row_blame(t_lm(T), bl).lines =~= lvs(file.Lines)); assert(row_blame(t_lm(T), bl) == blame_view(file.v));
hint after (*Blame).EncodeMsg: [C14] assert(MEM);
loop 4
invariant [C14] T == pre(T) && wtoks == pre(wtoks) && lineData == pre(lineData)

func (*CheckpointReader).Read
props C14 C15
maypanic C15
ghost T: Tables
ghost V: Str
callghost (*LineData).DecodeMsg.X = T.datas[$k]
callghost (*LineData).DecodeMsg.R = rest_data(T.datas, $k + 1)
callghost (*Line).DecodeMsg.X = T.lines[$k]
callghost (*Line).DecodeMsg.R = rest_line(T.lines, $k + 1)
callghost (*Blame).DecodeMsg.X = T.blames[$k]
callghost (*Blame).DecodeMsg.R = rest_blame(T.blames, $k + 1)
callghost (*DataRow).DecodeMsg.X = T.rows[$k]
callghost (*DataRow).DecodeMsg.R = rest_row(T.rows, $k + 1)
requires recoverable(fs, disk, wtoks, loc(dir, "checkpoint"), V, T)
ensures [C14 restored] result1 == 0 ==> complete(fs, disk, wtoks, loc(old(dir), "checkpoint"), T) && repo_view(result0) == tables_state(T)
ensures [C14 succeeds] io_ok() && complete(fs, disk, wtoks, loc(old(dir), "checkpoint"), T) && (expectedCommit == str_empty() || has_version(fs, loc(old(dir), "checkpoint")) && V == expectedCommit) ==> result1 == 0
ensures [C15 none] result1 == 0 ==> has_all(fs, loc(old(dir), "checkpoint"))
ensures [C15 refused] result1 == 0 && expectedCommit != str_empty() ==> has_version(fs, loc(old(dir), "checkpoint")) && V == expectedCommit
ensures [C15 both named] expectedCommit != str_empty() && V != expectedCommit && io_ok() && has_version(fs, loc(old(dir), "checkpoint")) ==> result1 == box_repo_ErrCheckpointNotExpected(repo_ErrCheckpointNotExpected { CheckpointDir: loc(old(dir), "checkpoint"), WantCommit: expectedCommit, HaveCommit: V })
let CH = loc(old(dir), "checkpoint")
let DM = t_dm(T)
let LM = t_lm(T)
let BM = t_bm(T)
hint entry: lemma_plain(); lemma_names(dir, "checkpoint");
loop 1
invariant [C14] complete(fs, disk, wtoks, CH, T) && 0 <= $k <= T.datas.len()
invariant [C14] left(rtoks, lineDataR.r) == rest_data(T.datas, $k) && left(rtoks, linesR.r) == rest_line(T.lines, 0) && left(rtoks, blamesR.r) == rest_blame(T.blames, 0) && left(rtoks, repoR.r) == rest_row(T.rows, 0)
invariant [C14] lineData =~= data_map(T.datas.subrange(0, $k))
hint before loop 1: [C14] lemma_rest_data(T.datas, 0); lemma_rest_line(T.lines, 0); lemma_rest_blame(T.blames, 0); lemma_rest_row(T.rows, 0); lemma_data_step(T.datas, 0);
hint loop 1: [C14] lemma_rest_data(T.datas, $k); lemma_data_step(T.datas, $k);
hint done 1: [C14] lemma_data_step(T.datas, 0);
loop 2
invariant [C14] complete(fs, disk, wtoks, CH, T) && 0 <= $k <= T.lines.len()
invariant [C14] left(rtoks, linesR.r) == rest_line(T.lines, $k) && left(rtoks, blamesR.r) == rest_blame(T.blames, 0) && left(rtoks, repoR.r) == rest_row(T.rows, 0)
invariant [C14] lineData == DM && same_lines(lines, line_map(DM, T.lines.subrange(0, $k)))
hint before loop 2: [C14] lemma_data_step(T.datas, 0); lemma_line_step(DM, T.lines, 0);
hint loop 2: [C14] lemma_rest_line(T.lines, $k); lemma_line_step(DM, T.lines, $k);
loop 3
invariant [C14] complete(fs, disk, wtoks, CH, T) && 0 <= $k <= T.blames.len()
invariant [C14] left(rtoks, blamesR.r) == rest_blame(T.blames, $k) && left(rtoks, repoR.r) == rest_row(T.rows, 0)
invariant [C14] same_lines(lines, LM) && same_blames(blames, blame_map(LM, T.blames.subrange(0, $k)))
hint before loop 3: [C14] lemma_line_step(DM, T.lines, 0); lemma_blame_step(LM, T.blames, 0);
hint loop 3: [C14] lemma_rest_blame(T.blames, $k); lemma_blame_step(LM, T.blames, $k);
loop 4
invariant [C14] nonnil(bl.Lines) && lvs(bl.Lines) =~= T.blames[$k3].LinePointers.subrange(0, $k).map_values(|p: int| LM[p])
hint endloop 4: [C14] assert(refs_ok(LM, T.blames[$k3])); assert(LM.dom().contains(T.blames[$k3].LinePointers[$k])); assert(lvs(bl.Lines) =~= lvs(head(bl.Lines)).push(LM[T.blames[$k3].LinePointers[$k]]));
hint done 4: [C14] assert(T.blames[$k3].LinePointers.subrange(0, T.blames[$k3].LinePointers.len() as int) =~= T.blames[$k3].LinePointers);
loop 5
invariant [C14] complete(fs, disk, wtoks, CH, T) && 0 <= $k <= T.rows.len()
invariant [C14] left(rtoks, repoR.r) == rest_row(T.rows, $k)
invariant [C14] same_blames(blames, BM) && repo_view(repo) =~= row_map(BM, T.rows.subrange(0, $k))
hint before loop 5: [C14] lemma_blame_step(LM, T.blames, 0); lemma_row_step(BM, T.rows, 0);
hint loop 5: [C14] lemma_views(); lemma_rest_row(T.rows, $k); lemma_row_step(BM, T.rows, $k);

func (ErrCheckpointNotExpected).Error
props C15
ensures [C15 both named] mentions(result, s.WantCommit) && mentions(result, s.HaveCommit)
hint exit: lemma_mentions(s.WantCommit); lemma_mentions(s.HaveCommit);

extern os
assume interrupting the process leaves the files as its last completed file-system call left them; the calls that are not atomic (RemoveAll, WriteFile, Create followed by writes) may be interrupted half-way; names in a directory are different files (no hard links)
func Create
trusted
props C14 C15
modifies fs disk opened
midway fs == old(fs) && disk == old(disk)
ensures result1 == 0 ==> result0 > 0 && opened_file(old(fs), old(disk), name, h_ino(result0)) && old(fs).dom().contains(path_dir(name)) && fs == put_file(old(fs), name, h_ino(result0)) && disk == old(disk).insert(h_ino(result0), Content::Partial) && !old(opened).contains(result0) && opened == old(opened).insert(result0)
ensures result1 != 0 ==> fs == old(fs) && disk == old(disk) && opened == old(opened)
ensures io_ok() && fs_dir(old(fs), path_dir(name)) && !fs_dir(old(fs), name) ==> result1 == 0
func MkdirAll
trusted
props C14 C15
modifies fs
midway more(old(fs), fs, path)
ensures more(old(fs), fs, path)
ensures result == 0 ==> fs_dir(fs, path)
ensures io_ok() && !has_file(old(fs), path) ==> result == 0
func Rename
trusted
props C14 C15
modifies fs
midway fs == old(fs)
ensures result == 0 ==> moved(old(fs), fs, oldpath, newpath)
ensures result != 0 ==> fs == old(fs)
ensures io_ok() && can_move(old(fs), oldpath, newpath) ==> result == 0
func RemoveAll
trusted
props C14 C15
modifies fs
midway less(old(fs), fs, path)
ensures less(old(fs), fs, path)
ensures result == 0 ==> gone(fs, path)
ensures io_ok() ==> result == 0
func Open
trusted
props C14 C15
modifies opened
ensures result1 == 0 ==> result0 > 0 && !old(opened).contains(result0) && opened == old(opened).insert(result0) && has_file(fs, name) && h_ino(result0) == file_at(fs, name)
ensures io_ok() && has_file(fs, name) ==> result1 == 0
func (*File).Close
trusted
props C14 C15
modifies opened
ensures io_ok() && old(opened).contains(f) ==> result == 0
ensures opened == old(opened).remove(f)
extern io/ioutil
func WriteFile
trusted
props C14 C15
modifies fs disk
midway fs == old(fs) && disk == old(disk) || written_file(old(fs), old(disk), fs, disk, filename, Content::Partial)
ensures result == 0 ==> written_file(old(fs), old(disk), fs, disk, filename, Content::Bytes(data))
ensures result != 0 ==> fs == old(fs) && disk == old(disk) || written_file(old(fs), old(disk), fs, disk, filename, Content::Partial)
ensures io_ok() && fs_dir(old(fs), path_dir(filename)) && !fs_dir(old(fs), filename) ==> result == 0
func ReadFile
trusted
props C14 C15
ensures result1 == 0 ==> has_file(fs, filename) && (disk[file_at(fs, filename)] matches Content::Bytes(b) ==> result0 == b)
ensures io_ok() && has_file(fs, filename) ==> result1 == 0
extern compress/gzip
func NewWriter
trusted
props C14 C15
modifies gzs
ensures result > 0 && gw_file(result) == w && gzs == old(gzs).insert(result, Content::Partial)
func (*Writer).Flush
trusted
props C14 C15
modifies disk
midway exists|c: Content| #[trigger] old(disk).insert(gw_ino(z), c) == disk
ensures result == 0 ==> opened.contains(gw_file(z)) && disk == old(disk).insert(gw_ino(z), mget(gzs, z, Content::Partial))
ensures result != 0 ==> exists|c: Content| #[trigger] old(disk).insert(gw_ino(z), c) == disk
ensures io_ok() && opened.contains(gw_file(z)) ==> result == 0
func (*Writer).Close
trusted
props C14 C15
modifies disk
midway exists|c: Content| #[trigger] old(disk).insert(gw_ino(z), c) == disk
ensures result == 0 ==> opened.contains(gw_file(z)) && disk == old(disk).insert(gw_ino(z), sealed(mget(gzs, z, Content::Partial)))
ensures result != 0 ==> exists|c: Content| #[trigger] old(disk).insert(gw_ino(z), c) == disk
ensures io_ok() && opened.contains(gw_file(z)) ==> result == 0
func NewReader
trusted
props C14 C15
ensures result1 == 0 ==> result0 > 0 && gr_ino(result0) == h_ino(rd_handle(r))
ensures io_ok() && packed(disk, h_ino(rd_handle(r))) ==> result1 == 0
extern github.com/cespare/xxhash
func Sum64
trusted
props C14 C15
ensures result == hash_of(b)

extern github.com/tinylib/msgp/msgp
assume message pack (tinylib/msgp): what one writer is given to write, a reader of the written bytes gives back item by item, in the same order; reading at the end of the bytes gives the error of the underlying reader
func NewWriter
trusted
props C14 C15
modifies wtoks
ensures result > 0 && mw_gz(result) == w && !old(wtoks).dom().contains(result) && wtoks == old(wtoks).insert(result, Seq::empty())
func (*Writer).Flush
trusted
props C14 C15
modifies gzs
ensures result == 0 ==> gzs == old(gzs).insert(mw_gz(mw), Content::Packed { from: mw, toks: toks_of(wtoks, mw), closed: false })
ensures io_ok() ==> result == 0
func NewReader
trusted
props C14 C15
modifies rtoks
ensures result > 0 && !old(rtoks).dom().contains(result) && rtoks == old(rtoks).insert(result, rtoks[result])
ensures packed(disk, gr_ino(rd_handle(r))) ==> rtoks[result] == packed_toks(disk, gr_ino(rd_handle(r))) && cut_short(result) == !packed_closed(disk, gr_ino(rd_handle(r)))
func WrapError
trusted
props C14 C15
ensures result != 0 && (if ctx.len() == 0 { errtext(result) == errtext(err) } else { errtext(result) != "unexpected EOF" })
func UnsafeString
trusted
props C14 C15
ensures result == b
func (*Writer).Append
trusted
props C14 C15
modifies wtoks
ensures io_ok() ==> result == 0
ensures result == 0 ==> wtoks == put(old(wtoks), mw, bytes_toks(b))
func (*Writer).WriteUint64
trusted
props C14 C15
modifies wtoks
ensures io_ok() ==> result == 0
ensures result == 0 ==> wtoks == put(old(wtoks), mw, seq![Tok::Num(u)])
func (*Writer).WriteString
trusted
props C14 C15
modifies wtoks
ensures io_ok() ==> result == 0
ensures result == 0 ==> wtoks == put(old(wtoks), mw, seq![Tok::Text(s)])
func (*Writer).WriteBytes
trusted
props C14 C15
modifies wtoks
ensures io_ok() ==> result == 0
ensures result == 0 ==> wtoks == put(old(wtoks), mw, seq![Tok::Raw(b)])
func (*Writer).WriteBool
trusted
props C14 C15
modifies wtoks
ensures io_ok() ==> result == 0
ensures result == 0 ==> wtoks == put(old(wtoks), mw, seq![Tok::Flag(b)])
func (*Writer).WriteArrayHeader
trusted
props C14 C15
modifies wtoks
ensures io_ok() ==> result == 0
ensures result == 0 ==> wtoks == put(old(wtoks), mw, seq![Tok::Items(sz)])

func (*Reader).ReadMapHeader
trusted
props C14 C15
modifies rtoks
ensures result0 >= 0
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Fields(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Fields ==> result1 == 0
func (*Reader).ReadMapKeyPtr
trusted
props C14 C15
modifies rtoks
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Text(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Text ==> result1 == 0
func (*Reader).ReadArrayHeader
trusted
props C14 C15
modifies rtoks
ensures result0 >= 0
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Items(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Items ==> result1 == 0
func (*Reader).ReadBool
trusted
props C14 C15
modifies rtoks
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Flag(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Flag ==> result1 == 0
func (*Reader).ReadUint64
trusted
props C14 C15
modifies rtoks
ensures result0 >= 0
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Num(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Num ==> result1 == 0
func (*Reader).ReadBytes
trusted
props C14 C15
modifies rtoks
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Raw(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Raw ==> result1 == 0
func (*Reader).ReadString
trusted
props C14 C15
modifies rtoks
ensures result1 == 0 ==> read_ok(old(rtoks), rtoks, m, Tok::Text(result0))
ensures result1 != 0 ==> read_err(old(rtoks), m, result1)
ensures others(old(rtoks), rtoks, m)
ensures io_ok() && left(old(rtoks), m).len() > 0 && left(old(rtoks), m)[0] is Text ==> result1 == 0
func (*Reader).Skip
trusted
props C14 C15
modifies rtoks

package ripsrc/history3/process/repo/disk
func (DataRow).EncodeMsg
props C14
hint before Append: [C14] lemma_keys($arg0);
ensures [C14 encoded] result == 0 ==> wtoks == put(old(wtoks), en, enc_row(z))
ensures [C14 succeeds] io_ok() ==> result == 0
hint exit: [C14] if result == 0 { assert(toks_of(wtoks, en) =~= toks_of(old(wtoks), en) + enc_row(z)); assert(wtoks =~= put(old(wtoks), en, enc_row(z))); }
func (Line).EncodeMsg
props C14
hint before Append: [C14] lemma_keys($arg0);
ensures [C14 encoded] result == 0 ==> wtoks == put(old(wtoks), en, enc_line(z))
ensures [C14 succeeds] io_ok() ==> result == 0
hint exit: [C14] if result == 0 { assert(toks_of(wtoks, en) =~= toks_of(old(wtoks), en) + enc_line(z)); assert(wtoks =~= put(old(wtoks), en, enc_line(z))); }
func (*LineData).EncodeMsg
props C14
hint before Append: [C14] lemma_keys($arg0);
ensures [C14 encoded] result == 0 ==> wtoks == put(old(wtoks), en, enc_data(z))
ensures [C14 succeeds] io_ok() ==> result == 0
hint exit: [C14] if result == 0 { assert(toks_of(wtoks, en) =~= toks_of(old(wtoks), en) + enc_data(z)); assert(wtoks =~= put(old(wtoks), en, enc_data(z))); }
func (*Blame).EncodeMsg
props C14
hint before Append: [C14] lemma_keys($arg0);
let HD = seq![Tok::Fields(4), Tok::Text("p"), Tok::Num(z.Pointer), Tok::Text("c"), Tok::Text(z.Commit), Tok::Text("lp"), Tok::Items(z.LinePointers.len() as int)]
ensures [C14 encoded] result == 0 ==> wtoks == put(old(wtoks), en, enc_blame(z))
ensures [C14 succeeds] io_ok() ==> result == 0
loop 1
invariant [C14] wtoks == put(old(wtoks), en, HD + nums(z.LinePointers.subrange(0, $k)))
hint before loop 1: [C14] assert(wtoks =~= put(old(wtoks), en, HD + nums(z.LinePointers.subrange(0, 0)))) by { assert(toks_of(wtoks, en) =~= toks_of(old(wtoks), en) + (HD + nums(z.LinePointers.subrange(0, 0)))); }
hint endloop 1: [C14] assert(wtoks =~= put(old(wtoks), en, HD + nums(z.LinePointers.subrange(0, $k + 1)))) by { assert(nums(z.LinePointers.subrange(0, $k + 1)) =~= nums(z.LinePointers.subrange(0, $k)).push(Tok::Num(z.LinePointers[$k]))); assert(toks_of(wtoks, en) =~= toks_of(old(wtoks), en) + (HD + nums(z.LinePointers.subrange(0, $k + 1)))); }
hint done 1: [C14] assert(z.LinePointers.subrange(0, z.LinePointers.len() as int) =~= z.LinePointers);
hint exit: [C14] if result == 0 { assert(toks_of(wtoks, en) =~= toks_of(old(wtoks), en) + enc_blame(z)); assert(wtoks =~= put(old(wtoks), en, enc_blame(z))); }
func (*DataRow).DecodeMsg
props C14
ghost X: disk_DataRow
ghost R: Seq<Tok>
requires [C14] z == default_disk_DataRow()
requires [C14] left(rtoks, dc).len() == 0 || left(rtoks, dc) == enc_row(X) + R
ensures [C14 decoded] result == 0 ==> left(old(rtoks), dc).len() > 0 && z == X && rtoks == old(rtoks).insert(dc, R)
ensures [C14 succeeds] io_ok() && left(old(rtoks), dc).len() > 0 ==> result == 0
ensures [C14 end] result != 0 ==> read_err(old(rtoks), dc, result)
ensures [C14 others] others(old(rtoks), rtoks, dc)
loop 1
invariant [C14] 0 <= zb0001 <= 3 && err == 0 && left(old(rtoks), dc).len() > 0
invariant [C14] rtoks == old(rtoks).insert(dc, tail_row(X, zb0001) + R)
invariant [C14] (zb0001 <= 2 ==> z.Commit == X.Commit) && (zb0001 <= 1 ==> z.Path == X.Path) && (zb0001 <= 0 ==> z.BlamePointer == X.BlamePointer)
hint before loop 1: [C14] lemma_key_texts(); assert(left(rtoks, dc) =~= tail_row(X, 3) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_row(X, 3) + R));
hint loop 1: [C14] lemma_key_texts(); lemma_tail_row(X, head(zb0001), R);
hint endloop 1: [C14] assert(left(rtoks, dc) =~= tail_row(X, zb0001) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_row(X, zb0001) + R));
hint exit: [C14] if result == 0 { assert(tail_row(X, 0) + R =~= R); }
func (*Line).DecodeMsg
props C14
ghost X: disk_Line
ghost R: Seq<Tok>
requires [C14] z == default_disk_Line()
requires [C14] left(rtoks, dc).len() == 0 || left(rtoks, dc) == enc_line(X) + R
ensures [C14 decoded] result == 0 ==> left(old(rtoks), dc).len() > 0 && z == X && rtoks == old(rtoks).insert(dc, R)
ensures [C14 succeeds] io_ok() && left(old(rtoks), dc).len() > 0 ==> result == 0
ensures [C14 end] result != 0 ==> read_err(old(rtoks), dc, result)
ensures [C14 others] others(old(rtoks), rtoks, dc)
loop 1
invariant [C14] 0 <= zb0001 <= 3 && err == 0 && left(old(rtoks), dc).len() > 0
invariant [C14] rtoks == old(rtoks).insert(dc, tail_line(X, zb0001) + R)
invariant [C14] (zb0001 <= 2 ==> z.Pointer == X.Pointer) && (zb0001 <= 1 ==> z.Commit == X.Commit) && (zb0001 <= 0 ==> z.LineDataPointer == X.LineDataPointer)
hint before loop 1: [C14] lemma_key_texts(); assert(left(rtoks, dc) =~= tail_line(X, 3) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_line(X, 3) + R));
hint loop 1: [C14] lemma_key_texts(); lemma_tail_line(X, head(zb0001), R);
hint endloop 1: [C14] assert(left(rtoks, dc) =~= tail_line(X, zb0001) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_line(X, zb0001) + R));
hint exit: [C14] if result == 0 { assert(tail_line(X, 0) + R =~= R); }
func (*LineData).DecodeMsg
props C14
ghost X: disk_LineData
ghost R: Seq<Tok>
requires [C14] z == default_disk_LineData()
requires [C14] left(rtoks, dc).len() == 0 || left(rtoks, dc) == enc_data(X) + R
ensures [C14 decoded] result == 0 ==> left(old(rtoks), dc).len() > 0 && z == X && rtoks == old(rtoks).insert(dc, R)
ensures [C14 succeeds] io_ok() && left(old(rtoks), dc).len() > 0 ==> result == 0
ensures [C14 end] result != 0 ==> read_err(old(rtoks), dc, result)
ensures [C14 others] others(old(rtoks), rtoks, dc)
loop 1
invariant [C14] 0 <= zb0001 <= 2 && err == 0 && left(old(rtoks), dc).len() > 0
invariant [C14] rtoks == old(rtoks).insert(dc, tail_data(X, zb0001) + R)
invariant [C14] (zb0001 <= 1 ==> z.Pointer == X.Pointer) && (zb0001 <= 0 ==> z.Data == X.Data)
hint before loop 1: [C14] lemma_key_texts(); assert(left(rtoks, dc) =~= tail_data(X, 2) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_data(X, 2) + R));
hint loop 1: [C14] lemma_key_texts(); lemma_tail_data(X, head(zb0001), R);
hint endloop 1: [C14] assert(left(rtoks, dc) =~= tail_data(X, zb0001) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_data(X, zb0001) + R));
hint exit: [C14] if result == 0 { assert(tail_data(X, 0) + R =~= R); }
func (*Blame).DecodeMsg
props C14
own z.LinePointers
ghost X: disk_Blame
ghost R: Seq<Tok>
requires [C14] z == default_disk_Blame()
requires [C14] left(rtoks, dc).len() == 0 || left(rtoks, dc) == enc_blame(X) + R
ensures [C14 decoded] result == 0 ==> left(old(rtoks), dc).len() > 0 && z == X && rtoks == old(rtoks).insert(dc, R)
ensures [C14 succeeds] io_ok() && left(old(rtoks), dc).len() > 0 ==> result == 0
ensures [C14 end] result != 0 ==> read_err(old(rtoks), dc, result)
ensures [C14 others] others(old(rtoks), rtoks, dc)
loop 1
invariant [C14] 0 <= zb0001 <= 4 && err == 0 && left(old(rtoks), dc).len() > 0
invariant [C14] rtoks == old(rtoks).insert(dc, tail_blame(X, zb0001) + R)
invariant [C14] (zb0001 <= 3 ==> z.Pointer == X.Pointer) && (zb0001 <= 2 ==> z.Commit == X.Commit) && (zb0001 <= 1 ==> z.LinePointers == X.LinePointers) && (zb0001 <= 0 ==> z.IsBinary == X.IsBinary)
loop 2
invariant z.LinePointers.len() == pre(z.LinePointers).len()
invariant [C14] z.LinePointers.len() == X.LinePointers.len() && z.Pointer == X.Pointer && z.Commit == X.Commit && err == 0 && zb0001 == 1
invariant [C14] rtoks == old(rtoks).insert(dc, nums(X.LinePointers.subrange($k, X.LinePointers.len() as int)) + tail_blame(X, 1) + R)
invariant [C14] forall|i: int| 0 <= i < $k ==> #[trigger] z.LinePointers[i] == X.LinePointers[i]
hint before loop 2: [C14] assert(X.LinePointers.subrange(0, X.LinePointers.len() as int) =~= X.LinePointers); assert(left(rtoks, dc) =~= nums(X.LinePointers) + tail_blame(X, 1) + R); assert(rtoks =~= old(rtoks).insert(dc, nums(X.LinePointers) + tail_blame(X, 1) + R));
hint loop 2: [C14] lemma_nums(X.LinePointers, $k, tail_blame(X, 1) + R);
hint endloop 2: [C14] assert(left(rtoks, dc) =~= nums(X.LinePointers.subrange($k + 1, X.LinePointers.len() as int)) + tail_blame(X, 1) + R); assert(rtoks =~= old(rtoks).insert(dc, nums(X.LinePointers.subrange($k + 1, X.LinePointers.len() as int)) + tail_blame(X, 1) + R));
hint done 2: [C14] assert(nums(X.LinePointers.subrange(X.LinePointers.len() as int, X.LinePointers.len() as int)) =~= Seq::empty()); assert(left(rtoks, dc) =~= tail_blame(X, 1) + R); assert(z.LinePointers =~= X.LinePointers);
hint before loop 1: [C14] lemma_key_texts(); assert(left(rtoks, dc) =~= tail_blame(X, 4) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_blame(X, 4) + R));
hint loop 1: [C14] lemma_key_texts(); lemma_tail_blame(X, head(zb0001), R);
hint endloop 1: [C14] assert(left(rtoks, dc) =~= tail_blame(X, zb0001) + R); assert(rtoks =~= old(rtoks).insert(dc, tail_blame(X, zb0001) + R));
hint exit: [C14] if result == 0 { assert(tail_blame(X, 0) + R =~= R); }
