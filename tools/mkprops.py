#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script because the records are long)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
R='ripsrc/'
p('C01','Applying a diff reproduces the new file version',
 'For every text file version and every well-formed unified diff against it (any number of hunks, pure insertions and deletions, created or emptied files, no-newline markers), applying the diff to the tracked version yields exactly the lines of the new version, in order, ignoring only trailing carriage returns. It never crashes on such a diff.',
 ['inputs'],'all old versions, all well-formed diffs against them',
 'The tests apply about twenty hand-written diffs; the space of hunk layouts, offsets and line contents is unbounded, and off-by-one errors only show at particular layouts (first/last line, adjacent hunks, empty old side).',
 [R+'history3/incblame/apply.go'],[('Apply: hunk walk with old-file index','ripsrc/history3/incblame/apply.go Apply')],
 [('Blame.Lines','lines of one file version with attribution','ripsrc/history3/incblame/apply.go')],['incblame.Apply result','process.Result.Files'])
p('C02','Each line is attributed to the commit that introduced it',
 'When a diff is applied for a commit, every line the diff leaves in place keeps the attribution it had in the previous version, and every line the diff adds is attributed to that commit and to no other. The attribution recorded for the version as a whole is that commit.',
 ['inputs'],'all old versions, attributions and well-formed diffs',
 'Attribution is checked for a handful of histories; a wrong index shifts attribution by one line only where neighbouring lines have different origins.',
 [R+'history3/incblame/apply.go'],[('copyLine/copyRange keep the Line object, addLine makes a new one','ripsrc/history3/incblame/apply.go Apply')],
 [('Line.Commit','commit a line is attributed to','ripsrc/history3/incblame/apply.go')],['incblame.Apply result'])
p('C03','Merge commits attribute lines to the parent they came from',
 'For a merge of any number of parents, a line of the merged file that is unchanged with respect to at least one parent is attributed as in the first such parent, and a line new with respect to every parent is attributed to the merge commit. The content of the merged file is the one all parent diffs produce.',
 ['inputs'],'all parent versions, any number of parents, all well-formed diffs per parent',
 'The tests cover two and three parents with tiny files; precedence between parents and lines new to only some parents need every combination.',
 [R+'history3/incblame/apply_merge2.go'],[('candidate per parent, first parent whose attribution is not the merge wins','ripsrc/history3/incblame/apply_merge2.go ApplyMerge')],
 (),['incblame.ApplyMerge result'])
p('C04','Recorded blame is never altered by later processing',
 'Once a blame for a file version has been computed or delivered, processing any other commit never changes its lines, their content or their attribution: results delivered for earlier commits, the parents given to a merge and the diff data handed on by the log reader stay as they were.',
 ['inputs','histories'],'all files, diffs, merges and orders of processing',
 'Aliasing bugs only show when two versions share a line or a backing array and one of them is later written; the tests look at results once, mostly before later commits ran.',
 [R+'history3/incblame/apply.go',R+'history3/incblame/apply_merge2.go',R+'history3/process/parser/parser.go'],
 [('fresh result slice, copy of a line before re-attribution','ripsrc/history3/incblame/apply_merge2.go ApplyMerge'),('copy of scanner bytes','ripsrc/history3/incblame/apply.go copyBytes'),('fresh diff buffer per file','ripsrc/history3/process/parser/parser.go startDiff')],
 (),['blames passed to or returned by Apply and ApplyMerge'])
p('C05','The patch log is split into commits and file diffs without loss',
 'For every well-formed patch log, each commit entry is emitted exactly once and in log order, with its exact hash, the parent it was diffed against if it is a merge part, and one record per file diff carrying exactly the lines of that diff in order (ignoring trailing carriage returns). An empty log emits nothing.',
 ['inputs'],'all logs: any number of commits, with or without diffs, any message and diff lines',
 'Six literal logs are tested; the reader is a line-driven state machine whose errors need particular sequences (commit without changes between commits with changes, merge parts, last entry).',
 [R+'history3/process/parser/parser.go'],[('line state machine','ripsrc/history3/process/parser/parser.go Parser.line'),('endDiff/endCommit','ripsrc/history3/process/parser/parser.go')],
 [('Parser.state','position in the log grammar','ripsrc/history3/process/parser/parser.go')],['parser.Run output channel'])
p('C06','A file diff is decoded to the right paths, kind and hunks',
 'For every file diff that git emits, decoding yields the path before and after the change (none before for a created file, none after for a deleted file, both names for a rename, including names with spaces or quoting), whether it is binary, and every hunk in order with its line range and exactly its patch lines.',
 ['inputs'],'all paths, all header combinations, all hunk headers and patch lines',
 'Tests decode about fifteen literal diffs; names with spaces, section headings containing the hunk marker, single-line ranges and patch lines that look like headers combine freely.',
 [R+'history3/incblame/parse.go',R+'history3/incblame/parse_utils.go'],[('parser.line states','ripsrc/history3/incblame/parse.go'),('parseDiffDecl','ripsrc/history3/incblame/parse_utils.go'),('parseContext','ripsrc/history3/incblame/parse_utils.go')],
 (),['incblame.Parse result'])
p('C07','A regular commit updates exactly the files it changes',
 'Processing a non-merge commit reports exactly the files the commit changed, with deletions reported as empty and binary files as binary without lines, and records for the commit every other file of its parent unchanged; blames recorded for other commits are untouched.',
 ['inputs','histories'],'all parent snapshots and all sets of file changes',
 'Tests sample about ten kinds of change one at a time; combinations in one commit (rename onto a changed path, binary to text, empty commits) and large snapshots are not enumerated.',
 [R+'history3/process/process.go',R+'history3/process/repo/repo.go'],[('processRegularCommit','ripsrc/history3/process/process.go'),('Repo accessors','ripsrc/history3/process/repo/repo.go')],
 [('Repo','commit -> path -> blame','ripsrc/history3/process/repo/repo.go')],['process.Run results','checkpoint contents'])
p('C08','Every commit of the log is reported exactly once, merges as one',
 'Every commit in the log yields exactly one result, in log order; the consecutive entries a merge has, one per parent, are combined into one result built from the diffs against all its parents, wherever the merge stands, the end of the log included.',
 ['inputs','histories'],'all sequences of log entries and all merge groupings',
 'The tests have few merges, mostly followed by a regular commit; two adjacent merges, a merge at the end and merges with unequal numbers of entries are specific sequences.',
 [R+'history3/process/process.go'],[('processCommit grouping by hash','ripsrc/history3/process/process.go'),('processGotMergeParts flush at end','ripsrc/history3/process/process.go Run')],
 [('mergeParts, mergePartsCommit','pending entries of one merge','ripsrc/history3/process/process.go')],['process.Run results'])
p('C09','The commit graph lists parents exactly and children as their inverse',
 'Reading the commit listing gives each commit its parents in order, and a commit is listed as a child of another exactly when, and as often as, the other is among its parents; every listed commit has an entry, and children are in sorted order.',
 ['inputs'],'all commit listings',
 'Two small repositories are read in the tests; the inverse relation is checked on neither for commits with several children and merges.',
 [R+'parentsgraph/parents.go',R+'parentsgraph/parentsp/parser.go'],[('childrenFromParents','ripsrc/parentsgraph/parents.go'),('Parser.Run','ripsrc/parentsgraph/parentsp/parser.go')],
 [('Graph.Parents, Graph.Children','adjacency both ways','ripsrc/parentsgraph/parents.go')],['parentsgraph.Graph'])
p('C10','Branch commits are those reachable from the branch and not from default',
 'The commits reported for an unmerged branch or pull request are exactly those reachable from its head and not from the head of the default branch, each once and ending with its head; for a merged one, those reachable from its head but not from the default head when the branch head is taken out. The default branch reports every commit reachable from its head, each once.',
 ['inputs'],'all commit graphs and heads',
 'Eight fixed graphs of at most six commits; criss-cross merges, several merge bases and shared history are not covered, and the answer is a global graph property.',
 [R+'branches2/branch_commits.go',R+'branches2/process.go'],[('newReachableFromHead','ripsrc/branches2/branch_commits.go'),('branchCommits','ripsrc/branches2/branch_commits.go'),('getAllCommits','ripsrc/branches2/process.go')],
 (),['Branch.Commits'])
p('C11','Branch points are the oldest default-branch commits branched from',
 'The branch points reported for a branch are exactly those commits of the default branch that are a parent of one of the reported branch commits and from which no other such commit can be reached, without duplicates and in sorted order; a branch with separate history has none.',
 ['inputs'],'all acyclic commit graphs and heads',
 'Two fixed graphs for the de-duplication; correctness depends on reachability between every pair of branch points through any path.',
 [R+'branches2/branch_commits.go'],[('dedupLinearFromHead','ripsrc/branches2/branch_commits.go')],(),['Branch.BranchedFromCommits'])
p('C12','Behind count is the number of default commits not in the branch',
 'For an unmerged branch that shares history with the default branch, the behind count equals the number of commits reachable from the default head and not reachable from the branch head; the ahead count equals the number of reported branch commits.',
 ['inputs'],'all commit graphs and heads',
 'Two fixed graphs and one repository; a commit reachable both around and through the branch point is only counted wrongly in graphs with merges on the default branch.',
 [R+'branches2/behind_branch.go',R+'branches2/process.go'],[('behindBranch','ripsrc/branches2/behind_branch.go')],(),['Branch.BehindDefaultCount','Branch.AheadDefaultCount'])
p('C13','Merged status and merge commit are right',
 'A branch is reported as merged exactly when its head is reachable from the default head; the merge commit reported is then a child of the branch head that is itself reachable from the default head, and is empty only if there is none. The branch id and first commit are determined by its name, branch points and commits alone.',
 ['inputs'],'all commit graphs and heads',
 'Three graphs; heads that are ancestors, equal to the default head, or have several children on and off the default branch are not enumerated.',
 [R+'branches2/merge_commit.go',R+'branches2/process.go'],[('getMergeCommit','ripsrc/branches2/merge_commit.go'),('processBranch','ripsrc/branches2/process.go')],(),['Branch.IsMerged','Branch.MergeCommit'])
p('C14','A checkpoint restores exactly the state that was written',
 'Reading back a written checkpoint restores every recorded commit, including commits without files, every file of it, and for each file the same attribution, binary flag, lines and line attributions, in the same order, and nothing else; shared files and lines may be stored once but are restored everywhere.',
 ['inputs','histories'],'all recorded states',
 'One state with two commits is written and read back; sharing between commits, equal lines, empty files and empty commits, and record encodings depend on the whole state.',
 [R+'history3/process/repo/writer.go',R+'history3/process/repo/reader.go',R+'history3/process/repo/disk/disk_gen.go'],
 [('CheckpointWriter.Write','ripsrc/history3/process/repo/writer.go'),('CheckpointReader.Read','ripsrc/history3/process/repo/reader.go'),('record codecs','ripsrc/history3/process/repo/disk/disk_gen.go')],
 [('blamePointers, linePointers, lineData','already stored objects','ripsrc/history3/process/repo/writer.go')],['Repo returned by Read'])
p('C15','A checkpoint is replaced as a whole and only resumed where it ended',
 'If writing a checkpoint is interrupted at any point, a later read finds the previous checkpoint, the new one or none, never a mixture or a partly written one. A strict resume from a commit other than the one the checkpoint was written at is refused with an error naming both commits.',
 ['crash_points','inputs'],'every point between two file-system operations of the write; all commit names',
 'No test interrupts a write; the order of the file-system operations is the whole argument.',
 [R+'history3/process/repo/writer.go',R+'history3/process/repo/msgp.go',R+'history3/process/repo/reader.go'],
 [('write to tmp, version file last, remove old, rename','ripsrc/history3/process/repo/writer.go Write'),('expected commit check','ripsrc/history3/process/repo/reader.go Read')],
 (),['checkpoint directory','error of CheckpointReader.Read'])
p('C16','Blames are kept as long as later commits need them',
 'The blames recorded for a commit are released only after all of its children in the commit graph have been processed and more than a thousand further commits have become releasable since, oldest first; so they are there whenever a later commit needs its parent, and the memory held stays bounded.',
 ['histories'],'all commit graphs and processing orders',
 'No test has more than a thousand commits; releasing too early or never is only visible in long histories.',
 [R+'history3/process/repo/repo.go',R+'history3/process/process.go'],[('Unloader.Unload','ripsrc/history3/process/repo/repo.go'),('trimGraphAfterCommitProcessed','ripsrc/history3/process/process.go')],
 [('toUnload','releasable commits, newest first','ripsrc/history3/process/repo/repo.go'),('childrenProcessed','processed children per commit','ripsrc/history3/process/process.go')],['Repo contents'])
p('C17','Commit metadata is read verbatim, one record per commit',
 'For every metadata log, each commit is reported once, in log order and numbered from 1, with its hash, parents, author and committer name and email, date and message exactly as in the log, and with each changed file having the right status (added, modified, removed), rename source and target, binary flag and added and removed line counts. A log that cannot be read to its end is reported as an error, not cut short.',
 ['inputs'],'all logs: any authors, messages (including ones that look like other fields), file names and statuses',
 'Three small repositories; fields that resemble other fields, commits without files, renames, very long lines and merges combine freely.',
 [R+'commitmeta/commitmeta.go'],[('parser.parse state machine','ripsrc/commitmeta/commitmeta.go'),('Processor.Run','ripsrc/commitmeta/commitmeta.go'),('getFilename','ripsrc/commitmeta/commitmeta.go')],
 [('parser.state','section of the record being read','ripsrc/commitmeta/commitmeta.go')],['Commit records'])
p('C18','Fallback blame output is read line for line',
 'For every annotated listing git emits for a file, reading it yields one line per file line, in order, with exactly its content (empty lines included) and the commit it is annotated with, whether or not the commit details are repeated.',
 ['inputs'],'all listings: any contents, any repetition of commits',
 'Two literal listings are tested; content that looks like a header or detail line, empty content and boundary markers combine freely.',
 [R+'gitblame2/parse_output.go',R+'gitblame2/gitblame.go'],[('parseOutput','ripsrc/gitblame2/parse_output.go')],(),['gitblame2.Run result'])
p('C19','Files are skipped for the documented reasons only, consistently',
 'Whether and why a file is skipped depends only on its path and content: too large, a license file, an excluded path (configuration, dot, listed or vendored file), too many lines, a line too long, or unknown language, checked in that order with exact limits; otherwise it is analysed with its language. Earlier files never change the answer.',
 ['inputs','histories'],'all paths, sizes and line lengths; all orders of files',
 'Limits are tested with a few values far from them; the memoised path check is only wrong after particular sequences.',
 [R+'fileinfo/fileinfo.go'],[('GetInfo','ripsrc/fileinfo/fileinfo.go'),('checkFilePath cache','ripsrc/fileinfo/fileinfo.go')],
 [('checkFilePathCache','memoised answers per path','ripsrc/fileinfo/fileinfo.go')],['Info and skip reason'])
p('C20','Code records carry each line with its author and class',
 'For each analysed file the record has one entry per line of the file, in order, whose hash, author name, email and date are those of the commit the line is attributed to, and whose class (blank, comment or code) is the one counted for it; the analysed content is exactly the lines, each ended by a newline. Removed files are reported as removed and generated files as generated, without other classification.',
 ['inputs'],'all blames and commit metadata',
 'Expected records are checked for a few tiny files; correspondence between line index, blame and metadata has to hold for every index.',
 [R+'code_info.go'],[('codeInfoFile','ripsrc/code_info.go'),('ProcessLine','ripsrc/code_info.go'),('blameToFileContent','ripsrc/code_info.go')],(),['BlameResult'])
p('C21','Every branch is listed once with its true name and head',
 'Listing branches yields every local branch (or every branch of the origin remote when asked) exactly once with its exact name, head commit and commit time, leaving out only the default branch unless it is asked for and the symbolic remote head; it never fails because of what branches are called.',
 ['inputs','configurations'],'all sets of branch names and heads',
 'One repository with plain names; names equal to tags, containing separators, and a remote with a symbolic head are not covered.',
 [R+'branchmeta/branchmeta.go'],[('Get','ripsrc/branchmeta/branchmeta.go')],(),['branchmeta.Get result'])
p('C22','Repository discovery visits every repository in range once',
 'Walking a directory runs the action exactly once on each repository found down to the requested depth, never descends into a repository with a working tree, ignores plain files, and stops at the first error, which it returns.',
 ['inputs'],'all directory trees and depths',
 'It has no tests at all.',
 [R+'pkg/gitrepos/gitrepos.go'],[('IterDir','ripsrc/pkg/gitrepos/gitrepos.go')],(),['callback invocations'])
p('C23','Incremental runs give the same results as one full run',
 'Processing a repository up to a commit, saving a checkpoint and resuming from it reports for the remaining commits exactly what a single full run reports for them.',
 ['histories'],'all histories and all resume points',
 'One history is resumed at one point; the state carried across depends on every earlier commit.',
 [R+'history3/process/process.go',R+'history3/process/repo/reader.go',R+'history3/process/repo/writer.go'],[('initCheckpoints','ripsrc/history3/process/process.go'),('CheckpointWriter.Write at end of Run','ripsrc/history3/process/process.go')],(),['process.Run results after resume'])
p('C24','Branch results do not depend on concurrency or scheduling',
 'The set of branches reported is the same for every number of workers and every interleaving, each branch exactly once, and the run ends with the output closed and the first error returned.',
 ['schedules'],'all interleavings of the workers',
 'Tests run one interleaving.',
 [R+'branches2/process.go'],[('worker pool in Run','ripsrc/branches2/process.go')],(),['branches2.Run output'])
p('C25','Streaming calls deliver every record and always close their output',
 'The streaming calls deliver each record exactly once and in commit order, close their output on every path including errors, and return only after the last record was delivered.',
 ['schedules','fault_sequences'],'all interleavings of producer and consumer and all failing sub-steps',
 'Tests consume promptly and mostly without errors.',
 [R+'code.go',R+'branches.go',R+'history3/process/process.go'],[('forwarding goroutines','ripsrc/code.go')],(),['output channels'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import importlib
