From 0cca9e936fa0a2791e3f3bcb902decaccd6e966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 01/10] fix: decode file names which git puts in quotes, with
 spaces as well

---
 ripsrc/history3/incblame/parse.go       |  4 ++--
 ripsrc/history3/incblame/parse_utils.go | 32 +++++++++++++++----------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 08b95ff..67fc219 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -122,11 +122,11 @@ func (p *parser) Parse() (res Diff) {
 	}
 
 	if p.preMeta[metaRenameFrom] != "" {
-		p.diff.PathPrev = p.preMeta[metaRenameFrom]
+		p.diff.PathPrev = unquote(p.preMeta[metaRenameFrom])
 		if p.preMeta[metaRenameTo] == "" {
 			panic("has rename from, but not rename to")
 		}
-		p.diff.Path = p.preMeta[metaRenameTo]
+		p.diff.Path = unquote(p.preMeta[metaRenameTo])
 	}
 
 	if p.preMeta[metaBinaryFiles] != "" {
diff --git a/ripsrc/history3/incblame/parse_utils.go b/ripsrc/history3/incblame/parse_utils.go
index 465e6da..e63dbfe 100644
--- a/ripsrc/history3/incblame/parse_utils.go
+++ b/ripsrc/history3/incblame/parse_utils.go
@@ -107,14 +107,11 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 		return "", "", fmt.Errorf("invalid format for diff decl, no space sep %s", diff)
 	}
 	remPrefix := func(data []byte, pr string) (string, error) {
-		d2 := data
-		if len(d2) >= 2 && d2[0] == '"' && d2[len(d2)-1] == '"' {
-			d2 = d2[1 : len(d2)-1]
-		}
-		if len(d2) <= len(pr) || string(d2[0:len(pr)]) != pr {
+		d2 := unquote(string(data))
+		if len(d2) <= len(pr) || d2[0:len(pr)] != pr {
 			return "", fmt.Errorf("invalid format for diff decl %s, removing prefix %s", diff, data)
 		}
-		return string(d2[len(pr):]), nil
+		return d2[len(pr):], nil
 	}
 	// simple case with no spaces in name
 	if spaceCount == 1 {
@@ -135,18 +132,27 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	}
 	// only supporting space in name when from and to is the same, otherwise will have to rely on renames in parser
 	mid := len(data) / 2
-	if len(data) < 7 || len(data)%2 != 1 || string(data[0:2]) != "a/" || string(data[mid+1:mid+3]) != "b/" {
-		//panic(fmt.Errorf("only supporting space in name when from and to is the same, otherwise need to handle this case separately, decl %s, prefixes %s:%s", diff, data[0:2], data[mid+1:mid+3]))
+	if len(data)%2 != 1 || data[mid] != ' ' {
 		return "", "", errParseDiffDeclRenameWithSpaces
 	}
 
-	fromPath = string(data[2:mid])
-	toPath = string(data[mid+3:])
-	if fromPath != toPath {
+	fromPath, errFrom := remPrefix(data[:mid], "a/")
+	toPath, errTo := remPrefix(data[mid+1:], "b/")
+	if errFrom != nil || errTo != nil || fromPath != toPath {
 		return "", "", errParseDiffDeclRenameWithSpaces
-		//panic(fmt.Errorf("fromPath != toPath, only supporting space in name when from and to is the same, otherwise need to handle this case separately, decl %s, fromPath:%v toPath:%v", diff, fromPath, toPath))
 	}
-	return
+	return fromPath, toPath, nil
+}
+
+// unquote returns the actual name for names which git puts in quotes because of special characters.
+func unquote(name string) string {
+	if len(name) < 2 || name[0] != '"' || name[len(name)-1] != '"' {
+		return name
+	}
+	if res, err := strconv.Unquote(name); err == nil {
+		return res
+	}
+	return name[1 : len(name)-1]
 }
 
 func countByte(data []byte, b byte) (res int) {
-- 
2.43.0


From 630ba9ac00e8f231a0b78fcebd6480cc974d8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 02/10] fix: behind count included commits of the branch when
 default reaches them past the branch point

---
 ripsrc/branches2/behind_branch.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..c509c29 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,34 +2,14 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
-	res := map[string]bool{}
-	done := map[string]bool{}
-	var rec func(string)
-	rec = func(hash string) {
-		if done[hash] {
-			return
-		}
-		done[hash] = true
-		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
-		for _, p := range gr.Parents[hash] {
-			rec(p)
-		}
-	}
-	rec(branchHead)
-	return res
-}
-
 func behindBranch(
 	gr *parentsgraph.Graph,
 	reachableFromDefault reachableFromHead,
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	// includes the commits shared with default, those behind a shared one can also be reached from default on other paths
+	rfb := newReachableFromHead(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From 886e12ae0ccbeab0ec99d1702b1758fa0eae7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 03/10] fix: keep commits without files in the checkpoint

---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go |  6 ++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..52b2e91 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -143,13 +143,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo[obj.Commit] = map[string]*incblame.Blame{}
+			}
+			if obj.BlamePointer == 0 {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				panic("blame")
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..7602bda 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -84,6 +84,12 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	for ch, commit := range repo {
 
+		if len(commit) == 0 {
+			// no files, keep the commit itself, blame pointers of files start from 1
+			writeRepoRow(ch, "", 0)
+			continue
+		}
+
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
 				writeRepoRow(ch, fp, blp)
-- 
2.43.0


From fb3cde9f6812ad960712c54412a4b017706f8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 04/10] fix: different lines with the same hash were merged in
 the checkpoint

---
 ripsrc/history3/process/repo/writer.go | 28 +++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 7602bda..35f0366 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -1,6 +1,7 @@
 package repo
 
 import (
+	"bytes"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -69,7 +70,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	linePointerC := uint64(0)
 	linePointers := map[*incblame.Line]uint64{}
 
-	lineData := map[uint64]bool{}
+	lineData := map[uint64][]byte{}
 
 	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
 		r := &disk.DataRow{}
@@ -116,15 +117,24 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 				// line data
 				dp := xxhash.Sum64(l.Line)
-				if ok := lineData[dp]; !ok {
-					ld := &sLineData{
-						Pointer: dp,
-						Data:    l.Line}
-					err := lineDataWr.Write(ld)
-					if err != nil {
-						return err
+				for {
+					data, ok := lineData[dp]
+					if !ok {
+						ld := &sLineData{
+							Pointer: dp,
+							Data:    l.Line}
+						err := lineDataWr.Write(ld)
+						if err != nil {
+							return err
+						}
+						lineData[dp] = l.Line
+						break
 					}
-					lineData[dp] = true
+					if bytes.Equal(data, l.Line) {
+						break
+					}
+					// different line with the same hash
+					dp++
 				}
 
 				l2 := &sLine{}
-- 
2.43.0


From a3524f82f8e12628ed5fb15af68758386d8462ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 05/10] fix: commit log with a line over 64 KB was cut short
 without an error, errors crashed the run

---
 ripsrc/commitmeta/commitmeta.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..ebcc4f2 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -132,13 +132,20 @@ func (s *Processor) RunMap() (map[string]Commit, error) {
 	return res, err
 }
 
+// maxLine is the maximum length of a line in the log, lines carry file names, commit messages and parents of any length
+const maxLine = 1 << 30
+
 func (s *Processor) Run(res chan Commit) error {
 	defer close(res)
 	r, err := s.gitLog()
 	if err != nil {
 		return err
 	}
-	defer r.Close()
+	defer func() {
+		// read what is left in case of errors, git fails when its output is closed early
+		io.Copy(ioutil.Discard, r)
+		r.Close()
+	}()
 
 	var parser parser
 	parser.dir = s.repoDir
@@ -155,6 +162,7 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.filejobs = fjChan
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		ok, err := parser.parse(scanner.Text())
 		if err != nil {
@@ -164,6 +172,9 @@ func (s *Processor) Run(res chan Commit) error {
 			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading commits from %v. %v", s.repoDir, err)
+	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
 		res <- *parser.commit
 	}
-- 
2.43.0


From 8a7e93bb3d0c64e91354dcfe44bfc4d6a63b8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 06/10] fix: commit metadata for file names with quotes,
 leading spaces, braces or arrows

---
 ripsrc/commitmeta/commitmeta.go | 65 +++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index ebcc4f2..cf369f6 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -281,7 +281,21 @@ func parseEmail(email string) string {
 	return ""
 }
 
+// unquote returns the actual name for names which git puts in quotes because of special characters.
+func unquote(name string) string {
+	if len(name) < 2 || name[0] != '"' || name[len(name)-1] != '"' {
+		return name
+	}
+	if res, err := strconv.Unquote(name); err == nil {
+		return res
+	}
+	return name
+}
+
 func getFilename(fn string) (string, string, bool) {
+	if name := unquote(fn); name != fn {
+		return name, name, false
+	}
 	if renameRe.MatchString(fn) {
 		match := renameRe.FindStringSubmatch(fn)
 		// use path.Join to remove empty directories and to correct join paths
@@ -294,7 +308,7 @@ func getFilename(fn string) (string, string, bool) {
 	// straight rename without parts
 	s := strings.Split(fn, " => ")
 	if len(s) > 1 {
-		return s[1], s[0], true
+		return unquote(s[1]), unquote(s[0]), true
 	}
 	return fn, fn, false
 }
@@ -338,6 +352,8 @@ type parser struct {
 	total    int
 	ordinal  int64
 	state    parserState
+	// files of the current commit in the order of raw lines, stats use the same order
+	rawFiles []*CommitFile
 }
 
 func (p *parser) parse(line string) (bool, error) {
@@ -379,6 +395,7 @@ func (p *parser) parse(line string) (bool, error) {
 					//Parent:   parent,
 					//Previous: parentCommit,
 				}
+				p.rawFiles = nil
 				p.total++
 				return true, nil
 			}
@@ -424,25 +441,31 @@ func (p *parser) parse(line string) (bool, error) {
 				tok1 := bytes.Split(buf, space)
 				mask := tok1[1]
 				// fmt.Println(p.commit.SHA, line, string(mask))
-				// if the mask isn't a regular file or deleted file, skip it
-				if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
-					return true, nil
-				}
 				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
 				action := tok2[0]
 				paths := tok2[1:]
+				// if the mask isn't a regular file or deleted file, skip it, it is added as modified from its stats
+				if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
+					fn := unquote(string(paths[len(paths)-1]))
+					p.rawFiles = append(p.rawFiles, &CommitFile{
+						Filename: fn,
+						Status:   GitFileCommitStatusModified,
+					})
+					return true, nil
+				}
 				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := unquote(string(paths[0]))
 					cf := &CommitFile{
 						Filename: fn,
 						Status:   toCommitStatus(action),
 					}
 					p.commit.Files[fn] = cf
+					p.rawFiles = append(p.rawFiles, cf)
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, removePrefix) {
 					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := unquote(string(paths[0]))
+					toFn := unquote(string(paths[1]))
 					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
 					p.commit.Files[fromFn] = &CommitFile{
 						Status:      GitFileCommitStatusRemoved,
@@ -459,11 +482,12 @@ func (p *parser) parse(line string) (bool, error) {
 						RenamedTo:   toFn,
 					}
 					p.commit.Files[toFn] = cf
+					p.rawFiles = append(p.rawFiles, cf)
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, copyPrefix) {
 					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := unquote(string(paths[0]))
+					toFn := unquote(string(paths[1]))
 					cf := &CommitFile{
 						Status:     GitFileCommitStatusAdded,
 						Filename:   toFn,
@@ -471,14 +495,16 @@ func (p *parser) parse(line string) (bool, error) {
 						CopiedFrom: fromFn,
 					}
 					p.commit.Files[toFn] = cf
+					p.rawFiles = append(p.rawFiles, cf)
 					p.filejobs <- cf
 				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := unquote(string(paths[0]))
 					cf := &CommitFile{
 						Status:   toCommitStatus(action),
 						Filename: fn,
 					}
 					p.commit.Files[fn] = cf
+					p.rawFiles = append(p.rawFiles, cf)
 					p.filejobs <- cf
 				}
 				return true, nil
@@ -490,21 +516,22 @@ func (p *parser) parse(line string) (bool, error) {
 			// handle the file stats output
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
-				fn, _, _ := getFilename(tok[2])
-				file := p.commit.Files[fn]
-				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
-				if file == nil {
+				var file *CommitFile
+				if len(p.rawFiles) != 0 {
+					file = p.rawFiles[0]
+					p.rawFiles = p.rawFiles[1:]
+					// not there yet in case of special entries, such as symlinks
+					p.commit.Files[file.Filename] = file
+				} else {
 					// BUG: this needs fixing, next 4 lines is a quick workaround
-					// Special case for merge
+					// Special case for merge, there are no raw lines before the stats
 					// TODO: parse lines like this properly:
 					// ::100644 100644 100644 1dbddb0... 4cd4b38... 904d55b... MM      main.go
+					fn, _, _ := getFilename(tok[2])
 					file = &CommitFile{}
 					file.Filename = fn
 					file.Status = GitFileCommitStatusModified
 					p.commit.Files[fn] = file
-
-					// this is OK, just means it was a special entry such as directory only, skip this one
-					// return true, nil
 				}
 				if tok[0] == "-" {
 					file.Binary = true
-- 
2.43.0


From af31e3a5b5a571b061e443984d3bc7c95d62679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 07/10] fix: branch listing failed or gave wrong names
 depending on what branches and tags are called

---
 ripsrc/branchmeta/branchmeta.go | 27 +++++++++++++--------------
 ripsrc/branchmeta/default.go    |  4 ++--
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..866cfa8 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -35,13 +35,14 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
+		// full refname, the short one is changed when ambiguous, there can be no spaces in it
+		"%(objectname) %(refname) %(committerdate)",
 	}
+	prefix := headsPrefix
 	if opts.UseOrigin {
-		args = append(args, "refs/remotes/origin")
-	} else {
-		args = append(args, "refs/heads")
+		prefix = "refs/remotes/origin/"
 	}
+	args = append(args, prefix)
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return nil, err
@@ -58,24 +59,21 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 			// (HEAD detached at faeab7d)
 			continue
 		}
-		parts := strings.SplitN(line, "@@@", 3)
+		parts := strings.SplitN(line, " ", 3)
 		if len(parts) != 3 {
 			panic("unexpected format")
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
+		if !strings.HasPrefix(parts[1], prefix) {
+			panic("unexpected ref name")
+		}
+		b.Name = strings.TrimPrefix(parts[1], prefix)
 		date, err := gittime.Parse(parts[2])
 		if err != nil {
 			panic("invalid date format")
 		}
 		b.CommitCommitterTime = date
-		if opts.UseOrigin {
-			if !strings.HasPrefix(b.Name, "origin/") {
-				panic("branch name does not have origin/ prefix")
-			}
-			b.Name = strings.TrimPrefix(b.Name, "origin/")
-		}
 		if b.Name == "HEAD" {
 			continue
 		}
@@ -92,17 +90,18 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	return
 }
 
+const headsPrefix = "refs/heads/"
+
 func getDefaultBranch(opts Opts) (string, error) {
 	args := []string{
 		"symbolic-ref",
-		"--short",
 		"HEAD",
 	}
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := strings.TrimPrefix(strings.TrimSpace(string(data)), headsPrefix)
 	if len(res) == 0 {
 		return "", errors.New("could not get the default branch name")
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..75a0ff7 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -27,7 +27,7 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--symbolic-full-name", "HEAD"})
 	if err != nil {
 		return "", err
 	}
@@ -35,7 +35,7 @@ func headBranch(ctx context.Context, gitCommand string, repoDir string) (string,
 	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return res, nil
+	return strings.TrimPrefix(res, headsPrefix), nil
 }
 
 func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-- 
2.43.0


From 79ac0d27d6540d89766a757a9807064beb9840ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 08/10] fix: binary files turned into text when only their mode
 changed

---
 ripsrc/history3/process/process.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..de98935 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -440,6 +440,12 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 		if parentBlame == nil {
 			blame = incblame.Apply(incblame.Blame{}, diff, commit.Hash, diff.PathOrPrev())
 		} else {
+			if parentBlame.IsBinary && len(diff.Hunks) == 0 {
+				// only the mode of a binary file changed
+				s.repo[commit.Hash][diff.Path] = parentBlame
+				res.Files[diff.Path] = parentBlame
+				continue
+			}
 			if parentBlame.IsBinary {
 				bl, err := s.slowGitBlame(commit.Hash, diff.Path)
 				if err != nil {
-- 
2.43.0


From 826c1175f5579067edab09b70296941b88869d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 09/10] fix: file whose type changed was reported as removed or
 not depending on map order in merges

---
 ripsrc/history3/process/process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index de98935..b6b99da 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -563,6 +563,10 @@ EACHFILE:
 		if isDelete {
 			// only showing deletes and files changed in merge comparent to at least one parent
 			pathPrev := k[len(deletedPrefix):]
+			if files[pathPrev] {
+				// the file type changed (for example to a symlink), this is shown as delete and create
+				continue
+			}
 			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
 			continue
 		}
-- 
2.43.0


From 2d4a216cb16ac029ff2bdd70958619ad92ac556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 10/10] fix: return an error when a git log command fails
 instead of ending the caller's process

ExecPiped and Process.Run panicked in a goroutine of their own, where no caller
can recover: the stream's channel was never closed and the whole program ended.
---
 ripsrc/gitexec/gitexec.go          | 10 ++--------
 ripsrc/history3/process/process.go | 14 +++++++-------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..d2872a5 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -125,14 +125,8 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
-		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
-		if err != nil {
-			panic(err)
-		}
-		err = wr.Close()
-		if err != nil {
-			panic(err)
-		}
+		// the reader gets the error of the command, or io.EOF when it is nil
+		wr.CloseWithError(ExecIntoWriter(ctx, wr, gitCommand, repoDir, args))
 	}()
 	return r, nil
 }
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index b6b99da..695c2fe 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -159,15 +159,13 @@ func (s *Process) Run(resChan chan Result) error {
 	p := parser.New(r)
 
 	done := make(chan bool)
+	var parseErr error
 
 	go func() {
 		defer func() {
 			done <- true
 		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		parseErr = p.Run(commits)
 	}()
 
 	drainAndExit := func() {
@@ -194,6 +192,11 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	<-done
+	if parseErr != nil {
+		return parseErr
+	}
+
 	if len(s.mergeParts) > 0 {
 		s.processGotMergeParts(resChan)
 	}
@@ -201,20 +204,17 @@ func (s *Process) Run(resChan chan Result) error {
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
-- 
2.43.0

