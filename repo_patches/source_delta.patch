From cd60fad60a60f122e69241999167129e2bb8403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 01/30] fix: decode quoted file names in git output

---
 ripsrc/commitmeta/commitmeta.go         | 16 +++----
 ripsrc/gitexec/unquote.go               | 62 +++++++++++++++++++++++++
 ripsrc/history3/incblame/parse.go       |  6 ++-
 ripsrc/history3/incblame/parse_utils.go | 31 ++++++++++---
 4 files changed, 99 insertions(+), 16 deletions(-)
 create mode 100644 ripsrc/gitexec/unquote.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..cd385b5 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -283,9 +283,9 @@ func getFilename(fn string) (string, string, bool) {
 	// straight rename without parts
 	s := strings.Split(fn, " => ")
 	if len(s) > 1 {
-		return s[1], s[0], true
+		return gitexec.UnquotePath(s[1]), gitexec.UnquotePath(s[0]), true
 	}
-	return fn, fn, false
+	return gitexec.UnquotePath(fn), gitexec.UnquotePath(fn), false
 }
 
 var (
@@ -421,7 +421,7 @@ func (p *parser) parse(line string) (bool, error) {
 				action := tok2[0]
 				paths := tok2[1:]
 				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := gitexec.UnquotePath(string(paths[0]))
 					cf := &CommitFile{
 						Filename: fn,
 						Status:   toCommitStatus(action),
@@ -430,8 +430,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, removePrefix) {
 					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := gitexec.UnquotePath(string(paths[0]))
+					toFn := gitexec.UnquotePath(string(paths[1]))
 					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
 					p.commit.Files[fromFn] = &CommitFile{
 						Status:      GitFileCommitStatusRemoved,
@@ -451,8 +451,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, copyPrefix) {
 					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := gitexec.UnquotePath(string(paths[0]))
+					toFn := gitexec.UnquotePath(string(paths[1]))
 					cf := &CommitFile{
 						Status:     GitFileCommitStatusAdded,
 						Filename:   toFn,
@@ -462,7 +462,7 @@ func (p *parser) parse(line string) (bool, error) {
 					p.commit.Files[toFn] = cf
 					p.filejobs <- cf
 				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := gitexec.UnquotePath(string(paths[0]))
 					cf := &CommitFile{
 						Status:   toCommitStatus(action),
 						Filename: fn,
diff --git a/ripsrc/gitexec/unquote.go b/ripsrc/gitexec/unquote.go
new file mode 100644
index 0000000..67a5af6
--- /dev/null
+++ b/ripsrc/gitexec/unquote.go
@@ -0,0 +1,62 @@
+package gitexec
+
+// UnquotePath returns the path as stored in git for a path from the output of a git command.
+// Git outputs paths that contain special characters in double quotes with C-style escapes, other paths are output as is.
+func UnquotePath(s string) string {
+	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
+		return s
+	}
+	s = s[1 : len(s)-1]
+	res := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			res = append(res, s[i])
+			continue
+		}
+		i++
+		switch c := s[i]; c {
+		case 'a':
+			res = append(res, '\a')
+		case 'b':
+			res = append(res, '\b')
+		case 'f':
+			res = append(res, '\f')
+		case 'n':
+			res = append(res, '\n')
+		case 'r':
+			res = append(res, '\r')
+		case 't':
+			res = append(res, '\t')
+		case 'v':
+			res = append(res, '\v')
+		case '0', '1', '2', '3':
+			// three octal digits
+			if i+2 >= len(s) {
+				res = append(res, c)
+				continue
+			}
+			res = append(res, (c-'0')<<6|(s[i+1]-'0')<<3|(s[i+2]-'0'))
+			i += 2
+		default:
+			// quote or backslash
+			res = append(res, c)
+		}
+	}
+	return string(res)
+}
+
+// QuotedLen returns the length of the quoted path at the start of s, including both quotes. Returns 0 if s does not start with a quoted path.
+func QuotedLen(s string) int {
+	if len(s) == 0 || s[0] != '"' {
+		return 0
+	}
+	for i := 1; i < len(s); i++ {
+		switch s[i] {
+		case '\\':
+			i++
+		case '"':
+			return i + 1
+		}
+	}
+	return 0
+}
diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 08b95ff..4e99c2f 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -4,6 +4,8 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 // Diff is change made to one file.
@@ -122,11 +124,11 @@ func (p *parser) Parse() (res Diff) {
 	}
 
 	if p.preMeta[metaRenameFrom] != "" {
-		p.diff.PathPrev = p.preMeta[metaRenameFrom]
+		p.diff.PathPrev = gitexec.UnquotePath(p.preMeta[metaRenameFrom])
 		if p.preMeta[metaRenameTo] == "" {
 			panic("has rename from, but not rename to")
 		}
-		p.diff.Path = p.preMeta[metaRenameTo]
+		p.diff.Path = gitexec.UnquotePath(p.preMeta[metaRenameTo])
 	}
 
 	if p.preMeta[metaBinaryFiles] != "" {
diff --git a/ripsrc/history3/incblame/parse_utils.go b/ripsrc/history3/incblame/parse_utils.go
index 465e6da..8b5bba8 100644
--- a/ripsrc/history3/incblame/parse_utils.go
+++ b/ripsrc/history3/incblame/parse_utils.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 func startsWith(b []byte, prefix string) bool {
@@ -107,14 +109,31 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 		return "", "", fmt.Errorf("invalid format for diff decl, no space sep %s", diff)
 	}
 	remPrefix := func(data []byte, pr string) (string, error) {
-		d2 := data
-		if len(d2) >= 2 && d2[0] == '"' && d2[len(d2)-1] == '"' {
-			d2 = d2[1 : len(d2)-1]
-		}
-		if len(d2) <= len(pr) || string(d2[0:len(pr)]) != pr {
+		d2 := gitexec.UnquotePath(string(data))
+		if len(d2) <= len(pr) || d2[0:len(pr)] != pr {
 			return "", fmt.Errorf("invalid format for diff decl %s, removing prefix %s", diff, data)
 		}
-		return string(d2[len(pr):]), nil
+		return d2[len(pr):], nil
+	}
+	// git quotes names that contain special characters, names that need no quotes do not contain them
+	if quoted := bytes.IndexByte(data, '"'); quoted != -1 {
+		sep := quoted - 1
+		if quoted == 0 {
+			sep = gitexec.QuotedLen(string(data))
+		}
+		if sep <= 0 || sep >= len(data) || data[sep] != ' ' {
+			return "", "", fmt.Errorf("invalid format for diff decl %s", diff)
+		}
+		var err error
+		fromPath, err = remPrefix(data[0:sep], "a/")
+		if err != nil {
+			return "", "", err
+		}
+		toPath, err = remPrefix(data[sep+1:], "b/")
+		if err != nil {
+			return "", "", err
+		}
+		return
 	}
 	// simple case with no spaces in name
 	if spaceCount == 1 {
-- 
2.43.0


From a5f2d8c1fb2bff6dd0d21c856d34dda59b55c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 02/30] fix: use names from copy lines in patches

---
 ripsrc/history3/incblame/parse.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 4e99c2f..78a6b4b 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -83,6 +83,8 @@ type parser struct {
 
 const metaRenameFrom = "rename from"
 const metaRenameTo = "rename to"
+const metaCopyFrom = "copy from"
+const metaCopyTo = "copy to"
 const metaNewFile = "new file"
 const metaDeletedFile = "deleted file"
 const metaBinaryFiles = "Binary files"
@@ -90,7 +92,7 @@ const metaBinaryFiles = "Binary files"
 func newParser(content []byte) *parser {
 	p := &parser{}
 	p.content = content
-	p.wantedMeta = []string{metaRenameFrom, metaRenameTo, metaNewFile, metaDeletedFile, metaBinaryFiles}
+	p.wantedMeta = []string{metaRenameFrom, metaRenameTo, metaCopyFrom, metaCopyTo, metaNewFile, metaDeletedFile, metaBinaryFiles}
 	return p
 }
 
@@ -131,6 +133,14 @@ func (p *parser) Parse() (res Diff) {
 		p.diff.Path = gitexec.UnquotePath(p.preMeta[metaRenameTo])
 	}
 
+	if p.preMeta[metaCopyFrom] != "" {
+		p.diff.PathPrev = gitexec.UnquotePath(p.preMeta[metaCopyFrom])
+		if p.preMeta[metaCopyTo] == "" {
+			panic("has copy from, but not copy to")
+		}
+		p.diff.Path = gitexec.UnquotePath(p.preMeta[metaCopyTo])
+	}
+
 	if p.preMeta[metaBinaryFiles] != "" {
 		p.diff.IsBinary = true
 	}
-- 
2.43.0


From 60241e9c96dbbd4533d3a50d6a55c7ddfcac97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 03/30] fix: type change in a merge is not a removal

---
 ripsrc/history3/process/process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..abcd853 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -557,6 +557,10 @@ EACHFILE:
 		if isDelete {
 			// only showing deletes and files changed in merge comparent to at least one parent
 			pathPrev := k[len(deletedPrefix):]
+			if files[pathPrev] {
+				// type change (for example file to symlink) is a removal followed by creation of the same path
+				continue
+			}
 			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
 			continue
 		}
-- 
2.43.0


From 18b3421e9e4772341bdd794dd76d81654a201c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 04/30] fix: mode change of a binary file keeps it binary

---
 ripsrc/history3/process/process.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index abcd853..2d1ce55 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -440,6 +440,12 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 		if parentBlame == nil {
 			blame = incblame.Apply(incblame.Blame{}, diff, commit.Hash, diff.PathOrPrev())
 		} else {
+			if parentBlame.IsBinary && len(diff.Hunks) == 0 {
+				// mode change only, content is the same
+				s.repo[commit.Hash][diff.Path] = parentBlame
+				res.Files[diff.Path] = parentBlame
+				continue
+			}
 			if parentBlame.IsBinary {
 				bl, err := s.slowGitBlame(commit.Hash, diff.Path)
 				if err != nil {
-- 
2.43.0


From b6d111651edbf79060b4baca0001ce3cc48e5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 05/30] fix: branch names that are ambiguous or belong to
 origin/HEAD

---
 ripsrc/branchmeta/branchmeta.go | 31 +++++++++++--------------------
 ripsrc/branchmeta/default.go    |  9 +++------
 2 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..38fdcfb 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -35,13 +35,14 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
+		// using full ref names, short ones depend on other refs in the repo, name is last because it could contain the separator
+		"%(objectname)@@@%(committerdate)@@@%(refname)",
 	}
+	refPrefix := "refs/heads/"
 	if opts.UseOrigin {
-		args = append(args, "refs/remotes/origin")
-	} else {
-		args = append(args, "refs/heads")
+		refPrefix = "refs/remotes/origin/"
 	}
+	args = append(args, refPrefix)
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return nil, err
@@ -49,33 +50,24 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	lines := bytes.Split(data, []byte("\n"))
 	for _, line := range lines {
 		line := string(line)
-		line = strings.TrimSpace(line)
 		if len(line) == 0 {
 			continue
 		}
-		if line[0] == '(' {
-			// not a branch, but a entry for detached head
-			// (HEAD detached at faeab7d)
-			continue
-		}
 		parts := strings.SplitN(line, "@@@", 3)
 		if len(parts) != 3 {
 			panic("unexpected format")
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
-		date, err := gittime.Parse(parts[2])
+		if !strings.HasPrefix(parts[2], refPrefix) {
+			panic("ref name does not have expected prefix")
+		}
+		b.Name = strings.TrimPrefix(parts[2], refPrefix)
+		date, err := gittime.Parse(parts[1])
 		if err != nil {
 			panic("invalid date format")
 		}
 		b.CommitCommitterTime = date
-		if opts.UseOrigin {
-			if !strings.HasPrefix(b.Name, "origin/") {
-				panic("branch name does not have origin/ prefix")
-			}
-			b.Name = strings.TrimPrefix(b.Name, "origin/")
-		}
 		if b.Name == "HEAD" {
 			continue
 		}
@@ -95,14 +87,13 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 func getDefaultBranch(opts Opts) (string, error) {
 	args := []string{
 		"symbolic-ref",
-		"--short",
 		"HEAD",
 	}
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := strings.TrimPrefix(strings.TrimSuffix(string(data), "\n"), "refs/heads/")
 	if len(res) == 0 {
 		return "", errors.New("could not get the default branch name")
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..357e959 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -27,15 +27,12 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+	data, err := execCommand(gitCommand, repoDir, []string{"symbolic-ref", "HEAD"})
 	if err != nil {
-		return "", err
-	}
-	res := strings.TrimSpace(string(data))
-	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return res, nil
+	// using full ref name, short one depends on other refs in the repo
+	return strings.TrimPrefix(strings.TrimSuffix(string(data), "\n"), "refs/heads/"), nil
 }
 
 func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-- 
2.43.0


From c2370c56d07ca4becfb32557652ca39230f44e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 06/30] fix: behind count does not include commits reachable
 from the branch

---
 ripsrc/branches2/behind_branch.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..7f45341 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,34 +2,14 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
-	res := map[string]bool{}
-	done := map[string]bool{}
-	var rec func(string)
-	rec = func(hash string) {
-		if done[hash] {
-			return
-		}
-		done[hash] = true
-		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
-		for _, p := range gr.Parents[hash] {
-			rec(p)
-		}
-	}
-	rec(branchHead)
-	return res
-}
-
 func behindBranch(
 	gr *parentsgraph.Graph,
 	reachableFromDefault reachableFromHead,
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	// all commits of the branch, could not stop on default branch commits here, since walk below could get to their ancestors using another path
+	rfb := newReachableFromHead(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From 3e2b3b333c2084410544d2e124a7a09b2719ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 07/30] fix: single first commit for default branch with
 multiple roots

---
 ripsrc/branches2/process.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 3897fcf..d8be99d 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"runtime"
 	"strings"
 	"sync"
@@ -103,11 +104,16 @@ func New(opts Opts) *Process {
 }
 
 func (s *Process) getFirstCommit() (string, error) {
-	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", "HEAD"})
+	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", "HEAD", "--"})
 	if err != nil {
 		return "", err
 	}
-	return strings.TrimSpace(string(buf)), nil
+	// repo could have more than one root, newest is first in output
+	roots := strings.Fields(string(buf))
+	if len(roots) == 0 {
+		return "", errors.New("could not get the first commit")
+	}
+	return roots[len(roots)-1], nil
 }
 
 func (s *Process) Run(ctx context.Context, res chan Branch) error {
-- 
2.43.0


From ab396140903a0f9118733ad34879a886f6d67e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 08/30] fix: exit with non-zero status on a single error

---
 ripsrc/cmd/cmdutils/errors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/cmd/cmdutils/errors.go b/ripsrc/cmd/cmdutils/errors.go
index cebec84..03116e4 100644
--- a/ripsrc/cmd/cmdutils/errors.go
+++ b/ripsrc/cmd/cmdutils/errors.go
@@ -9,6 +9,7 @@ import (
 
 func ExitWithErr(err error) {
 	fmt.Fprintln(color.Output, color.RedString("failed with error: %v\n", err.Error()))
+	os.Exit(1)
 }
 
 func ExitWithErrs(errs []error) {
-- 
2.43.0


From a7351bff3f11a228be448554925b742aee7d54fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 09/30] fix: do not look for repos inside of a bare repo

---
 ripsrc/pkg/gitrepos/gitrepos.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/pkg/gitrepos/gitrepos.go b/ripsrc/pkg/gitrepos/gitrepos.go
index ce2e7db..3600147 100644
--- a/ripsrc/pkg/gitrepos/gitrepos.go
+++ b/ripsrc/pkg/gitrepos/gitrepos.go
@@ -45,6 +45,7 @@ func IterDir(dir string, maxRecursion int, cb func(repo string) error) error {
 			if err != nil {
 				return err
 			}
+			return nil
 		}
 	}
 
-- 
2.43.0


From e8faabe1d870753ceda32500f9ef4d238c4f75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 10/30] fix: stop file jobs goroutine when commit listing ends

---
 ripsrc/commitmeta/commitmeta.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index cd385b5..2b2987b 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -147,6 +147,7 @@ func (s *Processor) Run(res chan Commit) error {
 
 	// we don't need this in new code. TODO: check and remove
 	fjChan := make(chan *CommitFile, 100)
+	defer close(fjChan)
 	go func() {
 		for range fjChan {
 
-- 
2.43.0


From 71f91fe02e7950070e08718842696c864785758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 11/30] fix: long lines and read errors in commit listing

---
 ripsrc/commitmeta/commitmeta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 2b2987b..d7fd482 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -132,6 +132,9 @@ func (s *Processor) RunMap() (map[string]Commit, error) {
 	return res, err
 }
 
+const mb = 1000 * 1000
+const maxLine = 100 * mb
+
 func (s *Processor) Run(res chan Commit) error {
 	defer close(res)
 	r, err := s.gitLog()
@@ -156,6 +159,7 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.filejobs = fjChan
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		ok, err := parser.parse(scanner.Text())
 		if err != nil {
@@ -165,6 +169,9 @@ func (s *Processor) Run(res chan Commit) error {
 			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading commits from %v. %v", s.repoDir, err)
+	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
 		res <- *parser.commit
 	}
-- 
2.43.0


From 61933cc6110048f20def41db0ad2749f9f9eeb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 12/30] fix: do not leave temporary files behind

---
 ripsrc/commitmeta/commitmeta.go    | 14 ++------------
 ripsrc/history3/process/process.go | 13 +------------
 2 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index d7fd482..da8336b 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -6,7 +6,7 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"io/ioutil"
+	"os"
 	"os/exec"
 	"path"
 	"regexp"
@@ -180,18 +180,8 @@ func (s *Processor) Run(res chan Commit) error {
 }
 
 func (s *Processor) gitLog() (io.ReadCloser, error) {
-	// empty file at tem location to set an empty attributesFile
-	f, err := ioutil.TempFile("", "ripsrc")
-	if err != nil {
-		return nil, err
-	}
-	err = f.Close()
-	if err != nil {
-		return nil, err
-	}
-
 	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
+		"-c", "core.attributesFile=" + os.DevNull, // ignore attributes set by user
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"-c",
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 2d1ce55..a58451c 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -804,18 +803,8 @@ func (s *Process) RunGetAll() (_ []Result, err error) {
 }
 
 func (s *Process) gitLogPatches() (io.ReadCloser, error) {
-	// empty file at temp location to set an empty attributesFile
-	f, err := ioutil.TempFile("", "ripsrc")
-	if err != nil {
-		return nil, err
-	}
-	err = f.Close()
-	if err != nil {
-		return nil, err
-	}
-
 	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
+		"-c", "core.attributesFile=" + os.DevNull, // ignore attributes set by user
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"-p",
-- 
2.43.0


From 1daa5037ca8fee64a920d4b907b3ce22e71ee6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 13/30] fix: start incremental processing from a root commit

---
 ripsrc/commitmeta/commitmeta.go    | 10 ++++------
 ripsrc/gitexec/range.go            | 32 ++++++++++++++++++++++++++++++
 ripsrc/history3/process/process.go | 10 ++++------
 3 files changed, 40 insertions(+), 12 deletions(-)
 create mode 100644 ripsrc/gitexec/range.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index da8336b..8636492 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -197,13 +197,11 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 				args = append(args, c)
 			}
 		}
-		pf := ""
-		if s.opts.CommitFromMakeNonIncl {
-			pf = "..HEAD"
-		} else {
-			pf = "^..HEAD"
+		commits, err := gitexec.RangeFrom(context.Background(), s.gitCommand, s.repoDir, s.opts.CommitFromIncl, !s.opts.CommitFromMakeNonIncl)
+		if err != nil {
+			return nil, err
 		}
-		args = append(args, s.opts.CommitFromIncl+pf)
+		args = append(args, commits)
 	} else {
 		if s.opts.AllBranches {
 			args = append(args, "--all")
diff --git a/ripsrc/gitexec/range.go b/ripsrc/gitexec/range.go
new file mode 100644
index 0000000..93b1eb8
--- /dev/null
+++ b/ripsrc/gitexec/range.go
@@ -0,0 +1,32 @@
+package gitexec
+
+import (
+	"context"
+	"fmt"
+	"io/ioutil"
+	"strings"
+)
+
+// RangeFrom returns the log argument for selecting commits from the provided one to HEAD.
+// Includes the commit itself when incl is true.
+func RangeFrom(ctx context.Context, gitCommand string, repoDir string, commit string, incl bool) (string, error) {
+	if !incl {
+		return commit + "..HEAD", nil
+	}
+	r, err := Exec(ctx, gitCommand, repoDir, []string{"rev-list", "--parents", "--max-count=1", commit, "--"})
+	if err != nil {
+		return "", err
+	}
+	b, err := ioutil.ReadAll(r)
+	if err != nil {
+		return "", err
+	}
+	switch len(strings.Fields(string(b))) {
+	case 0:
+		return "", fmt.Errorf("could not get parents of commit %v", commit)
+	case 1:
+		// root commit, there is nothing to exclude
+		return "HEAD", nil
+	}
+	return commit + "^..HEAD", nil
+}
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index a58451c..c1eb5b9 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -821,13 +821,11 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 				args = append(args, c)
 			}
 		}
-		pf := ""
-		if s.opts.CommitFromMakeNonIncl {
-			pf = "..HEAD"
-		} else {
-			pf = "^..HEAD"
+		commits, err := gitexec.RangeFrom(context.Background(), s.gitCommand, s.opts.RepoDir, s.opts.CommitFromIncl, !s.opts.CommitFromMakeNonIncl)
+		if err != nil {
+			return nil, err
 		}
-		args = append(args, s.opts.CommitFromIncl+pf)
+		args = append(args, commits)
 	} else {
 		if s.opts.AllBranches {
 			args = append(args, "--all")
-- 
2.43.0


From 1aa6e9d07468a9ef19514bc7b6d392556847d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 14/30] fix: keep commits without files in checkpoint

---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go |  6 ++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..72ffa5f 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -143,13 +143,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo[obj.Commit] = map[string]*incblame.Blame{}
+			}
+			if obj.Path == "" && obj.BlamePointer == 0 {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				panic("blame")
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..86cc286 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -84,6 +84,12 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	for ch, commit := range repo {
 
+		if len(commit) == 0 {
+			// commit without files, no path and no blame
+			writeRepoRow(ch, "", 0)
+			continue
+		}
+
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
 				writeRepoRow(ch, fp, blp)
-- 
2.43.0


From 79c88f8afdb0af21146f8f16b200fbe804961997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 15/30] fix: lines with the same hash are not mixed up in
 checkpoint

---
 ripsrc/history3/process/repo/writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 86cc286..0570bf8 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -1,6 +1,7 @@
 package repo
 
 import (
+	"bytes"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -69,7 +70,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	linePointerC := uint64(0)
 	linePointers := map[*incblame.Line]uint64{}
 
-	lineData := map[uint64]bool{}
+	lineData := map[uint64][]byte{}
 
 	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
 		r := &disk.DataRow{}
@@ -116,7 +117,13 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 				// line data
 				dp := xxhash.Sum64(l.Line)
-				if ok := lineData[dp]; !ok {
+				saved, ok := lineData[dp]
+				for ok && !bytes.Equal(saved, l.Line) {
+					// pointer is used by different data with the same hash
+					dp++
+					saved, ok = lineData[dp]
+				}
+				if !ok {
 					ld := &sLineData{
 						Pointer: dp,
 						Data:    l.Line}
@@ -124,7 +131,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 					if err != nil {
 						return err
 					}
-					lineData[dp] = true
+					lineData[dp] = l.Line
 				}
 
 				l2 := &sLine{}
-- 
2.43.0


From 60313660380762eda9c0bfd575fa478d912555f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 16/30] fix: return errors of git commands instead of crashing

---
 ripsrc/gitexec/gitexec.go          | 10 ++--------
 ripsrc/history3/process/process.go | 14 +++++++-------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..58fb4ca 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -125,14 +125,8 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
-		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
-		if err != nil {
-			panic(err)
-		}
-		err = wr.Close()
-		if err != nil {
-			panic(err)
-		}
+		// reader gets the error after all output that was written, or EOF if command was successful
+		wr.CloseWithError(ExecIntoWriter(ctx, wr, gitCommand, repoDir, args))
 	}()
 	return r, nil
 }
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index c1eb5b9..bbeadad 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -158,15 +158,13 @@ func (s *Process) Run(resChan chan Result) error {
 	p := parser.New(r)
 
 	done := make(chan bool)
+	var parserErr error
 
 	go func() {
 		defer func() {
 			done <- true
 		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		parserErr = p.Run(commits)
 	}()
 
 	drainAndExit := func() {
@@ -193,6 +191,11 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	<-done
+	if parserErr != nil {
+		return fmt.Errorf("could not read commits: %v", parserErr)
+	}
+
 	if len(s.mergeParts) > 0 {
 		s.processGotMergeParts(resChan)
 	}
@@ -200,20 +203,17 @@ func (s *Process) Run(resChan chan Result) error {
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
-- 
2.43.0


From 31e975e67859cb752f56d0519042c62ce5ae101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 17/30] fix: file names with arrows and braces in numstat
 output

---
 ripsrc/commitmeta/commitmeta.go | 74 +++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 4 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 8636492..4c80353 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -284,6 +284,65 @@ func getFilename(fn string) (string, string, bool) {
 	return gitexec.UnquotePath(fn), gitexec.UnquotePath(fn), false
 }
 
+// rawName is a name of the entry in raw output
+type rawName struct {
+	From string // only for renames and copies
+	Name string
+}
+
+// numstatFilename returns the name of the file that numstat entry is for.
+// Since " => " and braces could be a part of file name, checks names that were already seen in raw output first.
+func (p *parser) numstatFilename(entry string) string {
+	fn := gitexec.UnquotePath(entry)
+	for _, n := range p.rawNames {
+		if n.From == "" && n.Name == fn || n.From != "" && isRenameEntry(entry, n.From, n.Name) {
+			return n.Name
+		}
+	}
+	fn, _, _ = getFilename(entry)
+	return fn
+}
+
+const renameArrow = " => "
+
+// isRenameEntry returns true if numstat entry is for rename or copy between provided names.
+func isRenameEntry(entry, from, to string) bool {
+	for i := 0; i < len(entry); i++ {
+		if !strings.HasPrefix(entry[i:], renameArrow) {
+			continue
+		}
+		a, b := entry[:i], entry[i+len(renameArrow):]
+		if gitexec.UnquotePath(a) == from && gitexec.UnquotePath(b) == to {
+			return true
+		}
+		// prefix/{old => new}/suffix
+		for start := 0; start < len(a); start++ {
+			if a[start] != '{' || start != 0 && a[start-1] != '/' {
+				continue
+			}
+			prefix := a[:start]
+			for end := 0; end < len(b); end++ {
+				if b[end] != '}' || end != len(b)-1 && b[end+1] != '/' {
+					continue
+				}
+				suffix := b[end+1:]
+				if joinParts(prefix, a[start+1:], suffix) == from && joinParts(prefix, b[:end], suffix) == to {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
+// joinParts joins parts of the rename entry. Prefix ends with / and suffix starts with it, so there are two of those when the middle part is empty.
+func joinParts(prefix, mid, suffix string) string {
+	if mid == "" && prefix != "" && suffix != "" {
+		return prefix + suffix[1:]
+	}
+	return prefix + mid + suffix
+}
+
 var (
 	tabSplitter        = regexp.MustCompile("\\t")
 	spaceSplitter      = regexp.MustCompile("[ ]")
@@ -323,6 +382,7 @@ type parser struct {
 	total    int
 	ordinal  int64
 	state    parserState
+	rawNames []rawName // for current commit
 }
 
 func (p *parser) parse(line string) (bool, error) {
@@ -364,6 +424,7 @@ func (p *parser) parse(line string) (bool, error) {
 					//Parent:   parent,
 					//Previous: parentCommit,
 				}
+				p.rawNames = nil
 				p.total++
 				return true, nil
 			}
@@ -408,14 +469,19 @@ func (p *parser) parse(line string) (bool, error) {
 				// :100644␠100644␠d1a02ae0...␠a452aaac...␠M␉·pandora/pom.xml
 				tok1 := bytes.Split(buf, space)
 				mask := tok1[1]
+				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
+				action := tok2[0]
+				paths := tok2[1:]
+				name := rawName{Name: gitexec.UnquotePath(string(paths[len(paths)-1]))}
+				if len(paths) > 1 {
+					name.From = gitexec.UnquotePath(string(paths[0]))
+				}
+				p.rawNames = append(p.rawNames, name)
 				// fmt.Println(p.commit.SHA, line, string(mask))
 				// if the mask isn't a regular file or deleted file, skip it
 				if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
 					return true, nil
 				}
-				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
-				action := tok2[0]
-				paths := tok2[1:]
 				if len(action) == 1 {
 					fn := gitexec.UnquotePath(string(paths[0]))
 					cf := &CommitFile{
@@ -475,7 +541,7 @@ func (p *parser) parse(line string) (bool, error) {
 			// handle the file stats output
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
-				fn, _, _ := getFilename(tok[2])
+				fn := p.numstatFilename(tok[2])
 				file := p.commit.Files[fn]
 				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
 				if file == nil {
-- 
2.43.0


From 58577fa8ac9a4b59d0b0cc9e2fb3179376e539be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 18/30] fix: author details of lines from commits before
 incremental range

---
 ripsrc/commit_info.go           | 13 +++++++++++++
 ripsrc/commitmeta/commitmeta.go | 12 +++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/ripsrc/commit_info.go b/ripsrc/commit_info.go
index 6ab5bac..a46165f 100644
--- a/ripsrc/commit_info.go
+++ b/ripsrc/commit_info.go
@@ -17,6 +17,19 @@ func (s *Ripsrc) getCommitInfo(ctx context.Context, wantedBranchRefs []string) e
 	if err != nil {
 		return err
 	}
+	if s.opts.CommitFromIncl != "" {
+		// lines could be from commits that are not a part of this incremental run
+		cm := commitmeta.New(s.opts.RepoDir, commitmeta.Opts{NoFiles: true})
+		all, err := cm.RunMap()
+		if err != nil {
+			return err
+		}
+		for sha, c := range all {
+			if _, ok := res[sha]; !ok {
+				res[sha] = c
+			}
+		}
+	}
 	s.commitMeta = res
 	return nil
 }
diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 4c80353..f25cc8f 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -29,6 +29,9 @@ type Opts struct {
 
 	// AllBranches set to true to process all branches. If false, processes commits reachable from HEAD only.
 	AllBranches bool
+
+	// NoFiles set to true to skip retrieving changed files, which makes it much faster.
+	NoFiles bool
 }
 
 type Processor struct {
@@ -184,13 +187,16 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"-c", "core.attributesFile=" + os.DevNull, // ignore attributes set by user
 		"-c", "diff.renameLimit=10000",
 		"log",
-		"-c",
-		"--raw",
 		"--reverse",
-		"--numstat",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
 	}
 
+	if s.opts.NoFiles {
+		args = append(args, "--no-patch")
+	} else {
+		args = append(args, "-c", "--raw", "--numstat")
+	}
+
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
 			for _, c := range s.opts.WantedBranchRefs {
-- 
2.43.0


From 8fede81fa790c885cb06fd358c499730c6d6be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 19/30] fix: position of hunks that have one or no lines of the
 old version

---
 ripsrc/history3/incblame/apply.go |  7 ++-----
 ripsrc/history3/incblame/parse.go | 13 +++++++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ripsrc/history3/incblame/apply.go b/ripsrc/history3/incblame/apply.go
index 99a99c4..2f9dc1e 100644
--- a/ripsrc/history3/incblame/apply.go
+++ b/ripsrc/history3/incblame/apply.go
@@ -109,7 +109,7 @@ func Apply(file Blame, diff Diff, commit string, fileForDebug string) Blame {
 	sort.Slice(diff.Hunks, func(i, j int) bool {
 		a := diff.Hunks[i]
 		b := diff.Hunks[j]
-		return a.Locations[0].Offset < b.Locations[0].Offset
+		return a.Locations[0].firstIndex() < b.Locations[0].firstIndex()
 	})
 
 	oldFileIndex := 0
@@ -122,10 +122,7 @@ func Apply(file Blame, diff Diff, commit string, fileForDebug string) Blame {
 		scanner := bufio.NewScanner(bytes.NewReader(h.Data))
 		scanner.Buffer(nil, maxLine)
 
-		j := h.Locations[0].Offset - 1
-		if j == -1 {
-			j = 0
-		}
+		j := h.Locations[0].firstIndex()
 
 		copyRange(oldFileIndex, j)
 		oldFileIndex = j
diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 78a6b4b..dbb156a 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -40,6 +40,19 @@ type HunkLocation struct {
 	Lines  int
 }
 
+// firstIndex returns index of the first line of the hunk in a file.
+func (l HunkLocation) firstIndex() int {
+	if l.Lines == 0 {
+		// no lines in the hunk, offset is the line before it
+		return l.Offset
+	}
+	if l.Offset == 0 {
+		// hunks having exactly one line only have a line number, it is in Lines
+		return l.Lines - 1
+	}
+	return l.Offset - 1
+}
+
 // OpType is type of change performed by hunk.
 type OpType rune
 
-- 
2.43.0


From 281caa8f69366504da13111d5434d4b55410e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 20/30] fix: time of branch commits in time zone -0001

---
 ripsrc/branchmeta/branchmeta.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index 38fdcfb..d108dd5 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -9,8 +9,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/pinpt/ripsrc/ripsrc/gittime"
-
 	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
 )
 
@@ -36,7 +34,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		"for-each-ref",
 		"--format",
 		// using full ref names, short ones depend on other refs in the repo, name is last because it could contain the separator
-		"%(objectname)@@@%(committerdate)@@@%(refname)",
+		"%(objectname)@@@%(committerdate:iso8601-strict)@@@%(refname)",
 	}
 	refPrefix := "refs/heads/"
 	if opts.UseOrigin {
@@ -63,7 +61,8 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 			panic("ref name does not have expected prefix")
 		}
 		b.Name = strings.TrimPrefix(parts[2], refPrefix)
-		date, err := gittime.Parse(parts[1])
+		// default format does not have a time zone for some dates
+		date, err := time.Parse(time.RFC3339, parts[1])
 		if err != nil {
 			panic("invalid date format")
 		}
-- 
2.43.0


From b4ac84978d77de3160d93852ffad4f54c4fb3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 21/30] fix: same license every time when several match equally
 well

---
 ripsrc/fileinfo/license_enabled.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/fileinfo/license_enabled.go b/ripsrc/fileinfo/license_enabled.go
index a985559..a88bf59 100644
--- a/ripsrc/fileinfo/license_enabled.go
+++ b/ripsrc/fileinfo/license_enabled.go
@@ -56,7 +56,11 @@ func detect(filename string, buf []byte) (*License, error) {
 		}
 		if len(matches) > 0 {
 			sort.Slice(matches, func(i, j int) bool {
-				return matches[i].Confidence > matches[j].Confidence
+				if matches[i].Confidence != matches[j].Confidence {
+					return matches[i].Confidence > matches[j].Confidence
+				}
+				// have the same result every time when there is more than one best match
+				return matches[i].Name < matches[j].Name
 			})
 			if matches[0].Confidence >= minConfidenceLevel {
 				return &matches[0], nil
-- 
2.43.0


From c255fc259fd5fd21a913a8c4cdb53e931386e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 22/30] fix: close checkpoint files when reading or writing
 fails

---
 ripsrc/history3/process/repo/msgp.go   | 11 +++++++++++
 ripsrc/history3/process/repo/reader.go |  4 ++++
 ripsrc/history3/process/repo/writer.go |  4 ++++
 3 files changed, 19 insertions(+)

diff --git a/ripsrc/history3/process/repo/msgp.go b/ripsrc/history3/process/repo/msgp.go
index f34b944..f9fdb6b 100644
--- a/ripsrc/history3/process/repo/msgp.go
+++ b/ripsrc/history3/process/repo/msgp.go
@@ -36,6 +36,11 @@ func (s *msgWriter) Write(obj msgp.Encodable) error {
 	return obj.EncodeMsg(s.wr)
 }
 
+// Close releases the file when writing fails, it has no effect after Finish.
+func (s *msgWriter) Close() {
+	s.f.Close()
+}
+
 func (s *msgWriter) Finish() error {
 	err := s.wr.Flush()
 	if err != nil {
@@ -69,6 +74,7 @@ func newMsgReader(dir string, kind string) (*msgReader, error) {
 	s.f = f
 	s.gr, err = gzip.NewReader(f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	s.r = msgp.NewReader(s.gr)
@@ -79,6 +85,11 @@ func (s *msgReader) Read(obj msgp.Decodable) error {
 	return obj.DecodeMsg(s.r)
 }
 
+// Close releases the file when reading fails, it has no effect after Finish.
+func (s *msgReader) Close() {
+	s.f.Close()
+}
+
 func (s *msgReader) Finish() error {
 	err := s.f.Close()
 	if err != nil {
diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 72ffa5f..641efa9 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -58,18 +58,22 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 	if err != nil {
 		return nil, err
 	}
+	defer repoR.Close()
 	blamesR, err := newMsgReader(dir, "blames")
 	if err != nil {
 		return nil, err
 	}
+	defer blamesR.Close()
 	linesR, err := newMsgReader(dir, "lines")
 	if err != nil {
 		return nil, err
 	}
+	defer linesR.Close()
 	lineDataR, err := newMsgReader(dir, "line-data")
 	if err != nil {
 		return nil, err
 	}
+	defer lineDataR.Close()
 	lineData := map[uint64][]byte{}
 	{
 		for {
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 0570bf8..ca3d87f 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -51,18 +51,22 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	if err != nil {
 		return err
 	}
+	defer repoWr.Close()
 	blamesWr, err := newMsgWriter(tmpDir, "blames")
 	if err != nil {
 		return err
 	}
+	defer blamesWr.Close()
 	linesWr, err := newMsgWriter(tmpDir, "lines")
 	if err != nil {
 		return err
 	}
+	defer linesWr.Close()
 	lineDataWr, err := newMsgWriter(tmpDir, "line-data")
 	if err != nil {
 		return err
 	}
+	defer lineDataWr.Close()
 
 	blamePointerC := uint64(0)
 	blamePointers := map[*incblame.Blame]uint64{}
-- 
2.43.0


From 0dffeecc2488e7b4a6fd9fdfb3b935e6654e4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 23/30] fix: results do not depend on the git configuration of
 the user

---
 ripsrc/commitmeta/commitmeta.go    |  4 +--
 ripsrc/gitblame2/gitblame.go       |  7 +++-
 ripsrc/gitexec/config.go           | 52 ++++++++++++++++++++++++++++++
 ripsrc/gitexec/gitexec.go          |  3 +-
 ripsrc/history3/process/process.go |  3 +-
 5 files changed, 63 insertions(+), 6 deletions(-)
 create mode 100644 ripsrc/gitexec/config.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index f25cc8f..387d3f9 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -6,7 +6,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"os"
 	"os/exec"
 	"path"
 	"regexp"
@@ -184,7 +183,6 @@ func (s *Processor) Run(res chan Commit) error {
 
 func (s *Processor) gitLog() (io.ReadCloser, error) {
 	args := []string{
-		"-c", "core.attributesFile=" + os.DevNull, // ignore attributes set by user
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"--reverse",
@@ -194,7 +192,7 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 	if s.opts.NoFiles {
 		args = append(args, "--no-patch")
 	} else {
-		args = append(args, "-c", "--raw", "--numstat")
+		args = append(args, "-c", "--raw", "--numstat", "--no-textconv", "--diff-algorithm=default")
 	}
 
 	if s.opts.CommitFromIncl != "" {
diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 34d8da9..e9a9a77 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -5,6 +5,8 @@ import (
 	"os/exec"
 	"strconv"
 	"strings"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 type Line struct {
@@ -33,11 +35,14 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 		"blame",
 		commitHash,
 		"--porcelain",
+		"--no-textconv",
+		"--ignore-revs-file=", // clears the list from configuration
 		"--",
 		file,
 	}
-	cmd := exec.Command("git", args...)
+	cmd := exec.Command("git", gitexec.ConfigArgs(args)...)
 	cmd.Dir = repoDir
+	cmd.Env = gitexec.Env()
 	cmd.Stderr = os.Stderr
 	b, err := cmd.Output()
 	if err != nil {
diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
new file mode 100644
index 0000000..e1b907c
--- /dev/null
+++ b/ripsrc/gitexec/config.go
@@ -0,0 +1,52 @@
+package gitexec
+
+import (
+	"os"
+	"strings"
+)
+
+// configArgs are git options that have to go before the subcommand. They keep the output of git commands the same
+// no matter what is in the configuration of the user.
+var configArgs = []string{
+	"-c", "core.attributesFile=" + os.DevNull, // ignore attributes set by user
+	"-c", "core.bigFileThreshold=512m",
+	"-c", "color.ui=false",
+	"-c", "color.diff=false",
+	"-c", "diff.algorithm=default",
+	"-c", "diff.context=3",
+	"-c", "diff.dstPrefix=b/",
+	"-c", "diff.ignoreSubmodules=none",
+	"-c", "diff.indentHeuristic=true",
+	"-c", "diff.interHunkContext=0",
+	"-c", "diff.mnemonicPrefix=false",
+	"-c", "diff.noprefix=false",
+	"-c", "diff.orderFile=" + os.DevNull,
+	"-c", "diff.relative=false",
+	"-c", "diff.renames=true",
+	"-c", "diff.srcPrefix=a/",
+	"-c", "diff.submodule=short",
+	"-c", "diff.suppressBlankEmpty=false",
+	"-c", "log.decorate=no",
+	"-c", "log.diffMerges=separate",
+	"-c", "log.follow=false",
+	"-c", "log.showRoot=true",
+	"-c", "log.showSignature=false",
+	"-c", "i18n.logOutputEncoding=UTF-8",
+}
+
+// ConfigArgs adds options that override the configuration of the user to the arguments of git command.
+func ConfigArgs(args []string) (res []string) {
+	res = append(res, configArgs...)
+	return append(res, args...)
+}
+
+// Env returns the environment for git commands, without the options that change the output and can't be overridden by arguments.
+func Env() (res []string) {
+	for _, kv := range os.Environ() {
+		if strings.HasPrefix(kv, "GIT_DIFF_OPTS=") {
+			continue
+		}
+		res = append(res, kv)
+	}
+	return
+}
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 58fb4ca..16f5fb4 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -141,8 +141,9 @@ func Exec(ctx context.Context, gitCommand string, repoDir string, args []string)
 }
 
 func ExecIntoWriter(ctx context.Context, wr io.Writer, gitCommand string, repoDir string, args []string) error {
-	c := exec.CommandContext(ctx, gitCommand, args...)
+	c := exec.CommandContext(ctx, gitCommand, ConfigArgs(args)...)
 	c.Dir = repoDir
+	c.Env = Env()
 	c.Stderr = os.Stderr
 	c.Stdout = wr
 	if err := c.Run(); err != nil {
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index bbeadad..4f7cf06 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -804,11 +804,12 @@ func (s *Process) RunGetAll() (_ []Result, err error) {
 
 func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 	args := []string{
-		"-c", "core.attributesFile=" + os.DevNull, // ignore attributes set by user
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"-p",
 		"-m",
+		"--no-textconv",
+		"--diff-algorithm=default",
 		"--date-order",
 		"--reverse",
 		"--no-abbrev-commit",
-- 
2.43.0


From 99ef9f76273cfc51f4c0b9bac87beb504edaee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 24/30] fix: return errors of git blame instead of crashing

---
 ripsrc/gitblame2/gitblame.go       |  2 +-
 ripsrc/history3/process/process.go | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index e9a9a77..87b8daa 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -46,7 +46,7 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	cmd.Stderr = os.Stderr
 	b, err := cmd.Output()
 	if err != nil {
-		panic(err)
+		return res, err
 	}
 	res0 := parseOutput(string(b))
 	for _, l0 := range res0 {
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 4f7cf06..f16fbf8 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -197,7 +197,10 @@ func (s *Process) Run(resChan chan Result) error {
 	}
 
 	if len(s.mergeParts) > 0 {
-		s.processGotMergeParts(resChan)
+		err = s.processGotMergeParts(resChan)
+		if err != nil {
+			return err
+		}
 	}
 
 	if i == 0 {
@@ -243,7 +246,10 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 			return nil
 		} else {
 			// finished
-			s.processGotMergeParts(resChan)
+			err := s.processGotMergeParts(resChan)
+			if err != nil {
+				return err
+			}
 			// new commit
 			// continue below
 		}
@@ -265,14 +271,15 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 	return nil
 }
 
-func (s *Process) processGotMergeParts(resChan chan Result) {
+func (s *Process) processGotMergeParts(resChan chan Result) error {
 	res, err := s.processMergeCommit(s.mergePartsCommit, s.mergeParts)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
 	s.mergeParts = nil
 	resChan <- res
+	return nil
 }
 
 type Timing struct {
-- 
2.43.0


From 7ba9ea4f71583a788882c68aeff4464a800fe282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:31 +0000
Subject: [PATCH 25/30] fix: do not parse incomplete lines of git commands that
 fail

---
 ripsrc/gitexec/gitexec.go | 40 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 16f5fb4..0c21e93 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -125,12 +125,48 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
-		// reader gets the error after all output that was written, or EOF if command was successful
-		wr.CloseWithError(ExecIntoWriter(ctx, wr, gitCommand, repoDir, args))
+		// reader gets the error after all complete lines that were written, or EOF if command was successful
+		lw := &lineWriter{wr: wr}
+		err := ExecIntoWriter(ctx, lw, gitCommand, repoDir, args)
+		if err == nil {
+			err = lw.Flush()
+		}
+		wr.CloseWithError(err)
 	}()
 	return r, nil
 }
 
+// lineWriter holds back the last line until it is complete. Output of a command that fails could end in the middle of a line.
+type lineWriter struct {
+	wr   io.Writer
+	last []byte
+}
+
+func (s *lineWriter) Write(p []byte) (int, error) {
+	i := bytes.LastIndexByte(p, '\n') + 1
+	if i > 0 {
+		err := s.Flush()
+		if err != nil {
+			return 0, err
+		}
+		_, err = s.wr.Write(p[:i])
+		if err != nil {
+			return 0, err
+		}
+	}
+	s.last = append(s.last, p[i:]...)
+	return len(p), nil
+}
+
+func (s *lineWriter) Flush() error {
+	if len(s.last) == 0 {
+		return nil
+	}
+	_, err := s.wr.Write(s.last)
+	s.last = s.last[:0]
+	return err
+}
+
 func Exec(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	buf := bytes.NewBuffer(nil)
 	err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, args)
-- 
2.43.0


From b1de938a80aa09beff7e9a97f83ceaf1f5bc9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 26/30] fix: return errors of checkpoint writes instead of
 crashing

---
 ripsrc/history3/process/repo/writer.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index ca3d87f..f2d6d5b 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -76,28 +76,31 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	lineData := map[uint64][]byte{}
 
-	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
+	writeRepoRow := func(commit string, filePath string, blamePointer uint64) error {
 		r := &disk.DataRow{}
 		r.Commit = commit
 		r.Path = filePath
 		r.BlamePointer = blamePointer
-		err := repoWr.Write(r)
-		if err != nil {
-			panic(err)
-		}
+		return repoWr.Write(r)
 	}
 
 	for ch, commit := range repo {
 
 		if len(commit) == 0 {
 			// commit without files, no path and no blame
-			writeRepoRow(ch, "", 0)
+			err := writeRepoRow(ch, "", 0)
+			if err != nil {
+				return err
+			}
 			continue
 		}
 
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
-				writeRepoRow(ch, fp, blp)
+				err := writeRepoRow(ch, fp, blp)
+				if err != nil {
+					return err
+				}
 				continue
 			}
 			blamePointerC++
@@ -156,7 +159,10 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 				return err
 			}
 
-			writeRepoRow(ch, fp, blp)
+			err = writeRepoRow(ch, fp, blp)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 3f41218d348862438814a459448450a52ceb3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 27/30] fix: return an error when a parent of a commit is not
 in checkpoint

---
 ripsrc/history3/process/process.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index f16fbf8..e726ea8 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -237,6 +237,16 @@ func (s *Process) trimGraphAfterCommitProcessed(commit string) {
 	}
 }
 
+// checkParents returns an error if a parent of the commit is not available. Checkpoint does not have all of them in long histories.
+func (s *Process) checkParents(commit string, parents []string) error {
+	for _, p := range parents {
+		if _, ok := s.repo[p]; !ok {
+			return fmt.Errorf("parent commit is not available, it may be too old to be in checkpoint. commit: %v parent: %v", commit, p)
+		}
+	}
+	return nil
+}
+
 func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error {
 	if len(s.mergeParts) > 0 {
 		// continuing with merge
@@ -354,6 +364,10 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	if len(commit.Parents) > 1 {
 		panic("not a regular commit")
 	}
+	rerr = s.checkParents(commit.Hash, commit.Parents)
+	if rerr != nil {
+		return
+	}
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commit.Hash)
 
@@ -504,12 +518,17 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 		s.timing.MergesCount++
 	}()
 
+	parentHashes := s.graph.Parents[commitHash]
+	rerr = s.checkParents(commitHash, parentHashes)
+	if rerr != nil {
+		return
+	}
+
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commitHash)
 
 	//fmt.Println("processing merge commit", commitHash)
 
-	parentHashes := s.graph.Parents[commitHash]
 	parentCount := len(parentHashes)
 
 	res.Commit = commitHash
-- 
2.43.0


From fc4aae79c2b3dca7316ec15af55c2ec9a36aef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:24 +0000
Subject: [PATCH 28/30] fix: dates with unusual time zones and years

---
 ripsrc/branchmeta/branchmeta.go |  6 ++++--
 ripsrc/commitmeta/commitmeta.go |  3 ++-
 ripsrc/gittime/gittime.go       | 31 ++++++++++++++++++++++++++++++-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index d108dd5..8d8eba2 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -4,11 +4,13 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"os/exec"
 	"sort"
 	"strings"
 	"time"
 
+	"github.com/pinpt/ripsrc/ripsrc/gittime"
 	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
 )
 
@@ -62,9 +64,9 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		}
 		b.Name = strings.TrimPrefix(parts[2], refPrefix)
 		// default format does not have a time zone for some dates
-		date, err := time.Parse(time.RFC3339, parts[1])
+		date, err := gittime.ParseISOStrict(parts[1])
 		if err != nil {
-			panic("invalid date format")
+			return nil, fmt.Errorf("invalid date format: %v", err)
 		}
 		b.CommitCommitterTime = date
 		if b.Name == "HEAD" {
diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 387d3f9..5817c98 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -14,6 +14,7 @@ import (
 	"time"
 
 	"github.com/pinpt/ripsrc/ripsrc/gitexec"
+	"github.com/pinpt/ripsrc/ripsrc/gittime"
 )
 
 type Opts struct {
@@ -248,7 +249,7 @@ func toCommitStatus(name []byte) CommitStatus {
 }
 
 func parseDate(d string) (time.Time, error) {
-	t, err := time.Parse(time.RFC3339, d)
+	t, err := gittime.ParseISOStrict(d)
 	if err != nil {
 		return time.Now(), fmt.Errorf("error parsing commit date `%v`. %v", d, err)
 	}
diff --git a/ripsrc/gittime/gittime.go b/ripsrc/gittime/gittime.go
index e8d4bee..92b0327 100644
--- a/ripsrc/gittime/gittime.go
+++ b/ripsrc/gittime/gittime.go
@@ -1,9 +1,38 @@
 package gittime
 
-import "time"
+import (
+	"regexp"
+	"strconv"
+	"time"
+)
 
 // Parse parses timestamp in default git format.
 func Parse(d string) (time.Time, error) {
 	//Tue Nov 27 21:55:36 2018 +0100
 	return time.Parse("Mon Jan 2 15:04:05 2006 -0700", d)
 }
+
+var isoStrictRe = regexp.MustCompile(`^(\d+)-(\d+)-(\d+)T(\d+):(\d+):(\d+)([+-])(\d+):(\d+)$`)
+
+// ParseISOStrict parses timestamp in iso8601-strict git format.
+// Commits could have time zones and years that are not valid in RFC3339, git uses those as is.
+func ParseISOStrict(d string) (time.Time, error) {
+	t, err := time.Parse(time.RFC3339, d)
+	if err == nil {
+		return t, nil
+	}
+	m := isoStrictRe.FindStringSubmatch(d)
+	if m == nil {
+		return t, err
+	}
+	num := func(i int) int {
+		// out of range is not possible for a timestamp git prints
+		n, _ := strconv.Atoi(m[i])
+		return n
+	}
+	offset := (num(8)*60 + num(9)) * 60
+	if m[7] == "-" {
+		offset = -offset
+	}
+	return time.Date(num(1), time.Month(num(2)), num(3), num(4), num(5), num(6), 0, time.FixedZone("", offset)), nil
+}
-- 
2.43.0


From 202f6ef1c70517a2c137a280ecd6ba399073d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:40 +0000
Subject: [PATCH 29/30] fix: files named like the marker of removed files in
 merges

---
 ripsrc/history3/process/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index e726ea8..d57f482 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -505,7 +505,8 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	return
 }
 
-const deletedPrefix = "@@@del@@@"
+// deletedPrefix contains a character that is not possible in paths.
+const deletedPrefix = "\x00del"
 
 func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
 	s.lastProcessedCommitHash = commitHash
-- 
2.43.0


From 24b17f0986c5bede78db2537772fadb1c964842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:30 +0000
Subject: [PATCH 30/30] fix: commits that list a parent more than once

---
 ripsrc/history3/process/process.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index d57f482..fe032e9 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -508,6 +508,18 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 // deletedPrefix contains a character that is not possible in paths.
 const deletedPrefix = "\x00del"
 
+// uniqueParents returns parents without repetitions. Git allows a commit to list the same parent more than once.
+func uniqueParents(parents []string) (res []string) {
+	seen := map[string]bool{}
+	for _, p := range parents {
+		if !seen[p] {
+			seen[p] = true
+			res = append(res, p)
+		}
+	}
+	return
+}
+
 func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
 	s.lastProcessedCommitHash = commitHash
 
@@ -519,7 +531,7 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 		s.timing.MergesCount++
 	}()
 
-	parentHashes := s.graph.Parents[commitHash]
+	parentHashes := uniqueParents(s.graph.Parents[commitHash])
 	rerr = s.checkParents(commitHash, parentHashes)
 	if rerr != nil {
 		return
-- 
2.43.0

