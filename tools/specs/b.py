P='ripsrc/history3/process/process.go'
A='ripsrc/history3/incblame/apply.go'
PU='ripsrc/history3/incblame/parse_utils.go'
W='ripsrc/history3/process/repo/writer.go'
R='ripsrc/history3/process/repo/reader.go'
CM='ripsrc/commitmeta/commitmeta.go'
B='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
BM='ripsrc/branchmeta/branchmeta.go'
G='ripsrc/parentsgraph/parents.go'
FI='ripsrc/fileinfo/fileinfo.go'
CI='ripsrc/code_info.go'
bugs=[
dict(id='b01-blame-of-previous-name', prop='C01',
 edits=[(P,'bl, err := s.slowGitBlame(commit.Hash, diff.Path)','bl, err := s.slowGitBlame(commit.Hash, diff.PathPrev)')],
 needs='a text file that a merge left marked as binary (one parent had a binary version) is renamed and edited in the same commit',
 breaks='git blame is asked for the previous name, which the commit does not have, so the run fails',
 demo='''
import "strings"
func main() {
	r := newRepo()
	text := strings.Repeat("some line of text\\n", 20)
	r.commit("a.txt", text)
	r.git("checkout", "-q", "-b", "bin")
	r.commit("a.txt", "\\x00\\x01")
	r.git("checkout", "-q", "master")
	r.commit("b.txt", "b\\n")
	r.mergeTree([]string{"bin"}, "a.txt", text)
	r.git("mv", "a.txt", "c.txt")
	c := r.commit("c.txt", text+"last\\n")
	res, err := history(r.opts())
	check(err)
	var got []string
	for _, l := range res[c].Files["c.txt"].Lines {
		got = append(got, string(l.Line))
	}
	equal("lines", strings.Join(got, "\\n")+"\\n", text+"last\\n")
}'''),
dict(id='b02-trailing-space-keeps-credit', prop='C02',
 edits=[(A,"""			case '-':
				oldFileIndex++
			case '+':
				addLine(copyBytes(data))
""","""			case '-':
				removed = file.Lines[oldFileIndex]
				oldFileIndex++
			case '+':
				if removed != nil && len(data) != len(removed.Line) && bytes.Equal(bytes.TrimRight(removed.Line, " \\t"), bytes.TrimRight(data, " \\t")) {
					// only trailing space is different
					res = append(res, &Line{Line: copyBytes(data), Commit: removed.Commit})
				} else {
					addLine(copyBytes(data))
				}
				removed = nil
"""),(A,"""		for scanner.Scan() {
			b := scanner.Bytes()
""","""		var removed *Line
		for scanner.Scan() {
			b := scanner.Bytes()
""")],
 needs='a commit that changes a single line only by its trailing space',
 breaks='the line keeps its credit, though the patch removes it and adds a new one',
 demo='''
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n2\\n")
	c := r.commit("a.txt", "1\\n2 \\n")
	res, err := history(r.opts())
	check(err)
	equal("credits", show(res, c, "a.txt"), a[:8]+":1\\n"+c[:8]+":2 ")
}'''),
dict(id='b03-only-branches-and-tags', prop='C03',
 edits=[(P,'			args = append(args, "--all")','			args = append(args, "--branches", "--tags", "--remotes")')],
 needs='all branches selected and a commit that only a ref outside of branches, tags and remotes reaches (pull request refs)',
 breaks='such commits are not processed',
 demo='''
import "fmt"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "pr")
	c := r.commit("a.txt", "2\\n")
	r.git("checkout", "-q", "master")
	r.git("update-ref", "refs/pull/1/head", c)
	r.git("branch", "-D", "pr")
	o := r.opts()
	o.AllBranches = true
	res, err := history(o)
	check(err)
	_, ok := res[c]
	equal("delivered", fmt.Sprint(ok, len(res)), "true 2")
}'''),
dict(id='b04-mode-change-not-reported', prop='C04',
 edits=[(P,"""				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.PathOrPrev())
""","""				if len(diff.Hunks) == 0 && diff.PathPrev == diff.Path {
					// same content
					s.repo[commit.Hash][diff.Path] = parentBlame
					continue
				}
				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.Path)
""")],
 needs='a commit that only changes the mode of a text file',
 breaks='the commit does not report the file',
 demo='''
import "fmt"
func main() {
	r := newRepo()
	r.commit("a.sh", "1\\n")
	r.git("update-index", "--chmod=+x", "a.sh")
	r.git("commit", "-q", "-m", "mode")
	res, err := history(r.opts())
	check(err)
	_, ok := res[r.head()].Files["a.sh"]
	equal("reported", fmt.Sprint(ok), "true")
}'''),
dict(id='b05-mailmap-names', prop='C05',
 edits=[(CM,'!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n','!Committer: %ce%n!CName: %cn%n!Author: %aE%n!AName: %aN%n')],
 needs='a repository with a .mailmap file that has an entry for the author',
 breaks='author name and email are the ones from .mailmap instead of the recorded ones',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/commitmeta"
func main() {
	r := newRepo()
	c := r.commit(".mailmap", "Other Name <other@example.com> <user@example.com>\\n")
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	equal("author", res[c].AuthorName+" "+res[c].AuthorEmail, "user user@example.com")
}'''),
dict(id='b06-type-change-added', prop='C06',
 edits=[(CM,'''	case "A":
		return''','''	case "A", "T":
		return'''),
        (CM,'case "M", "R", "C", "MM", "T":','case "M", "R", "C", "MM":')],
 needs='a commit that replaces a symbolic link with a regular file',
 breaks='the change is recorded as an added file',
 demo='''
import ("os"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	r.write("a.txt", "1\\n")
	check(os.Symlink("a.txt", r.dir+"/b.txt"))
	r.commit()
	check(os.Remove(r.dir+"/b.txt"))
	c := r.commit("b.txt", "1\\n")
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	equal("status", res[c].Files["b.txt"].Status, "modified")
}'''),
dict(id='b07-equal-lines-saved-once', prop='C07',
 edits=[(W,'	linePointers := map[*incblame.Line]uint64{}','	linePointers := map[string]uint64{}'),
        (W,'				if lp, ok := linePointers[l]; ok {','				if lp, ok := linePointers[string(l.Line)]; ok {'),
        (W,'				linePointers[l] = lp\n','				linePointers[string(l.Line)] = lp\n')],
 needs='an incremental run over files that have the same text on lines from different commits',
 breaks='after resuming, equal lines are all credited to the same commit',
 demo='''
func main() {
	r := newRepo()
	a := r.commit("a.txt", "same\\n")
	b := r.commit("b.txt", "same\\n")
	x := r.commit("c.txt", "other\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	o.CommitFromIncl = x
	c := r.commit("a.txt", "same\\na\\n", "b.txt", "same\\nb\\n")
	res, err := history(o)
	check(err)
	equal("a.txt", show(res, c, "a.txt"), a[:8]+":same\\n"+c[:8]+":a")
	equal("b.txt", show(res, c, "b.txt"), b[:8]+":same\\n"+c[:8]+":b")
}'''),
dict(id='b08-non-inclusive-resume-not-strict', prop='C08',
 edits=[(P,'		if s.opts.NoStrictResume {','		if s.opts.NoStrictResume || s.opts.CommitFromMakeNonIncl {')],
 needs='a strict resume that excludes its start commit, from a commit other than the one the state was saved for',
 breaks='the state of another commit is accepted',
 demo='''
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	r.commit("a.txt", "2\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	o.CommitFromIncl = a
	o.CommitFromMakeNonIncl = true
	_, err = history(o)
	if err == nil {
		fail("resumed from another commit")
	}
}'''),
dict(id='b09-binary-flag-not-read', prop='C09',
 edits=[(R,'''			bl.Commit = obj.Commit
			bl.IsBinary = obj.IsBinary
''','''			bl.Commit = obj.Commit
''')],
 needs='a binary file in the saved state',
 breaks='binary files come back as empty text files',
 demo='''
import (state "github.com/pinpt/ripsrc/ripsrc/history3/process/repo"; "github.com/pinpt/ripsrc/ripsrc/history3/incblame")
func main() {
	rp := state.New()
	rp["c1"] = map[string]*incblame.Blame{"a.bin": incblame.BlameBinaryFile("c1")}
	dir := tmp()
	check(state.NewCheckpointWriter(quiet).Write(rp, dir, "c1"))
	got, err := state.NewCheckpointReader(quiet).Read(dir, "c1")
	check(err)
	equal("binary", got["c1"]["a.bin"].IsBinary, true)
}'''),
dict(id='b10-unload-after-two-children', prop='C10',
 edits=[(P,'''		if s.childrenProcessed[p] == len(siblings) {''','''		if n := s.childrenProcessed[p]; n == len(siblings) || n == 2 {''')],
 needs='a commit with three children, the last of which comes more than a thousand commits after the second',
 breaks='the parent is dropped before its last child is processed, which then fails',
 demo='''
import ("fmt"; "strings")
func main() {
	r := newRepo()
	var b strings.Builder
	commit := func(mark, from int, ref, file string) {
		fmt.Fprintf(&b, "commit refs/heads/%s\\nmark :%d\\ncommitter user <user@example.com> %d +0000\\ndata 1\\nc\\n", ref, mark, r.time+mark*60)
		if from != 0 {
			fmt.Fprintf(&b, "from :%d\\n", from)
		}
		data := fmt.Sprintf("%d\\n", mark)
		fmt.Fprintf(&b, "M 644 inline %s\\ndata %d\\n%s\\n", file, len(data), data)
	}
	commit(1, 0, "master", "a.txt")
	commit(2, 1, "b", "b.txt")
	for i := 3; i < 1200; i++ {
		from := i - 1
		if i == 3 {
			from = 1
		}
		commit(i, from, "master", "m.txt")
	}
	commit(1200, 1, "c", "c.txt")
	r.gitIn(b.String(), "fast-import", "--quiet")
	o := r.opts()
	o.AllBranches = true
	res, err := history(o)
	check(err)
	equal("commits", len(res), 1200)
}'''),
dict(id='b11-many-parents', prop='C11',
 edits=[('ripsrc/parentsgraph/parentsp/parser.go','strings.Split(string(parts[1]), " ")','strings.SplitN(string(parts[1]), " ", 8)')],
 needs='an octopus merge with nine or more parents',
 breaks='the last parents of the merge are lost, there is an entry that is not a commit instead',
 demo='''
import ("fmt"; "strings"; "github.com/pinpt/ripsrc/ripsrc/parentsgraph")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	var others []string
	for i := 0; i < 9; i++ {
		r.git("checkout", "-q", "-b", fmt.Sprint("b", i), "master")
		r.commit(fmt.Sprint("b", i, ".txt"), "1\\n")
		others = append(others, fmt.Sprint("b", i))
	}
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	m := r.mergeTree(others)
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.dir, Logger: quiet})
	check(g.Read())
	equal("parents", len(g.Parents[m]), len(strings.Fields(r.git("log", "-1", "--pretty=%P"))))
}'''),
dict(id='b12-branch-work-split', prop='C12',
 edits=[(B,'''	workCh := namesAndHashes.Chan()
''','''	chunk := len(namesAndHashes) / s.opts.Concurrency
	if chunk == 0 {
		chunk = 1
	}
'''),
 (B,'''		go func() {
			defer wg.Done()
			for nameAndHash := range workCh {''','''		from, to := i*chunk, (i+1)*chunk
		if from > len(namesAndHashes) {
			from = len(namesAndHashes)
		}
		if to > len(namesAndHashes) {
			to = len(namesAndHashes)
		}
		work := namesAndHashes[from:to]
		go func() {
			defer wg.Done()
			for _, nameAndHash := range work {''')],
 needs='more branches than workers, and not a multiple of their number',
 breaks='the branches that are left after an equal split between the workers are not reported',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	for i := 0; i < 37; i++ {
		r.git("branch", fmt.Sprint("b", i))
	}
	equal("branches", len(branches(r, ripsrc.Opts{})), 38)
}'''),
dict(id='b13-octopus-merge-of-branch', prop='C13',
 edits=[(BC,'''			if hash == branchHead {
				// remove merge commit to branch head
				return
			}
			par, ok := gr.Parents[hash]
			if !ok {
				panic("commit not found in tree")
			}
			for _, p := range par {
				rec(p)
			}
		}
		rec(defaultHead)
	}
''','''			par, ok := gr.Parents[hash]
			if !ok {
				panic("commit not found in tree")
			}
			for _, p := range par {
				if p == branchHead {
					// remove merge commit to branch head
					break
				}
				rec(p)
			}
		}
		rec(defaultHead)
	}
''')],
 needs='a branch merged by an octopus merge in which another branch follows it, and that one has started from it',
 breaks='commits of the branch that the default branch also reaches through the other branch are reported as its own',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	m := r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b1")
	shared := r.commit("b.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b2")
	r.commit("c.txt", "1\\n")
	r.git("checkout", "-q", "b1")
	own := r.commit("b.txt", "2\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	r.mergeTree([]string{"b1", "b2"}, "b.txt", "2\\n", "c.txt", "1\\n")
	b := branches(r, ripsrc.Opts{})["b1"]
	equal("commits", b.Commits, []string{own})
	equal("branch points", b.BranchedFromCommits, []string{shared})
	_ = m
}'''),
dict(id='b14-branch-id-of-all-points', prop='C14',
 edits=[(B,'''	if len(branchedFrom) > 0 {
		parts = append(parts, branchedFrom[0])
	}
''','''	parts = append(parts, branchedFrom...)
''')],
 needs='a branch that has more than one branch point',
 breaks='the identity of the branch depends on all of its branch points',
 demo='''
import ("crypto/sha256"; "fmt"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "x")
	r.commit("x.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	r.git("checkout", "-q", "-b", "b")
	r.mergeTree([]string{"x"}, "x.txt", "1\\n")
	r.commit("b.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.mergeTree([]string{"x"}, "x.txt", "1\\n")
	b := branches(r, ripsrc.Opts{})["b"]
	equal("number of branch points", len(b.BranchedFromCommits), 2)
	equal("id", b.BranchID, fmt.Sprintf("%x", sha256.Sum256([]byte("b"+b.BranchedFromCommits[0]))))
	_ = a
}'''),
dict(id='b15-email-for-empty-name', prop='C15',
 edits=[(CI,'		line2.Name = meta.AuthorName\n','		line2.Name = meta.Author()\n')],
 needs='a commit whose author has an empty name',
 breaks='its lines have the email of the author as the name',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.gitIn("commit refs/heads/master\\nauthor <user@example.com> 1500000000 +0000\\ncommitter c <c@example.com> 1500000000 +0000\\ndata 1\\nc\\nM 644 inline a.go\\ndata 10\\npackage a\\n\\n", "fast-import", "--quiet")
	res := code(ripsrc.Opts{RepoDir: r.dir})
	equal("lines", len(res[0].Lines), 1)
	equal("name", res[0].Lines[0].Name, "")
}'''),
dict(id='b16-source-dir-prefix', prop='C16',
 edits=[(FI,'strings.HasPrefix(filePath, "src/")','strings.HasPrefix(filePath, "src")')],
 needs='a vendored path below a directory whose name only starts with src',
 breaks='files below such directories are not skipped as vendored',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/fileinfo"
func main() {
	_, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: "srcjava/cache/a.go", Content: []byte("package a\\n"), Lines: [][]byte{[]byte("package a")}})
	equal("reason", skip, "File was a vendored file")
}'''),
dict(id='b17-license-by-text-only', prop='C17',
 edits=[('ripsrc/fileinfo/license_enabled.go','''	mf := &memoryfiler{filename, buf}
	mu.Lock()
	kv, err := licensedb.Detect(mf)
	mu.Unlock()
''','''	mu.Lock()
	key := sha256.Sum256(buf)
	kv, ok := detected[key]
	var err error
	if !ok {
		kv, err = licensedb.Detect(&memoryfiler{filename, buf})
		if err == nil {
			detected[key] = kv
		}
	}
	mu.Unlock()
'''),('ripsrc/fileinfo/license_enabled.go','''var mu sync.Mutex
''','''var mu sync.Mutex

// detected has results by content
var detected = map[[sha256.Size]byte]map[string]float32{}
'''),('ripsrc/fileinfo/license_enabled.go','''	"sort"
''','''	"crypto/sha256"
	"sort"
''')],
 needs='the same text in a licence file and then in a readme, which the detector treats differently',
 breaks='the answer for the second file is the one for the first',
 flags='',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/fileinfo"
const text = `Permission to use, copy, modify, and/or distribute this software for any purpose with or without fee is hereby granted, provided that the above copyright notice and this permission notice appear in all copies.

THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
`
func main() {
	ask := func(name, text string) string {
		info, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: name, Content: []byte(text), Lines: [][]byte{[]byte(text)}})
		if info.License == nil {
			return "none"
		}
		_ = skip
		return info.License.Name
	}
	// different texts for the two orders, with no difference for the detector
	first := ask("README.md", text)
	ask("LICENSE", text+"\\n\\n")
	equal("readme after license", ask("README.md", text+"\\n\\n"), first)
}'''),
dict(id='b18-path-cache-shared', prop='C18',
 edits=[(FI,'	s.checkFilePathCache = map[string]string{}\n','	s.checkFilePathCache = pathCache\n'),
 (FI,'''func New() *Process {''','''// pathCache has decisions that depend on the path only
var pathCache = map[string]string{}

func New() *Process {''')],
 needs='two runs in one process at the same time',
 breaks='classifiers of independent runs write to the same map without a lock',
 flags='-race -tags no_license',
 demo='''
import ("fmt"; "sync"; "github.com/pinpt/ripsrc/ripsrc/fileinfo")
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			p := fileinfo.New()
			for k := 0; k < 100; k++ {
				p.GetInfo(fileinfo.InfoArgs{FilePath: fmt.Sprint("d", i, "/", k, ".go"), Content: []byte("package a\\n"), Lines: [][]byte{[]byte("package a")}})
			}
		}(i)
	}
	wg.Wait()
}'''),
dict(id='b19-error-leaves-parser-blocked', prop='C19',
 edits=[(P,'''		err := s.processCommit(resChan, commit)
		if err != nil {
			drainAndExit()
			return err
		}
''','''		if err := s.processCommit(resChan, commit); err != nil {
			return err
		}
''')],
 needs='a commit that could not be processed (git blame of a file fails) and more commits after it',
 breaks='the goroutine that parses git output stays blocked',
 demo='''
import ("bytes"; "io/ioutil"; "os"; "os/exec"; "runtime/pprof"; "strings"; "time")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "bin")
	r.commit("a.txt", "\\x00\\x01")
	r.git("checkout", "-q", "master")
	r.commit("b.txt", "b\\n")
	r.mergeTree([]string{"bin"}, "a.txt", "1\\n")
	r.commit("a.txt", "1\\n2\\n")
	for i := 0; i < 5; i++ {
		r.commit()
	}
	git, err := exec.LookPath("git")
	check(err)
	bin := tmp()
	check(ioutil.WriteFile(bin+"/git", []byte("#!/bin/bash\\nfor a in \\"$@\\"; do [ \\"$a\\" = blame ] && exit 128; done\\nexec "+git+" \\"$@\\"\\n"), 0777))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	_, err = history(r.opts())
	if err == nil {
		fail("no error")
	}
	var b bytes.Buffer
	for i := 0; i < 50; i++ {
		b.Reset()
		pprof.Lookup("goroutine").WriteTo(&b, 2)
		if !strings.Contains(b.String(), "history3/process/parser.") {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	fail("goroutine left: %v", b.String())
}'''),
dict(id='b20-line-records-reused', prop='C20',
 edits=[(CI,'''		line2.BlameLine = &BlameLine{}
		line2.Name = meta.AuthorName
''','''		line2.BlameLine = s.lineRecord(line)
		line2.Name = meta.AuthorName
'''),(CI,'''func blameToFileContent(''','''// lineRecord returns a record for the line, the same one for all versions of the file that have it.
func (s *Ripsrc) lineRecord(line *incblame.Line) *BlameLine {
	res, ok := s.lineRecords[line]
	if !ok {
		res = &BlameLine{}
		s.lineRecords[line] = res
	}
	res.Code, res.Comment, res.Blank = false, false, false
	return res
}

func blameToFileContent('''),
 ('ripsrc/ripsrc.go','''	commitMeta map[string]commitmeta.Commit
''','''	commitMeta map[string]commitmeta.Commit

	lineRecords map[*incblame.Line]*BlameLine
'''),
 ('ripsrc/ripsrc.go','''	s.CodeInfoTimings = &CodeInfoTimings{}
''','''	s.CodeInfoTimings = &CodeInfoTimings{}
	s.lineRecords = map[*incblame.Line]*BlameLine{}
'''),
 ('ripsrc/ripsrc.go','''	"github.com/pinpt/ripsrc/ripsrc/history3/process"
''','''	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
''')],
 needs='a line that is code in one version of a file and in a comment in the next one, with both results kept',
 breaks='line records of the earlier version change when the later version is processed',
 demo='''
import ("context"; "fmt"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.go", "package a\\nvar x = 1\\n")
	r.commit("a.go", "package a\\n/*\\nvar x = 1\\n*/\\n")
	res := make(chan ripsrc.BlameResult)
	errc := make(chan error, 1)
	go func() {
		errc <- ripsrc.New(ripsrc.Opts{RepoDir: r.dir, Logger: quiet, CheckpointsDir: tmp()}).Code(context.Background(), res)
	}()
	first := <-res
	show := func() string {
		return fmt.Sprint(*first.Lines[0], *first.Lines[1])
	}
	n, loc := len(first.Lines), first.Sloc
	for range res {
	}
	check(<-errc)
	equal("lines", n, 2)
	code := 0
	for _, l := range first.Lines {
		if l.Code {
			code++
		}
	}
	if int64(code) != loc {
		fail("sloc %d, records of code lines %d: %v", loc, code, show())
	}
}'''),
dict(id='b21-killed-git-is-complete', prop='C21',
 edits=[('ripsrc/gitexec/gitexec.go','''	if err := c.Run(); err != nil {
		return fmt.Errorf("failed executing git command %v", err)
	}
	return nil
''','''	err := c.Run()
	if exit, ok := err.(*exec.ExitError); ok && !exit.Exited() {
		// stopped by a signal since the output is no longer needed
		return nil
	}
	if err != nil {
		return fmt.Errorf("failed executing git command %v", err)
	}
	return nil
''')],
 needs='git is killed by a signal before its output is complete',
 breaks='the part of the output that was written is taken as all of it, and the run succeeds',
 demo='''
import ("io/ioutil"; "os"; "os/exec"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	r.linear(20)
	git, err := exec.LookPath("git")
	check(err)
	bin := tmp()
	check(ioutil.WriteFile(bin+"/git", []byte("#!/bin/bash\\n"+git+" \\"$@\\" | head -n 40\\nkill -9 $$\\n"), 0777))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunSlice()
	if err == nil {
		fail("no error, got %d commits", len(res))
	}
}'''),
dict(id='b22-abbreviated-commits', prop='C22',
 edits=[(P,'''		"--no-abbrev-commit",
		"--pretty=short",
''','''		"--pretty=short",
''')],
 needs='log.abbrevCommit set in the configuration of the user',
 breaks='commits in the patch log have abbreviated ids, so the run fails',
 demo='''
import "os"
func main() {
	r := newRepo()
	c := r.commit("a.txt", "1\\n")
	conf := tmp() + "/config"
	r.git("config", "-f", conf, "log.abbrevCommit", "true")
	os.Setenv("GIT_CONFIG_GLOBAL", conf)
	res, err := history(r.opts())
	check(err)
	equal("a.txt", show(res, c, "a.txt"), c[:8]+":1")
}'''),
dict(id='b23-missing-checkpoints-dir', prop='C23',
 edits=[(P,'''	if opts.CheckpointsDir != "" {
		s.checkpointsDir =''','''	if _, err := os.Stat(opts.CheckpointsDir); err == nil {
		s.checkpointsDir =''')],
 needs='a checkpoint directory that does not exist yet',
 breaks='the state is saved inside of the repository',
 demo='''
import "os"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	o := r.opts()
	o.CheckpointsDir = tmp() + "/new/dir"
	_, err := history(o)
	check(err)
	if _, err := os.Stat(r.dir + "/pp-git-cache"); err == nil {
		fail("state is in the repository")
	}
	_, err = os.Stat(o.CheckpointsDir)
	check(err)
}'''),
dict(id='b24-heading-with-at-signs', prop='C24',
 edits=[(PU,'''	endInd := 0
	c := 0
	for i, b := range b0 {
		if b == '@' {
			c++
		}
		if c == atc*2 {
			endInd = i
			break
		}
	}
	if endInd == 0 {
		rerr("endInd == 0")
	}
''','''	// hunk header ends the same way it starts
	endInd := bytes.LastIndex(b0, b0[:atc])
	if endInd <= 0 {
		rerr("endInd <= 0")
	}
''')],
 needs='a hunk whose heading, a line of the file, contains @@',
 breaks='part of the heading is parsed as the position of the hunk, which panics',
 demo='''
import "strings"
func main() {
	r := newRepo()
	text := "func at @@ at\\n" + strings.Repeat(" x\\n", 10)
	a := r.commit("a.txt", text)
	c := r.commit("a.txt", text+"last\\n")
	res, err := history(r.opts())
	check(err)
	equal("a.txt", show(res, c, "a.txt"), strings.Replace(a[:8]+":"+strings.Join(strings.Split(strings.TrimSpace(text), "\\n"), "\\n"+a[:8]+":"), "", "", 0)+"\\n"+c[:8]+":last")
}'''),
dict(id='b25-blame-finds-moves', prop='C25',
 edits=[('ripsrc/gitblame2/gitblame.go','		"--porcelain",\n','		"-M",\n		"--porcelain",\n'),
        ('ripsrc/gitblame2/gitblame.go','		"blame",\n		commitHash,\n','		"blame", commitHash,\n')],
 needs='a commit that moves lines inside of a file',
 breaks='moved lines are credited to the commit they were first added in instead of the one git blame credits',
 demo='''
import ("strings"; "fmt"; "github.com/pinpt/ripsrc/ripsrc/gitblame2")
func main() {
	r := newRepo()
	var x, y []string
	for i := 0; i < 30; i++ {
		x = append(x, fmt.Sprintf("some longer line with the number %d\\n", i))
		y = append(y, fmt.Sprintf("other part of the file, and the number %d\\n", i))
	}
	r.commit("a.txt", strings.Join(x[:5], "")+strings.Join(y, ""))
	c := r.commit("a.txt", strings.Join(y, "")+strings.Join(x[:5], ""))
	res, err := gitblame2.Run(r.dir, c, "a.txt")
	check(err)
	equal("last line", res.Lines[34].CommitHash, c)
}'''),
dict(id='b26-hidden-directories', prop='C26',
 edits=[('ripsrc/pkg/gitrepos/gitrepos.go','''		if !sub.IsDir() {
			continue
		}''','''		if !sub.IsDir() || sub.Name()[0] == '.' {
			continue
		}''')],
 needs='a repository in a directory whose name starts with a dot',
 breaks='the repository is not visited',
 demo='''
import ("os/exec"; "github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos")
func main() {
	d := tmp()
	check(exec.Command("git", "init", "-q", d+"/.dotfiles").Run())
	n := 0
	check(gitrepos.IterDir(d, 1, func(string) error { n++; return nil }))
	equal("repos", n, 1)
}'''),
dict(id='b27-message-as-format', prop='C27',
 edits=[('ripsrc/pkg/logger/logger.go','	write("%v %v %v", kind, msg, kvs)','	write(kind+" "+msg+" %v", kvs)')],
 needs='a message that contains a percent sign',
 breaks='the message is taken as a format, so the line has neither the message nor the pairs as given',
 demo='''
import ("bytes"; "github.com/pinpt/ripsrc/ripsrc/pkg/logger")
func main() {
	var out bytes.Buffer
	logger.NewDefaultLogger(&out).Info("100% done", "k", "v")
	equal("line", out.String(), "INFO 100% done [{k v}]\\n")
}'''),
dict(id='b28-commits-of-reflog', prop='C28',
 edits=[(P,'			args = append(args, "--all")','			args = append(args, "--all", "--reflog")'),
        (CM,'			args = append(args, "--all")','			args = append(args, "--all", "--reflog")'),
        (G,'		args = append(args, "--all")','		args = append(args, "--all", "--reflog")')],
 needs='all branches selected and a commit that only the reflog still has (amended)',
 breaks='results depend on the reflog of the clone and not only on the selected refs',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.write("a.txt", "2\\n")
	r.git("commit", "-q", "-a", "--amend", "-m", "amended")
	o := r.opts()
	o.AllBranches = true
	res, err := history(o)
	check(err)
	equal("commits", len(res), 1)
}'''),
dict(id='b29-empty-commits-not-counted', prop='C29',
 edits=[(P,'''		s.timing.RegularCommitsTime += dur
		s.timing.RegularCommitsCount++
''','''		s.timing.RegularCommitsTime += dur
		if len(commit.Changes) != 0 {
			s.timing.RegularCommitsCount++
		}
''')],
 needs='a commit without changes',
 breaks='the commit is not in the number of processed commits',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/history3/process"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.commit()
	p := process.New(r.opts())
	_, err := p.RunGetAll()
	check(err)
	equal("regular commits", p.Timing().RegularCommitsCount, 2)
}'''),
dict(id='b30-long-lines-in-patches', prop='C24',
 edits=[('ripsrc/history3/incblame/maxline.go','const maxLine = 100 * mb','const maxLine = 1 * mb')],
 needs='a text file with a line above one megabyte',
 breaks='the patch is not parsed, which panics',
 demo='''
import "strings"
func main() {
	r := newRepo()
	c := r.commit("a.txt", strings.Repeat("long line ", 150000)+"\\n")
	res, err := history(r.opts())
	check(err)
	equal("length", len(res[c].Files["a.txt"].Lines[0].Line), 1500000)
}'''),
]
