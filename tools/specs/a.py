P='ripsrc/history3/process/process.go'
A='ripsrc/history3/incblame/apply.go'
M='ripsrc/history3/incblame/apply_merge2.go'
W='ripsrc/history3/process/repo/writer.go'
CM='ripsrc/commitmeta/commitmeta.go'
bugs=[
dict(id='a01-patch-line-aliases-buffer', prop='C01',
 edits=[(A,'				addLine(copyBytes(data))','				addLine(data)'),
        (A,'''func copyBytes(b []byte) []byte {
	res := make([]byte, len(b))
	copy(res, b)
	return res
}
''','')],
 needs='a hunk larger than the read buffer of the patch line scanner (4096 bytes)',
 breaks='added lines keep pointing into the buffer of the scanner, so earlier added lines are overwritten when the buffer is reused',
 demo='''
import ("fmt"; "strings")
func main() {
	r := newRepo()
	var want []string
	for i := 0; i < 3000; i++ {
		want = append(want, fmt.Sprintf("line %d %d", i, i*7919))
	}
	c := r.commit("a.txt", strings.Join(want, "\\n")+"\\n")
	res, err := history(r.opts())
	check(err)
	var got []string
	for _, l := range res[c].Files["a.txt"].Lines {
		got = append(got, string(l.Line))
	}
	equal("lines", strings.Join(got, "\\n"), strings.Join(want, "\\n"))
}'''),
dict(id='a02-merge-credit-three-parents', prop='C02',
 edits=[(M,'		for j := range parents {','		for j := 0; j < len(parents) && j < 3; j++ {')],
 needs='an octopus merge with four or more parents in which a file takes lines from the fourth one and equals none of them',
 breaks='lines that came from the fourth parent are credited to the merge commit',
 demo='''
import "strings"
func main() {
	r := newRepo()
	base := "1\\n2\\n3\\n4\\n5\\n6\\n7\\n8\\n9\\n10\\n11\\n12\\n13\\n14\\n15\\n"
	r.commit("a.txt", base)
	edit := func(branch, old, new string) string {
		r.git("checkout", "-q", "-b", branch, "master")
		return r.commit("a.txt", strings.Replace(base, old, new, 1))
	}
	b1 := edit("b1", "\\n2\\n", "\\ntwo\\n")
	b2 := edit("b2", "\\n8\\n", "\\neight\\n")
	b3 := edit("b3", "\\n14\\n", "\\nfourteen\\n")
	b4 := edit("b4", "1\\n2\\n3\\n4\\n5\\n", "1\\n2\\n3\\n4\\nfive\\n")
	r.git("checkout", "-q", "b1")
	m := r.mergeTree([]string{"b2", "b3", "b4"}, "a.txt", strings.NewReplacer("\\n2\\n", "\\ntwo\\n", "\\n8\\n", "\\neight\\n", "\\n14\\n", "\\nfourteen\\n", "\\n5\\n", "\\nfive\\n").Replace(base))
	res, err := history(r.opts())
	check(err)
	lines := res[m].Files["a.txt"].Lines
	equal("credit of two", lines[1].Commit, b1)
	equal("credit of eight", lines[7].Commit, b2)
	equal("credit of fourteen", lines[13].Commit, b3)
	equal("credit of five", lines[4].Commit, b4)
}'''),
dict(id='a03-commits-without-files-dropped', prop='C03',
 edits=[('ripsrc/code.go','''			res <- rc
			for _, r := range rs {''','''			if len(rs) == 0 {
				// nothing to show for this commit
				continue
			}
			res <- rc
			for _, r := range rs {''')
  ,('ripsrc/code.go','''			rc := CommitCode{}
			rc.Blames = make(chan BlameResult)
''','''			rc := CommitCode{Blames: make(chan BlameResult)}
''')],
 needs='a commit without any reported files, empty or a merge without conflicts, in the by-commit listing',
 breaks='the by-commit code listing does not deliver such commits at all',
 demo='''
import ("context"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.go", "package a\\n")
	e := r.commit()
	r.commit("b.go", "package a\\n")
	res := make(chan ripsrc.CommitCode)
	var got []string
	done := make(chan bool)
	go func() {
		for c := range res {
			got = append(got, c.SHA)
			for range c.Blames {
			}
		}
		done <- true
	}()
	err := ripsrc.New(ripsrc.Opts{RepoDir: r.dir, Logger: quiet, CheckpointsDir: tmp()}).CodeByCommit(context.Background(), res)
	<-done
	check(err)
	for _, c := range got {
		if c == e {
			return
		}
	}
	fail("empty commit %v was not delivered, got %v", e, got)
}'''),
dict(id='a04-octopus-same-as-third-parent', prop='C04',
 edits=[(P,'''			if diff == nil {
				// same as parent
''','''			if diff == nil && i < 2 {
				// same as parent
''')],
 needs='a merge of three or more parents in which a file equals the version of the third or a later parent only',
 breaks='the merge reports files that are the same as in one of its parents',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n", "b.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b1")
	r.commit("b1.txt", "x\\n")
	r.git("checkout", "-q", "-b", "b2", "master")
	r.commit("b2.txt", "x\\n")
	r.git("checkout", "-q", "-b", "b3", "master")
	r.commit("a.txt", "1\\n2\\n")
	r.git("checkout", "-q", "b1")
	m := r.mergeTree([]string{"b2", "b3"}, "b2.txt", "x\\n", "a.txt", "1\\n2\\n")
	res, err := history(r.opts())
	check(err)
	equal("files reported in merge", len(res[m].Files), 0)
}'''),
dict(id='a05-author-name-trimmed', prop='C05',
 edits=[(CM,'p.commit.AuthorName = string(buf[len(authorNamePrefix):])','p.commit.AuthorName = strings.TrimSpace(string(buf[len(authorNamePrefix):]))')],
 needs='an author name that starts or ends with a space outside of ASCII, such as a no-break or an ideographic space',
 breaks='the author name is not the one recorded in the commit',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/commitmeta"
func main() {
	r := newRepo()
	r.user = "\\u3000\\u5c71\\u7530\\u3000"
	r.commit("a.txt", "1\\n")
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunSlice()
	check(err)
	equal("author", "["+res[0].AuthorName+"]", "["+r.user+"]")
}'''),
dict(id='a06-numstat-16-bits', prop='C06',
 edits=[(CM,'adds, _ := strconv.ParseInt(tok[0], 10, 32)','adds, _ := strconv.ParseInt(tok[0], 10, 16)'),
        (CM,'dels, _ := strconv.ParseInt(tok[1], 10, 32)','dels, _ := strconv.ParseInt(tok[1], 10, 16)')],
 needs='a change that adds or removes more than 32767 lines of one file',
 breaks='the recorded number of added or deleted lines is too small',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	r.commit("a.txt", strings.Repeat("x\\n", 70000))
	r.commit("a.txt", "y\\n")
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunSlice()
	check(err)
	equal("additions", res[0].Files["a.txt"].Additions, 70000)
	equal("deletions", res[1].Files["a.txt"].Deletions, 70000)
}'''),
dict(id='a07-checkpoint-version-skips-merges', prop='C07',
 edits=[(P,'''func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
	s.lastProcessedCommitHash = commitHash
''','''func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
''')],
 needs='an incremental run that continues from a run which ended with a merge commit',
 breaks='the checkpoint is saved under the commit before the merge, so the next incremental run is refused',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b1")
	r.commit("b.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("c.txt", "1\\n")
	m := r.mergeTree([]string{"b1"}, "b.txt", "1\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	c := r.commit("a.txt", "1\\n2\\n")
	o.CommitFromIncl, o.CommitFromMakeNonIncl = m, true
	res, err := history(o)
	check(err)
	equal("lines", len(res[c].Files["a.txt"].Lines), 2)
}'''),
dict(id='a08-checkpoint-flush-error-ignored', prop='C08',
 edits=[('ripsrc/history3/process/repo/msgp.go','''	err = s.gw.Flush()
	if err != nil {
		return err
	}
''','''	s.gw.Flush()
''')],
 needs='writing of the last buffered data of a checkpoint file fails, for example because the disk is full',
 breaks='the run reports success and leaves a truncated checkpoint that later runs continue from',
 sh='''go build -tags no_license -overlay "$T/overlay.json" -o "$T/demo" ./verifdemo && bash -c 'trap "" XFSZ; ulimit -f 1; "$1"' - "$T/demo"''',
 demo='''
import ("fmt"; state "github.com/pinpt/ripsrc/ripsrc/history3/process/repo"; "github.com/pinpt/ripsrc/ripsrc/history3/incblame")
// every file of this process is limited to 1024 bytes
func main() {
	rp := state.New()
	bl := &incblame.Blame{Commit: "c1"}
	x := uint32(1)
	for i := 0; i < 400; i++ {
		x = x*1664525 + 1013904223
		bl.Lines = append(bl.Lines, &incblame.Line{Commit: "c1", Line: []byte(fmt.Sprint(x, x*31))})
	}
	rp["c1"] = map[string]*incblame.Blame{"a.txt": bl}
	dir := tmp()
	err := state.NewCheckpointWriter(quiet).Write(rp, dir, "c1")
	if err != nil {
		return // reported
	}
	fail("no error when the checkpoint could not be written")
}'''),
dict(id='a09-checkpoint-commit-prefix', prop='C09',
 edits=[('ripsrc/history3/process/repo/reader.go','		if checkpointCommit != expectedCommit {','		if !strings.HasPrefix(checkpointCommit, expectedCommit) {'),
  ('ripsrc/history3/process/repo/reader.go','	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],
 needs='a state saved under a commit id of which the expected one is only the beginning',
 breaks='reading succeeds although the expected commit is not the one given at save time',
 demo="""
import (state "github.com/pinpt/ripsrc/ripsrc/history3/process/repo"; "github.com/pinpt/ripsrc/ripsrc/history3/incblame")
func main() {
	rp := state.New()
	rp["c12"] = map[string]*incblame.Blame{"a.txt": &incblame.Blame{Commit: "c12"}}
	dir := tmp()
	check(state.NewCheckpointWriter(quiet).Write(rp, dir, "c12"))
	_, err := state.NewCheckpointReader(quiet).Read(dir, "c12")
	check(err)
	_, err = state.NewCheckpointReader(quiet).Read(dir, "c1")
	if err == nil {
		fail("state of c12 was read when c1 was expected")
	}
}"""),
dict(id='a10-unload-newest', prop='C10',
 edits=[('ripsrc/history3/process/repo/repo.go','last := s.toUnload.Back()','last := s.toUnload.Front()')],
 needs='a history of more than a thousand commits, then resuming from a recent commit other than the last',
 breaks='the most recent finished commits are dropped from the saved state instead of the oldest ones',
 demo='''
func main() {
	r := newRepo()
	cs := r.linear(1200)
	o := r.opts()
	_, err := history(o)
	check(err)
	o.CommitFromIncl, o.NoStrictResume = cs[1150], true
	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	res, err := history(o)
	check(err)
	equal("number of commits", len(res), 50)
}'''),
dict(id='a11-graph-local-branches-only', prop='C11',
 edits=[('ripsrc/parentsgraph/parents.go','args = append(args, "--all")','args = append(args, "--branches", "HEAD")')],
 needs='all branches selected and commits that only a tag or a remote branch reaches',
 breaks='such commits are missing from the graph',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b")
	b := r.commit("b.txt", "1\\n")
	r.git("tag", "v1")
	r.git("checkout", "-q", "master")
	r.git("branch", "-q", "-D", "b")
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.dir, AllBranches: true, Logger: quiet})
	check(g.Read())
	equal("parents of the tagged commit", g.Parents[b], []string{a})
}'''),
dict(id='a12-default-branch-case', prop='C12',
 edits=[('ripsrc/branchmeta/branchmeta.go','if !opts.IncludeDefault && b.Name == defaultBranch {','if !opts.IncludeDefault && strings.EqualFold(b.Name, defaultBranch) {')],
 needs='a branch whose name differs from the name of the default branch in letter case only',
 breaks='that branch is missing from the branch results',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "Master")
	c := r.commit("b.txt", "1\\n")
	r.git("checkout", "-q", "master")
	res := branches(r, ripsrc.Opts{})
	equal("head of Master", res["Master"].HeadSHA, c)
}'''),
dict(id='a13-branch-points-memo', prop='C13',
 edits=[('ripsrc/branches2/branch_commits.go','				return hasDeep[hash]','				return')],
 needs='a branch with several branch points, one of which is an ancestor of another through a commit that was already visited',
 breaks='a branch point that descends from another one is reported as well',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	m1 := r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "x", m1)
	r.commit("x.txt", "0\\n")
	r.commit("x.txt", "1\\n")
	r.git("checkout", "-q", "-b", "y", m1)
	r.commit("y.txt", "0\\n")
	r.commit("y.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	for _, s := range []string{"x", "y"} {
		r.mergeTree([]string{s}, s+".txt", "1\\n")
	}
	// topic starts at y and at x's parent, and takes x
	r.git("checkout", "-q", "-b", "topic", m1)
	r.commit("t.txt", "1\\n")
	r.mergeTree([]string{"x"}, "x.txt", "1\\n")
	r.mergeTree([]string{"y"}, "y.txt", "1\\n")
	r.git("branch", "-q", "-D", "x", "y")
	r.git("checkout", "-q", "master")
	res := branches(r, ripsrc.Opts{})
	equal("branch points", res["topic"].BranchedFromCommits, []string{m1})
}'''),
dict(id='a14-behind-count-one-branch-point', prop='C14',
 edits=[('ripsrc/branches2/process.go','if len(res.BranchedFromCommits) >= 1 {','if len(res.BranchedFromCommits) == 1 {')],
 needs='an unmerged branch that was started from several unrelated commits of the default branch',
 breaks='the behind count is zero',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "x")
	r.commit("x.txt", "1\\n")
	r.git("checkout", "-q", "-b", "topic")
	r.git("checkout", "-q", "master")
	m2 := r.commit("a.txt", "2\\n")
	r.git("checkout", "-q", "topic")
	r.mergeTree([]string{m2}, "a.txt", "2\\n")
	r.git("checkout", "-q", "master")
	r.mergeTree([]string{"x"}, "x.txt", "1\\n")
	r.git("branch", "-q", "-D", "x")
	r.commit("a.txt", "3\\n")
	res := branches(r, ripsrc.Opts{})
	equal("branch points", len(res["topic"].BranchedFromCommits), 2)
	equal("behind count", res["topic"].BehindDefaultCount, 2)
}'''),
dict(id='a15-generated-marker-in-code', prop='C15',
 edits=[('ripsrc/code_info.go','		if l.line != nil && l.Comment {','		if l.line != nil && !l.Blank {')],
 needs='a source file with one of the markers of generated files in a string or an identifier',
 breaks='a file that does not declare itself generated is skipped',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("gen.go", "package gen\\n\\nconst header = \\"DO NOT EDIT\\"\\n\\nfunc a() int { return 1 }\\n")
	res := code(ripsrc.Opts{RepoDir: r.dir})
	equal("skip reason", "["+res[0].Skipped+"]", "[]")
	equal("code lines", res[0].Sloc, 3)
}'''),
dict(id='a16-path-cache-ignores-case', prop='C16',
 edits=[('ripsrc/fileinfo/fileinfo.go','''	if res, ok := s.checkFilePathCache[filePath]; ok {
		return res
	}
	res := s.checkFilePathUncached(filePath)
	s.checkFilePathCache[filePath] = res
	return res''','''	key := strings.ToLower(filePath)
	if res, ok := s.checkFilePathCache[key]; ok {
		return res
	}
	res := s.checkFilePathUncached(filePath)
	s.checkFilePathCache[key] = res
	return res''')],
 needs='two paths that differ in letter case only and are treated differently, examined by the same classifier',
 breaks='the skip decision depends on what was examined before',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/fileinfo"
func main() {
	ask := func(p *fileinfo.Process, name string) string {
		b := []byte("package a\\n")
		_, skip := p.GetInfo(fileinfo.InfoArgs{FilePath: name, Content: b, Lines: [][]byte{b[:len(b)-1]}})
		return "[" + skip + "]"
	}
	p := fileinfo.New()
	for _, pair := range [][2]string{{"vendor/a.go", "Vendor/a.go"}, {"lib/Vendor/a.go", "lib/vendor/a.go"}} {
		for _, name := range pair {
			equal(name, ask(p, name), ask(fileinfo.New(), name))
		}
	}
}'''),
dict(id='a17-license-cache-by-path', prop='C17',
 edits=[('ripsrc/fileinfo/fileinfo.go','''		l, err := detect(args.FilePath, args.Content)
		if err != nil {
			panic(err)
		}
		if l != nil {''','''		// detection is slow, and the same file is examined for every commit that changes it
		l, ok := s.licenseCache[args.FilePath]
		if !ok {
			var err error
			l, err = detect(args.FilePath, args.Content)
			if err != nil {
				panic(err)
			}
			if l != nil {
				s.licenseCache[args.FilePath] = l
			}
		}
		if l != nil {'''),
  ('ripsrc/fileinfo/fileinfo.go','''	checkFilePathCache map[string]string
''','''	checkFilePathCache map[string]string
	licenseCache       map[string]*License
'''),
  ('ripsrc/fileinfo/fileinfo.go','''	s.checkFilePathCache = map[string]string{}
''','''	s.checkFilePathCache = map[string]string{}
	s.licenseCache = map[string]*License{}
''')],
 needs='a licence file whose text changes, examined twice by the same classifier',
 breaks='the licence reported for the new text is the one of the old text',
 flags='', demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/fileinfo")
const isc = `Permission to use, copy, modify, and/or distribute this software for any purpose with or without fee is hereby granted, provided that the above copyright notice and this permission notice appear in all copies.

THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
`
func main() {
	ask := func(p *fileinfo.Process, text string) string {
		var lines [][]byte
		for _, l := range strings.Split(strings.TrimSuffix(text, "\\n"), "\\n") {
			lines = append(lines, []byte(l))
		}
		info, _ := p.GetInfo(fileinfo.InfoArgs{FilePath: "LICENSE", Content: []byte(text), Lines: lines})
		if info.License == nil {
			return "none"
		}
		return info.License.Name
	}
	p := fileinfo.New()
	first := ask(p, isc)
	equal("other text after "+first, ask(p, "to be decided\\n"), ask(fileinfo.New(), "to be decided\\n"))
}'''),
dict(id='a18-merge-writes-shared-line', prop='C18',
 edits=[(M,'''				// create a copy to avoid mutating original, which leads to race in tests
				lc := *res.Lines[i]
				lc.Commit = line.Commit
				res.Lines[i] = &lc
''','''				res.Lines[i].Commit = line.Commit
''')],
 needs='a consumer that reads lines of earlier results while a merge that combines a file from its parents is processed',
 breaks='lines that were already delivered are written again, which is a data race with the reader',
 flags='-race -tags no_license', demo='''
import ("fmt"; "time"; "github.com/pinpt/ripsrc/ripsrc/history3/process")
func main() {
	r := newRepo()
	base := "1\\n2\\n3\\n4\\n5\\n6\\n7\\n8\\n9\\n"
	r.commit("a.txt", base)
	for i := 0; i < 5; i++ {
		r.git("checkout", "-q", "-b", fmt.Sprint("b", i))
		r.commit("a.txt", fmt.Sprint("b", i, "\\n", base))
		r.git("checkout", "-q", "master")
		r.commit("a.txt", base+fmt.Sprint("m", i, "\\n"))
		r.mergeTree([]string{fmt.Sprint("b", i)}, "a.txt", fmt.Sprint("b", i, "\\n", base, "m", i, "\\n"))
		base = fmt.Sprint("b", i, "\\n", base, "m", i, "\\n")
	}
	res := make(chan process.Result)
	errc := make(chan error)
	go func() { errc <- process.New(r.opts()).Run(res) }()
	var kept []process.Result
	n := 0
	for c := range res {
		kept = append(kept, c)
		// reads all results while the next commits are processed
		for i := 0; i < 20; i++ {
			for _, k := range kept {
				for _, f := range k.Files {
					for _, l := range f.Lines {
						n += len(l.Commit)
					}
				}
			}
			time.Sleep(time.Millisecond)
		}
	}
	check(<-errc)
}'''),
dict(id='a19-parser-goroutine-left', prop='C19',
 edits=[(P,'''		for range commits {
		}
		<-done
	}''','''		for range commits {
		}
	}''')],
 needs='a run that fails after reading of the log was started, such as a strict resume from another commit',
 breaks='the goroutine that reads the log waits forever for somebody to receive its end',
 demo='''
import ("bytes"; "runtime/pprof"; "strings"; "time")
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	r.commit("a.txt", "2\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	o.CommitFromIncl = a
	_, err = history(o)
	if err == nil {
		fail("resumed from the wrong commit")
	}
	var b bytes.Buffer
	for i := 0; i < 50; i++ {
		b.Reset()
		pprof.Lookup("goroutine").WriteTo(&b, 2)
		if !strings.Contains(b.String(), "history3/process.") {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	fail("goroutine left: %v", b.String())
}'''),
dict(id='a20-unloaded-lines-released', prop='C20',
 edits=[('ripsrc/history3/process/repo/repo.go','		delete(s.repo, last.Value.(string))\n','		s.release(last.Value.(string))\n'),
 ('ripsrc/history3/process/repo/repo.go','const maxCommitsInCheckpoint = 1000\n',"""const maxCommitsInCheckpoint = 1000

// release removes the commit and the lines of file versions that no other commit has.
func (s *Unloader) release(commitHash string) {
	files := s.repo[commitHash]
	delete(s.repo, commitHash)
	for p, bl := range files {
		used := false
		for _, other := range s.repo {
			if other[p] == bl {
				used = true
				break
			}
		}
		if !used {
			bl.Lines = nil
		}
	}
}
""")],
 needs='a history of more than a thousand commits and a consumer that keeps results',
 breaks='the lines of results that were delivered long ago are removed from them',
 demo="""
func main() {
	r := newRepo()
	r.linear(1100)
	res, err := history(r.opts())
	check(err)
	for c, v := range res {
		equal("lines of "+c, len(v.Files["f.txt"].Lines), 1)
	}
}"""),
dict(id='a21-branch-list-exit-status', prop='C21',
 edits=[('ripsrc/branchmeta/branchmeta.go','''	err := c.Run()
	if err != nil {
		return nil, err
	}
	return out.Bytes(), nil''','''	err := c.Run()
	if err != nil && out.Len() == 0 {
		return nil, err
	}
	return out.Bytes(), nil''')],
 needs='git for-each-ref that fails after it has printed some of the refs',
 breaks='a partial list of branches is returned as success',
 demo='''
import ("io/ioutil"; "os"; "os/exec"; "context"; "github.com/pinpt/ripsrc/ripsrc/branchmeta")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "b1")
	r.git("branch", "b2")
	git, err := exec.LookPath("git")
	check(err)
	bin := tmp()
	check(ioutil.WriteFile(bin+"/git", []byte("#!/bin/bash\\nif [ \\"$1\\" = for-each-ref ]; then "+git+" \\"$@\\" | head -n 1; exit 128; fi\\nexec "+git+" \\"$@\\"\\n"), 0777))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	res, err := branchmeta.Get(context.Background(), branchmeta.Opts{Logger: quiet, RepoDir: r.dir})
	if err == nil {
		fail("no error, got %v", res)
	}
}'''),
dict(id='a22-rename-limit-from-user', prop='C22',
 edits=[(P,'''		"-c", "diff.renameLimit=10000",
''','')],
 needs='a user configuration that sets diff.renameLimit and a commit that renames several files with edits',
 breaks='renames are followed or not depending on the configuration of the user',
 demo='''
import ("fmt"; "io/ioutil"; "os"; "strings")
func main() {
	r := newRepo()
	text := func(i, j int) string {
		var b strings.Builder
		for k := 0; k < 20; k++ {
			fmt.Fprintf(&b, "line %d of file %d\\n", k, i)
		}
		return b.String() + strings.Repeat("edit\\n", j)
	}
	var files []string
	for i := 0; i < 5; i++ {
		files = append(files, fmt.Sprintf("a%d.txt", i), text(i, 0))
	}
	first := r.commit(files...)
	for i := 0; i < 5; i++ {
		r.git("rm", "-q", fmt.Sprintf("a%d.txt", i))
		r.write(fmt.Sprintf("b%d.txt", i), text(i, 1))
	}
	second := r.commit()
	cfg := tmp() + "/config"
	check(ioutil.WriteFile(cfg, []byte("[diff]\\n\\trenameLimit = 2\\n"), 0666))
	os.Setenv("GIT_CONFIG_GLOBAL", cfg)
	res, err := history(r.opts())
	check(err)
	equal("credit of a line of a renamed file", res[second].Files["b3.txt"].Lines[0].Commit, first)
}'''),
dict(id='a23-commit-graph-written', prop='C23',
 edits=[('ripsrc/parentsgraph/parents.go','''	r, err := s.gitLogParents()
	if err != nil {
		return err
	}
	defer r.Close()
''','''	if s.opts.AllBranches {
		// makes walks over long histories much faster, not an error if it is not supported
		c, err := gitexec.Exec(context.Background(), "git", s.opts.RepoDir, []string{"commit-graph", "write", "--reachable"})
		if err == nil {
			c.Close()
		}
	}
	r, err := s.gitLogParents()
	if err != nil {
		return err
	}
	defer r.Close()
'''),('ripsrc/parentsgraph/parents.go','''	args := []string{
		"log",
		"-m",
''','''	args := []string{
		"log", "-m",
''')],
 needs='an analysis of all branches',
 breaks='a commit-graph file is written to the object directory of the analysed repository',
 demo='''
import ("os"; "path/filepath"; "fmt"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	list := func() (res []string) {
		filepath.Walk(r.dir, func(p string, i os.FileInfo, err error) error {
			check(err)
			res = append(res, fmt.Sprint(p, i.Mode(), i.Size()))
			return nil
		})
		return
	}
	before := list()
	branches(r, ripsrc.Opts{})
	equal("files", len(list()), len(before))
	equal("files", list(), before)
}'''),
dict(id='a24-merge-last-parent-wins', prop='C24',
 edits=[(M,'''				res.Lines[i] = &lc
				break
''','''				res.Lines[i] = &lc
''')],
 needs='a merged file with a line that several parents have with different credit',
 breaks='the line is credited through the last parent that has it instead of the first',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/history3/incblame"
func main() {
	bl := func(args ...string) (b incblame.Blame) {
		for i := 0; i+1 < len(args); i += 2 {
			b.Lines = append(b.Lines, &incblame.Line{Commit: args[i], Line: []byte(args[i+1])})
		}
		return
	}
	p1 := bl("c1", "same", "c1", "one")
	p2 := bl("c2", "same", "c2", "two")
	d1 := incblame.Parse([]byte("diff --git a/f b/f\\nindex 1..2 100644\\n--- a/f\\n+++ b/f\\n@@ -1,2 +1,3 @@\\n same\\n one\\n+two\\n"))
	d2 := incblame.Parse([]byte("diff --git a/f b/f\\nindex 1..2 100644\\n--- a/f\\n+++ b/f\\n@@ -1,2 +1,3 @@\\n same\\n+one\\n two\\n"))
	res := incblame.ApplyMerge([]incblame.Blame{p1, p2}, []incblame.Diff{d1, d2}, "m", "f")
	equal("credit of the common line", res.Lines[0].Commit, "c1")
}'''),
dict(id='a25-blame-drops-carriage-return', prop='C25',
 edits=[('ripsrc/gitblame2/parse_output.go','				rl.Content = l[1:]','				rl.Content = strings.TrimRight(l[1:], "\\r")')],
 needs='a file with carriage returns at the end of its lines',
 breaks='the text of a line is not exactly the line of the file',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/gitblame2"
func main() {
	r := newRepo()
	c := r.commit("a.txt", "one\\r\\ntwo\\r\\r\\n")
	res, err := gitblame2.Run(r.dir, c, "a.txt")
	check(err)
	equal("line", []byte(res.Lines[0].Content), []byte("one\\r"))
	equal("line", []byte(res.Lines[1].Content), []byte("two\\r\\r"))
}'''),
dict(id='a26-only-empty-repos', prop='C26',
 edits=[('ripsrc/cmd/cmdcode/cmd.go','''		stats.Repos += 1
		stats.Entries += entries
		if err == cmdutils.ErrRevParseFailed {
			stats.SkippedEmptyRepos++
		} else if err != nil {''','''		stats.Entries += entries
		if err == cmdutils.ErrRevParseFailed {
			stats.SkippedEmptyRepos++
			return nil
		}
		stats.Repos += 1
		if err != nil {''')],
 needs='a directory in which all repositories are empty',
 breaks='the command claims that no repositories were found and exits with status 1',
 sh='''go build -tags no_license -overlay "$T/overlay.json" -o "$T/demo" ./verifdemo && go build -tags no_license -o "$T/ripsrc" . && RIPSRC="$T/ripsrc" "$T/demo"''',
 demo='''
import ("os"; "os/exec")
func main() {
	d := tmp()
	check(exec.Command("git", "init", "-q", d+"/repo").Run())
	out, err := exec.Command(os.Getenv("RIPSRC"), "code", d).CombinedOutput()
	if err != nil {
		fail("%v %s", err, out)
	}
}'''),
dict(id='a27-log-line-in-two-writes', prop='C27',
 edits=[('ripsrc/pkg/logger/logger.go','''		s.mu.Lock()
		defer s.mu.Unlock()
		p := fmt.Sprintf(format, args...)
		_, err := s.wr.Write([]byte(p))
		if err != nil {
			panic(err)
		}
		_, err = s.wr.Write([]byte("\\n"))
		if err != nil {''','''		p := fmt.Sprintf(format, args...)
		err := s.write(p)
		if err != nil {
			panic(err)
		}
		err = s.write("\\n")
		if err != nil {'''),
 ('ripsrc/pkg/logger/logger.go','''type kv struct {''','''func (s *DefaultLogger) write(p string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, err := s.wr.Write([]byte(p))
	return err
}

type kv struct {''')],
 needs='two goroutines that log at the same time',
 breaks='a line of one call can be written between the text and the line end of another',
 demo='''
import ("bytes"; "sync"; "strings"; "runtime"; "github.com/pinpt/ripsrc/ripsrc/pkg/logger")
type slow struct{ bytes.Buffer }
func (s *slow) Write(b []byte) (int, error) {
	n, err := s.Buffer.Write(b)
	for i := 0; i < 5; i++ {
		runtime.Gosched()
	}
	return n, err
}
func main() {
	for try := 0; try < 50; try++ {
		var out slow
		l := logger.NewDefaultLogger(&out)
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 50; k++ {
					l.Info("message", "k", "v")
				}
			}()
		}
		wg.Wait()
		for _, line := range strings.Split(strings.TrimSuffix(out.String(), "\\n"), "\\n") {
			equal("line", line, "INFO message [{k v}]")
		}
	}
}'''),
dict(id='a28-candidates-in-map-order', prop='C28',
 edits=[(P,'''		var candidates []*incblame.Blame
		for _, p := range parentHashes {''','''		var candidates []*incblame.Blame
		for p := range hashToParOrd {''')],
 needs='a merge of branches that made the same change independently, so that the file is equal in both parents but its credit is not',
 breaks='the credit of the lines that later commits keep depends on the order of iteration over a map',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b")
	r.commit("a.txt", "1\\nsame\\n", "b.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "1\\nsame\\n", "c.txt", "1\\n")
	r.mergeTree([]string{"b"}, "b.txt", "1\\n")
	c := r.commit("a.txt", "1\\nsame\\nlast\\n")
	want := ""
	for i := 0; i < 25; i++ {
		res, err := history(r.opts())
		check(err)
		got := show(res, c, "a.txt")
		if i == 0 {
			want = got
		}
		equal("lines", got, want)
	}
}'''),
dict(id='a29-slowest-cut-before-sort', prop='C29',
 edits=[(P,'''	s.SlowestCommits = append(s.SlowestCommits, CommitWithDuration{Commit: commit, Duration: d})
	sort.Slice(s.SlowestCommits''','''	if len(s.SlowestCommits) < maxSlowestCommits {
		s.SlowestCommits = append(s.SlowestCommits, CommitWithDuration{Commit: commit, Duration: d})
	}
	sort.Slice(s.SlowestCommits'''),
 (P,'''	if len(s.SlowestCommits) > maxSlowestCommits {
		s.SlowestCommits = s.SlowestCommits[0:maxSlowestCommits]
	}
''','')],
 needs='more than ten commits, with the slow ones after the first ten',
 breaks='the list of slowest commits holds the first ten commits',
 demo='''
import ("time"; "fmt"; "github.com/pinpt/ripsrc/ripsrc/history3/process")
func main() {
	var t process.Timing
	for i := 1; i <= 30; i++ {
		t.UpdateSlowestCommitsWith(fmt.Sprint(i), time.Duration(i)*time.Millisecond)
	}
	equal("number", len(t.SlowestCommits), 10)
	equal("slowest", t.SlowestCommits[0].Commit, "30")
	equal("last", t.SlowestCommits[9].Commit, "21")
}'''),
]
