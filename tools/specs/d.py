P='ripsrc/history3/process/process.go'
W='ripsrc/history3/process/repo/writer.go'
RP='ripsrc/history3/process/repo/repo.go'
CM='ripsrc/commitmeta/commitmeta.go'
B='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
NH='ripsrc/branches2/name_hash.go'
BM='ripsrc/branchmeta/branchmeta.go'
PP='ripsrc/parentsgraph/parentsp/parser.go'
FI='ripsrc/fileinfo/fileinfo.go'
CI='ripsrc/code_info.go'
GR='ripsrc/pkg/gitrepos/gitrepos.go'
L='ripsrc/pkg/logger/logger.go'
bugs=[
dict(id='d01-generated-marker-near-top', prop='C15',
 edits=[(CI,'		if l.line != nil && l.Comment {','		if l.line != nil && l.Comment && index < 50 {')],
 needs='a comment that declares the file generated after its first 50 lines',
 breaks='the file is not skipped',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.go", "package a\\n"+strings.Repeat("var x = 1\\n", 60)+"// DO NOT EDIT\\nvar y = 2\\n")
	res := code(ripsrc.Opts{RepoDir: r.dir})
	equal("skipped", res[0].Skipped, "file was a generated file")
}'''),
dict(id='d02-line-width-in-characters', prop='C16',
 edits=[(FI,'''		if len(line) > maxBytesPerLine {
			return res, fmt.Sprintf(skipMaxLineBytesExceeded, len(line), maxBytesPerLine)''','''		if n := utf8.RuneCount(line); n > maxBytesPerLine {
			return res, fmt.Sprintf(skipMaxLineBytesExceeded, n, maxBytesPerLine)'''),
  (FI,'	"strings"\n','	"strings"\n	"unicode/utf8"\n')],
 needs='a line of more than 1096 bytes that has fewer characters',
 breaks='the file is not skipped',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/fileinfo")
func main() {
	l := "// "+strings.Repeat("\\u00e9", 600)
	_, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: "a.go", Content: []byte("package a\\n"+l+"\\n"), Lines: [][]byte{[]byte("package a"), []byte(l)}})
	equal("skipped", strings.HasPrefix(skip, "File has a line width"), true)
}'''),
dict(id='d03-branches-sorted-without-case', prop='C12',
 edits=[(BM,'		return a.Name < b.Name','		return strings.ToLower(a.Name) < strings.ToLower(b.Name)')],
 needs='branch names with upper case letters',
 breaks='the listing is not sorted by name',
 demo='''
import ("context"; "github.com/pinpt/ripsrc/ripsrc/branchmeta")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "a")
	r.git("branch", "B")
	res, err := branchmeta.Get(context.Background(), branchmeta.Opts{Logger: quiet, RepoDir: r.dir})
	check(err)
	equal("first", res[0].Name, "B")
}'''),
dict(id='d04-checkpoint-files-replaced-singly', prop='C08',
 edits=[(W,'''	err = os.RemoveAll(dir)
	if err != nil {
		return err
	}

	return os.Rename(tmpDir, dir)
''','''	err = os.MkdirAll(dir, 0777)
	if err != nil {
		return err
	}

	for _, name := range []string{checkpointVersionFile, "line-data", "lines", "blames", "repo"} {
		err = os.Rename(filepath.Join(tmpDir, name), filepath.Join(dir, name))
		if err != nil {
			return err
		}
	}
	return os.RemoveAll(tmpDir)
''')],
 needs='a run that is killed while it replaces an older state',
 breaks='the state is a mix of old and new files',
 demo='''
import ("os"; "path/filepath")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	// something else in place of a file of the state
	p := filepath.Join(o.CheckpointsDir, "pp-git-cache", "checkpoint", "lines")
	check(os.Remove(p))
	check(os.MkdirAll(p+"/x", 0777))
	r.commit("a.txt", "2\\n")
	_, err = history(o)
	check(err)
}'''),
dict(id='d05-eight-parents', prop='C05',
 edits=[(CM,'					p.commit.Parents = strings.Split(parents, " ")','					p.commit.Parents = strings.SplitN(parents, " ", 8)')],
 needs='a merge of nine or more commits',
 breaks='the last entry of the parent list is not a commit',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	root := r.commit("a.txt", "1\\n")
	var others []string
	for i := 0; i < 9; i++ {
		r.git("checkout", "-q", "--detach", root)
		others = append(others, r.commit(fmt.Sprintf("%d.txt", i), "1\\n"))
	}
	r.git("checkout", "-q", "master")
	c := r.mergeTree(others)
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	equal("parents", len(res[c].Parents), 10)
}'''),
dict(id='d06-lower-rename-limit', prop='C04',
 edits=[(P,'		"-c", "diff.renameLimit=10000",','		"-c", "diff.renameLimit=200",')],
 needs='a commit that renames and edits more than 200 files',
 breaks='the commit reports the previous names as well',
 demo='''
import ("fmt"; "strings")
func main() {
	r := newRepo()
	var a []string
	for i := 0; i < 250; i++ {
		a = append(a, fmt.Sprintf("old/x%d-%d.txt", i*7%250, i), strings.Repeat(fmt.Sprintf("line of the file %d\\n", i), 20))
	}
	r.commit(a...)
	r.git("mv", "old", "new")
	for i := range a {
		if i%2 == 0 {
			a[i] = strings.Replace(a[i], "old/x", "new/y", 1)
			r.git("mv", strings.Replace(a[i], "new/y", "new/x", 1), a[i])
		} else {
			a[i] += "another\\n"
		}
	}
	c := r.commit(a...)
	res, err := history(r.opts())
	check(err)
	equal("files", len(res[c].Files), 250)
}'''),
dict(id='d07-branch-points-last-parent', prop='C13',
 edits=[(BC,'''				if hasDeep[p] {
					d = true
				}
''','''				d = hasDeep[p]
''')],
 needs='a branch started from two default branch commits, one of them a merge that descends from the other only through a parent that is not its last',
 breaks='a branch point that descends from another one is reported',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	x := r.commit("a.txt", "2\\n")
	r.git("checkout", "-q", "--orphan", "side")
	r.commit("s.txt", "1\\n")
	r.git("checkout", "-q", "master")
	m := r.mergeTree([]string{"side"})
	r.git("checkout", "-q", "-b", "work", x)
	r.commit("w.txt", "1\\n")
	r.mergeTree([]string{m}, "w.txt", "2\\n")
	r.git("checkout", "-q", "master")
	r.git("branch", "-q", "-D", "side")
	b := branches(r, ripsrc.Opts{})["work"]
	equal("branch points", b.BranchedFromCommits, []string{x})
}'''),
dict(id='d08-merged-needs-merge-commit', prop='C14',
 edits=[(B,'''	if s.reachableFromHead[nameAndHash.Commit] {
		res.IsMerged = true
		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
''','''	if s.reachableFromHead[nameAndHash.Commit] {
		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
		res.IsMerged = res.MergeCommit != ""
''')],
 needs='a branch whose head is the head of the default branch',
 breaks='the branch is not reported as merged',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "same")
	equal("merged", branches(r, ripsrc.Opts{})["same"].IsMerged, true)
}'''),
dict(id='d09-shorter-parent-lines', prop='C11',
 edits=[(PP,'const maxLine = 1 * mb','const maxLine = 48 * 1024')],
 needs='a merge of more than 1200 commits',
 breaks='the graph can not be read',
 demo='''
import ("fmt"; "strings"; "github.com/pinpt/ripsrc/ripsrc/parentsgraph")
func main() {
	r := newRepo()
	var b strings.Builder
	n := 1300
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&b, "commit refs/heads/b%d\\nmark :%d\\ncommitter user <user@example.com> %d +0000\\ndata 1\\nc\\n\\n", i, i, r.time+i)
	}
	fmt.Fprintf(&b, "commit refs/heads/master\\ncommitter user <user@example.com> %d +0000\\ndata 1\\nc\\nfrom :1\\n", r.time+n+1)
	for i := 2; i <= n; i++ {
		fmt.Fprintf(&b, "merge :%d\\n", i)
	}
	r.gitIn(b.String(), "fast-import", "--quiet")
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.dir, Logger: quiet})
	check(g.Read())
	equal("parents", len(g.Parents[r.head()]), n)
}'''),
dict(id='d11-branchy-state', prop='C10',
 edits=[(RP,'	if s.toUnload.Len() > maxCommitsInCheckpoint {','	if len(s.repo) > maxCommitsInCheckpoint {')],
 needs='more than a thousand commits, many of them without children',
 breaks='finished commits among the last thousand are dropped',
 demo='''
import ("fmt"; "strings")
func main() {
	r := newRepo()
	var b strings.Builder
	n := 800
	put := func(ref string, i int, from string) {
		fmt.Fprintf(&b, "commit refs/heads/%s\\nmark :%d\\ncommitter user <user@example.com> %d +0000\\ndata 1\\nc\\n%sM 644 inline f%d\\ndata 4\\n%03d\\n\\n", ref, i, r.time+i*60, from, i%5, i%1000)
	}
	put("master", 1, "")
	for i := 2; i <= 700; i++ { // tips
		put(fmt.Sprintf("b%d", i), i, "from :1\\n")
	}
	for i := 701; i <= 700+n; i++ {
		put("master", i, []string{fmt.Sprintf("from :%d\\n", i-1), "from :1\\n"}[map[bool]int{i == 701: 1}[true]])
	}
	r.gitIn(b.String(), "fast-import", "--quiet")
	o := r.opts()
	o.AllBranches = true
	_, err := history(o)
	check(err)
	// a new branch starts at one of the last thousand finished commits
	r.git("checkout", "-q", "-f", "-b", "late", "master~600")
	o.AllBranches = false
	o.NoStrictResume = true
	o.CommitFromIncl = r.commit("late.txt", "1\\n")
	_, err = history(o)
	check(err)
}'''),
dict(id='d13-one-hasher', prop='C18',
 edits=[(B,'''	h := sha256.New()
	_, err := h.Write''','''	h := hasher
	h.Reset()
	_, err := h.Write'''),(B,'func hash(s string) string {','var hasher = sha256.New()\n\nfunc hash(s string) string {')],
 needs='branches that are processed at the same time',
 breaks='the hash is used without a lock, branches get wrong identities',
 flags='-race -tags no_license',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	for i := 0; i < 60; i++ {
		r.git("branch", fmt.Sprintf("b%d", i))
	}
	done := make(chan bool)
	for i := 0; i < 3; i++ {
		go func() { branches(r, ripsrc.Opts{}); done <- true }()
	}
	for i := 0; i < 3; i++ {
		<-done
	}
}'''),
dict(id='d15-exit-status-after-output', prop='C21',
 edits=[(NH,'''	err := c.Run()
	if err != nil {
		return nil, err
	}
''','''	err := c.Run()
	if err != nil && out.Len() == 0 {
		return nil, err
	}
''')],
 needs='git rev-list that fails after a part of its output',
 breaks='the first commit of the default branch is a wrong one',
 demo='''
import ("context"; "os"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	bin := tmp()
	check(os.WriteFile(bin+"/git", []byte("#!/bin/sh\\nPATH=\\"${PATH#*:}\\"\\ngit \\"$@\\" || exit\\nfor a in \\"$@\\"; do [ \\"$a\\" = rev-list ] && exit 128; done\\nexit 0\\n"), 0755))
	check(os.Setenv("PATH", bin+":"+os.Getenv("PATH")))
	_, err := ripsrc.New(ripsrc.Opts{RepoDir: r.dir, Logger: quiet, AllBranches: true}).BranchesSlice(context.Background())
	if err == nil {
		fail("no error")
	}
}'''),
dict(id='d18-bare-repository-by-given-name', prop='C26',
 edits=[(GR,'	loc, err := filepath.Abs(dir)\n','	loc := dir\n'),(GR,'''	if err != nil {
		return fmt.Errorf("can't convert passed dir to absolute path, err: %v", err)
	}

''','')],
 needs='the directory given as a relative path such as . inside of a bare repository',
 breaks='the repository is not visited',
 demo='''
import ("os"; "github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos")
func main() {
	d := tmp()+"/x.git"
	check(os.MkdirAll(d+"/objects", 0777))
	check(os.Chdir(d))
	n := 0
	check(gitrepos.IterDir(".", 1, func(string) error { n++; return nil }))
	equal("repositories", n, 1)
}'''),
dict(id='d19-plain-messages-unlocked', prop='C27',
 edits=[(L,'''		s.mu.Lock()
		defer s.mu.Unlock()
		p := ''','''		if len(kind) != 4 {
			s.mu.Lock()
			defer s.mu.Unlock()
		}

		p := ''')],
 needs='info messages of several callers at the same time',
 breaks='lines are written into each other',
 demo='''
import ("strings"; "sync"; "time"; "github.com/pinpt/ripsrc/ripsrc/pkg/logger")
type sink struct { mu sync.Mutex; b strings.Builder }
func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.b.Write(p)
	s.mu.Unlock()
	time.Sleep(time.Millisecond)
	return len(p), nil
}
func main() {
	s := &sink{}
	l := logger.NewDefaultLogger(s)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); for j := 0; j < 50; j++ { l.Info("message") } }()
	}
	wg.Wait()
	for _, l := range strings.Split(strings.TrimSuffix(s.b.String(), "\\n"), "\\n") {
		equal("line", l, "INFO message []")
	}
}'''),
dict(id='d21-slowest-sorted-when-full', prop='C29',
 edits=[(P,'''	sort.Slice(s.SlowestCommits, func(i, j int) bool {
		a := s.SlowestCommits[i]
		b := s.SlowestCommits[j]
		return a.Duration > b.Duration
	})
	if len(s.SlowestCommits) > maxSlowestCommits {
''','''	if len(s.SlowestCommits) > maxSlowestCommits {
		sort.Slice(s.SlowestCommits, func(i, j int) bool {
			a := s.SlowestCommits[i]
			b := s.SlowestCommits[j]
			return a.Duration > b.Duration
		})
''')],
 needs='a run of at most ten commits',
 breaks='the list is not in the order of durations',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/history3/process")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	for i := 1; i < 8; i++ {
		r.commit("a.txt", strings.Repeat("line\\n", i*i*3000))
	}
	p := process.New(r.opts())
	_, err := p.RunGetAll()
	check(err)
	l := p.Timing().SlowestCommits
	for i := 1; i < len(l); i++ {
		if l[i].Duration > l[i-1].Duration {
			fail("not sorted")
		}
	}
}'''),
]
