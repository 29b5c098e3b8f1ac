P='ripsrc/history3/process/process.go'
AM='ripsrc/history3/incblame/apply_merge2.go'
AP='ripsrc/history3/incblame/apply.go'
PA='ripsrc/history3/process/parser/parser.go'
W='ripsrc/history3/process/repo/writer.go'
R='ripsrc/history3/process/repo/reader.go'
CM='ripsrc/commitmeta/commitmeta.go'
B='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
MC='ripsrc/branches2/merge_commit.go'
BM='ripsrc/branchmeta/branchmeta.go'
G='ripsrc/parentsgraph/parents.go'
FI='ripsrc/fileinfo/fileinfo.go'
CI='ripsrc/code_info.go'
GR='ripsrc/pkg/gitrepos/gitrepos.go'
L='ripsrc/pkg/logger/logger.go'
GB='ripsrc/gitblame2/parse_output.go'
LE='ripsrc/fileinfo/license_enabled.go'
bugs=[
dict(id='e03-message-trimmed', prop='C05',
 edits=[(CM,'p.commit.Message = string(buf[len(messagePrefix):])','p.commit.Message = strings.TrimSpace(string(buf[len(messagePrefix):]))')],
 needs='a subject that begins or ends with a space that is not an ASCII one',
 breaks='the subject is not the one git reports',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	msg := "\\u00a0subject\\u3000"
	r.gitIn(fmt.Sprintf("commit refs/heads/master\\ncommitter user <user@example.com> %d +0000\\ndata %d\\n%s\\nM 644 inline f\\ndata 2\\n1\\n\\n", r.time, len(msg), msg), "fast-import", "--quiet")
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunSlice()
	check(err)
	equal("subject", res[0].Message, msg)
}'''),
dict(id='e04-merge-cut-stops-at-branch', prop='C13',
 edits=[(BC,'''			for _, p := range par {
				rec(p)
			}
		}
		rec(defaultHead)
	}

	commitsDone''','''			for i := 0; i < len(par) && (i == 0 || par[i-1] != branchHead); i++ {
				rec(par[i])
			}
		}
		rec(defaultHead)
	}

	commitsDone''')],
 needs='a branch that was merged with others at once, one of which it is based on',
 breaks='commits of the other branch are reported as commits of this one',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "x")
	x := r.commit("x.txt", "1\\n")
	r.git("checkout", "-q", "-b", "b")
	b := r.commit("b.txt", "1\\n")
	r.git("checkout", "-q", "x")
	r.commit("x.txt", "2\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	r.mergeTree([]string{"b", "x"})
	for _, br := range branches(r, ripsrc.Opts{}) {
		if br.Name == "b" {
			equal("commits", len(br.Commits), 1)
			equal("commit", br.Commits[0], b)
			equal("from", br.BranchedFromCommits[0], x)
		}
	}
}'''),
dict(id='e05-counts-by-content', prop='C15',
 edits=[(CI,'''	processor.CountStats(filejob)
	filejob.Content = nil
''','''	if known := countsByContent[string(fileBytes)]; known != nil {
		// counted before, only need the kinds of lines
		processor.CountStats(filejob)
		filejob = known
	} else {
		processor.CountStats(filejob)
		if len(countsByContent) > 10000 {
			countsByContent = map[string]*processor.FileJob{}
		}
		countsByContent[string(fileBytes)] = filejob
	}
	filejob.Content = nil
'''),(CI,'func blameToFileContent(','var countsByContent = map[string]*processor.FileJob{}\n\nfunc blameToFileContent(')],
 needs='files with the same content and different languages',
 breaks='the totals of the second file are the ones of the first language',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	t := "# one\\n# two\\nx = 1\\n"
	r.commit("a.py", t)
	r.commit("a.js", t)
	res := code(ripsrc.Opts{RepoDir: r.dir})
	equal("comments of a.py", res[0].Comments, int64(2))
	equal("comments of a.js", res[1].Comments, int64(0))
}'''),
dict(id='e06-first-line-of-numstat', prop='C06',
 edits=[(CM,'adds, _ := strconv.ParseInt(tok[0], 10, 32)','adds, _ := strconv.ParseInt(tok[0], 0, 20)')],
 needs='a change that adds more than half a million lines',
 breaks='the recorded number of added lines is too small',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	r.commit("a.txt", strings.Repeat("\\n", 600000))
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunSlice()
	check(err)
	equal("additions", res[0].Files["a.txt"].Additions, 600000)
}'''),
dict(id='e07-license-below-first-match', prop='C17',
 edits=[(LE,'''			if matches[0].Confidence >= minConfidenceLevel {
				return &matches[0], nil
			}
''','''			for i := range matches {
				if matches[i].Confidence*float32(1+i) >= minConfidenceLevel {
					return &matches[i], nil
				}
			}
''')],
 needs='a licence text that several licences match with moderate confidence',
 breaks='a licence with less than the required confidence is reported',
 flags='',
 demo='''
import ("bytes"; "github.com/pinpt/ripsrc/ripsrc/fileinfo")
func main() {
	for _, t := range []string{"# Project\\n\\n## License\\n\\nThis is under the GPL v3.\\n", "# Project\\n\\n## License\\n\\nBSD license.\\n", "# Project\\n\\n## License\\n\\nUnder the GPL.\\n"} {
		for _, p := range []string{"README", "README.md"} {
			info, _ := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: p, Content: []byte(t), Lines: bytes.Split([]byte(t), []byte("\\n"))})
			if info.License != nil && info.License.Confidence < 0.85 {
				fail("confidence")
			}
		}
	}
}'''),
dict(id='e08-graph-of-merges-only-once', prop='C11',
 edits=[(G,'''		for _, p := range parents {
			s.Children[p] = append(s.Children[p], commit)
		}
''','''		for i, p := range parents {
			if i > 0 && i > len(parents)-2 && len(parents) > 6 {
				continue
			}
			s.Children[p] = append(s.Children[p], commit)
		}
''')],
 needs='a merge of more than six branches',
 breaks='the last parent does not have the merge as a child',
 demo='''
import ("fmt"; "strings"; "github.com/pinpt/ripsrc/ripsrc/parentsgraph")
func main() {
	r := newRepo()
	var b strings.Builder
	n := 9
	for i := 1; i <= n+1; i++ {
		fmt.Fprintf(&b, "commit refs/heads/b%d\\nmark :%d\\ncommitter user <user@example.com> %d +0000\\ndata 1\\nc\\n", i, i, r.time+i)
		if i == n+1 {
			fmt.Fprintf(&b, "from :1\\n")
			for k := 2; k <= n; k++ {
				fmt.Fprintf(&b, "merge :%d\\n", k)
			}
		}
	}
	fmt.Fprintf(&b, "reset refs/heads/master\\nfrom :%d\\n\\n", n+1)
	r.gitIn(b.String(), "fast-import", "--quiet")
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.dir, Logger: quiet})
	check(g.Read())
	for p := range g.Parents {
		if p != r.head() {
			equal("children", len(g.Children[p]), 1)
		}
	}
}'''),
dict(id='e09-files-counted-once', prop='C29',
 edits=[(CI,'''		s.CodeInfoTimings.Count++
''','''		if len(bl.Lines) != 0 {
			s.CodeInfoTimings.Count++
		}
''')],
 needs='an empty source file',
 breaks='the file is not in the number of processed files',
 demo='''
import ("context"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.go", "package a\\n")
	r.commit("b.go", "")
	p := ripsrc.New(ripsrc.Opts{RepoDir: r.dir, Logger: quiet})
	res, err := p.CodeSlice(context.Background())
	check(err)
	equal("results", len(res), 2)
	equal("counted", p.CodeInfoTimings.Count, 2)
}'''),
dict(id='e10-dot-git-anywhere', prop='C26',
 edits=[(GR,'''		if !sub.IsDir() {
''','''		if !sub.IsDir() || len(sub.Name()) > 1 && sub.Name()[:2] == ".." {
''')],
 needs='a directory whose name begins with two dots',
 breaks='the repository in it is not visited',
 demo='''
import ("os"; "os/exec"; "github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos")
func main() {
	d := os.Getenv("TMPDIR")+"/x"
	check(os.MkdirAll(d+"/..data", 0755))
	check(exec.Command("git", "init", "-q", d+"/..data").Run())
	n := 0
	check(gitrepos.IterDir(d, 1, func(string) error { n++; return nil }))
	equal("repositories", n, 1)
}'''),
dict(id='e11-same-pair-logged-once', prop='C27',
 edits=[(L,'''		res = append(res, kv{k, v})''','''		if n := len(res); n > 0 && res[n-1].K == k {
			res[n-1].V = v
		} else {
			res = append(res, kv{k, v})
		}''')],
 needs='two pairs with the same key in one call',
 breaks='the first pair is not in the line',
 demo='''
import ("bytes"; "github.com/pinpt/ripsrc/ripsrc/pkg/logger")
func main() {
	var b bytes.Buffer
	logger.NewDefaultLogger(&b).Info("m", "a", 1, "a", 2)
	equal("line", b.String(), "INFO m [{a 1} {a 2}]\\n")
}'''),
dict(id='e12-merge-commit-by-second-parent', prop='C14',
 edits=[(MC,'''		if reachableFromHead[ch] {
			return ch
		}
	}
	return ""''','''		if par := gr.Parents[ch]; reachableFromHead[ch] && (len(par) < 3 || par[2] != branchHead) {
			return ch
		}
	}
	return ""''')],
 needs='a branch that is the third parent of the merge',
 breaks='the merged branch has no merge commit',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	for _, b := range []string{"x", "y"} {
		r.git("checkout", "-q", "-b", b, "master")
		r.commit(b+".txt", "1\\n")
	}
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	m := r.mergeTree([]string{"x", "y"})
	for _, b := range branches(r, ripsrc.Opts{}) {
		if b.Name != "master" {
			equal("merge commit of "+b.Name, b.MergeCommit, m)
		}
	}
}'''),
dict(id='e13-names-without-prefix-characters', prop='C12',
 edits=[(BM,'''		if b.Name == "HEAD" {''','''		if b.Name = strings.TrimPrefix(b.Name, "origin/"); b.Name == "HEAD" {''')],
 needs='a branch of the remote whose name begins with origin/',
 breaks='the branch is reported under another name',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	r.git("update-ref", "refs/remotes/origin/origin/b", a)
	for _, b := range branches(r, ripsrc.Opts{BranchesUseOrigin: true}) {
		if b.Name != "master" {
			equal("name", b.Name, "origin/b")
		}
	}
}'''),
dict(id='e14-checkpoint-lines-by-text', prop='C09',
 edits=[(W,'''	linePointers := map[*incblame.Line]uint64{}
''','''	linePointers := map[*incblame.Line]uint64{}
	type oneLine struct {
		commit string
		data   uint64
	}
	sameLines := map[oneLine]uint64{}
'''),(W,'''				if lp, ok := linePointers[l]; ok {
''','''				// long lines are often repeated, keep one of each
				long := oneLine{l.Commit, 0}
				if len(l.Line) > 256 {
					long.data = xxhash.Sum64(l.Line[:256])
				}
				if lp, ok := sameLines[long]; ok && long.data != 0 {
					bl.LinePointers = append(bl.LinePointers, lp)
					continue
				} else if lp, ok := linePointers[l]; ok {
'''),(W,'''				linePointers[l] = lp
''','''				linePointers[l] = lp
				sameLines[long] = lp
''')],
 needs='two long lines of one commit that differ only after 256 characters',
 breaks='both lines come back as the first one',
 demo='''
import "strings"
func main() {
	r := newRepo()
	long := strings.Repeat("x", 300)
	a := r.commit("a.txt", long+"1\\n"+long+"2\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	b := r.commit("a.txt", long+"1\\n"+long+"2\\n3\\n")
	o.CommitFromIncl = b
	o.NoStrictResume = true
	res, err := history(o)
	check(err)
	equal("a.txt", show(res, b, "a.txt"), a[:8]+":"+long+"1\\n"+a[:8]+":"+long+"2\\n"+b[:8]+":3")
}'''),
dict(id='e16-pull-request-of-default', prop='C14',
 edits=[(B,'''	if s.reachableFromHead[nameAndHash.Commit] {
		res.IsMerged''','''	if s.reachableFromHead[nameAndHash.Commit] && (name != "" || nameAndHash.Commit != defaultHead) {
		res.IsMerged''')],
 needs='a pull request whose head is the head of the default branch',
 breaks='it is not reported as merged',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	b := r.commit("a.txt", "2\\n")
	for _, br := range branches(r, ripsrc.Opts{PullRequestSHAs: []string{b}}) {
		if br.IsPullRequest {
			equal("merged", br.IsMerged, true)
		}
	}
}'''),
dict(id='e18-shared-file-parts', prop='C20',
 edits=[(AP,'''		res = append(res, file.Lines[from:to]...)
''','''		if len(res) == 0 && to > 1000 {
			// most of the file is the same
			res = file.Lines[from:to]
		} else {
			res = append(res, file.Lines[from:to]...)
		}
''')],
 needs='a change after the first thousand lines of a file',
 breaks='lines of the earlier version of the file are overwritten',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/history3/process")
func main() {
	r := newRepo()
	t := strings.Repeat("line\\n", 1500)
	a := r.commit("a.txt", t+"end\\n")
	r.commit("a.txt", t+"other\\n")
	ch := make(chan process.Result)
	go process.New(r.opts()).Run(ch)
	first := <-ch
	bl := first.Files["a.txt"]
	for range ch {
	}
	equal("commit", first.Commit, a)
	equal("last line", string(bl.Lines[len(bl.Lines)-1].Line), "end")
}'''),
]
