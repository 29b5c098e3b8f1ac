P='ripsrc/history3/process/process.go'
AM='ripsrc/history3/incblame/apply_merge2.go'
R='ripsrc/history3/process/repo/reader.go'
RP='ripsrc/history3/process/repo/repo.go'
CM='ripsrc/commitmeta/commitmeta.go'
B='ripsrc/branches2/process.go'
G='ripsrc/parentsgraph/parents.go'
RR='ripsrc/cmd/cmdutils/repo_run.go'
GB='ripsrc/gitblame2/gitblame.go'
CI='ripsrc/code_info.go'
GR='ripsrc/pkg/gitrepos/gitrepos.go'
bugs=[
dict(id='f02-merged-empty-file-reported', prop='C04',
 edits=[(P,'''				if pb != nil {
					// exacly the same as parent''','''				if pb != nil && (pb.IsBinary || len(pb.Lines) != 0) {
					// exacly the same as parent''')],
 needs='a merge of a file that was made empty in one branch',
 breaks='the merge reports a file that it did not change',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "side")
	r.commit("a.txt", "")
	r.git("checkout", "-q", "master")
	r.commit("b.txt", "1\\n")
	m := r.mergeTree([]string{"side"}, "a.txt", "")
	res, err := history(r.opts())
	check(err)
	equal("files of the merge", len(res[m].Files), 0)
}'''),
dict(id='f03-merge-of-whole-parent', prop='C24',
 edits=[(AM,'''		res := Apply(p, diffs[i], commit, fileForDebug)
		cand = append(cand, res)
''','''		one := Apply(p, diffs[i], commit, fileForDebug)
		own := 0
		for _, l := range one.Lines {
			if l.Commit == commit {
				own++
			}
		}
		if own == 0 && len(one.Lines) != 0 {
			// all lines are from this parent, no need for the others
			return one
		}
		cand = append(cand, one)
''')],
 needs='a merge that only removes lines of the second parent, some of which the first one has with another credit',
 breaks='lines are credited through a parent other than the first that supplies them',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "side")
	r.commit("a.txt", "1\\nsame\\nother\\nlast\\n")
	r.git("checkout", "-q", "master")
	a := r.commit("a.txt", "1\\nsame\\nmine\\n")
	m := r.mergeTree([]string{"side"}, "a.txt", "1\\nsame\\nother\\n")
	res, err := history(r.opts())
	check(err)
	equal("credit", res[m].Files["a.txt"].Lines[1].Commit, a)
}'''),
dict(id='f09-removed-binary', prop='C06',
 edits=[(CM,'''				if tok[0] == "-" {
					file.Binary = true
''','''				if tok[0] == "-" {
					file.Binary = file.Status != GitFileCommitStatusRemoved
''')],
 needs='a commit that removes a binary file',
 breaks='the removal is not reported as one of a binary file',
 demo='''
import ("os"; "path/filepath"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	r.commit("a.bin", "\\x00\\x01\\n", "b.txt", "1\\n")
	check(os.Remove(filepath.Join(r.dir, "a.bin")))
	b := r.commit()
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	equal("binary", res[b].Files["a.bin"].Binary, true)
}'''),
dict(id='f12-behind-of-pull-requests', prop='C14',
 edits=[(B,'''		if len(res.BranchedFromCommits) >= 1 {
''','''		if len(res.BranchedFromCommits) >= 1 && !res.IsPullRequest {
''')],
 needs='an open pull request that is behind the default branch',
 breaks='the number of commits it is behind is 0',
 demo='''
import ("context"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "side")
	s := r.commit("b.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	all, err := ripsrc.New(ripsrc.Opts{Logger: quiet, RepoDir: r.dir, AllBranches: true, PullRequestSHAs: []string{s}}).BranchesSlice(context.Background())
	check(err)
	for _, b := range all {
		if b.IsPullRequest {
			equal("behind", b.BehindDefaultCount, 1)
		}
	}
}'''),
dict(id='f13-listing-not-closed', prop='C19',
 edits=[(CM,'''	defer r.Close()

	var parser parser
''','''
	var parser parser
'''),(CM,'''		if !ok {
			break
		}
	}
	if err := scanner.Err(); err != nil {''','''		if !ok {
			break
		}
	}
	r.Close()
	if err := scanner.Err(); err != nil {''')],
 needs='a commit whose date can not be read, with more output of git after it',
 breaks='git and the goroutine that reads its output are left behind',
 demo='''
import ("runtime"; "strings"; "time"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	raw := "tree " + r.git("rev-parse", a+"^{tree}") + "\\nparent " + a + "\\nauthor a <a@b> x +0000\\ncommitter a <a@b> 1500000100 +0000\\n\\nm\\n"
	b := r.gitIn(raw, "hash-object", "-t", "commit", "-w", "--stdin", "--literally")
	r.git("reset", "-q", "--hard", b)
	for i := 0; i < 5; i++ {
		r.commit("a.txt", strings.Repeat("x", i))
	}
	n := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		_, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
		if err == nil {
			return
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	equal("goroutines", runtime.NumGoroutine(), n)
}'''),
dict(id='f15-status-before-run', prop='C23',
 edits=[(RR,'''	err := run()
	if err != nil {
''','''	st := exec.Command("git", "status", "--porcelain")
	st.Dir = repoDir
	if out, err := st.Output(); err == nil && len(out) != 0 {
		fmt.Fprintf(wr, "working tree has changes that are not committed, repo: %v\\n", repoDir)
	}

	if err := run(); err != nil {
''')],
 needs='a working tree with files that are newer than the index, and the command',
 breaks='the index of the analysed repository is written',
 sh='''go build -o "$T/ripsrc" . && mkdir -p "$T/d" && cd "$T/d" && git init -q r && cd r && echo 1 > a.txt && git add . && git -c user.name=a -c user.email=a@b commit -qm m && touch -d '2001-01-01' a.txt || exit 2
before=$(sha256sum .git/index); "$T/ripsrc" code "$T/d" >/dev/null 2>&1; after=$(sha256sum .git/index); [ "$before" = "$after" ]''',
 demo='''
func main() {}'''),
dict(id='f21-lists-by-ends', prop='C09',
 edits=[(R,'''			for _, lp := range obj.LinePointers {
				line, ok := lines[lp]
				if !ok {
					panic("line")
				}
				bl.Lines = append(bl.Lines, line)
			}
			blames''','''			// versions of a file often have the same lines
			var ends [3]uint64
			if n := len(obj.LinePointers); n > 2 {
				ends = [3]uint64{obj.LinePointers[0], obj.LinePointers[n-1], uint64(n)}
				bl.Lines = loaded[ends]
			}
			for _, lp := range obj.LinePointers[len(bl.Lines):] {
				line, ok := lines[lp]
				if !ok {
					panic("line")
				}
				bl.Lines = append(bl.Lines, line)
			}
			loaded[ends] = bl.Lines
			if ends[2] == 0 {
				delete(loaded, ends)
			}
			blames'''),(R,'''	blames := map[uint64]*incblame.Blame{}
''','''	blames := map[uint64]*incblame.Blame{}
	loaded := map[[3]uint64]incblame.Lines{}
''')],
 needs='two versions of a file that have the same number of lines and differ in the middle only',
 breaks='both versions come back with the lines of one of them',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n2\\n3\\n", "b.txt", "x\\n")
	r.git("checkout", "-q", "-b", "side")
	r.commit("a.txt", "1\\nside\\n3\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "1\\nmine\\n3\\n")
	m := r.mergeTree([]string{"side"}, "a.txt", "1\\nmine\\nside\\n3\\n")
	o := r.opts()
	first, err := history(o)
	check(err)
	o.CommitFromIncl, o.NoStrictResume = m, true
	for i := 0; i < 3; i++ {
		res, err := history(o)
		check(err)
		equal("a.txt", show(res, m, "a.txt"), show(first, m, "a.txt"))
	}
}'''),
dict(id='f22-unload-in-batches', prop='C10',
 edits=[(RP,'''	if s.toUnload.Len() > maxCommitsInCheckpoint {
		last''','''	// one at a time is slow
	for i := 0; s.toUnload.Len() > maxCommitsInCheckpoint-i && i < 100; i++ {
		last''')],
 needs='a history of more than a thousand commits and a resume from a commit near the limit',
 breaks='the state has fewer commits than are needed',
 demo='''
func main() {
	r := newRepo()
	cs := r.linear(1102)
	o := r.opts()
	_, err := history(o)
	check(err)
	o.CommitFromIncl, o.NoStrictResume = cs[len(cs)-950], true
	_, err = history(o)
	check(err)
}'''),
dict(id='f24-blame-output-despite-status', prop='C21',
 edits=[(GB,'''	if err != nil {
		return res, err
''','''	if err != nil && len(b) == 0 {
		return res, err
''')],
 needs='git blame that fails after a part of its output, for a file that was binary before',
 breaks='the file is reported with a part of its lines',
 sh='''mkdir "$T/bin"; g=$(command -v git); printf '#!/bin/bash\\nfor a in "$@"; do if [ "$a" = blame ]; then %s "$@" | head -n 13; exit 3; fi; done\\nexec %s "$@"\\n' "$g" "$g" > "$T/bin/git"; chmod +x "$T/bin/git"
PATH="$T/bin:$PATH" ''' + 'go run -tags no_license -overlay "$T/overlay.json" ./verifdemo',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "\\x00\\n")
	r.commit("a.txt", "1\\n2\\n")
	b := r.commit("a.txt", "1\\n2\\n3\\n")
	res, err := history(r.opts())
	if err == nil {
		equal("lines", len(res[b].Files["a.txt"].Lines), 3)
	}
}'''),
dict(id='f28-unreadable-dir-skipped', prop='C26',
 edits=[(GR,'''		err := IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)
		if err != nil {
			return err
		}
	}
''','''		err = IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)
		if err != nil && maxRecursion > 1 {
			return err
		}
	}
	if err != nil {
		return err
	}
''')],
 needs='a callback that fails for a repository followed by others one level below',
 breaks='the other repositories are visited all the same, and the error can be lost',
 demo='''
import ("errors"; "os"; "path/filepath"; "github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos")
func main() {
	d := tmp()
	for _, n := range []string{"a", "b"} {
		check(os.MkdirAll(filepath.Join(d, n, ".git"), 0777))
	}
	n := 0
	err := gitrepos.IterDir(d, 1, func(string) error {
		n++
		if n > 1 {
			return nil
		}
		return errors.New("x")
	})
	equal("error", err, "x")
	equal("visited", n, 1)
}'''),
]
