P='ripsrc/history3/process/process.go'
AM='ripsrc/history3/incblame/apply_merge2.go'
CM='ripsrc/commitmeta/commitmeta.go'
CI='ripsrc/code_info.go'
FI='ripsrc/fileinfo/fileinfo.go'
GO='ripsrc/gitblame2/parse_output.go'
B='ripsrc/branches2/process.go'
G='ripsrc/parentsgraph/parents.go'
bugs=[
dict(id='g01-merge-on-its-own', prop='C07',
 edits=[(P,'''	if len(s.mergeParts) > 0 {
		err = s.processGotMergeParts(resChan)''','''	if n := len(s.mergeParts); n > 0 && i > n {
		err = s.processGotMergeParts(resChan)''')],
 needs='an incremental run in which the only commit is a merge (with an ancestor)',
 breaks='the merge is not delivered',
 demo='''
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	b := r.commit("b.txt", "1\\n")
	o := r.opts()
	_, err := history(o)
	check(err)
	r.mergeTree([]string{a}, "a.txt", "1\\n2\\n3\\n")
	o.CommitFromIncl, o.CommitFromMakeNonIncl = b, true
	res, err := history(o)
	check(err)
	equal("commits", len(res), 1)
}'''),
dict(id='g02-line-older-than-its-file', prop='C15',
 edits=[(CI,'''		line2.Date = meta.Date
''','''		d := meta.Date
		if d.After(res.Commit.Date) {
			// clocks are not always right
			d = res.Commit.Date
		}
		line2.Date = d
''')],
 needs='a commit with an earlier date than the one it is based on',
 breaks='lines have the date of a commit they are not from',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.go", "package a\\n")
	r.time -= 5000
	b := r.commit("a.go", "package a\\nvar x int\\n")
	for _, f := range code(ripsrc.Opts{RepoDir: r.dir}) {
		if f.Commit.SHA == b {
			equal("date of line 1", f.Lines[0].Date.Unix(), 1500000060)
			equal("date of line 2", f.Lines[1].Date.Unix(), 1500000060 - 5000 + 60)
		}
	}
}'''),
dict(id='g04-blame-byte-order-mark', prop='C25',
 edits=[(GO,'''				rl.Content = l[1:]
''','''				rl.Content = strings.TrimPrefix(l[1:], "\\xef\\xbb\\xbf")
''')],
 needs='a file that begins with a byte order mark',
 breaks='the text of the line is not the one in the file',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/gitblame2"
func main() {
	r := newRepo()
	a := r.commit("a.txt", "\\xef\\xbb\\xbfone\\n2\\n")
	res, err := gitblame2.Run(r.dir, a, "a.txt")
	check(err)
	equal("line", res.Lines[0].Content, "\\xef\\xbb\\xbfone")
}'''),
dict(id='g05-web-committer', prop='C05',
 edits=[(CM,'''				p.commit.CommitterName = string(buf[len(committerNamePrefix):])
''','''				name := string(buf[len(committerNamePrefix):])
				p.commit.CommitterName = name
				if p.commit.CommitterEmail == "noreply@github.com" && p.commit.CommitterName == "GitHub" {
					// made in the web interface
					p.commit.CommitterName, p.commit.CommitterEmail = p.commit.AuthorName, p.commit.AuthorEmail
				}
''')],
 needs='a commit that was made in the web interface of GitHub',
 breaks='the committer is not the recorded one',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/commitmeta"
func main() {
	r := newRepo()
	r.env = []string{"GIT_COMMITTER_NAME=GitHub", "GIT_COMMITTER_EMAIL=noreply@github.com"}
	a := r.commit("a.txt", "1\\n")
	m, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	equal("committer", m[a].CommitterName+" "+m[a].CommitterEmail, "GitHub noreply@github.com")
}'''),
dict(id='g06-merged-blank-lines', prop='C02',
 edits=[(AM,'''			if line.Commit != commit {
''','''			if line.Commit != commit && len(line.Line) != 0 {
''')],
 needs='a merge of a file that was changed on both sides, with an empty line that only the second parent has',
 breaks='the empty line is credited to the merge',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n2\\n3\\n")
	r.git("checkout", "-q", "-b", "side")
	b := r.commit("a.txt", "1\\n2\\n3\\n\\nx\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "0\\n1\\n2\\n3\\n")
	m := r.mergeTree([]string{"side"}, "a.txt", "0\\n1\\n2\\n3\\n\\nx\\n")
	res, err := history(r.opts())
	check(err)
	equal("credit", res[m].Files["a.txt"].Lines[4].Commit, b)
}'''),
dict(id='g12-children-by-first-character', prop='C28',
 edits=[(G,'''		sort.Strings(data)
''','''		sort.Slice(data, func(i, j int) bool { return data[i][0] < data[j][0] })
''')],
 needs='a branch head with two children whose hashes begin with the same character',
 breaks='the merge commit that is reported for the branch is sometimes the one and sometimes the other',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc/parentsgraph")
func main() {
	m := map[string][]string{"r": nil}
	for i := 0; i < 30; i++ {
		m[fmt.Sprintf("a%02d", i)] = []string{"r"}
	}
	want := fmt.Sprint(parentsgraph.NewFromMap(m).Children["r"])
	for i := 0; i < 50; i++ {
		equal("children", parentsgraph.NewFromMap(m).Children["r"], want)
	}
}'''),
dict(id='g14-first-commit-is-optional', prop='C21',
 edits=[(B,'''		firstCommit, err := s.getFirstCommit()
		if err != nil {
			return err
		}
''','''		firstCommit, err := s.getFirstCommit()
		if err != nil {
			s.opts.Logger.Info("could not get the first commit", "err", err)
		}
''')],
 needs='git rev-list that fails',
 breaks='the default branch is reported without its first commit and the call succeeds',
 sh='''mkdir "$T/bin"; g=$(command -v git); printf '#!/bin/bash\\nfor a in "$@"; do if [ "$a" = rev-list ]; then exit 3; fi; done\\nexec %s "$@"\\n' "$g" > "$T/bin/git"; chmod +x "$T/bin/git"
PATH="$T/bin:$PATH" ''' + 'go run -tags no_license -overlay "$T/overlay.json" ./verifdemo',
 demo='''
import ("context"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	all, err := ripsrc.New(ripsrc.Opts{Logger: quiet, RepoDir: r.dir, AllBranches: true}).BranchesSlice(context.Background())
	if err == nil {
		for _, b := range all {
			if b.FirstCommit == "" {
				fail("no first commit and no error")
			}
		}
	}
}'''),
]
