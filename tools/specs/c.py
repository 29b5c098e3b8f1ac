P='ripsrc/history3/process/process.go'
A='ripsrc/history3/incblame/apply.go'
PA='ripsrc/history3/incblame/parse.go'
PU='ripsrc/history3/incblame/parse_utils.go'
W='ripsrc/history3/process/repo/writer.go'
R='ripsrc/history3/process/repo/reader.go'
CM='ripsrc/commitmeta/commitmeta.go'
B='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
BM='ripsrc/branchmeta/branchmeta.go'
G='ripsrc/parentsgraph/parents.go'
FI='ripsrc/fileinfo/fileinfo.go'
CI='ripsrc/code_info.go'
FAST='''
func fastHistory(r *repo, n int, f func(b *strings.Builder, i int)) {
	var b strings.Builder
	for i := 1; i <= n; i++ {
		f(&b, i)
	}
	r.gitIn(b.String(), "fast-import", "--quiet")
}
func put(r *repo, b *strings.Builder, mark, from int, ref, file, data string) {
	fmt.Fprintf(b, "commit refs/heads/%s\\nmark :%d\\ncommitter user <user@example.com> %d +0000\\ndata 1\\nc\\n", ref, mark, r.time+mark*60)
	if from != 0 {
		fmt.Fprintf(b, "from :%d\\n", from)
	}
	fmt.Fprintf(b, "M 644 inline %s\\ndata %d\\n%s\\n", file, len(data), data)
}
'''
bugs=[
dict(id='c01-earlier-file-of-same-name', prop='C01',
 edits=[(P,'				pb := s.repo.GetFileOptional(parentHash, diff.PathPrev)','''				pb := s.repo.GetFileOptional(parentHash, diff.Path)
				if pb == nil {
					pb = s.repo.GetFileOptional(parentHash, diff.PathPrev)
				}''')],
 needs='a file that is renamed and edited to a name that an earlier file had, which was renamed away itself',
 breaks='the patch is applied to the content the earlier file had',
 demo='''
import "strings"
func main() {
	r := newRepo()
	text := strings.Repeat("some line of text\\n", 20)
	other := strings.Repeat("another line, a longer one\\n", 30)
	r.commit("a.txt", text, "b.txt", other)
	r.git("mv", "a.txt", "c.txt")
	r.commit()
	r.git("mv", "b.txt", "a.txt")
	c := r.commit("a.txt", other+"last\\n")
	res, err := history(r.opts())
	check(err)
	var got []string
	for _, l := range res[c].Files["a.txt"].Lines {
		got = append(got, string(l.Line))
	}
	equal("lines", strings.Join(got, "\\n")+"\\n", other+"last\\n")
}'''),
dict(id='c02-line-end-keeps-credit', prop='C02',
 edits=[(A,"""			case '-':
				oldFileIndex++
			case '+':
				addLine(copyBytes(data))
""","""			case '-':
				removed = file.Lines[oldFileIndex]
				oldFileIndex++
			case '+':
				if removed != nil && bytes.Equal(removed.Line, data) {
					// text of the line did not change
					res = append(res, removed)
				} else {
					addLine(copyBytes(data))
				}
				removed = nil
"""),(A,"""		for scanner.Scan() {
			b := scanner.Bytes()
""","""		var removed *Line
		for scanner.Scan() {
			b := scanner.Bytes()
""")],
 needs='a commit that adds the line end to the last line of a file, or takes it away',
 breaks='the line keeps its credit, though git credits the commit with it',
 demo='''
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n2")
	c := r.commit("a.txt", "1\\n2\\n")
	res, err := history(r.opts())
	check(err)
	equal("credits", show(res, c, "a.txt"), a[:8]+":1\\n"+c[:8]+":2")
}'''),
dict(id='c03-order-of-log', prop='C03',
 edits=[(P,'''		"--date-order",
		"--reverse",
''','''		"--reverse",
''')],
 needs='a branch with commits that are dated before their parents',
 breaks='commits are processed before their parents, which fails',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/history3/process")
func main() {
	r := newRepo()
	var b strings.Builder
	n := 0
	put := func(from, date string, parents ...string) string {
		n++
		b.WriteString("commit refs/heads/master\\nmark :" + from + "\\ncommitter u <u@example.com> " + date + " +0000\\ndata 1\\nc\\n")
		for i, p := range parents {
			b.WriteString([]string{"from", "merge"}[i] + " :" + p + "\\n")
		}
		b.WriteString("M 644 inline " + from + ".txt\\ndata 2\\n1\\n\\n")
		return from
	}
	put("1", "1500001000")
	put("2", "1500000010", "1")
	put("3", "1500002000", "1")
	put("4", "1500000500", "3")
	put("5", "1500003000", "2", "4")
	r.gitIn(b.String(), "fast-import", "--quiet")
	var order []string
	res := map[string]int{}
	sl, err := process.New(r.opts()).RunGetAll()
	check(err)
	for i, x := range sl {
		res[x.Commit] = i
		order = append(order, x.Commit)
	}
	equal("commits", len(order), 5)
	for _, l := range strings.Split(r.git("log", "--pretty=%H %P"), "\\n") {
		f := strings.Fields(l)
		for _, p := range f[1:] {
			if res[p] > res[f[0]] {
				fail("%s comes before its parent %s", f[0], p)
			}
		}
	}
}'''),
dict(id='c04-deleted-in-all-parents', prop='C04',
 edits=[(P,'''		isDelete := true
		for _, diff := range diffs {
			if diff != nil && diff.Path != "" {
				isDelete = false
			}
		}
''','''		isDelete := true
		hadFile := 0
		for _, diff := range diffs {
			if diff == nil {
				continue
			}
			if diff.Path != "" {
				isDelete = false
			} else {
				hadFile++
			}
		}
'''),(P,'''			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
			continue
''','''			if hadFile > 1 || hadFile == parentCount {
				// merge itself removed the file
				res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
			}
			continue
''')],
 needs='a merge without a file that only one of its parents has',
 breaks='the merge does not report the removal',
 demo='''
import "fmt"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n", "b.txt", "1\\n")
	r.git("checkout", "-q", "-b", "side")
	r.git("rm", "-q", "b.txt")
	r.commit("c.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	r.git("merge", "-q", "--no-edit", "side")
	res, err := history(r.opts())
	check(err)
	_, ok := res[r.head()].Files["b.txt"]
	equal("reported", fmt.Sprint(ok), "true")
}'''),
dict(id='c05-date-without-zone', prop='C05',
 edits=[(CM,'				p.commit.Date = t\n','				p.commit.Date = t.UTC()\n')],
 needs='a commit made in a time zone other than UTC',
 breaks='the date is not in the zone that the commit recorded',
 demo='''
import ("os"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	os.Setenv("GIT_AUTHOR_DATE", "1500000000 +0530")
	c := r.commit("a.txt", "1\\n")
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	_, off := res[c].Date.Zone()
	if want := 5*3600+1800; r.git("log", "-1", "--pretty=%ai")[20:] == "+0530" {
		equal("zone", off, want)
	}
}'''),
dict(id='c06-copy-is-a-rename', prop='C06',
 edits=[(CM,'				} else if bytes.HasPrefix(action, removePrefix) {','				} else if bytes.HasPrefix(action, removePrefix) || bytes.HasPrefix(action, copyPrefix) {')],
 needs='a commit that splits a file into two that are both similar to it, which git reports as a copy and a rename',
 breaks='the copy is recorded as a rename',
 demo='''
import ("strings"; "os"; "github.com/pinpt/ripsrc/ripsrc/commitmeta")
func main() {
	r := newRepo()
	text := strings.Repeat("some line of text\\n", 20)
	r.commit("a.txt", text)
	check(os.Remove(r.dir+"/a.txt"))
	c := r.commit("b.txt", text, "c.txt", text)
	res, err := commitmeta.New(r.dir, commitmeta.Opts{}).RunMap()
	check(err)
	copied, renamed := 0, 0
	for _, f := range res[c].Files {
		if f.Copied {
			copied++
		}
		if f.Renamed {
			renamed++
		}
	}
	equal("copied", copied, 1)
	equal("renamed", renamed, 2)
}'''),
dict(id='c07-loaded-state-trimmed', prop='C07',
 edits=[(P,'''		s.repo = r
	}

	s.unloader''','''		s.repo = s.trimLoaded(r)
	}

	s.unloader'''),(P,'''	s.unloader = repo.NewUnloader(s.repo)
	return nil
}
''','''	s.unloader = repo.NewUnloader(s.repo)
	return nil
}

// trimLoaded drops commits that have all of their children in the loaded state, there is nothing left to apply to those.
func (s *Process) trimLoaded(state repo.Repo) repo.Repo {
	keep := map[string]bool{s.opts.CommitFromIncl: true}
	for _, p := range s.graph.Parents[s.opts.CommitFromIncl] {
		keep[p] = true
	}
	var done []string
	for h := range state {
		all := !keep[h]
		for _, ch := range s.graph.Children[h] {
			if _, ok := state[ch]; !ok {
				all = false
			}
		}
		if all && len(s.graph.Children[h]) != 0 {
			done = append(done, h)
		}
	}
	for _, h := range done {
		delete(state, h)
	}
	return state
}
''')],
 needs='an incremental run that processes commits again which are not ancestors of the start commit (a side branch merged later)',
 breaks='the parents of those commits are gone and the run fails',
 demo='''
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "side")
	r.commit("b.txt", "1\\n")
	r.commit("b.txt", "1\\n2\\n")
	r.commit("b.txt", "1\\n2\\n3\\n")
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "1\\n2\\n")
	r.commit("a.txt", "1\\n2\\n3\\n")
	x := r.commit("a.txt", "1\\n2\\n3\\n4\\n")
	o := r.opts()
	o.AllBranches = true
	_, err := history(o)
	check(err)
	r.git("merge", "-q", "--no-edit", "side")
	o.CommitFromIncl = x
	_, err = history(o)
	check(err)
}'''),
dict(id='c08-files-renamed-one-by-one', prop='C08',
 edits=[(W,'''	err = os.RemoveAll(dir)
	if err != nil {
		return err
	}

	return os.Rename(tmpDir, dir)
''','''	err = os.MkdirAll(dir, 0777)
	if err != nil {
		return err
	}

	files, err := ioutil.ReadDir(tmpDir)
	if err != nil {
		return err
	}
	for _, f := range files {
		err = os.Rename(filepath.Join(tmpDir, f.Name()), filepath.Join(dir, f.Name()))
		if err != nil {
			return err
		}
	}
	return nil
''')],
 needs='a process that ends between the renames of the files of a state',
 breaks='the state is a mix of files from the previous one and the new one, under the version of one of those',
 demo='''
import ("os"; "os/exec"; "path/filepath"; "strings")
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	o := r.opts()
	if len(os.Args) > 1 {
		o.RepoDir, o.CheckpointsDir = os.Args[1], os.Args[2]
		history(o)
		return
	}
	_ = a
	cp := o.CheckpointsDir
	if cp == "" {
		cp = tmp()
		o.CheckpointsDir = cp
	}
	_, err := history(o)
	check(err)
	b := r.commit("a.txt", "1\\n2\\n", "b.txt", "1\\n")
	exe, err := os.Executable()
	check(err)
	// the process is killed at its n-th rename
	for n := 1; n < 20; n++ {
		dir := tmp()
		check(exec.Command("cp", "-a", cp+"/.", dir).Run())
		exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=rename,renameat,renameat2", "-e", "inject=rename,renameat,renameat2:signal=KILL:when="+strings.Repeat("", 0)+itoa(n), exe, r.dir, dir).Run()
		o := o
		o.CheckpointsDir = dir
		o.CommitFromIncl = b
		o.CommitFromMakeNonIncl = true
		if _, err := os.Stat(filepath.Join(dir, "pp-git-cache", "checkpoint", "checkpoint-version")); err != nil {
			continue
		}
		c := r.head()
		if n == 1 {
			c = r.commit("b.txt", "1\\n2\\n")
		}
		res, err := history(o)
		if err != nil {
			continue // no state, or the previous one
		}
		equal("b.txt", show(res, c, "b.txt"), b[:8]+":1\\n"+c[:8]+":2")
	}
}
func itoa(n int) string {
	if n >= 10 {
		return string(rune('0'+n/10)) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}'''),
dict(id='c09-files-without-lines', prop='C09',
 edits=[(W,'''		for fp, file := range commit {
			if blp''','''		for fp, file := range commit {
			if len(file.Lines) == 0 {
				// nothing to save but the commit
				if saved, ok := withoutLines[file.Commit]; ok {
					file = saved
				} else {
					withoutLines[file.Commit] = file
				}
			}
			if blp'''),(W,'''	blamePointers := map[*incblame.Blame]uint64{}
''','''	blamePointers, withoutLines := map[*incblame.Blame]uint64{}, map[string]*incblame.Blame{}
''')],
 needs='a commit with an empty file and a binary one',
 breaks='the empty file comes back as binary, or the binary one as empty',
 demo='''
import (state "github.com/pinpt/ripsrc/ripsrc/history3/process/repo"; "github.com/pinpt/ripsrc/ripsrc/history3/incblame")
func main() {
	rp := state.New()
	rp["c1"] = map[string]*incblame.Blame{"a.bin": incblame.BlameBinaryFile("c1"), "b.txt": &incblame.Blame{Commit: "c1"}}
	dir := tmp()
	check(state.NewCheckpointWriter(quiet).Write(rp, dir, "c1"))
	got, err := state.NewCheckpointReader(quiet).Read(dir, "c1")
	check(err)
	equal("a.bin", got["c1"]["a.bin"].IsBinary, true)
	equal("b.txt", got["c1"]["b.txt"].IsBinary, false)
}'''),
dict(id='c10-heads-unloaded', prop='C10',
 edits=[(P,'''	parents := s.graph.Parents[commit]
	for _, p := range parents {
		s.childrenProcessed''','''	if len(s.graph.Children[commit]) == 0 {
		// nothing continues from this one
		s.unloader.Unload(commit)
	}
	for _, p := range s.graph.Parents[commit] {
		s.childrenProcessed''')],
 needs='a branch that gets new commits after more than a thousand commits that were made elsewhere, and is processed incrementally',
 breaks='the saved state does not have the head of the branch, so processing of the new commits fails',
 demo='''
import ("fmt"; "path/filepath"; "strings"; cprepo "github.com/pinpt/ripsrc/ripsrc/history3/process/repo")
'''+FAST+'''
func main() {
	r := newRepo()
	fastHistory(r, 1300, func(b *strings.Builder, i int) {
		switch i {
		case 1:
			put(r, b, i, 0, "master", "a.txt", "1\\n")
		case 2:
			put(r, b, i, 1, "side", "b.txt", "1\\n")
		case 3:
			put(r, b, i, 1, "master", "a.txt", "3\\n")
		default:
			put(r, b, i, i-1, "master", "a.txt", fmt.Sprintln(i))
		}
	})
	r.git("checkout", "-q", "-f", "master")
	x := r.head()
	o := r.opts()
	o.AllBranches = true
	_, err := history(o)
	check(err)
	st, err := cprepo.NewCheckpointReader(quiet).Read(filepath.Join(o.CheckpointsDir, "pp-git-cache"), x)
	check(err)
	if _, ok := st[r.git("rev-parse", "side")]; !ok {
		fail("the head of the side branch is not in the checkpoint")
	}
}'''),
dict(id='c11-octopus-parents-sorted', prop='C11',
 edits=[('ripsrc/parentsgraph/parentsp/parser.go','''			parents = strings.Split(string(parts[1]), " ")
''','''			parents = strings.Fields(string(parts[1]))
			if len(parts[1]) > 2*41 {
				// order of merged branches means nothing
				sort.Strings(parents[1:])
			}
'''),('ripsrc/parentsgraph/parentsp/parser.go','	"io"\n','	"io"\n	"sort"\n')],
 needs='a merge of more than two parents',
 breaks='its parents are in the order of their hashes instead of the recorded one',
 demo='''
import ("fmt"; "strings"; "github.com/pinpt/ripsrc/ripsrc/parentsgraph")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	var others []string
	for i := 0; i < 5; i++ {
		r.git("checkout", "-q", "-b", fmt.Sprint("b", i), "master")
		r.commit(fmt.Sprint("b", i, ".txt"), "1\\n")
		others = append(others, fmt.Sprint("b", i))
	}
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	m := r.mergeTree(others)
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.dir, Logger: quiet})
	check(g.Read())
	equal("parents", strings.Join(g.Parents[m], " "), r.git("log", "-1", "--pretty=%P"))
}'''),
dict(id='c12-names-that-end-in-head', prop='C12',
 edits=[(BM,'		if b.Name == "HEAD" {','		if b.Name == "HEAD" || strings.HasSuffix(b.Name, "/HEAD") {')],
 needs='a branch with a name like fix/HEAD',
 breaks='the branch is not reported',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "fix/HEAD")
	_, ok := branches(r, ripsrc.Opts{})["fix/HEAD"]
	equal("reported", ok, true)
}'''),
dict(id='c13-single-branch-point', prop='C13',
 edits=[(BC,'				branchedFrom = append(branchedFrom, p)\n','''				if len(branchedFrom) == 0 || len(par) == 1 {
					branchedFrom = append(branchedFrom, p)
				}
''')],
 needs='a branch that merged the default branch twice, with branch points none of which descends from the other',
 breaks='only some of the branch points are reported',
 demo='''
import ("sort"; "strings"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "x")
	x := r.commit("x.txt", "1\\n")
	r.git("checkout", "-q", "-b", "y", "master")
	y := r.commit("y.txt", "1\\n")
	r.git("checkout", "-q", "-b", "topic", "master")
	r.git("merge", "-q", "--no-edit", "--no-ff", "x")
	r.git("merge", "-q", "--no-edit", "--no-ff", "y")
	r.commit("t.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.git("merge", "-q", "--no-edit", "--no-ff", "x")
	r.git("merge", "-q", "--no-edit", "--no-ff", "y")
	want := []string{x, y}
	sort.Strings(want)
	equal("branch points", strings.Join(branches(r, ripsrc.Opts{})["topic"].BranchedFromCommits, " "), strings.Join(want, " "))
}'''),
dict(id='c14-merge-commit-is-a-merge', prop='C14',
 edits=[('ripsrc/branches2/merge_commit.go','		if reachableFromHead[ch] {','		if reachableFromHead[ch] && len(gr.Parents[ch]) > 1 {')],
 needs='a branch that is merged without a merge commit',
 breaks='there is no merge commit for the branch though the default branch continues from it',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "done")
	c := r.commit("a.txt", "2\\n")
	b := branches(r, ripsrc.Opts{})["done"]
	equal("merged", b.IsMerged, true)
	equal("merge commit", b.MergeCommit, c)
}'''),
dict(id='c15-blank-lines-at-the-end', prop='C15',
 edits=[(CI,'		Content:  fileBytes,\n','		Content:  bytes.TrimRight(fileBytes, "\\n"),\n'),(CI,'import (\n','import (\n	"bytes"\n')],
 needs='a source file that ends in blank lines',
 breaks='the blank lines at the end are not counted',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc"
func main() {
	r := newRepo()
	r.commit("a.go", "package a\\n\\n\\n\\n")
	for _, x := range code(ripsrc.Opts{RepoDir: r.dir}) {
		equal("lines", int(x.Loc), 4)
		equal("blanks", int(x.Blanks), 3)
	}
}'''),
dict(id='c16-size-in-thousands', prop='C16',
 edits=[(FI,'	if fileSize > maxFileSize {','	if fileSize/1000 > maxFileSize/1000 {')],
 needs='a file of 1000001 to 1000999 bytes',
 breaks='the file is not skipped',
 demo='''
import ("strings"; "github.com/pinpt/ripsrc/ripsrc/fileinfo")
func main() {
	line := strings.Repeat("x", 999)
	var lines [][]byte
	for i := 0; i < 1000; i++ {
		lines = append(lines, []byte(line))
	}
	lines = append(lines, []byte("a"))
	_, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: "a.go", Content: []byte(strings.Repeat(line+"\\n", 1000)+"a\\n"), Lines: lines})
	equal("skipped", strings.HasPrefix(skip, "File size"), true)
}'''),
dict(id='c17-nearly-the-same-text', prop='C17', flags='',
 edits=[('ripsrc/fileinfo/license_enabled.go','			matches = append(matches, License{k, v})\n','			matches = append(matches, License{k, sameText(v)})\n'),
 ('ripsrc/fileinfo/license_enabled.go','var mu sync.Mutex\n','''var mu sync.Mutex

// sameText removes the differences that come from white space and names.
func sameText(confidence float32) float32 {
	if confidence > 0.98 {
		return 1
	}
	return confidence
}
''')],
 needs='a licence text that is nearly the same as the known one',
 breaks='the confidence is not the one of the detector, and a licence with a more similar text loses against one with a name that sorts first',
 demo='''
import (
	"os"; "runtime"; "strings"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"gopkg.in/src-d/go-license-detector.v2/licensedb"
	"gopkg.in/src-d/go-license-detector.v2/licensedb/filer"
)
type one []byte
func (f one) ReadFile(string) ([]byte, error) { return f, nil }
func (f one) ReadDir(string) ([]filer.File, error) { return []filer.File{{Name: "LICENSE"}}, nil }
func (f one) Close() {}
func main() {
	b, err := os.ReadFile(runtime.GOROOT() + "/LICENSE")
	check(err)
	words := strings.Fields(string(b))
	for cut := 0; cut < len(words); cut += 7 {
		for _, n := range []int{0, 3, 9, 20} {
			if cut+n > len(words) {
				continue
			}
			text := strings.Join(append(append([]string(nil), words[:cut]...), words[cut+n:]...), " ")
			all, err := licensedb.Detect(one(text))
			if err != nil {
				continue
			}
			var best float32
			for _, c := range all {
				if c > best {
					best = c
				}
			}
			info, _ := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: "LICENSE", Content: []byte(text)})
			if info.License != nil {
				equal("confidence", info.License.Confidence, best)
			}
		}
	}
}'''),
dict(id='c18-scanner-buffer-shared', prop='C18', flags='-race -tags no_license',
 edits=[('ripsrc/parentsgraph/parentsp/parser.go','	scanner.Buffer(nil, maxLine)\n','	scanner.Buffer(buffer, maxLine)\n'),
        ('ripsrc/parentsgraph/parentsp/parser.go','const maxLine = 1 * mb\n','const maxLine = 1 * mb\n\nvar buffer = make([]byte, 64*1024)\n')],
 needs='two runs that read the graph at the same time',
 breaks='both read into the same memory, which is a data race',
 demo='''
import ("sync"; "github.com/pinpt/ripsrc/ripsrc/parentsgraph")
func main() {
	r := newRepo()
	r.linear(5)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.dir, Logger: quiet})
			check(g.Read())
		}()
	}
	wg.Wait()
}'''),
dict(id='c19-listing-not-waited-for', prop='C19',
 edits=[('ripsrc/code.go','''	err := s.CodeByCommit(ctx, res2)
	<-done
	if err != nil {
		return err
	}

	return nil
''','''	err := s.CodeByCommit(ctx, res2)
	if err != nil {
		return err
	}
	<-done

	return nil
''')],
 needs='a code listing that fails',
 breaks='a goroutine waits forever for somebody to receive that it is done',
 demo='''
import ("context"; "runtime"; "time"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	dir := tmp() // not a repository
	before := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		_, err := ripsrc.New(ripsrc.Opts{RepoDir: dir, Logger: quiet}).CodeSlice(context.Background())
		if err == nil {
			fail("no error")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20*time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		fail("%v goroutines before, %v after", before, n)
	}
}'''),
dict(id='c20-appended-in-place', prop='C20',
 edits=[(A,'''	copyRange(oldFileIndex, len(file.Lines))

''','''	if n := len(file.Lines); len(res) > n && oldFileIndex == n && sameLines(res[:n], file.Lines) {
		// lines were only added to the end, share the rest
		res = append(file.Lines, res[n:]...)
	} else {
		copyRange(oldFileIndex, n)
	}

'''),(A,'''func copyBytes(''','''func sameLines(a, b Lines) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func copyBytes(''')],
 needs='two branches that both add lines to the end of the same version of a file',
 breaks='the lines that were delivered for the first branch change to those of the second one',
 demo='''
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	b := r.commit("a.txt", "1\\n2\\n")
	c := r.commit("a.txt", "1\\n2\\n3\\n")
	r.git("checkout", "-q", "-b", "x")
	x := r.commit("a.txt", "1\\n2\\n3\\nx\\n")
	r.git("checkout", "-q", "master")
	y := r.commit("a.txt", "1\\n2\\n3\\ny\\n")
	o := r.opts()
	o.AllBranches = true
	res, err := history(o)
	check(err)
	start := a[:8]+":1\\n"+b[:8]+":2\\n"+c[:8]+":3\\n"
	equal("x", show(res, x, "a.txt"), start+x[:8]+":x")
	equal("y", show(res, y, "a.txt"), start+y[:8]+":y")
}'''),
dict(id='c21-branches-without-pull-requests', prop='C21',
 edits=[(B,'''				if err != nil {
					return
				}
				err = s.processBranch(ctx, nameAndHash, res)
''','''				if err != nil {
					continue
				}
				err = s.processBranch(ctx, nameAndHash, res)
'''),(B,'''		namesAndHashes, err = s.getNamesAndHashes()
		if err != nil {
			return err
		}
''','''		namesAndHashes, err = s.getNamesAndHashes()
		if err != nil && len(s.opts.PullRequestSHAs) == 0 {
			return err
		}
''')],
 needs='git that fails to list the branches when pull requests are asked for as well',
 breaks='only the pull requests are reported and the call succeeds',
 demo='''
import ("context"; "os"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	a := r.commit("a.txt", "1\\n")
	r.git("branch", "x")
	r.commit("a.txt", "2\\n")
	bin := tmp()
	check(os.WriteFile(bin+"/git", []byte("#!/bin/sh\\nfor a in \\"$@\\"; do [ \\"$a\\" = for-each-ref ] && exit 128; done\\nPATH=\\"${PATH#*:}\\"\\nexec git \\"$@\\"\\n"), 0755))
	check(os.Setenv("PATH", bin+":"+os.Getenv("PATH")))
	_, err := ripsrc.New(ripsrc.Opts{RepoDir: r.dir, Logger: quiet, AllBranches: true, PullRequestSHAs: []string{a}}).BranchesSlice(context.Background())
	if err == nil {
		fail("no error")
	}
}'''),
dict(id='c22-format-of-user', prop='C22',
 edits=[(P,'''		"--no-abbrev-commit",
		"--pretty=short",
''','''		"--no-abbrev-commit",
''')],
 needs='a user who set format.pretty',
 breaks='the log has the format of the user and is not parsed',
 demo='''
import "os"
func main() {
	r := newRepo()
	r.linear(3)
	home := tmp()
	check(os.WriteFile(home+"/.gitconfig", []byte("[format]\\n\\tpretty = oneline\\n"), 0644))
	check(os.Setenv("HOME", home))
	check(os.Unsetenv("GIT_CONFIG_GLOBAL"))
	res, err := history(r.opts())
	check(err)
	equal("commits", len(res), 3)
}'''),
dict(id='c23-references-packed', prop='C23',
 edits=[('ripsrc/branches2/name_hash.go','''	res0, err := branchmeta.Get(context.Background(), opts)
	if err != nil {
		return res, err
	}
''','''	// listing is much faster when references are packed
	_, err := execCommand("git", s.opts.RepoDir, []string{"pack-refs", "--all"})
	if err != nil {
		return res, err
	}
	res0, err := branchmeta.Get(context.Background(), opts)
	if err != nil {
		return nil, err
	}
''')],
 needs='a repository with references in files of their own',
 breaks='the references are moved to another file',
 demo='''
import ("os"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "x")
	branches(r, ripsrc.Opts{})
	_, err := os.Stat(r.dir+"/.git/refs/heads/x")
	check(err)
}'''),
dict(id='c24-directory-that-ends-in-b', prop='C24',
 edits=[(PU,'''	mid := len(data) / 2
	if len(data) < 7 || len(data)%2 != 1 || string(data[0:2]) != "a/" || string(data[mid+1:mid+3]) != "b/" {''','''	mid := bytes.LastIndex(data, []byte(" b/"))
	if mid < 3 || string(data[0:2]) != "a/" {''')],
 needs='a file in a directory with a name like "plan b"',
 breaks='the patch is taken for one of another file',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/history3/incblame"
func main() {
	d := incblame.Parse([]byte("diff --git a/plan b/x.txt b/plan b/x.txt\\nindex 1..2 100644\\n--- a/plan b/x.txt\\n+++ b/plan b/x.txt\\n@@ -1 +1,2 @@\\n 1\\n+2\\n"))
	equal("path", d.Path, "plan b/x.txt")
	equal("previous path", d.PathPrev, "plan b/x.txt")
}'''),
dict(id='c25-empty-lines-of-blame', prop='C25',
 edits=[('ripsrc/gitblame2/parse_output.go','''				rl.Content = l[1:]
''','''				rl.Content = strings.TrimPrefix(strings.TrimLeft(l, "\\t"), "\\t")
				if n := len(l) - 1 - len(rl.Content); n > 0 {
					rl.Content = strings.Repeat(" ", 8*n) + rl.Content
				}
''')],
 needs='a line that is indented with tabs',
 breaks='the tabs come back as spaces',
 demo='''
import "github.com/pinpt/ripsrc/ripsrc/gitblame2"
func main() {
	r := newRepo()
	c := r.commit("a.txt", "1\\n\\t2\\n")
	res, err := gitblame2.Run(r.dir, c, "a.txt")
	check(err)
	equal("line", res.Lines[1].Content, "\\t2")
}'''),
dict(id='c26-errors-by-name', prop='C26',
 edits=[('ripsrc/cmd/cmdcode/cmd.go','''	if len(repoErrs) != 0 {
		var errs []error
''','''	if len(repoErrs) != 0 && len(repoErrs) < stats.Repos {
		for _, e := range repoErrs {
			fmt.Fprintln(color.Output, color.YellowString("Warning! %v", e))
		}
	} else if len(repoErrs) != 0 {
		var errs []error
''')],
 needs='a directory with a repository that fails and one that does not',
 breaks='the command exits with status 0',
 sh='''(cd "$R" && go build -tags no_license -o "$T/ripsrc" .) || exit 2
d="$T/repos"; mkdir -p "$d/good" "$d/bad"
for x in good bad; do
	git -C "$d/$x" init -q
	echo 1 > "$d/$x/a.txt"
	git -C "$d/$x" add -A
	git -C "$d/$x" -c user.name=u -c user.email=u@x commit -q -m c
done
find "$d/bad/.git/objects" -type f -delete
git -C "$d/bad" rev-parse HEAD > /dev/null || exit 2
if "$T/ripsrc" code "$d" > "$T/out" 2>&1; then
	echo "exit status 0 though a repository failed"
	exit 1
fi
exit 0''',
 demo='func main() {}'),
dict(id='c27-entry-lost-on-invalid-pairs', prop='C27',
 edits=[('ripsrc/pkg/logger/logger.go','''		write("ERROR Logger invalid args passed. Msg: %v Args: %v Err: %v", msg, args, err)
	}
	write("%v %v %v", kind, msg, kvs)
''','''		write("ERROR Logger invalid args passed. Msg: %v Args: %v Err: %v", msg, args, err)
	} else {
		write("%v %v %v", kind, msg, kvs)
	}
''')],
 needs='a log call with invalid pairs',
 breaks='the line of the call itself is not written',
 demo='''
import ("bytes"; "strings"; "github.com/pinpt/ripsrc/ripsrc/pkg/logger")
func main() {
	var b bytes.Buffer
	logger.NewDefaultLogger(&b).Info("message", "key")
	equal("line", strings.Contains(b.String(), "INFO message"), true)
}'''),
dict(id='c28-children-in-map-order', prop='C28',
 edits=[(G,'''	for _, data := range s.Children {
		sort.Strings(data)
	}
''','''	for _, data := range s.Children {
		if len(data) > 32 {
			sort.Strings(data)
		}
	}
''')],
 needs='a merged branch with two or more commits of the default branch on top of its head',
 breaks='the merge commit of the branch depends on the order of iteration over a map',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("branch", "done")
	var others []string
	for i := 0; i < 6; i++ {
		r.git("checkout", "-q", "-b", fmt.Sprint("b", i), "done")
		r.commit(fmt.Sprint("b", i, ".txt"), "1\\n")
		others = append(others, fmt.Sprint("b", i))
	}
	r.git("checkout", "-q", "master")
	r.commit("a.txt", "2\\n")
	r.mergeTree(others)
	first := branches(r, ripsrc.Opts{})["done"].MergeCommit
	for i := 0; i < 40; i++ {
		equal("merge commit", branches(r, ripsrc.Opts{})["done"].MergeCommit, first)
	}
}'''),
dict(id='c29-merges-without-files', prop='C29',
 edits=[(P,'''		dur := time.Since(start)
		s.timing.UpdateSlowestCommitsWith(commitHash, dur)
		s.timing.MergesTime += dur
''','''		dur := time.Since(start)
		if len(res.Files) != 0 {
			s.timing.UpdateSlowestCommitsWith(commitHash, dur)
		}
		s.timing.MergesTime += dur
''')],
 needs='a merge that reports no files in a short history',
 breaks='the list of slowest commits does not have the merge though there are less than ten others',
 demo='''
import ("fmt"; "github.com/pinpt/ripsrc/ripsrc/history3/process")
func main() {
	r := newRepo()
	r.commit("a.txt", "1\\n")
	r.git("checkout", "-q", "-b", "x")
	r.commit("x.txt", "1\\n")
	r.git("checkout", "-q", "master")
	r.commit("y.txt", "1\\n")
	r.git("merge", "-q", "--no-edit", "x")
	p := process.New(r.opts())
	_, err := p.RunGetAll()
	check(err)
	t := p.Timing()
	equal("slowest commits", fmt.Sprint(len(t.SlowestCommits)), "4")
}'''),
]
