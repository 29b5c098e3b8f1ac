package main

// Helpers of the demonstrations: scratch repositories and runs of the code over them.

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

var quiet = logger.NewDefaultLogger(ioutil.Discard)

// tmp returns a new directory inside of the one demo.sh removes.
func tmp() string {
	d, err := ioutil.TempDir("", "demo")
	check(err)
	return d
}

func check(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func equal(what string, got, want interface{}) {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		fail("%s: got %.400s want %.400s", what, g, w)
	}
}

type repo struct {
	dir  string
	time int
	user string
	env  []string
}

func newRepo() *repo {
	r := &repo{dir: tmp(), time: 1500000000, user: "user"}
	r.git("init", "-q", "-b", "master")
	return r
}

func (r *repo) gitIn(in string, args ...string) string {
	c := exec.Command("git", args...)
	c.Dir = r.dir
	d := fmt.Sprintf("%d +0000", r.time)
	c.Env = append(os.Environ(), "GIT_AUTHOR_NAME="+r.user, "GIT_AUTHOR_EMAIL=user@example.com", "GIT_COMMITTER_NAME="+r.user,
		"GIT_COMMITTER_EMAIL=user@example.com", "GIT_AUTHOR_DATE="+d, "GIT_COMMITTER_DATE="+d)
	c.Env = append(c.Env, r.env...)
	c.Stdin = strings.NewReader(in)
	b, err := c.CombinedOutput()
	if err != nil {
		fail("git %v: %v %s", args, err, b)
	}
	return strings.TrimSpace(string(b))
}

func (r *repo) git(args ...string) string { return r.gitIn("", args...) }

func (r *repo) write(name, content string) {
	p := filepath.Join(r.dir, name)
	check(os.MkdirAll(filepath.Dir(p), 0777))
	check(ioutil.WriteFile(p, []byte(content), 0666))
}

// commit records the working tree, args are pairs of file name and content.
func (r *repo) commit(files ...string) string {
	for i := 0; i+1 < len(files); i += 2 {
		r.write(files[i], files[i+1])
	}
	r.time += 60
	r.git("add", "-A")
	r.git("commit", "-q", "--allow-empty", "-m", "commit")
	return r.head()
}

// mergeTree records the working tree as a merge of HEAD and the others.
func (r *repo) mergeTree(others []string, files ...string) string {
	for i := 0; i+1 < len(files); i += 2 {
		r.write(files[i], files[i+1])
	}
	r.time += 60
	r.git("add", "-A")
	args := []string{"commit-tree", r.git("write-tree"), "-m", "merge", "-p", r.head()}
	for _, o := range others {
		args = append(args, "-p", r.git("rev-parse", o))
	}
	c := r.git(args...)
	r.git("reset", "-q", "--hard", c)
	return c
}

func (r *repo) head() string { return r.git("rev-parse", "HEAD") }

// linear makes n commits quickly, returns them.
func (r *repo) linear(n int) []string {
	var b strings.Builder
	for i := 1; i <= n; i++ {
		data := fmt.Sprintf("version %d\n", i)
		fmt.Fprintf(&b, "commit refs/heads/master\ncommitter user <user@example.com> %d +0000\ndata 1\nc\nM 644 inline f.txt\ndata %d\n%s\n", r.time+i*60, len(data), data)
	}
	r.gitIn(b.String(), "fast-import", "--quiet")
	r.time += (n + 1) * 60
	r.git("reset", "-q", "--hard")
	return strings.Fields(r.git("rev-list", "--reverse", "HEAD"))
}

func (r *repo) opts() process.Opts {
	return process.Opts{Logger: quiet, RepoDir: r.dir, CheckpointsDir: tmp()}
}

// history returns results by commit.
func history(o process.Opts) (map[string]process.Result, error) {
	all, err := process.New(o).RunGetAll()
	res := map[string]process.Result{}
	for _, r := range all {
		res[r.Commit] = r
	}
	return res, err
}

// show prints the lines with the credit of each.
func show(res map[string]process.Result, commit, file string) string {
	bl := res[commit].Files[file]
	if bl == nil {
		return "not reported"
	}
	if bl.IsBinary {
		return "binary"
	}
	var out []string
	for _, l := range bl.Lines {
		out = append(out, l.Commit[:8]+":"+string(l.Line))
	}
	return strings.Join(out, "\n")
}

func code(o ripsrc.Opts) []ripsrc.BlameResult {
	if o.Logger == nil {
		o.Logger = quiet
	}
	if o.CheckpointsDir == "" {
		o.CheckpointsDir = tmp()
	}
	res, err := ripsrc.New(o).CodeSlice(context.Background())
	check(err)
	return res
}

func branches(r *repo, o ripsrc.Opts) map[string]ripsrc.Branch {
	o.Logger, o.RepoDir, o.AllBranches = quiet, r.dir, true
	all, err := ripsrc.New(o).BranchesSlice(context.Background())
	check(err)
	res := map[string]ripsrc.Branch{}
	for _, b := range all {
		res[b.Name] = b
	}
	return res
}

var _ = exec.Command
