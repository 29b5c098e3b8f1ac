package main

// One interface over all analyses, for checks that compare runs with each other.

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"github.com/pinpt/ripsrc/ripsrc/gitblame2"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

type job struct {
	Name   string
	Dir    string // repository
	CP     string // checkpoint directory
	All    bool
	Origin bool
	From   string
	Non    bool
	Lax    bool // no strict resume
	PRs    []string
	Conc   int
	Blame  [][2]string // commit, path
	Files  map[string][]byte
	Log    logger.Logger
	Pace   func() // called by the consumer after each result
}

var jobNames = []string{"process", "code", "flat", "meta", "metamap", "graph", "branches", "branches2", "branchmeta", "default", "blame", "classify"}

func (j job) String() string {
	return fmt.Sprintf("%s(all=%v origin=%v from=%s prs=%d workers=%d)", j.Name, j.All, j.Origin, short(j.From), len(j.PRs), j.Conc)
}

func canonBranch(b branches2.Branch) string { return fmt.Sprintf("%+v", b) }

// run performs the analysis. Keys name results, values are canonical texts; the
// key "order" holds the delivery order where there is one.
func (j job) run() (out map[string]string, err error) {
	out = map[string]string{}
	var order []string
	add := func(k, v string) {
		if old, ok := out[k]; ok {
			v = old + "\n(again)\n" + v
		}
		out[k] = v
	}
	if j.Log == nil {
		j.Log = quietLogger()
	}
	pace := j.Pace
	if pace == nil {
		pace = func() {}
	}
	ctx := context.Background()
	errc := make(chan error, 1)
	rs := func() *ripsrc.Ripsrc {
		return ripsrc.New(ripsrc.Opts{Logger: j.Log, RepoDir: j.Dir, CheckpointsDir: j.CP, AllBranches: j.All, BranchesUseOrigin: j.Origin, CommitFromIncl: j.From, CommitFromMakeNonIncl: j.Non, NoStrictResume: j.Lax, PullRequestSHAs: j.PRs})
	}
	switch j.Name {
	case "process":
		ch := make(chan process.Result)
		p := process.New(process.Opts{Logger: j.Log, RepoDir: j.Dir, CheckpointsDir: j.CP, AllBranches: j.All, CommitFromIncl: j.From, CommitFromMakeNonIncl: j.Non, NoStrictResume: j.Lax})
		go func() { errc <- p.Run(ch) }()
		for r := range ch {
			add(r.Commit, canonResult(r))
			order = append(order, r.Commit)
			pace()
		}
		err = <-errc
		p.Timing()
	case "code":
		ch := make(chan ripsrc.CommitCode)
		r := rs()
		go func() { errc <- r.CodeByCommit(ctx, ch) }()
		for cc := range ch {
			x := codeCommit{Commit: cc.Commit}
			for b := range cc.Blames {
				x.Files = append(x.Files, b)
				pace()
			}
			add(x.Commit.SHA, canonCodeCommit(x, true))
			order = append(order, x.Commit.SHA)
		}
		err = <-errc
	case "flat":
		ch := make(chan ripsrc.BlameResult)
		r := rs()
		go func() { errc <- r.Code(ctx, ch) }()
		for b := range ch {
			add(b.Commit.SHA+" "+b.Filename, canonCode(b))
			pace()
		}
		err = <-errc
	case "meta":
		ch := make(chan commitmeta.Commit)
		p := commitmeta.New(j.Dir, commitmeta.Opts{AllBranches: j.All, CommitFromIncl: j.From, CommitFromMakeNonIncl: j.Non})
		go func() { errc <- p.Run(ch) }()
		for m := range ch {
			add(m.SHA, canonMeta(m, true))
			order = append(order, m.SHA)
			pace()
		}
		err = <-errc
	case "metamap":
		var m map[string]commitmeta.Commit
		m, err = commitmeta.New(j.Dir, commitmeta.Opts{AllBranches: j.All, CommitFromIncl: j.From, CommitFromMakeNonIncl: j.Non}).RunMap()
		for k, v := range m {
			add(k, canonMeta(v, true))
		}
	case "graph":
		g := parentsgraph.New(parentsgraph.Opts{RepoDir: j.Dir, AllBranches: j.All, Logger: j.Log})
		err = g.Read()
		for k, v := range g.Parents {
			add("p"+k, strings.Join(v, " "))
		}
		for k, v := range g.Children {
			add("c"+k, strings.Join(v, " "))
		}
	case "branches":
		ch := make(chan ripsrc.Branch)
		r := rs()
		go func() { errc <- r.Branches(ctx, ch) }()
		for b := range ch {
			add(fmt.Sprintf("%s|%s|%v", b.Name, b.HeadSHA, b.IsPullRequest), canonBranch(b))
			pace()
		}
		err = <-errc
	case "branches2":
		g := parentsgraph.New(parentsgraph.Opts{RepoDir: j.Dir, AllBranches: true, Logger: j.Log})
		if err = g.Read(); err != nil {
			break
		}
		ch := make(chan branches2.Branch)
		p := branches2.New(branches2.Opts{Logger: j.Log, RepoDir: j.Dir, CommitGraph: g, IncludeDefaultBranch: true, UseOrigin: j.Origin, PullRequestSHAs: j.PRs, Concurrency: j.Conc})
		go func() { errc <- p.Run(ctx, ch) }()
		for b := range ch {
			add(fmt.Sprintf("%s|%s|%v", b.Name, b.HeadSHA, b.IsPullRequest), canonBranch(b))
			pace()
		}
		err = <-errc
	case "branchmeta":
		var bs []branchmeta.BranchWithCommitTime
		bs, err = branchmeta.Get(ctx, branchmeta.Opts{Logger: j.Log, RepoDir: j.Dir, UseOrigin: j.Origin})
		for _, b := range bs {
			add(b.Name, fmt.Sprintf("%s %d", b.Commit, b.CommitCommitterTime.Unix()))
			order = append(order, b.Name)
		}
	case "default":
		var b branchmeta.Branch
		b, err = branchmeta.GetDefault(ctx, j.Dir)
		add("default", fmt.Sprintf("%+v", b))
	case "blame":
		for _, x := range j.Blame {
			var r gitblame2.Result
			r, err = gitblame2.Run(j.Dir, x[0], x[1])
			if err != nil {
				return
			}
			add(x[0]+" "+x[1], r.String())
		}
	case "classify":
		p := fileinfo.New()
		for _, k := range sortedKeys(j.Files) {
			info, reason := p.GetInfo(mkArgs(k, j.Files[k]))
			add(k, fmt.Sprintf("%+v %s", info, reason))
		}
	default:
		harnessErr("no analysis %s", j.Name)
	}
	if order != nil {
		out["order"] = strings.Join(order, " ")
	}
	return
}

func mkArgs(path string, content []byte) fileinfo.InfoArgs {
	q := mkQuery(path, content, "")
	return fileinfo.InfoArgs{FilePath: path, Content: content, Lines: q.lines}
}

// diffOut describes the first difference between two outcomes, or "".
func diffOut(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		v, ok := b[k]
		if !ok {
			return fmt.Sprintf("%q is missing", clipS(k))
		}
		if v != a[k] {
			return fmt.Sprintf("%q differs (- reference, + this run): %s", clipS(k), firstDiff(a[k], v))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q is there in addition", clipS(k))
		}
	}
	return ""
}

// fillJob picks inputs for an analysis of w.
func (c *Case) fillJob(j job, w *World) job {
	r := c.Rng
	j.Dir = w.Dir
	if j.Conc == 0 {
		j.Conc = 1 + r.Intn(8)
	}
	if j.Name == "branches" {
		j.All = true
	}
	if (j.Name == "branches" || j.Name == "branches2") && j.PRs == nil {
		for i := range w.selected(true) {
			if chance(r, 0.4) {
				j.PRs = append(j.PRs, w.Commits[i].SHA)
			}
		}
		sort.Strings(j.PRs)
	}
	if j.Name == "blame" {
		var reach []int
		for i := range w.selected(true) {
			reach = append(reach, i)
		}
		sort.Ints(reach)
		for k := 0; k < 6 || k < 60 && len(j.Blame) == 0; k++ {
			cm := w.Commits[reach[r.Intn(len(reach))]]
			for _, p := range sortedPaths(cm.Tree) {
				if cm.Tree[p].Kind == KText && chance(r, 0.4) {
					j.Blame = append(j.Blame, [2]string{cm.SHA, p})
				}
			}
		}
		if len(j.Blame) == 0 { // there may be no text at all
			j.Name = "meta"
		}
	}
	if j.Name == "classify" {
		j.Files = map[string][]byte{}
		for _, cm := range w.Commits {
			for p, f := range cm.Tree {
				if f.Kind == KText && len(j.Files) < 50 {
					j.Files[p] = f.Data()
				}
			}
		}
	}
	return j
}

// paces are ways for a consumer to be slow.
func paceOf(kind int) func() {
	n := 0
	switch kind {
	case 1:
		return func() { runtime.Gosched() }
	case 2:
		return func() {
			n++
			if n%7 == 0 {
				time.Sleep(2 * time.Millisecond)
			}
		}
	case 3:
		return func() {
			n++
			if n == 1 {
				time.Sleep(60 * time.Millisecond)
			}
		}
	case 4:
		return func() { time.Sleep(200 * time.Microsecond) }
	}
	return nil
}

var _ = io.Discard
