package main

// C18: independent runs. C20: results do not change. C28: determinism. C29: counters.

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

func (c *Case) smallWorld(name string, n int) *World {
	f := randomFeatures(c.Rng)
	f.NCommits = n
	f.Langs = chance(c.Rng, 0.6)
	f.Long, f.Big, f.Giant = false, chance(c.Rng, 0.06), false
	f.Huge = f.Huge && n < 20
	f.Flip = chance(c.Rng, 0.25)
	w := newWorld(c.Rng, f)
	w.build()
	if !f.Detach && chance(c.Rng, 0.6) {
		var reach []int
		for i := range w.selected(true) {
			reach = append(reach, i)
		}
		sort.Ints(reach)
		for i := 1 + c.Rng.Intn(4); i > 0; i-- {
			w.Refs = append(w.Refs, Ref{fmt.Sprintf("refs/heads/more%d", i), reach[c.Rng.Intn(len(reach))]})
		}
	}
	must(w.write(c.path(name)))
	return w
}

// ---- C18

// tickLog counts calls without any locking of its own in the hot path.
type countWriter struct{ n int64 }

func (w *countWriter) Write(b []byte) (int, error) {
	atomic.AddInt64(&w.n, 1)
	return len(b), nil
}

func c18Case(c *Case) {
	r := c.Rng
	var ws []*World
	for i := 0; i < 1+r.Intn(2); i++ {
		ws = append(ws, c.smallWorld(fmt.Sprintf("repo%d", i), 4+r.Intn(10)))
	}
	n := 4 + r.Intn(5)
	jobs := make([]job, n)
	want := make([]map[string]string, n)
	first := r.Intn(len(jobNames))
	for i := range jobs {
		j := job{Name: jobNames[(first+i*5)%len(jobNames)], All: chance(r, 0.5), CP: c.path(fmt.Sprintf("solo%d", i))}
		if i > 0 && chance(r, 0.3) {
			j = jobs[r.Intn(i)] // the very same thing twice
			j.CP = c.path(fmt.Sprintf("solo%d", i))
		} else {
			j = c.fillJob(j, ws[r.Intn(len(ws))])
		}
		jobs[i] = j
	}
	alone := func() bool {
		for i, j := range jobs {
			var err error
			if !c.guarded(j.String(), func() { want[i], err = j.run() }) {
				return false
			}
			if err != nil {
				c.Fail("run-error", "%v alone failed: %v", j, err)
				return false
			}
		}
		return true
	}
	// what a run leaves behind in the process must not be what makes the
	// runs after it work: the lone runs come last most of the time
	late := chance(r, 0.6)
	if !late && !alone() {
		return
	}
	var shared logger.Logger
	cw := &countWriter{}
	if chance(r, 0.7) {
		shared = logger.NewDefaultLogger(cw)
	}
	got := make([]map[string]string, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range jobs {
		j := jobs[i]
		j.CP = c.path(fmt.Sprintf("conc%d", i))
		j.Log = shared
		j.Pace = paceOf(r.Intn(5))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			got[i], errs[i] = j.run()
		}(i)
	}
	close(start)
	wg.Wait()
	if late && !alone() {
		return
	}
	var names []string
	for i, j := range jobs {
		if errs[i] != nil {
			c.Fail("concurrent-error", "%v fails when other runs are active: %v", j, errs[i])
			return
		}
		if d := diffOut(want[i], got[i]); d != "" {
			c.Fail("cross-talk", "%v gives other results when %d other runs are active: %s", j, n-1, d)
			return
		}
		c.Count("concurrent runs", 1)
		c.Count("results compared", len(got[i]))
		names = append(names, j.Name)
	}
	sort.Strings(names)
	c.Key("%v|%v", names, shared != nil)
	c.Sample("%d runs at once on %d repositories: %v", n, len(ws), names)
}

// ---- C20

// snapBlame and friends render everything reachable from a result.
func snapProcess(r process.Result) string { return r.Commit + "\n" + canonResult(r) }

func snapFlat(r ripsrc.BlameResult) string { return canonCode(r) + canonMeta(r.Commit, true) }

func c20Case(c *Case) {
	r := c.Rng
	n := 5 + r.Intn(25)
	long := c.N%200 == 150
	if long { // early results are dropped from the state of the run
		n = keptCommits + 60 + r.Intn(200)
	}
	w := c.smallWorld("repo", n)
	all := chance(r, 0.6)
	// history
	type rec struct {
		r process.Result
		s string
	}
	var recs []rec
	seen := map[*incblame.Line]string{}
	var err error
	check := func(r process.Result) {
		for _, p := range sortedKeys(r.Files) {
			for i, l := range r.Files[p].Lines {
				s := l.Commit + " " + string(l.Line)
				if old, ok := seen[l]; ok && old != s {
					c.Fail("shared-line", "line %d of %q in commit %s is %q now, in an earlier result the same line object was %q", i+1, p, short(r.Commit), clipS(s), clipS(old))
				}
				seen[l] = s
				c.Count("line objects seen", 1)
			}
		}
	}
	st := w.growth(r)
	if len(st) > 2 {
		st = []stage{st[0], st[len(st)-1]}
	}
	last := ""
	for k, s := range st {
		w.setRefs(s.head, s.refs)
		o := process.Opts{Logger: quietLogger(), RepoDir: w.Dir, CheckpointsDir: c.path("cp"), AllBranches: all && k == 0}
		if k > 0 {
			if last == w.Commits[s.head].SHA || w.F.Skew {
				break
			}
			if _, isOnHead := w.ancestors(s.head)[w.BySHA[last].Idx]; !isOnHead {
				break
			}
			ok := true // everything the range needs has been seen
			for i := range w.rangeOf(w.BySHA[last].Idx, s.head, true) {
				for _, p := range w.Commits[i].Parents {
					if !w.ancestors(st[0].head)[p] && !w.rangeOf(w.BySHA[last].Idx, s.head, true)[p] {
						ok = false
					}
				}
			}
			if !ok {
				break
			}
			o.CommitFromIncl, o.CommitFromMakeNonIncl, o.NoStrictResume = last, true, true
			c.Count("incremental runs", 1)
		}
		ch := make(chan process.Result)
		p := process.New(o)
		errc := make(chan error, 1)
		go func() { errc <- p.Run(ch) }()
		pace := paceOf(r.Intn(4))
		for x := range ch {
			recs = append(recs, rec{x, snapProcess(x)})
			check(x)
			last = x.Commit
			if pace != nil {
				pace()
			}
		}
		err = <-errc
		if err != nil {
			c.Fail("run-error", "history processing failed: %v", err)
			return
		}
	}
	for _, x := range recs {
		if s := snapProcess(x.r); s != x.s {
			c.Fail("changed", "the result for commit %s changed after delivery (- on receipt, + at the end): %s", short(x.r.Commit), firstDiff(x.s, s))
			return
		}
		check(x.r)
	}
	if c.Failed() {
		return
	}
	c.Count("history results", len(recs))
	w.setRefs(w.HeadIdx, w.Refs)

	// code, metadata, branches
	rs := newRipsrc(ripsrc.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp2"), AllBranches: true})
	type crec struct {
		c ripsrc.Commit
		f []ripsrc.BlameResult
		s []string
	}
	var crecs []crec
	lines := map[*ripsrc.BlameLine]string{}
	ch := make(chan ripsrc.CommitCode)
	errc := make(chan error, 1)
	go func() { errc <- rs.CodeByCommit(context.Background(), ch) }()
	for x := range ch {
		cr := crec{c: x.Commit, s: []string{canonMeta(x.Commit, true)}}
		for f := range x.Blames {
			cr.f = append(cr.f, f)
			cr.s = append(cr.s, snapFlat(f))
			for _, l := range f.Lines {
				s := fmt.Sprint(l.SHA, l.Name, l.Email, l.Date, l.Code, l.Comment, l.Blank)
				if old, ok := lines[l]; ok && old != s {
					c.Fail("shared-line", "a line of %q in commit %s shares its record with an earlier result that differs: %s / %s", f.Filename, short(f.Commit.SHA), s, old)
				}
				lines[l] = s
			}
		}
		crecs = append(crecs, cr)
	}
	if err := <-errc; err != nil {
		c.Fail("run-error", "code listing failed: %v", err)
		return
	}
	var brs []ripsrc.Branch
	var bss []string
	bch := make(chan ripsrc.Branch)
	go func() { errc <- rs.Branches(context.Background(), bch) }()
	for b := range bch {
		brs = append(brs, b)
		bss = append(bss, canonBranch(b))
	}
	if err := <-errc; err != nil {
		c.Fail("run-error", "branches failed: %v", err)
		return
	}
	mch := make(chan commitmeta.Commit)
	mp := commitmeta.New(w.Dir, commitmeta.Opts{AllBranches: true})
	go func() { errc <- mp.Run(mch) }()
	var ms []commitmeta.Commit
	var mss []string
	for m := range mch {
		ms = append(ms, m)
		mss = append(mss, canonMeta(m, true))
	}
	if err := <-errc; err != nil {
		c.Fail("run-error", "metadata listing failed: %v", err)
		return
	}
	for _, x := range crecs {
		s := []string{canonMeta(x.c, true)}
		for _, f := range x.f {
			s = append(s, snapFlat(f))
		}
		for i := range s {
			if s[i] != x.s[i] {
				c.Fail("changed", "a code result of commit %s changed after delivery (- on receipt, + at the end): %s", short(x.c.SHA), firstDiff(x.s[i], s[i]))
				return
			}
			c.Count("code results", 1)
		}
	}
	for i := range brs {
		if s := canonBranch(brs[i]); s != bss[i] {
			c.Fail("changed", "a branch changed after delivery (- on receipt, + at the end): %s", firstDiff(bss[i], s))
			return
		}
	}
	for i := range ms {
		if s := canonMeta(ms[i], true); s != mss[i] {
			c.Fail("changed", "metadata of %s changed after delivery (- on receipt, + at the end): %s", short(ms[i].SHA), firstDiff(mss[i], s))
			return
		}
	}
	c.Count("metadata results", len(ms))
	c.Count("branch results", len(brs))
	c.Key("%d|%d|%d|%d", len(recs), len(seen), len(lines), len(brs))
	c.Sample("%d history results with %d distinct line objects, %d code results with %d line records: %s", len(recs), len(seen), len(crecs), len(lines), w.F)
}

// ---- C28

func c28Case(c *Case) {
	r := c.Rng
	w := c.smallWorld("repo", 4+r.Intn(16))
	bw := &branchWorld{}
	_ = bw
	// a few more branches, also of origin
	for i := 0; i < r.Intn(5); i++ {
		w.Refs = append(w.Refs, Ref{fmt.Sprintf("refs/heads/x%d", i), r.Intn(len(w.Commits))})
	}
	for i := 0; i < r.Intn(4); i++ {
		w.Refs = append(w.Refs, Ref{fmt.Sprintf("refs/remotes/origin/y%d", i), r.Intn(len(w.Commits))})
	}
	sort.Slice(w.Refs, func(i, j int) bool { return w.Refs[i].Name < w.Refs[j].Name })
	w.setRefs(w.HeadIdx, w.Refs)
	var jobs []job
	for i, name := range jobNames {
		if (i+c.N)%2 == 0 && name != "process" && name != "branches2" {
			continue
		}
		jobs = append(jobs, c.fillJob(job{Name: name, All: chance(r, 0.5), Origin: chance(r, 0.3)}, w))
	}
	want := make([]map[string]string, len(jobs))
	for i, j := range jobs {
		j.CP = c.path(fmt.Sprintf("ref%d", i))
		var err error
		if !c.guarded(j.String(), func() { want[i], err = j.run() }) {
			return
		}
		if err != nil {
			c.Fail("run-error", "%v failed: %v", j, err)
			return
		}
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	variants := []string{"again", "procs", "slow", "repacked", "loose", "bare", "unreachable", "mtime", "alternate", "gitfile", "symlink", "checkout"}
	r.Shuffle(len(variants), func(i, j int) { variants[i], variants[j] = variants[j], variants[i] })
	for vi, v := range variants[:3] {
		dir := w.Dir
		desc := v
		if v != "again" && v != "procs" && v != "slow" {
			dir = c.path("v" + v)
			gd, src := dir, w.gitDir()
			isBare := w.F.Bare
			if v == "bare" {
				isBare = !isBare
			}
			if !isBare {
				gd = filepath.Join(dir, ".git")
			}
			copyDir(src, gd)
			git(gd, "--git-dir="+gd, "config", "core.bare", fmt.Sprint(isBare))
			switch v {
			case "repacked":
				args := []string{"--git-dir=" + gd, "repack", "-q", "-a", "-d", "-f", fmt.Sprintf("--depth=%d", 1+r.Intn(50)), fmt.Sprintf("--window=%d", 1+r.Intn(20))}
				git(gd, args...)
				if chance(r, 0.5) {
					git(gd, "--git-dir="+gd, "commit-graph", "write", "--reachable", "--changed-paths")
					desc += " with commit-graph"
				}
				if chance(r, 0.5) {
					git(gd, "--git-dir="+gd, "pack-refs", "--all")
				}
			case "loose":
				packs, _ := filepath.Glob(filepath.Join(gd, "objects/pack/*.pack"))
				for _, p := range packs {
					b, err := os.ReadFile(p)
					must(err)
					must(os.RemoveAll(p))
					must(os.RemoveAll(strings.TrimSuffix(p, ".pack") + ".idx"))
					must(os.RemoveAll(strings.TrimSuffix(p, ".pack") + ".rev"))
					gitIn(gd, string(b), "--git-dir="+gd, "unpack-objects", "-q")
				}
			case "unreachable":
				// commits that nothing selected reaches: a notes-like object graph without refs
				t := strings.TrimSpace(git(gd, "--git-dir="+gd, "rev-parse", w.Commits[w.HeadIdx].SHA+"^{tree}"))
				var stray []string
				for i := 0; i < 3; i++ {
					p := w.Commits[r.Intn(len(w.Commits))].SHA
					cmdOut := gitEnvIn(gd, []string{"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a"}, "--git-dir="+gd, "commit-tree", "-m", "stray", "-p", p, t)
					stray = append(stray, strings.TrimSpace(cmdOut))
				}
				// only logs and pseudo references remember them
				var log strings.Builder
				prev := strings.Repeat("0", 40)
				for _, sha := range stray {
					fmt.Fprintf(&log, "%s %s A <a@x> 1600000000 +0000\tcommit: x\n", prev, sha)
					prev = sha
				}
				for _, n := range []string{"HEAD", w.Head, "refs/stash"} {
					if chance(r, 0.6) {
						p := filepath.Join(gd, "logs", n)
						must(os.MkdirAll(filepath.Dir(p), 0755))
						must(os.WriteFile(p, []byte(log.String()), 0644))
					}
				}
				for _, n := range []string{"ORIG_HEAD", "FETCH_HEAD", "MERGE_HEAD", "CHERRY_PICK_HEAD"} {
					if chance(r, 0.4) {
						must(os.WriteFile(filepath.Join(gd, n), []byte(stray[r.Intn(len(stray))]+"\n"), 0644))
					}
				}
			case "alternate":
				alt := c.path("alt-objects")
				must(os.Rename(filepath.Join(gd, "objects"), alt))
				must(os.MkdirAll(filepath.Join(gd, "objects/info"), 0755))
				must(os.WriteFile(filepath.Join(gd, "objects/info/alternates"), []byte(alt+"\n"), 0644))
			case "gitfile":
				if isBare {
					break
				}
				must(os.Rename(gd, c.path("elsewhere.git")))
				must(os.WriteFile(gd, []byte("gitdir: "+c.path("elsewhere.git")+"\n"), 0644))
			case "symlink":
				must(os.Symlink(dir, c.path("link")))
				dir = c.path("link")
			case "checkout":
				ww := *w
				ww.Dir = dir
				c.workTree(&ww)
			case "mtime":
				old := time.Unix(1000000000, 0)
				must(filepath.Walk(gd, func(p string, fi os.FileInfo, err error) error {
					if err == nil && !fi.IsDir() {
						os.Chtimes(p, old, old)
					}
					return err
				}))
			}
		}
		for i, j := range jobs {
			j.Dir = dir
			j.CP = c.path(fmt.Sprintf("cp%d-%d", vi, i))
			switch v {
			case "procs":
				k := []int{1, 2, 3, 16}[r.Intn(4)]
				runtime.GOMAXPROCS(k)
				j.Conc = []int{1, 2, 7, 40}[r.Intn(4)]
				desc = fmt.Sprintf("with %d processors and %d workers", k, j.Conc)
			case "slow":
				j.Pace = paceOf(1 + r.Intn(4))
			}
			times := 1
			if v == "again" && j.Name == "process" {
				times = 5
			}
			var got map[string]string
			for t := 0; t < times; t++ {
				if t > 0 {
					j.CP = c.path(fmt.Sprintf("cp%d-%d-%d", vi, i, t))
				}
				var err error
				if !c.guarded(j.String(), func() { got, err = j.run() }) {
					return
				}
				if err != nil {
					c.Fail("run-error", "%v (%s) failed: %v", j, desc, err)
					return
				}
				if d := diffOut(want[i], got); d != "" {
					c.Fail("differs", "%v gives other results when run %s: %s", j, desc, d)
					return
				}
			}
			c.Count("repetitions: "+v, 1)
			c.Count("results compared", len(got))
			c.Key("%s|%s|%d", j.Name, v, len(got))
		}
	}
	c.Sample("%d analyses, each again under %v: %s", len(jobs), variants[:3], w.F)
}

// ---- C29

func (c *Case) checkTiming(w *World, tm process.Timing, shas []string, wall time.Duration, what string) {
	reg, mer := 0, 0
	del := map[string]bool{}
	for _, s := range shas {
		del[s] = true
		if len(w.BySHA[s].Parents) > 1 {
			mer++
		} else {
			reg++
		}
	}
	if tm.RegularCommitsCount != reg || tm.MergesCount != mer {
		c.Fail("counts", "%s: counted %d regular commits and %d merges, delivered %d and %d", what, tm.RegularCommitsCount, tm.MergesCount, reg, mer)
		return
	}
	n := len(shas)
	if n > 10 {
		n = 10
	}
	if len(tm.SlowestCommits) != n {
		c.Fail("slowest", "%s: %d slowest commits are listed, %d were delivered", what, len(tm.SlowestCommits), len(shas))
		return
	}
	seen := map[string]bool{}
	var sum time.Duration
	for i, s := range tm.SlowestCommits {
		if !del[s.Commit] || seen[s.Commit] {
			c.Fail("slowest", "%s: slowest commit %q is listed twice or was not delivered", what, s.Commit)
			return
		}
		seen[s.Commit] = true
		if i > 0 && s.Duration > tm.SlowestCommits[i-1].Duration || s.Duration < 0 {
			c.Fail("slowest", "%s: slowest commits are not in order of duration: %v", what, tm.SlowestCommits)
			return
		}
		sum += s.Duration
	}
	total := tm.RegularCommitsTime + tm.MergesTime
	if tm.RegularCommitsTime < 0 || tm.MergesTime < 0 || (reg == 0) != (tm.RegularCommitsTime == 0) && reg == 0 || mer == 0 && tm.MergesTime != 0 {
		c.Fail("durations", "%s: %v in %d regular commits, %v in %d merges", what, tm.RegularCommitsTime, reg, tm.MergesTime, mer)
		return
	}
	if sum > total || len(shas) <= 10 && sum != total {
		c.Fail("durations", "%s: the %d slowest of %d commits took %v, all together %v", what, n, len(shas), sum, total)
		return
	}
	if k := len(shas); k > 10 {
		// the slowest ten are at least average, and nobody left out is slower
		min := tm.SlowestCommits[9].Duration
		if total-sum > min*time.Duration(k-10) {
			c.Fail("durations", "%s: the %d commits not listed took %v, more than %d times the least listed %v", what, k-10, total-sum, k-10, min)
			return
		}
	}
	if total > wall {
		c.Fail("durations", "%s: took %v, commits account for %v", what, wall, total)
		return
	}
	if tm.SlowestCommitsDur() != sum {
		c.Fail("durations", "%s: total of slowest commits is %v, they add up to %v", what, tm.SlowestCommitsDur(), sum)
		return
	}
	var b strings.Builder
	tm.OutputStats(&b)
	for _, want := range []string{fmt.Sprintf("regular commits %d\n", reg), fmt.Sprintf("merges %d\n", mer), fmt.Sprintf("time in %d slowest commits", n)} {
		if !strings.Contains(b.String(), want) {
			c.Fail("output", "%s: printed statistics lack %q:\n%s", what, want, b.String())
			return
		}
	}
	c.Count("runs", 1)
	c.Count("commits", len(shas))
	c.Key("%d|%d", reg, mer)
}

func c29Case(c *Case) {
	r := c.Rng
	n := 1 + r.Intn(30)
	w := c.smallWorld("repo", n)
	stages := w.growth(r)
	all := chance(r, 0.4)
	last := ""
	for k, st := range stages {
		w.setRefs(st.head, st.refs)
		o := process.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp"), AllBranches: all && k == 0}
		ro := ripsrc.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp2"), AllBranches: all && k == 0}
		what := fmt.Sprintf("full run to #%d", st.head)
		if k > 0 {
			if w.F.Skew || all {
				break
			}
			o.CommitFromIncl, o.CommitFromMakeNonIncl = last, chance(r, 0.6)
			ro.CommitFromIncl, ro.CommitFromMakeNonIncl = last, o.CommitFromMakeNonIncl
			what = fmt.Sprintf("resume from #%d to #%d (nonincl=%v)", w.BySHA[last].Idx, st.head, o.CommitFromMakeNonIncl)
			c.Count("incremental runs", 1)
		}
		t0 := time.Now()
		res, tm, err := runProcess(o)
		if err != nil {
			c.Fail("run-error", "%s failed: %v", what, err)
			return
		}
		var shas []string
		for _, x := range res {
			shas = append(shas, x.Commit)
		}
		c.checkTiming(w, tm, shas, time.Since(t0), what)
		if c.Failed() {
			return
		}
		rs := newRipsrc(ro)
		t0 = time.Now()
		cc, err := runCodeByCommit(rs)
		if err != nil {
			c.Fail("run-error", "%s failed: %v", what, err)
			return
		}
		var cs []string
		files := 0
		for _, x := range cc {
			cs = append(cs, x.Commit.SHA)
			for _, f := range x.Files {
				if f.Skipped == "" || f.Skipped == "file was a generated file" {
					files++
				}
			}
		}
		if rs.CodeInfoTimings.Count != files || rs.CodeInfoTimings.Time < 0 || files == 0 && rs.CodeInfoTimings.Time != 0 {
			c.Fail("files", "%s: %d files counted in %v, statistics were computed for %d", what, rs.CodeInfoTimings.Count, rs.CodeInfoTimings.Time, files)
			return
		}
		c.Count("files", files)
		c.checkTiming(w, rs.GitProcessTimings, cs, time.Since(t0), what+" (code)")
		if c.Failed() {
			return
		}
		if len(shas) > 0 {
			last = shas[len(shas)-1]
		}
	}
	c.Sample("%d growth stages: %s", len(stages), w.F)
}

var _ = branches2.Opts{}

func init() {
	register(&Check{ID: "C18", Quick: 250, Thorough: 2000, Build: "race", Level: "exploration", Min: 20,
		Tech:   "Go race detector over concurrent runs with paced consumers, plus a differential monitor against solo runs",
		Note:   "Hundreds of concurrent runs of every analysis under the race detector; schedules are sampled, not enumerated.",
		Rule:   "one evaluation is 4 to 8 analyses run alone and then at once; a situation is the set of analyses run together",
		Assume: []string{"every run has its own classifier and its own checkpoint directory, as the API documents"},
		Run:    c18Case})
	register(&Check{ID: "C20", Quick: 1440, Thorough: 8000, Build: "lite", Level: "exploration", Min: 100,
		Tech: "runtime monitor: snapshots on receipt compared with the same objects at the end of the run, and aliasing of line objects",
		Note: "Every delivered object of hundreds of generated histories; sampled, not exhaustive.",
		Rule: "one evaluation is one generated history with all analyses; a situation is keyed by numbers of results and distinct line objects",
		Run:  c20Case})
	register(&Check{ID: "C28", Quick: 600, Thorough: 4000, Build: "lite", Level: "exploration", Min: 100,
		Tech:   "differential runtime monitor: repetitions under other schedules, processors, consumers, packings and repository layouts",
		Note:   "Thousands of repeated analyses; sampled, not exhaustive.",
		Rule:   "one evaluation is one repository analysed and analysed again under three variations; a situation is analysis, variation and result size",
		Assume: []string{"files whose language the enry library picks at random are C16's known finding and do not occur here"},
		Run:    c28Case})
	register(&Check{ID: "C29", Quick: 3200, Thorough: 12800, Build: "lite", Level: "exploration", Min: 60,
		Tech: "runtime conservation monitor: counters against the delivered results",
		Note: "Full and incremental runs over hundreds of generated growth sequences; sampled, not exhaustive.",
		Rule: "one evaluation is one growth sequence; a situation is one run keyed by its numbers of regular commits and merges",
		Run:  c29Case})
}
