package main

// C10: long histories, where state is dropped while processing goes on.

import (
	"fmt"
	"os"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

const keptCommits = 1000

func c10Case(c *Case) {
	r := c.Rng
	f := randomFeatures(r)
	f.NCommits = 1050 + r.Intn(900)
	f.Big, f.Long, f.Skew, f.Idents, f.Msgs, f.Huge, f.Giant = false, false, false, false, false, false, false
	f.Names = r.Intn(2)
	f.PMerge = []float64{0.05, 0.15, 0.3}[r.Intn(3)]
	f.PBranch = []float64{0.02, 0.1, 0.3, 0.6}[r.Intn(4)]
	f.PRoot = []float64{0, 0.01}[r.Intn(2)]
	f.POcto = 0.1
	w := c.makeWorld(f)
	all := chance(r, 0.6)
	sel := w.selected(all)
	o := newOracle(w)
	full := map[string]string{}
	var shas []string
	judge := func(res []process.Result, what string) bool {
		for _, x := range res {
			cm := w.BySHA[x.Commit]
			if cm == nil {
				c.Fail("unknown-commit", "%s: result for unknown commit %q", what, x.Commit)
				return false
			}
			rep := o.Reports[cm.Idx]
			c.checkReported(w, cm, rep, x.Files)
			for _, p := range sortedKeys(x.Files) {
				if rp := rep[p]; rp != nil {
					c.checkContent(w, cm, p, rp, x.Files[p])
					c.checkCredit(w, cm, p, rp, x.Files[p])
				}
			}
			if c.Failed() {
				return false
			}
		}
		return true
	}
	var res []process.Result
	var err error
	if !c.guarded("full run", func() {
		res, _, err = runProcess(process.Opts{RepoDir: w.Dir, AllBranches: all, CheckpointsDir: c.path("cp")})
	}) {
		return
	}
	if err != nil {
		c.Fail("run-error", "a full run over %d commits fails: %v", len(sel), err)
		return
	}
	if !judge(res, "full run") {
		return
	}
	for _, x := range res {
		shas = append(shas, x.Commit)
		full[x.Commit] = canonResult(x)
	}
	c.checkOrder(w, sel, shas, "full run", true)
	if c.Failed() {
		return
	}

	// which commits the state must and may hold
	left := map[int]int{}
	for i := range sel {
		for _, p := range w.Commits[i].Parents {
			left[p]++
		}
	}
	tips := map[int]bool{}
	for i := range sel {
		if left[i] == 0 {
			tips[i] = true
		}
	}
	var finished [][]int // in the order their last child was delivered
	nFinished, widest, open := 0, 0, 0
	for _, s := range shas {
		i := w.BySHA[s].Idx
		var done []int
		for _, p := range w.Commits[i].Parents {
			left[p]--
			if left[p] == 0 {
				done = append(done, p)
				open--
			}
		}
		if !tips[i] {
			open++
		}
		if open > widest {
			widest = open
		}
		if done != nil {
			finished = append(finished, done)
			nFinished += len(done)
		}
	}
	must1, may := map[int]bool{}, map[int]bool{}
	for i := range tips {
		must1[i], may[i] = true, true
	}
	k := 0
	for j := len(finished) - 1; j >= 0; j-- {
		for _, p := range finished[j] {
			if k < keptCommits {
				may[p] = true
			}
			if k+len(finished[j]) <= keptCommits {
				must1[p] = true
			}
		}
		k += len(finished[j])
	}
	last := shas[len(shas)-1]
	st, err2, ok := loadState(c, c.path("cp"), last, "state after a full run")
	if !ok {
		return
	}
	if err2 != nil {
		c.Fail("state", "the state after a full run cannot be read: %v", err2)
		return
	}
	for i := range must1 {
		if st[w.Commits[i].SHA] == nil {
			c.Fail("dropped", "commit #%d of %d (tip: %v) is not in the saved state, it has to be kept", i, len(sel), tips[i])
			return
		}
	}
	for s := range st {
		cm := w.BySHA[s]
		if cm == nil || !may[cm.Idx] {
			c.Fail("not-dropped", "commit %s is in the saved state (%d commits), it is neither a tip nor among the last %d finished ones", short(s), len(st), keptCommits)
			return
		}
	}
	c.Count("commits", len(shas))
	c.Count("dropped while processing", len(sel)-len(st))
	c.Count("max commits waiting for children", widest)

	// non-strict resumes
	for tries, runs, outside := 0, 0, 0; tries < 40 && runs < 3; tries++ {
		anc := w.ancestors(w.HeadIdx)
		x := r.Intn(len(w.Commits))
		if chance(r, 0.5) {
			x = len(w.Commits) - 1 - r.Intn(300)
		}
		if !anc[x] {
			continue
		}
		non := chance(r, 0.4)
		want := w.rangeOf(x, w.HeadIdx, non)
		fits := true
		for i := range want {
			for _, p := range w.Commits[i].Parents {
				if !want[p] && st[w.Commits[p].SHA] == nil {
					fits = false
				}
			}
		}
		if len(want) == 0 {
			continue
		}
		if !fits {
			c.Count("start commits outside the kept state", 1)
			if outside == 1 {
				continue
			}
			outside++
		} else {
			runs++
		}
		must(os.RemoveAll(c.path("cp2")))
		copyDir(c.path("cp"), c.path("cp2"))
		what := fmt.Sprintf("non-strict resume from #%d of %d (nonincl=%v)", x, len(w.Commits), non)
		var res []process.Result
		if !c.guarded(what, func() {
			res, _, err = runProcess(process.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp2"), CommitFromIncl: w.Commits[x].SHA, CommitFromMakeNonIncl: non, NoStrictResume: true})
		}) {
			return
		}
		if fits && err != nil {
			c.Fail("resume", "%s fails: %v", what, err)
			return
		}
		if !fits && err == nil {
			c.Fail("resume-outside", "%s succeeds, although it builds on commits that are not in the saved state", what)
			return
		}
		var got []string
		for _, y := range res {
			got = append(got, y.Commit)
			if full[y.Commit] != "" && full[y.Commit] != canonResult(y) {
				c.Fail("resume-result", "%s: commit %s differs (- full, + resumed): %s", what, short(y.Commit), firstDiff(full[y.Commit], canonResult(y)))
				return
			}
		}
		if !judge(res, what) {
			return
		}
		if !fits {
			c.Count("resumes that need dropped commits", 1)
			c.Key("outside|%d|%v|%d", len(want), non, len(got))
			continue
		}
		c.checkOrder(w, want, got, what, true)
		c.Count("resumes", 1)
		c.Count("commits resumed", len(got))
		c.Key("resume|%d|%v", len(want), non)
	}
	c.Sample("%d of %d commits delivered, %d tips, up to %d waiting for children, %d kept", len(sel), len(w.Commits), len(tips), widest, len(st))
	c.Key("%d|%d|%d|%d", len(sel), len(tips), widest, len(st))
}

func init() {
	register(&Check{ID: "C10", Quick: 40, Thorough: 400, Build: "lite", Level: "exploration", Min: 10,
		Tech:   "runtime monitor of long runs: delivered results against the model, kept state against a replay of the delivery order",
		Note:   "Histories of 1050 to 1950 commits with many parallel branches; sampled, not exhaustive.",
		Rule:   "one evaluation is one full run over a generated history with up to three resumes that fit the kept state and one that does not; a situation is a run keyed by size, tips, waiting commits and kept state, or a resume keyed by range",
		Assume: []string{histAssume},
		Run:    c10Case})
}
