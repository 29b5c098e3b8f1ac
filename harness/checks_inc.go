package main

// C07: incremental processing against one full run.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

// setRefs makes the repository's refs exactly the given ones.
func (w *World) setRefs(head int, refs []Ref) {
	gd := w.gitDir()
	must(os.RemoveAll(filepath.Join(gd, "refs")))
	must(os.MkdirAll(filepath.Join(gd, "refs", "heads"), 0755))
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s\n", w.Commits[head].SHA, w.Head)
	for _, r := range refs {
		if r.Name != w.Head {
			fmt.Fprintf(&b, "%s %s\n", w.Commits[r.Commit].SHA, r.Name)
		}
	}
	must(os.WriteFile(filepath.Join(gd, "packed-refs"), []byte(b.String()), 0644))
}

type stage struct {
	head int
	refs []Ref
}

// growth cuts the history of the head into successive repository states.
func (w *World) growth(r interface{ Intn(int) int }) []stage {
	// a chain of ancestors ending at the head
	chain := []int{w.HeadIdx}
	for len(chain) < 2+r.Intn(4) {
		anc := w.ancestors(chain[0])
		var c []int
		for i := range w.Commits {
			if anc[i] && i != chain[0] {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			break
		}
		chain = append([]int{c[r.Intn(len(c))]}, chain...)
	}
	var st []stage
	for k, h := range chain {
		s := stage{head: h}
		for _, rf := range w.Refs {
			if rf.Name == w.Head {
				continue
			}
			if k == len(chain)-1 {
				s.refs = append(s.refs, rf)
			} else if anc := w.ancestors(rf.Commit); r.Intn(2) == 0 {
				// an earlier state of the branch
				var c []int
				for i := range w.Commits {
					if anc[i] && i <= h+3 {
						c = append(c, i)
					}
				}
				if len(c) > 0 {
					s.refs = append(s.refs, Ref{rf.Name, c[r.Intn(len(c))]})
				}
			}
		}
		st = append(st, s)
		if r.Intn(5) == 0 {
			st = append(st, s) // nothing new
		}
	}
	return st
}

func minus(a, b map[int]bool) map[int]bool {
	r := map[int]bool{}
	for k := range a {
		if !b[k] {
			r[k] = true
		}
	}
	return r
}

// rangeOf is the set of commits a resume from x delivers with the given head.
func (w *World) rangeOf(x, head int, nonIncl bool) map[int]bool {
	if nonIncl {
		return minus(w.ancestors(head), w.ancestors(x))
	}
	if ps := w.Commits[x].Parents; len(ps) > 0 {
		return minus(w.ancestors(head), w.ancestors(ps[0]))
	}
	return minus(w.ancestors(head), nil)
}

func c07Case(c *Case) {
	f := randomFeatures(c.Rng)
	if f.NCommits < 6 {
		f.NCommits = 6 + c.Rng.Intn(10)
	}
	f.Long = false
	w := c.makeWorld(f)
	r := c.Rng
	stages := w.growth(r)
	firstAll := chance(r, 0.35) // only a first run can cover all branches
	incAll := chance(r, 0.45)
	e2e := c.N%3 == 0

	// the reference: one full run over the final repository, all branches
	w.setRefs(stages[len(stages)-1].head, allStageRefs(stages))
	full := map[string]string{}
	res, _, err := runProcess(process.Opts{RepoDir: w.Dir, AllBranches: true, CheckpointsDir: c.path("cpfull")})
	if err != nil {
		c.Fail("run-error", "full run failed: %v", err)
		return
	}
	for _, x := range res {
		full[x.Commit] = canonResult(x)
	}
	fullMeta, err := commitmeta.New(w.Dir, commitmeta.Opts{AllBranches: true}).RunMap()
	if err != nil {
		c.Fail("run-error", "full metadata listing failed: %v", err)
		return
	}
	fullCode := map[string]string{}
	if e2e {
		cc, err := runCodeByCommit(newRipsrc(ripsrc.Opts{RepoDir: w.Dir, AllBranches: true, CheckpointsDir: c.path("cpfull2")}))
		if err != nil {
			c.Fail("run-error", "full code listing failed: %v", err)
			return
		}
		for _, x := range cc {
			fullCode[x.Commit.SHA] = canonCodeCommit(x, false)
		}
	}

	last := ""
	var desc []string
	loaded := map[int]bool{} // commits whose state must be in the stored state
	for k, st := range stages {
		w.setRefs(st.head, st.refs)
		o := process.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp")}
		var want map[int]bool
		if k == 0 {
			o.AllBranches = firstAll
			want = w.ancestors(st.head)
			if firstAll {
				want = map[int]bool{}
				for _, rf := range append([]Ref{{w.Head, st.head}}, st.refs...) {
					for i := range w.ancestors(rf.Commit) {
						want[i] = true
					}
				}
			}
			desc = append(desc, fmt.Sprintf("full(head #%d all=%v)", st.head, firstAll))
		} else {
			o.AllBranches = incAll
			o.CommitFromMakeNonIncl = chance(r, 0.5)
			o.NoStrictResume = chance(r, 0.4)
			x := w.BySHA[last].Idx
			if o.NoStrictResume && chance(r, 0.7) {
				// any known commit that the head contains
				var cand []int
				for i := range w.Commits {
					if loaded[i] && w.ancestors(st.head)[i] {
						cand = append(cand, i)
					}
				}
				if len(cand) > 0 {
					x = cand[r.Intn(len(cand))]
				}
			}
			o.CommitFromIncl = w.Commits[x].SHA
			want = w.rangeOf(x, st.head, o.CommitFromMakeNonIncl)
			var extra []string // branches to be processed besides of HEAD
			if incAll && chance(r, 0.6) {
				for _, rf := range st.refs {
					if rf.Commit == x || chance(r, 0.4) {
						continue
					}
					name := rf.Name
					if chance(r, 0.5) {
						name = w.Commits[rf.Commit].SHA
					}
					extra = append(extra, name)
					for i := range w.rangeOf(x, rf.Commit, o.CommitFromMakeNonIncl) {
						want[i] = true
					}
				}
				o.WantedBranchRefs = extra
				if extra != nil {
					c.Count("incremental runs with further branches", 1)
				}
			}
			desc = append(desc, fmt.Sprintf("resume(from #%d nonincl=%v nonstrict=%v head #%d all=%v further=%v)", x, o.CommitFromMakeNonIncl, o.NoStrictResume, st.head, incAll, extra))
			// git's own ranges are wrong when commit dates are badly skewed
			spec := o.CommitFromIncl + "..HEAD"
			if !o.CommitFromMakeNonIncl {
				spec = "HEAD"
				if ps := w.Commits[x].Parents; len(ps) > 0 {
					spec = w.Commits[ps[0]].SHA + "..HEAD"
				}
			}
			if f.Skew {
				for _, order := range []string{"--date-order", "--reverse"} {
					if n := len(strings.Fields(git(w.Dir, append([]string{"rev-list", order, spec}, extra...)...))); n != len(want) {
						c.Count("ranges git gets wrong because of date skew", 1)
						return
					}
				}
			}
			// a commit of the range whose parent no run has seen cannot be processed
			for i := range want {
				for _, p := range w.Commits[i].Parents {
					if !want[p] && !loaded[p] {
						c.Count("ranges outside the stored state", 1)
						return
					}
				}
			}
		}
		what := strings.Join(desc, " ")
		res, _, err := runProcess(o)
		if err != nil {
			c.Fail("inc-error", "%s failed: %v", what, err)
			return
		}
		var shas []string
		for _, x := range res {
			shas = append(shas, x.Commit)
			if full[x.Commit] != canonResult(x) {
				c.Fail("inc-result", "%s: commit %s (#%d) differs from the full run (- full, + incremental): %s", what, short(x.Commit), w.BySHA[x.Commit].Idx, firstDiff(full[x.Commit], canonResult(x)))
				return
			}
			c.Count("results compared", 1)
		}
		c.checkOrder(w, want, shas, what, true)
		if c.Failed() {
			return
		}
		for i := range want {
			loaded[i] = true
		}
		if k > 0 {
			c.Count("incremental runs", 1)
			if len(shas) == 0 {
				c.Count("runs with nothing new", 1)
			}
			across := 0
			for i := range want {
				for _, p := range w.Commits[i].Parents {
					if !want[p] {
						across++
					}
				}
			}
			c.Key("%d|%d|%v|%v|%d", len(want), across, o.CommitFromMakeNonIncl, o.NoStrictResume, k)
		}
		// metadata and code for the same range
		if k > 0 && len(shas) > 0 {
			m, err := commitmeta.New(w.Dir, commitmeta.Opts{CommitFromIncl: o.CommitFromIncl, CommitFromMakeNonIncl: o.CommitFromMakeNonIncl, AllBranches: o.AllBranches, WantedBranchRefs: o.WantedBranchRefs}).RunMap()
			if err != nil {
				c.Fail("inc-error", "%s: metadata listing failed: %v", what, err)
				return
			}
			var ms []string
			for s, x := range m {
				ms = append(ms, s)
				if a, b := canonMeta(fullMeta[s], false), canonMeta(x, false); a != b {
					c.Fail("inc-meta", "%s: metadata of %s differs from the full listing (- full, + incremental): %s", what, short(s), firstDiff(a, b))
					return
				}
			}
			c.checkOrder(w, want, ms, what+" metadata", false)
		}
		if e2e && k > 0 && len(shas) > 0 && o.WantedBranchRefs == nil {
			// from a copy of the state this run started with
			must(os.RemoveAll(c.path("cp2")))
			must(os.Rename(c.path("cpprev"), c.path("cp2")))
			code, err := runCodeByCommit(newRipsrc(ripsrc.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp2"), CommitFromIncl: o.CommitFromIncl, CommitFromMakeNonIncl: o.CommitFromMakeNonIncl, NoStrictResume: o.NoStrictResume, AllBranches: o.AllBranches}))
			if err != nil {
				c.Fail("inc-error", "%s: code listing failed: %v", what, err)
				return
			}
			var cs []string
			for _, x := range code {
				cs = append(cs, x.Commit.SHA)
				if a, b := fullCode[x.Commit.SHA], canonCodeCommit(x, false); a != b {
					c.Fail("inc-code", "%s: code results of %s (#%d) differ from the full run (- full, + incremental): %s", what, short(x.Commit.SHA), w.BySHA[x.Commit.SHA].Idx, firstDiff(a, b))
					return
				}
				c.Count("code results compared", len(x.Files))
			}
			c.checkOrder(w, want, cs, what+" code", true)
		}
		if c.Failed() {
			return
		}
		if len(shas) > 0 {
			last = shas[len(shas)-1]
		}
		if e2e {
			must(os.RemoveAll(c.path("cpprev")))
			copyDir(c.path("cp"), c.path("cpprev"))
		}
	}
	c.Sample("%s over history %s", strings.Join(desc, " "), f)
}

func allStageRefs(st []stage) (refs []Ref) {
	for k, s := range st {
		for i, r := range s.refs {
			refs = append(refs, Ref{fmt.Sprintf("refs/heads/s%d-%d", k, i), r.Commit})
		}
	}
	return
}

func copyDir(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, fi.Mode().Perm())
	}))
}

func init() {
	register(&Check{ID: "C07", Quick: 1200, Thorough: 12000, Build: "lite", Level: "exploration", Min: 100,
		Tech:   "differential runtime monitor: chains of incremental runs against one full run of the same code",
		Note:   "Hundreds of generated growth sequences with strict, non-strict, inclusive and non-inclusive resumes; sampled, not exhaustive.",
		Rule:   "one evaluation is one growth sequence; a situation is one incremental run keyed by range size, parent edges crossing the cut, resume mode and position",
		Assume: []string{histAssume, "the full run itself is judged by C01..C06"},
		Run:    c07Case})
}
