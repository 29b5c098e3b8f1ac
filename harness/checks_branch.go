package main

// C11: commit graph. C12: branch listings. C13, C14: branch relations.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

// graphWorld makes a history whose only interesting part is its shape.
func (c *Case) graphWorld(n int, f Features) *World {
	r := c.Rng
	w := newWorld(r, f)
	shape := r.Intn(5)
	window := 1 + r.Intn(12)
	pMerge := []float64{0, 0.1, 0.3, 0.6}[r.Intn(4)]
	pRoot := []float64{0, 0, 0.03, 0.15}[r.Intn(4)]
	pick := func(i int) int {
		switch shape {
		case 0: // anywhere
			return r.Intn(i)
		case 1: // a few parallel lines
			k := i - 1 - r.Intn(3)
			if k < 0 {
				k = 0
			}
			return k
		default:
			k := i - 1 - r.Intn(window)
			if k < 0 {
				k = 0
			}
			return k
		}
	}
	blob := map[string]*File{"f": {Mode: "100644", Kind: KText, Lines: []string{"x"}, EOL: true}}
	for i := 0; i < n; i++ {
		var ps []int
		if i > 0 && !chance(r, pRoot) {
			ps = append(ps, pick(i))
			if chance(r, pMerge) {
				k := 1
				if chance(r, 0.2) {
					k = 2 + r.Intn(4)
					if chance(r, 0.1) {
						k = 6 + r.Intn(20)
					}
				}
				for j := 0; j < k; j++ {
					p := pick(i)
					dup := false
					for _, q := range ps {
						dup = dup || p == q
					}
					if !dup {
						ps = append(ps, p)
					}
				}
			}
		}
		if n >= 500 && i == n-1 && chance(r, 0.3) {
			ps = r.Perm(i)
			if chance(r, 0.6) {
				ps = ps[:50+r.Intn(i-50)]
			}
		}
		w.addCommit(ps, blob)
	}
	w.HeadIdx = n - 1 - r.Intn(1+n/3)
	if chance(r, 0.1) {
		w.HeadIdx = r.Intn(n)
	}
	if len(w.Commits[n-1].Parents) >= 50 && chance(r, 0.7) {
		w.HeadIdx = n - 1
	}
	w.Head = "refs/heads/" + []string{"master", "main", "dev/main"}[r.Intn(3)]
	w.Refs = []Ref{{w.Head, w.HeadIdx}}
	must(w.write(c.path("repo")))
	return w
}

func (w *World) shaSet(m map[int]bool) map[string]bool {
	s := map[string]bool{}
	for i := range m {
		s[w.Commits[i].SHA] = true
	}
	return s
}

func (w *World) shas(idx []int) (r []string) {
	for _, i := range idx {
		r = append(r, w.Commits[i].SHA)
	}
	return
}

// ---- C11

func (c *Case) checkGraph(what string, gr *parentsgraph.Graph, want map[string][]string) {
	for s, ps := range gr.Parents {
		wp, ok := want[s]
		if !ok {
			c.Fail("graph-extra", "%s: the graph has commit %q, which is not selected", what, s)
			return
		}
		if strings.Join(ps, " ") != strings.Join(wp, " ") || len(ps) != len(wp) {
			c.Fail("graph-parents", "%s: commit %s has parents %q, git says %q", what, s, ps, wp)
			return
		}
	}
	children := map[string][]string{}
	for s, ps := range want {
		if _, ok := gr.Parents[s]; !ok {
			c.Fail("graph-missing", "%s: commit %s is missing from the graph", what, s)
			return
		}
		if _, ok := gr.Children[s]; !ok {
			c.Fail("graph-children", "%s: commit %s has no entry in the children relation", what, s)
			return
		}
		for _, p := range ps {
			children[p] = append(children[p], s)
		}
	}
	if len(gr.Children) != len(want) {
		c.Fail("graph-children", "%s: the children relation has %d entries for %d commits", what, len(gr.Children), len(want))
		return
	}
	edges := 0
	for s := range want {
		ch := children[s]
		sort.Strings(ch)
		if strings.Join(ch, " ") != strings.Join(gr.Children[s], " ") {
			c.Fail("graph-children", "%s: commit %s has children %q, expected %q", what, s, gr.Children[s], ch)
			return
		}
		edges += len(ch)
	}
	c.Count("graphs", 1)
	c.Count("commits", len(want))
	c.Count("edges", edges)
	c.Key("%d|%d", len(want), edges)
}

func c11Case(c *Case) {
	r := c.Rng
	n := 1 + r.Intn(60)
	if chance(r, 0.04) {
		n = 500 + r.Intn(2500)
		if chance(r, 0.03) {
			n = 5000 + r.Intn(15000)
		}
	}
	w := c.graphWorld(n, Features{Bare: chance(r, 0.3), Skew: chance(r, 0.3), Msgs: chance(r, 0.5), Idents: chance(r, 0.3)})
	// refs of every kind on some commits
	refs := []Ref{}
	for i := 0; i < r.Intn(8); i++ {
		pre := []string{"refs/heads/b", "refs/tags/t", "refs/remotes/origin/o", "refs/remotes/up/u", "refs/pull/p", "refs/custom/x"}[r.Intn(6)]
		refs = append(refs, Ref{fmt.Sprintf("%s%d", pre, i), r.Intn(n)})
	}
	w.Refs = append([]Ref{{w.Head, w.HeadIdx}}, refs...)
	w.setRefs(w.HeadIdx, refs)
	tags := 0
	for i := 0; i < r.Intn(3); i++ { // annotated tags
		k := r.Intn(n)
		git(w.Dir, "-c", "user.name=t", "-c", "user.email=t@e", "tag", "-a", "-m", "x", fmt.Sprintf("ann%d", i), w.Commits[k].SHA)
		w.Refs = append(w.Refs, Ref{"", k})
		tags++
	}
	if chance(r, 0.1) { // names of things that are not commits
		blob := strings.TrimSpace(gitIn(w.Dir, "text\n", "hash-object", "-w", "--stdin"))
		git(w.Dir, "-c", "user.name=t", "-c", "user.email=t@e", "tag", "-a", "-m", "x", "of-a-blob", blob)
		git(w.Dir, "tag", "of-a-tree", w.Commits[0].SHA+"^{tree}")
	}
	shallow := map[int]bool{}
	if chance(r, 0.15) && n > 3 {
		var b strings.Builder
		for i := 0; i < 1+r.Intn(3); i++ {
			k := r.Intn(n)
			shallow[k] = true
		}
		for k := range shallow {
			fmt.Fprintln(&b, w.Commits[k].SHA)
		}
		must(os.WriteFile(filepath.Join(w.gitDir(), "shallow"), []byte(b.String()), 0644))
	}
	if chance(r, 0.2) {
		git(w.Dir, "repack", "-adq")
	}
	if chance(r, 0.2) && len(shallow) == 0 {
		git(w.Dir, "commit-graph", "write", "--reachable")
	}
	for _, all := range []bool{false, true} {
		want := map[string][]string{}
		st := []int{w.HeadIdx}
		if all {
			for _, rf := range w.Refs {
				st = append(st, rf.Commit)
			}
		}
		for len(st) > 0 {
			k := st[len(st)-1]
			st = st[:len(st)-1]
			cm := w.Commits[k]
			if _, ok := want[cm.SHA]; ok {
				continue
			}
			var ps []int
			if !shallow[k] {
				ps = cm.Parents
			}
			want[cm.SHA] = w.shas(ps)
			st = append(st, ps...)
		}
		gr := parentsgraph.New(parentsgraph.Opts{RepoDir: w.Dir, AllBranches: all, Logger: quietLogger()})
		what := fmt.Sprintf("graph (all=%v, %d refs, %d tags, %d shallow)", all, len(w.Refs), tags, len(shallow))
		var err error
		if !c.guarded(what, func() { err = gr.Read() }) {
			return
		}
		if err != nil {
			c.Fail("graph-error", "%s failed: %v", what, err)
			return
		}
		c.checkGraph(what, gr, want)
		cp := map[string][]string{}
		for k, v := range want {
			cp[k] = append([]string(nil), v...)
		}
		c.checkGraph(what+" from map", parentsgraph.NewFromMap(cp), want)
		if c.Failed() {
			return
		}
	}
	// arbitrary names
	m := map[string][]string{}
	var names []string
	for i := 0; i < r.Intn(30); i++ {
		nm := fmt.Sprintf("%s%d", []string{"", "a", "Z", "é", "0"}[r.Intn(5)], i)
		m[nm] = nil
		for _, p := range r.Perm(len(names)) {
			if len(m[nm]) < 3 && chance(r, 0.3) {
				m[nm] = append(m[nm], names[p])
			}
		}
		names = append(names, nm)
	}
	c.checkGraph("graph from a map", parentsgraph.NewFromMap(m), m)
	c.Sample("%d commits, %d refs, %d annotated tags, %d shallow", n, len(w.Refs), tags, len(shallow))
}

// ---- C12

var oddBranch = []string{
	"a@@@b", "@@@", "x@@@2018", "feature/x", "feature/y/z", "refs/heads/inner", "heads/b1", "remotes/origin/q", "origin/b1", "origin/HEAD2", "fix/HEAD", "HEADS", "x/HEAD/y", "fix/head", "my/master", "my/main", "my/FETCH_HEAD", "日本語", "é", "\xff\xfe", "-dash", "q\"uote", "'single'", "per%cent", "%(refname)", "dollar$x", "$(id)", "`id`", "a;b", "a&b", "a|b", "#hash", "a=b", "{x}", "a}", "HEADx", "head", "HEAD/x", "FETCH_HEAD", "0123456789012345678901234567890123456789", "v1.0", "a.b", "a-b", "(x)", "<x>", "!bang", "a,b", "nbsp\u00a0", "trailing.", "UPPER", "upper", "stash", "master2", "mast", "x.lockx", "@x", "x@", "a=>b", "null", "true", "-", "--all", "--", "zz\u2028",
}

func legalRef(name string) bool {
	_, err := gitTry("/", "", "check-ref-format", "refs/heads/"+name)
	return err == nil
}

var legalOnce sync.Once

func oddBranchNames(r *rand.Rand, n int) []string {
	legalOnce.Do(func() {
		var ok []string
		for _, b := range oddBranch {
			if legalRef(b) {
				ok = append(ok, b)
			}
		}
		oddBranch = ok
	})
	var res []string
	taken := func(x string) bool {
		for _, y := range res {
			if x == y || strings.HasPrefix(x, y+"/") || strings.HasPrefix(y, x+"/") {
				return true
			}
		}
		return false
	}
	for try := 0; try < 4*n && len(res) < n; try++ {
		x := fmt.Sprintf("b%d", r.Intn(3*n))
		if chance(r, 0.5) {
			x = oddBranch[r.Intn(len(oddBranch))]
			if chance(r, 0.2) {
				x = oddBranch[r.Intn(len(oddBranch))] + fmt.Sprintf("-%d", r.Intn(100))
				if !legalRef(x) {
					continue
				}
			}
		}
		if !taken(x) {
			res = append(res, x)
		}
	}
	return res
}

type branchWorld struct {
	*World
	local, origin map[string]int
}

// branchRefs gives the world a random set of refs.
func (c *Case) branchRefs(w *World, nBranches int) *branchWorld {
	r := c.Rng
	bw := &branchWorld{World: w, local: map[string]int{}, origin: map[string]int{}}
	n := len(w.Commits)
	free := func(m map[string]int, x string) bool {
		for y := range m {
			if x == y || strings.HasPrefix(x, y+"/") || strings.HasPrefix(y, x+"/") {
				return false
			}
		}
		return true
	}
	def := strings.TrimPrefix(w.Head, "refs/heads/")
	bw.local[def] = w.HeadIdx
	for _, x := range oddBranchNames(r, nBranches) {
		if free(bw.local, x) {
			bw.local[x] = r.Intn(n)
		}
	}
	// names that differ from another in case or by an affix only
	variant := func(x string) string {
		return []string{strings.ToUpper(x), strings.Title(x), strings.ToLower(x), x + "x", "x" + x, "x/" + x, "origin/" + x, "heads/" + x, "refs/heads/" + x, x + "-1", x[:len(x)-1]}[r.Intn(11)]
	}
	for i := 0; i < r.Intn(4); i++ {
		x := def
		if ks := sortedKeys(bw.local); chance(r, 0.4) {
			x = ks[r.Intn(len(ks))]
		}
		if x = variant(x); legalRef(x) && x != "HEAD" && free(bw.local, x) {
			bw.local[x] = r.Intn(n)
		}
	}
	var refs []Ref
	for x, k := range bw.local {
		refs = append(refs, Ref{"refs/heads/" + x, k})
	}
	if chance(r, 0.7) {
		if chance(r, 0.7) {
			bw.origin[def] = r.Intn(n)
		}
		for _, x := range oddBranchNames(r, 1+nBranches/2) {
			if free(bw.origin, x) && x != "HEAD" && !strings.HasPrefix(x, "HEAD/") {
				bw.origin[x] = r.Intn(n)
			}
		}
		for i := 0; i < r.Intn(3); i++ {
			if x := variant(def); legalRef(x) && free(bw.origin, x) && x != "HEAD" {
				bw.origin[x] = r.Intn(n)
			}
		}
		for x, k := range bw.origin {
			refs = append(refs, Ref{"refs/remotes/origin/" + x, k})
		}
	}
	// clashing short names
	clash := sortedKeys(bw.local)
	for i := 0; i < r.Intn(6); i++ {
		x := clash[r.Intn(len(clash))]
		pre := []string{"refs/tags/", "refs/remotes/", "refs/remotes/up/", "refs/heads2/", "refs/notes/"}[r.Intn(5)]
		if pre == "refs/remotes/" && (strings.HasPrefix(x, "origin/") || x == "origin" || x == "up" || strings.HasPrefix(x, "up/")) {
			continue
		}
		ok := true
		for _, rf := range refs {
			if rf.Name == pre+x || strings.HasPrefix(rf.Name, pre+x+"/") || strings.HasPrefix(pre+x, rf.Name+"/") {
				ok = false
			}
		}
		if ok {
			refs = append(refs, Ref{pre + x, r.Intn(n)})
		}
	}
	if w.Head == "refs/heads/master" && chance(r, 0.3) {
		ok := true
		for _, rf := range refs {
			if rf.Name == "refs/tags/HEAD" || strings.HasPrefix(rf.Name, "refs/tags/HEAD/") {
				ok = false
			}
		}
		if ok {
			refs = append(refs, Ref{"refs/tags/HEAD", r.Intn(n)})
		}
	}
	sort.Slice(refs, func(i, j int) bool { return refs[i].Name < refs[j].Name })
	w.Refs = refs
	if chance(r, 0.5) {
		w.setRefs(w.HeadIdx, refs)
	} else { // loose
		gd := w.gitDir()
		must(os.RemoveAll(filepath.Join(gd, "refs")))
		os.Remove(filepath.Join(gd, "packed-refs"))
		for _, rf := range refs {
			p := filepath.Join(gd, rf.Name)
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, []byte(w.Commits[rf.Commit].SHA+"\n"), 0644))
		}
	}
	gd := w.gitDir()
	if len(bw.origin) > 0 && chance(r, 0.7) {
		t := sortedKeys(bw.origin)[r.Intn(len(bw.origin))]
		must(os.MkdirAll(filepath.Join(gd, "refs/remotes/origin"), 0755))
		must(os.WriteFile(filepath.Join(gd, "refs/remotes/origin/HEAD"), []byte("ref: refs/remotes/origin/"+t+"\n"), 0644))
	}
	if len(bw.origin) == 0 && chance(r, 0.2) { // left over from a branch that was removed
		must(os.MkdirAll(filepath.Join(gd, "refs/remotes/origin"), 0755))
		must(os.WriteFile(filepath.Join(gd, "refs/remotes/origin/HEAD"), []byte("ref: refs/remotes/origin/gone\n"), 0644))
	}
	if chance(r, 0.05) && free(bw.local, "dangling") {
		must(os.WriteFile(filepath.Join(gd, "refs/heads/dangling"), []byte("ref: refs/heads/no/such/branch\n"), 0644))
	}
	if chance(r, 0.1) { // names of things that are not commits
		must(os.MkdirAll(filepath.Join(gd, "refs/tags"), 0755))
		blob := strings.TrimSpace(gitIn(w.Dir, "text\n", "hash-object", "-w", "--stdin"))
		must(os.WriteFile(filepath.Join(gd, "refs/tags/of-a-blob"), []byte(blob+"\n"), 0644))
		tree := strings.TrimSpace(git(w.Dir, "rev-parse", w.Commits[0].SHA+"^{tree}"))
		must(os.WriteFile(filepath.Join(gd, "refs/tags/of-a-tree"), []byte(tree+"\n"), 0644))
	}
	if chance(r, 0.15) && free(bw.local, "symref") { // a branch that is an alias of another
		t := sortedKeys(bw.local)[r.Intn(len(bw.local))]
		must(os.WriteFile(filepath.Join(gd, "refs/heads/symref"), []byte("ref: refs/heads/"+t+"\n"), 0644))
		bw.local["symref"] = bw.local[t]
	}
	return bw
}

func (c *Case) readGraph(w *World, all bool) *parentsgraph.Graph {
	gr := parentsgraph.New(parentsgraph.Opts{RepoDir: w.Dir, AllBranches: all, Logger: quietLogger()})
	if err := gr.Read(); err != nil {
		c.Fail("graph-error", "reading the commit graph failed: %v", err)
		return nil
	}
	return gr
}

func (w *World) allReach() map[int]bool {
	m := map[int]bool{}
	for i := range w.ancestors(w.HeadIdx) {
		m[i] = true
	}
	for _, rf := range w.Refs {
		for i := range w.ancestors(rf.Commit) {
			m[i] = true
		}
	}
	return m
}

func c12Case(c *Case) {
	r := c.Rng
	n := 1 + r.Intn(30)
	w := c.graphWorld(n, Features{Bare: chance(r, 0.3), Idents: chance(r, 0.7), Skew: chance(r, 0.3)})
	nb := r.Intn(12)
	if chance(r, 0.1) {
		nb = 60 + r.Intn(150)
	}
	bw := c.branchRefs(w, nb)
	def := strings.TrimPrefix(w.Head, "refs/heads/")
	ctx := context.Background()

	got, err := branchmeta.GetDefault(ctx, w.Dir)
	if err != nil || got.Name != def || got.Commit != w.Commits[w.HeadIdx].SHA {
		c.Fail("default", "the default branch is reported as %q at %q (error %v), expected %q at %q", got.Name, got.Commit, err, def, w.Commits[w.HeadIdx].SHA)
		return
	}
	for _, origin := range []bool{false, true} {
		src := bw.local
		if origin {
			src = bw.origin
		}
		for _, incl := range []bool{false, true} {
			what := fmt.Sprintf("branch metadata (origin=%v default=%v)", origin, incl)
			var res []branchmeta.BranchWithCommitTime
			var err error
			if !c.guarded(what, func() {
				res, err = branchmeta.Get(ctx, branchmeta.Opts{Logger: quietLogger(), RepoDir: w.Dir, UseOrigin: origin, IncludeDefault: incl})
			}) {
				return
			}
			if err != nil {
				c.Fail("meta-error", "%s failed: %v", what, err)
				return
			}
			var want []string
			for _, x := range sortedKeys(src) {
				if incl || x != def {
					want = append(want, x)
				}
			}
			var names []string
			for _, b := range res {
				names = append(names, b.Name)
			}
			if fmt.Sprintf("%q", names) != fmt.Sprintf("%q", want) {
				c.Fail("meta-names", "%s names %q, expected %q", what, names, want)
				return
			}
			for _, b := range res {
				cm := w.Commits[src[b.Name]]
				if b.Commit != cm.SHA {
					c.Fail("meta-head", "%s: %q is at %s, expected %s", what, b.Name, b.Commit, cm.SHA)
					return
				}
				_, off := b.CommitCommitterTime.Zone()
				if b.CommitCommitterTime.Unix() != cm.Committer.When || off != cm.Committer.TZ*60 {
					c.Fail("meta-time", "%s: %q has time %v, expected %d %s", what, b.Name, b.CommitCommitterTime.Format(time.RFC3339), cm.Committer.When, cm.Committer.tz())
					return
				}
			}
			c.Count("branches in metadata", len(res))
		}
	}
	gr := c.readGraph(w, true)
	if gr == nil {
		return
	}
	reach := w.shaSet(w.allReach())
	var prs []string
	wantPR := map[string]bool{}
	for i := 0; i < r.Intn(8); i++ {
		s := w.Commits[r.Intn(n)].SHA
		switch r.Intn(8) {
		case 0:
			s = randHash(r)
		case 1:
			s = []string{"", "HEAD", def, "zzz", s[:10], strings.ToUpper(s)}[r.Intn(6)]
			if reach[s] { // an all-digit prefix cannot be a full id, but be safe
				continue
			}
		}
		for k := 0; k <= r.Intn(3); k++ {
			prs = append(prs, s)
		}
		if reach[s] {
			wantPR[s] = true
		}
	}
	r.Shuffle(len(prs), func(i, j int) { prs[i], prs[j] = prs[j], prs[i] })
	for round := 0; round < 3; round++ {
		o := branches2.Opts{Logger: quietLogger(), RepoDir: w.Dir, CommitGraph: gr, UseOrigin: chance(r, 0.5), IncludeDefaultBranch: chance(r, 0.7), PullRequestSHAs: prs, Concurrency: []int{0, 1, 2, 3, 8, 64}[r.Intn(6)]}
		if chance(r, 0.15) {
			o.PullRequestsOnly = true
		}
		e2e := round == 2
		if e2e {
			o.IncludeDefaultBranch, o.PullRequestsOnly = true, false
		}
		what := fmt.Sprintf("branches (origin=%v default=%v prs=%d only=%v workers=%d api=%v)", o.UseOrigin, o.IncludeDefaultBranch, len(prs), o.PullRequestsOnly, o.Concurrency, e2e)
		var res []branches2.Branch
		var err error
		slow := chance(r, 0.2)
		if !c.guarded(what, func() {
			ch := make(chan branches2.Branch)
			done := make(chan bool)
			go func() {
				for b := range ch {
					res = append(res, b)
					if slow {
						runtime.Gosched()
					}
				}
				close(done)
			}()
			if e2e {
				err = newRipsrc(ripsrc.Opts{RepoDir: w.Dir, AllBranches: true, BranchesUseOrigin: o.UseOrigin, PullRequestSHAs: prs}).Branches(ctx, ch)
			} else {
				err = branches2.New(o).Run(ctx, ch)
			}
			<-done
		}) {
			return
		}
		if err != nil {
			c.Fail("branches-error", "%s failed: %v", what, err)
			return
		}
		src := bw.local
		if o.UseOrigin {
			src = bw.origin
		}
		want := map[string]int{} // what must appear
		label := func(b branches2.Branch) string {
			return fmt.Sprintf("name=%q pr=%v default=%v head=%s", b.Name, b.IsPullRequest, b.IsDefault, b.HeadSHA)
		}
		if !o.PullRequestsOnly {
			if o.IncludeDefaultBranch {
				want[label(branches2.Branch{Name: def, IsDefault: true, HeadSHA: w.Commits[w.HeadIdx].SHA})]++
			}
			for x, k := range src {
				if x != def {
					want[label(branches2.Branch{Name: x, HeadSHA: w.Commits[k].SHA})]++
				}
			}
		}
		for s := range wantPR {
			want[label(branches2.Branch{IsPullRequest: true, HeadSHA: s})]++
		}
		have := map[string]int{}
		for _, b := range res {
			have[label(b)]++
			if b.IsPullRequest && b.BranchID != "" || !b.IsPullRequest && b.BranchID == "" {
				c.Fail("branch-id", "%s: %s has identity %q", what, label(b), b.BranchID)
			}
			if b.IsDefault {
				all := w.shaSet(w.ancestors(w.HeadIdx))
				seen := map[string]bool{}
				for _, s := range b.Commits {
					if seen[s] || !all[s] {
						c.Fail("default-commits", "%s: the default branch lists %s, which is repeated or not on it", what, s)
						return
					}
					seen[s] = true
				}
				if len(seen) != len(all) {
					c.Fail("default-commits", "%s: the default branch lists %d commits of %d", what, len(seen), len(all))
					return
				}
				if b.Commits[len(b.Commits)-1] != b.HeadSHA {
					c.Fail("default-commits", "%s: the default branch's last commit is not its head", what)
				}
				if fc := w.BySHA[b.FirstCommit]; fc == nil || !all[b.FirstCommit] || len(fc.Parents) != 0 {
					c.Fail("default-first", "%s: the default branch's first commit is %q, not a root of it", what, b.FirstCommit)
				}
			}
		}
		for _, l := range sortedKeys(have) {
			if have[l] != want[l] {
				c.Fail("branches-extra", "%s: %s is reported %d times, expected %d", what, l, have[l], want[l])
				return
			}
		}
		for _, l := range sortedKeys(want) {
			if have[l] != want[l] {
				c.Fail("branches-missing", "%s: %s is reported %d times, expected %d", what, l, have[l], want[l])
				return
			}
		}
		c.Count("branches listed", len(res))
		c.Key("%d|%d|%v|%v|%v|%d", len(src), len(wantPR), o.UseOrigin, o.IncludeDefaultBranch, o.PullRequestsOnly, o.Concurrency)
	}
	c.Sample("%d commits; local branches %q; origin branches %q; %d pull requests (%d known)", n, sortedKeys(bw.local), sortedKeys(bw.origin), len(prs), len(wantPR))
}

// ---- C13, C14

var idsSeen = map[string]string{} // (name, branch point) -> id, and back
var idsMu sync.Mutex

// branchRun lists every commit of the world as a pull request, so that every
// head is examined against the default branch.
func (c *Case) branchRun(w *World, bw *branchWorld) []branches2.Branch {
	gr := c.readGraph(w, true)
	if gr == nil {
		return nil
	}
	var prs []string
	for i := range w.allReach() {
		if len(w.Commits) < 80 || chance(c.Rng, 60/float64(len(w.Commits))) {
			prs = append(prs, w.Commits[i].SHA)
		}
	}
	sort.Strings(prs)
	var res []branches2.Branch
	var err error
	if !c.guarded("branches", func() {
		res, err = branches2.New(branches2.Opts{Logger: quietLogger(), RepoDir: w.Dir, CommitGraph: gr, IncludeDefaultBranch: true, UseOrigin: chance(c.Rng, 0.3), PullRequestSHAs: prs, Concurrency: 1 + c.Rng.Intn(8)}).RunSlice(context.Background())
	}) {
		return nil
	}
	if err != nil {
		c.Fail("branches-error", "branches failed: %v", err)
		return nil
	}
	return res
}

func (c *Case) branchesWorld() (*World, *branchWorld) {
	r := c.Rng
	n := 1 + r.Intn(40)
	if chance(r, 0.03) {
		n = 300 + r.Intn(900)
	}
	w := c.graphWorld(n, Features{Bare: chance(r, 0.2)})
	bw := c.branchRefs(w, 1+r.Intn(6))
	c.Sample("%d commits, head #%d, %d refs", n, w.HeadIdx, len(w.Refs))
	return w, bw
}

// onlyThrough returns the commits the default head reaches without passing through h.
func (w *World) without(h int) map[int]bool {
	m := map[int]bool{}
	st := []int{w.HeadIdx}
	for len(st) > 0 {
		k := st[len(st)-1]
		st = st[:len(st)-1]
		if m[k] || k == h {
			continue
		}
		m[k] = true
		st = append(st, w.Commits[k].Parents...)
	}
	return m
}

func c13Case(c *Case) {
	w, bw := c.branchesWorld()
	def := w.ancestors(w.HeadIdx)
	for _, b := range c.branchRun(w, bw) {
		h, ok := w.BySHA[b.HeadSHA]
		if !ok {
			c.Fail("branch-head", "branch %q has unknown head %q", b.Name, b.HeadSHA)
			return
		}
		what := fmt.Sprintf("branch %q (head #%d, default head #%d, pr=%v)", b.Name, h.Idx, w.HeadIdx, b.IsPullRequest)
		base := def
		if b.IsDefault {
			base = map[int]bool{}
		} else if def[h.Idx] {
			base = w.without(h.Idx)
		}
		want := minus(w.ancestors(h.Idx), base)
		var got []int
		seen := map[int]bool{}
		merges := 0
		for _, s := range b.Commits {
			cm, ok := w.BySHA[s]
			if !ok || !want[cm.Idx] {
				c.Fail("branch-extra", "%s lists commit %s, which is not its own", what, s)
				return
			}
			if seen[cm.Idx] {
				c.Fail("branch-repeat", "%s lists commit %s twice", what, s)
				return
			}
			seen[cm.Idx] = true
			got = append(got, cm.Idx)
			if len(cm.Parents) > 1 {
				merges++
			}
		}
		if len(got) != len(want) {
			c.Fail("branch-missing", "%s lists %d commits, it has %d of its own", what, len(got), len(want))
			return
		}
		if got[len(got)-1] != h.Idx {
			c.Fail("branch-last", "%s: the last commit is #%d, not the head", what, got[len(got)-1])
			return
		}
		if merges == 0 {
			for i := 1; i < len(got); i++ {
				if !w.ancestors(got[i])[got[i-1]] {
					c.Fail("branch-order", "%s: commit #%d is listed before #%d, which is not its descendant", what, got[i-1], got[i])
					return
				}
			}
		}
		if b.IsDefault {
			if fc := w.BySHA[b.FirstCommit]; fc == nil || len(fc.Parents) > 0 || !def[fc.Idx] || merges == 0 && fc.Idx != got[0] {
				c.Fail("branch-first", "%s: first commit is %q", what, b.FirstCommit)
			}
			continue
		}
		if b.FirstCommit != b.Commits[0] || b.AheadDefaultCount != len(b.Commits) {
			c.Fail("branch-first", "%s: first commit %q and ahead count %d do not agree with the list (%d commits from %q)", what, b.FirstCommit, b.AheadDefaultCount, len(b.Commits), b.Commits[0])
			return
		}
		pts := map[int]bool{}
		for i := range want {
			for _, p := range w.Commits[i].Parents {
				if base[p] {
					pts[p] = true
				}
			}
		}
		var wantPts []string
		for p := range pts {
			old := true
			for q := range pts {
				if q != p && w.ancestors(p)[q] {
					old = false
				}
			}
			if old {
				wantPts = append(wantPts, w.Commits[p].SHA)
			}
		}
		sort.Strings(wantPts)
		if strings.Join(wantPts, " ") != strings.Join(b.BranchedFromCommits, " ") {
			c.Fail("branch-points", "%s: branch points are %q, expected %q", what, b.BranchedFromCommits, wantPts)
			return
		}
		c.Count("branches", 1)
		c.Count("commits", len(got))
		c.Key("%v|%d|%d|%d|%d", def[h.Idx], len(got), merges, len(pts), len(wantPts))
	}
}

func c14Case(c *Case) {
	w, bw := c.branchesWorld()
	for step := 0; step < 2; step++ {
		def := w.ancestors(w.HeadIdx)
		for _, b := range c.branchRun(w, bw) {
			h, ok := w.BySHA[b.HeadSHA]
			if !ok {
				c.Fail("branch-head", "branch %q has unknown head %q", b.Name, b.HeadSHA)
				return
			}
			what := fmt.Sprintf("branch %q (head #%d, default head #%d, pr=%v)", b.Name, h.Idx, w.HeadIdx, b.IsPullRequest)
			if !b.IsPullRequest {
				bp := ""
				if len(b.BranchedFromCommits) > 0 {
					bp = b.BranchedFromCommits[0]
				}
				k := fmt.Sprintf("key %q %s", b.Name, bp)
				idsMu.Lock()
				i1, ok1 := idsSeen[k]
				i2, ok2 := idsSeen["id "+b.BranchID]
				idsSeen[k], idsSeen["id "+b.BranchID] = b.BranchID, k
				idsMu.Unlock()
				if ok1 && i1 != b.BranchID {
					c.Fail("branch-id", "%s: identity %q, the same name and branch point gave %q before", what, b.BranchID, i1)
					return
				}
				if ok2 && i2 != k {
					c.Fail("branch-id", "%s: identity %q belongs to %s as well as to %s", what, b.BranchID, i2, k)
					return
				}
				c.Count("identities", 1)
			}
			if b.IsDefault {
				if b.BehindDefaultCount != 0 {
					c.Fail("behind", "%s: the default branch is %d behind itself", what, b.BehindDefaultCount)
				}
				continue
			}
			if b.IsMerged != def[h.Idx] {
				c.Fail("merged", "%s: merged is %v, but the head is reachable from the default head: %v", what, b.IsMerged, def[h.Idx])
				return
			}
			var kids []string
			for i := range def {
				for _, p := range w.Commits[i].Parents {
					if p == h.Idx {
						kids = append(kids, w.Commits[i].SHA)
					}
				}
			}
			if !b.IsMerged {
				kids = nil
			}
			okm := b.MergeCommit == "" && len(kids) == 0
			for _, k := range kids {
				okm = okm || b.MergeCommit == k
			}
			if !okm {
				c.Fail("merge-commit", "%s: merge commit is %q, the head's children on the default branch are %q", what, b.MergeCommit, kids)
				return
			}
			behind := 0
			if !b.IsMerged {
				mine := w.ancestors(h.Idx)
				left := minus(def, mine)
				if len(left) < len(def) {
					behind = len(left)
				}
			}
			if b.BehindDefaultCount != behind {
				c.Fail("behind", "%s: behind count is %d, expected %d", what, b.BehindDefaultCount, behind)
				return
			}
			c.Count("branches", 1)
			c.Key("%v|%d|%d|%d|%d", b.IsMerged, len(kids), behind, len(def), b.AheadDefaultCount)
		}
		if c.Failed() || step == 1 {
			return
		}
		// the branches move on: one more commit on some of them
		r := c.Rng
		blob := w.Commits[0].Tree
		from := len(w.Commits)
		var refs []Ref
		for _, rf := range w.Refs {
			if rf.Name != w.Head && strings.HasPrefix(rf.Name, "refs/heads/") && chance(r, 0.6) && rf.Name != "refs/heads/symref" {
				k := w.addCommit([]int{rf.Commit}, blob)
				rf.Commit = k.Idx
			}
			refs = append(refs, rf)
		}
		if len(w.Commits) == from {
			return
		}
		w.Refs = refs
		w.anc = nil
		os.Remove(filepath.Join(w.gitDir(), "refs/remotes/origin/HEAD"))
		os.Remove(filepath.Join(w.gitDir(), "refs/heads/symref"))
		must(w.importFrom(from))
	}
}

func init() {
	register(&Check{ID: "C11", Quick: 6000, Thorough: 24000, Build: "lite", Level: "exploration", Min: 100,
		Tech: "differential runtime monitor: the graph read from generated repositories against the generator's parent relation",
		Note: "Hundreds of graph shapes with refs of every kind, annotated tags, shallow boundaries and commit-graph files; sampled, not exhaustive.",
		Rule: "one evaluation is one repository read with and without all branches, plus one map; a situation is one graph keyed by commits and edges",
		Run:  c11Case, Assume: []string{"replacement refs are not used"}})
	register(&Check{ID: "C12", Quick: 3200, Thorough: 12800, Build: "lite", Level: "exploration", Min: 100,
		Tech: "differential runtime monitor: branch listings against the refs the generator wrote",
		Note: "Hundreds of ref sets with odd and clashing names over worker counts; sampled, not exhaustive.",
		Rule: "one evaluation is one repository with four metadata and three branch listings; a situation is one listing keyed by branch and pull request counts and options",
		Run:  c12Case, Assume: []string{"HEAD is attached to an existing branch", "no branch is named HEAD (git itself refuses it)"}})
	register(&Check{ID: "C13", Quick: 7500, Thorough: 30000, Build: "lite", Level: "exploration", Min: 200,
		Tech: "runtime oracle: set reachability over the generator's commit graph, for every commit as branch head",
		Note: "Thousands of (default head, branch head) pairs over generated graphs; sampled, not exhaustive.",
		Rule: "one evaluation is one graph; a situation is one branch head keyed by merge status, list size, merges and branch points",
		Run:  c13Case, Assume: []string{"order within branches that contain merges is not claimed"}})
	register(&Check{ID: "C14", Quick: 4000, Thorough: 16000, Build: "lite", Level: "exploration", Min: 100,
		Tech: "runtime oracle: set reachability over the generator's commit graph, for every commit as branch head",
		Note: "Thousands of (default head, branch head) pairs over generated graphs and one growth step; sampled, not exhaustive.",
		Rule: "one evaluation is one graph before and after its branches grow; a situation is one branch head keyed by merge status, children on the default branch and behind count",
		Run:  c14Case})
}
