package main

// C01..C04: full-history processing against the reference model.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

func quietLogger() logger.Logger { return logger.NewDefaultLogger(io.Discard) }

// makeWorld generates and writes one random repository.
func (c *Case) makeWorld(f Features) *World {
	w := newWorld(c.Rng, f)
	w.build()
	must(w.write(c.path("repo")))
	if f.Shallow {
		w.makeShallow()
	}
	c.Sample("history: %s; head %s", f, w.Head)
	return w
}

func (w *World) selected(all bool) map[int]bool {
	if !all {
		return w.ancestors(w.HeadIdx)
	}
	s := map[int]bool{}
	if w.F.Detach {
		s[w.HeadIdx] = true
		for i := range w.ancestors(w.HeadIdx) {
			s[i] = true
		}
	}
	for _, r := range w.Refs {
		for i := range w.ancestors(r.Commit) {
			s[i] = true
		}
	}
	return s
}

// runProcess collects the results of one history processing run. It reads
// them one at a time, the way a consumer does.
func runProcess(o process.Opts) ([]process.Result, process.Timing, error) {
	if o.Logger == nil {
		o.Logger = quietLogger()
	}
	p := process.New(o)
	ch := make(chan process.Result)
	errc := make(chan error, 1)
	go func() { errc <- p.Run(ch) }()
	var res []process.Result
	for r := range ch {
		res = append(res, r)
	}
	err := <-errc
	return res, p.Timing(), err
}

// checkContent compares one delivered file with the model's content.
func (c *Case) checkContent(w *World, cm *Commit, path string, rep *Report, b *incblame.Blame) {
	where := fmt.Sprintf("commit %s (#%d, %d parents, %s) file %q", short(cm.SHA), cm.Idx, len(cm.Parents), rep.Kind, path)
	if rep.Removed {
		c.Count("removed files", 1)
		if len(b.Lines) != 0 || b.IsBinary && false {
			c.Fail("removed-lines", "%s was removed but is reported with %d lines", where, len(b.Lines))
		}
		return
	}
	c.Count("file versions", 1)
	if b.IsBinary {
		c.Count("binary versions", 1)
		if rep.State.Bin == No {
			c.Fail("content-binary", "%s is text but is reported as binary", where)
		}
		if len(b.Lines) != 0 {
			c.Fail("content-binary-lines", "%s is reported as binary with %d lines", where, len(b.Lines))
		}
		return
	}
	if rep.State.Bin == Yes {
		c.Fail("content-notbinary", "%s should be reported as binary, is reported with %d lines", where, len(b.Lines))
		return
	}
	want := rep.File.ContentLines()
	c.Count("lines", len(want))
	if len(want) != len(b.Lines) {
		c.Fail("content-count", "%s has %d lines in git, %d reported\ngit: %q\ngot: %q", where, len(want), len(b.Lines), clip(want), clip(lineTexts(b)))
		return
	}
	for i, l := range b.Lines {
		if !bytes.Equal(trimCR(l.Line), trimCR([]byte(want[i]))) {
			c.Fail("content-line", "%s line %d is %q in git, %q reported", where, i+1, clipS(want[i]), clipS(string(l.Line)))
			return
		}
	}
}

func (c *Case) checkCredit(w *World, cm *Commit, path string, rep *Report, b *incblame.Blame) {
	if rep.Removed || b.IsBinary || rep.State.Bin == Yes {
		return
	}
	where := fmt.Sprintf("commit %s (#%d, %d parents, %s) file %q", short(cm.SHA), cm.Idx, len(cm.Parents), rep.Kind, path)
	if len(b.Lines) != len(rep.State.Cred) {
		c.Fail("credit-count", "%s: %d lines reported, %d expected", where, len(b.Lines), len(rep.State.Cred))
		return
	}
	anc := w.ancestors(cm.Idx)
	for i, l := range b.Lines {
		k := w.BySHA[l.Commit]
		if k == nil {
			c.Fail("credit-unknown", "%s line %d is credited to unknown commit %q", where, i+1, l.Commit)
			return
		}
		if !anc[k.Idx] {
			c.Fail("credit-nonancestor", "%s line %d is credited to #%d, which is not an ancestor", where, i+1, k.Idx)
			return
		}
		c.Count("credited lines", 1)
		if k.Idx != cm.Idx {
			c.Count("carried lines", 1)
		}
		if len(rep.State.Cred[i]) > 1 {
			c.Count("lines with several origins", 1)
		}
		if !rep.State.Cred[i].has(k.Idx) {
			c.Fail("credit-line", "%s line %d %q is credited to #%d, expected %v", where, i+1, clipS(string(l.Line)), k.Idx, rep.State.Cred[i])
			return
		}
	}
}

// checkReported compares the set of reported paths.
func (c *Case) checkReported(w *World, cm *Commit, rep map[string]*Report, files map[string]*incblame.Blame) {
	for _, p := range sortedKeys(rep) {
		c.Count("reported paths", 1)
		if _, ok := files[p]; !ok && rep[p].Kind != "maybe" {
			c.Fail("files-missing", "commit %s (#%d, %d parents) should report %q (%s) but does not", short(cm.SHA), cm.Idx, len(cm.Parents), p, rep[p].Kind)
			return
		}
	}
	for _, p := range sortedKeys(files) {
		if _, ok := rep[p]; !ok {
			c.Fail("files-extra", "commit %s (#%d, %d parents) reports %q, which it did not change", short(cm.SHA), cm.Idx, len(cm.Parents), p)
			return
		}
	}
}

// checkOrder: every selected commit exactly once and, if asked for, parents first.
func (c *Case) checkOrder(w *World, sel map[int]bool, shas []string, what string, parentsFirst bool) {
	seen := map[int]bool{}
	for i, s := range shas {
		cm := w.BySHA[s]
		if cm == nil {
			c.Fail("order-unknown", "%s: result %d is for unknown commit %q", what, i, s)
			return
		}
		if seen[cm.Idx] {
			c.Fail("order-dup", "%s: commit %s (#%d) delivered twice", what, short(s), cm.Idx)
			return
		}
		if !sel[cm.Idx] {
			c.Fail("order-extra", "%s: commit %s (#%d) is not reachable from the selected refs", what, short(s), cm.Idx)
			return
		}
		for _, p := range cm.Parents {
			if parentsFirst && sel[p] && !seen[p] {
				c.Fail("order-parent", "%s: commit %s (#%d) delivered before its parent #%d", what, short(s), cm.Idx, p)
				return
			}
		}
		seen[cm.Idx] = true
	}
	c.Count("commits delivered", len(shas))
	if len(seen) != len(sel) {
		for i := range w.Commits {
			if sel[i] && !seen[i] {
				c.Fail("order-missing", "%s: commit %s (#%d, %d parents) never delivered (%d of %d)", what, short(w.Commits[i].SHA), i, len(w.Commits[i].Parents), len(seen), len(sel))
				return
			}
		}
	}
}

func lineTexts(b *incblame.Blame) (r []string) {
	for _, l := range b.Lines {
		r = append(r, string(l.Line))
	}
	return
}

func clip(s []string) []string {
	if len(s) > 30 {
		return append(append([]string(nil), s[:30]...), "...")
	}
	return s
}

func clipS(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// noteSituations records which distinct situations a history exercised.
func (c *Case) noteSituations(o *Oracle, sel map[int]bool) {
	for i, cm := range o.W.Commits {
		if !sel[i] {
			continue
		}
		var k []string
		for p, r := range o.Reports[i] {
			n := 0
			carried := 0
			if r.State != nil {
				n = len(r.State.Cred)
				for _, x := range r.State.Cred {
					if !x.has(i) {
						carried++
					}
				}
			}
			if r.Kind == "A" || (n == 0 && r.Kind == "M") {
				continue
			}
			c.Count("kind "+r.Kind, 1)
			k = append(k, fmt.Sprintf("%s/%d/%d/%d", r.Kind, len(cm.Parents), n, carried))
			_ = p
		}
		if len(k) > 0 {
			c.Key("%s", strings.Join(sortStrings(k), ";"))
		}
	}
}

func sortStrings(s []string) []string {
	m := map[string]int{}
	for _, x := range s {
		m[x]++
	}
	var r []string
	for _, k := range sortedKeys(m) {
		for i := 0; i < m[k]; i++ {
			r = append(r, k)
		}
	}
	return r
}

// checkListings: the by-commit and flat code listings against the delivered
// history (C03: commits; C04: files).
func (c *Case) checkListings(w *World, sel map[int]bool, all bool, res []process.Result, part string) {
	opts := ripsrc.Opts{RepoDir: w.Dir, AllBranches: all, CheckpointsDir: c.path("cp")}
	code, err := runCodeByCommit(newRipsrc(opts))
	if err != nil {
		c.Fail("run-error", "code listing failed: %v", err)
		return
	}
	meta, err := commitmeta.New(w.Dir, commitmeta.Opts{AllBranches: all}).RunSlice()
	if err != nil {
		c.Fail("run-error", "metadata listing failed: %v", err)
		return
	}
	flat, err := newRipsrc(opts).CodeSlice(context.Background())
	if err != nil {
		c.Fail("run-error", "flat code listing failed: %v", err)
		return
	}
	var codeSHAs, metaSHAs []string
	want := map[string]int{}
	records := map[string]map[string]*commitmeta.CommitFile{}
	for _, m := range meta {
		metaSHAs = append(metaSHAs, m.SHA)
		records[m.SHA] = m.Files
	}
	delivered := map[string]map[string]*incblame.Blame{}
	for _, r := range res {
		delivered[r.Commit] = r.Files
	}
	for _, cc := range code {
		codeSHAs = append(codeSHAs, cc.Commit.SHA)
		seen := map[string]bool{}
		for _, f := range cc.Files {
			c.Count("code results", 1)
			want[cc.Commit.SHA+" "+f.Filename]++
			if f.Commit.SHA != cc.Commit.SHA {
				c.Fail("code-commit", "code listing: %q of commit %s is delivered under commit %s", f.Filename, f.Commit.SHA, cc.Commit.SHA)
			}
			if seen[f.Filename] {
				c.Fail("code-dup", "code listing: commit %s delivers %q twice", cc.Commit.SHA, f.Filename)
			}
			seen[f.Filename] = true
			if part == "C04" && (delivered[cc.Commit.SHA][f.Filename] == nil || records[cc.Commit.SHA][f.Filename] == nil) {
				c.Fail("code-extra", "code listing: commit %s delivers %q (in history: %v, in change records: %v)", cc.Commit.SHA, f.Filename, delivered[cc.Commit.SHA][f.Filename] != nil, records[cc.Commit.SHA][f.Filename] != nil)
			}
		}
		if part == "C04" {
			for p := range delivered[cc.Commit.SHA] {
				if records[cc.Commit.SHA][p] != nil && !seen[p] {
					c.Fail("code-missing", "code listing: commit %s does not deliver %q, which it changed", cc.Commit.SHA, p)
				}
			}
		}
	}
	c.checkOrder(w, sel, codeSHAs, "code listing", true)
	c.checkOrder(w, sel, metaSHAs, "metadata listing", false)
	got := map[string]int{}
	for _, f := range flat {
		got[f.Commit.SHA+" "+f.Filename]++
	}
	for k, n := range want {
		if got[k] != n {
			c.Fail("code-flat", "flat code listing has %d results for %q, the by-commit listing %d", got[k], k, n)
			return
		}
	}
	for k, n := range got {
		if want[k] != n {
			c.Fail("code-flat", "flat code listing has %d results for %q, the by-commit listing %d", n, k, want[k])
			return
		}
	}
	c.Count("code listings", 2)
}

func histCase(c *Case, f Features, part string) {
	w := c.makeWorld(f)
	all := chance(c.Rng, 0.5)
	c.Count("histories", 1)
	o := newOracle(w)
	sel := w.selected(all)
	c.noteSituations(o, sel)
	res, _, err := runProcess(process.Opts{RepoDir: w.Dir, AllBranches: all})
	if err != nil {
		c.Fail("run-error", "history processing failed: %v", err)
		return
	}
	var shas []string
	for _, r := range res {
		shas = append(shas, r.Commit)
	}
	if part == "C03" {
		c.checkOrder(w, sel, shas, "history processing", true)
	}
	if (part == "C03" || part == "C04") && !c.Failed() && c.N%3 == 0 {
		c.checkListings(w, sel, all, res, part)
	}
	for _, r := range res {
		cm := w.BySHA[r.Commit]
		if cm == nil {
			c.Fail("unknown-commit", "result for unknown commit %q", r.Commit)
			continue
		}
		rep := o.Reports[cm.Idx]
		if part == "C04" {
			c.checkReported(w, cm, rep, r.Files)
		}
		for _, p := range sortedKeys(r.Files) {
			rp := rep[p]
			if rp == nil {
				continue
			}
			switch part {
			case "C01":
				c.checkContent(w, cm, p, rp, r.Files[p])
			case "C02":
				c.checkCredit(w, cm, p, rp, r.Files[p])
			}
		}
		if part == "C01" {
			// content reported for paths git does not list must still be true
			for _, p := range sortedKeys(r.Files) {
				if rep[p] == nil {
					c.Fail("content-phantom", "commit %s (#%d) reports %q, which is not a change of that commit", short(cm.SHA), cm.Idx, p)
				}
			}
			for _, p := range sortedKeys(rep) {
				if r.Files[p] == nil && rep[p].Kind != "maybe" {
					c.Fail("content-lost", "commit %s (#%d, %d parents) lost changed file %q (%s)", short(cm.SHA), cm.Idx, len(cm.Parents), p, rep[p].Kind)
				}
			}
		}
		if c.Failed() {
			return
		}
	}
}
