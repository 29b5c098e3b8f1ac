package main

// C05, C06: the commit metadata listing and its change records.

import (
	"context"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
)

type codeCommit struct {
	Commit ripsrc.Commit
	Files  []ripsrc.BlameResult
}

// runCodeByCommit collects the by-commit code listing.
func runCodeByCommit(r *ripsrc.Ripsrc) ([]codeCommit, error) {
	ch := make(chan ripsrc.CommitCode)
	errc := make(chan error, 1)
	go func() { errc <- r.CodeByCommit(context.Background(), ch) }()
	var out []codeCommit
	for cc := range ch {
		x := codeCommit{Commit: cc.Commit}
		for b := range cc.Blames {
			x.Files = append(x.Files, b)
		}
		out = append(out, x)
	}
	return out, <-errc
}

func newRipsrc(o ripsrc.Opts) *ripsrc.Ripsrc {
	if o.Logger == nil {
		o.Logger = quietLogger()
	}
	return ripsrc.New(o)
}

type gitMeta struct {
	Parents           []string
	AN, AE, CN, CE, S string
	When              int64
	TZ                string
}

// readMeta reads the metadata of all commits from NUL-separated git output.
func (w *World) readMeta() map[string]*gitMeta {
	var in strings.Builder
	for _, c := range w.Commits {
		in.WriteString(c.SHA + "\n")
	}
	out := gitIn(w.Dir, in.String(), "log", "--no-walk=unsorted", "--stdin", "-z", "--date=raw", "--format=tformat:%H%x00%P%x00%an%x00%ae%x00%cn%x00%ce%x00%ad%x00%s%x00")
	f := strings.Split(out, "\x00")
	res := map[string]*gitMeta{}
	// every record is eight fields and the empty one before the record's own terminator
	for i := 0; i+8 < len(f); i += 9 {
		d := strings.Fields(f[i+6])
		if len(d) != 2 {
			harnessErr("readMeta: date %q", f[i+6])
		}
		t, err := strconv.ParseInt(d[0], 10, 64)
		must(err)
		res[f[i]] = &gitMeta{Parents: strings.Fields(f[i+1]), AN: f[i+2], AE: f[i+3], CN: f[i+4], CE: f[i+5], When: t, TZ: d[1], S: f[i+7]}
	}
	if len(res) != len(w.BySHA) {
		harnessErr("readMeta: %d of %d commits", len(res), len(w.BySHA))
	}
	return res
}

func zoneOf(sec int) string {
	s := "+"
	if sec < 0 {
		s, sec = "-", -sec
	}
	return fmt.Sprintf("%s%02d%02d", s, sec/3600, sec/60%60)
}

// checkMeta compares one reported commit with git's record and the model.
func (c *Case) checkMeta(w *World, gm map[string]*gitMeta, m commitmeta.Commit, what string) {
	g := gm[m.SHA]
	if g == nil {
		c.Fail("meta-unknown", "%s: commit %q is not in the repository", what, m.SHA)
		return
	}
	mod := w.BySHA[m.SHA]
	c.Count("commits compared", 1)
	cmp := func(field, got, want, model string) {
		if got != want {
			c.Fail("meta-"+field, "%s: commit %s %s is %q in git (%q as written), %q reported", what, short(m.SHA), field, want, model, got)
		}
	}
	cmp("author name", m.AuthorName, g.AN, mod.Author.Name)
	cmp("author email", m.AuthorEmail, g.AE, mod.Author.Email)
	cmp("committer name", m.CommitterName, g.CN, mod.Committer.Name)
	cmp("committer email", m.CommitterEmail, g.CE, mod.Committer.Email)
	cmp("subject", m.Message, g.S, mod.Msg)
	wantAuthor := g.AN
	if wantAuthor == "" {
		wantAuthor = g.AE
	}
	cmp("author", m.Author(), wantAuthor, mod.Author.Name)
	if m.Date.Unix() != mod.Author.When || g.When != mod.Author.When {
		c.Fail("meta-date", "%s: commit %s author date is %d in git, %d reported", what, short(m.SHA), g.When, m.Date.Unix())
	}
	if _, off := m.Date.Zone(); off != mod.Author.TZ*60 {
		c.Fail("meta-zone", "%s: commit %s author zone is %s in git, %s reported", what, short(m.SHA), mod.Author.tz(), zoneOf(off))
	}
	if strings.Join(m.Parents, " ") != strings.Join(g.Parents, " ") || len(g.Parents) != len(m.Parents) {
		c.Fail("meta-parents", "%s: commit %s has parents %q in git, %q reported", what, short(m.SHA), g.Parents, m.Parents)
	}
	c.Key("meta|%s|%s|%s|%s|%s|%d|%d", g.AN, g.AE, g.CN, g.S, g.TZ, len(g.Parents), len(m.Files))
}

func c05Case(c *Case) {
	f := randomFeatures(c.Rng)
	f.Idents = chance(c.Rng, 0.85)
	f.Msgs = chance(c.Rng, 0.85)
	f.Encode = f.Encode || chance(c.Rng, 0.2)
	if f.NCommits < 12 {
		f.NCommits += 10
	}
	w := c.makeWorld(f)
	gm := w.readMeta()
	all := chance(c.Rng, 0.5)
	sel := w.selected(all)
	res, err := commitmeta.New(w.Dir, commitmeta.Opts{AllBranches: all}).RunSlice()
	if err != nil {
		c.Fail("run-error", "metadata listing failed: %v", err)
		return
	}
	var shas []string
	for i, m := range res {
		shas = append(shas, m.SHA)
		if m.Ordinal != int64(i+1) {
			c.Fail("meta-ordinal", "commit %d of the listing has ordinal %d", i+1, m.Ordinal)
		}
		c.checkMeta(w, gm, m, "listing")
	}
	c.checkOrder(w, sel, shas, "metadata listing", false)
	if c.Failed() {
		return
	}
	mm, err := commitmeta.New(w.Dir, commitmeta.Opts{AllBranches: all}).RunMap()
	if err != nil {
		c.Fail("run-error", "metadata map failed: %v", err)
		return
	}
	if len(mm) != len(res) {
		c.Fail("meta-map", "the map has %d commits, the listing %d", len(mm), len(res))
	}
	for k, m := range mm {
		if k != m.SHA {
			c.Fail("meta-map", "the map holds commit %s under %s", m.SHA, k)
		}
		c.checkMeta(w, gm, m, "map")
	}
	if c.Failed() || !chance(c.Rng, 0.4) {
		return
	}
	code, err := runCodeByCommit(newRipsrc(ripsrc.Opts{RepoDir: w.Dir, AllBranches: all, CheckpointsDir: c.path("cp")}))
	if err != nil {
		c.Fail("run-error", "code listing failed: %v", err)
		return
	}
	for _, cc := range code {
		c.checkMeta(w, gm, cc.Commit, "code listing")
		for _, f := range cc.Files {
			if f.Commit.SHA != cc.Commit.SHA || f.Commit.Message != cc.Commit.Message {
				c.Fail("meta-code", "a result for %q under commit %s carries commit %s", f.Filename, cc.Commit.SHA, f.Commit.SHA)
			}
		}
	}
}

type wantRec struct {
	rec     commitmeta.CommitFile
	lenient bool // only the path is specified
	counts  bool // line counts and binary flag are specified
	status  bool
	kind    string
}

// wantRecords derives the change records of one commit from git's tree diff.
func (o *Oracle) wantRecords(c *Commit) map[string]*wantRec {
	key := pairKey{-1, c.Idx}
	if len(c.Parents) > 0 {
		key.parent = c.Parents[0]
	}
	merge := len(c.Parents) > 1
	res := map[string]*wantRec{}
	for i := range o.Diffs[key] {
		e := &o.Diffs[key][i]
		path := e.New
		if e.Status == 'D' {
			path = e.Old
		}
		x := &wantRec{counts: true, status: !merge, kind: string(e.Status)}
		x.rec = commitmeta.CommitFile{Filename: path, Binary: e.Binary}
		if f := c.Tree[path]; e.Pure && f != nil && f.Kind == KBin {
			x.rec.Binary = true // untouched binary content (rename, mode change)
		}
		if !e.Binary {
			x.rec.Additions, x.rec.Deletions = e.Adds, e.Dels
		}
		if e.Status == 'T' {
			x.counts = false
		}
		switch {
		case merge:
			x.kind = "merge" + x.kind
		case e.Status == 'D':
			x.lenient = !regular(e.OldMode)
			x.rec.Status = commitmeta.GitFileCommitStatusRemoved
		case !regular(e.NewMode):
			x.lenient = true
		case e.Status == 'A':
			x.rec.Status = commitmeta.GitFileCommitStatusAdded
		case e.Status == 'M' || e.Status == 'T':
			x.rec.Status = commitmeta.GitFileCommitStatusModified
		case e.Status == 'R':
			x.rec.Status = commitmeta.GitFileCommitStatusAdded
			x.rec.Renamed, x.rec.RenamedFrom, x.rec.RenamedTo = true, e.Old, e.New
			src := *x
			src.kind = "Rsrc"
			src.rec = commitmeta.CommitFile{Filename: e.Old, Status: commitmeta.GitFileCommitStatusRemoved, Renamed: true, RenamedFrom: e.Old, RenamedTo: e.New}
			res[e.Old] = &src
		case e.Status == 'C':
			x.rec.Status = commitmeta.GitFileCommitStatusAdded
			x.rec.Copied, x.rec.CopiedFrom = true, e.Old
		}
		if x.lenient && e.Status == 'R' && !merge {
			res[e.Old] = &wantRec{lenient: true}
		}
		res[path] = x
	}
	return res
}

func nameClass(p string) string {
	s := ""
	for _, t := range []string{" => ", "{", "}", "\"", "\\", "\t", "\n", " "} {
		if strings.Contains(p, t) {
			s += t
		}
	}
	for i := 0; i < len(p); i++ {
		if p[i] >= 0x80 {
			return s + "8"
		}
	}
	return s
}

// arrowNames: git's line statistics of a merge spell such a name (or a rename
// involving it) in a way that has several readings.
func arrowNames(o *Oracle, c *Commit) (res []string) {
	if len(c.Parents) < 2 {
		return nil
	}
	for _, e := range o.Diffs[pairKey{c.Parents[0], c.Idx}] {
		amb := false
		for _, p := range []string{e.Old, e.New} {
			if strings.Contains(p, " => ") || (e.Status == 'R' && strings.ContainsAny(p, "{}")) {
				amb = true
			}
		}
		if amb {
			// as they are and as git prints them
			res = append(res, e.Old, e.New, cquote(e.Old), cquote(e.New), cquote(e.Old)+" => "+cquote(e.New))
		}
	}
	return
}

// cquote spells a name the way git prints it.
func cquote(n string) string {
	var b strings.Builder
	quoted := false
	for i := 0; i < len(n); i++ {
		ch := n[i]
		if k := strings.IndexByte("\a\b\t\n\v\f\r\"\\", ch); k >= 0 {
			quoted = true
			b.WriteByte('\\')
			b.WriteByte("abtnvfr\"\\"[k])
		} else if ch < 0x20 || ch >= 0x7f {
			quoted = true
			fmt.Fprintf(&b, "\\%03o", ch)
		} else {
			b.WriteByte(ch)
		}
	}
	if !quoted {
		return n
	}
	return "\"" + b.String() + "\""
}

var arrowSplit = regexp.MustCompile(" => |[{}/]")

// checkRecords compares the change records of one commit.
func (c *Case) checkRecords(o *Oracle, m commitmeta.Commit, what string) {
	cm := o.W.BySHA[m.SHA]
	want := o.wantRecords(cm)
	arrows := arrowNames(o, cm)
	where := fmt.Sprintf("%s: commit %s (#%d, %d parents)", what, short(m.SHA), cm.Idx, len(cm.Parents))
	fail := func(s, p, format string, a ...interface{}) {
		s = "rec-" + s
		for _, n := range arrows {
			// the name itself, or one that it may be misread as
			if n != "" && (strings.Contains(n, path.Base(p)) || strings.Contains(n, p)) {
				s = "merge-arrow-name"
			}
			for _, part := range arrowSplit.Split(n, -1) {
				if want[p] == nil && len(part) > 3 && strings.Contains(p, part) {
					s = "merge-arrow-name"
				}
			}
		}
		c.Fail(s, "%s %s\nrecords: %s", where, fmt.Sprintf(format, a...), dumpRecords(m.Files))
	}
	var key []string
	for _, p := range sortedKeys(want) {
		x := want[p]
		if x.lenient {
			continue
		}
		c.Count("records compared", 1)
		c.Count("records "+x.kind, 1)
		key = append(key, x.kind+nameClass(p))
		g := m.Files[p]
		if g == nil {
			fail("missing", p, "has no record for %q (%s)", p, x.kind)
			continue
		}
		if g.Filename != p {
			fail("filename", p, "record for %q names %q", p, g.Filename)
		}
		if x.status {
			if g.Status != x.rec.Status {
				fail("status", p, "%q (%s) has status %q, expected %q", p, x.kind, g.Status, x.rec.Status)
			}
			if g.Renamed != x.rec.Renamed || g.RenamedFrom != x.rec.RenamedFrom || g.RenamedTo != x.rec.RenamedTo {
				fail("rename", p, "%q (%s) has rename %v %q -> %q, expected %v %q -> %q", p, x.kind, g.Renamed, g.RenamedFrom, g.RenamedTo, x.rec.Renamed, x.rec.RenamedFrom, x.rec.RenamedTo)
			}
			if g.Copied != x.rec.Copied || g.CopiedFrom != x.rec.CopiedFrom {
				fail("copy", p, "%q (%s) has copy %v %q, expected %v %q", p, x.kind, g.Copied, g.CopiedFrom, x.rec.Copied, x.rec.CopiedFrom)
			}
		}
		if x.counts && (g.Additions != x.rec.Additions || g.Deletions != x.rec.Deletions) {
			fail("counts", p, "%q (%s) has +%d -%d, git says +%d -%d", p, x.kind, g.Additions, g.Deletions, x.rec.Additions, x.rec.Deletions)
		}
		if x.counts && g.Binary != x.rec.Binary {
			fail("binary", p, "%q (%s) has binary=%v, git says %v", p, x.kind, g.Binary, x.rec.Binary)
		}
	}
	for _, p := range sortedKeys(m.Files) {
		if want[p] == nil {
			fail("extra", p, "has a record for %q, which git does not list as changed", p)
		}
	}
	if len(key) > 1 || (len(key) == 1 && key[0] != "A" && key[0] != "M") {
		sort.Strings(key)
		c.Key("rec|%s", strings.Join(key, "|"))
	}
}

func dumpRecords(fs map[string]*commitmeta.CommitFile) string {
	var b strings.Builder
	for _, p := range sortedKeys(fs) {
		fmt.Fprintf(&b, "\n  %q: %+v", p, *fs[p])
	}
	return b.String()
}

func c06Case(c *Case) {
	f := randomFeatures(c.Rng)
	f.Rename = chance(c.Rng, 0.8)
	if c.N%90 == 17 {
		f.Huge, f.NCommits = true, 6+c.Rng.Intn(6)
	}
	if c.N%1200 == 31 {
		f.Vast, f.Huge, f.NCommits = true, false, 2+c.Rng.Intn(3)
	}
	w := c.makeWorld(f)
	o := newOracle(w)
	all := chance(c.Rng, 0.5)
	res, err := commitmeta.New(w.Dir, commitmeta.Opts{AllBranches: all}).RunMap()
	if err != nil {
		c.Fail("run-error", "metadata listing failed: %v", err)
		return
	}
	for i := range w.selected(all) {
		m, ok := res[w.Commits[i].SHA]
		if !ok {
			c.Fail("rec-commit", "commit %s (#%d) is not in the listing", w.Commits[i].SHA, i)
			return
		}
		c.checkRecords(o, m, "listing")
	}
}

func init() {
	register(&Check{ID: "C05", Quick: 4000, Thorough: 20000, Build: "lite", Level: "exploration", Min: 200,
		Tech:   "differential runtime monitor: reported metadata against NUL-separated git fields and the generator's model",
		Note:   "Every commit of hundreds of generated histories with adversarial identities, zones and messages; sampled, not exhaustive.",
		Rule:   "one evaluation is one generated repository; a situation is one distinct combination of identity, zone, subject and parent count observed",
		Assume: []string{histAssume, "text is valid UTF-8 and dates have four-digit years"},
		Run:    c05Case})
	register(&Check{ID: "C06", Quick: 4900, Thorough: 25000, Build: "lite", Level: "exploration", Min: 200,
		Tech:   "differential runtime monitor: reported change records against git's machine-readable tree diff",
		Note:   "Every change record of hundreds of generated histories with adversarial names; sampled, not exhaustive.",
		Rule:   "one evaluation is one generated repository; a situation is one commit keyed by its change kinds and name classes",
		Assume: []string{histAssume},
		Run:    c06Case})
}
