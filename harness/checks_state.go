package main

// C09: saved state round-trips. C24: patch parsing and application. C25: blame.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/pinpt/ripsrc/ripsrc/gitblame2"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/parser"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

// ---- C09

// collide returns two different byte strings with the same 64-bit xxHash.
func collide(r *rand.Rand) ([]byte, []byte) {
	const p1, p2 = 11400714785074694791, 14029467366897019727
	inv := uint64(p2) // Newton iteration for the inverse modulo 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - p2*inv
	}
	p1v, p2v := uint64(p1), uint64(p2)
	v1 := p1v + p2v
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }
	x := make([]byte, 64)
	for i := range x {
		x[i] = byte('a' + r.Intn(26))
	}
	y := append([]byte(nil), x...)
	r.Read(y[:8])
	s, t := round(v1, binary.LittleEndian.Uint64(x)), round(v1, binary.LittleEndian.Uint64(y))
	binary.LittleEndian.PutUint64(y[32:], binary.LittleEndian.Uint64(x[32:])+(s-t)*inv)
	return x, y
}

func canonRepo(r repo.Repo) string {
	var b strings.Builder
	for _, ch := range sortedKeys(r) {
		fmt.Fprintf(&b, "commit %q\n", ch)
		for _, p := range sortedKeys(r[ch]) {
			f := r[ch][p]
			fmt.Fprintf(&b, " file %q commit=%q bin=%v lines=%d\n", p, f.Commit, f.IsBinary, len(f.Lines))
			for i, l := range f.Lines {
				if len(l.Line) > 300 {
					fmt.Fprintf(&b, "  %d %q len=%d %s\n", i, l.Commit, len(l.Line), digest(string(l.Line)))
				} else {
					fmt.Fprintf(&b, "  %d %q %q\n", i, l.Commit, l.Line)
				}
			}
		}
	}
	return b.String()
}

func randHash(r *rand.Rand) string {
	b := make([]byte, 20)
	r.Read(b)
	return fmt.Sprintf("%x", b)
}

var strSizes = []int{0, 1, 15, 31, 32, 33, 127, 128, 255, 256, 257, 4095, 4096, 65535, 65536}

func randString(r *rand.Rand, big bool) string {
	n := r.Intn(40)
	if big {
		n = strSizes[r.Intn(len(strSizes))]
	}
	b := make([]byte, n)
	r.Read(b)
	if chance(r, 0.6) {
		for i := range b {
			b[i] = "abc/. \n\x00é\""[int(b[i])%11]
		}
	}
	return string(b)
}

// randState builds a state with shared file versions and shared lines.
func randState(r *rand.Rand, size int) (repo.Repo, string) {
	rp := repo.New()
	var commits []string
	n := 1 + r.Intn(size)
	for i := 0; i < n; i++ {
		c := randHash(r)
		if chance(r, 0.03) {
			c = randString(r, true) + strconv.Itoa(i)
		}
		commits = append(commits, c)
	}
	var pool []*incblame.Line
	base := []byte(strings.Repeat(randString(r, false)+"x", 20+r.Intn(60)))
	line := func() *incblame.Line {
		if size < 61 && chance(r, 0.06) { // long lines that differ in one place, or only in their length
			l := &incblame.Line{Commit: commits[r.Intn(1+r.Intn(n))], Line: append([]byte{}, base[:len(base)-r.Intn(2)]...)}
			if len(l.Line) > 0 {
				l.Line[[]int{0, r.Intn(len(l.Line)), len(l.Line) - 1}[r.Intn(3)]] ^= byte(1 + r.Intn(3))
			}
			pool = append(pool, l)
			return l
		}
		if len(pool) > 0 && chance(r, 0.6) {
			l := pool[r.Intn(len(pool))]
			if chance(r, 0.3) { // same text, other credit
				l = &incblame.Line{Line: l.Line, Commit: commits[r.Intn(n)]}
				pool = append(pool, l)
			}
			return l
		}
		l := &incblame.Line{Commit: commits[r.Intn(n)]}
		switch r.Intn(12) {
		case 0:
			l.Line = []byte{}
		case 1:
			l.Line = []byte(randString(r, true))
		case 2:
			x, y := collide(r)
			pool = append(pool, &incblame.Line{Line: y, Commit: l.Commit})
			l.Line = x
		case 3:
			l.Line = []byte(fmt.Sprintf("%d", r.Intn(5)))
		default:
			l.Line = []byte(randString(r, false))
		}
		pool = append(pool, l)
		return l
	}
	lineCounts := []int{0, 1, 2, 15, 16, 17, 31, 255, 256, 300}
	var files []*incblame.Blame
	kinds := map[string]bool{}
	file := func() *incblame.Blame {
		if len(files) > 0 && chance(r, 0.5) {
			kinds["shared"] = true
			return files[r.Intn(len(files))]
		}
		f := &incblame.Blame{Commit: commits[r.Intn(n)]}
		if len(files) > 0 && chance(r, 0.15) { // another version of a file, one line differs
			o := files[r.Intn(len(files))]
			if k := len(o.Lines); k > 0 && k < 400 {
				f.Lines = append(incblame.Lines{}, o.Lines...)
				f.Lines[r.Intn(k)] = line()
				files = append(files, f)
				return f
			}
		}
		switch {
		case chance(r, 0.12):
			f.IsBinary = true
			kinds["binary"] = true
		default:
			k := r.Intn(12)
			if chance(r, 0.15) {
				k = lineCounts[r.Intn(len(lineCounts))]
			}
			if size > 60 && chance(r, 0.0008) {
				k = []int{65535, 65536, 70000}[r.Intn(3)]
				kinds["huge"] = true
			}
			if k == 0 {
				kinds["emptyfile"] = true
			}
			for i := 0; i < k; i++ {
				f.Lines = append(f.Lines, line())
			}
		}
		files = append(files, f)
		return f
	}
	paths := []string{"a", "b/c.go", "日本.txt", "with space", "nl\n", "\xff", ""}
	for _, c := range commits {
		rp[c] = map[string]*incblame.Blame{}
		if chance(r, 0.1) {
			kinds["emptycommit"] = true
			continue
		}
		for i := 0; i < 1+r.Intn(5); i++ {
			p := paths[r.Intn(len(paths))]
			if chance(r, 0.3) {
				p = randString(r, chance(r, 0.1)) + strconv.Itoa(i)
			}
			rp[c][p] = file()
		}
	}
	k := sortedKeys(kinds)
	sort.Strings(k)
	return rp, strings.Join(k, ",")
}

func c09Case(c *Case) {
	r := c.Rng
	dir := c.path("cp", "pp-git-cache")
	size := 12
	if chance(r, 0.2) {
		size = 80
	}
	rounds := 1 + r.Intn(3)
	for i := 0; i < rounds; i++ {
		st, kinds := randState(r, size)
		before := canonRepo(st)
		last := randHash(r)
		if len(st) > 0 && chance(r, 0.5) {
			last = sortedKeys(st)[0]
			if last == "" {
				last = "x"
			}
		}
		if err := repo.NewCheckpointWriter(quietLogger()).Write(st, dir, last); err != nil {
			c.Fail("state-write", "writing the state failed: %v", err)
			return
		}
		if canonRepo(st) != before {
			c.Fail("state-mutated", "writing changed the state: %s", firstDiff(before, canonRepo(st)))
			return
		}
		wrong := []string{randHash(r), last + "\n", last + "0", strings.ToUpper(last) + "x", " " + last}
		if len(last) > 1 {
			wrong = append(wrong, last[:len(last)-1], last[1:])
		}
		for _, x := range wrong {
			got, err := repo.NewCheckpointReader(quietLogger()).Read(dir, x)
			if err == nil {
				c.Fail("state-expected", "a state saved for %q was accepted for %q (%d commits)", last, x, len(got))
				return
			}
			c.Count("refused reads", 1)
		}
		for _, x := range []string{last, ""} {
			got, err := repo.NewCheckpointReader(quietLogger()).Read(dir, x)
			if err != nil {
				c.Fail("state-read", "reading with expected commit %q failed: %v", x, err)
				return
			}
			if a := canonRepo(got); a != before {
				c.Fail("state-differs", "state read back differs (- saved, + read): %s", firstDiff(before, a))
				return
			}
		}
		nf, nl := 0, 0
		for _, fs := range st {
			nf += len(fs)
			for _, f := range fs {
				nl += len(f.Lines)
			}
		}
		c.Count("states", 1)
		c.Count("commits", len(st))
		c.Count("files", nf)
		c.Count("lines", nl)
		c.Key("%s|%d|%d|%d", kinds, len(st), nf, nl)
		// nothing but the newest state is left
		es, err := os.ReadDir(dir)
		must(err)
		for _, e := range es {
			if e.Name() != "checkpoint" {
				c.Fail("state-leftover", "%q is left beside the saved state", e.Name())
			}
		}
		es, err = os.ReadDir(dir + "/checkpoint")
		must(err)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".tmp") {
				c.Fail("state-leftover", "%q is left in the saved state", e.Name())
			}
		}
		c.Sample("round %d: %d commits, %d files, %d lines, kinds %s", i, len(st), nf, nl, kinds)
	}
	if _, err := repo.NewCheckpointReader(quietLogger()).Read(c.path("nothing-here"), ""); err == nil {
		c.Fail("state-phantom", "a state was read from a directory that does not exist")
	}
}

// ---- C24

type section struct {
	pair  pairKey
	e     *Entry
	side  int // of a type change: 0 removal, 1 creation
	text  string
	lines []string
}

// sections asks git for the patches of all pairs with the given options.
func (w *World) sections(diffs map[pairKey][]Entry, pairs []pairKey, opts ...string) []section {
	var in strings.Builder
	for _, k := range pairs {
		ps := emptyTree
		if k.parent >= 0 {
			ps = w.Commits[k.parent].TreeSHA
		}
		fmt.Fprintf(&in, "%s %s\n", ps, w.Commits[k.child].TreeSHA)
	}
	args := append(append(w.diffTree(), "-p", "--no-color"), opts...)
	lines := strings.Split(gitIn(w.Dir, in.String(), args...), "\n")
	pos := 0
	var res []section
	for _, k := range pairs {
		if !isPairHeader(lines[pos]) {
			harnessErr("sections: pair header expected, got %q", lines[pos])
		}
		pos++
		es := diffs[k]
		for i := range es {
			n := 1
			if es[i].Status == 'T' {
				n = 2
			}
			for s := 0; s < n; s++ {
				if !strings.HasPrefix(lines[pos], "diff --git ") {
					harnessErr("sections: header expected for %q %q, got %q", es[i].Old, es[i].New, lines[pos])
				}
				from := pos
				pos++
				for pos < len(lines) && !strings.HasPrefix(lines[pos], "diff --git ") && !isPairHeader(lines[pos]) && !(pos == len(lines)-1 && lines[pos] == "") {
					pos++
				}
				res = append(res, section{k, &es[i], s, strings.Join(lines[from:pos], "\n") + "\n", lines[from:pos]})
			}
		}
	}
	return res
}

// refApply applies the hunks of a patch by their line numbers. The result has
// one entry per new line: the index of the kept old line or -1, and the text.
func refApply(old []string, sec []string) (idx []int, text []string) {
	oi := 0
	keep := func(to int) {
		for oi < to {
			if oi >= len(old) {
				harnessErr("refApply: beyond the old version of %d lines: %q\n%q", len(old), sec, old)
			}
			idx = append(idx, oi)
			text = append(text, old[oi])
			oi++
		}
	}
	in := false
	left := [2]int{}
	for _, l := range sec {
		if (!in || (left[0] == 0 && left[1] == 0)) && strings.HasPrefix(l, "@@ -") {
			f := strings.Fields(l)
			num := func(s string) (int, int) {
				p := strings.Split(s[1:], ",")
				a, err := strconv.Atoi(p[0])
				must(err)
				n := 1
				if len(p) > 1 {
					n, err = strconv.Atoi(p[1])
					must(err)
				}
				return a, n
			}
			a, n := num(f[1])
			_, m := num(f[2])
			if n == 0 {
				keep(a)
			} else {
				keep(a - 1)
			}
			in = true
			left = [2]int{n, m}
			continue
		}
		if !in || l == "" {
			continue
		}
		switch l[0] {
		case ' ':
			keep(oi + 1)
			left[0]--
			left[1]--
		case '-':
			oi++
			left[0]--
		case '+':
			idx = append(idx, -1)
			text = append(text, l[1:])
			left[1]--
		}
	}
	keep(len(old))
	return
}

func blameOf(lines []string, tag string) incblame.Blame {
	b := incblame.Blame{Commit: tag}
	for i, l := range lines {
		b.Lines = append(b.Lines, &incblame.Line{Line: []byte(strings.TrimRight(l, "\r")), Commit: fmt.Sprintf("%s-%d", tag, i)})
	}
	return b
}

// guarded runs f and reports a panic of the code under test as a finding.
func (c *Case) guarded(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic", "%s: panic: %v", what, e)
			ok = false
		}
	}()
	f()
	return true
}

var diffOptSets = [][]string{{}, {"--histogram"}, {"--patience"}, {"--minimal"}, {"--no-indent-heuristic"}, {"--inter-hunk-context=5"}, {"--full-index"}, {"--abbrev=40", "--diff-algorithm=myers"}}

func c24Case(c *Case) {
	r := c.Rng
	f := randomFeatures(r)
	f.Hostile = chance(r, 0.6)
	f.Dups = chance(r, 0.5)
	f.NCommits = 8 + r.Intn(12)
	f.Giant = chance(r, 0.03)
	w := c.makeWorld(f)
	w.diffPairsExtra(r)
	w.detect = [][]string{nil, {"-M", "-C", "--find-copies-harder"}, {"-M", "-C"}, {"-M10%"}, {"--no-renames"}, {"-C", "-C30%", "--find-copies-harder", "-B"}}[r.Intn(6)]
	pairs := w.extraPairs
	diffs := w.diffPairs()
	for round := 0; round < 3 && !c.Failed(); round++ {
		opts := append([]string{fmt.Sprintf("-U%d", []int{0, 0, 1, 2, 3, 3, 3, 4, 10, 1000}[r.Intn(10)])}, diffOptSets[r.Intn(len(diffOptSets))]...)
		secs := w.sections(diffs, pairs, opts...)
		if !c.logOfPatches(secs) {
			return
		}
		// by resulting (commit, path): one patch per parent, for merging
		type mk struct {
			child int
			path  string
		}
		merges := map[mk][]section{}
		for _, s := range secs {
			what := fmt.Sprintf("patch of %q (%c) from #%d to #%d with %v", s.e.New+s.e.Old, s.e.Status, s.pair.parent, s.pair.child, append(opts, w.detect...))
			orig := s.text
			buf := []byte(s.text)
			var d incblame.Diff
			if !c.guarded(what+"\n"+clipS(s.text), func() { d = incblame.Parse(buf) }) {
				return
			}
			if string(buf) != orig {
				c.Fail("patch-mutated", "%s: parsing changed the patch", what)
				return
			}
			wantPath, wantPrev := s.e.New, s.e.Old
			del := s.e.Status == 'D' || (s.e.Status == 'T' && s.side == 0)
			if del {
				wantPath = ""
			}
			if s.e.Status == 'A' || (s.e.Status == 'T' && s.side == 1) {
				wantPrev = ""
			}
			if d.Path != wantPath || d.PathPrev != wantPrev {
				c.Fail("patch-names", "%s: parsed names are %q <- %q, expected %q <- %q\n%s", what, d.Path, d.PathPrev, wantPath, wantPrev, clipS(s.text))
				return
			}
			bin := s.e.Binary
			if s.e.Status == 'T' && s.side == 0 {
				bin = s.e.OldBin
			}
			if d.IsBinary != bin {
				c.Fail("patch-binary", "%s: parsed as binary=%v, expected %v", what, d.IsBinary, bin)
				return
			}
			c.Count("patches parsed", 1)
			if s.e.Status == 'C' {
				c.Count("patches of copies", 1)
			}
			if bin || del {
				continue
			}
			var old []string
			if s.e.Status != 'A' && s.e.Status != 'T' {
				of := w.Commits[s.pair.parent].Tree[s.e.Old]
				if of.Kind == KBin {
					continue
				}
				old = of.ContentLines()
			}
			nf := w.Commits[s.pair.child].Tree[s.e.New]
			if nf.Kind == KBin {
				continue
			}
			idx, text := refApply(old, s.lines)
			want := nf.ContentLines()
			if len(text) != len(want) {
				harnessErr("refApply: %d lines, model has %d (%s)\n%s\nOLD %q\nNEW %q", len(text), len(want), what, s.text, old, want)
			}
			base := blameOf(old, "old")
			snap := canonBlame(&base)
			nh := len(d.Hunks)
			var got incblame.Blame
			if !c.guarded(what+"\n"+clipS(s.text), func() { got = incblame.Apply(base, d, "new", s.e.New) }) {
				return
			}
			if canonBlame(&base) != snap || len(d.Hunks) != nh {
				c.Fail("patch-input", "%s: applying changed its input: %s", what, firstDiff(snap, canonBlame(&base)))
				return
			}
			if got.Commit != "new" || got.IsBinary {
				c.Fail("patch-owner", "%s: result has commit %q binary=%v", what, got.Commit, got.IsBinary)
				return
			}
			if len(got.Lines) != len(want) {
				c.Fail("patch-count", "%s: result has %d lines, the new version %d\n%s", what, len(got.Lines), len(want), clipS(s.text))
				return
			}
			for i, l := range got.Lines {
				cr := "new"
				if idx[i] >= 0 {
					cr = fmt.Sprintf("old-%d", idx[i])
				}
				if string(trimCR(l.Line)) != strings.TrimRight(want[i], "\r") {
					c.Fail("patch-line", "%s: line %d is %q, the new version has %q", what, i+1, clipS(string(l.Line)), clipS(want[i]))
					return
				}
				if l.Commit != cr {
					c.Fail("patch-credit", "%s: line %d %q is credited to %q, expected %q", what, i+1, clipS(string(l.Line)), l.Commit, cr)
					return
				}
			}
			c.Count("patches applied", 1)
			c.Count("lines", len(want))
			if nh > 0 && len(old) > 0 {
				c.Key("%d|%d|%d|%s", nh, len(old), len(want), opts[0])
			}
			if nh > 1 {
				c.Count("patches with several hunks", 1)
			}
			merges[mk{s.pair.child, s.e.New}] = append(merges[mk{s.pair.child, s.e.New}], s)
		}
		for k, ss := range merges {
			if len(ss) < 2 {
				continue
			}
			r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
			if len(ss) > 4 {
				ss = ss[:4]
			}
			want := w.Commits[k.child].Tree[k.path].ContentLines()
			cred := make([]string, len(want))
			for i := range cred {
				cred[i] = "merge"
			}
			var parents []incblame.Blame
			var ds []incblame.Diff
			same := -1
			if chance(r, 0.2) { // one parent has the result already
				same = r.Intn(len(ss) + 1)
			}
			add := func(old []string, sec []string, text string) {
				t := fmt.Sprintf("p%d", len(parents))
				idx, _ := refApply(old, sec)
				for i := range cred {
					if cred[i] == "merge" && idx[i] >= 0 {
						cred[i] = fmt.Sprintf("%s-%d", t, idx[i])
					}
				}
				parents = append(parents, blameOf(old, t))
				if text == "" {
					ds = append(ds, incblame.Diff{})
				} else {
					ds = append(ds, incblame.Parse([]byte(text)))
				}
			}
			what := fmt.Sprintf("merge of %d versions into %q of #%d with %v", len(ss), k.path, k.child, opts)
			for i := 0; i <= len(ss); i++ {
				if i == same {
					add(want, nil, "")
				}
				if i == len(ss) {
					break
				}
				s := ss[i]
				var old []string
				if s.e.Status != 'A' && s.e.Status != 'T' {
					old = w.Commits[s.pair.parent].Tree[s.e.Old].ContentLines()
				}
				add(old, s.lines, s.text)
			}
			var snaps []string
			for i := range parents {
				snaps = append(snaps, canonBlame(&parents[i]))
			}
			var got incblame.Blame
			if !c.guarded(what, func() { got = incblame.ApplyMerge(parents, ds, "merge", k.path) }) {
				return
			}
			for i := range parents {
				if canonBlame(&parents[i]) != snaps[i] {
					c.Fail("merge-input", "%s: merging changed parent %d: %s", what, i, firstDiff(snaps[i], canonBlame(&parents[i])))
					return
				}
			}
			if len(got.Lines) != len(want) {
				c.Fail("merge-count", "%s: %d lines, expected %d", what, len(got.Lines), len(want))
				return
			}
			for i, l := range got.Lines {
				if string(trimCR(l.Line)) != strings.TrimRight(want[i], "\r") || l.Commit != cred[i] {
					c.Fail("merge-line", "%s: line %d is %q credited to %q, expected %q credited to %q", what, i+1, clipS(string(l.Line)), l.Commit, clipS(want[i]), cred[i])
					return
				}
			}
			c.Count("merges applied", 1)
			c.Key("merge|%d|%d", len(parents), len(want))
		}
	}
}

// withoutCR drops the carriage returns that end lines.
func withoutCR(s string) string {
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := range ls {
		ls[i] = strings.TrimRight(ls[i], "\r")
	}
	return strings.Join(ls, "\n")
}

// logOfPatches puts the patches into the form of git's log and reads it.
func (c *Case) logOfPatches(secs []section) bool {
	r := c.Rng
	var b strings.Builder
	type rec struct {
		hash, from string
		diffs      []string
	}
	var want []rec
	msgs := []string{"subject", "diff --git a/x b/x", "commit " + emptyTree, "Merge: a b", "+x", "\r", "  x", ""}
	open := func() {
		k := rec{hash: randHash(r)}
		b.WriteString("commit " + k.hash)
		ps := r.Intn(3)
		if ps == 2 {
			k.from = randHash(r)
			b.WriteString(" (from " + k.from + ")")
		}
		b.WriteString("\n")
		if ps == 2 {
			b.WriteString("Merge: " + k.from + " " + randHash(r) + "\n")
		}
		b.WriteString([]string{"Author: A <a@b>\n\n", "Author: diff <diff>\n\n", "Author: \n\n"}[r.Intn(3)])
		for i := r.Intn(3); i >= 0; i-- {
			b.WriteString("    " + msgs[r.Intn(len(msgs))] + "\n")
		}
		want = append(want, k)
	}
	for i := range secs {
		if i == 0 || chance(r, 0.3) || secs[i].pair != secs[i-1].pair {
			if i > 0 {
				b.WriteString("\n")
			}
			for open(); chance(r, 0.1); open() {
				b.WriteString("\n") // a commit without changes
			}
			b.WriteString("\n")
		}
		b.WriteString(secs[i].text)
		k := &want[len(want)-1]
		k.diffs = append(k.diffs, secs[i].text)
	}
	var got []parser.Commit
	var err error
	var src io.Reader = strings.NewReader(b.String())
	if chance(r, 0.3) {
		src = iotest.HalfReader(src)
	}
	if !c.guarded("reading a log of patches", func() { got, err = parser.New(src).RunGetAll() }) {
		return false
	}
	if err != nil || len(got) != len(want) {
		c.Fail("log-commits", "a log of %d commits was read as %d commits, error %v", len(want), len(got), err)
		return false
	}
	for i, g := range got {
		k := want[i]
		if g.Hash != k.hash || g.MergeDiffFrom != k.from || len(g.Changes) != len(k.diffs) {
			c.Fail("log-commit", "commit %d of a log was read as %q from %q with %d patches, expected %q from %q with %d", i, g.Hash, g.MergeDiffFrom, len(g.Changes), k.hash, k.from, len(k.diffs))
			return false
		}
		for j, ch := range g.Changes {
			if x, y := withoutCR(string(ch.Diff)), withoutCR(k.diffs[j]); x != y {
				c.Fail("log-patch", "patch %d of commit %d of a log was read as another text: %s", j, i, firstDiff(y, x))
				return false
			}
			c.Count("patches read from a log", 1)
		}
	}
	return true
}

// diffPairsExtra adds pairs of unrelated commits, so that patches are not
// limited to small edits, and several sources for one result.
func (w *World) diffPairsExtra(r *rand.Rand) {
	seen := map[pairKey]bool{}
	for _, c := range w.Commits {
		if len(c.Parents) == 0 {
			seen[pairKey{-1, c.Idx}] = true
		}
		for _, p := range c.Parents {
			seen[pairKey{p, c.Idx}] = true
		}
	}
	for i := 0; i < 2*len(w.Commits); i++ {
		k := pairKey{r.Intn(len(w.Commits)), r.Intn(len(w.Commits))}
		if k.parent != k.child {
			seen[k] = true
		}
	}
	for k := range seen {
		w.extraPairs = append(w.extraPairs, k)
	}
	sort.Slice(w.extraPairs, func(i, j int) bool {
		a, b := w.extraPairs[i], w.extraPairs[j]
		return a.child < b.child || a.child == b.child && a.parent < b.parent
	})
}

// ---- C25

func c25Case(c *Case) {
	r := c.Rng
	f := randomFeatures(r)
	f.NCommits = 6 + r.Intn(14)
	f.Msgs = chance(r, 0.7)
	f.Idents = chance(r, 0.7)
	f.Moves = f.Moves || chance(r, 0.6)
	w := c.makeWorld(f)
	n := 0
	for try := 0; try < 200 && n < 14; try++ {
		cm := w.Commits[r.Intn(len(w.Commits))]
		ps := sortedPaths(cm.Tree)
		if len(ps) == 0 {
			continue
		}
		p := ps[r.Intn(len(ps))]
		fl := cm.Tree[p]
		if fl.Kind == KBin || fl.Kind == KSub || fl.Kind == KLink {
			continue
		}
		n++
		what := fmt.Sprintf("blame of %q at %s (#%d)", p, short(cm.SHA), cm.Idx)
		var res gitblame2.Result
		var err error
		if !c.guarded(what, func() { res, err = gitblame2.Run(w.Dir, cm.SHA, p) }) {
			return
		}
		if err != nil {
			c.Fail("blame-error", "%s failed: %v", what, err)
			return
		}
		// reference: incremental format, which is keyed by line numbers
		wantSHA := make([]string, len(fl.ContentLines()))
		out := git(w.Dir, "-c", "core.attributesFile=/dev/null", "blame", "--incremental", cm.SHA, "--", p)
		for _, l := range strings.Split(out, "\n") {
			h := strings.Fields(l)
			if len(h) == 4 && len(h[0]) == 40 && strings.Trim(h[0], "0123456789abcdef") == "" {
				to, e1 := strconv.Atoi(h[2])
				k, e2 := strconv.Atoi(h[3])
				if e1 != nil || e2 != nil {
					continue
				}
				for i := 0; i < k; i++ {
					if to-1+i >= len(wantSHA) {
						harnessErr("blame --incremental: line %d of %d", to+i, len(wantSHA))
					}
					wantSHA[to-1+i] = h[0]
				}
			}
		}
		want := fl.ContentLines()
		if len(res.Lines) != len(want) {
			c.Fail("blame-count", "%s has %d entries, the file has %d lines", what, len(res.Lines), len(want))
			return
		}
		shas := map[string]bool{}
		for i, l := range res.Lines {
			if l.Content != want[i] {
				c.Fail("blame-line", "%s line %d is %q, the file has %q", what, i+1, clipS(l.Content), clipS(want[i]))
				return
			}
			if l.CommitHash != wantSHA[i] {
				c.Fail("blame-credit", "%s line %d is credited to %q, git blame says %q", what, i+1, l.CommitHash, wantSHA[i])
				return
			}
			shas[l.CommitHash] = true
		}
		c.Count("files blamed", 1)
		c.Count("lines", len(want))
		c.Key("%d|%d|%s", len(want), len(shas), nameClass(p))
	}
}

func init() {
	register(&Check{ID: "C09", Quick: 2000, Thorough: 20000, Build: "lite", Level: "exploration", Min: 100,
		Tech: "round-trip runtime monitor over generated states, including constructed hash collisions and encoding boundaries",
		Note: "Hundreds of generated states compared field by field after reading back; sampled, not exhaustive.",
		Rule: "one evaluation is one to three successive saves into one directory; a situation is one state keyed by its kinds and sizes",
		Run:  c09Case, Assume: []string{"line contents up to 65,536 bytes and up to 70,000 lines per file version"}})
	register(&Check{ID: "C24", Quick: 450, Thorough: 10000, Build: "lite", Level: "exploration", Min: 200,
		Tech: "differential runtime monitor: parse and apply against a reference applier and the model's file versions",
		Note: "Tens of thousands of git-made patches over context widths and algorithms; sampled, not exhaustive.",
		Rule: "one evaluation is one generated repository with patches between related and unrelated commits; a situation is one patch keyed by hunks, sizes and context width, or one merge",
		Run:  c24Case, Assume: []string{histAssume}})
	register(&Check{ID: "C25", Quick: 2800, Thorough: 11200, Build: "lite", Level: "exploration", Min: 100,
		Tech: "differential runtime monitor: on-demand blame against git blame --incremental and the model's file content",
		Note: "Thousands of blamed file versions; sampled, not exhaustive.",
		Rule: "one evaluation is one generated repository with up to 14 blamed file versions; a situation is keyed by line count, number of credited commits and name class",
		Run:  c25Case, Assume: []string{histAssume}})
}
