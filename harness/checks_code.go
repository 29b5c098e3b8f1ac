package main

// C15: per-file statistics. C16: skipping. C17: licences.

import (
	"bytes"
	"embed"
	"fmt"
	"math/rand"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	enry "gopkg.in/src-d/enry.v1"
	"gopkg.in/src-d/enry.v1/data"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
)

// ---- C15

type lang struct {
	ext, line  string
	open, shut string
}

// languages whose comments are unambiguous enough to count independently
var langs = []lang{
	{".go", "//", "/*", "*/"}, {".java", "//", "/*", "*/"}, {".c", "//", "/*", "*/"}, {".cpp", "//", "/*", "*/"}, {".js", "//", "/*", "*/"},
	{".kt", "//", "/*", "*/"}, {".swift", "//", "/*", "*/"}, {".scala", "//", "/*", "*/"},
	{".py", "#", "", ""}, {".rb", "#", "", ""}, {".sh", "#", "", ""}, {".css", "", "/*", "*/"}, {".lua", "--", "", ""}, {".hs", "--", "{-", "-}"},
}

type kind byte // 'c' code, 'm' comment, 'b' blank

type counted struct {
	lines []string
	kinds []byte
	gen   bool // a comment that marks generated files
}

func (c *counted) add(l string, k byte) {
	c.lines = append(c.lines, l)
	c.kinds = append(c.kinds, k)
}

var genMarks = []string{"GENERATED", "DO NOT EDIT", "DO NOT MODIFY", "machine generated"}

func (w *World) countedBlock(l lang, marks bool) (c counted) {
	r := w.rng
	w.n++
	word := func() string {
		return []string{"alpha", "beta", "gamma", "delta", "value", "x", "total", "item"}[r.Intn(8)] + fmt.Sprint(r.Intn(50))
	}
	text := func() string {
		if marks && chance(r, 0.02) {
			c.gen = true
			return "note " + genMarks[r.Intn(len(genMarks))] + " " + word()
		}
		return []string{"note", "generated", "GENERATE", "DO NOT", "edit me", "machine"}[r.Intn(6)] + " " + word()
	}
	ind := []string{"", "  ", "\t", "\t\t", "    "}[r.Intn(5)]
	switch x := r.Intn(10); {
	case x < 2:
		c.add([]string{"", "  ", "\t", " \t "}[r.Intn(4)], 'b')
	case x < 4 && l.line != "":
		c.add(ind+l.line+" "+text(), 'm')
	case x < 6 && l.open != "":
		if chance(r, 0.3) {
			c.add(ind+l.open+" "+text()+" "+l.shut, 'm')
			break
		}
		c.add(ind+l.open, 'm')
		for i := 0; i < r.Intn(4); i++ {
			if chance(r, 0.3) {
				c.add("", 'm')
			} else {
				c.add(ind+" "+text(), 'm')
			}
		}
		c.add(ind+l.shut, 'm')
	default:
		for i := 0; i < 1+r.Intn(4); i++ {
			if marks && chance(r, 0.01) { // in code it means nothing
				c.add(ind+"GENERATED = "+word(), 'c')
				continue
			}
			c.add(ind+word()+" = "+word(), 'c')
		}
	}
	return
}

// countedWorld makes a history of files whose line kinds are known.
func (c *Case) countedWorld() (*World, map[*File]*counted) {
	r := c.Rng
	w := newWorld(r, Features{Idents: true, Bare: chance(r, 0.3)})
	kinds := map[*File]*counted{}
	marks := chance(r, 0.3)
	blocks := map[*File][]counted{}
	make1 := func(l lang, bs []counted) *File {
		f := &File{Mode: "100644", Kind: KText, EOL: true}
		k := &counted{}
		for _, b := range bs {
			k.lines = append(k.lines, b.lines...)
			k.kinds = append(k.kinds, b.kinds...)
			k.gen = k.gen || b.gen
		}
		f.Lines = k.lines
		if chance(r, 0.2) {
			f.EOL = false
		}
		w.normText(f)
		kinds[f] = k
		blocks[f] = bs
		return f
	}
	n := 4 + r.Intn(12)
	tips := []int{}
	for len(w.Commits) < n {
		tree := map[string]*File{}
		var ps []int
		if len(w.Commits) > 0 {
			p := tips[r.Intn(len(tips))]
			if chance(r, 0.15) {
				p = r.Intn(len(w.Commits))
			}
			ps = []int{p}
			tree = cloneTree(w.Commits[p].Tree)
			if len(tips) > 1 && chance(r, 0.3) {
				q := tips[r.Intn(len(tips))]
				if q != p {
					ps = append(ps, q)
					for k, v := range w.Commits[q].Tree {
						if chance(r, 0.5) {
							tree[k] = v
						}
					}
				}
			}
		}
		for i := 0; i < 1+r.Intn(3); i++ {
			ex := sortedPaths(tree)
			if len(ex) < 3 || chance(r, 0.3) {
				l := langs[r.Intn(len(langs))]
				var bs []counted
				for j := 0; j < r.Intn(12); j++ {
					bs = append(bs, w.countedBlock(l, marks))
				}
				if chance(r, 0.04) { // a long file, perhaps with one marker somewhere
					k := 30 + r.Intn(200)
					if chance(r, 0.1) {
						k = 1000 + r.Intn(3000)
					}
					bs = bs[:0]
					for len(bs) < k {
						bs = append(bs, w.countedBlock(l, false))
					}
					for at, try := r.Intn(k), 0; try < 300 && marks && chance(r, 0.995); try++ {
						if b := w.countedBlock(l, true); b.gen {
							bs[at] = b
							break
						}
					}
				}
				p := fmt.Sprintf("%sf%d%s", []string{"", "src/", "a/b/"}[r.Intn(3)], r.Intn(20), l.ext)
				tree[p] = make1(l, bs)
				continue
			}
			p := ex[r.Intn(len(ex))]
			var l lang
			for _, x := range langs {
				if x.ext == filepath.Ext(p) {
					l = x
				}
			}
			if chance(r, 0.1) {
				delete(tree, p)
				continue
			}
			if chance(r, 0.1) {
				f := tree[p]
				delete(tree, p)
				tree["moved/"+filepath.Base(p)] = f
				continue
			}
			bs := append([]counted(nil), blocks[tree[p]]...)
			for j := 0; j < 1+r.Intn(3); j++ {
				at := r.Intn(len(bs) + 1)
				if at < len(bs) && chance(r, 0.5) {
					bs = append(bs[:at], bs[at+1:]...)
				} else {
					bs = append(bs[:at], append([]counted{w.countedBlock(l, marks)}, bs[at:]...)...)
				}
			}
			tree[p] = make1(l, bs)
		}
		cm := w.addCommit(ps, tree)
		for _, p := range ps {
			tips = removeInt(tips, p)
		}
		tips = append(tips, cm.Idx)
	}
	w.HeadIdx = n - 1
	w.Head = "refs/heads/master"
	w.Refs = []Ref{{w.Head, n - 1}}
	for i, t := range tips {
		w.Refs = append(w.Refs, Ref{fmt.Sprintf("refs/heads/t%d", i), t})
	}
	must(w.write(c.path("repo")))
	return w, kinds
}

type statKey struct{ name, language, content string }

var statsSeen = map[statKey]string{} // answers given so far in this process
var statsMu sync.Mutex

func statText(r ripsrc.BlameResult) string {
	lic := "-"
	if r.License != nil {
		lic = fmt.Sprintf("%s %v", r.License.Name, r.License.Confidence)
	}
	var k strings.Builder
	for _, l := range r.Lines {
		k.WriteByte(lineKind(l))
	}
	return fmt.Sprintf("language=%q size=%d lines=%d code=%d comments=%d blanks=%d complexity=%d weighted=%v skipped=%q licence=%s kinds=%s", r.Language, r.Size, r.Loc, r.Sloc, r.Comments, r.Blanks, r.Complexity, r.WeightedComplexity, r.Skipped, lic, k.String())
}

func lineKind(l *ripsrc.BlameLine) byte {
	n, k := 0, byte('?')
	if l.Code {
		n++
		k = 'c'
	}
	if l.Comment {
		n++
		k = 'm'
	}
	if l.Blank {
		n++
		k = 'b'
	}
	if n > 1 {
		return '!'
	}
	return k
}

var genRE = regexp.MustCompile("GENERATED|DO NOT EDIT|DO NOT MODIFY|machine generated")

// checkStats judges one per-file code result.
func (c *Case) checkStats(w *World, r ripsrc.BlameResult, kinds map[*File]*counted, what string) {
	cm := w.BySHA[r.Commit.SHA]
	where := fmt.Sprintf("%s: %q of %s (#%d)", what, r.Filename, short(r.Commit.SHA), cm.Idx)
	f := cm.Tree[r.Filename]
	if f == nil || r.Status == commitmeta.GitFileCommitStatusRemoved {
		// the change records of merges do not tell removals from modifications
		if r.Skipped == "" && len(cm.Parents) < 2 || len(r.Lines) != 0 || r.Size+r.Loc+r.Sloc+r.Comments+r.Blanks+r.Complexity != 0 || r.WeightedComplexity != 0 {
			c.Fail("stats-removed", "%s is removed but has %d line records and %s", where, len(r.Lines), statText(r))
		}
		if f != nil && len(cm.Parents) < 2 {
			c.Fail("stats-status", "%s is reported as removed, but the commit has it", where)
		}
		c.Count("removed files", 1)
		return
	}
	content := f.ContentLines()
	// totals are a function of name and content
	sk := statKey{r.Filename, r.Language, digest(f.Mode[:2] + strings.Join(content, "\n") + fmt.Sprint(len(content), f.Kind))}
	st := statText(r)
	// what follows a binary version may be reported as binary
	firm := f.Kind != KBin && !wasBinary(w, cm, r.Filename)
	prev, ok := "", false
	if firm {
		statsMu.Lock()
		prev, ok = statsSeen[sk]
		statsSeen[sk] = st
		statsMu.Unlock()
	}
	if ok && prev != st {
		c.Fail("stats-function", "%s has %s; the same name and content had %s before", where, st, prev)
		return
	}
	if r.Skipped != "" {
		c.Count("skipped files", 1)
		if r.Skipped == "file was a generated file" {
			marked := false
			for _, l := range content {
				marked = marked || genRE.MatchString(l)
			}
			if !marked {
				c.Fail("stats-generated", "%s is skipped as generated, no line says so", where)
			}
			c.Count("generated files", 1)
		}
		if k := kinds[f]; k != nil && !(k.gen && r.Skipped == "file was a generated file") {
			c.Fail("stats-skipped", "%s is skipped: %s", where, r.Skipped)
		}
		return
	}
	if f.Kind == KBin || len(r.Lines) == 0 && wasBinary(w, cm, r.Filename) {
		if len(r.Lines) != 0 || r.Loc != 0 || r.Sloc+r.Comments+r.Blanks != 0 {
			c.Fail("stats-binary", "%s is binary and has %s", where, st)
		}
		return
	}
	if len(r.Lines) != len(content) || r.Loc != int64(len(content)) {
		c.Fail("stats-lines", "%s has %d line records and total %d for %d lines", where, len(r.Lines), r.Loc, len(content))
		return
	}
	lo, hi := 0, 0
	for _, l := range content {
		hi += len(l) + 1
		lo += len(strings.TrimRight(l, "\r")) + 1
	}
	if r.Size < int64(lo) || r.Size > int64(hi) {
		c.Fail("stats-size", "%s has size %d, its %d lines have %d..%d bytes", where, r.Size, len(content), lo, hi)
		return
	}
	n := map[byte]int64{}
	for i, l := range r.Lines {
		k := lineKind(l)
		n[k]++
		if k == '!' || k == '?' {
			c.Fail("stats-kind", "%s line %d has code=%v comment=%v blank=%v", where, i+1, l.Code, l.Comment, l.Blank)
			return
		}
		if k == 'b' && strings.TrimSpace(content[i]) != "" && strings.Trim(content[i], " \t\r\n") != "" {
			c.Fail("stats-blank", "%s line %d %q is marked blank", where, i+1, clipS(content[i]))
			return
		}
		a, ok := w.BySHA[l.SHA]
		if !ok || !w.ancestors(cm.Idx)[a.Idx] {
			c.Fail("stats-credit", "%s line %d is credited to %q, not an ancestor", where, i+1, l.SHA)
			return
		}
		_, off := l.Date.Zone()
		if l.Name != gitName(a.Author.Name) || l.Email != gitName(a.Author.Email) || l.Date.Unix() != a.Author.When || off != a.Author.TZ*60 {
			c.Fail("stats-author", "%s line %d credited to %s (#%d) has author %q <%q> %v, the commit has %q <%q> %d %s", where, i+1, short(l.SHA), a.Idx, l.Name, l.Email, l.Date, a.Author.Name, a.Author.Email, a.Author.When, a.Author.tz())
			return
		}
	}
	if n['c'] != r.Sloc || n['m'] != r.Comments || n['b'] != r.Blanks || r.Sloc+r.Comments+r.Blanks != r.Loc {
		c.Fail("stats-sum", "%s: %s, but %d code, %d comment and %d blank records", where, st, n['c'], n['m'], n['b'])
		return
	}
	if k := kinds[f]; k != nil {
		if k.gen {
			c.Fail("stats-generated", "%s has a comment that marks it as generated but is not skipped", where)
			return
		}
		for i, l := range r.Lines {
			if got := lineKind(l); got != k.kinds[i] {
				c.Fail("stats-count", "%s (%s) line %d %q is marked %c, it is %c", where, r.Language, i+1, k.lines[i], got, k.kinds[i])
				return
			}
		}
		c.Count("files with known line kinds", 1)
	}
	c.Count("files", 1)
	c.Count("lines", len(content))
	c.Key("%s|%d|%d|%d", r.Language, r.Sloc, r.Comments, r.Blanks)
}

// wasBinary: the file came out of a version that git treats as binary.
func wasBinary(w *World, cm *Commit, p string) bool {
	for i := range w.ancestors(cm.Idx) {
		for _, f := range w.Commits[i].Tree {
			if f.Kind == KBin {
				return true
			}
		}
	}
	return false
}

func gitName(s string) string { return s }

func (c *Case) codeRun(w *World, o ripsrc.Opts, kinds map[*File]*counted, what string) (last string, n int) {
	var cc []codeCommit
	var err error
	if !c.guarded(what, func() { cc, err = runCodeByCommit(newRipsrc(o)) }) {
		return
	}
	if err != nil {
		c.Fail("run-error", "%s failed: %v", what, err)
		return
	}
	for _, x := range cc {
		for _, f := range x.Files {
			c.checkStats(w, f, kinds, what)
			if c.Failed() {
				return
			}
		}
		last = x.Commit.SHA
	}
	return last, len(cc)
}

func c15Case(c *Case) {
	r := c.Rng
	var w *World
	var kinds map[*File]*counted
	if c.N%2 == 0 {
		w, kinds = c.countedWorld()
		c.Sample("%d commits of files with known line kinds", len(w.Commits))
	} else {
		f := randomFeatures(r)
		f.Langs = true
		f.NCommits = 4 + r.Intn(16)
		w = c.makeWorld(f)
	}
	stages := w.growth(r)
	if len(stages) > 2 {
		stages = stages[len(stages)-2:]
	}
	last := ""
	for k, st := range stages {
		w.setRefs(st.head, st.refs)
		o := ripsrc.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp")}
		what := "full run"
		if k > 0 {
			if last == w.Commits[st.head].SHA {
				break
			}
			o.CommitFromIncl = last
			o.CommitFromMakeNonIncl = chance(r, 0.5)
			what = fmt.Sprintf("incremental run (from #%d nonincl=%v)", w.BySHA[last].Idx, o.CommitFromMakeNonIncl)
			if w.F.Skew {
				break
			}
			c.Count("incremental runs", 1)
		}
		l, n := c.codeRun(w, o, kinds, what)
		if c.Failed() || n == 0 {
			return
		}
		last = l
	}
}

// ---- C16

//go:embed exclusions.txt
var exclusionText string

var exclusions = func() (res []*regexp.Regexp) {
	for _, l := range strings.Split(strings.TrimSpace(exclusionText), "\n") {
		res = append(res, regexp.MustCompile(l))
	}
	return
}()

// wantSkip is the documented decision.
func wantSkip(path string, content []byte, lines [][]byte) (reason, language string) {
	if len(content) > 1000000 {
		return fmt.Sprintf("File size was %dK which exceeds limit of 1000K", len(content)/1000), ""
	}
	if enry.IsConfiguration(path) {
		return "File was a config file", ""
	}
	if enry.IsDotFile(path) {
		return "File was a dot file", ""
	}
	for _, e := range exclusions {
		if e.MatchString(path) {
			return "File was on an exclusion list", ""
		}
	}
	if enry.IsVendor(path) && !strings.HasPrefix(path, "src/") {
		return "File was a vendored file", ""
	}
	if len(lines) > 40000 {
		return "File has more than 40000 lines", ""
	}
	for _, l := range lines {
		if len(l) > 1096 {
			return fmt.Sprintf("File has a line width of %d which is greater than max of 1096", len(l)), ""
		}
	}
	l := enry.GetLanguage(path, content)
	if l == "" {
		return "Language was unknown", ""
	}
	return "", l
}

var allExts = func() (res []string) {
	for _, es := range data.ExtensionsByLanguage {
		res = append(res, es...)
	}
	sort.Strings(res)
	return
}()

var exclusionBits = func() (res []string) {
	clean := strings.NewReplacer(`\.`, ".", "$", "", "^", "", "(^|/)", "/", "(", "", ")", "", "?", "", "[-.]", "-", "[-\\.]", "-", "|", "", "[P]", "P")
	for _, l := range strings.Split(strings.TrimSpace(exclusionText), "\n") {
		res = append(res, clean.Replace(l))
	}
	return append(res, "vendor", "node_modules", "dist", "third_party", "deps", "cache", "bower_components", "Godeps", "external", "extern", "test", "src", "debian", "jquery.js", "min", "dependencies", "Vendor", "build", "README", "LICENSE-MIT", "gradlew", ".git", "..", "web.config", "Gemfile.lock", "package-lock.json")
}()

func randPath(r *rand.Rand) string {
	var parts []string
	for i := 0; i <= r.Intn(4); i++ {
		s := []string{"a", "main", "x1", "Some Name", "日本", "lib", "app", "src", "com"}[r.Intn(9)]
		if chance(r, 0.3) {
			s = exclusionBits[r.Intn(len(exclusionBits))]
			switch r.Intn(8) {
			case 0:
				s = "x" + s
			case 1:
				s += "x"
			case 2:
				s = strings.ToUpper(s)
			case 3:
				s = "." + s
			case 4:
				s = "a-" + s
			}
		}
		parts = append(parts, s)
	}
	p := strings.Join(parts, "/")
	if chance(r, 0.6) {
		p += allExts[r.Intn(len(allExts))]
	}
	p = strings.TrimLeft(strings.ReplaceAll(p, "//", "/"), "/")
	if chance(r, 0.08) {
		p = "src/" + p
	}
	if p == "" {
		p = "a"
	}
	return p
}

var contentBits = []string{"package main\n", "#!/usr/bin/env python\n", "#!/bin/sh\n", "import os\n", "function x() {}\n", "<?php echo 1;\n", "class A {\n}\n", "#include <stdio.h>\n", "@interface X\n", "// -*- mode: c++ -*-\n", "# vim: ft=ruby\n", "\n", "plain text\n", "SELECT 1;\n", "<html>\n", ":- use_module(x).\n", "use strict;\n", "%YAML\n", "\x00\x01\n", "é\n", "template <typename T>\n", "end\n", "def f(x):\n"}

func bigContent(r *rand.Rand) ([]byte, string) {
	switch r.Intn(4) {
	case 0:
		n := []int{999000, 999999, 1000000, 1000001, 1000999, 1001000, 1500000}[r.Intn(7)]
		w := 1 + r.Intn(1200)
		b := bytes.Repeat([]byte([]string{"a", "é", "漢", " "}[r.Intn(4)]), n)[:n]
		for i := w; i < n; i += w + 1 {
			b[i] = '\n'
		}
		return b, fmt.Sprintf("size %d", n)
	case 1:
		n := []int{39999, 40000, 40001, 40100}[r.Intn(4)]
		k := []int{0, 0, 1, 2, 200, n}[r.Intn(6)] // blank ones at the end
		return []byte(strings.Repeat("a\n", n-k) + strings.Repeat("\n", k)), fmt.Sprintf("lines %d, %d of them blank", n, k)
	default:
		n := []int{1095, 1096, 1097, 1098, 5000}[r.Intn(5)]
		ls := []string{}
		k := 1 + r.Intn(5)
		for i := 0; i < k; i++ {
			ls = append(ls, "x = 1")
		}
		at := r.Intn(k)
		unit := []string{"b", "é", "漢", "😀", "\xff", "\u0301", "a\t"}[r.Intn(7)]
		ls[at] = strings.Repeat(unit, n/len(unit)) + strings.Repeat("b", n%len(unit))
		if chance(r, 0.3) {
			ls[r.Intn(k)] = strings.Repeat("c", 1090+r.Intn(20))
		}
		return []byte(strings.Join(ls, "\n") + "\n"), fmt.Sprintf("width %d at %d of %d", n, at+1, k)
	}
}

type query struct {
	path    string
	content []byte
	lines   [][]byte
	desc    string
}

func mkQuery(path string, content []byte, desc string) query {
	var ls [][]byte
	for _, l := range splitLines(content) {
		ls = append(ls, []byte(l))
	}
	return query{path, content, ls, desc}
}

// languageTie: the language library itself gives several answers for this
// file, and got is one of them (known finding language-tie).
func languageTie(q query, got string) bool {
	for i := 0; i < 300; i++ {
		if enry.GetLanguage(q.path, q.content) == got {
			return true
		}
	}
	return false
}

// tieProbe asks for a file whose candidate languages score equally.
func tieProbe(c *Case) {
	p := fileinfo.New()
	q := mkQuery("a.v", nil, "")
	seen := map[string]bool{}
	for i := 0; i < 500; i++ {
		info, reason := p.GetInfo(fileinfo.InfoArgs{FilePath: q.path, Content: q.content, Lines: q.lines})
		if reason != "" || !languageTie(q, info.Language) {
			c.Fail("skip", "%q: skipped %q language %q, the language library never says so", q.path, reason, info.Language)
			return
		}
		seen[info.Language] = true
	}
	if len(seen) > 1 {
		c.Fail("language-tie", "%q without content is classified as any of %q", q.path, sortedKeys(seen))
	}
}

func c16Case(c *Case) {
	r := c.Rng
	if c.N == 0 {
		tieProbe(c)
	}
	if c.N%20 == 19 {
		c16Repo(c)
		return
	}
	var qs []query
	for i := 0; i < 60; i++ {
		p := randPath(r)
		var b []byte
		desc := "small"
		for j := 0; j < r.Intn(5); j++ {
			b = append(b, contentBits[r.Intn(len(contentBits))]...)
		}
		if chance(r, 0.06) {
			b, desc = bigContent(r)
			if chance(r, 0.6) {
				p = "lib/code" + []string{".go", ".py", ".c", ".txt", ".rb"}[r.Intn(5)]
			}
		}
		qs = append(qs, mkQuery(p, b, desc))
	}
	// the same paths again with other contents
	for i := 0; i < 20; i++ {
		q := qs[r.Intn(len(qs))]
		var b []byte
		for j := 0; j < r.Intn(3); j++ {
			b = append(b, contentBits[r.Intn(len(contentBits))]...)
		}
		if chance(r, 0.5) {
			qs = append(qs, mkQuery(q.path, b, "again"))
		} else {
			qs = append(qs, q)
		}
	}
	// paths that resemble others
	for i := 0; i < 20; i++ {
		q := qs[r.Intn(60)]
		p := q.path
		switch r.Intn(9) {
		case 0:
			p = strings.ToUpper(p)
		case 1:
			p = strings.ToLower(p)
		case 2:
			p = strings.Title(p)
		case 3:
			p = path.Base(p)
		case 4:
			p = "a/" + p
		case 5:
			p = path.Dir(p) + "/" + path.Base(qs[r.Intn(60)].path)
		case 6:
			p = strings.TrimSuffix(p, path.Ext(p)) + path.Ext(qs[r.Intn(60)].path)
		case 7:
			p += "x"
		case 8:
			if k := strings.Index(p, "/"); k >= 0 {
				p = p[k+1:]
			}
		}
		if p == "" || strings.HasPrefix(p, "/") || strings.HasPrefix(p, "./") {
			continue
		}
		if q.content == nil || chance(r, 0.5) {
			q = mkQuery(p, q.content, "resembles")
		} else {
			q = mkQuery(p, nil, "resembles")
		}
		qs = append(qs, q)
	}
	ask := func(p *fileinfo.Process, q query) (fileinfo.Info, string) {
		return p.GetInfo(fileinfo.InfoArgs{FilePath: q.path, Content: q.content, Lines: q.lines})
	}
	shared := fileinfo.New()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for worker := 0; worker < 3; worker++ {
		order := r.Perm(len(qs))
		p := shared
		if worker > 0 {
			p = fileinfo.New()
		}
		run := func() {
			for _, i := range order {
				q := qs[i]
				keep := digest(string(q.content))
				info, reason := ask(p, q)
				wantReason, wantLang := wantSkip(q.path, q.content, q.lines)
				if reason == "" && wantReason == "" && info.Language != wantLang && languageTie(q, info.Language) {
					wantLang = info.Language
				}
				if reason != wantReason || info.Language != wantLang || info.License != nil {
					c.Fail("skip", "%q (%d bytes, %d lines, %s): skipped %q language %q, expected %q %q", q.path, len(q.content), len(q.lines), q.desc, reason, info.Language, wantReason, wantLang)
					return
				}
				if digest(string(q.content)) != keep {
					c.Fail("skip-input", "%q: classification changed the content", q.path)
					return
				}
				mu.Lock()
				c.Count("decisions", 1)
				if q.desc != "small" {
					c.Count("decisions at limits", 1)
				}
				mu.Unlock()
				k := reason
				if k == "" {
					k = info.Language
				}
				c.Key("%s|%s", k, q.desc)
			}
		}
		if worker == 0 {
			run()
			continue
		}
		wg.Add(1)
		go func() { defer wg.Done(); run() }()
	}
	wg.Wait()
	c.Sample("paths such as %q, %q", qs[0].path, qs[1].path)
}

// c16Repo takes files at the limits through a whole run.
func c16Repo(c *Case) {
	r := c.Rng
	w := newWorld(r, Features{})
	tree := map[string]*File{}
	for i := 0; i < 4; i++ {
		var ps []int
		if i > 0 {
			ps = []int{i - 1}
		}
		tree = cloneTree(tree)
		for k := 0; k < 4; k++ {
			var b []byte
			p := randPath(r)
			for j := 0; j < 1+r.Intn(3); j++ {
				b = append(b, contentBits[r.Intn(18)]...)
			}
			if k < 2 {
				b, _ = bigContent(r)
				p = fmt.Sprintf("lib/f%d.go", r.Intn(5))
			}
			if bytes.IndexByte(b, 0) >= 0 || strings.Contains(p, ".git") || strings.Contains(p, "..") || !pathFree(tree, p) && tree[p] == nil {
				continue
			}
			b = bytes.TrimSuffix(b, []byte("\n"))
			f := &File{Mode: "100644", Kind: KText, EOL: true}
			if len(b) > 0 {
				f.Lines = strings.Split(string(b), "\n")
			}
			tree[p] = f
		}
		w.addCommit(ps, tree)
	}
	w.HeadIdx, w.Head = 3, "refs/heads/master"
	w.Refs = []Ref{{w.Head, 3}}
	must(w.write(c.path("repo")))
	cc, err := runCodeByCommit(newRipsrc(ripsrc.Opts{RepoDir: w.Dir, CheckpointsDir: c.path("cp")}))
	if err != nil {
		c.Fail("run-error", "code listing failed: %v", err)
		return
	}
	for _, x := range cc {
		for _, f := range x.Files {
			m := w.BySHA[x.Commit.SHA].Tree[f.Filename]
			if m == nil {
				continue
			}
			q := mkQuery(f.Filename, m.Data(), "")
			reason, l := wantSkip(q.path, q.content, q.lines)
			if f.Skipped == "file was a generated file" {
				continue
			}
			if f.Skipped == "" && reason == "" && f.Language != l && languageTie(q, f.Language) {
				l = f.Language
			}
			if f.Skipped != reason || f.Language != l {
				c.Fail("skip-run", "%q in a run (%d bytes, %d lines): skipped %q language %q, expected %q %q", f.Filename, len(q.content), len(q.lines), f.Skipped, f.Language, reason, l)
				return
			}
			c.Count("decisions in runs", 1)
			c.Key("run|%s|%s", reason, l)
		}
	}
}

// ---- C17

//go:embed licenses
var licenseFS embed.FS

var licenseTexts = func() map[string][]byte {
	m := map[string][]byte{}
	es, err := licenseFS.ReadDir("licenses")
	must(err)
	for _, e := range es {
		b, err := licenseFS.ReadFile("licenses/" + e.Name())
		must(err)
		m[e.Name()] = b
	}
	return m
}()

var licenseCandidate = regexp.MustCompile(`/?(LICENSE|LICENCE|README|COPYING|LICENSE-.*|UNLICENSE|UNLICENCE)(\.(md|txt))?$`)

func c17Case(c *Case) {
	if !licensesBuiltIn {
		harnessErr("C17 needs the full build")
	}
	r := c.Rng
	names := sortedKeys(licenseTexts)
	type lq struct {
		path string
		text []byte
		src  string
	}
	var qs []lq
	for i := 0; i < 6; i++ {
		n := names[r.Intn(len(names))]
		t := append([]byte(nil), licenseTexts[n]...)
		src := n
		switch r.Intn(6) {
		case 0: // cut
			if len(t) > 200 {
				t = t[:len(t)-r.Intn(len(t)/2)]
				src += " cut"
			}
		case 1: // words dropped, towards the confidence limit
			ws := strings.Fields(string(t))
			var o []string
			p := r.Float64() * 0.2
			for _, x := range ws {
				if !chance(r, p) {
					o = append(o, x)
				}
			}
			t = []byte(strings.Join(o, " "))
			src += " thinned"
		case 2:
			t = append(t, licenseTexts[names[r.Intn(len(names))]]...)
			src += " joined"
		case 3:
			t = []byte("# Project\n\nSome text.\n\n## License\n\nThis is under the " + []string{"MIT License", "Apache License 2.0", "GPL v3", "BSD 3-clause license", "zzz"}[r.Intn(5)] + ".\n")
			src = "readme"
		}
		p := []string{"LICENSE", "LICENSE.md", "COPYING", "LICENCE.txt", "UNLICENSE", "LICENSE-MIT", "docs/LICENSE", "a/b/COPYING.txt", "README.md", "README", "x/LICENSE-APACHE.txt", "license.txt", "LICENSE.rst", "main.go", "COPYING.lesser", "a/LICENSE/x.txt", "MYLICENSE", "src/util.py", "LICENSE.md.bak"}[r.Intn(19)]
		if src == "readme" && chance(r, 0.7) {
			p = []string{"README.md", "README", "sub/README.txt"}[r.Intn(3)]
		}
		qs = append(qs, lq{p, t, src})
	}
	type ans struct {
		name   string
		conf   float32
		reason string
	}
	first := make([]*ans, len(qs))
	var mu sync.Mutex
	check := func(i int, p *fileinfo.Process) bool {
		q := qs[i]
		m := mkQuery(q.path, q.text, "")
		info, reason := p.GetInfo(fileinfo.InfoArgs{FilePath: q.path, Content: m.content, Lines: m.lines})
		a := ans{reason: reason}
		if info.License != nil {
			a.name, a.conf = info.License.Name, info.License.Confidence
		}
		mu.Lock()
		defer mu.Unlock()
		c.Count("detections", 1)
		if first[i] == nil {
			first[i] = &a
			return true
		}
		if *first[i] != a {
			c.Fail("licence-differs", "%q with text %s: answer is %+v, before it was %+v", q.path, q.src, a, *first[i])
			return false
		}
		return true
	}
	p0 := fileinfo.New()
	for i := range qs {
		check(i, p0)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		order := r.Perm(len(qs))
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := fileinfo.New()
			for k := 0; k < 3; k++ {
				for _, i := range order {
					if !check(i, p) {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if c.Failed() {
		return
	}
	for i, q := range qs {
		a := first[i]
		cand := licenseCandidate.MatchString(q.path)
		var best map[string]bool
		var conf float32
		if cand {
			best, conf = bestLicenses(q.path, q.text)
		}
		where := fmt.Sprintf("%q with text %s (%d bytes)", q.path, q.src, len(q.text))
		switch {
		case !cand && a.name != "":
			c.Fail("licence-name", "%s: a licence %+v is reported though the name is no licence name", where, *a)
		case cand && conf >= 0.85 && (!best[a.name] || a.conf != conf || a.reason != "File is a license file"):
			c.Fail("licence-best", "%s: answer is %+v, the best matches are %q with %v", where, *a, sortedKeys(best), conf)
		case cand && conf < 0.85 && a.name != "":
			c.Fail("licence-weak", "%s: answer is %+v though the best match has confidence %v only", where, *a, conf)
		}
		if len(best) > 1 && conf >= 0.85 {
			c.Count("ties", 1)
		}
		c.Key("%v|%s|%s|%d", cand, a.name, a.reason, len(best))
	}
	c.Sample("names %q with texts %s, %s", qs[0].path, qs[0].src, qs[1].src)
}

func init() {
	register(&Check{ID: "C15", Quick: 6000, Thorough: 24000, Build: "lite", Level: "exploration", Min: 200,
		Tech: "runtime conservation monitor on every delivered file result, with independently known line kinds and author records",
		Note: "Tens of thousands of delivered file versions in full and incremental runs; sampled, not exhaustive.",
		Rule: "one evaluation is one generated repository processed in one or two runs; a situation is one file result keyed by language and totals",
		Run:  c15Case, Assume: []string{"line kinds are judged independently for 16 languages and a grammar without string literals; for other content only the conservation laws are checked"}})
	register(&Check{ID: "C16", Quick: 2800, Thorough: 12000, Build: "lite", Level: "exploration", Min: 200,
		Tech: "differential runtime monitor: each decision against an independent statement of the limits, in shuffled orders and concurrent workers",
		Note: "Tens of thousands of decisions over generated paths and contents; sampled, not exhaustive.",
		Rule: "one evaluation is 80 queries asked of three classifiers in different orders, or one repository with files at the limits; a situation is one outcome keyed by reason or language and limit probed",
		Run:  c16Case, Assume: []string{"the path classes and language names of the enry library are taken as given", "licence texts are judged by C17"}})
	register(&Check{ID: "C17", Quick: 64, Thorough: 2500, Build: "full", Level: "exploration", Min: 20,
		Tech: "runtime monitor: repeated and concurrent detection against the detector library's own scores",
		Note: "Thousands of detections over real, cut, thinned and joined licence texts; sampled, not exhaustive.",
		Rule: "one evaluation is six texts detected thirteen times each, concurrently; a situation is one answer keyed by name class, licence, reason and number of best matches",
		Run:  c17Case, Assume: []string{"the go-license-detector library's scores are taken as given"}})
}
