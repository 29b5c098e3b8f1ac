package main

// Reference model of line-level history, built from the generator's own trees
// and from git's zero-context diffs. It shares no code with the code under test.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

type Entry struct {
	Status   byte // A M D R C T
	OldMode  string
	NewMode  string
	Old, New string
	Binary   bool  // the patch is binary
	OldBin   bool  // T only: the removed side's patch is binary
	Align    []int // new line -> old line, or -1
	Adds     int
	Dels     int
	Pure     bool // no content change
}

func regular(mode string) bool { return mode == "100644" || mode == "100755" }

// cUnquote decodes a git path that may be C-quoted.
func cUnquote(s string) string {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return s
	}
	s = s[1 : len(s)-1]
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b = append(b, s[i])
			continue
		}
		i++
		switch s[i] {
		case 'a':
			b = append(b, 7)
		case 'b':
			b = append(b, 8)
		case 't':
			b = append(b, 9)
		case 'n':
			b = append(b, 10)
		case 'v':
			b = append(b, 11)
		case 'f':
			b = append(b, 12)
		case 'r':
			b = append(b, 13)
		case '0', '1', '2', '3':
			v, _ := strconv.ParseUint(s[i:i+3], 8, 8)
			b = append(b, byte(v))
			i += 2
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

const emptyTree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"

type pairKey struct{ parent, child int } // parent -1: the empty tree

// diffTree is the start of a git command that compares trees.
func (w *World) diffTree() []string {
	a := []string{"-c", "core.quotePath=true", "-c", "core.attributesFile=/dev/null", "diff-tree", "--stdin", "-r", "-l10000"}
	if w.detect == nil {
		return append(a, "-M")
	}
	return append(a, w.detect...)
}

// diffPairs asks git for the differences of all (parent, commit) pairs.
func (w *World) diffPairs() map[pairKey][]Entry {
	w.loadTrees()
	var order []pairKey
	var in strings.Builder
	for _, c := range w.Commits {
		if len(c.Parents) == 0 {
			order = append(order, pairKey{-1, c.Idx})
			fmt.Fprintf(&in, "%s %s\n", emptyTree, c.TreeSHA)
		}
		for _, p := range c.Parents {
			order = append(order, pairKey{p, c.Idx})
			fmt.Fprintf(&in, "%s %s\n", w.Commits[p].TreeSHA, c.TreeSHA)
		}
	}
	if w.extraPairs != nil {
		order = w.extraPairs
		in.Reset()
		for _, k := range order {
			ps := emptyTree
			if k.parent >= 0 {
				ps = w.Commits[k.parent].TreeSHA
			}
			fmt.Fprintf(&in, "%s %s\n", ps, w.Commits[k.child].TreeSHA)
		}
	}
	out := gitIn(w.Dir, in.String(), append(w.diffTree(), "--raw", "-p", "-U0", "--inter-hunk-context=0", "--no-color", "--no-ext-diff", "--no-textconv", "--full-index", "--src-prefix=a/", "--dst-prefix=b/", "--submodule=short", "--ignore-submodules=none")...)
	res := map[pairKey][]Entry{}
	lines := strings.Split(out, "\n")
	pos := 0
	for _, k := range order {
		ps, cs := emptyTree, w.Commits[k.child].TreeSHA
		old := map[string]*File{}
		if k.parent >= 0 {
			ps = w.Commits[k.parent].TreeSHA
			old = w.Commits[k.parent].Tree
		}
		if pos >= len(lines) || lines[pos] != ps+" "+cs {
			harnessErr("diff-tree: expected pair header, got %q", lines[pos])
		}
		pos++
		var es []Entry
		for pos < len(lines) && strings.HasPrefix(lines[pos], ":") {
			l := lines[pos]
			pos++
			t := strings.Split(l, "\t")
			h := strings.Fields(t[0])
			e := Entry{Status: h[4][0], OldMode: h[0][1:], NewMode: h[1]}
			switch e.Status {
			case 'A':
				e.New = cUnquote(t[1])
			case 'D':
				e.Old = cUnquote(t[1])
			case 'M', 'T':
				e.Old = cUnquote(t[1])
				e.New = e.Old
			case 'R', 'C':
				e.Old, e.New = cUnquote(t[1]), cUnquote(t[2])
			default:
				harnessErr("diff-tree: status %q", l)
			}
			e.Pure = h[2] == h[3]
			es = append(es, e)
		}
		if len(es) > 0 {
			if lines[pos] != "" {
				harnessErr("diff-tree: expected blank line, got %q", lines[pos])
			}
			pos++
		}
		for i := range es {
			e := &es[i]
			n := 1
			if e.Status == 'T' {
				n = 2
			}
			for s := 0; s < n; s++ {
				if pos >= len(lines) || !strings.HasPrefix(lines[pos], "diff --git ") {
					harnessErr("diff-tree: expected section for %q %q, got %q", e.Old, e.New, lines[pos])
				}
				pos++
				from := pos
				for pos < len(lines) && !strings.HasPrefix(lines[pos], "diff --git ") && !isPairHeader(lines[pos]) && !(pos == len(lines)-1 && lines[pos] == "") {
					pos++
				}
				sec := lines[from:pos]
				if e.Status == 'T' && s == 0 {
					for _, l := range sec {
						if strings.HasPrefix(l, "Binary files ") {
							e.OldBin = true
						}
					}
					continue
				}
				var of *File
				if e.Old != "" && e.Status != 'T' {
					of = old[e.Old]
				}
				var nf *File
				if e.New != "" {
					nf = w.Commits[k.child].Tree[e.New]
				}
				e.parseSection(sec, of, nf)
			}
		}
		res[k] = es
	}
	return res
}

func isPairHeader(l string) bool {
	return len(l) == 81 && l[40] == ' ' && strings.Trim(l[:40], "0123456789abcdef") == "" && strings.Trim(l[41:], "0123456789abcdef") == ""
}

func (e *Entry) parseSection(sec []string, of, nf *File) {
	nOld, nNew := 0, 0
	if of != nil {
		nOld = len(of.ContentLines())
	}
	if nf != nil {
		nNew = len(nf.ContentLines())
	}
	oi := 0
	var al []int
	copyTo := func(o int) {
		for oi < o {
			al = append(al, oi)
			oi++
		}
	}
	i := 0
	for ; i < len(sec); i++ {
		if strings.HasPrefix(sec[i], "Binary files ") {
			e.Binary = true
		}
		if strings.HasPrefix(sec[i], "@@ ") {
			break
		}
	}
	for i < len(sec) {
		if !strings.HasPrefix(sec[i], "@@ -") {
			harnessErr("diff-tree: hunk header expected, got %q", sec[i])
		}
		f := strings.Fields(sec[i])
		num := func(s string) (int, int) {
			p := strings.Split(s[1:], ",")
			a, err := strconv.Atoi(p[0])
			must(err)
			n := 1
			if len(p) > 1 {
				n, err = strconv.Atoi(p[1])
				must(err)
			}
			return a, n
		}
		oa, on := num(f[1])
		_, nn := num(f[2])
		if on == 0 {
			copyTo(oa)
		} else {
			copyTo(oa - 1)
		}
		oi += on
		for j := 0; j < nn; j++ {
			al = append(al, -1)
		}
		e.Adds += nn
		e.Dels += on
		i++
		for i < len(sec) && !strings.HasPrefix(sec[i], "@@ -") {
			i++
		}
	}
	if e.Binary {
		return
	}
	copyTo(nOld)
	if e.Status == 'D' {
		al = nil
	}
	if nf != nil && nf.Kind != KBin && len(al) != nNew {
		harnessErr("diff-tree: alignment of %q has %d lines, file has %d", e.New, len(al), nNew)
	}
	e.Align = al
}

// loadTrees resolves tree ids and, the first time, validates the model against
// what git stored.
func (w *World) loadTrees() {
	if w.Commits[len(w.Commits)-1].TreeSHA != "" {
		return
	}
	var in strings.Builder
	for _, c := range w.Commits {
		fmt.Fprintf(&in, "%s^{tree}\n", c.SHA)
	}
	out := strings.Fields(gitIn(w.Dir, in.String(), "cat-file", "--batch-check=%(objectname)"))
	if len(out) != len(w.Commits) {
		harnessErr("cat-file: %d trees for %d commits", len(out), len(w.Commits))
	}
	for i, c := range w.Commits {
		c.TreeSHA = out[i]
	}
	// self-check of the model on one commit per world
	c := w.Commits[w.rng.Intn(len(w.Commits))]
	ls := strings.Split(git(w.Dir, "ls-tree", "-r", "-z", c.SHA), "\x00")
	n := 0
	for _, l := range ls {
		if l == "" {
			continue
		}
		n++
		t := strings.SplitN(l, "\t", 2)
		f := strings.Fields(t[0])
		m := c.Tree[t[1]]
		if m == nil || m.Mode != f[0] {
			harnessErr("model: %s has %q in git but not in the model", c.SHA, l)
		}
	}
	if n != len(c.Tree) {
		harnessErr("model: %s has %d files in git, %d in the model", c.SHA, n, len(c.Tree))
	}
}

type Tri int

const (
	No Tri = iota
	Yes
	Maybe
)

// Cred is the set of commits (indices) a line may be credited to.
type Cred []int

func (c Cred) has(i int) bool {
	for _, x := range c {
		if x == i {
			return true
		}
	}
	return false
}

func (c Cred) union(o Cred) Cred {
	r := append(Cred(nil), c...)
	for _, x := range o {
		if !r.has(x) {
			r = append(r, x)
		}
	}
	return r
}

type FState struct {
	Bin  Tri
	Cred []Cred // one per line, nil for binary content
}

type Report struct {
	Removed bool
	State   *FState
	File    *File
	Kind    string // how it came to be reported, for coverage
}

type Oracle struct {
	W       *World
	Diffs   map[pairKey][]Entry
	State   []map[string]*FState
	Reports []map[string]*Report
}

func newOracle(w *World) *Oracle {
	o := &Oracle{W: w, Diffs: w.diffPairs()}
	for _, c := range w.Commits {
		o.commit(c)
	}
	return o
}

func self(n, c int) []Cred {
	r := make([]Cred, n)
	for i := range r {
		r[i] = Cred{c}
	}
	return r
}

// carry computes credits of a new version from one parent's version.
func carry(e *Entry, prev *FState, c, nNew int) []Cred {
	r := make([]Cred, nNew)
	for i := range r {
		r[i] = Cred{c}
		if i < len(e.Align) && e.Align[i] >= 0 && prev != nil && e.Align[i] < len(prev.Cred) {
			r[i] = prev.Cred[e.Align[i]]
		}
	}
	return r
}

func (o *Oracle) gitBlame(c *Commit, path string) []Cred {
	out := git(o.W.Dir, "-c", "core.attributesFile=/dev/null", "blame", "--line-porcelain", c.SHA, "--", path)
	var r []Cred
	head := true
	for _, l := range strings.Split(out, "\n") {
		if l == "" && head {
			continue
		}
		if head {
			b := o.W.BySHA[l[:40]]
			if b == nil {
				harnessErr("blame: unknown commit in %q", l)
			}
			r = append(r, Cred{b.Idx})
			head = false
			continue
		}
		if l[0] == '\t' {
			head = true
		}
	}
	return r
}

func (o *Oracle) commit(c *Commit) {
	st := map[string]*FState{}
	rep := map[string]*Report{}
	if len(c.Parents) <= 1 {
		par := map[string]*FState{}
		key := pairKey{-1, c.Idx}
		if len(c.Parents) == 1 {
			par = o.State[c.Parents[0]]
			key.parent = c.Parents[0]
		}
		for p := range c.Tree {
			if s, ok := par[p]; ok {
				st[p] = s
			}
		}
		es := o.Diffs[key]
		for i := range es {
			e := &es[i]
			if e.Status == 'D' {
				rep[e.Old] = &Report{Removed: true, Kind: "del"}
				continue
			}
			f := c.Tree[e.New]
			s := &FState{}
			var prev *FState
			if e.Status != 'A' && e.Status != 'T' {
				prev = par[e.Old]
				if prev == nil {
					harnessErr("oracle: no state for %q", e.Old)
				}
			}
			kind := string(e.Status)
			switch {
			case e.Binary:
				s.Bin = Yes
				kind += "bin"
			case prev != nil && e.Pure && prev.Bin != No:
				// content untouched: still whatever it was
				s = prev
				kind += "carrybin"
			case prev != nil && prev.Bin != No:
				bl := o.gitBlame(c, e.New)
				s.Cred = bl
				if prev.Bin == Maybe {
					for i, x := range carry(e, prev, c.Idx, len(f.ContentLines())) {
						s.Cred[i] = s.Cred[i].union(x)
					}
				}
				kind += "frombin"
			default:
				s.Cred = carry(e, prev, c.Idx, len(f.ContentLines()))
			}
			st[e.New] = s
			rep[e.New] = &Report{State: s, File: f, Kind: kind}
		}
	} else {
		byPath := map[string][]*Entry{}
		for i, p := range c.Parents {
			es := o.Diffs[pairKey{p, c.Idx}]
			for j := range es {
				e := &es[j]
				if e.Status == 'D' {
					if _, live := c.Tree[e.Old]; !live {
						rep[e.Old] = &Report{Removed: true, Kind: "mdel"}
					}
					continue
				}
				if byPath[e.New] == nil {
					byPath[e.New] = make([]*Entry, len(c.Parents))
				}
				byPath[e.New][i] = e
			}
		}
		for path, f := range c.Tree {
			es := byPath[path]
			n := len(f.ContentLines())
			s := &FState{}
			if es == nil {
				// identical in every parent
				first := true
				for _, p := range c.Parents {
					ps := o.State[p][path]
					if ps == nil {
						harnessErr("oracle: %q missing in parent", path)
					}
					if first {
						s.Bin, s.Cred = ps.Bin, append([]Cred(nil), ps.Cred...)
						first = false
						continue
					}
					s.mergeWith(ps)
				}
				st[path] = s
				continue
			}
			bin := No
			fromBin := No
			for i, e := range es {
				if e == nil {
					continue
				}
				if e.Binary {
					bin = Yes
				}
				if e.Status != 'A' && e.Status != 'T' {
					b := o.State[c.Parents[i]][e.Old].Bin
					if b == Yes || (b == Maybe && fromBin == No) {
						fromBin = b
					}
				}
			}
			kind := fmt.Sprintf("merge%d", len(c.Parents))
			if bin == Yes || fromBin == Yes {
				s.Bin = Yes
				st[path] = s
				rep[path] = &Report{State: s, File: f, Kind: kind + "bin"}
				continue
			}
			// text result; credits from every parent it may come from
			same := false
			for i, e := range es {
				if e != nil {
					continue
				}
				ps := o.State[c.Parents[i]][path]
				if ps == nil {
					harnessErr("oracle: unchanged %q missing in parent", path)
				}
				if !same {
					s.Bin, s.Cred = ps.Bin, append([]Cred(nil), ps.Cred...)
					same = true
				} else {
					s.mergeWith(ps)
				}
			}
			if same {
				if fromBin == Maybe {
					// may or may not have been reported as binary
					s.Bin = Maybe
					rep[path] = &Report{State: s, File: f, Kind: "maybe"}
				}
				st[path] = s
				continue
			}
			s.Cred = make([]Cred, n)
			for i, e := range es {
				ps := o.State[c.Parents[i]][e.Old]
				if e.Status == 'A' || e.Status == 'T' {
					ps = nil
				}
				for l := 0; l < n; l++ {
					if ps != nil && l < len(e.Align) && e.Align[l] >= 0 && e.Align[l] < len(ps.Cred) {
						s.Cred[l] = s.Cred[l].union(ps.Cred[e.Align[l]])
					}
				}
			}
			for l := range s.Cred {
				if len(s.Cred[l]) == 0 {
					s.Cred[l] = Cred{c.Idx}
				}
			}
			if fromBin == Maybe {
				s.Bin = Maybe
			}
			st[path] = s
			rep[path] = &Report{State: s, File: f, Kind: kind + "text"}
		}
	}
	o.State = append(o.State, st)
	o.Reports = append(o.Reports, rep)
}

func (s *FState) mergeWith(o *FState) {
	if s.Bin != o.Bin {
		s.Bin = Maybe
	}
	if len(s.Cred) != len(o.Cred) {
		// one side is binary: keep the side that has lines
		if len(o.Cred) > len(s.Cred) {
			s.Cred = append([]Cred(nil), o.Cred...)
		}
		return
	}
	for i := range s.Cred {
		s.Cred[i] = s.Cred[i].union(o.Cred[i])
	}
}

func trimCR(b []byte) []byte { return bytes.TrimRight(b, "\r") }
