package main

// Canonical text forms of results, for comparing runs with each other.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

func canonBlame(b *incblame.Blame) string {
	var s strings.Builder
	fmt.Fprintf(&s, "bin=%v n=%d", b.IsBinary, len(b.Lines))
	for _, l := range b.Lines {
		fmt.Fprintf(&s, "\n    %s %q", l.Commit, l.Line)
	}
	return s.String()
}

func canonResult(r process.Result) string {
	var s strings.Builder
	for _, p := range sortedKeys(r.Files) {
		fmt.Fprintf(&s, "  %q %s\n", p, canonBlame(r.Files[p]))
	}
	return s.String()
}

func canonRecords(fs map[string]*commitmeta.CommitFile) string { return dumpRecords(fs) }

func canonMeta(m commitmeta.Commit, ordinal bool) string {
	fs := m.Files
	m.Files = nil
	if !ordinal {
		m.Ordinal = 0
	}
	date := canonTime(m.Date)
	m.Date = time.Time{}
	b, err := json.Marshal(m)
	must(err)
	return string(b) + date + canonRecords(fs)
}

// canonTime renders a time that may be outside of what JSON has.
func canonTime(t time.Time) string {
	_, off := t.Zone()
	return fmt.Sprintf(" %d %d", t.Unix(), off)
}

// canonCode renders one per-file code result without the commit record it repeats.
func canonCode(r ripsrc.BlameResult) string {
	sha := r.Commit.SHA
	r.Commit = ripsrc.Commit{SHA: sha}
	dates := ""
	for i, l := range r.Lines {
		if i == 0 {
			r.Lines = append([]*ripsrc.BlameLine(nil), r.Lines...)
		}
		k := *l
		dates += canonTime(k.Date)
		k.Date = time.Time{}
		r.Lines[i] = &k
	}
	b, err := json.Marshal(r)
	must(err)
	return string(b) + dates
}

func canonCodeCommit(cc codeCommit, ordinal bool) string {
	var fs []string
	for _, f := range cc.Files {
		fs = append(fs, "\n  "+canonCode(f))
	}
	sort.Strings(fs)
	return canonMeta(cc.Commit, ordinal) + strings.Join(fs, "")
}

func digest(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

// firstDiff shows where two canonical texts part.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(end)", "(end)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			cut := func(s string) string {
				k := 0
				for k < len(p) && k < len(q) && p[k] == q[k] {
					k++
				}
				if k > 60 && len(s) >= k {
					s = "..." + s[k-60:]
				}
				if len(s) > 400 {
					s = s[:400] + "..."
				}
				return s
			}
			return fmt.Sprintf("line %d:\n  - %s\n  + %s", i+1, cut(p), cut(q))
		}
	}
	return "(equal)"
}
