package main

// Random git histories, held as an in-memory model (the model, not git, is the
// source of truth for tree contents, parents, identities and messages), and
// written to disk with one `git fast-import`.

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Kind int

const (
	KText Kind = iota
	KBin
	KLink
	KSub
)

type File struct {
	Mode  string
	Kind  Kind
	Lines []string // text only, without line terminators
	EOL   bool     // text only: the last line is terminated
	Raw   []byte   // binary content, symlink target, submodule sha
}

func (f *File) Data() []byte {
	if f.Kind != KText {
		return f.Raw
	}
	if len(f.Lines) == 0 {
		return nil
	}
	var b bytes.Buffer
	for i, l := range f.Lines {
		b.WriteString(l)
		if i < len(f.Lines)-1 || f.EOL {
			b.WriteByte('\n')
		}
	}
	return b.Bytes()
}

// ContentLines are the lines of the file as any line-based reader sees them.
func (f *File) ContentLines() []string {
	switch f.Kind {
	case KText:
		if len(f.Lines) > 0 && !f.EOL && f.Lines[len(f.Lines)-1] == "" {
			return f.Lines[:len(f.Lines)-1]
		}
		return f.Lines
	case KLink:
		return splitLines(f.Raw)
	case KSub:
		return []string{"Subproject commit " + string(f.Raw)}
	}
	return nil
}

func splitLines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	s := strings.Split(string(b), "\n")
	if s[len(s)-1] == "" {
		s = s[:len(s)-1]
	}
	return s
}

func (f *File) same(o *File) bool {
	if f == o {
		return true
	}
	if f == nil || o == nil {
		return false
	}
	return f.Mode == o.Mode && bytes.Equal(f.Data(), o.Data())
}

func (f *File) clone() *File {
	c := *f
	c.Lines = append([]string(nil), f.Lines...)
	c.Raw = append([]byte(nil), f.Raw...)
	return &c
}

type Ident struct {
	Name, Email string
	When        int64
	TZ          int    // minutes east
	Zone        string // the zone as written, if unusual
}

func (i Ident) tz() string {
	if i.Zone != "" {
		return i.Zone
	}
	s, m := "+", i.TZ
	if m < 0 {
		s, m = "-", -m
	}
	return fmt.Sprintf("%s%02d%02d", s, m/60, m%60)
}

type Commit struct {
	Idx       int
	Parents   []int
	Tree      map[string]*File
	Author    Ident
	Committer Ident
	Msg       string
	Enc       string // encoding of the names and the message in the commit object
	SHA       string
	TreeSHA   string
}

type Ref struct {
	Name   string
	Commit int
}

type World struct {
	F       Features
	Commits []*Commit
	Refs    []Ref
	Head    string // full ref name
	HeadIdx int
	BySHA   map[string]*Commit
	Dir     string // repository directory once written
	rng     *rand.Rand
	n       int
	anc     map[int]map[int]bool

	extraPairs []pairKey // pairs of commits to diff beyond parent edges
	giant      bool
	lost       []int    // commits without a reference
	block      []string // lines of a file edited before
	used       []string // names of files at some time
	detect     []string // rename and copy detection of diff-tree, -M if unset
}

type Features struct {
	NCommits  int
	PMerge    float64
	Twice     bool // some commits list a parent more than once
	PBranch   float64
	PRoot     float64
	POcto     float64
	PEmpty    float64
	PUnmerged float64
	Dups      bool
	Hostile   bool
	CR        bool
	NoEOL     bool
	Long      bool
	Utf8      bool
	Rename    bool
	Binary    bool
	Link      bool
	Sub       bool
	Chmod     bool
	TypeCh    bool
	EmptyFile bool
	EmptyTree bool
	Names     int // 0 plain, 1 +spaces, 2 +unicode, 3 +quoted specials, 4 +arrows and braces
	Skew      bool
	Idents    bool
	Msgs      bool
	Big       bool
	Bare      bool
	Langs     bool // realistic file extensions
	Pick      bool // the same change made again on other branches, and taken back
	Vast      bool // one file of more than half a million lines
	Huge      bool // a file of more lines than fit in 16 bits
	Giant     bool // a line of more than a megabyte
	Mailmap   bool // a .mailmap file
	Spaces    bool // references in other name spaces
	Reflog    bool // unreferenced commits in a log of a reference
	Detach    bool // HEAD names a commit
	Encode    bool // commits in other encodings
	Moves     bool // blocks of lines moved, copied or indented
	Reuse     bool // names that were used before
	Shallow   bool // the history is cut at some commits
	Wide      bool // commits of hundreds of files
	Flip      bool // most commits turn a binary file into text or back
}

func (f Features) String() string {
	var s []string
	add := func(n string, v bool) {
		if v {
			s = append(s, n)
		}
	}
	add("dups", f.Dups)
	add("hostile-lines", f.Hostile)
	add("cr", f.CR)
	add("noeol", f.NoEOL)
	add("long-lines", f.Long)
	add("utf8", f.Utf8)
	add("rename", f.Rename)
	add("binary", f.Binary)
	add("symlink", f.Link)
	add("submodule", f.Sub)
	add("chmod", f.Chmod)
	add("typechange", f.TypeCh)
	add("emptyfile", f.EmptyFile)
	add("emptytree", f.EmptyTree)
	add("date-skew", f.Skew)
	add("idents", f.Idents)
	add("msgs", f.Msgs)
	add("moves", f.Moves)
	add("names-used-again", f.Reuse)
	add("shallow", f.Shallow)
	add("many-files", f.Wide)
	add("binary-to-text", f.Flip)
	add("encodings", f.Encode)
	add("big", f.Big)
	add("bare", f.Bare)
	add("picks", f.Pick)
	add("vast", f.Vast)
	add("parent-twice", f.Twice)
	add("huge", f.Huge)
	add("giant-line", f.Giant)
	add("mailmap", f.Mailmap)
	add("ref-spaces", f.Spaces)
	add("reflog", f.Reflog)
	add("detached", f.Detach)
	return fmt.Sprintf("commits=%d names=%d merge=%.2f branch=%.2f root=%.2f octo=%.2f [%s]", f.NCommits, f.Names, f.PMerge, f.PBranch, f.PRoot, f.POcto, strings.Join(s, " "))
}

func caseRng(seed int64, id string, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", seed, id, n)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return rand.New(rand.NewSource(int64(x)))
}

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func randomFeatures(r *rand.Rand) Features {
	f := Features{}
	switch r.Intn(10) {
	case 0:
		f.NCommits = 1 + r.Intn(3)
	case 1, 2, 3, 4, 5, 6:
		f.NCommits = 4 + r.Intn(14)
	default:
		f.NCommits = 15 + r.Intn(35)
	}
	if chance(r, 0.75) {
		f.PMerge = 0.1 + 0.35*r.Float64()
		f.PBranch = 0.1 + 0.3*r.Float64()
	}
	if chance(r, 0.25) {
		f.PRoot = 0.08
	}
	if chance(r, 0.3) {
		f.POcto = 0.3
	}
	if chance(r, 0.5) {
		f.PEmpty = 0.1
	}
	b := func(p float64) bool { return chance(r, p) }
	f.Dups = b(0.35)
	f.Hostile = b(0.4)
	f.CR = b(0.2)
	f.NoEOL = b(0.4)
	f.Long = b(0.06)
	f.Utf8 = b(0.3)
	f.Rename = b(0.6)
	f.Binary = b(0.35)
	f.Link = b(0.2)
	f.Sub = b(0.15)
	f.Chmod = b(0.3)
	f.TypeCh = b(0.15)
	f.EmptyFile = b(0.4)
	f.EmptyTree = b(0.2)
	f.Names = []int{0, 0, 1, 1, 2, 3, 3, 4}[r.Intn(8)]
	f.Skew = b(0.3)
	f.Idents = b(0.5)
	f.Msgs = b(0.5)
	f.Big = b(0.08)
	f.Bare = b(0.3)
	f.PUnmerged = r.Float64()
	f.Twice = f.PMerge > 0 && int(f.PUnmerged*1000)%25 == 7
	f.Pick = b(0.4)
	f.Giant = b(0.006)
	f.Mailmap = b(0.1)
	f.Spaces = b(0.3)
	f.Reflog = b(0.25)
	f.Encode = b(0.12)
	f.Moves = b(0.25)
	f.Reuse = b(0.35)
	f.Shallow = b(0.07)
	if f.Wide = b(0.012); f.Wide {
		f.NCommits = min(f.NCommits, 10)
		f.Dups = false
	}
	if b(0.006) {
		f.Huge = true
		f.NCommits = min(f.NCommits, 12)
	}
	return f
}

var plainExt = []string{".go", ".py", ".txt", ".java", ".c", ".js", ".rb", ".md", ".sh", ".html", ".css", ".rs", ""}

func (w *World) newName(tree map[string]*File) string {
	if w.F.Reuse && len(w.used) > 0 && chance(w.rng, 0.4) {
		for i := 0; i < 6; i++ {
			if p := w.used[w.rng.Intn(len(w.used))]; pathFree(tree, p) {
				return p
			}
		}
	}
	p := w.freshName(tree)
	w.used = append(w.used, p)
	return p
}

func (w *World) freshName(tree map[string]*File) string {
	r := w.rng
	for try := 0; ; try++ {
		w.n++
		base := []string{"main", "util", "a", "lib", "x", "server", "Core", "data"}[r.Intn(8)]
		if chance(r, 0.5) {
			base += strconv.Itoa(w.n)
		}
		name := base + plainExt[r.Intn(len(plainExt))]
		fl := 0
		if w.F.Names > 0 {
			fl = r.Intn(w.F.Names + 1)
		}
		switch fl {
		case 1:
			name = []string{"with space " + name, name + " b", "a b/" + name, "x  y " + name, " lead" + name, "b/" + name, "a.txt b/" + name, name + " ", "a/" + name, strings.Repeat("long", 60) + name, "dir.git/" + name, strings.Repeat("d/", 130) + name}[r.Intn(12)]
			if chance(r, 0.03) {
				name = strings.Repeat("many directories/", 20+r.Intn(200)) + name
			}
		case 2:
			name = []string{"é" + name, "日本/" + name, name + "ü", "naïve " + name, "Ω/" + name + "ß", "emoji😀" + name, "e\u0301" + name, "\u00a0" + name + "\u3000", "\u2028" + name}[r.Intn(9)]
		case 3:
			name = []string{"q\"uote" + name, "back\\slash" + name, "tab\t" + name, "nl\n" + name, "\"" + name + "\"", "bell\a" + name, "q\" é " + name, "ctl\x01\x7f " + name, "\xff\xfe" + name, name + "\r", name + "\t", "\v\f" + name}[r.Intn(12)]
		case 4:
			name = []string{"a => b" + name, "{x}/" + name, "br{ace" + name, "}" + name + "{", "{{c.y}}/" + name, "-" + name, "diff --git a/" + name, "{a => b}" + name, "#" + name, "@@" + name, ":" + name, "~" + name, "dev/null" + name}[r.Intn(13)]
		}
		if fl == 4 && chance(r, 0.2) {
			name = []string{"dev/null", "null", "a", "b", "a/a", "b/b", "HEAD", "@", "-", "--", "...", ".git-", "@@@del@@@"}[r.Intn(13)]
		}
		if fl != 0 && chance(r, 0.1) && len(tree) > 0 { // made from another name
			ps := sortedPaths(tree)
			q := ps[r.Intn(len(ps))]
			name = []string{"@@@del@@@" + q, q + " ", q + " b/" + q, "a/" + q, "b/" + q, q + " => " + q, q + " and b/" + q, q + ".", q + "~", "\"" + q + "\"", q + "\t", q + ".orig", q[:(len(q)+1)/2]}[r.Intn(13)]
			if w.F.Names < 4 && strings.Contains(name, " => ") || w.F.Names < 3 && strings.ContainsAny(name, "\"\t") || !utf8.ValidString(name) {
				name = "@@@del@@@" + q
			}
			if len(q) > 120 || name == ".." || name == "." || name == ".git" || strings.HasSuffix(name, "/..") || strings.HasSuffix(name, "/.") || strings.HasSuffix(name, "/.git") {
				name = "del" + strconv.Itoa(w.n)
			}
		}
		if fl == 1 && chance(r, 0.15) && len(tree) > 0 { // differs from another name in case only
			ps := sortedPaths(tree)
			q := ps[r.Intn(len(ps))]
			name = []string{strings.ToUpper(q), strings.ToLower(q), strings.ToUpper(q[:1]) + q[1:], strings.Title(q)}[r.Intn(4)]
		}
		if fl == 0 || fl == 2 {
			switch r.Intn(4) {
			case 0:
				name = "src/" + name
			case 1:
				name = []string{"pkg/a/", "pkg/b/", "deep/er/est/", "d/"}[r.Intn(4)] + name
			}
		}
		if pathFree(tree, name) {
			return name
		}
		if try > 20 {
			name = fmt.Sprintf("uniq/%d%s", w.n, name)
			if pathFree(tree, name) {
				return name
			}
		}
	}
}

func pathFree(tree map[string]*File, p string) bool {
	if strings.Contains(p, "//") || strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
		return false
	}
	if _, ok := tree[p]; ok {
		return false
	}
	for q := range tree {
		if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
			return false
		}
	}
	return true
}

var dupPool = []string{"}", "{", "", "return", "\tif err != nil {", "\t\treturn err", "\t}", " ", "end", "// ---", "import \"fmt\""}

var hostilePool = []string{
	"diff --git a/x b/x", "@@ -1,3 +1,4 @@", "--- a/x", "+++ b/x", "-", "+", "--", "++", "\\ No newline at end of file", "commit 0123456789012345678901234567890123456789",
	"Binary files a/x and b/x differ", "rename from x", "rename to y", "new file mode 100644", "deleted file mode 100644", "index 000..111", "diff", "diff --combined x", "@@@ -1 -1 +1 @@@",
	"Author: x <y@z>", "Merge: a b", "!SHA: 123", "    indented", "\t\ttabs", "-- x", "++ y", "@", "@@", "<<<<<<< HEAD", "=======", ">>>>>>> br", "\x1b[31mred", "a\x00"[0:1], "similarity index 100%", "func f() @@ g()", "x @@ -1,3 +1,4 @@ y", "class C @@@", "_ @@", "$x = @@ @@;",
}

func (w *World) newLine() string {
	r := w.rng
	w.n++
	if w.F.Dups && chance(r, 0.45) {
		return dupPool[r.Intn(len(dupPool))]
	}
	var s string
	switch {
	case w.F.Hostile && chance(r, 0.35):
		s = hostilePool[r.Intn(len(hostilePool))]
		if !w.F.Dups || chance(r, 0.7) {
			s += fmt.Sprintf(" u%d", w.n)
		}
	case w.F.Utf8 && chance(r, 0.3):
		s = []string{"héllo %d wörld", "\xff\xfebad %d", "日本語 %d", "nbsp\u00a0%d", "ls\u2028%d", "vt\v%d\f", "cr\rmid %d", "\ufeffbom %d"}[r.Intn(8)]
		s = fmt.Sprintf(s, w.n)
	default:
		s = fmt.Sprintf([]string{"x%d := f(%[1]d)", "\tcall%d(a, b)", "// note %d", "    value%d = %[1]d", "/* c%d */", "# h%d", "line %d  "}[r.Intn(7)], w.n)
	}
	if w.F.Long && chance(r, 0.04) {
		n := []int{1095, 1096, 1097, 4093, 4096, 65535, 65536, 65537, 70000, 200000}[r.Intn(10)]
		s += strings.Repeat(string(rune('a'+r.Intn(26))), n)
	}
	if w.F.Giant && !w.giant && chance(r, 0.05) {
		w.giant = true
		s += strings.Repeat(string(rune('a'+r.Intn(26))), 1<<20+r.Intn(200000))
	}
	if w.F.CR && chance(r, 0.4) {
		s += "\r"
		if chance(r, 0.1) {
			s += "\r"
		}
	}
	return s
}

func (w *World) newText(n int) *File {
	f := &File{Mode: "100644", Kind: KText, EOL: true}
	if w.F.Chmod && chance(w.rng, 0.3) {
		f.Mode = "100755"
	}
	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, w.newLine())
	}
	if w.F.NoEOL && chance(w.rng, 0.4) {
		f.EOL = false
	}
	w.normText(f)
	return f
}

func (w *World) hugeText(n int) *File {
	f := &File{Mode: "100644", Kind: KText, EOL: true}
	k := w.rng.Intn(1000)
	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, strconv.Itoa(i+k))
	}
	return f
}

// A text file whose bytes end in an unterminated empty line does not exist.
func (w *World) normText(f *File) {
	if len(f.Lines) > 0 && !f.EOL && f.Lines[len(f.Lines)-1] == "" {
		f.EOL = true
	}
	if len(f.Lines) == 0 {
		f.EOL = true
	}
}

func (w *World) newBin() *File {
	r := w.rng
	n := 1 + r.Intn(200)
	b := make([]byte, n)
	r.Read(b)
	if chance(r, 0.3) {
		b = []byte(fmt.Sprintf("bin\n%d\nline\n", r.Intn(1000000)))
	}
	b[0] = 0
	f := &File{Mode: "100644", Kind: KBin, Raw: b}
	if w.F.Chmod && chance(r, 0.3) {
		f.Mode = "100755"
	}
	return f
}

func (w *World) newLink() *File {
	w.n++
	t := fmt.Sprintf("target%d", w.n)
	return &File{Mode: "120000", Kind: KLink, Raw: []byte(t)}
}

func (w *World) newSub() *File {
	b := make([]byte, 20)
	w.rng.Read(b)
	return &File{Mode: "160000", Kind: KSub, Raw: []byte(fmt.Sprintf("%x", b))}
}

func (w *World) newFile() *File {
	r := w.rng
	switch {
	case w.F.Binary && chance(r, 0.25), w.F.Flip && chance(r, 0.4):
		return w.newBin()
	case w.F.Link && chance(r, 0.2):
		return w.newLink()
	case w.F.Sub && chance(r, 0.2):
		return w.newSub()
	case w.F.EmptyFile && chance(r, 0.2):
		return w.newText(0)
	case w.F.Vast && !w.giant:
		w.giant = true
		return w.hugeText(530000 + r.Intn(600000))
	case w.F.Huge && chance(r, 0.3):
		return w.hugeText(33000 + r.Intn(40000))
	case w.F.Big && chance(r, 0.4):
		return w.newText(200 + r.Intn(1500))
	}
	return w.newText(1 + r.Intn(25))
}

// editText returns a new version: random insertions, deletions and
// replacements at many places; the order of kept lines never changes unless
// the history is in dups mode.
func (w *World) editText(f *File) *File {
	r := w.rng
	c := f.clone()
	edits := 1 + r.Intn(4)
	tail := 0 // a long file may be edited near its end only
	if len(c.Lines) > 60 {
		if chance(r, 0.3) {
			tail = 1 + r.Intn(len(c.Lines)/3)
		} else {
			edits = 1 + r.Intn(30)
		}
	}
	for e := 0; e < edits; e++ {
		n := len(c.Lines)
		at := 0
		if n > 0 {
			at = r.Intn(n + 1)
			if tail > 0 && tail <= n {
				at = n - r.Intn(tail+1)
			}
		}
		switch op := r.Intn(12); {
		case op < 5 || n == 0: // insert
			k := 1 + r.Intn(3)
			if chance(r, 0.05) {
				k = 20
			}
			var ins []string
			for i := 0; i < k; i++ {
				ins = append(ins, w.newLine())
			}
			if chance(r, 0.2) {
				at = n
			} else if chance(r, 0.2) {
				at = 0
			}
			c.Lines = append(c.Lines[:at:at], append(ins, c.Lines[at:]...)...)
		case op < 8: // delete
			if at == n {
				at--
			}
			k := 1 + r.Intn(3)
			if at+k > n {
				k = n - at
			}
			c.Lines = append(c.Lines[:at:at], c.Lines[at+k:]...)
		case op < 10: // replace
			if at == n {
				at--
			}
			c.Lines[at] = w.newLine()
		case op == 10 && w.F.Dups && n > 1: // move or repeat
			i, j := r.Intn(n), r.Intn(n)
			if chance(r, 0.5) {
				c.Lines[i], c.Lines[j] = c.Lines[j], c.Lines[i]
			} else {
				l := c.Lines[i]
				c.Lines = append(c.Lines[:j:j], append([]string{l}, c.Lines[j:]...)...)
			}
		case op == 11 && w.F.NoEOL:
			c.EOL = !c.EOL
		default:
			c.Lines = append(c.Lines[:at:at], append([]string{w.newLine()}, c.Lines[at:]...)...)
		}
	}
	if w.F.Moves && chance(r, 0.6) {
		w.moveBlock(c)
	}
	if w.F.CR && chance(r, 0.1) { // whole-file line ending conversion
		for i, l := range c.Lines {
			if chance(r, 0.5) {
				c.Lines[i] = strings.TrimRight(l, "\r")
			} else if !strings.HasSuffix(l, "\r") {
				c.Lines[i] = l + "\r"
			}
		}
	}
	if w.F.EmptyFile && chance(r, 0.04) {
		c.Lines = nil
	}
	w.normText(c)
	return c
}

// moveBlock moves, copies or indents some lines, or inserts a block of lines of a file that was edited before.
func (w *World) moveBlock(c *File) {
	r := w.rng
	n := len(c.Lines)
	if n > 0 {
		k := min(n, 1+r.Intn(10))
		at := r.Intn(n - k + 1)
		block := append([]string(nil), c.Lines[at:at+k]...)
		switch op := r.Intn(6); op {
		case 0, 1: // move
			rest := append(c.Lines[:at:at], c.Lines[at+k:]...)
			to := r.Intn(len(rest) + 1)
			c.Lines = append(rest[:to:to], append(block, rest[to:]...)...)
		case 2: // copy
			to := r.Intn(n + 1)
			c.Lines = append(c.Lines[:to:to], append(block, c.Lines[to:]...)...)
		case 3: // indent or take the indentation back
			c.Lines = append([]string(nil), c.Lines...)
			for i := at; i < at+k; i++ {
				if t := strings.TrimLeft(c.Lines[i], "\t "); t != c.Lines[i] && chance(r, 0.5) {
					c.Lines[i] = t
				} else {
					c.Lines[i] = []string{"\t", "    ", " "}[r.Intn(3)] + c.Lines[i]
				}
			}
		case 4: // space inside or at the end
			c.Lines = append([]string(nil), c.Lines...)
			for i := at; i < at+k; i++ {
				if strings.HasSuffix(c.Lines[i], "\r") {
					continue
				}
				if chance(r, 0.5) {
					c.Lines[i] += []string{" ", "\t", "  "}[r.Intn(3)]
				} else {
					c.Lines[i] = strings.Replace(c.Lines[i], " ", "  ", 1)
				}
			}
		case 5: // from another file
			if b := w.block; len(b) > 0 {
				to := r.Intn(n + 1)
				c.Lines = append(c.Lines[:to:to], append(append([]string(nil), b...), c.Lines[to:]...)...)
			}
		}
		if chance(r, 0.5) {
			w.block = block
		}
	}
}

func sortedPaths(t map[string]*File) []string {
	p := make([]string, 0, len(t))
	for k := range t {
		p = append(p, k)
	}
	sort.Strings(p)
	return p
}

func cloneTree(t map[string]*File) map[string]*File {
	c := make(map[string]*File, len(t))
	for k, v := range t {
		c[k] = v
	}
	return c
}

func (w *World) mutate(tree map[string]*File) map[string]*File {
	r := w.rng
	t := cloneTree(tree)
	ops := 1 + r.Intn(3)
	if chance(r, 0.1) {
		ops += 4
	}
	if w.F.Wide && chance(r, 0.65) {
		w.wide(t)
	}
	if w.F.Flip && chance(r, 0.6) {
		for _, p := range sortedPaths(t) {
			if t[p].Kind == KBin {
				t[p] = w.newText(1 + r.Intn(8))
				break
			}
		}
	}
	for o := 0; o < ops; o++ {
		ps := sortedPaths(t)
		if len(ps) == 0 || (len(ps) < 2 && chance(r, 0.5)) {
			t[w.newName(t)] = w.newFile()
			continue
		}
		p := ps[r.Intn(len(ps))]
		f := t[p]
		switch op := r.Intn(100); {
		case op < 45: // edit
			switch f.Kind {
			case KText:
				if len(f.Lines) > 30000 && chance(r, 0.3) {
					t[p] = w.newText(3)
					break
				}
				t[p] = w.editText(f)
			case KBin:
				if chance(r, 0.4) {
					t[p] = w.newText(1 + r.Intn(8))
				} else {
					t[p] = w.newBin()
				}
			case KLink:
				t[p] = w.newLink()
			case KSub:
				t[p] = w.newSub()
			}
		case op < 60:
			if len(ps) < 14 {
				t[w.newName(t)] = w.newFile()
			}
		case op < 68: // delete
			delete(t, p)
		case op < 80 && w.F.Rename:
			delete(t, p)
			np := w.newName(t)
			if i := strings.LastIndex(p, "/"); i > 0 && chance(r, 0.4) {
				cand := []string{"", "new/", p[:i] + "/sub/"}[r.Intn(3)] + p[i+1:]
				if pathFree(t, cand) {
					np = cand
				}
			}
			if w.F.Reuse && chance(r, 0.2) { // a directory in place of the file, or a file in place of its directory
				cand := p + "/in" + plainExt[r.Intn(len(plainExt))]
				if i := strings.Index(p, "/"); i > 0 && chance(r, 0.5) {
					cand = p[:i]
				}
				if pathFree(t, cand) {
					np = cand
					w.used = append(w.used, cand)
				}
			}
			nf := f
			if f.Kind == KText && chance(r, 0.5) && len(f.Lines) > 6 {
				nf = f.clone()
				at := r.Intn(len(nf.Lines))
				nf.Lines[at] = w.newLine()
				w.normText(nf)
			}
			t[np] = nf
			if chance(r, 0.15) && pathFree(t, p) { // old name re-used at once
				t[p] = w.newFile()
			}
		case op < 84 && w.F.Chmod && (f.Kind == KText || f.Kind == KBin):
			c := f.clone()
			if c.Mode == "100644" {
				c.Mode = "100755"
			} else {
				c.Mode = "100644"
			}
			t[p] = c
		case op < 87 && w.F.Binary:
			if f.Kind == KText {
				t[p] = w.newBin()
			} else if f.Kind == KBin {
				t[p] = w.newText(r.Intn(8))
			}
		case op < 91 && w.F.TypeCh:
			switch f.Kind {
			case KText:
				if w.F.Sub && chance(r, 0.3) {
					t[p] = w.newSub()
				} else {
					t[p] = w.newLink()
				}
			case KLink, KSub:
				t[p] = w.newText(1 + r.Intn(5))
			}
		case op < 94: // copy
			if len(ps) < 14 && f.Kind == KText {
				c := f
				if chance(r, 0.5) {
					c = w.editText(f)
				}
				t[w.newName(t)] = c
			}
		case op < 96 && len(ps) > 1: // swap contents of two files
			q := ps[r.Intn(len(ps))]
			t[p], t[q] = t[q], t[p]
		case op == 96 && w.F.EmptyTree:
			t = map[string]*File{}
		default:
			if f.Kind == KText {
				t[p] = w.editText(f)
			}
		}
	}
	return t
}

// wide changes hundreds of files at once.
func (w *World) wide(t map[string]*File) {
	r := w.rng
	var ps []string
	for _, p := range sortedPaths(t) {
		if strings.HasPrefix(p, "wide") {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		if !pathFree(t, "wide0") {
			return
		}
		n, lines := 150+r.Intn(300), 5
		if chance(r, 0.5) {
			lines = 15
		}
		if chance(r, 0.08) { // more than what git pairs by default
			n, lines = 1150+r.Intn(200), 15
		}
		for i := n; i > 0; i-- {
			w.n++
			f := &File{Mode: "100644", Kind: KText, EOL: true}
			for k := r.Intn(lines); k >= 0; k-- {
				f.Lines = append(f.Lines, fmt.Sprintf("%d wide line %d", w.n*7919, k))
			}
			t[fmt.Sprintf("wide0/%d/f%d%s", i%7, i, plainExt[r.Intn(len(plainExt))])] = f
		}
		return
	}
	op := r.Intn(6)
	to := fmt.Sprintf("wide%d", 1+r.Intn(3))
	for _, p := range ps {
		if chance(r, 0.1) || t[p].Kind != KText {
			continue
		}
		switch op {
		case 0:
			t[p] = w.editText(t[p])
		case 1:
			delete(t, p)
		default:
			f := t[p]
			np := to + p[strings.Index(p, "/"):]
			if op == 5 { // git pairs equal base names without looking at the others
				w.n++
				np = fmt.Sprintf("%s/%d/g%d%s", to, w.n%3, w.n, filepath.Ext(p))
			}
			if pathFree(t, np) {
				delete(t, p)
				t[np] = f
				if op > 3 { // changed on the way
					w.n++
					g := *f
					g.Lines = append(append([]string(nil), f.Lines...), fmt.Sprintf("moved %d", w.n))
					t[np] = &g
				}
			}
		}
	}
}

// pick repeats the change of another commit, or takes it back.
func (w *World) pick(tree map[string]*File) map[string]*File {
	r := w.rng
	q := w.Commits[r.Intn(len(w.Commits))]
	if n := len(w.Commits); n > 6 && chance(r, 0.7) {
		q = w.Commits[n-1-r.Intn(6)]
	}
	if len(q.Parents) == 0 {
		return tree
	}
	from, to := w.Commits[q.Parents[0]].Tree, q.Tree
	if chance(r, 0.3) {
		from, to = to, from
	}
	t := cloneTree(tree)
	all := cloneTree(from)
	for k, v := range to {
		all[k] = v
	}
	for _, p := range sortedPaths(all) {
		a, b := from[p], to[p]
		if a.same(b) {
			continue
		}
		old := t[p]
		delete(t, p)
		if b != nil && (old != nil || pathFree(t, p)) {
			t[p] = b
		} else if b != nil && old != nil {
			t[p] = old
		}
	}
	return t
}

func (w *World) mergeText(a, b *File) *File {
	r := w.rng
	inA := map[string]int{}
	for i, l := range a.Lines {
		if _, dup := inA[l]; dup {
			inA[l] = -1
		} else {
			inA[l] = i
		}
	}
	cnt := map[string]int{}
	for _, l := range b.Lines {
		cnt[l]++
	}
	last := -1
	var commons []string
	for _, l := range b.Lines {
		if i, ok := inA[l]; ok && i >= 0 && cnt[l] == 1 {
			if i < last {
				if chance(r, 0.5) {
					return a
				}
				return b
			}
			last = i
			commons = append(commons, l)
		}
	}
	var out []string
	keep := func(l string) {
		if chance(r, 0.93) {
			out = append(out, l)
		}
		if chance(r, 0.05) {
			out = append(out, w.newLine())
		}
	}
	i, j := 0, 0
	for _, c := range append(commons, "\x00end") {
		for i < len(a.Lines) && a.Lines[i] != c {
			keep(a.Lines[i])
			i++
		}
		for j < len(b.Lines) && b.Lines[j] != c {
			keep(b.Lines[j])
			j++
		}
		if c != "\x00end" {
			out = append(out, c)
			i++
			j++
		}
	}
	c := a.clone()
	c.Lines = out
	if chance(r, 0.5) {
		c.EOL, c.Mode = b.EOL, b.Mode
	}
	w.normText(c)
	return c
}

func (w *World) mergeTrees(a, b map[string]*File) map[string]*File {
	r := w.rng
	t := map[string]*File{}
	all := cloneTree(a)
	for k, v := range b {
		all[k] = v
	}
	for _, p := range sortedPaths(all) {
		fa, fb := a[p], b[p]
		var f *File
		switch {
		case fa == nil || fb == nil:
			f = fa
			if f == nil {
				f = fb
			}
			if chance(r, 0.25) {
				f = nil
			}
		case fa.same(fb):
			f = fa
			if chance(r, 0.04) && f.Kind == KText {
				f = w.editText(f)
			}
		case fa.Kind == KText && fb.Kind == KText && chance(r, 0.6):
			f = w.mergeText(fa, fb)
		default:
			f = fa
			if chance(r, 0.5) {
				f = fb
			}
			if chance(r, 0.15) {
				f = w.newFile()
			}
		}
		if f != nil && pathFree(t, p) {
			t[p] = f
		}
	}
	if chance(r, 0.12) {
		t = w.mutate(t)
	}
	return t
}

var oddNames = []string{"Al Ice", "Bób Ünïcode", "", "日本 太郎", "O'Neil, Jr.", "\"Quoted\" Name", "a", "name with  two spaces", "!SHA: x", "Merge: y", "tab\tname", "(paren) [bracket]", "J. R. \\ Back", "diff", "'single'", "commit 123",
	"\u3000wide\u3000", "\u00a0nbsp\u00a0", "\u200bzero\u200b", "\ufeffbom", "e\u0301 nfd", "@@@", "!AName: y", "%an %n", strings.Repeat("long name ", 30) + "end", "back\\", "GitHub", "dependabot[bot]", "root", "unknown"}
var oddEmails = []string{"a@example.com", "", "UPPER@EX.COM", "with space@x", "no-at", "ünï@ex.com", "[br]@x", "a+b@c.d", "!Author: e", "\u00a0nb@x", "@@@", strings.Repeat("l", 300) + "@x", "%ae", "'q'@x", "\"q\"@x", "noreply@github.com", "49699333+dependabot[bot]@users.noreply.github.com", "root@localhost"}
var oddTZ = []int{0, 60, -210, 330, 345, 780, -720, 840, -480, 1, -1}

func (w *World) ident(when int64) Ident {
	r := w.rng
	id := Ident{Name: []string{"User1", "User2", "User3"}[r.Intn(3)], When: when, TZ: 0}
	id.Email = strings.ToLower(id.Name) + "@example.com"
	if w.F.Idents && chance(r, 0.9) {
		id.Name = oddNames[r.Intn(len(oddNames))]
		id.Email = oddEmails[r.Intn(len(oddEmails))]
		if id.Name == "GitHub" || id.Email == "noreply@github.com" && chance(r, 0.6) { // what its web interface makes
			id.Name, id.Email = "GitHub", "noreply@github.com"
		}
		id.TZ = oddTZ[r.Intn(len(oddTZ))]
		if chance(r, 0.02) { // there are such commits in the wild
			id.Zone = []string{"+051800", "-7530", "+2500", "+0099", "+5180", "-2400", "+9999"}[r.Intn(7)]
			n, _ := strconv.Atoi(id.Zone[1:])
			id.TZ = n/100*60 + n%100
			if id.Zone[0] == '-' {
				id.TZ = -id.TZ
			}
		}
	}
	return id
}

var oddMsgs = []string{
	"", "\n", "c", "subject only\n", "subject\n\nbody line\nmore\n", "two line\nsubject\n\nbody", "diff --git a/x b/x\n\n@@ -1 +1 @@\n", "commit 0123456789012345678901234567890123456789\n",
	"Merge: aa bb\n", "!SHA: ffffffffffffffffffffffffffffffffffffffff\n", "!Message: nested\n\n!Date: x\n", "tabs\tin\tsubject\n", "1\t2\tfile.go\n", ":100644 100644 a b M\tx\n", "  leading space\n", "trailing space   \n",
	"\n\nblank first\n", "unicode é 日本\n", "subject\n\n\n\nbody far\n", "cr in subject\r\nrest\r\n", "quote \" back \\ slash\n", "(from 123)\n", "Author: someone\n", "subject\n\n diff x\ncommit y\n", "%H %s percent\n", "a\x01b\n",
	"\u3000wide space\u3000\n", "\u00a0nbsp\u00a0\n\nbody", "\v\f\n", "tail\t\n", "@@@ a @@@\n", "-\n", "!\n", "\t:100644 100644 a b M\tx\n\n1\t2\ta\n", "fixup! x\n", "#comment\n", "\u2028line sep\u2029\n", "a\rb\n", "\"\n", "nul\x00 byte\n", "nul\n\nin\x00body\n",
}

func (w *World) message() string {
	r := w.rng
	w.n++
	if w.F.Msgs && chance(r, 0.7) {
		m := oddMsgs[r.Intn(len(oddMsgs))]
		if chance(r, 0.02) {
			m = strings.Repeat("long subject ", []int{400, 400, 6000, 90000}[r.Intn(4)]) + m
		}
		return m
	}
	return fmt.Sprintf("change %d\n", w.n)
}

func newWorld(r *rand.Rand, f Features) *World {
	w := &World{F: f, rng: r}
	return w
}

func (w *World) addCommit(parents []int, tree map[string]*File) *Commit {
	r := w.rng
	i := len(w.Commits)
	base := int64(1500000000) + int64(i)*61
	if w.F.Skew {
		base += int64(r.Intn(2000) - 1000)
	}
	c := &Commit{Idx: i, Parents: parents, Tree: tree, Committer: w.ident(base), Msg: w.message()}
	ad := base
	if chance(r, 0.3) {
		ad -= int64(r.Intn(100000))
	}
	c.Author = c.Committer
	if w.F.Idents || chance(r, 0.3) {
		c.Author = w.ident(ad)
	}
	if w.F.Idents && chance(r, 0.03) {
		c.Author.When = []int64{0, 1, 86399, 4102444800, 951782400, 253402300800, 9999999999999}[r.Intn(7)]
		if c.Author.When < 86400 && c.Author.TZ < 0 {
			c.Author.TZ, c.Author.Zone = -c.Author.TZ, "" // git refuses to show local times before 1970
		}
	}
	if w.F.Encode && chance(r, 0.5) {
		if chance(r, 0.7) {
			c.Author.Name = []string{"J\u00f6rg M\u00fcller", "\u00c7elik \u00a0 \u00ff", "Ren\u00e9"}[r.Intn(3)]
		}
		if chance(r, 0.5) {
			c.Msg = []string{"caf\u00e9\n", "\u00e0 \u00a9 subject\n\nb\u00f6dy\n", "\u00ff\n"}[r.Intn(3)]
		}
		c.Enc = []string{"ISO-8859-1", "ISO-8859-1", "raw"}[r.Intn(3)]
		if !latin(c.Author.Name + c.Author.Email + c.Committer.Name + c.Committer.Email + c.Msg) {
			c.Enc = ""
		}
		if c.Enc == "raw" {
			for _, x := range []*string{&c.Author.Name, &c.Author.Email, &c.Committer.Name, &c.Committer.Email, &c.Msg} {
				*x = c.coded(*x)
			}
			c.Enc = ""
		}
	}
	w.Commits = append(w.Commits, c)
	return c
}

func latin(s string) bool {
	for _, c := range s {
		if c > 0xff || c >= 0x80 && c < 0xa0 {
			return false
		}
	}
	return true
}

// coded returns a string as it is written to the commit object.
func (c *Commit) coded(s string) string {
	if c.Enc == "" {
		return s
	}
	var b []byte
	for _, x := range s {
		b = append(b, byte(x))
	}
	return string(b)
}

func (w *World) ancestors(i int) map[int]bool {
	if w.anc == nil {
		w.anc = map[int]map[int]bool{}
	}
	if a, ok := w.anc[i]; ok {
		return a
	}
	a := map[int]bool{i: true}
	st := []int{i}
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range w.Commits[c].Parents {
			if !a[p] {
				a[p] = true
				st = append(st, p)
			}
		}
	}
	w.anc[i] = a
	return a
}

func removeInt(a []int, v int) []int {
	var o []int
	for _, x := range a {
		if x != v {
			o = append(o, x)
		}
	}
	return o
}

// build generates the whole history.
func (w *World) build() {
	r := w.rng
	var tips []int
	first := map[string]*File{}
	if !w.F.EmptyTree || chance(r, 0.5) {
		for i := 0; i < 1+r.Intn(4); i++ {
			first[w.newName(first)] = w.newFile()
		}
	}
	if w.F.Mailmap && pathFree(first, ".mailmap") {
		first[".mailmap"] = mailmapFile()
	}
	w.addCommit(nil, first)
	tips = []int{0}
	for len(w.Commits) < w.F.NCommits {
		x := r.Float64()
		switch {
		case x < w.F.PRoot:
			t := map[string]*File{}
			for i := 0; i < r.Intn(4); i++ {
				t[w.newName(t)] = w.newFile()
			}
			c := w.addCommit(nil, t)
			tips = append(tips, c.Idx)
		case x < w.F.PRoot+w.F.PMerge && len(w.Commits) > 1 && (len(tips) > 1 || chance(r, 0.2)):
			n := 2
			if chance(r, w.F.POcto) {
				n = 3 + r.Intn(2)
				if chance(r, 0.15) {
					n = 5 + r.Intn(16)
				}
			}
			var ps []int
			seen := map[int]bool{}
			pool := append([]int(nil), tips...)
			r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			for _, p := range pool {
				if len(ps) < n {
					ps = append(ps, p)
					seen[p] = true
				}
			}
			for k := 0; len(ps) < n && k < 2+n; k++ {
				p := r.Intn(len(w.Commits))
				if !seen[p] {
					seen[p] = true
					ps = append(ps, p)
				}
			}
			if len(ps) < 2 {
				continue
			}
			twin := ""
			if w.F.Pick && chance(r, 0.4) {
				twin = w.twin(ps, &tips)
			}
			t := w.Commits[ps[0]].Tree
			for _, p := range ps[1:] {
				switch {
				case chance(r, 0.1): // ours
				case chance(r, 0.06): // theirs
					t = w.Commits[p].Tree
				default:
					t = w.mergeTrees(t, w.Commits[p].Tree)
				}
			}
			if w.F.Twice && chance(r, 0.4) {
				ps = append(ps, ps[r.Intn(len(ps))])
				r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			}
			c := w.addCommit(ps, t)
			for _, p := range ps {
				if chance(r, 0.85) {
					tips = removeInt(tips, p)
				}
			}
			if f := c.Tree[twin]; f != nil && f.Kind == KText && chance(r, 0.8) {
				t := cloneTree(c.Tree)
				t[twin] = w.editText(f)
				c = w.addCommit([]int{c.Idx}, t)
			}
			tips = append(tips, c.Idx)
		default:
			p := tips[r.Intn(len(tips))]
			if chance(r, w.F.PBranch) {
				p = r.Intn(len(w.Commits))
				if chance(r, 0.6) && len(w.Commits) > 5 {
					p = len(w.Commits) - 1 - r.Intn(5)
				}
			}
			t := w.Commits[p].Tree
			if w.F.Pick && chance(r, 0.25) {
				t = w.pick(t)
				if chance(r, 0.2) {
					t = w.mutate(t)
				}
			} else if !chance(r, w.F.PEmpty) {
				t = w.mutate(t)
			}
			ps := []int{p}
			if w.F.Twice && chance(r, 0.15) {
				ps = append(ps, p)
			}
			c := w.addCommit(ps, t)
			tips = append(removeInt(tips, p), c.Idx)
		}
	}
	if n := len(w.Commits); n > 9 && chance(r, 0.06) { // a merge of many
		ps := r.Perm(n)
		if k := 9 + r.Intn(32); k < n {
			ps = ps[:k]
		}
		w.addCommit(ps, w.mutate(w.Commits[ps[r.Intn(len(ps))]].Tree))
	}
	// refs
	leaf := map[int]bool{}
	for i := range w.Commits {
		leaf[i] = true
	}
	for _, c := range w.Commits {
		for _, p := range c.Parents {
			delete(leaf, p)
		}
	}
	var leaves []int
	for i := range w.Commits {
		if leaf[i] {
			leaves = append(leaves, i)
		}
	}
	head := leaves[r.Intn(len(leaves))]
	best := 0
	for _, l := range leaves {
		if n := len(w.ancestors(l)); n > best {
			best = n
			if chance(r, 0.8) {
				head = l
			}
		}
	}
	w.HeadIdx = head
	w.Head = "refs/heads/" + []string{"master", "main", "trunk", "dev/main"}[r.Intn(4)]
	w.Refs = append(w.Refs, Ref{w.Head, head})
	if w.F.Detach {
		w.Refs = nil
	}
	k := 0
	for _, l := range leaves {
		if l == head {
			continue
		}
		if !chance(r, 0.9) {
			w.lost = append(w.lost, l)
			continue
		}
		k++
		name := fmt.Sprintf("refs/heads/br%d", k)
		if w.F.Spaces && chance(r, 0.5) {
			name = fmt.Sprintf([]string{"refs/pull/%d/head", "refs/tags/t%d", "refs/remotes/origin/o%d", "refs/notes/n%d", "refs/original/refs/heads/x%d", "refs/x%d", "refs/stash-%d", "refs/changes/01/%d/1", "refs/bisect/bad%d", "refs/merge-requests/%d/head", "refs/prefetch/remotes/origin/p%d", "refs/replaced/%d"}[r.Intn(12)], k)
		}
		w.Refs = append(w.Refs, Ref{name, l})
	}
	if len(w.lost) == 0 && w.F.Reflog && len(w.Refs) > 1 {
		i := 1 + r.Intn(len(w.Refs)-1)
		w.lost = append(w.lost, w.Refs[i].Commit)
		w.Refs = append(w.Refs[:i:i], w.Refs[i+1:]...)
	}
}

// mailmapFile maps the identities the generator uses to others.
func mailmapFile() *File {
	f := &File{Mode: "100644", Kind: KText, EOL: true}
	for _, n := range []string{"user1", "user2", "user3"} {
		f.Lines = append(f.Lines, "Mapped "+n+" <mapped-"+n+"@example.net> <"+n+"@example.com>")
	}
	for i, e := range oddEmails {
		if e != "" && !strings.ContainsAny(e, "<>\n\r\x00#") {
			f.Lines = append(f.Lines, fmt.Sprintf("Mapped %d <mapped%d@example.net> <%s>", i, i, e))
		}
	}
	return f
}

// writeLogs records the unreferenced commits in logs of references, and puts
// .mailmap where git looks for it.
func (w *World) writeLogs() error {
	if w.F.Mailmap && !w.F.Bare {
		if err := os.WriteFile(filepath.Join(w.Dir, ".mailmap"), mailmapFile().Data(), 0644); err != nil {
			return err
		}
	}
	if w.F.Detach {
		if err := os.WriteFile(filepath.Join(w.gitDir(), "HEAD"), []byte(w.Commits[w.HeadIdx].SHA+"\n"), 0644); err != nil {
			return err
		}
	}
	if !w.F.Reflog {
		return nil
	}
	var b strings.Builder
	prev := strings.Repeat("0", 40)
	for i, l := range append(append([]int(nil), w.lost...), w.HeadIdx) {
		sha := w.Commits[l].SHA
		fmt.Fprintf(&b, "%s %s A U Thor <a@x.org> %d +0000\treset: moving to %d\n", prev, sha, 1500000000+i, l)
		prev = sha
	}
	for _, n := range []string{"HEAD", w.Head} {
		p := filepath.Join(w.gitDir(), "logs", n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(b.String()), 0644); err != nil {
			return err
		}
	}
	return nil
}

// twin makes the same new version of one file on each of the given commits.
func (w *World) twin(ps []int, tips *[]int) string {
	r := w.rng
	var names []string
	for _, p := range sortedPaths(w.Commits[ps[0]].Tree) {
		ok := true
		for _, q := range ps {
			f := w.Commits[q].Tree[p]
			ok = ok && f != nil && f.Kind == KText
		}
		if ok {
			names = append(names, p)
		}
	}
	if len(names) == 0 {
		return ""
	}
	name := names[r.Intn(len(names))]
	f := w.editText(w.Commits[ps[r.Intn(len(ps))]].Tree[name])
	for i, p := range ps {
		if w.Commits[p].Tree[name].same(f) {
			continue
		}
		t := cloneTree(w.Commits[p].Tree)
		t[name] = f
		c := w.addCommit([]int{p}, t)
		*tips = append(removeInt(*tips, p), c.Idx)
		ps[i] = c.Idx
	}
	return name
}

// ---- writing to disk

func fiQuote(p string) string {
	plain := p != "" && p[0] != '"' && !strings.ContainsAny(p, "\n\"\\ ")
	for i := 0; i < len(p); i++ {
		if p[i] < 0x20 || p[i] == 0x7f {
			plain = false
		}
	}
	if plain {
		return p
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func identLine(kind string, id Ident) string {
	n := id.Name
	if n != "" {
		n += " "
	}
	return fmt.Sprintf("%s %s<%s> %d %s\n", kind, n, id.Email, id.When, id.tz())
}

func (w *World) gitDir() string {
	if w.F.Bare {
		return w.Dir
	}
	return filepath.Join(w.Dir, ".git")
}

func initRepo(dir string, bare bool, head string) error {
	gd := dir
	if !bare {
		gd = filepath.Join(dir, ".git")
	}
	for _, d := range []string{"objects/info", "objects/pack", "refs/heads", "refs/tags"} {
		if err := os.MkdirAll(filepath.Join(gd, d), 0755); err != nil {
			return err
		}
	}
	cfg := "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n\tlogallrefupdates = false\n[fastimport]\n\tunpackLimit = 1\n[gc]\n\tauto = 0\n"
	if bare {
		cfg = strings.Replace(cfg, "bare = false", "bare = true", 1)
	}
	if err := os.WriteFile(filepath.Join(gd, "config"), []byte(cfg), 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(gd, "HEAD"), []byte("ref: "+head+"\n"), 0644)
}

func (w *World) emitCommit(b *bytes.Buffer, c *Commit) {
	if len(c.Parents) == 0 {
		b.WriteString("reset refs/heads/zz-gen\n\n")
	}
	fmt.Fprintf(b, "commit refs/heads/zz-gen\nmark :%d\n", c.Idx+1)
	b.WriteString(c.coded(identLine("author", c.Author)))
	b.WriteString(c.coded(identLine("committer", c.Committer)))
	if c.Enc != "" {
		b.WriteString("encoding " + c.Enc + "\n")
	}
	msg := c.coded(c.Msg)
	fmt.Fprintf(b, "data %d\n%s\n", len(msg), msg)
	base := map[string]*File{}
	for i, p := range c.Parents {
		if i == 0 {
			fmt.Fprintf(b, "from :%d\n", p+1)
			base = w.Commits[p].Tree
		} else {
			fmt.Fprintf(b, "merge :%d\n", p+1)
		}
	}
	for _, p := range sortedPaths(base) {
		if _, ok := c.Tree[p]; !ok {
			fmt.Fprintf(b, "D %s\n", fiQuote(p))
		}
	}
	for _, p := range sortedPaths(c.Tree) {
		f := c.Tree[p]
		if f.same(base[p]) {
			continue
		}
		if f.Kind == KSub {
			fmt.Fprintf(b, "M 160000 %s %s\n", f.Raw, fiQuote(p))
			continue
		}
		d := f.Data()
		fmt.Fprintf(b, "M %s inline %s\ndata %d\n", f.Mode, fiQuote(p), len(d))
		b.Write(d)
		b.WriteByte('\n')
	}
	b.WriteByte('\n')
}

// makeShallow cuts the history at some commits, the way shallow clones do.
func (w *World) makeShallow() {
	var b strings.Builder
	for n := 1 + w.rng.Intn(4); n > 0; n-- {
		c := w.Commits[w.rng.Intn(len(w.Commits))]
		if len(c.Parents) > 0 {
			c.Parents = nil
			b.WriteString(c.SHA + "\n")
		}
	}
	w.anc = nil
	if b.Len() > 0 {
		must(os.WriteFile(filepath.Join(w.gitDir(), "shallow"), []byte(b.String()), 0644))
	}
}

func (w *World) write(dir string) error {
	w.Dir = dir
	if err := initRepo(dir, w.F.Bare, w.Head); err != nil {
		return err
	}
	if err := w.importFrom(0); err != nil {
		return err
	}
	return w.writeLogs()
}

// importFrom writes commits[from:] and all refs.
func (w *World) importFrom(from int) error {
	var b bytes.Buffer
	marks := w.Dir + ".marks"
	for _, c := range w.Commits[from:] {
		w.emitCommit(&b, c)
	}
	for _, r := range w.Refs {
		fmt.Fprintf(&b, "reset %s\nfrom :%d\n\n", r.Name, r.Commit+1)
	}
	b.WriteString("reset refs/heads/zz-gen\nfrom 0000000000000000000000000000000000000000\n\n")
	args := []string{"fast-import", "--quiet", "--force", "--date-format=raw-permissive", "--export-marks=" + marks}
	if from > 0 {
		args = append(args, "--import-marks="+marks)
	}
	cmd := exec.Command(realGit, args...)
	cmd.Dir = w.Dir
	cmd.Stdin = &b
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("fast-import: %v: %s", err, out)
	}
	m, err := os.ReadFile(marks)
	if err != nil {
		return err
	}
	w.BySHA = map[string]*Commit{}
	for _, l := range strings.Split(strings.TrimSpace(string(m)), "\n") {
		p := strings.SplitN(l, " ", 2)
		n, err := strconv.Atoi(strings.TrimPrefix(p[0], ":"))
		if err != nil {
			return fmt.Errorf("marks: %q", l)
		}
		w.Commits[n-1].SHA = p[1]
		w.BySHA[p[1]] = w.Commits[n-1]
	}
	for _, c := range w.Commits {
		if c.SHA == "" {
			return fmt.Errorf("commit %d was not imported", c.Idx)
		}
	}
	return nil
}
