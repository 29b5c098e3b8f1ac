package main

// C22: results do not depend on the user's git configuration.
// C23: analysed repositories are left untouched.

import (
	"crypto/sha1"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type setting struct {
	Key  string
	Vals []string
	Env  bool
}

// settings that change what some git command prints. $D is the directory for
// helper files of the case.
var settings = []setting{
	{Key: "color.ui", Vals: []string{"always", "auto", "false"}},
	{Key: "color.diff", Vals: []string{"always", "true"}},
	{Key: "color.branch", Vals: []string{"always"}},
	{Key: "color.blame.highlightRecent", Vals: []string{"blue,12 month ago,white,1 month ago,red"}},
	{Key: "color.pager", Vals: []string{"true"}},
	{Key: "core.abbrev", Vals: []string{"4", "7", "12", "40", "no"}},
	{Key: "core.quotePath", Vals: []string{"true", "false"}},
	{Key: "core.attributesFile", Vals: []string{"$D/attrs"}},
	{Key: "core.bigFileThreshold", Vals: []string{"1", "30", "1k"}},
	{Key: "core.pager", Vals: []string{"less", "false", "$D/no-such-pager"}},
	{Key: "core.notesRef", Vals: []string{"refs/notes/x"}},
	{Key: "core.whitespace", Vals: []string{"trailing-space,tab-in-indent"}},
	{Key: "core.autocrlf", Vals: []string{"true", "input"}},
	{Key: "core.eol", Vals: []string{"crlf"}},
	{Key: "core.warnAmbiguousRefs", Vals: []string{"false", "true"}},
	{Key: "core.ignoreCase", Vals: []string{"true"}},
	{Key: "core.precomposeUnicode", Vals: []string{"true"}},
	{Key: "core.commentChar", Vals: []string{"!"}},
	{Key: "diff.algorithm", Vals: []string{"patience", "minimal", "histogram"}},
	{Key: "diff.indentHeuristic", Vals: []string{"false", "true"}},
	{Key: "diff.context", Vals: []string{"0", "1", "10", "1000"}},
	{Key: "diff.interHunkContext", Vals: []string{"1", "10", "1000"}},
	{Key: "diff.suppressBlankEmpty", Vals: []string{"true"}},
	{Key: "diff.noprefix", Vals: []string{"true"}},
	{Key: "diff.mnemonicPrefix", Vals: []string{"true"}},
	{Key: "diff.submodule", Vals: []string{"log", "diff"}},
	{Key: "diff.ignoreSubmodules", Vals: []string{"all", "dirty"}},
	{Key: "diff.orderFile", Vals: []string{"$D/order"}},
	{Key: "diff.renames", Vals: []string{"false", "copies", "true"}},
	{Key: "diff.renameLimit", Vals: []string{"1", "2"}},
	{Key: "diff.relative", Vals: []string{"true"}},
	{Key: "diff.external", Vals: []string{"$D/external"}},
	{Key: "diff.wsErrorHighlight", Vals: []string{"all"}},
	{Key: "diff.colorMoved", Vals: []string{"zebra"}},
	{Key: "diff.wordRegex", Vals: []string{"."}},
	{Key: "diff.statGraphWidth", Vals: []string{"3"}},
	{Key: "diff.dirstat", Vals: []string{"files,10"}},
	{Key: "diff.upper.textconv", Vals: []string{"$D/textconv"}},
	{Key: "diff.upper.xfuncname", Vals: []string{"^.*x.*$"}},
	{Key: "diff.upper.command", Vals: []string{"$D/external"}},
	{Key: "diff.upper.algorithm", Vals: []string{"patience", "minimal"}},
	{Key: "log.abbrevCommit", Vals: []string{"true"}},
	{Key: "log.date", Vals: []string{"relative", "unix", "format:%Y"}},
	{Key: "log.decorate", Vals: []string{"full", "short", "true", "auto"}},
	{Key: "log.diffMerges", Vals: []string{"off", "first-parent", "combined", "dense-combined", "remerge"}},
	{Key: "log.follow", Vals: []string{"true"}},
	{Key: "log.mailmap", Vals: []string{"false", "true"}},
	{Key: "log.showRoot", Vals: []string{"false"}},
	{Key: "log.showSignature", Vals: []string{"true"}},
	{Key: "log.graphColors", Vals: []string{"red,blue"}},
	{Key: "log.initialDecorationSet", Vals: []string{"all"}},
	{Key: "mailmap.file", Vals: []string{"$D/mailmap"}},
	{Key: "format.pretty", Vals: []string{"oneline", "raw", "fuller", "format:x%H"}},
	{Key: "format.notes", Vals: []string{"true"}},
	{Key: "notes.displayRef", Vals: []string{"refs/notes/*"}},
	{Key: "i18n.logOutputEncoding", Vals: []string{"ISO-8859-1", "UTF-16", "ASCII"}},
	{Key: "i18n.commitEncoding", Vals: []string{"ISO-8859-1"}},
	{Key: "blame.blankBoundary", Vals: []string{"true"}},
	{Key: "blame.showRoot", Vals: []string{"true"}},
	{Key: "blame.showEmail", Vals: []string{"true"}},
	{Key: "blame.date", Vals: []string{"relative"}},
	{Key: "blame.coloring", Vals: []string{"repeatedLines", "highlightRecent"}},
	{Key: "blame.ignoreRevsFile", Vals: []string{"$D/revs"}},
	{Key: "blame.markIgnoredLines", Vals: []string{"true"}},
	{Key: "blame.markUnblamableLines", Vals: []string{"true"}},
	{Key: "pager.log", Vals: []string{"true", "$D/no-such-pager"}},
	{Key: "pager.blame", Vals: []string{"true"}},
	{Key: "column.ui", Vals: []string{"always"}},
	{Key: "branch.sort", Vals: []string{"-committerdate"}},
	{Key: "tag.sort", Vals: []string{"-creatordate"}},
	{Key: "feature.experimental", Vals: []string{"true"}},
	{Key: "feature.manyFiles", Vals: []string{"true"}},
	{Key: "submodule.recurse", Vals: []string{"true"}},
	{Key: "gpg.program", Vals: []string{"$D/gpg"}},
	{Key: "alias.log", Vals: []string{"log --oneline"}},
	{Key: "alias.blame", Vals: []string{"blame -s"}},
	{Key: "log.excludeDecoration", Vals: []string{"refs/heads/*"}},
	{Key: "init.defaultBranch", Vals: []string{"trunk", "a"}},
	{Key: "core.commitGraph", Vals: []string{"false"}},
	{Key: "core.logAllRefUpdates", Vals: []string{"always"}},
	{Key: "pack.useBitmaps", Vals: []string{"false"}},
	{Key: "diff.renameEmpty", Vals: []string{"false"}},
	{Key: "push.default", Vals: []string{"nothing"}},
	{Key: "merge.conflictStyle", Vals: []string{"diff3"}},
	{Key: "GIT_LITERAL_PATHSPECS", Vals: []string{"1"}, Env: true},
	{Key: "GIT_ICASE_PATHSPECS", Vals: []string{"1"}, Env: true},
	{Key: "GIT_GLOB_PATHSPECS", Vals: []string{"1"}, Env: true},
	{Key: "GIT_NOGLOB_PATHSPECS", Vals: []string{"1"}, Env: true},
	{Key: "GIT_FLUSH", Vals: []string{"1", "0"}, Env: true},
	{Key: "GIT_OPTIONAL_LOCKS", Vals: []string{"0"}, Env: true},
	{Key: "GIT_TRACE2", Vals: []string{"1"}, Env: true},
	{Key: "GIT_DEFAULT_HASH", Vals: []string{"sha256"}, Env: true},
	{Key: "GIT_DIFF_OPTS", Vals: []string{"-u0", "--unified=1", "--unified=50"}, Env: true},
	{Key: "GIT_EXTERNAL_DIFF", Vals: []string{"$D/external"}, Env: true},
	{Key: "GIT_PAGER", Vals: []string{"less", "cat"}, Env: true},
	{Key: "GIT_PAGER_IN_USE", Vals: []string{"1"}, Env: true},
	{Key: "GIT_NOTES_DISPLAY_REF", Vals: []string{"refs/notes/*"}, Env: true},
	{Key: "GIT_TRACE", Vals: []string{"1"}, Env: true},
	{Key: "LC_ALL", Vals: []string{"C", "de_DE.ISO-8859-1"}, Env: true},
	{Key: "LANGUAGE", Vals: []string{"de", "fr"}, Env: true},
	{Key: "TZ", Vals: []string{"Asia/Kolkata", "UTC+11"}, Env: true},
	{Key: "TERM", Vals: []string{"xterm-256color", "dumb"}, Env: true},
	{Key: "COLUMNS", Vals: []string{"10"}, Env: true},
}

type choice struct{ key, val string }

func (s setting) pick(r *rand.Rand, dir string) choice {
	return choice{s.Key, strings.ReplaceAll(s.Vals[r.Intn(len(s.Vals))], "$D", dir)}
}

// confWorld writes a world with things in it that only show under some settings.
func (c *Case) confWorld() *World {
	r := c.Rng
	w := c.smallWorld("repo", 4+r.Intn(12))
	if chance(r, 0.6) {
		// a signed commit on top
		head := strings.TrimSpace(git(w.Dir, "rev-parse", "HEAD"))
		tree := strings.TrimSpace(git(w.Dir, "rev-parse", w.Commits[r.Intn(len(w.Commits))].SHA+"^{tree}"))
		raw := "tree " + tree + "\nparent " + head + "\nauthor Ann Ä <a@x.org> 1700000000 +0200\ncommitter Bob <b@x.org> 1700000001 -0330\n" +
			"gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEzBAABCAAdFiEE\n -----END PGP SIGNATURE-----\n\nsigned ÄÖ message\n"
		sha := strings.TrimSpace(gitIn(w.Dir, raw, "hash-object", "-t", "commit", "-w", "--stdin"))
		git(w.Dir, "update-ref", "refs/heads/signed", sha)
		if chance(r, 0.7) {
			git(w.Dir, "update-ref", "HEAD", sha)
		}
		if chance(r, 0.5) {
			git(w.Dir, "-c", "user.name=n", "-c", "user.email=e", "notes", "--ref=x", "add", "-m", "a note\nSHA: x", sha)
		}
	}
	return w
}

func (c *Case) helperFiles(w *World) string {
	d := c.path("helpers")
	must(os.MkdirAll(d, 0755))
	r := c.Rng
	pats := []string{"* diff=upper", "* -diff", "* binary", "*.go -text", "*.txt diff=upper", "*.py diff=python", "* text eol=crlf", "* -text -diff", "* diff", "* encoding=latin1"}
	file := func(name, s string, mode os.FileMode) { must(os.WriteFile(filepath.Join(d, name), []byte(s), mode)) }
	file("attrs", pats[r.Intn(len(pats))]+"\n"+pats[r.Intn(len(pats))]+"\n", 0644)
	file("order", "*z*\n*.txt\n*a*\n", 0644)
	file("external", "#!/bin/sh\necho external \"$@\"\n", 0755)
	file("textconv", "#!/bin/sh\ntr a-z A-Z < \"$1\"\necho end\n", 0755)
	file("gpg", "#!/bin/sh\ncat > /dev/null\necho 'gpg: Good signature, commit 0123456789'\necho '[GNUPG:] GOODSIG 1 x' \nexit 0\n", 0755)
	file("mailmap", "Some Body <some@body.org> <a@x.org>\nSome Body <some@body.org> <b@x.org>\n", 0644)
	var revs []string
	for _, cm := range w.Commits {
		if chance(r, 0.5) {
			revs = append(revs, cm.SHA)
		}
	}
	file("revs", strings.Join(revs, "\n")+"\n", 0644)
	return d
}

func c22Case(c *Case) {
	r := c.Rng
	w := c.confWorld()
	dir := c.helperFiles(w)
	if !w.F.Bare && chance(r, 0.5) {
		must(os.WriteFile(filepath.Join(w.Dir, ".gitattributes"), []byte("* diff=upper\n"), 0644))
	}
	// incremental runs start from the state of a prefix
	var jobs []job
	for _, n := range []string{"process", "metamap", "blame", jobNames[c.N%11]} {
		jobs = append(jobs, c.fillJob(job{Name: n, All: chance(r, 0.5)}, w))
	}
	if !w.F.Skew && chance(r, 0.5) {
		anc := strings.Fields(git(w.Dir, "rev-list", "--first-parent", "HEAD"))
		if len(anc) > 1 {
			from := anc[1+r.Intn(len(anc)-1)]
			jobs = append(jobs, job{Name: "metamap", Dir: w.Dir, From: from, Non: chance(r, 0.5)})
		}
	}
	ref := make([]map[string]string, len(jobs))
	run := func(i int, what string) (map[string]string, bool) {
		j := jobs[i]
		j.CP = c.path("cp")
		defer os.RemoveAll(j.CP)
		var out map[string]string
		var err error
		if !c.guarded(fmt.Sprintf("%v%s", j, what), func() { out, err = j.run() }) {
			return nil, false
		}
		if err != nil {
			c.Fail("run-error", "%v%s failed: %v", j, what, err)
			return nil, false
		}
		return out, true
	}
	for i := range jobs {
		var ok bool
		if ref[i], ok = run(i, ""); !ok {
			return
		}
	}
	n := 4
	for k := 0; k < n; k++ {
		var set []choice
		if k == 0 {
			// every setting alone, over the cases
			set = append(set, settings[c.N%len(settings)].pick(r, dir))
		} else {
			for m := 1 + r.Intn(6); m > 0; m-- {
				set = append(set, settings[r.Intn(len(settings))].pick(r, dir))
			}
		}
		for _, s := range set {
			switch s.key {
			case "log.showSignature":
				set = append(set, choice{"gpg.program", dir + "/gpg"})
			case "core.attributesFile":
				set = append(set, choice{"diff.upper.textconv", dir + "/textconv"})
			}
		}
		scope := []string{"user", "system", "repository", "environment", "home"}[r.Intn(5)]
		undo := applyConf(c, w, set, scope)
		before := fileSums(c.path("conf"), dir, filepath.Join(w.Dir, "config"), filepath.Join(w.Dir, ".git", "config"), filepath.Join(w.Dir, ".gitattributes"))
		what := fmt.Sprintf(" with %v settings %q", scope, set)
		c.Count("configurations", 1)
		for i := range jobs {
			got, ok := run(i, what)
			if !ok {
				undo()
				return
			}
			c.Count("results compared", len(got))
			if d := diffOut(ref[i], got); d != "" {
				undo()
				c.Fail("config", "%v%s gives other results than with the default configuration: %s", jobs[i], what, d)
				return
			}
		}
		after := fileSums(c.path("conf"), dir, filepath.Join(w.Dir, "config"), filepath.Join(w.Dir, ".git", "config"), filepath.Join(w.Dir, ".gitattributes"))
		undo()
		if d := diffOut(before, after); d != "" {
			c.Fail("config-changed", "the analyses changed a configuration or attributes file: %s", d)
			return
		}
		for _, s := range set {
			c.Key("%s=%s %s", s.key, filepath.Base(s.val), scope)
		}
		c.Sample("%s %q", scope, set)
	}
}

// applyConf puts the settings in force for git commands started by this process.
func applyConf(c *Case, w *World, set []choice, scope string) (undo func()) {
	conf := c.path("conf")
	must(os.MkdirAll(conf, 0755))
	type old struct {
		v  string
		ok bool
	}
	saved := map[string]old{}
	setenv := func(k, v string) {
		if _, ok := saved[k]; !ok {
			o, had := os.LookupEnv(k)
			saved[k] = old{o, had}
		}
		os.Setenv(k, v)
	}
	unset := func(k string) {
		setenv(k, "")
		os.Unsetenv(k)
	}
	file := ""
	var repoConf []byte
	repoFile := filepath.Join(w.Dir, ".git", "config")
	if w.F.Bare {
		repoFile = filepath.Join(w.Dir, "config")
	}
	switch scope {
	case "user":
		file = filepath.Join(conf, "user")
		setenv("GIT_CONFIG_GLOBAL", file)
	case "home":
		file = filepath.Join(conf, "home", ".gitconfig")
		must(os.MkdirAll(filepath.Dir(file), 0755))
		unset("GIT_CONFIG_GLOBAL")
		unset("XDG_CONFIG_HOME")
		setenv("HOME", filepath.Dir(file))
	case "system":
		file = filepath.Join(conf, "system")
		setenv("GIT_CONFIG_SYSTEM", file)
		unset("GIT_CONFIG_NOSYSTEM")
	case "repository":
		file = repoFile
		var err error
		repoConf, err = os.ReadFile(repoFile)
		must(err)
	}
	n := 0
	for _, s := range set {
		if strings.ToUpper(s.key) == s.key {
			setenv(s.key, s.val)
			continue
		}
		if scope == "environment" {
			setenv(fmt.Sprintf("GIT_CONFIG_KEY_%d", n), s.key)
			setenv(fmt.Sprintf("GIT_CONFIG_VALUE_%d", n), s.val)
			n++
			continue
		}
		git(c.Dir, "config", "--file", file, s.key, s.val)
	}
	if n > 0 {
		setenv("GIT_CONFIG_COUNT", fmt.Sprint(n))
	}
	return func() {
		for k, o := range saved {
			if o.ok {
				os.Setenv(k, o.v)
			} else {
				os.Unsetenv(k)
			}
		}
		if repoConf != nil {
			must(os.WriteFile(repoFile, repoConf, 0644))
		}
		must(os.RemoveAll(conf))
	}
}

// fileSums describes everything below the given paths: kind, mode, content.
func fileSums(roots ...string) map[string]string {
	m := map[string]string{}
	for _, root := range roots {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return nil
			}
			fi, err := d.Info()
			if err != nil {
				return nil
			}
			s := fi.Mode().String()
			switch {
			case fi.Mode().IsRegular():
				b, err := os.ReadFile(p)
				if err != nil {
					s += err.Error()
				}
				s += fmt.Sprintf(" %d bytes %x modified %d", len(b), sha1.Sum(b), fi.ModTime().UnixNano())
			case fi.Mode()&os.ModeSymlink != 0:
				t, _ := os.Readlink(p)
				s += " -> " + t
			case fi.IsDir():
				es, _ := os.ReadDir(p)
				var ns []string
				for _, e := range es {
					ns = append(ns, e.Name())
				}
				sort.Strings(ns)
				s += fmt.Sprintf(" modified %d: %s", fi.ModTime().UnixNano(), strings.Join(ns, " "))
			}
			m[p] = s
			return nil
		})
	}
	return m
}

func init() {
	register(&Check{ID: "C22", Quick: 8 * len(settings), Thorough: 12000, Build: "lite", Level: "exploration", Min: 150,
		Tech:   "differential monitor: every analysis under random git settings at every level against the default configuration",
		Note:   "Every listed setting alone and random combinations; settings not listed are not covered.",
		Rule:   "one evaluation is four or five analyses of one repository under the default and four other configurations; a situation is a setting, its value and its level",
		Assume: []string{"the binary setting of diff drivers that a repository's own attributes name is part of the repository's meaning, not of the display", "the system-wide attributes file cannot be exercised in the sandbox", "attr.tree and GIT_ATTR_SOURCE, which choose a tree of attributes, are not display options"},
		Run:    c22Case})
	register(&Check{ID: "C23", Quick: 192, Thorough: 3000, Build: "lite", Level: "exploration", Min: 60,
		Tech:   "full directory snapshots before and after, and a system call monitor (strace) on file changes",
		Note:   "Repository, checkpoint, home, temporary and current directory are compared completely; half of the runs are traced, which also sees changes that are undone.",
		Rule:   "one evaluation is three analyses of one repository; a situation is analysis, checkpoint location, bare or not, kind of run and outcome",
		Assume: []string{"access times do not count"},
		Run:    c23Case})
}

// ---- C23

// workTree checks the head commit out and makes the working tree and index
// look like those of a repository somebody works in.
func (c *Case) workTree(w *World) {
	r := c.Rng
	if w.F.Bare {
		return
	}
	gitTry(w.Dir, "", "reset", "-q", "--hard")
	es, _ := os.ReadDir(w.Dir)
	for _, e := range es {
		if e.Type().IsRegular() && chance(r, 0.4) {
			p := filepath.Join(w.Dir, e.Name())
			if chance(r, 0.5) {
				must(os.WriteFile(p, []byte("changed\n"), 0644))
			} else {
				old := time.Unix(1500000000, 0)
				must(os.Chtimes(p, old, old)) // the index entry is stale now
			}
		}
	}
	must(os.WriteFile(filepath.Join(w.Dir, "untracked file"), []byte("x\n"), 0644))
	if chance(r, 0.3) {
		gitTry(w.Dir, "", "add", "-A")
	}
	if chance(r, 0.2) {
		must(os.WriteFile(filepath.Join(w.Dir, ".git", "index.lock"), nil, 0644))
	}
}

var writeCalls = regexp.MustCompile(`^(?:\[pid +\d+\] |\d+ +)?(open|openat|openat2|creat|truncate|ftruncate|rename|renameat|renameat2|unlink|unlinkat|rmdir|mkdir|mkdirat|mknod|mknodat|link|linkat|symlink|symlinkat|chmod|fchmod|fchmodat|chown|fchown|lchown|fchownat|utime|utimes|futimesat|utimensat|setxattr|fsetxattr|removexattr|fallocate)\((.*)$`)
var openWrites = regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND`)
var tracedPath = regexp.MustCompile(`(?:(?:AT_FDCWD|\d+)<((?:[^>\\]|\\.)*)>(?:, )?)?(?:"((?:[^"\\]|\\.)*)")?`)

// tracedWrites lists the paths a strace log shows being changed.
func tracedWrites(log string, cwd string) (res []string, calls int) {
	for _, l := range strings.Split(log, "\n") {
		m := writeCalls.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		calls++
		if strings.HasPrefix(m[1], "open") && !openWrites.MatchString(m[2]) {
			continue
		}
		seen := map[string]bool{}
		for _, x := range tracedPath.FindAllStringSubmatch(m[2], -1) {
			p := x[2]
			if x[0] == "" {
				continue
			}
			if p == "" {
				if strings.HasPrefix(m[1], "f") {
					p = x[1] // by descriptor
				} else {
					continue
				}
			} else if !strings.HasPrefix(p, "/") {
				d := x[1]
				if d == "" {
					d = cwd
				}
				p = d + "/" + p
			}
			if !seen[p] {
				seen[p] = true
				res = append(res, m[1]+" "+p)
			}
			if strings.HasPrefix(m[1], "open") || m[1] == "creat" {
				break
			}
		}
	}
	return
}

func pathsIn(allowed []string) func(p string) bool {
	return func(p string) bool {
		for _, a := range allowed {
			if p == a || strings.HasPrefix(p, a+"/") {
				return true
			}
		}
		return false
	}
}

// withoutOwn leaves the tool's own folders out of snapshots.
func withoutOwn(allowed []string, before, after map[string]string) {
	may := pathsIn(allowed)
	for _, m := range []map[string]string{before, after} {
		for p := range m {
			if may(p) {
				delete(m, p)
			}
		}
	}
	// the directory that holds the tool's own folder gains one entry
	for _, a := range allowed {
		d := filepath.Dir(a)
		for _, m := range []map[string]string{before, after} {
			if s, ok := m[d]; ok {
				i := strings.Index(s, ": ")
				m[d] = s[:strings.Index(s, " ")] + strings.ReplaceAll(s[i:]+" ", " "+filepath.Base(a)+" ", " ")
			}
		}
	}
}

// commandUntouched runs one of the commands on the repository.
func (c *Case) commandUntouched(w *World, dirs []string) {
	r := c.Rng
	args := [][]string{{"code", w.Dir}, {"code", w.Dir}, {"branches", w.Dir}, {"validate_inc_blame", w.Dir}, {"code", "--sha", w.Commits[w.HeadIdx].SHA, w.Dir}}[r.Intn(5)]
	allowed := []string{filepath.Join(w.Dir, "pp-git-cache")}
	if args[0] == "branches" {
		allowed = nil
	}
	before := fileSums(dirs...)
	e := exec.Command(sibling("ripsrc"), args...)
	e.Dir = c.path("cwd")
	var out strings.Builder
	e.Stdout, e.Stderr = &out, &out
	must(e.Start())
	timer := time.AfterFunc(120*time.Second, func() { e.Process.Kill() })
	err := e.Wait() // the status does not matter here
	timer.Stop()
	after := fileSums(dirs...)
	withoutOwn(allowed, before, after)
	if d := diffOut(before, after); d != "" {
		c.Fail("changed", "the command %q changed files it must not touch (error %v): %s\n%s", args, err, d, tailS(out.String(), 600))
		return
	}
	c.Count("commands", 1)
	c.Key("command %s|%v|%v", args[0], w.F.Bare, err != nil)
}

func c23Case(c *Case) {
	r := c.Rng
	w := c.smallWorld("repo", 3+r.Intn(12))
	c.workTree(w)
	cwd := c.path("cwd")
	must(os.MkdirAll(cwd, 0755))
	must(os.WriteFile(filepath.Join(cwd, "mine"), []byte("x"), 0644))
	c.helperCwd, c.helperQuick = cwd, true
	tmp, home := os.Getenv("TMPDIR"), os.Getenv("HOME")
	cps := c.path("cps")
	must(os.MkdirAll(filepath.Join(cps, "other"), 0755))
	must(os.WriteFile(filepath.Join(cps, "other", "file"), []byte("x"), 0644))
	n := 3
	for k := 0; k < n; k++ {
		name := jobNames[(c.N*n+k)%11] // not classify: it reads no repository
		j := c.fillJob(job{Name: name, All: chance(r, 0.5)}, w)
		ranged := name == "process" || name == "code" || name == "flat"
		own := chance(r, 0.5)
		if !own {
			j.CP = filepath.Join(cps, fmt.Sprint(k))
			if chance(r, 0.5) {
				must(os.MkdirAll(j.CP, 0755))
			}
		}
		fault := "none"
		if ranged && chance(r, 0.25) {
			fault = "unknown start commit"
			j.From, j.Lax = randHash(r), chance(r, 0.5)
		} else if (ranged || name == "meta") && chance(r, 0.25) {
			fault = "start commit without a saved state"
			j.From, j.Lax = w.Commits[w.HeadIdx].SHA, chance(r, 0.5)
		} else if ranged && chance(r, 0.4) {
			// the second run finds the state the first one saved
			fault = "second run"
			c.helperPre = nil
			if res := c.inProcess(j, "", false, "first run"); res == nil || res.Err != "" {
				c.Fail("run-error", "%v failed: %+v %s", j, res, c.lastErr)
				return
			}
			if chance(r, 0.5) {
				j.From = w.Commits[w.HeadIdx].SHA
			}
		}
		traced := chance(r, 0.5)
		tr := c.path("trace")
		c.helperPre = nil
		if traced {
			c.helperPre = []string{"strace", "-f", "-y", "-s", "4096", "--seccomp-bpf", "-e", "trace=open,openat,openat2,creat,truncate,ftruncate,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,mknod,mknodat,link,linkat,symlink,symlinkat,chmod,fchmod,fchmodat,chown,fchown,lchown,fchownat,utime,utimes,futimesat,utimensat,setxattr,fsetxattr,removexattr,fallocate", "-o", tr}
		}
		before := fileSums(w.Dir, cps, home, tmp, cwd)
		res := c.inProcess(j, "", false, fault)
		if c.Failed() {
			return
		}
		after := fileSums(w.Dir, cps, home, tmp, cwd)
		if res == nil {
			c.Fail("abnormal", "%v (%s) ended abnormally: %s", j, fault, c.lastErr)
			return
		}
		var allowed []string
		if ranged {
			if own {
				allowed = []string{filepath.Join(w.Dir, "pp-git-cache")}
			} else {
				allowed = []string{j.CP}
			}
		}
		may := pathsIn(allowed)
		withoutOwn(allowed, before, after)
		if d := diffOut(before, after); d != "" {
			c.Fail("changed", "%v (%s, own folder %v) changed files it must not touch (error %q): %s", j, fault, own, res.Err, d)
			return
		}
		c.Count("runs", 1)
		c.Count("files watched", len(before))
		if traced {
			b, err := os.ReadFile(tr)
			must(err)
			ws, calls := tracedWrites(string(b), cwd)
			if calls == 0 {
				harnessErr("empty trace")
			}
			for _, x := range ws {
				p := filepath.Clean(x[strings.Index(x, " ")+1:])
				if may(p) || strings.HasPrefix(p, "/dev/") || p == c.path("job.out") || strings.HasPrefix(p, "/proc/") {
					continue
				}
				c.Fail("wrote", "%v (%s, own folder %v) changes a file it must not touch: %s", j, fault, own, x)
				return
			}
			c.Count("system calls on files", calls)
			c.Count("changing system calls", len(ws))
			os.Remove(tr)
		}
		c.Key("%s|%v|%v|%s|%v|%v|%v", name, own, w.F.Bare, fault, res.Err != "", traced, j.All)
		c.Sample("%v, %s, own folder %v, traced %v, error %q", j, fault, own, traced, res.Err)
		if own && chance(r, 0.5) {
			must(os.RemoveAll(filepath.Join(w.Dir, "pp-git-cache")))
		}
	}
	if chance(r, 0.6) {
		c.commandUntouched(w, []string{w.Dir, cps, home, tmp, cwd})
	}
}
