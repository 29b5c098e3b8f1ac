package main

// C26: discovery of repositories and the commands. C27: the default logger.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

// ---- C26, discovery

// layout makes a random directory tree at dir.
func layout(r *rand.Rand, dir string, depth int, outside string) {
	must(os.MkdirAll(dir, 0755))
	touch := func(p string) { must(os.WriteFile(filepath.Join(dir, p), []byte("x"), 0644)) }
	mk := func(p string) { must(os.MkdirAll(filepath.Join(dir, p), 0755)) }
	switch r.Intn(9) {
	case 0, 1:
		mk(".git/objects")
		if chance(r, 0.5) {
			touch(".git/HEAD")
		}
	case 2:
		touch(".git") // linked working trees and submodules have such a file
	case 3:
		mk("objects")
	case 4:
		touch("objects")
	case 5:
		must(os.Symlink(outside, filepath.Join(dir, ".git")))
	case 6:
		must(os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, ".git")))
	}
	if depth == 0 {
		return
	}
	names := []string{"a", "b.git", "c.git", "x.GIT", ".hidden", "sp ace", "ü.git", "git", "y.git.d", "-", ".git.git", "objects.git", "zz", "..data", "...", "..git", ".git-old", ".gitx", ".github", "~", "a:b"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names[:r.Intn(5)] {
		p := filepath.Join(dir, n)
		switch r.Intn(10) {
		case 0:
			touch(n)
		case 1:
			must(os.Symlink(outside, p))
		default:
			layout(r, p, depth-1, outside)
		}
	}
}

func isDir(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.IsDir()
}

// reposUnder is what the documentation of the commands says is a repository.
func reposUnder(dir string, depth int) (res []string) {
	abs, err := filepath.Abs(dir)
	must(err)
	if isDir(filepath.Join(dir, ".git")) || filepath.Ext(abs) == ".git" && isDir(filepath.Join(dir, "objects")) {
		return []string{abs}
	}
	if depth == 0 {
		return
	}
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		if e.IsDir() {
			res = append(res, reposUnder(filepath.Join(dir, e.Name()), depth-1)...)
		}
	}
	return
}

func (c *Case) discovery() {
	r := c.Rng
	out := c.path("outside")
	must(os.MkdirAll(filepath.Join(out, "objects"), 0755))
	must(os.MkdirAll(filepath.Join(out, "r.git", "objects"), 0755))
	must(os.MkdirAll(filepath.Join(out, "s", ".git"), 0755))
	root := c.path([]string{"tree", "tree.git", "t r"}[r.Intn(3)])
	layout(r, root, 1+r.Intn(4), out)
	wd, err := os.Getwd()
	must(err)
	defer os.Chdir(wd)
	arg := root
	switch r.Intn(6) {
	case 0:
		arg += "/"
	case 1:
		must(os.Chdir(c.Dir))
		arg = filepath.Base(root)
	case 2:
		must(os.Chdir(root))
		arg = "."
	case 3:
		arg = c.path("link")
		must(os.Symlink(root, arg))
	case 4:
		arg = filepath.Dir(root) + "//./" + filepath.Base(root)
	}
	for depth := 0; depth < 5; depth++ {
		want := reposUnder(arg, depth)
		var got []string
		var rerr error
		if !c.guarded("IterDir", func() {
			rerr = gitrepos.IterDir(arg, depth, func(d string) error {
				a, err := filepath.Abs(d)
				must(err)
				got = append(got, a)
				return nil
			})
		}) {
			return
		}
		if rerr != nil {
			c.Fail("discovery-error", "discovery in %v with depth %d failed: %v", arg, depth, rerr)
			return
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			c.Fail("discovery", "discovery in %v with depth %d visited\n  %s\nbut the repositories are\n  %s", arg, depth, strings.Join(got, "\n  "), strings.Join(want, "\n  "))
			return
		}
		c.Count("discoveries", 1)
		c.Count("repositories found", len(want))
		c.Key("found %d depth %d", len(want), depth)
		if len(want) > 0 {
			stop := r.Intn(len(want))
			n := 0
			boom := errors.New("boom")
			err := gitrepos.IterDir(arg, depth, func(d string) error {
				if n++; n == stop+1 {
					return boom
				}
				return nil
			})
			if err != boom && !errors.Is(err, boom) && (err == nil || !strings.Contains(err.Error(), "boom")) {
				c.Fail("callback-error", "discovery returned %v when the callback failed", err)
				return
			}
			if n != stop+1 {
				c.Fail("callback-error", "discovery made %d more callbacks after one that failed", n-stop-1)
				return
			}
			c.Count("failing callbacks", 1)
		}
	}
	for _, bad := range []string{c.path("missing"), filepath.Join(root, "..", "file")} {
		if strings.HasSuffix(bad, "file") {
			must(os.WriteFile(bad, []byte("x"), 0644))
		}
		if err := gitrepos.IterDir(bad, 1, func(d string) error { return nil }); err == nil {
			c.Fail("no-error", "discovery in %v reports success", bad)
		}
	}
}

// ---- C26, commands

type cliRepo struct {
	dir   string
	kind  string
	token string
}

// tinyRepo writes a repository with a few commits as loose objects; the names of
// its files and of its origin branch hold the token.
func tinyRepo(r *rand.Rand, dir, token string, bare bool) {
	if bare {
		git(filepath.Dir(dir), "init", "-q", "--bare", "-b", "main", dir)
	} else {
		git(filepath.Dir(dir), "init", "-q", "-b", "main", dir)
	}
	var b strings.Builder
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		body := fmt.Sprintf("line of %s\nversion %d\n", token, i)
		fmt.Fprintf(&b, "commit refs/heads/main\nmark :%d\ncommitter T <t@x> %d +0000\ndata 1\nm\n", i+1, 1600000000+i)
		if i > 0 {
			fmt.Fprintf(&b, "from :%d\n", i)
		}
		fmt.Fprintf(&b, "M 100644 inline file-%s.go\ndata %d\n%s\n", token, len(body), body)
	}
	fmt.Fprintf(&b, "commit refs/remotes/origin/side-%s\ncommitter T <t@x> 1700000000 +0000\ndata 1\nm\nfrom :%d\nM 100644 inline s\ndata 2\ns\n\n", token, n)
	gitIn(dir, b.String(), "-c", "fastimport.unpackLimit=1000", "fast-import", "--quiet")
}

func objectFile(dir, sha string) string {
	g := filepath.Join(dir, ".git")
	if !isDir(g) {
		g = dir
	}
	return filepath.Join(g, "objects", sha[:2], sha[2:])
}

func (c *Case) commands() {
	r := c.Rng
	root := c.path("work")
	must(os.MkdirAll(root, 0755))
	var repos []cliRepo
	n := r.Intn(5)
	single := chance(r, 0.15)
	if single {
		n = 1
	}
	for i := 0; i < n; i++ {
		x := cliRepo{kind: []string{"good", "good", "empty", "no head object", "no blob", "no parent"}[r.Intn(6)], token: fmt.Sprintf("tok%dx%d", i, r.Intn(1e6))}
		bare := chance(r, 0.4)
		x.dir = filepath.Join(root, fmt.Sprintf("%c-%d", 'a'+r.Intn(26), i))
		if single {
			x.dir = filepath.Join(root, "only")
		}
		if bare {
			x.dir += ".git"
		}
		if x.kind == "empty" {
			if bare {
				git(root, "init", "-q", "--bare", x.dir)
			} else {
				git(root, "init", "-q", x.dir)
			}
		} else {
			tinyRepo(r, x.dir, x.token, bare)
		}
		switch x.kind {
		case "no head object":
			must(os.Remove(objectFile(x.dir, strings.TrimSpace(git(x.dir, "rev-parse", "HEAD")))))
		case "no blob":
			must(os.Remove(objectFile(x.dir, strings.TrimSpace(git(x.dir, "rev-parse", "HEAD:file-"+x.token+".go")))))
		case "no parent":
			must(os.Remove(objectFile(x.dir, strings.TrimSpace(git(x.dir, "rev-parse", "HEAD~1")))))
		}
		repos = append(repos, x)
	}
	arg := root
	if single {
		arg = repos[0].dir
	}
	if chance(r, 0.5) {
		must(os.MkdirAll(filepath.Join(root, "plain", "deep", ".git"), 0755)) // below the depth of the commands
		must(os.WriteFile(filepath.Join(root, "file"), []byte("x"), 0644))
	}
	if n == 0 && chance(r, 0.3) {
		arg = c.path("missing")
	}
	for _, cmd := range []string{"code", "branches"} {
		e := exec.Command(sibling("ripsrc"), cmd, arg)
		e.Dir = c.Dir
		var ob strings.Builder
		e.Stdout, e.Stderr = &ob, &ob
		must(e.Start())
		timer := time.AfterFunc(120*time.Second, func() { e.Process.Signal(syscall.SIGQUIT) })
		err := e.Wait()
		late := !timer.Stop()
		out := ob.String()
		code := 0
		if err != nil {
			code = e.ProcessState.ExitCode()
		}
		var desc []string
		fails, empties := 0, 0
		for _, x := range repos {
			desc = append(desc, x.kind)
			switch {
			case x.kind == "empty":
				empties++
			case x.kind == "good":
			case x.kind == "no blob" && cmd == "branches":
				// branches need commits only
			default:
				fails++
			}
		}
		what := fmt.Sprintf("ripsrc %s with repositories %q", cmd, desc)
		if late {
			c.Fail("cli-hang", "%s did not end within 120 s: %s", what, tailS(out, 3000))
			return
		}
		wantOK := n > 0 && fails == 0
		if wantOK != (code == 0) {
			c.Fail("exit-status", "%s exited with status %d: %s", what, code, tailS(out, 3000))
			return
		}
		for _, x := range repos {
			if x.kind == "good" || x.kind == "no blob" && cmd == "branches" {
				want := "file-" + x.token
				if cmd == "branches" {
					want = "side-" + x.token
				}
				if !strings.Contains(out, want) {
					c.Fail("not-processed", "%s has no output for a good repository: %s", what, tailS(out, 3000))
					return
				}
			}
			if x.kind != "good" && x.kind != "empty" && fails > 0 && !(x.kind == "no blob" && cmd == "branches") && !strings.Contains(out, filepath.Base(x.dir)) {
				c.Fail("not-named", "%s does not name a repository that failed: %s", what, tailS(out, 3000))
				return
			}
		}
		if empties > 0 && !strings.Contains(strings.ToLower(out), "empty") {
			c.Fail("no-warning", "%s has no warning about an empty repository: %s", what, tailS(out, 3000))
			return
		}
		sort.Strings(desc)
		c.Count("commands", 1)
		c.Count("repositories given to commands", n)
		c.Key("%s %d %s", cmd, code, strings.Join(desc, ","))
		c.Sample("%s: status %d", what, code)
	}
}

func c26Case(c *Case) {
	for i := 0; i < 6; i++ {
		d := c.Dir
		c.Dir = filepath.Join(d, fmt.Sprint(i))
		must(os.MkdirAll(c.Dir, 0755))
		c.discovery()
		c.Dir = d
		if c.Failed() {
			return
		}
	}
	c.commands()
}

// ---- C27

// sink collects what the logger writes. It gives up the processor inside of
// every write, so that writes that are not protected get mixed.
type sink struct {
	kind   int
	inside int
	mixed  bool
	n      int
	buf    []byte
}

func (s *sink) Write(b []byte) (int, error) {
	s.inside++
	if s.inside != 1 {
		s.mixed = true
	}
	for i := range b {
		s.buf = append(s.buf, b[i])
		if i%5 == 0 && s.kind == 1 {
			runtime.Gosched()
		}
	}
	s.n++
	switch {
	case s.kind == 2 && s.n%3 == 0:
		time.Sleep(20 * time.Microsecond)
	case s.kind == 3:
		runtime.Gosched()
	}
	s.inside--
	return len(b), nil
}

type shape struct {
	A int
	B string
}

type texty struct{ s string }

func (t texty) String() string { return t.s }

type logCall struct {
	debug bool
	msg   string
	args  []interface{}
	words []string // in this order on the line
	bad   bool
}

func (c *Case) logCall(id string) (k logCall) {
	r := c.Rng
	k.debug = chance(r, 0.5)
	extra := []string{"", " 100%", " %d %s %!", " ä ö", " [x] {y}", " \\n", " \"q\"", " -", "\tt"}
	tok := func(i int) string { return fmt.Sprintf("<%s.%d>%s", id, i, extra[r.Intn(len(extra))]) }
	k.msg = tok(0)
	if chance(r, 0.05) {
		k.msg = "<" + id + ".0>" + strings.Repeat("long ", 2000)
	}
	k.words = []string{k.msg}
	n := r.Intn(6)
	for i := 1; i <= n; i++ {
		key := tok(2 * i)
		var v interface{}
		var s string
		switch r.Intn(9) {
		case 0:
			v, s = i*1000003, fmt.Sprint(i*1000003)
		case 1:
			v, s = texty{tok(2*i + 1)}, ""
			s = v.(texty).s
		case 2:
			s = tok(2*i + 1)
			v = errors.New(s)
		case 3:
			v, s = nil, fmt.Sprint(nil)
		case 4:
			v, s = shape{i, "x"}, fmt.Sprintf("{%d x}", i)
		case 5:
			v, s = []string{"a", tok(1)}, "[a"
		case 6:
			v, s = time.Duration(i)*time.Millisecond, (time.Duration(i) * time.Millisecond).String()
		case 7:
			v, s = "", ""
		default:
			s = tok(2*i + 1)
			v = s
		}
		if i > 1 && chance(r, 0.15) { // a key, or a pair, again
			j := 2 * r.Intn(i-1)
			key = k.args[j].(string)
			if chance(r, 0.5) {
				v, s = k.args[j+1], k.words[j+2]
			}
		}
		k.args = append(k.args, key, v)
		k.words = append(k.words, key, s)
	}
	switch {
	case chance(r, 0.08):
		k.bad = true
		k.args = append(k.args, "odd")
	case n > 0 && chance(r, 0.08):
		k.bad = true
		k.args[2*r.Intn(n)] = []interface{}{7, nil, texty{"k"}, 'x', []byte("k")}[r.Intn(5)]
	}
	return
}

func c27Case(c *Case) {
	r := c.Rng
	s := &sink{kind: r.Intn(4)}
	lg := logger.NewDefaultLogger(s)
	old := runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)])
	defer runtime.GOMAXPROCS(old)
	g := 1 + r.Intn(12)
	per := 20 + r.Intn(60)
	calls := map[string]logCall{}
	plan := make([][]logCall, g)
	for i := range plan {
		for k := 0; k < per; k++ {
			id := fmt.Sprintf("%d-%d", i, k)
			x := c.logCall(id)
			calls[id] = x
			plan[i] = append(plan[i], x)
		}
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	var pmu sync.Mutex
	panicked := ""
	for i := range plan {
		wg.Add(1)
		go func(p []logCall) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					pmu.Lock()
					panicked = fmt.Sprint(x)
					pmu.Unlock()
				}
			}()
			<-start
			for _, x := range p {
				if x.debug {
					lg.Debug(x.msg, x.args...)
				} else {
					lg.Info(x.msg, x.args...)
				}
			}
		}(plan[i])
	}
	close(start)
	wg.Wait()
	if panicked != "" {
		c.Fail("panic", "a call of the logger panicked: %s", panicked)
		return
	}
	if s.mixed {
		c.Fail("mixed", "two calls wrote to the sink at the same time (%d callers)", g)
		return
	}
	if len(s.buf) == 0 || s.buf[len(s.buf)-1] != '\n' {
		c.Fail("line-end", "the last line is not ended")
		return
	}
	lines := strings.Split(strings.TrimSuffix(string(s.buf), "\n"), "\n")
	seen := map[string]int{}
	errs := map[string]int{}
	next := make([]int, g)
	for _, l := range lines {
		a := strings.Index(l, "<")
		b := strings.Index(l, ".0>")
		if a < 0 || b < a {
			c.Fail("line", "a line without the message of any call: %q", clipS(l))
			return
		}
		id := l[a+1 : b]
		x, ok := calls[id]
		if !ok || strings.Count(l, ".0>") != 1 && !x.bad {
			c.Fail("line", "a line that is not of one call: %q", clipS(l))
			return
		}
		head := l[:a]
		if strings.Contains(head, "ERROR") {
			if !x.bad {
				c.Fail("false-error", "an error line for a valid call: %q", clipS(l))
				return
			}
			errs[id]++
			continue
		}
		level := "INFO"
		if x.debug {
			level = "DEBUG"
		}
		if !strings.Contains(head, level) {
			c.Fail("level", "the line of a %s call is %q", level, clipS(l))
			return
		}
		if !x.bad {
			rest := l
			for _, w := range x.words {
				i := strings.Index(rest, w)
				if i < 0 {
					c.Fail("content", "the line %q lacks %q, or has it in another place", clipS(l), w)
					return
				}
				rest = rest[i+len(w):]
			}
		}
		seen[id]++
		var i, k int
		fmt.Sscanf(id, "%d-%d", &i, &k)
		if k < next[i] {
			c.Fail("order", "lines of one caller are out of order: %q", clipS(l))
			return
		}
		next[i] = k
	}
	for id, x := range calls {
		if x.bad && errs[id] != 1 {
			c.Fail("silent", "%d error lines for the malformed arguments %q", errs[id], clipS(fmt.Sprintf("%v", x.args)))
			return
		}
		if seen[id] != 1 {
			c.Fail("count", "%d lines for the call %q", seen[id], clipS(x.msg))
			return
		}
		if x.bad {
			c.Count("malformed calls", 1)
		}
	}
	c.Count("calls", len(calls))
	c.Count("lines", len(lines))
	// interleavings: how often the caller changes from one line to the next
	sw, last := 0, ""
	for _, l := range lines {
		id := strings.SplitN(l[strings.Index(l, "<")+1:], "-", 2)[0]
		if id != last {
			sw++
		}
		last = id
	}
	c.Count("switches between callers", sw)
	c.Key("%d callers, %d switches", g, sw)
}

func init() {
	register(&Check{ID: "C26", Quick: 330, Thorough: 6000, Build: "lite", Level: "exploration", Min: 40,
		Tech:   "monitor of discovery callbacks against an independent walk, and of the built command's exit status and output",
		Note:   "Random directory layouts up to depth 4; random sets of good, empty and broken repositories.",
		Rule:   "one evaluation is six directory layouts with five depth limits each and both commands on one set of repositories; a situation is the number of repositories and depth, or command, status and kinds of repositories",
		Assume: []string{"a repository is a directory that contains a .git directory, or whose name ends with .git and that contains an objects directory", "a directory whose HEAD cannot be resolved counts as empty"},
		Run:    c26Case})
	register(&Check{ID: "C27", Quick: 3000, Thorough: 30000, Build: "lite", Level: "exploration", Min: 200,
		Tech:   "schedule stress with a sink that yields inside of writes, and an offline checker over the recorded bytes",
		Note:   "Up to 12 callers on 1 to 8 processors; sampled schedules.",
		Rule:   "one evaluation is up to 12 concurrent callers with up to 80 calls each; a situation is the number of callers and of switches between them",
		Assume: []string{"the sink does not fail", "messages, keys and values without line breaks"},
		Run:    c27Case})
}
