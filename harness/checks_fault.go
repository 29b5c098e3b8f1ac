package main

// C19: termination and leaks. C21: failing git commands.

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

func sibling(name string) string {
	self, err := os.Executable()
	must(err)
	return filepath.Join(filepath.Dir(self), name)
}

// shimDir prepares a directory whose bin/git is the shim.
func shimDir(dir, plan string) {
	must(os.RemoveAll(dir))
	must(os.MkdirAll(filepath.Join(dir, "bin"), 0755))
	must(os.Symlink(sibling("gitshim"), filepath.Join(dir, "bin", "git")))
	must(os.WriteFile(filepath.Join(dir, "plan"), []byte(plan), 0644))
}

func shimEnv(dir string) []string {
	return []string{"PATH=" + filepath.Join(dir, "bin"), "SHIM_DIR=" + dir, "SHIM_GIT=" + realGit}
}

func shimCalls(dir string) (res []string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "call.*"))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		res = append(res, strings.TrimSpace(string(b)))
	}
	return
}

// ---- C19

func openFDs() map[string]int {
	m := map[string]int{}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(t, "anon_inode:") {
			continue
		}
		m[e.Name()+" -> "+t]++
	}
	return m
}

func goroutines() map[string]string {
	m := map[string]string{}
	for _, b := range stacks() {
		if strings.Contains(b, "main.deadlockMonitor") {
			continue
		}
		m[strings.SplitN(b, " [", 2)[0]] = b
	}
	return m
}

func filesUnder(dirs ...string) map[string]bool {
	m := map[string]bool{}
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				m[p] = true
			}
			return nil
		})
	}
	return m
}

// leftover compares the process with what it was before and describes what is new.
func leftover(g0 map[string]string, f0 map[string]int, t0 map[string]bool, dirs ...string) string {
	for k, b := range goroutines() {
		if _, ok := g0[k]; !ok {
			return "goroutine:\n" + b
		}
	}
	for k := range openFDs() {
		if f0[k] == 0 {
			return "open file " + k
		}
	}
	for _, p := range children(os.Getpid()) {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/cmdline", p))
		return fmt.Sprintf("child process %d %q", p, b)
	}
	for k := range filesUnder(dirs...) {
		if !t0[k] {
			return "file " + k
		}
	}
	return ""
}

// logHook is a logger writer that can slow things down.
type logHook struct{ f func() }

func (l logHook) Write(b []byte) (int, error) { l.f(); return len(b), nil }

func c19Case(c *Case) {
	r := c.Rng
	w := c.smallWorld("repo", 3+r.Intn(14))
	shim := c.path("shim")
	oldPath := os.Getenv("PATH")
	defer func() {
		os.Setenv("PATH", oldPath)
		debug.SetGCPercent(100)
	}()
	cpDir := c.path("cps")
	must(os.MkdirAll(cpDir, 0755))
	for k := 0; k < 5; k++ {
		name := jobNames[(c.N*5+k)%len(jobNames)]
		if name == "classify" {
			name = []string{"process", "code"}[r.Intn(2)]
		}
		j := c.fillJob(job{Name: name, All: chance(r, 0.5), CP: filepath.Join(cpDir, fmt.Sprint(k))}, w)
		j.Pace = paceOf(r.Intn(5))
		if chance(r, 0.2) {
			slow := paceOf(4)
			j.Log = logger.NewDefaultLogger(logHook{slow})
		}
		plan, fault := "", "none"
		expectErr := false
		ranged := name == "process" || name == "code" || name == "flat"
		switch x := r.Intn(11); {
		case x >= 9 && name != "process" && name != "classify":
			fault = "a commit with an unreadable date"
			j.Dir = c.path(fmt.Sprint("undated", k))
			undated(r, w, j.Dir)
			expectErr = name == "meta" || name == "metamap" || name == "code" || name == "flat"
		case x == 0:
			fault = "no such directory"
			j.Dir = c.path("nowhere")
			expectErr = true
		case x == 1:
			fault = "no repository"
			j.Dir = c.path("plain")
			must(os.MkdirAll(j.Dir, 0755))
			expectErr = true
		case x == 2:
			fault = "git fails"
			plan = fmt.Sprintf("%d exit 128", 1+r.Intn(6))
			if ranged && chance(r, 0.4) {
				plan = "@blame exit 128"
			}
		case x == 3:
			fault = "git killed in the middle of its output"
			plan = fmt.Sprintf("%d cut %d kill line", 1+r.Intn(6), r.Intn(1000))
			if ranged && chance(r, 0.3) {
				plan = fmt.Sprintf("@blame cut %d kill line", r.Intn(1000))
			}
		case x == 4:
			fault = "slow git"
			plan = "* slow 64"
		case x == 5 && ranged:
			fault = "no checkpoint"
			j.From = w.Commits[w.HeadIdx].SHA
			expectErr = true
		case x == 6 && ranged:
			fault = "checkpoint of another commit, or damaged"
			run := j
			run.Pace, run.Log = nil, nil
			run.Name = "process"
			if _, err := run.run(); err != nil {
				c.Fail("run-error", "%v failed: %v", run, err)
				return
			}
			j.From = w.Commits[w.HeadIdx].SHA
			files := []string{"repo", "blames", "lines", "line-data", "checkpoint-version"}
			p := filepath.Join(j.CP, "pp-git-cache", "checkpoint", files[r.Intn(5)])
			if chance(r, 0.4) {
				must(os.WriteFile(p, []byte("damaged"), 0644))
			} else {
				must(os.RemoveAll(p))
			}
			expectErr = true
			if j.Name != "process" && j.All {
				j.All = false
			}
		case x == 7 && ranged:
			fault = "unknown start commit"
			j.From = randHash(r)
			j.Lax = chance(r, 0.5)
			expectErr = true
		}
		if plan != "" {
			shimDir(shim, plan+"\n")
			for _, kv := range shimEnv(shim) {
				x := strings.SplitN(kv, "=", 2)
				os.Setenv(x[0], x[1])
			}
		}
		tmp := os.Getenv("TMPDIR")
		if plan != "" || fault != "none" {
			// a failing run may end the process where the code panics: keep it apart
			j2 := j
			res := c.inProcess(j2, shim, plan != "", fault)
			os.Setenv("PATH", oldPath)
			switch {
			case c.Failed():
				return
			case res == nil && !strings.HasPrefix(fault, "checkpoint of"):
				c.Fail("crash", "%v with %s ends the process instead of returning an error: %s", j, fault, crashOf(c.lastErr))
				return
			case res == nil:
				c.Count("runs that ended the process", 1)
			case expectErr && res.Err == "":
				c.Fail("no-error", "%v with %s reports success", j, fault)
				return
			case res.Left != "":
				c.Fail("leak", "%v with %s (error %q) leaves behind a %s", j, fault, res.Err, res.Left)
				return
			}
			c.Count("runs with "+fault, 1)
			c.Key("%s|%s|%v", name, fault, res != nil && res.Err != "")
			continue
		}
		debug.SetGCPercent(-1) // finalizers must not tidy up for the code
		g0, f0, t0 := goroutines(), openFDs(), filesUnder(tmp, os.Getenv("HOME"), w.Dir)
		want, err := j.run()
		left := settle(g0, f0, t0, tmp, os.Getenv("HOME"), w.Dir)
		debug.SetGCPercent(100)
		if err != nil {
			c.Fail("run-error", "%v failed: %v", j, err)
			return
		}
		if left != "" {
			c.Fail("leak", "%v leaves behind a %s", j, left)
			return
		}
		// nothing dropped or duplicated, whatever the pace
		j.Pace, j.Log = nil, nil
		j.CP += "b"
		got, err := j.run()
		if err != nil {
			c.Fail("run-error", "%v failed: %v", j, err)
			return
		}
		if d := diffOut(got, want); d != "" {
			c.Fail("dropped", "%v with a slow consumer gives other results than with a fast one: %s", j, d)
			return
		}
		c.Count("successful runs", 1)
		c.Key("%s|ok|%d", name, len(want))
		c.Sample("%v on %s", j, w.F)
	}
}

// undated copies the repository to dir and puts there a commit on top, the date of which nobody can read, and then further commits.
func undated(r *rand.Rand, w *World, dir string) {
	must(exec.Command("cp", "-a", w.Dir, dir).Run())
	head := strings.TrimSpace(gitIn(dir, "", "rev-parse", "HEAD"))
	tree := strings.TrimSpace(gitIn(dir, "", "rev-parse", "HEAD^{tree}"))
	for i, n := 0, 1+r.Intn(12); i < n; i++ {
		date := "1500000000 +0000"
		if i == 0 {
			date = "x +0000"
		}
		raw := fmt.Sprintf("tree %s\nparent %s\nauthor a <a@b> %s\ncommitter a <a@b> 1500000100 +0000\n\nm%d\n", tree, head, date, i)
		head = strings.TrimSpace(gitIn(dir, raw, "hash-object", "-t", "commit", "-w", "--stdin", "--literally"))
	}
	gitIn(dir, "", "update-ref", "HEAD", head)
}

// settle waits for what ends by itself shortly after a call.
func settle(g0 map[string]string, f0 map[string]int, t0 map[string]bool, dirs ...string) (left string) {
	for i := 0; i < 80; i++ {
		left = leftover(g0, f0, t0, dirs...)
		if left == "" {
			return
		}
		runtime.Gosched()
		d := time.Duration(i) * 5 * time.Millisecond
		if d > 100*time.Millisecond {
			d = 100 * time.Millisecond
		}
		time.Sleep(d)
	}
	return
}

// ---- a run in a process of its own

type procRun struct {
	Job  job
	Leak bool
	Pace int
}

type procResult struct {
	Out  map[string]string
	Err  string
	Left string
}

func init() {
	subcommands["job"] = func(args []string) {
		var p procRun
		b, err := os.ReadFile(args[0])
		must(err)
		must(gob.NewDecoder(bytes.NewReader(b)).Decode(&p))
		c := &Case{ID: "job"}
		go deadlockMonitor(c, make(chan bool))
		p.Job.Pace = paceOf(p.Pace)
		var res procResult
		debug.SetGCPercent(-1)
		tmp, home := os.Getenv("TMPDIR"), os.Getenv("HOME")
		g0, f0, t0 := goroutines(), openFDs(), filesUnder(tmp, home, p.Job.Dir)
		out, err := p.Job.run()
		if err != nil {
			res.Err = err.Error()
		}
		if p.Leak {
			res.Left = settle(g0, f0, t0, tmp, home, p.Job.Dir)
		}
		res.Out = out
		var buf bytes.Buffer
		must(gob.NewEncoder(&buf).Encode(res))
		must(os.WriteFile(args[1], buf.Bytes(), 0644))
	}
}

// inProcess runs a job in a process of its own. A nil result means the process
// ended abnormally; a process that cannot make progress is a violation.
func (c *Case) inProcess(j job, shim string, useShim bool, what string) *procResult {
	j.Log = nil
	pace := 0
	if j.Pace != nil {
		pace = 1 + c.Rng.Intn(4)
		j.Pace = nil
	}
	in, out := c.path("job.json"), c.path("job.out")
	os.Remove(out)
	var buf bytes.Buffer
	must(gob.NewEncoder(&buf).Encode(procRun{Job: j, Leak: !c.helperQuick, Pace: pace}))
	must(os.WriteFile(in, buf.Bytes(), 0644))
	self, err := os.Executable()
	must(err)
	argv := append(append([]string{}, c.helperPre...), self, "job", in, out)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = c.helperCwd
	cmd.Env = os.Environ()
	if useShim {
		cmd.Env = append(cmd.Env, shimEnv(shim)...)
	}
	var eb strings.Builder
	cmd.Stderr = &eb
	err = cmd.Run()
	c.lastErr = tailS(eb.String(), 4000)
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			switch ee.ExitCode() {
			case 97:
				harnessErr("job: %s", eb.String())
			case 98:
				c.Fail("hang", "%v with %s cannot make progress any more: %s", j, what, tailS(eb.String(), 4000))
			}
			return nil
		}
		harnessErr("job: %v", err)
	}
	b, err := os.ReadFile(out)
	must(err)
	var res procResult
	must(gob.NewDecoder(bytes.NewReader(b)).Decode(&res))
	return &res
}

func tailS(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- C21

func c21Case(c *Case) {
	r := c.Rng
	w := c.smallWorld("repo", 3+r.Intn(14))
	shim := c.path("shim")
	name := []string{"process", "process", "code", "flat", "meta", "graph", "branches", "branches2", "branchmeta", "default", "blame", "metamap"}[c.N%12]
	j := c.fillJob(job{Name: name, All: chance(r, 0.5), CP: c.path("cp")}, w)
	// an incremental run half of the time
	cp0 := ""
	if (name == "process" || name == "code" || name == "meta") && chance(r, 0.4) && !w.F.Skew {
		st := w.growth(r)
		a := st[0]
		if a.head != w.HeadIdx {
			w.setRefs(a.head, nil)
			cp0 = c.path("cp0")
			if _, err := (job{Name: "process", Dir: w.Dir, CP: cp0}).run(); err != nil {
				c.Fail("run-error", "full run failed: %v", err)
				return
			}
			w.setRefs(w.HeadIdx, w.Refs)
			j.All = false
			j.From, j.Non = w.Commits[a.head].SHA, chance(r, 0.5)
		}
	}
	reset := func() {
		must(os.RemoveAll(j.CP))
		if cp0 != "" {
			copyDir(cp0, j.CP)
		}
	}
	reset()
	shimDir(shim, "")
	ref := c.inProcess(j, shim, true, "no fault")
	if c.Failed() {
		return
	}
	if ref == nil || ref.Err != "" {
		c.Fail("run-error", "%v failed: %+v %s", j, ref, c.lastErr)
		return
	}
	calls := shimCalls(shim)
	if len(calls) == 0 {
		harnessErr("no git command was run")
	}
	c.Sample("%v runs %d git commands, e.g. %s", j, len(calls), calls[len(calls)-1])
	head := w.Commits[w.HeadIdx].SHA
	n := 7
	if c.Tier == "thorough" {
		n = 25
	}
	for k := 0; k < n; k++ {
		at := 1 + r.Intn(len(calls))
		if k < len(calls) {
			at = k + 1
		}
		var fault string
		switch x := r.Intn(10); {
		case x == 0:
			fault = fmt.Sprintf("exit %d", []int{1, 2, 128, 129, 255}[r.Intn(5)])
		case x == 1:
			fault = "kill"
		case x == 2:
			fault = "gone"
		default:
			p := r.Intn(1000)
			if x == 3 {
				p = 1000
			}
			if x == 4 {
				p = 990 + r.Intn(10)
			}
			end := []string{"kill", "1", "128"}[r.Intn(3)]
			fault = fmt.Sprintf("cut %d %s %s", p, end, []string{"line", "byte"}[r.Intn(2)])
		}
		reset()
		plan := fmt.Sprintf("%d %s\n", at, fault)
		if fault == "gone" {
			plan = fmt.Sprintf("%d %s\n", at-1, fault)
		}
		shimDir(shim, plan)
		if fault == "gone" && at == 1 {
			must(os.Remove(filepath.Join(shim, "bin", "git")))
		}
		what := fmt.Sprintf("git command %d (%s) with fault %q", at, clipS(calls[at-1]), fault)
		res := c.inProcess(j, shim, true, what)
		if c.Failed() {
			return
		}
		outcome := ""
		switch {
		case res == nil:
			c.Fail("crash", "%v with %s ends the process instead of returning an error: %s", j, what, crashOf(c.lastErr))
			return
		case res.Err != "":
			outcome = "error"
		default:
			outcome = "complete results"
			if d := diffOut(ref.Out, res.Out); d != "" {
				c.Fail("false-success", "%v with %s reports success, but its results are not complete: %s", j, what, d)
				return
			}
		}
		if outcome != "complete results" && (name == "process" || name == "code" || name == "flat") {
			_, err, ok := loadState(c, j.CP, head, what)
			if ok && err == nil {
				c.Fail("false-checkpoint", "%v with %s fails, but leaves a checkpoint for its last commit", j, what)
				return
			}
			if !ok {
				return
			}
			c.Count("checkpoints looked for", 1)
		}
		c.Count("faulty runs", 1)
		c.Count("outcome: "+outcome, 1)
		c.Key("%s|%s|%s|%s", name, strings.SplitN(fault, " ", 3)[0], gitVerb(calls[at-1]), outcome)
	}
}

// crashOf is the start of the panic in what a process wrote.
func crashOf(s string) string {
	i := strings.Index(s, "panic:")
	if i < 0 {
		return clipS(s)
	}
	return s[i:min(len(s), i+900)]
}

// gitVerb is the git subcommand in a logged argument list.
func gitVerb(call string) string {
	for _, f := range strings.Split(strings.Trim(call, "[]"), "\" \"") {
		f = strings.Trim(f, "\"")
		if f == "-c" || strings.Contains(f, "=") || strings.HasPrefix(f, "-") {
			continue
		}
		return f
	}
	return "?"
}

func init() {
	register(&Check{ID: "C19", Quick: 192, Thorough: 3000, Build: "lite", Level: "exploration", Min: 40,
		Tech:   "runtime leak monitor (goroutines, descriptors, children, temporary files) around every call, with slow consumers and injected failures",
		Note:   "Hundreds of successful and failing calls of every analysis; sampled, not exhaustive.",
		Rule:   "one evaluation is five calls on one repository; a situation is analysis, fault and whether it failed",
		Assume: []string{"work that ends by itself within five seconds after the call counts as ended with it"},
		Run:    c19Case})
	register(&Check{ID: "C21", Quick: 96, Thorough: 2000, Build: "lite", Level: "exploration", Min: 40,
		Tech:   "fault injection: a stand-in for git that fails, dies or truncates at chosen commands, with a result monitor",
		Note:   "Every git command of every analysis is hit with sampled faults and cut points.",
		Rule:   "one evaluation is one analysis run undisturbed and then with seven (thorough: 25) faults; a situation is analysis, fault kind, git subcommand and outcome",
		Assume: []string{"a git command that reports success has delivered its complete output"},
		Run:    c21Case})
}
