package main

// C08: kills and I/O failures at every file system operation of a save.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

const tracedCalls = "openat,open,creat,read,pread64,write,pwrite64,close,rename,renameat,renameat2,mkdir,mkdirat,unlink,unlinkat,rmdir,link,linkat,symlinkat,ftruncate,fsync,fdatasync,getdents64,newfstatat,fstat,lseek,fallocate,copy_file_range,sendfile"

var ckptBin = func() string {
	self, _ := os.Executable()
	return filepath.Join(filepath.Dir(self), "ckpt")
}()

type ioPoint struct {
	call string
	n    int
	what string
	path string // of the closed file of the state
	nth  int    // close of it
}

var closedFile = regexp.MustCompile(`^close\(\d+<([^>]*)>\)`)
var straceLine = regexp.MustCompile(`^(\w+)\((.*)`)

// traced runs the helper under strace and returns its exit code (-1: killed).
func traced(log, inject, path string, args []string) (int, string) {
	a := []string{"-y", "-o", log, "-s", "200", "-e", "trace=" + tracedCalls, "-e", "signal=none"}
	if inject != "" {
		a = append(a, "-e", "inject="+inject)
	}
	if path != "" {
		a = append(a, "-P", path)
	}
	cmd := exec.Command("strace", append(append(a, ckptBin), args...)...)
	var eb strings.Builder
	cmd.Stderr = &eb
	must(cmd.Start())
	// whatever waits for long is killed, which is one more kill
	t := time.AfterFunc(40*time.Second, func() {
		exec.Command("pkill", "-KILL", "-P", fmt.Sprint(cmd.Process.Pid)).Run()
		cmd.Process.Kill()
	})
	err := cmd.Wait()
	t.Stop()
	if err == nil {
		return 0, ""
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		harnessErr("strace: %v", err)
	}
	return ee.ExitCode(), eb.String()
}

// ioPoints lists the file system operations from the first one on the state on.
func ioPoints(log, cp string) (res []ioPoint) {
	b, err := os.ReadFile(log)
	must(err)
	count := map[string]int{}
	on := false
	for _, l := range strings.Split(string(b), "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		count[m[1]]++
		if strings.Contains(m[2], cp) {
			on = true
		}
		x := ioPoint{call: m[1], n: count[m[1]], what: strings.Replace(l, cp, "CP", -1)}
		if f := closedFile.FindStringSubmatch(l); f != nil && strings.HasPrefix(f[1], cp) {
			count[f[1]]++
			x.path, x.nth = f[1], count[f[1]]
		}
		if on {
			res = append(res, x)
		}
	}
	return
}

type stored struct {
	commit, text string
}

func loadState(c *Case, dir, expect, what string) (r repo.Repo, err error, ok bool) {
	ok = c.guarded(what, func() {
		r, err = repo.NewCheckpointReader(quietLogger()).Read(filepath.Join(dir, "pp-git-cache"), expect)
	})
	return
}

func readState(c *Case, dir, expect, what string) (text string, err error, ok bool) {
	r, err, ok := loadState(c, dir, expect, what)
	if ok && err == nil {
		text = canonRepo(r)
	}
	return
}

// judgeState checks that strict reads give one of the complete states or an error.
func (c *Case) judgeState(cp, what string, states []stored, other string) (have string) {
	for _, s := range states {
		t, err, ok := readState(c, cp, s.commit, what+", resume from "+short(s.commit))
		if !ok {
			return
		}
		if err == nil {
			if t != s.text {
				c.Fail("partial-state", "%s: a strict resume from %s is accepted, but the state read is not the one saved for it (- saved, + read): %s", what, short(s.commit), firstDiff(s.text, t))
				return
			}
			have = s.commit
		}
	}
	if _, err, ok := readState(c, cp, other, what+", resume from another commit"); ok && err == nil {
		c.Fail("wrong-commit", "%s: a strict resume from %s is accepted, no state was ever saved for it", what, other)
		return
	}
	t, err, ok := readState(c, cp, "", what+", non-strict resume")
	if ok && err == nil {
		for _, s := range states {
			if s.text == t {
				return
			}
		}
		c.Fail("partial-state", "%s: a non-strict resume is accepted with a state that no run saved", what)
	}
	return
}

func c08Case(c *Case) {
	r := c.Rng
	f := randomFeatures(r)
	f.NCommits = 3 + r.Intn(8)
	f.Long, f.Skew = false, false
	w := c.makeWorld(f)
	st := w.growth(r)
	for len(st) > 1 && st[len(st)-1].head == st[len(st)-2].head {
		st = st[:len(st)-1]
	}
	cp := c.path("cp") // where all runs keep their state; replaced between runs
	old := c.path("old")
	reset := func() {
		must(os.RemoveAll(cp))
		must(os.MkdirAll(cp, 0755))
		if _, err := os.Stat(old); err == nil {
			copyDir(old, cp)
		}
	}
	var states []stored
	args := []string{w.Dir, cp}
	desc := "first save"
	if len(st) > 1 && chance(r, 0.75) {
		a := st[r.Intn(len(st)-1)]
		w.setRefs(a.head, a.refs)
		res, _, err := runProcess(process.Opts{RepoDir: w.Dir, CheckpointsDir: old})
		if err != nil {
			c.Fail("run-error", "full run failed: %v", err)
			return
		}
		last := res[len(res)-1].Commit
		t, err, ok := readState(c, old, last, "after a full run")
		if !ok {
			return
		}
		if err != nil {
			c.Fail("not-in-place", "after a successful run the state for %s cannot be read: %v", short(last), err)
			return
		}
		states = append(states, stored{last, t})
		desc = "full run over an older state"
		if chance(r, 0.7) {
			args = append(args, last, fmt.Sprint(chance(r, 0.5)), fmt.Sprint(chance(r, 0.3)))
			desc = "incremental run nonincl/nonstrict=" + strings.Join(args[3:], "/")
		}
	}
	end := st[len(st)-1]
	w.setRefs(end.head, end.refs)
	headSHA := w.Commits[end.head].SHA

	// the undisturbed run
	reset()
	log := c.path("log")
	code, msg := traced(log, "", "", args)
	if code == 97 || strings.Contains(msg, "strace:") {
		harnessErr("strace does not work here: %s", msg)
	}
	if code != 0 {
		c.Fail("run-error", "%s ended with %d: %s", desc, code, msg)
		return
	}
	t, err, ok := readState(c, cp, headSHA, desc)
	if !ok {
		return
	}
	if err != nil {
		if len(states) == 0 || states[0].commit != headSHA {
			c.Fail("not-in-place", "%s succeeded, but the state for %s cannot be read: %v", desc, short(headSHA), err)
		}
		return
	}
	if len(states) > 0 && states[0].commit == headSHA {
		states = nil
	}
	states = append(states, stored{headSHA, t})
	points := ioPoints(log, cp)
	if len(points) == 0 {
		harnessErr("no file system operation on the state was traced")
	}
	c.Count("operations of undisturbed runs", len(points))
	c.Sample("%s: %d file system operations, e.g. %s", desc, len(points), points[len(points)-1].what)
	other := randHash(r)
	n := 24
	if c.Tier == "thorough" {
		n = 120
	}
	perm := r.Perm(len(points))
	if len(perm) > n {
		// the operations that change something come first
		var a, b []int
		for _, i := range perm {
			switch points[i].call {
			case "read", "newfstatat", "fstat", "lseek", "getdents64":
				b = append(b, i)
			default:
				a = append(a, i)
			}
		}
		perm = append(a, b...)[:n]
	}
	for k, i := range perm {
		p := points[i]
		inj := fmt.Sprintf("%s:signal=SIGKILL:when=%d", p.call, p.n)
		kind := "killed"
		only := ""
		// a close that is made to fail does not close, so this is done to
		// files of the state only: an open pipe would keep git waiting
		if (k%5 == 2 || k%5 == 4) && (p.call != "close" || p.path != "") {
			e := []string{"ENOSPC", "EIO", "EACCES", "EDQUOT"}[r.Intn(4)]
			inj = fmt.Sprintf("%s:error=%s:when=%d", p.call, e, p.n)
			kind = e
			if p.call == "close" {
				inj = fmt.Sprintf("close:error=%s:when=%d", e, p.nth)
				only = p.path
			} else if chance(r, 0.4) {
				inj += "+"
				kind += " from there on"
			}
		}
		reset()
		code, msg := traced(log, inj, only, args)
		what := fmt.Sprintf("%s, %s at call %d of %s (%s), exit %d", desc, kind, p.n, p.call, clipS(p.what), code)
		have := c.judgeState(cp, what, states, other)
		if c.Failed() {
			return
		}
		if code == 0 && have != headSHA {
			c.Fail("not-in-place", "%s: the run reports success, but the new state for %s is not in place", what, short(headSHA))
			return
		}
		c.Count("disturbed saves", 1)
		switch {
		case have == "":
			c.Count("outcome: refused", 1)
		case have == headSHA:
			c.Count("outcome: new state", 1)
		default:
			c.Count("outcome: earlier state", 1)
		}
		if code == 0 {
			c.Count("disturbed but successful", 1)
		}
		c.Key("%s|%s|%s|%v", p.call, strings.SplitN(p.what, " =", 2)[0][:min(60, len(strings.SplitN(p.what, " =", 2)[0]))], kind, have == "")
		if code != 0 && kind != "killed" && strings.Contains(msg, "goroutine ") {
			c.Fail("crash", "%s: the failing call is not reported as an error, the run crashes: %s", what, clipS(msg))
			return
		}
		if k%6 == 0 {
			// a full run in this state of affairs always succeeds
			res, _, err := runProcess(process.Opts{RepoDir: w.Dir, CheckpointsDir: cp})
			if err != nil {
				c.Fail("no-recovery", "%s: the next full run fails: %v", what, err)
				return
			}
			l := res[len(res)-1].Commit
			if _, err, ok := readState(c, cp, l, what+", after recovery"); ok && err != nil {
				c.Fail("no-recovery", "%s: after the next full run the state for %s cannot be read: %v", what, short(l), err)
			}
			if c.Failed() {
				return
			}
			c.Count("recoveries", 1)
		}
	}
	// whole runs refuse a state saved for another commit
	reset()
	if code, _ := traced(log, "", "", args); code != 0 {
		c.Fail("run-error", "%s ended with %d", desc, code)
		return
	}
	for k := 0; k < 3; k++ {
		x := r.Intn(len(w.Commits))
		if w.Commits[x].SHA == headSHA || !w.ancestors(end.head)[x] {
			continue
		}
		o := process.Opts{RepoDir: w.Dir, CheckpointsDir: cp, CommitFromIncl: w.Commits[x].SHA, CommitFromMakeNonIncl: chance(r, 0.5)}
		_, _, err := runProcess(o)
		if err == nil {
			c.Fail("wrong-commit", "the state was saved for %s, a strict resume from %s (#%d) is accepted", short(headSHA), short(o.CommitFromIncl), x)
			return
		}
		c.Count("refused resumes from other commits", 1)
		if c.judgeState(cp, "after a refused resume", states[len(states)-1:], other) != headSHA && !c.Failed() {
			c.Fail("not-in-place", "a refused strict resume from %s damaged the state for %s", short(o.CommitFromIncl), short(headSHA))
			return
		}
	}
}

func init() {
	register(&Check{ID: "C08", Quick: 192, Thorough: 1500, Build: "lite", Level: "exploration", Min: 60,
		Tech:   "fault injection: SIGKILL and I/O errors at individual system calls of real runs (strace inject), with a state monitor afterwards",
		Note:   "Every kind of file system operation of a save is hit, over generated states; points are sampled in the quick tier.",
		Rule:   "one evaluation is one run disturbed at up to 24 (thorough: 120) of its file system operations; a situation is the operation, its target, the disturbance and whether the state was refused",
		Assume: []string{"crashes are process kills and failing system calls; loss of written data by a power failure is out of scope (the code does not sync)", "undisturbed saves are judged by C09"},
		Run:    c08Case})
}
