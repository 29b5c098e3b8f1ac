package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Check struct {
	ID       string
	Quick    int // number of cases
	Thorough int
	Workers  int // 0: 8
	Build    string
	Level    string
	Tech     string // technique, for MANIFEST.json
	Note     string // level note, for MANIFEST.json
	Rule     string
	Assume   []string
	Min      int // least distinct non-trivial situations for a verdict
	Run      func(c *Case)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | worker ID | replay FILE | case ID SEED N [TIER] | list")
		os.Exit(2)
	}
	if f, ok := subcommands[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	switch os.Args[1] {
	case "check":
		os.Exit(drive(os.Args[2]))
	case "worker":
		worker(os.Args[2])
	case "list":
		for _, id := range sortedKeys(checks) {
			c := checks[id]
			fmt.Println(id, c.Build, c.Level, c.Tech+" :: "+c.Note)
		}
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		must(err)
		var f Finding
		must(json.Unmarshal(b, &f))
		os.Exit(one(f.Property, f.Seed, f.Case, f.Tier))
	case "case":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		n, _ := strconv.Atoi(os.Args[4])
		tier := "quick"
		if len(os.Args) > 5 {
			tier = os.Args[5]
		}
		os.Exit(one(os.Args[2], seed, n, tier))
	default:
		harnessErr("unknown command %s", os.Args[1])
	}
}

// subcommands used by checks that need a fresh process around the code under test.
var subcommands = map[string]func(args []string){}

func scratchRoot(prefix string) string {
	d, err := os.MkdirTemp("", prefix)
	must(err)
	return d
}

// workerEnv gives the code under test a clean, private environment.
func workerEnv(root string) {
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		if strings.HasPrefix(k, "GIT_") {
			os.Unsetenv(k)
		}
	}
	os.Setenv("GIT_CONFIG_GLOBAL", "/dev/null")
	os.Setenv("GIT_CONFIG_NOSYSTEM", "1")
	home := filepath.Join(root, "home")
	tmp := filepath.Join(root, "tmp")
	must(os.MkdirAll(home, 0755))
	must(os.MkdirAll(tmp, 0755))
	os.Setenv("HOME", home)
	os.Setenv("TMPDIR", tmp)
	os.Setenv("LC_ALL", "C.UTF-8")
	os.Setenv("NO_COLOR", "1")
	must(os.Chdir(home))
}

func runCase(ck *Check, c *Case) Result {
	must(os.MkdirAll(c.Dir, 0755))
	stop := make(chan bool)
	go deadlockMonitor(c, stop)
	ck.Run(c)
	close(stop)
	if os.Getenv("VH_KEEP") == "" {
		os.RemoveAll(c.Dir)
		os.RemoveAll(os.Getenv("TMPDIR"))
		os.MkdirAll(os.Getenv("TMPDIR"), 0755)
	}
	return c.res
}

func one(id string, seed int64, n int, tier string) int {
	ck := checks[id]
	if ck == nil {
		harnessErr("no check %s", id)
	}
	root := scratchRoot("vh-" + id + "-")
	if os.Getenv("VH_KEEP") != "" {
		fmt.Println("scratch:", root)
	} else {
		defer os.RemoveAll(root)
	}
	workerEnv(root)
	c := newCase(id, seed, n, tier, root)
	r := runCase(ck, c)
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(strings.ReplaceAll(string(b), "\\n", "\n"))
	if len(r.Findings) > 0 {
		return 1
	}
	return 0
}

// worker reads case numbers on stdin and answers each with one JSON line on fd 3.
func worker(id string) {
	ck := checks[id]
	root := os.Getenv("VH_ROOT")
	seed, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	tier := os.Getenv("VH_TIER")
	workerEnv(root)
	out := os.NewFile(3, "results")
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		n, err := strconv.Atoi(sc.Text())
		must(err)
		c := newCase(id, seed, n, tier, root)
		r := runCase(ck, c)
		b, err := json.Marshal(r)
		must(err)
		_, err = out.Write(append(b, '\n'))
		must(err)
	}
}

// stacks returns the stacks of all goroutines as separate blocks.
func stacks() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return strings.Split(strings.TrimSpace(string(buf)), "\n\n")
}

// deadlockMonitor recognises a state that cannot make progress any more: every
// goroutine (except the harness's own idle ones) is blocked on a channel, lock
// or wait group, nothing is runnable, in a system call or waiting for I/O or a
// timer, and no child process exists. Such a state never changes, so seeing it
// is a verdict that does not depend on the clock.
func deadlockMonitor(c *Case, stop chan bool) {
	same := 0
	prev := ""
	t := time.NewTicker(1500 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
		}
		if c.ID == "C19" && os.Getenv("VH_NODEADLOCK") != "" {
			continue
		}
		blocks := stacks()
		stuck := true
		var sig []string
		for _, b := range blocks {
			head := strings.SplitN(b, "\n", 2)[0]
			if strings.Contains(b, "main.deadlockMonitor") || strings.Contains(b, "os/signal.") {
				continue
			}
			i, j := strings.Index(head, "["), strings.Index(head, "]")
			if i < 0 || j < i {
				continue
			}
			st := strings.SplitN(head[i+1:j], ",", 2)[0]
			switch st {
			case "chan receive", "chan send", "select", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)", "GC worker (idle)", "force gc (idle)", "finalizer wait", "GC sweep wait", "GC scavenge wait", "cleanup wait":
			default:
				stuck = false
			}
			sig = append(sig, head[:i]+st)
		}
		if stuck && len(children(os.Getpid())) > 0 {
			stuck = false
		}
		s := strings.Join(sig, "|")
		if stuck && s == prev {
			same++
		} else {
			same = 0
		}
		prev = s
		if same >= 4 {
			fmt.Fprintf(os.Stderr, "DEADLOCK in case %d\n%s\n", c.N, strings.Join(blocks, "\n\n"))
			os.Exit(98)
		}
	}
}

func children(pid int) (res []int) {
	tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pid))
	for _, t := range tasks {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		for _, f := range strings.Fields(string(b)) {
			n, _ := strconv.Atoi(f)
			res = append(res, n)
		}
	}
	return
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 15 {
		return 0
	}
	var t float64
	for _, i := range []int{11, 12, 13, 14} {
		v, _ := strconv.ParseFloat(f[i], 64)
		t += v
	}
	return t / 100
}

var _ = io.EOF
var _ = syscall.SIGKILL
