package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Finding is one violation reported by a monitor. Sig identifies the kind of
// failure; known findings are matched on it.
type Finding struct {
	Property string `json:"property"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Sig      string `json:"sig"`
	Msg      string `json:"msg"`
}

// Result is what one case observed.
type Result struct {
	Case     int              `json:"case"`
	Findings []Finding        `json:"findings,omitempty"`
	Counts   map[string]int64 `json:"counts,omitempty"`
	Keys     []string         `json:"keys,omitempty"` // distinct non-trivial situations observed
	Sample   string           `json:"sample,omitempty"`
	Inconcl  string           `json:"inconclusive,omitempty"`
}

type Case struct {
	ID   string
	Seed int64
	N    int
	Tier string
	Rng  *rand.Rand
	Dir  string // scratch, removed afterwards

	mu      sync.Mutex
	res     Result
	lastErr string // error output of the last helper process
	// how inProcess starts its helper, if not plainly
	helperPre   []string
	helperCwd   string
	helperQuick bool // no look for leaks
}

func newCase(id string, seed int64, n int, tier, root string) *Case {
	c := &Case{ID: id, Seed: seed, N: n, Tier: tier, Rng: caseRng(seed, id, n)}
	c.Dir = filepath.Join(root, fmt.Sprintf("case%d", n))
	c.res.Case = n
	c.res.Counts = map[string]int64{}
	return c
}

// Fail records a violation.
func (c *Case) Fail(sig, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Findings) >= 8 {
		return
	}
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	c.res.Findings = append(c.res.Findings, Finding{Property: c.ID, Case: c.N, Seed: c.Seed, Tier: c.Tier, Sig: sig, Msg: msg})
}

func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Findings) > 0
}

// Count adds to an observation counter.
func (c *Case) Count(name string, n int) {
	c.mu.Lock()
	c.res.Counts[name] += int64(n)
	c.mu.Unlock()
}

// Key notes one distinct non-trivial situation.
func (c *Case) Key(format string, args ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, args...)
	c.mu.Lock()
	c.res.Keys = append(c.res.Keys, fmt.Sprintf("%x", h.Sum64()))
	c.mu.Unlock()
}

func (c *Case) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if c.res.Sample == "" {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700]
		}
		c.res.Sample = s
	}
	c.mu.Unlock()
}

func (c *Case) Inconclusive(format string, args ...interface{}) {
	c.mu.Lock()
	c.res.Inconcl = fmt.Sprintf(format, args...)
	c.mu.Unlock()
}

// harnessErr aborts the whole worker: the harness itself failed, nothing is
// known about the code under test.
func harnessErr(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(97)
}

func must(err error) {
	if err != nil {
		harnessErr("%v", err)
	}
}

func (c *Case) path(p ...string) string {
	return filepath.Join(append([]string{c.Dir}, p...)...)
}

// ---- git, for the harness's own use

var realGit = func() string {
	p, err := exec.LookPath("git")
	if err != nil {
		return "/usr/bin/git"
	}
	return p
}()

func gitEnvBase() []string {
	var e []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GIT_") {
			continue
		}
		e = append(e, kv)
	}
	return append(e, "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_NOSYSTEM=1", "GIT_PAGER=cat", "LC_ALL=C.UTF-8")
}

func gitTry(dir, stdin string, args ...string) (string, error) {
	cmd := exec.Command(realGit, args...)
	cmd.Dir = dir
	cmd.Env = append(gitEnvBase(), "GIT_OPTIONAL_LOCKS=0")
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return string(out), fmt.Errorf("git %s: %v: %s", strings.Join(args, " "), err, eb.String())
	}
	return string(out), nil
}

func git(dir string, args ...string) string {
	out, err := gitTry(dir, "", args...)
	must(err)
	return out
}

func gitIn(dir, stdin string, args ...string) string {
	out, err := gitTry(dir, stdin, args...)
	must(err)
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func short(s string) string {
	if len(s) > 8 {
		return s[:8]
	}
	return s
}

func gitEnvIn(dir string, env []string, args ...string) string {
	cmd := exec.Command(realGit, args...)
	cmd.Dir = dir
	cmd.Env = append(gitEnvBase(), env...)
	out, err := cmd.Output()
	must(err)
	return string(out)
}
