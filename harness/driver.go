package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err == nil {
		must(json.Unmarshal(b, &k))
	}
	return k
}

type driver struct {
	ck   *Check
	seed int64
	tier string
	root string

	mu       sync.Mutex
	next     int
	total    int
	done     int
	findings []Finding
	known    map[string]string
	knownHit map[string]int
	counts   map[string]int64
	keys     map[string]bool
	samples  []string
	inconcl  []string
	harness  []string
	hits     int
}

var caseWall = 150 * time.Second

func drive(id string) int {
	ck := checks[id]
	if ck == nil {
		harnessErr("no check %s", id)
	}
	d := &driver{ck: ck, known: map[string]string{}, knownHit: map[string]int{}, counts: map[string]int64{}, keys: map[string]bool{}}
	d.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		must(err)
		d.seed = v
	}
	d.tier = os.Getenv("VERIF_TIER")
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	d.total = ck.Quick
	if d.tier == "thorough" {
		d.total = ck.Thorough
		caseWall = 400 * time.Second
	}
	if s := os.Getenv("VH_CASES"); s != "" {
		d.total, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VH_FROM"); s != "" {
		d.next, _ = strconv.Atoi(s)
	}
	for _, k := range loadKnown().Known {
		if k.Property == id {
			d.known[k.Sig] = k.What
		}
	}
	d.root = scratchRoot("vh-" + id + "-")
	defer os.RemoveAll(d.root)
	start := time.Now()
	n := ck.Workers
	if n == 0 {
		n = 8
		if c := runtime.NumCPU(); c < n {
			n = c
		}
		if n < 2 {
			n = 2
		}
	}
	if n > d.total {
		n = d.total
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d.runWorker(i)
		}(i)
	}
	wg.Wait()
	return d.report(time.Since(start))
}

func (d *driver) take() (int, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	// enough evidence of breakage: stop early
	if d.hits >= 3 || len(d.harness) > 0 || d.next >= d.total {
		return 0, false
	}
	n := d.next
	d.next++
	return n, true
}

func (d *driver) addFinding(f Finding) {
	if _, ok := d.known[f.Sig]; ok {
		d.knownHit[f.Sig]++
		return
	}
	d.hits++
	d.findings = append(d.findings, f)
}

func (d *driver) merge(r Result) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.done++
	for _, f := range r.Findings {
		d.addFinding(f)
	}
	for k, v := range r.Counts {
		if strings.HasPrefix(k, "max ") {
			if v > d.counts[k] {
				d.counts[k] = v
			}
		} else {
			d.counts[k] += v
		}
	}
	for _, k := range r.Keys {
		d.keys[k] = true
	}
	if r.Sample != "" && len(d.samples) < 4 {
		d.samples = append(d.samples, r.Sample)
	}
	if r.Inconcl != "" {
		d.inconcl = append(d.inconcl, fmt.Sprintf("case %d: %s", r.Case, r.Inconcl))
	}
}

type workerProc struct {
	cmd   *exec.Cmd
	in    *os.File
	lines chan string
	errf  string
	race  string
}

func (d *driver) startWorker(i, gen int) *workerProc {
	root := filepath.Join(d.root, fmt.Sprintf("w%d.%d", i, gen))
	must(os.MkdirAll(root, 0755))
	self, err := os.Executable()
	must(err)
	w := &workerProc{lines: make(chan string, 4)}
	w.cmd = exec.Command(self, "worker", d.ck.ID)
	w.race = filepath.Join(root, "race")
	w.cmd.Env = append(os.Environ(), "VH_ROOT="+root, "VH_TIER="+d.tier, "VH_SEED="+strconv.FormatInt(d.seed, 10),
		"GORACE=halt_on_error=0 history_size=3 log_path="+w.race)
	w.errf = filepath.Join(root, "stderr")
	ef, err := os.Create(w.errf)
	must(err)
	of, err := os.Create(filepath.Join(root, "stdout"))
	must(err)
	w.cmd.Stderr, w.cmd.Stdout = ef, of
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	pr, pw, err := os.Pipe()
	must(err)
	ir, iw, err := os.Pipe()
	must(err)
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Stdin = ir
	w.in = iw
	// Pdeathsig is tied to the starting thread
	runtime.LockOSThread()
	must(w.cmd.Start())
	pw.Close()
	ir.Close()
	ef.Close()
	of.Close()
	go func() {
		rd := bufio.NewReaderSize(pr, 1<<20)
		for {
			s, err := rd.ReadString('\n')
			if err != nil {
				break
			}
			w.lines <- s
		}
		close(w.lines)
		pr.Close()
	}()
	return w
}

func (w *workerProc) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	for range w.lines {
	}
	w.cmd.Wait()
	w.in.Close()
}

func tail(file string, n int) string {
	b, _ := os.ReadFile(file)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// crashText picks the interesting part of a dead worker's stderr.
func crashText(file string) string {
	b, _ := os.ReadFile(file)
	s := string(b)
	for _, m := range []string{"DEADLOCK in case", "panic: ", "fatal error: ", "HARNESS-ERROR"} {
		if i := strings.LastIndex(s, m); i >= 0 {
			from := i - 400
			if from < 0 {
				from = 0
			}
			s = s[from:]
			break
		}
	}
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+|[0-9a-f]{40}|\d+`)

// crashSig names a crash by its message with ids and numbers removed and the
// innermost frame of the code under test.
func crashSig(s string) string {
	msg := ""
	if i := strings.Index(s, "panic: "); i >= 0 {
		msg = strings.SplitN(s[i:], "\n", 2)[0]
	} else if i := strings.Index(s, "fatal error: "); i >= 0 {
		msg = strings.SplitN(s[i:], "\n", 2)[0]
	} else if strings.Contains(s, "DEADLOCK in case") {
		return "deadlock"
	}
	fr := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/pinpt/ripsrc") {
			fr = l
			if k := strings.LastIndex(fr, "("); k > 0 {
				fr = fr[:k]
			}
			break
		}
	}
	if len(msg) > 80 {
		msg = msg[:80]
	}
	return "crash:" + hexRe.ReplaceAllString(msg, "#") + "@" + fr
}

func (d *driver) runWorker(i int) {
	var w *workerProc
	gen := 0
	defer func() {
		if w != nil {
			w.in.Close()
			for range w.lines {
			}
			err := w.cmd.Wait()
			if err != nil && d.ck.Build != "race" {
				d.mu.Lock()
				d.harness = append(d.harness, fmt.Sprintf("worker ended with %v: %s", err, tail(w.errf, 2000)))
				d.mu.Unlock()
			}
			d.races(w)
		}
	}()
	for {
		n, ok := d.take()
		if !ok {
			return
		}
		if w == nil {
			w = d.startWorker(i, gen)
			gen++
		}
		cpu0 := cpuSeconds(w.cmd.Process.Pid)
		if _, err := fmt.Fprintf(w.in, "%d\n", n); err != nil {
			d.mu.Lock()
			d.harness = append(d.harness, "cannot reach worker: "+err.Error())
			d.mu.Unlock()
			return
		}
		timer := time.NewTimer(caseWall)
		select {
		case s, ok := <-w.lines:
			timer.Stop()
			if ok {
				var r Result
				must(json.Unmarshal([]byte(s), &r))
				d.merge(r)
				continue
			}
			err := w.cmd.Wait()
			code := -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			txt := crashText(w.errf)
			d.races(w)
			w.in.Close()
			w = nil
			d.mu.Lock()
			d.done++
			if code == 97 || (code == -1 && !strings.Contains(txt, "panic")) {
				d.harness = append(d.harness, fmt.Sprintf("case %d: worker exit %d: %s", n, code, txt))
			} else {
				d.addFinding(Finding{Property: d.ck.ID, Case: n, Seed: d.seed, Tier: d.tier, Sig: crashSig(txt), Msg: fmt.Sprintf("the process running the code under test ended abnormally (exit %d):\n%s", code, txt)})
			}
			d.mu.Unlock()
		case <-timer.C:
			used := cpuSeconds(w.cmd.Process.Pid) - cpu0
			w.cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(500 * time.Millisecond)
			w.kill()
			txt := tail(w.errf, 6000)
			w = nil
			d.mu.Lock()
			d.done++
			if used > 60 {
				d.addFinding(Finding{Property: d.ck.ID, Case: n, Seed: d.seed, Tier: d.tier, Sig: "no-progress", Msg: fmt.Sprintf("no result after %.0f CPU seconds on a case that normally takes well under one:\n%s", used, txt)})
			} else {
				d.inconcl = append(d.inconcl, fmt.Sprintf("case %d: no answer within %v (%.0f CPU seconds): %s", n, caseWall, used, txt))
			}
			d.mu.Unlock()
		}
	}
}

func (d *driver) report(wall time.Duration) int {
	for _, s := range sortedKeys(d.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", d.ck.ID, d.known[s], d.knownHit[s])
	}
	ev := map[string]interface{}{
		"property": d.ck.ID, "tier": d.tier, "seed": d.seed, "level": d.ck.Level, "wall_s": wall.Seconds(),
		"violations":  len(d.findings),
		"assumptions": d.ck.Assume,
		"coverage": map[string]interface{}{
			"evaluations": d.done, "distinct_nontrivial": len(d.keys), "rule": d.ck.Rule, "samples": d.samples, "observed": d.counts,
			"known_findings_seen": d.knownHit, "inconclusive": len(d.inconcl),
		},
	}
	if d.ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if d.samples == nil {
		ev["coverage"].(map[string]interface{})["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	must(os.WriteFile(filepath.Join(verifDir(), "evidence", d.ck.ID+".json"), append(b, '\n'), 0644))
	var obs []string
	for _, k := range sortedKeys(d.counts) {
		obs = append(obs, fmt.Sprintf("%s=%d", k, d.counts[k]))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs; observed %s\n", d.ck.ID, d.tier, d.seed, d.done, len(d.keys), wall.Seconds(), strings.Join(obs, " "))
	if len(d.findings) > 0 {
		sort.SliceStable(d.findings, func(i, j int) bool { return d.findings[i].Case < d.findings[j].Case })
		out := filepath.Join(verifDir(), "out")
		os.MkdirAll(out, 0755)
		for i, f := range d.findings {
			if i >= 5 {
				break
			}
			p := filepath.Join(out, fmt.Sprintf("%s-seed%d-case%d-%d.json", f.Property, f.Seed, f.Case, i))
			b, _ := json.MarshalIndent(f, "", " ")
			must(os.WriteFile(p, append(b, '\n'), 0644))
			fmt.Printf("--- [%s] case %d: %s\n", f.Sig, f.Case, f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, p)
		}
		return 1
	}
	if len(d.harness) > 0 {
		for _, h := range d.harness {
			fmt.Println("HARNESS:", h)
		}
		return 2
	}
	if len(d.inconcl) > 0 {
		for i, h := range d.inconcl {
			if i < 5 {
				fmt.Println("INCONCLUSIVE:", h)
			}
		}
		return 2
	}
	if len(d.keys) < d.ck.Min || len(d.keys) < 2 {
		fmt.Printf("INCONCLUSIVE: only %d distinct non-trivial situations observed\n", len(d.keys))
		return 2
	}
	return 0
}

// races collects race detector reports of a finished worker.
func (d *driver) races(w *workerProc) {
	files, _ := filepath.Glob(w.race + ".*")
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			key := raceKey(blk)
			d.mu.Lock()
			d.counts["race reports"]++
			if !seen[key] {
				seen[key] = true
				if len(blk) > 5000 {
					blk = blk[:5000]
				}
				dup := false
				for _, o := range d.findings {
					if o.Sig == "race:"+key {
						dup = true
					}
				}
				if !dup {
					if strings.Contains(blk, "github.com/pinpt/ripsrc") {
						d.addFinding(Finding{Property: d.ck.ID, Case: 0, Seed: d.seed, Tier: d.tier, Sig: "race:" + key, Msg: blk})
					} else {
						d.harness = append(d.harness, "race report outside the code under test: "+blk)
					}
				}
			}
			d.mu.Unlock()
		}
		os.Remove(f)
	}
}

// raceKey is the pair of innermost functions of the two accesses.
func raceKey(blk string) string {
	var fr []string
	lines := strings.Split(blk, "\n")
	for i, l := range lines {
		if (strings.Contains(l, "ead at 0x") || strings.Contains(l, "rite at 0x")) && i+1 < len(lines) {
			f := strings.TrimSpace(lines[i+1])
			for _, m := range lines[i+1:] {
				m = strings.TrimSpace(m)
				if m == "" {
					break
				}
				if strings.HasPrefix(m, "github.com/pinpt/ripsrc") {
					f = m
					break
				}
			}
			if k := strings.Index(f, "("); k > 0 && strings.HasSuffix(f, ")") {
				f = strings.TrimSuffix(f, "()")
			}
			fr = append(fr, f)
		}
	}
	sort.Strings(fr)
	return strings.Join(fr, "|")
}
