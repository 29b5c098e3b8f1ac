// gitshim stands in for git: it numbers the invocations, runs the real git and
// misbehaves at the planned ones. SHIM_DIR holds the plan and the log.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	dir := os.Getenv("SHIM_DIR")
	real := os.Getenv("SHIM_GIT")
	n := 1
	for ; ; n++ {
		f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("call.%04d", n)), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
		if err == nil {
			fmt.Fprintf(f, "%q\n", os.Args[1:])
			f.Close()
			break
		}
		if !os.IsExist(err) {
			fmt.Fprintln(os.Stderr, "gitshim:", err)
			os.Exit(99)
		}
	}
	plan, _ := os.ReadFile(filepath.Join(dir, "plan"))
	for _, l := range strings.Split(string(plan), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 || f[0] != strconv.Itoa(n) && f[0] != "*" && !isCommand(f[0]) {
			continue
		}
		switch f[1] {
		case "exit": // no output
			fmt.Fprintln(os.Stderr, "fatal: made to fail")
			k, _ := strconv.Atoi(f[2])
			os.Exit(k)
		case "kill":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		case "gone": // the next invocation finds no git
			os.Remove(filepath.Join(dir, "bin", "git"))
		case "cut": // permille of output, then how to end
			out := run(real)
			p, _ := strconv.Atoi(f[2])
			k := len(out) * p / 1000
			if len(f) > 4 && f[4] == "line" {
				k = bytes.LastIndexByte(out[:k], '\n') + 1
			}
			os.Stdout.Write(out[:k])
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("cut.%04d", n)), []byte(fmt.Sprint(k, " ", len(out))), 0644)
			if f[3] == "kill" {
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
				select {}
			}
			e, _ := strconv.Atoi(f[3])
			os.Exit(e)
		case "slow": // in small pieces
			out := run(real)
			k, _ := strconv.Atoi(f[2])
			for i := 0; len(out) > 0; i++ {
				m := k
				if m > len(out) {
					m = len(out)
				}
				if _, err := os.Stdout.Write(out[:m]); err != nil {
					os.Exit(141)
				}
				out = out[m:]
				if i%16 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			os.Exit(0)
		}
	}
	err := syscall.Exec(real, append([]string{"git"}, os.Args[1:]...), os.Environ())
	fmt.Fprintln(os.Stderr, "gitshim:", err)
	os.Exit(99)
}

// isCommand tells whether this is an invocation of a planned command, as "@blame".
func isCommand(plan string) bool {
	for _, a := range os.Args[1:] {
		if plan == "@"+a {
			return true
		}
	}
	return false
}

func run(real string) []byte {
	c := exec.Command(real, os.Args[1:]...)
	c.Stdin = os.Stdin
	c.Stderr = os.Stderr
	out, err := c.Output()
	if err != nil {
		os.Stdout.Write(out)
		os.Exit(1)
	}
	return out
}
