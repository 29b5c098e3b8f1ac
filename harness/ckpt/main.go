// ckpt runs the history processing once, with everything that touches the
// stored state on the main thread, so that a tracer of that thread can stop or
// fail any of its system calls.
package main

import (
	"fmt"
	"io"
	"os"
	"runtime"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

func init() { runtime.LockOSThread() }

func main() {
	o := process.Opts{Logger: logger.NewDefaultLogger(io.Discard), RepoDir: os.Args[1], CheckpointsDir: os.Args[2]}
	if len(os.Args) > 3 {
		o.CommitFromIncl = os.Args[3]
		o.CommitFromMakeNonIncl = os.Args[4] == "true"
		o.NoStrictResume = os.Args[5] == "true"
	}
	res := make(chan process.Result)
	n := make(chan int)
	go func() {
		i := 0
		for range res {
			i++
		}
		n <- i
	}()
	err := process.New(o).Run(res)
	k := <-n
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(3)
	}
	fmt.Println(k)
}
