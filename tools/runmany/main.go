// Program runmany runs many short commands in parallel, optionally as another user.
//
// usage: runmany JOBS RESULTS WORKERS UID
// JOBS has one JSON object per line; RESULTS gets one per job, in job order.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"syscall"
	"time"
)

type job struct {
	Argv    []string `json:"argv"`
	Stdin   []byte   `json:"stdin"` // base64
	Cwd     string   `json:"cwd"`
	Timeout float64  `json:"timeout"`
	Out     string   `json:"out"` // if set, stdout goes to this file instead
	Limit   int      `json:"limit"`
	Env     []string `json:"env"` // more of the environment
}

type result struct {
	Rc      int    `json:"rc"`
	Timeout bool   `json:"timeout"`
	Stdout  []byte `json:"stdout"`
	Stderr  []byte `json:"stderr"`
	Error   string `json:"error,omitempty"`
}

type limited struct {
	buf bytes.Buffer
	n   int
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.n - l.buf.Len(); room > 0 {
		if room > len(p) {
			room = len(p)
		}

		l.buf.Write(p[:room])
	}

	return len(p), nil
}

func run(j *job, uid int) (res result) {
	if j.Timeout == 0 {
		j.Timeout = 20
	}

	if j.Limit == 0 {
		j.Limit = 64 << 20
	}

	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(j.Timeout*float64(time.Second)))
	defer cancel()

	cmd := exec.CommandContext(ctx, j.Argv[0], j.Argv[1:]...)
	cmd.Dir = j.Cwd
	cmd.Stdin = bytes.NewReader(j.Stdin)
	cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8"}
	cmd.Env = append(cmd.Env, j.Env...)

	if uid > 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid)}}
	}

	so, se := limited{n: j.Limit}, limited{n: 1 << 16}
	cmd.Stdout, cmd.Stderr = &so, &se

	if j.Out != "" {
		f, err := os.Create(j.Out)
		if err != nil {
			res.Error = err.Error()

			return res
		}
		defer f.Close()

		cmd.Stdout = f
	}

	err := cmd.Run()
	res.Stdout, res.Stderr = so.buf.Bytes(), se.buf.Bytes()

	var ee *exec.ExitError

	switch {
	case ctx.Err() != nil:
		res.Timeout = true
		res.Rc = -1
	case err == nil:
	case errors.As(err, &ee):
		res.Rc = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Rc = -int(ws.Signal())
		}
	default:
		// For example, the command stopped reading its input: not an error of ours if it exited.
		if cmd.ProcessState != nil {
			res.Rc = cmd.ProcessState.ExitCode()
		} else {
			res.Error = err.Error()
		}
	}

	return res
}

func main() {
	workers, _ := strconv.Atoi(os.Args[3])
	uid, _ := strconv.Atoi(os.Args[4])

	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}

	var jobs []*job

	dec := json.NewDecoder(bufio.NewReaderSize(in, 1<<20))
	for dec.More() {
		var j job
		if err := dec.Decode(&j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}

		jobs = append(jobs, &j)
	}

	results := make([]result, len(jobs))

	var wg sync.WaitGroup

	next := make(chan int, 1024)

	for w := 0; w < workers; w++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for i := range next {
				results[i] = run(jobs[i], uid)
			}
		}()
	}

	for i := range jobs {
		next <- i
	}

	close(next)
	wg.Wait()

	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}

	bw := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(bw)

	for i := range results {
		if err := enc.Encode(&results[i]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}

	if err := errors.Join(bw.Flush(), out.Close()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
