package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"verifsim/zzsim"
)

// worker is one process running the real code on the simulated kernel.
type worker struct {
	path string
	seed uint64 // pins the process's own hash seeds from its first instruction
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
	runs int
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

func (w *worker) start() error {
	w.stop()
	w.cmd = exec.Command(w.path)
	w.cmd.Env = []string{fmt.Sprintf("ZZSIM_SEED=%d", w.seed), "GOTRACEBACK=all"}
	w.cmd.Dir = "/"
	w.errb = &tail{}
	w.cmd.Stderr = w.errb
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	w.in, w.out = in, bufio.NewReaderSize(out, 1<<20)
	w.runs = 0
	return w.cmd.Start()
}

func (w *worker) stop() {
	if w.cmd != nil && w.cmd.Process != nil {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
	w.cmd = nil
}

// died says how a worker process ended during a run.
type died struct {
	fatal   string // the Go runtime's fatal error, e.g. a stack overflow
	stalled bool   // no answer within the real-time watchdog
	stderr  string
}

// run executes one scenario. A process that dies is an observation about the
// code under test, not an error of ours.
func (w *worker) run(sc *zzsim.Scenario) (*zzsim.Outcome, *died, error) {
	if w.cmd == nil || w.runs > 20000 {
		if err := w.start(); err != nil {
			return nil, nil, err
		}
	}
	b, err := json.Marshal(sc)
	if err != nil {
		return nil, nil, err
	}
	w.runs++
	type reply struct {
		line []byte
		err  error
	}
	ch := make(chan reply, 1)
	go func() {
		if _, err := w.in.Write(append(b, '\n')); err != nil {
			ch <- reply{nil, err}
			return
		}
		line, err := w.out.ReadBytes('\n')
		ch <- reply{line, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			w.cmd.Wait()
			st := w.errb.String()
			w.cmd = nil
			d := &died{stderr: st}
			for _, l := range strings.Split(st, "\n") {
				if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
					d.fatal += l + "; "
				}
			}
			if d.fatal == "" {
				return nil, nil, fmt.Errorf("worker died: %v: %s", r.err, clip(st, 2000))
			}
			return nil, d, nil
		}
		var o zzsim.Outcome
		if err := json.Unmarshal(r.line, &o); err != nil {
			return nil, nil, fmt.Errorf("worker: %v in %s", err, clip(string(r.line), 300))
		}
		if o.Trouble != "" {
			return nil, nil, fmt.Errorf("simulator: %s", o.Trouble)
		}
		return &o, nil, nil
	case <-time.After(120 * time.Second):
		w.stop()
		return nil, &died{stalled: true}, nil
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// legible makes s fit for a report: what is no printable text is written as an escape.
func legible(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == '\n' || r == '\t' || (r != utf8.RuneError && unicode.IsPrint(r)) {
			b.WriteString(s[i : i+n])
		} else {
			for _, c := range []byte(s[i : i+n]) {
				fmt.Fprintf(&b, "\\x%02x", c)
			}
		}
		i += n
	}
	return b.String()
}

// parallel runs f(lane, i) for i in [0, n) on `lanes` lanes until stop says so.
// Run i depends on i alone, so the order in which lanes pick runs is irrelevant.
func parallel(lanes, n int, f func(lane, i int) bool) {
	var mu sync.Mutex
	next := 0
	stop := false
	var wg sync.WaitGroup
	for l := 0; l < lanes; l++ {
		wg.Add(1)
		go func(l int) {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= n {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				if !f(l, i) {
					mu.Lock()
					stop = true
					mu.Unlock()
				}
			}
		}(l)
	}
	wg.Wait()
}
