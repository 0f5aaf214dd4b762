// Command conf drives go-vtd-xml for the conformance checks in /verif.
//
// `conf pool` reads one request per line on stdin and writes one observation
// per line on stdout, in the same order. Requests are executed by child
// processes (`conf child`), so that a crash, an endless loop or runaway memory
// in the code under test is an observation and not the end of the check.
// `conf gen` prints mutated documents, `conf sched` runs concurrency scripts.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type handler func(raw json.RawMessage) interface{}

var handlers = map[string]handler{}

type head struct {
	Op string `json:"op"`
}

// safely runs a request and turns panics into observations
func safely(h handler, raw json.RawMessage) (out interface{}) {
	defer func() {
		if r := recover(); r != nil {
			out = map[string]interface{}{"v": "panic", "msg": fmt.Sprint(r), "stack": stack()}
		}
	}()
	return h(raw)
}

func child() {
	// the code under test must not be able to disturb the protocol: fd 1 is
	// replaced by a file that records what it prints
	proto := os.NewFile(3, "proto")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(proto)
	var printed int64
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var hd head
		var out interface{}
		if err := json.Unmarshal(line, &hd); err != nil {
			out = map[string]interface{}{"v": "harness", "msg": err.Error()}
		} else if h, ok := handlers[hd.Op]; !ok {
			out = map[string]interface{}{"v": "harness", "msg": "unknown op " + hd.Op}
		} else {
			out = safely(h, line)
		}
		b, err := json.Marshal(out)
		if err != nil {
			b = []byte(`{"v":"harness","msg":"marshal"}`)
		}
		// anything written to standard output is an observation
		if st, err := os.Stdout.Stat(); err == nil && st.Size() > printed {
			printed = st.Size()
			b = append([]byte(`{"printed":true,`), b[1:]...)
			os.Stdout.Truncate(0)
			printed = 0
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outF   *os.File
	stderr *strings.Builder
}

func newWorker() *worker {
	self, _ := os.Executable()
	cmd := exec.Command(self, "child")
	cmd.Env = append(os.Environ(), "GOGC=300", "GOMAXPROCS=2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{w}
	// a file in append mode, gone as soon as it is open
	if f, err := os.CreateTemp("", "conf-stdout"); err == nil {
		os.Remove(f.Name())
		syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), syscall.F_SETFL, syscall.O_APPEND)
		cmd.Stdout = f
		defer f.Close()
	}
	var sb strings.Builder
	cmd.Stderr = &limited{b: &sb}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	return &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), outF: r, stderr: &sb}
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4000 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.outF.Close()
}

func rss(pid int) int64 {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// ask sends a request to a fresh or running child; the child is gone when the
// second result is false
func (w *worker) ask(line []byte, limit time.Duration) ([]byte, bool) {
	if _, err := w.in.Write(append(line, '\n')); err != nil {
		return []byte(`{"v":"crash"}`), false
	}
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		b, err := w.out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	deadline := time.Now().Add(limit)
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-ch:
			if r.err != nil {
				w.cmd.Wait()
				msg, _ := json.Marshal(w.stderr.String())
				return []byte(`{"v":"crash","msg":` + string(msg) + `}`), false
			}
			return r.b[:len(r.b)-1], true
		case <-tick.C:
			if rss(w.cmd.Process.Pid) > 3<<30 {
				return []byte(`{"v":"memory","msg":"more than 3 GB"}`), false
			}
			if time.Now().After(deadline) {
				return []byte(`{"v":"hang","msg":"no answer"}`), false
			}
		}
	}
}

func pool(n int, limit time.Duration, fresh bool) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	var reqs [][]byte
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			if line[len(line)-1] == '\n' {
				line = line[:len(line)-1]
			}
			reqs = append(reqs, line)
		}
		if err != nil {
			break
		}
	}
	res := make([][]byte, len(reqs))
	var next int
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := 0
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker()
			defer func() { w.stop() }()
			for {
				mu.Lock()
				i := next
				next++
				tooMany := bad > 200
				mu.Unlock()
				if i >= len(reqs) {
					return
				}
				if tooMany {
					res[i] = []byte(`{"v":"skipped"}`)
					continue
				}
				out, alive := w.ask(reqs[i], limit)
				res[i] = out
				if alive && fresh {
					w.stop()
					w = newWorker()
				}
				if !alive {
					w.stop()
					w = newWorker()
					mu.Lock()
					bad++
					if string(out[:10]) == `{"v":"hang` {
						bad += 40
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for _, r := range res {
		out.Write(r)
		out.WriteByte('\n')
	}
	out.Flush()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: conf pool|child|gen|sched")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "child":
		child()
	case "pool":
		n, sec := 8, 30
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		if len(os.Args) > 3 {
			sec, _ = strconv.Atoi(os.Args[3])
		}
		pool(n, time.Duration(sec)*time.Second, len(os.Args) > 4)
	case "gen":
		generate()
	case "race":
		race()
	case "hooks":
		fmt.Println(hooksAvailable)
	default:
		if h, ok := handlers[os.Args[1]]; ok {
			b, _ := io.ReadAll(os.Stdin)
			out, _ := json.Marshal(safely(h, b))
			fmt.Println(string(out))
			return
		}
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// stack names the innermost functions of the code under test
func stack() string {
	s := string(debug.Stack())
	if k := strings.Index(s, "panic("); k >= 0 {
		s = s[k:]
	}
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}
