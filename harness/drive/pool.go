package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vh/proto"
)

// A Pool runs jobs in worker processes.  A worker that dies or does not answer
// in time is replaced; the job is then tried once more, alone in a fresh
// worker, and only that second failure counts.
type Pool struct {
	Bin     string
	Scratch string
	N       int
	Timeout time.Duration
	Jobs    atomic.Int64
	Fresh   bool // a new worker for every job
}

type Outcome struct {
	Res  []proto.Res
	Died string // "": answered; else "hang" or "crash: ..."
}

type worker struct {
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	outf *os.File
	err  *os.File
	dir  string
}

func (p *Pool) start(dir string) (*worker, error) {
	jr, jw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	errf, err := os.CreateTemp(dir, "stderr")
	if err != nil {
		return nil, err
	}
	os.Remove(errf.Name())
	c := exec.Command(p.Bin)
	c.Dir = dir
	c.Env = append(os.Environ(), "WORKER_TMP="+dir, "GOMEMLIMIT=3GiB", "GOMAXPROCS=2", "TZ="+os.Getenv("TZ"))
	c.ExtraFiles = []*os.File{jr, rw}
	c.Stderr = errf
	if err := c.Start(); err != nil {
		return nil, err
	}
	jr.Close()
	rw.Close()
	return &worker{cmd: c, in: jw, out: bufio.NewReaderSize(rr, 1<<20), outf: rr, err: errf, dir: dir}, nil
}

func (w *worker) stop() {
	w.in.Close()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
	w.outf.Close()
	w.err.Close()
}

func (w *worker) tail() string {
	b := make([]byte, 600)
	n, _ := w.err.ReadAt(b, 0)
	return strings.TrimSpace(string(b[:n]))
}

func (w *worker) do(j proto.Job, timeout time.Duration) (o Outcome) {
	b, err := json.Marshal(j)
	if err != nil {
		fatal("marshal: %v", err)
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := w.in.Write(append(b, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		l, err := w.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			_ = w.cmd.Wait()
			if strings.Contains(w.tail(), "panic: worker: ") {
				fatal("job %s: %s", j.ID, w.tail())
			}
			return Outcome{Died: "crash: " + w.tail()}
		}
		var r proto.Reply
		if err := json.Unmarshal(a.line, &r); err != nil {
			fatal("reply: %v", err)
		}
		for _, x := range r.Res {
			if strings.HasPrefix(x.Panic, "worker: ") {
				fatal("job %s: %s", j.ID, x.Panic)
			}
		}
		return Outcome{Res: r.Res}
	case <-time.After(timeout):
		return Outcome{Died: "hang"}
	}
}

// Work is one case: Make builds its job, and what Done needs to know.
type Work struct {
	ID   string
	Make func() (proto.Job, any)
}

// Run does all the work and gives each outcome to done, which is called by one
// goroutine at a time.  A job with Dir "" gets an empty directory of its own,
// removed afterwards.
func (p *Pool) Run(next func() (Work, bool), done func(proto.Job, any, Outcome)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < p.N; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(p.Scratch, fmt.Sprintf("w%d", i))
			if err := os.MkdirAll(dir, 0755); err != nil {
				fatal("%v", err)
			}
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for k := 0; ; k++ {
				mu.Lock()
				wk, ok := next()
				for ok && *only != "" && wk.ID != *only {
					wk, ok = next()
				}
				ok = ok && !enough()
				mu.Unlock()
				if !ok {
					return
				}
				j, info := wk.Make()
				j.ID = wk.ID
				var o Outcome
				for try := 0; try < 2; try++ {
					if w == nil {
						var err error
						if w, err = p.start(dir); err != nil {
							fatal("worker: %v", err)
						}
					}
					jj := j
					own := ""
					if j.Dir == "" {
						own = filepath.Join(dir, fmt.Sprintf("j%d.%d", k, try))
						if err := os.Mkdir(own, 0755); err != nil {
							fatal("%v", err)
						}
						jj.Dir = own
					}
					t := p.Timeout
					if try > 0 {
						t = 2 * p.Timeout
					}
					o = w.do(jj, t)
					p.Jobs.Add(1)
					if own != "" {
						rmAll(own)
					}
					if o.Died != "" || p.Fresh {
						w.stop()
						w = nil
					}
					if o.Died == "" {
						break
					}
				}
				mu.Lock()
				done(j, info, o)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
}

// List is the work in a list.
func List(ws []Work) func() (Work, bool) {
	i := 0
	return func() (Work, bool) {
		if i >= len(ws) {
			return Work{}, false
		}
		i++
		return ws[i-1], true
	}
}

// Chain is one source of work after the other.
func Chain(gs ...func() (Work, bool)) func() (Work, bool) {
	return func() (Work, bool) {
		for len(gs) > 0 {
			if c, ok := gs[0](); ok {
				return c, true
			}
			gs = gs[1:]
		}
		return Work{}, false
	}
}

// Count is n cases, each made with random numbers of its own.
func Count(tag string, n int, mk func(i int, r *rand.Rand) (proto.Job, any)) func() (Work, bool) {
	i := 0
	return func() (Work, bool) {
		if i >= n {
			return Work{}, false
		}
		i++
		k := i
		id := fmt.Sprintf("%s-%d", tag, k)
		return Work{ID: id, Make: func() (proto.Job, any) { return mk(k, newRand(id)) }}, true
	}
}

// rmAll removes a directory tree of ours, also when extraction took away its permissions
func rmAll(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	_ = filepath.Walk(dir, func(q string, st os.FileInfo, err error) error {
		if err == nil && st.IsDir() {
			_ = os.Chmod(q, 0700)
		}
		return nil
	})
	_ = filepath.Walk(dir, func(q string, st os.FileInfo, err error) error {
		if st != nil && st.IsDir() {
			_ = os.Chmod(q, 0700)
		}
		return nil
	})
	_ = os.RemoveAll(dir)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "MACHINERY: "+f+"\n", a...)
	os.Exit(3)
}
