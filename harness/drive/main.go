// drive exercises the implementation for one property and records what it saw
// as traces for the TLA+ specification, which judges them.
package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

var (
	prop    = flag.String("prop", "", "property")
	workerB = flag.String("worker", "", "worker binary")
	cliB    = flag.String("cli", "", "command-line tool")
	scratch = flag.String("scratch", "", "scratch directory")
	outDir  = flag.String("out", "", "where traces go")
	seed    = flag.Int64("seed", 1, "seed")
	tier    = flag.String("tier", "quick", "quick or thorough")
	shards  = flag.Int("shards", 8, "number of trace files")
	input   = flag.String("input", "", "behaviours made by the specification")
	only    = flag.String("only", "", "only the case with this id")
)

// Stats is what a run covered.
type Stats struct {
	Evaluations int
	Distinct    int
	Traces      int
	Rule        string
	Samples     []any
	Counts      map[string]int
	Assumptions []string
	Shards      []string
}

var (
	stats    = Stats{Counts: map[string]int{}}
	distinct = map[[20]byte]bool{}
	statsMu  sync.Mutex // cases are made by several goroutines
)

func count(k string) {
	statsMu.Lock()
	defer statsMu.Unlock()
	stats.Counts[k]++
}

// seen notes a case; it is non-trivial if the caller says so
func seen(key []byte, nontrivial bool) {
	statsMu.Lock()
	defer statsMu.Unlock()
	stats.Evaluations++
	if nontrivial {
		distinct[sha1.Sum(key)] = true
	}
}

func sample(x any) {
	statsMu.Lock()
	defer statsMu.Unlock()
	if len(stats.Samples) < 4 {
		stats.Samples = append(stats.Samples, x)
	}
}

var suspects, hangs int

// suspect: after enough cases that look wrong the rest are not run
func suspect(o Outcome) {
	suspects++
	if o.Died == "hang" {
		hangs++
	}
}

func enough() bool { return suspects >= 60 || hangs >= 3 }

func thorough() bool { return *tier == "thorough" }

// scale gives q in the quick tier and t in the thorough one
func scale(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

func newRand(what string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", what, *seed)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func newPool() *Pool {
	return &Pool{Bin: *workerB, Scratch: *scratch, N: 8, Timeout: 30 * time.Second}
}

// Traces writes cases to several files of about equal cost.
type Traces struct {
	name string
	w    []*bufio.Writer
	f    []*os.File
	cost []int
}

func newTraces(name string) *Traces {
	t := &Traces{name: name}
	for i := 0; i < *shards; i++ {
		fn := filepath.Join(*outDir, fmt.Sprintf("%s.%d.ndjson", name, i))
		f, err := os.Create(fn)
		if err != nil {
			fatal("%v", err)
		}
		t.f = append(t.f, f)
		t.w = append(t.w, bufio.NewWriterSize(f, 1<<20))
		t.cost = append(t.cost, 0)
	}
	return t
}

// Bytes is written as an array of numbers.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	o := make([]byte, 0, 4*len(b)+2)
	o = append(o, '[')
	for i, x := range b {
		if i > 0 {
			o = append(o, ',')
		}
		o = strconv.AppendInt(o, int64(x), 10)
	}
	return append(o, ']'), nil
}

func (t *Traces) Put(x any, cost int) {
	b, err := json.Marshal(x)
	if err != nil {
		fatal("%v", err)
	}
	k := 0
	for i := range t.cost {
		if t.cost[i] < t.cost[k] {
			k = i
		}
	}
	t.cost[k] += cost + 50
	t.w[k].Write(b)
	t.w[k].WriteByte('\n')
	stats.Traces++
}

func (t *Traces) Close() {
	for i := range t.w {
		t.w[i].Flush()
		st, _ := t.f[i].Stat()
		t.f[i].Close()
		if st.Size() > 0 {
			stats.Shards = append(stats.Shards, t.f[i].Name())
		}
	}
}

var drivers = map[string]func(){}

func main() {
	debug.SetGCPercent(400)
	flag.Parse()
	d := drivers[*prop]
	if d == nil {
		fatal("no driver for %s", *prop)
	}
	d()
	stats.Distinct = len(distinct)
	b, _ := json.MarshalIndent(stats, "", " ")
	if err := os.WriteFile(filepath.Join(*outDir, "stats.json"), b, 0644); err != nil {
		fatal("%v", err)
	}
}
