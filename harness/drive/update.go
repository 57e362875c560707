package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vh/proto"
)

// Updates of an archive as the kernel sees them: strace records the system
// calls, makes chosen ones fail and kills the process at chosen ones.

type UFile struct {
	Path string `json:"path"`
	Data Bytes  `json:"data"`
}

type UEvent struct {
	Op    string `json:"op"`
	Path  string `json:"path"`
	To    string `json:"to"`
	Fd    int    `json:"fd"`
	From  int    `json:"from"`
	Creat bool   `json:"creat"`
	Excl  bool   `json:"excl"`
	Trunc bool   `json:"trunc"`
	App   bool   `json:"app"`
	Data  Bytes  `json:"data"`
	Pos   int    `json:"pos"`
	Ret   int    `json:"ret"`

	call     string // the system call
	nth      int    // how many of it this thread had made
	injected bool
	dirty    bool // on a file that was written to
	dir      bool // on a directory
}

type UCase struct {
	dirs   []UEvent
	Id     string   `json:"id"`
	Before []UFile  `json:"before"`
	After  []UFile  `json:"after"`
	Arc    string   `json:"arc"`
	Bak    string   `json:"bak"`
	Srcs   []string `json:"srcs"`
	Mine   []string `json:"mine"`
	Dirs   []string `json:"dirs"`
	Mydirs []UDir   `json:"mydirs"`
	Left   []string `json:"left"`
	Move   bool     `json:"move"`
	Backup bool     `json:"backup"`
	Events []UEvent `json:"events"`
	End    string   `json:"end"`
	Fault  string   `json:"fault"`
	Loose  bool     `json:"loose"`
	Hasref bool     `json:"hasref"`
	Ref    Bytes    `json:"ref"`
	Text   string   `json:"text"`
}

// a directory that is added, and what is in it before
type UDir struct {
	Name   string   `json:"name"`
	Within []string `json:"within"`
}

// an update to be made in a directory of its own
type upd struct {
	files  []proto.Step // how the directory is made ready
	steps  []proto.Step // the update
	main   int          // which step of it counts
	srcs   []string
	mine   []string
	mydirs []string
	move   bool
	backup bool
	stable bool // it makes the same archive whenever it is made
	env    string
}

const traced = "open,openat,creat,write,pwrite64,writev,lseek,ftruncate,truncate,close,rename,renameat,renameat2,link,linkat,unlink,unlinkat,copy_file_range,sendfile,read,pread64,dup,dup3,getdents64"

var straceOK = sync.OnceValue(func() bool {
	c := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "true")
	return c.Run() == nil
})

// once runs steps in a process of its own; prefix is a command to run it under
func once(dir string, steps []proto.Step, prefix []string) (res []proto.Res, state *os.ProcessState, text string) {
	side := dir + ".side"
	must(os.MkdirAll(side, 0755))
	job, out := filepath.Join(side, "job"), filepath.Join(side, "reply")
	os.Remove(out)
	b, err := json.Marshal(proto.Job{ID: "once", Dir: dir, Steps: steps})
	must(err)
	must(os.WriteFile(job, b, 0644))
	args := append(append([]string{}, prefix...), *workerB, "-once", job, out)
	c := exec.Command(args[0], args[1:]...)
	c.Dir = dir
	c.Env = append(os.Environ(), "WORKER_TMP="+side, "GOMAXPROCS=2", "GOGC=off", "TZ=UTC")
	var e bytes.Buffer
	c.Stderr = &e
	must(c.Start())
	done := make(chan bool)
	go func() {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			c.Process.Kill()
		}
	}()
	_ = c.Wait()
	close(done)
	text = e.String()
	if len(text) > 600 {
		text = text[:600]
	}
	if strings.Contains(text, "panic: worker: ") {
		fatal("%s", text)
	}
	if b, err := os.ReadFile(out); err == nil {
		var r proto.Reply
		if json.Unmarshal(b, &r) != nil {
			r.Res = nil
		}
		res = r.Res
		for _, x := range res {
			if strings.HasPrefix(x.Panic, "worker: ") {
				fatal("%s", x.Panic)
			}
		}
	}
	return res, c.ProcessState, text
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func filesIn(dir string) (fs_ []UFile) {
	fs_ = []UFile{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if d.Type()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			fs_ = append(fs_, UFile{rel, Bytes("-> " + t)})
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			st, _ := os.Stat(p)
			_ = os.Chmod(p, 0600)
			b, _ = os.ReadFile(p)
			_ = os.Chmod(p, st.Mode())
		}
		fs_ = append(fs_, UFile{rel, b})
		return nil
	})
	return
}

func dirsIn(dir string) (ds []string) {
	ds = []string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if rel, _ := filepath.Rel(dir, p); err == nil && d.IsDir() && rel != "." {
			ds = append(ds, rel)
		}
		return nil
	})
	return
}

func fresh(dir string, u *upd) {
	_ = exec.Command("chmod", "-R", "u+rwx", dir).Run()
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0755))
	if res, _, text := once(dir, u.files, nil); len(res) != len(u.files) {
		fatal("cannot prepare %s: %s", dir, text)
	} else {
		for i, r := range res {
			if r.Panic != "" || r.Err != "" && u.files[i].Op != "read" {
				fatal("cannot prepare %s: %s %s", dir, r.Err, r.Panic)
			}
		}
	}
}

var (
	reCall   = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)$`)
	reResume = regexp.MustCompile(`^(\d+)\s+<\.\.\. (\w+) resumed>(.*)$`)
	reRet    = regexp.MustCompile(`\)\s+= (-?\d+)(.*)$`)
)

func unhex(s string) []byte {
	s = strings.TrimSuffix(strings.TrimPrefix(s, `"`), `"`)
	var b []byte
	for i := 0; i+3 < len(s); i += 4 {
		v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		if err != nil {
			fatal("strace: %q", s)
		}
		b = append(b, byte(v))
	}
	return b
}

// calls reads what strace wrote about files in dir, and (dv) about directories
func calls(log, dir string) (ev, dv []UEvent) {
	f, err := os.Open(log)
	must(err)
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	begun := map[string]string{}
	nth := map[string]int{}
	fds := map[int]bool{}
	dirty := map[int]bool{}
	dirs := map[int]bool{}
	rel := func(s string) (string, bool) {
		p := string(unhex(s))
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, p)
		}
		r, err := filepath.Rel(dir, filepath.Clean(p))
		return r, err == nil && r != ".." && !strings.HasPrefix(r, "../")
	}
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			break
		}
		line = strings.TrimSuffix(line, "\n")
		if m := reResume.FindStringSubmatch(line); m != nil {
			line = begun[m[1]] + m[3]
			delete(begun, m[1])
		} else if strings.HasSuffix(line, "<unfinished ...>") {
			pid := line[:strings.IndexByte(line, ' ')]
			if m := reCall.FindStringSubmatch(line); m != nil {
				nth[m[1]+m[2]]++
			}
			begun[pid] = strings.TrimSuffix(line, "<unfinished ...>")
			continue
		} else if m := reCall.FindStringSubmatch(line); m != nil {
			nth[m[1]+m[2]]++
		}
		m := reCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		r := reRet.FindStringSubmatchIndex(m[3])
		if r == nil {
			continue
		}
		a := strings.Split(m[3][:r[0]], ", ")
		ret, _ := strconv.Atoi(m[3][r[2]:r[3]])
		e := UEvent{Ret: ret, Data: Bytes{}, call: m[2], nth: nth[m[1]+m[2]], injected: strings.Contains(m[3][r[4]:], "INJECTED")}
		num := func(i int) int {
			if i < len(a) {
				n, err := strconv.Atoi(a[i])
				if err == nil {
					return n
				}
			}
			return -1
		}
		ok := true
		onFd := func(op string) {
			e.Op, e.Fd = op, num(0)
			ok = fds[e.Fd]
			e.dirty = dirty[e.Fd]
		}
		switch m[2] {
		case "open", "openat", "creat":
			k := 1
			if m[2] != "openat" {
				k = 0
			}
			e.Op = "open"
			e.Path, ok = rel(a[k])
			if k+1 < len(a) {
				e.Creat, e.Excl = strings.Contains(a[k+1], "O_CREAT"), strings.Contains(a[k+1], "O_EXCL")
				e.Trunc, e.App = strings.Contains(a[k+1], "O_TRUNC"), strings.Contains(a[k+1], "O_APPEND")
				if strings.Contains(a[k+1], "O_DIRECTORY") {
					e.dir = ok
					ok = false
				}
			}
			if ok && ret >= 0 {
				if st, err := os.Stat(filepath.Join(dir, e.Path)); err == nil && st.IsDir() {
					e.dir = true
					ok = false
				}
			}
			if ret >= 0 {
				fds[ret], dirty[ret], dirs[ret] = ok, false, e.dir
			}
		case "getdents64":
			e.Op = "read"
			ok, e.dir = false, dirs[num(0)]
		case "write", "pwrite64":
			onFd(map[string]string{"write": "write", "pwrite64": "pwrite"}[m[2]])
			if ok {
				e.Data = unhex(a[1])
				e.Pos = num(3)
				dirty[e.Fd] = true
				e.dirty = true
			}
		case "writev":
			onFd("write")
			if ok {
				for _, x := range regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`).FindAllString(m[3][:r[0]], -1) {
					e.Data = append(e.Data, unhex(x)...)
				}
				dirty[e.Fd] = true
				e.dirty = true
			}
		case "read":
			onFd("read")
		case "pread64":
			onFd("other")
		case "lseek":
			onFd("seek")
		case "ftruncate":
			onFd("cut")
			e.Pos = num(1)
		case "truncate":
			e.Op = "truncate"
			e.Path, ok = rel(a[0])
			e.Pos = num(1)
		case "close":
			onFd("close")
			if ret >= 0 {
				delete(fds, e.Fd)
			}
		case "dup", "dup3":
			onFd("dup")
			if ret >= 0 {
				fds[ret] = ok
				dirty[ret] = dirty[e.Fd]
			}
		case "copy_file_range", "sendfile":
			e.Op = "copy"
			if m[2] == "sendfile" {
				e.Fd, e.From = num(0), num(1)
			} else {
				e.Fd, e.From = num(2), num(0)
			}
			ok = fds[e.Fd]
			dirty[e.Fd] = true
			e.dirty = true
		case "rename":
			e.Op = "rename"
			e.Path, ok = rel(a[0])
			e.To, _ = rel(a[1])
		case "renameat", "renameat2":
			e.Op = "rename"
			e.Path, ok = rel(a[1])
			e.To, _ = rel(a[3])
		case "link":
			e.Op = "link"
			e.Path, ok = rel(a[0])
			e.To, _ = rel(a[1])
		case "linkat":
			e.Op = "link"
			e.Path, ok = rel(a[1])
			e.To, _ = rel(a[3])
		case "unlink":
			e.Op = "unlink"
			e.Path, ok = rel(a[0])
		case "unlinkat":
			e.Op = "unlink"
			e.Path, ok = rel(a[1])
			if strings.Contains(m[3][:r[0]], "AT_REMOVEDIR") {
				ok = false
			}
		default:
			ok = false
		}
		if ok {
			ev = append(ev, e)
		} else if e.dir {
			dv = append(dv, e)
		}
	}
	return
}

// run makes the update once
func (u *upd) run(dir, id string, ref []byte, inject []string, log bool) (k UCase, ev []UEvent) {
	fresh(dir, u)
	k = UCase{Id: id, Before: filesIn(dir), Arc: arcName, Bak: arcName + ".bak", Srcs: u.srcs, Mine: u.mine, Move: u.move, Backup: u.backup,
		Dirs: dirsIn(dir), Mydirs: []UDir{}, Events: []UEvent{}, Fault: "no", Hasref: ref != nil, Ref: ref}
	if k.Ref == nil {
		k.Ref = Bytes{}
	}
	if u.env == "rodir" {
		must(os.Chmod(dir, 0555))
	}
	var pre []string
	lf := dir + ".log"
	if log {
		pre = append([]string{"strace", "-f", "-qq", "-xx", "-s", "4000000", "-o", lf, "-e", "trace=" + traced, "-e", "signal=none"}, inject...)
	}
	res, st, text := once(dir, u.steps, pre)
	if u.env == "rodir" {
		must(os.Chmod(dir, 0755))
	}
	k.After, k.Left = filesIn(dir), dirsIn(dir)
	for _, d := range u.mydirs {
		m := UDir{d, []string{}}
		for _, f := range k.Before {
			if strings.HasPrefix(f.Path, d+"/") {
				m.Within = append(m.Within, f.Path)
			}
		}
		for _, x := range k.Dirs {
			if strings.HasPrefix(x, d+"/") {
				m.Within = append(m.Within, x)
			}
		}
		k.Mydirs = append(k.Mydirs, m)
	}
	switch {
	case len(res) == len(u.steps):
		r := res[u.main]
		k.End, k.Text = "ok", r.Err
		if r.Err != "" {
			k.End = "err"
		}
		if r.Panic != "" {
			k.End = "panic: " + r.Panic
		}
	case st.ExitCode() == 20:
		k.End = "ok"
	case st.ExitCode() == 21:
		k.End = "err"
	default:
		ws, _ := st.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL || st.ExitCode() == 128+9 {
			k.End = "killed"
		} else {
			k.End = "broke off: " + text
		}
	}
	if log {
		ev, k.dirs = calls(lf, dir)
	}
	return
}

/*------------------------------- what to try --------------------------------*/

func updCase(r *rand.Rand, moves bool) *upd {
	g := &histGen{r: r, max: []int{3, 60, 300}[r.Intn(3)], names: [][]byte{[]byte("a"), []byte("b"), []byte("c"), []byte("dd"), []byte("e.txt")}}
	u := &upd{stable: true}
	level := r.Intn(3)
	old := map[string]int64{}
	write := func(dir string, s Src) {
		u.files = append(u.files, proto.Step{Op: "write", Name: proto.Str(dir + string(s.Name)), Data: s.Data, Mode: 0644, Mtime: s.time})
	}
	if r.Intn(4) > 0 { // there is an archive
		u.files = append(u.files, proto.Step{Op: "new", H: "p", Archive: arcName})
		for i, n := range g.pick(1 + r.Intn(3)) {
			s := g.src(&Opt{Generic: true, Level: level}, n)
			write("", s)
			old[string(n)] = s.time
			u.files = append(u.files, proto.Step{Op: "add", H: "p", Name: proto.Str(n), Method: []int{0, 1, 5}[r.Intn(3)], Level: level}, proto.Step{Op: "rm", Name: proto.Str(n)})
			_ = i
		}
	}
	if r.Intn(3) == 0 {
		u.files = append(u.files, proto.Step{Op: "write", Name: arcName + ".bak", Data: []byte("an older one"), Mtime: 1e9})
	}
	if r.Intn(3) == 0 {
		u.files = append(u.files, proto.Step{Op: "write", Name: "lh", Data: []byte("not yours")}, proto.Step{Op: "write", Name: "the.tmp", Data: []byte("mine")})
	}
	u.backup = r.Intn(3) == 0
	u.move = moves || r.Intn(4) == 0
	opts := map[string]any{"SortContents": r.Intn(2) == 0, "BackupOldArchive": u.backup, "DeleteAfterAppend": u.move}
	u.steps = []proto.Step{{Op: "new", H: "a", Archive: arcName}}
	via := r.Intn(8)
	whole := false
	method := []int{0, 1, 5, 5, 7}[r.Intn(5)]
	if moves {
		via = 5
	}
	switch {
	case via == 0:
		u.stable = false
		s := g.src(&Opt{Generic: true, Level: level}, g.pick(1)[0])
		if r.Intn(2) == 0 {
			write("", s)
			u.srcs = append(u.srcs, string(s.Name))
		}
		u.move = false
		opts["DeleteAfterAppend"] = false
		u.steps = append(u.steps, proto.Step{Op: "set", H: "a", Opts: opts}, proto.Step{Op: "addbytes", H: "a", Name: proto.Str(s.Name), Data: append(Bytes{1, 2}, s.Data...), Method: method, Level: level})
	default:
		st := proto.Step{Op: "cmdadd", H: "a", Archive: arcName, Method: method, Level: level}
		n := 1 + r.Intn(3)
		if via == 1 {
			n = 1
		}
		ex := []any{}
		tree := via > 1 && r.Intn(4) == 0 // a directory and what is in it
		whole = via > 1 && !tree && r.Intn(6) == 0
		newer := via > 1 && !tree && !whole && r.Intn(3) == 0 // only what is newer than what is there
		opts["UpdateIfNewer"] = newer
		if whole { // everything there is, the archive is among it
			opts["RecursiveArchiving"] = true
			st.Names = append(st.Names, ".")
			for i := len(u.files) - 1; i >= 0; i-- {
				switch f := u.files[i]; {
				case f.Op == "write" && f.Name == arcName+".bak" && !u.backup:
					u.files = append(u.files[:i], u.files[i+1:]...)
				case f.Op == "write" && (f.Name == "lh" || f.Name == "the.tmp"):
					u.files[i].Mtime = 1e9
					u.srcs = append(u.srcs, string(f.Name))
					u.mine = append(u.mine, string(f.Name))
				}
			}
		}
		if tree {
			opts["RecursiveArchiving"] = true
			n++
			u.files = append(u.files, proto.Step{Op: "mkdir", Name: "t"}, proto.Step{Op: "mkdir", Name: "t/u"})
			st.Names = append(st.Names, "t")
			u.mydirs = []string{"t", "t/u"}
		}
		for i, name := range g.pick(n) {
			s := g.src(&Opt{Generic: true, Level: level}, name)
			if method == 0 && r.Intn(3) == 0 { // more than is copied at a time
				s.Data = make([]byte, 5000+r.Intn(15000))
				r.Read(s.Data)
			}
			p := string(name)
			stale := false
			if t, ok := old[p]; ok && newer {
				stale = r.Intn(2) == 0
				s.time = t + 1000000
				if stale {
					s.time = t - 1000000*int64(r.Intn(2))
				}
			}
			in := tree && (i == 0 || r.Intn(3) > 0)
			if in {
				d := []string{"t/", "t/u/"}[r.Intn(2)]
				write(d, s)
				p = d + p
			} else if r.Intn(2) == 0 {
				write("s/", s)
				p = "s/" + p
			} else {
				write("", s)
			}
			if !in && !whole {
				st.Names = append(st.Names, proto.Str(p))
			}
			u.srcs = append(u.srcs, p)
			if i > 0 && r.Intn(6) == 0 {
				ex = append(ex, strings.ToUpper(string(name)))
			} else if !stale {
				u.mine = append(u.mine, p)
			}
		}
		if i := r.Intn(12); i == 0 && via > 1 { // one that is not there
			st.Names = append(st.Names, "nothing")
		} else if i == 1 && via > 1 {
			st.Names = append(st.Names, []proto.Str{arcName, "./" + arcName, arcName + ".bak"}[r.Intn(3)])
			if !u.backup {
				st.Names[len(st.Names)-1] = "./" + arcName
			}
		}
		if tree {
			u.files = append(u.files, proto.Step{Op: "chtimes", Name: "t/u", Mtime: 1e9}, proto.Step{Op: "chtimes", Name: "t", Mtime: 1e9 + 7})
		}
		opts["ExcludeFiles"] = ex
		if via == 1 {
			st.Op, st.Name, st.Names = "add", st.Names[0], nil
		}
		u.steps = append(u.steps, proto.Step{Op: "set", H: "a", Opts: opts}, st)
	}
	if u.srcs == nil {
		u.srcs = []string{}
	}
	if !u.move || u.mine == nil {
		u.mine = []string{}
	}
	u.main = len(u.steps) - 1
	if r.Intn(2) == 0 || whole {
		u.steps = append([]proto.Step{{Op: "global", Opts: map[string]any{"GenericFormat": true}}}, u.steps...)
		u.main++
		u.mydirs = nil // the generic format has no directories
	}
	return u
}

// errors a call may end with
var faults = map[string][]string{
	"open": {"EACCES", "EIO", "EMFILE"}, "write": {"ENOSPC", "EIO", "EDQUOT"}, "pwrite": {"ENOSPC"}, "read": {"EIO"}, "seek": {"EIO"}, "cut": {"EIO", "ENOSPC"},
	"close": {"EIO", "ENOSPC"}, "rename": {"EIO", "ENOSPC", "EACCES"}, "link": {"EPERM", "EMLINK"}, "unlink": {"EACCES", "EBUSY"}, "copy": {"EIO", "ENOSPC"}, "truncate": {"EIO"},
}

func updRun(tag string, n, kills, fails, limits int, moves bool) {
	if !straceOK() {
		fatal("strace does not work here")
	}
	tr := newTraces("update")
	var mu sync.Mutex
	put := func(k UCase, what string) {
		mu.Lock()
		defer mu.Unlock()
		if *only != "" && !strings.HasPrefix(k.Id, *only+"/") {
			return
		}
		count(what)
		count("ended " + strings.SplitN(k.End, ":", 2)[0])
		b, _ := json.Marshal(k)
		seen(b, true)
		if what != "limited" && what != "killed" {
			sample(map[string]any{"id": k.Id, "what": what, "calls": len(k.Events), "end": k.End, "sources": k.Srcs})
		}
		size := 0
		for _, f := range append(append([]UFile{}, k.Before...), k.After...) {
			size += len(f.Data)
		}
		tr.Put(k, 300+len(k.Events)*80+size)
	}
	next := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := range next {
				id := fmt.Sprintf("%s-%d", tag, i)
				updOne(filepath.Join(*scratch, fmt.Sprintf("u%d", w)), id, newRand(id), kills, fails, limits, moves, put)
			}
		}(w)
	}
	for i := 1; i <= n; i++ {
		if *only != "" && fmt.Sprintf("%s-%d", tag, i) != *only {
			continue
		}
		next <- i
	}
	close(next)
	wg.Wait()
	tr.Close()
}

func updOne(dir, id string, r *rand.Rand, kills, fails, limits int, moves bool, put func(UCase, string)) {
	u := updCase(r, moves)
	k, ev := u.run(dir, id+"/0", nil, nil, true)
	k.Events = ev
	if k.Events == nil {
		k.Events = []UEvent{}
	}
	put(k, "undisturbed")
	if k.End != "ok" {
		return
	}
	arcOf := func(k UCase) []byte {
		for _, f := range k.After {
			if f.Path == arcName {
				return f.Data
			}
		}
		return nil
	}
	ref := arcOf(k)
	if ref == nil {
		return
	}
	if !u.stable { // the time of the addition is in the archive: find where, and leave it out
		mask := make([]bool, len(ref))
		for t := 0; t < 2; t++ {
			time.Sleep(1100 * time.Millisecond)
			again, _ := u.run(dir, id+"/1", nil, nil, false)
			b := arcOf(again)
			if len(b) != len(ref) {
				return
			}
			for i := range b {
				if b[i] != ref[i] {
					for j := max(0, i-3); j < min(len(b), i+4); j++ {
						mask[j] = true
					}
				}
			}
		}
		blank := func(b []byte) {
			if len(b) == len(mask) {
				for i := range b {
					if mask[i] {
						b[i] = 0
					}
				}
			}
		}
		real := put
		put = func(k UCase, what string) {
			k.Events = []UEvent{}
			for _, fs := range [][]UFile{k.Before, k.After} {
				for _, f := range fs {
					if f.Path == arcName {
						blank(f.Data)
					}
				}
			}
			real(k, what)
		}
		ref = append([]byte{}, ref...)
		blank(ref)
	}
	// killed at a call
	for j := 1; j <= kills && len(ev) > 0; j++ {
		e := ev[r.Intn(len(ev))]
		if j%2 == 0 { // at one that is not writing
			for t := 0; t < 20 && (e.Op == "write" || e.Op == "seek" || e.Op == "read"); t++ {
				e = ev[r.Intn(len(ev))]
			}
		}
		inj := []string{"-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", e.call, e.nth)}
		c, _ := u.run(dir, fmt.Sprintf("%s/k%d", id, j), ref, inj, true)
		if c.End == "killed" {
			put(c, "killed")
		}
	}
	// a call fails
	for j := 1; j <= fails && len(ev) > 0; j++ {
		e := ev[r.Intn(len(ev))]
		if j%2 == 0 {
			for t := 0; t < 20 && (e.Op == "write" || e.Op == "seek" || e.Op == "read"); t++ {
				e = ev[r.Intn(len(ev))]
			}
		}
		if n := len(k.dirs); n > 0 && r.Intn(3) == 0 { // reading a directory
			e = k.dirs[r.Intn(n)]
		}
		if len(faults[e.Op]) == 0 || e.Op == "open" && e.Ret < 0 {
			continue
		}
		fault := faults[e.Op][r.Intn(len(faults[e.Op]))]
		when := fmt.Sprint(e.nth)
		if e.dirty && r.Intn(3) == 0 {
			when += "+" // and all later ones
		}
		c, cev := u.run(dir, fmt.Sprintf("%s/f%d", id, j), ref, []string{"-e", fmt.Sprintf("inject=%s:error=%s:when=%s", e.call, fault, when)}, true)
		if c.End == "killed" {
			continue
		}
		hit := false
		for _, x := range c.dirs {
			hit = hit || x.injected
		}
		for _, x := range cev {
			if x.injected {
				hit = true
				if x.Op == "unlink" {
					c.Loose = true
				}
				if x.dirty && (x.Op == "write" || x.Op == "close") {
					c.Fault = "must"
				}
			}
		}
		if !hit {
			continue
		}
		if c.Fault == "no" {
			c.Fault = "may"
		}
		// a close that is made to fail does not happen: what is open is of no interest then
		c.Events = cev
		put(c, "failing "+e.Op)
	}
	// no file may be larger than so much
	for j := 1; j <= limits; j++ {
		lim := r.Intn(len(ref) + 20)
		v := *u
		v.steps = append(append(append([]proto.Step{}, u.steps[:u.main]...), proto.Step{Op: "limit", Mtime: int64(lim)}), u.steps[u.main:]...)
		v.steps = append(v.steps, proto.Step{Op: "limit", Mtime: -1})
		v.main++
		c, _ := v.run(dir, fmt.Sprintf("%s/l%d", id, j), ref, nil, false)
		c.Fault = "may"
		if lim < len(ref) {
			c.Fault = "must"
		}
		put(c, "limited")
	}
	// the surroundings do not allow it
	for _, env := range []string{"rodir", "noread", "isdir"} {
		if os.Getuid() == 0 && env != "isdir" {
			continue
		}
		v := *u
		v.env = env
		was := false
		for _, f := range k.Before {
			was = was || f.Path == arcName
		}
		switch {
		case env == "noread" && was:
			v.files = append(append([]proto.Step{}, u.files...), proto.Step{Op: "chmod", Name: arcName, Mode: 0200})
		case env == "isdir" && !was:
			v.files = append(append([]proto.Step{}, u.files...), proto.Step{Op: "mkdir", Name: arcName})
		case env == "rodir":
		default:
			continue
		}
		c, _ := v.run(dir, id+"/"+env, ref, nil, false)
		c.Fault = "must"
		put(c, env)
	}
}

func init() {
	drivers["C14"] = func() {
		stats.Rule = "additions to new and existing archives (one to three files or bytes, with backup, moving, sorting, exclusion): the system calls of each are replayed on the disk of the specification, where every state between two calls is a crash point; the same addition killed at a call, with a call made to fail, with a limit on file sizes, and in directories that do not allow it"
		updRun("c14", scale(130, 1500), scale(4, 40), scale(7, 60), scale(4, 40), false)
	}
	drivers["C20"] = func() {
		stats.Rule = "additions that move the files into new and existing archives, excluded, missing and unreadable ones among them: the system calls of each replayed on the disk of the specification; the same killed at a call, with a call made to fail, and with a limit on file sizes"
		updRun("c20", scale(110, 1200), scale(5, 40), scale(7, 60), scale(3, 20), true)
	}
}
