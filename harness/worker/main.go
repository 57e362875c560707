// worker performs the steps of jobs with the real library, through its public
// interface.  Jobs come as JSON lines on descriptor 3, replies go to 4.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/jeromelesaux/lha"

	"vh/proto"
)

var (
	handles map[string]*lha.Lha
	heads   map[string][]*lha.LzHeader
	outFile *os.File
	inFile  *os.File
)

func cstr(b []byte) []byte {
	for i, c := range b {
		if c == 0 {
			return b[:i]
		}
	}
	return b
}

func project(h *lha.LzHeader) proto.Header {
	return proto.Header{
		Level: int(h.HeaderLevel), Ext: int(h.ExtendType), Method: proto.Str(h.Method),
		Packed: h.PackedSize, Size: h.OriginalSize, Name: append([]byte{}, h.Name...), Real: append([]byte{}, cstr(h.Realname)...),
		Crc: int(h.Crc), HasCrc: h.HasCrc, Mtime: h.UnixLastModifiedStamp, Mode: int(h.UnixMode),
		Uid: int(h.UnixUID), Gid: int(h.UnixGid), User: append([]byte{}, cstr(h.User)...), Group: append([]byte{}, cstr(h.Group)...),
		Attr: int(h.Attribute), HeaderSize: h.HeaderSize,
	}
}

func setOpts(target any, opts map[string]any) {
	v := reflect.ValueOf(target).Elem()
	for k, x := range opts {
		f := v.FieldByName(k)
		if !f.IsValid() {
			panic("worker: no option " + k)
		}
		switch f.Kind() {
		case reflect.Bool:
			f.SetBool(x.(bool))
		case reflect.Int:
			f.SetInt(int64(x.(float64)))
		case reflect.String:
			f.SetString(x.(string))
		case reflect.Slice:
			var ss []string
			for _, s := range x.([]any) {
				ss = append(ss, s.(string))
			}
			f.Set(reflect.ValueOf(ss))
		default:
			panic("worker: option kind " + k)
		}
	}
}

func setGlobals(opts map[string]any) {
	for k, x := range opts {
		b := x.(bool)
		switch k {
		case "GenericFormat":
			lha.GenericFormat = b
		case "VerifyMode":
			lha.VerifyMode = b
		case "Quiet":
			lha.Quiet = b
		case "TextMode":
			lha.TextMode = b
		case "ConvertCase":
			lha.ConvertCase = b
		default:
			panic("worker: no global " + k)
		}
	}
}

// snapshot lists what is under root; where permissions are in the way they are
// lifted for the moment (everything there is ours)
func snapshot(root string, hash bool) (nodes []proto.Node) {
	var walk func(p, rel string)
	walk = func(p, rel string) {
		st, err := os.Lstat(p)
		if err != nil {
			nodes = append(nodes, proto.Node{Path: proto.Str(rel), Type: "o"})
			return
		}
		sys := st.Sys().(*syscall.Stat_t)
		n := proto.Node{Path: proto.Str(rel), Mode: uint32(sys.Mode & 07777), Mtime: sys.Mtim.Sec, Uid: int(sys.Uid), Gid: int(sys.Gid),
			Size: st.Size(), Inode: sys.Ino}
		switch {
		case st.IsDir():
			n.Type, n.Size = "d", 0
			if sys.Mode&0500 != 0500 {
				_ = os.Chmod(p, 0700)
				defer os.Chmod(p, os.FileMode(sys.Mode&0777))
			}
			es, err := os.ReadDir(p)
			if err != nil {
				n.Type = "o"
			}
			for _, e := range es {
				walk(p+"/"+e.Name(), filepath.Join(rel, e.Name()))
			}
		case st.Mode()&os.ModeSymlink != 0:
			n.Type = "l"
			t, _ := os.Readlink(p)
			n.Data = []byte(t)
		case st.Mode().IsRegular():
			n.Type = "f"
			b, err := os.ReadFile(p)
			if err != nil {
				_ = os.Chmod(p, 0600)
				b, _ = os.ReadFile(p)
				_ = os.Chmod(p, os.FileMode(sys.Mode&0777))
			}
			if hash {
				s := sha1.Sum(b)
				n.Hash = hex.EncodeToString(s[:])
			} else {
				n.Data = b
			}
		default:
			n.Type = "o"
		}
		nodes = append(nodes, n)
	}
	walk(root, ".")
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].Path < nodes[j].Path })
	return
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	if err.Error() == "" {
		return "error"
	}
	return err.Error()
}

func pick(s proto.Step) *lha.LzHeader {
	if s.Name != "" || s.Index < 0 {
		h := lha.NewLzHeader()
		h.Name = []byte(s.Name)
		return h
	}
	hs := heads[s.H]
	if s.Index >= len(hs) {
		return nil
	}
	return hs[s.Index]
}

func must(err error) {
	if err != nil {
		panic("worker: " + err.Error())
	}
}

func do(s proto.Step) (r proto.Res) {
	l := handles[s.H]
	name := string(s.Name)
	var names []string
	for _, x := range s.Names {
		names = append(names, string(x))
	}
	realOut, realIn := os.Stdout, os.Stdin
	_ = outFile.Truncate(0)
	_, _ = outFile.Seek(0, 0)
	_ = inFile.Truncate(0)
	if len(s.Stdin) > 0 { /* whatever limit is in force */
		var rl syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &rl))
		free := syscall.Rlimit{Cur: rl.Max, Max: rl.Max}
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &free))
		_, err := inFile.WriteAt(s.Stdin, 0)
		must(err)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl))
	}
	_, _ = inFile.Seek(0, 0)
	os.Stdout, os.Stdin = outFile, inFile
	t0 := time.Now()
	defer func() {
		r.Ms = float64(time.Since(t0).Microseconds()) / 1000
		os.Stdout, os.Stdin = realOut, realIn
		if e := recover(); e != nil {
			r.Panic = fmt.Sprint(e)
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			r.Panic += "\n" + st
		}
		if s.WantOut {
			st, _ := outFile.Stat()
			n := st.Size()
			if n > 1<<22 {
				n = 1 << 22
			}
			r.Out = make([]byte, n)
			_, _ = outFile.ReadAt(r.Out, 0)
		}
	}()
	switch s.Op {
	case "new":
		l = lha.NewLha(s.Archive)
		setOpts(l, s.Opts)
		handles[s.H] = l
	case "set":
		setOpts(l, s.Opts)
	case "global":
		setGlobals(s.Opts)
	case "addbytes":
		r.Err = errText(l.CompressBytes(name, append([]byte{}, s.Data...), s.Method, s.Level))
	case "add":
		r.Err = errText(l.Compress(name, s.Method, s.Level))
	case "cmdadd":
		l.CmdFilev = append([]string{}, names...)
		l.CmdFilec = len(names)
		l.HeaderLevel = s.Level
		l.CompressMethod = s.Method
		lha.MakeCrcTable()
		r.Err = errText(lha.CommandAdd(s.Archive, l))
		l.CmdFilev, l.CmdFilec = nil, 0
	case "headers":
		hs, err := l.Headers()
		r.Err = errText(err)
		heads[s.H] = hs
		for _, h := range hs {
			r.Headers = append(r.Headers, project(h))
		}
	case "bytes":
		h := pick(s)
		if h == nil {
			r.Err = "worker: no such header"
			break
		}
		b, err := l.DecompresBytes(h)
		r.Err = errText(err)
		if s.Hash {
			x := sha1.Sum(b)
			r.Data = []byte(hex.EncodeToString(x[:]))
		} else {
			r.Data = append([]byte{}, b...)
		}
	case "dec":
		h := pick(s)
		if h == nil {
			r.Err = "worker: no such header"
			break
		}
		r.Err = errText(l.Decompress(h))
	case "extract":
		l.CmdFilev = append([]string{}, names...)
		l.CmdFilec = len(names)
		lha.MakeCrcTable()
		r.Err = errText(lha.CommandExtract(s.Archive, l))
		l.CmdFilev, l.CmdFilec = nil, 0
	case "copyfile":
		r.Err = errText(lha.Copy(string(s.Name), s.Archive))
	case "list":
		l.CmdFilev = append([]string{}, names...)
		l.CmdFilec = len(names)
		lha.MakeCrcTable()
		r.Err = errText(lha.CommandList(s.Archive, l))
		l.CmdFilev, l.CmdFilec = nil, 0
	case "write":
		_ = os.MkdirAll(filepath.Dir(name), 0755)
		m := os.FileMode(0644)
		if s.Mode != 0 {
			m = os.FileMode(s.Mode)
		}
		_ = os.Remove(name)
		must(os.WriteFile(name, s.Data, 0600))
		must(os.Chmod(name, m))
		if s.Mtime != 0 {
			must(os.Chtimes(name, time.Unix(s.Mtime, 0), time.Unix(s.Mtime, 0)))
		}
	case "mkdir":
		m := os.FileMode(0755)
		if s.Mode != 0 {
			m = os.FileMode(s.Mode)
		}
		must(os.MkdirAll(name, 0755))
		must(os.Chmod(name, m))
		if s.Mtime != 0 {
			must(os.Chtimes(name, time.Unix(s.Mtime, 0), time.Unix(s.Mtime, 0)))
		}
	case "symlink":
		_ = os.MkdirAll(filepath.Dir(name), 0755)
		must(os.Symlink(string(s.Data), name))
	case "link":
		_ = os.MkdirAll(filepath.Dir(name), 0755)
		must(os.Link(string(s.Data), name))
	case "lutimes":
		tv := []syscall.Timespec{{Sec: s.Mtime}, {Sec: s.Mtime}}
		const atFdcwd, noFollow = -100, 0x100
		p, err := syscall.BytePtrFromString(name)
		must(err)
		if _, _, e := syscall.Syscall6(syscall.SYS_UTIMENSAT, uintptr(atFdcwd&(1<<64-1)), uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(&tv[0])), noFollow, 0, 0); e != 0 {
			panic("worker: lutimes: " + e.Error())
		}
	case "exist": /* which of the names are not there? */
		for _, n := range names {
			if _, err := os.Lstat(n); err != nil {
				r.Names = append(r.Names, proto.Str(n))
			}
		}
	case "chmod":
		must(os.Chmod(name, os.FileMode(s.Mode)))
	case "chtimes":
		must(os.Chtimes(name, time.Unix(s.Mtime, 0), time.Unix(s.Mtime, 0)))
	case "rm":
		if st, err := os.Lstat(name); err == nil && st.IsDir() {
			_ = os.Chmod(name, 0700)
		}
		_ = os.RemoveAll(name)
	case "stub": /* the archive name becomes a self-extracting one */
		stubbed = nil
		if b, err := os.ReadFile(name); err == nil {
			stubLen = len(s.Data)
			if len(b) <= 1 { /* nothing that could be found behind it */
				stubLen = 0
			}
			stubbed = append(append([]byte{}, s.Data[:stubLen]...), b...)
			must(os.WriteFile(s.Archive, stubbed, 0644))
			must(os.Remove(name))
		}
	case "unstub": /* it must be what it was, and is made an ordinary one if there is none */
		b, err := os.ReadFile(s.Archive)
		_, none := os.Lstat(name)
		switch {
		case stubbed == nil && err == nil && none == nil:
			r.Err = "two archives"
		case stubbed == nil && err == nil:
			must(os.Rename(s.Archive, name))
		case stubbed == nil:
		case err != nil:
			r.Err = "lost"
		case !bytes.Equal(b, stubbed):
			r.Err = "changed"
		}
		_ = os.Remove(s.Archive)
		if stubbed != nil && none != nil {
			must(os.WriteFile(name, stubbed[stubLen:], 0644))
		}
	case "copy":
		b, err := os.ReadFile(name)
		must(err)
		must(os.WriteFile(s.Archive, b, 0644))
	case "read":
		b, err := os.ReadFile(name)
		r.Err = errText(err)
		r.Data = b
	case "snap":
		r.Tree = snapshot(name, s.Hash)
	case "cd":
		must(os.Chdir(name))
	case "tz":
		time.Local = time.FixedZone("there", int(s.Mtime))
	case "tmpdir":
		must(os.Setenv("TMPDIR", name))
	case "cli": /* the command, with arguments names; exit status in Err */
		cmdline(s, names, &r)
	case "limit":
		/* files larger than this cannot be written: writing fails with EFBIG */
		var rl syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &rl))
		rl.Cur = uint64(s.Mtime)
		if s.Mtime < 0 {
			rl.Cur = rl.Max
		}
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl))
	default:
		panic("worker: unknown op " + s.Op)
	}
	return
}

// cmdline runs the command; what it printed is what is returned
func cmdline(s proto.Step, names []string, r *proto.Res) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, s.Archive, names...)
	c.Stdin = inFile
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if s.Name != "" { /* where what is printed goes */
		f, err := os.OpenFile(string(s.Name), os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		c.Stdout = f
	}
	err := c.Run()
	r.Data = out.Bytes()
	text := errs.String()
	if len(text) > 1000 {
		text = text[:1000]
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 && !strings.Contains(text, "goroutine ") {
		r.Err = "exit 1: " + text
	} else if ctx.Err() != nil {
		r.Panic = "no end after 20 s"
	} else if err != nil {
		r.Panic = err.Error() + ": " + text
	}
}

func init() { runtime.LockOSThread() }

// a job from a file, its reply to another
func once(job, reply string) {
	b, err := os.ReadFile(job)
	must(err)
	var j proto.Job
	must(json.Unmarshal(b, &j))
	rep := run(j, j.Dir)
	b, err = json.Marshal(rep)
	must(err)
	_ = os.WriteFile(reply, b, 0644)
	/* where writing has been made to fail, the status tells how it ended */
	code := 20
	for i, s := range j.Steps {
		switch s.Op {
		case "add", "addbytes", "cmdadd":
			code = 20
			if rep.Res[i].Err != "" {
				code = 21
			}
			if rep.Res[i].Panic != "" {
				code = 22
			}
		}
	}
	os.Exit(code)
}

func run(j proto.Job, dir string) proto.Reply {
	time.Local = time.UTC
	handles = map[string]*lha.Lha{}
	heads = map[string][]*lha.LzHeader{}
	lha.GenericFormat, lha.VerifyMode, lha.Quiet, lha.TextMode, lha.ConvertCase = false, false, true, false, false
	must(os.Chdir(dir))
	rep := proto.Reply{ID: j.ID}
	for _, s := range j.Steps {
		if !j.Fds || !calls[s.Op] {
			rep.Res = append(rep.Res, do(s))
			continue
		}
		/* nothing is closed by the collector meanwhile */
		runtime.GC()
		old := debug.SetGCPercent(-1)
		before := openFiles()
		r := do(s)
		r.Before, r.After = before, openFiles()
		debug.SetGCPercent(old)
		rep.Res = append(rep.Res, r)
	}
	return rep
}

// calls are the operations of the library
var calls = map[string]bool{"add": true, "addbytes": true, "cmdadd": true, "headers": true, "bytes": true, "dec": true, "extract": true, "list": true, "copyfile": true}

// openFiles lists the descriptors of files and directories
func openFiles() (fs []proto.Str) {
	d, err := os.Open("/proc/self/fd")
	must(err)
	ns, err := d.Readdirnames(-1)
	must(err)
	d.Close()
	sort.Strings(ns)
	for _, fd := range ns {
		p, err := os.Readlink("/proc/self/fd/" + fd)
		if err == nil && strings.HasPrefix(p, "/") && !strings.HasPrefix(p, "/dev/") && !strings.HasPrefix(p, "/proc/") {
			fs = append(fs, proto.Str(fd+" "+p))
		}
	}
	return
}

// what "stub" wrote
var (
	stubbed []byte
	stubLen int
)

func main() {
	syscall.Umask(022)
	signal.Ignore(syscall.SIGXFSZ)
	in := bufio.NewReaderSize(os.NewFile(3, "jobs"), 1<<20)
	out := os.NewFile(4, "replies")
	dir := os.Getenv("WORKER_TMP")
	var err error
	if outFile, err = os.CreateTemp(dir, "out"); err != nil {
		panic(err)
	}
	if inFile, err = os.CreateTemp(dir, "in"); err != nil {
		panic(err)
	}
	os.Remove(outFile.Name())
	os.Remove(inFile.Name())
	home, _ := os.Getwd()
	if len(os.Args) == 4 && os.Args[1] == "-once" {
		once(os.Args[2], os.Args[3])
		return
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j proto.Job
		must(json.Unmarshal(line, &j))
		dir := j.Dir
		if dir == "" {
			dir = home
		}
		rep := run(j, dir)
		b, err := json.Marshal(rep)
		must(err)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}
