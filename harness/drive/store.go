package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"vh/lz"
	"vh/proto"
)

// Src is a file that is to be added.
type Src struct {
	Name       Bytes   `json:"name"`
	Entry      Bytes   `json:"entry"`
	Kind       string  `json:"kind"`
	Data       Bytes   `json:"data"`
	From       Moment  `json:"from"`
	To         Moment  `json:"to"`
	Mode       int     `json:"mode"`
	Real       Bytes   `json:"real"`
	Self       bool    `json:"self"`
	Unreadable bool    `json:"unreadable"`
	Under      []Bytes `json:"under"` // the directories above it that were named, or found
	dir        string
	time       int64
	now        bool // the directory the archive is in, which changes while it is written
}

type Opt struct {
	Sort    bool    `json:"sort"`
	Update  bool    `json:"update"`
	Fresh   bool    `json:"fresh"`
	Noexec  bool    `json:"noexec"`
	Generic bool    `json:"generic"`
	Delete  bool    `json:"delete"`
	Level   int     `json:"level"`
	Method  int     `json:"method"`
	Exclude []Bytes `json:"exclude"`
	Auto    bool    `json:"auto"` // update of what is in the archive, no names given
	backup  bool
	verbose bool
	recur   bool
}

type HStep struct {
	Op    string  `json:"op"`
	Fail  string  `json:"fail"`
	Err   bool    `json:"err"`
	Same  bool    `json:"same"`
	Was   bool    `json:"was"`
	Has   bool    `json:"has"`
	Arc   Bytes   `json:"arc"`
	Srcs  []Src   `json:"srcs"`
	Opt   *Opt    `json:"opt,omitempty"`
	Gone  []Bytes `json:"gone"`
	Heads []Head  `json:"heads"`
	Name  Bytes   `json:"name"`
	Data  Bytes   `json:"data"`
	Text  string  `json:"text"`
	Stub  bool    `json:"stub"` // something happened to the self-extracting archive that was added to

	sfx string // the archive is made one of this name
	via string // "add" (Compress), "cmd" (CommandAdd), "bytes" (CompressBytes)
	h   string // handle
}

type HCase struct {
	Id    string  `json:"id"`
	Tz    int     `json:"tz"`
	Uid   int     `json:"uid"`
	Gid   int     `json:"gid"`
	Steps []HStep `json:"steps"`
}

const arcName = "the.lzh"

// a history: what is done, in order
type history struct {
	tz    int
	steps []HStep
	home  string // the directory the archive is in
	from  time.Time
}

func (h *history) arc() string {
	if h.home != "" {
		return h.home + "/" + arcName
	}
	return arcName
}

func (s *Src) path() string {
	if s.dir == "" {
		return string(s.Name)
	}
	return s.dir + "/" + string(s.Name)
}

func (h *history) job() proto.Job {
	h.from = time.Now()
	st := []proto.Step{{Op: "tz", Mtime: int64(h.tz)}, {Op: "read", Name: proto.Str(h.arc())}}
	if h.home != "" {
		st = append([]proto.Step{{Op: "mkdir", Name: proto.Str(h.home)}}, st...)
	}
	seenH := map[string]bool{}
	for i := range h.steps {
		s := &h.steps[i]
		if !seenH[s.h] {
			st = append(st, proto.Step{Op: "new", H: s.h, Archive: h.arc()})
			seenH[s.h] = true
		}
		switch s.Op {
		case "add":
			o := s.Opt
			for k := range s.Srcs {
				c := &s.Srcs[k]
				if s.via == "bytes" || c.Self {
					continue
				}
				mode := uint32(c.Mode)
				if c.Unreadable && c.Kind != "d" {
					mode = 0200
				}
				switch c.Kind {
				case "f":
					st = append(st, proto.Step{Op: "write", Name: proto.Str(c.path()), Data: c.Data, Mode: mode, Mtime: c.time})
				case "d":
					st = append(st, proto.Step{Op: "mkdir", Name: proto.Str(c.path()), Mode: mode, Mtime: c.time})
				case "l":
					st = append(st, proto.Step{Op: "symlink", Name: proto.Str(c.path()), Data: c.Real}, proto.Step{Op: "lutimes", Name: proto.Str(c.path()), Mtime: c.time})
				}
			}
			for k := range s.Srcs {
				if c := &s.Srcs[k]; c.Kind == "d" && o.recur {
					st = append(st, proto.Step{Op: "chtimes", Name: proto.Str(c.path()), Mtime: c.time})
				}
			}
			for k := range s.Srcs {
				if c := &s.Srcs[k]; c.Kind == "d" && c.Unreadable {
					st = append(st, proto.Step{Op: "chmod", Name: proto.Str(c.path()), Mode: 0300})
				}
			}
			ex := []any{}
			for _, e := range o.Exclude {
				ex = append(ex, string(e))
			}
			st = append(st, proto.Step{Op: "set", H: s.h, Opts: map[string]any{"SortContents": o.Sort, "UpdateIfNewer": o.Update, "NewArchive": o.Fresh,
				"Noexec": o.Noexec, "DeleteAfterAppend": o.Delete, "ExcludeFiles": ex, "BackupOldArchive": o.backup, "RecursiveArchiving": o.recur}},
				proto.Step{Op: "global", Opts: map[string]any{"GenericFormat": o.Generic}})
			switch s.via {
			case "cli":
				st = append(st, cli(s.args()...))
			case "bytes":
				st = append(st, proto.Step{Op: "addbytes", H: s.h, Name: proto.Str(s.Srcs[0].path()), Data: s.Srcs[0].Data, Method: o.Method, Level: o.Level})
			case "add":
				st = append(st, proto.Step{Op: "add", H: s.h, Name: proto.Str(s.Srcs[0].path()), Method: o.Method, Level: o.Level})
			default:
				a := proto.Step{Op: "cmdadd", H: s.h, Archive: h.arc(), Method: o.Method, Level: o.Level}
				if s.sfx != "" {
					a.Archive = s.sfx
					st = append(st, proto.Step{Op: "stub", Name: proto.Str(h.arc()), Archive: s.sfx, Data: stub(rand.New(rand.NewSource(int64(i))))})
				}
				if !o.Auto {
					for k := range s.Srcs {
						if len(s.Srcs[k].Under) == 0 {
							a.Names = append(a.Names, proto.Str(s.Srcs[k].path()))
						}
					}
				}
				st = append(st, a)
			}
		case "headers":
			st = append(st, proto.Step{Op: "headers", H: s.h})
		case "list", "test":
			if s.via == "cli" {
				st = append(st, cli(map[string]string{"list": "-l", "test": "-t"}[s.Op], "-archive", arcName))
				break
			}
			if s.Op == "test" {
				st = append(st, proto.Step{Op: "global", Opts: map[string]any{"VerifyMode": true}},
					proto.Step{Op: "extract", H: s.h, Archive: h.arc()})
				break
			}
			st = append(st, proto.Step{Op: "list", H: s.h, Archive: h.arc()})
		case "bytes":
			st = append(st, proto.Step{Op: "bytes", H: s.h, Name: proto.Str(s.Name), Index: -1})
		case "dec":
			st = append(st, proto.Step{Op: "mkdir", Name: "out"}, proto.Step{Op: "set", H: s.h, Opts: map[string]any{"ExtractDirectory": "out", "Force": true}},
				proto.Step{Op: "dec", H: s.h, Name: proto.Str(s.Name), Index: -1})
		}
		if s.sfx != "" {
			st = append(st, proto.Step{Op: "unstub", Name: proto.Str(h.arc()), Archive: s.sfx})
		}
		// what is there afterwards; the last three steps of every operation
		st = append(st, proto.Step{Op: "read", Name: proto.Str(h.arc())})
		switch s.Op {
		case "add":
			names := []proto.Str{}
			for k := range s.Srcs {
				names = append(names, proto.Str(s.Srcs[k].path()))
			}
			st = append(st, proto.Step{Op: "exist", Names: names}, proto.Step{Op: "set", H: s.h, Opts: map[string]any{"Noexec": false}})
			if h.home != "" {
				st = append(st, proto.Step{Op: "rm", Name: proto.Str(h.arc() + ".bak")})
			}
			if s.sfx != "" {
				st = append(st, proto.Step{Op: "rm", Name: proto.Str(s.sfx + ".bak")})
			}
			for k := range s.Srcs {
				if !s.Srcs[k].Self && !s.Srcs[k].now && s.via != "bytes" {
					st = append(st, proto.Step{Op: "rm", Name: proto.Str(s.Srcs[k].path())})
				}
			}
		case "dec":
			st = append(st, proto.Step{Op: "read", Name: proto.Str("out/" + string(s.Name))}, proto.Step{Op: "rm", Name: "out"},
				proto.Step{Op: "set", H: s.h, Opts: map[string]any{"ExtractDirectory": "", "Force": false}})
		case "test":
			st = append(st, proto.Step{Op: "global", Opts: map[string]any{"VerifyMode": false}})
		}
	}
	return proto.Job{Steps: st}
}

// pos finds the results of a step: the operation and the reading of the archive after it
func (h *history) record(id string, j proto.Job, o Outcome) HCase {
	k := HCase{Id: id, Tz: h.tz, Uid: os.Getuid(), Gid: os.Getgid(), Steps: []HStep{}}
	to := time.Now()
	if o.Died != "" {
		k.Steps = append(k.Steps, HStep{Op: "all", Fail: o.Died, Same: true, Srcs: []Src{}, Gone: []Bytes{}, Heads: []Head{}})
		return k
	}
	var prev []byte
	was := false
	i := 1
	for n := range h.steps {
		s := h.steps[n]
		s.Gone, s.Heads = []Bytes{}, []Head{}
		if s.Srcs == nil {
			s.Srcs = []Src{}
		}
		for k := range s.Srcs {
			if s.Srcs[k].Under == nil {
				s.Srcs[k].Under = []Bytes{}
			}
		}
		main := map[string]string{"add": map[string]string{"bytes": "addbytes", "add": "add"}[s.via], "test": "extract"}[s.Op]
		if s.Op == "add" && main == "" {
			main = "cmdadd"
		}
		if main == "" {
			main = s.Op
		}
		if s.via == "cli" {
			main = "cli"
		}
		for j.Steps[i].Op != main {
			i++
		}
		r := o.Res[i]
		s.Err, s.Text, s.Fail = r.Err != "", r.Err, r.Panic
		for j.Steps[i].Op != "read" {
			if j.Steps[i].Op == "unstub" {
				s.Stub = o.Res[i].Err != ""
				count("additions to a self-extracting archive")
			}
			i++
		}
		after := o.Res[i]
		s.Was = was
		s.Has = after.Err == ""
		s.Same = s.Has == was && bytes.Equal(prev, after.Data)
		if s.Has && !was && s.Op == "add" && len(after.Data) == 1 && after.Data[0] == 0 {
			s.Same = false
		}
		if !s.Same {
			s.Arc = after.Data
		}
		prev, was = after.Data, s.Has
		i++
		switch s.Op {
		case "add":
			for _, n := range o.Res[i].Names {
				s.Gone = append(s.Gone, Bytes(n))
			}
			for c := range s.Srcs {
				x := &s.Srcs[c]
				if s.via == "bytes" {
					x.From, x.To = moment(h.from.Unix()), moment(to.Unix())
				}
				if x.now {
					x.To = moment(to.Unix())
				}
			}
			// paths, not names
			var g []Bytes
			for _, x := range s.Srcs {
				for _, y := range s.Gone {
					if string(y) == x.path() && x.Kind != "x" && !x.Self && s.via != "bytes" {
						g = append(g, x.Name)
					}
				}
			}
			if g == nil {
				g = []Bytes{}
			}
			s.Gone = g
		case "headers":
			s.Heads = headsOf(r.Headers)
		case "bytes":
			s.Data = r.Data
		case "dec":
			s.Data = o.Res[i].Data
		}
		k.Steps = append(k.Steps, s)
	}
	return k
}

func historyRun(name string, work func() (Work, bool), budget int) {
	tr := newTraces(name)
	newPool().Run(work, func(j proto.Job, info any, o Outcome) {
		h := info.(*history)
		k := h.record(j.ID, j, o)
		fail := o.Died != ""
		cost := 300
		key := &bytes.Buffer{}
		for _, s := range k.Steps {
			count("op " + s.Op)
			if s.Err {
				count("op " + s.Op + " with an error")
			}
			fail = fail || s.Fail != ""
			cost += 300
			if !s.Same {
				cost += 15000 + 20*len(s.Arc)
			}
			fmt.Fprintf(key, "%v %v %v %v\n", s.Op, s.Name, s.Srcs, s.Opt)
		}
		seen(key.Bytes(), len(k.Steps) > 0)
		if fail {
			suspect(o)
		}
		if !fail {
			if budget <= 0 {
				return
			}
			budget -= cost
		}
		if len(k.Steps) > 1 {
			sample(map[string]any{"id": k.Id, "steps": summary(k)})
		}
		tr.Put(k, cost)
	})
	tr.Close()
}

func summary(k HCase) (out []string) {
	for _, s := range k.Steps {
		t := s.Op
		if s.Op == "add" {
			t += " (" + s.via + ")"
			for _, x := range s.Srcs {
				t += fmt.Sprintf(" %q:%s:%d bytes", string(x.Name), x.Kind, len(x.Data))
			}
			b, _ := json.Marshal(s.Opt)
			t += " " + string(b)
		}
		out = append(out, t)
		if len(out) == 8 {
			break
		}
	}
	return
}

/*------------------------------- histories ----------------------------------*/

type histGen struct {
	r      *rand.Rand
	names  [][]byte
	exotic bool
	max    int
	home   string
	flat   bool // no recursion
	odd    bool // names of any kind
	sfx    bool // additions to self-extracting archives
}

func (g *histGen) content() []byte {
	r := g.r
	n := r.Intn(g.max + 1)
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		b := make([]byte, n)
		r.Read(b)
		return b
	case 2:
		return bytes.Repeat([]byte{byte(r.Intn(256))}, n)
	case 3:
		return []byte(strings.Repeat("the same words again ", n/20+1))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcd"[r.Intn(4)]
	}
	return b
}

// a name of a file: any bytes but those the format cannot keep
func (g *histGen) exoticName(max int) []byte {
	r := g.r
	n := 1 + r.Intn(12)
	switch r.Intn(12) {
	case 0:
		n = max - r.Intn(4)
	case 1, 2:
		n = 1 + r.Intn(max)
	}
	b := make([]byte, n)
	for {
		for i := range b {
			switch r.Intn(5) {
			case 0:
				b[i] = byte(1 + r.Intn(254))
			case 1:
				b[i] = " .-_~%*?:;|<>\"'&$!@#"[r.Intn(20)]
			default:
				b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.Intn(62)]
			}
			if b[i] == '/' || b[i] == '\\' || b[i] == 0xff {
				b[i] = 'x'
			}
		}
		if s := string(b); s != "." && s != ".." && s != arcName && s != "out" && s != "s" {
			return b
		}
	}
}

func (g *histGen) src(o *Opt, name []byte) Src {
	r := g.r
	s := Src{Name: name, Entry: name, Kind: "f", Data: g.content(), Mode: r.Intn(01000) | 0400, Real: Bytes{}, dir: "s"}
	if s.Data == nil {
		s.Data = Bytes{}
	}
	switch {
	case g.exotic && o.Generic && o.Level < 2: // what MS-DOS stamps can hold
		s.time = 315619200 + r.Int63n(4000000000)
		if r.Intn(5) == 0 {
			s.time = []int64{315619200, 4354732799, 951782399, 951782400, 951868799, 951868800, 1709164800, 1709251199, 4107456000}[r.Intn(9)]
		}
	case g.exotic:
		s.time = r.Int63n(1 << 32)
		if r.Intn(5) == 0 {
			s.time = []int64{1, 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 86399, 86400}[r.Intn(7)]
		}
		if s.time == 0 {
			s.time = 1
		}
	default:
		s.time = 1000000000 + int64(r.Intn(6))*[]int64{1, 2, 86400}[r.Intn(3)]
	}
	if g.exotic && r.Intn(6) == 0 {
		s.Mode = []int{0400, 0777, 0644, 0755, 0600, 0444}[r.Intn(6)]
	}
	s.From, s.To = moment(s.time), moment(s.time)
	return s
}

// target is what a link leads to
func (g *histGen) target(n int) Bytes {
	b := make(Bytes, n)
	for i := range b {
		b[i] = "abcABC/ .|-\xe9\x01"[g.r.Intn(13)]
	}
	return b
}

func (g *histGen) opt() *Opt {
	r := g.r
	o := &Opt{Sort: r.Intn(2) == 0, Generic: r.Intn(2) == 0, Level: r.Intn(3), Method: []int{0, 1, 5, 5, 6, 7}[r.Intn(6)], Exclude: []Bytes{}}
	return o
}

func (g *histGen) pick(n int) (ns [][]byte) {
	for _, i := range g.r.Perm(len(g.names)) {
		if len(ns) < n {
			ns = append(ns, g.names[i])
		}
	}
	return
}

// add is a step that adds files
func (g *histGen) add() HStep {
	s := g.adding()
	for i := range s.Srcs {
		if c := &s.Srcs[i]; c.Kind != "f" && len(c.Name)+len(c.Real) > 200 && s.Opt.Level == 0 {
			s.Opt.Level = 1
		}
	}
	for i := range s.Srcs {
		c := &s.Srcs[i]
		c.Entry = g.stored(c.Entry, c.Kind, s.Opt)
	}
	for _, c := range s.Srcs {
		if c.Self || c.now {
			return s
		}
	}
	if g.sfx && s.via == "cmd" && g.r.Intn(8) == 0 {
		s.h = "sfx" // a handle remembers the archive
		s.sfx = strings.TrimSuffix(arcName, ".lzh") + []string{".exe", ".com", ".x", ".EXE", ".Com"}[g.r.Intn(5)]
		if g.home != "" {
			s.sfx = g.home + "/" + s.sfx
		}
	}
	return s
}

// stored is the name that an archive keeps for an entry
func (g *histGen) stored(name []byte, kind string, o *Opt) Bytes {
	b := append(Bytes{}, name...)
	for i, c := range b {
		switch {
		case c == '|' && kind == "l":
			b[i] = '_'
		case c == '\\' || c == 0xff:
			b[i] = '/'
		}
	}
	if g.odd && o.Level == 0 { // what a short header has room for
		max := 221
		if o.Generic {
			max = 233
		}
		b = b[:min(len(b), max)]
	}
	return b
}

func (g *histGen) adding() HStep {
	r := g.r
	o := g.opt()
	s := HStep{Op: "add", Opt: o, via: "cmd", h: []string{"h1", "h1", "h2"}[r.Intn(3)]}
	switch r.Intn(5) {
	case 0:
		s.via = "bytes"
	case 1:
		s.via = "add"
	}
	n := 1
	if s.via == "cmd" {
		n = 1 + r.Intn(3)
		o.Update = r.Intn(4) == 0
		o.Fresh = r.Intn(15) == 0
		o.Delete = r.Intn(8) == 0
		if r.Intn(8) == 0 {
			for _, e := range g.pick(1 + r.Intn(4)) {
				if bytes.IndexByte(e, 0xff) < 0 {
					o.Exclude = append(o.Exclude, bytes.ToUpper(e))
				}
			}
		}
	}
	o.Noexec = r.Intn(15) == 0
	o.backup = r.Intn(10) == 0
	for _, name := range g.pick(n) {
		c := g.src(o, name)
		switch k := r.Intn(20); {
		case s.via == "bytes":
			c.Mode = 0777
			c.Name = name
			if r.Intn(3) > 0 {
				c.dir = ""
			}
		case k == 0:
			c.Kind = "x"
		case k == 1 && os.Getuid() != 0:
			c.Unreadable = true
		case k < 4:
			c.Kind, c.Data = "d", Bytes{}
			c.Mode |= 0700
			c.Entry = append(append([]byte{}, c.Name...), '/')
		case k < 6:
			c.Kind, c.Data, c.Mode = "l", Bytes{}, 0777
			c.Real = []byte("some/where else")[:1+r.Intn(15)]
			if r.Intn(4) == 0 && o.Level > 0 {
				c.Real = g.target(1 + r.Intn(1700))
			}
		}
		s.Srcs = append(s.Srcs, c)
	}
	if o.Update && !g.exotic && !g.flat && r.Intn(3) == 0 { // no names given: those of the archive
		o.Auto, o.Fresh = true, false
		for i := range s.Srcs {
			s.Srcs[i].dir = ""
		}
		sort.Slice(s.Srcs, func(i, j int) bool { return bytes.Compare(s.Srcs[i].Name, s.Srcs[j].Name) < 0 })
		return s
	}
	if s.via == "cmd" && !g.exotic && !g.flat && r.Intn(3) == 0 {
		g.recurse(&s)
	}
	if r.Intn(12) == 0 && s.via == "cmd" { // the archive itself
		k := r.Intn(len(s.Srcs) + 1)
		for k < len(s.Srcs) && len(s.Srcs[k].Under) > 0 {
			k++
		}
		self := g.self()
		if r.Intn(2) == 0 { // by another of its names
			self.dir = []string{".", "./.", self.dir + "/../" + self.dir}[r.Intn(2+len(self.dir)/4)]
			if g.home != "" && self.dir[0] == '.' {
				self.dir += "/" + g.home
			}
		}
		s.Srcs = append(s.Srcs[:k], append([]Src{self}, s.Srcs[k:]...)...)
	}
	return s
}

// self is the archive as a source
func (g *histGen) self() Src {
	return Src{Name: Bytes(arcName), Entry: Bytes(arcName), Kind: "f", Data: Bytes{}, Real: Bytes{}, Self: true, dir: g.home}
}

// recurse lets the directories of a step have contents, which are added with them
func (g *histGen) recurse(s *HStep) {
	r := g.r
	s.Opt.recur = true
	used := map[string]bool{}
	for _, c := range s.Srcs {
		used[string(c.Name)] = true
	}
	var free [][]byte
	for _, n := range append([][]byte{[]byte("c"), []byte("Ab"), []byte("kid.1"), []byte("q q"), []byte("zz"), []byte("5")}, g.names...) {
		if !used[string(n)] {
			free = append(free, n)
			used[string(n)] = true
		}
	}
	r.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
	var fill func(c Src, depth int) []Src
	fill = func(c Src, depth int) (out []Src) {
		out = []Src{c}
		if c.Kind != "d" {
			return
		}
		n := r.Intn(4)
		if n > len(free) {
			n = len(free)
		}
		ns := append([][]byte{}, free[:n]...)
		free = free[n:]
		if c.now {
			ns = append(ns, []byte(arcName))
		}
		sort.Slice(ns, func(i, j int) bool { return bytes.Compare(ns[i], ns[j]) < 0 })
		for _, name := range ns {
			k := g.src(s.Opt, name)
			if c.now && string(name) == arcName {
				k = g.self()
			}
			k.dir = c.path()
			k.Under = append(append([]Bytes{}, c.Under...), c.Name)
			i := r.Intn(6)
			if k.Self {
				i = 6
			}
			switch i {
			case 0:
				if depth > 0 {
					k.Kind, k.Data = "d", Bytes{}
					k.Mode |= 0700
					k.Entry = append(append([]byte{}, k.Name...), '/')
				}
			case 1:
				k.Kind, k.Data, k.Mode = "l", Bytes{}, 0777
				k.Real = []byte("../some/where")[:1+r.Intn(13)]
			}
			out = append(out, fill(k, depth-1)...)
		}
		return
	}
	if g.home != "" && !s.Opt.Update && r.Intn(2) == 0 {
		c := g.src(s.Opt, []byte(g.home))
		c.Kind, c.Data, c.dir, c.now = "d", Bytes{}, "", true
		c.time = 1e9
		c.From = moment(c.time)
		c.Mode |= 0700
		c.Entry = append(append([]byte{}, c.Name...), '/')
		k := r.Intn(len(s.Srcs) + 1)
		s.Srcs = append(s.Srcs[:k], append([]Src{c}, s.Srcs[k:]...)...)
	}
	var all []Src
	for _, c := range s.Srcs {
		if c.Kind == "f" && !c.Unreadable && r.Intn(3) == 0 {
			c.Kind, c.Data = "d", Bytes{}
			c.Mode |= 0700
			c.Entry = append(append([]byte{}, c.Name...), '/')
			if os.Getuid() != 0 && r.Intn(8) == 0 {
				c.Unreadable = true
			}
		}
		all = append(all, fill(c, 2)...)
	}
	s.Srcs = all
}

func (g *histGen) look() HStep {
	r := g.r
	s := HStep{Op: []string{"headers", "list", "test", "bytes", "bytes", "dec"}[r.Intn(6)], h: []string{"h1", "h2", "h3"}[r.Intn(3)]}
	if s.Op == "bytes" || s.Op == "dec" {
		s.Name = g.stored(g.names[r.Intn(len(g.names))], "f", &Opt{Level: r.Intn(3)})
		if s.Op == "dec" && (g.exotic || g.odd) {
			s.Op = "bytes"
		}
	}
	return s
}

func histories(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &histGen{r: r, max: []int{3, 40, 150}[r.Intn(3)], sfx: true}
		pool := []string{"a", "b", "B", "ab", "a.b", "zebra", "m", "A", "a b", "0", "ba", "longer-name.txt"}
		for _, k := range r.Perm(len(pool))[:2+r.Intn(5)] {
			g.names = append(g.names, []byte(pool[k]))
		}
		if g.odd = r.Intn(4) == 0; g.odd { // names that cannot be kept
			odd := []string{"p\\q", "x\xffy", "a|b", "|", strings.Repeat("n", 230) + "1.txt", "\\r", "s|t\\u|v"}
			for _, k := range r.Perm(len(odd))[:1+r.Intn(2)] {
				g.names = append(g.names, []byte(odd[k]))
			}
			count("histories with names that cannot be kept")
		}
		h := &history{tz: someTz(r)}
		if r.Intn(3) == 0 {
			h.home = "home"
			g.home = h.home
		}
		for k := 2 + r.Intn(9); k > 0; k-- {
			if r.Intn(5) < 3 {
				h.steps = append(h.steps, g.add())
			} else {
				h.steps = append(h.steps, g.look())
			}
		}
		h.steps = append(h.steps, HStep{Op: "headers", h: "h4"})
		for _, n := range g.names {
			h.steps = append(h.steps, HStep{Op: "bytes", h: "h4", Name: g.stored(n, "f", &Opt{Level: r.Intn(3)})})
		}
		return h.job(), h
	})
}

// metaCases: archives of files with every kind of name, time and mode
func metaCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &histGen{r: r, max: []int{0, 10, 60}[r.Intn(3)], exotic: true}
		h := &history{tz: someTz(r)}
		for k := 1 + r.Intn(3); k > 0; k-- {
			o := g.opt()
			max := 255
			if o.Level == 0 {
				max = 221
				if o.Generic {
					max = 233
				}
			}
			g.names = nil
			seen := map[string]bool{}
			for len(g.names) < 1+r.Intn(3) {
				if b := g.exoticName(max); !seen[string(b)] {
					g.names = append(g.names, b)
					seen[string(b)] = true
				}
			}
			s := g.add()
			s.Opt.Level, s.Opt.Generic = o.Level, o.Generic
			s.Opt.Noexec, s.Opt.Exclude = false, []Bytes{}
			for c := range s.Srcs {
				if s.Srcs[c].Self {
					continue
				}
				x := g.src(s.Opt, s.Srcs[c].Name)
				y := &s.Srcs[c]
				y.time, y.From, y.To = x.time, x.From, x.To
				if o.Level == 0 {
					y.Real = y.Real[:min(len(y.Real), 20)]
				}
				if y.Kind != "f" && len(y.Name) > 180 {
					y.Kind, y.Data, y.Entry = "f", x.Data, y.Name
				}
			}
			h.steps = append(h.steps, s, HStep{Op: "headers", h: s.h})
		}
		return h.job(), h
	})
}

// lengthCases: a member with a name of every length there is
func lengthCases(tag string) func() (Work, bool) {
	const links = 7 * 60
	return Count(tag, 255*6+links, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &histGen{r: r, max: 3, exotic: true}
		if i >= 255*6 { // links whose headers are about as long as a multiple of 256
			i -= 255 * 6
			o := &Opt{Level: 2, Exclude: []Bytes{}}
			c := g.src(o, []byte{'k'})
			c.Kind, c.Data, c.Mode = "l", Bytes{}, 0777
			c.Real = g.target(256*(i/60+1) - 90 + i%60)
			h := &history{tz: someTz(r), steps: []HStep{{Op: "add", Opt: o, via: "cmd", h: "h1", Srcs: []Src{c}}, {Op: "headers", h: "h1"}}}
			return h.job(), h
		}
		o := &Opt{Level: i / 2 % 3, Generic: i%2 == 0, Method: 0, Exclude: []Bytes{}}
		n := i/6 + 1
		name := bytes.Repeat([]byte{byte('a' + r.Intn(26))}, n)
		if s := string(name); s == "s" {
			name = []byte("q")
		}
		s := HStep{Op: "add", Opt: o, via: "cmd", h: "h1", Srcs: []Src{g.src(o, name)}}
		g.odd = true
		s.Srcs[0].Entry = g.stored(name, "f", o)
		h := &history{tz: someTz(r), steps: []HStep{s, {Op: "headers", h: "h1"}}}
		return h.job(), h
	})
}

func init() {
	drivers["C08"] = func() {
		stats.Rule = "one to three additions of files, directories, links and bytes under names of any bytes (up to the longest), times over the whole range, modes and time zones, at levels 0 to 2, generic or not; the header written is read by the specification and compared with the source and with the listing"
		historyRun("store", Chain(lengthCases("c08n"), metaCases("c08", scale(9000, 100000))), 1<<60)
	}
	drivers["C13"] = func() {
		stats.Rule = "histories of up to 10 operations on one archive through several handles: additions of one or several files by every interface with every combination of sorting, update, re-creation, exclusion, moving, backup, no-execute, levels and methods, missing and unreadable files among them; listing, testing and extraction between them and of every name at the end"
		w := []func() (Work, bool){histories("c13", scale(4000, 50000)), bigCases("c13b", scale(16, 300))}
		for _, f := range inputs() {
			w = append(w, genHistories("c13g", f))
		}
		historyRun("store", Chain(w...), 1<<60)
	}
}

/*------------------- behaviours made by the specification -------------------*/

type genSrc struct {
	Kind string
	Data int
	Name []int
	Time struct{ Day, Sec int }
}

type genStep struct {
	Op   string
	Srcs []genSrc
	Opt  struct {
		Sort, Update, Fresh, Generic, Auto bool
		Exclude                            [][]int
	}
	Form struct {
		Via, H        string
		Level, Method int
	}
	Name []int
}

func ints(x []int) []byte {
	b := make([]byte, len(x))
	for i, v := range x {
		b[i] = byte(v)
	}
	return b
}

// behaviours reads lines that TLC wrote, each a string that holds JSON
func behaviours(file string, each func(i int, line []byte)) {
	f, err := os.Open(file)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	d := json.NewDecoder(f)
	for i := 1; d.More(); i++ {
		var s string
		if err := d.Decode(&s); err != nil {
			fatal("%s: %v", file, err)
		}
		each(i, []byte(s))
	}
}

func genHistories(tag, file string) func() (Work, bool) {
	var ws []Work
	behaviours(file, func(i int, line []byte) {
		id := fmt.Sprintf("%s-%d", tag, i)
		ws = append(ws, Work{ID: id, Make: func() (proto.Job, any) {
			var gs []genStep
			if err := json.Unmarshal(line, &gs); err != nil {
				fatal("%s: %v", id, err)
			}
			r := newRand(id)
			g := &histGen{r: r, max: 60}
			h := &history{tz: someTz(r)}
			for _, x := range gs {
				s := HStep{Op: x.Op, h: x.Form.H, via: x.Form.Via, Name: ints(x.Name)}
				if x.Op == "add" {
					s.Opt = &Opt{Sort: x.Opt.Sort, Update: x.Opt.Update, Fresh: x.Opt.Fresh, Generic: x.Opt.Generic, Level: x.Form.Level, Method: x.Form.Method, Exclude: []Bytes{}, Auto: x.Opt.Auto}
					for _, e := range x.Opt.Exclude {
						s.Opt.Exclude = append(s.Opt.Exclude, ints(e))
					}
					for _, c := range x.Srcs {
						y := g.src(s.Opt, ints(c.Name))
						y.Kind = c.Kind
						y.time = 1000000000 + 86400*int64(c.Time.Day) + int64(c.Time.Sec)
						y.From, y.To = moment(y.time), moment(y.time)
						if s.via == "bytes" {
							y.Mode, y.dir = 0777, ""
						}
						if s.Opt.Auto {
							y.dir = ""
						}
						s.Srcs = append(s.Srcs, y)
					}
				}
				h.steps = append(h.steps, s)
			}
			return h.job(), h
		}})
	})
	return List(ws)
}

// bigCases: members larger than any buffer they are copied with
func bigCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &histGen{r: r, max: 40, names: [][]byte{[]byte("a"), []byte("b"), []byte("c"), []byte("d")}}
		h := &history{}
		for k := 0; k < 4; k++ {
			s := g.add()
			s.Opt.Noexec, s.Opt.Fresh = false, false
			for c := range s.Srcs {
				x := &s.Srcs[c]
				if x.Kind == "f" && !x.Self && k < 2 {
					x.Data = make([]byte, []int{511, 512, 4095, 4096, 8191, 8193, 16384, 32768, 65535, 65537, 70000}[r.Intn(11)])
					r.Read(x.Data)
				}
			}
			h.steps = append(h.steps, s)
		}
		h.steps = append(h.steps, HStep{Op: "headers", h: "h4"})
		return h.job(), h
	})
}

func inputs() []string {
	if *input == "" {
		return nil
	}
	return strings.Split(*input, ",")
}

// stub is a program to be put before an archive; nothing in it is a header
func stub(r *rand.Rand) []byte {
	b := []byte("MZ")
	fill := func(n int) {
		for ; n > 0; n-- {
			c := byte(r.Intn(256))
			if c == '-' {
				c = '.'
			}
			b = append(b, c)
		}
	}
	fill(r.Intn(300))
	for n := r.Intn(4); n > 0; n-- { // what might be taken for one
		at := len(b)
		m := lz.Simple(r.Intn(4), []string{"lh0", "lh5", "pm2", "lzs"}[r.Intn(4)], "decoy", nil, nil)
		b = append(b, m.Header()...)
		switch m.Level {
		case 0, 1:
			b[at+1+r.Intn(1)]++
			if r.Intn(3) == 0 {
				b[at] = byte(r.Intn(21))
			}
		case 2:
			b[at+19] ^= byte(1 + r.Intn(255))
		}
		fill(25 + r.Intn(200))
	}
	return b
}
