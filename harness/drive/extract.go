package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"vh/lz"
	"vh/proto"
)

// TNode is a node of a tree.
type TNode struct {
	Path []Bytes `json:"path"`
	T    string  `json:"t"`
	Data Bytes   `json:"data"`
	Mode int     `json:"mode"`
	Time Moment  `json:"time"`
}

func comps(p string) (o []Bytes) {
	o = []Bytes{}
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			o = append(o, Bytes(c))
		}
	}
	return
}

func treeOf(ns []proto.Node) (o []TNode) {
	o = []TNode{}
	for _, n := range ns {
		o = append(o, TNode{Path: comps(string(n.Path)), T: n.Type, Data: n.Data, Mode: int(n.Mode), Time: moment(n.Mtime)})
	}
	return
}

type EOpt struct {
	Root   []Bytes `json:"root"`
	Cage   []Bytes `json:"cage"`
	Force  bool    `json:"force"`
	Junk   bool    `json:"junk"`
	Noexec bool    `json:"noexec"`
	Names  []Bytes `json:"names"`
	Stdin  Bytes   `json:"stdin"`
	Room   int     `json:"room"`
}

type ECase struct {
	Id     string  `json:"id"`
	Arc    Bytes   `json:"arc"`
	Tz     int     `json:"tz"`
	Op     string  `json:"op"`
	Opt    EOpt    `json:"opt"`
	Before []TNode `json:"before"`
	After  []TNode `json:"after"`
	Fail   string  `json:"fail"`
	Err    bool    `json:"err"`
	Text   string  `json:"text"`
}

// unpacking is an extraction, or something that only looks at the archive
type unpacking struct {
	k     ECase
	cage  string
	form  int          // how the extraction directory is given
	setup []proto.Step // what is there before
	dirs  []string     // directories that are there before
	add   *Opt         // "add": without execution
	args  []string     // of the command, if that is to do it
}

var cages atomic.Int64

// newCage is a directory of its own; the extraction directory lies four levels
// down, so that what climbs out of it is still in the cage
func newCage() string {
	d := filepath.Join(*scratch, fmt.Sprintf("cage%d", cages.Add(1)))
	if err := os.Mkdir(d, 0755); err != nil {
		fatal("%v", err)
	}
	return d
}

const box = "a/b/c/box"

func (u *unpacking) put(st ...proto.Step) { u.setup = append(u.setup, st...) }

func (u *unpacking) job() proto.Job {
	k := &u.k
	st := []proto.Step{{Op: "tz", Mtime: int64(k.Tz)}, {Op: "write", Name: "t.lzh", Data: k.Arc, Mtime: 1234567890},
		{Op: "write", Name: "away/secret", Data: []byte("secret"), Mode: 0640, Mtime: 1111111111},
		{Op: "write", Name: "away/sub/deep", Data: []byte("deep"), Mode: 0604, Mtime: 1111111112},
		{Op: "write", Name: "a/top", Data: []byte("top"), Mode: 0644, Mtime: 1111111113},
		{Op: "write", Name: "a/b/c/near", Data: []byte("near"), Mode: 0600, Mtime: 1111111114},
		{Op: "mkdir", Name: "tmp"}}
	st = append(st, u.setup...)
	for i, d := range append([]string{"away/sub", "away", "a/b/c", "a/b", "a", "tmp", "."}, u.dirs...) {
		st = append(st, proto.Step{Op: "chtimes", Name: proto.Str(d), Mtime: 1000000000 + int64(i)})
	}
	arc := u.cage + "/t.lzh"
	opts := map[string]any{"Force": k.Opt.Force, "IgnoreDirectory": k.Opt.Junk, "Noexec": k.Opt.Noexec}
	cd := box
	switch u.form {
	case 1:
		cd, opts["ExtractDirectory"] = "a/b/c", "box"
	case 2:
		cd, opts["ExtractDirectory"] = ".", u.cage+"/"+box
	case 3:
		cd, opts["ExtractDirectory"] = "a/b/c", "box/"
	case 4:
		cd, opts["ExtractDirectory"] = "a/b/c/box", "."
	case 5:
		cd, opts["ExtractDirectory"] = "a/b", "../b/c/box"
	}
	if k.Op != "print" && k.Op != "list" && k.Op != "list verbose" { // what only changes what is said
		opts["Verbose"], opts["DumpLzss"], opts["DecodeMacbinaryContents"] = len(k.Arc)%3 == 0, len(k.Arc)%7 == 0, len(k.Arc)%5 == 0
	}
	st = append(st, proto.Step{Op: "snap", Name: "."}, proto.Step{Op: "cd", Name: proto.Str(cd)}, proto.Step{Op: "new", H: "h", Archive: arc},
		proto.Step{Op: "set", H: "h", Opts: opts}, proto.Step{Op: "tmpdir", Name: proto.Str(u.cage + "/tmp")})
	do := proto.Step{H: "h", Archive: arc, Stdin: k.Opt.Stdin, WantOut: false}
	global := map[string]any{}
	switch k.Op {
	case "extract":
		do.Op = "extract"
		for _, n := range k.Opt.Names {
			do.Names = append(do.Names, proto.Str(n))
		}
	case "dec":
		do.Op, do.Name, do.Index = "dec", proto.Str(k.Opt.Names[0]), -1
	case "bytes":
		do.Op, do.Name, do.Index = "bytes", proto.Str(k.Opt.Names[0]), -1
	case "test":
		do.Op = "extract"
		global["VerifyMode"] = true
	case "print":
		do.Op = "extract"
		st = append(st, proto.Step{Op: "set", H: "h", Opts: map[string]any{"OutputToStdout": true}})
	case "list":
		do.Op = "list"
	case "list verbose":
		do.Op = "list"
		st = append(st, proto.Step{Op: "set", H: "h", Opts: map[string]any{"VerboseListing": true, "Verbose": true}})
	case "headers":
		do.Op = "headers"
	case "add":
		do.Op, do.Method, do.Level = "cmdadd", u.add.Method, u.add.Level
		global["GenericFormat"] = u.add.Generic
		st = append(st, proto.Step{Op: "set", H: "h", Opts: map[string]any{"UpdateIfNewer": u.add.Update, "NewArchive": u.add.Fresh,
			"DeleteAfterAppend": u.add.Delete, "BackupOldArchive": u.add.backup, "SortContents": u.add.Sort}})
		for _, n := range k.Opt.Names {
			do.Names = append(do.Names, proto.Str(n))
		}
	case "add one", "add bytes":
		do.Op, do.Method, do.Level, do.Name, do.Data = "add", u.add.Method, u.add.Level, proto.Str(k.Opt.Names[0]), []byte("some new content")
		if k.Op == "add bytes" {
			do.Op = "addbytes"
		}
		global["GenericFormat"] = u.add.Generic
	}
	if u.args != nil {
		do = cli(append(u.args, "-archive", arc)...)
		do.Stdin = k.Opt.Stdin
	}
	quiet := len(k.Arc)%2 == 0
	global["Quiet"] = quiet
	st = append(st, proto.Step{Op: "global", Opts: global}, proto.Step{Op: "limit", Mtime: int64(k.Opt.Room)}, do, proto.Step{Op: "limit", Mtime: -1}, proto.Step{Op: "cd", Name: proto.Str(u.cage)}, proto.Step{Op: "snap", Name: "."},
		proto.Step{Op: "global", Opts: map[string]any{"VerifyMode": false, "Quiet": true, "GenericFormat": false}}, proto.Step{Op: "tmpdir", Name: proto.Str(*scratch)})
	return proto.Job{Dir: u.cage, Steps: st}
}

func (u *unpacking) record(id string, o Outcome) ECase {
	k := u.k
	k.Id = id
	k.Before, k.After = []TNode{}, []TNode{}
	if o.Died != "" {
		k.Fail = o.Died
		return k
	}
	n := len(o.Res)
	r := o.Res[n-6]
	k.Fail, k.Err, k.Text = r.Panic, r.Err != "", r.Err
	k.After = treeOf(o.Res[n-3].Tree)
	for i := range o.Res[:n-6] {
		if o.Res[i].Tree != nil {
			k.Before = treeOf(o.Res[i].Tree)
		}
	}
	return k
}

func unpackRun(work func() (Work, bool)) {
	tr := newTraces("extract")
	newPool().Run(work, func(j proto.Job, info any, o Outcome) {
		u := info.(*unpacking)
		k := u.record(j.ID, o)
		rmAll(u.cage)
		seen([]byte(fmt.Sprint(k.Op, k.Opt.Force, k.Opt.Junk, k.Opt.Names, k.Opt.Stdin, u.setup, k.Opt.Room, k.Arc)), len(k.Arc) > 1)
		count("op " + k.Op)
		if k.Err {
			count("op " + k.Op + " with an error")
		}
		if k.Fail != "" {
			suspect(o)
		}
		if k.Err {
			sample(map[string]any{"id": k.Id, "operation": k.Op, "error": k.Text})
		}
		tr.Put(k, 3000+20*len(k.Arc)+100*len(k.After))
	})
	tr.Close()
}

/*------------------------------- archives -----------------------------------*/

type entry struct {
	name, data, target []byte
	kind               string
	mode               int
	time               int64
	os                 byte
	level              int
	badCrc             bool
}

func dosOf(t int64) uint32 { // a stamp near t, in the zone the reader is in
	y, rest := 1980+int(t/31622400)%60, t%31622400
	m := 1 + int(rest/2678400)%12
	d := 1 + int(rest/86400)%28
	return uint32((y-1980)<<25 | m<<21 | d<<16 | int(rest/3600)%24<<11 | int(rest/60)%60<<5 | int(rest/2)%30)
}

func (e *entry) member(r *rand.Rand) *lz.Member {
	meth := []string{"lh0", "lh0", "lh5", "lz4", "lh1", "lzs"}[r.Intn(6)]
	var packed []byte
	content := e.data
	switch {
	case e.kind != "f":
		meth, content = "lhd", nil
	case meth == "lh5":
		packed, content, _ = stream(r, meth, len(e.data))
	case meth == "lh1" || meth == "lzs":
		packed, content, _ = stream(r, meth, len(e.data))
	default:
		packed = e.data
	}
	if len(content) == 0 {
		packed = nil
		if meth != "lhd" {
			meth = "lh0"
		}
	}
	m := &lz.Member{Level: e.level, Method: meth, Packed: packed, Size: len(content), Crc: lz.Crc(content), OS: e.os, Attr: 0x20}
	if e.badCrc {
		m.Crc ^= 1 + r.Intn(65535)
	}
	mode := e.mode
	switch e.kind {
	case "f":
		mode |= 0100000
	case "d":
		mode |= 040000
	case "l":
		mode |= 0120000
	}
	full := append([]byte{}, e.name...)
	if e.kind == "l" {
		full = append(append(full, '|'), e.target...)
	}
	// separators as different systems write them
	alt := func(b []byte, p int, cs string) []byte {
		b = append([]byte{}, b...)
		for i := range b {
			if b[i] == '/' && r.Intn(p) == 0 {
				b[i] = cs[r.Intn(len(cs))]
			}
		}
		return b
	}
	seps := "\xff\xff\\"
	always := 3
	if e.os == 'm' {
		seps, always = "\xff:", 1
	}
	dir, base := []byte(nil), full
	if i := bytes.LastIndexByte(e.name, '/'); i >= 0 && e.level > 0 && r.Intn(3) > 0 {
		dir, base = full[:i+1], full[i+1:]
	}
	dir, base = alt(dir, always, seps), alt(base, always, seps)
	uinfo := append(append(append(w32(uint32(e.time)), w16(mode)...), w16(r.Intn(65536))...), w16(r.Intn(65536))...)
	switch e.level {
	case 0:
		m.Stamp = dosOf(e.time)
		m.Name = base
		if e.os == 'U' {
			m.Extra = append([]byte{'U', 0}, uinfo...)
		} else if e.os != 0 {
			m.Extra = []byte{e.os}
		}
	case 1:
		m.Stamp = dosOf(e.time)
		if len(base) > 200 || r.Intn(3) == 0 {
			m.Exts = append(m.Exts, lz.Ext{Type: 1, Data: base})
		} else {
			m.Name = base
		}
	default:
		m.Stamp = uint32(e.time)
		m.Exts = append(m.Exts, lz.Ext{Type: 0, Data: []byte{0, 0}}, lz.Ext{Type: 1, Data: base})
	}
	if e.level > 0 {
		if dir != nil {
			m.Exts = append(m.Exts, lz.Ext{Type: 2, Data: dir})
		}
		if e.os == 'U' || e.kind == "l" {
			m.Exts = append(m.Exts, lz.Ext{Type: 0x50, Data: w16(mode)}, lz.Ext{Type: 0x51, Data: append(w16(r.Intn(65536)), w16(r.Intn(65536))...)})
			if e.level == 1 && r.Intn(2) == 0 {
				m.Exts = append(m.Exts, lz.Ext{Type: 0x54, Data: w32(uint32(e.time))})
			}
		}
		r.Shuffle(len(m.Exts), func(i, j int) { m.Exts[i], m.Exts[j] = m.Exts[j], m.Exts[i] })
	}
	if m.Level == 2 {
		if h := m.Header(); h[0] == 0 {
			m.Pad = true
		}
	}
	return m
}

func archiveOf(r *rand.Rand, es []entry) []byte {
	var ms []*lz.Member
	for i := range es {
		if es[i].level == 0 && len(es[i].name)+len(es[i].target) > 200 {
			es[i].level = 2
		}
		if es[i].level == 0 && es[i].kind == "l" {
			es[i].os = 'U'
		}
		ms = append(ms, es[i].member(r))
	}
	return join(ms, r.Intn(6) > 0)
}

func someData(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(24))
	r.Read(b)
	return b
}

func someEntry(r *rand.Rand) entry {
	e := entry{kind: "f", data: someData(r), mode: r.Intn(01000), time: 1000000000 + int64(r.Intn(7))*[]int64{1, 2, 100, 86400}[r.Intn(4)],
		os: []byte{'U', 'U', 'U', 'U', 0, 'M', 'K', 'X', 'm'}[r.Intn(9)], level: r.Intn(4)}
	switch r.Intn(12) {
	case 0:
		e.time = []int64{0, 1, 86399, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(6)]
	case 1:
		e.time = r.Int63n(1 << 32)
	}
	return e
}

/*------------------------- names that lead elsewhere ------------------------*/

type wayOut struct {
	r     *rand.Rand
	u     *unpacking
	links []string
}

// outward is a path that may lead out of the extraction directory
func (w *wayOut) outward() string {
	r := w.r
	ends := []string{"away/secret", "away/new", "away/sub/deep", "away/sub", "a/top", "a/b/c/near", "a/b/c/fresh", "away", "t.lzh", "new"}
	end := ends[r.Intn(len(ends))]
	switch r.Intn(7) {
	case 6: // absolute once the name of a device is gone
		return []string{"/h0/", "//h0/", "/h0//", "/dd/dd/"}[r.Intn(4)] + w.u.cage + "/" + end
	case 0:
		return w.u.cage + "/" + end
	case 1:
		return "/" + w.u.cage + "/" + end
	}
	return []string{"../../../../", "../../../../", "d/../../../../../", "./../../.././../", "..//../..//../", "d/.././../../../../"}[r.Intn(6)] + end
}

func (w *wayOut) any() string {
	r := w.r
	words := []string{"d", "e", "f", "g", "..", ".", "", "x", "...", ".. ", "..x", "l0", "l1", "d"}
	s := ""
	for n := 1 + r.Intn(4); n > 0; n-- {
		s += words[r.Intn(len(words))]
		if n > 1 || r.Intn(6) == 0 {
			s += "/"
		}
	}
	if r.Intn(8) == 0 {
		s = "/" + s
	}
	if strings.Count(s, "..") > 4 {
		return "d"
	}
	return s
}

func (w *wayOut) name() []byte {
	r := w.r
	switch r.Intn(5) {
	case 0:
		return []byte(w.outward())
	case 1:
		if len(w.links) > 0 {
			l := w.links[r.Intn(len(w.links))]
			return []byte(l + []string{"", "/", "/secret", "/new", "/sub/deep", "/x/y", "/", "//q", "/./new"}[r.Intn(9)])
		}
	case 2:
		return []byte([]string{"..", "../", "/..", "d/..", "../box", "../box/x", "../near", "../boxer", ".", "/", "", "./..", "d/../..", "....", "/../near", "//../near", "..\xff..", "C:/x", "dev/../../near", "/dev/../near", "/h0/../near", "/h0/near", "\\..\\near", "d\\..\\..\\near"}[r.Intn(24)])
	}
	return []byte(w.any())
}

func hostileUnpack(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		u := &unpacking{cage: newCage(), form: max(0, r.Intn(8)-2), dirs: []string{}}
		w := &wayOut{r: r, u: u}
		made := u.form == 0 || u.form == 4 || r.Intn(6) > 0
		if made {
			u.put(proto.Step{Op: "mkdir", Name: box})
			if r.Intn(2) == 0 {
				u.put(proto.Step{Op: "write", Name: box + "/f", Data: []byte("mine"), Mtime: 1000000000 + int64(r.Intn(7))})
			}
			if r.Intn(3) == 0 {
				u.put(proto.Step{Op: "mkdir", Name: box + "/d"})
			}
			target := func() string {
				return []string{u.cage + "/away/secret", "../../../../away/secret", "../../../../away", u.cage + "/away", "../near", "..", "../../../../away/none", u.cage + "/away/none", "../../top", "d", "f"}[r.Intn(11)]
			}
			for k := 0; k < 2; k++ {
				if r.Intn(2) == 0 {
					l := fmt.Sprintf("l%d", k)
					u.put(proto.Step{Op: "symlink", Name: proto.Str(box + "/" + l), Data: []byte(target())})
					if r.Intn(2) == 0 {
						u.put(proto.Step{Op: "lutimes", Name: proto.Str(box + "/" + l), Mtime: 900000000})
					}
					w.links = append(w.links, l)
				}
			}
			if r.Intn(4) == 0 { // another name of a file outside
				u.put(proto.Step{Op: "link", Name: box + "/h", Data: []byte("away/secret")})
			}
			if r.Intn(5) == 0 {
				u.put(proto.Step{Op: "symlink", Name: box + "/d/l", Data: []byte(target())})
				w.links = append(w.links, "d/l")
			}
		}
		var es []entry
		for k := 1 + r.Intn(4); k > 0; k-- {
			e := someEntry(r)
			switch r.Intn(8) {
			case 0, 1: // a link that leads out, and perhaps something through it
				e.kind = "l"
				e.name = []byte([]string{"l0", "l1", "d", "d/m", "k", "k/", "d/", "f"}[r.Intn(8)])
				e.target = []byte(w.outward())
				if r.Intn(3) == 0 {
					e.target = []byte([]string{"..", ".", "d", "../near", "/", u.cage, "../../../../away", "k/.."}[r.Intn(8)])
				}
				w.links = append(w.links, strings.TrimSuffix(string(e.name), "/"))
			case 2, 3:
				e.kind = "d"
				e.name = w.name()
				e.mode |= 0700
				if r.Intn(2) == 0 {
					e.name = append(e.name, '/')
				}
			case 4:
				e.name = []byte([]string{"h", "f", "l0", "l1", "d/l", "d/m"}[r.Intn(6)])
			default:
				e.name = w.name()
			}
			if e.name != nil && strings.Contains(string(e.name), u.cage) && e.name[1] != u.cage[1] && r.Intn(6) > 0 {
				e.os = []byte{'K', 'X'}[r.Intn(2)]
			}
			es = append(es, e)
		}
		u.k = ECase{Arc: archiveOf(r, es), Tz: 0, Op: "extract",
			Opt: EOpt{Root: comps(box), Cage: comps(u.cage), Force: r.Intn(2) == 0, Junk: r.Intn(6) == 0, Names: []Bytes{}, Room: -1, Stdin: Bytes([]string{"", "y\ny\ny\ny\n", "a\n", "s\n", "n\n", "n\ny\na\n"}[r.Intn(6)])}}
		if r.Intn(4) == 0 {
			u.k.Op = "dec"
			u.k.Opt.Names = []Bytes{listed(es[r.Intn(len(es))])}
		}
		return u.job(), u
	})
}

// the name under which a member is listed
func listed(e entry) Bytes {
	return Bytes(strings.NewReplacer("\xff", "/", "\\", "/").Replace(string(e.name)))
}

/*------------------------- what is there already ----------------------------*/

func friendlyUnpack(tag string, n int, ops []string) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		u := &unpacking{cage: newCage(), form: r.Intn(6), dirs: []string{}}
		made := u.form == 0 || u.form == 4 || r.Intn(5) > 0
		names := []string{"f", "g", "F", "D/f", "d/f", "d/g", "d/e/f", "e/f", "e", "d", "f/x", "d/f/y", "long name.txt", "/abs/f", "/f", "./g", "d//f", "-", "*", "a\x01b", "\xe9t\xe9", "Z", ".. /f", "...", "..x", "d/..f", ".x/f", "x../y", "d/... ", "....", "a../..b"}
		var es []entry
		exists := map[string]bool{}
		for k := r.Intn(6); k >= 0; k-- {
			e := someEntry(r)
			e.name = []byte(names[r.Intn(len(names))])
			switch r.Intn(10) {
			case 0, 1:
				e.kind = "d"
				if r.Intn(3) > 0 {
					e.mode |= 0700
				}
				e.name = []byte([]string{"d/", "e/", "d/e/", "q/r/", "d", "f/", "./", "d/g/", "n"}[r.Intn(9)])
				if string(e.name) == "./" { // or its time can be set only before its mode
					e.mode |= 0100
				}
			case 2:
				e.kind = "l"
				e.name = []byte([]string{"k", "d/k", "f", "q/k", "d"}[r.Intn(5)])
				e.target = []byte([]string{"f", "../f", "nowhere", "d", "g", "very/long/target/" + strings.Repeat("t", 40)}[r.Intn(6)])
			}
			e.badCrc = e.kind == "f" && len(e.data) > 0 && r.Intn(25) == 0
			if e.kind == "f" && r.Intn(12) == 0 {
				e.name = append([]byte(strings.Repeat("p/", r.Intn(8))), []byte(strings.Repeat("n", 1+r.Intn(120)))...)
			}
			es = append(es, e)
		}
		if made {
			u.put(proto.Step{Op: "mkdir", Name: box})
			there := func(n string, what string) {
				p := box + "/" + n
				if exists[n] {
					return
				}
				exists[n] = true
				switch what {
				case "f":
					u.put(proto.Step{Op: "write", Name: proto.Str(p), Data: append([]byte("old "), n...), Mode: uint32(r.Intn(01000)), Mtime: 1000000000 + int64(r.Intn(7))*[]int64{1, 2, 100, 86400}[r.Intn(4)]})
				case "d":
					u.put(proto.Step{Op: "mkdir", Name: proto.Str(p)})
					u.dirs = append(u.dirs, p)
				case "l":
					u.put(proto.Step{Op: "symlink", Name: proto.Str(p), Data: []byte([]string{"g", "../near", "nowhere"}[r.Intn(3)])})
				}
			}
			for k := r.Intn(5); k > 0; k-- {
				there([]string{"f", "g", "Z", "-", "other", "zz"}[r.Intn(6)], "fffffdl"[r.Intn(7):][:1])
			}
			if r.Intn(3) == 0 {
				there("d/f", "fffd"[r.Intn(4):][:1])
				there("d/g", "f")
			}
			if r.Intn(8) == 0 && !exists["e"] {
				there("e", "fdl"[r.Intn(3):][:1])
			}
			if r.Intn(12) == 0 && !exists["d/f"] {
				there("d", "fdl"[r.Intn(3):][:1])
			}
		}
		in := ""
		for k := r.Intn(5); k > 0; k-- {
			in += []string{"y\n", "Y\n", "n\n", "N\n", "\n", "a\n", "A\n", "s\n", "S\n", "yes\n", "no\n", "what\n", " y\n", "x", "y", "always\n", "q\n", "skip\n"}[r.Intn(18)]
		}
		u.k = ECase{Arc: archiveOf(r, es), Tz: someTz(r), Op: ops[r.Intn(len(ops))],
			Opt: EOpt{Root: comps(box), Cage: comps(u.cage), Force: r.Intn(4) == 0, Junk: r.Intn(8) == 0, Names: []Bytes{}, Room: -1, Stdin: Bytes(in)}}
		if r.Intn(12) == 0 && (u.k.Op == "extract" || u.k.Op == "dec") { // a full disk
			u.k.Opt.Room = r.Intn(24)
			count("cases without room")
		}
		switch u.k.Op {
		case "extract":
			if r.Intn(4) == 0 {
				for k := 1 + r.Intn(2); k > 0; k-- {
					u.k.Opt.Names = append(u.k.Opt.Names, listed(es[r.Intn(len(es))]))
				}
			}
		case "dec", "bytes":
			u.k.Opt.Names = []Bytes{listed(es[r.Intn(len(es))])}
			if r.Intn(12) == 0 {
				u.k.Opt.Names[0] = Bytes("no such member")
			}
		case "noexec":
			u.k.Op, u.k.Opt.Noexec = "extract", true
		case "add", "add one", "add bytes":
			u.k.Opt.Noexec = true
			u.add = &Opt{Method: []int{0, 1, 5, 6, 7}[r.Intn(5)], Level: r.Intn(3), Generic: r.Intn(2) == 0, Update: r.Intn(3) == 0, Fresh: r.Intn(3) == 0, Delete: r.Intn(2) == 0, backup: r.Intn(2) == 0, Sort: r.Intn(2) == 0}
			u.k.Opt.Names = []Bytes{Bytes("f")}
			if u.k.Op == "add" {
				u.k.Opt.Names = append(u.k.Opt.Names, Bytes("d"), Bytes("g"))
			}
			if u.form != 0 && u.form != 4 { // where the names lead to files
				u.form = 0
				if !made {
					u.put(proto.Step{Op: "mkdir", Name: box})
				}
			}
		}
		if made || u.form == 0 || u.form == 4 {
			u.dirs = append(u.dirs, box)
		}
		return u.job(), u
	})
}

func init() {
	drivers["C15"] = func() {
		stats.Rule = "archives whose members are files, directories and links with names that are absolute, climb with dot-dot, pass through links (of the archive, or there before) or are harmless, in every spelling of separators, extracted in a cage where everything outside the extraction directory is watched; existing links and second names of outside files in the way; distinct by archive, tree and options"
		unpackRun(hostileUnpack("c15", scale(9000, 150000)))
	}
	drivers["C16"] = func() {
		stats.Rule = "archives of files, directories and links, extracted (all, some, one) over trees with files, directories and links in the way, with every kind of answer, forced or not, with or without directories; distinct by archive, tree and options"
		unpackRun(friendlyUnpack("c16", scale(8000, 150000), []string{"extract", "extract", "extract", "dec"}))
	}
	drivers["C18"] = func() {
		stats.Rule = "listing (short, verbose, with verification), testing, printing, extraction to memory, and extraction and adding without execution, of archives in a tree of files; every time, mode, content and name is compared; distinct by archive, tree and options"
		unpackRun(friendlyUnpack("c18", scale(9000, 150000), []string{"list", "list verbose", "headers", "test", "print", "bytes", "noexec", "noexec", "add", "add", "add one", "add bytes"}))
	}
}
