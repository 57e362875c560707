package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"vh/lz"
	"vh/proto"
)

type Pair struct {
	Hi int `json:"hi"`
	Lo int `json:"lo"`
}

func pair(n int) Pair { return Pair{n >> 16, n & 0xffff} }

type Moment struct {
	Day int `json:"day"`
	Sec int `json:"sec"`
}

func moment(t int64) Moment {
	d := t / 86400
	if t%86400 < 0 {
		d--
	}
	return Moment{int(d), int(t - d*86400)}
}

type Head struct {
	Level  int    `json:"level"`
	Os     int    `json:"os"`
	Method Bytes  `json:"method"`
	Packed Pair   `json:"packed"`
	Size   Pair   `json:"size"`
	Name   Bytes  `json:"name"`
	Real   Bytes  `json:"real"`
	HasCrc bool   `json:"hascrc"`
	Crc    int    `json:"crc"`
	Time   Moment `json:"time"`
	Mode   int    `json:"mode"`
	Uid    int    `json:"uid"`
	Gid    int    `json:"gid"`
	User   Bytes  `json:"user"`
	Group  Bytes  `json:"group"`
	Attr   int    `json:"attr"`
	Hsize  int    `json:"hsize"`
}

func headOf(h proto.Header) Head {
	return Head{Level: h.Level, Os: h.Ext, Method: []byte(h.Method), Packed: pair(h.Packed), Size: pair(h.Size), Name: h.Name, Real: h.Real,
		HasCrc: h.HasCrc, Crc: h.Crc, Time: moment(h.Mtime), Mode: h.Mode, Uid: h.Uid, Gid: h.Gid, User: h.User, Group: h.Group,
		Attr: h.Attr, Hsize: h.HeaderSize}
}

func headsOf(hs []proto.Header) []Head {
	o := []Head{}
	for _, h := range hs {
		o = append(o, headOf(h))
	}
	return o
}

type File struct {
	Name Bytes `json:"name"`
	Data Bytes `json:"data"`
}

type Obs struct {
	Op    string `json:"op"`
	Fail  string `json:"fail"`
	Err   bool   `json:"err"`
	Heads []Head `json:"heads"`
	Name  Bytes  `json:"name"`
	Data  Bytes  `json:"data"`
	Files []File `json:"files"`
	Text  string `json:"text"`
}

type ArcCase struct {
	Id     string `json:"id"`
	Arc    Bytes  `json:"arc"`
	Tz     int    `json:"tz"`
	Claim  string `json:"claim"`
	Damage string `json:"damage"`
	Lower  bool   `json:"lower"`
	Sfx    bool   `json:"sfx"`
	Obs    []Obs  `json:"obs"`
}

func filesOf(tree []proto.Node) []File {
	fs := []File{}
	for _, n := range tree {
		if n.Type == "f" {
			fs = append(fs, File{Bytes(n.Path), n.Data})
		}
	}
	return fs
}

// reading is an archive and the ways it is read
type reading struct {
	arc    []byte
	tz     int
	claim  string
	damage string
	lower  bool     // names in capitals are converted
	sfx    string   // the extension of a program that has the archive behind it
	ops    []string // "headers", "list", "test", "extract", "bytes NAME", "dec NAME"
}

func (a *reading) job() proto.Job {
	name := "t.lzh"
	if a.sfx != "" {
		name = "t" + a.sfx
	}
	st := []proto.Step{{Op: "tz", Mtime: int64(a.tz)}, {Op: "write", Name: proto.Str(name), Data: a.arc}}
	if a.lower {
		st = append(st, proto.Step{Op: "global", Opts: map[string]any{"ConvertCase": true}})
	}
	for i, op := range a.ops {
		d := fmt.Sprintf("x%d", i)
		h := proto.Step{Op: "new", H: d, Archive: "../" + name}
		f := strings.SplitN(op, " ", 2)
		st = append(st, proto.Step{Op: "mkdir", Name: proto.Str(d)}, proto.Step{Op: "cd", Name: proto.Str(d)}, h)
		switch f[0] {
		case "headers":
			st = append(st, proto.Step{Op: "headers", H: d})
		case "list":
			st = append(st, proto.Step{Op: "list", H: d, Archive: "../" + name})
		case "test":
			st = append(st, proto.Step{Op: "global", Opts: map[string]any{"VerifyMode": true}},
				proto.Step{Op: "extract", H: d, Archive: "../" + name},
				proto.Step{Op: "global", Opts: map[string]any{"VerifyMode": false}})
		case "extract":
			st = append(st, proto.Step{Op: "extract", H: d, Archive: "../" + name}, proto.Step{Op: "snap", Name: "."})
		case "bytes":
			st = append(st, proto.Step{Op: "bytes", H: d, Name: proto.Str(f[1]), Index: -1})
		case "dec":
			st = append(st, proto.Step{Op: "dec", H: d, Name: proto.Str(f[1]), Index: -1}, proto.Step{Op: "read", Name: proto.Str(f[1])})
		}
		st = append(st, proto.Step{Op: "cd", Name: ".."})
	}
	return proto.Job{Steps: st}
}

func (a *reading) record(id string, o Outcome) ArcCase {
	k := ArcCase{Id: id, Arc: a.arc, Tz: a.tz, Claim: a.claim, Damage: a.damage, Lower: a.lower, Sfx: a.sfx != "", Obs: []Obs{}}
	if o.Died != "" {
		k.Obs = append(k.Obs, Obs{Op: "all", Fail: o.Died, Heads: []Head{}, Files: []File{}})
		return k
	}
	i := 2
	if a.lower {
		i++
	}
	for _, op := range a.ops {
		f := strings.SplitN(op, " ", 2)
		i += 3
		b := Obs{Op: f[0], Heads: []Head{}, Files: []File{}}
		r := o.Res[i]
		switch f[0] {
		case "headers":
			b.Heads = headsOf(r.Headers)
			i++
		case "list":
			i++
		case "test":
			r = o.Res[i+1]
			i += 3
		case "extract":
			b.Files = filesOf(o.Res[i+1].Tree)
			i += 2
		case "bytes":
			b.Name, b.Data = Bytes(f[1]), r.Data
			i++
		case "dec":
			b.Name, b.Data = Bytes(f[1]), o.Res[i+1].Data
			i += 2
		}
		b.Err = r.Err != ""
		b.Text = r.Err
		b.Fail = r.Panic
		k.Obs = append(k.Obs, b)
		i++
	}
	return k
}

func readingRun(work func() (Work, bool), budget int) {
	tr := newTraces("archive")
	newPool().Run(work, func(j proto.Job, info any, o Outcome) {
		a := info.(*reading)
		k := a.record(j.ID, o)
		seen(append([]byte(fmt.Sprint(a.tz, a.ops)), a.arc...), len(a.arc) > 1)
		fail := o.Died != ""
		for _, b := range k.Obs {
			count("op " + b.Op)
			if b.Err {
				count("op " + b.Op + " with an error")
			}
			fail = fail || b.Fail != ""
		}
		if fail {
			suspect(o)
		}
		cost := 1500 + 20*len(a.arc) + 200*len(k.Obs)
		if !fail {
			if budget <= 0 {
				return
			}
			budget -= cost
		}
		if len(a.arc) > 60 {
			sample(map[string]any{"id": k.Id, "archive": fmt.Sprintf("%x", a.arc[:60]), "bytes": len(a.arc), "operations": a.ops})
		}
		tr.Put(k, cost)
	})
	tr.Close()
}

/*------------------------------- archives -----------------------------------*/

var allMethods = strings.Fields("lh0 lh1 lh2 lh3 lh4 lh5 lh6 lh7 lzs lz5 lz4 pm0 pm2")

type arcGen struct {
	r       *rand.Rand
	plain   bool // plain names, no directories or links: extraction to files is safe
	maxSize int
	upper   bool // names in capitals
	methods []string
}

func (g *arcGen) word(n int) []byte {
	b := make([]byte, 1+g.r.Intn(n))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-+ .~"[g.r.Intn(48)]
	}
	b[0] = "abcdefgh"[g.r.Intn(8)]
	if g.upper && g.r.Intn(6) > 0 {
		b = bytes.ToUpper(b)
	}
	if i := g.r.Intn(len(b)); i > 0 && g.r.Intn(8) == 0 && !g.plain {
		b[i] = "/:\\|"[g.r.Intn(3)]
	}
	if g.r.Intn(6) == 0 && !g.plain {
		b[len(b)-1] = byte(128 + g.r.Intn(127))
	}
	return b
}

func (g *arcGen) dosTime() uint32 {
	r := g.r
	y, m := r.Intn(128), 1+r.Intn(12)
	d := 1 + r.Intn(28)
	if r.Intn(6) == 0 {
		y, m, d = []int{0, 20, 120, 40, 44, 127}[r.Intn(6)], []int{2, 3, 12, 1}[r.Intn(4)], []int{1, 28, 1}[r.Intn(3)]
	}
	if r.Intn(8) == 0 && (y%4 == 0 && y != 120) {
		m, d = 2, 29
	}
	return uint32(y<<25 | m<<21 | d<<16 | r.Intn(24)<<11 | r.Intn(60)<<5 | r.Intn(30))
}

func (g *arcGen) unixTime() uint32 {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(3))
	case 1:
		return r.Uint32()
	case 2:
		return 0x7fffffff + uint32(r.Intn(3))
	case 3:
		return 0xffffffff - uint32(r.Intn(3))
	}
	return uint32(1000000000 + r.Intn(700000000))
}

func w16(v int) []byte { return []byte{byte(v), byte(v >> 8)} }
func w32(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func fileTime(t uint32) []byte {
	x := uint64(t)*10000000 + 0x019DB1DED53E8000
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(x >> (8 * i))
	}
	return b
}

// member k of an archive
func (g *arcGen) member(k int) *lz.Member {
	r := g.r
	ms := g.methods
	if ms == nil {
		ms = allMethods
	}
	meth := ms[r.Intn(len(ms))]
	n := r.Intn(g.maxSize + 1)
	if r.Intn(6) == 0 {
		n = r.Intn(3)
	}
	packed, content, _ := stream(r, meth, n)
	if len(content) == 0 {
		packed = nil
	}
	m := &lz.Member{Level: r.Intn(4), Method: meth, Packed: packed, Size: len(content), Crc: lz.Crc(content)}
	m.OS = []byte{'U', 'U', 'U', 0, 'M', 'm', 'A', 'H', 'w', 'J', '2', 'K', 'X', '9', 'C', 'F', 'R', 'T', 'W', '3', 'a', 0xfe}[r.Intn(22)]
	m.Attr = 0x20
	if r.Intn(4) == 0 {
		m.Attr = byte(r.Intn(256))
	}
	kind := 0
	if !g.plain && r.Intn(6) == 0 {
		kind = 1 + r.Intn(2) // directory or link
		if kind == 2 && m.Level == 0 {
			m.OS = 'U'
		}
		m.Method, m.Packed, m.Size, m.Crc = "lhd", nil, 0, 0
	}
	if g.plain && m.OS != 'U' && m.OS != 0 && m.OS != 'M' {
		m.OS = 'U'
	}
	mode := 0100000 | r.Intn(01000)
	if g.plain {
		mode |= 0400
	}
	if kind == 1 {
		mode = 040000 | r.Intn(01000)
	} else if kind == 2 {
		mode = 0120000 | r.Intn(01000)
	}
	if !g.plain && r.Intn(5) == 0 && kind == 0 {
		mode |= r.Intn(8) << 9
	}
	name := append([]byte(fmt.Sprintf("n%d", k)), g.word(12)...)
	if g.plain {
		name = []byte(fmt.Sprintf("n%d", k))
	}
	var dir []byte
	if !g.plain && r.Intn(3) == 0 {
		for i := 1 + r.Intn(3); i > 0; i-- {
			dir = append(append(dir, g.word(6)...), 0xff)
		}
		if kind == 0 && r.Intn(20) == 0 {
			dir[r.Intn(len(dir))] = 0
		}
	}
	if !g.plain && r.Intn(60) == 0 {
		for i := 10 + r.Intn(120); i > 0; i-- {
			dir = append(append(dir, g.word(6)...), 0xff)
		}
	}
	if !g.plain && r.Intn(30) == 0 {
		name = append(name, []byte(strings.Repeat("long", 20+r.Intn(20)))...)
	}
	if !g.plain && (kind == 1 && r.Intn(2) == 0 || r.Intn(40) == 0) && kind != 2 { // all of it is directories
		dir = append(append(name, 0xff), dir...)
		name = []byte{}
	}
	if kind == 2 {
		name = append(append(name, '|'), g.word(9)...)
		for r.Intn(3) == 0 {
			name = append(append(name, '|'), g.word(3)...)
		}
	}
	uinfo := append(append(append(w32(g.unixTime()), w16(mode)...), w16(r.Intn(65536))...), w16(r.Intn(65536))...)
	switch m.Level {
	case 0:
		m.Stamp = g.dosTime()
		m.Name = append(append([]byte{}, dir...), name...)
		for i, c := range m.Name {
			if c == 0xff && r.Intn(2) == 0 {
				m.Name[i] = '\\'
			}
		}
		switch {
		case m.OS == 'U':
			m.Extra = append([]byte{'U', byte(r.Intn(3))}, uinfo...)
			if r.Intn(5) == 0 {
				m.Extra = append(m.Extra, g.word(5)...)
			}
			if r.Intn(8) == 0 && kind == 0 {
				m.Extra = m.Extra[:1+r.Intn(11)]
			}
		case r.Intn(3) == 0:
		case r.Intn(4) == 0:
			m.NoCrc = true
		default:
			m.Extra = append([]byte{m.OS}, make([]byte, r.Intn(8))...)
		}
		for len(m.Name)+24+len(m.Extra) > 257 {
			m.Name = m.Name[len(m.Name)-100:]
		}
		return m
	case 1:
		m.Stamp = g.dosTime()
		if r.Intn(4) > 0 && len(name) < 200 {
			m.Name = name
		} else {
			m.Exts = append(m.Exts, lz.Ext{Type: 1, Data: name})
			if r.Intn(2) == 0 {
				m.Name = g.word(5)
			}
		}
		if r.Intn(5) == 0 {
			m.Extra = make([]byte, r.Intn(6))
			r.Read(m.Extra)
		}
	default:
		m.Stamp = g.unixTime()
		m.Exts = append(m.Exts, lz.Ext{Type: 0, Data: append([]byte{0, 0}, make([]byte, r.Intn(2)*r.Intn(4))...)})
		if len(name) > 0 || r.Intn(2) == 0 {
			m.Exts = append(m.Exts, lz.Ext{Type: 1, Data: name})
		}
	}
	if len(dir) > 0 {
		m.Exts = append(m.Exts, lz.Ext{Type: 2, Data: dir})
	}
	opt := func(p int, t byte, d []byte) {
		if r.Intn(p) == 0 {
			m.Exts = append(m.Exts, lz.Ext{Type: t, Data: d})
		}
	}
	tail := make([]byte, r.Intn(2)*r.Intn(4))
	opt(5, 0x40, append(w16(r.Intn(65536)), tail...))
	opt(5, 0x41, append(append(fileTime(g.unixTime()), fileTime(g.unixTime())...), append(fileTime(g.unixTime()), tail...)...))
	if kind > 0 || r.Intn(2) == 0 {
		m.Exts = append(m.Exts, lz.Ext{Type: 0x50, Data: append(w16(mode), tail...)})
	}
	opt(3, 0x51, append(append(w16(r.Intn(65536)), w16(r.Intn(65536))...), tail...))
	opt(5, 0x52, g.word(10))
	opt(5, 0x53, g.word(10))
	opt(4, 0x54, append(w32(g.unixTime()), tail...))
	for r.Intn(4) == 0 { // unknown ones
		d := make([]byte, r.Intn(20))
		r.Read(d)
		opt(1, []byte{0x39, 0x3f, 0x43, 0x46, 0x55, 0x7d, 0x7e, 0x7f, 0xc4, 0xc5, 0xd0, 0xfc, 0xfe, 0xff, 3, 0x30, 0x60, 0x80}[r.Intn(18)], d)
	}
	if r.Intn(20) == 0 {
		opt(1, 0x3f, make([]byte, 200+r.Intn(3000)))
	}
	r.Shuffle(len(m.Exts), func(i, j int) { m.Exts[i], m.Exts[j] = m.Exts[j], m.Exts[i] })
	if m.Level == 2 {
		m.Pad = r.Intn(4) == 0
		if h := m.Header(); h[0] == 0 {
			m.Pad = !m.Pad
		}
	}
	return m
}

func (g *arcGen) members(n int) (ms []*lz.Member) {
	for i := 0; i < n; i++ {
		ms = append(ms, g.member(i))
	}
	return
}

func join(ms []*lz.Member, end bool) (b []byte) {
	for _, m := range ms {
		b = append(b, m.Bytes()...)
	}
	if end {
		b = append(b, 0)
	}
	return
}

func someTz(r *rand.Rand) int {
	return []int{0, 0, 3600, -5 * 3600, 9 * 3600, 20700, -34200, 50400, -43200}[r.Intn(9)]
}

// names of members as they are listed, for plain archives
func plainNames(n int) (s []string) {
	for i := 0; i < n; i++ {
		s = append(s, fmt.Sprintf("n%d", i))
	}
	return
}

// allOps reads a plain archive of n members in every way
func allOps(r *rand.Rand, n int) []string {
	ops := []string{"headers", "list", "test", "extract"}
	for _, s := range plainNames(n) {
		ops = append(ops, "bytes "+s)
		if r.Intn(2) == 0 {
			ops = append(ops, "dec "+s)
		}
	}
	return ops
}

func headCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &arcGen{r: r, maxSize: []int{0, 20, 200}[r.Intn(3)], methods: strings.Fields("lh0 lh0 lh5 lz4 lzs pm0 lh6")}
		k := r.Intn(5)
		if r.Intn(40) == 0 {
			k = 20
		}
		low := r.Intn(6) == 0
		g.upper = low || r.Intn(6) == 0
		ms := g.members(k)
		a := &reading{tz: someTz(r), claim: "sound", damage: "header", lower: low, ops: []string{"headers", "list"}}
		end := r.Intn(5) > 0
		a.arc = join(ms, end)
		if end && r.Intn(4) == 0 { // what follows the end does not matter
			a.arc = append(a.arc, g.word(40)...)
		}
		if k > 0 && ms[0].Level < 3 && r.Intn(3) == 0 {
			if ms[0].Level == 2 {
				ms[0].Attr = 0x20
			}
			a.sfx = []string{".exe", ".com", ".x", ".EXE", ".Com"}[r.Intn(5)]
			p := stub(r)
			if r.Intn(100) == 0 { // a program of its usual size
				p = append(bytes.Repeat(p, 1+30000/len(p)), make([]byte, r.Intn(34000))...)
				p = p[max(0, len(p)-64000):]
			}
			a.arc = append(p, join(ms, end)...)
			count("self-extracting archives")
		}
		return a.job(), a
	})
}

// damaged headers: one byte of one header is changed
func headDamage(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &arcGen{r: r, maxSize: 20, methods: strings.Fields("lh0 lz4 lh5 pm0"), plain: r.Intn(2) == 0}
		k := 1 + r.Intn(3)
		ms := g.members(k)
		v := r.Intn(k)
		b := join(ms[:v], false)
		from := len(b)
		h := ms[v].Header()
		b = join(ms, true)
		kind, crcAt := r.Intn(2), -1
		if ms[v].Level >= 2 {
			crcAt = crcPlace(h)
		}
		for c := 1 + r.Intn(2); c > 0; c-- {
			switch at := r.Intn(len(h)); {
			case kind == 0 || r.Intn(3) == 0:
				b[from+at] ^= byte(1 << uint(r.Intn(8)))
			default: // sizes a little off
				at = min([]int{0, 0, 1, 21, 22, 24, 24, 24, 25, 28, 28, 20}[r.Intn(12)], len(h)-1)
				b[from+at] += byte([]int{1, 2, 3, 4, 255, 254, 253, 252}[r.Intn(8)])
			}
		}
		if kind == 1 { // and the check of the header made to fit
			reseal(b, from, ms[v].Level, crcAt, len(h), r)
			count("headers made to fit")
		}
		a := &reading{tz: someTz(r), claim: "", damage: "header", ops: []string{"headers", "list"}}
		if g.plain {
			a.ops = append(a.ops, "test", fmt.Sprintf("bytes n%d", r.Intn(k)))
		}
		a.arc = b
		return a.job(), a
	})
}

// crcPlace tells where a header of level 2 or 3 has its CRC
func crcPlace(h []byte) int {
	p, w := 26, 2
	if h[20] == 3 {
		p, w = 32, 4
	}
	for p <= len(h) {
		n := int(h[p-w]) + int(h[p-w+1])<<8
		if n < 1+w || p+n > len(h) {
			break
		}
		if h[p] == 0 {
			return p + 1
		}
		p += n
	}
	return -1
}

// reseal makes the checksum or CRC of a changed header fit
func reseal(b []byte, from, level, crcAt, n int, r *rand.Rand) {
	if level < 2 {
		if total := int(b[from]) + 2; from+total <= len(b) && total > 2 {
			b[from+1] = 0
			for _, c := range b[from+2 : from+total] {
				b[from+1] += c
			}
		}
		return
	}
	if crcAt < 0 {
		return
	}
	to := from + n
	if r.Intn(2) == 0 {
		to = from + int(b[from]) + int(b[from+1])<<8
		if level == 3 {
			to = from + int(b[from+24]) + int(b[from+25])<<8
		}
	}
	if to > len(b) || to < from+crcAt+2 {
		return
	}
	b[from+crcAt], b[from+crcAt+1] = 0, 0
	c := lz.Crc(b[from:to])
	b[from+crcAt], b[from+crcAt+1] = byte(c), byte(c>>8)
}

// corrupt: the packed data, the checksum, the sizes or the method of a member are not what they should be
func corruptCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &arcGen{r: r, maxSize: []int{4, 60, 400}[r.Intn(3)], plain: true}
		k := 1 + r.Intn(3)
		ms := g.members(k)
		a := &reading{tz: 0, claim: "", damage: "header", ops: allOps(r, k)}
		v := ms[r.Intn(k)]
		switch c := r.Intn(10); {
		case c < 2: // nothing wrong
			a.claim = "sound"
		case c < 3:
			v.Crc ^= 1 << uint(r.Intn(16))
		case c < 4: // the content of another
			w := ms[r.Intn(k)]
			v.Packed, v.Method, v.Size = w.Packed, w.Method, w.Size
		case c < 5 && r.Intn(4) == 0: // more announced than nothing gives
			v.Packed, v.Crc, v.NoCrc = nil, 0, v.Level == 0 && r.Intn(2) == 0
			v.Size += r.Intn(3)
		case c < 5 && v.Size > 0:
			v.Size += []int{1, -1, 2, 10, -2}[r.Intn(5)]
			if v.Size < 0 {
				v.Size = 1
			}
		case c < 6:
			v.Method = allMethods[r.Intn(len(allMethods))]
			if r.Intn(4) == 0 {
				v.Method = []string{"lh8", "lh9", "lzx", "pm1", "xyz", "LH5", "lha"}[r.Intn(7)]
			}
		default:
			if len(v.Packed) > 0 {
				p := append([]byte{}, v.Packed...)
				for c := 1 + r.Intn(3)*r.Intn(2); c > 0; c-- {
					switch r.Intn(3) {
					case 0:
						p[r.Intn(len(p))] = byte(r.Intn(256))
					case 1:
						p[len(p)-1-r.Intn(min(len(p), 3))] ^= byte(1 << uint(r.Intn(8)))
					default:
						p[r.Intn(len(p))] ^= byte(1 << uint(r.Intn(8)))
					}
				}
				v.Packed = p
			}
		}
		a.arc = join(ms, true)
		if ms[0].Level < 3 && r.Intn(8) == 0 {
			ms[0].Attr = 0x20
			a.sfx = []string{".exe", ".com", ".x", ".EXE", ".Com"}[r.Intn(5)]
			a.arc = append(stub(r), join(ms, true)...)
			count("self-extracting archives")
		}
		return a.job(), a
	})
}

// cutCases: every proper prefix of archives
func cutCases(tag string, archives int) func() (Work, bool) {
	var arc []byte
	var k, cut, no int
	var r *rand.Rand
	return func() (Work, bool) {
		if cut >= len(arc) {
			if no >= archives {
				return Work{}, false
			}
			no++
			r = newRand(fmt.Sprintf("%s-%d", tag, no))
			g := &arcGen{r: r, maxSize: []int{3, 30, 150}[r.Intn(3)], plain: true, methods: []string{"lh0", "lz4", "lh5", "lh7", "lh1", "lzs", allMethods[r.Intn(13)]}}
			k = 1 + r.Intn(3)
			ms := g.members(k)
			for _, m := range ms {
				if m.Level == 0 && len(m.Extra) == 0 && r.Intn(3) == 0 {
					m.NoCrc = true
				}
			}
			arc = join(ms, true)
			for len(arc) > 700 {
				arc = join(g.members(k), true)
			}
			cut = 0
		}
		a := &reading{arc: arc[:cut], claim: "", damage: "cut", ops: allOps(rand.New(rand.NewSource(int64(no))), k)}
		id := fmt.Sprintf("%s-%d-%d", tag, no, cut)
		cut++
		return Work{ID: id, Make: func() (proto.Job, any) { return a.job(), a }}, true
	}
}

// hostile: anything at all
func hostileCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &arcGen{r: r, maxSize: []int{4, 60, 400}[r.Intn(3)], plain: true}
		k := 1 + r.Intn(3)
		ms := g.members(k)
		v := ms[r.Intn(k)]
		var b []byte
		switch r.Intn(8) {
		case 0: // noise
			b = make([]byte, r.Intn(200))
			r.Read(b)
			if len(b) > 21 && r.Intn(4) > 0 {
				b[20] = byte(r.Intn(4))
				if r.Intn(2) == 0 {
					copy(b[2:], "-"+allMethods[r.Intn(13)]+"-")
				}
			}
		case 1: // noise for packed data
			v.Packed = make([]byte, r.Intn(300))
			r.Read(v.Packed)
			v.Size = []int{1, 100, 5000, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(7)]
			b = join(ms, true)
		case 2: // wrong sizes in a sound header
			v.PackedN = []int{1, 2, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2, r.Intn(1 << 20)}[r.Intn(8)]
			b = join(ms, true)
		case 3:
			v.Size = []int{0, 1, 1 << 16, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, r.Intn(1 << 20)}[r.Intn(8)]
			b = join(ms, true)
		case 4: // extensions of every size
			for c := 1 + r.Intn(4); c > 0; c-- {
				v.Exts = append(v.Exts, lz.Ext{Type: []byte{0, 1, 2, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54, 0x7f, 0xff}[r.Intn(13)], Data: make([]byte, []int{0, 1, 2, 3, 4, 8, 23, 24, 25, 200, 4090, 4091, 4092, 4093, 4094, 5000}[r.Intn(16)])})
			}
			b = join(ms, true)
		case 5: // splice
			b = join(ms, true)
			c := join(g.members(2), true)
			b = append(b[:r.Intn(len(b))], c[r.Intn(len(c)):]...)
		case 6: // streams that begin well
			if len(v.Packed) > 2 {
				p := append([]byte{}, v.Packed...)
				q := r.Intn(len(p))
				r.Read(p[q:])
				v.Packed = p
			}
			b = join(ms, true)
		default: // bytes changed anywhere
			b = join(ms, true)
			for c := 1 + r.Intn(8); c > 0; c-- {
				b[r.Intn(len(b))] = []byte{0, 1, 0xff, 0x80, byte(r.Intn(256))}[r.Intn(5)]
			}
			if r.Intn(2) == 0 && len(b) > 2 && b[20] < 2 && int(b[0])+2 <= len(b) { // with the right sum
				s := byte(0)
				for _, c := range b[2 : int(b[0])+2] {
					s += c
				}
				b[1] = s
			}
		}
		a := &reading{claim: "", damage: "header", ops: allOps(r, k)}
		a.arc = b
		return a.job(), a
	})
}

func init() {
	drivers["C09"] = func() {
		stats.Rule = "well-formed archives with headers of levels 0 to 3 (every extension, unknown and repeated ones, every OS, directories, links, MS-DOS and FILETIME stamps in several time zones) and such archives with one or two changed bits in a header; non-trivial: at least one byte; distinct by archive"
		readingRun(Chain(headCases("c09", scale(5000, 60000)), headDamage("c09d", scale(4000, 60000))), 1<<60)
	}
	drivers["C10"] = func() {
		stats.Rule = "archives of every method with changed packed bytes, checksums, sizes or methods, read by every interface, and untouched ones"
		readingRun(corruptCases("c10", scale(3200, 50000)), 1<<60)
	}
	drivers["C11"] = func() {
		stats.Rule = "every proper prefix of archives of one to three members, read by every interface"
		readingRun(cutCases("c11", scale(70, 1000)), 1<<60)
	}
	drivers["C12"] = func() {
		stats.Rule = "noise, spliced archives, sizes at the limits, noise for packed data, extensions of every size, changed bytes under a right checksum; read by every interface"
		readingRun(hostileCases("c12", scale(12000, 200000)), scale(150*second, 3000*second))
	}
}
