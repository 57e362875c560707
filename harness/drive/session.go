package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"vh/lz"
	"vh/proto"
)

type SStep struct {
	Op  string `json:"op"`
	Res string `json:"res"`
}

type SCase struct {
	Id    string  `json:"id"`
	First bool    `json:"first"`
	Steps []SStep `json:"steps"`
}

// an operation that depends on nothing but what is written here
type operation struct {
	name  string
	files []proto.Step
	set   map[string]any
	glob  map[string]any
	do    proto.Step
}

func (p *operation) steps(i int, shared bool) []proto.Step {
	h := "shared"
	st := []proto.Step{{Op: "mkdir", Name: "w"}, {Op: "cd", Name: "w"}}
	st = append(st, p.files...)
	if !shared || i == 0 {
		if !shared {
			h = "own"
		}
		st = append(st, proto.Step{Op: "new", H: h, Archive: "t.lzh"})
	}
	set := map[string]any{"Force": true, "SortContents": false, "UpdateIfNewer": false, "NewArchive": false, "Noexec": false, "DeleteAfterAppend": false,
		"BackupOldArchive": false, "ExcludeFiles": []any{}, "IgnoreDirectory": false, "OutputToStdout": false, "Verbose": false, "VerboseListing": false,
		"ExtractDirectory": ""}
	for k, v := range p.set {
		set[k] = v
	}
	glob := map[string]any{"GenericFormat": false, "VerifyMode": false, "Quiet": true}
	for k, v := range p.glob {
		glob[k] = v
	}
	do := p.do
	do.H, do.Archive, do.WantOut = h, "t.lzh", true
	return append(st, proto.Step{Op: "set", H: h, Opts: set}, proto.Step{Op: "global", Opts: glob}, do,
		proto.Step{Op: "snap", Name: ".", Hash: true}, proto.Step{Op: "cd", Name: ".."}, proto.Step{Op: "rm", Name: "w"})
}

// result tells what the operation gave and left
func (p *operation) result(rs []proto.Res) string {
	k := len(rs) - 4
	r := rs[k]
	b := &bytes.Buffer{}
	hs, _ := json.Marshal(r.Headers)
	fmt.Fprintf(b, "%x %s %x\n", r.Data, hs, r.Out)
	for _, n := range rs[k+1].Tree {
		fmt.Fprintf(b, "%q %s %o %s %q", n.Path, n.Type, n.Mode, n.Hash, n.Data)
		if n.Mtime < 1500000000 {
			fmt.Fprintf(b, " %d", n.Mtime)
		}
		b.WriteByte('\n')
	}
	res := "ok"
	if r.Err != "" {
		res = "error"
	}
	if r.Panic != "" {
		res = "panic"
	}
	return fmt.Sprintf("%s %x", res, sha1.Sum(b.Bytes()))
}

func operations() (ps []*operation) {
	r := newRand("c17 operations")
	g := &contentGen{r: r, dic: 8192, maxm: 256}
	words := []byte(strings.Repeat("the quick brown fox jumps over the lazy dog. ", 12))
	noise := make([]byte, 300)
	r.Read(noise)
	coin := make([]byte, 20000) // long chains of candidates
	for i := range coin {
		coin[i] = 'a' + byte(r.Intn(2))
	}
	dice := make([]byte, 4000) // short ones that lead out of the long ones
	for i := range dice {
		dice[i] = "ababababc"[r.Intn(9)]
	}
	var far []byte // what is repeated out of the reach of one dictionary after the other
	for _, n := range []int{5000, 12000, 40000, 0} {
		far = append(append(far, noise...), make([]byte, n)...)
	}
	contents := map[string][]byte{"far": far, "dice": dice, "empty": {}, "byte": {7}, "words": words, "noise": noise, "zeros": make([]byte, 6000),
		"coin": coin, "mixed": g.mixed(30000), "big": append(g.text(45000), g.mixed(30000)...)}
	src := func(data []byte) proto.Step {
		return proto.Step{Op: "write", Name: "a", Data: data, Mode: 0640, Mtime: 1000000000}
	}
	tokens := 400
	good := func(ms ...string) []byte {
		var es []*lz.Member
		for i, m := range ms {
			p, c, _ := stream(r, m, tokens)
			if m == "lh2" && tokens == 20000 { // so many offsets that two of them pass 32768
				var ts []lz.Token
				for o := 0; o < 60000; o += 3 {
					ts = append(ts, lz.Token{Len: 3, Off: 1 + r.Intn(min(lz.Lh2Reach(o), 1+r.Intn(8192)))})
				}
				p, c = lz.Lh2(ts), lz.Expand(ts, lz.Spaces)
			}
			es = append(es, &lz.Member{Level: i % 3, Method: m, Packed: p, Size: len(c), Crc: lz.Crc(c), OS: 'U', Attr: 0x20, Stamp: 1<<25 | 1<<21 | 1<<16,
				Name: []byte(fmt.Sprintf("n%d", i)), Exts: []lz.Ext{{Type: 0, Data: []byte{0, 0}}, {Type: 1, Data: []byte(fmt.Sprintf("n%d", i))}}})
			if i%3 == 0 {
				es[i].OS = 0
			}
		}
		return join(es, true)
	}
	// adding
	for _, m := range []int{0, 1, 5, 6, 7} {
		for _, c := range []string{"empty", "byte", "words", "noise", "zeros", "coin", "dice", "mixed", "big", "far"} {
			if c == "big" && m != 5 && m != 7 || c == "far" && m == 0 || c == "empty" && m != 5 {
				continue
			}
			ps = append(ps, &operation{name: fmt.Sprintf("add %s by lh%d", c, m), files: []proto.Step{src(contents[c])}, do: proto.Step{Op: "add", Name: "a", Method: m, Level: r.Intn(3)}})
		}
	}
	old := good("lh5", "lh1", "lz5")
	for i := 0; i < 4; i++ {
		ps = append(ps, &operation{name: fmt.Sprintf("add to an archive %d", i), files: []proto.Step{src(words), {Op: "write", Name: "t.lzh", Data: old}},
			set:  map[string]any{"SortContents": i%2 == 0, "BackupOldArchive": i > 1, "UpdateIfNewer": i == 3, "DeleteAfterAppend": i == 2},
			glob: map[string]any{"GenericFormat": i%2 == 1},
			do:   proto.Step{Op: "cmdadd", Names: []proto.Str{"a", "n1"}[:1+i%2], Method: 5, Level: i % 3}})
	}
	ps = append(ps,
		&operation{name: "add nothing there", do: proto.Step{Op: "add", Name: "none", Method: 5, Level: 1}},
		&operation{name: "add unreadable", files: []proto.Step{{Op: "write", Name: "a", Data: words, Mode: 0200, Mtime: 1000000000}, {Op: "write", Name: "t.lzh", Data: old}}, do: proto.Step{Op: "add", Name: "a", Method: 7, Level: 2}},
		&operation{name: "add to a damaged archive", files: []proto.Step{src(words), {Op: "write", Name: "t.lzh", Data: old[:len(old)-9]}}, do: proto.Step{Op: "add", Name: "a", Method: 1, Level: 0}},
		&operation{name: "add without execution", files: []proto.Step{src(words)}, set: map[string]any{"Noexec": true}, do: proto.Step{Op: "add", Name: "a", Method: 5, Level: 0}},
		&operation{name: "add a directory", files: []proto.Step{{Op: "mkdir", Name: "d", Mode: 0750, Mtime: 1000000000}}, do: proto.Step{Op: "add", Name: "d", Method: 5, Level: 2}},
		&operation{name: "add all but a", files: []proto.Step{src(words), {Op: "write", Name: "b", Data: noise, Mtime: 1000000000}}, set: map[string]any{"ExcludeFiles": []any{"A"}}, do: proto.Step{Op: "cmdadd", Names: []proto.Str{"a", "b"}, Method: 6, Level: 1}})
	// reading
	for _, m := range allMethods {
		arc := good(m)
		file := proto.Step{Op: "write", Name: "t.lzh", Data: arc}
		ps = append(ps, &operation{name: "unpack " + m, files: []proto.Step{file}, do: proto.Step{Op: "bytes", Name: "n0", Index: -1}})
		bad := append([]byte{}, arc...)
		bad = bad[:len(bad)-1-r.Intn(20)]
		ps = append(ps, &operation{name: "unpack cut " + m, files: []proto.Step{{Op: "write", Name: "t.lzh", Data: bad}}, do: proto.Step{Op: "bytes", Name: "n0", Index: -1}})
		if m[:2] != "lz" && len(arc) > 80 {
			bad = append([]byte{}, arc...)
			for i := 0; i < 4; i++ {
				bad[len(bad)-3-r.Intn(len(bad)/3)] ^= byte(1 + r.Intn(255))
			}
			ps = append(ps, &operation{name: "unpack damaged " + m, files: []proto.Step{{Op: "write", Name: "t.lzh", Data: bad}}, do: proto.Step{Op: "bytes", Name: "n0", Index: -1}})
		}
	}
	for _, m := range allMethods {
		for _, tokens = range []int{60, 3000, 20000} {
			ps = append(ps, &operation{name: fmt.Sprintf("unpack %d of %s", tokens, m), files: []proto.Step{{Op: "write", Name: "t.lzh", Data: good(m)}}, do: proto.Step{Op: "bytes", Name: "n0", Index: -1}})
		}
	}
	tokens = 400
	many := good("lh5", "lh0", "lh7", "lh1", "pm2", "lh3")
	file := proto.Step{Op: "write", Name: "t.lzh", Data: many}
	ps = append(ps,
		&operation{name: "headers", files: []proto.Step{file}, do: proto.Step{Op: "headers"}},
		&operation{name: "headers of damaged", files: []proto.Step{{Op: "write", Name: "t.lzh", Data: append(append([]byte{}, many[:len(many)-30]...), many[:40]...)}}, do: proto.Step{Op: "headers"}},
		&operation{name: "headers of nothing", do: proto.Step{Op: "headers"}},
		&operation{name: "list", files: []proto.Step{file}, glob: map[string]any{"Quiet": false}, do: proto.Step{Op: "list"}},
		&operation{name: "list verbose", files: []proto.Step{file}, glob: map[string]any{"Quiet": false}, set: map[string]any{"Verbose": true, "VerboseListing": true}, do: proto.Step{Op: "list"}},
		&operation{name: "list some", files: []proto.Step{file}, glob: map[string]any{"Quiet": false}, do: proto.Step{Op: "list", Names: []proto.Str{"n1", "n4"}}},
		&operation{name: "test", files: []proto.Step{file}, glob: map[string]any{"VerifyMode": true}, do: proto.Step{Op: "extract"}},
		&operation{name: "print", files: []proto.Step{file}, glob: map[string]any{"Quiet": false}, set: map[string]any{"OutputToStdout": true}, do: proto.Step{Op: "extract"}},
		&operation{name: "extract all", files: []proto.Step{file, {Op: "mkdir", Name: "x"}}, set: map[string]any{"ExtractDirectory": "x"}, do: proto.Step{Op: "extract"}},
		&operation{name: "extract some", files: []proto.Step{file}, do: proto.Step{Op: "extract", Names: []proto.Str{"n3", "n5"}}},
		&operation{name: "extract one", files: []proto.Step{file}, do: proto.Step{Op: "dec", Name: "n2", Index: -1}},
		&operation{name: "extract none", files: []proto.Step{file}, do: proto.Step{Op: "dec", Name: "absent", Index: -1}},
		&operation{name: "unpack none", files: []proto.Step{file}, do: proto.Step{Op: "bytes", Name: "absent", Index: -1}},
		&operation{name: "extract without execution", files: []proto.Step{file}, set: map[string]any{"Noexec": true}, do: proto.Step{Op: "extract"}})
	dirs := archiveOf(r, []entry{{name: []byte("d/"), kind: "d", mode: 0710, time: 1100000000, os: 'U', level: 2}, {name: []byte("d/f"), kind: "f", data: words, mode: 0604, time: 1100000001, os: 'U', level: 1},
		{name: []byte("k"), kind: "l", target: []byte("d/f"), mode: 0777, time: 1100000000, os: 'U', level: 0}})
	wild := archiveOf(r, []entry{{name: []byte("q/"), kind: "d", mode: 0700, time: 1100000000, os: 'U', level: 2}, {name: []byte("../up"), kind: "f", data: words, mode: 0604, time: 1100000001, os: 'U', level: 1}})
	ps = append(ps,
		&operation{name: "extract directories", files: []proto.Step{{Op: "write", Name: "t.lzh", Data: dirs}}, do: proto.Step{Op: "extract"}},
		&operation{name: "extract beside directories", files: []proto.Step{{Op: "mkdir", Name: "d", Mode: 0700, Mtime: 1000000000}, {Op: "mkdir", Name: "q", Mode: 0700, Mtime: 1000000000}, file}, do: proto.Step{Op: "extract", Names: []proto.Str{"n1"}}},
		&operation{name: "extract what climbs out", files: []proto.Step{{Op: "write", Name: "t.lzh", Data: wild}}, do: proto.Step{Op: "extract"}})
	return
}

// sequence runs operations in one process
type sequence struct {
	ops    []*operation
	shared bool
	first  bool
}

func (s *sequence) job() proto.Job {
	var st []proto.Step
	for i, p := range s.ops {
		st = append(st, p.steps(i, s.shared)...)
	}
	return proto.Job{Steps: st}
}

func (s *sequence) record(id string, o Outcome) SCase {
	k := SCase{Id: id, First: s.first, Steps: []SStep{}}
	if o.Died != "" {
		k.Steps = append(k.Steps, SStep{s.ops[0].name, "died: " + o.Died})
		return k
	}
	at := 0
	for i, p := range s.ops {
		n := len(p.steps(i, s.shared))
		k.Steps = append(k.Steps, SStep{p.name, p.result(o.Res[at : at+n])})
		at += n
	}
	return k
}

func init() {
	drivers["C17"] = func() {
		stats.Rule = "sequences of operations (adding by every method, to nothing and to archives, failing ones; unpacking of every method, sound, cut and damaged; listing, testing, printing, extracting) in one process, with one handle or a new one for each: every operation after every other one directly, and random sequences; each result compared to that in a fresh process; non-trivial: two operations or more"
		ps := operations()
		// alone, twice
		var firsts []SCase
		var ws []Work
		for k := 0; k < 2; k++ {
			for i, p := range ps {
				s := &sequence{ops: []*operation{p}, first: true}
				ws = append(ws, Work{ID: fmt.Sprintf("c17f-%d-%d", k, i), Make: func() (proto.Job, any) { return s.job(), s }})
			}
		}
		pool := newPool()
		pool.Fresh = true
		keep := *only
		*only = ""
		pool.Run(List(ws), func(j proto.Job, info any, o Outcome) {
			firsts = append(firsts, info.(*sequence).record(j.ID, o))
		})
		*only = keep
		tr := newTraces("session")
		for i := range tr.w { // everyone knows them
			for _, k := range firsts {
				b, _ := json.Marshal(k)
				tr.w[i].Write(append(b, '\n'))
			}
		}
		ws = nil
		// every operation after every other: a walk over all pairs
		var walk []*operation
		n := len(ps)
		r := newRand("c17 walk")
		perm := r.Perm(n)
		for d := 1; d < n; d++ {
			for i := 0; i < n; i++ {
				walk = append(walk, ps[perm[i]], ps[perm[(i+d)%n]])
			}
		}
		const piece = 60
		for i := 0; i < len(walk); i += piece {
			e := i + piece
			if e > len(walk) {
				e = len(walk)
			}
			s := &sequence{ops: walk[i:e], shared: (i/piece)%2 == 0}
			ws = append(ws, Work{ID: fmt.Sprintf("c17w-%d", i/piece), Make: func() (proto.Job, any) { return s.job(), s }})
		}
		random := Count("c17r", scale(150, 6000), func(i int, r *rand.Rand) (proto.Job, any) {
			s := &sequence{shared: i%2 == 0}
			few := ps
			if r.Intn(2) == 0 { // a few operations, over and over
				few = nil
				for k := 2 + r.Intn(4); k > 0; k-- {
					few = append(few, ps[r.Intn(n)])
				}
			}
			for k := 3 + r.Intn(50); k > 0; k-- {
				s.ops = append(s.ops, few[r.Intn(len(few))])
			}
			return s.job(), s
		})
		pool = newPool()
		pool.Fresh = true
		pool.Run(Chain(List(ws), random), func(j proto.Job, info any, o Outcome) {
			s := info.(*sequence)
			k := s.record(j.ID, o)
			names := []string{}
			for _, p := range s.ops {
				names = append(names, p.name)
				count("operations")
			}
			seen([]byte(fmt.Sprint(s.shared, names)), len(names) > 1)
			if o.Died != "" {
				suspect(o)
			}
			sample(map[string]any{"id": k.Id, "operations": names[:min(len(names), 8)]})
			tr.Put(k, 50*len(k.Steps))
		})
		tr.Close()
	}
}
