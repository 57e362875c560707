package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"vh/proto"
)

// cli runs the command
func cli(args ...string) proto.Step {
	p, err := filepath.Abs(*cliB)
	if err != nil {
		fatal("%v", err)
	}
	s := proto.Step{Op: "cli", Archive: p}
	for _, a := range args {
		s.Names = append(s.Names, proto.Str(a))
	}
	return s
}

// args are those of the command that adds
func (s *HStep) args() (a []string) {
	o := s.Opt
	if !o.Generic {
		a = append(a, "-g", "5")
	}
	if o.Method != 5 {
		a = append(a, "-o", fmt.Sprint(o.Method))
	}
	if o.Level != 2 {
		a = append(a, "-h", fmt.Sprint(o.Level))
	}
	if o.Update {
		a = append(a, "-u")
	}
	if o.Delete {
		a = append(a, "-m")
	}
	if o.Noexec {
		a = append(a, "-n")
	}
	if o.verbose {
		a = append(a, "-v")
	}
	if len(o.Exclude) > 0 {
		var x []string
		for _, e := range o.Exclude {
			t := string(e)
			if len(s.Srcs[0].Data)%2 == 0 { // in any case
				t = strings.ToLower(t)
			}
			x = append(x, t)
		}
		a = append(a, "-x="+strings.Join(x, ","))
	}
	for i := range s.Srcs {
		if i == 0 && o.Fresh {
			a = append(a, "-c", s.Srcs[i].path())
		} else {
			a = append(a, "-a", s.Srcs[i].path())
		}
	}
	return append(a, "-archive", arcName)
}

/*-------------------------------- looking -----------------------------------*/

type LObs struct {
	Cmd  string `json:"cmd"`
	V    bool   `json:"v"`
	Full bool   `json:"full"` // what it prints cannot be written
	Fail string `json:"fail"`
	Exit int    `json:"exit"`
	Out  Bytes  `json:"out"`
	Text string `json:"text"`
}

type LCase struct {
	Id    string `json:"id"`
	Arc   Bytes  `json:"arc"`
	Tz    int    `json:"tz"`
	There bool   `json:"there"`
	Obs   []LObs `json:"obs"`
}

type looking struct {
	arc   []byte
	cmds  []LObs
	there string // "file", "nothing", "directory", "unreadable"
}

func (u *looking) job() proto.Job {
	var st []proto.Step
	switch u.there {
	case "file":
		st = append(st, proto.Step{Op: "write", Name: "t.lzh", Data: u.arc})
	case "unreadable":
		st = append(st, proto.Step{Op: "write", Name: "t.lzh", Data: u.arc, Mode: 0200})
	case "directory":
		st = append(st, proto.Step{Op: "mkdir", Name: "t.lzh"})
	default:
		st = append(st, proto.Step{Op: "read", Name: "t.lzh"})
	}
	for _, c := range u.cmds {
		a := []string{"-" + c.Cmd}
		if c.V {
			a = append(a, "-v")
		}
		s := cli(append(a, "-archive", "t.lzh")...)
		if c.Full {
			s.Name = "/dev/full"
		}
		st = append(st, s)
	}
	return proto.Job{Steps: st}
}

func lookCases(tag string, n int) func() (Work, bool) {
	names := []string{"f", "g", "d/f", "d/e/f.txt", "long name with blanks.txt", "100%", "a -> b", "[0]", "Total", "-----", "x%", "12", "a.b", "\xe9t\xe9", "Name"}
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		u := &looking{there: "file"}
		if r.Intn(25) == 0 {
			u.there = []string{"nothing", "directory", "unreadable"}[r.Intn(3)]
			if u.there == "unreadable" && os.Getuid() == 0 {
				u.there = "nothing"
			}
		}
		var es []entry
		for k := r.Intn(6); k > 0; k-- {
			e := someEntry(r)
			e.name = []byte(names[r.Intn(len(names))])
			e.mode = r.Intn(010000)
			switch r.Intn(6) {
			case 0:
				e.data = make([]byte, []int{0, 1, 9, 99, 1000, 1024, 2500, 4444}[r.Intn(8)])
				r.Read(e.data)
			case 1:
				e.kind = "d"
				e.name = append(e.name, '/')
			case 2:
				e.kind = "l"
				e.target = []byte([]string{"f", "../f", "no where", "a -> b"}[r.Intn(4)])
			}
			e.badCrc = e.kind == "f" && len(e.data) > 0 && r.Intn(30) == 0
			es = append(es, e)
		}
		u.arc = archiveOf(r, es)
		switch r.Intn(14) {
		case 0: // cut short
			u.arc = u.arc[:r.Intn(len(u.arc)+1)]
		case 1: // damaged somewhere
			if len(u.arc) > 0 {
				u.arc = bytes.Clone(u.arc)
				u.arc[r.Intn(len(u.arc))] ^= byte(1 << uint(r.Intn(8)))
			}
		}
		for _, c := range []string{"l", "lv", "t", "p"} {
			u.cmds = append(u.cmds, LObs{Cmd: c, V: r.Intn(2) == 0})
		}
		if r.Intn(4) == 0 {
			u.cmds = append(u.cmds, LObs{Cmd: "p", Full: true})
		}
		return u.job(), u
	})
}

func lookRun(work func() (Work, bool)) {
	tr := newTraces("cli")
	newPool().Run(work, func(j proto.Job, info any, o Outcome) {
		u := info.(*looking)
		seen(append([]byte(fmt.Sprint(u.there, u.cmds)), u.arc...), len(u.arc) > 1)
		c := LCase{Id: j.ID, Arc: u.arc, There: u.there == "file", Obs: []LObs{}}
		cost := 3000 + 40*len(u.arc)
		for i, k := range u.cmds {
			if o.Died != "" {
				k.Fail = o.Died
			} else {
				r := o.Res[i+1]
				k.Out, k.Text, k.Fail = r.Data, r.Err, r.Panic
				if r.Err != "" {
					k.Exit = 1
				}
			}
			if k.Out == nil {
				k.Out = Bytes{}
			}
			count("command " + k.Cmd)
			if k.Exit != 0 {
				count("command " + k.Cmd + " with an error")
			}
			if k.Fail != "" {
				suspect(o)
			}
			cost += 3000 + 20*len(k.Out)
			c.Obs = append(c.Obs, k)
		}
		tr.Put(c, cost)
		if len(u.arc) < 300 && u.there == "file" && len(u.cmds) > 0 && o.Died == "" {
			sample(map[string]any{"id": j.ID, "command": u.cmds[0].Cmd, "exit": o.Res[1].Err, "printed": string(o.Res[1].Data)})
		}
	})
	tr.Close()
}

/*-------------------------------- extracting --------------------------------*/

func cliUnpack(tag string, n int) func() (Work, bool) {
	next := friendlyUnpack(tag, n, []string{"extract", "extract", "extract", "noexec", "list", "test", "print"})
	return func() (Work, bool) {
		w, ok := next()
		if !ok {
			return w, ok
		}
		return Work{ID: w.ID, Make: func() (proto.Job, any) {
			_, x := w.Make()
			u := x.(*unpacking)
			if u.form != 0 {
				u.form = 0
				made := false
				for _, s := range u.setup {
					made = made || s.Name == box
				}
				if !made {
					u.put(proto.Step{Op: "mkdir", Name: box})
				}
			}
			k := &u.k
			k.Tz, k.Opt.Junk, k.Opt.Names = 0, false, []Bytes{}
			switch k.Op {
			case "extract":
				u.args = []string{"-e"}
			case "list":
				u.args = []string{"-l"}
			case "test":
				u.args = []string{"-t"}
			case "print":
				u.args = []string{"-p"}
			}
			if k.Opt.Force {
				u.args = append(u.args, "-f")
			}
			if k.Opt.Noexec {
				u.args = append(u.args, "-n")
			}
			if len(k.Arc)%3 == 0 {
				u.args = append(u.args, "-v")
			}
			return u.job(), u
		}}, true
	}
}

/*---------------------------------- adding ----------------------------------*/

func cliHistories(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		g := &histGen{r: r, max: []int{3, 40, 150}[r.Intn(3)], flat: true}
		pool := []string{"a", "b", "B", "ab", "a.b", "zebra", "m", "A", "a b", "0", "ba", "longer-name.txt"}
		for _, k := range r.Perm(len(pool))[:2+r.Intn(5)] {
			g.names = append(g.names, []byte(pool[k]))
		}
		h := &history{}
		for k := 2 + r.Intn(7); k > 0; k-- {
			if r.Intn(4) == 0 {
				h.steps = append(h.steps, HStep{Op: []string{"list", "test"}[r.Intn(2)], via: "cli", h: "h1"})
				continue
			}
			s := g.add()
			for s.via != "cmd" {
				s = g.add()
			}
			s.via, s.Opt.backup, s.Opt.Sort = "cli", false, true
			s.Opt.Method = []int{5, 5, 6, 7}[r.Intn(4)]
			s.Opt.Generic = r.Intn(4) > 0
			s.Opt.verbose = r.Intn(3) == 0
			most := 1
			if s.Opt.Fresh {
				most = 2
			}
			if len(s.Srcs) > most {
				s.Srcs = s.Srcs[:most]
			}
			sort.Slice(s.Srcs, func(i, j int) bool { return s.Srcs[i].path() < s.Srcs[j].path() })
			h.steps = append(h.steps, s)
		}
		h.steps = append(h.steps, HStep{Op: "headers", h: "h4"})
		for _, n := range g.names {
			h.steps = append(h.steps, HStep{Op: "bytes", h: "h4", Name: n})
		}
		return h.job(), h
	})
}

func init() {
	drivers["C19"] = func() {
		stats.Rule = "the command itself: listing (short, long, verbose), testing and printing of archives of files, directories and links, sound, damaged, cut or missing; extraction over trees with files in the way, forced or not, answered or not, with and without execution; histories of additions with every option; exit status, output, files and archives compared; distinct by archive, tree, options"
		lookRun(lookCases("c19l", scale(3000, 40000)))
		unpackRun(cliUnpack("c19e", scale(2500, 40000)))
		historyRun("store", cliHistories("c19a", scale(1200, 15000)), 1<<60)
	}
}
