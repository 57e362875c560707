package main

import (
	"fmt"
	"math/rand"
	"strings"

	"vh/proto"
)

type RStep struct {
	Op     string   `json:"op"`
	Err    bool     `json:"err"`
	Fail   string   `json:"fail"`
	Before []string `json:"before"`
	After  []string `json:"after"`
}

type RCase struct {
	Id    string  `json:"id"`
	Steps []RStep `json:"steps"`
}

// watched lets the worker tell which files are open
func watched(next func() (Work, bool)) func() (Work, bool) {
	return func() (Work, bool) {
		w, ok := next()
		if !ok {
			return w, ok
		}
		mk := w.Make
		w.Make = func() (proto.Job, any) {
			j, _ := mk()
			j.Fds = true
			return j, nil
		}
		return w, ok
	}
}

func releaseRecord(j proto.Job, o Outcome) RCase {
	k := RCase{Id: j.ID, Steps: []RStep{}}
	if o.Died != "" {
		k.Steps = append(k.Steps, RStep{Op: "all", Fail: o.Died, Before: []string{}, After: []string{}})
		return k
	}
	str := func(ss []proto.Str) []string {
		out := []string{}
		for _, s := range ss {
			out = append(out, strings.ToValidUTF8(string(s), "?"))
		}
		return out
	}
	for i, s := range j.Steps {
		switch s.Op {
		case "add", "addbytes", "cmdadd", "headers", "bytes", "dec", "extract", "list", "copyfile":
			r := o.Res[i]
			fail := r.Panic
			if fail != "" {
				fail = "panic"
			}
			k.Steps = append(k.Steps, RStep{s.Op, r.Err != "", fail, str(r.Before), str(r.After)})
			if fail != "" { // what broke off is a matter of other properties
				return k
			}
		}
	}
	return k
}

// writing fails at some size
func fullAdds(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		big := make([]byte, 200+r.Intn(3000))
		r.Read(big)
		st := []proto.Step{{Op: "new", H: "h", Archive: "t.lzh"}, {Op: "write", Name: "a", Data: []byte("some words")}, {Op: "write", Name: "b", Data: big}, {Op: "mkdir", Name: "d"},
			{Op: "write", Name: "d/c", Data: big[:100]}}
		if r.Intn(2) == 0 {
			st = append(st, proto.Step{Op: "cmdadd", H: "h", Archive: "t.lzh", Names: []proto.Str{"a", "b"}[:1+r.Intn(2)], Method: 5, Level: r.Intn(3)})
		}
		limit := int64(1 + r.Intn(len(big)+100))
		switch r.Intn(6) {
		case 0: // nowhere to write
			st = append(st, proto.Step{Op: "chmod", Name: ".", Mode: 0500})
			limit = 1 << 20
		case 1:
			st = append(st, proto.Step{Op: "chmod", Name: []proto.Str{"b", "a", "d"}[r.Intn(3)]})
			limit = 1 << 20
		case 2: // where the archive is to go there is a directory
			st = append(st, proto.Step{Op: "rm", Name: "t.lzh"}, proto.Step{Op: "mkdir", Name: "t.lzh"})
			limit = 1 << 20
		}
		st = append(st, proto.Step{Op: "set", H: "h", Opts: map[string]any{"BackupOldArchive": r.Intn(2) == 0, "RecursiveArchiving": r.Intn(2) == 0, "DeleteAfterAppend": r.Intn(4) == 0,
			"SortContents": r.Intn(2) == 0, "UpdateIfNewer": r.Intn(4) == 0}},
			proto.Step{Op: "limit", Mtime: limit})
		switch r.Intn(3) {
		case 0:
			st = append(st, proto.Step{Op: "addbytes", H: "h", Name: "b", Data: big, Method: []int{0, 1, 5}[r.Intn(3)], Level: r.Intn(4)})
		default:
			st = append(st, proto.Step{Op: "cmdadd", H: "h", Archive: "t.lzh", Names: []proto.Str{"b", "d", "a", "none"}[:1+r.Intn(4)], Method: []int{0, 1, 5}[r.Intn(3)], Level: r.Intn(4)})
		}
		st = append(st, proto.Step{Op: "extract", H: "h", Archive: "t.lzh"},
			proto.Step{Op: "copyfile", Name: []proto.Str{"a", "b", "d", "t.lzh", "none"}[r.Intn(5)], Archive: []string{"z", "z", "d", "d/z", "no/z"}[r.Intn(5)]},
			proto.Step{Op: "limit", Mtime: -1}, proto.Step{Op: "chmod", Name: ".", Mode: 0700})
		return proto.Job{Steps: st}, nil
	})
}

func init() {
	drivers["C21"] = func() {
		stats.Rule = "the operations of the other checks (reading sound, damaged, cut and arbitrary archives in every way, histories of adding, extraction over trees and of hostile members) and additions that fail for lack of space or permission; the files the process has open are compared before and after each; non-trivial: an operation that reported an error"
		tr := newTraces("release")
		ps := operations()
		sessions := Count("c21s", scale(60, 1000), func(i int, r *rand.Rand) (proto.Job, any) {
			s := &sequence{shared: i%2 == 0}
			for k := 20; k > 0; k-- {
				s.ops = append(s.ops, ps[r.Intn(len(ps))])
			}
			return s.job(), s
		})
		work := Chain(fullAdds("c21f", scale(1200, 20000)), headCases("c21h", scale(300, 5000)), headDamage("c21d", scale(300, 5000)), corruptCases("c21c", scale(500, 8000)),
			cutCases("c21t", scale(6, 100)), hostileCases("c21a", scale(300, 5000)), histories("c21i", scale(400, 6000)),
			hostileUnpack("c21u", scale(400, 6000)), friendlyUnpack("c21x", scale(500, 8000), []string{"extract", "extract", "dec", "print"}), sessions)
		newPool().Run(watched(work), func(j proto.Job, info any, o Outcome) {
			k := releaseRecord(j, o)
			bad := false
			for _, s := range k.Steps {
				count("op " + s.Op)
				if s.Err {
					count("op " + s.Op + " with an error")
					bad = true
				}
			}
			seen([]byte(fmt.Sprint(j.Steps)), bad)
			if o.Died != "" {
				suspect(o)
			}
			sample(map[string]any{"id": k.Id, "operations": len(k.Steps)})
			tr.Put(k, 200+20*len(k.Steps))
		})
		tr.Close()
	}
}
