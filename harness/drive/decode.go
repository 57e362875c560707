package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"vh/lz"
	"vh/proto"
)

type tokenGen struct {
	r                *rand.Rand
	minLen, maxLen   int
	reach            func(o int) int // largest offset after o bytes
	before           func(i int) byte
	litW             []byte // literals by weight
	style, offs, lns int
}

// weights like Fibonacci numbers make the deepest trees
func skewed(r *rand.Rand) []byte {
	p := r.Perm(256)
	var a []byte
	switch r.Intn(4) {
	case 0:
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			a = append(a, byte(p[i]))
		}
	case 1:
		for i := 0; i < 256; i++ {
			a = append(a, byte(i))
		}
	case 2:
		x, y := 1, 1
		for i := 0; i < 12+r.Intn(6); i++ {
			for k := 0; k < x; k++ {
				a = append(a, byte(p[i]))
			}
			x, y = y, x+y
		}
	default:
		for i := 0; i < 40; i++ {
			for k := 0; k <= i; k++ {
				a = append(a, byte(p[i]))
			}
		}
	}
	return a
}

func (g *tokenGen) tokens(n int) ([]lz.Token, []byte) {
	r := g.r
	var ts []lz.Token
	o := 0
	lits := skewed(r)
	matchShare := []int{0, 10, 50, 90, 100}[r.Intn(5)]
	fix := 0
	if r.Intn(3) == 0 {
		fix = g.minLen + r.Intn(g.maxLen-g.minLen+1)
	}
	ostyle := r.Intn(5)
	var fewL []int // a few lengths, with skewed weights
	if r.Intn(2) == 0 {
		for k := 1 + r.Intn(12); k > 0; k-- {
			l := g.minLen + r.Intn(g.maxLen-g.minLen+1)
			for c := 1 << uint(r.Intn(8)); c > 0; c-- {
				fewL = append(fewL, l)
			}
		}
	}
	for o < n {
		if r.Intn(100) >= matchShare {
			ts = append(ts, lz.Token{Lit: lits[r.Intn(len(lits))]})
			o++
			continue
		}
		reach := g.reach(o)
		l := g.minLen + r.Intn(g.maxLen-g.minLen+1)
		switch {
		case fix > 0 && r.Intn(8) > 0:
			l = fix
		case len(fewL) > 0:
			l = fewL[r.Intn(len(fewL))]
		case r.Intn(4) == 0:
			l = []int{g.minLen, g.maxLen, g.minLen + 1, g.maxLen - 1}[r.Intn(4)]
		}
		off := 1 + r.Intn(reach)
		switch ostyle {
		case 0:
			off = near(r, 1<<uint(r.Intn(17)), 1)
		case 1:
			off = 1 + r.Intn(min(reach, 80))
		case 2:
			off = reach - r.Intn(min(reach, 70))
		case 3:
			if r.Intn(3) == 0 {
				off = []int{1, 2, reach, reach - 1}[r.Intn(4)]
			} else if o > 0 {
				off = 1 + r.Intn(min(reach, o))
			}
		}
		if off < 1 {
			off = 1
		}
		if off > reach {
			off = reach
		}
		ts = append(ts, lz.Token{Len: l, Off: off})
		o += l
	}
	return ts, lz.Expand(ts, g.before)
}

// deep: tokens whose frequencies in the adaptive coder follow Fibonacci numbers
func deepLh1(r *rand.Rand, n int) []lz.Token {
	weights := []int{10200, 6300, 3900, 2400, 1500, 900, 600, 300}
	var bag []int
	for i, w := range weights {
		for k := 0; k < w/100; k++ {
			bag = append(bag, i)
		}
	}
	var ts []lz.Token
	base := r.Intn(40)
	for len(ts) < n {
		if r.Intn(60) == 0 {
			ts = append(ts, lz.Token{Lit: byte(r.Intn(64))})
		} else {
			ts = append(ts, lz.Token{Len: 3 + base + bag[r.Intn(len(bag))], Off: 1 + r.Intn(4096)})
		}
	}
	return ts
}

// deepLh2: so many matches that the tree of positions is rebuilt too; positions and
// lengths with frequencies like Fibonacci numbers, or one position nearly always
func deepLh2(r *rand.Rand) (ts []lz.Token) {
	var bag []int
	for i, w := range []int{1220, 740, 450, 275, 165, 100, 60, 36, 22, 13, 8, 5} {
		for k := 0; k < w; k++ {
			bag = append(bag, i)
		}
	}
	only := r.Intn(2) == 0
	p, base := r.Perm(128), 3+r.Intn(20)
	n := 32000 + r.Intn(20000)
	for o := 0; len(ts) < n; {
		if o < 50 || r.Intn(200) == 0 {
			ts = append(ts, lz.Token{Lit: byte(r.Intn(256))})
			o++
			continue
		}
		reach := lz.Lh2Reach(o)
		q := p[bag[r.Intn(len(bag))]]
		if only {
			q = p[0]
		}
		if r.Intn(300) == 0 || q >= reach/64 {
			q = r.Intn(reach / 64)
		}
		t := lz.Token{Len: base + bag[r.Intn(len(bag))], Off: 64*q + 1 + r.Intn(64)}
		ts = append(ts, t)
		o += t.Len
	}
	return ts
}

// stream makes a legal stream of method m for about n bytes of content; cost is
// about the time, in microseconds, that TLC takes for it
func stream(r *rand.Rand, m string, n int) (packed, content []byte, cost int) {
	heads := 0
	size := func() int { return 1 + r.Intn(5000) }
	few := func(k int) { // not too many blocks
		if m[:2] == "lh" && m > "lh2" && n > k {
			n = 1 + r.Intn(k)
		}
	}
	switch r.Intn(5) {
	case 0:
		few(300)
		size = func() int { return 1 + r.Intn(4) }
	case 1:
		size = func() int { return 65535 }
	case 2:
		few(3000)
		size = func() int { return 1 + r.Intn(40) }
	}
	cut := func() int { heads++; return size() }
	constant := func(k int) func(int) int { return func(int) int { return k } }
	g := &tokenGen{r: r, minLen: 3, maxLen: 256, before: lz.Spaces}
	switch m {
	case "lh4", "lh5", "lh6", "lh7":
		dic, _, _ := lz.StaticParams(m)
		g.reach = constant(dic)
		ts, c := g.tokens(n)
		packed = lz.Static(r, m, ts, cut)
		return packed, c, len(ts)*costCode + heads*costHead
	case "lh1":
		g.maxLen = 60
		g.reach = constant(4096)
		var ts []lz.Token
		if n > 20000 && r.Intn(3) == 0 {
			ts = deepLh1(r, n/2)
		} else {
			ts, _ = g.tokens(n)
		}
		p, _ := lz.Lh1(ts)
		return p, lz.Expand(ts, lz.Spaces), len(ts) * costLh1
	case "lh2":
		g.reach = lz.Lh2Reach
		ts, c := g.tokens(n)
		if n > 20000 && r.Intn(3) == 0 {
			ts = deepLh2(r)
			c = lz.Expand(ts, lz.Spaces)
		}
		return lz.Lh2(ts), c, len(ts)*costLh2 + len(c)/64*costLh2
	case "lh3":
		g.reach = constant(8192)
		ts, c := g.tokens(n)
		packed = lz.Lh3(r, ts, cut)
		return packed, c, len(ts)*costCode + heads*costHead
	case "lzs":
		g.minLen, g.maxLen, g.reach = 2, 17, constant(2048)
		ts, c := g.tokens(n)
		return lz.Lzs(ts), c, len(ts) * costCode
	case "lz5":
		g.maxLen, g.reach, g.before = 18, constant(4096), lz.Lz5Ring
		ts, c := g.tokens(n)
		return lz.Lz5(ts), c, len(ts) * costCode
	case "pm2":
		p, c := lz.Pm2(r, n)
		return p, c, len(p) * costCode * 2
	}
	c := make([]byte, n)
	r.Read(c)
	return c, c, 0
}

const (
	costCode = 40
	costHead = 12000
	costLh1  = 80
	costLh2  = 150
	costByte = 2
	second   = 1000000
)

type decCase struct {
	members []decMember
	how     int
}

type decMember struct {
	method          string
	name            string
	packed, content []byte
	cost            int
}

func decJob(c *decCase, r *rand.Rand) proto.Job {
	var arc []byte
	for i := range c.members {
		m := &c.members[i]
		arc = append(arc, lz.Simple(r.Intn(4), m.method, m.name, m.packed, m.content).Bytes()...)
	}
	arc = append(arc, 0)
	st := []proto.Step{{Op: "write", Name: "t.lzh", Data: arc}, {Op: "new", H: "a", Archive: "t.lzh"}}
	if c.how != 1 { // verification of everything on the way
		st = append(st, proto.Step{Op: "headers", H: "a"})
	} else {
		st = append(st, proto.Step{Op: "set", H: "a"})
	}
	switch c.how {
	case 0, 1:
		for _, m := range c.members {
			st = append(st, proto.Step{Op: "bytes", H: "a", Name: proto.Str(m.name)})
		}
	case 2:
		st = append(st, proto.Step{Op: "extract", H: "a", Archive: "t.lzh"})
		for _, m := range c.members {
			st = append(st, proto.Step{Op: "read", Name: proto.Str(m.name)})
		}
	case 3:
		for _, m := range c.members {
			st = append(st, proto.Step{Op: "dec", H: "a", Name: proto.Str(m.name)}, proto.Step{Op: "read", Name: proto.Str(m.name)})
		}
	}
	return proto.Job{Steps: st}
}

func decRecord(id string, c *decCase, o Outcome) []Case {
	var ks []Case
	bad := failure(o)
	if bad == "" {
		for _, x := range o.Res[2:] {
			if x.Err != "" && bad == "" {
				bad = "failed: " + x.Err
			}
		}
	}
	for i, m := range c.members {
		k := Case{Id: fmt.Sprintf("%s/%d", id, i), Method: m.method, In: m.packed, Size: len(m.content), Out: m.content, Crc: lz.Crc(m.content), Result: bad}
		if bad == "" {
			var got proto.Res
			switch c.how {
			case 0, 1:
				got = o.Res[3+i]
			case 2:
				got = o.Res[4+i]
			case 3:
				got = o.Res[4+2*i]
			}
			if bytes.Equal(got.Data, m.content) {
				k.Result = "same"
				if c.how != 1 {
					h := o.Res[2].Headers
					if len(h) != len(c.members) || h[i].Crc != k.Crc || h[i].Size != k.Size {
						k.Result = "listed with another size or checksum"
					}
				}
			} else {
				k.Result = fmt.Sprintf("gave other bytes (%d, first difference at %d)", len(got.Data), diffAt(got.Data, m.content))
			}
		}
		ks = append(ks, k)
	}
	return ks
}

// decodeRun: streams of the methods given, judged in full by the specification
// as long as budget (cost units) lasts; those that look wrong always are.
func decodeRun(tag string, methods []string, n int, size func(r *rand.Rand, m string) int, budget int) {
	tr := newTraces("codec")
	newPool().Run(Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		c := &decCase{how: []int{0, 0, 0, 1, 2, 3}[r.Intn(6)]}
		for k := 1 + r.Intn(2)*r.Intn(3); k > 0; k-- {
			m := methods[r.Intn(len(methods))]
			p, out, cost := stream(r, m, size(r, m))
			if len(out) == 0 { // nothing to write
				p = nil
			}
			c.members = append(c.members, decMember{method: m, name: fmt.Sprintf("m%d", k), packed: p, content: out, cost: cost})
		}
		return decJob(c, r), c
	}), func(j proto.Job, info any, o Outcome) {
		c := info.(*decCase)
		for i, k := range decRecord(j.ID, c, o) {
			count("method " + k.Method)
			seen(append([]byte(k.Method), k.In...), len(k.In) > 0)
			cost := c.members[i].cost + (len(k.Out)+len(k.In))*costByte + 100
			if k.Result == "same" {
				if budget <= 0 {
					continue
				}
				budget -= cost
			} else {
				suspect(o)
			}
			sample(map[string]any{"id": k.Id, "method": k.Method, "packed": len(k.In), "size": k.Size, "begins": fmt.Sprintf("%x", c.members[i].packed[:min(16, len(k.In))])})
			k.Packed, k.Whole = len(k.In), true
			tr.Put(k, cost)
		}
	})
	tr.Close()
}

func streamSize(r *rand.Rand, m string) int {
	switch r.Intn(10) {
	case 0:
		return 1 + r.Intn(6)
	case 1, 2, 3:
		return 1 + r.Intn(600)
	case 4, 5, 6:
		return 1 + r.Intn(8000)
	case 7:
		return 1 + r.Intn(20000)
	case 8:
		return near(r, []int{4096, 8192, 32768, 65536}[r.Intn(4)], 4)
	}
	return 1 + r.Intn(150000)
}

func init() {
	drivers["C05"] = func() {
		stats.Rule = "legal streams written by an independent encoder from random tokens, tables and block sizes (one-symbol tables, code lengths to 16, every run-length form, offsets to the edge of the dictionary and before the first byte), in archives with header levels 0 to 3, unpacked by every interface; non-trivial: not empty; distinct by packed bytes"
		decodeRun("c05", strings.Fields("lh4 lh5 lh6 lh7"), scale(3000, 40000), streamSize, scale(110*second, 3000*second))
	}
	drivers["C06"] = func() {
		stats.Rule = "as C05, for the adaptive coders of lh1 and lh2 (trees rebuilt at 32768 codes, codes beyond 16 bits, position trees that grow) and lh3 blocks"
		decodeRun("c06", strings.Fields("lh1 lh2 lh3"), scale(2500, 30000), streamSize, scale(200*second, 3000*second))
	}
	drivers["C07"] = func() {
		stats.Rule = "as C05, for stored members (sizes around the copy buffer), LArc rings with their initial contents and pm2 with tables renewed at every boundary"
		decodeRun("c07", strings.Fields("lh0 lz4 pm0 lzs lz5 pm2 pm2 pm2"), scale(3000, 40000), streamSize, scale(200*second, 3000*second))
	}
}
