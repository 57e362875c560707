package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"vh/lz"
	"vh/proto"
)

// Case is one member for CodecTrace.
type Case struct {
	Id     string `json:"id"`
	Method string `json:"method"`
	Req    string `json:"req"`
	In     Bytes  `json:"in"`
	Size   int    `json:"size"`
	Out    Bytes  `json:"out"`
	Crc    int    `json:"crc"`
	Result string `json:"result"`
	Slack  int    `json:"slack"`
	Packed int    `json:"packed"`
	Whole  bool   `json:"whole"`
}

type encCase struct {
	id      string
	req     int
	level   int
	content []byte
	files   bool // through files, not memory
}

var reqName = map[int]string{1: "lh1", 5: "lh5", 6: "lh6", 7: "lh7"}

func dicOf(m int) (int, int) {
	switch m {
	case 1:
		return 4096, 60
	case 6:
		return 32768, 256
	case 7:
		return 65536, 256
	}
	return 8192, 256
}

func encJob(c encCase) proto.Job {
	st := []proto.Step{{Op: "new", H: "a", Archive: "t.lzh"}}
	if c.files {
		st = append(st, proto.Step{Op: "write", Name: "src/m", Data: c.content},
			proto.Step{Op: "add", H: "a", Name: "src/m", Method: c.req, Level: c.level})
	} else {
		st = append(st, proto.Step{Op: "addbytes", H: "a", Name: "m", Data: c.content, Method: c.req, Level: c.level})
	}
	st = append(st,
		proto.Step{Op: "read", Name: "t.lzh"},
		proto.Step{Op: "headers", H: "a"})
	if c.files {
		st = append(st, proto.Step{Op: "dec", H: "a", Index: 0}, proto.Step{Op: "read", Name: "m"})
	} else {
		st = append(st, proto.Step{Op: "bytes", H: "a", Index: 0})
	}
	return proto.Job{ID: c.id, Steps: st}
}

func failure(o Outcome) string {
	if o.Died != "" {
		return o.Died
	}
	for i, r := range o.Res {
		if r.Panic != "" {
			return fmt.Sprintf("panic in step %d: %s", i, r.Panic)
		}
	}
	return ""
}

// encRecord turns what happened into a case
func encRecord(c encCase, o Outcome) Case {
	k := Case{Id: c.id, Out: c.content, Method: "lh0", Crc: -1, Size: -1, Req: reqName[c.req], Slack: 0}
	if k.Req == "" {
		k.Req = "lh0"
	}
	if f := failure(o); f != "" {
		k.Result = f
		return k
	}
	i := 1
	if c.files {
		i = 2
	}
	add, arc, hs := o.Res[i], o.Res[i+1], o.Res[i+2]
	back := o.Res[len(o.Res)-1]
	if c.files {
		if e := o.Res[i+3].Err; e != "" {
			k.Result = "unpacking failed: " + e
		}
	}
	if add.Err != "" {
		k.Result = "packing failed: " + add.Err
		return k
	}
	ms, err := lz.Members(arc.Data)
	if err != nil || len(ms) != 1 {
		k.Result = fmt.Sprintf("the archive written has no member (%d, %v)", len(ms), err)
		return k
	}
	k.Method, k.In = ms[0].Method, ms[0].Packed
	switch {
	case k.Result != "":
	case hs.Err != "":
		k.Result = "listing failed: " + hs.Err
	case len(hs.Headers) != 1:
		k.Result = "listing does not show one member"
	case back.Err != "":
		k.Result = "unpacking failed: " + back.Err
	case !bytes.Equal(back.Data, c.content):
		k.Result = fmt.Sprintf("unpacking gave other bytes (%d, first difference at %d)", len(back.Data), diffAt(back.Data, c.content))
	default:
		k.Result = "same"
		h := hs.Headers[0]
		if h.HasCrc {
			k.Crc = h.Crc
		}
		k.Size = h.Size
		if "-"+k.Method+"-" != string(h.Method) {
			k.Result = "listed with another method: " + string(h.Method)
		}
	}
	return k
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// contents for a method
func contentFor(r *rand.Rand, m int, max int) []byte {
	d, mm := dicOf(m)
	g := &contentGen{r: r, dic: d, maxm: mm}
	return g.make(max)
}

// encodeRun packs and unpacks contents; every case that looks wrong, and as many of
// the others as budget (about microseconds of TLC) allows, go to the specification.
func encodeRun(work func() (Work, bool), budget int, stream bool) {
	tr := newTraces("codec")
	newPool().Run(work, func(j proto.Job, info any, o Outcome) {
		c := info.(encCase)
		c.id = j.ID
		k := encRecord(c, o)
		key := append([]byte(fmt.Sprint(c.req, c.level, c.files)), c.content...)
		seen(key, len(c.content) > 0)
		count("method " + k.Method)
		looksRight := k.Result == "same" && k.Size == len(c.content) && k.Crc == lz.Crc(c.content)
		if !looksRight {
			suspect(o)
		}
		cost := 100 + len(c.content)*costByte
		if stream {
			switch k.Method {
			case "lh1":
				cost += len(k.In) * costLh1
			case "lh0":
			default:
				cost += len(k.In)*costCode/2 + (len(k.In)/20000+1)*costHead
			}
		}
		if !looksRight || budget > 0 {
			if looksRight {
				budget -= cost
			}
			sample(map[string]any{"id": k.Id, "method": k.Method, "requested": k.Req, "size": len(c.content), "packed": len(k.In)})
			k.Packed, k.Whole = len(k.In), stream || k.Method == "lh0"
			if !k.Whole {
				k.In = nil
			}
			tr.Put(k, cost)
		}
	})
	tr.Close()
}

func contentCases(tag string, methods []int, n int, max int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		m := methods[r.Intn(len(methods))]
		c := encCase{req: m, level: r.Intn(3), content: contentFor(r, m, max), files: r.Intn(8) == 0}
		return encJob(c), c
	})
}

// blockCases: contents of several blocks that use different codes, extreme ones among them
func blockCases(tag string, methods []int, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		m := methods[r.Intn(len(methods))]
		d, mm := dicOf(m)
		g := &contentGen{r: r, dic: d, maxm: mm}
		var b []byte
		for k := 2 + r.Intn(3); k > 0; k-- {
			if r.Intn(2) == 0 { // the longest match, the nearest and the farthest distance
				if r.Intn(2) == 0 {
					b = append(b, make([]byte, mm*(1+r.Intn(3))+r.Intn(3))...)
				} else if d < len(b) {
					b = append(b, b[len(b)-d:len(b)-d+mm]...)
				}
			}
			a := g.alphabet()
			for len(a) < 8 {
				a = append(a, byte(r.Intn(256)))
			}
			for j := 30000 + r.Intn(50000); j > 0; j-- {
				b = append(b, a[r.Intn(len(a))])
			}
		}
		c := encCase{req: m, level: r.Intn(3), content: b, files: r.Intn(8) == 0}
		return encJob(c), c
	})
}

// adaptive: contents that make the adaptive tree deep, or rebuild it
// fullContent: nothing but matches after the first k bytes, more than fit in one
// buffer of codes, which k pushes to every place of it
func fullContent(r *rand.Rand, k, n int) []byte {
	b := make([]byte, k)
	r.Read(b)
	next := -1
	for ; n > 0; n-- {
		l, lo := 4+r.Intn(8), max(0, len(b)-4000)
		for {
			if s := lo + r.Intn(len(b)-l-lo); int(b[s]) != next {
				next = int(b[s+l])
				b = append(b, b[s:s+l]...)
				break
			}
		}
	}
	return b
}

func fullCases(tag string, n int, methods []int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		c := encCase{req: methods[r.Intn(len(methods))], level: r.Intn(3), content: fullContent(r, 40+8*(i%25)+r.Intn(2)*r.Intn(8), 22000+r.Intn(30000)), files: r.Intn(8) == 0}
		return encJob(c), c
	})
}

// deepContent: the matches that the packer finds in it have lengths with frequencies
// like Fibonacci numbers, until just before the tree is rebuilt; then rare bytes,
// whose codes have 17 or 18 bits by then
func deepContent(r *rand.Rand) (b []byte) {
	var bag []int
	for i, w := range []int{1220, 740, 450, 275, 165, 100, 60, 36} {
		for k := 0; k < w; k++ {
			bag = append(bag, i)
		}
	}
	b = make([]byte, 40+r.Intn(60))
	r.Read(b)
	base, n := 6+r.Intn(3), 31700+r.Intn(700)
	next := -1 // what would prolong the last match
	for t := 0; t < n; t++ {
		if t > n-300 && r.Intn(3) == 0 {
			b = append(b, byte(r.Intn(256)))
			next = -1
			continue
		}
		l, lo := base+bag[r.Intn(len(bag))], max(0, len(b)-4000)
		for {
			if s := lo + r.Intn(len(b)-l-lo); int(b[s]) != next {
				next = int(b[s+l])
				b = append(b, b[s:s+l]...)
				break
			}
		}
	}
	return b
}

func adaptiveCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		var b []byte
		switch i % 4 {
		case 0: // codes of 17 bits and more
			b = deepContent(r)
		case 1: // many symbols, few matches
			g := &contentGen{r: r, dic: 4096, maxm: 60}
			n := 33000 + r.Intn(80000)
			for len(b) < n {
				b = append(b, g.lits(2000+r.Intn(60000))...)
			}
		case 2: // what the deepest streams unpack to
			b = lz.Expand(deepLh1(r, 20000+r.Intn(20000)), lz.Spaces)
		default: // frequencies like Fibonacci numbers, in order
			p := r.Perm(256)
			x, y := 1, 1
			for k := 0; k < 23 && len(b) < 60000; k++ {
				for j := 0; j < x; j++ {
					b = append(b, byte(p[k]), byte(p[40+r.Intn(200)]))
				}
				x, y = y, x+y
			}
			if r.Intn(2) == 0 {
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
			}
		}
		c := encCase{req: 1, level: r.Intn(3), content: b, files: r.Intn(8) == 0}
		return encJob(c), c
	})
}

// storedCases: contents that hardly pack, and methods that do not pack
func storedCases(tag string, n int) func() (Work, bool) {
	return Count(tag, n, func(i int, r *rand.Rand) (proto.Job, any) {
		m := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, -1, 5, 6, 7, 1, 5}[r.Intn(20)]
		var b []byte
		switch r.Intn(7) {
		case 0: // noise
			b = make([]byte, r.Intn(9000))
			r.Read(b)
		case 1: // noise around the buffer of the copier
			b = make([]byte, max(0, near(r, []int{2048, 4096, 8192, 1024, 512, 65536, 16384}[r.Intn(7)], 3)))
			r.Read(b)
		case 2: // nothing, or next to it
			b = make([]byte, r.Intn(12))
			r.Read(b)
		case 3: // one byte over and over
			b = make([]byte, r.Intn(300))
			for i := range b {
				b[i] = byte(i / 300)
			}
		case 4: // noise first, then easy, or the other way round
			b = make([]byte, r.Intn(20000))
			r.Read(b)
			e := make([]byte, r.Intn(3000))
			if r.Intn(2) == 0 {
				b = append(b, e...)
			} else {
				b = append(e, b...)
			}
		case 5: // at the edge of paying off: noise with a few repeats
			b = make([]byte, 10+r.Intn(6000))
			r.Read(b)
			for k := r.Intn(len(b)/8 + 2); k > 0; k-- {
				l := 3 + r.Intn(20)
				if l*2 < len(b) {
					copy(b[r.Intn(len(b)-l):], append([]byte{}, b[:l]...))
				}
			}
		default:
			b = contentFor(r, m, 30000)
		}
		c := encCase{req: m, level: r.Intn(3), content: b, files: r.Intn(3) == 0}
		return encJob(c), c
	})
}

func init() {
	drivers["C01"] = func() {
		stats.Rule = "contents made for the limits of the coder (sizes around the dictionary, matches at its edge, long codes, several blocks), packed with lh5, lh6 or lh7 and unpacked again; non-trivial: not empty; distinct by content, method and header level"
		encodeRun(Chain(fullCases("c01f", scale(150, 2000), []int{5, 6, 7}), blockCases("c01b", []int{5, 6, 7}, scale(150, 3000)), contentCases("c01", []int{5, 6, 7}, scale(6000, 60000), 300000)), scale(120*second, 3000*second), false)
	}
	drivers["C02"] = func() {
		stats.Rule = "contents for the adaptive coder (tree rebuilt at 32768 codes, Fibonacci frequencies, matches to 60 bytes), packed with lh1 and unpacked again; non-trivial: not empty; distinct by content and header level"
		encodeRun(Chain(adaptiveCases("c02d", scale(400, 6000)), contentCases("c02", []int{1}, scale(3000, 40000), 200000)), scale(120*second, 3000*second), false)
	}
	drivers["C03"] = func() {
		stats.Rule = "contents that hardly pack (noise, a few bytes, none, noise with repeats) with every method number; non-trivial: not empty; distinct by content, method and header level"
		encodeRun(storedCases("c03", scale(8000, 100000)), scale(200*second, 3000*second), false)
	}
	drivers["C04"] = func() {
		stats.Rule = "contents as for C01 and C02; the packed bytes found in the archive are read by the specification's own decoder; non-trivial: not empty; distinct by content, method and header level"
		encodeRun(Chain(adaptiveCases("c04d", scale(6, 100)), contentCases("c04", []int{1, 5, 5, 6, 7, 7}, scale(1500, 30000), 200000)), scale(220*second, 5000*second), true)
	}
}
