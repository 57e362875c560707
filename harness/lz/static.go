package lz

import "math/rand"

// RandomLens gives lengths (at most max) of a complete prefix code for the
// needed symbols and perhaps some others of an alphabet of n.  With a single
// symbol it gives nil and the symbol.
func RandomLens(r *rand.Rand, need []bool, max int, shape int) (lens []int, single int) {
	n := len(need)
	var syms []int
	for i, u := range need {
		if u {
			syms = append(syms, i)
		}
	}
	if len(syms) == 0 {
		syms = append(syms, r.Intn(n))
	}
	if k := []int{0, 0, 1, 2, 5, 40, n}[r.Intn(7)]; k > 0 {
		has := map[int]bool{}
		for _, s := range syms {
			has[s] = true
		}
		for _, s := range r.Perm(n) {
			if k == 0 {
				break
			}
			if !has[s] {
				syms = append(syms, s)
				k--
			}
		}
	}
	for max < 16 && len(syms) > 1<<uint(max) {
		syms = syms[:1<<uint(max)]
	}
	if len(syms) == 1 {
		return nil, syms[0]
	}
	depths := []int{0}
	for len(depths) < len(syms) {
		i := 0
		switch shape {
		case 0: // deepest that can be split
			for k, d := range depths {
				if d < max && (depths[i] >= max || d > depths[i]) {
					i = k
				}
			}
		case 1: // shallowest
			for k, d := range depths {
				if d < depths[i] {
					i = k
				}
			}
		default:
			for {
				i = r.Intn(len(depths))
				if depths[i] < max {
					break
				}
			}
		}
		depths[i]++
		depths = append(depths, depths[i])
	}
	r.Shuffle(len(depths), func(i, j int) { depths[i], depths[j] = depths[j], depths[i] })
	lens = make([]int, n)
	for i, s := range syms {
		lens[s] = depths[i]
	}
	return lens, -1
}

// Codes assigns canonical codes.
func Codes(lens []int) []int {
	codes := make([]int, len(lens))
	c := 0
	for l := 1; l <= 16; l++ {
		for s, k := range lens {
			if k == l {
				codes[s] = c
				c++
			}
		}
		c <<= 1
	}
	return codes
}

type table struct {
	lens, codes []int
	single      int
}

func newTable(lens []int, single int) table {
	t := table{lens: lens, single: single}
	if lens != nil {
		t.codes = Codes(lens)
	}
	return t
}

func (t table) put(w *Bits, s int) {
	if t.lens == nil {
		if s != t.single {
			panic("lz: symbol without code")
		}
		return
	}
	if t.lens[s] == 0 {
		panic("lz: symbol without code")
	}
	w.Put(t.lens[s], t.codes[s])
}

func last(lens []int) int {
	n := len(lens)
	for n > 0 && lens[n-1] == 0 {
		n--
	}
	return n
}

func putPt(w *Bits, r *rand.Rand, t table, nbit, special int) {
	if t.lens == nil {
		w.Put(nbit, 0)
		w.Put(nbit, t.single)
		return
	}
	n := last(t.lens)
	if r.Intn(4) == 0 { // zeros at the end written out
		n += r.Intn(len(t.lens) - n + 1)
	}
	w.Put(nbit, n)
	for i := 0; i < n; {
		k := t.lens[i]
		i++
		if k <= 6 {
			w.Put(3, k)
		} else {
			w.Put(3, 7)
			for j := 7; j < k; j++ {
				w.Put(1, 1)
			}
			w.Put(1, 0)
		}
		if i == special {
			z := 0
			for z < 3 && i+z < len(t.lens) && t.lens[i+z] == 0 {
				z++
			}
			if r.Intn(3) == 0 && z > 0 {
				z = r.Intn(z + 1)
			}
			w.Put(2, z)
			i += z
		}
	}
}

// putC writes the literal and length table with the table of its code lengths.
func putC(w *Bits, r *rand.Rand, t table, shape int) {
	if t.lens == nil {
		pt := newTable(nil, r.Intn(19))
		if r.Intn(2) == 0 {
			pt = newTable(RandomLens(r, make([]bool, 19), 16, shape))
		}
		putPt(w, r, pt, 5, 3)
		w.Put(9, 0)
		w.Put(9, t.single)
		return
	}
	type item struct{ sym, n, v int }
	var items []item
	n := last(t.lens)
	if r.Intn(4) == 0 {
		n += r.Intn(len(t.lens) - n + 1)
	}
	style := r.Intn(4)
	for i := 0; i < n; {
		if k := t.lens[i]; k > 0 {
			items = append(items, item{k + 2, 0, 0})
			i++
			continue
		}
		z := 1
		for i+z < n && t.lens[i+z] == 0 {
			z++
		}
		switch {
		case z >= 20 && style != 1:
			if style == 2 {
				z = 20 + r.Intn(z-19)
			}
			items = append(items, item{2, 9, z - 20})
		case z >= 3 && style != 3:
			if z > 18 {
				z = 18
			}
			if style == 2 {
				z = 3 + r.Intn(z-2)
			}
			items = append(items, item{1, 4, z - 3})
		default:
			z = 1
			items = append(items, item{0, 0, 0})
		}
		i += z
	}
	need := make([]bool, 19)
	for _, x := range items {
		need[x.sym] = true
	}
	pt := newTable(RandomLens(r, need, 16, shape))
	putPt(w, r, pt, 5, 3)
	w.Put(9, n)
	for _, x := range items {
		pt.put(w, x.sym)
		w.Put(x.n, x.v)
	}
}

func posSym(off int) (sym, n, v int) {
	p := off - 1
	for p>>uint(sym) != 0 {
		sym++
	}
	if sym > 1 {
		n = sym - 1
		v = p - 1<<uint(n)
	}
	return
}

// StaticParams are the dictionary size, position alphabet and its width.
func StaticParams(m string) (dic, np, pbit int) {
	switch m {
	case "lh4":
		return 4096, 14, 4
	case "lh5":
		return 8192, 14, 4
	case "lh6":
		return 32768, 16, 5
	}
	return 65536, 17, 5
}

// Static writes tokens as lh4 to lh7 blocks; cut gives the sizes of the blocks.
func Static(r *rand.Rand, m string, ts []Token, cut func() int) []byte {
	_, np, pbit := StaticParams(m)
	w := &Bits{}
	for len(ts) > 0 {
		n := cut()
		if n > len(ts) {
			n = len(ts)
		}
		if n > 65535 {
			n = 65535
		}
		if n < 1 {
			n = 1
		}
		needC, needP := make([]bool, 510), make([]bool, np)
		for _, t := range ts[:n] {
			if t.Len == 0 {
				needC[t.Lit] = true
			} else {
				needC[256+t.Len-3] = true
				s, _, _ := posSym(t.Off)
				needP[s] = true
			}
		}
		c := newTable(RandomLens(r, needC, 16, r.Intn(3)))
		p := newTable(RandomLens(r, needP, 16, r.Intn(3)))
		w.Put(16, n)
		putC(w, r, c, r.Intn(3))
		putPt(w, r, p, pbit, -1)
		for _, t := range ts[:n] {
			if t.Len == 0 {
				c.put(w, int(t.Lit))
				continue
			}
			c.put(w, 256+t.Len-3)
			s, k, v := posSym(t.Off)
			p.put(w, s)
			w.Put(k, v)
		}
		ts = ts[n:]
	}
	return w.Done()
}

// Lh3 writes tokens as lh3 blocks.
func Lh3(r *rand.Rand, ts []Token, cut func() int) []byte {
	w := &Bits{}
	fixed := make([]int, 128)
	k := 2
	grow := []int{1, 1, 3, 6, 13, 31, 78}
	for i := range fixed {
		for len(grow) > 0 && grow[0] == i {
			k++
			grow = grow[1:]
		}
		fixed[i] = k
	}
	for len(ts) > 0 {
		n := cut()
		if n > len(ts) {
			n = len(ts)
		}
		if n > 65535 {
			n = 65535
		}
		if n < 1 {
			n = 1
		}
		needC, needP := make([]bool, 286), make([]bool, 128)
		for _, t := range ts[:n] {
			if t.Len == 0 {
				needC[t.Lit] = true
			} else {
				c := t.Len + 253
				if c > 285 {
					c = 285
				}
				needC[c] = true
				needP[(t.Off-1)>>6] = true
			}
		}
		c := newTable(RandomLens(r, needC, 16, r.Intn(3)))
		p := newTable(RandomLens(r, needP, 15, r.Intn(3)))
		useFixed := r.Intn(3) == 0
		if useFixed {
			p = newTable(fixed, -1)
		}
		w.Put(16, n)
		if c.lens == nil {
			w.Put(5, 16)
			w.Put(5, 16)
			w.Put(5, 16)
			w.Put(9, c.single)
		} else {
			for _, l := range c.lens {
				if l == 0 {
					w.Put(1, 0)
				} else {
					w.Put(5, 16+l-1)
				}
			}
		}
		if useFixed {
			w.Put(1, 0)
		} else if p.lens == nil {
			w.Put(1, 1)
			w.Put(4, 1)
			w.Put(4, 1)
			w.Put(4, 1)
			w.Put(7, p.single)
		} else {
			w.Put(1, 1)
			for _, l := range p.lens {
				w.Put(4, l)
			}
		}
		for _, t := range ts[:n] {
			if t.Len == 0 {
				c.put(w, int(t.Lit))
				continue
			}
			s := t.Len + 253
			if s >= 285 {
				c.put(w, 285)
				w.Put(8, s-285)
			} else {
				c.put(w, s)
			}
			p.put(w, (t.Off-1)>>6)
			w.Put(6, (t.Off-1)&63)
		}
		ts = ts[n:]
	}
	return w.Done()
}
