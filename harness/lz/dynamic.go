package lz

// Tree is the adaptive Huffman tree of lh1 and lh2: nodes by non-increasing
// frequency, the root first.
type Tree struct {
	Freq, Child, Par, Leaf []int
	Tot                    int
}

func Uniform(n int) *Tree {
	size := 2*n - 1
	t := &Tree{Freq: make([]int, size), Child: make([]int, size), Par: make([]int, size), Leaf: make([]int, n)}
	for s := 0; s < n; s++ {
		i := size - 1 - s
		t.Freq[i], t.Child[i], t.Leaf[s] = 1, -1-s, i
	}
	i := size - 1
	for j := size - 1 - n; j >= 0; j-- {
		t.Freq[j] = t.Freq[i] + t.Freq[i-1]
		t.Child[j] = i
		t.Par[i], t.Par[i-1] = j, j
		i -= 2
	}
	return t
}

func (t *Tree) hang(p, c int) {
	t.Child[p] = c
	if c >= 0 {
		t.Par[c], t.Par[c-1] = p, p
	} else {
		t.Leaf[-1-c] = p
	}
}

func (t *Tree) incUp(p int) {
	for p != 0 {
		q := p
		for q > 0 && t.Freq[q-1] == t.Freq[p] {
			q--
		}
		if q != p {
			cp, cq := t.Child[p], t.Child[q]
			t.hang(p, cq)
			t.hang(q, cp)
		}
		t.Freq[q]++
		p = t.Par[q]
	}
}

func (t *Tree) halve() {
	n := len(t.Freq)
	type leaf struct{ f, c int }
	var ls []leaf
	for i := 0; i < n; i++ {
		if t.Child[i] < 0 {
			ls = append(ls, leaf{(t.Freq[i] + 1) / 2, t.Child[i]})
		}
	}
	j := len(ls)
	i, l := n-1, n-2
	place := func(k int) {
		for j > k {
			j--
			t.Freq[i], t.Child[i] = ls[j].f, ls[j].c
			i--
		}
	}
	for i >= 0 {
		if i >= l {
			place(j - (i - l + 1))
		}
		f := t.Freq[l] + t.Freq[l+1]
		k := j
		for k > 0 && ls[k-1].f <= f {
			k--
		}
		place(k)
		t.Freq[i], t.Child[i] = f, l+1
		i--
		l -= 2
	}
	for i := 0; i < n; i++ {
		t.hang(i, t.Child[i])
	}
}

func (t *Tree) UpdateC(s int) {
	if t.Freq[0] == 32768 {
		t.halve()
	}
	t.Freq[0]++
	t.incUp(t.Leaf[s])
}

func Single() *Tree {
	return &Tree{Freq: []int{1}, Child: []int{-1}, Par: []int{0}, Leaf: []int{0}}
}

func (t *Tree) UpdateP(s int) {
	if t.Tot == 32768 {
		t.halve()
		t.Tot = t.Freq[0]
		t.Freq[0] = 65535
	}
	t.incUp(t.Leaf[s])
	t.Tot++
}

func (t *Tree) NewSymbol() {
	m := len(t.Freq) - 1
	s := len(t.Leaf)
	c := t.Child[m]
	f := t.Freq[m]
	if m == 0 {
		t.Freq[0] = 65535
	}
	t.Freq = append(t.Freq, f, 0)
	t.Child[m] = m + 2
	t.Child = append(t.Child, c, -1-s)
	t.Par = append(t.Par, m, m)
	t.Leaf[-1-c] = m + 1
	t.Leaf = append(t.Leaf, m+2)
	t.UpdateP(s)
}

// Put writes the code of s.
func (t *Tree) Put(w *Bits, s int) int {
	var bits []int
	for p := t.Leaf[s]; p != 0; p = t.Par[p] {
		bits = append(bits, t.Child[t.Par[p]]-p)
	}
	for i := len(bits) - 1; i >= 0; i-- {
		w.Put(1, bits[i])
	}
	return len(bits)
}

// Depth is the length of the code of s.
func (t *Tree) Depth(s int) (n int) {
	for p := t.Leaf[s]; p != 0; p = t.Par[p] {
		n++
	}
	return
}

func fixedLh1() table {
	lens := make([]int, 64)
	k := 3
	grow := []int{1, 4, 12, 24, 48}
	for i := range lens {
		for len(grow) > 0 && grow[0] == i {
			k++
			grow = grow[1:]
		}
		lens[i] = k
	}
	return newTable(lens, -1)
}

// Lh1 writes tokens (lengths 3 to 60, offsets up to 4096).
func Lh1(ts []Token) ([]byte, int) {
	w := &Bits{}
	t := Uniform(314)
	p := fixedLh1()
	deepest := 0
	for _, x := range ts {
		s := int(x.Lit)
		if x.Len > 0 {
			s = x.Len + 253
		}
		if d := t.Put(w, s); d > deepest {
			deepest = d
		}
		t.UpdateC(s)
		if x.Len > 0 {
			p.put(w, (x.Off-1)>>6)
			w.Put(6, (x.Off-1)&63)
		}
	}
	return w.Done(), deepest
}

// Lh2Reach is the largest offset that a match after o bytes can have.
func Lh2Reach(o int) int {
	n := 1
	for next := 64; next < 8192 && o > next; next += 64 {
		n++
	}
	return 64 * n
}

// Lh2 writes tokens (lengths 3 to 256, offsets up to Lh2Reach).
func Lh2(ts []Token) []byte {
	w := &Bits{}
	t := Uniform(286)
	d := Single()
	next, o := 64, 0
	for _, x := range ts {
		if x.Len == 0 {
			t.Put(w, int(x.Lit))
			t.UpdateC(int(x.Lit))
			o++
			continue
		}
		s := x.Len + 253
		c := s
		if c > 285 {
			c = 285
		}
		t.Put(w, c)
		t.UpdateC(c)
		if c == 285 {
			w.Put(8, s-285)
		}
		for next < 8192 && o > next {
			d.NewSymbol()
			next += 64
		}
		q := (x.Off - 1) >> 6
		d.Put(w, q)
		d.UpdateP(q)
		w.Put(6, (x.Off-1)&63)
		o += x.Len
	}
	return w.Done()
}

// Lzs writes tokens (lengths 2 to 17, offsets up to 2048).
func Lzs(ts []Token) []byte {
	w := &Bits{}
	o := 0
	for _, x := range ts {
		if x.Len == 0 {
			w.Put(1, 1)
			w.Put(8, int(x.Lit))
			o++
			continue
		}
		w.Put(1, 0)
		w.Put(11, (o-x.Off-17+3*2048)&2047)
		w.Put(4, x.Len-2)
		o += x.Len
		_ = o
	}
	return w.Done()
}

// Lz5 writes tokens (lengths 3 to 18, offsets up to 4096).
func Lz5(ts []Token) []byte {
	var b []byte
	o := 0
	flag := 0
	for i, x := range ts {
		if i%8 == 0 {
			flag = len(b)
			b = append(b, 0)
		}
		if x.Len == 0 {
			b[flag] |= 1 << uint(i%8)
			b = append(b, x.Lit)
			o++
			continue
		}
		a := ((o-x.Off-18)%4096 + 4096) % 4096
		b = append(b, byte(a), byte(a>>8<<4|(x.Len-3)))
		o += x.Len
	}
	return b
}

// Lz5Ring is what a match of lz5 finds before the first byte.
func Lz5Ring(i int) byte {
	a := (i%4096+4096)%4096 - 18
	switch {
	case a < 0:
		return 32
	case a < 3328:
		return byte(a / 13)
	case a < 3584:
		return byte(a - 3328)
	case a < 3840:
		return byte(255 - (a - 3584))
	case a < 3968:
		return 0
	}
	return 32
}
