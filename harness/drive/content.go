package main

import (
	"fmt"
	"math/rand"
)

// Content makes byte strings that bring a sliding-dictionary Huffman coder to
// its limits.  dic is the size of the dictionary, maxm the longest match.
type contentGen struct {
	r    *rand.Rand
	dic  int
	maxm int
}

func near(r *rand.Rand, v int, spread int) int { return v + r.Intn(2*spread+1) - spread }

func (g *contentGen) alphabet() []byte {
	r := g.r
	n := []int{1, 2, 3, 4, 5, 8, 16, 17, 64, 100, 128, 200, 255, 256}[r.Intn(14)]
	p := r.Perm(256)
	a := make([]byte, n)
	for i := range a {
		a[i] = byte(p[i])
	}
	if r.Intn(5) == 0 { // with gaps of chosen lengths, where runs of unused codes change form
		gaps := []int{1, 2, 3, 17, 18, 19, 20, 21, 22, 36, 37, 38, 39, 40}
		a = a[:0]
		one := gaps[r.Intn(len(gaps))]
		for v := []int{0, 1, r.Intn(40)}[r.Intn(3)]; v < 256; {
			a = append(a, byte(v))
			if r.Intn(3) == 0 {
				v += 1 + gaps[r.Intn(len(gaps))]
			} else {
				v += 1 + one
			}
		}
		r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		return a
	}
	if n <= 16 && r.Intn(3) == 0 { // neighbours at the edge of the alphabet
		b := []int{0, 255 - n + 1, 1, 254 - n + 1}[r.Intn(4)]
		for i := range a {
			a[i] = byte(b + i)
		}
	}
	return a
}

// lits: random literals with a distribution over an alphabet
func (g *contentGen) lits(n int) []byte {
	r := g.r
	a := g.alphabet()
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0: // geometric: skewed, long codes
		for i := range b {
			k := 0
			for k < len(a)-1 && r.Intn(2) == 0 {
				k++
			}
			b[i] = a[k]
		}
	case 1: // quadratic skew
		for i := range b {
			k := r.Intn(len(a))
			k = k * r.Intn(len(a)) / len(a)
			b[i] = a[k]
		}
	default:
		for i := range b {
			b[i] = a[r.Intn(len(a))]
		}
	}
	return b
}

func (g *contentGen) dist() int {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return near(r, g.dic, 4)
	case 1:
		return 1 + r.Intn(4)
	case 2:
		return near(r, 1<<uint(1+r.Intn(16)), 2)
	case 3:
		return near(r, g.dic-g.maxm, 4)
	case 4:
		return near(r, 2*g.dic, 4)
	case 5:
		return 1 + r.Intn(g.dic)
	default:
		return 1 + r.Intn(300)
	}
}

func (g *contentGen) length() int {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return near(r, g.maxm, 3)
	case 1:
		return 3 + r.Intn(5)
	case 2:
		return 2 * g.maxm
	case 3:
		return near(r, 1<<uint(2+r.Intn(7)), 2)
	default:
		return 2 + r.Intn(g.maxm)
	}
}

// mixed: a program of literal runs and copies
func (g *contentGen) mixed(n int) []byte {
	r := g.r
	var b []byte
	litShare := 1 + r.Intn(10)
	litRun := 1 + r.Intn(200)
	for len(b) < n {
		if len(b) < 4 || r.Intn(10) < litShare {
			b = append(b, g.lits(1+r.Intn(litRun))...)
			continue
		}
		d, l := g.dist(), g.length()
		if d > len(b) || d < 1 {
			d = 1 + r.Intn(len(b))
		}
		for k := 0; k < l; k++ {
			b = append(b, b[len(b)-d])
		}
	}
	return b[:n]
}

// fib: literal frequencies like Fibonacci numbers force the longest codes
func (g *contentGen) fib(n int) []byte {
	r := g.r
	k := 17 + r.Intn(10)
	p := r.Perm(256)
	var b []byte
	x, y := 1, 1
	for i := 0; i < k && len(b) < n; i++ {
		for j := 0; j < x && len(b) < n; j++ {
			b = append(b, byte(p[i]))
		}
		x, y = y, x+y
	}
	r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	return b
}

// far: blocks that recur at a chosen distance among noise
func (g *contentGen) far(n int) []byte {
	r := g.r
	b := make([]byte, 0, n)
	d := g.dist()
	if d < 1 {
		d = 1
	}
	for len(b) < n {
		if len(b) >= d && r.Intn(3) > 0 {
			l := g.length()
			for k := 0; k < l; k++ {
				b = append(b, b[len(b)-d])
			}
			b = append(b, byte(r.Intn(256)))
		} else {
			b = append(b, byte(r.Intn(256)))
		}
	}
	return b[:n]
}

func (g *contentGen) periodic(n int) []byte {
	r := g.r
	p := g.dist()
	if p < 1 {
		p = 1
	}
	if p > 1<<17 {
		p = 1 << 17
	}
	u := g.lits(p)
	b := make([]byte, n)
	for i := range b {
		b[i] = u[i%p]
	}
	for k := r.Intn(6); k > 0 && n > 0; k-- { // a few disturbances
		b[r.Intn(n)] = byte(r.Intn(256))
	}
	return b
}

var words = []string{"the ", "of ", "and ", "archive ", "LHA ", "\r\n", "int main(", "return ", "0x", ";\n", "header", " = ", "Huffman"}

func (g *contentGen) text(n int) []byte {
	var b []byte
	for len(b) < n {
		b = append(b, words[g.r.Intn(len(words))]...)
		if g.r.Intn(9) == 0 {
			b = append(b, fmt.Sprint(g.r.Intn(1000))...)
		}
	}
	return b[:n]
}

// phases: pieces of different nature, so that blocks differ
func (g *contentGen) phases(n int) []byte {
	var b []byte
	for len(b) < n {
		b = append(b, g.piece(1+g.r.Intn(n/3+1))...)
	}
	return b[:n]
}

// few: each byte value occurs about once or twice, few matches
func (g *contentGen) ramp(n int) []byte {
	b := make([]byte, n)
	s := 1 + 2*g.r.Intn(128)
	q := g.r.Intn(3)
	for i := range b {
		b[i] = byte(i*s + q*(i>>8)*(i>>8)*17)
	}
	return b
}

func (g *contentGen) piece(n int) []byte {
	switch g.r.Intn(9) {
	case 0:
		return g.lits(n)
	case 1, 2, 3:
		return g.mixed(n)
	case 4:
		return g.far(n)
	case 5:
		return g.periodic(n)
	case 6:
		return g.text(n)
	case 7:
		return g.ramp(n)
	default:
		return g.fib(n)
	}
}

func (g *contentGen) size(max int) int {
	r := g.r
	var n int
	switch r.Intn(12) {
	case 0, 1:
		n = r.Intn(40)
	case 2, 3:
		n = r.Intn(700)
	case 4:
		n = near(r, g.dic, 5)
	case 5:
		n = near(r, 2*g.dic, 5)
	case 6:
		n = near(r, 2*g.dic+g.maxm, 5)
	case 7:
		n = near(r, 1<<uint(8+r.Intn(10)), 3)
	case 8:
		n = near(r, 65536, 3)
	default:
		n = r.Intn(20000)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (g *contentGen) make(max int) []byte {
	n := g.size(max)
	if g.r.Intn(5) == 0 {
		return g.phases(n)
	}
	return g.piece(n)
}
