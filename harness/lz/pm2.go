package lz

import (
	"math/rand"
	"slices"
)

var (
	histBits = []int{3, 3, 4, 5, 5, 5, 6, 6}
	histBase = []int{0, 8, 16, 32, 64, 96, 128, 192}
	repBits  = []int{3, 3, 5, 6, 7, 0}
	repBase  = []int{17, 25, 33, 65, 129, 256}
)

// Pm2 makes a random pm2 stream of about n bytes of content.
func Pm2(r *rand.Rand, n int) (packed, content []byte) {
	w := &Bits{}
	w.Put(1, r.Intn(2))
	var h []byte
	for _, x := range [][2]int{{32, 127}, {0, 31}, {160, 223}, {128, 159}, {224, 255}} {
		for i := x[0]; i <= x[1]; i++ {
			h = append(h, byte(i))
		}
	}
	var out []byte
	wrote := func(b byte) {
		out = append(out, b)
		for i, x := range h {
			if x == b {
				copy(h[1:i+1], h[:i])
				h[0] = b
				return
			}
		}
	}
	var t1, t2 table
	t2 = newTable(nil, 0)
	bound := 0
	next := 0
	minLit := r.Intn(10)
	for len(out) < n {
		if len(out) >= next {
			flag := next >= 4096
			new1 := next == 0
			if flag {
				new1 = r.Intn(2) == 0
				if new1 {
					w.Put(1, 1)
				} else {
					w.Put(1, 0)
				}
			}
			if new1 {
				bound = 1 + r.Intn(29)
				if r.Intn(3) == 0 {
					bound = 29
				}
				need := make([]bool, bound)
				need[r.Intn(min(bound, 8))] = r.Intn(6) > 0 // some literal
				if r.Intn(6) > 0 {
					for i := range need {
						if r.Intn(10) < 6 {
							need[i] = true
						}
					}
				}
				if !slices.Contains(need, true) {
					need[bound-1] = true
				}
				depth := 1 + r.Intn(4)
				nbits := 3 + r.Intn(4) // x <= 2^nbits - 1, length x - 1 + depth
				maxLen := min(16, 1<<uint(nbits)-2+depth)
				var lens []int
				single := -1
				for try := 0; ; try++ {
					lens, single = RandomLens(r, need, maxLen, r.Intn(3))
					ok := true
					for _, l := range lens {
						if l > 0 && l < depth {
							ok = false
						}
					}
					if ok {
						break
					}
					if try > 20 {
						depth = 1
						maxLen = min(16, 1<<uint(nbits)-2+depth)
					}
				}
				if lens == nil {
					bound = single + 1
					w.Put(5, bound)
					w.Put(3, 0)
				} else {
					w.Put(5, bound)
					w.Put(3, depth)
					w.Put(3, nbits)
					for _, l := range lens {
						if l == 0 {
							w.Put(nbits, 0)
						} else {
							w.Put(nbits, l-depth+1)
						}
					}
				}
				t1 = newTable(lens, single)
			}
			if new1 || next <= 4096 {
				if bound >= 10 && !(bound == 29 && t1.lens == nil) {
					n2 := 8
					switch next {
					case 0:
						n2 = 5
					case 1024:
						n2 = 6
					case 2048:
						n2 = 7
					}
					need := make([]bool, n2)
					for i := range need {
						need[i] = r.Intn(2) == 0
					}
					switch {
					case r.Intn(6) == 0: // the old one stays; at first it has one code for the nearest places
						for i := 0; i < n2; i++ {
							w.Put(3, 0)
						}
					default:
						lens, single := RandomLens(r, need, 7, r.Intn(3))
						t2 = newTable(lens, single)
						for i := 0; i < n2; i++ {
							switch {
							case lens == nil && i == single:
								w.Put(3, 1+r.Intn(7))
							case lens == nil:
								w.Put(3, 0)
							default:
								w.Put(3, lens[i])
							}
						}
					}
				}
			}
			switch next {
			case 0:
				next = 1024
			case 1024:
				next = 2048
			case 2048:
				next = 4096
			default:
				next += 4096
			}
			continue
		}
		// a code from those there are
		var s int
		for try := 0; ; try++ {
			if t1.lens == nil {
				s = t1.single
			} else {
				s = r.Intn(len(t1.lens))
				if t1.lens[s] == 0 {
					continue
				}
			}
			if s >= 8 && r.Intn(10) < minLit && try < 50 {
				continue
			}
			break
		}
		t1.put(w, s)
		if s < 8 {
			i := r.Intn(1 << uint(histBits[s]))
			w.Put(histBits[s], i)
			wrote(h[histBase[s]+i])
			continue
		}
		l, x := s-6, 0
		if s >= 23 {
			x = r.Intn(1 << uint(repBits[s-23]))
			l = repBase[s-23] + x
			w.Put(repBits[s-23], x)
		}
		off := 1
		switch {
		case s == 28:
		case s == 8:
			v := r.Intn(64)
			w.Put(6, v)
			off = v + 1
		default:
			var d int
			if t2.lens == nil {
				d = t2.single
			} else {
				for {
					d = r.Intn(len(t2.lens))
					if t2.lens[d] > 0 {
						break
					}
				}
			}
			t2.put(w, d)
			if d == 0 {
				v := r.Intn(64)
				w.Put(6, v)
				off = v + 1
			} else {
				v := r.Intn(1 << uint(5+d))
				w.Put(5+d, v)
				off = 1<<uint(5+d) + v + 1
			}
		}
		for k := 0; k < l; k++ {
			if i := len(out) - off; i < 0 {
				wrote(32)
			} else {
				wrote(out[i])
			}
		}
	}
	return w.Done(), out
}
