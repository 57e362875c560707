// Package lz writes LHA data of every kind, from tokens and tables chosen by
// the caller.  It shares nothing with the implementation under test; what it
// writes is judged by the TLA+ specification before anything is concluded.
package lz

var crcTab = func() (t [256]uint16) {
	for i := range t {
		r := uint16(i)
		for k := 0; k < 8; k++ {
			if r&1 != 0 {
				r = r>>1 ^ 0xA001
			} else {
				r >>= 1
			}
		}
		t[i] = r
	}
	return
}()

func Crc(b []byte) int { return int(CrcUpdate(0, b)) }

func CrcUpdate(c uint16, b []byte) uint16 {
	for _, x := range b {
		c = c>>8 ^ crcTab[byte(c)^x]
	}
	return c
}

// Bits collects bits, most significant first.
type Bits struct {
	B   []byte
	cur uint
	n   uint
}

func (w *Bits) Put(n int, v int) {
	for i := n - 1; i >= 0; i-- {
		w.cur = w.cur<<1 | uint(v>>uint(i)&1)
		w.n++
		if w.n == 8 {
			w.B = append(w.B, byte(w.cur))
			w.cur, w.n = 0, 0
		}
	}
}

func (w *Bits) Done() []byte {
	for w.n != 0 {
		w.Put(1, 0)
	}
	return w.B
}

// A Token is a literal (Len 0) or a match of Len bytes from Off bytes back.
type Token struct {
	Lit      byte
	Len, Off int
}

// Expand gives the content tokens stand for; before says what lies before it.
func Expand(ts []Token, before func(i int) byte) []byte {
	var out []byte
	for _, t := range ts {
		if t.Len == 0 {
			out = append(out, t.Lit)
			continue
		}
		for k := 0; k < t.Len; k++ {
			i := len(out) - t.Off
			if i < 0 {
				out = append(out, before(i))
			} else {
				out = append(out, out[i])
			}
		}
	}
	return out
}

func Spaces(int) byte { return 32 }
