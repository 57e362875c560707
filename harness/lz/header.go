package lz

import "fmt"

// An Ext is an extension header.
type Ext struct {
	Type byte
	Data []byte
}

// A Member is the raw material of one member of an archive.
type Member struct {
	Level   int
	Method  string // "lh5"
	Name    []byte // level 0 and 1: in the base header
	Packed  []byte
	Size    int
	Stamp   uint32 // MS-DOS time (levels 0, 1) or UNIX time (2, 3)
	Attr    byte
	Crc     int
	OS      byte
	NoCrc   bool   // level 0 without checksum
	Extra   []byte // level 0: what follows the checksum; level 1: after the OS
	Exts    []Ext  // levels 1 to 3; the data of type 0 begin with the header CRC
	Pad     bool   // level 2: one byte of padding
	PackedN int    // announce another packed size, if not 0
}

func le(n int, v int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

func (m *Member) packedSize() int {
	if m.PackedN != 0 {
		return m.PackedN
	}
	return len(m.Packed)
}

// Header gives the bytes of the header.
func (m *Member) Header() []byte {
	var h []byte
	method := []byte("-" + m.Method + "-")
	common := func(packed int) {
		h = append(h, method...)
		h = append(h, le(4, packed)...)
		h = append(h, le(4, m.Size)...)
		h = append(h, le(4, int(m.Stamp))...)
		h = append(h, m.Attr, byte(m.Level))
	}
	w := 2
	if m.Level == 3 {
		w = 4
	}
	crcAt := -1
	exts := func(base int) []byte { // the chain, with its final 0; base: where it will lie
		var e []byte
		for _, x := range m.Exts {
			e = append(e, le(w, len(x.Data)+1+w)...)
			e = append(e, x.Type)
			if x.Type == 0 && len(x.Data) >= 2 {
				crcAt = base + len(e)
			}
			e = append(e, x.Data...)
		}
		return append(e, le(w, 0)...)
	}
	switch m.Level {
	case 0:
		h = append(h, 0, 0)
		common(m.packedSize())
		h = append(h, byte(len(m.Name)))
		h = append(h, m.Name...)
		if !m.NoCrc {
			h = append(h, le(2, m.Crc)...)
			h = append(h, m.Extra...)
		}
		h[0] = byte(len(h) - 2)
		h[1] = sum(h[2:])
	case 1:
		h = append(h, 0, 0)
		e := exts(0)
		common(m.packedSize() + len(e) - 2)
		h = append(h, byte(len(m.Name)))
		h = append(h, m.Name...)
		h = append(h, le(2, m.Crc)...)
		h = append(h, m.OS)
		h = append(h, m.Extra...)
		h = append(h, e[:2]...)
		h[0] = byte(len(h) - 2)
		h[1] = sum(h[2:])
		h = append(h, e[2:]...)
	case 2:
		h = append(h, 0, 0)
		common(m.packedSize())
		h = append(h, le(2, m.Crc)...)
		h = append(h, m.OS)
		h = append(h, exts(len(h))...)
		if m.Pad {
			h = append(h, 0)
		}
		copy(h, le(2, len(h)))
	case 3:
		h = append(h, 4, 0)
		common(m.packedSize())
		h = append(h, le(2, m.Crc)...)
		h = append(h, m.OS)
		h = append(h, 0, 0, 0, 0)
		h = append(h, exts(len(h))...)
		copy(h[24:], le(4, len(h)))
	}
	if m.Level >= 2 && crcAt >= 0 {
		h[crcAt], h[crcAt+1] = 0, 0
		copy(h[crcAt:], le(2, Crc(h)))
	}
	return h
}

func sum(b []byte) (s byte) {
	for _, x := range b {
		s += x
	}
	return
}

func (m *Member) Bytes() []byte { return append(m.Header(), m.Packed...) }

// Simple is a well-formed member with a level 2 header.
func Simple(level int, method, name string, packed, content []byte) *Member {
	m := &Member{Level: level, Method: method, Packed: packed, Size: len(content), Attr: 0x20, Crc: Crc(content), OS: 'U'}
	if level <= 1 {
		m.Name = []byte(name)
		m.Stamp = 30<<25 | 1<<21 | 1<<16
	} else {
		m.Stamp = 1000000000
		m.Exts = []Ext{{0, []byte{0, 0}}, {1, []byte(name)}}
		if h := m.Header(); h[0] == 0 {
			m.Pad = true
		}
	}
	return m
}

// A Found is a member found in an archive.
type Found struct {
	Method   string
	Level    int
	Size     int
	Crc      int
	Name     []byte
	Header   []byte
	Packed   []byte
	Off, End int
}

func num(b []byte) (v int) {
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | int(b[i])
	}
	return
}

// Members takes apart an archive with level 0 to 2 headers.
func Members(b []byte) (ms []Found, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("archive: %v", e)
		}
	}()
	p := 0
	for p < len(b) && b[p] != 0 {
		var f Found
		h := b[p:]
		f.Off = p
		f.Level = int(h[20])
		f.Method = string(h[3:6])
		f.Size = num(h[11:15])
		packed := num(h[7:11])
		hs := 0
		walk := func(at int) int { // returns the end of the extension headers
			n := num(h[at : at+2])
			at += 2
			for n != 0 {
				if h[at] == 1 {
					f.Name = h[at+1 : at+n-2]
				}
				at += n
				n = num(h[at-2 : at])
			}
			return at
		}
		switch f.Level {
		case 0:
			hs = int(h[0]) + 2
			nl := int(h[21])
			f.Name = h[22 : 22+nl]
			if 24+nl <= hs {
				f.Crc = num(h[22+nl : 24+nl])
			} else {
				f.Crc = -1
			}
		case 1:
			base := int(h[0]) + 2
			nl := int(h[21])
			f.Name = h[22 : 22+nl]
			f.Crc = num(h[22+nl : 24+nl])
			hs = walk(base - 2)
			packed -= hs - base
		case 2:
			hs = num(h[0:2])
			f.Crc = num(h[21:23])
			walk(24)
		default:
			return ms, fmt.Errorf("archive: level %d", f.Level)
		}
		f.Header = h[:hs]
		f.Packed = h[hs : hs+packed]
		p += hs + packed
		f.End = p
		ms = append(ms, f)
	}
	return ms, nil
}
