package tssc

// Reference model of the TSSC wire format, written from the format (not from the decoder): it produces the bytes of a
// stream and, alongside, the measurements those bytes stand for.

type vhPoint struct {
	nextID       int32
	flags1       uint32
	flags2       uint32
	v1, v2, v3   uint32
	stats        [32]int
	sent         int
	mode         int
	m21          int
	m31, m301    int
	m41, m401    int
	m4001        int
	startup      int
	known        bool
	id           int32
}

type vhEnc struct {
	buf      []byte
	bitPos   int // index of the byte currently receiving bits
	bitCount int // bits used in it, 0 = none open
	ts1, ts2 int64
	d        [4]int64
	last     *vhPoint
	points   []*vhPoint
}

const vhMaxI64 = int64(^uint64(0) >> 1)

func vhNewPoint() *vhPoint {
	return &vhPoint{mode: 4, m41: 20, m401: 21, m4001: 22}
}

func vhNewEnc() *vhEnc {
	return &vhEnc{d: [4]int64{vhMaxI64, vhMaxI64, vhMaxI64, vhMaxI64}, last: vhNewPoint()}
}

func (e *vhEnc) begin() {
	e.buf = nil
	e.bitCount = 0
}

func (e *vhEnc) bit(b byte) {
	if e.bitCount == 0 {
		e.bitPos = len(e.buf)
		e.buf = append(e.buf, 0)
	}
	e.buf[e.bitPos] |= (b & 1) << uint(7-e.bitCount)
	e.bitCount++
	if e.bitCount == 8 {
		e.bitCount = 0
	}
}

func (e *vhEnc) bits(v uint32, n int) {
	for i := n - 1; i >= 0; i-- {
		e.bit(byte(v >> uint(i)))
	}
}

func (e *vhEnc) raw(b uint32) { e.buf = append(e.buf, byte(b)) }

func (e *vhEnc) code(c int) {
	p := e.last
	switch p.mode {
	case 1:
		e.bits(uint32(c), 5)
	case 2:
		if c == p.m21 {
			e.bits(1, 1)
		} else {
			e.bits(uint32(c), 6)
		}
	case 3:
		if c == p.m31 {
			e.bits(1, 1)
		} else if c == p.m301 {
			e.bits(1, 2)
		} else {
			e.bits(uint32(c), 7)
		}
	default:
		if c == p.m41 {
			e.bits(1, 1)
		} else if c == p.m401 {
			e.bits(1, 2)
		} else if c == p.m4001 {
			e.bits(1, 3)
		} else {
			e.bits(uint32(c), 8)
		}
	}
	p.count(c)
}

// count updates the code statistics; the code book adapts after 6, then 21, then every 101 codes.
func (p *vhPoint) count(c int) {
	p.sent++
	p.stats[c]++
	if p.startup == 0 && p.sent == 6 {
		p.startup = 1
		p.adapt()
	} else if p.startup == 1 && p.sent == 21 {
		p.startup = 2
		p.adapt()
	} else if p.startup == 2 && p.sent == 101 {
		p.adapt()
	}
}

// adapt picks the three most frequent codes (earliest code first among equals) and the cheapest prefix scheme.
func (p *vhPoint) adapt() {
	c := [3]int{0, 1, 2}
	n := [3]int{}
	total := 0
	for i := 0; i < 32; i++ {
		k := p.stats[i]
		p.stats[i] = 0
		total += k
		if k > n[0] {
			c[2], n[2] = c[1], n[1]
			c[1], n[1] = c[0], n[0]
			c[0], n[0] = i, k
		} else if k > n[1] {
			c[2], n[2] = c[1], n[1]
			c[1], n[1] = i, k
		} else if k > n[2] {
			c[2], n[2] = i, k
		}
	}
	s1 := total * 5
	s2 := n[0] + (total-n[0])*6
	s3 := n[0] + n[1]*2 + (total-n[0]-n[1])*7
	s4 := n[0] + n[1]*2 + n[2]*3 + (total-n[0]-n[1]-n[2])*8
	best := s1
	p.mode = 1
	if s2 < best {
		best, p.mode = s2, 2
	}
	if s3 < best {
		best, p.mode = s3, 3
	}
	if s4 < best {
		best, p.mode = s4, 4
	}
	switch p.mode {
	case 2:
		p.m21 = c[0]
	case 3:
		p.m31, p.m301 = c[0], c[1]
	case 4:
		p.m41, p.m401, p.m4001 = c[0], c[1], c[2]
	}
	p.sent = 0
}

func (e *vhEnc) xorBytes(v uint32, width int) {
	if width%8 == 4 {
		e.bits(v&15, 4)
		v >>= 4
		width -= 4
	}
	for ; width > 0; width -= 8 {
		e.raw(v & 0xff)
		v >>= 8
	}
}

func (e *vhEnc) seven(v uint64, n, max int) {
	for i := 0; i < n; i++ {
		switch {
		case i == n-1 && n == max:
			e.raw(uint32(v) & 0xff)
		case i == n-1:
			e.raw(uint32(v) & 0x7f)
		default:
			e.raw(uint32(v)&0x7f | 0x80)
		}
		v >>= 7
	}
}

type vhMeas struct {
	id    int32
	ts    int64
	flags uint32
	value uint32
}

var vhIDWidths = [8]int{0, 4, 8, 12, 16, 20, 24, 32}
var vhValWidths = [8]int{4, 8, 12, 16, 20, 24, 28, 32}

func (e *vhEnc) find(id int32, sameAs int) *vhPoint {
	if sameAs >= 0 && sameAs < len(e.points) {
		vndAssume(e.points[sameAs].id == id)
		return e.points[sameAs]
	}
	for _, p := range e.points {
		vndAssume(p.id != id)
	}
	p := vhNewPoint()
	p.id = id
	p.nextID = id + 1
	e.points = append(e.points, p)
	return p
}

// add appends one measurement to the stream.
// cID: 0 = predicted id, 1..7 = PointIDXor code; cTS: 0 = unchanged, 8..16 code, 17+n = 7-bit with n+1 bytes;
// cFL: 0 = unchanged, 18 = previous-but-one, 19+n = 7-bit with n+1 bytes; cV: 20..31.
func (e *vhEnc) add(cID, sameAs, cTS, cFL, cV int) vhMeas {
	last := e.last
	if cID > 0 {
		w := vhIDWidths[cID]
		x := vndU32("idbits")
		if w < 32 {
			x &= 1<<uint(w) - 1
		}
		e.code(cID)
		e.xorBytes(x, w)
		last.nextID ^= int32(x)
	}
	var m vhMeas
	m.id = last.nextID
	p := e.find(m.id, sameAs)
	if cTS > 0 {
		var t int64
		c := cTS
		switch {
		case c >= 8 && c <= 11:
			t = e.ts1 + e.d[c-8]
		case c >= 12 && c <= 15:
			t = e.ts1 - e.d[c-12]
		case c == 16:
			t = e.ts2
		default:
			n := c - 17 + 1
			c = 17
			x := vndU64("tsbits")
			if n < 9 {
				x &= 1<<uint(7*n) - 1
			}
			e.code(c)
			e.seven(x, n, 9)
			t = e.ts1 ^ int64(x)
		}
		if c < 17 {
			e.code(c)
		}
		dl := e.ts1 - t
		if dl < 0 {
			dl = -dl
		}
		if dl < e.d[3] && dl != e.d[0] && dl != e.d[1] && dl != e.d[2] {
			k := -1
			if dl < e.d[0] {
				k = 0
			} else if dl < e.d[1] {
				k = 1
			} else if dl < e.d[2] {
				k = 2
			} else if dl < e.d[3] {
				k = 3
			}
			if k >= 0 {
				nd := e.d
				for i := 3; i > k; i-- {
					nd[i] = e.d[i-1]
				}
				nd[k] = dl
				e.d = nd
			}
		}
		e.ts2 = e.ts1
		e.ts1 = t
	}
	m.ts = e.ts1
	if cFL > 0 {
		var f uint32
		if cFL == 18 {
			e.code(18)
			f = p.flags2
		} else {
			n := cFL - 19 + 1
			f = vndU32("flbits")
			if n < 5 {
				f &= 1<<uint(7*n) - 1
			}
			e.code(19)
			e.seven(uint64(f), n, 5)
		}
		p.flags2 = p.flags1
		p.flags1 = f
	}
	m.flags = p.flags1
	e.code(cV)
	var v uint32
	switch {
	case cV == 20:
		v = p.v1
	case cV == 21:
		v = p.v2
		p.v2, p.v1 = p.v1, v
	default:
		if cV == 22 {
			v = p.v3
		} else if cV == 23 {
			v = 0
		} else {
			w := vhValWidths[cV-24]
			x := vndU32("valbits")
			if w < 32 {
				x &= 1<<uint(w) - 1
			}
			e.xorBytes(x, w)
			v = p.v1 ^ x
		}
		p.v3, p.v2, p.v1 = p.v2, p.v1, v
	}
	m.value = v
	e.last = p
	return m
}

func (e *vhEnc) finish() []byte {
	if e.bitCount > 0 {
		e.code(0)
	}
	e.bitCount = 0
	return e.buf
}
