package guid

func vhGuid(name string) Guid {
	var g Guid
	copy(g[:], vndBytes(name, 16))
	return g
}

// Swapped layout written out byte by byte: the first three fields (4, 2 and 2 bytes) are reversed.
var vhSwap = [16]int{3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}

// Wire form of any Guid, RFC or swapped, has the documented layout, reads back as the same Guid,
// and neither direction disturbs its input.
//verif:unwind=64
func VH_S12_wire() {
	g := vhGuid("g")
	keep := g
	swap := vndBool("swap")
	b := g.ToBytes(swap)
	vndAssert(g == keep, "writing a Guid leaves it unchanged")
	vndAssert(len(b) == 16, "wire form is 16 bytes")
	for i := 0; i < 16; i++ {
		if swap {
			vndAssert(b[i] == g[vhSwap[i]], "swapped wire layout")
		} else {
			vndAssert(b[i] == g[i], "RFC wire layout")
		}
	}
	r, err := FromBytes(b, swap)
	vndAssert(err == nil && r == g, "wire form reads back as the same Guid")
	vndReach("round trip")
}

// Reading from any buffer of up to 40 bytes: short buffers are an error, longer ones use exactly the
// first 16 bytes, and the buffer is never modified or aliased.
//verif:unwind=64
func VH_S12_read() {
	n := vndChoose("n", 41)
	data := vndBytes("data", n)
	keep := make([]byte, n)
	copy(keep, data)
	swap := vndBool("swap")
	g, err := FromBytes(data, swap)
	if n < 16 {
		vndAssert(err != nil && g == Guid{}, "a short buffer is an error")
		vndReach("short")
	} else {
		vndAssert(err == nil, "16 bytes are enough")
		for i := 0; i < 16; i++ {
			if swap {
				vndAssert(g[i] == keep[vhSwap[i]], "swapped read layout")
			} else {
				vndAssert(g[i] == keep[i], "RFC read layout")
			}
		}
	}
	for i := 0; i < n; i++ {
		vndAssert(data[i] == keep[i], "source buffer is not modified")
	}
	if n >= 16 {
		snap := g
		for i := 0; i < n; i++ {
			data[i] ^= 0xFF
		}
		vndAssert(g == snap, "Guid does not alias the buffer")
		vndReach("read")
	}
}

// Comparison is a total order on all pairs that matches the order of the text form, and Equal agrees with it.
//verif:unwind=64
func VH_S12_order() {
	a, b := vhGuid("a"), vhGuid("b")
	c := Compare(a, b)
	want := 0
	for i := 15; i >= 0; i-- {
		if a[i] < b[i] {
			want = -1
		} else if a[i] > b[i] {
			want = 1
		}
	}
	vndAssert(c == want, "Compare orders as the text form does")
	vndAssert(a.Compare(b) == want, "method Compare agrees")
	vndAssert(Compare(b, a) == -want, "Compare is antisymmetric")
	vndAssert(Equal(a, b) == (want == 0), "Equal agrees with Compare")
	vndAssert(a.Equal(b) == (want == 0), "method Equal agrees with Compare")
	vndAssert(a.IsZero() == (a == Guid{}), "IsZero is exactly the zero value")
	p, q, r, d := a.Components()
	vndAssert(byte(p>>24) == a[0] && byte(p>>16) == a[1] && byte(p>>8) == a[2] && byte(p) == a[3], "first component")
	vndAssert(byte(q>>8) == a[4] && byte(q) == a[5] && byte(r>>8) == a[6] && byte(r) == a[7], "middle components")
	for i := 0; i < 8; i++ {
		vndAssert(d[i] == a[8+i], "last component")
	}
	vndReach("order")
}

// Text form: fixed layout for every Guid and parsing gives the Guid back; upper case and bare forms too.
//verif:unwind=80
func VH_S12_text() {
	g := vhGuid("g")
	s := g.String()
	vndAssert(len(s) == 38 && s[0] == '{' && s[37] == '}', "text form is braced")
	const dig = "0123456789abcdef"
	pos := 1
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			vndAssert(s[pos] == '-', "text form has dashes")
			pos++
		}
		vndAssert(s[pos] == dig[g[i]>>4] && s[pos+1] == dig[g[i]&15], "text form digits")
		pos += 2
	}
	p, err := Parse(s)
	vndAssert(err == nil && p == g, "text form parses back")
	vndReach("text")
	form := vndChoose("form", 3)
	t := []byte(s)
	if form == 1 {
		t = t[1:37]
	}
	if form == 2 {
		for i := range t {
			if t[i] >= 'a' && t[i] <= 'f' {
				t[i] -= 32
			}
		}
	}
	p2, err2 := Parse(string(t))
	vndAssert(err2 == nil && p2 == g, "bare and upper-case text parses back")
}
