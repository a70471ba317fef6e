package format

// vhNumber: any number of n decimal digits, most significant first.
func vhNumber(n, topmax, nextmax int) (uint64, []uint64) {
	d := make([]uint64, n)
	var v uint64
	for i := range d {
		lo, hi := 0, 9
		if i == 0 {
			hi = topmax
			if n > 1 {
				lo = 1
			}
		}
		if i == 1 {
			hi = nextmax
		}
		d[i] = uint64(vndInt("d"+string(rune('0'+lo))+string(rune('0'+hi)), lo, hi))
	}
	k := uint64(1)
	for i := n - 1; i >= 0; i-- {
		v += d[i] * k
		k *= 10
	}
	return v, d
}

// vhExpect compares s with the digits grouped in threes by sep.
func vhExpect(s string, d []uint64, sep byte, neg bool) bool {
	n := len(d)
	want := n + (n-1)/3
	p := 0
	if neg {
		want++
		p = 1
		if len(s) == 0 || s[0] != '-' {
			return false
		}
	}
	if len(s) != want {
		return false
	}
	ok := true
	for i := 0; i < n; i++ {
		if i > 0 && (n-i)%3 == 0 {
			ok = ok && s[p] == sep
			p++
		}
		ok = ok && s[p] == byte('0'+d[i])
		p++
	}
	return ok
}

// Every signed integer of up to 19 digits below 9.2e18 in magnitude, with any group symbol: the text is the
// decimal digits, separated exactly at every third digit, signed when negative.
//verif:unwind=64 parts=4
func VH_S16_ints() {
	vndExact(1)
	n := vndChoose("n", 20) + 1
	vndAssume(n%4 == vndPart())
	top, next := 9, 9
	if n == 19 {
		top = 8
	}
	if n == 20 {
		n, next = 19, 1
	}
	v, d := vhNumber(n, top, next)
	neg := vndChoose("neg", 2) == 1
	i := int64(v)
	if neg {
		vndAssume(v != 0)
		i = -i
	}
	sep := vndU8("sep")
	s := Int64With(i, sep)
	vndAssert(vhExpect(s, d, sep, neg), "signed integer is grouped in threes")
	vndAssert(IntWith(int(i), sep) == s, "signed forms agree")
	vndAssert(vhExpect(Int64(i), d, ',', neg) && vhExpect(Int(int(i)), d, ',', neg), "signed integer is grouped by commas")
	vndReach("int64")
}

// The same for unsigned integers below 1.8e19.
//verif:unwind=64 parts=4
func VH_S16_uints() {
	vndExact(1)
	n := vndChoose("n", 20) + 1
	vndAssume(n%4 == vndPart())
	top, next := 9, 9
	if n == 20 {
		top, next = 1, 7
	}
	v, d := vhNumber(n, top, next)
	sep := vndU8("sep")
	s := UInt64With(v, sep)
	vndAssert(vhExpect(s, d, sep, false), "unsigned integer is grouped in threes")
	vndAssert(UIntWith(uint(v), sep) == s, "unsigned forms agree")
	vndAssert(vhExpect(UInt64(v), d, ',', false) && vhExpect(UInt(uint(v)), d, ',', false), "unsigned integer is grouped by commas")
	vndReach("uint64")
}

// The ends of the ranges.
//verif:unwind=64
func VH_S16_ends() {
	vndExact(1)
	vndAssert(Int64(-9223372036854775808) == "-9,223,372,036,854,775,808", "smallest signed integer")
	vndAssert(Int64(9223372036854775807) == "9,223,372,036,854,775,807", "largest signed integer")
	vndAssert(Int(-9223372036854775808) == "-9,223,372,036,854,775,808", "smallest int")
	vndAssert(UInt64(18446744073709551615) == "18,446,744,073,709,551,615", "largest unsigned integer")
	vndReach("ends")
}
