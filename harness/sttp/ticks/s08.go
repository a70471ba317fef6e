package ticks

import "time"

const vhMax = 3155378975999999999

// Every tick of the documented range, with any leap second flags, converts to exactly the instant it
// names, and back to the same 62-bit value.
//verif:unwind=64
func VH_S08_totime() {
	s, f := uint64(vndInt("s", 0, vhMax/10000000)), uint64(vndInt("f", 0, 9999999))
	v := s*10000000 + f
	fl := vndU64("flags") & (3 << 62)
	t := Ticks(v | fl)
	vndAssert(t.TimestampValue() == int64(v), "timestamp portion excludes the flags")
	g := t.ToTime()
	// 62135596800 s between 0001-01-01 and 1970-01-01
	vndAssert(g.Unix() == int64(s)-62135596800, "seconds of the instant")
	vndAssert(int64(g.Nanosecond()) == int64(f)*100, "fraction of the instant")
	vndAssert(g.Location() == time.UTC, "conversion is to UTC")
	g2 := ToTime(t)
	vndAssert(g2.Unix() == g.Unix() && g2.Nanosecond() == g.Nanosecond(), "both conversions agree")
	vndAssert(FromTime(g) == Ticks(v), "conversion back gives the same ticks")
	vndReach("totime")
}

// Any Go time in years 1 to 9999, in any zone, becomes the tick that contains it.
//verif:unwind=64
func VH_S08_fromtime() {
	sec := int64(vndInt("sec", 0, 315537897599)) - 62135596800
	tick, rest := int64(vndInt("tick", 0, 9999999)), int64(vndInt("rest", 0, 99))
	ns := tick*100 + rest
	g := time.Unix(sec, ns).UTC()
	t := FromTime(g)
	vndAssert(uint64(t) == uint64(sec+62135596800)*10000000+uint64(tick), "tick containing the instant")
	vndReach("fromtime")
}

// Unix nanosecond conversions over the range they can represent (1970 to 2554 in, 1970 to 2554 out).
//verif:unwind=64
func VH_S08_unixnano() {
	n, rest := uint64(vndInt("n", 0, 184467440737095515)), uint64(vndInt("rest", 0, 99))
	t := FromUnixNano(n*100 + rest)
	vndAssert(uint64(t) == n+621355968000000000, "ticks from Unix nanoseconds")
	v := uint64(vndInt("v", 621355968000000000, 621355968000000000+184467440737095515))
	fl := vndU64("flags") & (3 << 62)
	vndAssert(Ticks(v|fl).ToUnixNano() == (v-621355968000000000)*100, "Unix nanoseconds from ticks")
	vndReach("unixnano")
}

// Leap second flags: setting and testing them, in every form offered, touches only the flag bits.
//verif:unwind=64
func VH_S08_leap() {
	x := vndU64("x")
	t := Ticks(x)
	const leap, dir = uint64(1) << 63, uint64(1) << 62
	vndAssert(IsLeapSecond(t) == (x&leap != 0), "leap second flag")
	vndAssert(t.IsLeapSecond() == (x&leap != 0), "leap second flag (method)")
	vndAssert(IsNegativeLeapSecond(t) == (x&leap != 0 && x&dir != 0), "negative leap second flag")
	vndAssert(t.IsNegativeLeapSecond() == (x&leap != 0 && x&dir != 0), "negative leap second flag (method)")
	vndAssert(uint64(SetLeapSecond(t)) == x|leap, "set leap second")
	vndAssert(uint64(SetNegativeLeapSecond(t)) == x|leap|dir, "set negative leap second")
	a := t
	a.ApplyLeapSecond()
	vndAssert(uint64(a) == x|leap, "apply leap second")
	a = t
	a.ApplyNegativeLeapSecond()
	vndAssert(uint64(a) == x|leap|dir, "apply negative leap second")
	a = t
	a.SetLeapSecond()
	vndAssert(uint64(a) == x|leap, "set leap second (method)")
	a = t
	a.SetLeapSecondDirection(true)
	vndAssert(uint64(a) == x|dir, "set direction")
	a.SetLeapSecondDirection(false)
	vndAssert(uint64(a) == x&^dir, "clear direction")
	vndReach("leap")
}
