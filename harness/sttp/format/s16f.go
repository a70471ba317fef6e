package format

import "math"

// Text the standard library produces for the number vhFloat with vhPrec digits after the point.
var (
	vhFloat     float64
	vhFloatText string
	vhPrec      int
)

// vrt_strconv_FormatFloat stands for the standard library when the number is one chosen from its digits.
func vrt_strconv_FormatFloat(f float64, fmt byte, prec, bitSize int) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	if math.IsInf(f, 1) {
		return "+Inf"
	}
	if math.IsInf(f, -1) {
		return "-Inf"
	}
	if fmt != 'f' || prec != vhPrec || bitSize != 64 || math.Float64bits(f) != math.Float64bits(vhFloat) {
		return "0"
	}
	return vhFloatText
}

// vhAssumeDigits restricts f to the numbers of n digits before the point.
func vhAssumeDigits(f float64, n int, zero bool) {
	hi := 1.0
	for i := 0; i < n; i++ {
		hi *= 10
	}
	lo := hi / 10
	if n == 1 {
		lo = 0
	}
	vndAssume(f >= lo && f < hi && !math.Signbit(f) && (f == 0) == zero)
}

// Every floating-point number made of an integer of up to 13 digits and a number of eighths, positive, negative or zero of
// either sign, with any digits after the point that show it exactly: the text is its decimal digits, the integer part
// grouped in threes, with the decimal symbol asked for.
//verif:unwind=64 parts=4
func VH_S16_floats() {
	vndExact(1)
	n := vndChoose("n", 13) + 1
	vndAssume(n%4 == vndPart())
	v, d := vhNumber(n, 9, 9)
	k := vndChoose("eighths", 8)
	vhPrec = []int{0, 3, 5}[vndChoose("prec", 3)]
	vndAssume(vhPrec > 0 || k == 0)
	frac := ""
	if vhPrec > 0 {
		frac = []string{"000", "125", "250", "375", "500", "625", "750", "875"}[k] + "00"[:vhPrec-3]
	}
	f := vndF64("f")
	if vndNative() {
		f = float64(int64(v)) + float64(k)/8
	} else {
		vhAssumeDigits(f, n, v == 0 && k == 0)
	}
	neg := vndChoose("neg", 2) == 1
	text := make([]byte, 0, 24)
	if neg {
		f = -f
		text = append(text, '-')
	}
	for _, x := range d {
		text = append(text, byte('0'+x))
	}
	vhFloat, vhFloatText = f, string(text)
	if len(frac) > 0 {
		vhFloatText += "." + frac
	}
	dec := []byte{'.', ',', '_'}[vndChoose("dec", 3)]
	sep := vndU8("sep")
	s := FloatWith(f, vhPrec, dec, sep)
	if len(frac) > 0 {
		e := len(s) - len(frac)
		vndAssert(e > 1 && s[e:] == frac && s[e-1] == dec, "fraction follows the decimal symbol")
		s = s[:e-1]
	}
	vndAssert(vhExpect(s, d, sep, neg), "integer part is grouped in threes")
	if dec == '.' && sep == ',' {
		vndAssert(Float(f, vhPrec) == FloatWith(f, vhPrec, '.', ','), "default symbols are the period and the comma")
	}
	vndReach("float64")
}

// What is not a number, and the infinities, have no digits to separate.
func VH_S16_special() {
	sep := vndU8("sep")
	prec := vndInt("prec", 0, 20)
	vndAssert(FloatWith(math.NaN(), prec, '.', sep) == "NaN", "not a number")
	vndAssert(FloatWith(math.Inf(1), prec, '.', sep) == "+Inf", "positive infinity")
	vndAssert(FloatWith(math.Inf(-1), prec, '.', sep) == "-Inf", "negative infinity")
	vndReach("special")
}
