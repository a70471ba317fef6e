package data

import "math"

// vhNum is the value an expression should have, of the kinds of vhVal; 'N' for none.
type vhNumFunc struct {
	text, kinds, nulls string
	want               func(r *vhRow) *vhVal
}

func vhI(i int32, null bool) *vhVal   { return &vhVal{kind: 'I', i: i, null: null} }
func vhL(l int64, null bool) *vhVal   { return &vhVal{kind: 'L', l: l, null: null} }
func vhD(d float64, null bool) *vhVal { return &vhVal{kind: 'D', d: d, null: null} }
func vhBo(b bool, null bool) *vhVal   { return &vhVal{kind: 'B', b: b, null: null} }

func vhAbs(l int64) int64 {
	if l < 0 {
		return -l
	}
	return l
}

func vhMax(x, y int64) int64 {
	if x > y {
		return x
	}
	return y
}

func vhMin(x, y int64) int64 {
	if x < y {
		return x
	}
	return y
}

var vhNumFuncs = []vhNumFunc{
	{"Abs(A)", "A", "A", func(r *vhRow) *vhVal { return vhI(int32(vhAbs(int64(r.a))), r.na) }},
	{"ABS(B)", "B", "B", func(r *vhRow) *vhVal { return vhL(vhAbs(r.b), r.nb) }},
	{"Abs(D)", "D", "D", func(r *vhRow) *vhVal { return vhD(math.Abs(r.d), r.nd) }},
	{"Ceiling(A)", "A", "A", func(r *vhRow) *vhVal { return vhI(r.a, r.na) }},
	{"Floor(B)", "B", "B", func(r *vhRow) *vhVal { return vhL(r.b, r.nb) }},
	{"Round(B)", "B", "", func(r *vhRow) *vhVal { return vhL(r.b, r.nb) }},
	{"Sqrt(D)", "D", "D", func(r *vhRow) *vhVal { return vhD(math.Sqrt(r.d), r.nd) }},
	{"IIf(T, A, 7)", "AT", "AT", func(r *vhRow) *vhVal {
		if !r.nt && r.t {
			return vhI(r.a, r.na)
		}
		return vhI(7, false)
	}},
	{"IIf(A > 5, B, A)", "AB", "A", func(r *vhRow) *vhVal {
		if !r.na && r.a > 5 {
			return vhL(r.b, false)
		}
		return vhI(r.a, r.na)
	}},
	{"IIf(A = 0, 0, 100 / A) = 10", "A", "", func(r *vhRow) *vhVal { return vhBo(r.a != 0 && 100/vhOr1(r.a) == 10, false) }},
	{"Coalesce(A, B)", "AB", "AB", func(r *vhRow) *vhVal {
		if !r.na {
			return vhI(r.a, false)
		}
		return vhL(r.b, r.nb)
	}},
	{"Coalesce(A, B, 7)", "AB", "AB", func(r *vhRow) *vhVal {
		if !r.na {
			return vhI(r.a, false)
		}
		if !r.nb {
			return vhL(r.b, false)
		}
		return vhI(7, false)
	}},
	{"IsNull(A, 7)", "A", "A", func(r *vhRow) *vhVal {
		if r.na {
			return vhI(7, false)
		}
		return vhI(r.a, false)
	}},
	{"MaxOf(A, 3, B)", "AB", "", func(r *vhRow) *vhVal { return vhMost(r, true) }},
	{"MinOf(A, 3, B)", "AB", "", func(r *vhRow) *vhVal { return vhMost(r, false) }},
	{"MaxOf(A, 5, 2) = 5", "A", "A", func(r *vhRow) *vhVal { return vhBo(r.na || r.a <= 5, false) }},
	{"MinOf(A, 5, 2) = 2", "A", "A", func(r *vhRow) *vhVal { return vhBo(r.na || r.a >= 2, false) }},
	{"MinOf(2, A, B, 5) = 2", "AB", "AB", func(r *vhRow) *vhVal { return vhBo((r.na || r.a >= 2) && (r.nb || r.b >= 2), false) }},
	{"MaxOf(5, A, B, 2) = 5", "AB", "AB", func(r *vhRow) *vhVal { return vhBo((r.na || r.a <= 5) && (r.nb || r.b <= 5), false) }},
	{"Convert(A, 'Int64')", "A", "A", func(r *vhRow) *vhVal { return vhL(int64(r.a), r.na) }},
	{"Convert(B, 'int32')", "B", "B", func(r *vhRow) *vhVal { return vhI(int32(r.b), r.nb) }},
	{"Convert(A, 'System.Double')", "A", "", func(r *vhRow) *vhVal { return vhD(float64(r.a), r.na) }},
	{"Convert(A, 'Single')", "A", "", func(r *vhRow) *vhVal { return vhD(float64(r.a), r.na) }},
	{"Convert(A, 'bool')", "A", "A", func(r *vhRow) *vhVal { return vhBo(r.a != 0, r.na) }},
	{"Convert(A, 'UInt16')", "A", "", func(r *vhRow) *vhVal { return vhL(int64(r.a), r.na) }},
	{"Convert(T, 'Int32')", "T", "T", func(r *vhRow) *vhVal {
		if r.t {
			return vhI(1, r.nt)
		}
		return vhI(0, r.nt)
	}},
	{"IsNumeric(A) AND IsInteger(B)", "AB", "AB", func(r *vhRow) *vhVal { return vhBo(!r.na && !r.nb, false) }},
	{"IsNumeric(D)", "D", "D", func(r *vhRow) *vhVal { return vhBo(!r.nd, false) }},
	{"IsInteger(D)", "D", "D", func(r *vhRow) *vhVal { return vhBo(false, false) }},
	{"IsGuid(G)", "G", "G", func(r *vhRow) *vhVal { return vhBo(!r.ng, false) }},
	{"IsGuid(A) OR IsDate(A)", "A", "A", func(r *vhRow) *vhVal { return vhBo(false, false) }},
	{"IsDate(W)", "W", "W", func(r *vhRow) *vhVal { return vhBo(!r.nw, false) }},
	{"IsGuid('{12345678-9abc-def0-1234-56789abcdef0}') AND IsDate('2020-01-02') AND IsInteger('-17') AND IsNumeric('1.5')", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"IsGuid('{12345678-9abc-def0-1234}') OR IsDate('abc') OR IsInteger('1.5') OR IsNumeric('x')", "A", "", func(r *vhRow) *vhVal { return vhBo(false, false) }},
	{"Power(A, 1)", "A", "A", func(r *vhRow) *vhVal { return vhI(r.a, r.na) }},
	{"Power(D, 0)", "D", "", func(r *vhRow) *vhVal { return vhD(1, false) }},
	{"Power(2, 10) = 1024 AND Power(3, 2.0) = 9.0 AND Power(2.5, 2) = 6.25", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"Power(3000000000, 1) = 3000000000 AND Power(2, 40.0) = 1099511627776.0", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"Round(2.5) = 3.0 AND Round(-2.5) = -3.0 AND Round(3.5) = 4.0 AND Round(-0.4) = 0.0", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"IsInteger('5000000000') AND IsInteger('-9223372036854775808') AND NOT IsInteger('9223372036854775808')", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"Convert('2020-01-02', 'Time') = #2020-01-02# AND Convert('2020-01-02', 'date') = #2020-01-02# AND Convert('2020-01-02', 'DateTime') = #2020-01-02#", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"Convert('{12345678-9abc-def0-1234-56789abcdef0}', 'GUID') = {12345678-9abc-def0-1234-56789abcdef0} AND Convert('12345678-9abc-def0-1234-56789abcdef0', 'uuid') = {12345678-9abc-def0-1234-56789abcdef0}", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
	{"Floor(2.5) = 2.0 AND Ceiling(2.5) = 3.0 AND Round(2.4) = 2.0 AND Floor(-2.5) = -3.0 AND Ceiling(-2.5) = -2.0", "A", "", func(r *vhRow) *vhVal { return vhBo(true, false) }},
}

func vhOr1(a int32) int32 {
	if a == 0 {
		return 1
	}
	return a
}

// vhMost: the largest or smallest of a, 3 and b, of the kind of the argument it comes from.
func vhMost(r *vhRow, most bool) *vhVal {
	x := &vhVal{kind: 'I', i: r.a}
	if most && r.a < 3 || !most && r.a > 3 {
		x = vhI(3, false)
	}
	if most && r.b > int64(x.i) || !most && r.b < int64(x.i) {
		x = vhL(r.b, false)
	}
	return x
}

// VH_S29_numbers: the numeric, choice and conversion functions on any numbers.
//
//verif:parts=12 unwind=100000 maxconc=100000
func VH_S29_numbers() {
	p := vndPart()
	c := vhNumFuncs[vndChoose("which", (len(vhNumFuncs)-p+11)/12)*12+p]
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, c.text, true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	r := vhFill(t, c.kinds, c.nulls, 0)
	got, err := tree.Evaluate(r.row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	w := c.want(r)
	if w.null {
		vndAssert(got.IsNull(), "without a value there is no result")
	} else {
		vndAssert(vhIs(got, w), "the function gives its documented result")
	}
	vndReach("evaluated")
}

// VH_S29_rounding: Floor, Ceiling and Round give whole numbers next to their argument, for any double below 2^51.
//
//verif:parts=3 unwind=100000 maxconc=100000
func VH_S29_rounding() {
	p := vndPart()
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, []string{"Floor(D)", "Ceiling(D)", "Round(D)"}[p], true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	r := vhFill(t, "D", "D", 0)
	vndAssume(vndAnd(r.d > -2251799813685248, r.d < 2251799813685248))
	got, err := tree.Evaluate(r.row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	if r.nd {
		vndAssert(got.IsNull(), "without a value there is no result")
		return
	}
	v, err := got.DoubleValue()
	vndAssert(err == nil && !got.IsNull(), "the result is a double")
	switch p {
	case 0:
		vndAssert(v <= r.d && v+1 > r.d, "the largest whole number not above")
	case 1:
		vndAssert(v >= r.d && v-1 < r.d, "the smallest whole number not below")
	default:
		vndAssert(v-r.d <= 0.5 && r.d-v <= 0.5, "the nearest whole number")
		vndAssert(!vndAnd(v-r.d == 0.5, r.d < 0) && !vndAnd(r.d-v == 0.5, r.d > 0), "halves are rounded away from zero")
	}
	vndAssert(v == float64(int64(v)), "a whole number")
	vndReach("rounded")
}
