package data

import (
	"time"

	"github.com/shopspring/decimal"
)

// vhOrdered: the outcome of a comparison operator for values that compare as c (negative, zero, positive).
func vhOrdered(op string, c int) bool {
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	case "=":
		return c == 0
	}
	return c != 0
}

func vhCompareInts(x, y int64) int {
	if x < y {
		return -1
	}
	if x > y {
		return 1
	}
	return 0
}

func vhCompareBytes(x, y []byte) int {
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return vhCompareInts(int64(x[i]), int64(y[i]))
		}
	}
	return vhCompareInts(int64(len(x)), int64(len(y)))
}

func vhUpperBytes(x []byte) []byte {
	u := make([]byte, len(x))
	for i, c := range x {
		if c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		u[i] = c
	}
	return u
}

// VH_S27_values: texts, GUIDs and dates compare by value with each comparison operator; texts ignore case unless an exact
// match is asked for, dates are the same moment whatever their time zone.
//
//verif:parts=3 maxconc=10000
func VH_S27_values() {
	i := vndChoose("op", len(vhComparisons))
	o := vhComparisons[i]
	exact := o.kind == ExpressionOperatorType.EqualExactMatch || o.kind == ExpressionOperatorType.NotEqualExactMatch
	var x, y Expression
	var c int
	switch vndPart() {
	case 0:
		a, b := vndBytes("a", vndChoose("lenA", 3)), vndBytes("b", vndChoose("lenB", 3))
		for _, t := range a {
			vndAssume(t < 128)
		}
		for _, t := range b {
			vndAssume(t < 128)
		}
		x, y = NewValueExpression(ExpressionValueType.String, string(a)), NewValueExpression(ExpressionValueType.String, string(b))
		if !exact {
			a, b = vhUpperBytes(a), vhUpperBytes(b)
		}
		c = vhCompareBytes(a, b)
	case 1:
		a, b := vhAnyGuid("a"), vhAnyGuid("b")
		x, y = NewValueExpression(ExpressionValueType.Guid, a), NewValueExpression(ExpressionValueType.Guid, b)
		c = vhCompareBytes(a[:], b[:])
	case 2:
		s, t := vndI64("s")>>24, vndI64("t")>>24
		m, n := int64(vndInt("m", 0, 999999999)), int64(vndInt("n", 0, 999999999))
		zone := time.UTC
		if vndChoose("zone", 2) == 1 {
			zone = time.FixedZone("", 3600)
		}
		x = NewValueExpression(ExpressionValueType.DateTime, time.Unix(s, m).UTC())
		y = NewValueExpression(ExpressionValueType.DateTime, time.Unix(t, n).In(zone))
		if c = vhCompareInts(s, t); c == 0 {
			c = vhCompareInts(m, n)
		}
	}
	got, err := vhOperate(o.kind, x, y)
	vndAssert(err == nil && vhIs(got, &vhVal{kind: 'B', b: vhOrdered(o.op, c)}), "values of one kind compare by value")
	vndReach("values")
}

// VH_S27_decimals: decimals compare, add, subtract and multiply exactly, with each other and with integers and booleans.
//
//verif:parts=11 maxconc=10000 unwind=1000
func VH_S27_decimals() {
	p := vndPart()
	any := func(name string) int8 {
		if p >= 8 && name[0] == 'y' {
			return []int8{-3, 0, 7, 100}[vndChoose(name, 4)]
		}
		return vndI8(name)
	}
	make1 := func(name string, kind byte) (Expression, int64) {
		switch kind {
		case 'B':
			if vndBool(name + "B") {
				return NewValueExpression(ExpressionValueType.Boolean, true), 10
			}
			return NewValueExpression(ExpressionValueType.Boolean, false), 0
		case 'I':
			v := any(name + "I")
			return NewValueExpression(ExpressionValueType.Int32, int32(v)), int64(v) * 10
		case 'L':
			v := any(name + "L")
			return NewValueExpression(ExpressionValueType.Int64, int64(v)), int64(v) * 10
		}
		v := int64(any(name + "C"))
		if vndChoose(name+"Tenths", 2) == 1 {
			return NewValueExpression(ExpressionValueType.Decimal, decimal.New(v, -1)), v
		}
		return NewValueExpression(ExpressionValueType.Decimal, decimal.New(v, 0)), v * 10
	}
	k := vndChoose("pair", 7)
	kx, ky := "CCCCBIL"[k], "CBILCCC"[k]
	x, a := make1("x", kx)
	y, b := make1("y", ky)
	if p < 8 {
		o := vhComparisons[p]
		got, err := vhOperate(o.kind, x, y)
		vndAssert(err == nil && vhIs(got, &vhVal{kind: 'B', b: vhOrdered(o.op, vhCompareInts(a, b))}), "decimals compare by value")
		vndReach("compared")
		return
	}
	o := vhOps[p-8]
	got, err := vhOperate(o.kind, x, y)
	vndAssert(err == nil && got.ValueType() == ExpressionValueType.Decimal && !got.IsNull(), "the result is a decimal")
	d, err := got.DecimalValue()
	want := (a + b) * 10
	if o.op == "-" {
		want = (a - b) * 10
	} else if o.op == "*" {
		want = a * b
	}
	n := d.CoefficientInt64()
	for e := d.Exponent(); e > -2; e-- {
		n *= 10
	}
	vndAssert(err == nil && n == want, "the result is exact")
	vndReach("decimal")
}

// VH_S27_concat: adding a text and a value of any kind with a fixed text form joins their texts.
//
//verif:maxconc=10000
func VH_S27_concat() {
	s := vndString("s", vndChoose("len", 3))
	x := NewValueExpression(ExpressionValueType.String, s)
	var y Expression
	var t string
	switch vndChoose("kind", 4) {
	case 3:
		k := vndChoose("d", 4)
		y = NewValueExpression(ExpressionValueType.Double, []float64{0, -1.5, 123456789.125, 1e15}[k])
		t = []string{"0.000000", "-1.500000", "123456789.125000", "1000000000000000.000000"}[k]
	case 0:
		t = vndString("t", vndChoose("lenT", 3))
		y = NewValueExpression(ExpressionValueType.String, t)
	case 1:
		b := vndBool("b")
		y, t = NewValueExpression(ExpressionValueType.Boolean, b), "false"
		if b {
			t = "true"
		}
	default:
		n := vndChoose("n", 10)
		t = string(rune('0' + n))
		y = NewValueExpression(ExpressionValueType.Int32, int32(n))
	}
	want := s + t
	l, r := Expression(x), y
	if vndChoose("swap", 2) == 1 {
		l, r, want = y, x, t+s
	}
	got, err := vhOperate(ExpressionOperatorType.Add, l, r)
	vndAssert(err == nil && got.ValueType() == ExpressionValueType.String, "joining texts gives a text")
	v, err := got.StringValue()
	vndAssert(err == nil && v == want, "texts are joined in order")
	vndReach("concat")
}

func vhEqualBytes(x, y []byte) bool { return len(x) == len(y) && vhCompareBytes(x, y) == 0 }

// VH_S27_like: a text is like a pattern when it is the pattern, begins with, ends with or contains the rest of it as its
// wild cards at the end, beginning or both say, ignoring case unless an exact match is asked for; a pattern of wild cards
// only is like everything, and one with a wild card elsewhere is refused.
//
//verif:parts=4 maxconc=10000
func VH_S27_like() {
	op := []ExpressionOperatorTypeEnum{ExpressionOperatorType.Like, ExpressionOperatorType.LikeExactMatch, ExpressionOperatorType.NotLike, ExpressionOperatorType.NotLikeExactMatch}[vndPart()]
	wild := []string{"", "*", "%"}
	lead, trail := wild[vndChoose("lead", 3)], wild[vndChoose("trail", 3)]
	mid := vndBytes("pattern", vndChoose("lenPattern", 3))
	text := vndBytes("text", vndChoose("lenText", 4))
	refused := false
	for _, t := range mid {
		vndAssume(t < 128)
		w := t == '*' || t == '%'
		refused = refused || w
	}
	for _, t := range text {
		vndAssume(t < 128)
	}
	if refused {
		// a wild card next to one of the ends belongs to the pattern there
		vndAssume((lead != "" || mid[0] != '*' && mid[0] != '%') && (trail != "" || mid[len(mid)-1] != '*' && mid[len(mid)-1] != '%'))
	}
	got, err := vhOperate(op, NewValueExpression(ExpressionValueType.String, string(text)), NewValueExpression(ExpressionValueType.String, lead+string(mid)+trail))
	if refused {
		vndAssert(err != nil, "a pattern with a wild card in the middle is refused")
		vndReach("refused")
		return
	}
	a, b := text, mid
	if vndPart()%2 == 0 {
		a, b = vhUpperBytes(text), vhUpperBytes(mid)
	}
	// a single wild card stands for both ends
	first, last := lead != "" || len(mid) == 0 && trail != "", trail != "" || len(mid) == 0 && lead != ""
	want := false
	for i := 0; i+len(b) <= len(a); i++ {
		if (i == 0 || first) && (i+len(b) == len(a) || last) && vhEqualBytes(a[i:i+len(b)], b) {
			want = true
		}
	}
	vndAssert(err == nil && vhIs(got, &vhVal{kind: 'B', b: want == (vndPart() < 2)}), "a text is like the pattern exactly when it matches")
	vndReach("like")
}

// VH_S27_fromdecimal: a decimal converts to a boolean that says whether it is zero, and to integers by its whole part.
//
//verif:maxconc=10000 unwind=1000
func VH_S27_fromdecimal() {
	v := int64(vndI8("v"))
	e := vndChoose("tenths", 2)
	x := NewValueExpression(ExpressionValueType.Decimal, decimal.New(v, int32(-e)))
	whole := v
	if e == 1 {
		whole = v / 10
	}
	to := "BIL"[vndChoose("to", 3)]
	got, err := x.Convert(vhType(to))
	vndAssert(err == nil && vhIs(got, &vhVal{kind: to, b: v != 0, i: int32(whole), l: whole}), "a decimal keeps its whole part")
	vndReach("decimal")
}
