package data

import (
	"math"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

// vhVal is any value of one of the numeric kinds, in order of width: 'B'oolean, 'I'nt32, 'L' Int64, 'D'ouble.
type vhVal struct {
	kind byte
	null bool
	b    bool
	i    int32
	l    int64
	d    float64
}

const vhKinds = "BILD"

func vhAny(name string, kind byte) *vhVal {
	v := &vhVal{kind: kind}
	switch kind {
	case 'B':
		v.b = vndBool(name + "B")
	case 'I':
		v.i = vndI32(name + "I")
	case 'L':
		v.l = vndI64(name + "L")
	case 'D':
		v.d = vndF64(name + "D")
	}
	v.null = vndChoose(name+"Null", 2) == 1
	return v
}

func vhType(kind byte) ExpressionValueTypeEnum {
	switch kind {
	case 'B':
		return ExpressionValueType.Boolean
	case 'I':
		return ExpressionValueType.Int32
	case 'L':
		return ExpressionValueType.Int64
	case 'C':
		return ExpressionValueType.Decimal
	case 'D':
		return ExpressionValueType.Double
	case 'S':
		return ExpressionValueType.String
	case 'G':
		return ExpressionValueType.Guid
	default:
		return ExpressionValueType.DateTime
	}
}

func (v *vhVal) expr() Expression {
	if v.null {
		return NullValue(vhType(v.kind))
	}
	switch v.kind {
	case 'B':
		return NewValueExpression(ExpressionValueType.Boolean, v.b)
	case 'I':
		return NewValueExpression(ExpressionValueType.Int32, v.i)
	case 'L':
		return NewValueExpression(ExpressionValueType.Int64, v.l)
	default:
		return NewValueExpression(ExpressionValueType.Double, v.d)
	}
}

// as converts to a wider kind.
func (v *vhVal) as(kind byte) *vhVal {
	if v.kind == kind {
		return v
	}
	w := &vhVal{kind: kind}
	n := v.l
	switch v.kind {
	case 'B':
		n = 0
		if v.b {
			n = 1
		}
	case 'I':
		n = int64(v.i)
	}
	switch kind {
	case 'I':
		w.i = int32(n)
	case 'L':
		w.l = n
	case 'D':
		w.d = float64(n)
		if v.kind == 'I' {
			w.d = float64(v.i)
		}
	}
	return w
}

func vhRank(kind byte) int {
	for i := 0; i < len(vhKinds); i++ {
		if vhKinds[i] == kind {
			return i
		}
	}
	return -1
}

func vhWider(x, y byte) byte {
	if vhRank(x) > vhRank(y) {
		return x
	}
	return y
}

func vhSame(x, y float64) bool { return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y }

// vhIs: the result has the type and value wanted.
func vhIs(got *ValueExpression, want *vhVal) bool {
	if got.ValueType() != vhType(want.kind) || got.IsNull() {
		return false
	}
	switch want.kind {
	case 'B':
		v, err := got.BooleanValue()
		return err == nil && v == want.b
	case 'I':
		v, err := got.Int32Value()
		return err == nil && v == want.i
	case 'L':
		v, err := got.Int64Value()
		return err == nil && v == want.l
	default:
		v, err := got.DoubleValue()
		return err == nil && vhSame(v, want.d)
	}
}

func vhOperate(op ExpressionOperatorTypeEnum, l, r Expression) (*ValueExpression, error) {
	tree := NewExpressionTree()
	tree.Root = NewOperatorExpression(op, l, r)
	return tree.Evaluate(nil)
}

// vhArith computes an operation on two values of one kind; false: there is no result.
func vhArith(op string, x, y *vhVal) (*vhVal, bool) {
	w := &vhVal{kind: x.kind}
	switch x.kind {
	case 'B':
		switch op {
		case "+":
			w.b = x.b || y.b
		case "-":
			w.b = x.b != y.b
		case "&":
			w.b = vndAnd(x.b, y.b)
		case "|":
			w.b = x.b || y.b
		case "^":
			w.b = x.b != y.b
		default:
			return nil, false
		}
	case 'I':
		switch op {
		case "+":
			w.i = x.i + y.i
		case "-":
			w.i = x.i - y.i
		case "*":
			w.i = x.i * y.i
		case "/":
			if y.i == 0 {
				return nil, false
			}
			w.i = x.i / y.i
		case "%":
			if y.i == 0 {
				return nil, false
			}
			w.i = x.i % y.i
		case "&":
			w.i = x.i & y.i
		case "|":
			w.i = x.i | y.i
		case "^":
			w.i = x.i ^ y.i
		}
	case 'L':
		switch op {
		case "+":
			w.l = x.l + y.l
		case "-":
			w.l = x.l - y.l
		case "*":
			w.l = x.l * y.l
		case "/":
			if y.l == 0 {
				return nil, false
			}
			w.l = x.l / y.l
		case "%":
			if y.l == 0 {
				return nil, false
			}
			w.l = x.l % y.l
		case "&":
			w.l = x.l & y.l
		case "|":
			w.l = x.l | y.l
		case "^":
			w.l = x.l ^ y.l
		}
	case 'D':
		switch op {
		case "+":
			w.d = x.d + y.d
		case "-":
			w.d = x.d - y.d
		case "*":
			w.d = x.d * y.d
		case "/":
			w.d = x.d / y.d
		default:
			return nil, false
		}
	}
	return w, true
}

var vhOps = []struct {
	op   string
	kind ExpressionOperatorTypeEnum
}{
	{"+", ExpressionOperatorType.Add},
	{"-", ExpressionOperatorType.Subtract},
	{"*", ExpressionOperatorType.Multiply},
	{"/", ExpressionOperatorType.Divide},
	{"%", ExpressionOperatorType.Modulus},
	{"&", ExpressionOperatorType.BitwiseAnd},
	{"|", ExpressionOperatorType.BitwiseOr},
	{"^", ExpressionOperatorType.BitwiseXor},
}

// VH_S27_arithmetic: arithmetic on numbers of any two kinds gives the result in the wider kind, null if one is missing.
//
//verif:parts=8 maxconc=1000
func VH_S27_arithmetic() {
	o := vhOps[vndPart()]
	x := vhAny("x", vhKinds[vndChoose("kindX", 4)])
	y := vhAny("y", vhKinds[vndChoose("kindY", 4)])
	got, err := vhOperate(o.kind, x.expr(), y.expr())
	kind := vhWider(x.kind, y.kind)
	if x.null || y.null {
		vndAssert(err != nil || got.IsNull(), "with a missing operand there is no value")
		vndReach("missing")
		return
	}
	want, ok := vhArith(o.op, x.as(kind), y.as(kind))
	if ok {
		vndAssert(err == nil && vhIs(got, want), "the result is that of the operation in the wider kind")
	} else {
		vndAssert(err != nil, "an operation without a result reports an error")
	}
	vndReach("arithmetic")
}

// vhCompared compares two values of one kind.
func vhCompared(op string, x, y *vhVal) bool {
	less, equal := false, false
	switch x.kind {
	case 'B':
		less, equal = !x.b && y.b, x.b == y.b
	case 'I':
		less, equal = x.i < y.i, x.i == y.i
	case 'L':
		less, equal = x.l < y.l, x.l == y.l
	case 'D':
		switch op {
		case "<":
			return x.d < y.d
		case "<=":
			return x.d <= y.d
		case ">":
			return x.d > y.d
		case ">=":
			return x.d >= y.d
		case "=":
			return x.d == y.d
		}
		return x.d != y.d
	}
	switch op {
	case "<":
		return less
	case "<=":
		return less || equal
	case ">":
		return !(less || equal)
	case ">=":
		return !less
	case "=":
		return equal
	}
	return !equal
}

var vhComparisons = []struct {
	op   string
	kind ExpressionOperatorTypeEnum
}{
	{"<", ExpressionOperatorType.LessThan},
	{"<=", ExpressionOperatorType.LessThanOrEqual},
	{">", ExpressionOperatorType.GreaterThan},
	{">=", ExpressionOperatorType.GreaterThanOrEqual},
	{"=", ExpressionOperatorType.Equal},
	{"=", ExpressionOperatorType.EqualExactMatch},
	{"!", ExpressionOperatorType.NotEqual},
	{"!", ExpressionOperatorType.NotEqualExactMatch},
}

// VH_S27_comparison: numbers of any two kinds compare in the wider kind; with a missing one the result is missing.
//
//verif:parts=8 maxconc=1000
func VH_S27_comparison() {
	o := vhComparisons[vndPart()]
	x := vhAny("x", vhKinds[vndChoose("kindX", 4)])
	y := vhAny("y", vhKinds[vndChoose("kindY", 4)])
	got, err := vhOperate(o.kind, x.expr(), y.expr())
	vndAssert(err == nil && got.ValueType() == ExpressionValueType.Boolean, "numbers can be compared")
	if x.null || y.null {
		vndAssert(got.IsNull(), "with a missing operand there is no value")
		vndReach("missing")
		return
	}
	kind := vhWider(x.kind, y.kind)
	vndAssert(vhIs(got, &vhVal{kind: 'B', b: vhCompared(o.op, x.as(kind), y.as(kind))}), "numbers compare by value in the wider kind")
	vndReach("compared")
}

// VH_S27_unary: sign, complement and negation of numbers of any kind; shifts of integers by any amount, right shifts keep the sign.
//
//verif:parts=2 maxconc=1000
func VH_S27_unary() {
	x := vhAny("x", vhKinds[vndChoose("kind", 4)])
	if vndPart() == 1 {
		vndAssume(!x.null)
		n := vndInt("n", 0, 100)
		left := vndChoose("left", 2) == 1
		op := ExpressionOperatorType.BitShiftRight
		if left {
			op = ExpressionOperatorType.BitShiftLeft
		}
		got, err := vhOperate(op, x.expr(), NewValueExpression(ExpressionValueType.Int32, int32(n)))
		switch x.kind {
		case 'I':
			w := x.i >> n
			if left {
				w = x.i << n
			}
			vndAssert(err == nil && vhIs(got, &vhVal{kind: 'I', i: w}), "an integer is shifted by the amount")
		case 'L':
			w := x.l >> n
			if left {
				w = x.l << n
			}
			vndAssert(err == nil && vhIs(got, &vhVal{kind: 'L', l: w}), "an integer is shifted by the amount")
		case 'D':
			vndAssert(err != nil, "only integers are shifted")
		}
		vndReach("shifted")
		return
	}
	op := vndChoose("op", 3)
	tree := NewExpressionTree()
	tree.Root = NewUnaryExpression([]ExpressionUnaryTypeEnum{ExpressionUnaryType.Plus, ExpressionUnaryType.Minus, ExpressionUnaryType.Not}[op], x.expr())
	got, err := tree.Evaluate(nil)
	if x.null {
		vndAssert(err == nil && got.IsNull() && got.ValueType() == vhType(x.kind), "with a missing operand there is no value")
		vndReach("missing")
		return
	}
	w := &vhVal{kind: x.kind, b: !x.b, i: x.i, l: x.l, d: x.d}
	if op == 1 {
		w.i, w.l, w.d = -x.i, -x.l, -x.d
	} else if op == 2 {
		w.i, w.l = ^x.i, ^x.l
	}
	if x.kind == 'B' && op < 2 || x.kind == 'D' && op == 2 {
		vndAssert(err != nil, "an operation without a result reports an error")
	} else {
		vndAssert(err == nil && vhIs(got, w), "the result is that of the operation")
	}
	vndReach("unary")
}

// vhSample: values of every kind that can be made without numbers in text form.
func vhSample(name string, kind byte, small bool) Expression {
	if vndChoose(name+"Null", 2) == 1 {
		return NullValue(vhType(kind))
	}
	switch kind {
	case 'C':
		return NewValueExpression(ExpressionValueType.Decimal, decimal.New(int64(vndChoose(name+"C", 3))-1, -1))
	case 'S':
		return NewValueExpression(ExpressionValueType.String, []string{"", "1", "x", "1.5", "NaN", "true", vhID, "2020-01-02"}[vndChoose(name+"S", 8)])
	case 'G':
		return NewValueExpression(ExpressionValueType.Guid, vhAnyGuid(name+"G"))
	case 'T':
		if small {
			return NewValueExpression(ExpressionValueType.DateTime, time.Unix([]int64{0, -62135596800, 253402300799}[vndChoose(name+"U", 3)], 0).UTC())
		}
		return NewValueExpression(ExpressionValueType.DateTime, time.Unix(vndI64(name+"T")>>24, 0).UTC())
	}
	if small && (kind == 'I' || kind == 'L') {
		n := []int64{0, 1, -7, math.MaxInt32, math.MinInt32}[vndChoose(name+"N", 5)]
		if kind == 'I' {
			return NewValueExpression(ExpressionValueType.Int32, int32(n))
		}
		return NewValueExpression(ExpressionValueType.Int64, n<<31)
	}
	switch kind {
	case 'B':
		return NewValueExpression(ExpressionValueType.Boolean, vndBool(name+"B"))
	case 'I':
		return NewValueExpression(ExpressionValueType.Int32, vndI32(name+"I"))
	case 'L':
		return NewValueExpression(ExpressionValueType.Int64, vndI64(name+"L"))
	default:
		return NewValueExpression(ExpressionValueType.Double, vndF64(name+"D"))
	}
}

func vhAnyGuid(name string) (g guid.Guid) {
	copy(g[:], vndBytes(name, 16))
	return g
}

var vhAllOps = []ExpressionOperatorTypeEnum{
	ExpressionOperatorType.Add, ExpressionOperatorType.Subtract, ExpressionOperatorType.Multiply, ExpressionOperatorType.Divide,
	ExpressionOperatorType.Modulus, ExpressionOperatorType.BitShiftLeft, ExpressionOperatorType.BitShiftRight,
	ExpressionOperatorType.BitwiseAnd, ExpressionOperatorType.BitwiseOr, ExpressionOperatorType.BitwiseXor,
	ExpressionOperatorType.LessThan, ExpressionOperatorType.LessThanOrEqual, ExpressionOperatorType.GreaterThan,
	ExpressionOperatorType.GreaterThanOrEqual, ExpressionOperatorType.Equal, ExpressionOperatorType.EqualExactMatch,
	ExpressionOperatorType.NotEqual, ExpressionOperatorType.NotEqualExactMatch, ExpressionOperatorType.IsNull,
	ExpressionOperatorType.IsNotNull, ExpressionOperatorType.Like, ExpressionOperatorType.LikeExactMatch,
	ExpressionOperatorType.NotLike, ExpressionOperatorType.NotLikeExactMatch, ExpressionOperatorType.And, ExpressionOperatorType.Or,
}

// VH_S27_total: any operator on operands of any two kinds, decimals, text, GUIDs and dates included, gives a value or
// an error, never a panic, and its result has a consistent type.
//
//verif:parts=8 nomerge maxconc=100000 unwind=100000
func VH_S27_total() {
	const kinds = "BILCDSGT"
	kx, ky := kinds[vndPart()], kinds[vndChoose("kindY", 8)]
	// integers that are converted to decimals are a few, all others any
	small := kx == 'C' || ky == 'C' || ky == 'S' || kx == 'S'
	x, y := vhSample("x", kx, small), vhSample("y", ky, small)
	op := vhAllOps[vndChoose("op", len(vhAllOps))]
	got, err := vhOperate(op, x, y)
	vndAssert((err == nil) == (got != nil), "an operation gives a value or an error")
	if err == nil {
		if !got.IsNull() {
			got.String()
		}
		vndAssert(!got.IsNull() || x.(*ValueExpression).IsNull() || y.(*ValueExpression).IsNull(), "operands that are present give a value that is present")
	}
	vndReach("total")
}

// VH_S27_convert: converting a number or a time between kinds keeps its value where the target can hold it.
//
//verif:parts=5 maxconc=1000
func VH_S27_convert() {
	p := vndPart()
	if p == 4 {
		sec := vndI64("seconds") >> 24
		v := NewValueExpression(ExpressionValueType.DateTime, time.Unix(sec, 0).UTC())
		for i := 0; i < len(vhKinds); i++ {
			got, err := v.Convert(vhType(vhKinds[i]))
			vndAssert(err == nil && vhIs(got, &vhVal{kind: vhKinds[i], b: sec != 0, i: int32(sec), l: sec, d: float64(sec)}), "a time converts to its seconds since 1970")
		}
		same, err := v.Convert(ExpressionValueType.DateTime)
		w, _ := same.DateTimeValue()
		vndAssert(err == nil && w.Unix() == sec, "converting to the same type keeps the value")
		vndReach("time")
		return
	}
	x := vhAny("x", vhKinds[p])
	to := "BILDCGT"[vndChoose("to", 7)]
	if x.kind == 'D' && to == 'C' {
		vndAssume(x.null || x.d-x.d != 0)
	}
	got, err := x.expr().(*ValueExpression).Convert(vhType(to))
	if x.null {
		vndAssert(err == nil && got.IsNull() && got.ValueType() == vhType(to), "a missing value stays missing")
		vndReach("missing")
		return
	}
	if to == 'G' || to == 'T' {
		vndAssert(err != nil, "numbers are neither identifiers nor times")
		vndReach("refused")
		return
	}
	if to == 'C' {
		if x.kind == 'D' {
			vndAssert(err != nil, "a value without a decimal form is refused")
			vndReach("no decimal")
			return
		}
		vndAssert(err == nil, "an integer has a decimal form")
		back, err := got.Convert(ExpressionValueType.Int64)
		vndAssert(err == nil && vhIs(back, x.as('L')), "a decimal keeps the value of an integer")
		vndReach("decimal")
		return
	}
	want := &vhVal{kind: to}
	switch x.kind {
	case 'B':
		want = x.as(to)
	case 'I':
		want.b, want.i, want.l, want.d = x.i != 0, x.i, int64(x.i), float64(x.i)
	case 'L':
		want.b, want.i, want.l, want.d = x.l != 0, int32(x.l), x.l, float64(x.l)
	case 'D':
		want.b, want.d = x.d != 0, x.d
		if to == 'I' || to == 'L' {
			vndAssume(x.d > -2147483649 && x.d < 2147483648)
			want.i, want.l = int32(x.d), int64(x.d)
		}
	}
	vndAssert(err == nil && vhIs(got, want), "a number keeps its value")
	vndReach("converted")
}

// VH_S27_text: numbers compare with text by the number the text stands for.
//
//verif:parts=3 maxconc=10000 unwind=10000
func VH_S27_text() {
	n := vndChoose("digits", 3) + 1
	b := vndBytes("digit", n)
	v := int64(0)
	for _, c := range b {
		vndAssume(c >= '0' && c <= '9')
		v = v*10 + int64(c-'0')
	}
	text := string(b)
	if n == 2 && vndChoose("long", 2) == 1 {
		text, v = "90071992547409"+text, 9007199254740900+v
	}
	if vndChoose("minus", 2) == 1 {
		text, v = "-"+text, -v
	}
	var x *vhVal
	if vndPart() == 0 {
		vndAssume(len(text) < 9)
		x = vhAny("x", 'I')
	} else if vndPart() == 1 {
		x = vhAny("x", 'L')
	} else {
		// text on the left: both compare as text, equal only if it is the same text
		got, err := vhOperate(ExpressionOperatorType.Equal, NewValueExpression(ExpressionValueType.String, text), NewValueExpression(ExpressionValueType.String, "-12"))
		vndAssert(err == nil && vhIs(got, &vhVal{kind: 'B', b: text == "-12"}), "text compares as text")
		vndReach("text")
		return
	}
	vndAssume(!x.null)
	o := vhComparisons[vndChoose("op", len(vhComparisons))]
	got, err := vhOperate(o.kind, x.expr(), NewValueExpression(ExpressionValueType.String, text))
	vndAssert(err == nil && vhIs(got, &vhVal{kind: 'B', b: vhCompared(o.op, x.as('L'), &vhVal{kind: 'L', l: v})}), "a number compares with the number a text stands for")
	vndReach("number")
}
