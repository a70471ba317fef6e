package data

import "time"

var vhIntervals = []string{"Year", "MONTH", "dayofyear", "Day", "WeekDay", "Week", " Hour ", "Minute", "Second", "Millisecond"}

// vhMoment: any second of 12 days (thorough: millisecond of 48) around a turn of the year, or around the leap day.
func vhMoment(name string) time.Time {
	base := []time.Time{
		time.Date(2019, 12, 24, 0, 0, 0, 789000000, time.UTC),
		time.Date(2024, 2, 23, 0, 0, 0, 789000000, time.UTC),
	}[vndChoose(name+"Base", 2)]
	if vndTier() == 0 {
		return time.Unix(base.Unix()+int64(vndU32(name)>>12), 789000000).UTC()
	}
	return time.Unix(base.Unix()+int64(vndU32(name)>>10), int64(vndU16(name+"Ms")%1000)*1000000).UTC()
}

// VH_S30_part: DatePart gives the named field of any moment.
//
//verif:parts=10 unwind=100000 maxconc=100000
func VH_S30_part() {
	p := vndPart()
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, "DatePart(W, '"+vhIntervals[p]+"')", true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	w := vhMoment("w")
	row := t.CreateRow()
	null := vndBool("null")
	if !null {
		row.SetValue(6, w)
	}
	got, err := tree.Evaluate(row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	if null {
		vndAssert(got.IsNull(), "without a value there is no result")
		return
	}
	v, err := got.Int32Value()
	vndAssert(err == nil, "the result is an Int32")
	want := 0
	switch p {
	case 0:
		want = w.Year()
	case 1:
		want = int(w.Month())
	case 2:
		want = w.YearDay()
	case 3:
		want = w.Day()
	case 4:
		want = int(w.Weekday()) + 1
	case 5:
		_, want = w.ISOWeek()
	case 6:
		want = w.Hour()
	case 7:
		want = w.Minute()
	case 8:
		want = w.Second()
	case 9:
		want = w.Nanosecond() / 1000000
	}
	vndAssert(int(v) == want, "the named part of the date")
	vndReach("part")
}

// VH_S30_add: DateAdd moves one of three moments by any number, within 128, of the named interval.
//
//verif:parts=10 unwind=100000 maxconc=100000
func VH_S30_add() {
	p := vndPart()
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, "DateAdd(W, A, '"+vhIntervals[p]+"')", true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	w := []time.Time{
		time.Date(2020, 1, 31, 23, 59, 59, 999000000, time.UTC),
		time.Date(2020, 2, 29, 12, 34, 56, 0, time.UTC),
		time.Date(2019, 12, 31, 0, 0, 0, 1000000, time.UTC),
	}[vndChoose("w", 3)]
	n := int(vndI8("n"))
	row := t.CreateRow()
	null := vndBool("null")
	if !null {
		row.SetValue(6, w)
	}
	row.SetValue(0, int32(n))
	got, err := tree.Evaluate(row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	if null {
		vndAssert(got.IsNull(), "without a value there is no result")
		return
	}
	v, err := got.DateTimeValue()
	vndAssert(err == nil, "the result is a date")
	var want time.Time
	switch p {
	case 0:
		want = w.AddDate(n, 0, 0)
	case 1:
		want = w.AddDate(0, n, 0)
	case 2, 3, 4:
		want = w.AddDate(0, 0, n)
	case 5:
		want = w.AddDate(0, 0, n*7)
	case 6:
		want = w.Add(time.Duration(n) * time.Hour)
	case 7:
		want = w.Add(time.Duration(n) * time.Minute)
	case 8:
		want = w.Add(time.Duration(n) * time.Second)
	case 9:
		want = w.Add(time.Duration(n) * time.Millisecond)
	}
	vndAssert(v.Equal(want), "the date moved by the number of intervals")
	vndReach("moved")
}

// vhHalves: half of each interval in seconds.
var vhHalves = []int64{182 * 86400, 15 * 86400, 43200, 43200, 43200, 7 * 43200, 1800, 30, 1, 1}

// VH_S30_diff: DateDiff gives the number of intervals between a fixed moment and any one up to 255 half intervals away.
//
//verif:parts=10 unwind=100000 maxconc=100000
func VH_S30_diff() {
	p := vndPart()
	_, t := vhTable()
	text := "DateDiff(#2020-07-15 06:00:00#, W, '" + vhIntervals[p] + "')"
	base := time.Date(2020, 7, 15, 6, 0, 0, 0, time.UTC)
	flip := p%2 == 1
	if vndTier() == 1 {
		flip = vndChoose("flip", 2) == 1
	}
	if flip {
		text = "DateDiff(W, #2020-07-15 06:00:00#, '" + vhIntervals[p] + "')"
	}
	tree, err := GenerateExpressionTree(t, text, true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	k := int64(vndU8("k"))
	k *= vhHalves[p]
	if vndChoose("before", 2) == 1 {
		k = -k
	}
	w := time.Unix(base.Unix()+k, 0).UTC()
	row := t.CreateRow()
	row.SetValue(6, w)
	got, err := tree.Evaluate(row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	v, err := got.Int32Value()
	vndAssert(err == nil, "the result is an Int32")
	var want int64
	switch p {
	case 0:
		want = int64(w.Year() - base.Year())
	case 1:
		want = int64(w.Year()-base.Year())*12 + int64(w.Month()) - 7
	case 2, 3, 4:
		want = k / 86400
	case 5:
		want = k / 86400 / 7
	case 6:
		want = k / 3600
	case 7:
		want = k / 60
	case 8:
		want = k
	case 9:
		want = k * 1000
	}
	if flip {
		want = -want
	}
	vndAssert(int64(v) == want, "the number of whole intervals between the dates")
	vndReach("compared")
}

// VH_S30_move: DateAdd of any number of hours or shorter intervals to any moment of the years 1 to 9999.
//
//verif:parts=4 unwind=100000 maxconc=100000
func VH_S30_move() {
	p := vndPart()
	_, t := vhTable()
	ls, ln := vndI64("left"), int64(vndInt("leftNs", 0, 999999999))
	if p == 3 {
		ln = []int64{0, 999000000, 123456789}[vndChoose("ns", 3)]
	}
	vndAssume(ls >= -62135596800 && ls <= 253402300799)
	row := t.CreateRow()
	row.SetValue(6, time.Unix(ls, ln).UTC())
	tree, err := GenerateExpressionTree(t, "DateAdd(W, B, '"+vhIntervals[p+6]+"')", true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	n := int64(vndI32("n"))
	if p == 3 {
		n = int64(vndU64("k")>>26)*1000 + []int64{0, 1, 999}[vndChoose("ms", 3)]
		if vndChoose("back", 2) == 1 {
			n = -n
		}
	}
	row.SetValue(1, n)
	got, err := tree.Evaluate(row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	v, err := got.DateTimeValue()
	vndAssert(err == nil, "the result is a date")
	if p < 3 {
		vndAssert(v.Unix() == ls+n*[]int64{3600, 60, 1}[p] && int64(v.Nanosecond()) == ln, "the date moved by any number of intervals")
	} else {
		vndAssert((v.Unix()-ls)*1000000000+int64(v.Nanosecond())-ln == n*1000000, "the date moved by any number of milliseconds")
	}
	vndReach("moved")
}

// VH_S30_span: DateDiff in days or shorter intervals between one of three moments and any one up to 8000 years away.
//
//verif:parts=8 nomerge unwind=100000 maxconc=100000
func VH_S30_span() {
	p := vndPart() + 2
	_, t := vhTable()
	t.AddColumn(t.CreateColumn("E", DataType.DateTime, ""))
	tree, err := GenerateExpressionTree(t, "DateDiff(W, E, '"+vhIntervals[p]+"')", true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	k := []uint64{0, 0, 86400, 86400, 86400, 604800, 3600, 60, 1, 1}[p]
	// any number of whole intervals, and any part of another one
	q := vndU64("q") >> 26
	if k > 1 {
		q = vndU64("q") >> []uint{0, 0, 42, 42, 42, 44, 37, 31}[p]
	}
	d := int64(q * k)
	if k > 1 {
		rest := uint64(vndU32("rest") >> []uint{0, 0, 16, 16, 16, 13, 21, 27}[p])
		if vndChoose("end", 2) == 1 {
			rest = k - 1 - rest
		}
		d += int64(rest)
	}
	left := []time.Time{
		time.Date(2020, 7, 15, 6, 0, 0, 0, time.UTC),
		time.Date(1, 1, 1, 0, 0, 0, 999999999, time.UTC),
		time.Date(1600, 2, 29, 23, 59, 59, 500000000, time.UTC),
	}[vndChoose("left", 3)]
	ns := []int64{0, 1, 499999999, 500000000, 999999999}[vndChoose("ns", 5)]
	right := time.Unix(left.Unix()+d, int64(left.Nanosecond())).Add(time.Duration(ns)).UTC()
	back := vndChoose("back", 2) == 1
	row := t.CreateRow()
	if back {
		row.SetValue(6, right)
		row.SetValue(8, left)
	} else {
		row.SetValue(6, left)
		row.SetValue(8, right)
	}
	got, err := tree.Evaluate(row)
	want := int64(q)
	if p == 9 {
		want = d*1000 + ns/1000000
	}
	if back {
		want = -want
	}
	if want > 2147483647 || want < -2147483648 {
		vndAssert(err != nil, "a number that does not fit is an error")
		vndReach("does not fit")
		return
	}
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	v, err := got.Int32Value()
	vndAssert(err == nil && int64(v) == want, "the number of whole intervals between any dates")
	vndReach("compared")
}

// VH_S30_zone: the fields of a date given as text with an offset from UTC are those of the moment in UTC.
//
//verif:maxconc=10000 unwind=10000
func VH_S30_zone() {
	b := vndBytes("hour", 2)
	vndAssume(b[0] >= '0' && b[0] <= '2' && b[1] >= '0' && b[1] <= '9')
	h := int(b[0]-'0')*10 + int(b[1]-'0')
	vndAssume(h < 24)
	k := vndChoose("zone", 3)
	text := "2020-03-10T" + string(b) + ":30:00" + []string{"Z", "-05:00", "+03:00"}[k]
	moved := h + []int{0, 5, -3}[k]
	day := 10
	if moved > 23 {
		moved, day = moved-24, 11
	}
	if moved < 0 {
		moved, day = moved+24, 9
	}
	part, want := "Hour", moved
	if vndChoose("part", 2) == 1 {
		part, want = "Day", day
	}
	tree := NewExpressionTree()
	tree.Root = NewFunctionExpression(ExpressionFunctionType.DatePart, []Expression{
		NewValueExpression(ExpressionValueType.String, text), NewValueExpression(ExpressionValueType.String, part)})
	got, err := tree.Evaluate(nil)
	vndAssert(err == nil && !got.IsNull(), "a date with an offset is understood")
	n, err := got.Int32Value()
	vndAssert(err == nil && int(n) == want, "its fields are those in UTC")
	vndReach("zone")
}
