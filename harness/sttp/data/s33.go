package data

import (
	"math"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

// vhColumnKinds: the column types, each with its readers and a source of values.
var vhColumnKinds = []struct {
	typ    DataTypeEnum
	any    func(name string) interface{}
	read   func(r *DataRow, i int) (interface{}, bool, error)
	byName func(r *DataRow, name string) (interface{}, bool, error)
}{
	{DataType.String, func(n string) interface{} { return vhText(n, vndChoose(n+"length", 3)) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.StringValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.StringValueByName(s); return v, n, e }},
	{DataType.Boolean, func(n string) interface{} { return vndBool(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.BooleanValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.BooleanValueByName(s); return v, n, e }},
	{DataType.DateTime, func(n string) interface{} { return time.Unix(vndI64(n)>>24, int64(vndInt(n+"ns", 0, 999999999))).UTC() },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.DateTimeValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.DateTimeValueByName(s); return v, n, e }},
	{DataType.Single, func(n string) interface{} { return vndF32(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.SingleValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.SingleValueByName(s); return v, n, e }},
	{DataType.Double, func(n string) interface{} { return vndF64(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.DoubleValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.DoubleValueByName(s); return v, n, e }},
	{DataType.Decimal, func(n string) interface{} { return decimal.New([]int64{-5, 0, 1, 15, 150}[vndChoose(n, 5)], -int32(vndChoose(n+"scale", 2))) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.DecimalValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.DecimalValueByName(s); return v, n, e }},
	{DataType.Guid, func(n string) interface{} { var g guid.Guid; copy(g[:], vndBytes(n, 16)); return g },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.GuidValue(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.GuidValueByName(s); return v, n, e }},
	{DataType.Int8, func(n string) interface{} { return vndI8(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.Int8Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.Int8ValueByName(s); return v, n, e }},
	{DataType.Int16, func(n string) interface{} { return vndI16(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.Int16Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.Int16ValueByName(s); return v, n, e }},
	{DataType.Int32, func(n string) interface{} { return vndI32(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.Int32Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.Int32ValueByName(s); return v, n, e }},
	{DataType.Int64, func(n string) interface{} { return vndI64(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.Int64Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.Int64ValueByName(s); return v, n, e }},
	{DataType.UInt8, func(n string) interface{} { return vndU8(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.UInt8Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.UInt8ValueByName(s); return v, n, e }},
	{DataType.UInt16, func(n string) interface{} { return vndU16(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.UInt16Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.UInt16ValueByName(s); return v, n, e }},
	{DataType.UInt32, func(n string) interface{} { return vndU32(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.UInt32Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.UInt32ValueByName(s); return v, n, e }},
	{DataType.UInt64, func(n string) interface{} { return vndU64(n) },
		func(r *DataRow, i int) (interface{}, bool, error) { v, n, e := r.UInt64Value(i); return v, n, e },
		func(r *DataRow, s string) (interface{}, bool, error) { v, n, e := r.UInt64ValueByName(s); return v, n, e }},
}

// vhIdentical: the same value of the same type.
func vhIdentical(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || x != x && y != y)
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case decimal.Decimal:
		y, ok := b.(decimal.Decimal)
		return ok && x.Equal(y)
	}
	return a == b
}

// vhSorted: the order of two values of one type.
func vhSorted(a, b interface{}, exact bool) int {
	sign := func(less, more bool) int {
		if less {
			return -1
		}
		if more {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case string:
		y := b.(string)
		if !exact {
			x, y = vhUpper(x), vhUpper(y)
		}
		return sign(x < y, x > y)
	case bool:
		y := b.(bool)
		return sign(!x && y, x && !y)
	case time.Time:
		y := b.(time.Time)
		return sign(x.Before(y), x.After(y))
	case float32:
		y := b.(float32)
		return sign(x < y, x > y)
	case float64:
		y := b.(float64)
		return sign(x < y, x > y)
	case decimal.Decimal:
		return x.Cmp(b.(decimal.Decimal))
	case guid.Guid:
		y := b.(guid.Guid)
		return sign(string(x[:]) < string(y[:]), string(x[:]) > string(y[:]))
	case int8:
		y := b.(int8)
		return sign(x < y, x > y)
	case int16:
		y := b.(int16)
		return sign(x < y, x > y)
	case int32:
		y := b.(int32)
		return sign(x < y, x > y)
	case int64:
		y := b.(int64)
		return sign(x < y, x > y)
	case uint8:
		y := b.(uint8)
		return sign(x < y, x > y)
	case uint16:
		y := b.(uint16)
		return sign(x < y, x > y)
	case uint32:
		y := b.(uint32)
		return sign(x < y, x > y)
	}
	x, y := a.(uint64), b.(uint64)
	return sign(x < y, x > y)
}

// vhAllKinds: a table with a column of each type, named by it.
func vhAllKinds() *DataTable {
	ds := NewDataSet()
	t := ds.CreateTable("T")
	for _, k := range vhColumnKinds {
		t.AddColumn(t.CreateColumn("c"+k.typ.String(), k.typ, ""))
	}
	ds.AddTable(t)
	return t
}

// VH_S33_access: a value set in a column of any type is read back, by index and by name in any case, and only as that type.
//
//verif:parts=15 unwind=1000 maxconc=1000
func VH_S33_access() {
	p := vndPart()
	k := vhColumnKinds[p]
	t := vhAllKinds()
	r, other := t.CreateRow(), t.CreateRow()
	name := "c" + k.typ.String()
	names := []string{name, strings.ToUpper(name), strings.ToLower(name)}
	vndAssert(t.ColumnCount() == 15 && t.ColumnIndex(names[1]) == p && t.Column(p).Index() == p && t.ColumnByName(names[2]) == t.Column(p), "columns in order")
	_, null, err := k.read(r, p)
	vndAssert(err == nil && null, "a value not set is null")
	vndAssert(r.ValueAsString(p) == "<NULL>", "the text of a null")
	v := k.any("v")
	if vndChoose("set", 2) == 0 {
		err = r.SetValue(p, v)
	} else {
		err = r.SetValueByName(names[vndChoose("name", 3)], v)
	}
	vndAssert(err == nil, "a column can be set")
	for i, o := range vhColumnKinds {
		got, null, err := o.read(r, p)
		if i == p {
			vndAssert(err == nil && !null && vhIdentical(got, v), "the value set")
			got, null, err = o.byName(r, names[2])
			vndAssert(err == nil && !null && vhIdentical(got, v), "the value set, by name")
			got, err = r.Value(p)
			vndAssert(err == nil && vhIdentical(got, v), "the value set, as it is")
			got, err = r.ValueByName(names[1])
			vndAssert(err == nil && vhIdentical(got, v), "the value set, as it is by name")
			_, null, err = o.byName(other, name)
			vndAssert(err == nil && null, "rows are independent")
			continue
		}
		vndAssert(err != nil, "only read as the type of the column")
		_, null, err = o.byName(r, "c"+o.typ.String())
		vndAssert(err == nil && null, "columns are independent")
		_, _, err = o.byName(r, name)
		vndAssert(err != nil, "only read as the type of the column, by name")
	}
	out := []int{-1, 15, 1 << 40}[vndChoose("out", 3)]
	_, _, err = k.read(r, out)
	vndAssert(err != nil, "no column at that index")
	_, err = r.Value(out)
	vndAssert(err != nil && r.SetValue(out, v) != nil && r.ValueAsString(out) == "", "no column at that index")
	_, _, err = k.byName(r, name+"x")
	vndAssert(err != nil, "no column with that name")
	_, err = r.ValueByName("x" + name)
	vndAssert(err != nil && r.SetValueByName("", v) != nil && r.ValueAsStringByName("y") == "" && t.ColumnIndex("y") == -1, "no column with that name")
	c := t.CloneRow(r)
	got, null, err := k.read(c, p)
	vndAssert(err == nil && !null && vhIdentical(got, v), "a copy has the same values")
	r.SetValue(p, nil)
	_, null, err = k.read(r, p)
	vndAssert(err == nil && null, "a value can be removed")
	got, null, err = k.read(c, p)
	vndAssert(err == nil && !null && vhIdentical(got, v), "a copy is independent")
	vndReach("read")
}

// VH_S33_compare: rows compare by the values of the column, nulls first.
//
//verif:parts=15 unwind=1000 maxconc=1000
func VH_S33_compare() {
	p := vndPart()
	k := vhColumnKinds[p]
	t := vhAllKinds()
	l, r := t.CreateRow(), t.CreateRow()
	exact := vndChoose("exact", 2) == 1
	nl, nr := vndChoose("nullL", 2) == 1, vndChoose("nullR", 2) == 1
	var lv, rv interface{}
	if !nl {
		lv = k.any("l")
		l.SetValue(p, lv)
	}
	if !nr {
		rv = k.any("r")
		r.SetValue(p, rv)
	}
	got, err := CompareDataRowColumns(l, r, p, exact)
	vndAssert(err == nil, "columns of one type compare")
	switch {
	case nl && nr:
		vndAssert(got == 0, "nulls are equal")
	case nl:
		vndAssert(got == -1, "a null comes first")
	case nr:
		vndAssert(got == 1, "a null comes first")
	default:
		vndAssert(got == vhSorted(lv, rv, exact), "the order of the values")
	}
	_, err = CompareDataRowColumns(l, r, 15, exact)
	vndAssert(err != nil, "no column at that index")
	u := NewDataSet().CreateTable("U")
	for i := 0; i < 15; i++ {
		u.AddColumn(u.CreateColumn("u", vhColumnKinds[(i+1)%15].typ, ""))
	}
	_, err = CompareDataRowColumns(l, u.CreateRow(), p, exact)
	vndAssert(err != nil, "columns of different types do not compare")
	vndReach("compared")
}

// vhComputed: a table with a column C of the given type computed by the expression, after those of the test table.
func vhComputed(typ DataTypeEnum, expression string) *DataTable {
	_, t := vhTable()
	t.AddColumn(t.CreateColumn("C", typ, expression))
	return t
}

// vhInteger: v as a value of an integer or boolean type, if in its range.
func vhInteger(v int64, typ DataTypeEnum) (interface{}, bool) {
	switch typ {
	case DataType.Boolean:
		return v != 0, true
	case DataType.Int8:
		return int8(v), v >= -128 && v < 128
	case DataType.Int16:
		return int16(v), v >= -1<<15 && v < 1<<15
	case DataType.Int32:
		return int32(v), v >= -1<<31 && v < 1<<31
	case DataType.Int64:
		return v, true
	case DataType.UInt8:
		return uint8(v), v >= 0 && v < 256
	case DataType.UInt16:
		return uint16(v), v >= 0 && v < 1<<16
	case DataType.UInt32:
		return uint32(v), v >= 0 && v < 1<<32
	case DataType.UInt64:
		return uint64(v), v >= 0
	case DataType.Single:
		return float32(v), true
	case DataType.Double:
		return float64(v), true
	}
	return nil, false
}

// VH_S33_computed: a computed column has the value of its expression for the row, converted to its type; it cannot be set.
//
//verif:parts=15 unwind=100000 maxconc=100000
func VH_S33_computed() {
	p := vndPart()
	k := vhColumnKinds[p]
	source := "ABDSTGW"[vndChoose("source", 7)]
	t := vhComputed(k.typ, string([]byte{source}))
	row := t.CreateRow()
	t.AddRow(row)
	first := vndChoose("read before", 2) == 1
	if first {
		_, null, err := k.read(row, 8)
		vndAssert(err == nil && null, "nothing from nothing")
	}
	vndAssert(row.SetValue(8, nil) != nil && row.SetValueByName("C", nil) != nil, "a computed column cannot be set")
	var want interface{}
	known, fails := false, false
	integer := k.typ >= DataType.Int8
	switch source {
	case 'A':
		v := vndI32("a")
		row.SetValue(0, v)
		want, known = vhInteger(int64(v), k.typ)
		fails = k.typ == DataType.Guid || k.typ == DataType.DateTime
	case 'B':
		v := vndI64("b")
		row.SetValue(1, v)
		want, known = vhInteger(v, k.typ)
		fails = k.typ == DataType.Guid || k.typ == DataType.DateTime
	case 'D':
		v := vndF64("d")
		fails = k.typ == DataType.Guid || k.typ == DataType.DateTime
		switch {
		case k.typ == DataType.String:
			v = 2.5
			want, known = "2.500000", true
		case k.typ == DataType.Decimal:
			v = []float64{2.5, -3, math.Inf(1), math.NaN()}[vndChoose("double", 4)]
			want, known = decimal.New(25, -1), v == 2.5
			fails = v > 3 || v != v
		case k.typ == DataType.Boolean:
			want, known = v != 0, true
		case k.typ == DataType.Single:
			want, known = float32(v), true
		case k.typ == DataType.Double:
			want, known = v, true
		case integer:
			vndAssume(v > -1<<62 && v < 1<<62)
			want, known = vhInteger(int64(v), k.typ)
		}
		row.SetValue(2, v)
	case 'S':
		if k.typ == DataType.String {
			v := vhText("s", 2)
			row.SetValue(3, v)
			want, known = v, true
			break
		}
		c := vndChoose("text", 4)
		if k.typ == DataType.DateTime {
			c = 4
		}
		row.SetValue(3, []string{"7", "true", "{00000000-0000-0000-0000-000000000007}", "x", "2020-02-29 12:34:56"}[c])
		switch c {
		case 0:
			want, known = vhInteger(7, k.typ)
			known = known && k.typ != DataType.Boolean
			fails = k.typ == DataType.Guid || k.typ == DataType.Boolean
		case 1:
			want, known = true, k.typ == DataType.Boolean
			fails = !known
		case 2:
			want, known = guid.Guid{15: 7}, k.typ == DataType.Guid
			fails = !known
		case 3:
			fails = true
		default:
			want, known = time.Date(2020, 2, 29, 12, 34, 56, 0, time.UTC), true
		}
	case 'T':
		v := vndBool("t")
		row.SetValue(4, v)
		n := int64(0)
		if v {
			n = 1
		}
		want, known = vhInteger(n, k.typ)
		if k.typ == DataType.String {
			want, known = map[bool]string{true: "true", false: "false"}[v], true
		}
		fails = k.typ == DataType.Guid || k.typ == DataType.DateTime
	case 'G':
		var g guid.Guid
		copy(g[:], vndBytes("g", 16))
		row.SetValue(5, g)
		want, known = g, k.typ == DataType.Guid
		fails = k.typ != DataType.Guid && k.typ != DataType.String
	case 'W':
		s := vndI64("w") >> 24
		if k.typ == DataType.String {
			s = 86399
		}
		w := time.Unix(s, 0).UTC()
		row.SetValue(6, w)
		want, known = vhInteger(s, k.typ)
		switch k.typ {
		case DataType.DateTime:
			want, known = w, true
		}
		fails = k.typ == DataType.Guid
	}
	got, null, err := k.read(row, 8)
	named, nullN, errN := k.byName(row, "c")
	as, errA := row.Value(8)
	asN, errAN := row.ValueByName("C")
	if fails {
		vndAssert(err != nil && errN != nil && errA != nil && errAN != nil, "no value of that type")
		vndAssert(row.ValueAsString(8) == "", "no text for a value that cannot be made")
		vndReach("refused")
		return
	}
	vndAssert(err == nil && !null && errN == nil && !nullN && errA == nil && errAN == nil, "a value")
	vndAssert(!known || vhIdentical(got, want), "the converted value")
	vndAssert(vhIdentical(named, got) && vhIdentical(as, got) && vhIdentical(asN, got), "the same value by index and by name")
	vndReach("computed")
}

// VH_S33_follow: a computed column follows the values of its row, also through another computed column, and is null with them.
//
//verif:unwind=100000 maxconc=100000
func VH_S33_follow() {
	t := vhComputed(DataType.Int64, "A + 1")
	t.AddColumn(t.CreateColumn("E", DataType.Int64, "C * 2"))
	r1, r2 := t.CreateRow(), t.CreateRow()
	t.AddRow(r1)
	t.AddRow(r2)
	x := []int32{vndI32("x"), vndI32("y"), vndI32("z")}
	for i := range x {
		vndAssume(x[i] > -1000 && x[i] < 1000)
	}
	check := func(r *DataRow, v int32) {
		c, null, err := r.Int64Value(8)
		vndAssert(err == nil && !null && c == int64(v)+1, "the value of the expression")
		e, null, err := r.Int64Value(9)
		vndAssert(err == nil && !null && e == 2*(int64(v)+1), "the value of the expression of an expression")
	}
	r1.SetValue(0, x[0])
	r2.SetValue(0, x[1])
	check(r1, x[0])
	check(r2, x[1])
	r1.SetValue(0, x[2])
	check(r1, x[2])
	check(r2, x[1])
	copied := t.CloneRow(r1)
	r1.SetValue(0, nil)
	_, null, err := r1.Int64Value(9)
	vndAssert(err == nil && null, "null with the values it comes from")
	check(copied, x[2])
	vndReach("followed")
}

// VH_S33_rows: rows stay in the order added; a selection keeps that order, up to the limit.
//
//verif:unwind=100000 maxconc=100000
func VH_S33_rows() {
	_, t := vhTable()
	n := vndChoose("rows", 4)
	limit := vndChoose("limit", 5) - 1
	var rows []*DataRow
	var v []int32
	for i := 0; i < n; i++ {
		r := t.CreateRow()
		v = append(v, vndI32([]string{"a", "b", "c"}[i]))
		r.SetValue(0, v[i])
		t.AddRow(r)
		rows = append(rows, r)
	}
	vndAssert(t.RowCount() == n && t.Row(-1) == nil && t.Row(n) == nil, "rows")
	var want []*DataRow
	for i := 0; i < n; i++ {
		vndAssert(t.Row(i) == rows[i] && t.Row(i).Parent() == t, "rows in the order added")
		if v[i] > 5 && (limit < 0 || len(want) < limit) {
			want = append(want, rows[i])
		}
	}
	var got []*DataRow
	var err error
	if limit == 0 || vndChoose("by", 2) == 0 {
		got = t.RowsWhere(func(r *DataRow) bool { a, _, _ := r.Int32Value(0); return a > 5 }, limit)
	} else {
		got, err = t.Select("A > 5", "", limit)
	}
	vndAssert(err == nil && len(got) == len(want), "as many rows as match")
	for i := range want {
		vndAssert(got[i] == want[i], "the rows that match")
	}
	vndReach("selected")
}
