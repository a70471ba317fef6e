package data

// tri is the outcome of a condition: 0 false, 1 true, 2 unknown because a value it needs is missing.
func vhB(b bool) int {
	if b {
		return 1
	}
	return 0
}

func vhTri(null bool, b bool) int {
	if null {
		return 2
	}
	return vhB(b)
}

func vhNot(x int) int {
	if x == 2 {
		return 2
	}
	return 1 - x
}

func vhAndT(x, y int) int {
	if x == 2 || y == 2 {
		return 2
	}
	return x & y
}

func vhOrT(x, y int) int {
	if x == 2 || y == 2 {
		return 2
	}
	return x | y
}

type vhCond struct {
	text, kinds, nulls string
	want               func(r *vhRow) int
}

var vhNumeric = []vhCond{
	{"A > 5", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a > 5) }},
	{"A >= B", "AB", "AB", func(r *vhRow) int { return vhTri(r.na || r.nb, int64(r.a) >= r.b) }},
	{"A < B", "AB", "AB", func(r *vhRow) int { return vhTri(r.na || r.nb, int64(r.a) < r.b) }},
	{"B <= -3", "B", "B", func(r *vhRow) int { return vhTri(r.nb, r.b <= -3) }},
	{"A = 0x1F", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a == 31) }},
	{"A == B", "AB", "AB", func(r *vhRow) int { return vhTri(r.na || r.nb, int64(r.a) == r.b) }},
	{"A <> B", "AB", "AB", func(r *vhRow) int { return vhTri(r.na || r.nb, int64(r.a) != r.b) }},
	{"A != 2", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a != 2) }},
	{"B > 5000000000", "B", "B", func(r *vhRow) int { return vhTri(r.nb, r.b > 5000000000) }},
	{"A = 2147483647", "A", "", func(r *vhRow) int { return vhTri(r.na, r.a == 2147483647) }},
	{"B = 2147483648", "B", "", func(r *vhRow) int { return vhTri(r.nb, r.b == 2147483648) }},
	{"B >= 0xFFFFFFFF", "B", "", func(r *vhRow) int { return vhTri(r.nb, r.b >= 0xFFFFFFFF) }},
	{"B < 9223372036854775807", "B", "", func(r *vhRow) int { return vhTri(r.nb, r.b < 9223372036854775807) }},
	{"A IS NULL", "A", "A", func(r *vhRow) int { return vhB(r.na) }},
	{"A IS NOT NULL", "A", "A", func(r *vhRow) int { return vhB(!r.na) }},
	{"A IN (1, 2, B)", "AB", "A", func(r *vhRow) int { return vhTri(r.na, r.a == 1 || r.a == 2 || int64(r.a) == r.b) }},
	{"A IN (B, 2, 3)", "AB", "AB", func(r *vhRow) int { return vhTri(r.na, !r.nb && int64(r.a) == r.b || r.a == 2 || r.a == 3) }},
	{"A NOT IN (1, B)", "AB", "A", func(r *vhRow) int { return vhTri(r.na, !(r.a == 1 || int64(r.a) == r.b)) }},
	{"-A > 5", "A", "A", func(r *vhRow) int { return vhTri(r.na, -r.a > 5) }},
	{"~A = 7", "A", "A", func(r *vhRow) int { return vhTri(r.na, ^r.a == 7) }},
	{"A + B > 10", "AB", "AB", func(r *vhRow) int { return vhTri(r.na || r.nb, int64(r.a)+r.b > 10) }},
	{"A - 3 < 4", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a-3 < 4) }},
	{"(A + 1) * 2 > 8", "A", "A", func(r *vhRow) int { return vhTri(r.na, (r.a+1)*2 > 8) }},
	{"A & 6 = 4", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a&6 == 4) }},
	{"A | 6 = 7", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a|6 == 7) }},
	{"A ^ 6 = 7", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a^6 == 7) }},
	{"A xor 6 = 7", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a^6 == 7) }},
	{"A << 2 = 8", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a<<2 == 8) }},
	{"A >> 2 = 2", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a>>2 == 2) }},
	{"A / 4 = 2", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a/4 == 2) }},
	{"A % 4 = 2", "A", "A", func(r *vhRow) int { return vhTri(r.na, r.a%4 == 2) }},
	{"D > 2.5E0", "D", "D", func(r *vhRow) int { return vhTri(r.nd, r.d > 2.5) }},
	{"D <= A", "AD", "AD", func(r *vhRow) int { return vhTri(r.na || r.nd, r.d <= float64(r.a)) }},
	{"D = 2.5", "D", "D", func(r *vhRow) int { return vhTri(r.nd, r.d == 2.5) }},
}

var vhLogic = []vhCond{
	{"T", "T", "T", func(r *vhRow) int { return vhTri(r.nt, r.t) }},
	{"NOT T", "T", "T", func(r *vhRow) int { return vhTri(r.nt, !r.t) }},
	{"!T", "T", "T", func(r *vhRow) int { return vhTri(r.nt, !r.t) }},
	{"T = True", "T", "T", func(r *vhRow) int { return vhTri(r.nt, r.t) }},
	{"T = tRuE", "T", "", func(r *vhRow) int { return vhTri(r.nt, r.t) }},
	{"T = FALSE", "T", "", func(r *vhRow) int { return vhTri(r.nt, !r.t) }},
	{"t aNd nOt t oR A iS nuLl", "AT", "A", func(r *vhRow) int { return vhB(r.na) }},
	{"T <> True", "T", "T", func(r *vhRow) int { return vhTri(r.nt, !r.t) }},
	{"T < True", "T", "T", func(r *vhRow) int { return vhTri(r.nt, !r.t) }},
	{"False", "T", "", func(r *vhRow) int { return 0 }},
	{"T AND A > 5", "AT", "AT", func(r *vhRow) int { return vhAndT(vhTri(r.nt, r.t), vhTri(r.na, r.a > 5)) }},
	{"T OR A > 5", "AT", "AT", func(r *vhRow) int { return vhOrT(vhTri(r.nt, r.t), vhTri(r.na, r.a > 5)) }},
	{"T && (A > 5 || B < 2)", "ABT", "A", func(r *vhRow) int {
		return vhAndT(vhTri(r.nt, r.t), vhOrT(vhTri(r.na, r.a > 5), vhTri(r.nb, r.b < 2)))
	}},
	{"(T AND A > 5) OR B < 2", "ABT", "B", func(r *vhRow) int {
		return vhOrT(vhAndT(vhTri(r.nt, r.t), vhTri(r.na, r.a > 5)), vhTri(r.nb, r.b < 2))
	}},
	{"T OR (A > 5 AND B < 2)", "ABT", "", func(r *vhRow) int {
		return vhOrT(vhTri(r.nt, r.t), vhAndT(vhTri(r.na, r.a > 5), vhTri(r.nb, r.b < 2)))
	}},
	{"NOT (A > 5)", "A", "A", func(r *vhRow) int { return vhNot(vhTri(r.na, r.a > 5)) }},
	{"NOT (T AND A > 5)", "AT", "A", func(r *vhRow) int { return vhNot(vhAndT(vhTri(r.nt, r.t), vhTri(r.na, r.a > 5))) }},
	{"A IS NULL AND T", "AT", "A", func(r *vhRow) int { return vhAndT(vhB(r.na), vhTri(r.nt, r.t)) }},
	{"a > 5 -- words", "A", "", func(r *vhRow) int { return vhB(r.a > 5) }},
	{"A > /* in between */ 5", "A", "", func(r *vhRow) int { return vhB(r.a > 5) }},
}

var vhTexts = []vhCond{
	{"S = 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) == "AB") }},
	{"S == 'a''s'", "S", "", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) == "A'S") }},
	{"S = ''''''", "S", "", func(r *vhRow) int { return vhTri(r.ns, r.s == "''") }},
	{"S == '''a'''", "S", "", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) == "'A'") }},
	{"S != 'aB'", "S", "", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) != "AB") }},
	{"S nOt LiKe 'aB%'", "S", "", func(r *vhRow) int { return vhTri(r.ns, !(len(r.s) >= 2 && vhUpper(r.s)[:2] == "AB")) }},
	{"S === 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, r.s == "aB") }},
	{"S <> 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) != "AB") }},
	{"S !== 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, r.s != "aB") }},
	{"S < 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) < "AB") }},
	{"S <= 'aB'", "S", "", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) <= "AB") }},
	{"S > 'aB'", "S", "", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) > "AB") }},
	{"S >= 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) >= "AB") }},
	{"S IN ('x', 'aB')", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) == "X" || vhUpper(r.s) == "AB") }},
	{"S IN BINARY ('x', 'aB')", "S", "S", func(r *vhRow) int { return vhTri(r.ns, r.s == "x" || r.s == "aB") }},
	{"A = 2 OR S IN (S, 'x')", "AS", "S", func(r *vhRow) int { return vhOrT(vhB(r.a == 2), vhTri(r.ns, true)) }},
	{"S NOT IN ('x', 'aB')", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) != "X" && vhUpper(r.s) != "AB") }},
	{"S NOT IN === ('x', 'aB')", "S", "", func(r *vhRow) int { return vhTri(r.ns, r.s != "x" && r.s != "aB") }},
	{"S LIKE 'aB%'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, len(r.s) >= 2 && vhUpper(r.s)[:2] == "AB") }},
	{"S LIKE '*aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, len(r.s) >= 2 && vhUpper(r.s)[len(r.s)-2:] == "AB") }},
	{"S LIKE '%aB%'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhWithin(vhUpper(r.s), "AB")) }},
	{"S LIKE BINARY 'aB*'", "S", "", func(r *vhRow) int { return vhTri(r.ns, len(r.s) >= 2 && r.s[:2] == "aB") }},
	{"S LIKE === '%aB'", "S", "", func(r *vhRow) int { return vhTri(r.ns, len(r.s) >= 2 && r.s[len(r.s)-2:] == "aB") }},
	{"S LIKE BINARY '*aB*'", "S", "", func(r *vhRow) int { return vhTri(r.ns, vhWithin(r.s, "aB")) }},
	{"S NOT LIKE '%aB%'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, !vhWithin(vhUpper(r.s), "AB")) }},
	{"S NOT LIKE BINARY 'aB%'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, !(len(r.s) >= 2 && r.s[:2] == "aB")) }},
	{"S LIKE '%'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, true) }},
	{"S LIKE 'aB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) == "AB") }},
	{"S LIKE BINARY 'aB'", "S", "", func(r *vhRow) int { return vhTri(r.ns, r.s == "aB") }},
	{"S LIKE ''", "S", "S", func(r *vhRow) int { return vhTri(r.ns, r.s == "") }},
	{"S + 'x' = 'aBX'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, vhUpper(r.s) == "AB") }},
	{"'p' + S === 'paB'", "S", "S", func(r *vhRow) int { return vhTri(r.ns, r.s == "aB") }},
}

// vhWithin: t occurs in s.
func vhWithin(s, t string) bool {
	found := false
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			found = true
		}
	}
	return found
}

var vhOther = []vhCond{
	{"G = '{12345678-9abc-def0-1234-56789abcdef0}'", "G", "G", func(r *vhRow) int { return vhTri(r.ng, r.g == vhGuid) }},
	{"G <> {12345678-9abc-def0-1234-56789abcdef0}", "G", "G", func(r *vhRow) int { return vhTri(r.ng, r.g != vhGuid) }},
	{"G IN (12345678-9abc-def0-1234-56789abcdef0)", "G", "G", func(r *vhRow) int { return vhTri(r.ng, r.g == vhGuid) }},
	{"W < #2020-01-02#", "W", "W", func(r *vhRow) int { return vhTri(r.nw, r.w.Unix() < 1577923200) }},
	{"W >= #2020-01-02 03:04:05#", "W", "W", func(r *vhRow) int { return vhTri(r.nw, r.w.Unix() >= 1577923200+3*3600+4*60+5) }},
	{"W > #2020-01-02 03:04:05.1234567#", "W", "", func(r *vhRow) int {
		return vhTri(r.nw, r.w.Unix() > 1577934245 || r.w.Unix() == 1577934245 && r.w.Nanosecond() > 123456700)
	}},
	{"W < #2020-01-02T03:04:05+02:00#", "W", "", func(r *vhRow) int { return vhTri(r.nw, r.w.Unix() < 1577934245-7200) }},
	{"W = #1/2/2020#", "W", "W", func(r *vhRow) int { return vhTri(r.nw, r.w.Unix() == 1577923200 && r.w.Nanosecond() == 0) }},
}

var vhGuid = [16]byte{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0}

func vhWhere(conds []vhCond, parts int) {
	p := vndPart()
	n := (len(conds) - p + parts - 1) / parts
	c := conds[vndChoose("which", n)*parts+p]
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, "FILTER T WHERE "+c.text, true)
	vndAssert(err == nil, "a well-formed filter is accepted")
	text := 0
	if vhHas(c.kinds, "S") {
		text = vndChoose("length", 4)
	}
	r1, r2 := vhFill(t, c.kinds, c.nulls, text), vhFill(t, c.kinds, "", text)
	rows, err := tree.Select(t)
	vndAssert(err == nil, "a well-typed filter is accepted")
	w1, w2 := c.want(r1), c.want(r2)
	vndAssert((vhListed(rows, r1.row) == 1) == (w1 == 1), "a row is selected exactly when it satisfies the filter")
	vndAssert((vhListed(rows, r2.row) == 1) == (w2 == 1), "a second row is selected exactly when it satisfies the filter")
	want := 0
	if w1 == 1 {
		want++
	}
	if w2 == 1 {
		want++
	}
	vndAssert(len(rows) == want, "nothing else is selected")
	if len(rows) == 2 {
		vndAssert(rows[0] == r1.row, "rows keep their order")
	}
	vndReach("selected")
}

// VH_S24_numbers: filters over numbers, written as text: comparisons, arithmetic, bitwise operators, IN, IS NULL.
//
//verif:parts=6 unwind=100000 maxconc=100000
func VH_S24_numbers() { vhWhere(vhNumeric, 6) }

// VH_S24_logic: conditions combined with AND, OR, NOT and parentheses.
//
//verif:parts=6 unwind=100000 maxconc=100000
func VH_S24_logic() { vhWhere(vhLogic, 6) }

// VH_S24_texts: filters over text of up to three characters, ignoring and respecting case, with IN and LIKE.
//
//verif:parts=8 unwind=100000 maxconc=100000
func VH_S24_texts() { vhWhere(vhTexts, 8) }

// VH_S24_others: filters over identifiers and times.
//
//verif:parts=3 unwind=100000 maxconc=100000
func VH_S24_others() { vhWhere(vhOther, 3) }

// vhWide is a record of a table with the remaining numeric column types.
type vhWide struct {
	i8  int8
	i16 int16
	u8  uint8
	u16 uint16
	u32 uint32
	u64 uint64
	f32 float32
}

var vhTypes = []struct {
	text string
	want func(r *vhWide) bool
}{
	{"I8 < -100", func(r *vhWide) bool { return r.i8 < -100 }},
	{"I8 + 100 > 200", func(r *vhWide) bool { return int(r.i8)+100 > 200 }},
	{"I16 > 32000", func(r *vhWide) bool { return r.i16 > 32000 }},
	{"I16 = -32768", func(r *vhWide) bool { return r.i16 == -32768 }},
	{"U8 >= 200", func(r *vhWide) bool { return r.u8 >= 200 }},
	{"U8 = I8", func(r *vhWide) bool { return int(r.u8) == int(r.i8) }},
	{"U16 > 40000", func(r *vhWide) bool { return r.u16 > 40000 }},
	{"U16 > I16", func(r *vhWide) bool { return int(r.u16) > int(r.i16) }},
	{"U32 > 3000000000", func(r *vhWide) bool { return r.u32 > 3000000000 }},
	{"U32 + 5 > 4294967296", func(r *vhWide) bool { return uint64(r.u32)+5 > 4294967296 }},
	{"U64 < 5", func(r *vhWide) bool { return r.u64 < 5 }},
	{"U64 > 4294967296", func(r *vhWide) bool { return r.u64 > 4294967296 }},
	{"U64 > 1.5E19", func(r *vhWide) bool { return float64(r.u64) > 1.5e19 }},
	{"F32 > 0.1E0", func(r *vhWide) bool { return float64(r.f32) > 0.1 }},
	{"F32 <= U16", func(r *vhWide) bool { return float64(r.f32) <= float64(r.u16) }},
}

// VH_S24_types: filters over columns of every numeric type, at any value of the type.
//
//verif:parts=5 unwind=100000 maxconc=100000
func VH_S24_types() {
	c := vhTypes[5*vndChoose("which", 3)+vndPart()]
	ds := NewDataSet()
	t := ds.CreateTable("T")
	for i, k := range []DataTypeEnum{DataType.Int8, DataType.Int16, DataType.UInt8, DataType.UInt16, DataType.UInt32, DataType.UInt64, DataType.Single} {
		t.AddColumn(t.CreateColumn([]string{"I8", "I16", "U8", "U16", "U32", "U64", "F32"}[i], k, ""))
	}
	ds.AddTable(t)
	tree, err := GenerateExpressionTree(t, "FILTER T WHERE "+c.text, true)
	vndAssert(err == nil, "a well-formed filter is accepted")
	r := &vhWide{vndI8("i8"), vndI16("i16"), vndU8("u8"), vndU16("u16"), vndU32("u32"), vndU64("u64"), vndF32("f32")}
	row := t.CreateRow()
	for i, v := range []interface{}{r.i8, r.i16, r.u8, r.u16, r.u32, r.u64, r.f32} {
		row.SetValue(i, v)
	}
	t.AddRow(row)
	t.AddRow(t.CreateRow())
	rows, err := tree.Select(t)
	vndAssert(err == nil, "a well-typed filter is accepted")
	if c.want(r) {
		vndAssert(len(rows) == 1 && rows[0] == row, "a row is selected when it satisfies the filter")
		vndReach("selected")
	} else {
		vndAssert(len(rows) == 0, "a row is not selected when it does not satisfy the filter")
		vndReach("not selected")
	}
}
