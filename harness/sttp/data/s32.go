package data

import (
	"time"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/shopspring/decimal"
)

// vhXml: a document with one table T of the given field definitions, and records.
func vhXml(fields, records string) []byte {
	return []byte("<D><xs:schema id='D' xmlns:xs='http://www.w3.org/2001/XMLSchema' xmlns:ext='urn:schemas-microsoft-com:xml-msdata'>" +
		"<xs:element name='D'><xs:complexType><xs:choice>" +
		"<xs:element name='T'><xs:complexType><xs:sequence>" + fields + "</xs:sequence></xs:complexType></xs:element>" +
		"<xs:element name='Other'><xs:complexType><xs:sequence><xs:element name='X' type='xs:string'/></xs:sequence></xs:complexType></xs:element>" +
		"</xs:choice></xs:complexType></xs:element></xs:schema>" + records + "</D>")
}

func vhField(name, typ string) string { return "<xs:element name='" + name + "' type='xs:" + typ + "'/>" }

// vhLoad: the table T of the document.
func vhLoad(fields, records string) *DataTable {
	ds := NewDataSet()
	err := ds.ParseXml(vhXml(fields, records))
	vndAssert(err == nil, "a well-formed document is loaded")
	vndAssert(ds.TableCount() == 2 && ds.Table("t") != nil && ds.Table("OTHER") != nil, "the tables of the schema")
	return ds.Table("T")
}

// vhDigits: any n decimal digits, with the number they stand for.
func vhDigits(name string, n int) (string, int64) {
	b := vndBytes(name, n)
	v := int64(0)
	for i := range b {
		vndAssume(vndAnd(b[i] >= '0', b[i] <= '9'))
		v = v*10 + int64(b[i]-'0')
	}
	return string(b), v
}

var vhInts = []struct {
	typ    string
	signed bool
	bits   int
	read   func(r *DataRow) (uint64, bool, error)
}{
	{"byte", true, 8, func(r *DataRow) (uint64, bool, error) { v, n, e := r.Int8Value(0); return uint64(v), n, e }},
	{"short", true, 16, func(r *DataRow) (uint64, bool, error) { v, n, e := r.Int16Value(0); return uint64(v), n, e }},
	{"int", true, 32, func(r *DataRow) (uint64, bool, error) { v, n, e := r.Int32Value(0); return uint64(v), n, e }},
	{"long", true, 64, func(r *DataRow) (uint64, bool, error) { v, n, e := r.Int64Value(0); return uint64(v), n, e }},
	{"unsignedByte", false, 8, func(r *DataRow) (uint64, bool, error) { v, n, e := r.UInt8Value(0); return uint64(v), n, e }},
	{"unsignedShort", false, 16, func(r *DataRow) (uint64, bool, error) { v, n, e := r.UInt16Value(0); return uint64(v), n, e }},
	{"unsignedInt", false, 32, func(r *DataRow) (uint64, bool, error) { v, n, e := r.UInt32Value(0); return uint64(v), n, e }},
	{"unsignedLong", false, 64, func(r *DataRow) (uint64, bool, error) { v, n, e := r.UInt64Value(0); return v, n, e }},
}

// VH_S32_integers: integer fields of each type hold the number written in the record.
//
//verif:parts=8 unwind=10000 maxconc=10000
func VH_S32_integers() {
	k := vhInts[vndPart()]
	n := 1 + vndChoose("digits", 3)
	text, v := vhDigits("d", n)
	if k.bits == 8 {
		vndAssume(v < 128)
	}
	if k.signed && vndChoose("minus", 2) == 1 {
		text, v = "-"+text, -v
	}
	t := vhLoad(vhField("F", k.typ), "<T><F>"+text+"</F></T>")
	vndAssert(t.RowCount() == 1, "one record")
	got, null, err := k.read(t.Row(0))
	vndAssert(err == nil && !null, "the field has a value of its type")
	vndAssert(got == uint64(v), "the number as written")
	vndReach("read")
}

// VH_S32_wide: integer fields hold the greatest and least numbers of their types.
//
//verif:parts=8 unwind=10000 maxconc=10000
func VH_S32_wide() {
	k := vhInts[vndPart()]
	prefix := map[int]string{8: "12", 16: "3276", 32: "214748364", 64: "922337203685477580"}[k.bits]
	base := map[int]uint64{8: 12, 16: 3276, 32: 214748364, 64: 922337203685477580}[k.bits]
	last := byte(7)
	if !k.signed {
		prefix = map[int]string{8: "25", 16: "6553", 32: "429496729", 64: "1844674407370955161"}[k.bits]
		base = map[int]uint64{8: 25, 16: 6553, 32: 429496729, 64: 1844674407370955161}[k.bits]
		last = 5
	}
	minus := k.signed && vndChoose("minus", 2) == 1
	if minus {
		last = 8
	}
	d := vndU8("d")
	vndAssume(d <= last)
	text, v := prefix+string([]byte{'0' + d}), base*10+uint64(d)
	if minus {
		text, v = "-"+text, -v
	}
	t := vhLoad(vhField("F", k.typ), "<T><F>"+text+"</F></T>")
	got, null, err := k.read(t.Row(0))
	vndAssert(err == nil && !null, "the field has a value of its type")
	vndAssert(got == v, "the number as written")
	vndReach("read")
}

// VH_S32_texts: text and GUID fields hold the written value, with entities resolved.
//
//verif:parts=3 unwind=10000 maxconc=10000
func VH_S32_texts() {
	switch vndPart() {
	case 0:
		b := vndBytes("b", 3)
		for i := range b {
			vndAssume(vndAnd(vndAnd(b[i] >= 0x20, b[i] < 0x7f), vndAnd(b[i] != '<', vndAnd(b[i] != '&', b[i] != '>'))))
		}
		t := vhLoad(vhField("F", "string"), "<T><F>"+string(b)+"</F></T>")
		got, null, err := t.Row(0).StringValue(0)
		vndAssert(err == nil && !null && got == string(b), "the text as written")
	case 1:
		c := string([]byte{'a' + vndU8("c")&15})
		e := vndChoose("entity", 6)
		t := vhLoad(vhField("F", "string"), "<T><F>"+c+[]string{"&amp;", "&lt;", "&gt;", "&quot;", "&#x41;", "<![CDATA[<&]]>"}[e]+c+"</F></T>")
		got, null, err := t.Row(0).StringValue(0)
		vndAssert(err == nil && !null && got == c+[]string{"&", "<", ">", "\"", "A", "<&"}[e]+c, "entities stand for their character")
	default:
		x, y := vndU8("x")&15, vndU8("y")&15
		hex := string([]byte{"0123456789abcdef"[x], "0123456789abcdef"[y]})
		t := vhLoad("<xs:element name='F' ext:DataType='System.Guid' type='xs:string'/>", "<T><F>12345678-9abc-def0-1234-56789abcde"+hex+"</F></T>")
		vndAssert(t.Column(0).Type() == DataType.Guid, "the extended type")
		got, null, err := t.Row(0).GuidValue(0)
		want, _ := guid.Parse("12345678-9abc-def0-1234-56789abcde00")
		vndAssert(err == nil && !null, "the field has a value")
		for i := 0; i < 15; i++ {
			vndAssert(got[i] == want[i], "the GUID as written")
		}
		vndAssert(got[15] == x<<4|y, "the GUID as written")
	}
	vndReach("read")
}

// VH_S32_others: boolean, floating-point, decimal and date fields hold the written value.
//
//verif:unwind=10000 maxconc=10000
func VH_S32_others() {
	c := vndChoose("case", 14)
	fields := vhField("B", "boolean") + vhField("S", "float") + vhField("D", "double") + vhField("M", "decimal") + vhField("W", "dateTime")
	one := func(name, text string) *DataRow {
		t := vhLoad(fields, "<T><"+name+">"+text+"</"+name+"></T>")
		vndAssert(t.ColumnCount() == 5 && t.RowCount() == 1, "columns and records")
		r := t.Row(0)
		for i := 0; i < 5; i++ {
			v, err := r.Value(i)
			vndAssert(err == nil && (v != nil) == (t.Column(i).Name() == name), "only the written field has a value")
		}
		return r
	}
	switch {
	case c < 2:
		v, null, err := one("B", []string{"true", "false"}[c]).BooleanValue(0)
		vndAssert(err == nil && !null && v == (c == 0), "the boolean as written")
	case c < 4:
		v, null, err := one("S", []string{"-1.5", "3E2"}[c-2]).SingleValue(1)
		vndAssert(err == nil && !null && v == []float32{-1.5, 300}[c-2], "the number as written")
	case c < 6:
		v, null, err := one("D", []string{"-0.125", "1E3"}[c-4]).DoubleValue(2)
		vndAssert(err == nil && !null && v == []float64{-0.125, 1000}[c-4], "the number as written")
	case c < 8:
		v, null, err := one("M", []string{"-12.75", "7"}[c-6]).DecimalValue(3)
		vndAssert(err == nil && !null && v.Equal([]decimal.Decimal{decimal.New(-1275, -2), decimal.New(7, 0)}[c-6]), "the number as written")
	case c < 10:
		v, null, err := one("D", []string{"123456789.25", "1E300"}[c-8]).DoubleValue(2)
		vndAssert(err == nil && !null && v == []float64{123456789.25, 1e300}[c-8], "the number with all its digits")
	default:
		v, null, err := one("W", []string{"2020-02-29T12:34:56.78+00:00", "2020-02-29T07:34:56.78-05:00", "2020-02-29T12:34:56.78Z", "2020-02-29T12:34:56.7800000+00:00"}[c-10]).DateTimeValue(4)
		vndAssert(err == nil && !null && v.Equal(time.Date(2020, 2, 29, 12, 34, 56, 780000000, time.UTC)), "the date as written")
	}
	vndReach("read")
}

// VH_S32_records: records of a table become its rows, in order, with the fields they contain; everything else is left out.
//
//verif:unwind=10000 maxconc=10000 parts=4
func VH_S32_records() {
	n := vndPart()
	var want []*string
	text := ""
	for i := 0; i < n; i++ {
		id := []string{"0", "1", "2"}[i]
		if vndChoose("between"+id, 2) == 1 {
			text += "<Other><X>q</X><A>r</A></Other><Unknown><A>s</A></Unknown>"
		}
		c := string([]byte{'a' + vndU8("c"+id)&15})
		switch vndChoose("shape"+id, 3) {
		case 0:
			text += "<T><A>" + c + "</A></T>"
			want = append(want, &c)
		case 1:
			text += "<T><Z>1</Z><a>" + c + "</a><B>5</B></T>"
			want = append(want, &c)
		case 2:
			text += "<T><B>5</B></T>"
			want = append(want, nil)
		}
	}
	t := vhLoad(vhField("A", "string")+vhField("B", "int"), text)
	vndAssert(t.RowCount() == n, "a row for each record")
	for i := 0; i < n; i++ {
		v, null, err := t.Row(i).StringValue(0)
		vndAssert(err == nil && null == (want[i] == nil), "fields that are not written have no value")
		vndAssert(null || v == *want[i], "rows in the order of the records")
	}
	vndReach("loaded")
}

// VH_S32_schema: columns have the names, types and expressions of the schema.
//
//verif:unwind=100000 maxconc=100000
func VH_S32_schema() {
	types := []string{"string", "boolean", "dateTime", "float", "double", "decimal", "byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"}
	want := []DataTypeEnum{DataType.String, DataType.Boolean, DataType.DateTime, DataType.Single, DataType.Double, DataType.Decimal, DataType.Int8, DataType.Int16, DataType.Int32, DataType.Int64, DataType.UInt8, DataType.UInt16, DataType.UInt32, DataType.UInt64}
	k := vndChoose("type", len(types))
	c := string([]byte{'a' + vndU8("c")&15})
	t := vhLoad(vhField("F"+c, types[k])+vhField("G", "unknown")+"<xs:element name='H'/><xs:element type='xs:string'/><xs:element name='N' ext:DataType='System.Guid' type='xs:unknown'/>"+
		"<xs:element name='K' ext:Expression='Len(L) &gt; 2' type='xs:boolean'/><xs:element name='L' DataType='System.Guid' Expression='1' type='xs:string'/>"+
		"<xs:element name='M' z:DataType='System.Guid' z:Expression='1' type='xs:string' xmlns:z='urn:other'/>", "<T/>")
	vndAssert(t.ColumnCount() == 4 && t.RowCount() == 1, "columns of known types")
	vndAssert(t.Column(0).Name() == "F"+c && t.Column(0).Type() == want[k] && t.Column(0).Index() == 0 && t.Column(0).Expression() == "", "name and type")
	vndAssert(t.Column(1).Name() == "K" && t.Column(1).Expression() == "Len(L) > 2" && t.Column(1).Type() == DataType.Boolean, "the expression")
	vndAssert(t.Column(2).Name() == "L" && t.Column(2).Type() == DataType.String && t.Column(2).Expression() == "", "attributes of other namespaces are ignored")
	vndAssert(t.Column(3).Name() == "M" && t.Column(3).Type() == DataType.String && t.Column(3).Expression() == "", "attributes of other namespaces are ignored")
	vndReach("loaded")
}
