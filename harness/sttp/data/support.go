package data

import (
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/guid"
)

// vhRow is what one record of the test table holds; the n* flags mark missing values.
type vhRow struct {
	a                          int32
	b                          int64
	d                          float64
	s                          string
	t                          bool
	g                          guid.Guid
	w                          time.Time
	na, nb, nd, ns, nt, ng, nw bool
	u                          string
	nu                         bool
	row                        *DataRow
}

// vhTable: a table T with columns A Int32, B Int64, D Double, S String, T Boolean, G Guid, W DateTime, U String.
func vhTable() (*DataSet, *DataTable) {
	ds := NewDataSet()
	t := ds.CreateTable("T")
	t.AddColumn(t.CreateColumn("A", DataType.Int32, ""))
	t.AddColumn(t.CreateColumn("B", DataType.Int64, ""))
	t.AddColumn(t.CreateColumn("D", DataType.Double, ""))
	t.AddColumn(t.CreateColumn("S", DataType.String, ""))
	t.AddColumn(t.CreateColumn("T", DataType.Boolean, ""))
	t.AddColumn(t.CreateColumn("G", DataType.Guid, ""))
	t.AddColumn(t.CreateColumn("W", DataType.DateTime, ""))
	t.AddColumn(t.CreateColumn("U", DataType.String, ""))
	ds.AddTable(t)
	return ds, t
}

// vhText: any printable-ASCII text of n characters.
func vhText(name string, n int) string {
	b := vndBytes(name, n)
	ok := true
	for _, c := range b {
		ok = vndAnd(ok, vndAnd(c >= 0x20, c < 0x7f))
	}
	vndAssume(ok)
	return string(b)
}

func vndAnd(a, b bool) bool { return a && b }

// vhUpper is the upper case form of ASCII text.
func vhUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// vhFill: any values; kinds names the columns that get one ("ABDSTGWU"), nulls those that may be missing instead.
func vhFill(t *DataTable, kinds, nulls string, text int) *vhRow {
	r := &vhRow{row: t.CreateRow()}
	null := func(k string) bool { return vhHas(nulls, k) && vndChoose("null"+k, 2) == 1 }
	set := func(k string, i int, v interface{}) bool {
		if !vhHas(kinds, k) || null(k) {
			return true
		}
		r.row.SetValue(i, v)
		return false
	}
	r.na, r.nb, r.nd, r.ns, r.nt, r.ng, r.nw, r.nu = true, true, true, true, true, true, true, true
	if vhHas(kinds, "A") {
		r.a = vndI32("a")
		r.na = set("A", 0, r.a)
	}
	if vhHas(kinds, "B") {
		r.b = vndI64("b")
		r.nb = set("B", 1, r.b)
	}
	if vhHas(kinds, "D") {
		r.d = vndF64("d")
		r.nd = set("D", 2, r.d)
	}
	if vhHas(kinds, "S") {
		r.s = vhText("s", text)
		r.ns = set("S", 3, r.s)
	}
	if vhHas(kinds, "T") {
		r.t = vndBool("t")
		r.nt = set("T", 4, r.t)
	}
	if vhHas(kinds, "G") {
		var g guid.Guid
		copy(g[:], vndBytes("g", 16))
		r.g = g
		r.ng = set("G", 5, r.g)
	}
	if vhHas(kinds, "W") {
		r.w = time.Unix(vndI64("w")>>24, int64(vndInt("ns", 0, 999999999))).UTC()
		r.nw = set("W", 6, r.w)
	}
	if vhHas(kinds, "U") {
		r.u = vhText("u", vndChoose("lengthU", 3))
		r.nu = set("U", 7, r.u)
	}
	t.AddRow(r.row)
	return r
}

func vhHas(set, k string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == k[0] {
			return true
		}
	}
	return false
}

func vhListed(rows []*DataRow, r *DataRow) int {
	n := 0
	for _, x := range rows {
		if x == r {
			n++
		}
	}
	return n
}

// The pools of package regexp hold nothing.
func vrt_syncPool_Get(p *sync.Pool) any {
	if p.New == nil {
		return nil
	}
	return p.New()
}

func vrt_syncPool_Put(p *sync.Pool, x any) {}
