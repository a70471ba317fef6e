package data

import "bytes"

// vhCmp orders two records by one column: missing values first, then by value; text ignores case unless exact.
func vhCmp(x, y *vhRow, col byte, exact bool) int {
	null := func(nx, ny bool) (int, bool) {
		switch {
		case nx && ny:
			return 0, true
		case nx:
			return -1, true
		case ny:
			return 1, true
		}
		return 0, false
	}
	three := func(less, more bool) int {
		if less {
			return -1
		}
		if more {
			return 1
		}
		return 0
	}
	switch col {
	case 'A':
		if c, ok := null(x.na, y.na); ok {
			return c
		}
		return three(x.a < y.a, x.a > y.a)
	case 'B':
		if c, ok := null(x.nb, y.nb); ok {
			return c
		}
		return three(x.b < y.b, x.b > y.b)
	case 'D':
		if c, ok := null(x.nd, y.nd); ok {
			return c
		}
		return three(x.d < y.d, x.d > y.d)
	case 'S':
		if c, ok := null(x.ns, y.ns); ok {
			return c
		}
		a, b := x.s, y.s
		if !exact {
			a, b = vhUpper(a), vhUpper(b)
		}
		return three(a < b, a > b)
	case 'T':
		if c, ok := null(x.nt, y.nt); ok {
			return c
		}
		return three(!x.t && y.t, x.t && !y.t)
	case 'G':
		if c, ok := null(x.ng, y.ng); ok {
			return c
		}
		c := bytes.Compare(x.g[:], y.g[:])
		return three(c < 0, c > 0)
	default:
		if c, ok := null(x.nw, y.nw); ok {
			return c
		}
		return three(x.w.Before(y.w), x.w.After(y.w))
	}
}

type vhTerm struct {
	col         byte
	desc, exact bool
}

type vhSort struct {
	text, kinds, nulls string
	terms              []vhTerm
	rows, texts        int
}

var vhSorts = []vhSort{
	{"A", "A", "A", []vhTerm{{'A', false, false}}, 3, 0},
	{"A ASC", "A", "", []vhTerm{{'A', false, false}}, 4, 0},
	{"A DESC", "A", "A", []vhTerm{{'A', true, false}}, 3, 0},
	{"B DESC", "B", "", []vhTerm{{'B', true, false}}, 3, 0},
	{"D", "D", "D", []vhTerm{{'D', false, false}}, 2, 0},
	{"T", "T", "T", []vhTerm{{'T', false, false}}, 3, 0},
	{"T DESC", "T", "", []vhTerm{{'T', true, false}}, 3, 0},
	{"G", "G", "G", []vhTerm{{'G', false, false}}, 2, 0},
	{"W DESC", "W", "W", []vhTerm{{'W', true, false}}, 3, 0},
	{"T, A DESC", "AT", "", []vhTerm{{'T', false, false}, {'A', true, false}}, 3, 0},
	{"T DESC, B, A DESC", "ABT", "", []vhTerm{{'T', true, false}, {'B', false, false}, {'A', true, false}}, 2, 0},
}

var vhTextSorts = []vhSort{
	{"S", "S", "S", []vhTerm{{'S', false, false}}, 2, 2},
	{"S DESC", "S", "", []vhTerm{{'S', true, false}}, 3, 1},
	{"BINARY S", "S", "S", []vhTerm{{'S', false, true}}, 2, 2},
	{"=== S DESC", "S", "", []vhTerm{{'S', true, true}}, 2, 2},
}

func vhBefore(x, y *vhRow, terms []vhTerm) int {
	for _, t := range terms {
		c := vhCmp(x, y, t.col, t.exact)
		if t.desc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// VH_S25_order: the rows of a sorted selection are all the matching rows, each once, in the requested order.
//
//verif:nomerge parts=6 unwind=100000 maxconc=100000
func VH_S25_order() { vhOrder(vhSorts, 6) }

// VH_S25_texts: the same for text.
//
//verif:parts=4 unwind=100000 maxconc=100000
func VH_S25_texts() { vhOrder(vhTextSorts, 4) }

func vhOrder(sorts []vhSort, parts int) {
	p := vndPart()
	n := (len(sorts) - p + parts - 1) / parts
	c := sorts[vndChoose("which", n)*parts+p]
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, "FILTER T WHERE True ORDER BY "+c.text, true)
	vndAssert(err == nil, "a well-formed filter is accepted")
	var rs []*vhRow
	for i := 0; i < c.rows; i++ {
		r := vhFill(t, c.kinds, c.nulls, c.texts)
		vndAssume(r.d == r.d)
		rs = append(rs, r)
	}
	rows, err := tree.Select(t)
	vndAssert(err == nil, "a well-typed filter is accepted")
	vndAssert(len(rows) == len(rs), "sorting keeps every row")
	var got []*vhRow
	for _, x := range rows {
		for _, r := range rs {
			if r.row == x {
				got = append(got, r)
			}
		}
	}
	vndAssert(len(got) == len(rs), "only rows of the table are returned")
	for i, r := range rs {
		vndAssert(vhListed(rows, r.row) == 1, "every row is returned once")
		_ = i
	}
	for i := 0; i+1 < len(got); i++ {
		vndAssert(vhBefore(got[i], got[i+1], c.terms) <= 0, "rows are in the requested order")
	}
	vndReach("sorted")
}

// VH_S25_top: a TOP clause limits a selection to the first matching rows.
//
//verif:parts=4 unwind=100000 maxconc=100000
func VH_S25_top() {
	limit := vndPart()
	_, t := vhTable()
	text := "FILTER TOP " + string(rune('0'+limit)) + " T WHERE A > 5"
	sorted := vndChoose("sorted", 2) == 1
	if sorted {
		text += " ORDER BY A"
	}
	tree, err := GenerateExpressionTree(t, text, true)
	vndAssert(err == nil, "a well-formed filter is accepted")
	var rs []*vhRow
	matches := 0
	for i := 0; i < 3; i++ {
		r := vhFill(t, "A", "", 0)
		rs = append(rs, r)
		if r.a > 5 {
			matches++
		}
	}
	rows, err := tree.Select(t)
	vndAssert(err == nil, "a well-typed filter is accepted")
	want := matches
	if want > limit {
		want = limit
	}
	vndAssert(len(rows) == want, "as many rows as match, up to the limit")
	seen := 0
	for _, r := range rs {
		k := vhListed(rows, r.row)
		if r.a > 5 {
			vndAssert(k <= 1, "no row twice")
			if !sorted && seen < limit {
				vndAssert(k == 1, "the first matching rows are the ones returned")
			}
			seen++
		} else {
			vndAssert(k == 0, "only matching rows are returned")
		}
	}
	for i := 0; sorted && i+1 < len(rows); i++ {
		x, _, _ := rows[i].Int32Value(0)
		y, _, _ := rows[i+1].Int32Value(0)
		vndAssert(x <= y, "a limited selection is still sorted")
	}
	vndReach("limited")
}

// VH_S25_select: DataTable.Select with a filter, a sort order and a limit.
//
//verif:parts=6 unwind=100000 maxconc=100000
func VH_S25_select() {
	p := vndPart()
	limit := p%3 - 1 // -1, 0, 1: zero and less mean no limit
	if limit == 1 {
		limit = 1 + vndChoose("more", 2)
	}
	filter, order := "", ""
	if p >= 3 {
		filter = "A > 5"
	}
	if vndChoose("sorted", 2) == 1 {
		order = "A DESC"
	}
	_, t := vhTable()
	var rs []*vhRow
	matches := 0
	for i := 0; i < 3; i++ {
		r := vhFill(t, "A", "", 0)
		rs = append(rs, r)
		if filter == "" || r.a > 5 {
			matches++
		}
	}
	rows, err := t.Select(filter, order, limit)
	vndAssert(err == nil, "a well-typed filter is accepted")
	want := matches
	if limit > 0 && want > limit {
		want = limit
	}
	vndAssert(len(rows) == want, "as many rows as match, up to the limit")
	for _, r := range rs {
		k := vhListed(rows, r.row)
		vndAssert(k <= 1, "no row twice")
		vndAssert(k == 0 || filter == "" || r.a > 5, "only matching rows are returned")
	}
	for i := 0; i+1 < len(rows); i++ {
		if order != "" {
			x, _, _ := rows[i].Int32Value(0)
			y, _, _ := rows[i+1].Int32Value(0)
			vndAssert(x >= y, "rows are in the requested order")
		} else {
			vndAssert(vhPos(rs, rows[i]) < vhPos(rs, rows[i+1]), "rows keep their order")
		}
	}
	vndReach("selected")
}

func vhPos(rs []*vhRow, x *DataRow) int {
	for i, r := range rs {
		if r.row == x {
			return i
		}
	}
	return -1
}
