package data

import "github.com/sttp/goapi/sttp/guid"

// vhSignals: a measurement table with any signal IDs, keys and tags of the given lengths.
type vhSignal struct {
	id       guid.Guid
	key, tag string
	v        int32
	row      *DataRow
}

func vhSignalTable() (*DataSet, *DataTable) {
	ds := NewDataSet()
	t := ds.CreateTable("Signals")
	t.AddColumn(t.CreateColumn("SignalID", DataType.Guid, ""))
	t.AddColumn(t.CreateColumn("ID", DataType.String, ""))
	t.AddColumn(t.CreateColumn("PointTag", DataType.String, ""))
	t.AddColumn(t.CreateColumn("V", DataType.Int32, ""))
	ds.AddTable(t)
	return ds, t
}

func vhAddSignal(t *DataTable, texts bool) *vhSignal {
	s := &vhSignal{row: t.CreateRow()}
	copy(s.id[:], vndBytes("id", 16))
	s.row.SetValue(0, s.id)
	if texts {
		s.key, s.tag = vhText("key", 4), vhText("tag", 2)
		s.row.SetValue(1, s.key)
		s.row.SetValue(2, s.tag)
	}
	s.v = vndI32("v")
	s.row.SetValue(3, s.v)
	t.AddRow(s.row)
	return s
}

func vhAddSignals(t *DataTable, texts bool) []*vhSignal {
	n := 2
	if !texts || vndTier() > 0 {
		n = 3
	}
	var sigs []*vhSignal
	for i := 0; i < n; i++ {
		sigs = append(sigs, vhAddSignal(t, texts))
	}
	return sigs
}

const vhID = "12345678-9abc-def0-1234-56789abcdef0"

type vhPick struct {
	text string
	// the statements: '1' the signal named by ID, 'k' by key, 't' by tag, '>' V > 5, '<' V < 9, '^' the first with V > 5
	parts string
}

var vhPicks = []vhPick{
	{vhID, "1"},
	{"'" + vhID + "'", "1"},
	{"{12345678-9ABC-DEF0-1234-56789ABCDEF0};", "1"},
	{"FILTER Signals WHERE V > 5", ">"},
	{"V > 5", ">"},
	{vhID + "; " + vhID, "11"},
	{vhID + "; FILTER Signals WHERE V > 5", "1>"},
	{"FILTER Signals WHERE V > 5;" + vhID, ">1"},
	{"FILTER Signals WHERE V > 5; FILTER Signals WHERE V < 9", "><"},
	{";FILTER TOP 1 Signals WHERE V > 5;;FILTER Signals WHERE V < 9 ORDER BY V;", "^<"},
}

var vhNames = []vhPick{
	{"ab:7", "k"},
	{"\"Xy\"", "t"},
	{"AB:7; \"xy\"; V > 5", "kt>"},
	{"\"xY\"; FILTER Signals WHERE V < 9; V > 5", "t<>"},
}

// vhChosen: whether each of the signals is picked by one of the statements. Naming a signal picks the first row with that name.
func vhChosen(parts string, sigs []*vhSignal) []bool {
	out := make([]bool, len(sigs))
	for k := 0; k < len(parts); k++ {
		done := false
		for i, s := range sigs {
			m := false
			switch parts[k] {
			case '1':
				m = s.id == vhGuid
			case 'k':
				m = vhUpper(s.key) == "AB:7"
			case 't':
				m = vhUpper(s.tag) == "XY"
			case '>':
				m = s.v > 5
			case '<':
				m = s.v < 9
			case '^':
				m = s.v > 5
			}
			if parts[k] != '>' && parts[k] != '<' {
				if m && !done {
					out[i] = true
				}
				done = done || m
			} else if m {
				out[i] = true
			}
		}
	}
	return out
}

// vhSelected runs the statements on any signals and checks the rows.
func vhSelected(c vhPick) {
	ds, t := vhSignalTable()
	texts := vhHas(c.parts, "k") || vhHas(c.parts, "t")
	sigs := vhAddSignals(t, texts)
	rows, err := SelectDataRows(ds, c.text, "Signals", nil, true)
	vndAssert(err == nil, "the statements are accepted")
	want := vhChosen(c.parts, sigs)
	n := 0
	for i, s := range sigs {
		k := vhListed(rows, s.row)
		vndAssert(k <= 1, "a row picked by several statements is returned once")
		vndAssert((k == 1) == want[i], "a row is returned exactly when a statement picks it")
		n += k
	}
	vndAssert(n == len(rows), "nothing else is returned")
	vndReach("rows")
}

// VH_S26_rows: the rows selected by one or several statements are those any of the statements picks, each once.
//
//verif:nomerge parts=5 unwind=100000 maxconc=100000
func VH_S26_rows() {
	p := vndPart()
	vhSelected(vhPicks[vndChoose("which", (len(vhPicks)-p+4)/5)*5+p])
}

// VH_S26_names: the same where signals are named by key or tag.
//
//verif:parts=4 unwind=100000 maxconc=100000
func VH_S26_names() {
	vhSelected(vhNames[vndPart()])
}

// VH_S26_sets: the set forms return the same rows and the signal IDs of those rows.
//
//verif:parts=7 unwind=100000 maxconc=100000
func VH_S26_sets() {
	p := vndPart()
	picks := append(append([]vhPick{}, vhPicks...), vhNames...)
	c := picks[vndChoose("which", (len(picks)-p+6)/7)*7+p]
	ds, t := vhSignalTable()
	texts := vhHas(c.parts, "k") || vhHas(c.parts, "t")
	sigs := vhAddSignals(t, texts)
	want := vhChosen(c.parts, sigs)
	if vndChoose("form", 2) == 0 {
		set, err := SelectDataRowSet(ds, c.text, "Signals", nil, true)
		vndAssert(err == nil, "the statements are accepted")
		n := 0
		for i, s := range sigs {
			in := set.Contains(s.row)
			vndAssert(in == want[i], "a row is in the set exactly when a statement picks it")
			if in {
				n++
			}
		}
		vndAssert(len(set) == n, "nothing else is in the set")
	} else {
		var zero guid.Guid
		named := vhHas(c.parts, "1")
		for i, s := range sigs {
			vndAssume(s.id != zero)
			for _, o := range sigs[:i] {
				vndAssume(s.id != o.id)
			}
		}
		set, err := SelectSignalIDSet(ds, c.text, "Signals", nil, true)
		vndAssert(err == nil, "the statements are accepted")
		n := 0
		for i, s := range sigs {
			in := set.Contains(s.id)
			vndAssert(in == (want[i] || named && s.id == vhGuid), "a signal ID is in the set exactly when a statement picks it")
			if in {
				n++
			}
		}
		if named {
			vndAssert(set.Contains(vhGuid), "a signal named by its ID is always in the set")
			known := false
			for _, s := range sigs {
				known = known || s.id == vhGuid
			}
			if !known {
				n++
			}
		}
		vndAssert(len(set) == n, "nothing else is in the set")
	}
	vndReach("sets")
}

// VH_S26_tables: statements about two tables with their own ID columns, some signals without an ID: rows and signal IDs,
// as lists and as sets, are those picked in either table, each once.
//
//verif:nomerge parts=4 unwind=100000 maxconc=100000
func VH_S26_tables() {
	text := []string{
		"FILTER Other WHERE W > 5; FILTER Signals WHERE V < 9",
		"FILTER Signals WHERE V < 9; FILTER Other WHERE W > 5; V < 9",
		"V < 9; FILTER oTHER WHERE w > 5;",
		vhID + "; FILTER Other WHERE W > 5; V < 9",
	}[vndPart()]
	ds, t := vhSignalTable()
	o := ds.CreateTable("Other")
	o.AddColumn(o.CreateColumn("W", DataType.Int32, ""))
	o.AddColumn(o.CreateColumn("Name", DataType.Guid, ""))
	ds.AddTable(o)
	var zero guid.Guid
	var ids []guid.Guid
	var rows []*DataRow
	var want []bool
	for i := 0; i < 4; i++ {
		tab, value, id := t, 3, 0
		if i > 1 {
			tab, value, id = o, 0, 1
		}
		row := tab.CreateRow()
		v := vndI32("v")
		row.SetValue(value, v)
		var g guid.Guid
		switch i {
		case 0:
			g = vhGuid
			g[15] += byte(vndChoose("other", 2))
		case 1:
			g[3] = byte(vndChoose("missing", 2))
		case 2:
			g = ids[0]
			g[0] += byte(vndChoose("different", 2))
		}
		if g != zero {
			row.SetValue(id, g)
		}
		tab.AddRow(row)
		ids, rows = append(ids, g), append(rows, row)
		want = append(want, i < 2 && v < 9 || i > 1 && v > 5)
	}
	fep, err := NewFilterExpressionParserForDataSet(ds, text, "Signals", nil, true)
	vndAssert(err == nil, "the statements are accepted")
	fep.TableIDFields["Other"] = &TableIDFields{SignalIDFieldName: "Name"}
	fep.TrackFilteredSignalIDs = true
	vndAssert(fep.Evaluate(true, true) == nil, "the statements are accepted")
	gotRows, gotIDs := fep.FilteredRows(), fep.FilteredSignalIDs()
	if vndPart() == 3 {
		for i := 0; i < 2; i++ {
			if ids[i] == vhGuid {
				want[i] = true
			}
		}
	}
	n := 0
	for i, r := range rows {
		k := vhListed(gotRows, r)
		vndAssert(k <= 1 && (k == 1) == want[i], "a row of either table is returned once exactly when a statement picks it")
		n += k
	}
	vndAssert(len(gotRows) == n && len(fep.FilteredRowSet()) == n, "no other rows are returned")
	for i, g := range ids {
		if g == zero {
			continue
		}
		w := want[i] || vndPart() == 3 && g == vhGuid
		for j := range ids {
			w = w || ids[j] == g && want[j]
		}
		k := 0
		for _, x := range gotIDs {
			if x == g {
				k++
			}
		}
		vndAssert(k <= 1 && (k == 1) == w, "a signal ID of either table is returned once exactly when a statement picks it")
		vndAssert(fep.FilteredSignalIDSet().Contains(g) == w, "the set of signal IDs agrees with the list")
	}
	for _, x := range gotIDs {
		known := vndPart() == 3 && x == vhGuid
		for _, g := range ids {
			known = known || x == g
		}
		vndAssert(known && x != zero, "no other signal IDs are returned")
	}
	vndAssert(len(fep.FilteredSignalIDSet()) == len(gotIDs), "no other signal IDs are in the set")
	vndReach("tables")
}
