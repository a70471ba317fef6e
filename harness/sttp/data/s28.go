package data

// vhResult is what an expression should evaluate to: 'I'nt32, 'S'tring, 'B'oolean or 'N'othing.
type vhResult struct {
	kind byte
	i    int
	s    string
	b    bool
}

func vhInt(i int) vhResult    { return vhResult{kind: 'I', i: i} }
func vhStr(s string) vhResult { return vhResult{kind: 'S', s: s} }
func vhBool(b bool) vhResult  { return vhResult{kind: 'B', b: b} }
func vhNothing() vhResult     { return vhResult{kind: 'N'} }
func (w vhResult) or(null bool) vhResult {
	if null {
		return vhNothing()
	}
	return w
}

func (w vhResult) is(got *ValueExpression) bool {
	if w.kind == 'N' {
		return got.IsNull()
	}
	if got.IsNull() {
		return false
	}
	switch w.kind {
	case 'I':
		v, err := got.Int32Value()
		return err == nil && int(v) == w.i
	case 'S':
		v, err := got.StringValue()
		return err == nil && v == w.s
	default:
		v, err := got.BooleanValue()
		return err == nil && v == w.b
	}
}

type vhFunc struct {
	text, kinds, nulls string
	want               func(r *vhRow) vhResult
}

// vhAt: u stands at position i of s.
func vhAt(s, u string, i int) bool { return i >= 0 && i+len(u) <= len(s) && s[i:i+len(u)] == u }

// vhNth: the position of the nth occurrence of u in s, -1 if there is none.
func vhNth(s, u string, n int) int {
	pos := -1
	for i := len(s) - len(u); i >= 0; i-- {
		k := 0
		for j := 0; j < i; j++ {
			if vhAt(s, u, j) {
				k++
			}
		}
		if vhAt(s, u, i) && k == n {
			pos = i
		}
	}
	return pos
}

func vhFirst(s, u string) int { return vhNth(s, u, 0) }

func vhLast(s, u string) int {
	pos := -1
	for i := 0; i+len(u) <= len(s); i++ {
		if vhAt(s, u, i) {
			pos = i
		}
	}
	return pos
}

// vhCount: how often u is found in s, not counting occurrences that overlap a counted one.
func vhCount(s, u string) int {
	if len(u) == 0 {
		return 0
	}
	n := 0
	for i := 0; i+len(u) <= len(s); i++ {
		if vhAt(s, u, i) {
			n++
			i += len(u) - 1
		}
	}
	return n
}

func vhReplaced(s, u, with string, fold bool) string {
	out := ""
	for i := 0; i < len(s); {
		x, y := s, u
		if fold {
			x, y = vhUpper(s), vhUpper(u)
		}
		if vhAt(x, y, i) {
			out += with
			i += len(u)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

// vhPiece: the nth of the pieces of s that u separates.
func vhPiece(s, u string, n int, fold bool) string {
	x, y := s, u
	if fold {
		x, y = vhUpper(s), vhUpper(u)
	}
	if n < 0 {
		return ""
	}
	start := 0
	for i := 0; i+len(u) <= len(s); {
		if vhAt(x, y, i) {
			if n == 0 {
				return s[start:i]
			}
			n--
			i += len(u)
			start = i
		} else {
			i++
		}
	}
	if n == 0 {
		return s[start:]
	}
	return ""
}

func vhLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func vhTrimmed(s string, left, right bool) string {
	for left && len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for right && len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

func vhSub(s string, from, n int) string {
	if from < 0 || from >= len(s) || n <= 0 {
		return ""
	}
	if n > len(s)-from {
		n = len(s) - from
	}
	return s[from : from+n]
}

func vhOrder3(x, y string) int {
	if x < y {
		return -1
	}
	if x > y {
		return 1
	}
	return 0
}

var vhTextFuncs = []vhFunc{
	{"Len(S)", "S", "S", func(r *vhRow) vhResult { return vhInt(len(r.s)).or(r.ns) }},
	{"Lower(S)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhLower(r.s)).or(r.ns) }},
	{"UPPER(S)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhUpper(r.s)).or(r.ns) }},
	{"Reverse(S)", "S", "S", func(r *vhRow) vhResult {
		b := ""
		for i := len(r.s); i > 0; i-- {
			b += r.s[i-1 : i]
		}
		return vhStr(b).or(r.ns)
	}},
	{"Trim(S)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhTrimmed(r.s, true, true)).or(r.ns) }},
	{"TrimLeft(S)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhTrimmed(r.s, true, false)).or(r.ns) }},
	{"TrimRight(S)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhTrimmed(r.s, false, true)).or(r.ns) }},
	{"Contains(S, U)", "SU", "S", func(r *vhRow) vhResult { return vhBool(vhFirst(r.s, r.u) >= 0).or(r.ns) }},
	{"Contains(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhBool(vhFirst(vhUpper(r.s), vhUpper(r.u)) >= 0) }},
	{"StartsWith(S, U)", "SU", "S", func(r *vhRow) vhResult { return vhBool(vhAt(r.s, r.u, 0)).or(r.ns) }},
	{"StartsWith(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhBool(vhAt(vhUpper(r.s), vhUpper(r.u), 0)) }},
	{"EndsWith(S, U)", "SU", "S", func(r *vhRow) vhResult { return vhBool(vhAt(r.s, r.u, len(r.s)-len(r.u))).or(r.ns) }},
	{"EndsWith(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhBool(vhAt(vhUpper(r.s), vhUpper(r.u), len(r.s)-len(r.u))) }},
	{"IndexOf(S, U)", "SU", "S", func(r *vhRow) vhResult { return vhInt(vhFirst(r.s, r.u)).or(r.ns) }},
	{"IndexOf(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhFirst(vhUpper(r.s), vhUpper(r.u))) }},
	{"LastIndexOf(S, U)", "SU", "S", func(r *vhRow) vhResult { return vhInt(vhLast(r.s, r.u)).or(r.ns) }},
	{"LastIndexOf(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhLast(vhUpper(r.s), vhUpper(r.u))) }},
	{"NthIndexOf(S, U, 0)", "SU", "S", func(r *vhRow) vhResult { return vhInt(vhNth(r.s, r.u, 0)).or(r.ns) }},
	{"NthIndexOf(S, U, 1)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhNth(r.s, r.u, 1)) }},
	{"NthIndexOf(S, U, 2, True)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhNth(vhUpper(r.s), vhUpper(r.u), 2)) }},
	{"NthIndexOf(S, U, -1)", "SU", "", func(r *vhRow) vhResult { return vhInt(-1) }},
	{"StrCount(S, U)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhCount(r.s, r.u)) }},
	{"StrCount(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhCount(vhUpper(r.s), vhUpper(r.u))) }},
	{"StrCmp(S, U)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhOrder3(r.s, r.u)) }},
	{"StrCmp(S, U, True)", "SU", "", func(r *vhRow) vhResult { return vhInt(vhOrder3(vhUpper(r.s), vhUpper(r.u))) }},
	{"SubStr(S, A)", "AS", "S", func(r *vhRow) vhResult { return vhStr(vhSub(r.s, int(r.a), 100)).or(r.ns) }},
	{"SubStr(S, A, 2)", "AS", "", func(r *vhRow) vhResult { return vhStr(vhSub(r.s, int(r.a), 2)) }},
	{"SubStr(S, 1, B)", "BS", "", func(r *vhRow) vhResult { return vhStr(vhSub(r.s, 1, int(r.b))) }},
	{"Replace(S, 'b', 'xy')", "S", "S", func(r *vhRow) vhResult { return vhStr(vhReplaced(r.s, "b", "xy", false)).or(r.ns) }},
	{"Replace(S, 'ab', U)", "SU", "", func(r *vhRow) vhResult { return vhStr(vhReplaced(r.s, "ab", r.u, false)) }},
	{"Replace(S, '.', '$0', True)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhReplaced(r.s, ".", "$0", true)).or(r.ns) }},
	{"Replace(S, 'aB', 'x', True)", "S", "", func(r *vhRow) vhResult { return vhStr(vhReplaced(r.s, "aB", "x", true)) }},
	{"Split(S, ',', 0)", "S", "S", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, ",", 0, false)).or(r.ns) }},
	{"Split(S, ',', 1)", "S", "", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, ",", 1, false)) }},
	{"Split(S, ',', 2)", "S", "", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, ",", 2, false)) }},
	{"Split(S, 'xx', 1)", "S", "", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, "xx", 1, false)) }},
	{"Split(S, 'x', 1, True)", "S", "", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, "x", 1, true)) }},
	{"Split(S, '.', 1, True)", "S", "", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, ".", 1, true)) }},
	{"Split(S, 'x', A, True)", "AS", "", func(r *vhRow) vhResult { return vhStr(vhPiece(r.s, "x", int(r.a), true)) }},
	{"RegExMatch('a+b', S)", "S", "S", func(r *vhRow) vhResult { return vhBool(vhFirst(r.s, "ab") >= 0).or(r.ns) }},
	{"RegExMatch('a*', S)", "S", "", func(r *vhRow) vhResult { return vhBool(true) }},
	{"RegExVal('[0-9]', S)", "S", "S", func(r *vhRow) vhResult {
		for i := 0; i < len(r.s); i++ {
			if r.s[i] >= '0' && r.s[i] <= '9' {
				return vhStr(r.s[i : i+1]).or(r.ns)
			}
		}
		return vhStr("").or(r.ns)
	}},
}

// vhCall evaluates one of the listed expressions on any row.
func vhCall(list []vhFunc, parts int) {
	p := vndPart()
	n := (len(list) - p + parts - 1) / parts
	c := list[vndChoose("which", n)*parts+p]
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, c.text, true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	text := 0
	if vhHas(c.kinds, "S") {
		text = vndChoose("length", 4)
		if text == 3 && vndTier() > 0 {
			text += vndChoose("longer", 2)
		}
	}
	r := vhFill(t, c.kinds, c.nulls, text)
	got, err := tree.Evaluate(r.row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	vndAssert(c.want(r).is(got), "the function gives its documented result")
	vndReach("evaluated")
}

// VH_S28_texts: the text functions on any text of up to three characters.
//
//verif:parts=14 unwind=100000 maxconc=100000
func VH_S28_texts() { vhCall(vhTextFuncs, 14) }

// vhRune: any character below U+0800, in its UTF-8 form.
func vhRune(name string) (rune, string) {
	if vndChoose(name+"Wide", 2) == 0 {
		c := vndU8(name)
		vndAssume(c < 0x80)
		return rune(c), string([]byte{c})
	}
	c := vndU16(name + "2")
	vndAssume(vndAnd(c >= 0x80, c < 0x800))
	return rune(c), string([]byte{0xc0 | byte(c>>6), 0x80 | byte(c&0x3f)})
}

func vhSpace(c rune) bool {
	return c == ' ' || c >= 9 && c <= 13 || c == 0x85 || c == 0xa0
}

// VH_S28_spaces: the trimming functions and Reverse on any two characters below U+0800.
//
//verif:parts=4 unwind=100000 maxconc=100000
func VH_S28_spaces() {
	p := vndPart()
	_, t := vhTable()
	tree, err := GenerateExpressionTree(t, []string{"TrimLeft(S)", "TrimRight(S)", "Trim(S)", "Reverse(S)"}[p], true)
	vndAssert(err == nil, "a well-formed expression is accepted")
	c1, s1 := vhRune("x")
	c2, s2 := vhRune("y")
	row := t.CreateRow()
	row.SetValue(3, s1+s2)
	t.AddRow(row)
	got, err := tree.Evaluate(row)
	vndAssert(err == nil && got != nil, "a well-typed expression is accepted")
	want := s1 + s2
	switch {
	case p == 3:
		want = s2 + s1
	case p != 1 && vhSpace(c1) && (p == 0 || p == 2) && vhSpace(c2), p == 1 && vhSpace(c1) && vhSpace(c2):
		want = ""
	case p != 1 && vhSpace(c1):
		want = s2
	case p != 0 && vhSpace(c2):
		want = s1
	}
	vndAssert(vhStr(want).is(got), "white space is removed at the ends, nothing else")
	vndReach("spaces")
}
