package xml

// vhElem is an element of a document as it is written.
type vhElem struct {
	name string
	has  bool // has attribute k
	k    string
	text string
	kids []*vhElem
}

func (x *vhElem) write() string {
	s := "<" + x.name
	if x.has {
		s += " k='" + x.k + "' n='1'"
	}
	if len(x.kids) == 0 && x.text == "" {
		return s + "/>"
	}
	s += ">" + x.text
	for _, y := range x.kids {
		s += y.write()
	}
	return s + "</" + x.name + ">"
}

// vhLetter: any letter from a to p, as a text.
func vhLetter(name string) string { return string([]byte{'a' + vndU8(name)&15}) }

func vhName(name string) string { return []string{"a", "b"}[vndChoose(name, 2)] }

// vhLeaf: an element named a or b with any letter as its text, and an attribute with any letter or without.
func vhLeaf(id string) *vhElem {
	x := &vhElem{name: vhName("name" + id), text: vhLetter("text" + id)}
	if vndChoose("has"+id, 2) == 1 {
		x.has, x.k = true, vhLetter("k"+id)
	}
	return x
}

// vhTree: a root with up to two children, the first of which has up to two children, too.
func vhTree() *vhElem {
	r := &vhElem{name: "r"}
	n := vndChoose("kids", 3)
	for i := 0; i < n; i++ {
		r.kids = append(r.kids, vhLeaf([]string{"0", "1"}[i]))
	}
	if n > 0 {
		m := vndChoose("inner", 3)
		for i := 0; i < m; i++ {
			r.kids[0].kids = append(r.kids[0].kids, vhLeaf([]string{"2", "3"}[i]))
		}
		if m > 0 {
			r.kids[0].text = ""
		}
	}
	return r
}

// VH_S31_load: the tree of a loaded document has the elements as written, with their attributes, text and relations.
//
//verif:parts=9 unwind=10000 maxconc=10000
func VH_S31_load() {
	p := vndPart()
	r := &vhElem{name: "r"}
	for i := 0; i < p%3; i++ {
		r.kids = append(r.kids, vhLeaf([]string{"0", "1"}[i]))
	}
	if p%3 > 0 {
		for i := 0; i < p/3; i++ {
			r.kids[0].kids = append(r.kids[0].kids, vhLeaf([]string{"2", "3"}[i]))
			r.kids[0].text = ""
		}
	}
	var d XmlDocument
	err := d.LoadXml([]byte(r.write()))
	vndAssert(err == nil, "a well-formed document is loaded")
	vndAssert(d.Root.Parent == nil && d.Root.Level == 0, "the root has no parent")
	depth := 0
	vhSame(&d.Root, r, &d, 0, &depth, "/")
	vndAssert(d.MaxDepth() == depth+1, "the depth of the document")
	vndReach("loaded")
}

func vhSame(n *XmlNode, x *vhElem, d *XmlDocument, level int, depth *int, path string) {
	if level > *depth {
		*depth = level
	}
	path += "/" + x.name
	vndAssert(n.Name == x.name && n.Level == level && n.Owner == d, "elements have their name, level and document")
	vndAssert(n.Path() == path, "the path leads from the root to the element")
	v, ok := n.Attributes["k"]
	vndAssert(ok == x.has && (!ok || v == x.k && n.Attributes["n"] == "1"), "elements have their attributes")
	vndAssert(len(n.ChildNodes) == len(x.kids) && n.HasChildNodes() == (len(x.kids) > 0), "elements have their children")
	if len(x.kids) == 0 {
		vndAssert(n.Value() == x.text, "elements have their text")
		vndAssert(n.FirstChild() == nil && n.LastChild() == nil, "no children")
	}
	for _, name := range []string{"a", "b"} {
		k := 0
		for i := range x.kids {
			if x.kids[i].name == name {
				if k == 0 {
					vndAssert(n.Item[name] == &n.ChildNodes[i], "the first child of a name")
				}
				vndAssert(k < len(n.Items[name]) && n.Items[name][k] == &n.ChildNodes[i], "the children of a name, in order")
				k++
			}
		}
		vndAssert(len(n.Items[name]) == k, "only the children of the name")
	}
	for i := range x.kids {
		c := &n.ChildNodes[i]
		vndAssert(c.Parent == n, "children know their parent")
		if i == 0 {
			vndAssert(c.Previous == nil && n.FirstChild() == c, "the first child")
		} else {
			vndAssert(c.Previous == &n.ChildNodes[i-1], "the previous child")
		}
		if i == len(x.kids)-1 {
			vndAssert(c.Next == nil && n.LastChild() == c, "the last child")
		} else {
			vndAssert(c.Next == &n.ChildNodes[i+1], "the next child")
		}
		vhSame(c, x.kids[i], d, level+1, depth, path)
	}
}

// vhStep is one step of a path: a name or *, and a condition: 0 none, 1 has attribute k, 2 attribute k has the value,
// 3 any attribute has the value, 4 has a child b, 5 a child b has the value.
type vhStep struct {
	name string
	cond int
}

var vhPaths = []struct {
	text  string
	steps []vhStep
}{
	{"a", []vhStep{{"a", 0}}},
	{"*", []vhStep{{"*", 0}}},
	{"a/b", []vhStep{{"a", 0}, {"b", 0}}},
	{"*/*", []vhStep{{"*", 0}, {"*", 0}}},
	{"a[@k]", []vhStep{{"a", 1}}},
	{"*[@k='?']", []vhStep{{"*", 2}}},
	{"a[@k = '?']/b[@k]", []vhStep{{"a", 2}, {"b", 1}}},
	{"a[@*='?']", []vhStep{{"a", 3}}},
	{"a[b]", []vhStep{{"a", 4}}},
	{"*[b='?']/a", []vhStep{{"*", 5}, {"a", 0}}},
	{"a[b='?']", []vhStep{{"a", 5}}},
	{"//r/*/b", []vhStep{{"*", 0}, {"b", 0}}},
}

func (s vhStep) fits(x *vhElem, v string) bool {
	if s.name != "*" && s.name != x.name {
		return false
	}
	switch s.cond {
	case 1:
		return x.has
	case 2:
		return x.has && x.k == v
	case 3:
		return x.has && x.k == v
	case 4:
		for _, y := range x.kids {
			if y.name == "b" {
				return true
			}
		}
		return false
	case 5:
		for _, y := range x.kids {
			if y.name == "b" && y.text == v {
				return true
			}
		}
		return false
	}
	return true
}

// VH_S31_select: a path selects exactly the elements that fit, in the order of the document.
//
//verif:parts=12 unwind=10000 maxconc=10000
func VH_S31_select() {
	p := vhPaths[vndPart()]
	r := vhTree()
	v := vhLetter("v")
	text := ""
	for i := 0; i < len(p.text); i++ {
		if p.text[i] == '?' {
			text += v
		} else {
			text += p.text[i : i+1]
		}
	}
	var d XmlDocument
	err := d.LoadXml([]byte(r.write()))
	vndAssert(err == nil, "a well-formed document is loaded")
	var want []*XmlNode
	var walk func(x *vhElem, n *XmlNode, steps []vhStep)
	walk = func(x *vhElem, n *XmlNode, steps []vhStep) {
		for i, y := range x.kids {
			if steps[0].fits(y, v) {
				if len(steps) == 1 {
					want = append(want, &n.ChildNodes[i])
				} else {
					walk(y, &n.ChildNodes[i], steps[1:])
				}
			}
		}
	}
	walk(r, &d.Root, p.steps)
	got := d.SelectNodes(text)
	vndAssert(len(got) == len(want), "the elements that fit, and no others")
	for i := range want {
		vndAssert(got[i] == want[i], "in the order of the document")
	}
	vndReach("selected")
}

// VH_S31_values: conditions compare whole values: empty ones and such with an equals sign.
//
//verif:unwind=10000 maxconc=10000
func VH_S31_values() {
	c := vhLetter("c")
	var d XmlDocument
	err := d.LoadXml([]byte("<r><a k=''>x=" + c + "</a><a k='x=" + c + "'/></r>"))
	vndAssert(err == nil, "a well-formed document is loaded")
	first, second := &d.Root.ChildNodes[0], &d.Root.ChildNodes[1]
	v := vhLetter("v")
	got := d.SelectNodes("a[@k='x=" + v + "']")
	if c == v {
		vndAssert(len(got) == 1 && got[0] == second, "values with an equals sign")
	} else {
		vndAssert(len(got) == 0, "other values with an equals sign")
	}
	got = d.SelectNodes("a[@*='x=" + v + "']")
	vndAssert((len(got) == 1) == (c == v), "values with an equals sign")
	got = d.SelectNodes("a[@k='']")
	vndAssert(len(got) == 1 && got[0] == first, "empty values")
	root := []*XmlNode{&d.Root}
	vndAssert(len(SelectNodes(root, "a")) == 2, "selection from several nodes")
	vndReach("values")
}

// VH_S31_quoted: conditions compare values with spaces and quotes as they are written, and paths of another root select nothing.
//
//verif:unwind=10000 maxconc=10000
func VH_S31_quoted() {
	c := vhLetter("c")
	values := []string{c, " ", c + " ", " " + c, "'", "'" + c, c + "'", "''", "'" + c + "'"}
	w, v := values[vndChoose("written", len(values))], values[vndChoose("asked", len(values))]
	var d XmlDocument
	err := d.LoadXml([]byte("<r><a k=\"" + w + "\"><b>" + w + "</b></a><rt>x</rt></r>"))
	vndAssert(err == nil, "a well-formed document is loaded")
	n := 0
	if w == v {
		n = 1
	}
	vndAssert(len(d.SelectNodes("a[@k='"+v+"']")) == n, "the attribute has exactly the value")
	vndAssert(len(d.SelectNodes("a[@*='"+v+"']")) == n, "an attribute has exactly the value")
	vndAssert(len(d.SelectNodes("a[b='"+v+"']")) == n, "the child has exactly the value")
	vndAssert(len(d.SelectNodes("//r/rt")) == 1 && len(d.SelectNodes("//r/a/b")) == 1, "paths from the root")
	vndAssert(len(d.SelectNodes("//ra/b")) == 0 && len(d.SelectNodes("//rxa/b")) == 0 && len(d.SelectNodes("//rt/rt")) == 0 && len(d.SelectNodes("//t/rt")) == 0, "paths from another root")
	vndReach("values")
}

// VH_S31_paths: no path makes the selection panic.
//
//verif:unwind=10000 maxconc=10000 parts=5
func VH_S31_paths() {
	var d XmlDocument
	err := d.LoadXml([]byte("<r><a k='1'>x</a><b>y</b></r>"))
	vndAssert(err == nil, "a well-formed document is loaded")
	d.SelectNodes(vndString("path", vndPart()))
	vndReach("selected")
}
