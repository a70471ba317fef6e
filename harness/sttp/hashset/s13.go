package hashset

// A set is described by a 3-bit-per-element choice: items drawn from a domain of any four distinct
// symbolic values; every slice of up to three items (repeats and any order) is covered.

var vhOther uint32

func vhDomain() [3]uint32 {
	var d [3]uint32
	for i := range d {
		d[i] = vndU32("dom")
	}
	vndAssume(d[0] < d[1])
	vndAssume(d[1] < d[2])
	vhOther = vndU32("other")
	vndAssume(vhOther != d[0])
	vndAssume(vhOther != d[1])
	vndAssume(vhOther != d[2])
	return d
}

func vhSlice(name string, d [3]uint32, n int) ([]uint32, [3]bool) {
	var has [3]bool
	s := make([]uint32, 0, n)
	for i := 0; i < n; i++ {
		k := vndChoose(name, 3)
		has[k] = true
		s = append(s, d[k])
	}
	return s, has
}

func vhCount(h [3]bool) int {
	n := 0
	for _, b := range h {
		if b {
			n++
		}
	}
	return n
}

func vhIs(hs HashSet[uint32], d [3]uint32, want [3]bool, label int) {
	for i := range d {
		vndAssert(hs.Contains(d[i]) == want[i], "set holds exactly the expected elements")
	}
	vndAssert(!hs.Contains(vhOther), "set holds nothing else")
	vndAssert(len(hs) == vhCount(want), "set size counts distinct elements")
	vndAssert(hs.IsEmpty() == (vhCount(want) == 0), "emptiness agrees with size")
	keys := hs.Keys()
	vndAssert(len(keys) == vhCount(want), "element list has one entry per element")
	for i := range d {
		n := 0
		for _, k := range keys {
			if k == d[i] {
				n++
			}
		}
		if want[i] {
			vndAssert(n == 1, "each element is listed once")
		} else {
			vndAssert(n == 0, "absent element is not listed")
		}
	}
}

// Every operation between any set and any list or set of up to three items (with repeats) gives the
// result set theory prescribes; operands are left alone.
//verif:nomerge parts=8 unwind=100
func VH_S13_algebra() {
	d := vhDomain()
	la := vndChoose("la", 4)
	lb := vndChoose("lb", 4)
	sa, a := vhSlice("a", d, la)
	sb, b := vhSlice("b", d, lb)
	vndAssume((vhCount(a)*4+lb*3+la)%8 == vndPart())
	A := NewHashSet(sa)
	B := NewHashSet(sb)
	vhIs(A, d, a, 0)
	var un, in, ex, sy [3]bool
	sub, eq, over := true, true, false
	for i := range d {
		un[i] = a[i] || b[i]
		in[i] = a[i] && b[i]
		ex[i] = a[i] && !b[i]
		sy[i] = a[i] != b[i]
		if a[i] && !b[i] {
			sub = false
		}
		if a[i] != b[i] {
			eq = false
		}
		if in[i] {
			over = true
		}
	}
	sup := true
	for i := range d {
		if b[i] && !a[i] {
			sup = false
		}
	}
	vndAssert(A.SetEqualsSet(B) == eq, "set equality with a set")
	vndAssert(A.OverlapsSet(B) == over, "overlap with a set")
	vndAssert(A.IsSubsetOfSet(B) == sub, "subset of a set")
	vndAssert(A.IsProperSubsetOfSet(B) == (sub && !eq), "proper subset of a set")
	vndAssert(A.IsSupersetOfSet(B) == sup, "superset of a set")
	if la > 0 {
		vndAssert(A.IsProperSupersetOfSet(B) == (sup && !eq), "proper superset of a set")
		vndAssert(A.IsProperSupersetOf(sb) == (sup && !eq), "proper superset of a list")
	}
	vndAssert(A.SetEquals(sb) == eq, "set equality with a list")
	vndAssert(A.Overlaps(sb) == over, "overlap with a list")
	vndAssert(A.IsSubsetOf(sb) == sub, "subset of a list")
	vndAssert(A.IsProperSubsetOf(sb) == (sub && !eq), "proper subset of a list")
	vndAssert(A.IsSupersetOf(sb) == sup, "superset of a list")
	mk := func() HashSet[uint32] { return NewHashSet(sa) }
	x := mk()
	x.UnionWith(sb)
	vhIs(x, d, un, 1)
	x = mk()
	x.UnionWithSet(B)
	vhIs(x, d, un, 2)
	x = mk()
	x.IntersectWith(sb)
	vhIs(x, d, in, 3)
	x = mk()
	x.IntersectWithSet(B)
	vhIs(x, d, in, 4)
	x = mk()
	x.ExceptWith(sb)
	vhIs(x, d, ex, 5)
	x = mk()
	x.ExceptWithSet(B)
	vhIs(x, d, ex, 6)
	x = mk()
	x.SymmetricExceptWithSet(B)
	vhIs(x, d, sy, 7)
	x = mk()
	x.SymmetricExceptWith(sb)
	vhIs(x, d, sy, 12)
	vhIs(A, d, a, 8)
	vhIs(B, d, b, 9)
	x.Clear()
	vhIs(x, d, [3]bool{}, 10)
	vndReach("algebra")
}

// The empty set is a proper superset of nothing.
//verif:nomerge unwind=100
func VH_S13_emptysuper() {
	d := vhDomain()
	A := NewHashSet[uint32](nil)
	sb, _ := vhSlice("b", d, vndChoose("lb", 4))
	vndAssert(!A.IsProperSupersetOf(sb), "empty set is not a proper superset of a list")
	vndReach("empty")
}

// Adding, removing and filtering single elements report exactly what changed.
//verif:nomerge unwind=100
func VH_S13_element() {
	d := vhDomain()
	sa, a := vhSlice("a", d, vndChoose("la", 4))
	A := NewHashSet(sa)
	k := vndChoose("k", 3)
	w := a
	switch vndChoose("op", 3) {
	case 0:
		vndAssert(A.Add(d[k]) == !a[k], "adding reports whether the element was new")
		w[k] = true
	case 1:
		vndAssert(A.Remove(d[k]) == a[k], "removing reports whether the element was there")
		w[k] = false
	case 2:
		p := [3]bool{vndBool("p"), vndBool("p"), vndBool("p")}
		n := A.RemoveWhere(func(v uint32) bool {
			for i := range d {
				if d[i] == v {
					return p[i]
				}
			}
			return false
		})
		c := 0
		for i := range d {
			if a[i] && p[i] {
				c++
				w[i] = false
			}
		}
		vndAssert(n == c, "filtered removal counts what it removed")
	}
	vhIs(A, d, w, 0)
	vndReach("element")
}
