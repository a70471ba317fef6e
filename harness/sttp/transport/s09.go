package transport

import (
	"github.com/sttp/goapi/sttp/guid"
)

// Metadata of any two signals looked up concurrently: each signal has one record, which all callers get.
//verif:unwind=64 preempt=3 tpreempt=4
func VH_S09_lookup() {
	ds := NewDataSubscriber()
	a, b := vhGuid("a"), vhGuid("b")
	var x [2]*MeasurementMetadata
	done := make(chan int, 2)
	for i := 0; i < 2; i++ {
		go func() {
			x[i] = ds.LookupMetadata(a)
			x[i].Adder += 1
			done <- i
		}()
	}
	y := ds.LookupMetadata(b)
	<-done
	<-done
	vndAssert(x[0] == x[1], "a signal has one metadata record")
	vndAssert(x[0].SignalID == a && y.SignalID == b, "a metadata record has the ID of its signal")
	vndAssert((x[0] == y) == (a == b), "different signals have different records")
	vndAssert(ds.LookupMetadata(a) == x[0] && ds.LookupMetadata(b) == y, "a record stays registered")
	m := Measurement{SignalID: a}
	vndAssert(ds.Metadata(&m) == x[0], "the metadata of a measurement is that of its signal")
	vndAssert(x[0].Adder == 2 && x[0].Multiplier == 1, "what is stored in a record is kept")
	vndReach("lookup")
	vndJoin()
}

// The adjusted value of a measurement of any signal: value times multiplier plus adder of the record of its signal, the
// value itself where there is none.
//verif:unwind=64
func VH_S09_adjusted() {
	ds := NewDataSubscriber()
	vals := []float64{0, 1, -2.5, 1024}
	m := Measurement{SignalID: vhGuid("signal"), Value: vals[vndChoose("value", 4)]}
	vndAssert(ds.AdjustedValue(&m) == m.Value, "without metadata the value is not adjusted")
	r := ds.LookupMetadata(vhGuid("registered"))
	vndAssert(ds.AdjustedValue(&m) == m.Value, "a new record does not adjust the value")
	r.Adder, r.Multiplier = vals[vndChoose("adder", 4)], vals[vndChoose("multiplier", 4)]
	got := ds.AdjustedValue(&m)
	if r.SignalID == m.SignalID {
		vndAssert(got == m.Value*r.Multiplier+r.Adder, "value is adjusted by the record of its signal")
		vndReach("adjusted")
	} else {
		vndAssert(got == m.Value, "value is not adjusted by the record of another signal")
		vndReach("other")
	}
}

// A signal index cache names the source and ID of a signal: a record that has none gets them, a record that was filled
// in from metadata keeps its own.
//verif:unwind=64 nomerge
func VH_S09_cache() {
	ds := NewDataSubscriber()
	a, b := vhGuid("a"), vhGuid("b")
	known := vndChoose("known", 2) == 1
	meta := vndU64("meta")
	if known {
		r := ds.LookupMetadata(a)
		r.Source, r.ID, r.Tag = "META", meta, "TAG"
	}
	id := vndU64("id")
	c := NewSignalIndexCache()
	c.addRecord(ds, 1, b, vndString("source", vndChoose("length", 4)), id, 1)
	r := ds.LookupMetadata(b)
	if known && a == b {
		vndAssert(r.Source == "META" && r.ID == meta && r.Tag == "TAG", "metadata is not overwritten")
		vndReach("kept")
	} else {
		vndAssert(r.Source == c.Source(1) && r.ID == id && r.Tag == "", "source and ID are registered")
		vndReach("new")
		if known {
			r = ds.LookupMetadata(a)
			vndAssert(r.Source == "META" && r.ID == meta, "metadata of other signals is not touched")
		}
	}
}

// Two signal references: any source text, which may itself contain separators, any signal kind and position.
//verif:unwind=64 nomerge parts=4
func VH_S09_reference() {
	n := vndPart()
	src := vndString("source", n)
	for i := 0; i < n; i++ {
		vndAssume(src[i] < 0x80)
	}
	k := SignalKindEnum(vndChoose("kind", 11))
	pos := vndChoose("position", 3)
	text := []string{"", "7", "123"}[pos]
	mm := MeasurementMetadata{SignalReference: src + "-" + k.Acronym() + text}
	s, kind, p := mm.ParseSignalReference()
	vndAssert(s == src, "source of a signal reference")
	vndAssert(kind == k, "kind of a signal reference")
	vndAssert(p == []int{0, 7, 123}[pos], "position of a signal reference")
	vndReach("reference")
}

// Signal references of any content up to 6 characters are parsed without failing.
//verif:unwind=64 nomerge parts=7
func VH_S09_anyreference() {
	s := vndString("ref", vndPart())
	dashes := 0
	for i := 0; i < len(s); i++ {
		vndAssume(s[i] < 0x80)
		if s[i] == '-' {
			dashes++
		}
	}
	mm := MeasurementMetadata{SignalReference: s}
	src, _, pos := mm.ParseSignalReference()
	if dashes == 0 {
		vndAssert(src == "" && pos == 0, "no signal reference without a separator")
	} else {
		vndAssert(len(src) < len(s), "source is what precedes the last separator")
	}
	vndReach("any")
}

// Each signal kind has its own acronym, which is parsed in any case and with surrounding spaces.
//verif:unwind=64 nomerge
func VH_S09_kinds() {
	a, b := SignalKindEnum(vndChoose("a", 11)), SignalKindEnum(vndChoose("b", 11))
	x, y := a.Acronym(), b.Acronym()
	vndAssert((x == y) == (a == b), "acronyms of signal kinds are distinct")
	vndAssert((a.String() == b.String()) == (a == b), "names of signal kinds are distinct")
	vndAssert(len(x) == 2 && x != "??", "every signal kind has an acronym")
	low := []byte(x)
	for i := range low {
		if low[i] >= 'A' && low[i] <= 'Z' && vndBool("lower") {
			low[i] += 32
		}
	}
	vndAssert(ParseSignalKindAcronym(string(low)) == a, "acronyms are parsed regardless of case")
	t := vndString("text", 2)
	vndAssume(t[0] < 0x80 && t[1] < 0x80 && t[0] >= 'A' && t[1] >= 'A' && t[0] <= 'Z' && t[1] <= 'Z')
	k := ParseSignalKindAcronym(t)
	vndAssert(k == SignalKind.Unknown || k.Acronym() == t, "any other acronym is unknown")
	vndAssert(a.SignalTypeAcronym('V') != b.SignalTypeAcronym('V') || a == b, "signal types are distinct")
	vndAssert((a.SignalTypeAcronym('V') == a.SignalTypeAcronym('I')) == (a != SignalKind.Angle && a != SignalKind.Magnitude), "phasor types are distinguished")
	vndReach("kinds")
}

var _ guid.Guid
