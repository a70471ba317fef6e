package tssc

import "math"

func vhCheck(td *Decoder, ms []vhMeas) {
	var id int32
	var ts int64
	var fl uint32
	var v float32
	for _, m := range ms {
		ok, err := td.TryGetMeasurement(&id, &ts, &fl, &v)
		vndAssert(err == nil, "a well-formed stream decodes without error")
		vndAssert(ok, "no measurement of the stream is lost")
		vndAssert(id == m.id, "decoded id equals the encoded id")
		vndAssert(ts == m.ts, "decoded timestamp equals the encoded timestamp")
		vndAssert(fl == m.flags, "decoded flags equal the encoded flags")
		vndAssert(math.Float32bits(v) == m.value, "decoded value equals the encoded value bit for bit")
	}
	ok, err := td.TryGetMeasurement(&id, &ts, &fl, &v)
	vndAssert(err == nil && !ok, "the stream ends after its last measurement")
}

// Two arbitrary measurements, then one measurement in every combination of codes.
//verif:parts=8 unwind=600
func VH_S01_cross() {
	e := vhNewEnc()
	td := NewDecoder()
	e.begin()
	var ms []vhMeas
	ms = append(ms, e.add(7, -1, 25, 23, 31))
	ms = append(ms, e.add(7, 0, 25, 23, 31))
	cID := vndPart()
	var cTS, cFL, cV int
	cTS = vndChoose("cTS", 18)
	if cTS > 0 { cTS += 8 }
	cFL = vndChoose("cFL", 7)
	if cFL > 0 { cFL += 17 }
	cV = 20 + vndChoose("cV", 12)
	ms = append(ms, e.add(cID, 0, cTS, cFL, cV))
	td.SetBuffer(e.finish())
	vhCheck(td, ms)
	vndReach("done")
}

// Six measurements of one signal: four arbitrary timestamps (14 bits in quick, 64 in thorough), then every timestamp code twice, so that every order and
// every coincidence of the remembered time deltas is covered.
//verif:parts=9 unwind=600
func VH_S01_deltas() {
	e := vhNewEnc()
	td := NewDecoder()
	e.begin()
	var ms []vhMeas
	w := 18
	if vndTier() > 0 {
		w = 25
	}
	ms = append(ms, e.add(7, -1, w, 0, 23))
	ms = append(ms, e.add(1, 0, w, 0, 23))
	for i := 0; i < 2; i++ {
		ms = append(ms, e.add(0, 0, w, 0, 23))
	}
	ms = append(ms, e.add(0, 0, 8+vndPart(), 0, 23))
	ms = append(ms, e.add(0, 0, 8+vndChoose("cTS", 9), 0, 23))
	td.SetBuffer(e.finish())
	vhCheck(td, ms)
	vndReach("done")
}

var vhBookCodes = [5]int{20, 24, 23, 25, 22}

// Code book adaptation: the first six codes of a signal are any multiset over five codes, then any code follows.
//verif:parts=8 unwind=600
func VH_S01_book6() {
	e := vhNewEnc()
	td := NewDecoder()
	e.begin()
	var ms []vhMeas
	ms = append(ms, e.add(7, -1, 25, 23, 31))
	// the second measurement costs the signal's own book two codes: the id code and a value code
	c := vndChoose("c0", 5)
	ms = append(ms, e.add(1, 0, 0, 0, vhBookCodes[c]))
	for i := 0; i < 4; i++ {
		c += vndChoose("c"+string(rune('1'+i))+string(rune('0'+c)), 5-c)
		ms = append(ms, e.add(0, 0, 0, 0, vhBookCodes[c]))
	}
	next := vndChoose("next", 12)
	vndAssume(next%8 == vndPart())
	ms = append(ms, e.add(0, 0, 0, 0, 20+next))
	ms = append(ms, e.add(0, 0, 0, 0, 31-next))
	td.SetBuffer(e.finish())
	vhCheck(td, ms)
	vndReach("done")
}

// The second adaptation, after 21 further codes distributed over four codes in every way in steps of three. The stream is cut into packets along the way.
//verif:parts=8 unwind=2000
func VH_S01_book21() {
	e := vhNewEnc()
	td := NewDecoder()
	e.begin()
	var ms []vhMeas
	ms = append(ms, e.add(7, -1, 25, 23, 31))
	ms = append(ms, e.add(1, 0, 0, 0, 20))
	for i := 0; i < 4; i++ {
		ms = append(ms, e.add(0, 0, 0, 0, 20))
	}
	a := vndChoose("a", 8)
	b := vndChoose("b", 8)
	c := vndChoose("c", 8)
	vndAssume(a == vndPart() && a+b+c <= 7)
	n := [4]int{a * 3, b * 3, c * 3, 21 - (a+b+c)*3}
	codes := [4]int{21, 23, 24, 30}
	for k := 0; k < 4; k++ {
		for i := 0; i < n[k]; i++ {
			if i == 5 {
				td.SetBuffer(e.finish())
				vhCheck(td, ms)
				ms = nil
				e.begin()
			}
			ms = append(ms, e.add(0, 0, 0, 0, codes[k]))
		}
	}
	for i := 20; i < 32; i++ {
		ms = append(ms, e.add(0, 0, 0, 0, i))
	}
	td.SetBuffer(e.finish())
	vhCheck(td, ms)
	vndReach("done")
}

// The third and later adaptations, every 101 codes, for eight distributions of codes.
//verif:parts=8 unwind=4000
func VH_S01_book101() {
	e := vhNewEnc()
	td := NewDecoder()
	e.begin()
	var ms []vhMeas
	ms = append(ms, e.add(7, -1, 25, 23, 31))
	ms = append(ms, e.add(1, 0, 0, 0, 20))
	p := vndPart()
	total := 4 + 21 + 101 + 101 - 14
	for i := 0; i < total; i++ {
		c := 20
		switch p {
		case 0:
			c = 20 + i%12
		case 1:
			if i%3 == 0 {
				c = 25
			}
		case 2:
			c = 20 + i%2
		case 3:
			c = 23 + i%3
		case 4:
			c = 24 + (i%5)/2
		case 5:
			c = 20 + (i/40)%12
		case 6:
			c = 31 - i%4
		case 7:
			c = 21
			if i%50 == 0 {
				c = 29
			}
		}
		ms = append(ms, e.add(0, 0, 0, 0, c))
	}
	for i := 20; i < 32; i++ {
		ms = append(ms, e.add(0, 0, 0, 0, i))
	}
	td.SetBuffer(e.finish())
	vhCheck(td, ms)
	vndReach("done")
}
