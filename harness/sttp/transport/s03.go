package transport

import (
	"math"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
)

// vhCache: a cache of n records with distinct arbitrary indexes and arbitrary identifiers.
func vhCache(ds *DataSubscriber, n int) (*SignalIndexCache, []int32, []guid.Guid) {
	var b []byte
	var idx []int32
	var ids []guid.Guid
	b = append(b, make([]byte, 20)...)
	b = vhPut32(b, uint32(n))
	for i := 0; i < n; i++ {
		k := vndI32("cacheindex")
		for _, o := range idx {
			vndAssume(o != k)
		}
		g := vhGuid("cacheguid")
		for _, o := range ids {
			vndAssume(o != g)
		}
		idx = append(idx, k)
		ids = append(ids, g)
		b = vhPut32(b, uint32(k))
		b = append(b, g[:]...)
		b = vhPut32(b, 1)
		b = append(b, byte('A'+i))
		b = vhPut64(b, uint64(100+i))
	}
	b[3] = byte(len(b))
	c := NewSignalIndexCache()
	var sid guid.Guid
	vndAssert(c.decode(ds, b, &sid) == nil, "cache decodes")
	return c, idx, ids
}

func vhFind(idx []int32, ids []guid.Guid, k int32) guid.Guid {
	var g guid.Guid
	for i := range idx {
		if idx[i] == k {
			g = ids[i]
		}
	}
	return g
}

// vhCompact: what the bytes of one compact measurement denote.
func vhCompact(b []byte, idx []int32, ids []guid.Guid, withTime, ms bool, base [2]int64) (m Measurement, n int) {
	f := uint32(b[0])
	var full uint32
	full |= (f & 1) * 0xFC
	full |= (f >> 1 & 1) * 0xEF03
	full |= (f >> 2 & 1) * 0xBF0000
	full |= (f >> 3 & 1) * 0xE0000000
	full |= (f >> 4 & 1) * 0x1000
	full |= (f >> 5 & 1) * 0x400000
	m.Flags = StateFlagsEnum(full)
	m.SignalID = vhFind(idx, ids, int32(uint32(b[1])<<24|uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4])))
	m.Value = float64(math.Float32frombits(uint32(b[5])<<24 | uint32(b[6])<<16 | uint32(b[7])<<8 | uint32(b[8])))
	n = 9
	if !withTime {
		return
	}
	o := base[f>>7]
	if f&0x40 == 0 {
		var t uint64
		for i := 0; i < 8; i++ {
			t = t<<8 | uint64(b[9+i])
		}
		m.Timestamp = ticks.Ticks(t)
		n = 17
	} else if ms {
		if o > 0 {
			m.Timestamp = ticks.Ticks(uint64(o) + (uint64(b[9])<<8|uint64(b[10]))*10000)
		}
		n = 11
	} else {
		if o > 0 {
			m.Timestamp = ticks.Ticks(uint64(o) + (uint64(b[9])<<24 | uint64(b[10])<<16 | uint64(b[11])<<8 | uint64(b[12])))
		}
		n = 13
	}
	return
}

func vhSame(a, b Measurement) bool {
	ok := math.Float64bits(a.Value) == math.Float64bits(b.Value)
	ok = vhAnd(ok, a.Timestamp == b.Timestamp)
	ok = vhAnd(ok, a.Flags == b.Flags)
	return vhAnd(ok, a.SignalID == b.SignalID)
}

// One compact measurement from any 17 bytes, any cache of up to two signals, any base times and either time format:
// flags, identifier, value and timestamp are the encoded ones and exactly its own bytes are consumed.
//verif:unwind=64
func VH_S03_decode() {
	ds := NewDataSubscriber()
	c, idx, ids := vhCache(ds, vndChoose("n", 3))
	base := [2]int64{vndI64("base0"), vndI64("base1")}
	withTime, ms := vndBool("time"), vndBool("ms")
	b := vndBytes("b", 17)
	cm := NewCompactMeasurement(c, withTime, ms, &base)
	n, err := cm.Decode(b)
	want, wn := vhCompact(b, idx, ids, withTime, ms, base)
	vndAssert(err == nil, "a complete measurement decodes")
	vndAssert(n == wn, "exactly the bytes of the measurement are consumed")
	vndAssert(cm.Flags == want.Flags, "flags")
	vndAssert(cm.SignalID == want.SignalID, "signal identifier")
	vndAssert(math.Float64bits(cm.Value) == math.Float64bits(want.Value), "value")
	vndAssert(cm.Timestamp == want.Timestamp, "timestamp")
	vndReach("decode")
}

// A compact measurement cut off anywhere is an error, never a measurement.
//verif:unwind=64
func VH_S03_short() {
	ds := NewDataSubscriber()
	c, _, _ := vhCache(ds, 1)
	base := [2]int64{vndI64("base0"), vndI64("base1")}
	withTime, ms := vndBool("time"), vndBool("ms")
	k := vndChoose("k", 17)
	b := vndBytes("b", k)
	cm := NewCompactMeasurement(c, withTime, ms, &base)
	n, err := cm.Decode(b)
	need := 9
	if k > 0 && withTime {
		if b[0]&0x40 == 0 {
			need = 17
		} else if ms {
			need = 11
		} else {
			need = 13
		}
	}
	vndAssert((err == nil) == (k >= need), "error exactly when bytes are missing")
	if err == nil {
		vndAssert(n == need, "bytes consumed")
		vndReach("complete")
	} else {
		vndReach("short")
	}
}

// Up to three compact measurements in one packet: each is decoded from its own bytes and delivered in order.
//verif:unwind=64 parts=4
func VH_S03_packet() {
	ds := NewDataSubscriber()
	c, idx, ids := vhCache(ds, 2)
	flag := byte(vndChoose("cache", 2))
	ds.signalIndexCache[flag] = c
	ds.subscription.IncludeTime = vndPart()&1 == 1
	ds.subscription.UseMillisecondResolution = vndPart()&2 == 2
	ds.baseTimeOffsets = [2]int64{vndI64("base0"), vndI64("base1")}
	n := vndChoose("n", 4)
	data := []byte{2 | flag<<4}
	data = vhPut32(data, uint32(n))
	var want []Measurement
	for i := 0; i < n; i++ {
		off := vndChoose("offset", 2)
		size := 9
		if ds.subscription.IncludeTime {
			if off == 0 {
				size = 17
			} else if ds.subscription.UseMillisecondResolution {
				size = 11
			} else {
				size = 13
			}
		}
		b := vndBytes("b", size)
		b[0] = b[0]&^0x40 | byte(off)<<6
		m, _ := vhCompact(b, idx, ids, ds.subscription.IncludeTime, ds.subscription.UseMillisecondResolution, ds.baseTimeOffsets)
		want = append(want, m)
		data = append(data, b...)
	}
	calls := 0
	ds.NewMeasurementsCallback = func(ms *[]Measurement) {
		calls++
		vndAssert(len(*ms) == n, "every measurement of the packet is delivered")
		for i := range want {
			vndAssert(vhSame((*ms)[i], want[i]), "delivered measurement equals the encoded one")
		}
	}
	ds.connected.Set()
	vhReceive(ds, vhFrame(0x82, 2, data))
	vndAssert(calls == 1, "one delivery per packet")
	vndAssert(ds.TotalMeasurementsReceived() == uint64(n), "statistics count the measurements")
	vndReach("packet")
}

// Encoding helpers: flags, times and length computed for a measurement decode back to it.
//verif:unwind=64
func VH_S03_encode() {
	ds := NewDataSubscriber()
	c, _, ids := vhCache(ds, 1)
	ms := vndChoose("ms", 2) == 1
	o := int64(vndInt("base", 0, 3155378975999999999))
	d := int64(vndInt("ahead", 0, 3155378975999999999))
	base := [2]int64{o, 0}
	cm := NewCompactMeasurement(c, true, ms, &base)
	cm.SignalID = ids[0]
	t := o + d
	vndAssume(t <= 3155378975999999999)
	if ms {
		vndAssume(d == d/10000*10000)
	}
	cm.Timestamp = ticks.Ticks(t)
	sel := vndU32("sel") & 0x3f
	var full uint32
	full |= (sel & 1) * 0xFC
	full |= (sel >> 1 & 1) * 0xEF03
	full |= (sel >> 2 & 1) * 0xBF0000
	full |= (sel >> 3 & 1) * 0xE0000000
	full |= (sel >> 4 & 1) * 0x1000
	full |= (sel >> 5 & 1) * 0x400000
	cm.Flags = StateFlagsEnum(full)
	l := cm.GetBinaryLength()
	f := cm.GetCompactStateFlags()
	vndAssert(uint32(f)&0x3f == sel, "state flags")
	small := vhAnd(o > 0, d > 0)
	if ms {
		small = vhAnd(small, d/10000 < 65535)
	} else {
		small = vhAnd(small, d < 4294967295)
	}
	vndAssert((f&0x40 != 0) == small, "offset encoding is used when it fits")
	if small {
		var r int64
		if ms {
			vndAssert(l == 11, "length with millisecond offset")
			r = o + int64(cm.GetTimestampC2())*10000
		} else {
			vndAssert(l == 13, "length with tick offset")
			r = o + int64(cm.GetTimestampC4())
		}
		vndAssert(r == t, "offset time denotes the timestamp")
		vndReach("offset")
	} else {
		vndAssert(l == 17, "length with full time")
		vndReach("full")
	}
}
