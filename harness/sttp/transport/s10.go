package transport

import (
	"math"

	"github.com/sttp/goapi/sttp/ticks"
)

// vhStale: the pool hands out a slice that still holds an older delivery.
func vhStale(ds *DataSubscriber) {
	m := make([]Measurement, 4)
	for i := range m {
		m[i] = Measurement{Value: 12345, Timestamp: 777, Flags: 9}
		m[i].SignalID[0] = 0xEE
	}
	vhPrime(ds, &m)
}

// A compact packet cut off anywhere, with a fresh or recycled slice: exactly the complete measurements are delivered and
// counted, and the connection is terminated when the packet is short.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S10_truncated() {
	ds, conn := vhConnected()
	c, idx, ids := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	if vndChoose("pool", 2) == 1 {
		vhStale(ds)
	}
	n := 1 + vndChoose("n", 2)
	data := vhPut32([]byte{2}, uint32(n))
	var want []Measurement
	for i := 0; i < n; i++ {
		b := vndBytes("b", 17)
		b[0] &^= 0x40
		m, _ := vhCompact(b, idx, ids, true, false, ds.baseTimeOffsets)
		want = append(want, m)
		data = append(data, b...)
	}
	cut := vndChoose("cut"+string(rune('0'+n)), n*17+1)
	whole := cut / 17
	calls, got := 0, 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) {
		calls++
		got += len(*m)
		vndAssert(len(*m) == whole, "exactly the complete measurements are delivered")
		for i := range *m {
			vndAssert(vhSame((*m)[i], want[i]), "delivered measurement equals the encoded one")
		}
	}
	vhReceive(ds, vhFrame(0x82, 2, data[:5+cut]))
	vndJoin()
	vndAssert(got == whole, "every complete measurement is delivered")
	vndAssert(calls <= 1 && (whole > 0 || calls == 0), "no delivery without measurements")
	vndAssert(ds.TotalMeasurementsReceived() == uint64(whole), "statistics count what was delivered")
	vndAssert((conn.closed == 1) == (cut < n*17), "a short packet ends the connection")
	vndReach("truncated")
}

// Without a signal index cache in the slot they name compact packets deliver and count nothing.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S10_nocache() {
	ds, _ := vhConnected()
	if vndChoose("pool", 2) == 1 {
		vhStale(ds)
	}
	flags := byte(2)
	switch vndChoose("other", 3) {
	case 1: // only the second slot is filled
		ds.signalIndexCache[1], _, _ = vhCache(ds, 1)
		ds.cacheIndex = 1
	case 2: // only the first slot is filled
		ds.signalIndexCache[0], _, _ = vhCache(ds, 1)
		flags |= 0x10
	}
	calls := 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) { calls++ }
	n := 1 + vndChoose("n", 3)
	data := vhPut32([]byte{flags}, uint32(n))
	data = append(data, vndBytes("b", 17*n)...)
	vhReceive(ds, vhFrame(0x82, 2, data))
	vndJoin()
	vndAssert(calls == 0 && ds.TotalMeasurementsReceived() == 0, "nothing is delivered or counted without a cache")
	vndReach("nocache")
}

// A compressed packet with fewer or more measurements than announced, with a fresh or recycled slice.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S10_announced() {
	ds, conn := vhConnected()
	for i := 0; i < 4; i++ {
		ds.signalIndexCache[0].addRecord(ds, int32(i), [16]byte{byte(i + 1)}, "S", uint64(i), 1)
	}
	if vndChoose("pool", 2) == 1 {
		vhStale(ds)
	}
	n := vndChoose("n", 4)
	announced := vndChoose("announced", 5)
	b, ts, vals := vhStream(n, 0)
	data := append(vhPut32([]byte{8}, uint32(announced)), 85, 0, 0)
	data = append(data, b...)
	want := n
	if announced < n {
		want = announced
	}
	got := 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) {
		got += len(*m)
		vndAssert(len(*m) == want, "exactly the received measurements are delivered")
		for j := range *m {
			vndAssert((*m)[j].SignalID[0] == byte(j+1) && (*m)[j].Timestamp == ticks.Ticks(ts[j]) && (*m)[j].Flags == 0, "delivered measurement is a received one")
			vndAssert(math.Float64bits((*m)[j].Value) == math.Float64bits(float64(math.Float32frombits(vals[j]))), "delivered value is a received one")
		}
	}
	vhReceive(ds, vhFrame(0x82, 2, data))
	vndJoin()
	vndAssert(got == want, "received measurements are delivered")
	vndAssert(ds.TotalMeasurementsReceived() == uint64(want), "statistics count what was delivered")
	vndAssert((conn.closed == 1) == (announced < n), "a packet that contradicts its count ends the connection")
	vndReach("announced")
}

// Packets that are neither compact nor compressed are refused.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S10_format() {
	ds, conn := vhConnected()
	c, _, _ := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	calls := 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) { calls++ }
	f := vndU8("flags")
	vndAssume(f&0x0A == 0)
	data := vhPut32([]byte{f}, 1)
	data = append(data, vndBytes("b", 17)...)
	vhReceive(ds, vhFrame(0x82, 2, data))
	vndJoin()
	vndAssert(calls == 0 && ds.TotalMeasurementsReceived() == 0, "nothing is delivered from an unknown format")
	vndAssert(conn.closed == 1 && !ds.IsConnected(), "an unknown format ends the connection")
	vndReach("format")
}
