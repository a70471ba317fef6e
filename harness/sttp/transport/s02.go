package transport

import (
	"math"
	"sync"

	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport/tssc"
)

// vhStream: a TSSC stream of n measurements of new signals (identifier 1 above the previous one), each with an
// arbitrary timestamp and value; the bytes only decode to these measurements in the right decoder state.
func vhStream(n int, prev uint64) (b []byte, ts []uint64, vals []uint32) {
	for i := 0; i < n; i++ {
		t, v := vndU64("ts"), vndU32("val")
		vndAssume((t^prev)>>14 == 0)
		x := t ^ prev
		b = append(b, 17, byte(x)&0x7f|0x80, byte(x>>7)&0x7f)
		b = append(b, 31, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		prev = t
		ts = append(ts, t)
		vals = append(vals, v)
	}
	return
}

// Every history of up to four packets with arbitrary sequence numbers: a packet is decoded exactly when its number is the
// one expected (or 0, which restarts the stream); any other packet is ignored without disturbing the decoder, so that
// the measurements delivered are exactly those of the accepted packets, in order.
//verif:unwind=64 parts=8 nomerge preempt=0 clock=fixed
func VH_S02_sequence() {
	ds, _ := vhConnected()
	slot := byte(vndChoose("slot", 2))
	c := ds.signalIndexCache[slot]
	ids := map[int32]int{}
	for i := 0; i < 6; i++ {
		g := [16]byte{byte(i + 1)}
		c.addRecord(ds, int32(i), g, "S", uint64(i), 1)
		ids[int32(i)] = i
	}
	// expected sequence number before the first packet: fresh stream (0) or any later number
	var expect uint16
	var id int
	var prev uint64
	fresh := vndPart()&1 == 0
	if !fresh {
		expect = vndU16("expect")
		vndAssume(expect != 0)
		c.tsscDecoder = tssc.NewDecoder()
		c.tsscDecoder.SequenceNumber = expect
	}
	if vndPart()&2 == 2 {
		ds.tsscResetRequested.Set()
	}
	var got []Measurement
	calls := 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) { calls++; got = append(got, *m...) }
	total := uint64(0)
	steps := 3
	if vndTier() > 0 {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		var seq uint16
		kind := vndChoose("kind", 3)
		if i == 0 {
			vndAssume(vndPart()>>2 == kind&1)
		}
		switch kind {
		case 0:
			seq = expect
		case 1:
			seq = 0
			vndAssume(expect != 0)
		case 2:
			seq = vndU16("seq")
			vndAssume(seq != expect && seq != 0)
		}
		if seq == 0 {
			id, prev = 0, 0
		}
		n := 1
		b, ts, vals := vhStream(n, prev)
		data := []byte{0x08 | slot<<4}
		data = vhPut32(data, uint32(n))
		data = append(data, 85, byte(seq>>8), byte(seq))
		data = append(data, b...)
		got = got[:0]
		was := calls
		vhReceive(ds, vhFrame(0x82, 2, data))
		if kind == 2 {
			vndAssert(len(got) == 0 && calls == was, "a packet out of sequence is not delivered")
			vndReach("ignored")
		} else {
			vndAssert(calls == was+1 && len(got) == n, "a packet in sequence is delivered")
			for j := 0; j < n; j++ {
				vndAssert(got[j].SignalID[0] == byte(id+1), "signal of an accepted packet")
				vndAssert(got[j].Timestamp == ticks.Ticks(ts[j]), "timestamp of an accepted packet")
				vndAssert(math.Float64bits(got[j].Value) == math.Float64bits(float64(math.Float32frombits(vals[j]))), "value of an accepted packet")
				vndAssert(got[j].Flags == 0, "flags of an accepted packet")
				id++
				prev = ts[j]
			}
			total += uint64(n)
			expect = seq + 1
			if expect == 0 {
				expect = 1
				vndReach("roll-over")
			}
			if kind == 1 {
				vndReach("restart")
			}
		}
		vndAssert(ds.TotalMeasurementsReceived() == total, "statistics count what was delivered")
	}
	vndReach("history")
}

var _ sync.Mutex

// A packet of another compression version is refused: nothing is delivered and the connection is terminated.
//verif:unwind=64 nomerge preempt=0 clock=fixed
func VH_S02_version() {
	ds, conn := vhConnected()
	calls := 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) { calls++ }
	v := vndU8("version")
	vndAssume(v != 85)
	b, _, _ := vhStream(1, 0)
	data := append(vhPut32([]byte{8}, 1), v, 0, 0)
	vhReceive(ds, vhFrame(0x82, 2, append(data, b...)))
	vndJoin()
	vndAssert(calls == 0, "nothing is delivered from an unknown stream version")
	vndAssert(!ds.IsConnected() && conn.closed == 1, "the connection is terminated")
	vndReach("version")
}

// The two caches have independent streams.
//verif:unwind=64 nomerge preempt=0 clock=fixed
func VH_S02_streams() {
	ds, _ := vhConnected()
	for s := 0; s < 2; s++ {
		for i := 0; i < 4; i++ {
			g := [16]byte{byte(i + 1), byte(s)}
			ds.signalIndexCache[s].addRecord(ds, int32(i), g, "S", uint64(i), 1)
		}
	}
	var got []Measurement
	ds.NewMeasurementsCallback = func(m *[]Measurement) { got = append(got, *m...) }
	var seq [2]uint16
	var prev [2]uint64
	var id [2]int
	for i := 0; i < 4; i++ {
		s := vndChoose("s", 2)
		b, ts, vals := vhStream(1, prev[s])
		data := append(vhPut32([]byte{8 | byte(s)<<4}, 1), 85, byte(seq[s]>>8), byte(seq[s]))
		got = nil
		vhReceive(ds, vhFrame(0x82, 2, append(data, b...)))
		vndAssert(len(got) == 1, "each stream follows its own sequence")
		vndAssert(got[0].SignalID[0] == byte(id[s]+1) && got[0].SignalID[1] == byte(s), "signal comes from the cache of the packet")
		vndAssert(got[0].Timestamp == ticks.Ticks(ts[0]), "timestamp")
		vndAssert(math.Float64bits(got[0].Value) == math.Float64bits(float64(math.Float32frombits(vals[0]))), "value")
		seq[s]++
		prev[s] = ts[0]
		id[s]++
	}
	vndReach("streams")
}
