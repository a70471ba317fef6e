package sttp

import (
	"time"

	"github.com/sttp/goapi/sttp/transport"
)

// vhCtx is a context that ends when its channel is closed.
type vhCtx struct{ done chan struct{} }

type vhEnded struct{}

func (vhEnded) Error() string { return "context ended" }

func (c vhCtx) Deadline() (t time.Time, ok bool) { return }
func (c vhCtx) Done() <-chan struct{}            { return c.done }
func (c vhCtx) Value(key any) any                { return nil }
func (c vhCtx) Err() error {
	select {
	case <-c.done:
		return vhEnded{}
	default:
		return nil
	}
}

func vhMeasurements(n int) []transport.Measurement {
	m := make([]transport.Measurement, n)
	for i := range m {
		m[i].SignalID[0] = vndU8("signal")
		m[i].Value = float64(vndU8("value"))
		m[i].Timestamp = 0
		m[i].Flags = transport.StateFlagsEnum(vndU32("flags"))
	}
	return m
}

// vhDeliver passes measurements to the reader as the subscriber does; the slice is reused afterwards.
func vhDeliver(sb *Subscriber, m []transport.Measurement) {
	c := append([]transport.Measurement(nil), m...)
	sb.dataSubscriber().NewMeasurementsCallback(&c)
	for i := range c {
		c[i].SignalID[0] = ^c[i].SignalID[0]
		c[i].Flags = ^c[i].Flags
		c[i].Value = -1
	}
}

func vhSame(a *transport.Measurement, b *transport.Measurement) bool {
	return a.SignalID == b.SignalID && a.Value == b.Value && a.Timestamp == b.Timestamp && a.Flags == b.Flags
}

// Measurements received in two batches are read one by one, each once, in order and with their content, and keep it
// after the batch has been recycled.
//verif:unwind=16 preempt=3 tpreempt=5 clock=fixed
func VH_S15_order() {
	sb := NewSubscriber()
	r := sb.ReadMeasurements()
	m := vhMeasurements(4)
	go func() {
		vhDeliver(sb, m[:1])
		vhDeliver(sb, m[1:])
	}()
	var got []*transport.Measurement
	for i := 0; i < 4; i++ {
		x, done := r.NextMeasurement(nil)
		vndAssert(x != nil && !done, "a received measurement is read")
		vndAssert(vhSame(x, &m[i]), "measurements are read in order with their content")
		got = append(got, x)
	}
	vndJoin()
	for i := range got {
		vndAssert(vhSame(got[i], &m[i]), "measurements that were read do not change")
	}
	vndReach("order")
}

// The context of a read ends at any moment: the read returns a measurement, or nothing and that it is completed; no
// measurement is lost, and none is read twice.
//verif:unwind=16 preempt=3 tpreempt=4 clock=fixed
func VH_S15_context() {
	sb := NewSubscriber()
	r := sb.ReadMeasurements()
	m := vhMeasurements(2)
	go vhDeliver(sb, m)
	ctx := vhCtx{make(chan struct{})}
	go func() { close(ctx.done) }()
	n := 0
	for i := 0; i < 2; i++ {
		x, done := r.NextMeasurement(ctx)
		vndAssert(done == (x == nil), "a read returns a measurement or is completed")
		if x != nil {
			vndAssert(vhSame(x, &m[n]), "measurements are read in order with their content")
			n++
		} else {
			vndAssert(ctx.Err() != nil, "a read is completed only when its context is done")
		}
	}
	vndReach("context")
	for n < 2 {
		x, done := r.NextMeasurement(nil)
		vndAssert(x != nil && !done && vhSame(x, &m[n]), "no measurement is lost")
		n++
	}
	vndJoin()
}

// A context that is done completes the read although nothing is received.
//verif:unwind=16 preempt=3 clock=fixed
func VH_S15_idle() {
	sb := NewSubscriber()
	r := sb.ReadMeasurements()
	ctx := vhCtx{make(chan struct{})}
	go func() { close(ctx.done) }()
	x, done := r.NextMeasurement(ctx)
	vndAssert(x == nil && done, "a read is completed when its context is done")
	vndReach("idle")
	vndJoin()
}

// The reader is closed at any moment while measurements are received: reception goes on undisturbed, no read stays
// blocked, and whatever is read is right.
//verif:unwind=16 preempt=3 tpreempt=4 clock=fixed
func VH_S15_close() {
	sb := NewSubscriber()
	r := sb.ReadMeasurements()
	m := vhMeasurements(2)
	go func() {
		vhDeliver(sb, m[:1])
		vhDeliver(sb, m[1:])
	}()
	go func() {
		n := 0
		for i := 0; i < 3; i++ {
			x, done := r.NextMeasurement(nil)
			vndAssert(done == (x == nil), "a read returns a measurement or is completed")
			if x != nil {
				vndAssert(n < 2 && vhSame(x, &m[n]), "measurements are read in order with their content")
				n++
			}
		}
	}()
	vndYield()
	r.Close()
	vndJoin()
	vndReach("close")
}

// After the reader has been closed, measurements that are received do not block or crash.
//verif:unwind=16 preempt=3 clock=fixed
func VH_S15_after() {
	sb := NewSubscriber()
	r := sb.ReadMeasurements()
	m := vhMeasurements(2)
	r.Close()
	vhDeliver(sb, m)
	x, done := r.NextMeasurement(nil)
	vndAssert(x == nil && done, "a read of a closed reader is completed")
	vndReach("after")
	vndJoin()
}
