package transport

import (
	"net"

	"github.com/sttp/goapi/sttp/ticks"
)

// vhOnline: a subscriber connected to a publisher that says nothing, as established by its connector.
func vhOnline() (*DataSubscriber, *vhPieces, *int) {
	ds := vhNetwork(1, true)
	c := &vhPieces{hold: true, eof: make(chan struct{})}
	first := true
	vhSocket = func() net.Conn {
		if first {
			first = false
			return c
		}
		return &vhPieces{hold: true, eof: make(chan struct{})}
	}
	ended := new(int)
	ds.ConnectionTerminatedCallback = func() { *ended++ }
	sc := ds.connector
	sc.MaxRetries, sc.RetryInterval, sc.MaxRetryInterval = -1, 10, 10
	return ds, c, ended
}

// Two concurrent requests to disconnect end the connection once.
//verif:unwind=16 preempt=2 clock=fixed nomerge
func VH_S23_twice() {
	ds, c, ended := vhOnline()
	vndAssert(ds.connector.Connect(ds) == ConnectStatus.Success, "connected")
	go ds.Disconnect()
	ds.Disconnect()
	vndJoin()
	vndAssert(*ended == 1, "termination is reported once")
	vndAssert(!ds.IsConnected() && !ds.IsValidated() && !ds.IsSubscribed() && c.closed > 0, "the connection has ended")
	vndReach("twice")
}

// The peer drops the connection at any moment relative to a request to disconnect: the connection ends, its end is
// reported once, and it is not reestablished.
//verif:unwind=16 preempt=2 clock=fixed nomerge
func VH_S23_race() {
	ds, c, ended := vhOnline()
	ds.connector.AutoReconnect = true
	c.hold = false
	dials := 0
	socket := vhSocket
	vhSocket = func() net.Conn { dials++; return socket() }
	ds.connector.Connect(ds)
	vndYield()
	ds.Disconnect()
	vndJoin()
	vndAssert(!ds.IsConnected() && c.closed > 0, "the connection has ended")
	vndAssert(*ended == dials, "the end of each connection is reported once")
	vndReach("race")
}

// A request to disconnect at any moment of establishing a connection takes effect: nothing hangs, and the subscriber
// ends up disconnected.
//verif:unwind=16 preempt=2 clock=fixed nomerge
func VH_S23_during() {
	ds, c, ended := vhOnline()
	dialing := false
	socket := vhSocket
	vhSocket = func() net.Conn { dialing = true; vndYield(); return socket() }
	go ds.connector.Connect(ds)
	vndYield()
	late := dialing
	ds.Disconnect()
	vndQuiesce()
	if late {
		vndAssert(!ds.IsConnected() && c.closed > 0, "the connection has ended")
		vndAssert(*ended == 1, "termination is reported once")
		vndReach("during")
	}
	ds.Disconnect()
	vndJoin()
}

// After the connection has ended, for whatever reason, another one can be made, which works as the first one did.
//verif:unwind=16 preempt=1 clock=fixed nomerge
func VH_S23_again() {
	ds, c, ended := vhOnline()
	if vndChoose("peer", 2) == 1 {
		c.hold = false
	}
	vndAssert(ds.Connect("publisher", 7165) == nil, "connected")
	if c.hold {
		ds.Disconnect()
	}
	vndQuiesce()
	vndAssert(!ds.IsConnected() && *ended == 1 && c.closed > 0, "the connection has ended")
	c2 := &vhPieces{data: append(vhPacket(0x80, 6, nil), vhPacket(0x86, 0, vhPut64(nil, 5))...), hold: true, eof: make(chan struct{})}
	vhSocket = func() net.Conn { return c2 }
	times := 0
	ds.DataStartTimeCallback = func(t ticks.Ticks) { times++ }
	vndAssert(ds.Connect("publisher", 7165) == nil, "connected again")
	vndQuiesce()
	vndAssert(ds.IsConnected() && len(c2.wire) == 1 && times == 1 && *ended == 1, "second connection works")
	vndReach("again")
	ds.Disconnect()
	vndJoin()
	vndAssert(!ds.IsConnected() && *ended == 2 && c2.closed > 0, "the second connection has ended")
}
