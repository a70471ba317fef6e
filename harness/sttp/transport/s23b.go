package transport

import "net"

// A listening subscriber whose publisher drops the connection while another one connects: each connection that is
// accepted is established and ended once, or refused, and the one in use is left alone.
//verif:unwind=16 preempt=2 clock=fixed nomerge
func VH_S23_listener() {
	ds := NewDataSubscriber()
	a := &vhPieces{eof: make(chan struct{})}
	b := &vhPieces{hold: true, eof: make(chan struct{})}
	l := &vhListener{conns: []net.Conn{a, b}, closed: make(chan struct{})}
	vhSocketListener = l
	begun, ended := 0, 0
	ds.ConnectionEstablishedCallback = func() { begun++ }
	ds.ConnectionTerminatedCallback = func() { ended++ }
	vndAssert(ds.Listen(7165, "") == nil && ds.IsListening(), "listening")
	vndQuiesce()
	vndAssert(l.accept == 2 && ds.IsListening() && l.ended == 0, "remains listening")
	vndAssert(a.closed > 0 && ended == 1, "first connection has ended")
	if ds.IsConnected() {
		vndAssert(begun == 2 && b.closed == 0, "second connection is in use")
		vndReach("listener")
	} else {
		vndAssert(begun == 1 && b.closed > 0, "second connection is refused")
		vndReach("refused")
	}
	ds.Disconnect()
	vndJoin()
	vndAssert(begun == ended && a.closed > 0 && b.closed > 0 && l.ended > 0, "everything has ended")
	vndAssert(!ds.IsConnected() && !ds.IsListening(), "no longer listening")
}

// Disconnecting a listening subscriber at any moment of an incoming connection ends both.
//verif:unwind=16 preempt=2 clock=fixed nomerge
func VH_S23_incoming() {
	ds := NewDataSubscriber()
	a := &vhPieces{hold: true, eof: make(chan struct{})}
	l := &vhListener{conns: []net.Conn{a}, closed: make(chan struct{})}
	vhSocketListener = l
	begun, ended := 0, 0
	ds.ConnectionEstablishedCallback = func() { begun++ }
	ds.ConnectionTerminatedCallback = func() { ended++ }
	ds.Listen(7165, "")
	vndYield()
	ds.Disconnect()
	vndJoin()
	vndAssert(!ds.IsConnected() && !ds.IsListening() && l.ended > 0, "no longer listening")
	vndAssert(begun == ended && (l.accept == 0 || a.closed > 0), "an accepted connection has ended")
	vndReach("incoming")
}
