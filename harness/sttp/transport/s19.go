package transport

// On a connection that is not validated yet, only a no-operation or an answer to the operational modes is accepted as
// first response; anything else ends the connection without any effect.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S19_first() {
	ds, conn := vhConnected()
	ds.validated.UnSet()
	ev := vhListen(ds)
	ds.CompressMetadata = false
	ds.CompressSignalIndexCache = false
	code, cmd := vndU8("code"), vndU8("command")
	valid := code == 0xFF || cmd == 6 && (code == 0x80 || code == 0x81)
	data := vndBytes("data", 8)
	vndAssume(!valid)
	vhReceive(ds, vhFrame(code, cmd, data))
	vndJoin()
	vndAssert(ev.terminated == 1 && conn.closed == 1 && !ds.IsConnected(), "an unexpected first response ends the connection")
	vndAssert(!ds.IsValidated() && !ds.IsSubscribed(), "an unexpected first response validates nothing")
	vndAssert(ev.others() == 2 && len(conn.wire) == 0 && len(ev.errors) == 1, "an unexpected first response has no other effect")
	vndReach("refused")
}

//verif:unwind=64 preempt=0 clock=fixed
func VH_S19_accept() {
	ds, conn := vhConnected()
	ds.validated.UnSet()
	ev := vhListen(ds)
	code := []byte{0xFF, 0x80, 0x81}[vndChoose("code", 3)]
	cmd := byte(6)
	if code == 0xFF {
		cmd = vndU8("command")
	}
	vhReceive(ds, vhFrame(code, cmd, vndBytes("data", 2)))
	vndJoin()
	vndAssert(ds.IsValidated(), "a valid first response validates the connection")
	vndAssert(conn.closed == 0 && ev.others() == 0 && ds.IsConnected(), "a valid first response keeps the connection")
	vndReach("accepted")
}

// Before validation a packet of more than 8 KB payload is refused without reading it; up to that size it is read.
//verif:unwind=9000 preempt=0 clock=fixed nomerge
func VH_S19_size() {
	ds := NewDataSubscriber()
	ds.validated.UnSet()
	ev := vhListen(ds)
	n := vndU32("size")
	c := &vhPieces{data: vhPut32(nil, n), eof: make(chan struct{})}
	ds.commandChannelSocket = c
	ds.connected.Set()
	vndAssume(n > 6+8192)
	vhRead(ds)
	vndJoin()
	vndAssert(len(ds.readBuffer) == maxPacketSize, "no memory is reserved for an oversized first packet")
	vndAssert(len(ev.errors) == 1 && ev.terminated == 1 && c.closed == 1 && !ds.IsValidated(), "an oversized first packet ends the connection")
	vndReach("oversized")
}

//verif:unwind=9000 preempt=0 clock=fixed nomerge
func VH_S19_limit() {
	ds := NewDataSubscriber()
	ds.validated.UnSet()
	ev := vhListen(ds)
	n := []int{0, 1, 8191, 8192}[vndChoose("n", 4)]
	c := &vhPieces{data: vhPacket(0x80, 6, make([]byte, n)), hold: true, eof: make(chan struct{})}
	ds.commandChannelSocket = c
	ds.connected.Set()
	vhRead(ds)
	vndQuiesce()
	vndAssert(ds.IsValidated() && ds.IsConnected() && len(ev.errors) == 0 && len(ev.status) == 1, "a first packet within the limit is accepted")
	vndReach("limit")
	ds.Disconnect()
	vndJoin()
}

// The older protocol version has no answer to operational modes: any first response is processed.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S19_version1() {
	ds, conn := vhConnected()
	ds.validated.UnSet()
	ds.Version = 1
	ev := vhListen(ds)
	vhReceive(ds, vhFrame(0x87, vndU8("command"), vndBytes("data", 2)))
	vndJoin()
	vndAssert(ds.IsValidated() && len(ev.complete) == 1 && conn.closed == 0, "version 1 accepts any first response")
	vndReach("version1")
}

// Nothing can be subscribed over a connection that is closed or not validated.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S19_subscribe() {
	ds, conn := vhConnected()
	if vndChoose("closed", 2) == 1 {
		ds.connected.UnSet()
	} else {
		ds.validated.UnSet()
	}
	vndAssert(ds.Subscribe() != nil, "subscribing without a validated connection is an error")
	vndAssert(len(conn.wire) == 0, "subscribing without a validated connection sends nothing")
	vndReach("subscribe")
}
