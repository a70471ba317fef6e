package transport

// Any command with any payload of up to 12 bytes is written as one frame: length, code, payload; the payload is
// not modified.
//verif:unwind=64
func VH_S06_frame() {
	ds, conn := vhConnected()
	n := vndChoose("n", 13)
	code := vndU8("code")
	p := vndBytes("p", n)
	keep := append([]byte{}, p...)
	ds.SendServerCommandWithPayload(ServerCommandEnum(code), p)
	vndAssert(len(conn.wire) == 1, "one write per command")
	vndAssert(vhCommand(conn.wire[0], code, keep), "command frame")
	vndAssert(vhEqual(p, keep), "payload is not modified")
	ds.SendServerCommandWithMessage(ServerCommandEnum(code), string(p))
	vndAssert(len(conn.wire) == 2 && vhCommand(conn.wire[1], code, keep), "command frame with message")
	ds.SendServerCommand(ServerCommandEnum(code))
	vndAssert(len(conn.wire) == 3 && vhCommand(conn.wire[2], code, nil), "command frame without payload")
	vndReach("frame")
}

// Payloads around and beyond the size of the internal buffer, before and after larger and smaller ones.
//verif:unwind=300000 nomerge
func VH_S06_large() {
	ds, conn := vhConnected()
	sizes := []int{32768 - 6, 32768 - 5, 32768 - 4, 32768, 70000, 3}
	a, b := sizes[vndChoose("a", 6)], sizes[vndChoose("b", 6)]
	code := vndU8("code")
	for i, n := range []int{a, b} {
		p := make([]byte, n)
		p[0], p[n-1] = vndU8("first"), vndU8("last")
		ds.SendServerCommandWithPayload(ServerCommandEnum(code), p)
		vndAssert(len(conn.wire) == i+1, "one write per command")
		w := conn.wire[i]
		k := n + 1
		vndAssert(len(w) == n+5 && w[0] == 0 && w[1] == byte(k>>16) && w[2] == byte(k>>8) && w[3] == byte(k) && w[4] == code, "header of a large command")
		vndAssert(w[5] == p[0] && w[n+4] == p[n-1], "ends of a large payload")
	}
	vndReach("large")
}

// A disconnected subscriber writes nothing.
//verif:unwind=64
func VH_S06_closed() {
	ds, conn := vhConnected()
	ds.connected.UnSet()
	ds.SendServerCommandWithPayload(ServerCommandEnum(vndU8("code")), vndBytes("p", 3))
	vndAssert(len(conn.wire) == 0, "nothing is written when not connected")
	vndReach("closed")
}

// Two (thorough: three) threads sending at once: the frames on the wire are the frames sent, whole, in some order.
//verif:unwind=64 preempt=2 nomerge
func VH_S06_concurrent() {
	ds, conn := vhConnected()
	n := 2
	if vndTier() > 0 {
		n = 3
	}
	pay := make([][]byte, n)
	code := make([]byte, n)
	for i := range pay {
		pay[i] = vndBytes("p", 1+i%2)
		code[i] = byte(0xD0 + i)
	}
	for i := 1; i < n; i++ {
		go ds.SendServerCommandWithPayload(ServerCommandEnum(code[i]), pay[i])
	}
	ds.SendServerCommandWithPayload(ServerCommandEnum(code[0]), pay[0])
	vndJoin()
	vndAssert(len(conn.wire) == n, "one frame per command")
	for i := range pay {
		found := 0
		for _, w := range conn.wire {
			if vhCommand(w, code[i], pay[i]) {
				found++
			}
		}
		vndAssert(found == 1, "every command is on the wire, whole")
	}
	vndReach("concurrent")
}

// Operational modes sent on connect reflect version, encoding and the compression options for every configuration.
//verif:unwind=64
func VH_S06_modes() {
	ds, conn := vhConnected()
	v := vndU8("version")
	ds.Version = v
	pay, meta, sic, udp := vndBool("payload"), vndBool("metadata"), vndBool("cache"), vndBool("udp")
	ds.CompressPayloadData, ds.CompressMetadata, ds.CompressSignalIndexCache = pay, meta, sic
	ds.subscription.UdpDataChannel = udp
	ds.sendOperationalModes()
	want := uint32(v) | 0x200
	if v < 10 {
		want |= 0x20
	}
	if pay && !udp {
		want |= 0x20000000
		if v < 10 {
			want |= 0x40
		}
	}
	if meta {
		want |= 0x80000000
	}
	if sic {
		want |= 0x40000000
	}
	vndAssert(len(conn.wire) == 1 && vhCommand(conn.wire[0], 6, vhPut32(nil, want)), "operational modes reflect the configuration")
	vndReach("modes")
}

// Every notification is passed on once and confirmed with its own hash.
//verif:unwind=64 preempt=0
func VH_S06_notify() {
	ds, conn := vhConnected()
	n := vndChoose("n", 6)
	b := vndBytes("b", 4+n)
	calls := 0
	ds.NotificationReceivedCallback = func(m string) {
		calls++
		vndAssert(m == string(b[4:]), "notification text")
	}
	vhReceive(ds, vhFrame(0x89, 0, b))
	vndJoin()
	vndAssert(calls == 1, "notification is passed on once")
	vndAssert(len(conn.wire) == 1 && vhCommand(conn.wire[0], 7, b[:4]), "notification is confirmed with its hash")
	vndReach("notify")
}

// A failed write terminates the connection.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S06_fail() {
	ds, conn := vhConnected()
	conn.fail = true
	ended := 0
	ds.ConnectionTerminatedCallback = func() { ended++ }
	ds.SendServerCommandWithPayload(ServerCommandEnum(vndU8("code")), vndBytes("p", 2))
	vndJoin()
	vndAssert(!ds.IsConnected() && ended == 1 && conn.closed == 1, "a failed write ends the connection")
	vndReach("fail")
}
