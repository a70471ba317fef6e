package transport

// Any arrival history of five (thorough: six) buffer blocks within three places of each other, starting at any
// sequence number (including wrap-around): every block is delivered exactly once, in sequence order, with its signal
// and payload; each newly received one is acknowledged.
//verif:unwind=64 parts=6 nomerge preempt=0
func VH_S05_order() {
	ds, conn := vhConnected()
	c, idx, ids := vhCache(ds, 2)
	slot := vndChoose("slot", 2)
	ds.signalIndexCache[slot] = c
	ds.Version = byte(1 + vndChoose("version", 2))
	if ds.Version == 1 {
		vndAssume(slot == 0)
	}
	start := vndU32("start")
	ds.bufferBlockExpectedSequenceNumber = start
	steps := 5
	if vndTier() > 0 {
		steps = 6
	}
	const window = 6 // sequence offsets -2..3
	type blk struct {
		seen bool
		sig  int
		data []byte
	}
	var blocks [window]blk
	next := 2 // offset of the next block to deliver
	var out []BufferBlock
	ds.NewBufferBlocksCallback = func(b []BufferBlock) { out = append(out, b...) }
	delivered := 0
	buf := make([]byte, 64)
	for i := 0; i < steps; i++ {
		var k int
		if i == 0 {
			k = vndPart()
		} else {
			k = vndChoose("k", window)
		}
		seq := start + uint32(k) - 2
		sig := i & 1
		if blocks[k].seen {
			sig = blocks[k].sig
		}
		payload := vndBytes("payload", i%3)
		d := vhPut32(buf[:0], seq)
		if ds.Version > 1 {
			d = append(d, byte(slot))
		}
		d = vhPut32(d, uint32(idx[sig]))
		d = append(d, payload...)
		before := len(conn.wire)
		was := len(out)
		vhReceive(ds, vhFrame(0x88, 2, d))
		fresh := k >= next && !blocks[k].seen
		if fresh {
			blocks[k] = blk{true, sig, payload}
			want := []byte{byte(seq >> 24), byte(seq >> 16), byte(seq >> 8), byte(seq)}
			vndAssert(len(conn.wire) == before+1 && vhCommand(conn.wire[before], 8, want), "a new block is acknowledged with its number")
		}
		for next < window && blocks[next].seen {
			vndAssert(delivered < len(out), "a block whose predecessors have arrived is delivered")
			o := out[delivered]
			vndAssert(o.SignalID == ids[blocks[next].sig], "block carries its signal")
			vndAssert(vhEqual(o.Buffer, blocks[next].data), "block carries its payload")
			delivered++
			next++
		}
		vndAssert(len(out) == delivered, "nothing else is delivered")
		if len(out)-was > 1 {
			vndReach("several delivered at once")
		}
		// the packet buffer is reused for the next packet
		for j := range buf {
			buf[j] = 0xEE
		}
	}
	vndReach("history")
}

// Any number of blocks up to twelve (thorough: forty) held back by a missing one, with or without further gaps: all of
// them follow in order once the missing ones arrive.
//verif:unwind=64 nomerge preempt=0 parts=4
func VH_S05_gap() {
	ds, _ := vhConnected()
	c, idx, ids := vhCache(ds, 2)
	ds.signalIndexCache[0] = c
	ds.Version = 2
	start := vndU32("start")
	ds.bufferBlockExpectedSequenceNumber = start
	n := 3*vndPart() + 1 + vndChoose("n", 3)
	if vndTier() > 0 {
		n = 10*vndPart() + 1 + vndChoose("n", 10)
	}
	second := vndChoose("second", 3) == 0 && n > 2 // a second gap
	data := vndBytes("data", 42)
	var out []BufferBlock
	ds.NewBufferBlocksCallback = func(b []BufferBlock) { out = append(out, b...) }
	send := func(k int) {
		d := vhPut32(nil, start+uint32(k))
		d = append(d, 0)
		d = vhPut32(d, uint32(idx[k&1]))
		d = append(d, data[k])
		vhReceive(ds, vhFrame(0x88, 2, d))
	}
	for k := n; k > 0; k-- {
		if !second || k != n/2 {
			send(k)
		}
	}
	vndAssert(len(out) == 0, "blocks wait for the missing one")
	send(0)
	if second {
		vndAssert(len(out) == n/2, "blocks up to the next gap are delivered")
		send(n / 2)
	}
	vndAssert(len(out) == n+1, "all held back blocks follow")
	for k := 0; k <= n; k++ {
		vndAssert(out[k].SignalID == ids[k&1] && len(out[k].Buffer) == 1 && out[k].Buffer[0] == data[k], "held back blocks keep order and content")
	}
	send(n + 1)
	vndAssert(len(out) == n+2, "delivery goes on after a gap")
	vndReach("gap")
}

// A new connection starts over: blocks held back from the previous one are never delivered.
//verif:unwind=64 nomerge preempt=0
func VH_S05_reconnect() {
	ds, _ := vhConnected()
	c, idx, ids := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	var out []BufferBlock
	ds.NewBufferBlocksCallback = func(b []BufferBlock) { out = append(out, b...) }
	mk := func(seq uint32, pay []byte) []byte {
		d := append(vhPut32(nil, seq), 0)
		d = vhPut32(d, uint32(idx[0]))
		return vhFrame(0x88, 2, append(d, pay...))
	}
	early := uint32(vndChoose("early", 3))
	ds.processServerResponse(mk(early, []byte{1}))
	out = nil
	ds.setupConnection()
	pay := vndBytes("payload", 2)
	n := 1 + vndChoose("n", 2)
	for i := 0; i < n; i++ {
		ds.processServerResponse(mk(uint32(i), pay))
	}
	vndAssert(len(out) == n, "exactly the blocks of the new connection are delivered")
	for i := range out {
		vndAssert(out[i].SignalID == ids[0] && vhEqual(out[i].Buffer, pay), "block of the new connection")
	}
	vndReach("reconnect")
}
