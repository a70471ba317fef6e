package transport

import (
	"github.com/sttp/goapi/sttp/thread"
	"github.com/sttp/goapi/sttp/ticks"
)

func vhTimes(n int) (b []byte, t []ticks.Ticks) {
	for i := 0; i < n; i++ {
		v := vndU64("time")
		t = append(t, ticks.Ticks(v))
		b = append(b, vhPacket(0x86, 0, vhPut64(nil, v))...)
	}
	return
}

// A stream of three responses, delivered in any three pieces and ended anywhere: every complete response is processed
// once and in order, nothing else is, received bytes are counted, and the end of the stream ends the connection.
//verif:unwind=64 preempt=0 clock=fixed nomerge parts=4
func VH_S22_pieces() {
	ds := NewDataSubscriber()
	b, t := vhTimes(3)
	n := len(b)
	c := &vhPieces{data: b, eof: make(chan struct{})}
	whole := 3
	switch vndPart() {
	case 0:
		i := 1 + vndChoose("i", n-1)
		j := i + vndChoose("j", n-i)
		c.cuts = []int{i, j}
	case 1:
		k := vndChoose("end", n)
		c.data = b[:k]
		whole = k / (n / 3)
	case 2:
		k := vndChoose("end", n)
		c.data = b[:k]
		whole = k / (n / 3)
		c.cuts = []int{1, 5, 17, 19, 30}
	case 3:
		for i := 1; i < n; i++ {
			c.cuts = append(c.cuts, i)
		}
	}
	ds.commandChannelSocket = c
	ds.connected.Set()
	ev := vhListen(ds)
	vhRead(ds)
	vndJoin()
	vndAssert(len(ev.start) == whole, "every complete response is processed once")
	for i := range ev.start {
		vndAssert(ev.start[i] == t[i], "responses are processed in order with their content")
	}
	vndAssert(ev.terminated == 1 && ev.others() == whole+2, "the end of the stream is the only other event")
	vndAssert(c.closed == 1 && !ds.IsConnected(), "the end of the stream ends the connection")
	rest := len(c.data) - whole*(n/3)
	total := ds.TotalCommandChannelBytesReceived()
	vndAssert(total == uint64(whole*(n/3)) || rest > 4 && total == uint64(whole*(n/3)+4) || rest == 4 && total == uint64(whole*(n/3)+4), "received bytes are counted")
	vndReach("pieces")
}

// Responses larger than the read buffer are received whole, and the ones after them too.
//verif:unwind=50000 preempt=0 clock=fixed nomerge
func VH_S22_large() {
	ds := NewDataSubscriber()
	size := []int{32762, 32763, 40000}[vndChoose("size", 3)]
	text := make([]byte, size)
	text[0], text[size/2], text[size-1] = vndU8("a"), vndU8("b"), vndU8("c")
	b := vhPacket(0x87, 0, text)
	tail, t := vhTimes(1)
	c := &vhPieces{data: append(b, tail...), eof: make(chan struct{})}
	ds.commandChannelSocket = c
	ds.connected.Set()
	ev := vhListen(ds)
	vhRead(ds)
	vndJoin()
	vndAssert(len(ev.complete) == 1 && len(ev.complete[0]) == size, "a large response is received whole")
	s := ev.complete[0]
	vndAssert(s[0] == text[0] && s[size/2] == text[size/2] && s[size-1] == text[size-1] && s[7] == 0, "a large response is received unchanged")
	vndAssert(len(ev.start) == 1 && ev.start[0] == t[0], "the response after a large one is received")
	vndReach("large")
}

// Unsubscribing while responses arrive does not disturb their reception.
//verif:unwind=64 preempt=2 clock=fixed nomerge
func VH_S22_unsubscribe() {
	ds := NewDataSubscriber()
	b, t := vhTimes(2)
	c := &vhPieces{data: b, hold: true, eof: make(chan struct{})}
	ds.commandChannelSocket = c
	ds.connected.Set()
	ds.subscribed.Set()
	ev := vhListen(ds)
	vhRead(ds)
	ds.Unsubscribe()
	vndQuiesce()
	vndAssert(len(ev.start) == 2 && ev.start[0] == t[0] && ev.start[1] == t[1], "every response is processed while unsubscribing")
	vndAssert(ev.terminated == 0 && ds.IsConnected(), "unsubscribing keeps the connection")
	vndAssert(len(c.wire) == 1 && vhCommand(c.wire[0], 3, nil), "unsubscribing sends its command")
	vndReach("unsubscribe")
	ds.Disconnect()
	vndJoin()
}

// vhRead starts reading responses as an established connection does.
func vhRead(ds *DataSubscriber) {
	ds.commandChannelResponseThread = thread.NewThread(ds.runCommandChannelResponseThread)
	ds.commandChannelResponseThread.Start()
}
