package transport

import (
	"net"
	"strconv"
	"strings"
	"time"
)

// vhDatagrams: a UDP socket of the subscriber, a real one on the loopback interface when run natively.
type vhDatagrams struct {
	port   int
	conn   *net.UDPConn
	queue  chan []byte
	gone   chan struct{}
	closed int
}

var (
	vhUDP  []*vhDatagrams
	vhBusy int // port used by another program
)

func vrt_net_ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	port, err := strconv.Atoi(address[strings.LastIndexByte(address, ':')+1:])
	return &net.UDPAddr{Port: port}, err
}

func vrn_net_ListenUDP(network string, addr *net.UDPAddr) (*net.UDPConn, error) {
	vndYield()
	if addr.Port == vhBusy {
		return nil, vhErr{}
	}
	for _, s := range vhUDP {
		if s.port == addr.Port && s.open() {
			return nil, vhErr{}
		}
	}
	s := &vhDatagrams{port: addr.Port, queue: make(chan []byte, 4), gone: make(chan struct{})}
	if vndNative() {
		var err error
		if s.conn, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}); err != nil {
			panic(err)
		}
	} else {
		s.conn = new(net.UDPConn)
	}
	vhUDP = append(vhUDP, s)
	return s.conn, nil
}

func vhSocketOf(c *net.UDPConn) *vhDatagrams {
	if c == nil {
		panic("method call on nil *net.UDPConn")
	}
	for _, s := range vhUDP {
		if s.conn == c {
			return s
		}
	}
	panic("unknown socket")
}

func vrt_netUDPConn_Read(c *net.UDPConn, b []byte) (int, error) {
	s := vhSocketOf(c)
	select {
	case <-s.gone:
		return 0, vhErr{}
	default:
	}
	select {
	case d := <-s.queue:
		return copy(b, d), nil
	case <-s.gone:
		return 0, vhErr{}
	}
}

func vrt_netUDPConn_Close(c *net.UDPConn) error {
	s := vhSocketOf(c)
	s.closed++
	if s.closed > 1 {
		return vhErr{}
	}
	close(s.gone)
	return nil
}

func (s *vhDatagrams) open() bool {
	if vndNative() {
		return s.conn.SetDeadline(time.Time{}) == nil
	}
	return s.closed == 0
}

// send delivers a datagram to the socket.
func (s *vhDatagrams) send(b []byte) {
	if !vndNative() {
		s.queue <- append([]byte(nil), b...)
		return
	}
	c, err := net.DialUDP("udp", nil, s.conn.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic(err)
	}
	c.Write(b)
	c.Close()
}

func vhUDPReset() {
	for _, s := range vhUDP {
		if vndNative() {
			s.conn.Close()
		}
	}
	vhUDP, vhBusy = nil, 0
}

// vhWithUDP: a subscriber ready to subscribe with a UDP data channel.
func vhWithUDP() (*DataSubscriber, *vhConn, *vhEvents) {
	vhUDPReset()
	ds, conn := vhConnected()
	ds.validated.Set()
	ev := vhListen(ds)
	ds.subscription.UdpDataChannel = true
	ds.subscription.DataChannelLocalPort = 9600
	return ds, conn, ev
}

func vhOpenSockets() int {
	n := 0
	for _, s := range vhUDP {
		if s.open() {
			n++
		}
	}
	return n
}

// Every datagram is one response of the publisher: data packets are delivered as sent and in order, datagrams too short
// for a response are reported and skipped, and the bytes of all of them are counted for the data channel only. The
// subscription request names the port. Unsubscribing closes the socket and ends the reception.
//verif:unwind=200 preempt=0 clock=fixed nomerge
func VH_S34_data() {
	ds, conn, ev := vhWithUDP()
	c, idx, ids := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	vndAssert(ds.Subscribe() == nil, "a subscription with a data channel is accepted")
	vndAssert(len(vhUDP) == 1 && vhUDP[0].port == 9600, "the data channel is opened on the port of the subscription")
	vndAssert(len(conn.wire) == 1 && conn.wire[0][4] == 2 && strings.Contains(string(conn.wire[0][10:]), ";dataChannel={localport=9600}"), "the request names the port of the data channel")
	var want []Measurement
	got := 0
	ok := true
	ds.NewMeasurementsCallback = func(ms *[]Measurement) {
		for _, m := range *ms {
			ok = ok && got < len(want) && vhSame(m, want[got])
			got++
		}
	}
	n := 1 + vndChoose("datagrams", 2)
	if n > 1 {
		ds.ErrorMessageCallback = nil
	}
	total, short := 0, 0
	for i := 0; i < n; i++ {
		var d []byte
		switch vndChoose("kind", 3) {
		case 0:
			b := vndBytes("b", 17)
			b[0] &^= 0x40
			if i > 0 {
				b[0] = 0
			}
			m, _ := vhCompact(b, idx, ids, true, false, ds.baseTimeOffsets)
			want = append(want, m)
			d = vhFrame(0x82, 2, append(append([]byte{2}, vhPut32(nil, 1)...), b...))
		case 1:
			d = vndBytes("short", []int{0, 5}[vndChoose("size", 2)])
			short++
		case 2:
			d = vhFrame(0xFF, 0, vndBytes("noop", 2))
		}
		total += len(d)
		vhUDP[0].send(d)
	}
	vndQuiesce()
	vndAssert(ok && got == len(want), "each measurement of a datagram is delivered once, in order")
	vndAssert(len(ev.errors) == short || n > 1, "each datagram that is no response is reported")
	vndAssert(ds.TotalDataChannelBytesReceived() == uint64(total) && ds.TotalCommandChannelBytesReceived() == 0, "the bytes of the data channel are counted")
	ds.Unsubscribe()
	vndAssert(vhOpenSockets() == 0, "unsubscribing closes the data channel")
	vndAssert(len(conn.wire) == 2 && vhCommand(conn.wire[1], 3, nil), "the publisher is told")
	vndAssert(vndQuiesce() == 0, "unsubscribing ends the reception")
	vndReach("data")
}

// When the port is taken, subscribing fails without a request to the publisher; the connection stays usable: subscribing
// with a free port, unsubscribing and disconnecting work as ever.
//verif:unwind=100 preempt=1 clock=fixed nomerge
func VH_S34_busy() {
	ds, conn, ev := vhWithUDP()
	vhBusy = 9600
	vndAssert(ds.Subscribe() != nil && len(conn.wire) == 0, "a data channel that cannot be opened is an error")
	vndAssert(ds.IsConnected() && ev.terminated == 0, "the connection is kept")
	switch vndChoose("then", 4) {
	case 1:
		ds.Unsubscribe()
		vndAssert(len(conn.wire) == 1, "the publisher is told")
	case 2:
		ds.subscription.DataChannelLocalPort = 9601
		vndAssert(ds.Subscribe() == nil && len(vhUDP) == 1 && vhUDP[0].port == 9601, "another port can be used")
	case 3:
		ds.subscription.UdpDataChannel = false
		vndAssert(ds.Subscribe() == nil && len(vhUDP) == 0, "no data channel is opened unless asked for")
	}
	ds.Disconnect()
	vndJoin()
	vndAssert(ds.disconnected.IsSet() && ev.terminated == 1 && conn.closed == 1 && vhOpenSockets() == 0, "the subscriber disconnects and all sockets are closed")
	vndReach("busy")
}

// However a subscriber subscribes and unsubscribes, answered by the publisher or not, at most one data channel is open at a
// time, data received by it is delivered, and none is open after disconnecting.
//verif:unwind=100 preempt=1 tpreempt=2 clock=fixed nomerge
func VH_S34_again() {
	ds, _, ev := vhWithUDP()
	steps := 2
	if vndTier() > 0 {
		steps = 3
	}
	current := -1
	for i := 0; i < steps; i++ {
		switch vndChoose("step", 3) {
		case 0:
			ds.subscription.DataChannelLocalPort = uint16(9600 + vndChoose("port", 2))
			vndAssert(ds.Subscribe() == nil, "subscribing again works")
			current = len(vhUDP) - 1
			vndAssert(current >= 0 && vhUDP[current].port == int(ds.subscription.DataChannelLocalPort) && vhUDP[current].open(), "the data channel of the subscription is open")
			if vndChoose("answer", 2) == 1 {
				vhReceive(ds, vhFrame(0x80, 2, []byte("ok")))
			}
		case 1:
			ds.Unsubscribe()
			current = -1
		case 2:
			ds.subscription.UdpDataChannel = false
			vndAssert(ds.Subscribe() == nil, "subscribing without data channel works")
			ds.subscription.UdpDataChannel = true
			current = -1
		}
		open := 0
		if current >= 0 {
			open = 1
		}
		vndAssert(vhOpenSockets() == open, "only the data channel of the last subscription is open")
	}
	if current >= 0 {
		vhUDP[current].send(vhFrame(0x87, 0, []byte("done")))
		vndQuiesce()
		vndAssert(len(ev.complete) == 1 && ev.complete[0] == "done", "data received over the data channel is processed")
	}
	ds.Disconnect()
	vndJoin()
	vndAssert(ds.disconnected.IsSet() && ev.terminated == 1 && vhOpenSockets() == 0, "no data channel is left open")
	vndReach("again")
}

// A datagram that arrives while the subscriber disconnects, and one that makes it disconnect: the reception ends, nothing
// is delivered after the termination has been reported, and the socket is closed.
//verif:unwind=100 preempt=2 tpreempt=3 clock=fixed nomerge
func VH_S34_end() {
	ds, conn, ev := vhWithUDP()
	vndAssert(ds.Subscribe() == nil, "a subscription with a data channel is accepted")
	late := false
	ds.NewMeasurementsCallback = func(*[]Measurement) { late = late || ev.terminated > 0 }
	if vndChoose("bad", 2) == 1 {
		vhUDP[0].send(vhFrame(0x82, 2, []byte{0}))
	}
	vhUDP[0].send(vhFrame(0x82, 2, []byte{2, 0, 0, 0, 0}))
	ds.Disconnect()
	vndJoin()
	vndAssert(ds.disconnected.IsSet() && ev.terminated == 1 && conn.closed >= 1 && vhOpenSockets() == 0, "the subscriber disconnects and all sockets are closed")
	vndAssert(!late, "nothing is delivered after the connection has been terminated")
	vndReach("end")
}

// Subscribing or unsubscribing while the connection ends, in any order: nothing panics or hangs, and no data channel is
// left open.
//verif:unwind=100 preempt=2 clock=fixed nomerge
func VH_S34_race() {
	ds, _, ev := vhWithUDP()
	if vndChoose("open", 2) == 1 {
		vndAssert(ds.Subscribe() == nil, "a subscription with a data channel is accepted")
	}
	op := vndChoose("op", 2)
	go func() {
		if op == 0 {
			ds.Subscribe()
		} else {
			ds.Unsubscribe()
		}
	}()
	ds.Disconnect()
	vndJoin()
	vndAssert(ds.disconnected.IsSet() && ev.terminated == 1, "the subscriber disconnects")
	vndAssert(vhOpenSockets() == 0, "no data channel is left open")
	vndReach("race")
}

// The measurement callback may unsubscribe.
//verif:unwind=100 preempt=0 clock=fixed nomerge
func VH_S34_callback() {
	ds, conn, _ := vhWithUDP()
	vndAssert(ds.Subscribe() == nil, "a subscription with a data channel is accepted")
	returned := false
	ds.NewMeasurementsCallback = func(*[]Measurement) {
		ds.Unsubscribe()
		returned = true
	}
	vhUDP[0].send(vhFrame(0x82, 2, []byte{2, 0, 0, 0, 0}))
	vndQuiesce()
	vndAssert(len(conn.wire) == 2 && vhCommand(conn.wire[1], 3, nil) && vhOpenSockets() == 0, "the callback unsubscribes")
	vndReach("callback")
	vndAssert(returned, "unsubscribing from the callback returns")
}

// A datagram of any size up to the largest packet is processed whole.
//verif:unwind=40000 preempt=0 clock=fixed nomerge maxconc=40000
func VH_S34_large() {
	ds, _, ev := vhWithUDP()
	vndAssert(ds.Subscribe() == nil, "a subscription with a data channel is accepted")
	n := []int{1472, 4090, 4091, 9000, maxPacketSize - 6}[vndChoose("size", 5)]
	text := make([]byte, n)
	for i := range text {
		text[i] = 'a' + byte(i%23)
	}
	copy(text[n-4:], vndString("tail", 4))
	vhUDP[0].send(vhFrame(0x87, 0, text))
	vndQuiesce()
	vndAssert(len(ev.complete) == 1 && ev.complete[0] == string(text), "a large datagram is processed whole")
	vndAssert(ds.TotalDataChannelBytesReceived() == uint64(n+6), "all its bytes are counted")
	ds.Unsubscribe()
	vndReach("large")
}
