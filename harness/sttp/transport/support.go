package transport

import (
	"net"
	"sync"
	"time"
)

// vhConn is the command channel of a harness: it records what the subscriber writes.
type vhConn struct {
	wire   [][]byte
	closed int
	fail   bool
}

type vhErr struct{}

func (vhErr) Error() string { return "connection failed" }

func (c *vhConn) Read(b []byte) (int, error) { return 0, vhErr{} }
func (c *vhConn) Write(b []byte) (int, error) {
	if c.fail {
		return 0, vhErr{}
	}
	vndYield()
	p := make([]byte, len(b))
	copy(p, b)
	c.wire = append(c.wire, p)
	return len(b), nil
}
func (c *vhConn) Close() error                       { c.closed++; return nil }
func (c *vhConn) LocalAddr() net.Addr                { return nil }
func (c *vhConn) RemoteAddr() net.Addr               { return nil }
func (c *vhConn) SetDeadline(t time.Time) error      { return nil }
func (c *vhConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vhConn) SetWriteDeadline(t time.Time) error { return nil }

// vhFrame: one complete server response packet.
func vhFrame(response, command byte, data []byte) []byte {
	b := make([]byte, 6+len(data))
	b[0], b[1] = response, command
	n := uint32(len(data))
	b[2], b[3], b[4], b[5] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
	copy(b[6:], data)
	return b
}

func vhPut32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func vhPut64(b []byte, v uint64) []byte { return vhPut32(vhPut32(b, uint32(v>>32)), uint32(v)) }

// The measurement pool hands out at most the one slice given to vhPrime.
var vhPool any

func vrt_syncPool_Get(p *sync.Pool) any {
	v := vhPool
	vhPool = nil
	return v
}

// The network and the clock of the connector harnesses. vhDials tells how each connection attempt ends; timers either
// expire at once, or only when reset to do so.
var (
	vhAttempts int
	vhDialOK   int // attempts from this one on succeed; negative: never
	vhSocket   func() net.Conn
	vhWaits    []time.Duration
	vhFire     bool
	vhExpire   map[*time.Timer]chan time.Time
)

func vrn_net_Dial(network, address string) (net.Conn, error) {
	vhAttempts++
	vndYield()
	if vhPeers != nil {
		if vhAttempts > len(vhPeers) || vhPeers[vhAttempts-1] == nil {
			return nil, vhErr{}
		}
		return vhPeers[vhAttempts-1], nil
	}
	if vhDialOK < 0 || vhAttempts < vhDialOK {
		return nil, vhErr{}
	}
	return vhSocket(), nil
}

func vrn_time_NewTimer(d time.Duration) *time.Timer {
	vhWaits = append(vhWaits, d)
	if vndNative() {
		if vhFire {
			d = 0
		}
		return time.NewTimer(d)
	}
	ch := make(chan time.Time, 1)
	if vhFire {
		ch <- time.Time{}
	}
	t := &time.Timer{C: ch}
	vhExpire[t] = ch
	return t
}

func vrt_timeTimer_Reset(t *time.Timer, d time.Duration) bool {
	ch := vhExpire[t]
	if d <= 0 && len(ch) == 0 {
		ch <- time.Time{}
	}
	return true
}

func vrt_timeTimer_Stop(t *time.Timer) bool { return true }

// vhPieces is a command channel that delivers a byte stream in pieces; at the end it fails once, unless it is to be held
// open, and then waits until closed.
type vhPieces struct {
	vhConn
	data   []byte
	cuts   []int
	pos    int
	hold   bool
	failed bool
	eof    chan struct{}
}

func (c *vhPieces) Read(b []byte) (int, error) {
	if c.pos == len(c.data) {
		if c.hold || c.failed {
			<-c.eof
		}
		c.failed = true
		return 0, vhErr{}
	}
	end := len(c.data)
	for _, k := range c.cuts {
		if k > c.pos && k < end {
			end = k
		}
	}
	if end-c.pos > len(b) {
		end = c.pos + len(b)
	}
	n := copy(b, c.data[c.pos:end])
	c.pos += n
	vndYield()
	return n, nil
}

func (c *vhPieces) Close() error {
	c.closed++
	if c.closed == 1 {
		close(c.eof)
	}
	return nil
}

// vhPacket: a server response as it is sent over the command channel.
func vhPacket(response, command byte, data []byte) []byte {
	f := vhFrame(response, command, data)
	return append(vhPut32(nil, uint32(len(f))), f...)
}


// vhListener: publishers connect to the subscriber one after the other.
type vhListener struct {
	conns  []net.Conn
	accept int
	closed chan struct{}
	ended  int
}

func (l *vhListener) Accept() (net.Conn, error) {
	if l.accept < len(l.conns) {
		l.accept++
		vndYield()
		return l.conns[l.accept-1], nil
	}
	<-l.closed
	return nil, vhErr{}
}

func (l *vhListener) Close() error {
	l.ended++
	if l.ended == 1 {
		close(l.closed)
	}
	return nil
}

func (l *vhListener) Addr() net.Addr { return nil }

var vhSocketListener net.Listener

func vrn_net_Listen(network, address string) (net.Listener, error) { return vhSocketListener, nil }

// What follows is for the harnesses of packages built on this one.

// VhPeer is the publisher's end of a connection.
type VhPeer struct {
	vhConn
	feed chan []byte
	rest []byte
	gone chan struct{}
	Host string
}

func NewVhPeer() *VhPeer {
	return &VhPeer{feed: make(chan []byte, 8), gone: make(chan struct{})}
}

func (p *VhPeer) Read(b []byte) (int, error) {
	if len(p.rest) == 0 {
		select {
		case p.rest = <-p.feed:
			if p.rest == nil {
				return 0, vhErr{}
			}
		case <-p.gone:
			return 0, vhErr{}
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *VhPeer) Close() error {
	p.closed++
	if p.closed == 1 {
		close(p.gone)
	}
	return nil
}

// Send lets the publisher send a response, Drop lets it close the connection.
func (p *VhPeer) Send(response, command byte, data []byte) { p.feed <- vhPacket(response, command, data) }
func (p *VhPeer) Drop()                                    { p.feed <- nil }
func (p *VhPeer) Closed() bool                             { return p.closed > 0 }

// Commands: codes and payloads of the commands the publisher has received.
func (p *VhPeer) Commands() (code []byte, payload []string) {
	for _, w := range p.wire {
		code = append(code, w[4])
		payload = append(payload, string(w[5:]))
	}
	return
}

var vhPeers []*VhPeer

// VhNetwork: the connection attempts to come reach these publishers, or fail where there is none.
func VhNetwork(fire bool, peers ...*VhPeer) {
	vhAttempts, vhFire = 0, fire
	vhWaits = nil
	vhExpire = map[*time.Timer]chan time.Time{}
	vhPeers = peers
}

func VhAttempts() int { return vhAttempts }

// VhIncoming: publishers that connect to a listening subscriber.
func VhIncoming(peers ...*VhPeer) {
	l := &vhListener{closed: make(chan struct{})}
	for _, p := range peers {
		l.conns = append(l.conns, p)
	}
	vhSocketListener = l
}
