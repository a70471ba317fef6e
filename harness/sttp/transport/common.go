package transport

import "github.com/sttp/goapi/sttp/guid"

// vhConnected: a subscriber with an established command channel.
func vhConnected() (*DataSubscriber, *vhConn) {
	ds := NewDataSubscriber()
	c := &vhConn{}
	ds.commandChannelSocket = c
	ds.connected.Set()
	return ds, c
}

func vhGuid(name string) guid.Guid {
	var g guid.Guid
	copy(g[:], vndBytes(name, 16))
	return g
}

func vhEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vhAnd(ok, a[i] == b[i])
	}
	return ok
}

// vhAnd without a branch.
func vhAnd(a, b bool) bool {
	var x, y uint8
	if a {
		x = 1
	}
	if b {
		y = 1
	}
	return x&y == 1
}

// vhCommand: is w the complete frame of a command?
func vhCommand(w []byte, code byte, payload []byte) bool {
	if len(w) != 5+len(payload) {
		return false
	}
	n := len(payload) + 1
	if w[0] != byte(n>>24) || w[1] != byte(n>>16) || w[2] != byte(n>>8) || w[3] != byte(n) || w[4] != code {
		return false
	}
	return vhEqual(w[5:], payload)
}

func vhPrime(ds *DataSubscriber, m *[]Measurement) {
	vhPool = m
	if vndNative() {
		ds.MeasurementPool.Put(m)
	}
}

// vhReceive processes one server response. The buffer is reused for the next one, as the socket reader does.
func vhReceive(ds *DataSubscriber, frame []byte) {
	ds.processServerResponse(frame)
	for i := range frame {
		frame[i] = 0xA5
	}
}
