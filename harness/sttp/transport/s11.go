package transport

import (
	"net"
	"time"
)

func vhNetwork(dialOK int, fire bool) *DataSubscriber {
	vhAttempts, vhDialOK, vhFire = 0, dialOK, fire
	vhWaits = nil
	vhExpire = map[*time.Timer]chan time.Time{}
	vhSocket = func() net.Conn { return &vhPieces{hold: true, eof: make(chan struct{})} }
	ds := NewDataSubscriber()
	sc := ds.connector
	sc.Hostname, sc.Port = "publisher", 7165
	return ds
}

// vhDelay: the wait before retry k (0 is the first one) is the retry interval doubled k times, up to the maximum.
func vhDelay(interval, limit int64, k int) int64 {
	d := interval << uint(k)
	if d > limit {
		d = limit
	}
	return d
}

// Connection attempts that all fail: one attempt plus the configured number of retries is made, the wait before each
// retry starts at the retry interval, doubles each time and never exceeds the maximum, and the result is failure.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S11_retries() {
	ds := vhNetwork(-1, true)
	sc := ds.connector
	interval, limit := vndI32("interval"), vndI32("limit")
	vndAssume(interval > 0 && limit > 0)
	sc.RetryInterval, sc.MaxRetryInterval = interval, limit
	m := vndChoose("retries", 5)
	sc.MaxRetries = int32(m)
	vndAssert(sc.Connect(ds) == ConnectStatus.Failed, "all attempts fail")
	vndAssert(vhAttempts == 1+m, "one attempt and the configured number of retries")
	vndAssert(len(vhWaits) >= m, "a wait precedes each retry")
	for k := 0; k < m; k++ {
		w := vhWaits[k]
		vndAssert(w == time.Duration(vhDelay(int64(interval), int64(limit), k))*time.Millisecond, "wait doubles up to the maximum")
	}
	vndReach("retries")
}

// Many failed attempts: the wait never shrinks and never exceeds the maximum.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S11_backoff() {
	ds := vhNetwork(-1, true)
	sc := ds.connector
	interval, limit := int32(vndInt("interval", 1, 4095)), int32(vndInt("limit", 1, 65535))
	sc.RetryInterval, sc.MaxRetryInterval = interval, limit
	sc.MaxRetries = 20
	sc.Connect(ds)
	vndAssert(len(vhWaits) >= 20, "a wait precedes each retry")
	for k := 1; k < len(vhWaits); k++ {
		vndAssert(vhWaits[k] >= vhWaits[k-1], "the wait never shrinks")
		vndAssert(vhWaits[k] <= time.Duration(limit)*time.Millisecond, "the wait never exceeds the maximum")
	}
	vndReach("backoff")
}

// Attempt n is the first to succeed: the connection is established after exactly n attempts.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S11_success() {
	n := 1 + vndChoose("n", 4)
	ds := vhNetwork(n, true)
	sc := ds.connector
	sc.RetryInterval, sc.MaxRetryInterval = 10, 100
	sc.MaxRetries = []int32{-1, 3, 10}[vndChoose("retries", 3)]
	ev := vhListen(ds)
	vndAssert(sc.Connect(ds) == ConnectStatus.Success, "an attempt within the limit succeeds")
	vndAssert(vhAttempts == n && ds.IsConnected(), "no attempt is made after success")
	vndAssert(ev.established == 1, "connection is reported once")
	vndReach("success")
	ds.Disconnect()
	vndJoin()
}

// Without a wait between attempts the number of retries is respected just the same.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S11_nowait() {
	ds := vhNetwork(-1, true)
	sc := ds.connector
	sc.RetryInterval, sc.MaxRetryInterval = 0, 100
	m := vndChoose("retries", 5)
	sc.MaxRetries = int32(m)
	vndAssert(sc.Connect(ds) == ConnectStatus.Failed, "all attempts fail")
	vndAssert(vhAttempts == 1+m, "one attempt and the configured number of retries")
	vndReach("nowait")
}

// Cancelling at any moment of a connection sequence ends it.
//verif:unwind=8 preempt=2 clock=fixed nomerge
func VH_S11_cancel() {
	ds := vhNetwork(-1, false)
	sc := ds.connector
	sc.MaxRetries = -1
	sc.RetryInterval, sc.MaxRetryInterval = 60000, 60000
	var st ConnectStatusEnum
	go func() { st = sc.Connect(ds) }()
	vndYield()
	sc.Cancel()
	vndJoin()
	vndAssert(st == ConnectStatus.Canceled, "a cancelled sequence is reported as cancelled")
	vndAssert(vhAttempts <= 1, "no attempt is made after cancelling")
	vndReach("cancel")
}

// Cancelling at any moment of an automatic reconnection ends it, and no connection is attempted afterwards.
//verif:unwind=8 preempt=2 clock=fixed nomerge
func VH_S11_reconnect() {
	ds := vhNetwork(-1, false)
	sc := ds.connector
	sc.MaxRetries = -1
	sc.AutoReconnect = true
	sc.RetryInterval, sc.MaxRetryInterval = 60000, 60000
	calls := 0
	sc.ReconnectCallback = func(*DataSubscriber) { calls++ }
	go ds.autoReconnect()
	vndYield()
	sc.Cancel()
	vndJoin()
	vndAssert(vhAttempts == 0 && calls == 0, "no attempt is made after cancelling")
	vndReach("reconnect")
}

// A connection lost twice is reestablished automatically each time, retrying as configured, and reported once.
//verif:unwind=64 preempt=0 tpreempt=1 clock=fixed nomerge
func VH_S11_lost() {
	ds := vhNetwork(1, true)
	sc := ds.connector
	sc.MaxRetries = 3
	sc.AutoReconnect = true
	sc.RetryInterval, sc.MaxRetryInterval = 10, 25
	calls := 0
	sc.ReconnectCallback = func(*DataSubscriber) { calls++ }
	ended := 0
	ds.ConnectionTerminatedCallback = func() { ended++ }
	vndAssert(sc.Connect(ds) == ConnectStatus.Success, "first connection succeeds")
	for round := 1; round <= 2; round++ {
		n := 1 + vndChoose("n", 3)
		vhDialOK, vhAttempts = n, 0
		vhWaits = nil
		ds.dispatchConnectionTerminated()
		vndQuiesce()
		vndAssert(vhAttempts == n && ds.IsConnected() && calls == round && ended == round, "a lost connection is reestablished and reported once")
		vndAssert(len(vhWaits) == n, "a wait precedes each attempt")
		for k, w := range vhWaits {
			vndAssert(w == time.Duration(vhDelay(10, 25, k))*time.Millisecond, "wait doubles up to the maximum")
		}
	}
	vndReach("lost")
	ds.Disconnect()
	vndJoin()
}

// A publisher that refuses the connection after it is established is retried only as often as configured.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S11_refused() {
	ds := vhNetwork(1, true)
	sc := ds.connector
	m := vndChoose("retries", 4)
	sc.MaxRetries = int32(m)
	sc.AutoReconnect = true
	sc.RetryInterval, sc.MaxRetryInterval = 10, 25
	vhSocket = func() net.Conn {
		return &vhPieces{data: vhPacket(0x81, 6, nil), eof: make(chan struct{})}
	}
	sc.Connect(ds)
	vndQuiesce()
	vndAssert(vhAttempts == 1+m && !ds.IsConnected(), "a refused connection is retried as often as configured")
	vndReach("refused")
	ds.Disconnect()
	vndJoin()
}
