package transport

import "github.com/sttp/goapi/sttp/ticks"

// vhEvents counts what reaches the user.
type vhEvents struct {
	status, errors                                                          []string
	meta                                                                    [][]byte
	start                                                                   []ticks.Ticks
	complete, notes                                                         []string
	config, updated, measurements, blocks, established, terminated, restart int
}

func vhListen(ds *DataSubscriber) *vhEvents {
	ev := &vhEvents{}
	ds.StatusMessageCallback = func(s string) { ev.status = append(ev.status, s) }
	ds.ErrorMessageCallback = func(s string) { ev.errors = append(ev.errors, s) }
	ds.MetadataReceivedCallback = func(b []byte) { ev.meta = append(ev.meta, b) }
	ds.DataStartTimeCallback = func(t ticks.Ticks) { ev.start = append(ev.start, t) }
	ds.ProcessingCompleteCallback = func(s string) { ev.complete = append(ev.complete, s) }
	ds.NotificationReceivedCallback = func(s string) { ev.notes = append(ev.notes, s) }
	ds.ConfigurationChangedCallback = func() { ev.config++ }
	ds.SubscriptionUpdatedCallback = func(*SignalIndexCache) { ev.updated++ }
	ds.NewMeasurementsCallback = func(*[]Measurement) { ev.measurements++ }
	ds.NewBufferBlocksCallback = func([]BufferBlock) { ev.blocks++ }
	ds.ConnectionEstablishedCallback = func() { ev.established++ }
	ds.ConnectionTerminatedCallback = func() { ev.terminated++ }
	ds.AutoReconnectCallback = func() { ev.restart++ }
	return ev
}

// others: number of events besides messages.
func (ev *vhEvents) others() int {
	return len(ev.meta) + len(ev.start) + len(ev.complete) + len(ev.notes) + ev.config + ev.updated + ev.measurements + ev.blocks + ev.established + ev.terminated + ev.restart
}

func vhContains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

// vhHas: does s end with the bytes of t?
func vhHas(s, t string) bool {
	if len(s) < len(t) {
		return false
	}
	return s[len(s)-len(t):] == t
}

// Answers to commands: subscribed state follows success of Subscribe and Unsubscribe only; the text of the answer is
// reported once, as status on success and as error on failure.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S21_answers() {
	ds, conn := vhConnected()
	was := vndChoose("was", 2) == 1
	ds.subscribed.SetTo(was)
	ev := vhListen(ds)
	cmd := vndU8("command")
	vndAssume(cmd != 1)
	ok := vndChoose("ok", 2) == 1
	text := vndString("text", vndChoose("len", 3))
	code := byte(0x81)
	if ok {
		code = 0x80
	}
	vhReceive(ds, vhFrame(code, cmd, []byte(text)))
	vndJoin()
	want := was
	if ok && cmd == 2 {
		want = true
	}
	if ok && cmd == 3 {
		want = false
	}
	vndAssert(ds.IsSubscribed() == want, "subscribed state follows successful answers to subscribe and unsubscribe")
	vndAssert(ev.others() == 0, "an answer raises no other event")
	vndAssert(len(conn.wire) == 0 && conn.closed == 0 && ds.IsConnected(), "an answer leaves the connection alone")
	known := cmd == 2 || cmd == 3 || cmd == 6 || cmd == 4 || cmd == 5
	refused := cmd == 0 || cmd == 6
	switch {
	case ok && known:
		vndAssert(len(ev.status) == 1 && len(ev.errors) == 0 && vhHas(ev.status[0], text), "success is reported once with its text")
		vndReach("success")
	case ok:
		vndAssert(len(ev.status) == 0 && len(ev.errors) == 1, "success of an unknown command is reported as error")
		vndReach("unknown")
	case refused && text == "":
		vndAssert(len(ev.status) == 0 && len(ev.errors) == 0, "refusal without text is silent")
	default:
		vndAssert(len(ev.status) == 0 && len(ev.errors) == 1 && vhHas(ev.errors[0], text), "failure is reported once with its text")
		vndReach("failure")
	}
	if !ok {
		vndAssert(ds.connector.connectionRefused.IsSet() == refused, "a refused connection is remembered for the connector")
	}
}

// Every other kind of response raises its own event exactly once with the received content, and no other event.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S21_events() {
	ds, conn := vhConnected()
	ds.CompressMetadata = false
	ev := vhListen(ds)
	data := vndBytes("data", vndChoose("len", 3)*4)
	text := string(data)
	cmd := vndU8("command")
	switch vndChoose("kind", 5) {
	case 0:
		vhReceive(ds, vhFrame(0x80, 1, data))
		vndJoin()
		vndAssert(len(ev.meta) == 1 && string(ev.meta[0]) == text, "metadata arrives unchanged")
	case 1:
		vhReceive(ds, vhFrame(0x86, cmd, data))
		vndJoin()
		if len(data) >= 8 {
			t := uint64(0)
			for _, c := range []byte(text)[:8] {
				t = t<<8 | uint64(c)
			}
			vndAssert(len(ev.start) == 1 && ev.start[0] == ticks.Ticks(t), "data start time arrives unchanged")
		} else {
			vndAssert(ev.others() == 0 && len(ev.errors) == 1, "a short data start time is an error")
			return
		}
	case 2:
		vhReceive(ds, vhFrame(0x87, cmd, data))
		vndJoin()
		vndAssert(len(ev.complete) == 1 && ev.complete[0] == text, "end of processing arrives with its text")
	case 3:
		vhReceive(ds, vhFrame(0x8A, cmd, data))
		vndJoin()
		vndAssert(ev.config == 1, "configuration change arrives")
	case 4:
		vhReceive(ds, vhFrame(0xFF, cmd, data))
		vndJoin()
		vndAssert(ev.others() == 0 && len(ev.status) == 0 && len(ev.errors) == 0, "no-operation raises nothing")
		vndAssert(len(conn.wire) == 0 && conn.closed == 0, "no-operation leaves the connection alone")
		vndReach("noop")
		return
	}
	vndAssert(ev.others() == 1 && len(ev.errors) == 0, "exactly one event is raised")
	vndAssert(len(conn.wire) == 0 && conn.closed == 0 && ds.IsConnected() && !ds.IsSubscribed(), "the connection is left alone")
	vndReach("event")
}

// Response codes the protocol does not define are reported and otherwise ignored.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S21_unknown() {
	ds, conn := vhConnected()
	ev := vhListen(ds)
	code := vndU8("code")
	vndAssume(code < 0x80 || code > 0x8A && code < 0xFF)
	vhReceive(ds, vhFrame(code, vndU8("command"), vndBytes("data", 8)))
	vndJoin()
	vndAssert(ev.others() == 0 && len(ev.status) == 0 && len(ev.errors) == 1, "an unknown response is one error message")
	vndAssert(len(conn.wire) == 0 && conn.closed == 0 && ds.IsConnected() && !ds.IsSubscribed(), "an unknown response changes nothing")
	vndReach("unknown")
}

// New base times apply to the compact measurements that follow.
//verif:unwind=64 preempt=0 clock=fixed
func VH_S21_basetimes() {
	ds, _ := vhConnected()
	c, idx, ids := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	t0, t1 := vndI64("t0"), vndI64("t1")
	// the message about the new base time is formatted from it; keep it concrete
	active := vndChoose("active", 2)
	if active == 0 {
		t1 = 637000000000000000
	} else {
		t0 = 637000000000000000
	}
	vhReceive(ds, vhFrame(0x84, 0, vhPut64(vhPut64(vhPut32(nil, uint32(active)), uint64(t0)), uint64(t1))))
	b := vndBytes("b", 13)
	b[0] |= 0x40
	m, _ := vhCompact(b, idx, ids, true, false, [2]int64{t0, t1})
	calls := 0
	ds.NewMeasurementsCallback = func(ms *[]Measurement) {
		calls++
		vndAssert(len(*ms) == 1 && vhSame((*ms)[0], m), "timestamp is relative to the received base time")
	}
	vhReceive(ds, vhFrame(0x82, 2, append(vhPut32([]byte{2}, 1), b...)))
	vndAssert(calls == 1, "measurement is delivered")
	vndReach("basetimes")
}
