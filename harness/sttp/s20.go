package sttp

import (
	"strings"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
)

//verif:uses sttp/transport

type vhSession struct {
	sb          *Subscriber
	cfg         *Config
	status      []string
	errors      []string
	established int
	terminated  int
	metadata    int
	changed     int
	at          []int // commands sent when metadata was passed on
}

func vhNewSession(peer **transport.VhPeer) *vhSession {
	s := &vhSession{sb: NewSubscriber(), cfg: NewConfig()}
	s.cfg.CompressMetadata = false
	s.cfg.AutoReconnect = false
	sb := s.sb
	sb.SetStatusMessageLogger(func(m string) { s.status = append(s.status, m) })
	sb.SetErrorMessageLogger(func(m string) { s.errors = append(s.errors, m) })
	sb.SetConnectionEstablishedReceiver(func() { s.established++ })
	sb.SetConnectionTerminatedReceiver(func() { s.terminated++ })
	sb.SetConfigurationChangedReceiver(func() { s.changed++ })
	sb.SetMetadataReceiver(func(*data.DataSet) {
		s.metadata++
		c, _ := (*peer).Commands()
		s.at = append(s.at, len(c))
	})
	return s
}

// vhMeta: is this the payload of a metadata request with these filters?
func vhMeta(p string, filters string) bool {
	if len(filters) == 0 {
		return len(p) == 0
	}
	return len(p) == 4+len(filters) && p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == byte(len(filters)) && p[4:] == filters
}

// vhRequests checks the commands of a connection: operational modes first, then what the configuration asks for.
func (s *vhSession) vhRequests(peer *transport.VhPeer) int {
	code, payload := peer.Commands()
	vndAssert(len(code) >= 1 && code[0] == 6, "operational modes are defined first")
	switch {
	case s.cfg.AutoRequestMetadata:
		vndAssert(len(code) == 2 && code[1] == 1, "metadata is requested upon connection, and nothing else")
		vndAssert(vhMeta(payload[1], s.cfg.MetadataFilters), "metadata request has the configured filters")
	case s.cfg.AutoSubscribe:
		vndAssert(len(code) == 2 && code[1] == 2, "subscription is requested upon connection, and nothing else")
		vndAssert(strings.Contains(payload[1], "filterExpression={EXPR}"), "subscription is the one that was set up")
	default:
		vndAssert(len(code) == 1, "nothing is requested that was not configured")
	}
	return len(code)
}

// vhConfigure chooses the settings for automatic requests.
func (s *vhSession) vhConfigure() {
	s.cfg.AutoRequestMetadata = vndChoose("metadata", 2) == 1
	s.cfg.AutoSubscribe = vndChoose("subscribe", 2) == 1
	s.cfg.MetadataFilters = vndString("filters", 3*vndChoose("filtered", 2))
}

// vhPublisher lets the publisher answer, send metadata, and report a change, and checks what is requested then.
func (s *vhSession) vhPublisher(peer *transport.VhPeer, n int) {
	m, c := s.metadata, s.changed
	peer.Send(0x80, 6, nil)
	vndQuiesce()
	code, payload := peer.Commands()
	vndAssert(len(code) == n, "nothing is requested before metadata is received")
	peer.Send(0x80, 1, []byte("none"))
	vndQuiesce()
	vndAssert(s.metadata == m+1 && s.at[m] == n, "metadata is passed on before subscribing")
	code, payload = peer.Commands()
	if s.cfg.AutoRequestMetadata && s.cfg.AutoSubscribe {
		vndAssert(len(code) == n+1 && code[n] == 2, "subscription is requested once metadata is received")
		vndAssert(strings.Contains(payload[n], "filterExpression={EXPR}"), "subscription is the one that was set up")
		n++
	} else {
		vndAssert(len(code) == n, "nothing is requested that was not configured")
	}
	peer.Send(0x8A, 0, nil)
	vndQuiesce()
	vndAssert(s.changed == c+1, "a change of configuration is reported")
	code, payload = peer.Commands()
	if s.cfg.AutoRequestMetadata {
		vndAssert(len(code) == n+1 && code[n] == 1 && vhMeta(payload[n], s.cfg.MetadataFilters), "metadata is requested again when configuration changes")
		n++
		if s.cfg.AutoSubscribe {
			peer.Send(0x80, 2, nil)
			vndQuiesce()
			vndAssert(s.sb.IsSubscribed(), "the subscription is in effect")
		}
		peer.Send(0x80, 1, []byte("more"))
		vndQuiesce()
		vndAssert(s.metadata == m+2 && s.at[m+1] == n, "new metadata is passed on before subscribing")
		code, payload = peer.Commands()
		subscribed := 0
		for i := n; i < len(code); i++ {
			vndAssert(code[i] == 2 || code[i] == 3, "nothing else is requested for new metadata")
			if code[i] == 2 {
				subscribed++
				vndAssert(strings.Contains(payload[i], "filterExpression={EXPR}"), "subscription is the one that was set up")
			}
		}
		if s.cfg.AutoSubscribe {
			vndAssert(subscribed == 1 && code[len(code)-1] == 2, "subscription is requested again for new metadata")
		} else {
			vndAssert(len(code) == n, "nothing is requested that was not configured")
		}
	} else {
		vndAssert(len(code) == n, "nothing is requested that was not configured")
	}
}

// Connecting with any settings for automatic requests and any metadata filters: after connecting, metadata is requested
// if configured, otherwise the subscription, if configured; with both, the subscription follows the metadata.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_dial() {
	peer := transport.NewVhPeer()
	transport.VhNetwork(true, peer)
	s := vhNewSession(&peer)
	s.vhConfigure()
	s.sb.Subscribe("EXPR", nil)
	vndAssert(s.sb.Dial("publisher:7165", s.cfg) == nil && s.sb.IsConnected(), "connected")
	vndAssert(s.established == 1, "connection is reported")
	vndQuiesce()
	n := s.vhRequests(peer)
	s.vhPublisher(peer, n)
	vndAssert(s.established == 1 && s.terminated == 0, "connection is reported once")
	vndReach("dial")
	s.sb.Disconnect()
	vndJoin()
	vndAssert(s.terminated == 1, "the end of the connection is reported")
}

// A listening subscriber does the same for the publisher that connects to it.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_listen() {
	peer := transport.NewVhPeer()
	transport.VhIncoming(peer)
	s := vhNewSession(&peer)
	s.vhConfigure()
	s.sb.Subscribe("EXPR", nil)
	vndAssert(s.sb.Listen(":7165", s.cfg) == nil && s.sb.IsListening(), "listening")
	vndQuiesce()
	vndAssert(s.established == 1 && s.sb.IsConnected(), "connection is reported")
	n := s.vhRequests(peer)
	s.vhPublisher(peer, n)
	vndAssert(s.established == 1 && s.terminated == 0, "connection is reported once")
	vndReach("listen")
	s.sb.Disconnect()
	vndJoin()
}

// The publisher drops the connection: it is established again, after failed attempts too, and the session is set up
// again as it was the first time.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_reconnect() {
	peer, next := transport.NewVhPeer(), transport.NewVhPeer()
	if vndChoose("failed", 2) == 1 {
		transport.VhNetwork(true, peer, nil, next)
	} else {
		transport.VhNetwork(true, peer, next)
	}
	s := vhNewSession(&next)
	s.cfg.AutoReconnect = true
	s.vhConfigure()
	vndAssume(s.cfg.AutoRequestMetadata || !s.cfg.AutoSubscribe)
	s.sb.Subscribe("EXPR", nil)
	vndAssert(s.sb.Dial("publisher:7165", s.cfg) == nil, "connected")
	peer.Drop()
	vndQuiesce()
	vndAssert(s.sb.IsConnected() && s.established == 2 && s.terminated == 1 && peer.Closed(), "connection is established again")
	n := s.vhRequests(next)
	s.vhPublisher(next, n)
	vndReach("reconnect")
	s.sb.Disconnect()
	vndJoin()
}

// The same where only the subscription is requested automatically.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_resubscribe() {
	peer, next := transport.NewVhPeer(), transport.NewVhPeer()
	transport.VhNetwork(true, peer, next)
	s := vhNewSession(&next)
	s.cfg.AutoReconnect = true
	s.cfg.AutoRequestMetadata = false
	s.sb.Subscribe("EXPR", nil)
	vndAssert(s.sb.Dial("publisher:7165", s.cfg) == nil, "connected")
	peer.Send(0x80, 6, nil)
	peer.Drop()
	vndQuiesce()
	next.Send(0x80, 6, nil)
	vndQuiesce()
	code, _ := next.Commands()
	vndReach("resubscribe")
	vndAssert(len(code) == 2 && code[1] == 2, "subscription is requested when connected again")
	s.sb.Disconnect()
	vndJoin()
}

// The connection is lost and every attempt to establish it again fails: this is reported, and the attempts end.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_exhausted() {
	peer := transport.NewVhPeer()
	transport.VhNetwork(true, peer)
	s := vhNewSession(&peer)
	s.cfg.AutoReconnect = true
	s.cfg.MaxRetries = int32(vndChoose("retries", 3))
	vndAssert(s.sb.Dial("publisher:7165", s.cfg) == nil, "connected")
	peer.Drop()
	vndQuiesce()
	vndAssert(!s.sb.IsConnected() && s.established == 1 && s.terminated == 1, "connection has ended")
	found := false
	for _, m := range append(s.status, s.errors...) {
		found = found || strings.Contains(strings.ToLower(m), "retr")
	}
	vndAssert(found, "failure to establish the connection again is reported")
	vndReach("exhausted")
	vndJoin()
}

// An address is accepted if it names a port from 1 to 65535; no connection is attempted otherwise.
//verif:unwind=64 preempt=0 clock=fixed nomerge parts=6
func VH_S20_address() {
	n := 1 + vndPart()
	p := vndBytes("port", n)
	v := 0
	for i := range p {
		vndAssume(p[i] >= '0' && p[i] <= '9')
		v = v*10 + int(p[i]-'0')
	}
	transport.VhNetwork(true, nil)
	sb := NewSubscriber()
	sb.SetErrorMessageLogger(nil)
	sb.SetStatusMessageLogger(nil)
	cfg := NewConfig()
	cfg.MaxRetries = 0
	err := sb.Dial("host:"+string(p), cfg)
	vndAssert(err != nil, "no connection")
	if v >= 1 && v <= 65535 {
		con := sb.dataSubscriber().Connector()
		vndAssert(transport.VhAttempts() == 1, "a connection to a valid address is attempted")
		vndAssert(int(con.Port) == v && con.Hostname == "host", "the given address is used")
		vndReach("valid")
	} else {
		vndAssert(transport.VhAttempts() == 0, "no connection to an invalid address is attempted")
	}
	vndReach("address")
}

// The connection settings are those configured.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_config() {
	transport.VhNetwork(true, nil)
	sb := NewSubscriber()
	sb.SetErrorMessageLogger(nil)
	sb.SetStatusMessageLogger(nil)
	cfg := NewConfig()
	cfg.MaxRetries = 0
	cfg.RetryInterval, cfg.MaxRetryInterval = vndI32("interval"), vndI32("limit")
	cfg.AutoReconnect = vndBool("reconnect")
	cfg.CompressPayloadData, cfg.CompressMetadata, cfg.CompressSignalIndexCache = vndBool("payload"), vndBool("meta"), vndBool("cache")
	cfg.RfcGuidEncoding = vndBool("rfc")
	cfg.Version = vndU8("version")
	sb.Dial("host:1", cfg)
	ds := sb.dataSubscriber()
	con := ds.Connector()
	vndAssert(con.MaxRetries == 0 && con.RetryInterval == cfg.RetryInterval && con.MaxRetryInterval == cfg.MaxRetryInterval, "retry settings are those configured")
	vndAssert(con.AutoReconnect == cfg.AutoReconnect, "reconnection setting is the one configured")
	vndAssert(ds.CompressPayloadData == cfg.CompressPayloadData && ds.CompressMetadata == cfg.CompressMetadata && ds.CompressSignalIndexCache == cfg.CompressSignalIndexCache, "compression settings are those configured")
	vndAssert(ds.Version == cfg.Version && ds.SwapGuidEndianness == !cfg.RfcGuidEncoding, "protocol settings are those configured")
	vndReach("config")
}

// Message loggers assigned while connected receive the messages from then on, and those they replace receive none.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_loggers() {
	peer := transport.NewVhPeer()
	transport.VhNetwork(true, peer)
	s := vhNewSession(&peer)
	if vndChoose("listen", 2) == 1 {
		transport.VhIncoming(peer)
		s.sb.Listen(":7165", s.cfg)
	} else {
		s.sb.Dial("publisher:7165", s.cfg)
	}
	vndQuiesce()
	n, m := len(s.status), len(s.errors)
	var status, errors []string
	s.sb.SetStatusMessageLogger(func(m string) { status = append(status, m) })
	s.sb.SetErrorMessageLogger(func(m string) { errors = append(errors, m) })
	peer.Send(0x80, 6, nil)
	peer.Send(0x81, 2, []byte("refused"))
	vndQuiesce()
	vndAssert(len(status) == 1 && len(errors) == 1, "assigned loggers receive the messages")
	vndAssert(n == len(s.status) && m == len(s.errors), "replaced loggers receive no messages")
	vndReach("loggers")
	s.sb.Disconnect()
	vndJoin()
}

// Callbacks are assigned at any moment while a connection is made and its events are reported, some of them by the
// default handlers, which report in turn: nothing hangs.
//verif:unwind=64 preempt=2 clock=fixed nomerge parts=2
func VH_S20_assign() {
	peer := transport.NewVhPeer()
	transport.VhNetwork(true, peer)
	sb := NewSubscriber()
	cfg := NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false, false
	n := 0
	sb.SetStatusMessageLogger(func(string) { n++ })
	sb.SetErrorMessageLogger(nil)
	sb.SetConnectionTerminatedReceiver(nil)
	assign := func() {
		sb.SetMetadataReceiver(nil)
		sb.SetNotificationReceiver(nil)
	}
	if vndPart() == 0 {
		go assign()
		vndAssert(sb.Dial("publisher:7165", cfg) == nil, "connected")
	} else {
		transport.VhIncoming(peer)
		sb.Listen(":7165", cfg)
		assign()
	}
	vndQuiesce()
	vndAssert(sb.IsConnected() && n > 0, "connected")
	vndReach("assign")
	sb.Disconnect()
	vndJoin()
}

// Callbacks can be assigned from within callbacks.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S20_within() {
	peer := transport.NewVhPeer()
	transport.VhNetwork(true, peer)
	sb := NewSubscriber()
	cfg := NewConfig()
	cfg.AutoReconnect, cfg.AutoRequestMetadata, cfg.AutoSubscribe = false, false, false
	n := 0
	assign := func() {
		n++
		sb.SetStatusMessageLogger(nil)
		sb.SetErrorMessageLogger(nil)
		sb.SetNewMeasurementsReceiver(nil)
	}
	sb.SetStatusMessageLogger(nil)
	sb.SetErrorMessageLogger(nil)
	sb.SetConnectionTerminatedReceiver(nil)
	mode, event := vndChoose("listen", 2), vndChoose("event", 5)
	switch event {
	case 0:
		sb.SetConnectionEstablishedReceiver(assign)
	case 1:
		sb.SetConnectionTerminatedReceiver(assign)
	case 2:
		sb.SetDataStartTimeReceiver(func(time.Time) { assign() })
	case 3:
		sb.SetHistoricalReadCompleteReceiver(assign)
	case 4:
		sb.SetConfigurationChangedReceiver(assign)
	}
	if event != 0 {
		sb.SetConnectionEstablishedReceiver(nil)
	}
	if mode == 1 {
		transport.VhIncoming(peer)
		sb.Listen(":7165", cfg)
	} else {
		sb.Dial("publisher:7165", cfg)
	}
	peer.Send(0x80, 6, nil)
	peer.Send(0x86, 0, make([]byte, 8))
	peer.Send(0x87, 0, nil)
	peer.Send(0x8A, 0, nil)
	vndQuiesce()
	sb.Disconnect()
	vndJoin()
	vndAssert(n == 1, "each event is reported once")
	vndReach("within")
}
