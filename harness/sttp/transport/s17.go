package transport

// vhParams splits a connection string into its parameters; braces enclose nested ones.
func vhParams(s string) (key, val []string) {
	depth, from, eq := 0, 0, -1
	cut := func(to int) {
		if to > from {
			if eq < 0 {
				key, val = append(key, s[from:to]), append(val, "")
			} else {
				key, val = append(key, s[from:eq]), append(val, s[eq+1:to])
			}
		}
		from, eq = to+1, -1
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			depth++
		case '}':
			depth--
		case ';':
			if depth == 0 {
				cut(i)
			}
		case '=':
			if depth == 0 && eq < 0 {
				eq = i
			}
		}
	}
	cut(len(s))
	return
}

type vhParam struct {
	key, val []string
}

// is: the parameter is given once, with this value; an empty value: not given, or empty.
func (p vhParam) is(key, val string) bool {
	n, ok := 0, false
	for i, k := range p.key {
		if k == key {
			n++
			v := p.val[i]
			if len(v) > 1 && v[0] == '{' && v[len(v)-1] == '}' {
				v = v[1 : len(v)-1]
			}
			ok = v == val
		}
	}
	return n == 1 && ok || n == 0 && val == ""
}

func vhBool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// vhSubscribeRequest: the parameters of the last command, a subscription request.
func vhSubscribeRequest(c *vhConn) vhParam {
	vndAssert(len(c.wire) > 0, "a command is sent")
	w := c.wire[len(c.wire)-1]
	vndAssert(len(w) >= 10 && w[4] == 2, "a subscription is requested")
	vndAssert(w[5]&2 != 0, "compact measurements are requested")
	n := int(w[6])<<24 | int(w[7])<<16 | int(w[8])<<8 | int(w[9])
	vndAssert(n == len(w)-10 && int(w[0])<<24|int(w[1])<<16|int(w[2])<<8|int(w[3]) == len(w)-4, "the request has its size")
	k, v := vhParams(string(w[10:]))
	return vhParam{k, v}
}

// A subscription with any combination of switches and any of several numbers: the request states exactly these.
//verif:unwind=600 nomerge
func VH_S17_switches() {
	ds, c := vhConnected()
	sub := ds.Subscription()
	b := make([]bool, 6)
	for i := range b {
		b[i] = vndBool("switch")
	}
	sub.Throttled, sub.IncludeTime, sub.EnableTimeReasonabilityCheck = b[0], b[1], b[2]
	sub.UseLocalClockAsRealTime, sub.UseMillisecondResolution, sub.RequestNaNValueFilter = b[3], b[4], b[5]
	k := vndChoose("numbers", 3)
	sub.PublishInterval = []float64{1, 0.25, 3600}[k]
	sub.LagTime = []float64{10, 0.000001, 1e6}[k]
	sub.LeadTime = []float64{5, 2.5, 0}[k]
	sub.ProcessingInterval = []int32{-1, 0, 2147483647}[k]
	vndAssert(ds.Subscribe() == nil, "subscription is requested")
	p := vhSubscribeRequest(c)
	vndAssert(p.is("throttled", vhBool(b[0])) && p.is("includeTime", vhBool(b[1])) && p.is("enableTimeReasonabilityCheck", vhBool(b[2])), "switches are those of the subscription")
	vndAssert(p.is("useLocalClockAsRealTime", vhBool(b[3])) && p.is("useMillisecondResolution", vhBool(b[4])) && p.is("requestNaNValueFilter", vhBool(b[5])), "switches are those of the subscription")
	vndAssert(p.is("publishInterval", []string{"1.000000", "0.250000", "3600.000000"}[k]), "publish interval is that of the subscription")
	vndAssert(p.is("lagTime", []string{"10.000000", "0.000001", "1000000.000000"}[k]), "lag time is that of the subscription")
	vndAssert(p.is("leadTime", []string{"5.000000", "2.500000", "0.000000"}[k]), "lead time is that of the subscription")
	vndAssert(p.is("processingInterval", []string{"-1", "0", "2147483647"}[k]), "processing interval is that of the subscription")
	vndAssert(p.is("filterExpression", "") && p.is("dataChannel", "") && p.is("startTimeConstraint", "") && p.is("stopTimeConstraint", "") && p.is("timeConstraintParameters", ""), "nothing else is requested")
	vndReach("switches")
}

// A subscription with any texts, present or not: the request states exactly these.
//verif:unwind=600 nomerge
func VH_S17_texts() {
	ds, c := vhConnected()
	sub := ds.Subscription()
	t := make([]string, 5)
	for i := range t {
		t[i] = vndString("text", 3*vndChoose("given", 2))
		for k := 0; k < len(t[i]); k++ {
			ch := t[i][k]
			vndAssume(ch != '{' && ch != '}' && ch != ';' && ch != '=')
		}
	}
	sub.FilterExpression, sub.StartTime, sub.StopTime, sub.ConstraintParameters = t[0], t[1], t[2], t[3]
	if t[4] != "" {
		sub.ExtraConnectionStringParameters = "extra=" + t[4]
	}
	vndAssert(ds.Subscribe() == nil, "subscription is requested")
	p := vhSubscribeRequest(c)
	vndAssert(p.is("filterExpression", t[0]), "filter expression is that of the subscription")
	vndAssert(p.is("startTimeConstraint", t[1]) && p.is("stopTimeConstraint", t[2]), "time constraints are those of the subscription")
	vndAssert(p.is("timeConstraintParameters", t[3]), "constraint parameters are those of the subscription")
	vndAssert(p.is("extra", t[4]), "extra parameters are those of the subscription")
	vndAssert(p.is("includeTime", vhBool(sub.IncludeTime)) && p.is("throttled", vhBool(sub.Throttled)), "texts do not disturb other parameters")
	vndReach("texts")
}

// Filter expressions are stated unchanged whatever they contain, as they are enclosed in braces.
//verif:unwind=600 nomerge parts=6
func VH_S17_expression() {
	ds, c := vhConnected()
	e := vndString("expression", 1+vndPart())
	for k := 0; k < len(e); k++ {
		vndAssume(e[k] != '{' && e[k] != '}')
	}
	ds.Subscription().FilterExpression = e
	vndAssert(ds.Subscribe() == nil, "subscription is requested")
	w := string(c.wire[len(c.wire)-1][10:])
	want := "filterExpression={" + e + "}"
	found := false
	for i := 0; i+len(want) <= len(w); i++ {
		if w[i] == 'f' && w[i:i+18] == want[:18] {
			found = vhOr(found, w[i:i+len(want)] == want)
		}
	}
	vndAssert(found, "filter expression is that of the subscription")
	vndReach("expression")
}

func vhOr(a, b bool) bool { return !vhAnd(!a, !b) }

// Subscribing again ends the current subscription first, and requests what is set up then.
//verif:unwind=600 nomerge
func VH_S17_again() {
	ds, c := vhConnected()
	sub := ds.Subscription()
	sub.FilterExpression = "A"
	vndAssert(ds.Subscribe() == nil, "subscription is requested")
	active := vndChoose("active", 2) == 1
	if active {
		ds.subscribed.Set()
	}
	ds.totalMeasurementsReceived = vndU64("total")
	sub.FilterExpression, sub.Throttled = "B", vndBool("throttled")
	vndAssert(ds.Subscribe() == nil, "subscription is requested")
	p := vhSubscribeRequest(c)
	vndAssert(p.is("filterExpression", "B") && p.is("throttled", vhBool(sub.Throttled)), "the request states the current settings")
	if active {
		vndAssert(len(c.wire) == 3 && vhCommand(c.wire[1], 3, nil), "the current subscription is ended first")
	} else {
		vndAssert(len(c.wire) == 2, "nothing else is requested")
	}
	vndAssert(ds.TotalMeasurementsReceived() == 0, "measurements are counted from the last subscription")
	vndReach("again")
}

// Without a connection, or before it is validated, no subscription is requested and the caller is told.
//verif:unwind=600
func VH_S17_refused() {
	ds, c := vhConnected()
	connected, validated := vndChoose("connected", 2) == 1, vndChoose("validated", 2) == 1
	vndAssume(!connected || !validated)
	ds.connected.SetTo(connected)
	ds.validated.SetTo(validated)
	vndAssert(ds.Subscribe() != nil, "the caller is told that there is no subscription")
	vndAssert(len(c.wire) == 0, "no subscription is requested")
	vndReach("refused")
}
