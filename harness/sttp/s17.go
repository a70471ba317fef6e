package sttp

// Any settings: the subscription that is requested is set up exactly so, whatever was set up before.
//verif:unwind=64
func VH_S17_settings() {
	sb := NewSubscriber()
	a, b := vhSettings(), vhSettings()
	sb.Subscribe(vndString("filter", 2), a)
	f := vndString("filter", 3)
	sb.Subscribe(f, b)
	s := sb.dataSubscriber().Subscription()
	vndAssert(s.FilterExpression == f, "filter expression is the one given")
	vndAssert(s.Throttled == b.Throttled && s.PublishInterval == b.PublishInterval, "throttling is as set")
	vndAssert(s.UdpDataChannel == (b.UdpPort > 0) && s.DataChannelLocalPort == b.UdpPort, "data channel is as set")
	vndAssert(s.IncludeTime == b.IncludeTime && s.UseMillisecondResolution == b.UseMillisecondResolution && s.RequestNaNValueFilter == b.RequestNaNValueFilter, "measurement format is as set")
	vndAssert(s.EnableTimeReasonabilityCheck == b.EnableTimeReasonabilityCheck && s.LagTime == b.LagTime && s.LeadTime == b.LeadTime && s.UseLocalClockAsRealTime == b.UseLocalClockAsRealTime, "time check is as set")
	vndAssert(s.StartTime == b.StartTime && s.StopTime == b.StopTime && s.ConstraintParameters == b.ConstraintParameters && s.ProcessingInterval == b.ProcessingInterval, "temporal settings are as set")
	vndAssert(s.ExtraConnectionStringParameters == b.ExtraConnectionStringParameters, "extra parameters are as set")
	vndReach("settings")
}

func vhSettings() *Settings {
	s := NewSettings()
	s.Throttled, s.IncludeTime, s.EnableTimeReasonabilityCheck = vndBool("b"), vndBool("b"), vndBool("b")
	s.UseLocalClockAsRealTime, s.UseMillisecondResolution, s.RequestNaNValueFilter = vndBool("b"), vndBool("b"), vndBool("b")
	s.PublishInterval, s.LagTime, s.LeadTime = float64(vndU32("n")), float64(vndU32("n")), float64(vndU32("n"))
	s.UdpPort, s.ProcessingInterval = vndU16("port"), vndI32("interval")
	s.StartTime, s.StopTime = vndString("t", 2), vndString("t", 2)
	s.ConstraintParameters, s.ExtraConnectionStringParameters = vndString("t", 2), vndString("t", 2)
	return s
}

// Without settings the defaults are used, whatever was set up before.
//verif:unwind=64
func VH_S17_defaults() {
	sb := NewSubscriber()
	sb.Subscribe(vndString("filter", 2), vhSettings())
	sb.Subscribe("X", nil)
	s, d := sb.dataSubscriber().Subscription(), NewSettings()
	vndAssert(s.FilterExpression == "X" && s.Throttled == d.Throttled && s.PublishInterval == d.PublishInterval, "defaults")
	vndAssert(s.UdpDataChannel == false && s.DataChannelLocalPort == 0, "defaults")
	vndAssert(s.IncludeTime == d.IncludeTime && s.UseMillisecondResolution == d.UseMillisecondResolution && s.RequestNaNValueFilter == d.RequestNaNValueFilter, "defaults")
	vndAssert(s.EnableTimeReasonabilityCheck == d.EnableTimeReasonabilityCheck && s.LagTime == d.LagTime && s.LeadTime == d.LeadTime && s.UseLocalClockAsRealTime == d.UseLocalClockAsRealTime, "defaults")
	vndAssert(s.StartTime == "" && s.StopTime == "" && s.ConstraintParameters == "" && s.ProcessingInterval == d.ProcessingInterval && s.ExtraConnectionStringParameters == "", "defaults")
	vndReach("defaults")
}
