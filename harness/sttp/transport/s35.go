package transport

// vhFlagNames: the names of the state flags of the protocol, from the lowest bit.
var vhFlagNames = []string{"BadData", "SuspectData", "OverRangeError", "UnderRangeError", "AlarmHigh", "AlarmLow", "WarningHigh", "WarningLow",
	"FlatlineAlarm", "ComparisonAlarm", "ROCAlarm", "ReceivedAsBad", "CalculatedValue", "CalculationError", "CalculationWarning", "ReservedQualityFlag",
	"BadTime", "SuspectTime", "LateTimeAlarm", "FutureTimeAlarm", "UpSampled", "DownSampled", "DiscardedValue", "ReservedTimeFlag",
	"UserDefinedFlag1", "UserDefinedFlag2", "UserDefinedFlag3", "UserDefinedFlag4", "UserDefinedFlag5", "SystemError", "SystemWarning", "MeasurementError"}

// VH_S35_flags: the text of any set of flags of one byte, together with any flag of the others, names exactly these flags.
//
//verif:nomerge parts=4 unwind=100 maxconc=1000
func VH_S35_flags() {
	group := 8 * vndPart()
	flags := uint32(vndU8("flags")) << group
	if other := vndChoose("other", 4); other > 0 {
		flags |= []uint32{0, 1, 1 << 13, 1 << 31}[other]
	}
	got := StateFlagsEnum(flags).String()
	want := ""
	for i, name := range vhFlagNames {
		if flags&(1<<i) != 0 {
			if want != "" {
				want += ","
			}
			want += name
		}
	}
	if want == "" {
		want = "Normal"
	}
	vndAssert(got == want, "the names of the flags that are set, and no others")
	vndReach("named")
}

// VH_S35_codes: the text of any command and response code is its name in the protocol, or its number.
//
//verif:nomerge unwind=300 maxconc=1000
func VH_S35_codes() {
	vndExact(1)
	code := vndU8("code")
	hex := "0123456789abcdef"
	number := "0x"
	if code >= 16 {
		number += hex[code>>4 : code>>4+1]
	}
	number += hex[code&15 : code&15+1]
	two := string([]byte{'0' + code&15/10, '0' + code&15%10})
	want := number
	if names := []string{"Connect", "MetadataRefresh", "Subscribe", "Unsubscribe", "RotateCipherKeys", "UpdateProcessingInterval", "DefineOperationalModes",
		"ConfirmNotification", "ConfirmBufferBlock", "ConfirmUpdateBaseTimes", "ConfirmUpdateSignalIndexCache", "ConfirmUpdateCipherKeys",
		"GetPrimaryMetadataSchema", "GetSignalSelectionSchema"}; int(code) < len(names) {
		want = names[code]
	} else if code>>4 == 0xd {
		want = "UserCommand" + two
	}
	vndAssert(ServerCommandEnum(code).String() == want, "the name of the command")
	want = number
	if names := []string{"Succeeded", "Failed", "DataPacket", "UpdateSignalIndexCache", "UpdateBaseTimes", "UpdateCipherKeys", "DataStartTime",
		"ProcessingComplete", "BufferBlock", "Notify", "ConfigurationChanged"}; code >= 0x80 && int(code)-0x80 < len(names) {
		want = names[code-0x80]
	} else if code>>4 == 0xe {
		want = "UserResponse" + two
	} else if code == 0xff {
		want = "NoOP"
	}
	vndAssert(ServerResponseEnum(code).String() == want, "the name of the response")
	vndReach("named")
}

// VH_S35_kinds: the text of each signal kind is its name.
//
//verif:nomerge unwind=300 maxconc=1000
func VH_S35_kinds() {
	names := []string{"Angle", "Magnitude", "Frequency", "DfDt", "Status", "Digital", "Analog", "Calculation", "Statistic", "Alarm", "Quality", "Unknown"}
	kinds := []SignalKindEnum{SignalKind.Angle, SignalKind.Magnitude, SignalKind.Frequency, SignalKind.DfDt, SignalKind.Status, SignalKind.Digital,
		SignalKind.Analog, SignalKind.Calculation, SignalKind.Statistic, SignalKind.Alarm, SignalKind.Quality, SignalKind.Unknown}
	types := []string{"VPHA", "VPHM", "FREQ", "DFDT", "FLAG", "DIGI", "ALOG", "CALC", "STAT", "ALRM", "QUAL", "NULL"}
	i := vndInt("kind", 0, len(names)-1)
	vndAssert(kinds[i].String() == names[i], "the name of the signal kind")
	vndAssert(kinds[i].SignalTypeAcronym('V') == types[i] && kinds[i].SignalTypeAcronym('v') == types[i], "the signal type of a voltage")
	current := types[i]
	if i < 2 {
		current = "I" + current[1:]
	}
	vndAssert(kinds[i].SignalTypeAcronym('I') == current, "the signal type of a current")
	vndReach("named")
}
