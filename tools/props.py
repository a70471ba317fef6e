def P(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a, "note": note}

NOT_APPLICABLE = {}

T = "sttp/transport/"
D = "sttp/data/"
PROPS = [
P("S01", "Decompressing a TSSC stream returns exactly the measurements encoded in it",
  "For every well-formed TSSC-compressed stream, reading measurements one after another yields exactly the encoded signal identifiers, timestamps, state flags and values (bit for bit), in order, without error, and then reports the end of the stream. This holds for every code word of the format, every number of extra bytes of the variable-length fields, and across the adaptation of the code book.",
  ["inputs", "histories"], "every stream of a bounded number of measurements, every field value, every code choice a conforming publisher may make",
  "The repository has no test that decodes a stream with more than trivial content; the code book state depends on the whole history of codes and the delta state on all previous timestamps.",
  [T+"tssc/Decoder.go", T+"tssc/PointMetadata.go"],
  [("decoder", T+"tssc/Decoder.go TryGetMeasurement"), ("adaptive code book", T+"tssc/PointMetadata.go ReadCode/updatedCodeStatistics/adaptCommands")],
  "Bounded: all field values symbolic; stream shapes bounded as listed in the evidence. The reference encoder in the harness is trusted.",
  observe=["TryGetMeasurement results"]),
P("S08", "Tick timestamps convert to and from Go time without loss",
  "Every tick timestamp of the years 1 to 9999 (100-nanosecond units since 0001-01-01, with any leap-second flags) converts to the Go time denoting the same instant, and converting that time back gives the same tick count; a Go time between the years 1 and 9999 converts to the tick count of that instant rounded down to 100 ns. Unix-nanosecond conversion agrees wherever it is representable, and the leap-second flags are set, queried and masked without changing the time part of the value.",
  ["inputs"], "every 64-bit tick value and every Go time in years 1..9999",
  "Tests sample a few dates near the present; the failures are at range ends, before 1970 and after 2262, and in flag bits.",
  ["sttp/ticks/Ticks.go"],
  [("conversions", "sttp/ticks/Ticks.go ToTime/FromTime"), ("leap second flags", "sttp/ticks/Ticks.go IsLeapSecond/SetLeapSecond")],
  "All 64-bit values; time.Time arithmetic of the Go standard library is executed, not stubbed."),
P("S12", "Guids survive every wire and text representation unchanged",
  "For every 128-bit identifier, encoding to the wire (in either byte order) and decoding it again returns the same identifier, the byte layout is the one the selected byte order prescribes, formatting and parsing as text round-trips, and comparison of two identifiers is a total order consistent with equality.",
  ["inputs"], "every 128-bit value, both byte orders, every pair and triple for ordering",
  "Tests use a handful of fixed identifiers, most of them symmetric under some byte permutations.",
  ["sttp/guid/Guid.go"],
  [("byte order swap", "sttp/guid/Guid.go ToBytes/FromBytes"), ("ordering", "sttp/guid/Guid.go Compare"), ("text", "sttp/guid/Guid.go Parse/String")],
  "All 16 bytes symbolic; the google/uuid dependency is executed as well."),
P("S13", "Hash set operations follow set algebra",
  "For all sets and all lists of elements (with or without duplicates), union, intersection, difference, symmetric difference and the subset, superset, equality and overlap predicates give exactly the result of set algebra on the distinct elements, and operations never modify their argument.",
  ["inputs"], "every set and list of up to three elements over an arbitrary domain, including duplicates and overlaps",
  "Tests use fixed small sets without duplicates.",
  ["sttp/hashset/HashSet.go"],
  [("set operations", "sttp/hashset/HashSet.go")],
  "Bounded: sets up to 3 distinct elements, lists up to 3 with duplicates; elements symbolic."),
P("S16", "Numbers are formatted with correct digits and separators",
  "For every integer value of every width, the formatted text is the decimal representation of the value with the separator inserted between groups of three digits counted from the right, and with a leading minus sign exactly for negative values. Floating-point numbers are formatted likewise, with only the digits before the decimal symbol grouped; infinities and NaN have nothing to group.",
  ["inputs"], "every value of every signed and unsigned integer type; floating-point numbers of up to 13 digits before the decimal symbol, any symbols",
  "Tests sample a few values; boundaries such as the most negative value and digit-count boundaries matter.",
  ["sttp/format/Common.go", "sttp/format/Int.go", "sttp/format/UInt.go", "sttp/format/Float.go"],
  [("grouping", "sttp/format/Common.go formatNumber"), ("floating point", "sttp/format/Float.go FloatWith")],
  "All values of each integer width. Floating-point numbers are an integer part of up to 13 digits and a number of eighths; their digits come from strconv, which is a stub here: rounding to fewer digits is out of scope."),
P("S02", "Compressed packets are applied in sequence, each exactly once",
  "In every history of received TSSC packets, a packet is decoded exactly when its sequence number is the one expected next or restarts the sequence at zero; any other packet is ignored without disturbing the decoder. The measurements delivered are therefore exactly those of the accepted packets, in order, and the two signal index caches keep separate streams.",
  ["histories", "inputs"], "every history of up to four packets with arbitrary sequence numbers, versions and cache slots, and any measurement content",
  "Tests contain no packet sequences; a lost, repeated or reordered packet corrupts every later measurement without any error.",
  [T+"DataSubscriber.go"], [("sequence check", T+"DataSubscriber.go parseTSSCMeasurements")],
  "Bounded: 4 packets of up to 2 measurements; the goroutines started by the code run in arrival order."),
P("S03", "Compact measurements decode to exactly the encoded values",
  "Every compact measurement decodes to the signal identifier its runtime index maps to, its value bit for bit, its time computed from the selected base time or the full timestamp, and its state flags, and consumes exactly its own bytes; one that is cut off is an error and never a measurement. Encoding helpers produce measurements that decode back.",
  ["inputs", "configurations"], "every content of one to three measurements, every base time state, every time format, every cache of up to two signals",
  "Tests have no decode test for the compact format; sixteen flag/time combinations times all offsets are beyond samples.",
  [T+"CompactMeasurement.go", T+"Measurement.go", T+"Constants.go"], [("decode", T+"CompactMeasurement.go Decode"), ("flags", T+"CompactMeasurement.go mapToFullFlags/mapToCompactFlags")],
  "Bounded: up to 3 measurements per packet, caches of up to 2 signals; all bytes symbolic."),
P("S04", "A received signal index cache is applied exactly, or not at all",
  "A well-formed signal index cache becomes the active one, maps exactly the announced indexes to the announced signals and their keys, is confirmed once (protocol version 2) and announced once. A compressed cache is applied as what was compressed. One that is truncated, whose sizes point beyond its end, or that cannot be decompressed changes nothing: not the active cache, no confirmation, no announcement.",
  ["inputs", "configurations"], "every cache of up to three records, both identifier byte orders, both cache slots, protocol versions 1 and 2, every truncation",
  "No test feeds a cache; the mapping decides which signal each later value belongs to.",
  [T+"SignalIndexCache.go", T+"DataSubscriber.go"], [("parse", T+"SignalIndexCache.go decode"), ("activate", T+"DataSubscriber.go handleUpdateSignalIndexCache")],
  "Bounded: up to 3 records with short source names; compressed caches as stored blocks with a modelled checksum."),
P("S05", "Buffer blocks are delivered once each and in order",
  "Whatever order buffer blocks arrive in, and however often each is repeated, each is delivered exactly once, in sequence order, with the signal and payload it was sent with, and each one received is acknowledged. A new connection starts over and never delivers blocks held back from the previous one.",
  ["histories", "inputs"], "every arrival history of five blocks within three places of each other, from any starting sequence number including wrap-around",
  "No test sends buffer blocks out of order; retransmission and reordering occur only on lossy data channels.",
  [T+"DataSubscriber.go", T+"BufferBlock.go"], [("ordering", T+"DataSubscriber.go handleBufferBlock")],
  "Bounded: 5 (thorough 6) arrivals; sequence numbers 32-bit symbolic."),
P("S06", "Commands reach the wire as whole, correct frames",
  "Every command is written as one frame of length, code and payload, whatever the payload size and however many threads send at once; frames are never interleaved, truncated or built from another command's payload. The operational modes sent on connect reflect the configuration, and notifications are confirmed with their own hash.",
  ["inputs", "schedules", "configurations"], "every command code and payload within bounds, every interleaving of two senders (three in thorough) with two preemptions, every configuration",
  "Tests never send commands; interleaved senders fail only under specific schedules.",
  [T+"DataSubscriber.go"], [("framing", T+"DataSubscriber.go SendServerCommandWithPayload"), ("modes", T+"DataSubscriber.go sendOperationalModes")],
  "Bounded: payloads of up to 12 symbolic bytes plus sizes around the buffer size; preemption bound 2."),
P("S07", "No content received from a publisher crashes the subscriber",
  "Whatever bytes a server response contains, processing it returns: it never panics and never hangs; malformed content is reported as an error or ends the connection.",
  ["inputs"], "every response code and every content within the stated sizes, in any state of caches and keys",
  "Tests never feed malformed data, while the subscriber may be connected to a faulty or hostile publisher.",
  [T+"DataSubscriber.go", T+"SignalIndexCache.go", T+"CompactMeasurement.go", T+"tssc/Decoder.go"], [("dispatch", T+"DataSubscriber.go processServerResponse")],
  "Bounded: content sizes stated per harness (24–96 bytes; compressed data 2–3 bytes); huge sequence gaps of buffer blocks (memory) and gzip content are outside."),
P("S10", "Exactly the received measurements are delivered and counted",
  "Each data packet delivers exactly the complete measurements it contains, no stale or empty ones, in one callback, and the total of received measurements grows by exactly the number delivered. Short packets end the connection; packets without an active cache or in an unknown format deliver and count nothing.",
  ["inputs", "histories"], "every announced count against every actual content within bounds, fresh and recycled measurement storage",
  "Tests do not deliver packets; announced and actual counts differ only for damaged packets, and recycled storage shows stale values only after earlier packets.",
  [T+"DataSubscriber.go"], [("delivery", T+"DataSubscriber.go handleDataPacket")],
  "Bounded: up to 3 measurements per packet."),
P("S11", "Connection attempts follow the retry policy and can be cancelled",
  "A connection sequence makes one attempt and then at most the configured number of retries; the wait before a retry starts at the configured interval, doubles each time and never exceeds the configured maximum. It ends at the first success, reports failure when all attempts fail, and cancelling it at any moment ends it promptly without a further attempt; a lost connection is reestablished under the same policy.",
  ["configurations", "schedules", "fault_sequences"], "every retry interval and maximum, every number of retries up to four and a sequence of twenty, every first successful attempt up to the fourth, every moment of cancelling",
  "Tests never connect; overflow of the wait needs large settings, and a lost cancel needs a specific interleaving.",
  [T+"SubscriberConnector.go", T+"DataSubscriber.go"], [("back-off", T+"SubscriberConnector.go waitForRetry"), ("attempts", T+"SubscriberConnector.go connect"), ("cancel", T+"SubscriberConnector.go Cancel")],
  "Bounded: up to 20 retries, preemption bound 2. The network and timers are replaced by models (dialing fails or succeeds as scripted, timers expire at once or never)."),
P("S18", "Encrypted data is decrypted with the key the packet names",
  "Once cipher keys have been received, each data packet is decrypted with the even or odd key and vector it names from the latest key update, and delivers the measurements the publisher encrypted. Keys of unusable size or data that is not a whole number of cipher blocks deliver nothing and end the connection; a new connection starts unencrypted.",
  ["inputs", "histories"], "every key, vector and content within bounds, both key slots, key updates between packets",
  "No test uses encryption; mixing up key slots or vectors shows only after a key rotation.",
  [T+"DataSubscriber.go"], [("keys", T+"DataSubscriber.go handleUpdateCipherKeys"), ("decryption", T+"DataSubscriber.go decipherAES")],
  "Bounded: 16-byte blocks, up to 2 per packet. AES itself is replaced by a keyed XOR model in the symbolic run (any permutation would do) and is real in the native replay."),
P("S19", "An unvalidated connection accepts nothing but the handshake",
  "On a connection that is not validated yet, only a no-operation or the answer to the operational modes is accepted as first response, and only up to the size limit; anything else ends the connection without any effect. Nothing can be subscribed over a connection that is closed or not validated.",
  ["inputs"], "every first response code, command and size on an unvalidated connection, protocol versions 1 and 2",
  "Tests never connect to anything that is not a publisher.",
  [T+"DataSubscriber.go"], [("validation", T+"DataSubscriber.go readPayloadHeader/processServerResponse")],
  "Applies to connections in unvalidated state; a newly created subscriber starts its first connection as validated."),
P("S21", "Each server response has exactly its own effect",
  "Every kind of response raises its own event exactly once, with the received content, and no other event; success and failure answers change the subscribed state only for the commands that concern it and report their text once; base times apply to the measurements that follow. Compressed metadata arrives as what was compressed; what cannot be decompressed is an error and is not passed on. Unknown codes are reported and otherwise ignored.",
  ["inputs"], "every response code, every command code, content of several lengths",
  "Tests never process responses.",
  [T+"DataSubscriber.go"], [("dispatch", T+"DataSubscriber.go processServerResponse"), ("answers", T+"DataSubscriber.go handleSucceeded/handleFailed")],
  "Bounded: content up to 8 bytes; compressed metadata as stored blocks with a modelled checksum."),
P("S22", "Responses are received whole and in order from any stream of bytes",
  "However the byte stream of the command channel is cut into pieces, every complete response in it is processed exactly once and in order, incomplete ones are not processed at all, the bytes received are counted, and the end of the stream ends the connection. Responses larger than the read buffer are received whole, and unsubscribing at any moment does not disturb reception.",
  ["inputs", "schedules", "fault_sequences"], "every cut of a three-response stream into three pieces, every end of the stream, sizes around the buffer size, every moment of unsubscribing",
  "Tests have no network; partial reads depend on timing.",
  [T+"DataSubscriber.go"], [("reader", T+"DataSubscriber.go runCommandChannelResponseThread/readPayloadHeader/readPacket")],
  "Bounded: streams of three small responses or one large one; preemption bound 2."),
P("S23", "Each connection ends exactly once and disconnecting takes effect",
  "However a request to disconnect, the loss of the connection, a connection attempt and further requests interleave, nothing hangs, the end of each established connection is reported exactly once, its socket is closed, and after a disconnect the subscriber is not connected and does not reconnect by itself. A listening subscriber accepts the next connection only after the previous one has ended, and a new connection after a disconnect works as the first one did.",
  ["schedules", "fault_sequences"], "every interleaving with up to two preemptions of two disconnects, a disconnect and a lost connection with automatic reconnection, a disconnect and a connection attempt, a disconnect and an incoming connection, a lost and an incoming connection",
  "Tests never connect; the failures are races of a few instructions.",
  [T+"DataSubscriber.go", T+"SubscriberConnector.go", "sttp/thread/Thread.go"], [("disconnect", T+"DataSubscriber.go disconnect/runDisconnectThread"), ("accept", T+"DataSubscriber.go runListeningSocketAcceptThread"), ("reconnect", T+"SubscriberConnector.go autoReconnect")],
  "Bounded: preemption bound 2 (thorough 3), up to two connections. Sockets and timers are models."),
P("S09", "Every signal has exactly one metadata record, which describes it",
  "However lookups interleave, all callers get the same single record of a signal. A signal index cache supplies source and ID to records that have none and leaves records filled from metadata alone. Received metadata sets exactly the described fields of exactly the named signals. The adjusted value of a measurement is its value times the multiplier plus the adder of its own signal's record, or the value itself where there is none. Signal references are split into source, kind and position as they were put together.",
  ["inputs", "schedules"], "every pair of signals and every interleaving of lookups with up to three preemptions; metadata documents with each column and any contents; every reference text up to six characters; every kind",
  "Tests look up metadata from a single thread and parse a few references.",
  [T+"DataSubscriber.go", T+"MeasurementMetadata.go", T+"SignalReference.go", T+"SignalKind.go", T+"SignalIndexCache.go", "sttp/Subscriber.go"],
  [("lookup", T+"DataSubscriber.go LookupMetadata"), ("adjusted value", T+"DataSubscriber.go AdjustedValue"), ("references", T+"SignalReference.go ParseSignalReference"), ("metadata", "sttp/Subscriber.go loadMeasurementMetadata")],
  "Bounded: two signals, references up to 6 arbitrary characters; preemption bound 3."),
P("S14", "A thread runs its function once per start, and joining waits for its end",
  "Each start that reports success executes the function exactly once, executions never overlap, and joining returns only after the function has ended. A thread that is running cannot be started again, one that has ended can, and every attempt to start is either executed or refused.",
  ["schedules"], "every interleaving of two or three goroutines that start, try to start and join, with up to three preemptions (five in thorough)",
  "Tests do not exercise threads concurrently; the failures need a switch between two adjacent instructions.",
  ["sttp/thread/Thread.go"], [("thread", "sttp/thread/Thread.go Start/TryStart/Join/IsRunning")],
  "Bounded: three goroutines, preemption bound 3 (5)."),
P("S15", "A reader returns every measurement once, in order, and can always be closed",
  "Reading one measurement after another returns exactly the received measurements, each once, in order, with the content they were received with. A read ends when its context ends or when the reader is closed, at any moment, without losing or repeating a measurement and without blocking reception.",
  ["schedules", "inputs"], "every interleaving with up to three preemptions (five in thorough) of reception, reading, ending the context and closing the reader",
  "Tests have no reader test; closing while a batch is being delivered needs a specific interleaving.",
  ["sttp/MeasurementReader.go", "sttp/Subscriber.go"], [("reader", "sttp/MeasurementReader.go NextMeasurement/Close")],
  "Bounded: two batches of two measurements, preemption bound 3 (5)."),
P("S17", "A subscription request states exactly the configured settings",
  "The request sent to the publisher contains each configured setting exactly once, with its configured value, and nothing from earlier subscriptions; filter expressions and other texts appear unchanged whatever they contain. Subscribing again ends the current subscription first. Without a usable connection nothing is sent and the caller is told.",
  ["configurations", "inputs"], "every combination of the switches, each text present or absent, filter expressions of any content up to six characters, any settings before",
  "Tests never subscribe; settings interact only in combinations.",
  [T+"DataSubscriber.go", T+"SubscriptionInfo.go", "sttp/Settings.go", "sttp/Subscriber.go"],
  [("request", T+"DataSubscriber.go Subscribe"), ("settings", "sttp/Subscriber.go Subscribe")],
  "Bounded: texts of one to six characters; UDP data channels outside (no socket model)."),
P("S20", "Connecting sets up the configured session, every time",
  "After connecting, by dialing or listening, and after every automatic reconnection, metadata and subscription are requested exactly as configured, in order and with the configured filters; the connection follows the configured retry policy, unusable addresses are refused without an attempt, and exhausted retries are reported. Callbacks and loggers can be assigned at any time, also from within callbacks, take effect from then on, and never make the subscriber hang.",
  ["configurations", "schedules", "fault_sequences"], "every combination of automatic requests, metadata filters, retries and failed attempts within bounds; every interleaving of assigning a callback with events, two preemptions",
  "Tests never connect; the failures depend on reconnection and on callback timing.",
  ["sttp/Subscriber.go", "sttp/Config.go", T+"DataSubscriber.go", T+"SubscriberConnector.go"],
  [("session", "sttp/Subscriber.go handleConnectionEstablished/handleMetadataReceived"), ("settings", "sttp/Subscriber.go setupConnection"), ("callbacks", "sttp/Subscriber.go BeginCallbackAssignment")],
  "Bounded: one reconnection, up to two failed attempts, preemption bound 2. The network is a model; XML decoding is stubbed to fail in these runs (metadata content is S09)."),
P("S24", "A filter selects exactly the rows that satisfy its condition",
  "A row is selected exactly when the filter's condition, as written, is true for the values of that row: numbers, text, booleans, GUIDs and dates compare by value, text ignores case unless an exact match is asked for, LIKE honours its wild cards at either end, IN lists match any of their members, and AND, OR, NOT and parentheses combine conditions. A comparison with a missing value is neither true nor false, so neither it nor its negation selects the row. Every other row is left out, and rows keep their order.",
  ["inputs"], "rows with any values, missing ones included: full 32- and 64-bit numbers, doubles, GUIDs and dates, text of up to three (four) arbitrary characters, for 108 conditions that cover the operators of the filter syntax",
  "Tests evaluate conditions over a handful of fixed rows; faults show at sign changes, rounding, letter case, empty text and missing values.",
  [D+"ExpressionTree.go", D+"FilterExpressionParser.go", D+"ValueExpression.go", D+"OperatorExpression.go"],
  [("evaluation", D+"ExpressionTree.go SelectWhere/evaluateOperator/evaluateInList/likeOp"), ("syntax", D+"FilterExpressionParser.go Exit* listeners")],
  "Bounded: fixed list of conditions, parsed by the real parser; rows symbolic, text up to 3 (4) characters of ASCII. Precedence among operators without parentheses is not claimed."),
P("S25", "Selected rows come in the requested order and number",
  "With ORDER BY, the selected rows come in the stated order by every listed column, ascending or descending, whatever their values; text ignores case unless an exact match is asked for, and missing values order before all others. With TOP n, exactly n of the selected rows are returned, or all if there are fewer. Sorting and limiting change neither which rows qualify nor their values, and returned rows are those of the table.",
  ["inputs"], "tables of three (four) rows with any values, missing ones included, for a dozen orders and every limit from -1 to 4",
  "Tests sort a few fixed rows; faults need ties, missing values, mixed case or particular limits.",
  [D+"ExpressionTree.go", D+"DataRow.go", D+"FilterExpressionParser.go"],
  [("order", D+"DataRow.go CompareDataRowColumns"), ("limit", D+"ExpressionTree.go SelectWhere"), ("syntax", D+"FilterExpressionParser.go EnterFilterStatement")],
  "Bounded: three (four) rows, text of one to two characters."),
P("S26", "Several filter statements together select the union, each row once",
  "An expression of several statements selects every row that any of its statements selects, each row once, and nothing else. A signal named directly, by its GUID, measurement key or tag, in any letter case, selects its row, the first one if several match. The signal IDs selected are those of the selected rows and those named directly, each once. The forms that return rows, row sets and signal ID sets agree.",
  ["inputs"], "tables of three rows (two with text) with any IDs, keys, tags and values, for a dozen combinations of statements",
  "Tests use a fixed data set; duplicates between statements need particular overlaps.",
  [D+"FilterExpressionParser.go"],
  [("union", D+"FilterExpressionParser.go addMatchedRow/Evaluate"), ("direct names", D+"FilterExpressionParser.go ExitIdentifierStatement/mapMatchedFieldRow")],
  "Bounded: three (text: two, thorough three) rows; fixed list of statement combinations."),
P("S27", "Operators give the value Go arithmetic gives, or an error, never a panic",
  "Arithmetic, comparison, bitwise and text operators on values of any two types convert both sides to the wider type and give exactly the value the operation has there, with the documented result type; text comparisons ignore case unless an exact match is asked for. A missing operand makes the result missing. Division by zero and operations undefined for the types are reported as errors; no values make the evaluation panic. Conversions between types keep the value where the target can hold it.",
  ["inputs"], "any pair of 32- and 64-bit integers, doubles and booleans for every operator; comparisons of any GUIDs, dates, small decimals and text of up to two characters; patterns of up to four characters; every combination of value types and operators, missing values included, for freedom from panics",
  "Tests sample a few values for each operator; faults show at zero, sign changes, the integer limits, infinities and mixed types.",
  [D+"ExpressionTree.go", D+"ValueExpression.go", D+"Constants.go"],
  [("operators", D+"ExpressionTree.go evaluateOperator/evaluateUnary"), ("conversion", D+"ValueExpression.go Convert"), ("result types", D+"Constants.go deriveOperationValueType")],
  "Bounded: decimals of 8 bits with one fractional digit; decimal division and date texts only with a few concrete values."),
P("S28", "Text functions give their documented result for any text",
  "Each text function of filter expressions, Contains, EndsWith, IndexOf, LastIndexOf, NthIndexOf, SubStr, Len, Lower, Upper, RegExMatch, RegExVal, Replace, Reverse, Split, StartsWith, StrCount, StrCmp, Trim, TrimLeft and TrimRight, gives the result its description states for any texts, positions and lengths, ignoring case exactly when asked to. A missing text makes the result missing, and no argument makes the evaluation panic.",
  ["inputs"], "any two ASCII texts of up to three and two characters and any 32-bit positions and lengths, in 40 expressions; trimming and reversing of any two characters below U+0800",
  "Tests call each function with one or two texts; faults need empty text, overlapping occurrences, extreme positions or unusual white space.",
  [D+"ExpressionTree.go", D+"FilterExpressionParser.go"],
  [("functions", D+"ExpressionTree.go contains/indexOf/nthIndexOf/subStr/replace/split/trim*"), ("arguments", D+"ExpressionTree.go evaluateFunction")],
  "Bounded: text up to 3 characters of ASCII, fixed list of calls. StrCmp of a missing text and case-insensitive positions in non-ASCII text are not claimed."),
P("S29", "Numeric, choice and conversion functions give their documented result",
  "Abs, Ceiling, Floor, Round, Sqrt, Power, MaxOf, MinOf, IIf, Coalesce, IsNull, Convert, IsDate, IsInteger, IsGuid and IsNumeric give the result their descriptions state for any numbers, missing ones included. Round rounds halves away from zero; IIf evaluates its test and only the chosen value; MaxOf and MinOf leave out missing values; type names are accepted in any letter case and in all documented spellings.",
  ["inputs"], "any 32- and 64-bit integers and doubles, missing or not, in 36 expressions; Floor, Ceiling and Round for any double of magnitude below 2^51",
  "Tests call each function once or twice; faults show for other signs, orders of arguments or missing values.",
  [D+"ExpressionTree.go", D+"Constants.go", D+"ValueExpression.go"],
  [("functions", D+"ExpressionTree.go abs/ceiling/floor/round/power/iif/coalesce/maxOf/minOf/convert/is*")],
  "Bounded: fixed list of calls; Power only for exponents 0 and 1 and for fixed numbers, Sqrt and rounding by IEEE semantics of the solver."),
P("S30", "Date functions count and move by the named interval",
  "DatePart gives the named field of a date, DateAdd moves it by the given number of the named interval, forwards or backwards, by calendar for days and longer, and DateDiff gives the number of whole intervals from the first date to the second, negative if it is the earlier one, or an error if that number does not fit 32 bits; years and months by calendar. Interval names are accepted in any letter case. A missing date makes the result missing.",
  ["inputs"], "any second of twelve days around a turn of the year and a leap day for the fields, any number of up to 128 intervals to add, any distance of up to 255 half intervals, and any distance of up to 8000 years for days and shorter intervals",
  "Tests use a single date; faults show at month ends, leap days, negative numbers and particular intervals.",
  [D+"ExpressionTree.go", D+"Constants.go"],
  [("functions", D+"ExpressionTree.go dateAdd/dateDiff/datePart"), ("names", D+"Constants.go ParseTimeInterval")],
  "Bounded: dates in UTC near two points; Go's time package is the oracle for calendar arithmetic."),
P("S31", "An XML document is loaded as its tree and paths select exactly their nodes",
  "Loading a document gives one node for each element, in document order, with its name, attributes, text, parent, siblings, level and children as written. A path selects exactly the nodes it describes, in document order: by element name or *, step by step, with an optional condition on an attribute or on the text of a child, by name or *, compared with any value in quotes. No path text makes a selection panic.",
  ["inputs"], "every tree of up to five elements of two names, with any attribute and text letters and all 12 path forms; values with spaces and quotes; any path text of up to four bytes",
  "Tests load a few fixed documents and use the simple paths.",
  ["sttp/xml/XmlDocument.go", "sttp/xml/XmlNode.go"],
  [("loading", "sttp/xml/XmlDocument.go LoadXml"), ("selection", "sttp/xml/XmlNode.go SelectNodes/attributeMatch/valueMatch")],
  "Bounded: five elements, one-letter texts, paths of up to 3 steps. Values that contain / or ] are not claimed."),
P("S32", "A data set loaded from XML holds the tables and records of the document",
  "The tables and columns of a data set are those of the schema in the document, with their names, types and expressions; columns of unknown types and attributes of other namespaces are left out. Each record becomes a row of its table, in document order, with the value written in the document for each field in the type of its column, entities and CDATA sections resolved, and no value for fields that are not written. Numbers are decimal and dates are read with any time zone offset.",
  ["inputs"], "any integers of up to three digits, and those at either end of the range, for each of the 8 integer types, any text of three characters, any GUID digits, up to three records of three shapes with any contents, all 14 schema types",
  "Tests load one sample document; faults show for other types, leading zeros, escaped characters, missing fields or unknown elements.",
  [D+"DataSet.go", D+"DataType.go", "sttp/xml/XmlNode.go"],
  [("schema", D+"DataSet.go loadSchema"), ("records", D+"DataSet.go loadRecords"), ("types", D+"DataType.go ParseXsdDataType")],
  "Bounded: as stated; floating-point, decimal and date fields with a few concrete texts. The value of a field whose text does not fit its type is not claimed."),
P("S33", "A row keeps the values of its columns, typed; computed columns follow them",
  "A value set in a column of any of the 15 types is read back unchanged, by index or by name in any letter case, as that type only; reading as another type, or a column that does not exist, is an error, and a value that was not set is null. Rows and copies are independent. Two rows compare by the values of a column, nulls first. A computed column has the value of its expression for its row at the time it is read, converted to the type of the column, however it is read; it is null when the expression is null, an error when no such conversion exists, and cannot be set. Rows are listed in the order added and selected in that order up to the limit.",
  ["inputs"], "any value of each of the 15 types; any pair of values of each type, missing or not; all pairs of source and target type for computed columns with any source value; up to three rows with any values and limits",
  "Tests read a few columns of one sample document and no computed column of most types.",
  [D+"DataRow.go", D+"DataTable.go", D+"DataColumn.go"],
  [("access", D+"DataRow.go *Value/*ValueByName/SetValue"), ("order", D+"DataRow.go CompareDataRowColumns"), ("computed", D+"DataRow.go getComputedValue/convertFrom*"), ("rows", D+"DataTable.go RowsWhere/Select/CloneRow")],
  "Bounded: decimals by a few values, texts up to 2 characters. Conversions of numbers out of range of the target type, and Select with a limit of 0, are not claimed."),
P("S34", "A UDP data channel delivers its datagrams and is closed with its subscription",
  "With a UDP data channel asked for, subscribing opens the port of the subscription and names it in the request; each datagram received is processed as one response of the publisher, in order, and its bytes are counted for the data channel. A port that cannot be opened makes subscribing fail and leaves the connection as it was. At any time only the data channel of the last subscription is open: subscribing again, unsubscribing and disconnecting close it and end its reception, also when they happen at the same time, and nothing panics or hangs.",
  ["inputs", "schedules", "fault_sequences"], "any two datagrams of three kinds with any contents; up to two (thorough: three) calls of Subscribe and Unsubscribe with two ports, answered or not; the port taken by another program; all schedules with up to 2 preemptions of the reception, the user and the disconnection",
  "No test opens a data channel; the faults need a port in use, a missing answer or a disconnection at a particular moment.",
  [T+"DataSubscriber.go"],
  [("open and close", T+"DataSubscriber.go Subscribe/Unsubscribe/runDisconnectThread"), ("reception", T+"DataSubscriber.go runDataChannelResponseThread")],
  "Bounded: as stated; under the solver the UDP socket is a queue of datagrams, in the native replay a real one on the loopback interface. Loss, duplication and reordering by the network are not claimed."),
P("S35", "Flags, commands, responses and signal kinds are shown by their names",
  "The text of a set of state flags names exactly the flags that are set, lowest bit first and separated by commas, or says Normal when none is. The text of each command and response code of the protocol is its name, and that of any other code is its hexadecimal number. Each signal kind has its name, and its signal type tells voltage and current phasors apart.",
  ["inputs"], "any flags of each byte together with one of three further flags; every command and response code; every signal kind",
  "Tests name none of these; a fault shows for one of 32 flags or 256 codes only.",
  [T+"Constants.go", T+"SignalKind.go"],
  [("flags", T+"Constants.go StateFlagsEnum.String"), ("codes", T+"Constants.go ServerCommandEnum.String/ServerResponseEnum.String"), ("kinds", T+"SignalKind.go String/SignalTypeAcronym")],
  "Bounded: flags of two bytes that vary independently are not covered beyond three chosen flags."),
]
