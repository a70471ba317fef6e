From a5b144833140009afd13f9a0431e0622070abe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:18 +0000
Subject: [PATCH 01/58] fix: convert ticks outside of 1970 to 2262 correctly

Nanoseconds since the Unix epoch overflow 64 bits for most of the range
that a Ticks value can represent. Seconds and fraction are now converted
separately in both directions.
---
 sttp/ticks/Ticks.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..cff926f 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,7 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ticks.ToTime()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +96,7 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	return Ticks(time.Unix()+int64(UnixBaseOffset/PerSecond))*PerSecond + Ticks(time.Nanosecond()/100)
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +141,11 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	value := t & ValueMask
+
+	// Seconds and fraction are converted separately since nanoseconds since the Unix epoch
+	// only fit in 64-bits for a small portion of the time range represented by Ticks
+	return time.Unix(int64(value/PerSecond)-int64(UnixBaseOffset/PerSecond), int64(value%PerSecond)*100).UTC()
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From 687f077e6347f56329677c81968d4cf5a225ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:11 +0000
Subject: [PATCH 02/58] fix: ignore duplicate slice items in hash set
 operations

Slice based set operations compared element counts against the slice
length, or visited the same item twice, so a slice with duplicates gave
results that differ from the equivalent set.
---
 sttp/hashset/HashSet.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..71d79e2 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -131,7 +131,8 @@ func (hs HashSet[T]) SymmetricExceptWith(other []T) {
 		return
 	}
 
-	for _, v := range other {
+	// Duplicate slice items must not toggle an element more than once
+	for v := range NewHashSet(other) {
 		if !hs.Remove(v) {
 			hs.Add(v)
 		}
@@ -182,11 +183,13 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
-	if len(hs) != len(other) {
+	items := NewHashSet(other) // Slice may contain duplicates
+
+	if len(hs) != len(items) {
 		return false
 	}
 
-	for _, v := range other {
+	for v := range items {
 		if !hs.Contains(v) {
 			return false
 		}
@@ -287,11 +290,6 @@ func (hs HashSet[T]) IsSupersetOf(other []T) bool {
 		return true
 	}
 
-	// If slice has more elements than set, then it can't be a superset
-	if len(other) > len(hs) {
-		return false
-	}
-
 	for _, v := range other {
 		if !hs.Contains(v) {
 			return false
@@ -320,12 +318,14 @@ func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
 		return true // Set has at least one element, based on prior check
 	}
 
+	items := NewHashSet(other) // Slice may contain duplicates
+
 	// If slice has more or equal elements than set, then it can't be a proper superset
-	if len(other) >= len(hs) {
+	if len(items) >= len(hs) {
 		return false
 	}
 
-	for _, v := range other {
+	for v := range items {
 		if !hs.Contains(v) {
 			return false
 		}
-- 
2.43.0


From 45cd96fc735858ea7bfd2d464c01f70fcedf75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:27 +0000
Subject: [PATCH 03/58] fix: deliver payload of buffer blocks and ignore
 retransmissions

Received buffer blocks were published without their payload. Blocks that
arrived out of order were dropped since a block with no payload looks like
a missing one. A retransmission of an already processed block was cached at
a huge index. Blocks cached for one connection were kept for the next one.
---
 sttp/transport/DataSubscriber.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..0c73cdc 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -377,6 +377,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = nil
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1391,7 +1392,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
+	bufferCacheIndex := int(int32(sequenceNumber - ds.bufferBlockExpectedSequenceNumber))
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
@@ -1417,7 +1418,11 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		ds.signalIndexCacheMutex.Unlock()
 
 		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+		data = data[4:]
+
+		// Buffer is copied since source data is only valid until next response is read
+		bufferBlockMeasurement := BufferBlock{SignalID: signalID, Buffer: make([]byte, len(data))}
+		copy(bufferBlockMeasurement.Buffer, data)
 
 		// Determine if this is the next buffer block in the sequence
 		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
@@ -1449,7 +1454,7 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 			if ds.NewBufferBlocksCallback != nil {
 				// Do not use Go routine here, processing sequence may be important.
 				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+				ds.NewBufferBlocksCallback(bufferBlockMeasurements[:i])
 			}
 
 			ds.EndCallbackSync()
-- 
2.43.0


From 78c9bf676b4e0bc42e6265faa9c3f9b2c270c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:27 +0000
Subject: [PATCH 04/58] fix: send large and concurrent server commands intact

Commands larger than the write buffer caused a panic. Commands sent at the
same time by user and response threads shared the write buffer and could
overwrite each other.
---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 0c73cdc..f6511bc 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeBufferMutex             sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1506,11 +1507,15 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		return
 	}
 
+	// Commands can be sent from user and response threads concurrently
+	ds.writeBufferMutex.Lock()
+	defer ds.writeBufferMutex.Unlock()
+
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
 	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
-- 
2.43.0


From b9a2f8ef3b66d69820f48427939c71aa2dfe665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:27 +0000
Subject: [PATCH 05/58] fix: return the registered metadata record when lookups
 race

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index f6511bc..b7384ce 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -294,7 +294,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
-- 
2.43.0


From 06ac4f4f9fc11ca2b129bcf8669178eef6061946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:27 +0000
Subject: [PATCH 06/58] fix: add missing equals sign to NaN filter subscription
 parameter

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index b7384ce..2df9081 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -494,7 +494,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From 7ddeff9f729e18ef9fe4bbe5509d7f1423f83477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:27 +0000
Subject: [PATCH 07/58] fix: parse signal references with short type
 information

---
 sttp/transport/MeasurementMetadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..5756867 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -74,8 +74,14 @@ func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind
 	if len(parts) > 1 {
 		lastIndex := len(parts) - 1
 		typeInfo := parts[lastIndex]
-		signalKind = ParseSignalKindAcronym(typeInfo[:2])
-		position, _ = strconv.Atoi(typeInfo[2:])
+
+		if len(typeInfo) > 1 {
+			signalKind = ParseSignalKindAcronym(typeInfo[:2])
+			position, _ = strconv.Atoi(typeInfo[2:])
+		} else {
+			signalKind = SignalKind.Unknown
+		}
+
 		source = strings.Join(parts[:lastIndex], "-")
 	}
 
-- 
2.43.0


From 472329568f441f1fd646d3e4697c538d9c37d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:27 +0000
Subject: [PATCH 08/58] fix: report truncated compact measurement timestamps as
 an error

---
 sttp/transport/CompactMeasurement.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..e0e7f93 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		timeLength = 4
+
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		}
+	}
+
+	if len(buffer) < index+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement timestamp")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
-- 
2.43.0


From a39f04def17a3f5f8d81d5f1885bd59ff4ee434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:53 +0000
Subject: [PATCH 09/58] fix: only deliver and count measurements that were
 received

Data packets that were ignored, e.g., out of sequence or without a signal
index cache, or that failed to parse were still delivered with zeroed or
stale pooled measurements, which were also included in the statistics.
---
 sttp/transport/DataSubscriber.go | 33 ++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2df9081..c668ca0 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1246,10 +1246,19 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	signalIndexCache := ds.signalIndexCache[cacheIndex]
 	ds.signalIndexCacheMutex.Unlock()
 
+	var parsed int
+
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+	}
+
+	// Only expose measurements that were actually received
+	*measurements = (*measurements)[:parsed]
+
+	if parsed == 0 && count > 0 {
+		return
 	}
 
 	ds.BeginCallbackSync()
@@ -1262,10 +1271,10 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	ds.EndCallbackSync()
 
-	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
+	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(parsed))
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) int {
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1280,7 +1289,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return 0
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1315,7 +1324,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return 0
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1345,7 +1354,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return index
 	}
 
 	decoder.SequenceNumber++
@@ -1354,9 +1363,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return index
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) int {
 	if signalIndexCache.Count() == 0 {
 		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
 			// Warning message for missing signal index cache
@@ -1367,7 +1378,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 			ds.lastMissingCacheWarning = ticks.UtcNow()
 		}
 
-		return
+		return 0
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
@@ -1382,12 +1393,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return i
 		}
 
 		index += bytesDecoded
 		measurements[i] = compactMeasurement.Measurement
 	}
+
+	return len(measurements)
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From af0d07e7877f1f365264ebdc9fa5bad1d4c2516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 10/58] fix: report malformed TSSC streams as an error

Truncated streams, and streams with more measurements than announced, caused
an index out of range panic.
---
 sttp/transport/DataSubscriber.go | 11 +++++++++++
 sttp/transport/tssc/Decoder.go   | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index c668ca0..ca2b214 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1286,6 +1286,12 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		newDecoder = true
 	}
 
+	if len(data) < 3 {
+		ds.dispatchErrorMessage("Not enough buffer provided to parse TSSC measurements - disconnecting.")
+		ds.dispatchConnectionTerminated()
+		return 0
+	}
+
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
@@ -1340,6 +1346,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
+			if index == len(measurements) {
+				err = errors.New("received more measurements than expected " + strconv.Itoa(len(measurements)))
+				break
+			}
+
 			measurements[index] = Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..cc77c62 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -30,6 +30,9 @@ import (
 	"math"
 )
 
+// Size of largest encoded measurement, in bytes, is less than the size of the padding
+var endPadding [64]byte
+
 // Decoder is the decoder for the Time-Series Special Compression (TSSC) algorithm of STTP.
 type Decoder struct {
 	data         []byte
@@ -88,7 +91,10 @@ func (td *Decoder) clearBitStream() {
 // SetBuffer assigns the working buffer to use for decoding measurements.
 func (td *Decoder) SetBuffer(data []byte) {
 	td.clearBitStream()
-	td.data = data
+
+	// Data is copied with enough padding to decode one measurement, this way reads beyond
+	// the end of a truncated stream can be detected after decoding a measurement
+	td.data = append(append(td.data[:0], data...), endPadding[:]...)
 	td.position = 0
 	td.lastPosition = len(data)
 }
@@ -248,6 +254,12 @@ func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *ui
 		nextPoint.PrevValue1 = valueRaw
 	}
 
+	if td.position > td.lastPosition {
+		td.position = td.lastPosition
+		td.clearBitStream()
+		return false, fmt.Errorf("unexpected end of stream at last position %d", td.lastPosition)
+	}
+
 	// Assign decoded measurement value to out parameter
 	*value = math.Float32frombits(valueRaw)
 	td.lastPoint = nextPoint
-- 
2.43.0


From a6f28d361fa510249e453e49215af2d91ad98dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 11/58] fix: report truncated signal index cache as an error

A signal index cache that ended early caused an out of range panic.
---
 sttp/transport/SignalIndexCache.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..2469738 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -193,6 +193,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 
 	offset += 16
 
+	if length < offset+4 {
+		return errors.New("not enough buffer provided to parse reference count")
+	}
+
 	// Number of references
 	referenceCount := binary.BigEndian.Uint32(buffer[offset:])
 	offset += 4
@@ -200,6 +204,11 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		// Signal index, signal ID and source size
+		if length-offset < 24 {
+			return errors.New("not enough buffer provided to parse signal index reference")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +226,11 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		// Source and ID
+		if uint64(length-offset) < uint64(sourceSize)+8 {
+			return errors.New("not enough buffer provided to parse signal index reference")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
-- 
2.43.0


From c2756523d32128a1897e99bd5eb2950039d92d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 12/58] fix: report AES data with invalid sizes as an error

---
 sttp/transport/Common.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..dc1e4ed 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,6 +28,7 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
 	"strings"
@@ -41,6 +42,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("initialization vector size does not match cipher block size")
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("encrypted data size is not a multiple of cipher block size")
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
-- 
2.43.0


From daf0930c2df80f58b9fc630478f16a3f6d6e4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 13/58] fix: handle server responses that are too short

Responses that ended before their fixed fields caused an index out of range
panic, and a data packet with an invalid measurement count could allocate
an excessive amount of memory.
---
 sttp/transport/DataSubscriber.go | 72 ++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index ca2b214..86be392 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -899,6 +899,11 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchErrorMessage("Encountered server response with incomplete header from \"" + ds.connectionID + "\"")
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -1030,7 +1035,21 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 	}
 }
 
+// Verifies minimum size of received response data, dispatches error message when data is too short.
+func (ds *DataSubscriber) checkResponseSize(response ServerResponseEnum, data []byte, minSize int) bool {
+	if len(data) >= minSize {
+		return true
+	}
+
+	ds.dispatchErrorMessage("Not enough data received for server response: " + response.String() + " from \"" + ds.connectionID + "\"")
+	return false
+}
+
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if !ds.checkResponseSize(ServerResponse.DataStartTime, data, 8) {
+		return
+	}
+
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1062,6 +1081,10 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 
 	// Get active cache index
 	if version > 1 {
+		if !ds.checkResponseSize(ServerResponse.UpdateSignalIndexCache, data, 1) {
+			return
+		}
+
 		if data[0] > 0 {
 			cacheIndex = 1
 		}
@@ -1109,6 +1132,10 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 		return
 	}
 
+	if !ds.checkResponseSize(ServerResponse.UpdateBaseTimes, data, 20) {
+		return
+	}
+
 	timeIndex := int32(binary.BigEndian.Uint32(data))
 
 	if timeIndex != 0 {
@@ -1129,6 +1156,21 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
+	// Validate sizes of even and odd keys and initialization vectors, these follow active cipher index
+	validateIndex := 1
+
+	for i := 0; i < 4; i++ {
+		if !ds.checkResponseSize(ServerResponse.UpdateCipherKeys, data, validateIndex+4) {
+			return
+		}
+
+		validateIndex += 4 + int(binary.BigEndian.Uint32(data[validateIndex:]))
+	}
+
+	if !ds.checkResponseSize(ServerResponse.UpdateCipherKeys, data, validateIndex) {
+		return
+	}
+
 	// Deserialize new cipher keys
 	keyIVs := make([][][]byte, 2)
 	keyIVs[evenKey] = make([][]byte, 2)
@@ -1192,6 +1234,10 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if !ds.checkResponseSize(ServerResponse.DataPacket, data, 1) {
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1223,7 +1269,19 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if !ds.checkResponseSize(ServerResponse.DataPacket, data, 4) {
+		return
+	}
+
 	count := binary.BigEndian.Uint32(data)
+
+	// Each measurement needs at least one bit, avoids large allocations for invalid data
+	if uint64(count) > uint64(len(data))*8 {
+		ds.dispatchErrorMessage("Received data packet with invalid measurement count from \"" + ds.connectionID + "\" - disconnecting.")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
 		m := make([]Measurement, count)
@@ -1415,6 +1473,16 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	minSize := 8 // Sequence number and signal index
+
+	if ds.Version > 1 {
+		minSize++ // Signal index cache index
+	}
+
+	if !ds.checkResponseSize(ServerResponse.BufferBlock, data, minSize) {
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	bufferCacheIndex := int(int32(sequenceNumber - ds.bufferBlockExpectedSequenceNumber))
@@ -1498,6 +1566,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if !ds.checkResponseSize(ServerResponse.Notify, data, 4) {
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
-- 
2.43.0


From da3bab5c138f76bd76d78f39c92faf62b9884437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 14/58] fix: do not block or lose cancel of a pending
 connection retry

Canceling a connector stopped its wait timer, so a pending retry wait never
completed and cancel blocked on it forever. A cancel could also be lost when
the reconnect thread was just about to start a new connection attempt.
---
 sttp/transport/SubscriberConnector.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..dd235a3 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -95,7 +95,7 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
@@ -183,6 +183,12 @@ func (sc *SubscriberConnector) waitForRetry() {
 	sc.waitTimer = waitTimer
 	sc.waitTimerMutex.Unlock()
 
+	// Connection sequence may have been canceled before the timer was available
+	if sc.cancel.IsSet() {
+		waitTimer.Stop()
+		return
+	}
+
 	<-waitTimer.C
 }
 
@@ -202,8 +208,6 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
-
 	for ds.disposing.IsNotSet() {
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
@@ -250,7 +254,8 @@ func (sc *SubscriberConnector) Cancel() {
 	sc.waitTimerMutex.Unlock()
 
 	if waitTimer != nil {
-		waitTimer.Stop()
+		// Expire timer, a stopped timer would never release the pending wait
+		waitTimer.Reset(0)
 	}
 
 	sc.reconnectThreadMutex.Lock()
-- 
2.43.0


From c4910e5152e6b64c4802a976554070361131de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 15/58] fix: wait for a just started thread in join

Join returned immediately when the Go routine of a started thread was not
scheduled yet. A thread could still be reported as running after Join, and
two concurrent starts could both be accepted.
---
 sttp/thread/Thread.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..2667006 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -47,7 +47,8 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	// Thread is marked as running before it gets scheduled so that a subsequent Join will wait for it
+	if !thread.running.SetToIf(false, true) {
 		panic("thread is already running")
 	}
 
@@ -88,9 +89,8 @@ func (thread *Thread) IsRunning() bool {
 }
 
 func (thread *Thread) run() {
-	defer thread.running.UnSet()
 	defer thread.mutex.Unlock()
+	defer thread.running.UnSet()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From 8043871b8be04d675c9c497e0c19ffd12f267f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:40 +0000
Subject: [PATCH 16/58] fix: keep reading responses while unsubscribing

Unsubscribe marked the subscriber as disconnecting for a moment. A response
header that was read in that moment was dropped without its payload, so the
payload was then interpreted as the next header and the stream was lost.
---
 sttp/transport/DataSubscriber.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 86be392..0f91296 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -579,8 +579,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
 
-	ds.disconnecting.Set()
-
 	if ds.dataChannelSocket != nil {
 		if err := ds.dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
@@ -590,8 +588,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 	if ds.dataChannelResponseThread != nil {
 		ds.dataChannelResponseThread.Join()
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
-- 
2.43.0


From 4c32a4d7056629a4a6ed0e20b927b650d19cd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:40 +0000
Subject: [PATCH 17/58] fix: copy uncompressed metadata before passing it to
 its callback

The metadata callback runs on its own Go routine and was given a slice of the
read buffer, which the next response overwrites.
---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 0f91296..e6146f9 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1025,6 +1025,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+
+			// Source data is only valid until next response is read, callback executes asynchronously
+			data = append([]byte(nil), data...)
 		}
 
 		go metadataReceivedCallback(data)
-- 
2.43.0


From 25f99dc94e28aa5466a5788b4b7e84986fcc32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:00 +0000
Subject: [PATCH 18/58] fix: keep retry wait within the maximum retry interval

The back-off was computed in 32 bits and wrapped for large intervals, the
first wait ignored the maximum, and the wait was cut in half again after
the thirteenth attempt.
---
 sttp/transport/SubscriberConnector.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index dd235a3..bae961f 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -25,7 +25,6 @@ package transport
 
 import (
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"sync"
@@ -132,22 +131,16 @@ func (ds *DataSubscriber) autoReconnect() {
 
 func (sc *SubscriberConnector) waitForRetry() {
 	// Apply exponential back-off algorithm for retry attempt delays
-	var exponent float64
+	exponent := sc.connectAttempt
 
-	if sc.connectAttempt > 13 {
-		exponent = 12
-	} else {
-		exponent = float64(sc.connectAttempt)
+	if exponent > 13 {
+		exponent = 13
 	}
 
-	var retryInterval int32
-
-	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
-	}
+	retryInterval := int64(sc.RetryInterval) << exponent
 
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
+	if retryInterval > int64(sc.MaxRetryInterval) {
+		retryInterval = int64(sc.MaxRetryInterval)
 	}
 
 	// Notify the user that we are attempting to reconnect.
@@ -166,12 +159,15 @@ func (sc *SubscriberConnector) waitForRetry() {
 	message.WriteString(strconv.Itoa(int(sc.Port)))
 	message.WriteString("\" was terminated. ")
 
-	if retryInterval > 0 {
+	if sc.connectAttempt > 0 && retryInterval > 0 {
 		message.WriteString("Attempting to reconnect in ")
 		message.WriteString(fmt.Sprintf("%.2f", float64(retryInterval)/1000.0))
 		message.WriteString(" seconds...")
 	} else {
-		retryInterval = sc.RetryInterval
+		if retryInterval <= 0 {
+			retryInterval = int64(sc.RetryInterval)
+		}
+
 		message.WriteString("Attempting to reconnect...")
 	}
 
-- 
2.43.0


From d161298b8607121cc0c013669b5c0cdf0049601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:01 +0000
Subject: [PATCH 19/58] fix: count retries from the first connection attempt

With no retry interval the attempt counter was reset before every attempt,
so retries never ended and could not be canceled. With no retries the first
attempt was not made at all.
---
 sttp/transport/SubscriberConnector.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index bae961f..2491dde 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -205,7 +205,7 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 	}
 
 	for ds.disposing.IsNotSet() {
-		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
+		if autoReconnecting && sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
 			break
 		}
@@ -220,13 +220,14 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 			break
 		}
 
+		autoReconnecting = true
+
 		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
 			sc.waitForRetry()
+		}
 
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
+		if sc.cancel.IsSet() {
+			return ConnectStatus.Canceled
 		}
 	}
 
-- 
2.43.0


From d381b236fadc866f177f2053337a77fdc0812d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:02 +0000
Subject: [PATCH 20/58] fix: do not lose a cancel requested while a connection
 starts

The connection attempt reset the cancel flag after the connection sequence
had already checked it, so a disconnect at that moment was ignored and the
sequence kept retrying.
---
 sttp/transport/DataSubscriber.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e6146f9..07f06e8 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -320,6 +320,10 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
+	// Any pending disconnect cancels connector, so reset only after it has completed
+	ds.waitForDisconnect()
+	ds.connector.ResetConnection()
+
 	// User requests to connection are not an auto-reconnect attempt
 	return ds.connect(hostName, port, false)
 }
@@ -334,13 +338,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	}
 
 	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
-
-	if disconnectThread != nil {
-		disconnectThread.Join()
-	}
+	ds.waitForDisconnect()
 
 	// Let any pending connect or disconnect operation complete before new connect,
 	// this prevents destruction disconnect before connection is completed
@@ -353,7 +351,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.setupConnection()
 
 	if !autoReconnecting {
-		ds.connector.ResetConnection()
+		ds.connector.connectAttempt = 0
 	}
 
 	ds.connector.connectionRefused.UnSet()
@@ -368,6 +366,16 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	return err
 }
 
+func (ds *DataSubscriber) waitForDisconnect() {
+	ds.disconnectThreadMutex.Lock()
+	disconnectThread := ds.disconnectThread
+	ds.disconnectThreadMutex.Unlock()
+
+	if disconnectThread != nil {
+		disconnectThread.Join()
+	}
+}
+
 func (ds *DataSubscriber) setupConnection() {
 	ds.disconnected.UnSet()
 	ds.subscribed.UnSet()
-- 
2.43.0


From 8a75e421f8842ef6a3ccc87d7fc38490ef67914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:27 +0000
Subject: [PATCH 21/58] fix: cancel a reconnect that is in progress when
 disconnecting

A disconnect waits for the reconnect thread to end, and the reconnect waited
for the disconnect in turn, so both hung. A connection attempt that was about
to start also went ahead after the disconnect had completed.
---
 sttp/transport/DataSubscriber.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 07f06e8..652d010 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -337,14 +337,21 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 		return errors.New("subscriber is listening for connections; direct connections disallowed")
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.waitForDisconnect()
+	// Make sure any pending disconnect has completed to make sure socket is closed, a reconnect
+	// only starts once socket is closed and must not wait on a disconnect that is canceling it
+	if !autoReconnecting {
+		ds.waitForDisconnect()
+	}
 
 	// Let any pending connect or disconnect operation complete before new connect,
 	// this prevents destruction disconnect before connection is completed
 	ds.connectActionMutex.Lock()
 	defer ds.connectActionMutex.Unlock()
 
+	if ds.connector.cancel.IsSet() {
+		return errors.New("connection canceled")
+	}
+
 	var err error
 
 	// Initialize connection state
-- 
2.43.0


From 2ec41bf9b174bf859aaa0ff4d47d105e867666ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:15 +0000
Subject: [PATCH 22/58] fix: end each connection exactly once

Two disconnects at the same time could both run and report the end of the
connection twice, as did a disconnect after the connection had ended. A
disconnect during a connection attempt left the new connection marked as
connected and never finished, and one during the handling of a lost
connection was ignored, so the connection got reestablished.
---
 sttp/transport/DataSubscriber.go | 33 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 652d010..5276322 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -607,10 +607,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
 func (ds *DataSubscriber) Disconnect() {
-	if ds.disconnecting.IsSet() {
-		return
-	}
-
 	// Disconnect method executes shutdown on a separate thread without stopping to prevent
 	// issues where user may call disconnect method from a dispatched event thread. Also,
 	// user requests to disconnect are not an auto-reconnect attempt and should initiate
@@ -619,12 +615,13 @@ func (ds *DataSubscriber) Disconnect() {
 }
 
 func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
-	// Check if disconnect thread is running or subscriber has already disconnected
-	if ds.disconnecting.IsSet() {
-		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
-		}
+	// Make sure connection does not get reestablished, even if disconnect thread is already running
+	if !autoReconnecting {
+		ds.connector.cancel.Set()
+	}
 
+	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
+	if !ds.disconnecting.SetToIf(false, true) {
 		ds.disconnectThreadMutex.Lock()
 		disconnectThread := ds.disconnectThread
 		ds.disconnectThreadMutex.Unlock()
@@ -636,9 +633,7 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 		return
 	}
 
-	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
-	ds.disconnecting.Set()
-	ds.connected.UnSet()
+	wasConnected := ds.connected.SetToIf(true, false)
 	ds.validated.UnSet()
 
 	if includeListener {
@@ -648,7 +643,7 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 	ds.subscribed.UnSet()
 
 	disconnectThread := thread.NewThread(func() {
-		ds.runDisconnectThread(autoReconnecting, includeListener)
+		ds.runDisconnectThread(autoReconnecting, includeListener, wasConnected)
 	})
 
 	ds.disconnectThreadMutex.Lock()
@@ -661,12 +656,20 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 	}
 }
 
-func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
+func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool, wasConnected bool) {
 	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
 	if !autoReconnecting {
 		ds.connector.Cancel()
 		ds.connectionTerminationThread.Join()
 		ds.connectActionMutex.Lock()
+
+		// Pending connect operation may have established a connection since disconnect was requested
+		if ds.connected.SetToIf(true, false) {
+			wasConnected = true
+		}
+
+		ds.validated.UnSet()
+		ds.subscribed.UnSet()
 	}
 
 	// Release queues and close sockets so that threads can shut down gracefully
@@ -707,7 +710,7 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
 
-	if ds.ConnectionTerminatedCallback != nil {
+	if wasConnected && ds.ConnectionTerminatedCallback != nil {
 		ds.ConnectionTerminatedCallback()
 	}
 
-- 
2.43.0


From d5155b8233b38c3b0aba46be08dde64d43c24202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:22 +0000
Subject: [PATCH 23/58] fix: do not hang or mix up connections of a listening
 subscriber

A disconnect waited for the accept thread while holding the lock that thread
needs to establish a connection just accepted, so both hung. A publisher that
connected while the end of the previous connection was being handled had its
connection set up and torn down at the same time.
---
 sttp/transport/DataSubscriber.go | 38 ++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 5276322..5a5bb64 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -657,12 +657,27 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 }
 
 func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool, wasConnected bool) {
-	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
 	if !autoReconnecting {
 		ds.connector.Cancel()
 		ds.connectionTerminationThread.Join()
-		ds.connectActionMutex.Lock()
+	}
+
+	// Stop accepting connections, a connection that is being accepted completes first
+	if includeListener && ds.listeningSocket != nil {
+		if err := ds.listeningSocket.Close(); err != nil {
+			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+		}
+	}
+
+	if includeListener && ds.listeningSocketAcceptThread != nil {
+		ds.listeningSocketAcceptThread.Join()
+		ds.listeningSocketAcceptThread = nil
+	}
+
+	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.connectActionMutex.Lock()
 
+	if !autoReconnecting {
 		// Pending connect operation may have established a connection since disconnect was requested
 		if ds.connected.SetToIf(true, false) {
 			wasConnected = true
@@ -673,12 +688,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	// Release queues and close sockets so that threads can shut down gracefully
-	if includeListener && ds.listeningSocket != nil {
-		if err := ds.listeningSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
-		}
-	}
-
 	if ds.commandChannelSocket != nil {
 		if err := ds.commandChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
@@ -692,11 +701,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
-	}
-
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
@@ -719,6 +723,7 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	// Disconnect complete
 	ds.disconnected.Set()
 	ds.disconnecting.UnSet()
+	ds.connectActionMutex.Unlock()
 
 	if autoReconnecting {
 		// Handling auto-connect callback separately from connection terminated callback
@@ -731,9 +736,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		}
 
 		ds.EndCallbackSync()
-
-	} else {
-		ds.connectActionMutex.Unlock()
 	}
 }
 
@@ -802,6 +804,10 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 
 		// Let any pending connect or disconnect operation complete before new connect,
 		// this prevents destruction disconnect before connection is completed
+		for ds.disconnecting.IsSet() && ds.listening.IsSet() {
+			time.Sleep(time.Millisecond)
+		}
+
 		ds.connectActionMutex.Lock()
 
 		// Initialize connection state
-- 
2.43.0


From f060706d2f214c312dfa7aad7474837cb136e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:00 +0000
Subject: [PATCH 24/58] fix: let a measurement reader be closed while data is
 received

---
 sttp/MeasurementReader.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..ca1f445 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,6 +25,7 @@ package sttp
 
 import (
 	"context"
+	"sync"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
@@ -32,16 +33,23 @@ import (
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
 	current chan *transport.Measurement
+	closed  chan struct{}
+	close   sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		closed:  make(chan struct{}),
 	}
 
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
 		for _, m := range *measurements {
-			reader.current <- &m
+			select {
+			case reader.current <- &m:
+			case <-reader.closed:
+				return
+			}
 		}
 	})
 
@@ -50,7 +58,8 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done
+// or reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -59,12 +68,16 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.closed:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader. Measurements received after close are discarded.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.close.Do(func() {
+		close(mr.closed)
+	})
 }
-- 
2.43.0


From 901a680c041b756189f6f7ab54ef90a151750db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:12 +0000
Subject: [PATCH 25/58] fix: do not hold callback locks while executing
 callbacks

---
 sttp/Subscriber.go                    | 56 +++++++++++++--------------
 sttp/transport/DataSubscriber.go      | 48 +++++++++++------------
 sttp/transport/SubscriberConnector.go |  8 ++--
 3 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..acd7872 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -465,36 +465,36 @@ func (sb *Subscriber) endCallbackAssignment() {
 // StatusMessage executes the defined status message logger callback.
 func (sb *Subscriber) StatusMessage(message string) {
 	sb.beginCallbackSync()
+	callback := sb.statusMessageLogger
+	sb.endCallbackSync()
 
-	if sb.statusMessageLogger != nil {
-		sb.statusMessageLogger(message)
+	if callback != nil {
+		callback(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // ErrorMessage executes the defined error message logger callback.
 func (sb *Subscriber) ErrorMessage(message string) {
 	sb.beginCallbackSync()
+	callback := sb.errorMessageLogger
+	sb.endCallbackSync()
 
-	if sb.errorMessageLogger != nil {
-		sb.errorMessageLogger(message)
+	if callback != nil {
+		callback(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
 	sb.beginCallbackSync()
+	callback := sb.connectionEstablishedReceiver
+	sb.endCallbackSync()
 
-	if sb.connectionEstablishedReceiver != nil {
-		sb.connectionEstablishedReceiver()
+	if callback != nil {
+		callback()
 	}
 
-	sb.endCallbackSync()
-
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
@@ -528,13 +528,13 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	sb.showMetadataSummary(dataSet, parseStarted)
 
 	sb.beginCallbackSync()
+	callback := sb.metadataReceiver
+	sb.endCallbackSync()
 
-	if sb.metadataReceiver != nil {
-		sb.metadataReceiver(dataSet)
+	if callback != nil {
+		callback(dataSet)
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
@@ -653,23 +653,23 @@ func (sb *Subscriber) showMetadataSummary(dataSet *data.DataSet, parseStarted ti
 
 func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	sb.beginCallbackSync()
+	callback := sb.dataStartTimeReceiver
+	sb.endCallbackSync()
 
-	if sb.dataStartTimeReceiver != nil {
-		sb.dataStartTimeReceiver(startTime.ToTime())
+	if callback != nil {
+		callback(startTime.ToTime())
 	}
-
-	sb.endCallbackSync()
 }
 
 func (sb *Subscriber) handleConfigurationChanged() {
 	sb.beginCallbackSync()
+	callback := sb.configurationChangedReceiver
+	sb.endCallbackSync()
 
-	if sb.configurationChangedReceiver != nil {
-		sb.configurationChangedReceiver()
+	if callback != nil {
+		callback()
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
@@ -679,12 +679,12 @@ func (sb *Subscriber) handleProcessingComplete(message string) {
 	sb.StatusMessage(message)
 
 	sb.beginCallbackSync()
+	callback := sb.historicalReadCompleteReceiver
+	sb.endCallbackSync()
 
-	if sb.historicalReadCompleteReceiver != nil {
-		sb.historicalReadCompleteReceiver()
+	if callback != nil {
+		callback()
 	}
-
-	sb.endCallbackSync()
 }
 
 // DefaultStatusMessageLogger implements the default handler for the statusMessage callback.
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 5a5bb64..4e57256 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -428,12 +428,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
+	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionEstablishedCallback != nil {
-		ds.ConnectionEstablishedCallback()
+	if connectionEstablishedCallback != nil {
+		connectionEstablishedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -713,13 +713,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
+	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
+	ds.EndCallbackSync()
 
-	if wasConnected && ds.ConnectionTerminatedCallback != nil {
-		ds.ConnectionTerminatedCallback()
+	if wasConnected && connectionTerminatedCallback != nil {
+		connectionTerminatedCallback()
 	}
 
-	ds.EndCallbackSync()
-
 	// Disconnect complete
 	ds.disconnected.Set()
 	ds.disconnecting.UnSet()
@@ -730,12 +730,12 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		// since they serve two different use cases and current implementation does not
 		// support multiple callback registrations
 		ds.BeginCallbackSync()
+		autoReconnectCallback := ds.AutoReconnectCallback
+		ds.EndCallbackSync()
 
-		if ds.AutoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			ds.AutoReconnectCallback()
+		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+			autoReconnectCallback()
 		}
-
-		ds.EndCallbackSync()
 	}
 }
 
@@ -1074,14 +1074,14 @@ func (ds *DataSubscriber) handleDataStartTime(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	dataStartTimeCallback := ds.DataStartTimeCallback
+	ds.EndCallbackSync()
 
-	if ds.DataStartTimeCallback != nil {
+	if dataStartTimeCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.DataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
+		dataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
@@ -1343,15 +1343,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	newMeasurementsCallback := ds.NewMeasurementsCallback
+	ds.EndCallbackSync()
 
-	if ds.NewMeasurementsCallback != nil {
+	if newMeasurementsCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewMeasurementsCallback(measurements)
+		newMeasurementsCallback(measurements)
 	}
 
-	ds.EndCallbackSync()
-
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(parsed))
 }
 
@@ -1566,14 +1566,14 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
+			newBufferBlocksCallback := ds.NewBufferBlocksCallback
+			ds.EndCallbackSync()
 
-			if ds.NewBufferBlocksCallback != nil {
+			if newBufferBlocksCallback != nil {
 				// Do not use Go routine here, processing sequence may be important.
 				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements[:i])
+				newBufferBlocksCallback(bufferBlockMeasurements[:i])
 			}
-
-			ds.EndCallbackSync()
 		} else {
 			// Ensure that the list has at least as many elements as it needs to cache this measurement.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 2491dde..3a2304a 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -114,12 +114,12 @@ func (ds *DataSubscriber) autoReconnect() {
 
 		// Notify the user that reconnect attempt was completed.
 		sc.BeginCallbackSync()
+		reconnectCallback := sc.ReconnectCallback
+		sc.EndCallbackSync()
 
-		if sc.cancel.IsNotSet() && sc.ReconnectCallback != nil {
-			sc.ReconnectCallback(ds)
+		if sc.cancel.IsNotSet() && reconnectCallback != nil {
+			reconnectCallback(ds)
 		}
-
-		sc.EndCallbackSync()
 	})
 
 	sc.reconnectThreadMutex.Lock()
-- 
2.43.0


From 0f5025e0b0fc8e498683ffa04e647c24bfa7e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:13 +0000
Subject: [PATCH 26/58] fix: send messages to the currently assigned loggers

---
 sttp/Subscriber.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index acd7872..7dadc15 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -244,9 +244,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -330,8 +330,8 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
-- 
2.43.0


From 0bc9d9fc45cc7c35c7352d1cf0786c44aea65760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:30 +0000
Subject: [PATCH 27/58] fix: comparisons with a null operand yield a Boolean
 null

The comparison operators and IN returned a null typed like their operands, so
a filter failed with "did not result in a boolean value" for any row with a
missing value instead of treating the condition as not satisfied.
---
 sttp/data/ExpressionTree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..5183512 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -355,7 +355,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
@@ -2976,7 +2976,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3010,7 +3010,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3046,7 +3046,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3080,7 +3080,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3116,7 +3116,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3153,7 +3153,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From c245ba2a2c6378132768288e3d1f1f4b8713eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:46 +0000
Subject: [PATCH 28/58] fix: LIKE without wild cards matches the whole string

A pattern with no wild card matched nothing, not even the identical text,
and an empty pattern matched everything.
---
 sttp/data/ExpressionTree.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 5183512..959dcbc 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3225,7 +3225,7 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 	}
 
 	// "*" or "**" expression means match everything
-	if len(testExpression) == 0 {
+	if len(testExpression) == 0 && (startsWithWildcard || endsWithWildcard) {
 		return True, nil
 	}
 
@@ -3234,6 +3234,15 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 		return nil, errors.New("right operand of \"LIKE\" expression \"" + rightOperand + "\" has an invalid pattern")
 	}
 
+	// Expression with no wild cards means match whole string
+	if !startsWithWildcard && !endsWithWildcard {
+		if exactMatch {
+			return newValueExpression(ExpressionValueType.Boolean, leftOperand == testExpression), nil
+		}
+
+		return newValueExpression(ExpressionValueType.Boolean, strings.ToUpper(leftOperand) == strings.ToUpper(testExpression)), nil
+	}
+
 	if startsWithWildcard {
 		if exactMatch {
 			if strings.HasSuffix(leftOperand, testExpression) {
-- 
2.43.0


From d33e54433467245e163b2323198c63ed087f29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:29 +0000
Subject: [PATCH 29/58] fix: doubled quotes in a string literal stand for one
 quote

The grammar accepts '' inside a string literal as an escaped quote, but the
value kept both quotes.
---
 sttp/data/FilterExpressionParser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..53eb742 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1479,9 +1479,10 @@ func SelectSignalIDSetFromTable(dataTable *DataTable, filterExpression string, p
 
 func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
-	// ensures strings starting with quote also ends with one
+	// ensures strings starting with quote also ends with one and that
+	// any quotes inside the string are doubled
 	if stringLiteral[0] == '\'' {
-		return stringLiteral[1 : len(stringLiteral)-1]
+		return strings.ReplaceAll(stringLiteral[1:len(stringLiteral)-1], "''", "'")
 	}
 
 	return stringLiteral
-- 
2.43.0


From eed0577ea2302885e0d100b51003129a09d16a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:09 +0000
Subject: [PATCH 30/58] fix: ORDER BY is case sensitive only with an exact
 match modifier

The meaning of BINARY in an ordering term was inverted.
---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 53eb742..84ea7c1 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -472,7 +472,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From 799540c8b93ae07f23d0342ae8d187589f5feffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:01 +0000
Subject: [PATCH 31/58] fix: sorting booleans in ascending order places false
 before true

CompareDataRowColumns reported true as less than false, the opposite of the
comparison operators.
---
 sttp/data/DataRow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..15a324b 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -1510,11 +1510,11 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue && !rightValue {
+			if !leftValue && rightValue {
 				return -1, nil
 			}
 
-			if !leftValue && rightValue {
+			if leftValue && !rightValue {
 				return 1, nil
 			}
 
-- 
2.43.0


From a227cce9fde57e946234334070df03ad76090223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:49 +0000
Subject: [PATCH 32/58] fix: convert Boolean values to Int32

The converted value was a Go int, so any mixed Boolean and Int32 operation
panicked while creating its value expression.
---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..4eeb086 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -410,7 +410,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From dff6b078c2b601a05a12296c8efc5671b8ab05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:25 +0000
Subject: [PATCH 33/58] fix: report an error for integer and decimal division
 by zero

A filter that divides by a column value panicked on the first row where that
value is zero.
---
 sttp/data/ExpressionTree.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 959dcbc..cc8b63b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2647,10 +2647,22 @@ func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, value
 
 	switch valueType {
 	case ExpressionValueType.Int32:
+		if rightValue.int32Value() == 0 {
+			return nil, errors.New("cannot apply division \"/\" operator, divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()/rightValue.int32Value())), nil
 	case ExpressionValueType.Int64:
+		if rightValue.int64Value() == 0 {
+			return nil, errors.New("cannot apply division \"/\" operator, divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int64, int64(leftValue.int64Value()/rightValue.int64Value())), nil
 	case ExpressionValueType.Decimal:
+		if rightValue.decimalValue().IsZero() {
+			return nil, errors.New("cannot apply division \"/\" operator, divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, leftValue.decimalValue().Div(rightValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, float64(leftValue.doubleValue()/rightValue.doubleValue())), nil
@@ -2681,10 +2693,22 @@ func (et *ExpressionTree) modulusOp(leftValue, rightValue *ValueExpression, valu
 
 	switch valueType {
 	case ExpressionValueType.Int32:
+		if rightValue.int32Value() == 0 {
+			return nil, errors.New("cannot apply modulus \"%\" operator, divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()%rightValue.int32Value())), nil
 	case ExpressionValueType.Int64:
+		if rightValue.int64Value() == 0 {
+			return nil, errors.New("cannot apply modulus \"%\" operator, divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int64, int64(leftValue.int64Value()%rightValue.int64Value())), nil
 	case ExpressionValueType.Decimal:
+		if rightValue.decimalValue().IsZero() {
+			return nil, errors.New("cannot apply modulus \"%\" operator, divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, leftValue.decimalValue().Mod(rightValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Mod(leftValue.doubleValue(), rightValue.doubleValue())), nil
-- 
2.43.0


From 6a54645b4037adcad937526a28ffcca32aee510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:20 +0000
Subject: [PATCH 34/58] fix: report an error for doubles that have no decimal
 form

Converting NaN or an infinite value to Decimal panicked.
---
 sttp/data/ValueExpression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 4eeb086..47fea9a 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -515,6 +516,10 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" value \"" + ve.String() + "\" to \"Decimal\"")
+		}
+
 		return newValueExpression(targetValueType, decimal.NewFromFloat(value)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(targetValueType, value), nil
-- 
2.43.0


From bbd38368f0cc3f2264243db1a8545c0b0ff5c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:05 +0000
Subject: [PATCH 35/58] fix: evaluate the first IIf argument as its test value

The second argument, the result for a true test, was evaluated as the test.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index cc8b63b..dded908 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -691,7 +691,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From c0cd9cc43eecf28f302e72c5216da8c5b2fc2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:07 +0000
Subject: [PATCH 36/58] fix: raise to the given exponent in the Power function

The source value was used as its own exponent.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index dded908..bbe57bd 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2150,7 +2150,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-- 
2.43.0


From d3b0d17f6c711edc10c9115c0d57534037e33b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:10 +0000
Subject: [PATCH 37/58] fix: search for empty text in the NthIndexOf function

Looking for the nth occurrence of an empty text panicked once the end of the
source was reached.
---
 sttp/data/ExpressionTree.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index bbe57bd..1da613d 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3353,22 +3353,23 @@ func (et *ExpressionTree) orOp(leftValue, rightValue *ValueExpression) (*ValueEx
 
 // https://play.golang.org/p/-zlKH7mfboa
 func findNthIndex(source, test string, index int) int {
-	var result int
+	result := -1
 
 	for i := 0; i < index+1; i++ {
-		location := strings.Index(source, test)
+		if result+1 > len(source) {
+			return -1
+		}
+
+		location := strings.Index(source[result+1:], test)
 
 		if location == -1 {
-			result = 0
-			break
+			return -1
 		}
 
-		location++
-		result += location
-		source = source[location:]
+		result += location + 1
 	}
 
-	return result - 1
+	return result
 }
 
 // https://play.golang.org/p/_7nc06CqjKi
-- 
2.43.0


From 0ac7222e790a5a3c540786514941e2e895f6090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:13 +0000
Subject: [PATCH 38/58] fix: SubStr with a length close to the integer limit

The end position overflowed and the slice operation panicked.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 1da613d..ad64b5c 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2521,7 +2521,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From 0ccca59f38d91e5b87990a4e76170ed670d2cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:15 +0000
Subject: [PATCH 39/58] fix: take the Replace function's replacement text
 literally

When ignoring case, dollar signs in the replacement were expanded as regular
expression groups.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index ad64b5c..d95d492 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2261,7 +2261,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From 80595459b44ac896c4da7ecfad6ea3c2377a9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:38 +0000
Subject: [PATCH 40/58] fix: return every part of a text in the Split function

The first part was lost when it is the whole text or is empty, delimiters that
overlap made it panic, and so did text whose upper case form has another length
when ignoring case.
---
 sttp/data/ExpressionTree.go | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index d95d492..2b98074 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2343,19 +2343,25 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	}
 
 	index := indexValue.integerValue(-1)
-	var result []int
+	var parts []string
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+		regex, err := regexp.Compile("(?i)" + regexp.QuoteMeta(delimiterValue.stringValue()))
+
+		if err != nil {
+			return nil, errors.New("failed while compiling \"Split\" function case-insensitive RegEx expression for delimiter value, second argument: " + err.Error())
+		}
+
+		parts = regex.Split(sourceValue.stringValue(), -1)
 	} else {
-		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
+		parts = strings.Split(sourceValue.stringValue(), delimiterValue.stringValue())
 	}
 
-	if result == nil {
+	if index < 0 || index >= len(parts) {
 		return EmptyString, nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, sourceValue.stringValue()[result[0]:result[1]]), nil
+	return newValueExpression(ExpressionValueType.String, parts[index]), nil
 }
 
 func (et *ExpressionTree) sqrt(sourceValue *ValueExpression) (*ValueExpression, error) {
@@ -3371,23 +3377,3 @@ func findNthIndex(source, test string, index int) int {
 
 	return result
 }
-
-// https://play.golang.org/p/_7nc06CqjKi
-func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
-
-	if firstIndex <= 0 && secondIndex <= 0 {
-		return nil
-	}
-
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
-
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
-	}
-
-	return []int{firstIndex + len(test), secondIndex}
-}
-- 
2.43.0


From 1bcd353a40d73e5a0b17114fa526785b3f105e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:06 +0000
Subject: [PATCH 41/58] fix: trim next line and no-break space characters

The cut set of TrimLeft and TrimRight contained them as single bytes, which is
not valid text, so that replacement characters were removed instead.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2b98074..0d0f803 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -38,7 +38,7 @@ import (
 	"github.com/sttp/goapi/sttp/guid"
 )
 
-var whitespace string = " \t\n\v\f\r\x85\xA0"
+var whitespace string = " \t\n\v\f\r\u0085\u00A0"
 var intSize = int(unsafe.Sizeof(uint(0)) * 8)
 
 // ExpressionTree represents a tree of expressions for evaluation.
-- 
2.43.0


From 5988ff9bc4341bbe942fe4acce40afa5cbd08903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 42/58] fix: keep equals signs of the value in XML predicates

---
 sttp/xml/XmlNode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..04e3a15 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -205,7 +205,7 @@ func isMatch(value, name string) bool {
 }
 
 func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -247,7 +247,7 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
-- 
2.43.0


From ede7eefc76ee7c2d77b40ebffbf0f25b4b4233c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 43/58] fix: read '' in an XML predicate as the empty value

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 04e3a15..2c43957 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -265,7 +265,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 628b7baa2fd07cad93f67e65f2fa6c6f7a5322ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 44/58] fix: do not fail on an empty XML predicate

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 2c43957..93da9fc 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -165,7 +165,7 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 			lbp := strings.IndexRune(expr, '[')
 			rbp := strings.IndexRune(expr, ']')
 
-			if lbp > -1 && rbp > -1 && rbp > lbp && len(expr) > 2 {
+			if lbp > -1 && rbp > -1 && rbp > lbp+1 {
 				name := expr[:lbp]
 				predicate := expr[lbp+1 : rbp]
 
-- 
2.43.0


From 1173b72769ff3613a34c2562f08f6964c629efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 45/58] fix: resolve XML entities in record field values

---
 sttp/data/DataSet.go | 2 +-
 sttp/xml/XmlNode.go  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..d25cae4 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -287,7 +287,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				columnIndex := column.Index()
-				value := field.Value()
+				value := string(field.CharData)
 
 				switch column.Type() {
 				case DataType.String:
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 93da9fc..8c6fb2f 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// CharData is the character data of this node, i.e., its text with entities and CDATA sections resolved.
+	CharData []byte `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
-- 
2.43.0


From 65c1840188fa2176fa26791166bf59164989f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 46/58] fix: read integers of XML records as decimal numbers

---
 sttp/data/DataSet.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index d25cae4..b7d0623 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -310,28 +310,28 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					g, _ := guid.Parse(value)
 					dataRow.SetValue(columnIndex, g)
 				case DataType.Int8:
-					i8, _ := strconv.ParseInt(value, 0, 8)
+					i8, _ := strconv.ParseInt(value, 10, 8)
 					dataRow.SetValue(columnIndex, int8(i8))
 				case DataType.Int16:
-					i16, _ := strconv.ParseInt(value, 0, 16)
+					i16, _ := strconv.ParseInt(value, 10, 16)
 					dataRow.SetValue(columnIndex, int16(i16))
 				case DataType.Int32:
-					i32, _ := strconv.ParseInt(value, 0, 32)
+					i32, _ := strconv.ParseInt(value, 10, 32)
 					dataRow.SetValue(columnIndex, int32(i32))
 				case DataType.Int64:
-					i64, _ := strconv.ParseInt(value, 0, 64)
+					i64, _ := strconv.ParseInt(value, 10, 64)
 					dataRow.SetValue(columnIndex, i64)
 				case DataType.UInt8:
-					ui8, _ := strconv.ParseUint(value, 0, 8)
+					ui8, _ := strconv.ParseUint(value, 10, 8)
 					dataRow.SetValue(columnIndex, uint8(ui8))
 				case DataType.UInt16:
-					ui16, _ := strconv.ParseUint(value, 0, 16)
+					ui16, _ := strconv.ParseUint(value, 10, 16)
 					dataRow.SetValue(columnIndex, uint16(ui16))
 				case DataType.UInt32:
-					ui32, _ := strconv.ParseUint(value, 0, 32)
+					ui32, _ := strconv.ParseUint(value, 10, 32)
 					dataRow.SetValue(columnIndex, uint32(ui32))
 				case DataType.UInt64:
-					ui64, _ := strconv.ParseUint(value, 0, 64)
+					ui64, _ := strconv.ParseUint(value, 10, 64)
 					dataRow.SetValue(columnIndex, ui64)
 				}
 			}
-- 
2.43.0


From 98fd0f239db0e5be6e18183607bdc140bb77d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 47/58] fix: accept UTC dates with the Z suffix in XML records

---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index b7d0623..7b5ab60 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -295,7 +295,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.Boolean:
 					dataRow.SetValue(columnIndex, value == "true")
 				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
+					dt, _ := time.Parse(time.RFC3339Nano, value)
 					dataRow.SetValue(columnIndex, dt)
 				case DataType.Single:
 					f32, _ := strconv.ParseFloat(value, 32)
-- 
2.43.0


From 50aec0ea81c2383ecf204a0267c3217555355776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 48/58] fix: respect a limit of zero rows in RowsWhere

---
 sttp/data/DataTable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..d65025e 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -156,6 +156,10 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 	count := 0
 
 	for i := 0; i < len(dt.rows); i++ {
+		if limit > -1 && count >= limit {
+			break
+		}
+
 		dataRow := dt.rows[i]
 
 		if dataRow == nil {
@@ -165,10 +169,6 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 		if predicate(dataRow) {
 			matchingRows = append(matchingRows, dataRow)
 			count++
-
-			if limit > -1 && count >= limit {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From 35bc6e6fcae225550f7c0e289c9eb6e7b5a3e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 49/58] fix: evaluate computed columns read by name

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 15a324b..e7e8ab1 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -503,7 +503,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From 1448750eb7ca221e326362e90431f2a91702b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 50/58] fix: keep null results of computed columns null

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index e7e8ab1..4f81af3 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -124,6 +124,11 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	// Null results have no value to convert
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From 93a4bf0510988139d42c1b332501ac999b1c1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 51/58] fix: convert dates of computed columns to boolean like
 other types

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 4f81af3..2ea0f91 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -445,7 +445,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From 415d15ff78cf0b1a76319675e3b3b8b54715ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:42 +0000
Subject: [PATCH 52/58] fix: report an error for doubles without a decimal form
 in computed columns

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 2ea0f91..9b87460 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -325,6 +326,10 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" expression value \"" + strconv.FormatFloat(value, 'f', 6, 64) + "\" to \"Decimal\" column")
+		}
+
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
-- 
2.43.0


From 156316b8bbb41e0890efc6d23653ba2856f6f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:19:03 +0000
Subject: [PATCH 53/58] fix: count DateDiff intervals exactly beyond 292 years
 and near whole intervals

---
 sttp/data/ExpressionTree.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 0d0f803..bbfe941 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -1666,7 +1666,20 @@ func (et *ExpressionTree) dateDiff(leftValue, rightValue, intervalType *ValueExp
 		}
 	}
 
-	delta := rightDate.Sub(leftDate)
+	// Seconds and fraction are subtracted separately since a duration only spans about 292 years
+	// and floating-point durations round up near whole intervals
+	seconds := rightDate.Unix() - leftDate.Unix()
+	nanoseconds := int64(rightDate.Nanosecond() - leftDate.Nanosecond())
+
+	if seconds > 0 && nanoseconds < 0 {
+		seconds--
+		nanoseconds += int64(time.Second)
+	} else if seconds < 0 && nanoseconds > 0 {
+		seconds++
+		nanoseconds -= int64(time.Second)
+	}
+
+	var intervals int64
 
 	switch interval {
 	case TimeInterval.DayOfYear:
@@ -1674,20 +1687,26 @@ func (et *ExpressionTree) dateDiff(leftValue, rightValue, intervalType *ValueExp
 	case TimeInterval.Day:
 		fallthrough
 	case TimeInterval.WeekDay:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Hours()/24.0)), nil
+		intervals = seconds / 86400
 	case TimeInterval.Week:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Hours()/24.0/7.0)), nil
+		intervals = seconds / 604800
 	case TimeInterval.Hour:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Hours())), nil
+		intervals = seconds / 3600
 	case TimeInterval.Minute:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Minutes())), nil
+		intervals = seconds / 60
 	case TimeInterval.Second:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Seconds())), nil
+		intervals = seconds
 	case TimeInterval.Millisecond:
-		return newValueExpression(ExpressionValueType.Int32, int32(delta.Milliseconds())), nil
+		intervals = seconds*1000 + nanoseconds/int64(time.Millisecond)
 	default:
 		return nil, errors.New("unexpected time interval encountered")
 	}
+
+	if intervals < math.MinInt32 || intervals > math.MaxInt32 {
+		return nil, errors.New("\"DateDiff\" function result " + strconv.FormatInt(intervals, 10) + " is out of range for \"Int32\"")
+	}
+
+	return newValueExpression(ExpressionValueType.Int32, int32(intervals)), nil
 }
 
 //gocyclo:ignore
-- 
2.43.0


From fd7b9ee71bbb48e54e361272de5c7b0bfb276a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:19:06 +0000
Subject: [PATCH 54/58] fix: DateAdd of hours, minutes, seconds and
 milliseconds beyond 292 years

---
 sttp/data/ExpressionTree.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index bbfe941..7123338 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -1598,18 +1598,23 @@ func (et *ExpressionTree) dateAdd(sourceValue, addValue, intervalType *ValueExpr
 	case TimeInterval.Week:
 		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().AddDate(0, 0, value*7)), nil
 	case TimeInterval.Hour:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Hour*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value)*3600)), nil
 	case TimeInterval.Minute:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Minute*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value)*60)), nil
 	case TimeInterval.Second:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Second*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value))), nil
 	case TimeInterval.Millisecond:
-		return newValueExpression(ExpressionValueType.DateTime, sourceValue.dateTimeValue().Add(time.Millisecond*time.Duration(value))), nil
+		return newValueExpression(ExpressionValueType.DateTime, addSeconds(sourceValue.dateTimeValue(), int64(value/1000)).Add(time.Millisecond*time.Duration(value%1000))), nil
 	default:
 		return nil, errors.New("unexpected time interval encountered")
 	}
 }
 
+// addSeconds adds any number of seconds to a time, a duration only spans about 292 years.
+func addSeconds(value time.Time, seconds int64) time.Time {
+	return time.Unix(value.Unix()+seconds, int64(value.Nanosecond())).In(value.Location())
+}
+
 //gocyclo:ignore
 func (et *ExpressionTree) dateDiff(leftValue, rightValue, intervalType *ValueExpression) (*ValueExpression, error) {
 	if leftValue.ValueType() != ExpressionValueType.DateTime && leftValue.ValueType() != ExpressionValueType.String {
-- 
2.43.0


From 45c12d3dd5200b706d628958571c0defec199f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:24 +0000
Subject: [PATCH 55/58] fix: release UDP data channel reliably when subscribing
 again, unsubscribing or disconnecting

A data channel port that was already in use left a typed nil socket behind, so
disconnecting afterwards dereferenced nil. Subscribing again before the publisher
had answered left the previous socket and its thread in place. Subscribing or
unsubscribing while a disconnect was running could leave a socket open or close
it twice. The socket and its thread are now opened and closed together under a lock.
---
 sttp/transport/DataSubscriber.go | 77 ++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 4e57256..df5692a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -65,6 +65,7 @@ type DataSubscriber struct {
 	writeBuffer                  []byte
 	writeBufferMutex             sync.Mutex
 	dataChannelSocket            net.Conn
+	dataChannelMutex             sync.Mutex
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
 
@@ -487,6 +488,9 @@ func (ds *DataSubscriber) Subscribe() error {
 		ds.Unsubscribe()
 	}
 
+	// Response to any previous subscription may still be pending
+	ds.closeDataChannel()
+
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
 	var parameterBuilder strings.Builder
@@ -527,21 +531,11 @@ func (ds *DataSubscriber) Subscribe() error {
 
 	if ds.subscription.UdpDataChannel {
 		udpPort := strconv.Itoa(int(ds.subscription.DataChannelLocalPort))
-		udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
 
-		if err != nil {
-			return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
+		if err := ds.openDataChannel(udpPort); err != nil {
+			return err
 		}
 
-		ds.dataChannelSocket, err = net.ListenUDP("udp", udpAddr)
-
-		if err != nil {
-			return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
-		}
-
-		ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
-		ds.dataChannelResponseThread.Start()
-
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
 		parameterBuilder.WriteString("}")
@@ -593,16 +587,52 @@ func (ds *DataSubscriber) Unsubscribe() {
 	}
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
+	ds.closeDataChannel()
+}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
+func (ds *DataSubscriber) openDataChannel(udpPort string) error {
+	udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
+
+	if err != nil {
+		return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
+	ds.dataChannelMutex.Lock()
+	defer ds.dataChannelMutex.Unlock()
+
+	// Data channel opened after disconnect would never be closed
+	if ds.connected.IsNotSet() {
+		return errors.New("subscriber is not connected; cannot subscribe")
 	}
+
+	dataChannelSocket, err := net.ListenUDP("udp", udpAddr)
+
+	if err != nil {
+		return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
+	}
+
+	ds.dataChannelSocket = dataChannelSocket
+	ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
+	ds.dataChannelResponseThread.Start()
+
+	return nil
+}
+
+func (ds *DataSubscriber) closeDataChannel() {
+	ds.dataChannelMutex.Lock()
+	defer ds.dataChannelMutex.Unlock()
+
+	if ds.dataChannelSocket == nil {
+		return
+	}
+
+	if err := ds.dataChannelSocket.Close(); err != nil {
+		ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
+	}
+
+	ds.dataChannelResponseThread.Join()
+	ds.dataChannelResponseThread = nil
+	ds.dataChannelSocket = nil
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
@@ -694,22 +724,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		}
 	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
-	}
-
 	// Join with all threads to guarantee their completion before returning control to the caller
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
-		ds.dataChannelResponseThread = nil
-	}
+	ds.closeDataChannel()
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
-- 
2.43.0


From 34c173e4aa5aa6bf8ec858ccce552aa9276a1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:27 +0000
Subject: [PATCH 56/58] fix: do not insert a group symbol into positive
 infinity

The plus sign of "+Inf" was counted as a digit, so the value was formatted as "+,Inf".
---
 sttp/format/Float.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sttp/format/Float.go b/sttp/format/Float.go
index 76e484c..14e8ffa 100644
--- a/sttp/format/Float.go
+++ b/sttp/format/Float.go
@@ -25,6 +25,7 @@
 package format
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -39,6 +40,12 @@ func Float(f float64, prec int) string {
 // and the specified numeric thousands groupSymbol, e.g., ','.
 func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 	in := strconv.FormatFloat(f, 'f', prec, 64)
+
+	// Infinite values and NaN have no digits to group
+	if math.IsInf(f, 0) || math.IsNaN(f) {
+		return in
+	}
+
 	decSymbolAsStr := string([]byte{decimalSymbol})
 
 	if decimalSymbol != '.' {
-- 
2.43.0


From 5ab3a6bd6c82338d8e6905868486a8211ede6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:39:03 +0000
Subject: [PATCH 57/58] fix: keep the sign when a negative 64-bit integer is
 shifted right

A right shift of a negative 64-bit integer filled with zeros, e.g. -8 >> 1 was
9223372036854775804, while 32-bit integers keep their sign.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 7123338..ecfc385 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2907,7 +2907,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From ef26ed1f7c89299fcb31e1ef1924706bb5a62226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:44:33 +0000
Subject: [PATCH 58/58] fix: name of the ConfirmUpdateBaseTimes command in its
 text

---
 sttp/transport/Constants.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sttp/transport/Constants.go b/sttp/transport/Constants.go
index 0d99e8b..132f73b 100644
--- a/sttp/transport/Constants.go
+++ b/sttp/transport/Constants.go
@@ -366,6 +366,8 @@ func (sce ServerCommandEnum) String() string {
 		return "ConfirmNotification"
 	case ServerCommand.ConfirmBufferBlock:
 		return "ConfirmBufferBlock"
+	case ServerCommand.ConfirmUpdateBaseTimes:
+		return "ConfirmUpdateBaseTimes"
 	case ServerCommand.ConfirmUpdateSignalIndexCache:
 		return "ConfirmUpdateSignalIndexCache"
 	case ServerCommand.ConfirmUpdateCipherKeys:
-- 
2.43.0

