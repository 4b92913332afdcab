From e387d8abf81c2913d80aad4221108768a205c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:21 +0000
Subject: [PATCH 01/55] fix: deliver buffer blocks with their content, once and
 in order

Received buffer blocks were published without their content, with empty
trailing entries, and with wrong cache offsets when blocks arrived out of
order. A retransmission of an already published block was treated as a block
far in the future.
---
 sttp/transport/DataSubscriber.go | 106 +++++++++++++++----------------
 1 file changed, 52 insertions(+), 54 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..e922aa2 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -165,7 +165,7 @@ type DataSubscriber struct {
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
-	bufferBlockCache                  []BufferBlock
+	bufferBlockCache                  map[uint32]BufferBlock
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -377,6 +377,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1391,7 +1392,6 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
@@ -1399,72 +1399,70 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	}
 
 	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
-	if bufferCacheIndex >= 0 && (bufferCacheIndex >= len(ds.bufferBlockCache) || ds.bufferBlockCache[bufferCacheIndex].Buffer == nil) {
-		// Send confirmation that buffer block is received
-		ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
+	if int32(sequenceNumber-ds.bufferBlockExpectedSequenceNumber) < 0 {
+		return
+	}
 
-		if ds.Version > 1 {
-			data = data[5:]
-		} else {
-			data = data[4:]
-		}
+	if _, received := ds.bufferBlockCache[sequenceNumber]; received {
+		return
+	}
 
-		// Get measurement key from signal index cache
-		signalIndex := int32(binary.BigEndian.Uint32(data))
+	// Send confirmation that buffer block is received
+	ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
 
-		ds.signalIndexCacheMutex.Lock()
-		signalIndexCache := ds.signalIndexCache[signalIndexCacheIndex]
-		ds.signalIndexCacheMutex.Unlock()
+	if ds.Version > 1 {
+		data = data[5:]
+	} else {
+		data = data[4:]
+	}
 
-		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+	// Get measurement key from signal index cache
+	signalIndex := int32(binary.BigEndian.Uint32(data))
 
-		// Determine if this is the next buffer block in the sequence
-		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
-			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
+	ds.signalIndexCacheMutex.Lock()
+	signalIndexCache := ds.signalIndexCache[signalIndexCacheIndex]
+	ds.signalIndexCacheMutex.Unlock()
 
-			// Add the buffer block measurement to the list of measurements to be published
-			bufferBlockMeasurements[0] = bufferBlockMeasurement
-			ds.bufferBlockExpectedSequenceNumber++
+	signalID := signalIndexCache.SignalID(signalIndex)
 
-			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
-				if ds.bufferBlockCache[i].Buffer == nil {
-					break
-				}
+	// Buffer content is copied since read buffer is reused for next packet
+	buffer := make([]byte, len(data)-4)
+	copy(buffer, data[4:])
 
-				bufferBlockMeasurements[i] = ds.bufferBlockCache[i]
-				ds.bufferBlockExpectedSequenceNumber++
-			}
+	// Out of order buffer blocks are cached until all prior buffer blocks have arrived. This edge case
+	// handles possible dropouts and/or out of order packet deliver when data transport is UDP - this
+	// use case is not expected when using a TCP only connection.
+	ds.bufferBlockCache[sequenceNumber] = BufferBlock{SignalID: signalID, Buffer: buffer}
 
-			// Remove published buffer block measurements from the buffer block queue
-			if len(ds.bufferBlockCache) > 0 {
-				ds.bufferBlockCache = ds.bufferBlockCache[i:]
-			}
+	var bufferBlockMeasurements []BufferBlock
 
-			// Publish buffer block measurements
-			ds.BeginCallbackSync()
+	// Collect buffer block measurements that are next in the sequence
+	for {
+		bufferBlockMeasurement, received := ds.bufferBlockCache[ds.bufferBlockExpectedSequenceNumber]
 
-			if ds.NewBufferBlocksCallback != nil {
-				// Do not use Go routine here, processing sequence may be important.
-				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
-			}
+		if !received {
+			break
+		}
 
-			ds.EndCallbackSync()
-		} else {
-			// Ensure that the list has at least as many elements as it needs to cache this measurement.
-			// This edge case handles possible dropouts and/or out of order packet deliver when data
-			// transport is UDP - this use case is not expected when using a TCP only connection.
-			for i := len(ds.bufferBlockCache); i <= bufferCacheIndex; i++ {
-				ds.bufferBlockCache = append(ds.bufferBlockCache, BufferBlock{})
-			}
+		delete(ds.bufferBlockCache, ds.bufferBlockExpectedSequenceNumber)
+		bufferBlockMeasurements = append(bufferBlockMeasurements, bufferBlockMeasurement)
+		ds.bufferBlockExpectedSequenceNumber++
+	}
 
-			// Insert this buffer block into the proper location in the list
-			ds.bufferBlockCache[bufferCacheIndex] = bufferBlockMeasurement
-		}
+	if len(bufferBlockMeasurements) == 0 {
+		return
+	}
+
+	// Publish buffer block measurements
+	ds.BeginCallbackSync()
+
+	if ds.NewBufferBlocksCallback != nil {
+		// Do not use Go routine here, processing sequence may be important.
+		// Execute callback directly from socket processing thread:
+		ds.NewBufferBlocksCallback(bufferBlockMeasurements)
 	}
+
+	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
-- 
2.43.0


From c17530c29b7b461f720efffd48500c6b1aabf52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:47 +0000
Subject: [PATCH 02/55] fix: make thread start visible before the function runs

The running state was only set inside the new goroutine, so a join right after
start returned at once and concurrent starts could run the function twice.
---
 sttp/thread/Thread.go | 56 ++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..a09f61a 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -25,15 +25,13 @@ package thread
 
 import (
 	"sync"
-
-	"github.com/tevino/abool/v2"
 )
 
 // Thread represents a thread-like wrapper for a Go routine.
 type Thread struct {
-	exec    func()
-	mutex   sync.Mutex
-	running abool.AtomicBool
+	exec  func()
+	mutex sync.Mutex
+	done  chan struct{} // Closed when active execution completes, nil when not running
 }
 
 // NewThread creates a new Thread.
@@ -47,50 +45,54 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	if !thread.TryStart() {
 		panic("thread is already running")
 	}
-
-	thread.mutex.Lock()
-	go thread.run()
 }
 
 // TryStart attempts to cause the thread function to be scheduled for execution via a new Go routine.
 // Returns true if the thread function was successfully scheduled for execution; otherwise, false.
 func (thread *Thread) TryStart() bool {
-	defer func() {
-		// Ignore possible thread Start race panics, function will return false
-		recover()
-	}()
+	thread.mutex.Lock()
+	defer thread.mutex.Unlock()
 
-	if thread.exec != nil && thread.running.IsNotSet() {
-		thread.Start()
-		return true
+	if thread.exec == nil || thread.done != nil {
+		return false
 	}
 
-	return false
+	thread.done = make(chan struct{})
+	go thread.run(thread.done)
+
+	return true
 }
 
 // Join blocks the calling thread until this Thread terminates.
 func (thread *Thread) Join() {
-	if thread.exec == nil || thread.running.IsNotSet() {
-		return
-	}
-
 	thread.mutex.Lock()
-	//lint:ignore SA2001 -- desired behavior
+	done := thread.done
 	thread.mutex.Unlock()
+
+	if done != nil {
+		<-done
+	}
 }
 
 // IsRunning safely determines if the thread function is currently executing.
 func (thread *Thread) IsRunning() bool {
-	return thread.running.IsSet()
+	thread.mutex.Lock()
+	defer thread.mutex.Unlock()
+
+	return thread.done != nil
 }
 
-func (thread *Thread) run() {
-	defer thread.running.UnSet()
-	defer thread.mutex.Unlock()
+func (thread *Thread) run(done chan struct{}) {
+	defer func() {
+		thread.mutex.Lock()
+		thread.done = nil
+		thread.mutex.Unlock()
+
+		close(done)
+	}()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From a7618ea30cfe7d1f284fec52da0f6c682638b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:32 +0000
Subject: [PATCH 03/55] fix: send commands of any size, one at a time

A command larger than the initial write buffer crashed, and commands sent from
different goroutines shared the buffer and socket without synchronization.
---
 sttp/transport/DataSubscriber.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e922aa2..2f6d6e0 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1499,11 +1500,15 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		return
 	}
 
+	// Commands can be sent from multiple Go routines, each one needs exclusive use of write buffer and socket
+	ds.writeMutex.Lock()
+	defer ds.writeMutex.Unlock()
+
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
-	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+	if int(commandBufferSize) > len(ds.writeBuffer) {
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
@@ -1512,11 +1517,8 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 	// Insert command code
 	ds.writeBuffer[4] = byte(commandCode)
 
-	if data != nil {
-		for i := 0; i < len(data); i++ {
-			ds.writeBuffer[5+i] = data[i]
-		}
-	}
+	// Insert payload
+	copy(ds.writeBuffer[5:], data)
 
 	if commandCode == ServerCommand.MetadataRefresh {
 		// Track start time of metadata request to calculate round-trip receive time
-- 
2.43.0


From da0e3db0de9f0858590a34ed723cc178d67d2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:07 +0000
Subject: [PATCH 04/55] fix: deliver only measurements that were actually
 decoded

A data packet that was out of sequence, arrived before its signal index cache
or was cut short still delivered as many measurements as it announced, with
blank or stale content, and counted them as received.
---
 sttp/transport/CompactMeasurement.go | 15 +++++
 sttp/transport/DataSubscriber.go     | 88 +++++++++++++++++++---------
 2 files changed, 74 insertions(+), 29 deletions(-)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..8024541 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,21 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	// Determine time length
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < index+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement timestamp")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2f6d6e0..961cbd1 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1223,17 +1223,24 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
-	count := binary.BigEndian.Uint32(data)
+	count := uint64(binary.BigEndian.Uint32(data))
+	data = data[4:]
+
+	// No measurement encoding uses less than one bit, so never reserve space for more measurements than this
+	if maxCount := uint64(len(data)) * 8; count > maxCount {
+		count = maxCount
+	}
+
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
-		m := make([]Measurement, count)
+		m := make([]Measurement, 0, count)
 		measurements = &m
 	} else {
 		measurements = mptr.(*[]Measurement)
-		if uint32(cap(*measurements)) < count {
-			*measurements = make([]Measurement, count)
+		if uint64(cap(*measurements)) < count {
+			*measurements = make([]Measurement, 0, count)
 		} else {
-			*measurements = (*measurements)[:count]
+			*measurements = (*measurements)[:0]
 		}
 	}
 	var cacheIndex int
@@ -1247,11 +1254,19 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	ds.signalIndexCacheMutex.Unlock()
 
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		*measurements = ds.parseTSSCMeasurements(signalIndexCache, data, *measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		*measurements = ds.parseCompactMeasurements(signalIndexCache, data, int(count), *measurements)
 	}
 
+	// Only measurements that could be parsed are delivered
+	if len(*measurements) == 0 {
+		ds.MeasurementPool.Put(measurements)
+		return
+	}
+
+	received := uint64(len(*measurements))
+
 	ds.BeginCallbackSync()
 
 	if ds.NewMeasurementsCallback != nil {
@@ -1262,10 +1277,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	ds.EndCallbackSync()
 
-	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
+	atomic.AddUint64(&ds.totalMeasurementsReceived, received)
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+// parseTSSCMeasurements appends the measurements that could be parsed from data to provided measurements.
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) []Measurement {
+	if ds.signalIndexCacheIsMissing(signalIndexCache) {
+		return measurements
+	}
+
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1280,7 +1300,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return measurements
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1315,7 +1335,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return measurements
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1327,25 +1347,22 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	var err error
 
 	ok := true
-	index := 0
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
-			measurements[index] = Measurement{
+			measurements = append(measurements, Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
 				Timestamp: ticks.Ticks(timestamp),
 				Flags:     StateFlagsEnum(stateFlags),
-			}
-
-			index++
+			})
 		}
 	}
 
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return measurements
 	}
 
 	decoder.SequenceNumber++
@@ -1354,27 +1371,38 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return measurements
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
-	if signalIndexCache.Count() == 0 {
-		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
-			// Warning message for missing signal index cache
-			if ds.lastMissingCacheWarning != 0 {
-				ds.dispatchStatusMessage("WARNING: Signal index cache has not arrived. No compact measurements can be parsed.")
-			}
+func (ds *DataSubscriber) signalIndexCacheIsMissing(signalIndexCache *SignalIndexCache) bool {
+	if signalIndexCache.Count() > 0 {
+		return false
+	}
 
-			ds.lastMissingCacheWarning = ticks.UtcNow()
+	if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
+		// Warning message for missing signal index cache
+		if ds.lastMissingCacheWarning != 0 {
+			ds.dispatchStatusMessage("WARNING: Signal index cache has not arrived. No measurements can be parsed.")
 		}
 
-		return
+		ds.lastMissingCacheWarning = ticks.UtcNow()
+	}
+
+	return true
+}
+
+// parseCompactMeasurements appends up to count measurements that could be parsed from data to provided measurements.
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, count int, measurements []Measurement) []Measurement {
+	if ds.signalIndexCacheIsMissing(signalIndexCache) {
+		return measurements
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
 	includeTime := ds.subscription.IncludeTime
 	index := 0
 
-	for i := 0; i < len(measurements); i++ {
+	for i := 0; i < count; i++ {
 		// Deserialize compact measurement format
 		compactMeasurement := NewCompactMeasurement(signalIndexCache, includeTime, useMillisecondResolution, &ds.baseTimeOffsets)
 		bytesDecoded, err := compactMeasurement.Decode(data[index:])
@@ -1382,12 +1410,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return measurements
 		}
 
 		index += bytesDecoded
-		measurements[i] = compactMeasurement.Measurement
+		measurements = append(measurements, compactMeasurement.Measurement)
 	}
+
+	return measurements
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From bb7731addcba040202084d876bc0cb71e0efd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:42 +0000
Subject: [PATCH 05/55] fix: handle malformed publisher responses without
 crashing

Responses shorter than their fixed fields, cipher blocks of the wrong size,
inconsistent lengths in signal index caches and incomplete TSSC buffers all
caused an index out of range panic in a subscriber thread, which ended the
whole process. Such responses are now reported and ignored, or end the
connection.
---
 sttp/transport/Common.go           |   9 +++
 sttp/transport/DataSubscriber.go   | 101 +++++++++++++++++++----------
 sttp/transport/SignalIndexCache.go |  20 ++++--
 sttp/transport/tssc/Decoder.go     |   9 ++-
 4 files changed, 98 insertions(+), 41 deletions(-)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..5017119 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,6 +28,7 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
 	"strings"
@@ -41,6 +42,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("initialization vector length does not match cipher block size")
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("encrypted data length is not a multiple of cipher block size")
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 961cbd1..3d17dc4 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -899,6 +899,11 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchErrorMessage("Encountered " + strconv.Itoa(len(buffer)) + " byte server response from \"" + ds.connectionID + "\", too small for response header -- ignoring response.")
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -946,6 +951,16 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 	}
 }
 
+// hasLength determines if response data has at least the specified length, dispatching an error message when it does not.
+func (ds *DataSubscriber) hasLength(data []byte, length int, name string) bool {
+	if len(data) >= length {
+		return true
+	}
+
+	ds.dispatchErrorMessage("Received " + name + " response with " + strconv.Itoa(len(data)) + " bytes of data, expected at least " + strconv.Itoa(length) + " -- ignoring response.")
+	return false
+}
+
 func (ds *DataSubscriber) handleSucceeded(commandCode ServerCommandEnum, data []byte) {
 	switch commandCode {
 	case ServerCommand.MetadataRefresh:
@@ -1031,6 +1046,10 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 }
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if !ds.hasLength(data, 8, "data start time") {
+		return
+	}
+
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1053,7 +1072,7 @@ func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
-	if data == nil {
+	if !ds.hasLength(data, 1, "update signal index cache") {
 		return
 	}
 
@@ -1105,7 +1124,7 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
-	if data == nil {
+	if !ds.hasLength(data, 20, "update base times") {
 		return
 	}
 
@@ -1135,43 +1154,31 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	keyIVs[oddKey] = make([][]byte, 2)
 
 	// Move past active cipher index (not currently used anywhere else)
-	var index uint32 = 1
-
-	// Read even key size
-	bufferLen := binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even key
-	keyIVs[evenKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read even initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+	if !ds.hasLength(data, 1, "update cipher keys") {
+		return
+	}
 
-	// Read even initialization vector
-	keyIVs[evenKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][ivIndex], data[index:])
-	index += bufferLen
+	data = data[1:]
 
-	// Read odd key size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+	// Read even key, even initialization vector, odd key and odd initialization vector
+	for _, cipherIndex := range []int{evenKey, oddKey} {
+		for _, partIndex := range []int{keyIndex, ivIndex} {
+			if !ds.hasLength(data, 4, "update cipher keys") {
+				return
+			}
 
-	// Read odd key
-	keyIVs[oddKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][keyIndex], data[index:])
-	index += bufferLen
+			bufferLen := binary.BigEndian.Uint32(data)
+			data = data[4:]
 
-	// Read odd initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+			if !ds.hasLength(data, int(bufferLen), "update cipher keys") {
+				return
+			}
 
-	// Read odd initialization vector
-	keyIVs[oddKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][ivIndex], data[index:])
-	//index += bufferLen
+			keyIVs[cipherIndex][partIndex] = make([]byte, bufferLen)
+			copy(keyIVs[cipherIndex][partIndex], data)
+			data = data[bufferLen:]
+		}
+	}
 
 	// Exchange keys
 	ds.keyIVs = keyIVs
@@ -1192,6 +1199,10 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if !ds.hasLength(data, 1, "data packet") {
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1223,6 +1234,10 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if !ds.hasLength(data, 4, "data packet") {
+		return
+	}
+
 	count := uint64(binary.BigEndian.Uint32(data))
 	data = data[4:]
 
@@ -1286,6 +1301,10 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		return measurements
 	}
 
+	if !ds.hasLength(data, 3, "TSSC data packet") {
+		return measurements
+	}
+
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1421,6 +1440,16 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	headerLength := 8
+
+	if ds.Version > 1 {
+		headerLength = 9
+	}
+
+	if !ds.hasLength(data, headerLength, "buffer block") {
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	var signalIndexCacheIndex int32
@@ -1497,6 +1526,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if !ds.hasLength(data, 4, "notification") {
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..a138043 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -166,16 +166,16 @@ func (sic *SignalIndexCache) BinaryLength() uint32 {
 
 // decode parses a SignalIndexCache from the specified byte buffer received from a DataPublisher.
 func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscriberID *guid.Guid) error {
-	length := uint32(len(buffer))
+	length := uint64(len(buffer))
 
-	if length < 4 {
+	if length < 24 {
 		return errors.New("not enough buffer provided to parse")
 	}
 
-	var offset uint32 = 0
+	var offset uint64 = 0
 
 	// Byte size of cache
-	binaryLength := binary.BigEndian.Uint32(buffer)
+	binaryLength := uint64(binary.BigEndian.Uint32(buffer))
 	offset += 4
 
 	if length < binaryLength {
@@ -200,7 +200,11 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
-		// Signal index
+		// Signal index, signal ID and source size
+		if length < offset+24 {
+			return errors.New("not enough buffer provided to parse signal index cache record")
+		}
+
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
 
@@ -214,9 +218,13 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		offset += 16
 
 		// Source
-		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
+		sourceSize := uint64(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
 
+		if length < offset+sourceSize+8 {
+			return errors.New("not enough buffer provided to parse signal index cache record")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..3bc2ea3 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -95,7 +95,14 @@ func (td *Decoder) SetBuffer(data []byte) {
 
 // TryGetMeasurement attempts to get the next decoded measurement from the working buffer.
 //gocyclo:ignore
-func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (bool, error) {
+func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (success bool, result error) {
+	defer func() {
+		// Reading past the end of the working buffer means that buffer is incomplete or corrupt
+		if r := recover(); r != nil {
+			success, result = false, fmt.Errorf("not enough buffer available to decode measurement at position %d with last position %d", td.position, td.lastPosition)
+		}
+	}()
+
 	if td.position == td.lastPosition && td.bitStreamIsEmpty() {
 		td.clearBitStream()
 		*id = 0
-- 
2.43.0


From 5cebbe779d05aee1b3471be7d98dec235525fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:03 +0000
Subject: [PATCH 06/55] fix: make connect, disconnect and reconnect sequences
 always complete

- A disconnect requested while a lost connection was being cleaned up was
  ignored, so the subscriber reconnected or kept listening anyway.
- Canceling a retry wait stopped the timer that the wait was blocked on, so
  closing a subscriber between retries never returned.
- A late termination notice of an old connection could end the next one.
- Connection attempts reset the retry counter and the cancel request, and the
  exponential back-off overflowed past the configured maximum.
- A listening socket accepted a publisher while the previous connection was
  still being torn down, and could deadlock with a disconnect.
- The terminated callback ran on every disconnect, connected or not.
- A subscriber could not dial again after it was disconnected.
---
 sttp/Subscriber.go                    |   2 +-
 sttp/transport/DataSubscriber.go      | 197 +++++++++++++++++---------
 sttp/transport/SubscriberConnector.go | 119 ++++++++++------
 3 files changed, 209 insertions(+), 109 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..c4e13bf 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -250,6 +250,7 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
+	ds.ConnectionEstablishedCallback = nil // Only used when listening
 	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
@@ -509,7 +510,6 @@ func (sb *Subscriber) handleReconnect(ds *transport.DataSubscriber) {
 	if ds.IsConnected() {
 		sb.handleConnect()
 	} else {
-		ds.Disconnect()
 		sb.StatusMessage("Connection retry attempts exceeded.")
 	}
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3d17dc4..84ff74e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -71,12 +71,12 @@ type DataSubscriber struct {
 	assigningHandlerMutex sync.RWMutex
 
 	connectActionMutex          sync.Mutex
+	established                 bool // Guarded by connectActionMutex
 	connectionTerminationThread *thread.Thread
 
 	disconnectThread      *thread.Thread
 	disconnectThreadMutex sync.Mutex
 	disconnecting         abool.AtomicBool
-	disconnected          abool.AtomicBool
 	disposing             abool.AtomicBool
 
 	// Statistics counters
@@ -320,11 +320,20 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
+	if err := ds.canConnect(); err != nil {
+		return err
+	}
+
+	// Make sure any pending disconnect has completed to make sure socket is closed
+	ds.waitForDisconnect()
+
 	// User requests to connection are not an auto-reconnect attempt
-	return ds.connect(hostName, port, false)
+	ds.connector.ResetConnection()
+
+	return ds.connect(hostName, port)
 }
 
-func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting bool) error {
+func (ds *DataSubscriber) canConnect() error {
 	if ds.connected.IsSet() {
 		return errors.New("subscriber is already connected; disconnect first")
 	}
@@ -333,7 +342,11 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 		return errors.New("subscriber is listening for connections; direct connections disallowed")
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
+	return nil
+}
+
+// waitForDisconnect blocks until any pending disconnect has completed.
+func (ds *DataSubscriber) waitForDisconnect() {
 	ds.disconnectThreadMutex.Lock()
 	disconnectThread := ds.disconnectThread
 	ds.disconnectThreadMutex.Unlock()
@@ -341,25 +354,36 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	if disconnectThread != nil {
 		disconnectThread.Join()
 	}
+}
 
+func (ds *DataSubscriber) connect(hostName string, port uint16) error {
 	// Let any pending connect or disconnect operation complete before new connect,
 	// this prevents destruction disconnect before connection is completed
 	ds.connectActionMutex.Lock()
 	defer ds.connectActionMutex.Unlock()
 
+	if err := ds.canConnect(); err != nil {
+		return err
+	}
+
+	dialContext, endDial := ds.connector.beginDial()
+	defer endDial()
+
+	// Do not start a connection that a pending disconnect has already canceled
+	if ds.connector.cancel.IsSet() || ds.disposing.IsSet() {
+		return errors.New("connection canceled")
+	}
+
 	var err error
 
 	// Initialize connection state
 	ds.setupConnection()
 
-	if !autoReconnecting {
-		ds.connector.ResetConnection()
-	}
-
 	ds.connector.connectionRefused.UnSet()
 
 	// TODO: Add TLS implementation options
-	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
+	var dialer net.Dialer
+	conn, err := dialer.DialContext(dialContext, "tcp", net.JoinHostPort(hostName, strconv.Itoa(int(port))))
 
 	if err == nil {
 		ds.establishConnection(conn, false)
@@ -369,7 +393,6 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 }
 
 func (ds *DataSubscriber) setupConnection() {
-	ds.disconnected.UnSet()
 	ds.subscribed.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
@@ -405,6 +428,7 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 	ds.commandChannelSocket = connection
 	ds.commandChannelResponseThread = thread.NewThread(ds.runCommandChannelResponseThread)
 
+	ds.established = true
 	ds.connected.Set()
 	ds.lastMissingCacheWarning = 0
 
@@ -432,18 +456,12 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
-
-	if disconnectThread != nil {
-		disconnectThread.Join()
-	}
+	ds.waitForDisconnect()
 
 	var err error
 
 	// TODO: Add TLS implementation options
-	ds.listeningSocket, err = net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	ds.listeningSocket, err = net.Listen("tcp", net.JoinHostPort(networkInterface, strconv.Itoa(int(port))))
 
 	if err != nil {
 		return err
@@ -596,10 +614,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
 func (ds *DataSubscriber) Disconnect() {
-	if ds.disconnecting.IsSet() {
-		return
-	}
-
 	// Disconnect method executes shutdown on a separate thread without stopping to prevent
 	// issues where user may call disconnect method from a dispatched event thread. Also,
 	// user requests to disconnect are not an auto-reconnect attempt and should initiate
@@ -608,23 +622,20 @@ func (ds *DataSubscriber) Disconnect() {
 }
 
 func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
-	// Check if disconnect thread is running or subscriber has already disconnected
-	if ds.disconnecting.IsSet() {
-		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
-		}
+	ds.disconnectThreadMutex.Lock()
 
-		ds.disconnectThreadMutex.Lock()
-		disconnectThread := ds.disconnectThread
+	// Loss of a connection only needs handling when no other disconnect is already taking care of it
+	if autoReconnecting && ds.connected.IsNotSet() {
 		ds.disconnectThreadMutex.Unlock()
-
-		if joinThread && ds.disconnected.IsNotSet() && disconnectThread != nil {
-			disconnectThread.Join()
-		}
-
 		return
 	}
 
+	// User requests to disconnect stop any active connection sequence, including one that
+	// would otherwise be started by a disconnect that is still in progress
+	if !autoReconnecting {
+		ds.connector.requestCancel()
+	}
+
 	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
 	ds.disconnecting.Set()
 	ds.connected.UnSet()
@@ -636,11 +647,18 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 
 	ds.subscribed.UnSet()
 
+	// Disconnect operations execute one at a time, in the order requested
+	priorThread := ds.disconnectThread
+
 	disconnectThread := thread.NewThread(func() {
+		if priorThread != nil {
+			priorThread.Join()
+			priorThread = nil
+		}
+
 		ds.runDisconnectThread(autoReconnecting, includeListener)
 	})
 
-	ds.disconnectThreadMutex.Lock()
 	disconnectThread.Start()
 	ds.disconnectThread = disconnectThread
 	ds.disconnectThreadMutex.Unlock()
@@ -651,20 +669,64 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 }
 
 func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
-	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.disconnecting.Set()
+
 	if !autoReconnecting {
 		ds.connector.Cancel()
-		ds.connectionTerminationThread.Join()
-		ds.connectActionMutex.Lock()
+		ds.connector.waitForConnect()
 	}
 
-	// Release queues and close sockets so that threads can shut down gracefully
-	if includeListener && ds.listeningSocket != nil {
-		if err := ds.listeningSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+	if includeListener {
+		if ds.listeningSocket != nil {
+			if err := ds.listeningSocket.Close(); err != nil {
+				ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+			}
+		}
+
+		if ds.listeningSocketAcceptThread != nil {
+			ds.listeningSocketAcceptThread.Join()
+			ds.listeningSocketAcceptThread = nil
 		}
+
+		ds.listeningSocket = nil
 	}
 
+	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.connectActionMutex.Lock()
+
+	// Pending connect operation may have just completed
+	ds.connected.UnSet()
+	ds.validated.UnSet()
+	ds.subscribed.UnSet()
+
+	if ds.established {
+		ds.established = false
+		ds.terminateConnection()
+	}
+
+	// Disconnect complete
+	ds.disconnecting.UnSet()
+	ds.connectActionMutex.Unlock()
+
+	if autoReconnecting {
+		// Handling auto-connect callback separately from connection terminated callback
+		// since they serve two different use cases and current implementation does not
+		// support multiple callback registrations
+		ds.BeginCallbackSync()
+		autoReconnectCallback := ds.AutoReconnectCallback
+		ds.EndCallbackSync()
+
+		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+			autoReconnectCallback()
+		}
+	} else if ds.disposing.IsNotSet() {
+		// All connection sequences have been stopped, allow new ones
+		ds.connector.ResetConnection()
+	}
+}
+
+func (ds *DataSubscriber) terminateConnection() {
+	// Release queues and close sockets so that threads can shut down gracefully
 	if ds.commandChannelSocket != nil {
 		if err := ds.commandChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
@@ -678,11 +740,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
-	}
-
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
@@ -693,6 +750,11 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		ds.dataChannelResponseThread = nil
 	}
 
+	ds.dataChannelSocket = nil
+
+	// Termination notifications of this connection must not affect the next one
+	ds.connectionTerminationThread.Join()
+
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
 
@@ -701,26 +763,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	ds.EndCallbackSync()
-
-	// Disconnect complete
-	ds.disconnected.Set()
-	ds.disconnecting.UnSet()
-
-	if autoReconnecting {
-		// Handling auto-connect callback separately from connection terminated callback
-		// since they serve two different use cases and current implementation does not
-		// support multiple callback registrations
-		ds.BeginCallbackSync()
-
-		if ds.AutoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			ds.AutoReconnectCallback()
-		}
-
-		ds.EndCallbackSync()
-
-	} else {
-		ds.connectActionMutex.Unlock()
-	}
 }
 
 // Dispatcher for connection terminated. This is called from its own separate thread
@@ -786,6 +828,12 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 			continue
 		}
 
+		// Make sure any pending disconnect of prior connection has completed
+		if !ds.waitForPriorConnection() {
+			conn.Close()
+			return
+		}
+
 		// Let any pending connect or disconnect operation complete before new connect,
 		// this prevents destruction disconnect before connection is completed
 		ds.connectActionMutex.Lock()
@@ -800,6 +848,21 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 	}
 }
 
+// waitForPriorConnection blocks until any pending disconnect of a prior connection has completed.
+// Returns false when subscriber is no longer listening, disconnect is then waiting on accept thread.
+func (ds *DataSubscriber) waitForPriorConnection() bool {
+	ds.disconnectThreadMutex.Lock()
+	disconnectThread := ds.disconnectThread
+	listening := ds.listening.IsSet()
+	ds.disconnectThreadMutex.Unlock()
+
+	if listening && disconnectThread != nil {
+		disconnectThread.Join()
+	}
+
+	return listening
+}
+
 func (ds *DataSubscriber) runCommandChannelResponseThread() {
 	ds.reader = bufio.NewReader(ds.commandChannelSocket)
 
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..c890de2 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -24,6 +24,7 @@
 package transport
 
 import (
+	"context"
 	"fmt"
 	"math"
 	"strconv"
@@ -71,7 +72,9 @@ type SubscriberConnector struct {
 	reconnectThread      *thread.Thread
 	reconnectThreadMutex sync.Mutex
 	waitTimer            *time.Timer
+	cancelDial           context.CancelFunc
 	waitTimerMutex       sync.Mutex
+	connectMutex         sync.Mutex
 
 	assigningHandlerMutex sync.RWMutex
 }
@@ -79,7 +82,7 @@ type SubscriberConnector struct {
 func (ds *DataSubscriber) autoReconnect() {
 	sc := ds.connector
 
-	if sc.cancel.IsSet() || ds.disposing.IsSet() {
+	if !sc.AutoReconnect || sc.cancel.IsSet() || ds.disposing.IsSet() || ds.listening.IsSet() {
 		return
 	}
 
@@ -95,7 +98,7 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
@@ -140,14 +143,20 @@ func (sc *SubscriberConnector) waitForRetry() {
 		exponent = float64(sc.connectAttempt)
 	}
 
-	var retryInterval int32
+	retryInterval := int64(sc.RetryInterval)
 
 	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
+		retryInterval *= int64(math.Pow(2, exponent))
 	}
 
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
+	maxRetryInterval := int64(sc.MaxRetryInterval)
+
+	if maxRetryInterval <= 0 {
+		maxRetryInterval = int64(sc.RetryInterval)
+	}
+
+	if retryInterval > maxRetryInterval {
+		retryInterval = maxRetryInterval
 	}
 
 	// Notify the user that we are attempting to reconnect.
@@ -166,28 +175,59 @@ func (sc *SubscriberConnector) waitForRetry() {
 	message.WriteString(strconv.Itoa(int(sc.Port)))
 	message.WriteString("\" was terminated. ")
 
-	if retryInterval > 0 {
+	if sc.connectAttempt > 0 && retryInterval > 0 {
 		message.WriteString("Attempting to reconnect in ")
 		message.WriteString(fmt.Sprintf("%.2f", float64(retryInterval)/1000.0))
 		message.WriteString(" seconds...")
 	} else {
-		retryInterval = sc.RetryInterval
 		message.WriteString("Attempting to reconnect...")
 	}
 
 	sc.dispatchErrorMessage(message.String())
 
 	waitTimer := time.NewTimer(time.Duration(retryInterval) * time.Millisecond)
+	defer waitTimer.Stop()
 
 	sc.waitTimerMutex.Lock()
 	sc.waitTimer = waitTimer
 	sc.waitTimerMutex.Unlock()
 
+	// Cancel will not have expired a timer that was not yet assigned
+	if sc.cancel.IsSet() {
+		return
+	}
+
 	<-waitTimer.C
 }
 
+// beginDial starts a connection attempt that will be abandoned when connector is canceled.
+func (sc *SubscriberConnector) beginDial() (context.Context, func()) {
+	dialContext, cancelDial := context.WithCancel(context.Background())
+
+	sc.waitTimerMutex.Lock()
+	sc.cancelDial = cancelDial
+	sc.waitTimerMutex.Unlock()
+
+	return dialContext, func() {
+		sc.waitTimerMutex.Lock()
+		sc.cancelDial = nil
+		sc.waitTimerMutex.Unlock()
+
+		cancelDial()
+	}
+}
+
+// waitForConnect blocks until any active connection sequence has completed.
+func (sc *SubscriberConnector) waitForConnect() {
+	sc.connectMutex.Lock()
+	defer sc.connectMutex.Unlock()
+}
+
 // Connect initiates a connection sequence for a DataSubscriber
 func (sc *SubscriberConnector) Connect(ds *DataSubscriber) ConnectStatusEnum {
+	// Make sure any pending disconnect has completed, it cancels connection sequences
+	ds.waitForDisconnect()
+
 	if sc.cancel.IsSet() {
 		return ConnectStatus.Canceled
 	}
@@ -202,56 +242,37 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
+	// Only one connection sequence can be active at a time
+	sc.connectMutex.Lock()
+	defer sc.connectMutex.Unlock()
 
-	for ds.disposing.IsNotSet() {
+	if !autoReconnecting {
+		sc.connectAttempt = 0
+	}
+
+	for ds.disposing.IsNotSet() && sc.cancel.IsNotSet() {
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
-			break
+			return ConnectStatus.Failed
 		}
 
 		sc.connectAttempt++
 
-		if ds.disposing.IsSet() {
-			return ConnectStatus.Canceled
-		}
-
-		if ds.connect(sc.Hostname, sc.Port, autoReconnecting) == nil {
-			break
+		if ds.connect(sc.Hostname, sc.Port) == nil {
+			return ConnectStatus.Success
 		}
 
-		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
+		if ds.disposing.IsNotSet() && sc.cancel.IsNotSet() && sc.RetryInterval > 0 {
 			sc.waitForRetry()
-
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
 		}
 	}
 
-	if ds.disposing.IsSet() {
-		return ConnectStatus.Canceled
-	}
-
-	if ds.IsConnected() {
-		return ConnectStatus.Success
-	}
-
-	return ConnectStatus.Failed
+	return ConnectStatus.Canceled
 }
 
 // Cancel stops all current and future connection sequences.
 func (sc *SubscriberConnector) Cancel() {
-	sc.cancel.Set()
-
-	sc.waitTimerMutex.Lock()
-	waitTimer := sc.waitTimer
-	sc.waitTimerMutex.Unlock()
-
-	if waitTimer != nil {
-		waitTimer.Stop()
-	}
+	sc.requestCancel()
 
 	sc.reconnectThreadMutex.Lock()
 	reconnectThread := sc.reconnectThread
@@ -262,6 +283,22 @@ func (sc *SubscriberConnector) Cancel() {
 	}
 }
 
+// requestCancel causes active connection sequence to end, without waiting for its completion.
+func (sc *SubscriberConnector) requestCancel() {
+	sc.cancel.Set()
+
+	sc.waitTimerMutex.Lock()
+	defer sc.waitTimerMutex.Unlock()
+
+	if sc.waitTimer != nil {
+		sc.waitTimer.Reset(0)
+	}
+
+	if sc.cancelDial != nil {
+		sc.cancelDial()
+	}
+}
+
 // ResetConnection resets SubscriberConnector for a new connection.
 func (sc *SubscriberConnector) ResetConnection() {
 	sc.connectAttempt = 0
-- 
2.43.0


From 1df10c692baf69fc2e465ed9709194f2485aac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:51 +0000
Subject: [PATCH 07/55] fix: validate every connection and subscribe before
 validation completes

The first connection was assumed to be validated, so a peer that does not speak
the protocol was not rejected. Later connections were not, so subscribing right
after a reconnect was refused. Unsubscribing also flagged the subscriber as
disconnecting for a moment, which dropped a packet body from the command
channel and lost a disconnect requested at that time.
---
 sttp/transport/DataSubscriber.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 84ff74e..f4df0d4 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -193,8 +193,6 @@ func NewDataSubscriber() *DataSubscriber {
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
 	}
 
-	ds.validated.Set()
-
 	ds.connectionTerminationThread = thread.NewThread(func() {
 		ds.disconnect(false, true, false)
 	})
@@ -393,6 +391,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16) error {
 }
 
 func (ds *DataSubscriber) setupConnection() {
+	ds.validated.UnSet()
 	ds.subscribed.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
@@ -480,10 +479,6 @@ func (ds *DataSubscriber) Subscribe() error {
 		return errors.New("subscriber is not connected; cannot subscribe")
 	}
 
-	if ds.Version >= 2 && ds.validated.IsNotSet() {
-		return errors.New("subscriber is not validated; cannot subscribe")
-	}
-
 	// Make sure to unsubscribe before attempting another
 	// subscription so we don't leave UDP sockets open
 	if ds.subscribed.IsSet() {
@@ -591,14 +586,12 @@ func (ds *DataSubscriber) Subscribe() error {
 
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
 func (ds *DataSubscriber) Unsubscribe() {
-	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
+	if ds.connected.IsNotSet() {
 		return
 	}
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
 
-	ds.disconnecting.Set()
-
 	if ds.dataChannelSocket != nil {
 		if err := ds.dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
@@ -608,8 +601,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 	if ds.dataChannelResponseThread != nil {
 		ds.dataChannelResponseThread.Join()
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
-- 
2.43.0


From d47637953a6e1ef8024785837361a85d7f8528d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:52 +0000
Subject: [PATCH 08/55] fix: separate name and value of the NaN filter
 subscription setting

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index f4df0d4..1e61b38 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -507,7 +507,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From cb1f86b3015febdc6b7a3c2ef0c213df32d3aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:53 +0000
Subject: [PATCH 09/55] fix: return the registered record from concurrent
 metadata lookups

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 1e61b38..297e52e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -292,7 +292,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
-- 
2.43.0


From a853848d89ae137f4fe1f0edbd457f61b001abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:26 +0000
Subject: [PATCH 10/55] fix: do not decode data of a new connection with the
 state of the previous one

---
 sttp/transport/DataSubscriber.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 297e52e..e3b57fb 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -398,6 +398,13 @@ func (ds *DataSubscriber) setupConnection() {
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
+	ds.signalIndexCacheMutex.Lock()
+	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
+	ds.cacheIndex = 0
+	ds.signalIndexCacheMutex.Unlock()
+
+	ds.timeIndex = 0
+	ds.baseTimeOffsets = [2]int64{}
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-- 
2.43.0


From f42fb5d68995daad74d0f3513edd6b3305e76502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:39 +0000
Subject: [PATCH 11/55] fix: close a measurement reader without crashing or
 blocking

Closing a reader while measurements were arriving panicked the receiving thread
with a send on a closed channel, closing it twice panicked the caller, and a
reader that nobody read from kept the subscriber from ever closing.
---
 sttp/MeasurementReader.go | 25 +++++++++++++++++++------
 sttp/Subscriber.go        | 26 ++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..4f56280 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,23 +25,31 @@ package sttp
 
 import (
 	"context"
+	"sync"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
 
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current chan *transport.Measurement
+	current   chan *transport.Measurement
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		closed:  make(chan struct{}),
 	}
 
-	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
+	parent.setNewMeasurementsReceiver(reader, func(measurements *[]transport.Measurement) {
 		for _, m := range *measurements {
-			reader.current <- &m
+			select {
+			case reader.current <- &m:
+			case <-reader.closed:
+				return
+			}
 		}
 	})
 
@@ -50,7 +58,8 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done or
+// reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -59,12 +68,16 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.closed:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader, measurements received thereafter are discarded.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.closeOnce.Do(func() {
+		close(mr.closed)
+	})
 }
diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index c4e13bf..7eeaf8e 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -64,6 +64,10 @@ type Subscriber struct {
 	historicalReadCompleteReceiver func()
 	connectionEstablishedReceiver  func()
 
+	// Active measurement reader
+	reader      *MeasurementReader
+	readerMutex sync.Mutex
+
 	// Lock used to synchronize console writes
 	consoleLock sync.Mutex
 
@@ -86,6 +90,9 @@ func NewSubscriber() *Subscriber {
 // Close cleanly shuts down a Subscriber that is no longer being used, e.g.,
 // during a normal application exit.
 func (sb *Subscriber) Close() {
+	// Measurements no longer being read must not block shut down
+	sb.setReader(nil)
+
 	if sb.ds != nil {
 		sb.ds.Dispose()
 	}
@@ -441,6 +448,18 @@ func (sb *Subscriber) ReadMeasurements() *MeasurementReader {
 	return newMeasurementReader(sb)
 }
 
+// setReader assigns the active MeasurementReader, closing any prior one.
+func (sb *Subscriber) setReader(reader *MeasurementReader) {
+	sb.readerMutex.Lock()
+	defer sb.readerMutex.Unlock()
+
+	if sb.reader != nil {
+		sb.reader.Close()
+	}
+
+	sb.reader = reader
+}
+
 // beginCallbackAssignment informs Subscriber that a callback change has been initiated.
 func (sb *Subscriber) beginCallbackAssignment() {
 	sb.assigningHandlerMutex.Lock()
@@ -782,6 +801,13 @@ func (sb *Subscriber) SetConfigurationChangedReceiver(callback func()) {
 // SetNewMeasurementsReceiver defines the callback that handles reception of new measurements.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetNewMeasurementsReceiver(callback func(measurements *[]transport.Measurement)) {
+	sb.setNewMeasurementsReceiver(nil, callback)
+}
+
+func (sb *Subscriber) setNewMeasurementsReceiver(reader *MeasurementReader, callback func(measurements *[]transport.Measurement)) {
+	// Any prior reader no longer receives measurements
+	sb.setReader(reader)
+
 	ds := sb.dataSubscriber()
 	ds.BeginCallbackAssignment()
 	defer ds.EndCallbackAssignment()
-- 
2.43.0


From 3b08491dbf7599d0519c1dcc6fbf436711c06ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:24 +0000
Subject: [PATCH 12/55] fix: close the data channel of a prior subscription
 that was not confirmed

---
 sttp/transport/DataSubscriber.go | 91 +++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e3b57fb..045c8c4 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -66,6 +66,7 @@ type DataSubscriber struct {
 	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
+	dataChannelMutex             sync.Mutex
 	connectionID                 string
 
 	assigningHandlerMutex sync.RWMutex
@@ -492,6 +493,9 @@ func (ds *DataSubscriber) Subscribe() error {
 		ds.Unsubscribe()
 	}
 
+	// Data channel of a prior subscription may be open even when it has not been confirmed yet
+	ds.closeDataChannel()
+
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
 	var parameterBuilder strings.Builder
@@ -532,21 +536,11 @@ func (ds *DataSubscriber) Subscribe() error {
 
 	if ds.subscription.UdpDataChannel {
 		udpPort := strconv.Itoa(int(ds.subscription.DataChannelLocalPort))
-		udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
-
-		if err != nil {
-			return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
-		}
-
-		ds.dataChannelSocket, err = net.ListenUDP("udp", udpAddr)
 
-		if err != nil {
-			return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
+		if err := ds.openDataChannel(udpPort); err != nil {
+			return err
 		}
 
-		ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
-		ds.dataChannelResponseThread.Start()
-
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
 		parameterBuilder.WriteString("}")
@@ -598,16 +592,60 @@ func (ds *DataSubscriber) Unsubscribe() {
 	}
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
+	ds.closeDataChannel()
+}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
+// openDataChannel opens the UDP data channel for the specified port.
+func (ds *DataSubscriber) openDataChannel(udpPort string) error {
+	udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
+
+	if err != nil {
+		return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
+	}
+
+	ds.dataChannelMutex.Lock()
+	defer ds.dataChannelMutex.Unlock()
+
+	ds.releaseDataChannel()
+
+	// Any disconnect after this check will close the data channel
+	if ds.connected.IsNotSet() {
+		return errors.New("subscriber is not connected; cannot subscribe")
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
+	socket, err := net.ListenUDP("udp", udpAddr)
+
+	if err != nil {
+		return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
 	}
+
+	ds.dataChannelSocket = socket
+	ds.dataChannelResponseThread = thread.NewThread(func() { ds.runDataChannelResponseThread(socket) })
+	ds.dataChannelResponseThread.Start()
+
+	return nil
+}
+
+// closeDataChannel closes any UDP data channel and waits for completion of its response thread.
+func (ds *DataSubscriber) closeDataChannel() {
+	ds.dataChannelMutex.Lock()
+	defer ds.dataChannelMutex.Unlock()
+
+	ds.releaseDataChannel()
+}
+
+func (ds *DataSubscriber) releaseDataChannel() {
+	if ds.dataChannelSocket == nil {
+		return
+	}
+
+	if err := ds.dataChannelSocket.Close(); err != nil {
+		ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
+	}
+
+	ds.dataChannelResponseThread.Join()
+	ds.dataChannelResponseThread = nil
+	ds.dataChannelSocket = nil
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
@@ -731,11 +769,7 @@ func (ds *DataSubscriber) terminateConnection() {
 		}
 	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
-		}
-	}
+	ds.closeDataChannel()
 
 	// Join with all threads to guarantee their completion before returning control to the caller
 	if ds.commandChannelResponseThread != nil {
@@ -743,13 +777,6 @@ func (ds *DataSubscriber) terminateConnection() {
 		ds.commandChannelResponseThread = nil
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
-		ds.dataChannelResponseThread = nil
-	}
-
-	ds.dataChannelSocket = nil
-
 	// Termination notifications of this connection must not affect the next one
 	ds.connectionTerminationThread.Join()
 
@@ -939,8 +966,8 @@ func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
 
 // If the user defines a separate UDP channel for their
 // subscription, data packets get handled from this thread.
-func (ds *DataSubscriber) runDataChannelResponseThread() {
-	reader := bufio.NewReader(ds.dataChannelSocket)
+func (ds *DataSubscriber) runDataChannelResponseThread(socket net.Conn) {
+	reader := bufio.NewReader(socket)
 	buffer := make([]byte, maxPacketSize)
 
 	for ds.connected.IsSet() {
-- 
2.43.0


From 12c7e2cc0409ec079b49a9e4d69e1f4f2b63f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:30 +0000
Subject: [PATCH 13/55] fix: apply newly assigned loggers and receivers to an
 active session

Loggers assigned while connected were ignored until the next connect, and a
receiver that logs could block when another one was assigned at the same time.
---
 sttp/Subscriber.go | 73 +++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 7eeaf8e..05465d4 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -251,9 +251,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -338,8 +338,8 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
@@ -485,36 +485,36 @@ func (sb *Subscriber) endCallbackAssignment() {
 // StatusMessage executes the defined status message logger callback.
 func (sb *Subscriber) StatusMessage(message string) {
 	sb.beginCallbackSync()
+	statusMessageLogger := sb.statusMessageLogger
+	sb.endCallbackSync()
 
-	if sb.statusMessageLogger != nil {
-		sb.statusMessageLogger(message)
+	if statusMessageLogger != nil {
+		statusMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // ErrorMessage executes the defined error message logger callback.
 func (sb *Subscriber) ErrorMessage(message string) {
 	sb.beginCallbackSync()
+	errorMessageLogger := sb.errorMessageLogger
+	sb.endCallbackSync()
 
-	if sb.errorMessageLogger != nil {
-		sb.errorMessageLogger(message)
+	if errorMessageLogger != nil {
+		errorMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
 	sb.beginCallbackSync()
+	connectionEstablishedReceiver := sb.connectionEstablishedReceiver
+	sb.endCallbackSync()
 
-	if sb.connectionEstablishedReceiver != nil {
-		sb.connectionEstablishedReceiver()
+	if connectionEstablishedReceiver != nil {
+		connectionEstablishedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
@@ -547,13 +547,13 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	sb.showMetadataSummary(dataSet, parseStarted)
 
 	sb.beginCallbackSync()
+	metadataReceiver := sb.metadataReceiver
+	sb.endCallbackSync()
 
-	if sb.metadataReceiver != nil {
-		sb.metadataReceiver(dataSet)
+	if metadataReceiver != nil {
+		metadataReceiver(dataSet)
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
@@ -672,23 +672,23 @@ func (sb *Subscriber) showMetadataSummary(dataSet *data.DataSet, parseStarted ti
 
 func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	sb.beginCallbackSync()
+	dataStartTimeReceiver := sb.dataStartTimeReceiver
+	sb.endCallbackSync()
 
-	if sb.dataStartTimeReceiver != nil {
-		sb.dataStartTimeReceiver(startTime.ToTime())
+	if dataStartTimeReceiver != nil {
+		dataStartTimeReceiver(startTime.ToTime())
 	}
-
-	sb.endCallbackSync()
 }
 
 func (sb *Subscriber) handleConfigurationChanged() {
 	sb.beginCallbackSync()
+	configurationChangedReceiver := sb.configurationChangedReceiver
+	sb.endCallbackSync()
 
-	if sb.configurationChangedReceiver != nil {
-		sb.configurationChangedReceiver()
+	if configurationChangedReceiver != nil {
+		configurationChangedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
@@ -698,12 +698,12 @@ func (sb *Subscriber) handleProcessingComplete(message string) {
 	sb.StatusMessage(message)
 
 	sb.beginCallbackSync()
+	historicalReadCompleteReceiver := sb.historicalReadCompleteReceiver
+	sb.endCallbackSync()
 
-	if sb.historicalReadCompleteReceiver != nil {
-		sb.historicalReadCompleteReceiver()
+	if historicalReadCompleteReceiver != nil {
+		historicalReadCompleteReceiver()
 	}
-
-	sb.endCallbackSync()
 }
 
 // DefaultStatusMessageLogger implements the default handler for the statusMessage callback.
@@ -773,10 +773,11 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
-- 
2.43.0


From a371d0120f236300343eb7ae3263d54daa2bb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:26 +0000
Subject: [PATCH 14/55] fix: keep uncompressed metadata intact while it is
 being processed

The metadata receiver runs in the background and was given a slice of the
read buffer, which the next packet overwrites.
---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 045c8c4..8877659 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1127,6 +1127,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+
+			// Metadata is copied since read buffer is reused for next packet
+			data = append([]byte(nil), data...)
 		}
 
 		go metadataReceivedCallback(data)
-- 
2.43.0


From d697b3d28e73bf0962583907a8d2d328b89c1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:00 +0000
Subject: [PATCH 15/55] fix: convert ticks before 1970 and after 2262 to and
 from time

---
 sttp/ticks/Ticks.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..b510303 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,7 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ticks.ToTime()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +96,7 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	return Ticks(time.Unix()*int64(PerSecond)+int64(time.Nanosecond()/100)) + UnixBaseOffset
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +141,11 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	// Range of Unix nanoseconds is smaller than range of Ticks, so seconds are converted separately
+	timestamp := t.TimestampValue()
+	seconds := timestamp/int64(PerSecond) - int64(UnixBaseOffset/PerSecond)
+
+	return time.Unix(seconds, timestamp%int64(PerSecond)*100).UTC()
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From a49a5152367a37f7e06e00abfedd764b761e5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:57 +0000
Subject: [PATCH 16/55] fix: allow callbacks to be assigned from within
 callbacks

A callback that executed while holding the assignment lock blocked forever
when it, or a function it waited on, assigned another callback.
---
 sttp/transport/DataSubscriber.go | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 8877659..708a25f 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -444,12 +444,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
+	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionEstablishedCallback != nil {
-		ds.ConnectionEstablishedCallback()
+	if connectionEstablishedCallback != nil {
+		connectionEstablishedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -782,12 +782,12 @@ func (ds *DataSubscriber) terminateConnection() {
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
+	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionTerminatedCallback != nil {
-		ds.ConnectionTerminatedCallback()
+	if connectionTerminatedCallback != nil {
+		connectionTerminatedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Dispatcher for connection terminated. This is called from its own separate thread
@@ -1142,14 +1142,14 @@ func (ds *DataSubscriber) handleDataStartTime(data []byte) {
 	}
 
 	ds.BeginCallbackSync()
+	dataStartTimeCallback := ds.DataStartTimeCallback
+	ds.EndCallbackSync()
 
-	if ds.DataStartTimeCallback != nil {
+	if dataStartTimeCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.DataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
+		dataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
@@ -1374,15 +1374,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	received := uint64(len(*measurements))
 
 	ds.BeginCallbackSync()
+	newMeasurementsCallback := ds.NewMeasurementsCallback
+	ds.EndCallbackSync()
 
-	if ds.NewMeasurementsCallback != nil {
+	if newMeasurementsCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewMeasurementsCallback(measurements)
+		newMeasurementsCallback(measurements)
 	}
 
-	ds.EndCallbackSync()
-
 	atomic.AddUint64(&ds.totalMeasurementsReceived, received)
 }
 
@@ -1606,14 +1606,14 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 	// Publish buffer block measurements
 	ds.BeginCallbackSync()
+	newBufferBlocksCallback := ds.NewBufferBlocksCallback
+	ds.EndCallbackSync()
 
-	if ds.NewBufferBlocksCallback != nil {
+	if newBufferBlocksCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+		newBufferBlocksCallback(bufferBlockMeasurements)
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
-- 
2.43.0


From d3b59edd0f062c4f18e650e061cfdfd41ec04200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:17 +0000
Subject: [PATCH 17/55] fix: select exactly the XML nodes a path query denotes

Separators and equal signs in quoted values, empty values, empty and repeated
predicates were misread, text was compared without decoding entities, the
namespace prefix depended on map order and documents could not be reloaded.
---
 sttp/xml/XmlDocument.go |   4 +
 sttp/xml/XmlNode.go     | 191 +++++++++++++++++++++++++++++-----------
 2 files changed, 142 insertions(+), 53 deletions(-)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index 8a0c7f8..3d05273 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -96,6 +96,10 @@ func (xd *XmlDocument) LoadXml(data []byte) error {
 	buffer := bytes.NewBuffer(data)
 	decoder := xml.NewDecoder(buffer)
 
+	// Make sure nothing remains from any previously loaded document
+	xd.Root = XmlNode{}
+	xd.maxLevel = 0
+
 	err := decoder.Decode(&xd.Root)
 
 	if err != nil {
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..1fb2146 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// Text is the text content of this node, excluding text of any child nodes, with entities decoded.
+	Text string `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
@@ -88,11 +90,33 @@ func (xn *XmlNode) Value() string {
 
 // Prefix looks up namespace prefix for this node.
 func (xn *XmlNode) Prefix() string {
-	namespace := xn.Namespace
+	for node := xn; node != nil; node = node.Parent {
+		if node.Attributes["xmlns"] == xn.Namespace {
+			return ""
+		}
+
+		var prefix string
+
+		for name, value := range node.Attributes {
+			if value == xn.Namespace && node.AttributeNamespaces[name] == "xmlns" && (len(prefix) == 0 || name < prefix) {
+				prefix = name
+			}
+		}
+
+		if len(prefix) > 0 {
+			return prefix
+		}
+	}
+
+	return ""
+}
 
-	for name, value := range xn.Attributes {
-		if value == namespace {
-			return name
+// PrefixNamespace looks up namespace URI that is bound to the specified prefix for this node.
+// Returns empty string when prefix is not defined.
+func (xn *XmlNode) PrefixNamespace(prefix string) string {
+	for node := xn; node != nil; node = node.Parent {
+		if value, found := node.Attributes[prefix]; found && node.AttributeNamespaces[prefix] == "xmlns" {
+			return value
 		}
 	}
 
@@ -153,32 +177,19 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 	// This is a simple XPath implementation, this can be expanded
 	// as needed, perhaps using github.com/antchfx/xpath
 	nodes := xn.GetChildNodes()
-	exprs := strings.Split(xpath, "/")
+	exprs := splitPath(xpath)
 	var results []*XmlNode
 
 	for i := 0; i < len(exprs); i++ {
-		expr := exprs[i]
 		results = make([]*XmlNode, 0)
+		name, predicates, ok := parseStep(exprs[i])
+
+		if !ok {
+			break
+		}
 
 		for _, node := range nodes {
-			// Look for predicate expression
-			lbp := strings.IndexRune(expr, '[')
-			rbp := strings.IndexRune(expr, ']')
-
-			if lbp > -1 && rbp > -1 && rbp > lbp && len(expr) > 2 {
-				name := expr[:lbp]
-				predicate := expr[lbp+1 : rbp]
-
-				if predicate[0] == '@' {
-					if isMatch(node.Name, name) && node.attributeMatch(predicate[1:]) {
-						results = append(results, node)
-					}
-				} else {
-					if isMatch(node.Name, name) && node.childValueMatch(predicate) {
-						results = append(results, node)
-					}
-				}
-			} else if isMatch(node.Name, expr) {
+			if isMatch(node.Name, name) && node.predicatesMatch(predicates) {
 				results = append(results, node)
 			}
 		}
@@ -200,40 +211,107 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 	return results
 }
 
+// splitPath splits xpath expression into its steps, ignoring separators in quotes and predicates.
+func splitPath(xpath string) []string {
+	var steps []string
+	var quoted, predicate bool
+	start := 0
+
+	for i := 0; i < len(xpath); i++ {
+		switch {
+		case xpath[i] == '\'' && predicate:
+			quoted = !quoted
+		case quoted:
+		case xpath[i] == '[':
+			predicate = true
+		case xpath[i] == ']':
+			predicate = false
+		case xpath[i] == '/' && !predicate:
+			steps = append(steps, xpath[start:i])
+			start = i + 1
+		}
+	}
+
+	return append(steps, xpath[start:])
+}
+
+// parseStep parses a single xpath step into its name and predicate expressions.
+// Return tuple includes boolean value that determines if step was well formed.
+func parseStep(step string) (string, []string, bool) {
+	var predicates []string
+	var quoted bool
+	name := step
+	start := -1
+
+	for i := 0; i < len(step); i++ {
+		switch {
+		case start < 0:
+			if step[i] == '[' {
+				if len(predicates) == 0 {
+					name = step[:i]
+				}
+
+				start = i + 1
+			} else if step[i] == ']' || len(predicates) > 0 {
+				return "", nil, false
+			}
+		case step[i] == '\'':
+			quoted = !quoted
+		case step[i] == ']' && !quoted:
+			predicate := strings.TrimSpace(step[start:i])
+
+			if len(predicate) == 0 {
+				return "", nil, false
+			}
+
+			predicates = append(predicates, predicate)
+			start = -1
+		}
+	}
+
+	return name, predicates, start < 0
+}
+
 func isMatch(value, name string) bool {
 	return value == name || name == "*"
 }
 
-func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
-
-	for i := 0; i < len(parts); i++ {
-		parts[i] = strings.TrimSpace(parts[i])
+func (xn *XmlNode) predicatesMatch(predicates []string) bool {
+	for _, predicate := range predicates {
+		if predicate[0] == '@' {
+			if !xn.attributeMatch(predicate[1:]) {
+				return false
+			}
+		} else if !xn.childValueMatch(predicate) {
+			return false
+		}
 	}
 
-	if parts[0] == "*" {
-		if len(parts) == 1 {
-			return true
+	return true
+}
+
+func (xn *XmlNode) attributeMatch(expr string) bool {
+	name, value, hasValue := parsePredicate(expr)
+
+	if name == "*" {
+		if !hasValue {
+			return len(xn.Attributes) > 0
 		}
 
 		// Check if any attribute value matches
-		for _, value := range xn.Attributes {
-			if value == removeQuotes(parts[1]) {
+		for _, attribute := range xn.Attributes {
+			if attribute == value {
 				return true
 			}
 		}
-	} else {
-		// Check if named attribute value matches
-		if value, found := xn.Attributes[parts[0]]; found {
-			if len(parts) == 2 {
-				return value == removeQuotes(parts[1])
-			}
 
-			return true
-		}
+		return false
 	}
 
-	return false
+	// Check if named attribute value matches
+	attribute, found := xn.Attributes[name]
+
+	return found && (!hasValue || attribute == value)
 }
 
 func (xn *XmlNode) childValueMatch(expr string) bool {
@@ -247,25 +325,32 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	name, value, hasValue := parsePredicate(expr)
 
-	for i := 0; i < len(parts); i++ {
-		parts[i] = strings.TrimSpace(parts[i])
+	if !isMatch(xn.Name, name) {
+		return false
 	}
 
-	if parts[0] == xn.Name || parts[0] == "*" {
-		if len(parts) == 2 {
-			return xn.Value() == removeQuotes(parts[1])
-		}
-
+	if !hasValue {
 		return true
 	}
 
-	return false
+	if xn.HasChildNodes() {
+		return xn.Value() == value
+	}
+
+	return xn.Text == value
+}
+
+// parsePredicate parses a predicate expression into its name and value, if any.
+func parsePredicate(expr string) (string, string, bool) {
+	name, value, hasValue := strings.Cut(expr, "=")
+
+	return strings.TrimSpace(name), removeQuotes(strings.TrimSpace(value)), hasValue
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) >= 2 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 3fef47969d5c68b5b873c5a17dac006c218f5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:28 +0000
Subject: [PATCH 18/55] fix: load XML data set values as their schema types
 define

Text was loaded without decoding entities, date/times in UTC or without time
zone, booleans given as digits and padded numbers were lost or misread, and
columns were skipped when the schema prefix was declared on the root element.
---
 sttp/data/DataSet.go | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..e90c917 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -194,12 +194,6 @@ func (ds *DataSet) ParseXmlDocument(doc *xml.XmlDocument) error {
 
 //gocyclo:ignore
 func (ds *DataSet) loadSchema(schema *xml.XmlNode) {
-	schemaPrefix := schema.Prefix()
-
-	if len(schemaPrefix) > 0 {
-		schemaPrefix += ":"
-	}
-
 	// Find choice elements representing schema table definitions
 	tableNodes := schema.SelectNodes("element/complexType/choice/element")
 
@@ -230,7 +224,10 @@ func (ds *DataSet) loadSchema(schema *xml.XmlNode) {
 				continue
 			}
 
-			typeName = strings.TrimPrefix(typeName, schemaPrefix)
+			// Remove any prefix that is bound to schema namespace
+			if prefix, localName, found := strings.Cut(typeName, ":"); found && fieldNode.PrefixNamespace(prefix) == XmlSchemaNamespace {
+				typeName = localName
+			}
 
 			// Check for extended data type (allows XSD Guid field definitions)
 			extDataType, found := fieldNode.Attributes["DataType"]
@@ -287,16 +284,19 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				columnIndex := column.Index()
-				value := field.Value()
+				value := field.Text
+
+				if column.Type() != DataType.String {
+					value = strings.TrimSpace(value)
+				}
 
 				switch column.Type() {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
 				case DataType.Boolean:
-					dataRow.SetValue(columnIndex, value == "true")
+					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
-					dataRow.SetValue(columnIndex, dt)
+					dataRow.SetValue(columnIndex, parseXsdDateTime(value))
 				case DataType.Single:
 					f32, _ := strconv.ParseFloat(value, 32)
 					dataRow.SetValue(columnIndex, float32(f32))
@@ -310,28 +310,28 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					g, _ := guid.Parse(value)
 					dataRow.SetValue(columnIndex, g)
 				case DataType.Int8:
-					i8, _ := strconv.ParseInt(value, 0, 8)
+					i8, _ := strconv.ParseInt(value, 10, 8)
 					dataRow.SetValue(columnIndex, int8(i8))
 				case DataType.Int16:
-					i16, _ := strconv.ParseInt(value, 0, 16)
+					i16, _ := strconv.ParseInt(value, 10, 16)
 					dataRow.SetValue(columnIndex, int16(i16))
 				case DataType.Int32:
-					i32, _ := strconv.ParseInt(value, 0, 32)
+					i32, _ := strconv.ParseInt(value, 10, 32)
 					dataRow.SetValue(columnIndex, int32(i32))
 				case DataType.Int64:
-					i64, _ := strconv.ParseInt(value, 0, 64)
+					i64, _ := strconv.ParseInt(value, 10, 64)
 					dataRow.SetValue(columnIndex, i64)
 				case DataType.UInt8:
-					ui8, _ := strconv.ParseUint(value, 0, 8)
+					ui8, _ := strconv.ParseUint(value, 10, 8)
 					dataRow.SetValue(columnIndex, uint8(ui8))
 				case DataType.UInt16:
-					ui16, _ := strconv.ParseUint(value, 0, 16)
+					ui16, _ := strconv.ParseUint(value, 10, 16)
 					dataRow.SetValue(columnIndex, uint16(ui16))
 				case DataType.UInt32:
-					ui32, _ := strconv.ParseUint(value, 0, 32)
+					ui32, _ := strconv.ParseUint(value, 10, 32)
 					dataRow.SetValue(columnIndex, uint32(ui32))
 				case DataType.UInt64:
-					ui64, _ := strconv.ParseUint(value, 0, 64)
+					ui64, _ := strconv.ParseUint(value, 10, 64)
 					dataRow.SetValue(columnIndex, ui64)
 				}
 			}
@@ -341,6 +341,23 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 	}
 }
 
+// parseXsdDateTime parses an XSD date/time value, where time zone is optional and may be specified as UTC.
+func parseXsdDateTime(value string) time.Time {
+	dt, err := time.Parse(DateTimeFormat, value)
+
+	if err == nil {
+		return dt
+	}
+
+	for _, zone := range []string{"Z", ""} {
+		if dt, err = time.Parse(strings.TrimSuffix(DateTimeFormat, "-07:00")+zone, value); err == nil {
+			return dt
+		}
+	}
+
+	return time.Time{}
+}
+
 // // WriteXML saves the DataSet information as XML into the specified buffer.
 // func (ds *DataSet) WriteXml(data *[]byte, dataSetName string) {
 // // TODO: Will be needed by DataPublisher
-- 
2.43.0


From ecd10ff40b060ba008e95e6df311b81bbdeaf6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:33 +0000
Subject: [PATCH 19/55] fix: allow metadata lookups while a connection is being
 set up

---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 708a25f..7009c3c 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -409,7 +409,12 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-	ds.measurementRegistry = sync.Map{}
+
+	// Remove existing records individually since registry can be in use by concurrent lookups
+	ds.measurementRegistry.Range(func(signalID, _ interface{}) bool {
+		ds.measurementRegistry.Delete(signalID)
+		return true
+	})
 }
 
 func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
-- 
2.43.0


From e4673b0deca702111efda5f084f8350540b6098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:44 +0000
Subject: [PATCH 20/55] fix: treat slices with duplicates as sets in
 comparisons

A slice listing an element more than once was counted by its length, so
equality and superset tests failed and symmetric difference toggled the
element back.
---
 sttp/hashset/HashSet.go | 69 ++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 50 deletions(-)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..09af056 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -131,7 +131,8 @@ func (hs HashSet[T]) SymmetricExceptWith(other []T) {
 		return
 	}
 
-	for _, v := range other {
+	// Slice may contain duplicates, each element is only considered once
+	for v := range NewHashSet(other) {
 		if !hs.Remove(v) {
 			hs.Add(v)
 		}
@@ -182,12 +183,18 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
+	return hs.SetEqualsSet(NewHashSet(other))
+}
+
+// SetEqualsSet determines whether a set and the specified set contain the same elements.
+// Returns true if the set is equal to other set; otherwise, false.
+func (hs HashSet[T]) SetEqualsSet(other HashSet[T]) bool {
 	if len(hs) != len(other) {
 		return false
 	}
 
-	for _, v := range other {
-		if !hs.Contains(v) {
+	for k := range other {
+		if !hs.Contains(k) {
 			return false
 		}
 	}
@@ -195,12 +202,6 @@ func (hs HashSet[T]) SetEquals(other []T) bool {
 	return true
 }
 
-// SetEqualsSet determines whether a set and the specified set contain the same elements.
-// Returns true if the set is equal to other set; otherwise, false.
-func (hs HashSet[T]) SetEqualsSet(other HashSet[T]) bool {
-	return hs.SetEquals(other.Keys())
-}
-
 // Overlaps determines whether the current set and a specified slice share common elements.
 // Returns true if the current set and other slice items share at least one common element; otherwise, false.
 func (hs HashSet[T]) Overlaps(other []T) bool {
@@ -282,60 +283,28 @@ func (hs HashSet[T]) IsProperSubsetOfSet(other HashSet[T]) bool {
 // IsSupersetOf determines whether a set is a superset of the specified slice.
 // Returns true if the set is a superset of other slice items; otherwise, false.
 func (hs HashSet[T]) IsSupersetOf(other []T) bool {
-	// If other is the empty set then this is a superset
-	if len(other) == 0 {
-		return true
-	}
-
-	// If slice has more elements than set, then it can't be a superset
-	if len(other) > len(hs) {
-		return false
-	}
-
-	for _, v := range other {
-		if !hs.Contains(v) {
-			return false
-		}
-	}
-
-	return true
+	return hs.IsSupersetOfSet(NewHashSet(other))
 }
 
 // IsSupersetOfSet determines whether a set is a superset of the specified set.
 // Returns true if the set is a superset of other set; otherwise, false.
 func (hs HashSet[T]) IsSupersetOfSet(other HashSet[T]) bool {
-	return hs.IsSupersetOf(other.Keys())
+	return other.IsSubsetOfSet(hs)
 }
 
 // IsProperSupersetOf determines whether a set is a proper superset of the specified slice.
 // Returns true if the set is a proper superset of other slice items; otherwise, false.
 func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
-	// The empty set is not a proper subset of any set
-	if hs.IsEmpty() {
-		return true
-	}
-
-	// If other is the empty set then this is a proper superset
-	if len(other) == 0 {
-		return true // Set has at least one element, based on prior check
-	}
-
-	// If slice has more or equal elements than set, then it can't be a proper superset
-	if len(other) >= len(hs) {
-		return false
-	}
-
-	for _, v := range other {
-		if !hs.Contains(v) {
-			return false
-		}
-	}
-
-	return true
+	return hs.IsProperSupersetOfSet(NewHashSet(other))
 }
 
 // IsProperSupersetOfSet determines whether a set is a proper superset of the specified set.
 // Returns true if the set is a proper superset of other set; otherwise, false.
 func (hs HashSet[T]) IsProperSupersetOfSet(other HashSet[T]) bool {
-	return hs.IsProperSupersetOf(other.Keys())
+	// Empty set is considered a proper superset of any set
+	if hs.IsEmpty() {
+		return true
+	}
+
+	return other.IsProperSubsetOfSet(hs)
 }
-- 
2.43.0


From a8f3bc166a07bf196c1945177015c8a21236f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:44 +0000
Subject: [PATCH 21/55] fix: format negative zero, infinities and NaN

---
 sttp/format/Float.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sttp/format/Float.go b/sttp/format/Float.go
index 76e484c..a9d5499 100644
--- a/sttp/format/Float.go
+++ b/sttp/format/Float.go
@@ -25,6 +25,7 @@
 package format
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -39,6 +40,12 @@ func Float(f float64, prec int) string {
 // and the specified numeric thousands groupSymbol, e.g., ','.
 func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 	in := strconv.FormatFloat(f, 'f', prec, 64)
+
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return in
+	}
+
+	negative := in[0] == '-' // Includes negative zero
 	decSymbolAsStr := string([]byte{decimalSymbol})
 
 	if decimalSymbol != '.' {
@@ -55,14 +62,14 @@ func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 
 	digits := len(in)
 
-	if f < 0 {
+	if negative {
 		digits-- // First character is the - sign (not a digit)
 	}
 
 	commas := (digits - 1) / 3
 	out := make([]byte, len(in)+commas)
 
-	if f < 0 {
+	if negative {
 		in, out[0] = in[1:], '-'
 	}
 
-- 
2.43.0


From f2bd092608b13fe89e9db5a64b81243783efef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:44 +0000
Subject: [PATCH 22/55] fix: report unparsable signal references as unknown and
 name all commands

---
 sttp/transport/Constants.go           | 2 ++
 sttp/transport/MeasurementMetadata.go | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/Constants.go b/sttp/transport/Constants.go
index 0d99e8b..132f73b 100644
--- a/sttp/transport/Constants.go
+++ b/sttp/transport/Constants.go
@@ -366,6 +366,8 @@ func (sce ServerCommandEnum) String() string {
 		return "ConfirmNotification"
 	case ServerCommand.ConfirmBufferBlock:
 		return "ConfirmBufferBlock"
+	case ServerCommand.ConfirmUpdateBaseTimes:
+		return "ConfirmUpdateBaseTimes"
 	case ServerCommand.ConfirmUpdateSignalIndexCache:
 		return "ConfirmUpdateSignalIndexCache"
 	case ServerCommand.ConfirmUpdateCipherKeys:
diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..bbc6f56 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -70,12 +70,17 @@ type MeasurementMetadata struct {
 func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind SignalKindEnum, position int) {
 	signalReference := mm.SignalReference
 	parts := strings.Split(signalReference, "-")
+	signalKind = SignalKind.Unknown
 
 	if len(parts) > 1 {
 		lastIndex := len(parts) - 1
 		typeInfo := parts[lastIndex]
-		signalKind = ParseSignalKindAcronym(typeInfo[:2])
-		position, _ = strconv.Atoi(typeInfo[2:])
+
+		if len(typeInfo) >= 2 {
+			signalKind = ParseSignalKindAcronym(typeInfo[:2])
+			position, _ = strconv.Atoi(typeInfo[2:])
+		}
+
 		source = strings.Join(parts[:lastIndex], "-")
 	}
 
-- 
2.43.0


From 37d2d145b274a9ae6bc652e53d030a54655e39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:44 +0000
Subject: [PATCH 23/55] fix: let rows hold values of columns added after the
 row was created

Reading or assigning such a column indexed past the end of the row's values.
---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..7c8e75b 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -90,6 +90,11 @@ func (dr *DataRow) validateColumnType(columnIndex, targetType int, read bool) (*
 		return nil, errors.New("cannot assign value to DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\", column is computed with an expression")
 	}
 
+	// Columns can be added to the table after the row was created
+	for len(dr.values) <= columnIndex {
+		dr.values = append(dr.values, nil)
+	}
+
 	return column, nil
 }
 
-- 
2.43.0


From ab3fc01c76ee3325c68d3df35d41d9a2750b4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:47 +0000
Subject: [PATCH 24/55] fix: compute expression columns when a row value is
 read by name

ValueByName returned the cached expression tree, or nil, for computed columns.
---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 7c8e75b..eed6022 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -508,7 +508,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From 2df3ba1b84863a5fc7947c10aee19891e76702ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:49 +0000
Subject: [PATCH 25/55] fix: return no rows from RowsWhere when the limit is
 zero

---
 sttp/data/DataTable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..1540479 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -155,6 +155,10 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 	matchingRows := make([]*DataRow, 0)
 	count := 0
 
+	if limit == 0 {
+		return matchingRows
+	}
+
 	for i := 0; i < len(dt.rows); i++ {
 		dataRow := dt.rows[i]
 
-- 
2.43.0


From 1c1b9375020d5cc085cf75b49da551d4c0e6ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:54 +0000
Subject: [PATCH 26/55] fix: reject Guid text enclosed in characters other than
 braces

---
 sttp/guid/Guid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/guid/Guid.go b/sttp/guid/Guid.go
index 04138f0..6e179d1 100644
--- a/sttp/guid/Guid.go
+++ b/sttp/guid/Guid.go
@@ -107,6 +107,11 @@ func (g Guid) Components() (a uint32, b, c uint16, d [8]byte) {
 
 // Parse decodes a Guid value from a string.
 func Parse(s string) (Guid, error) {
+	// UUID parser does not verify which characters enclose a braced value
+	if len(s) == 38 && (s[0] != '{' || s[37] != '}') {
+		return Empty, errors.New("invalid Guid format, value is not enclosed in braces")
+	}
+
 	value, err := uuid.Parse(s)
 	return Guid(value), err
 }
-- 
2.43.0


From 9e74eb3220c677d0337ec34651c3f8d4669977aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 27/55] fix: test the first argument of IIf

The second argument, the value for a true test, was evaluated as the test.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..a7c7253 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -691,7 +691,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From 4398173d2151e586d7c7bba7ee265492808d7e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:06 +0000
Subject: [PATCH 28/55] fix: raise to the given exponent in Power

The source value was used as its own exponent. Decimal powers of zero
crashed and fractional decimal exponents were truncated.
---
 sttp/data/ExpressionTree.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index a7c7253..585ff7f 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2150,7 +2150,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
@@ -2162,7 +2162,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	case ExpressionValueType.Int64:
 		return newValueExpression(ExpressionValueType.Int64, int64(math.Pow(float64(sourceValue.int64Value()), float64(exponentValue.int64Value())))), nil
 	case ExpressionValueType.Decimal:
-		return newValueExpression(ExpressionValueType.Decimal, sourceValue.decimalValue().Pow(exponentValue.decimalValue())), nil
+		return decimalPower(sourceValue.decimalValue(), exponentValue.decimalValue())
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Pow(sourceValue.doubleValue(), exponentValue.doubleValue())), nil
 	default:
@@ -2170,6 +2170,27 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	}
 }
 
+func decimalPower(source, exponent decimal.Decimal) (*ValueExpression, error) {
+	if source.IsZero() && exponent.IsNegative() {
+		return nil, errors.New("\"Power\" function exponent value, second argument, cannot be negative when source value is zero")
+	}
+
+	// Decimal power function only handles whole exponents and takes unbounded time for large ones
+	if exponent.Equal(exponent.Truncate(0)) && exponent.Abs().LessThan(decimal.NewFromInt(1000)) {
+		return newValueExpression(ExpressionValueType.Decimal, source.Pow(exponent)), nil
+	}
+
+	sourceF64, _ := source.Float64()
+	exponentF64, _ := exponent.Float64()
+	result := math.Pow(sourceF64, exponentF64)
+
+	if math.IsNaN(result) || math.IsInf(result, 0) {
+		return nil, errors.New("\"Power\" function result is not a valid \"Decimal\"")
+	}
+
+	return newValueExpression(ExpressionValueType.Decimal, decimal.NewFromFloat(result)), nil
+}
+
 func (et *ExpressionTree) regExMatch(regexValue, testValue *ValueExpression) (*ValueExpression, error) {
 	return et.evaluateRegEx("RegExMatch", regexValue, testValue, false)
 }
-- 
2.43.0


From 257a8b519df3a04d19d1970a561258fde072ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:09 +0000
Subject: [PATCH 29/55] fix: return a Boolean null from comparisons with null

The null had the type of the operands, so combining the comparison with
AND, OR or NOT failed.
---
 sttp/data/ExpressionTree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 585ff7f..8ad2178 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -355,7 +355,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
@@ -2997,7 +2997,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3031,7 +3031,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3067,7 +3067,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3101,7 +3101,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3137,7 +3137,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3174,7 +3174,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From 81f010f73e8d68bf1cf4b2c4cf82ad34f5916541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:12 +0000
Subject: [PATCH 30/55] fix: sort case-sensitively only for ORDER BY BINARY

The modifier had the opposite effect.
---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..eef6ece 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -472,7 +472,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From 6b9d88db494c0d14bd30b78e7fa83511004915a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:15 +0000
Subject: [PATCH 31/55] fix: match LIKE patterns without wildcards

Such a pattern never matched, and an empty pattern matched everything.
---
 sttp/data/ExpressionTree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 8ad2178..3ace124 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3246,7 +3246,7 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 	}
 
 	// "*" or "**" expression means match everything
-	if len(testExpression) == 0 {
+	if len(testExpression) == 0 && startsWithWildcard {
 		return True, nil
 	}
 
@@ -3255,6 +3255,14 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 		return nil, errors.New("right operand of \"LIKE\" expression \"" + rightOperand + "\" has an invalid pattern")
 	}
 
+	if !startsWithWildcard && !endsWithWildcard {
+		if exactMatch {
+			return newValueExpression(ExpressionValueType.Boolean, leftOperand == testExpression), nil
+		}
+
+		return newValueExpression(ExpressionValueType.Boolean, strings.EqualFold(leftOperand, testExpression)), nil
+	}
+
 	if startsWithWildcard {
 		if exactMatch {
 			if strings.HasSuffix(leftOperand, testExpression) {
-- 
2.43.0


From 22c2f2f5cc7888c556867394ab6a400e735c26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:18 +0000
Subject: [PATCH 32/55] fix: report division and modulus by zero as an error

Integer and decimal operands crashed.
---
 sttp/data/ExpressionTree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 3ace124..8c334b3 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2622,6 +2622,20 @@ func convertOperands(leftValue, rightValue **ValueExpression, valueType Expressi
 	return nil
 }
 
+// isZeroDivisor determines if value is a zero of a type without infinities.
+func isZeroDivisor(value *ValueExpression) bool {
+	switch value.ValueType() {
+	case ExpressionValueType.Int32:
+		return value.int32Value() == 0
+	case ExpressionValueType.Int64:
+		return value.int64Value() == 0
+	case ExpressionValueType.Decimal:
+		return value.decimalValue().IsZero()
+	default:
+		return false
+	}
+}
+
 func (et *ExpressionTree) multiplyOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
@@ -2666,6 +2680,10 @@ func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, value
 		return nil, errors.New("division \"/\" operator " + err.Error())
 	}
 
+	if isZeroDivisor(rightValue) {
+		return nil, errors.New("division \"/\" operator cannot divide by zero")
+	}
+
 	switch valueType {
 	case ExpressionValueType.Int32:
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()/rightValue.int32Value())), nil
@@ -2700,6 +2718,10 @@ func (et *ExpressionTree) modulusOp(leftValue, rightValue *ValueExpression, valu
 		return nil, errors.New("modulus \"%\" operator " + err.Error())
 	}
 
+	if isZeroDivisor(rightValue) {
+		return nil, errors.New("modulus \"%\" operator cannot divide by zero")
+	}
+
 	switch valueType {
 	case ExpressionValueType.Int32:
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()%rightValue.int32Value())), nil
-- 
2.43.0


From f7150add5f2a71a42c8d63edb5d4e72d59641926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:21 +0000
Subject: [PATCH 33/55] fix: keep the sign when shifting Int64 values right

Int32 values already kept it.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 8c334b3..fec1bbc 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2896,7 +2896,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From ee46e49101eb9a4748aa9cdcf749f8f130ce61db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:23 +0000
Subject: [PATCH 34/55] fix: insert the Replace value literally when ignoring
 case

Dollar signs in the value were expanded as group references.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index fec1bbc..73e0af0 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2282,7 +2282,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From f218d015fb5ca8adc6708d684786c1507766d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:26 +0000
Subject: [PATCH 35/55] fix: split at leading, adjacent and overlapping
 separators

Split ignored a separator at the start of the text and crashed when
separators could overlap. NthIndexOf crashed for an empty test value.
---
 sttp/data/ExpressionTree.go | 48 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 73e0af0..8b4a8cd 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -31,6 +31,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode"
+	"unicode/utf8"
 	"unsafe"
 
 	"github.com/araddon/dateparse"
@@ -2367,7 +2369,7 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	var result []int
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+		result = splitNthIndex(toUpperSameLength(sourceValue.stringValue()), toUpperSameLength(delimiterValue.stringValue()), index)
 	} else {
 		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
 	}
@@ -3376,7 +3378,7 @@ func findNthIndex(source, test string, index int) int {
 	for i := 0; i < index+1; i++ {
 		location := strings.Index(source, test)
 
-		if location == -1 {
+		if location == -1 || location == len(source) {
 			result = 0
 			break
 		}
@@ -3389,22 +3391,42 @@ func findNthIndex(source, test string, index int) int {
 	return result - 1
 }
 
-// https://play.golang.org/p/_7nc06CqjKi
+// splitNthIndex gets the start and stop index of the nth value separated by
+// test, or nil if there are no separators or not enough values.
 func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
-
-	if firstIndex <= 0 && secondIndex <= 0 {
+	if index < 0 || len(test) == 0 || !strings.Contains(source, test) {
 		return nil
 	}
 
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
+	start := 0
+
+	for i := 0; ; i++ {
+		length := strings.Index(source[start:], test)
+
+		if i == index {
+			if length == -1 {
+				return []int{start, len(source)}
+			}
+
+			return []int{start, start + length}
+		}
+
+		if length == -1 {
+			return nil
+		}
 
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
+		start += length + len(test)
 	}
+}
+
+// toUpperSameLength converts value to upper case, except characters whose upper
+// case form has a different length, so indexes are valid in the original value.
+func toUpperSameLength(value string) string {
+	return strings.Map(func(r rune) rune {
+		if upper := unicode.ToUpper(r); utf8.RuneLen(upper) == utf8.RuneLen(r) {
+			return upper
+		}
 
-	return []int{firstIndex + len(test), secondIndex}
+		return r
+	}, value)
 }
-- 
2.43.0


From a21a8fd2d0969375788daca82b02bce1f6299398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:27 +0000
Subject: [PATCH 36/55] fix: return the rest of the text for large SubStr
 lengths

The sum of index and length could overflow and crash.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 8b4a8cd..79ecc93 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2544,7 +2544,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From a6df784c07e5e1f485c1dff865e1ef35aa32abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:29 +0000
Subject: [PATCH 37/55] fix: convert Boolean values to Int32

Mixing a Boolean and an Int32 in an operation crashed.
---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..4eeb086 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -410,7 +410,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From 3d8b19a5a6043d1713163b58f05e840aee2bd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:32 +0000
Subject: [PATCH 38/55] fix: convert non-zero times to true in computed Boolean
 columns

The conversion was inverted compared to all other types.
---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index eed6022..9928fc2 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -445,7 +445,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From 92e2b5b67352d13e7dd4bd81ce41310cb9ede0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:34 +0000
Subject: [PATCH 39/55] fix: keep nulls in computed columns

A null expression result was read as the zero value of the column type.
---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 9928fc2..5b9d236 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -129,6 +129,11 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	// If source value is Null, result is Null, regardless of target type
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From 5ede0e9fc0bd25a869e0d14764554c7f4f5934be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:37 +0000
Subject: [PATCH 40/55] fix: report converting non-finite numbers to Decimal as
 an error

The conversion crashed.
---
 sttp/data/DataRow.go         | 5 +++++
 sttp/data/ValueExpression.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 5b9d236..1d86132 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -330,6 +331,10 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert non-finite \"Double\" expression value to \"" + targetType.String() + "\" column")
+		}
+
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 4eeb086..bf88d97 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -515,6 +516,10 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert non-finite \"Double\" to \"" + targetValueType.String() + "\"")
+		}
+
 		return newValueExpression(targetValueType, decimal.NewFromFloat(value)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(targetValueType, value), nil
-- 
2.43.0


From 9b65cfc47024d5d048237c23a9b1853c6638a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:40 +0000
Subject: [PATCH 41/55] fix: trim the same characters with TrimLeft, TrimRight
 and Trim

The one-sided functions had invalid UTF-8 in their whitespace set and did
not trim characters outside ASCII.
---
 sttp/data/ExpressionTree.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 79ecc93..f01b814 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -40,7 +40,6 @@ import (
 	"github.com/sttp/goapi/sttp/guid"
 )
 
-var whitespace string = " \t\n\v\f\r\x85\xA0"
 var intSize = int(unsafe.Sizeof(uint(0)) * 8)
 
 // ExpressionTree represents a tree of expressions for evaluation.
@@ -2575,7 +2574,7 @@ func (et *ExpressionTree) trimLeft(sourceValue *ValueExpression) (*ValueExpressi
 		return NullValue(ExpressionValueType.String), nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, strings.TrimLeft(sourceValue.stringValue(), whitespace)), nil
+	return newValueExpression(ExpressionValueType.String, strings.TrimLeftFunc(sourceValue.stringValue(), unicode.IsSpace)), nil
 }
 
 func (et *ExpressionTree) trimRight(sourceValue *ValueExpression) (*ValueExpression, error) {
@@ -2588,7 +2587,7 @@ func (et *ExpressionTree) trimRight(sourceValue *ValueExpression) (*ValueExpress
 		return NullValue(ExpressionValueType.String), nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, strings.TrimRight(sourceValue.stringValue(), whitespace)), nil
+	return newValueExpression(ExpressionValueType.String, strings.TrimRightFunc(sourceValue.stringValue(), unicode.IsSpace)), nil
 }
 
 func (et *ExpressionTree) upper(sourceValue *ValueExpression) (*ValueExpression, error) {
-- 
2.43.0


From 8308f23d05ab969e7b253b174150362fe2aa4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:43 +0000
Subject: [PATCH 42/55] fix: read doubled quotes in string literals as one
 quote

The text kept both quotes.
---
 sttp/data/FilterExpressionParser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index eef6ece..84ea7c1 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1479,9 +1479,10 @@ func SelectSignalIDSetFromTable(dataTable *DataTable, filterExpression string, p
 
 func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
-	// ensures strings starting with quote also ends with one
+	// ensures strings starting with quote also ends with one and that
+	// any quotes inside the string are doubled
 	if stringLiteral[0] == '\'' {
-		return stringLiteral[1 : len(stringLiteral)-1]
+		return strings.ReplaceAll(stringLiteral[1:len(stringLiteral)-1], "''", "'")
 	}
 
 	return stringLiteral
-- 
2.43.0


From dbfee1767fe2070b41737880d547c6358ef2e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:46 +0000
Subject: [PATCH 43/55] fix: remove the delimiters of delimited identifiers

Tables and columns written as [name] or `name` were not found.
---
 sttp/data/FilterExpressionParser.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 84ea7c1..3ccd79f 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -435,7 +435,7 @@ func (fep *FilterExpressionParser) EnterFilterExpressionStatement(context *parse
 
 // EnterFilterStatement is called when production filterStatement is entered.
 func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterStatementContext) {
-	tableName := context.TableName().GetText()
+	tableName := parseIdentifier(context.TableName().GetText())
 
 	table, err := fep.Table(tableName)
 
@@ -462,7 +462,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 
 		for i := 0; i < len(orderingTerms); i++ {
 			orderingTermContext := orderingTerms[i].(*parser.OrderingTermContext)
-			orderByColumnName := orderingTermContext.OrderByColumnName().GetText()
+			orderByColumnName := parseIdentifier(orderingTermContext.OrderByColumnName().GetText())
 			orderByColumn := table.ColumnByName(orderByColumnName)
 
 			if orderByColumn == nil {
@@ -1139,7 +1139,7 @@ func (fep *FilterExpressionParser) ExitColumnName(context *parser.ColumnNameCont
 		panic("cannot parse column name in filter expression, " + err.Error())
 	}
 
-	columnName := context.IDENTIFIER().GetText()
+	columnName := parseIdentifier(context.IDENTIFIER().GetText())
 	dataColumn := table.ColumnByName(columnName)
 
 	if dataColumn == nil {
@@ -1477,6 +1477,16 @@ func SelectSignalIDSetFromTable(dataTable *DataTable, filterExpression string, p
 	return SelectSignalIDSet(dataTable.Parent(), filterExpression, dataTable.Name(), tableIDFields, suppressConsoleErrorOutput)
 }
 
+func parseIdentifier(identifier string) string {
+	// Remove any surrounding delimiters from identifier, ANTLR grammar already
+	// ensures identifiers starting with a delimiter also end with one
+	if identifier[0] == '`' || identifier[0] == '[' {
+		return identifier[1 : len(identifier)-1]
+	}
+
+	return identifier
+}
+
 func parseStringLiteral(stringLiteral string) string {
 	// Remove any surrounding quotes from string, ANTLR grammar already
 	// ensures strings starting with quote also ends with one and that
-- 
2.43.0


From 77dc0388d074c5d189a106de9690495001f3855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:49 +0000
Subject: [PATCH 44/55] fix: read integer literals with leading zeros as
 decimal

They were read as octal.
---
 sttp/data/FilterExpressionParser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 3ccd79f..29e9887 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1049,14 +1049,19 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 	// Literal numeric values will not be negative, unary operators will handle negative values
 	if integerLiteral := context.INTEGER_LITERAL(); integerLiteral != nil {
 		literal := integerLiteral.GetText()
+		base := 10
 
-		if i64, err := strconv.ParseInt(literal, 0, 64); err == nil {
+		if strings.HasPrefix(literal, "0x") || strings.HasPrefix(literal, "0X") {
+			base = 0
+		}
+
+		if i64, err := strconv.ParseInt(literal, base, 64); err == nil {
 			if i64 > math.MaxInt32 {
 				result = newValueExpression(ExpressionValueType.Int64, i64)
 			} else {
 				result = newValueExpression(ExpressionValueType.Int32, int32(i64))
 			}
-		} else if ui64, err := strconv.ParseUint(literal, 0, 64); err == nil {
+		} else if ui64, err := strconv.ParseUint(literal, base, 64); err == nil {
 			if ui64 > math.MaxInt64 {
 				result = parseNumericLiteral(literal)
 			} else if ui64 > math.MaxInt32 {
-- 
2.43.0


From a18aa10a50eaf03abedc155d76bbd31cc5ccdf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:51 +0000
Subject: [PATCH 45/55] fix: compare Guid and DateTime values with NULL
 literals

The literal was taken for a Boolean, which made the comparison fail.
---
 sttp/data/ExpressionTree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index f01b814..e71acda 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -367,7 +367,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 	var valueType ExpressionValueTypeEnum
 
 	for i := 0; i < len(arguments); i++ {
-		if argumentValue, err = et.evaluate(arguments[i]); err != nil {
+		if argumentValue, err = et.evaluateAs(arguments[i], inListValue.ValueType()); err != nil {
 			return nil, errors.New("failed while evaluating \"IN\" expression argument " + strconv.Itoa(i) + ": " + err.Error())
 		}
 
@@ -1287,10 +1287,15 @@ func (et *ExpressionTree) evaluateOperator(expression Expression) (*ValueExpress
 
 	var rightValue *ValueExpression
 
-	if rightValue, err = et.evaluate(operatorExpression.RightValue()); err != nil {
+	if rightValue, err = et.evaluateAs(operatorExpression.RightValue(), leftValue.ValueType()); err != nil {
 		return nil, errors.New("failed while evaluating \"" + operatorExpression.OperatorType().String() + "\" operator right operand: " + err.Error())
 	}
 
+	// Change Undefined NULL left operand to Nullable of right operand type
+	if leftValueExpression, ok := operatorExpression.LeftValue().(*ValueExpression); ok && leftValueExpression.ValueType() == ExpressionValueType.Undefined {
+		leftValue = NullValue(rightValue.ValueType())
+	}
+
 	var valueType ExpressionValueTypeEnum
 
 	if valueType, err = operatorExpression.OperatorType().deriveOperationValueType(leftValue.ValueType(), rightValue.ValueType()); err != nil {
-- 
2.43.0


From 8766269a2fc0500d7913b203435c1c8dd70dc6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:54 +0000
Subject: [PATCH 46/55] fix: report syntax errors of filter expressions

The part of the expression before the error was evaluated as if it was
complete.
---
 sttp/data/CallbackErrorListener.go  | 13 ++++++++++++-
 sttp/data/FilterExpressionParser.go |  6 ++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/sttp/data/CallbackErrorListener.go b/sttp/data/CallbackErrorListener.go
index 6f0bc47..1b50ab1 100644
--- a/sttp/data/CallbackErrorListener.go
+++ b/sttp/data/CallbackErrorListener.go
@@ -23,7 +23,11 @@
 
 package data
 
-import "github.com/antlr/antlr4/runtime/Go/antlr"
+import (
+	"strconv"
+
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+)
 
 // CallbackErrorListener defines a implementation of an ANTLR error listener
 // that reports any parsing exceptions to a user defined callback.
@@ -32,6 +36,9 @@ type CallbackErrorListener struct {
 
 	// ParsingExceptionCallback defines a callback for reporting ANTLR parsing exceptions.
 	ParsingExceptionCallback func(message string)
+
+	// firstError is the message of the first encountered syntax error, if any
+	firstError string
 }
 
 // NewCallbackErrorListener creates a new NewCallbackErrorListener.
@@ -43,6 +50,10 @@ func NewCallbackErrorListener() *CallbackErrorListener {
 
 // SyntaxError is called when ANTLR parser encounters a syntax error.
 func (cel *CallbackErrorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
+	if len(cel.firstError) == 0 {
+		cel.firstError = "syntax error at line " + strconv.Itoa(line) + ":" + strconv.Itoa(column) + ", " + msg
+	}
+
 	if cel.ParsingExceptionCallback == nil {
 		return
 	}
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 29e9887..f727014 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -297,7 +297,13 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
+	fep.errorListener.firstError = ""
 	parseTree := fep.parser.Parse()
+
+	if len(fep.errorListener.firstError) > 0 {
+		return errors.New("failed to parse filter expression: " + fep.errorListener.firstError)
+	}
+
 	walker.Walk(fep, parseTree)
 
 	return err
-- 
2.43.0


From ff254de2c20a265ea5a8e7bd60bd2e0c88799105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:56 +0000
Subject: [PATCH 47/55] fix: allow a filter expression to be evaluated more
 than once

The second evaluation found no tokens left and matched nothing.
---
 sttp/data/FilterExpressionParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index f727014..eee5d33 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -298,6 +298,7 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	fep.errorListener.firstError = ""
+	fep.tokens.Seek(0)
 	parseTree := fep.parser.Parse()
 
 	if len(fep.errorListener.firstError) > 0 {
-- 
2.43.0


From 321cdc0bfb333d4d6b72059d940bd5aa2413e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:59 +0000
Subject: [PATCH 48/55] fix: report computed columns that refer to themselves
 as an error

Reading such a column exhausted the stack.
---
 sttp/data/DataRow.go        | 11 +++++++++++
 sttp/data/ExpressionTree.go |  1 +
 2 files changed, 12 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 1d86132..80e2472 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -29,6 +29,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"github.com/araddon/dateparse"
@@ -36,6 +37,8 @@ import (
 	"github.com/sttp/goapi/sttp/guid"
 )
 
+const maxNestedEvaluations = 100
+
 // DataRow represents a row, i.e., a record, in a DataTable defining a set of values for each
 // defined DataColumn field in the DataTable columns collection.
 type DataRow struct {
@@ -124,6 +127,14 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, err
 	}
 
+	// Expression tree is specific to this row and column, so nested evaluations mean
+	// the expression refers to its own column, limit allows for concurrent readers
+	defer atomic.AddInt32(&expressionTree.computing, -1)
+
+	if atomic.AddInt32(&expressionTree.computing, 1) > maxNestedEvaluations {
+		return nil, errors.New("expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\" refers to its own column")
+	}
+
 	sourceValue, err := expressionTree.Evaluate(dr)
 
 	if err != nil {
diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index e71acda..694f1d3 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -44,6 +44,7 @@ var intSize = int(unsafe.Sizeof(uint(0)) * 8)
 
 // ExpressionTree represents a tree of expressions for evaluation.
 type ExpressionTree struct {
+	computing  int32
 	currentRow *DataRow
 
 	// TableName represents the associated table name parsed from "FILTER" statement, if any.
-- 
2.43.0


From 044c30e7765cbfd12a64fc855e46b1d4086031d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:28 +0000
Subject: [PATCH 49/55] fix: select no rows when the limit is zero

Only negative limits are documented to select all rows.
---
 sttp/data/DataTable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 1540479..6727ca1 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -259,7 +259,7 @@ func (dt *DataTable) Select(filterExpression string, sortOrder string, limit int
 		filterExpression = "True" // Return all records
 	}
 
-	if limit > 0 {
+	if limit > -1 {
 		filterExpression = fmt.Sprintf("FILTER TOP %d %s WHERE %s", limit, dt.name, filterExpression)
 	} else {
 		filterExpression = fmt.Sprintf("FILTER %s WHERE %s", dt.name, filterExpression)
-- 
2.43.0


From d6347d5424f25d333f8c0326829cb73385074019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:31 +0000
Subject: [PATCH 50/55] fix: sort false before true

The order was the opposite of the one used by the comparison operators.
---
 sttp/data/DataRow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 80e2472..18a65bb 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -1536,11 +1536,11 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue && !rightValue {
+			if !leftValue && rightValue {
 				return -1, nil
 			}
 
-			if !leftValue && rightValue {
+			if leftValue && !rightValue {
 				return 1, nil
 			}
 
-- 
2.43.0


From 7e18bcb41540992f87e6ef1a5b52b7aed309a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:39 +0000
Subject: [PATCH 51/55] fix: reject decimal text with exponents that exhaust
 memory

---
 sttp/data/DataRow.go                |  2 +-
 sttp/data/DataSet.go                |  3 +--
 sttp/data/FilterExpressionParser.go |  5 ++---
 sttp/data/ValueExpression.go        | 24 +++++++++++++++++++++---
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 18a65bb..0991ba1 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -388,7 +388,7 @@ func convertFromString(value string, targetType DataTypeEnum) (interface{}, erro
 	case DataType.Double:
 		return strconv.ParseFloat(value, 64)
 	case DataType.Decimal:
-		return decimal.NewFromString(value)
+		return parseDecimal(value)
 	case DataType.Guid:
 		return guid.Parse(value)
 	case DataType.Int8:
diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index e90c917..52a7eb8 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -29,7 +29,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/shopspring/decimal"
 	"github.com/sttp/goapi/sttp/guid"
 	"github.com/sttp/goapi/sttp/xml"
 )
@@ -304,7 +303,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					f64, _ := strconv.ParseFloat(value, 64)
 					dataRow.SetValue(columnIndex, f64)
 				case DataType.Decimal:
-					d, _ := decimal.NewFromString(value)
+					d, _ := parseDecimal(value)
 					dataRow.SetValue(columnIndex, d)
 				case DataType.Guid:
 					g, _ := guid.Parse(value)
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index eee5d33..f9e9a82 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -32,7 +32,6 @@ import (
 
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"github.com/araddon/dateparse"
-	"github.com/shopspring/decimal"
 	"github.com/sttp/goapi/sttp/data/parser"
 	"github.com/sttp/goapi/sttp/guid"
 	"github.com/sttp/goapi/sttp/hashset"
@@ -1076,7 +1075,7 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 			} else {
 				result = newValueExpression(ExpressionValueType.Int32, int32(ui64))
 			}
-		} else if d, err := decimal.NewFromString(literal); err == nil {
+		} else if d, err := parseDecimal(literal); err == nil {
 			result = newValueExpression(ExpressionValueType.Decimal, d)
 		} else {
 			result = newValueExpression(ExpressionValueType.String, literal)
@@ -1116,7 +1115,7 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 }
 
 func parseNumericLiteral(literal string) *ValueExpression {
-	if d, err := decimal.NewFromString(literal); err == nil {
+	if d, err := parseDecimal(literal); err == nil {
 		return newValueExpression(ExpressionValueType.Decimal, d)
 	}
 
diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index bf88d97..3e1f160 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -542,15 +542,15 @@ func (ve *ValueExpression) convertFromString(targetValueType ExpressionValueType
 		targetValue, _ := strconv.ParseBool(value)
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Int32:
-		decimalValue, _ := decimal.NewFromString(value)
+		decimalValue, _ := parseDecimal(value)
 		targetValue := decimalValue.IntPart()
 		return newValueExpression(targetValueType, int32(targetValue)), nil
 	case ExpressionValueType.Int64:
-		decimalValue, _ := decimal.NewFromString(value)
+		decimalValue, _ := parseDecimal(value)
 		targetValue := decimalValue.IntPart()
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Decimal:
-		targetValue, _ := decimal.NewFromString(value)
+		targetValue, _ := parseDecimal(value)
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Double:
 		targetValue, _ := strconv.ParseFloat(value, 64)
@@ -617,3 +617,21 @@ func (ve *ValueExpression) convertFromDateTime(targetValueType ExpressionValueTy
 		return nil, errors.New("unexpected expression value type encountered")
 	}
 }
+
+// maxDecimalExponent defines the largest exponent accepted in text, as the
+// time and memory decimal operations take increase with the exponent.
+const maxDecimalExponent = 10000
+
+func parseDecimal(value string) (decimal.Decimal, error) {
+	result, err := decimal.NewFromString(value)
+
+	if err != nil {
+		return decimal.Zero, err
+	}
+
+	if exponent, limit := int(result.Exponent()), maxDecimalExponent+len(value); exponent > limit || exponent < -limit {
+		return decimal.Zero, errors.New("exponent of \"Decimal\" value \"" + value + "\" is out of range")
+	}
+
+	return result, nil
+}
-- 
2.43.0


From 6baba63a30d6f1a9252e0eb15173e92f6df34f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:06 +0000
Subject: [PATCH 52/55] fix: report syntax errors again when an expression is
 evaluated again

---
 sttp/data/FilterExpressionParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index f9e9a82..cae6c27 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -298,6 +298,7 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	walker := antlr.NewParseTreeWalker()
 	fep.errorListener.firstError = ""
 	fep.tokens.Seek(0)
+	fep.parser.SetTokenStream(fep.tokens)
 	parseTree := fep.parser.Parse()
 
 	if len(fep.errorListener.firstError) > 0 {
-- 
2.43.0


From 674eff71722b1acd04597fddda3fcff70570b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:18 +0000
Subject: [PATCH 53/55] fix: report case-insensitive positions in the original
 text

The functions IndexOf, LastIndexOf, NthIndexOf and Split searched an upper
case copy and used its positions in the original text. Both differ when an
upper case character has another length, so results were off and Split
panicked on text that is not valid UTF-8.
---
 sttp/data/ExpressionTree.go | 50 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 694f1d3..6030c41 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -1864,7 +1864,8 @@ func (et *ExpressionTree) indexOf(sourceValue, testValue, ignoreCase *ValueExpre
 	}
 
 	if ignoreCase.booleanValue() {
-		return newValueExpression(ExpressionValueType.Int32, int32(strings.Index(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(testValue.stringValue())))), nil
+		index := strings.Index(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(testValue.stringValue()))
+		return newValueExpression(ExpressionValueType.Int32, int32(originalIndex(sourceValue.stringValue(), index))), nil
 	}
 
 	return newValueExpression(ExpressionValueType.Int32, int32(strings.Index(sourceValue.stringValue(), testValue.stringValue()))), nil
@@ -1984,7 +1985,8 @@ func (et *ExpressionTree) lastIndexOf(sourceValue, testValue, ignoreCase *ValueE
 	}
 
 	if ignoreCase.booleanValue() {
-		return newValueExpression(ExpressionValueType.Int32, int32(strings.LastIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(testValue.stringValue())))), nil
+		index := strings.LastIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(testValue.stringValue()))
+		return newValueExpression(ExpressionValueType.Int32, int32(originalIndex(sourceValue.stringValue(), index))), nil
 	}
 
 	return newValueExpression(ExpressionValueType.Int32, int32(strings.LastIndex(sourceValue.stringValue(), testValue.stringValue()))), nil
@@ -2120,17 +2122,17 @@ func (et *ExpressionTree) nthIndexOf(sourceValue, testValue, indexValue, ignoreC
 		return nil, errors.New("failed while converting \"NthIndexOf\" function optional ignore case value, fourth argument, to \"Boolean\": " + err.Error())
 	}
 
-	var source, test string
+	source := sourceValue.stringValue()
+	test := testValue.stringValue()
+	index := indexValue.integerValue(-1)
 
-	if ignoreCase.booleanValue() {
-		source = strings.ToUpper(sourceValue.stringValue())
-		test = strings.ToUpper(testValue.stringValue())
+	if ignoreCase.booleanValue() && len(test) > 0 {
+		index = originalIndex(source, findNthIndex(strings.ToUpper(source), strings.ToUpper(test), index))
 	} else {
-		source = sourceValue.stringValue()
-		test = testValue.stringValue()
+		index = findNthIndex(source, test, index)
 	}
 
-	return newValueExpression(ExpressionValueType.Int32, int32(findNthIndex(source, test, indexValue.integerValue(-1)))), nil
+	return newValueExpression(ExpressionValueType.Int32, int32(index)), nil
 }
 
 func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*ValueExpression, error) {
@@ -2374,7 +2376,11 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	var result []int
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(toUpperSameLength(sourceValue.stringValue()), toUpperSameLength(delimiterValue.stringValue()), index)
+		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+
+		for i := range result {
+			result[i] = originalIndex(sourceValue.stringValue(), result[i])
+		}
 	} else {
 		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
 	}
@@ -3424,14 +3430,22 @@ func splitNthIndex(source, test string, index int) []int {
 	}
 }
 
-// toUpperSameLength converts value to upper case, except characters whose upper
-// case form has a different length, so indexes are valid in the original value.
-func toUpperSameLength(value string) string {
-	return strings.Map(func(r rune) rune {
-		if upper := unicode.ToUpper(r); utf8.RuneLen(upper) == utf8.RuneLen(r) {
-			return upper
+// originalIndex gets the index in value for an index found in its upper case form,
+// these differ when upper case characters have a different length.
+func originalIndex(value string, upperIndex int) int {
+	if upperIndex <= 0 {
+		return upperIndex
+	}
+
+	var upperLength int
+
+	for i, r := range value {
+		if upperLength >= upperIndex {
+			return i
 		}
 
-		return r
-	}, value)
+		upperLength += utf8.RuneLen(unicode.ToUpper(r))
+	}
+
+	return len(value)
 }
-- 
2.43.0


From ef15f88af1c1b66addbdec50b5dbba310010c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:24 +0000
Subject: [PATCH 54/55] fix: name the dialed publisher in the connection ID

A DataSubscriber that connects on its own reported the connection ID ":0",
since the ID was taken from the connector settings, which Connect does not use.
---
 sttp/transport/DataSubscriber.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 7009c3c..32ef744 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -385,7 +385,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16) error {
 	conn, err := dialer.DialContext(dialContext, "tcp", net.JoinHostPort(hostName, strconv.Itoa(int(port))))
 
 	if err == nil {
-		ds.establishConnection(conn, false)
+		ds.establishConnection(conn, hostName+":"+strconv.Itoa(int(port)), false)
 	}
 
 	return err
@@ -417,18 +417,13 @@ func (ds *DataSubscriber) setupConnection() {
 	})
 }
 
-func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
-	addrName := "<unknown>"
-
+func (ds *DataSubscriber) establishConnection(connection net.Conn, addrName string, listening bool) {
 	if listening {
 		addr := connection.RemoteAddr()
 
 		if addr != nil {
 			addrName = resolveDNSName(addr.String())
 		}
-	} else {
-		connector := ds.connector
-		addrName = connector.Hostname + ":" + strconv.Itoa(int(connector.Port))
 	}
 
 	ds.connectionID = addrName
@@ -872,7 +867,7 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 		ds.setupConnection()
 
 		// Create new command channel
-		ds.establishConnection(conn, true)
+		ds.establishConnection(conn, "<unknown>", true)
 
 		ds.connectActionMutex.Unlock()
 	}
-- 
2.43.0


From 8d319da55f6c35e88cf2655b10a73adbda11c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:22:21 +0000
Subject: [PATCH 55/55] fix: keep reads from a replaced measurement reader
 waiting

Creating another reader, as the examples do for every connection, or closing the
subscriber ended reads in progress with a nil measurement. Programs that read
until their connection ends crashed a few seconds after reconnecting.
---
 sttp/MeasurementReader.go | 24 ++++++++++++++++++------
 sttp/Subscriber.go        |  4 ++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 4f56280..2fd71ee 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -32,22 +32,25 @@ import (
 
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current   chan *transport.Measurement
-	closed    chan struct{}
-	closeOnce sync.Once
+	current     chan *transport.Measurement
+	released    chan struct{}
+	releaseOnce sync.Once
+	closed      chan struct{}
+	closeOnce   sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
-		current: make(chan *transport.Measurement),
-		closed:  make(chan struct{}),
+		current:  make(chan *transport.Measurement),
+		released: make(chan struct{}),
+		closed:   make(chan struct{}),
 	}
 
 	parent.setNewMeasurementsReceiver(reader, func(measurements *[]transport.Measurement) {
 		for _, m := range *measurements {
 			select {
 			case reader.current <- &m:
-			case <-reader.closed:
+			case <-reader.released:
 				return
 			}
 		}
@@ -77,7 +80,16 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 
 // Close closes the measurement reader, measurements received thereafter are discarded.
 func (mr *MeasurementReader) Close() {
+	mr.release()
+
 	mr.closeOnce.Do(func() {
 		close(mr.closed)
 	})
 }
+
+// release stops delivery of measurements to a reader that is no longer active, reads from it keep waiting.
+func (mr *MeasurementReader) release() {
+	mr.releaseOnce.Do(func() {
+		close(mr.released)
+	})
+}
diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 05465d4..10c4a03 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -448,13 +448,13 @@ func (sb *Subscriber) ReadMeasurements() *MeasurementReader {
 	return newMeasurementReader(sb)
 }
 
-// setReader assigns the active MeasurementReader, closing any prior one.
+// setReader assigns the active MeasurementReader, releasing any prior one.
 func (sb *Subscriber) setReader(reader *MeasurementReader) {
 	sb.readerMutex.Lock()
 	defer sb.readerMutex.Unlock()
 
 	if sb.reader != nil {
-		sb.reader.Close()
+		sb.reader.release()
 	}
 
 	sb.reader = reader
-- 
2.43.0

