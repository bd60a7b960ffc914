From a240bfab9f367084d26567778a4128836b817460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 01/22] fix: fetch spins forever when the next record exceeds
 the partition byte limit

---
 fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index aabbc16..7a76309 100644
--- a/fetch.go
+++ b/fetch.go
@@ -86,9 +86,9 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				fd.kp.unlock()
 
 				if rec != nil {
-					more = true
 					hasOne = true
 					if fd.ms.appendMessage(rec, fd.maxSize) {
+						more = true
 						fd.offset++
 					}
 				}
-- 
2.43.0


From 74ce07aee41c00e5344006c80570ff126f90fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 02/22] fix: fetch returns the first partitions' records for
 every requested partition

---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index 7a76309..61a3ea6 100644
--- a/fetch.go
+++ b/fetch.go
@@ -125,15 +125,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From 4f8af29b535f4d728a8ffc86ef7fd2a5acfa6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 03/22] fix: fetch at a negative offset crashes the server

---
 fetch.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fetch.go b/fetch.go
index 61a3ea6..3a89cbb 100644
--- a/fetch.go
+++ b/fetch.go
@@ -42,10 +42,11 @@ type (
 	}
 
 	fetchData struct {
-		kp      *kafkaPartition
-		offset  int
-		maxSize int
-		ms      *messageSetV1
+		kp        *kafkaPartition
+		offset    int
+		maxSize   int
+		ms        *messageSetV1
+		errorCode kafkaErrorCode
 	}
 )
 
@@ -57,6 +58,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	// establish which topics/partitions to fetch
 	// the client assumes they pre-exist
+	hasOne := false
 	fds := []*fetchData{}
 	for _, topic := range request.Topics {
 		kt := kc.ds.getTopic((topic.Topic))
@@ -68,12 +70,17 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			}
 
 			fd := &fetchData{kp: kp, offset: int(par.FetchOffset), maxSize: int(par.PartitionMaxBytes), ms: newMessageSetV1(par.FetchOffset)}
+			if kp != nil && par.FetchOffset < 0 {
+				// there can be no such record - report the error without waiting
+				fd.kp = nil
+				fd.errorCode = OffsetOutOfRange
+				hasOne = true
+			}
 			fds = append(fds, fd)
 		}
 	}
 
 	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
-	hasOne := false
 	for {
 		more := false
 		for _, fd := range fds {
@@ -136,6 +143,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
+				ErrorCode:      int16(fd.errorCode),
 				HighWatermark:  int64(fd.offset),
 				Records:        fd.ms,
 			}
-- 
2.43.0


From 1a9f70c5b68446c8bcb385768eb6fca12ae52b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 04/22] fix: ListOffsets reads the record list without the
 partition lock

---
 list_offsets.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..216dac4 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,21 +59,25 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
+				records := kp.Records
+				kp.unlock()
+
 				if p.Timestamp == -1 {
-					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
+					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(records))})
 				} else if p.Timestamp == -2 {
-					if len(kp.Records) == 0 {
+					if len(records) == 0 {
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
 					} else {
-						msg := kp.Records[0]
+						msg := records[0]
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
 					}
 				} else {
 					// slow but this is just a mock
 					offset := int64(0)
 					ts := int64(0)
-					for i := len(kp.Records) - 1; i >= 0; i-- {
-						msg := kp.Records[i]
+					for i := len(records) - 1; i >= 0; i-- {
+						msg := records[i]
 						ts = msg.Timestamp
 						if msg.Timestamp < p.Timestamp {
 							offset = int64(i + 1)
-- 
2.43.0


From ed7e9a65a70324654049011a8e837b3119f6f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 05/22] fix: ListOffsets by timestamp skips matching records
 and reports the wrong record's timestamp

---
 list_offsets.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index 216dac4..960688f 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -74,13 +74,12 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					}
 				} else {
 					// slow but this is just a mock
-					offset := int64(0)
-					ts := int64(0)
-					for i := len(records) - 1; i >= 0; i-- {
-						msg := records[i]
-						ts = msg.Timestamp
-						if msg.Timestamp < p.Timestamp {
-							offset = int64(i + 1)
+					offset := int64(len(records))
+					ts := int64(-1)
+					for i, msg := range records {
+						if msg.Timestamp >= p.Timestamp {
+							offset = int64(i)
+							ts = msg.Timestamp
 							break
 						}
 					}
-- 
2.43.0


From 03aeafe2ef8705dc2a14af033642642f1860e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 06/22] fix: SyncGroup iterates topics and partitions without
 their locks

---
 sync_group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync_group.go b/sync_group.go
index 201ea57..00db054 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -55,15 +55,19 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
 	// assign all topics & partitions to this client
+	ds.mu.Lock()
 	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
 	for name, topic := range ds.Topics {
+		topic.mu.Lock()
 		pars := make([]int32, 0, len(topic.Partitions))
 		for _, par := range topic.Partitions {
 			pars = append(pars, par.Index)
 		}
+		topic.mu.Unlock()
 
 		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
 	}
+	ds.mu.Unlock()
 
 	a := memberAssignment{
 		Version:              1,
-- 
2.43.0


From 1511a7811d615afc14e5fac08511a2a776409524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 07/22] fix: a null array in a request crashes the server

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index b7b436d..54e26ba 100644
--- a/decoder.go
+++ b/decoder.go
@@ -566,8 +566,10 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 		if next < 0 {
 			return
 		}
-		f := o.Elem().Field(i)
-		f.Set(reflect.ValueOf(v))
+		if v != nil { // a null array stays nil
+			f := o.Elem().Field(i)
+			f.Set(reflect.ValueOf(v))
+		}
 	}
 	obj = o.Elem().Interface()
 	return
-- 
2.43.0


From 4e67ae8c1abf58b9e16e4500007dd6e67d959952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 08/22] fix: a request larger than 4096 bytes crashes the
 server

---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..6144c6c 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -129,7 +129,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len()) // decoding peeks as far as the end of the request
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From 62d149baeca02f49bcd9243c4c11b7d9b998a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 09/22] fix: the server keeps its side of the connection open
 after the client disconnects

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index 6144c6c..981b754 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -113,6 +113,7 @@ func (kc *kafkaClient) handle() {
 				if !wasSocketClosed(err) {
 					panic(fmt.Sprintf("read error: %v", err))
 				}
+				kc.conn.Close()
 				return
 			}
 
-- 
2.43.0


From ef154dd5bfbc862ee8bf096684207bb6f3c131f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 10/22] fix: checking for a dropped client leaks a file
 descriptor

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index 981b754..8d34e8f 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -252,6 +252,7 @@ func (kc *kafkaClient) isConnected() bool {
 	if err != nil {
 		return false
 	}
+	defer f.Close()
 
 	b := []byte{0}
 	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
-- 
2.43.0


From 9b847226cd7cfd2f95a5a59f90ddfe97cf715733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 11/22] fix: a disconnecting client removes the newest client's
 registration instead of its own

---
 kafka-mock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..2beb9b7 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,15 +147,16 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		id := cxnNumber
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, id)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
 		})
-		km.clients[cxnNumber] = kc
+		km.clients[id] = kc
 		km.active.Add(1)
 		km.wg.Add(1)
 		km.mu.Unlock()
-- 
2.43.0


From e472463b36e4380cc183ce95f666640b5d1f5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 12/22] fix: a posted record changes when the caller reuses its
 buffers

---
 datastore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datastore.go b/datastore.go
index 5eb4df8..66ad77b 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"bytes"
 	"sync"
 	"time"
 )
@@ -111,8 +112,8 @@ func (kp *kafkaPartition) postRecord(attribs int8, ts time.Time, key, value []by
 	record := &kafkaRecord{
 		Attributes: attribs,
 		Timestamp:  ts.UnixMilli(),
-		Key:        key,
-		Value:      value,
+		Key:        bytes.Clone(key), // the caller can reuse its buffers
+		Value:      bytes.Clone(value),
 		Headers:    flatHeaders,
 	}
 	kp.Records = append(kp.Records, record)
-- 
2.43.0


From 638fe144648252764309be0275ce3c0a454d471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 13/22] fix: fetched messages carry the wrong size and checksum

---
 encoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..7ce14ea 100644
--- a/encoder.go
+++ b/encoder.go
@@ -481,7 +481,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.MakeTable(crc32.IEEE)
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
@@ -499,15 +499,15 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 		Key:        record.Key,
 		Value:      record.Value,
 	}
-	mv1.MessageSize = int32(34 + len(record.Key) + len(record.Value))
+	mv1.MessageSize = int32(22 + len(record.Key) + len(record.Value)) // bytes following the size field
 	mv1.Crc = int32(mv1.crc())
 
-	newSize := msv1.totalSize + int(mv1.MessageSize)
+	newSize := msv1.totalSize + 12 + int(mv1.MessageSize)
 	if newSize > maxSize {
 		return false
 	}
 
-	msv1.totalSize += int(mv1.MessageSize)
+	msv1.totalSize = newSize
 	msv1.offset++
 
 	msv1.msgs = append(msv1.msgs, mv1)
-- 
2.43.0


From d152ac8c4c0475242cb595586b3eace98b3a0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 14/22] fix: Metadata for all topics lists none

---
 metadata.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/metadata.go b/metadata.go
index 898c6f5..7dd7411 100644
--- a/metadata.go
+++ b/metadata.go
@@ -2,6 +2,7 @@ package kafkamock
 
 import (
 	"bufio"
+	"sort"
 )
 
 type (
@@ -46,6 +47,16 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 		return
 	}
 
+	if request.Topics == nil {
+		// a null list asks for all topics
+		kc.ds.mu.Lock()
+		for name := range kc.ds.Topics {
+			request.Topics = append(request.Topics, name)
+		}
+		kc.ds.mu.Unlock()
+		sort.Strings(request.Topics)
+	}
+
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
 		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
-- 
2.43.0


From b21aeeb4afb640e8693eb86e40cee0a7e8edfbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 15/22] fix: Metadata lists partition 2 for every topic,
 whichever partitions it has

---
 metadata.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 7dd7411..95385c1 100644
--- a/metadata.go
+++ b/metadata.go
@@ -2,6 +2,7 @@ package kafkamock
 
 import (
 	"bufio"
+	"slices"
 	"sort"
 )
 
@@ -59,7 +60,22 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+		indexes := []int32{2} // stands in for the partitions of a topic that doesn't exist yet
+		if kt := kc.ds.getTopic(t); kt != nil {
+			indexes = []int32{}
+			kt.mu.Lock()
+			for index := range kt.Partitions {
+				indexes = append(indexes, index)
+			}
+			kt.mu.Unlock()
+			slices.Sort(indexes)
+		}
+
+		partitions := make([]partitionV1, 0, len(indexes))
+		for _, index := range indexes {
+			partitions = append(partitions, partitionV1{PartitionIndex: index, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}})
+		}
+		topics = append(topics, topicsV1{Name: t, Partitions: partitions})
 	}
 
 	response = &metadataResponseV1{
-- 
2.43.0


From 51dfe608f6f1ce2e2ea10155075e6d0b95d0bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 16/22] fix: a client that doesn't read its responses keeps the
 server from terminating

---
 kafka-client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kafka-client.go b/kafka-client.go
index 8d34e8f..d44b743 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -3,6 +3,7 @@ package kafkamock
 import (
 	"bufio"
 	"bytes"
+	"context"
 	"errors"
 	"fmt"
 	"net"
@@ -85,6 +86,10 @@ func (kc *kafkaClient) handle() {
 	kc.connected.Add(1)
 	defer kc.connected.Done()
 
+	// a client that doesn't read its responses can't be allowed to block termination
+	stopWatch := context.AfterFunc(kc.l, func() { kc.conn.SetWriteDeadline(time.Now().Add(time.Second * 3)) })
+	defer stopWatch()
+
 	for {
 		if kc.latency != 0 {
 			time.Sleep(kc.latency) // test hook
@@ -237,8 +242,8 @@ func (kc *kafkaClient) dispatcher(reader *bufio.Reader, msgLength int) (err erro
 
 	km := newKafkaMessage(kc.l, kc.conn, &kmh)
 	if err = km.send(buf.Bytes()); err != nil {
-		if !kc.isConnected() {
-			// the client dropped - ignore the error
+		if !kc.isConnected() || errors.Is(err, os.ErrDeadlineExceeded) {
+			// the client dropped, or the server is stopping - ignore the error
 			err = nil
 		}
 		return
-- 
2.43.0


From dca4dd47071b7efa277a13ad4e133c9c387de4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 17/22] fix: FinishRequests crashes if the server has not been
 started

---
 kafka-mock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kafka-mock.go b/kafka-mock.go
index 2beb9b7..5f14318 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -166,6 +166,9 @@ func (km *KafkaMock) run() {
 // Tells the mock to stop accepting new requests and
 // to complete any blocked requests.
 func (km *KafkaMock) FinishRequests() {
+	if km.cancelFn == nil {
+		return // not started
+	}
 	km.cancelFn()
 }
 
-- 
2.43.0


From bf552d682f28c77926239e3be41f7ed55feb9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:40 +0000
Subject: [PATCH 18/22] fix: encoding a compact nullable string field panicked

---
 encoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index 7ce14ea..41c652e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -114,9 +114,8 @@ func encodeObjectWorker(writer *bufio.Writer, tt reflect.Type, obj any, nullable
 				if obj == nil {
 					encodeCompactNullableString(writer, nil)
 				} else {
-					s := obj.(*string)
-					s2 := CompactString(*s)
-					encodeCompactNullableString(writer, &s2)
+					s := CompactString(obj.(string))
+					encodeCompactNullableString(writer, &s)
 				}
 			} else {
 				encodeCompactString(writer, CompactString(obj.(string)))
-- 
2.43.0


From 3c8120ace639521f595bb62b50656fd9e42e687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 19/22] fix: CompactBytes were decoded as a byte string with a
 32-bit length

---
 decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder.go b/decoder.go
index 54e26ba..652fd43 100644
--- a/decoder.go
+++ b/decoder.go
@@ -430,6 +430,14 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 			return peekNullableBytes(reader, offset)
 		} else if tt.Name() == "CompactNullableBytes" {
 			return peekCompactNullableBytes(reader, offset)
+		} else if tt.Name() == "CompactBytes" {
+			var b CompactNullableBytes
+			next, b = peekCompactNullableBytes(reader, offset)
+			if next < 0 {
+				return
+			}
+			obj = CompactBytes(b)
+			return
 		} else {
 			if compact {
 				return peekObjectCompactVarArray(reader, offset, tt.Elem())
-- 
2.43.0


From 631be72c839e248dbf2c227b72363def6f343e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 20/22] fix: struct fields tagged compact were decoded as if
 they were not

---
 decoder.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/decoder.go b/decoder.go
index 652fd43..5fabb97 100644
--- a/decoder.go
+++ b/decoder.go
@@ -360,11 +360,22 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Int32:
 		if tt.Name() == "VarInt" {
 			return peekVarInt(reader, offset)
+		} else if compact {
+			var v VarInt
+			next, v = peekVarInt(reader, offset)
+			obj = int32(v)
+			return
 		} else {
 			return peekInt32(reader, offset)
 		}
 
 	case reflect.Int:
+		if compact {
+			var v VarInt
+			next, v = peekVarInt(reader, offset)
+			obj = int(v)
+			return
+		}
 		var v int32
 		next, v = peekInt32(reader, offset)
 		obj = int(v)
@@ -373,11 +384,22 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Int64:
 		if tt.Name() == "VarInt64" {
 			return peekVarInt64(reader, offset)
+		} else if compact {
+			var v VarInt64
+			next, v = peekVarInt64(reader, offset)
+			obj = int64(v)
+			return
 		} else {
 			return peekInt64(reader, offset)
 		}
 
 	case reflect.Uint:
+		if compact {
+			var v VarUint
+			next, v = peekVarUint(reader, offset)
+			obj = uint(v)
+			return
+		}
 		var v uint32
 		next, v = peekUint32(reader, offset)
 		obj = uint(v)
@@ -392,6 +414,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Uint32:
 		if tt.Name() == "VarUint" {
 			return peekVarUint(reader, offset)
+		} else if compact {
+			var v VarUint
+			next, v = peekVarUint(reader, offset)
+			obj = uint32(v)
+			return
 		} else {
 			return peekUint32(reader, offset)
 		}
@@ -399,6 +426,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Uint64:
 		if tt.Name() == "VarUint64" {
 			return peekVarUint64(reader, offset)
+		} else if compact {
+			var v VarUint64
+			next, v = peekVarUint64(reader, offset)
+			obj = uint64(v)
+			return
 		} else {
 			return peekUint64(reader, offset)
 		}
@@ -458,6 +490,17 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 			} else {
 				obj = *s
 			}
+		} else if compact {
+			var s CompactNullableString
+			next, s = peekCompactNullableString(reader, offset)
+			if next < 0 {
+				return
+			}
+			if s == nil {
+				obj = ""
+			} else {
+				obj = string(*s)
+			}
 		} else {
 			var s NullableString
 			next, s = peekNullableString(reader, offset)
-- 
2.43.0


From d5eb1d398cf0f488291359cf51c5086a4da6f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 21/22] fix: decoding an array that contains a null array
 panicked

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 5fabb97..0e83c57 100644
--- a/decoder.go
+++ b/decoder.go
@@ -574,7 +574,11 @@ func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect
 			if next < 0 {
 				return
 			}
-			a = reflect.Append(a, reflect.ValueOf(item))
+			if item == nil { // a null array
+				a = reflect.Append(a, reflect.Zero(elem))
+			} else {
+				a = reflect.Append(a, reflect.ValueOf(item))
+			}
 		}
 		obj = a.Interface()
 	}
-- 
2.43.0


From b4712b655d8a5e5f8e5da331dee4ca08b401a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:41 +0000
Subject: [PATCH 22/22] fix: JoinGroup responses carried null for the member
 metadata, which must not be null

---
 join_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/join_group.go b/join_group.go
index 57049ab..586f125 100644
--- a/join_group.go
+++ b/join_group.go
@@ -45,7 +45,7 @@ func joinGroupV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 		Leader:       "me",
 		MemberId:     "1",
 		Members: []joinGroupMemberV1{
-			{MemberId: "you"},
+			{MemberId: "you", Metadata: []byte{}},
 		},
 	}
 	return
-- 
2.43.0

