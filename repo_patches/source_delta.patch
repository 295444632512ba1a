From 7267305e00e75bc85ea7f22ab32100435647c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:50 +0000
Subject: [PATCH 01/93] hook: injectable transport listener/dialer behind the
 verif build tag

---
 client/client_secure_channel.go |  2 +-
 client/dial.go                  | 13 +++++++++++++
 client/dial_verif.go            | 19 +++++++++++++++++++
 server/listen.go                | 10 ++++++++++
 server/listen_verif.go          | 16 ++++++++++++++++
 server/server.go                |  2 +-
 6 files changed, 60 insertions(+), 2 deletions(-)
 create mode 100644 client/dial.go
 create mode 100644 client/dial_verif.go
 create mode 100644 server/listen.go
 create mode 100644 server/listen_verif.go

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 4352104..110b05f 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -300,7 +300,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		}
 	}
 
-	ch.conn, err = net.DialTimeout("tcp", remoteURL.Host, time.Duration(ch.connectTimeout)*time.Millisecond)
+	ch.conn, err = dialTimeout("tcp", remoteURL.Host, time.Duration(ch.connectTimeout)*time.Millisecond)
 	if err != nil {
 		return err
 	}
diff --git a/client/dial.go b/client/dial.go
new file mode 100644
index 0000000..d804282
--- /dev/null
+++ b/client/dial.go
@@ -0,0 +1,13 @@
+//go:build !verif
+
+package client
+
+import (
+	"net"
+	"time"
+)
+
+// dialTimeout opens the transport connection of the client.
+func dialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
+	return net.DialTimeout(network, address, timeout)
+}
diff --git a/client/dial_verif.go b/client/dial_verif.go
new file mode 100644
index 0000000..ae293b1
--- /dev/null
+++ b/client/dial_verif.go
@@ -0,0 +1,19 @@
+//go:build verif
+
+package client
+
+import (
+	"net"
+	"time"
+)
+
+// VerifDialTimeout, when set, replaces net.DialTimeout so that a verification harness can supply in-memory connections.
+var VerifDialTimeout func(network, address string, timeout time.Duration) (net.Conn, error)
+
+// dialTimeout opens the transport connection of the client.
+func dialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
+	if VerifDialTimeout != nil {
+		return VerifDialTimeout(network, address, timeout)
+	}
+	return net.DialTimeout(network, address, timeout)
+}
diff --git a/server/listen.go b/server/listen.go
new file mode 100644
index 0000000..43933ea
--- /dev/null
+++ b/server/listen.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package server
+
+import "net"
+
+// listen opens the transport listener of the server.
+func listen(network, address string) (net.Listener, error) {
+	return net.Listen(network, address)
+}
diff --git a/server/listen_verif.go b/server/listen_verif.go
new file mode 100644
index 0000000..a014987
--- /dev/null
+++ b/server/listen_verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package server
+
+import "net"
+
+// VerifListen, when set, replaces net.Listen so that a verification harness can supply in-memory connections.
+var VerifListen func(network, address string) (net.Listener, error)
+
+// listen opens the transport listener of the server.
+func listen(network, address string) (net.Listener, error) {
+	if VerifListen != nil {
+		return VerifListen(network, address)
+	}
+	return net.Listen(network, address)
+}
diff --git a/server/server.go b/server/server.go
index 1084098..5b1cfaa 100644
--- a/server/server.go
+++ b/server/server.go
@@ -298,7 +298,7 @@ func (srv *Server) ListenAndServe() error {
 		return ua.BadTCPEndpointURLInvalid
 	}
 
-	ln, err := net.Listen("tcp", ":"+baseURL.Port())
+	ln, err := listen("tcp", ":"+baseURL.Port())
 	if err != nil {
 		// log.Printf("Error opening secure channel listener. %s\n", err.Error())
 		return ua.BadResourceUnavailable
-- 
2.43.0


From 49405dd142c21f8b8e16bf86721dbfd36fc2456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:33 +0000
Subject: [PATCH 02/93] fix: set the overflow bit on the queued value, not on a
 copy of it

---
 server/datachange_monitored_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..84bf2a1 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -190,6 +190,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 		}
 	} else {
 		for mi.queue.Len() > int(mi.queueSize) {
@@ -200,6 +201,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 		}
 	}
 }
@@ -309,6 +311,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	} else {
@@ -321,6 +324,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	}
-- 
2.43.0


From 6a6eb3dc82ab7334383a67fd932104b1d1d4ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 03/93] fix: count a monitored item as enabled again only when
 it leaves the disabled mode

---
 server/datachange_monitored_item.go | 3 ++-
 server/event_monitored_item.go      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 84bf2a1..90efd89 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -159,12 +159,13 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	wasDisabled := mi.monitoringMode == ua.MonitoringModeDisabled
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
-	} else {
+	} else if wasDisabled {
 		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..c8b09c7 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -144,11 +144,12 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	wasDisabled := mi.monitoringMode == ua.MonitoringModeDisabled
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.sub.disabledMonitoredItemCount++
-	} else {
+	} else if wasDisabled {
 		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
-- 
2.43.0


From d7b22cc144672fc019ac4e0002ac80d61a779d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:36 +0000
Subject: [PATCH 04/93] fix: return the acknowledgement results with a late
 keep-alive

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..8a46612 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -613,7 +613,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 25e6ed2c8237a939b6a82f99044f870c0959ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:04 +0000
Subject: [PATCH 05/93] fix: keep a republished message available until it is
 acknowledged

---
 server/server_service_set.go | 43 +++++++++++++-----------------------
 server/subscription.go       | 17 ++++++++++++++
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..9ad49d7 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5517,35 +5517,22 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 		return nil
 	}
 
-	s.Lock()
-	s.lifetimeCount = 0
-	s.Unlock()
-
-	s.republishRequestCount++
-	s.republishMessageRequestCount++
-	q := s.retransmissionQueue
-	for e := q.Front(); e != nil; e = e.Next() {
-		if nm, ok := e.Value.(ua.NotificationMessage); ok {
-			if req.RetransmitSequenceNumber == nm.SequenceNumber {
-				err := ch.Write(
-					&ua.RepublishResponse{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHeader.RequestHandle,
-						},
-						NotificationMessage: nm,
-					},
-					requestid,
-				)
-				if err != nil {
-					return err
-				}
-				s.republishMessageCount++
-				q.Remove(e)
-				e.Value = nil
-				return nil
-			}
+	// the message stays available until the client acknowledges it.
+	if nm, ok := s.republish(req.RetransmitSequenceNumber); ok {
+		err := ch.Write(
+			&ua.RepublishResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				NotificationMessage: nm,
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
 		}
+		return nil
 	}
 	session.republishErrorCount++
 	session.errorCount++
diff --git a/server/subscription.go b/server/subscription.go
index 8a46612..bc2279d 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -279,6 +279,23 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	return false
 }
 
+// republish finds a message in the retransmission queue.
+func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
+	s.Lock()
+	defer s.Unlock()
+	s.lifetimeCount = 0
+	s.republishRequestCount++
+	s.republishMessageRequestCount++
+	q := s.retransmissionQueue
+	for e := q.Front(); e != nil; e = e.Next() {
+		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+			s.republishMessageCount++
+			return nm, true
+		}
+	}
+	return ua.NotificationMessage{}, false
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
-- 
2.43.0


From 485db5c8c402fa304a1d5e31fcdb16f8703bbf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:08 +0000
Subject: [PATCH 06/93] fix: let only the session that owns a subscription act
 on it

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 9ad49d7..4dcf61d 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3760,7 +3760,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4274,7 +4274,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4439,7 +4439,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4622,7 +4622,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5335,7 +5335,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5497,7 +5497,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From e6baaacd1416a78c1692ad29b320b69a106904ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 07/93] fix: a publish request with timeout hint 0 never
 expires

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..788afd2 100644
--- a/server/session.go
+++ b/server/session.go
@@ -322,7 +322,7 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			rid := op.requestId
 			results := op.results
 			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			if hint := req.RequestHeader.TimeoutHint; hint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(hint)*time.Millisecond)) {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From a850cafa41b9839c79c8d4a994ed605f02e37952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:15 +0000
Subject: [PATCH 08/93] fix: reject a publish request of a session without
 subscriptions even if others have some

---
 server/server_service_set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 4dcf61d..8484e3f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5383,7 +5383,8 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	default:
 	}
 
-	if sm.Len() == 0 {
+	subs := sm.GetBySession(session)
+	if len(subs) == 0 {
 		session.publishErrorCount++
 		session.errorCount++
 		err := ch.Write(
@@ -5402,7 +5403,6 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 		return nil
 	}
 
-	subs := sm.GetBySession(session)
 	sort.Slice(subs, func(i, j int) bool {
 		return subs[i].priority > subs[j].priority
 	})
-- 
2.43.0


From c7244a58ea3141bd9ae66f52459cef637a14484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:37 +0000
Subject: [PATCH 09/93] fix: a monitored item that triggers itself, or two that
 trigger each other, must not deadlock

---
 server/datachange_monitored_item.go | 16 ++++++----------
 server/event_monitored_item.go      | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 90efd89..5a6e062 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -37,7 +37,7 @@ type DataChangeMonitoredItem struct {
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
-	triggered           bool
+	triggered           atomic.Bool
 }
 
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
@@ -112,16 +112,12 @@ func (mi *DataChangeMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -350,8 +346,8 @@ func (mi *DataChangeMonitoredItem) notifications(max int) (notifications []any,
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -412,7 +408,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			mi.previousQueuedValue = v
 		}
 	}
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue) bool {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index c8b09c7..4aabbdd 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -28,7 +28,7 @@ type EventMonitoredItem struct {
 	sub              *Subscription
 	srv              *Server
 	triggeredItems   []MonitoredItem
-	triggered        bool
+	triggered        atomic.Bool
 }
 
 // NewEventMonitoredItem constructs a new EventMonitoredItem.
@@ -99,16 +99,12 @@ func (mi *EventMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -307,8 +303,8 @@ func (mi *EventMonitoredItem) notifications(max int) (notifications []any, more
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -323,7 +319,7 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 		return false
 	}
 
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
-- 
2.43.0


From 084305e8c639ebf3b75bae5d26923c1bca16c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:14 +0000
Subject: [PATCH 10/93] fix: compare arrays element by element and unsigned
 values without underflow in the absolute deadband

---
 server/datachange_monitored_item.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 5a6e062..1a1dfce 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -3,7 +3,6 @@
 package server
 
 import (
-	"bytes"
 	"math"
 	"reflect"
 	"sync/atomic"
@@ -459,7 +458,7 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 	switch vc.Kind() {
 	case reflect.Array:
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
@@ -474,20 +473,24 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 		if vc.UnsafePointer() == vp.UnsafePointer() {
 			return true
 		}
-		// special case for []byte, which is common.
-		if vc.Type().Elem().Kind() == reflect.Uint8 {
-			return bytes.Equal(vc.Bytes(), vp.Bytes())
-		}
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
 		return true
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return math.Abs(float64(vc.Int()-vp.Int())) <= deadband
+		c, p := vc.Int(), vp.Int()
+		if c < p {
+			c, p = p, c
+		}
+		return float64(uint64(c)-uint64(p)) <= deadband
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return math.Abs(float64(vc.Uint()-vp.Uint())) <= deadband
+		c, p := vc.Uint(), vp.Uint()
+		if c < p {
+			c, p = p, c
+		}
+		return float64(c-p) <= deadband
 	case reflect.Float32, reflect.Float64:
 		return math.Abs(vc.Float()-vp.Float()) <= deadband
 	}
-- 
2.43.0


From 1af72c4c9c55f27fa27def4bc114be77fe00764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 11/93] fix: revise a sampling interval that is not a number

---
 server/datachange_monitored_item.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 1a1dfce..ac5df66 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -203,6 +203,9 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 }
 
 func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64) {
+	if math.IsNaN(samplingInterval) {
+		samplingInterval = mi.minSamplingInterval
+	}
 	switch mi.itemToMonitor.AttributeID {
 	case ua.AttributeIDValue:
 		if samplingInterval < 0 {
-- 
2.43.0


From cc6bb431795ceb1b5a928ffaf6ecf554e1788c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:00 +0000
Subject: [PATCH 12/93] fix: deleting a subscription is idempotent and cannot
 deadlock with the expiry check

---
 server/datachange_monitored_item.go | 11 ++++++---
 server/event_monitored_item.go      |  3 +--
 server/server_service_set.go        |  2 ++
 server/subscription.go              | 38 ++++++++++++++++++++---------
 server/subscription_manager.go      | 37 ++++++++++++++--------------
 5 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index ac5df66..2bb6fc2 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -137,11 +137,10 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 func (mi *DataChangeMonitoredItem) Delete() {
 	mi.Lock()
 	defer mi.Unlock()
+	mi.node = nil
 	mi.stopMonitoring()
 	mi.queue.Clear()
-	mi.node = nil
 	mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
-	mi.sub = nil
 	mi.prequeue.Clear()
 	mi.triggeredItems = nil
 }
@@ -150,7 +149,7 @@ func (mi *DataChangeMonitoredItem) Delete() {
 func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.node == nil || mi.monitoringMode == mode {
 		return
 	}
 	mi.stopMonitoring()
@@ -247,7 +246,7 @@ func (mi *DataChangeMonitoredItem) setFilter(filter any) {
 
 func (mi *DataChangeMonitoredItem) startMonitoring() {
 	mi.ts = time.Now()
-	if mi.monitoringMode == ua.MonitoringModeDisabled {
+	if mi.node == nil || mi.monitoringMode == ua.MonitoringModeDisabled {
 		return
 	}
 	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
@@ -255,6 +254,10 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	mi.Unlock()
 	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
 	mi.Lock()
+	if mi.node == nil {
+		// deleted in the meantime
+		mi.stopMonitoring()
+	}
 }
 
 func (mi *DataChangeMonitoredItem) stopMonitoring() {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 4aabbdd..f7e0636 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -128,7 +128,6 @@ func (mi *EventMonitoredItem) Delete() {
 	mi.stopMonitoring()
 	mi.queue.Clear()
 	mi.node = nil
-	mi.sub = nil
 	mi.triggeredItems = nil
 }
 
@@ -136,7 +135,7 @@ func (mi *EventMonitoredItem) Delete() {
 func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.node == nil || mi.monitoringMode == mode {
 		return
 	}
 	mi.stopMonitoring()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index 8484e3f..619db3f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4870,7 +4870,9 @@ func (srv *Server) handleCreateSubscription(ch *serverSecureChannel, requestid u
 		}
 		return nil
 	}
+	s.Lock()
 	s.startPublishing()
+	s.Unlock()
 	// log.Printf("Created subscription '%d'.\n", s.id)
 
 	err := ch.Write(
diff --git a/server/subscription.go b/server/subscription.go
index bc2279d..af6c829 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -45,6 +45,7 @@ type Subscription struct {
 	session                      *Session
 	manager                      *SubscriptionManager
 	retransmissionQueue          *list.List
+	deleted                      bool
 	diagnosticsNodeId            ua.NodeID
 	sessionId                    ua.NodeID
 	modifyCount                  uint32
@@ -96,22 +97,19 @@ func (s *Subscription) Delete() {
 	s.deleteImpl()
 }
 
+// deleteImpl may be called more than once, as a client may delete the subscription,
+// or close its session, while the subscription expires.
 func (s *Subscription) deleteImpl() {
+	if s.deleted {
+		return
+	}
+	s.deleted = true
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
 		item.Delete()
 	}
-	s.items = nil
-	q := s.retransmissionQueue
-	// log.Printf("Empty retransmissionQueue len: %d\n", q.Len())
-	for e := q.Front(); e != nil; e = e.Next() {
-		q.Remove(e)
-		e.Value = nil
-	}
-	s.retransmissionQueue = nil
-	s.session = nil
-	s.manager = nil
+	s.retransmissionQueue.Init()
 }
 
 func (s *Subscription) Items() []MonitoredItem {
@@ -135,6 +133,10 @@ func (s *Subscription) AppendItem(item MonitoredItem) bool {
 	s.Lock()
 	defer s.Unlock()
 	ret := false
+	if s.deleted {
+		item.Delete()
+		return ret
+	}
 	if _, ok := s.items[item.ID()]; !ok {
 		s.items[item.ID()] = item
 		s.monitoredItemCount++
@@ -172,6 +174,9 @@ func (s *Subscription) SetPublishingMode(publishingEnabled bool) {
 func (s *Subscription) Modify(publishingInterval float64, lifetimeCount uint32, maxKeepAliveCount uint32, maxNotificationsPerPublish uint32, priority byte) {
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		return
+	}
 	s.stopPublishing()
 	s.setPublishingInterval(publishingInterval)
 	s.setMaxKeepAliveCount(maxKeepAliveCount)
@@ -298,6 +303,9 @@ func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
 
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
+	if s.deleted {
+		return
+	}
 	s.cancelPublishing = make(chan struct{})
 
 	go func(done chan struct{}, interval time.Duration, f func(time.Time) error) {
@@ -316,13 +324,19 @@ func (s *Subscription) startPublishing() {
 
 func (s *Subscription) stopPublishing() {
 	// log.Printf("stopPublishing %d \n", s.id)
-	close(s.cancelPublishing)
+	if s.cancelPublishing != nil {
+		close(s.cancelPublishing)
+		s.cancelPublishing = nil
+	}
 }
 
 func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		return nil
+	}
 	notificationsAvailable := false
 	for _, item := range s.items {
 		if item.notificationsAvailable(tn, false, s.resend) {
@@ -519,7 +533,7 @@ func (s *Subscription) publish(tn time.Time) error {
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
-	if !s.isLate {
+	if s.deleted || !s.isLate {
 		return false, nil
 	}
 	tn := time.Now()
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index a1d27fe..a76f2eb 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,22 +95,17 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.Lock()
-	defer m.Unlock()
-	for k, s := range m.subscriptionsByID {
+	// a subscription locks itself before the manager, so do not hold the lock here.
+	m.RLock()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, s := range m.subscriptionsByID {
+		subs = append(subs, s)
+	}
+	m.RUnlock()
+	for _, s := range subs {
 		if s.IsExpired() {
-			delete(m.subscriptionsByID, k)
-			if m.server.serverDiagnostics {
-				// remove diagnostic node
-				nm := m.server.NamespaceManager()
-				if n, ok := nm.FindNode(s.diagnosticsNodeId); ok {
-					nm.DeleteNode(n, true)
-				}
-				m.server.Lock()
-				m.server.serverDiagnosticsSummary.CurrentSubscriptionCount = uint32(len(m.subscriptionsByID))
-				m.server.Unlock()
-			}
-			// log.Printf("Deleted expired subscription '%d'.\n", k)
+			m.Delete(s)
+			// log.Printf("Deleted expired subscription '%d'.\n", s.id)
 			s.Delete()
 		}
 	}
@@ -118,9 +113,15 @@ func (m *SubscriptionManager) checkForExpiredSubscriptions() {
 
 func (m *SubscriptionManager) stopPublishingAllSubscriptions() {
 	m.RLock()
-	defer m.RUnlock()
-	for _, v := range m.subscriptionsByID {
-		v.stopPublishing()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, s := range m.subscriptionsByID {
+		subs = append(subs, s)
+	}
+	m.RUnlock()
+	for _, s := range subs {
+		s.Lock()
+		s.stopPublishing()
+		s.Unlock()
 	}
 }
 
-- 
2.43.0


From 7b830e1521f16a829c367a00828b0ef65984171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:01 +0000
Subject: [PATCH 13/93] fix: a session keeps every pending status change
 instead of blocking the 65th expiring subscription

---
 server/server_service_set.go |  4 +---
 server/session.go            | 22 ++++++++++++++++++++--
 server/subscription.go       |  4 ++--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 619db3f..1c4f0c1 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5349,8 +5349,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	}
 
 	// process status changes
-	select {
-	case op := <-session.stateChanges:
+	if op := session.removeStateChange(); op != nil {
 		// q := s.retransmissionQueue
 		// for e := q.Front(); e != nil && q.Len() >= maxRetransmissionQueueLength; e = e.Next() {
 		// 	q.Remove(e)
@@ -5382,7 +5381,6 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 			return err
 		}
 		return nil
-	default:
 	}
 
 	subs := sm.GetBySession(session)
diff --git a/server/session.go b/server/session.go
index 788afd2..491764a 100644
--- a/server/session.go
+++ b/server/session.go
@@ -36,7 +36,7 @@ type Session struct {
 	sessionNonce                            ua.ByteString
 	lastAccess                              time.Time
 	publishRequests                         chan *publishOp
-	stateChanges                            chan *stateChangeOp
+	stateChanges                            []*stateChangeOp
 	channelId                               uint32
 	securityMode                            ua.MessageSecurityMode
 	securityPolicyURI                       string
@@ -127,7 +127,6 @@ func NewSession(server *Server, sessionId ua.NodeID, sessionName string, authent
 		securityPolicyURI:            ua.SecurityPolicyURINone,
 		lastAccess:                   time.Now(),
 		publishRequests:              make(chan *publishOp, 64),
-		stateChanges:                 make(chan *stateChangeOp, 64),
 		browseCPs:                    make(map[uint32]browseCP, 16),
 		maxBrowseContinuationPoints:  int(server.ServerCapabilities().MaxBrowseContinuationPoints),
 		historyCPs:                   make(map[uint32]time.Time, 16),
@@ -142,6 +141,25 @@ func NewSession(server *Server, sessionId ua.NodeID, sessionName string, authent
 	}
 }
 
+// addStateChange keeps a status change of a subscription until the client publishes.
+func (s *Session) addStateChange(op *stateChangeOp) {
+	s.Lock()
+	defer s.Unlock()
+	s.stateChanges = append(s.stateChanges, op)
+}
+
+// removeStateChange returns the oldest status change, or nil.
+func (s *Session) removeStateChange() *stateChangeOp {
+	s.Lock()
+	defer s.Unlock()
+	if len(s.stateChanges) == 0 {
+		return nil
+	}
+	op := s.stateChanges[0]
+	s.stateChanges = s.stateChanges[1:]
+	return op
+}
+
 func (s *Session) IsExpired() bool {
 	s.RLock()
 	defer s.RUnlock()
diff --git a/server/subscription.go b/server/subscription.go
index af6c829..1f9c2a9 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -453,7 +453,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				PublishTime:      time.Now(),
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
-			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+			s.session.addStateChange(&stateChangeOp{subscriptionId: s.id, message: nm})
 			s.nextSequenceNumber++
 			s.manager.Delete(s)
 			s.deleteImpl()
@@ -519,7 +519,7 @@ func (s *Subscription) publish(tn time.Time) error {
 					PublishTime:      time.Now(),
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
-				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+				s.session.addStateChange(&stateChangeOp{subscriptionId: s.id, message: nm})
 				s.nextSequenceNumber++
 				s.manager.Delete(s)
 				s.deleteImpl()
-- 
2.43.0


From 617b237ec59230dd6166924d67730bfc92542c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:25 +0000
Subject: [PATCH 14/93] fix: an encrypted password is accepted only with the
 nonce of the session

And a password that cannot be decrypted is answered instead of closing the connection.
---
 server/server_service_set.go | 75 ++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1c4f0c1..afa643b 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -11,6 +11,7 @@ import (
 	"crypto/sha256"
 	"crypto/x509"
 	"encoding/binary"
+	"io"
 	"math"
 	"reflect"
 	"sort"
@@ -592,15 +593,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				// decrypt with local private key.
 				plainText, err := rsa.DecryptPKCS1v15(rand.Reader, srv.localPrivateKey, cipherText)
 				if err != nil {
-					return err
+					// not encrypted for this server
+					plainBuf.Reset()
+					break
 				}
 				plainBuf.Write(plainText)
 			}
-			plainLength := uint32(0)
-			if plainBuf.Len() > 0 {
-				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
-			}
-			if plainLength < 32 || plainLength > 96 {
+			password, ok := readPassword(plainBuf, session.SessionNonce())
+			cipherBuf.Reset()
+			plainBuf.Reset()
+			if !ok {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
@@ -616,11 +618,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
-			cipherBuf.Reset()
-			plainBuf.Reset()
-			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
+			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: password}
 
 		case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
 			if userIdentityToken.EncryptionAlgorithm != ua.RsaOaepKeyWrap {
@@ -652,15 +650,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				// decrypt with local private key.
 				plainText, err := rsa.DecryptOAEP(sha1.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
 				if err != nil {
-					return err
+					// not encrypted for this server
+					plainBuf.Reset()
+					break
 				}
 				plainBuf.Write(plainText)
 			}
-			plainLength := uint32(0)
-			if plainBuf.Len() > 0 {
-				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
-			}
-			if plainLength < 32 || plainLength > 96 {
+			password, ok := readPassword(plainBuf, session.SessionNonce())
+			cipherBuf.Reset()
+			plainBuf.Reset()
+			if !ok {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
@@ -676,11 +675,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
-			cipherBuf.Reset()
-			plainBuf.Reset()
-			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
+			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: password}
 
 		case ua.SecurityPolicyURIAes256Sha256RsaPss:
 			if userIdentityToken.EncryptionAlgorithm != ua.RsaOaepSha256KeyWrap {
@@ -712,15 +707,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				// decrypt with local private key.
 				plainText, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
 				if err != nil {
-					return err
+					// not encrypted for this server
+					plainBuf.Reset()
+					break
 				}
 				plainBuf.Write(plainText)
 			}
-			plainLength := uint32(0)
-			if plainBuf.Len() > 0 {
-				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
-			}
-			if plainLength < 32 || plainLength > 96 {
+			password, ok := readPassword(plainBuf, session.SessionNonce())
+			cipherBuf.Reset()
+			plainBuf.Reset()
+			if !ok {
 				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 				srv.serverDiagnosticsSummary.RejectedSessionCount++
 				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
@@ -740,11 +736,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
-			cipherBuf.Reset()
-			plainBuf.Reset()
-			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
+			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: password}
 
 		default:
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(cipherBytes)}
@@ -863,6 +855,23 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
+// readPassword reads the password of a decrypted secret. The secret consists of length, password and
+// the nonce last sent to the client, so that an encrypted password cannot be replayed.
+func readPassword(secret io.Reader, nonce ua.ByteString) (string, bool) {
+	var length uint32
+	if err := binary.Read(secret, binary.LittleEndian, &length); err != nil || length < 32 || length > 96 {
+		return "", false
+	}
+	data := make([]byte, length)
+	if _, err := io.ReadFull(secret, data); err != nil {
+		return "", false
+	}
+	if string(data[length-32:]) != string(nonce) {
+		return "", false
+	}
+	return string(data[:length-32]), true
+}
+
 // closeSession closes a session.
 func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32, req *ua.CloseSessionRequest) error {
 	// discovery only?
-- 
2.43.0


From 2af02f8619b179bb25e97547e97c12155b02c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:29 +0000
Subject: [PATCH 15/93] fix: an authenticator may fail with any error without
 crashing the server

---
 server/server_service_set.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index afa643b..ba1b653 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -819,7 +819,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
 					RequestHandle: req.RequestHandle,
-					ServiceResult: err.(ua.StatusCode),
+					ServiceResult: statusCodeOf(err, ua.BadUserAccessDenied),
 				},
 			},
 			requestid,
@@ -855,6 +855,14 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
+// statusCodeOf returns the status code of an error, or the given default if the error has none.
+func statusCodeOf(err error, code ua.StatusCode) ua.StatusCode {
+	if c, ok := err.(ua.StatusCode); ok && c.IsBad() {
+		return c
+	}
+	return code
+}
+
 // readPassword reads the password of a decrypted secret. The secret consists of length, password and
 // the nonce last sent to the client, so that an encrypted password cannot be replayed.
 func readPassword(secret io.Reader, nonce ua.ByteString) (string, bool) {
-- 
2.43.0


From b3f40cb42f7aee180356c093a0e8d33f48a0ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 16/93] fix: decrypt passwords in blocks of the size of the key

The private exponent may be shorter than the modulus.
---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ba1b653..025f8ee 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -587,7 +587,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -644,7 +644,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -701,7 +701,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
-- 
2.43.0


From 0af333c56aa407b947350c2d6da8bea0e38fada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:36 +0000
Subject: [PATCH 17/93] fix: revise a session timeout that is not a number

---
 server/server_service_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 025f8ee..dcc4225 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -213,7 +213,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		sessionName = req.ClientDescription.ApplicationURI
 	}
 	sessionTimeout := req.RequestedSessionTimeout
-	if sessionTimeout < minSessionTimeout {
+	if sessionTimeout < minSessionTimeout || math.IsNaN(sessionTimeout) {
 		sessionTimeout = minSessionTimeout
 	}
 	if sessionTimeout > maxSessionTimeout {
-- 
2.43.0


From 001213f1cdc15d4366222f05278de2777a1c245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:03 +0000
Subject: [PATCH 18/93] fix: a session is created only with the certificate
 that secures the channel

---
 server/server_service_set.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index dcc4225..9788923 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"bytes"
 	"context"
 	"crypto"
 	"crypto/rand"
@@ -105,6 +106,28 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 	case ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256,
 		ua.SecurityPolicyURIAes128Sha256RsaOaep, ua.SecurityPolicyURIAes256Sha256RsaPss:
 
+		// check client certificate is the one that secures the channel.
+		if cert := leafCertificate([]byte(req.ClientCertificate)); cert == nil || !bytes.Equal(cert, leafCertificate(ch.RemoteCertificate())) {
+			srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+			srv.serverDiagnosticsSummary.RejectedSessionCount++
+			srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+			srv.serverDiagnosticsSummary.RejectedRequestsCount++
+			err := ch.Write(
+				&ua.ServiceFault{
+					ResponseHeader: ua.ResponseHeader{
+						Timestamp:     time.Now(),
+						RequestHandle: req.RequestHandle,
+						ServiceResult: ua.BadSecurityChecksFailed,
+					},
+				},
+				requestid,
+			)
+			if err != nil {
+				return err
+			}
+			return nil
+		}
+
 		// check client application uri matches one of the client certificate's san.
 		valid := false
 		if appuri := req.ClientDescription.ApplicationURI; appuri != "" {
@@ -277,6 +300,15 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 	return nil
 }
 
+// leafCertificate returns the first certificate of a chain.
+func leafCertificate(chain []byte) []byte {
+	crts, err := x509.ParseCertificates(chain)
+	if err != nil || len(crts) == 0 {
+		return nil
+	}
+	return crts[0].Raw
+}
+
 // handleActivateSession activates a session.
 func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint32, req *ua.ActivateSessionRequest) error {
 	// discovery only?
-- 
2.43.0


From 0be658dc41bd09efeacef89547b7c65592349cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:07 +0000
Subject: [PATCH 19/93] fix: a session is activated only by the client that
 created it

---
 server/server_service_set.go | 23 +++++++++++++++++++++++
 server/session.go            |  1 +
 2 files changed, 24 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 9788923..2c53377 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -255,6 +255,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		req.ClientCertificate,
 		req.MaxResponseMessageSize,
 	)
+	session.channelCertificate = leafCertificate(ch.RemoteCertificate())
 	err := srv.SessionManager().Add(session)
 	if err != nil {
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
@@ -342,6 +343,28 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		return nil
 	}
 
+	// check that the client is the one that created the session.
+	if !bytes.Equal(session.channelCertificate, leafCertificate(ch.RemoteCertificate())) {
+		srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+		srv.serverDiagnosticsSummary.RejectedSessionCount++
+		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadSecurityChecksFailed,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	// verify the client's signature.
 	var err error
 	switch ch.SecurityPolicyURI() {
diff --git a/server/session.go b/server/session.go
index 491764a..02dbfc6 100644
--- a/server/session.go
+++ b/server/session.go
@@ -41,6 +41,7 @@ type Session struct {
 	securityMode                            ua.MessageSecurityMode
 	securityPolicyURI                       string
 	clientCertificate                       ua.ByteString
+	channelCertificate                      []byte
 	browseCPs                               map[uint32]browseCP
 	lastBrowseCP                            uint32
 	maxBrowseContinuationPoints             int
-- 
2.43.0


From 4a41354a4ccb220a8458ae003d829a1fb30222a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 20/93] fix: publish requests of a closed session are answered

A deleted session no longer blocks or panics the requests still using it, and a publish
request of a former channel no longer fails the request that replaces it.
---
 server/session.go | 61 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/server/session.go b/server/session.go
index 02dbfc6..45a322b 100644
--- a/server/session.go
+++ b/server/session.go
@@ -36,6 +36,7 @@ type Session struct {
 	sessionNonce                            ua.ByteString
 	lastAccess                              time.Time
 	publishRequests                         chan *publishOp
+	deleted                                 bool
 	stateChanges                            []*stateChangeOp
 	channelId                               uint32
 	securityMode                            ua.MessageSecurityMode
@@ -178,18 +179,45 @@ func (s *Session) delete() {
 	s.securityPolicyURI = ua.SecurityPolicyURINone
 	s.sessionNonce = ua.ByteString("")
 	s.clientCertificate = ua.ByteString("")
-	s.publishRequests = nil
+	s.deleted = true
+	ops := []*publishOp{}
+	for len(s.publishRequests) > 0 {
+		select {
+		case op := <-s.publishRequests:
+			ops = append(ops, op)
+		default:
+		}
+	}
+	if len(ops) > 0 {
+		go func() {
+			for _, op := range ops {
+				op.reject(ua.BadSessionClosed)
+			}
+		}()
+	}
 	for k := range s.browseCPs {
 		delete(s.browseCPs, k)
 	}
-	s.browseCPs = nil
 	for k := range s.historyCPs {
 		delete(s.historyCPs, k)
 	}
-	s.historyCPs = nil
 	s.clientUserIdHistory = nil
 }
 
+// reject answers the publish request with a fault.
+func (op *publishOp) reject(code ua.StatusCode) error {
+	return op.ch.Write(
+		&ua.ServiceFault{
+			ResponseHeader: ua.ResponseHeader{
+				Timestamp:     time.Now(),
+				RequestHandle: op.req.RequestHandle,
+				ServiceResult: code,
+			},
+		},
+		op.requestId,
+	)
+}
+
 func (s *Session) SessionId() ua.NodeID {
 	s.RLock()
 	defer s.RUnlock()
@@ -309,25 +337,26 @@ func (s *Session) ClientCertificate() ua.ByteString {
 }
 
 func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) error {
+	op := &publishOp{ch, requestid, req, results}
 	for {
+		s.RLock()
+		if s.deleted {
+			s.RUnlock()
+			return op.reject(ua.BadSessionClosed)
+		}
 		select {
-		case s.publishRequests <- &publishOp{ch, requestid, req, results}:
+		case s.publishRequests <- op:
+			s.RUnlock()
 			return nil
 		default:
-			op := <-s.publishRequests
-			err := op.ch.Write(
-				&ua.ServiceFault{
-					ResponseHeader: ua.ResponseHeader{
-						Timestamp:     time.Now(),
-						RequestHandle: op.req.RequestHandle,
-						ServiceResult: ua.BadTooManyPublishRequests,
-					},
-				},
-				op.requestId,
-			)
-			if err != nil {
+			s.RUnlock()
+		}
+		select {
+		case oldest := <-s.publishRequests:
+			if err := oldest.reject(ua.BadTooManyPublishRequests); err != nil && oldest.ch == ch {
 				return err
 			}
+		default:
 		}
 	}
 }
-- 
2.43.0


From db9a35b5d4140d37ab91e83328e1cf4b27b4628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:36 +0000
Subject: [PATCH 21/93] fix: writing to a historizing variable without
 historian no longer panics

---
 server/variable_node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/variable_node.go b/server/variable_node.go
index 57a526f..25ad389 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -131,7 +131,7 @@ func (n *VariableNode) SetValue(value ua.DataValue) {
 	n.Lock()
 	defer n.Unlock()
 	n.value = value
-	if n.historizing {
+	if n.historizing && n.historian != nil {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
 	}
 }
-- 
2.43.0


From bbd472391f7fc7701b7233172dc198eeb8795901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:01 +0000
Subject: [PATCH 22/93] fix: writing elements of another type is refused
 instead of crashing the server

---
 server/server_service_set.go | 136 ++++++++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 27 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 2c53377..0913221 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3056,7 +3056,11 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := []rune(value.Value.(string))
+		s2, ok := value.Value.(string)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
+		v2 := []rune(s2)
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3072,7 +3076,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.(ua.ByteString)
+		v2, ok := value.Value.(ua.ByteString)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3088,7 +3095,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]bool)
+		v2, ok := value.Value.([]bool)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3104,7 +3114,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int8)
+		v2, ok := value.Value.([]int8)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3120,7 +3133,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]byte)
+		v2, ok := value.Value.([]byte)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3136,7 +3152,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int16)
+		v2, ok := value.Value.([]int16)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3152,7 +3171,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint16)
+		v2, ok := value.Value.([]uint16)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3168,7 +3190,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int32)
+		v2, ok := value.Value.([]int32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3184,7 +3209,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint32)
+		v2, ok := value.Value.([]uint32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3200,7 +3228,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int64)
+		v2, ok := value.Value.([]int64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3216,7 +3247,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint64)
+		v2, ok := value.Value.([]uint64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3232,7 +3266,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]float32)
+		v2, ok := value.Value.([]float32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3248,7 +3285,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]float64)
+		v2, ok := value.Value.([]float64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3264,7 +3304,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]string)
+		v2, ok := value.Value.([]string)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3280,7 +3323,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]time.Time)
+		v2, ok := value.Value.([]time.Time)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3296,7 +3342,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uuid.UUID)
+		v2, ok := value.Value.([]uuid.UUID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3312,7 +3361,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ByteString)
+		v2, ok := value.Value.([]ua.ByteString)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3328,7 +3380,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.XMLElement)
+		v2, ok := value.Value.([]ua.XMLElement)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3344,7 +3399,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.NodeID)
+		v2, ok := value.Value.([]ua.NodeID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3360,7 +3418,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ExpandedNodeID)
+		v2, ok := value.Value.([]ua.ExpandedNodeID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3376,7 +3437,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.StatusCode)
+		v2, ok := value.Value.([]ua.StatusCode)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3392,7 +3456,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.QualifiedName)
+		v2, ok := value.Value.([]ua.QualifiedName)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3408,7 +3475,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.LocalizedText)
+		v2, ok := value.Value.([]ua.LocalizedText)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3424,7 +3494,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ExtensionObject)
+		v2, ok := value.Value.([]ua.ExtensionObject)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3440,7 +3513,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.DataValue)
+		v2, ok := value.Value.([]ua.DataValue)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3456,7 +3532,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.Variant)
+		v2, ok := value.Value.([]ua.Variant)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3472,7 +3551,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.DiagnosticInfo)
+		v2, ok := value.Value.([]ua.DiagnosticInfo)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
-- 
2.43.0


From 8e466b5945caf318731caa740733d3c156cdc9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:40 +0000
Subject: [PATCH 23/93] fix: concurrent writes of elements of a variable are
 not lost

---
 server/server_service_set.go | 3 +++
 server/variable_node.go      | 1 +
 2 files changed, 4 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 0913221..3572c0e 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6170,6 +6170,9 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 				return status
 			} else {
+				// no other write may come between reading and setting the value
+				n1.writeLock.Lock()
+				defer n1.writeLock.Unlock()
 				result, status := writeRange(n1.Value(), writeValue.Value, writeValue.IndexRange)
 				if status == ua.Good {
 					n1.SetValue(result)
diff --git a/server/variable_node.go b/server/variable_node.go
index 25ad389..1302cf1 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -25,6 +25,7 @@ type VariableNode struct {
 	accessLevel             byte
 	minimumSamplingInterval float64
 	historizing             bool
+	writeLock               sync.Mutex
 	historian               HistoryReadWriter
 	readValueHandler        func(*Session, ua.ReadValueID) ua.DataValue
 	writeValueHandler       func(*Session, ua.WriteValue) (ua.DataValue, ua.StatusCode)
-- 
2.43.0


From c4813719b536c0012bc1fa1e573e0c473f8224e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:37 +0000
Subject: [PATCH 24/93] fix: visit every child once, so that deleting a node
 terminates when its children form a cycle and counts shared children once

---
 server/namespace_manager.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 7b878d2..5596e77 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -574,21 +574,19 @@ func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
-	type queuedItem struct {
-		Node    Node
-		Visited bool
-	}
-	queue := deque.Deque[queuedItem]{}
-	queue.PushBack(queuedItem{node, false})
+	visited := map[ua.NodeID]struct{}{node.NodeID(): {}}
+	queue := deque.Deque[Node]{}
+	queue.PushBack(node)
 	for queue.Len() > 0 {
 		item := queue.PopFront()
-		if item.Visited {
-			continue
-		}
-		for _, r := range item.Node.References() {
+		for _, r := range item.References() {
 			if !r.IsInverse && (withRefTypes == nil || Contains(withRefTypes, r.ReferenceTypeID)) {
 				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok {
-					queue.PushBack(queuedItem{target, false})
+					if _, ok := visited[target.NodeID()]; ok {
+						continue
+					}
+					visited[target.NodeID()] = struct{}{}
+					queue.PushBack(target)
 					children = append(children, target)
 				}
 			}
-- 
2.43.0


From 82c15fdd0962bdd3724b198c627b0f0bc0263171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:41 +0000
Subject: [PATCH 25/93] fix: GetSubTypes follows the HasSubtype references
 instead of looping forever on the node itself

---
 server/namespace_manager.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 5596e77..b00dbef 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -556,19 +556,9 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
-	children := []Node{}
-	queue := deque.Deque[Node]{}
-	queue.PushBack(node)
-	for queue.Len() > 0 {
-		node := queue.PopFront()
-		for _, r := range node.References() {
-			if !r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
-				queue.PushBack(node)
-				children = append(children, node)
-			}
-		}
-	}
-	return children
+	m.RLock()
+	defer m.RUnlock()
+	return m.GetChildren(node, m.namespaces, []ua.NodeID{ua.ReferenceTypeIDHasSubtype})
 }
 
 // GetChildren traverses the tree to get all target nodes with the given reference types.
-- 
2.43.0


From 5d949c777639a7becfe2c9959fc1b4c0b3c334a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:45 +0000
Subject: [PATCH 26/93] fix: a reference to a missing node does not fail the
 browse of all other references

---
 server/server_service_set.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 3572c0e..eca3270 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1327,9 +1327,7 @@ func (srv *Server) handleBrowse(ch *serverSecureChannel, requestid uint32, req *
 				}
 				t, ok := m.FindNode(ua.ToNodeID(r.TargetID, srv.NamespaceUris()))
 				if !ok {
-					results[i] = ua.BrowseResult{StatusCode: ua.BadNodeIDUnknown}
-					wg.Done()
-					return
+					continue
 				}
 				rp2 := t.UserRolePermissions(session.UserIdentity())
 				if !IsUserPermitted(rp2, ua.PermissionTypeBrowse) {
-- 
2.43.0


From a173a9efb86bce3c7777040a17e6bf2e4693bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:48 +0000
Subject: [PATCH 27/93] fix: a continuation point of the wrong length is
 invalid (was: panic that ends the server, or taken for another one)

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 45a322b..c904d67 100644
--- a/server/session.go
+++ b/server/session.go
@@ -407,7 +407,7 @@ func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max
 }
 
 func (s *Session) removeBrowseContinuationPoint(cp []byte) ([]ua.ReferenceDescription, int, bool) {
-	if cp == nil {
+	if len(cp) != 4 {
 		return nil, 0, false
 	}
 	s.Lock()
-- 
2.43.0


From c4d3262c4e3e49f4bf4831b8f9ffef5430cfb1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:19 +0000
Subject: [PATCH 28/93] fix: translating a browse path follows every node that
 matches an element, not only the first

---
 server/server_service_set.go | 67 +++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index eca3270..7161273 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1740,7 +1740,7 @@ func (srv *Server) handleTranslateBrowsePathsToNodeIds(ch *serverSecureChannel,
 					return
 				}
 			}
-			targets, err1 := srv.follow(d.StartingNode, d.RelativePath.Elements)
+			targets, err1 := srv.follow(session, d.StartingNode, d.RelativePath.Elements)
 			if err1 == ua.BadNodeIDUnknown {
 				results[i] = ua.BrowsePathResult{StatusCode: ua.BadNodeIDUnknown, Targets: []ua.BrowsePathTarget{}}
 				wg.Done()
@@ -2048,48 +2048,45 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
-func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
+func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
-	} else if len(elements) == 1 {
-		ns, err2 := srv.target(nodeID, elements[0])
-		if err2 != nil {
-			return nil, err2
-		}
-		targets := make([]ua.BrowsePathTarget, len(ns))
-		for i, n := range ns {
-			targets[i] = ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32}
-		}
-		return targets, nil
-	} else {
-		e := elements[0]
-		ns2, err3 := srv.target(nodeID, e)
-		if err3 != nil {
-			return nil, err3
-		}
-		var nextID ua.ExpandedNodeID
-		if len(ns2) > 0 {
-			nextID = ns2[0]
-		}
-		nextElements := make([]ua.RelativePathElement, len(elements)-1)
-		copy(nextElements, elements[1:])
-		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
-		if ok {
-			return srv.follow(nextNode.NodeID(), nextElements)
+	}
+	uris := srv.NamespaceUris()
+	found, err := srv.target(session, nodeID, elements[0])
+	if err != nil {
+		return nil, err
+	}
+	for _, element := range elements[1:] {
+		next := make([]ua.ExpandedNodeID, 0, len(found))
+		seen := make(map[ua.NodeID]struct{}, len(found))
+		for _, id := range found {
+			ids, err := srv.target(session, ua.ToNodeID(id, uris), element)
+			if err != nil {
+				continue
+			}
+			for _, t := range ids {
+				n := ua.ToNodeID(t, uris)
+				if _, ok := seen[n]; !ok {
+					seen[n] = struct{}{}
+					next = append(next, t)
+				}
+			}
 		}
-		if len(nextElements) == 0 {
-			return []ua.BrowsePathTarget{
-				{TargetID: nextID, RemainingPathIndex: math.MaxUint32},
-			}, nil
+		if len(next) == 0 {
+			return nil, ua.BadNoMatch
 		}
-		return []ua.BrowsePathTarget{
-			{TargetID: nextID, RemainingPathIndex: uint32(len(nextElements))},
-		}, nil
+		found = next
+	}
+	targets := make([]ua.BrowsePathTarget, len(found))
+	for i, id := range found {
+		targets[i] = ua.BrowsePathTarget{TargetID: id, RemainingPathIndex: math.MaxUint32}
 	}
+	return targets, nil
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
+func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
 	referenceTypeID := element.ReferenceTypeID
 	includeSubtypes := element.IncludeSubtypes
 	isInverse := element.IsInverse
-- 
2.43.0


From b2322dff8fcb7e8e67f81f99490b74100da4da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:23 +0000
Subject: [PATCH 29/93] fix: translating a browse path does not reveal nodes
 the user may not browse

---
 server/server_service_set.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 7161273..a799be8 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2096,6 +2096,9 @@ func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.Relativ
 	if !ok {
 		return nil, ua.BadNodeIDUnknown
 	}
+	if !IsUserPermitted(node.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+		return nil, ua.BadNodeIDUnknown
+	}
 	refs := node.References()
 	targets := make([]ua.ExpandedNodeID, 0, 4)
 	for _, r := range refs {
@@ -2112,6 +2115,9 @@ func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.Relativ
 		if !(targetName == t.BrowseName()) {
 			continue
 		}
+		if !IsUserPermitted(t.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			continue
+		}
 		targets = append(targets, r.TargetID)
 	}
 	if len(targets) == 0 {
-- 
2.43.0


From cc6eeddaa62ffb185929d4a39011aaa249070fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 30/93] fix: refuse a hello message with buffer sizes below the
 minimum

---
 server/server_secure_channel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 43fcd48..95e50c5 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -37,6 +37,8 @@ const (
 	defaultMaxChunkCount uint32 = 4 * 1024
 	// sequenceHeaderSize is the size of the sequence header
 	sequenceHeaderSize int = 8
+	// minBufferSize is the smallest buffer size a client may announce in the hello message.
+	minBufferSize uint32 = 8192
 	// the minimum number of milliseconds that a Token may be used before being renewed by the client. (5 min)
 	minTokenLifetime uint32 = 300 * 1000
 	// the maximum number of milliseconds that a Token may be used before being renewed by the client. (60 min)
@@ -236,6 +238,10 @@ func (ch *serverSecureChannel) Open() error {
 		return ua.BadDecodingError
 	}
 
+	if cliReceiveBufferSize < minBufferSize || cliSendBufferSize < minBufferSize {
+		return ua.BadConnectionRejected
+	}
+
 	var writer = ua.NewWriter(buf)
 	var enc = ua.NewBinaryEncoder(writer, ec)
 
-- 
2.43.0


From 4f895cdd5c4825b6b32ebd549dd44ea06fd9bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 31/93] fix: open a secure channel only with the security of
 one of the server's endpoints

---
 server/server_secure_channel.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 95e50c5..4a771a5 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -297,8 +297,11 @@ func (ch *serverSecureChannel) Open() error {
 			break
 		}
 	}
-	// connecting for discovery only
-	if ch.localEndpoint.EndpointURL == "" && ch.securityPolicyURI == ua.SecurityPolicyURINone && ch.securityMode == ua.MessageSecurityModeNone {
+	if ch.localEndpoint.EndpointURL == "" {
+		if ch.securityPolicyURI != ua.SecurityPolicyURINone || ch.securityMode != ua.MessageSecurityModeNone {
+			return ua.BadSecurityModeRejected
+		}
+		// connecting for discovery only
 		ch.discoveryOnly = true
 		ch.localEndpoint = ua.EndpointDescription{
 			EndpointURL:       ch.srv.localDescription.DiscoveryURLs[0],
-- 
2.43.0


From d0f56c50dd9fa041961f244bbc7018435fd4582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 32/93] fix: renewing the token of a secure channel cannot
 change its security

---
 server/server_secure_channel.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 4a771a5..a1cdbca 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1053,6 +1053,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 	// read chunks
 	var chunkCount int32
 	var isFinal bool
+	var isOpen bool
 
 	for !isFinal {
 		chunkCount++
@@ -1224,17 +1225,33 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 			// asymmetric header
-			if err := decoder.ReadString(&ch.securityPolicyURI); err != nil {
+			var securityPolicyURI string
+			if err := decoder.ReadString(&securityPolicyURI); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificate); err != nil {
+			var remoteCertificate, remoteCertificateThumbprint []byte
+			if err := decoder.ReadByteArray(&remoteCertificate); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificateThumbprint); err != nil {
+			if err := decoder.ReadByteArray(&remoteCertificateThumbprint); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
 			plainHeaderSize = count - stream.Len()
 
+			// the security of an open channel does not change when renewing the token
+			if ch.pendingTokenID != 0 {
+				if channelID != ch.channelID {
+					return nil, 0, ua.BadTCPSecureChannelUnknown
+				}
+				if securityPolicyURI != ch.securityPolicyURI || !bytes.Equal(remoteCertificate, ch.remoteCertificate) {
+					return nil, 0, ua.BadSecurityChecksFailed
+				}
+			}
+			ch.securityPolicyURI = securityPolicyURI
+			ch.remoteCertificate = remoteCertificate
+			ch.remoteCertificateThumbprint = remoteCertificateThumbprint
+			isOpen = true
+
 			// setSecurityPolicy
 			switch ch.securityPolicyURI {
 			case ua.SecurityPolicyURINone:
@@ -1461,6 +1478,11 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 		return nil, 0, ua.BadDecodingError
 	}
 
+	// an OpenSecureChannelRequest is the only request that is secured by the asymmetric algorithms
+	if _, ok := temp.(*ua.OpenSecureChannelRequest); ok != isOpen {
+		return nil, 0, ua.BadSecurityChecksFailed
+	}
+
 	// decode fields from message stream
 	if err := bodyDecoder.Decode(temp); err != nil {
 		return nil, 0, ua.BadDecodingError
@@ -1479,6 +1501,9 @@ func (ch *serverSecureChannel) handleOpenSecureChannel(requestid uint32, req *ua
 	if req.RequestType != ua.SecurityTokenRequestTypeRenew {
 		return ua.BadSecurityChecksFailed
 	}
+	if req.SecurityMode != ch.securityMode {
+		return ua.BadSecurityModeRejected
+	}
 
 	if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 		ch.localNonce = getNextNonce(ch.securityPolicy.NonceSize())
-- 
2.43.0


From c2aac8cb8e1d45183ae614c19af22c0f190ea042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 33/93] fix: verify the sequence numbers and request ids of the
 chunks received by the server

---
 server/server_secure_channel.go | 50 ++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index a1cdbca..b728ee9 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -67,6 +67,8 @@ type serverSecureChannel struct {
 	sendingSemaphore            sync.Mutex
 	receivingSemaphore          sync.Mutex
 	lastSequenceNumber          uint32
+	remoteSequenceNumber        uint32
+	hasRemoteSequenceNumber     bool
 	pendingTokenID              uint32
 	pendingTokenExpiration      time.Time
 	tokenID                     uint32
@@ -1184,13 +1186,8 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
-				return nil, 0, ua.BadDecodingError
-			}
-
-			if err = decoder.ReadUInt32(&id); err != nil {
-				return nil, 0, ua.BadDecodingError
+			if err := ch.readSequenceHeader(decoder, chunkCount == 1, &id); err != nil {
+				return nil, 0, err
 			}
 
 			// body
@@ -1238,6 +1235,11 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 			plainHeaderSize = count - stream.Len()
 
+			// an OpenSecureChannelRequest is a message of one chunk
+			if chunkCount > 1 {
+				return nil, 0, ua.BadSecurityChecksFailed
+			}
+
 			// the security of an open channel does not change when renewing the token
 			if ch.pendingTokenID != 0 {
 				if channelID != ch.channelID {
@@ -1327,13 +1329,8 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// sequence header
-			var unused uint32
-			if err := decoder.ReadUInt32(&unused); err != nil {
-				return nil, 0, ua.BadDecodingError
-			}
-
-			if err := decoder.ReadUInt32(&id); err != nil {
-				return nil, 0, ua.BadDecodingError
+			if err := ch.readSequenceHeader(decoder, chunkCount == 1, &id); err != nil {
+				return nil, 0, err
 			}
 
 			// body
@@ -1497,6 +1494,31 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 	return req, id, nil
 }
 
+// readSequenceHeader reads the sequence header of a chunk. The sequence number must follow that of the previous chunk,
+// and all the chunks of a message must have the same request id.
+func (ch *serverSecureChannel) readSequenceHeader(decoder *ua.BinaryDecoder, isFirst bool, id *uint32) error {
+	var sequenceNumber, requestID uint32
+	if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
+		return ua.BadDecodingError
+	}
+	if err := decoder.ReadUInt32(&requestID); err != nil {
+		return ua.BadDecodingError
+	}
+	if ch.hasRemoteSequenceNumber && sequenceNumber != ch.remoteSequenceNumber+1 {
+		// the sequence numbers may wrap around before reaching the maximum value
+		if ch.remoteSequenceNumber <= math.MaxUint32-1024 || sequenceNumber >= 1024 {
+			return ua.BadSequenceNumberInvalid
+		}
+	}
+	ch.remoteSequenceNumber = sequenceNumber
+	ch.hasRemoteSequenceNumber = true
+	if !isFirst && requestID != *id {
+		return ua.BadSecurityChecksFailed
+	}
+	*id = requestID
+	return nil
+}
+
 func (ch *serverSecureChannel) handleOpenSecureChannel(requestid uint32, req *ua.OpenSecureChannelRequest) error {
 	if req.RequestType != ua.SecurityTokenRequestTypeRenew {
 		return ua.BadSecurityChecksFailed
-- 
2.43.0


From cb3051727771339641fcc11533d78d61d242a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 34/93] fix: malformed chunks cannot crash the server

---
 server/server_secure_channel.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index b728ee9..c95b2b1 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1175,6 +1175,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.securityPolicy.SymSignatureSize()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				if _, err := ch.symVerifyHMAC.Write(ch.receiveBuffer[:sigStart]); err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1211,6 +1214,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, 0, ua.BadDecodingError
+			}
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
 				return nil, 0, err
 			}
@@ -1294,7 +1300,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
-					ch.remotePublicKey = crts[0].PublicKey.(*rsa.PublicKey)
+					ch.remotePublicKey, _ = crts[0].PublicKey.(*rsa.PublicKey)
 				}
 
 				if ch.remotePublicKey == nil {
@@ -1322,6 +1328,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKey.Size()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, ch.receiveBuffer[:sigStart], ch.receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1354,6 +1363,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, 0, ua.BadDecodingError
+			}
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 5f3a44599e25aa9ca5f17ce7896a18019e1f37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 35/93] fix: switch to a new token between messages, not while
 one is being sent

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index c95b2b1..fdd57c7 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1105,7 +1105,6 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				if newTokenID != ch.pendingTokenID {
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
-				ch.tokenID = ch.pendingTokenID
 				ch.tokenExpiration = ch.pendingTokenExpiration
 				ch.conn.SetDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
@@ -1132,6 +1131,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				ch.sendingSemaphore.Lock()
+				ch.tokenID = ch.pendingTokenID
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for signing, encrypting
-- 
2.43.0


From 4d6d6701f6e1a126d6e69b2de8ea16883319ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 36/93] fix: answer a response that exceeds the limits of the
 client with BadResponseTooLarge

---
 server/server_secure_channel.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index fdd57c7..ed58cb5 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -435,7 +435,18 @@ func (ch *serverSecureChannel) Write(res ua.ServiceResponse, id uint32) error {
 	case *ua.OpenSecureChannelResponse:
 		return ch.sendOpenSecureChannelResponse(res1, id)
 	default:
-		return ch.sendServiceResponse(res1, id)
+		err := ch.sendServiceResponse(res1, id)
+		if err == ua.BadResponseTooLarge {
+			// nothing was sent yet
+			return ch.sendServiceResponse(&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: res1.Header().RequestHandle,
+					ServiceResult: ua.BadResponseTooLarge,
+				},
+			}, id)
+		}
+		return err
 	}
 }
 
@@ -922,9 +933,6 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount > i {
-			return ua.BadResponseTooLarge
-		}
 
 		var plainHeaderSize int
 		var paddingHeaderSize int
@@ -963,6 +971,11 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// check the number of chunks before sending the first
+		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount == 1 && bodyCount > i*maxBodySize {
+			return ua.BadResponseTooLarge
+		}
+
 		var stream = ua.NewWriter(ch.sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
-- 
2.43.0


From 770798eac0f9e0f725e555832d8356414fa6eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:40 +0000
Subject: [PATCH 37/93] fix: a message secured by a token that has expired is
 refused

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index ed58cb5..a37279c 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1115,7 +1115,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 
 			// detect new token
 			if ch.tokenID != newTokenID {
-				if newTokenID != ch.pendingTokenID {
+				if newTokenID != ch.pendingTokenID || time.Now().After(ch.pendingTokenExpiration) {
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
 				ch.tokenExpiration = ch.pendingTokenExpiration
-- 
2.43.0


From 3a1464d5dc49d13a5b9823be1ee365004636d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 38/93] fix: any number of requests may wait for their
 responses, and none is kept after it ended

---
 client/client_secure_channel.go | 58 ++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 110b05f..3e7afa3 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -104,7 +104,7 @@ type clientSecureChannel struct {
 	statusCode                 ua.StatusCode
 	sendingSemaphore           sync.Mutex
 	receivingSemaphore         sync.Mutex
-	pendingResponseCh          chan *ua.ServiceOperation
+	pendingResponsesLock       sync.Mutex
 	pendingResponses           map[uint32]*ua.ServiceOperation
 	closing                    bool
 	requestHandle              uint32
@@ -243,27 +243,31 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		header.TimeoutHint = defaultTimeoutHint
 	}
 	var operation = ua.NewServiceOperation(req, make(chan ua.ServiceResponse, 1))
-	ch.pendingResponseCh <- operation
+	ch.addPendingResponse(operation)
+	defer ch.removePendingResponse(header.RequestHandle)
 	ctx, cancel := context.WithDeadline(ctx, header.Timestamp.Add(time.Duration(header.TimeoutHint)*time.Millisecond))
+	defer cancel()
 	err := ch.sendRequest(ctx, operation)
 	if err != nil {
-		cancel()
 		return nil, err
 	}
+	var res ua.ServiceResponse
 	select {
-	case res := <-operation.ResponseCh():
-		cancel()
-		if sr := res.Header().ServiceResult; sr != ua.Good {
-			return nil, sr
-		}
-		return res, nil
+	case res = <-operation.ResponseCh():
 	case <-ctx.Done():
-		cancel()
 		return nil, ua.BadRequestTimeout
 	case <-ch.closed:
-		cancel()
-		return nil, ua.BadSecureChannelClosed
+		// the response may have arrived before the channel was closed
+		select {
+		case res = <-operation.ResponseCh():
+		default:
+			return nil, ua.BadSecureChannelClosed
+		}
 	}
+	if sr := res.Header().ServiceResult; sr != ua.Good {
+		return nil, sr
+	}
+	return res, nil
 }
 
 // Open opens the channel.
@@ -433,7 +437,6 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		ch.remotePublicKeySize = ch.remotePublicKey.Size()
 	}
 
-	ch.pendingResponseCh = make(chan *ua.ServiceOperation, 32)
 	ch.pendingResponses = make(map[uint32]*ua.ServiceOperation)
 	ch.closed = make(chan struct{})
 	ch.channelID = 0
@@ -1732,10 +1735,7 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 // handleResponse directs the response to the correct handler.
 func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
-	ch.mapPendingResponses()
-	hnd := res.Header().RequestHandle
-	if op, ok := ch.pendingResponses[hnd]; ok {
-		delete(ch.pendingResponses, hnd)
+	if op, ok := ch.removePendingResponse(res.Header().RequestHandle); ok {
 		select {
 		case op.ResponseCh() <- res:
 		default:
@@ -1746,16 +1746,20 @@ func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
 	return ua.BadUnknownResponse
 }
 
-// mapPendingResponses maps operations coming from pendingResponseCh.
-func (ch *clientSecureChannel) mapPendingResponses() {
-	for {
-		select {
-		case op := <-ch.pendingResponseCh:
-			ch.pendingResponses[op.Request().Header().RequestHandle] = op
-		default:
-			return
-		}
-	}
+// addPendingResponse adds an operation to those that wait for a response.
+func (ch *clientSecureChannel) addPendingResponse(op *ua.ServiceOperation) {
+	ch.pendingResponsesLock.Lock()
+	defer ch.pendingResponsesLock.Unlock()
+	ch.pendingResponses[op.Request().Header().RequestHandle] = op
+}
+
+// removePendingResponse removes an operation from those that wait for a response.
+func (ch *clientSecureChannel) removePendingResponse(hnd uint32) (*ua.ServiceOperation, bool) {
+	ch.pendingResponsesLock.Lock()
+	defer ch.pendingResponsesLock.Unlock()
+	op, ok := ch.pendingResponses[hnd]
+	delete(ch.pendingResponses, hnd)
+	return op, ok
 }
 
 // renewToken sends request to renew security token.
-- 
2.43.0


From 2f069b802b23f9d79b5c2b526fec7f5ee1a1fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:53 +0000
Subject: [PATCH 39/93] fix: return an error when the response is not of the
 type that answers the request

---
 client/client_secure_channel.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 3e7afa3..afd7065 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -23,6 +23,7 @@ import (
 	"net"
 	"net/url"
 	"reflect"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -267,9 +268,19 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	if sr := res.Header().ServiceResult; sr != ua.Good {
 		return nil, sr
 	}
+	if !isResponseTo(req, res) {
+		return nil, ua.BadUnknownResponse
+	}
 	return res, nil
 }
 
+// isResponseTo returns true if the response is of the type that answers the request.
+func isResponseTo(req ua.ServiceRequest, res ua.ServiceResponse) bool {
+	reqName := reflect.TypeOf(req).Elem().Name()
+	resName := reflect.TypeOf(res).Elem().Name()
+	return strings.TrimSuffix(reqName, "Request") == strings.TrimSuffix(resName, "Response")
+}
+
 // Open opens the channel.
 func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	ch.Lock()
-- 
2.43.0


From 03b0cc0e6ee57cc3556e9bd35ecda1e5b18346b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:56 +0000
Subject: [PATCH 40/93] fix: use the configured timeout hint

---
 client/client_secure_channel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index afd7065..9428349 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -240,6 +240,9 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	header.Timestamp = time.Now()
 	header.RequestHandle = ch.getNextRequestHandle()
 	header.AuthenticationToken = ch.authenticationToken
+	if header.TimeoutHint == 0 {
+		header.TimeoutHint = ch.timeoutHint
+	}
 	if header.TimeoutHint == 0 {
 		header.TimeoutHint = defaultTimeoutHint
 	}
-- 
2.43.0


From d7fd0157a718ef6ab6693d843a7047cfc3844d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 41/93] fix: do not panic when the server returns namespaces of
 another type

---
 client/client.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 0e739b7..8ad74b1 100644
--- a/client/client.go
+++ b/client/client.go
@@ -732,13 +732,15 @@ func (ch *Client) open(ctx context.Context) error {
 	}
 	if len(readResponse.Results) == 2 {
 		if readResponse.Results[0].StatusCode.IsGood() {
-			value := readResponse.Results[0].Value.([]string)
-			ch.channel.SetNamespaceURIs(value)
+			if value, ok := readResponse.Results[0].Value.([]string); ok {
+				ch.channel.SetNamespaceURIs(value)
+			}
 		}
 
 		if readResponse.Results[1].StatusCode.IsGood() {
-			value := readResponse.Results[1].Value.([]string)
-			ch.channel.SetServerURIs(value)
+			if value, ok := readResponse.Results[1].Value.([]string); ok {
+				ch.channel.SetServerURIs(value)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From aa0c430e64d17f16f05376d6062a7401c54ab102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:37 +0000
Subject: [PATCH 42/93] fix: do not panic when the certificate of the server
 has no RSA key

---
 client/client_secure_channel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 9428349..b284e2c 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -188,7 +188,8 @@ func newClientSecureChannel(
 		trace:                                trace,
 	}
 	if certs, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(certs) > 0 {
-		ch.remotePublicKey = certs[0].PublicKey.(*rsa.PublicKey)
+		// a key of another type is refused when the channel is opened
+		ch.remotePublicKey, _ = certs[0].PublicKey.(*rsa.PublicKey)
 		ch.remoteThumbprint = sha1.Sum(certs[0].Raw)
 	}
 	return ch
-- 
2.43.0


From 74ef93c308ff0e38eb5706ded79f40fbb531c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:39 +0000
Subject: [PATCH 43/93] fix: opening a channel ends in time and leaves no
 connection behind when it fails

---
 client/client_secure_channel.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index b284e2c..ddf00f2 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -286,7 +286,7 @@ func isResponseTo(req ua.ServiceRequest, res ua.ServiceResponse) bool {
 }
 
 // Open opens the channel.
-func (ch *clientSecureChannel) Open(ctx context.Context) error {
+func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	ch.Lock()
 	defer ch.Unlock()
 
@@ -323,6 +323,16 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			ch.conn.Close()
+		}
+	}()
+
+	// the server has to acknowledge in time
+	ch.conn.SetDeadline(time.Now().Add(time.Duration(ch.connectTimeout) * time.Millisecond))
+	stop := context.AfterFunc(ctx, func() { ch.conn.SetDeadline(time.Unix(1, 0)) })
+	defer stop()
 
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
@@ -345,12 +355,12 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	//   log.Printf("Hello{\"Version\":%d,\"ReceiveBufferSize\":%d,\"SendBufferSize\":%d,\"MaxMessageSize\":%d,\"MaxChunkCount\":%d,\"EndpointURL\":\"%s\"}\n", protocolVersion, ch.receiveBufferSize, ch.sendBufferSize, ch.maxResponseMessageSize, ch.maxResponseChunkCount, ch.endpointURL)
 	// }
 
-	_, err = ch.Read(buf)
+	count, err := ch.Read(buf)
 	if err != nil {
 		return err
 	}
 
-	var reader = bytes.NewReader(buf)
+	var reader = bytes.NewReader(buf[:count])
 	var dec = ua.NewBinaryDecoder(reader, ch)
 	var msgType uint32
 	if err := dec.ReadUInt32(&msgType); err != nil {
@@ -409,6 +419,11 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		return ua.BadDecodingError
 	}
 
+	if !stop() {
+		return ua.BadRequestTimeout
+	}
+	ch.conn.SetDeadline(time.Time{})
+
 	// setSecurityPolicy
 	switch ch.securityPolicyURI {
 	case ua.SecurityPolicyURINone:
-- 
2.43.0


From d734e8b14b2bc14725b82a6ab274ad31d62b62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:41 +0000
Subject: [PATCH 44/93] fix: check the buffer sizes that the server
 acknowledges

---
 client/client_secure_channel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index ddf00f2..5403ff2 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -47,6 +47,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest size of the send and receive buffers that the protocol allows.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -397,6 +399,12 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 		if err := dec.ReadUInt32(&ch.maxRequestChunkCount); err != nil {
 			return err
 		}
+		// both sides have to accept chunks of the minimum size, and the buffers are not larger than requested
+		if limit := min(minBufferSize, uint32(len(buf))); ch.sendBufferSize < limit || ch.receiveBufferSize < limit {
+			return ua.BadTCPNotEnoughResources
+		}
+		ch.sendBufferSize = min(ch.sendBufferSize, uint32(len(buf)))
+		ch.receiveBufferSize = min(ch.receiveBufferSize, uint32(len(buf)))
 		// if ch.trace {
 		//  log.Printf("Ack{\"Version\":%d,\"ReceiveBufferSize\":%d,\"SendBufferSize\":%d,\"MaxMessageSize\":%d,\"MaxChunkCount\":%d}\n", remoteProtocolVersion, ch.sendBufferSize, ch.receiveBufferSize, ch.maxReqMessageSize, ch.maxReqChunkCount)
 		// }
-- 
2.43.0


From 6b3931c71e28ffffb02168856e430c54aa19e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 45/93] fix: close the connection when a response cannot be
 read

---
 client/client_secure_channel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 5403ff2..c2b2ff5 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1392,6 +1392,8 @@ func (ch *clientSecureChannel) responseWorker() {
 	for {
 		res, status := ch.readResponse()
 		if status != ua.Good {
+			// nothing that follows can be trusted
+			ch.conn.Close()
 			if ch.closing {
 				ch.statusCode = ua.Good
 				close(ch.closed)
-- 
2.43.0


From 636571c7e022d0e09e9d4af181555a6e00e0fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:13 +0000
Subject: [PATCH 46/93] fix: close the connection even if the server cannot be
 told

---
 client/client_secure_channel.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index c2b2ff5..f90fc08 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -516,13 +516,10 @@ func (ch *clientSecureChannel) Close(ctx context.Context) error {
 	defer ch.Unlock()
 	ch.closing = true
 	_, err := ch.Request(ctx, &ua.CloseSecureChannelRequest{})
-	if err != nil {
-		return err
-	}
 	if ch.conn != nil {
 		ch.conn.Close()
 	}
-	return nil
+	return err
 }
 
 // Abort closes the channel abruptly.
-- 
2.43.0


From f9f0fbfc5dfcebc36b38b8c1113c0460221819bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:29 +0000
Subject: [PATCH 47/93] fix: check the order, the request and the bounds of the
 chunks of a response

---
 client/client_secure_channel.go | 70 ++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index f90fc08..a71c84c 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -112,6 +112,8 @@ type clientSecureChannel struct {
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
+	remoteSequenceNumber       uint32
+	hasRemoteSequenceNumber    bool
 	sendingTokenID             uint32
 	receivingTokenID           uint32
 	localSigningKey            []byte
@@ -1426,6 +1428,8 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 	// read chunks
 	var chunkCount int
 	var isFinal bool
+	var isOpen bool
+	var requestID uint32
 
 	for !isFinal {
 		chunkCount++
@@ -1507,6 +1511,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 				sigStart := count - signatureSize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				ch.symVerifyHMAC.Write(receiveBuffer[:sigStart])
 				sig := ch.symVerifyHMAC.Sum(nil)
@@ -1516,13 +1523,8 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
-				return nil, ua.BadDecodingError
-			}
-
-			if err = decoder.ReadUInt32(&unused); err != nil {
-				return nil, ua.BadDecodingError
+			if status := ch.readSequenceHeader(decoder, chunkCount == 1, &requestID); status != ua.Good {
+				return nil, status
 			}
 
 			// body
@@ -1545,6 +1547,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, ua.BadDecodingError
+			}
 			_, err = bodyStream.Write(receiveBuffer[m:n])
 			if err != nil {
 				return nil, ua.BadTCPInternalError
@@ -1572,6 +1577,11 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 			plainHeaderSize = count - stream.Len()
 
+			// an OpenSecureChannelResponse is a message of one chunk
+			if chunkCount > 1 {
+				return nil, ua.BadSecurityChecksFailed
+			}
+
 			// decrypt
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
@@ -1597,6 +1607,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKeySize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, receiveBuffer[:sigStart], receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, ua.BadDecodingError
@@ -1604,12 +1617,8 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
-				return nil, ua.BadDecodingError
-			}
-			if err = decoder.ReadUInt32(&unused); err != nil {
-				return nil, ua.BadDecodingError
+			if status := ch.readSequenceHeader(decoder, chunkCount == 1, &requestID); status != ua.Good {
+				return nil, status
 			}
 
 			// body
@@ -1634,11 +1643,15 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, ua.BadDecodingError
+			}
 			if _, err := bodyStream.Write(receiveBuffer[m:n]); err != nil {
 				return nil, ua.BadTCPInternalError
 			}
 
-			isFinal = messageType == ua.MessageTypeOpenFinal
+			isFinal = true
+			isOpen = true
 
 		case ua.MessageTypeError, ua.MessageTypeAbort:
 			var statusCode uint32
@@ -1664,6 +1677,10 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 	if err := bodyDecoder.ReadNodeID(&nodeID); err != nil {
 		return nil, ua.BadDecodingError
 	}
+	// an OpenSecureChannelResponse, and no other response, is secured by the keys of the certificates
+	if nodeID != ua.ObjectIDServiceFaultEncodingDefaultBinary && isOpen != (nodeID == ua.ObjectIDOpenSecureChannelResponseEncodingDefaultBinary) {
+		return nil, ua.BadSecurityChecksFailed
+	}
 	var temp any
 	switch nodeID {
 
@@ -1770,6 +1787,31 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 	return res, ua.Good
 }
 
+// readSequenceHeader reads the sequence header of a chunk. The sequence number must follow that of the previous chunk,
+// and all the chunks of a message must have the same request id.
+func (ch *clientSecureChannel) readSequenceHeader(decoder *ua.BinaryDecoder, isFirst bool, requestID *uint32) ua.StatusCode {
+	var sequenceNumber, id uint32
+	if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
+		return ua.BadDecodingError
+	}
+	if err := decoder.ReadUInt32(&id); err != nil {
+		return ua.BadDecodingError
+	}
+	if ch.hasRemoteSequenceNumber && sequenceNumber != ch.remoteSequenceNumber+1 {
+		// the sequence numbers may wrap around before reaching the maximum value
+		if ch.remoteSequenceNumber <= math.MaxUint32-1024 || sequenceNumber >= 1024 {
+			return ua.BadSequenceNumberInvalid
+		}
+	}
+	ch.remoteSequenceNumber = sequenceNumber
+	ch.hasRemoteSequenceNumber = true
+	if !isFirst && id != *requestID {
+		return ua.BadSecurityChecksFailed
+	}
+	*requestID = id
+	return ua.Good
+}
+
 // handleResponse directs the response to the correct handler.
 func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
 	if op, ok := ch.removePendingResponse(res.Header().RequestHandle); ok {
-- 
2.43.0


From c8556975ace04b20da410921d8ed2a102bd2627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:30 +0000
Subject: [PATCH 48/93] fix: refuse a response secured by a token that was not
 issued

---
 client/client_secure_channel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index a71c84c..a9d4abb 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1477,7 +1477,11 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			// detect new token
 			ch.tokenLock.RLock()
-			if tokenID != ch.receivingTokenID {
+			if ch.channelID == 0 || (tokenID != ch.receivingTokenID && tokenID != ch.tokenID) {
+				ch.tokenLock.RUnlock()
+				return nil, ua.BadSecureChannelTokenUnknown
+			}
+			if tokenID != ch.receivingTokenID || ch.symVerifyHMAC == nil {
 				ch.receivingTokenID = tokenID
 
 				switch ch.securityMode {
-- 
2.43.0


From 0fdb593cfd8e1553ae098283fbee0a61715d740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:32 +0000
Subject: [PATCH 49/93] fix: secure a message by the token that it names, and
 renew a token once

---
 client/client_secure_channel.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index a9d4abb..19fbe17 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -545,8 +545,14 @@ func (ch *clientSecureChannel) IsClosing() bool {
 // sendRequest sends the service request on transport channel.
 func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOperation) error {
 	// Check if time to renew security token.
-	if !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime) {
-		ch.tokenRenewalTime = ch.tokenRenewalTime.Add(60000 * time.Millisecond)
+	ch.tokenLock.Lock()
+	renew := !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime)
+	if renew {
+		// only one request renews the token
+		ch.tokenRenewalTime = time.Now().Add(60000 * time.Millisecond)
+	}
+	ch.tokenLock.Unlock()
+	if renew {
 		ch.renewToken(ctx)
 	}
 
@@ -868,11 +874,11 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
-		if ch.tokenID != ch.sendingTokenID {
+		if ch.tokenID != ch.sendingTokenID || ch.symSignHMAC == nil {
 			ch.sendingTokenID = ch.tokenID
 
 			switch ch.securityMode {
@@ -1307,11 +1313,11 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
-		if ch.tokenID != ch.sendingTokenID {
+		if ch.tokenID != ch.sendingTokenID || ch.symSignHMAC == nil {
 			ch.sendingTokenID = ch.tokenID
 
 			switch ch.securityMode {
-- 
2.43.0


From f34e84b2152f15666edbe423241bc973d8f4e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 50/93] fix: check the number of chunks of a request before
 sending the first

---
 client/client_secure_channel.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 19fbe17..f52d208 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -819,9 +819,6 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
-			return ua.BadRequestTooLarge
-		}
 
 		// plan
 		var plainHeaderSize int
@@ -861,6 +858,11 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// check the number of chunks before sending the first
+		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount == 1 && bodyCount > i*maxBodySize {
+			return ua.BadRequestTooLarge
+		}
+
 		var stream = ua.NewWriter(sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
@@ -1258,9 +1260,6 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
-			return ua.BadRequestTooLarge
-		}
 
 		// plan
 		var plainHeaderSize int
@@ -1300,6 +1299,11 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// check the number of chunks before sending the first
+		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount == 1 && bodyCount > i*maxBodySize {
+			return ua.BadRequestTooLarge
+		}
+
 		var stream = ua.NewWriter(sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
-- 
2.43.0


From 9cac7fdee2aba053535dde6f876724070e16b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:35 +0000
Subject: [PATCH 51/93] fix: sending a request ends in time even if the server
 does not read

---
 client/client_secure_channel.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index f52d208..e867806 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -105,7 +105,7 @@ type clientSecureChannel struct {
 	serverURIs                 []string
 	closed                     chan struct{}
 	statusCode                 ua.StatusCode
-	sendingSemaphore           sync.Mutex
+	sendingSemaphore           chan struct{}
 	receivingSemaphore         sync.Mutex
 	pendingResponsesLock       sync.Mutex
 	pendingResponses           map[uint32]*ua.ServiceOperation
@@ -479,6 +479,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 
 	ch.pendingResponses = make(map[uint32]*ua.ServiceOperation)
 	ch.closed = make(chan struct{})
+	ch.sendingSemaphore = make(chan struct{}, 1)
 	ch.channelID = 0
 	ch.tokenID = 0
 	ch.sendingTokenID = 0
@@ -556,8 +557,17 @@ func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOp
 		ch.renewToken(ctx)
 	}
 
-	ch.sendingSemaphore.Lock()
-	defer ch.sendingSemaphore.Unlock()
+	select {
+	case ch.sendingSemaphore <- struct{}{}:
+		defer func() { <-ch.sendingSemaphore }()
+	case <-ctx.Done():
+		return ua.BadRequestTimeout
+	}
+
+	// a server that does not read does not block the request
+	if deadline, ok := ctx.Deadline(); ok {
+		ch.conn.SetWriteDeadline(deadline)
+	}
 
 	req := op.Request()
 
@@ -1957,7 +1967,12 @@ func (ch *clientSecureChannel) Write(p []byte) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		// the server may have received a part of the chunk
+		ch.conn.Close()
+	}
+	return n, err
 }
 
 // Read receives a chunk from the remote endpoint.
-- 
2.43.0


From ca61fd144901aecdf0c00e6ec96b3434a436bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 52/93] fix: close the channel even if the session cannot be
 closed

---
 client/client.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 8ad74b1..885fde9 100644
--- a/client/client.go
+++ b/client/client.go
@@ -752,11 +752,8 @@ func (ch *Client) Close(ctx context.Context) error {
 		DeleteSubscriptions: true,
 	}
 	_, err := ch.closeSession(ctx, request)
-	if err != nil {
-		return err
-	}
 	ch.channel.Close(ctx)
-	return nil
+	return err
 }
 
 // Abort closes the client abruptly.
-- 
2.43.0


From 73bf978474eb4cb4574bdf6147078f9704ac887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:36 +0000
Subject: [PATCH 53/93] fix: do not panic when decoding diagnostic information

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From 85091ebbe2be8be183abb6b3ad2789139b8db904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:35 +0000
Subject: [PATCH 54/93] fix: encode the flags of an ExpandedNodeID without
 NodeID

---
 ua/binary_encoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 015cc77..41b0f3a 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -705,7 +705,10 @@ func (enc *BinaryEncoder) WriteExpandedNodeID(value ExpandedNodeID) error {
 			return BadEncodingError
 		}
 	default:
-		if err := enc.WriteUInt16(0); err != nil {
+		if err := enc.WriteByte(0x00 | b); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteByte(0); err != nil {
 			return BadEncodingError
 		}
 	}
-- 
2.43.0


From f2cbf1e3bc5f10ca33eedef3bbe49c62e10555c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 55/93] fix: do not overflow when encoding a far future time

---
 ua/binary_encoder.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 41b0f3a..f6732ff 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -490,12 +490,14 @@ func (enc *BinaryEncoder) WriteString(value string) error {
 // WriteDateTime writes a date/time.
 func (enc *BinaryEncoder) WriteDateTime(value time.Time) error {
 	// ticks are 100 nanosecond intervals since January 1, 1601
-	ticks := (value.Unix()+11644473600)*10000000 + int64(value.Nanosecond())/100
-	if ticks < 0 {
+	var ticks int64
+	switch secs := value.Unix(); {
+	case secs < -11644473600:
 		ticks = 0
-	}
-	if ticks >= 2650467743990000000 {
+	case secs >= 265046774399-11644473600:
 		ticks = 0x7FFFFFFFFFFFFFFF
+	default:
+		ticks = (secs+11644473600)*10000000 + int64(value.Nanosecond())/100
 	}
 	if err := enc.WriteInt64(ticks); err != nil {
 		return BadEncodingError
-- 
2.43.0


From 74032feb8a798fe3364a3a3a8340fd70dbd90bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:46 +0000
Subject: [PATCH 56/93] fix: do not trust the length of an array or string
 before its elements have been read

---
 ua/binary_decoder.go | 136 +++++++++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 49 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..ef056e2 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -3,6 +3,7 @@
 package ua
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -204,21 +205,21 @@ func getSliceDecoder(typ reflect.Type) (decoderFunc, error) {
 			hdr.cap = 0
 			return nil
 		}
-		hdr.data = unsafe.Pointer(reflect.MakeSlice(typ, len, len).Pointer())
-		hdr.len = len
-		hdr.cap = len
-		//decode first element
-		p2 := hdr.data
-		if err := elemDecoder(buf, p2); err != nil {
-			return err
-		}
-		//decode remaining elements
-		for i := 1; i < len; i++ {
-			p2 = unsafe.Pointer(uintptr(p2) + elemSize)
-			if err := elemDecoder(buf, p2); err != nil {
+		slice := reflect.MakeSlice(typ, min(len, maxPrealloc), min(len, maxPrealloc))
+		for i := 0; i < len; i++ {
+			if n := slice.Len(); i == n {
+				// grow as elements are read, since the length may not be true
+				grown := reflect.MakeSlice(typ, min(len, 2*n), min(len, 2*n))
+				reflect.Copy(grown, slice)
+				slice = grown
+			}
+			if err := elemDecoder(buf, unsafe.Pointer(uintptr(slice.UnsafePointer())+uintptr(i)*elemSize)); err != nil {
 				return err
 			}
 		}
+		hdr.data = slice.UnsafePointer()
+		hdr.len = len
+		hdr.cap = len
 		return nil
 	}, nil
 }
@@ -437,6 +438,23 @@ func (dec *BinaryDecoder) ReadDouble(value *float64) error {
 	return nil
 }
 
+// maxPrealloc is the number of elements allocated before any of them has been read.
+const maxPrealloc = 1024
+
+// readBytes reads n bytes. A length is not trusted before the bytes have arrived.
+func (dec *BinaryDecoder) readBytes(n int) ([]byte, error) {
+	if n <= 64*maxPrealloc {
+		bs := make([]byte, n)
+		_, err := io.ReadFull(dec.r, bs)
+		return bs, err
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, dec.r, int64(n)); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 // ReadString reads a string.
 func (dec *BinaryDecoder) ReadString(value *string) error {
 	var n int32
@@ -447,8 +465,8 @@ func (dec *BinaryDecoder) ReadString(value *string) error {
 		*value = ""
 		return nil
 	}
-	bs := make([]byte, n)
-	if _, err := io.ReadFull(dec.r, bs); err != nil {
+	bs, err := dec.readBytes(int(n))
+	if err != nil {
 		return BadDecodingError
 	}
 	// eliminate alloc of a second byte array and copying from one byte array to another.
@@ -504,8 +522,8 @@ func (dec *BinaryDecoder) ReadByteString(value *ByteString) error {
 		*value = ""
 		return nil
 	}
-	bs := make([]byte, n)
-	if _, err := io.ReadFull(dec.r, bs); err != nil {
+	bs, err := dec.readBytes(int(n))
+	if err != nil {
 		return BadDecodingError
 	}
 	*value = *(*ByteString)(unsafe.Pointer(&bs))
@@ -2146,11 +2164,13 @@ func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]bool, n)
-	for i := range temp {
-		if err := dec.ReadBoolean(&temp[i]); err != nil {
+	temp := make([]bool, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v bool
+		if err := dec.ReadBoolean(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2166,11 +2186,13 @@ func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int8, n)
-	for i := range temp {
-		if err := dec.ReadSByte(&temp[i]); err != nil {
+	temp := make([]int8, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v int8
+		if err := dec.ReadSByte(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2186,9 +2208,9 @@ func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]byte, n)
-	if _, err := io.ReadFull(dec.r, temp); err != nil {
-		return err
+	temp, err := dec.readBytes(int(n))
+	if err != nil {
+		return BadDecodingError
 	}
 	*value = temp
 	return nil
@@ -2204,11 +2226,13 @@ func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int16, n)
-	for i := range temp {
-		if err := dec.ReadInt16(&temp[i]); err != nil {
+	temp := make([]int16, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v int16
+		if err := dec.ReadInt16(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2224,11 +2248,13 @@ func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uint16, n)
-	for i := range temp {
-		if err := dec.ReadUInt16(&temp[i]); err != nil {
+	temp := make([]uint16, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v uint16
+		if err := dec.ReadUInt16(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2244,11 +2270,13 @@ func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int32, n)
-	for i := range temp {
-		if err := dec.ReadInt32(&temp[i]); err != nil {
+	temp := make([]int32, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v int32
+		if err := dec.ReadInt32(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2264,11 +2292,13 @@ func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uint32, n)
-	for i := range temp {
-		if err := dec.ReadUInt32(&temp[i]); err != nil {
+	temp := make([]uint32, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v uint32
+		if err := dec.ReadUInt32(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2284,11 +2314,13 @@ func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int64, n)
-	for i := range temp {
-		if err := dec.ReadInt64(&temp[i]); err != nil {
+	temp := make([]int64, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v int64
+		if err := dec.ReadInt64(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2304,11 +2336,13 @@ func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uint64, n)
-	for i := range temp {
-		if err := dec.ReadUInt64(&temp[i]); err != nil {
+	temp := make([]uint64, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v uint64
+		if err := dec.ReadUInt64(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2324,11 +2358,13 @@ func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]float32, n)
-	for i := range temp {
-		if err := dec.ReadFloat(&temp[i]); err != nil {
+	temp := make([]float32, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v float32
+		if err := dec.ReadFloat(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2344,11 +2380,13 @@ func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]float64, n)
-	for i := range temp {
-		if err := dec.ReadDouble(&temp[i]); err != nil {
+	temp := make([]float64, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v float64
+		if err := dec.ReadDouble(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
-- 
2.43.0


From 0843f80d40b6083aadd16463721a2782ce9c099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 57/93] fix: limit the nesting of decoded values

---
 ua/binary_decoder.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index ef056e2..cc09a1f 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -22,16 +22,20 @@ var (
 
 // BinaryDecoder decodes the UA binary protocol.
 type BinaryDecoder struct {
-	r  io.Reader
-	ec EncodingContext
-	bs [8]byte
+	r     io.Reader
+	ec    EncodingContext
+	bs    [8]byte
+	depth int
 }
 
 // NewBinaryDecoder returns a new decoder that reads from an io.Reader.
 func NewBinaryDecoder(r io.Reader, ec EncodingContext) *BinaryDecoder {
-	return &BinaryDecoder{r, ec, [8]byte{}}
+	return &BinaryDecoder{r: r, ec: ec}
 }
 
+// maxDepth is the number of values that may be nested in each other.
+const maxDepth = 100
+
 type decoderFunc func(*BinaryDecoder, unsafe.Pointer) error
 
 // Decode decodes the value using the UA Binary protocol.
@@ -785,6 +789,11 @@ func (dec *BinaryDecoder) ReadLocalizedText(value *LocalizedText) error {
 
 // ReadExtensionObject reads an Extensionobject.
 func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var nodeID NodeID
 	if err := dec.ReadNodeID(&nodeID); err != nil {
 		return BadDecodingError
@@ -882,6 +891,11 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 
 // ReadVariant reads a Variant.
 func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
 		return BadDecodingError
@@ -2103,6 +2117,11 @@ func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
 
 // ReadDiagnosticInfo reads a DiagnosticInfo.
 func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	result := DiagnosticInfo{}
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
-- 
2.43.0


From 3f94229840ce967bf1b2def971ab99437883ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:13 +0000
Subject: [PATCH 58/93] fix: check the dimensions of a decoded array against
 its length

---
 ua/binary_decoder.go | 72 +++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index cc09a1f..f4a03dd 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -1336,7 +1336,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1366,7 +1366,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1396,7 +1396,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1426,7 +1426,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1456,7 +1456,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1486,7 +1486,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1516,7 +1516,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1546,7 +1546,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1576,7 +1576,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1606,7 +1606,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1636,7 +1636,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1666,7 +1666,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1696,7 +1696,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1726,7 +1726,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1756,7 +1756,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1786,7 +1786,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1816,7 +1816,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1846,7 +1846,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1876,7 +1876,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1906,7 +1906,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1936,7 +1936,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1966,7 +1966,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1996,7 +1996,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2026,7 +2026,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2056,7 +2056,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2085,6 +2085,28 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 	}
 }
 
+// readDimensions reads the dimensions of an array of n values.
+func (dec *BinaryDecoder) readDimensions(value *[]int32, n int) error {
+	if err := dec.ReadInt32Array(value); err != nil {
+		return BadDecodingError
+	}
+	total, rows := int64(1), int64(1)
+	for _, d := range *value {
+		if d < 0 {
+			return BadDecodingError
+		}
+		total *= int64(d)
+		// rows of no elements are not backed by values
+		if rows *= int64(max(d, 1)); rows > int64(max(n, maxPrealloc)) {
+			return BadDecodingError
+		}
+	}
+	if total != int64(n) {
+		return BadDecodingError
+	}
+	return nil
+}
+
 // split recursively creates a multi-dimensional array from a set of values
 // and some given dimensions.
 func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
-- 
2.43.0


From cfcd888de19e541449ff1468f8f1b5f980763fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 59/93] fix: do not trust the length of the other arrays before
 their elements have been read

---
 ua/binary_decoder.go | 112 +++++++++++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 42 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index f4a03dd..abd486d 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2443,11 +2443,13 @@ func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]string, n)
-	for i := range temp {
-		if err := dec.ReadString(&temp[i]); err != nil {
+	temp := make([]string, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v string
+		if err := dec.ReadString(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2463,11 +2465,13 @@ func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]time.Time, n)
-	for i := range temp {
-		if err := dec.ReadDateTime(&temp[i]); err != nil {
+	temp := make([]time.Time, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v time.Time
+		if err := dec.ReadDateTime(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2483,11 +2487,13 @@ func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uuid.UUID, n)
-	for i := range temp {
-		if err := dec.ReadGUID(&temp[i]); err != nil {
+	temp := make([]uuid.UUID, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v uuid.UUID
+		if err := dec.ReadGUID(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2503,11 +2509,13 @@ func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]ByteString, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadByteString(&temp[i]); err != nil {
+	temp := make([]ByteString, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v ByteString
+		if err := dec.ReadByteString(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2523,11 +2531,13 @@ func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]XMLElement, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadXMLElement(&temp[i]); err != nil {
+	temp := make([]XMLElement, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v XMLElement
+		if err := dec.ReadXMLElement(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2543,11 +2553,13 @@ func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]NodeID, n)
-	for i := range temp {
-		if err := dec.ReadNodeID(&temp[i]); err != nil {
+	temp := make([]NodeID, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v NodeID
+		if err := dec.ReadNodeID(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2563,11 +2575,13 @@ func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error
 		*value = nil
 		return nil
 	}
-	temp := make([]ExpandedNodeID, n)
-	for i := range temp {
-		if err := dec.ReadExpandedNodeID(&temp[i]); err != nil {
+	temp := make([]ExpandedNodeID, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v ExpandedNodeID
+		if err := dec.ReadExpandedNodeID(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2583,11 +2597,13 @@ func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]StatusCode, n)
-	for i := range temp {
-		if err := dec.ReadStatusCode(&temp[i]); err != nil {
+	temp := make([]StatusCode, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v StatusCode
+		if err := dec.ReadStatusCode(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2603,11 +2619,13 @@ func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]QualifiedName, n)
-	for i := range temp {
-		if err := dec.ReadQualifiedName(&temp[i]); err != nil {
+	temp := make([]QualifiedName, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v QualifiedName
+		if err := dec.ReadQualifiedName(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2623,11 +2641,13 @@ func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]LocalizedText, n)
-	for i := range temp {
-		if err := dec.ReadLocalizedText(&temp[i]); err != nil {
+	temp := make([]LocalizedText, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v LocalizedText
+		if err := dec.ReadLocalizedText(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2643,11 +2663,13 @@ func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) err
 		*value = nil
 		return nil
 	}
-	temp := make([]ExtensionObject, n)
-	for i := range temp {
-		if err := dec.ReadExtensionObject(&temp[i]); err != nil {
+	temp := make([]ExtensionObject, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v ExtensionObject
+		if err := dec.ReadExtensionObject(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2663,11 +2685,13 @@ func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]DataValue, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadDataValue(&temp[i]); err != nil {
+	temp := make([]DataValue, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v DataValue
+		if err := dec.ReadDataValue(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2683,11 +2707,13 @@ func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]Variant, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadVariant(&temp[i]); err != nil {
+	temp := make([]Variant, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v Variant
+		if err := dec.ReadVariant(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2703,11 +2729,13 @@ func (dec *BinaryDecoder) ReadDiagnosticInfoArray(value *[]DiagnosticInfo) error
 		*value = nil
 		return nil
 	}
-	temp := make([]DiagnosticInfo, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadDiagnosticInfo(&temp[i]); err != nil {
+	temp := make([]DiagnosticInfo, 0, min(int(n), maxPrealloc))
+	for i := 0; i < int(n); i++ {
+		var v DiagnosticInfo
+		if err := dec.ReadDiagnosticInfo(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
-- 
2.43.0


From ef1cbca4e195cbb1afe64a4eba31c6ed7ca94257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:56 +0000
Subject: [PATCH 60/93] fix: report an undecodable value of a DataValue instead
 of misreading what follows

---
 ua/binary_decoder.go | 65 ++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index abd486d..7ffb1f9 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -848,6 +848,7 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 		sourcePicoseconds uint16
 		serverTimestamp   time.Time
 		serverPicoseconds uint16
+		unknown           bool
 		err               error
 	)
 	var b byte
@@ -855,16 +856,22 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
-		if err := dec.ReadVariant(&v); err != nil {
-			// return BadDecodingError
-			statusCode = BadDataTypeIDUnknown
+		switch err := dec.ReadVariant(&v); err {
+		case nil:
+		case BadDataTypeIDUnknown:
+			unknown = true
+		default:
+			return BadDecodingError
 		}
 	}
-	if (b&2) != 0 && statusCode == 0 {
+	if (b & 2) != 0 {
 		if err := dec.ReadStatusCode(&statusCode); err != nil {
 			return BadDecodingError
 		}
 	}
+	if unknown {
+		statusCode = BadDataTypeIDUnknown
+	}
 	if (b & 4) != 0 {
 		if err = dec.ReadDateTime(&sourceTimestamp); err != nil {
 			return BadDecodingError
@@ -1358,7 +1365,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeSByte:
 		var vals []int8
@@ -1388,7 +1395,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeByte:
 		var vals []byte
@@ -1418,7 +1425,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeInt16:
 		var vals []int16
@@ -1448,7 +1455,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeUInt16:
 		var vals []uint16
@@ -1478,7 +1485,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeInt32:
 		var vals []int32
@@ -1508,7 +1515,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeUInt32:
 		var vals []uint32
@@ -1538,7 +1545,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeInt64:
 		var vals []int64
@@ -1568,7 +1575,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeUInt64:
 		var vals []uint64
@@ -1598,7 +1605,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeFloat:
 		var vals []float32
@@ -1628,7 +1635,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDouble:
 		var vals []float64
@@ -1658,7 +1665,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeString:
 		var vals []string
@@ -1688,7 +1695,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDateTime:
 		var vals []time.Time
@@ -1718,7 +1725,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeGUID:
 		var vals []uuid.UUID
@@ -1748,7 +1755,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeByteString:
 		var vals []ByteString
@@ -1778,7 +1785,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeXMLElement:
 		var vals []XMLElement
@@ -1808,7 +1815,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeNodeID:
 		var vals []NodeID
@@ -1838,7 +1845,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeExpandedNodeID:
 		var vals []ExpandedNodeID
@@ -1868,7 +1875,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeStatusCode:
 		var vals []StatusCode
@@ -1898,7 +1905,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeQualifiedName:
 		var vals []QualifiedName
@@ -1928,7 +1935,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeLocalizedText:
 		var vals []LocalizedText
@@ -1958,7 +1965,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeExtensionObject:
 		var vals []ExtensionObject
@@ -1988,7 +1995,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDataValue:
 		var vals []DataValue
@@ -2018,7 +2025,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeVariant:
 		var vals []Variant
@@ -2048,7 +2055,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDiagnosticInfo:
 		var vals []DiagnosticInfo
@@ -2078,7 +2085,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	default:
 		return BadDecodingError
-- 
2.43.0


From b1a5002ff069cf97512b1926398a531a63171b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:02 +0000
Subject: [PATCH 61/93] fix: keep the decoding of an ExtensionObject inside its
 body

---
 ua/binary_decoder.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 7ffb1f9..da1cf1d 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -810,12 +810,29 @@ func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
 		// lookup type
 		typ, ok := FindTypeForBinaryEncodingID(id)
 		if ok {
-			var unused int32
-			if err := dec.ReadInt32(&unused); err != nil {
+			var n int32
+			if err := dec.ReadInt32(&n); err != nil {
 				return BadDecodingError
 			}
 			obj := reflect.New(typ).Elem().Interface() // TODO: decide if ptr or struct
-			if err := dec.Decode(obj); err != nil {
+			if n < 0 {
+				// the length is not known
+				if err := dec.Decode(obj); err != nil {
+					return BadDecodingError
+				}
+				*value = obj
+				return nil
+			}
+			r := dec.r
+			body := &io.LimitedReader{R: r, N: int64(n)}
+			dec.r = body
+			err := dec.Decode(obj)
+			dec.r = r
+			if err != nil {
+				return BadDecodingError
+			}
+			// skip what this version of the type does not know
+			if _, err := io.CopyN(io.Discard, r, body.N); err != nil {
 				return BadDecodingError
 			}
 			*value = obj
-- 
2.43.0


From a5b23f43a3c3ba721b2e8f335dcfdb72cca50247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:09 +0000
Subject: [PATCH 62/93] fix: do not encode a jagged array with the dimensions
 of its first row

---
 ua/binary_encoder.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index f6732ff..9da2aea 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -898,6 +898,9 @@ func (enc *BinaryEncoder) WriteDataValue(value DataValue) error {
 
 // WriteVariant writes a Variant
 func (enc *BinaryEncoder) WriteVariant(value Variant) error {
+	if isJagged(value) {
+		return BadEncodingError
+	}
 	switch v1 := value.(type) {
 	case nil:
 		return enc.WriteByte(0)
@@ -2230,3 +2233,28 @@ func dims3D[S [][][]E, E any](slice S) []int32 {
 	}
 	return []int32{size, size2, int32(len(slice[0][0]))}
 }
+
+// isJagged returns whether the value is a multi-dimensional slice whose rows differ in length.
+func isJagged(value Variant) bool {
+	t := reflect.TypeOf(value)
+	if t == nil || t.Kind() != reflect.Slice || t.Elem().Kind() != reflect.Slice {
+		return false
+	}
+	v := reflect.ValueOf(value)
+	for i := 0; i < v.Len(); i++ {
+		if v.Index(i).Len() != v.Index(0).Len() {
+			return true
+		}
+	}
+	if t.Elem().Elem().Kind() != reflect.Slice {
+		return false
+	}
+	for i := 0; i < v.Len(); i++ {
+		for j := 0; j < v.Index(i).Len(); j++ {
+			if v.Index(i).Index(j).Len() != v.Index(0).Index(0).Len() {
+				return true
+			}
+		}
+	}
+	return false
+}
-- 
2.43.0


From 58d30eb43ee43bae8ec1e59bc87aa1c93f0ed755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:55 +0000
Subject: [PATCH 63/93] fix: encode and decode fields of type Guid

---
 ua/binary_decoder.go | 7 +++++--
 ua/binary_encoder.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index da1cf1d..1647192 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -75,8 +75,6 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeDecoder()
-		case typeGUID:
-			return getGUIDDecoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDDecoder()
 		case typeQualifiedName:
@@ -98,6 +96,11 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		default:
 			return getSliceDecoder(typ)
 		}
+	case reflect.Array:
+		switch typ {
+		case typeGUID:
+			return getGUIDDecoder()
+		}
 	case reflect.Ptr:
 		typ = typ.Elem()
 		return getStructPtrDecoder(typ)
diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 9da2aea..4be48a0 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -99,8 +99,6 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeEncoder()
-		case typeGUID:
-			return getGUIDEncoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDEncoder()
 		case typeQualifiedName:
@@ -128,6 +126,11 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		default:
 			return getSliceEncoder(typ)
 		}
+	case reflect.Array:
+		switch typ {
+		case typeGUID:
+			return getGUIDEncoder()
+		}
 	case reflect.Ptr:
 		typ = typ.Elem()
 		return getStructPtrEncoder(typ)
-- 
2.43.0


From 694bc91a58132fc58b68366d795e195e202159c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:41 +0000
Subject: [PATCH 64/93] fix: encode flags of 8 and 16 bits in their length

---
 cmd/gen_opcua/main.go | 11 +++++++++--
 ua/enums.generated.go |  6 +++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmd/gen_opcua/main.go b/cmd/gen_opcua/main.go
index d4a5965..070e381 100644
--- a/cmd/gen_opcua/main.go
+++ b/cmd/gen_opcua/main.go
@@ -283,7 +283,14 @@ func makeEnums(dict *typeDictionary) []*enumType {
 		for j, ev := range et.Values {
 			values[j] = &enumValue{Name: goCaseReplacer.Replace(ev.Name), Value: ev.Value}
 		}
-		enums[i] = &enumType{Name: goCaseReplacer.Replace(et.Name), Type: "int32", Values: values}
+		typ := "int32"
+		switch et.Bits {
+		case 8:
+			typ = "uint8"
+		case 16:
+			typ = "uint16"
+		}
+		enums[i] = &enumType{Name: goCaseReplacer.Replace(et.Name), Type: typ, Values: values}
 	}
 	return enums
 }
@@ -408,7 +415,7 @@ var tmplEnum = `// Copyright 2021 Converter Systems LLC. All rights reserved.
 package ua
 {{range $i, $e := .}}
 // {{$e.Name}} enumeration.
-type {{$e.Name}} int32
+type {{$e.Name}} {{$e.Type}}
 
 // {{$e.Name}} enumeration.
 const (
diff --git a/ua/enums.generated.go b/ua/enums.generated.go
index abf2984..67259fa 100644
--- a/ua/enums.generated.go
+++ b/ua/enums.generated.go
@@ -182,7 +182,7 @@ func (v PubSubState) String() string {
 }
 
 // DataSetFieldFlags enumeration.
-type DataSetFieldFlags int32
+type DataSetFieldFlags uint16
 
 // DataSetFieldFlags enumeration.
 const (
@@ -662,7 +662,7 @@ func (v PermissionType) String() string {
 }
 
 // AccessLevelType enumeration.
-type AccessLevelType int32
+type AccessLevelType uint8
 
 // AccessLevelType enumeration.
 const (
@@ -749,7 +749,7 @@ func (v AccessLevelExType) String() string {
 }
 
 // EventNotifierType enumeration.
-type EventNotifierType int32
+type EventNotifierType uint8
 
 // EventNotifierType enumeration.
 const (
-- 
2.43.0


From ef077140ed336ff70dbeb6e6b9c593596d584f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 65/93] fix: answer a refused CancelRequest with its own
 request handle

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a799be8..46c4a38 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1047,7 +1047,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionIDInvalid,
 				},
 			},
@@ -1067,7 +1067,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionNotActivated,
 				},
 			},
@@ -1084,7 +1084,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSecureChannelIDInvalid,
 				},
 			},
-- 
2.43.0


From 87e77fcae596e2d3f97ea07c1d2ecacfdc840001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:55 +0000
Subject: [PATCH 66/93] fix: refuse SetPublishingMode without subscriptions, as
 the other services do

---
 server/server_service_set.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 46c4a38..30526ee 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5235,6 +5235,26 @@ func (srv *Server) handleSetPublishingMode(ch *serverSecureChannel, requestid ui
 		return nil
 	}
 
+	// check nothing to do
+	if len(req.SubscriptionIDs) == 0 {
+		session.setPublishingModeErrorCount++
+		session.errorCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadNothingToDo,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	results := make([]ua.StatusCode, len(req.SubscriptionIDs))
 	sm := srv.SubscriptionManager()
 	for i, id := range req.SubscriptionIDs {
-- 
2.43.0


From 88e1917bbd99d1431ae70520ff7b8ecd5639137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 67/93] fix: return the server diagnostics summary as a value
 that can be encoded

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 5b1cfaa..1845f0a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -742,7 +742,7 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
-			return ua.NewDataValue(srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
+			return ua.NewDataValue(*srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCumulatedSessionCount); ok {
-- 
2.43.0


From 54ed1083f425c896eddb1ddb6f4efcfb39c2bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:29 +0000
Subject: [PATCH 68/93] fix: take the lock when listing the subscriptions for
 their diagnostics

---
 server/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 1845f0a..4dc557a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -811,7 +811,14 @@ func (srv *Server) initializeNamespace() error {
 				return ua.NewDataValue(nil, 0, time.Now(), 0, time.Now(), 0)
 			}
 			a := make([]ua.ExtensionObject, 0, 16)
-			for _, s := range srv.SubscriptionManager().subscriptionsByID {
+			m := srv.SubscriptionManager()
+			m.RLock()
+			subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+			for _, s := range m.subscriptionsByID {
+				subs = append(subs, s)
+			}
+			m.RUnlock()
+			for _, s := range subs {
 				s.RLock()
 				e := ua.SubscriptionDiagnosticsDataType{
 					SessionID:                  s.sessionId,
-- 
2.43.0


From c6f5661f62203133d98dada71116a05ce41f3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:45 +0000
Subject: [PATCH 69/93] fix: raise events without holding the lock of the node

---
 server/event_monitored_item.go | 6 +++++-
 server/object_node.go          | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index f7e0636..9c0f472 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -208,10 +208,14 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
+	defer mi.Unlock()
+	// if deleted or disabled in the meantime, then ignore.
+	if mi.node == nil || mi.monitoringMode == ua.MonitoringModeDisabled {
+		return
+	}
 	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
-	mi.Unlock()
 }
 
 var (
diff --git a/server/object_node.go b/server/object_node.go
index 1c90889..0c47fa2 100644
--- a/server/object_node.go
+++ b/server/object_node.go
@@ -115,9 +115,14 @@ func (n *ObjectNode) EventNotifier() byte {
 
 // OnEvent raises an event from this node.
 func (n *ObjectNode) OnEvent(evt ua.Event) {
+	// call the listeners without holding the lock, as they hold theirs when they add and remove themselves.
 	n.RLock()
-	defer n.RUnlock()
+	subs := make([]EventListener, 0, len(n.subs))
 	for sub := range n.subs {
+		subs = append(subs, sub)
+	}
+	n.RUnlock()
+	for _, sub := range subs {
 		sub.OnEvent(evt)
 	}
 }
-- 
2.43.0


From 5e11eeea335af379d0a66c03cce6b485bcdb54c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:49 +0000
Subject: [PATCH 70/93] fix: evaluate any where clause of an event filter
 without panic or endless recursion

---
 server/event_monitored_item.go | 49 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 9c0f472..14877a5 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"reflect"
 	"sync/atomic"
 	"time"
 
@@ -227,33 +228,47 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		return true
 	}
 	element := mi.eventFilter.WhereClause.Elements[idx]
-	switch element.FilterOperator {
-
-	case ua.FilterOperatorEquals:
-		var a, b ua.Variant
-		switch c := element.FilterOperands[0].(type) {
+	// operand returns the value of an operand, and whether it has one.
+	operand := func(i int) (ua.Variant, bool) {
+		if i >= len(element.FilterOperands) {
+			return nil, false
+		}
+		switch c := element.FilterOperands[i].(type) {
 		case ua.LiteralOperand:
-			a = c.Value
+			return c.Value, true
 		case ua.SimpleAttributeOperand:
-			a = evt.GetAttribute(c)
+			return evt.GetAttribute(c), true
 		case ua.ElementOperand:
-			a = mi.whereClause(evt, int(c.Index))
+			// an element may only refer to elements that follow.
+			if int(c.Index) <= idx || int(c.Index) >= len(mi.eventFilter.WhereClause.Elements) {
+				return nil, false
+			}
+			return mi.whereClause(evt, int(c.Index)), true
 		default:
+			return nil, false
+		}
+	}
+	switch element.FilterOperator {
+
+	case ua.FilterOperatorEquals:
+		a, ok := operand(0)
+		if !ok {
 			return false
 		}
-		switch c := element.FilterOperands[1].(type) {
-		case ua.LiteralOperand:
-			b = c.Value
-		case ua.SimpleAttributeOperand:
-			b = evt.GetAttribute(c)
-		case ua.ElementOperand:
-			b = mi.whereClause(evt, int(c.Index))
-		default:
+		b, ok := operand(1)
+		if !ok {
 			return false
 		}
-		return a == b
+		if t, ok := a.(time.Time); ok {
+			u, ok := b.(time.Time)
+			return ok && t.Equal(u)
+		}
+		return reflect.DeepEqual(a, b)
 
 	case ua.FilterOperatorOfType:
+		if len(element.FilterOperands) == 0 {
+			return false
+		}
 		if a, ok := element.FilterOperands[0].(ua.LiteralOperand); ok {
 			if b, ok := a.Value.(ua.NodeID); ok {
 				if c, ok := evt.GetAttribute(attributeOperandEventType).(ua.NodeID); ok {
-- 
2.43.0


From 4808c504da329e3854a407da64dd020b1299d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:58 +0000
Subject: [PATCH 71/93] fix: evaluate each element of a where clause once

---
 server/event_monitored_item.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 14877a5..9743444 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -214,7 +214,7 @@ func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	if mi.node == nil || mi.monitoringMode == ua.MonitoringModeDisabled {
 		return
 	}
-	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
+	if res, ok := mi.whereClause(evt).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
 }
@@ -223,11 +223,21 @@ var (
 	attributeOperandEventType = ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("EventType"), AttributeID: ua.AttributeIDValue}
 )
 
-func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
-	if idx >= len(mi.eventFilter.WhereClause.Elements) {
+// whereClause returns the value of the where clause, which is that of its first element.
+func (mi *EventMonitoredItem) whereClause(evt ua.Event) any {
+	elements := mi.eventFilter.WhereClause.Elements
+	if len(elements) == 0 {
 		return true
 	}
-	element := mi.eventFilter.WhereClause.Elements[idx]
+	// an element may only refer to elements that follow, so begin with the last.
+	results := make([]any, len(elements))
+	for idx := len(elements) - 1; idx >= 0; idx-- {
+		results[idx] = mi.whereElement(evt, elements[idx], idx, results)
+	}
+	return results[0]
+}
+
+func (mi *EventMonitoredItem) whereElement(evt ua.Event, element ua.ContentFilterElement, idx int, results []any) any {
 	// operand returns the value of an operand, and whether it has one.
 	operand := func(i int) (ua.Variant, bool) {
 		if i >= len(element.FilterOperands) {
@@ -239,11 +249,10 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			return evt.GetAttribute(c), true
 		case ua.ElementOperand:
-			// an element may only refer to elements that follow.
-			if int(c.Index) <= idx || int(c.Index) >= len(mi.eventFilter.WhereClause.Elements) {
+			if int(c.Index) <= idx || int(c.Index) >= len(results) {
 				return nil, false
 			}
-			return mi.whereClause(evt, int(c.Index)), true
+			return results[c.Index], true
 		default:
 			return nil, false
 		}
-- 
2.43.0


From e0af882ffaeec738a4771f108a03066de501c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 72/93] fix: write the selected characters only with a
 two-dimensional range on an array of strings

---
 server/server_service_set.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 30526ee..0d55c60 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3314,7 +3314,23 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		}
 		dst := make([]string, len(src))
 		copy(dst, src)
-		copy(dst[i:j], v2)
+		if len(ranges) > 1 {
+			for ii := range v2 {
+				d := []rune(dst[i+ii])
+				r := []rune(v2[ii])
+				i2, j2, status := parseBounds(ranges[1], len(d))
+				if status.IsBad() {
+					return ua.NilDataValue, status
+				}
+				if j2-i2 != len(r) {
+					return ua.NilDataValue, ua.BadIndexRangeNoData
+				}
+				copy(d[i2:j2], r)
+				dst[i+ii] = string(d)
+			}
+		} else {
+			copy(dst[i:j], v2)
+		}
 		return ua.NewDataValue(dst, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	case []time.Time:
 		if len(ranges) > 1 {
@@ -3371,7 +3387,22 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		}
 		dst := make([]ua.ByteString, len(src))
 		copy(dst, src)
-		copy(dst[i:j], v2)
+		if len(ranges) > 1 {
+			for ii := range v2 {
+				d := []byte(dst[i+ii])
+				i2, j2, status := parseBounds(ranges[1], len(d))
+				if status.IsBad() {
+					return ua.NilDataValue, status
+				}
+				if j2-i2 != len(v2[ii]) {
+					return ua.NilDataValue, ua.BadIndexRangeNoData
+				}
+				copy(d[i2:j2], v2[ii])
+				dst[i+ii] = ua.ByteString(d)
+			}
+		} else {
+			copy(dst[i:j], v2)
+		}
 		return ua.NewDataValue(dst, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	case []ua.XMLElement:
 		if len(ranges) > 1 {
-- 
2.43.0


From afa1031f99ffeabc3086dac6c9b44d31adfdf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 73/93] fix: look for a revoked certificate in every current
 list of its issuer

---
 ua/certificate_helpers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ua/certificate_helpers.go b/ua/certificate_helpers.go
index 7011102..b33388c 100644
--- a/ua/certificate_helpers.go
+++ b/ua/certificate_helpers.go
@@ -350,7 +350,6 @@ func checkRevocation(chain []*x509.Certificate, index int, crls []*x509.Revocati
 						return BadCertificateIssuerRevoked
 					}
 				}
-				break
 			}
 		}
 	}
-- 
2.43.0


From 350f06971d3c8b8c84fc2b042bf118c12c5216b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:34 +0000
Subject: [PATCH 74/93] fix: answer with the thumbprint of the client's
 certificate, not of its chain

---
 server/server_secure_channel.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index a37279c..b7d42c1 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -538,7 +538,12 @@ func (ch *serverSecureChannel) sendOpenSecureChannelResponse(res *ua.OpenSecureC
 		encoder.WriteString(ch.securityPolicyURI)
 		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 			encoder.WriteByteArray(ch.localCertificate)
-			thumbprint := sha1.Sum(ch.remoteCertificate)
+			// the thumbprint is of the certificate itself, not of the chain that may follow it.
+			certs, err := x509.ParseCertificates(ch.remoteCertificate)
+			if err != nil || len(certs) == 0 {
+				return ua.BadSecurityChecksFailed
+			}
+			thumbprint := sha1.Sum(certs[0].Raw)
 			encoder.WriteByteArray(thumbprint[:])
 		} else {
 			encoder.WriteByteArray(nil)
-- 
2.43.0


From 86d6310b2ab318b48e67fe2558e0224486882acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 75/93] fix: go on with the next identity mapping rule when one
 is not for the application or endpoint

---
 server/roles_provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index d85a039..5147abd 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -151,7 +151,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next rule
+			continue // with next rule
 		}
 		ok = rule.EndpointsExclude // true means the following endpoints should be excluded
 		for _, ep := range rule.Endpoints {
@@ -161,7 +161,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next role
+			continue // with next rule
 		}
 		for _, identity := range rule.Identities {
 
-- 
2.43.0


From 5266672c8deda98f6da2b024bd4929045baef002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 76/93] fix: compare the thumbprint of an identity mapping rule
 without regard to case (the standard has upper case)

---
 server/roles_provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index 5147abd..414f235 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -3,6 +3,7 @@ package server
 import (
 	"crypto/sha1"
 	"fmt"
+	"strings"
 
 	"github.com/awcullen/opcua/ua"
 )
@@ -188,7 +189,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 					break // continue with next identity
 				}
 				thumbprint := fmt.Sprintf("%x", sha1.Sum([]byte(id.Certificate)))
-				if identity.CriteriaType == ua.IdentityCriteriaTypeThumbprint && identity.Criteria == thumbprint {
+				if identity.CriteriaType == ua.IdentityCriteriaTypeThumbprint && strings.EqualFold(identity.Criteria, thumbprint) {
 					roles = append(roles, rule.NodeID)
 					break // continue with next identity
 				}
-- 
2.43.0


From 770710c66ff22b1c0ad49f2655864bb489420c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 77/93] fix: read escapes and the locale in texts, aliases and
 references of a node set

---
 server/namespace_manager.go | 2 +-
 ua/ua_node_set.go           | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index b00dbef..79ca123 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -876,7 +876,7 @@ func toLocalizedText(s ua.UALocalizedText) ua.LocalizedText {
 	if len(s.Text) > 0 {
 		return ua.NewLocalizedText(s.Text, s.Locale)
 	}
-	return ua.NewLocalizedText(s.Content, "")
+	return ua.NewLocalizedText(s.Content, s.Language)
 }
 
 func indexOfString(data []string, element string) int {
diff --git a/ua/ua_node_set.go b/ua/ua_node_set.go
index 3d796ec..9bfa2ea 100644
--- a/ua/ua_node_set.go
+++ b/ua/ua_node_set.go
@@ -57,14 +57,14 @@ type UANode struct {
 // Alias supports reading UANodeSet from xml.
 type Alias struct {
 	Alias  string `xml:"Alias,attr"`
-	NodeID string `xml:",innerxml"`
+	NodeID string `xml:",chardata"`
 }
 
 // UAReference supports reading UANodeSet from xml.
 type UAReference struct {
 	ReferenceType string `xml:"ReferenceType,attr"`
 	IsForward     string `xml:"IsForward,attr"`
-	TargetNodeID  string `xml:",innerxml"`
+	TargetNodeID  string `xml:",chardata"`
 }
 
 // UADataTypeDefinition supports reading UANodeSet from xml.
@@ -180,7 +180,9 @@ type ListOfGUID struct {
 type UALocalizedText struct {
 	Text    string `xml:"Text"`
 	Locale  string `xml:"Locale"`
-	Content string `xml:",innerxml"`
+	Content string `xml:",chardata"`
+	// Language is the locale of the content.
+	Language string `xml:"Locale,attr"`
 }
 
 // ListOfLocalizedText supports reading UANodeSet from xml.
-- 
2.43.0


From 27524397cd243a5dbcf76f91aa8a9381c0fb5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 78/93] fix: read IsForward of a node set in all forms of a
 boolean

---
 server/namespace_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 79ca123..001bc18 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -848,7 +848,7 @@ func toRefs(refs []*ua.UAReference, aliases map[string]string, nsMap map[uint16]
 	for i, r := range refs {
 		ra[i] = ua.Reference{
 			ReferenceTypeID: toNodeID(r.ReferenceType, aliases, nsMap),
-			IsInverse:       r.IsForward == "false",
+			IsInverse:       !toBool(r.IsForward, true),
 			TargetID:        ua.NewExpandedNodeID(toNodeID(r.TargetNodeID, aliases, nsMap)),
 		}
 	}
-- 
2.43.0


From e3a4cd9cd83644304ec730b55bcf867d3cc46e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 79/93] fix: variables of a node set without a data type are of
 BaseDataType

---
 server/namespace_manager.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 001bc18..cd924da 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -691,7 +691,7 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				nil,
 				toRefs(n.References, aliases, nsMap),
 				toDataValue(n.Value, n.DataType, aliases, nsMap, toInt32(n.ValueRank, -1), m),
-				toNodeID(n.DataType, aliases, nsMap),
+				toDataType(n.DataType, aliases, nsMap),
 				toInt32(n.ValueRank, -1),
 				toDims(n.ArrayDimensions, toInt32(n.ValueRank, -1)),
 				n.IsAbstract,
@@ -742,7 +742,7 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				nil,
 				toRefs(n.References, aliases, nsMap),
 				toDataValue(n.Value, n.DataType, aliases, nsMap, toInt32(n.ValueRank, -1), m),
-				toNodeID(n.DataType, aliases, nsMap),
+				toDataType(n.DataType, aliases, nsMap),
 				toInt32(n.ValueRank, -1),
 				toDims(n.ArrayDimensions, toInt32(n.ValueRank, -1)),
 				toUint8(n.AccessLevel, 1),
@@ -823,6 +823,14 @@ func toNodeID(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.N
 	return nil
 }
 
+// toDataType returns the data type, which is BaseDataType where the document gives none.
+func toDataType(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.NodeID {
+	if s == "" {
+		return ua.DataTypeIDBaseDataType
+	}
+	return toNodeID(s, aliases, nsMap)
+}
+
 func toDims(dims string, rank int32) []uint32 {
 	if dims == "" {
 		if rank > 0 {
@@ -917,6 +925,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 	if alias, exists := aliases[dataType]; exists {
 		dataType = alias
 	}
+	if dataType == "" {
+		dataType = "i=24"
+	}
 	now := time.Now()
 	if true {
 		switch rank {
-- 
2.43.0


From 820fb04042052237e45b813bcdbad43157e278e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 80/93] fix: translate the namespace indices in values of a
 node set

---
 server/namespace_manager.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index cd924da..da50889 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -831,6 +831,23 @@ func toDataType(s string, aliases map[string]string, nsMap map[uint16]uint16) ua
 	return toNodeID(s, aliases, nsMap)
 }
 
+// toNamespaceIndex returns the index in the namespace table of the server.
+func toNamespaceIndex(ns uint16, nsMap map[uint16]uint16) uint16 {
+	if ns2, exists := nsMap[ns]; exists {
+		return ns2
+	}
+	return ns
+}
+
+// toExpandedNodeID returns the id with the index in the namespace table of the server.
+func toExpandedNodeID(s string, nsMap map[uint16]uint16) ua.ExpandedNodeID {
+	n := ua.ParseExpandedNodeID(s)
+	if n.NamespaceURI == "" && n.NodeID != nil {
+		n.NodeID = toNodeID(fmt.Sprint(n.NodeID), nil, nsMap)
+	}
+	return n
+}
+
 func toDims(dims string, rank int32) []uint32 {
 	if dims == "" {
 		if rank > 0 {
@@ -1010,7 +1027,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDQualifiedName:
 				if s.QualifiedName != nil {
 					item := *s.QualifiedName
-					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
+					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDDuration:
 				if s.Double != nil {
@@ -1019,12 +1036,12 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDNodeID:
 				if s.NodeID != nil {
 					item := *s.NodeID
-					return ua.NewDataValue(ua.ParseNodeID(strings.TrimSpace(item.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toNodeID(strings.TrimSpace(item.Identifier), nil, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDExpandedNodeID:
 				if s.ExpandedNodeID != nil {
 					item := *s.ExpandedNodeID
-					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(item.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toExpandedNodeID(strings.TrimSpace(item.Identifier), nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDInteger:
 				switch {
@@ -1112,11 +1129,11 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					return ua.NewDataValue(ua.LocalizedText{Text: strings.TrimSpace(item.Text), Locale: strings.TrimSpace(item.Locale)}, 0, now, 0, now, 0)
 				case s.QualifiedName != nil:
 					item := *s.QualifiedName
-					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
+					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
 				case s.NodeID != nil:
-					return ua.NewDataValue(ua.ParseNodeID(strings.TrimSpace(s.NodeID.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toNodeID(strings.TrimSpace(s.NodeID.Identifier), nil, nsMap), 0, now, 0, now, 0)
 				case s.ExpandedNodeID != nil:
-					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(s.ExpandedNodeID.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toExpandedNodeID(strings.TrimSpace(s.ExpandedNodeID.Identifier), nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDRange:
 				if s.ExtensionObject != nil {
@@ -1244,7 +1261,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list := s.ListOfQualifiedName.List
 					list2 := make([]ua.QualifiedName, len(list))
 					for i, item := range list {
-						list2[i] = ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}
+						list2[i] = ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: strings.TrimSpace(item.Name)}
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
@@ -1320,11 +1337,11 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 							item := &ua.UAQualifiedName{}
 							hack := fmt.Sprintf("<uax:QualifiedName>%s</uax:QualifiedName>", src)
 							xml.Unmarshal([]byte(hack), item)
-							list2[i] = ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: item.Name}
+							list2[i] = ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: item.Name}
 						case "NodeID":
-							list2[i] = ua.ParseNodeID(strings.TrimSpace(src))
+							list2[i] = toNodeID(strings.TrimSpace(src), nil, nsMap)
 						case "ExpandedNodeID":
-							list2[i] = ua.ParseExpandedNodeID(strings.TrimSpace(src))
+							list2[i] = toExpandedNodeID(strings.TrimSpace(src), nsMap)
 						case "ExtensionObject":
 							item := &ua.UAExtensionObject{}
 							hack := fmt.Sprintf("<uax:ExtensionObject>%s</uax:ExtensionObject>", src)
-- 
2.43.0


From 7c1ff64f40ddd8a2fb5b3f310e4a1009e6c3569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 81/93] fix: decode the base64 of byte strings in a node set

---
 server/namespace_manager.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index da50889..820de92 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -848,6 +848,16 @@ func toExpandedNodeID(s string, nsMap map[uint16]uint16) ua.ExpandedNodeID {
 	return n
 }
 
+// toByteString decodes the base64 of a byte string, which may have white space in it.
+func toByteString(s string) ua.ByteString {
+	b, err := base64.StdEncoding.DecodeString(strings.Join(strings.Fields(s), ""))
+	if err != nil {
+		log.Printf("Error decoding ByteString. %s\n", err)
+		return ""
+	}
+	return ua.ByteString(b)
+}
+
 func toDims(dims string, rank int32) []uint32 {
 	if dims == "" {
 		if rank > 0 {
@@ -1012,7 +1022,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 				}
 			case ua.DataTypeIDByteString:
 				if s.ByteString != nil {
-					return ua.NewDataValue(*s.ByteString, 0, now, 0, now, 0)
+					return ua.NewDataValue(toByteString(string(*s.ByteString)), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDXMLElement:
 				if s.XMLElement != nil {
@@ -1121,7 +1131,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 						return ua.NewDataValue(g, 0, now, 0, now, 0)
 					}
 				case s.ByteString != nil:
-					return ua.NewDataValue(*s.ByteString, 0, now, 0, now, 0)
+					return ua.NewDataValue(toByteString(string(*s.ByteString)), 0, now, 0, now, 0)
 				case s.XMLElement != nil:
 					return ua.NewDataValue(ua.XMLElement(s.XMLElement.InnerXML), 0, now, 0, now, 0)
 				case s.LocalizedText != nil:
@@ -1235,7 +1245,12 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 				}
 			case ua.DataTypeIDByteString:
 				if s.ListOfByteString != nil {
-					return ua.NewDataValue(s.ListOfByteString.List, 0, now, 0, now, 0)
+					list := s.ListOfByteString.List
+					list2 := make([]ua.ByteString, len(list))
+					for i, item := range list {
+						list2[i] = toByteString(string(item))
+					}
+					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDXMLElement:
 				if s.ListOfXMLElement != nil {
@@ -1325,7 +1340,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 							}
 							list2[i] = dst
 						case "ByteString":
-							list2[i] = ua.ByteString(src)
+							list2[i] = toByteString(src)
 						case "XMLElement":
 							list2[i] = ua.XMLElement(src)
 						case "LocalizedText":
-- 
2.43.0


From f9242e601cb3fb941778316992cbc70790528791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 82/93] fix: do not panic on a structure of another type in a
 node set

---
 server/namespace_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 820de92..1f98754 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1146,12 +1146,12 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					return ua.NewDataValue(toExpandedNodeID(strings.TrimSpace(s.ExpandedNodeID.Identifier), nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDRange:
-				if s.ExtensionObject != nil {
+				if s.ExtensionObject != nil && s.ExtensionObject.Range != nil {
 					item := s.ExtensionObject.Range
 					return ua.NewDataValue(ua.Range{Low: item.Low, High: item.High}, 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDEUInformation:
-				if s.ExtensionObject != nil {
+				if s.ExtensionObject != nil && s.ExtensionObject.EUInformation != nil {
 					item := s.ExtensionObject.EUInformation
 					return ua.NewDataValue(ua.EUInformation{
 						NamespaceURI: item.NamespaceURI,
@@ -1374,6 +1374,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list2 := make([]ua.ExtensionObject, len(list))
 					for i, item := range list {
 						arg := item.Argument
+						if arg == nil {
+							continue
+						}
 						list2[i] = ua.Argument{
 							Name:            arg.Name,
 							DataType:        toNodeID(arg.DataType, aliases, nsMap),
@@ -1390,6 +1393,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list2 := make([]ua.ExtensionObject, len(list))
 					for i, item := range list {
 						arg := item.EnumValueType
+						if arg == nil {
+							continue
+						}
 						list2[i] = ua.EnumValueType{
 							Value:       arg.Value,
 							DisplayName: ua.LocalizedText{Text: arg.DisplayName.Text, Locale: arg.DisplayName.Locale},
-- 
2.43.0


From 33c18598746dd6658ea85adea995849f0df8ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:51 +0000
Subject: [PATCH 83/93] fix: skip unknown parts of a node set instead of
 panicking

---
 server/namespace_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 1f98754..90d562b 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -775,6 +776,8 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 			)
 		}
 	}
+	// skip what is not a node
+	nodes = slices.DeleteFunc(nodes, func(n Node) bool { return n == nil })
 	err = m.AddNodes(nodes...)
 	if err != nil {
 		log.Printf("Error adding nodes. %s\n", err)
-- 
2.43.0


From 2f6e33f90601079be25fc1d98f1644d097ffd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 84/93] fix: load values of subtypes and arrays in a node set
 by the type of their elements

---
 server/namespace_manager.go | 58 ++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 90d562b..12adc5f 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -861,6 +861,49 @@ func toByteString(s string) ua.ByteString {
 	return ua.ByteString(b)
 }
 
+// toElementType returns the type of the elements of the array, or an empty string.
+func toElementType(s ua.UAVariant) string {
+	switch {
+	case s.ListOfBoolean != nil:
+		return "i=1"
+	case s.ListOfSByte != nil:
+		return "i=2"
+	case s.ListOfByte != nil:
+		return "i=3"
+	case s.ListOfInt16 != nil:
+		return "i=4"
+	case s.ListOfUInt16 != nil:
+		return "i=5"
+	case s.ListOfInt32 != nil:
+		return "i=6"
+	case s.ListOfUInt32 != nil:
+		return "i=7"
+	case s.ListOfInt64 != nil:
+		return "i=8"
+	case s.ListOfUInt64 != nil:
+		return "i=9"
+	case s.ListOfFloat != nil:
+		return "i=10"
+	case s.ListOfDouble != nil:
+		return "i=11"
+	case s.ListOfString != nil:
+		return "i=12"
+	case s.ListOfDateTime != nil:
+		return "i=13"
+	case s.ListOfGUID != nil:
+		return "i=14"
+	case s.ListOfByteString != nil:
+		return "i=15"
+	case s.ListOfXMLElement != nil:
+		return "i=16"
+	case s.ListOfQualifiedName != nil:
+		return "i=20"
+	case s.ListOfLocalizedText != nil:
+		return "i=21"
+	}
+	return ""
+}
+
 func toDims(dims string, rank int32) []uint32 {
 	if dims == "" {
 		if rank > 0 {
@@ -1164,13 +1207,8 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					}, 0, now, 0, now, 0)
 				}
 			default:
-				n2 := toNodeID(dataType, aliases, nsMap)
-				if m.IsSubtype(n2, ua.DataTypeIDEnumeration) {
-					if s.Int32 != nil {
-						return ua.NewDataValue(*s.Int32, 0, now, 0, now, 0)
-					}
-				}
-				return ua.NewDataValue(nil, 0, now, 0, now, 0)
+				// an enumeration, or a subtype of the type that the element tells
+				return toDataValue(s, "i=24", aliases, nsMap, rank, m)
 			}
 		case 1:
 			switch ua.ParseNodeID(dataType) {
@@ -1371,6 +1409,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
+				if t := toElementType(s); t != "" {
+					return toDataValue(s, t, aliases, nsMap, rank, m)
+				}
 			case ua.DataTypeIDArgument:
 				if s.ListOfExtensionObject != nil {
 					list := s.ListOfExtensionObject.List
@@ -1409,7 +1450,8 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 				}
 
 			default:
-				return ua.NewDataValue(nil, 0, now, 0, now, 0)
+				// an array of a subtype of the type that the element tells
+				return toDataValue(s, "i=24", aliases, nsMap, rank, m)
 			}
 		default:
 			return ua.NewDataValue(nil, 0, now, 0, now, 0)
-- 
2.43.0


From 088682def919428de10cc3454f146b7347a1a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 85/93] fix: load arrays of variants in a node set as the
 standard writes them

---
 server/namespace_manager.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 12adc5f..d5d554d 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1382,7 +1382,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 							list2[i] = dst
 						case "ByteString":
 							list2[i] = toByteString(src)
-						case "XMLElement":
+						case "XMLElement", "XmlElement":
 							list2[i] = ua.XMLElement(src)
 						case "LocalizedText":
 							item := &ua.UALocalizedText{}
@@ -1394,10 +1394,20 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 							hack := fmt.Sprintf("<uax:QualifiedName>%s</uax:QualifiedName>", src)
 							xml.Unmarshal([]byte(hack), item)
 							list2[i] = ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: item.Name}
-						case "NodeID":
+						case "NodeID", "NodeId":
 							list2[i] = toNodeID(strings.TrimSpace(src), nil, nsMap)
-						case "ExpandedNodeID":
+						case "ExpandedNodeID", "ExpandedNodeId":
 							list2[i] = toExpandedNodeID(strings.TrimSpace(src), nsMap)
+						case "Variant":
+							item := struct {
+								Value ua.UAVariant `xml:"Value"`
+							}{}
+							hack := fmt.Sprintf("<uax:Variant>%s</uax:Variant>", src)
+							if err := xml.Unmarshal([]byte(hack), &item); err != nil {
+								log.Printf("Error decoding Variant. %s\n", err)
+								continue
+							}
+							list2[i] = toDataValue(item.Value, "i=24", aliases, nsMap, -1, m).Value
 						case "ExtensionObject":
 							item := &ua.UAExtensionObject{}
 							hack := fmt.Sprintf("<uax:ExtensionObject>%s</uax:ExtensionObject>", src)
-- 
2.43.0


From b8ebd6d7df5ddce2dea6f4545c7ba190db523a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:41 +0000
Subject: [PATCH 86/93] fix: load arrays of node ids in a node set

---
 server/namespace_manager.go | 22 ++++++++++++++++++++++
 ua/ua_node_set.go           | 12 ++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index d5d554d..e9bcc60 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -896,6 +896,10 @@ func toElementType(s ua.UAVariant) string {
 		return "i=15"
 	case s.ListOfXMLElement != nil:
 		return "i=16"
+	case s.ListOfNodeID != nil:
+		return "i=17"
+	case s.ListOfExpandedNodeID != nil:
+		return "i=18"
 	case s.ListOfQualifiedName != nil:
 		return "i=20"
 	case s.ListOfLocalizedText != nil:
@@ -1321,6 +1325,24 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
+			case ua.DataTypeIDNodeID:
+				if s.ListOfNodeID != nil {
+					list := s.ListOfNodeID.List
+					list2 := make([]ua.NodeID, len(list))
+					for i, item := range list {
+						list2[i] = toNodeID(strings.TrimSpace(item.Identifier), nil, nsMap)
+					}
+					return ua.NewDataValue(list2, 0, now, 0, now, 0)
+				}
+			case ua.DataTypeIDExpandedNodeID:
+				if s.ListOfExpandedNodeID != nil {
+					list := s.ListOfExpandedNodeID.List
+					list2 := make([]ua.ExpandedNodeID, len(list))
+					for i, item := range list {
+						list2[i] = toExpandedNodeID(strings.TrimSpace(item.Identifier), nsMap)
+					}
+					return ua.NewDataValue(list2, 0, now, 0, now, 0)
+				}
 			case ua.DataTypeIDDuration:
 				if s.ListOfDouble != nil {
 					return ua.NewDataValue(s.ListOfDouble.List, 0, now, 0, now, 0)
diff --git a/ua/ua_node_set.go b/ua/ua_node_set.go
index 9bfa2ea..fc60b2f 100644
--- a/ua/ua_node_set.go
+++ b/ua/ua_node_set.go
@@ -255,6 +255,16 @@ type UAExpandedNodeID struct {
 	Identifier string `xml:"Identifier"`
 }
 
+// ListOfNodeID supports reading UANodeSet from xml.
+type ListOfNodeID struct {
+	List []UANodeID `xml:"NodeId,omitempty"`
+}
+
+// ListOfExpandedNodeID supports reading UANodeSet from xml.
+type ListOfExpandedNodeID struct {
+	List []UAExpandedNodeID `xml:"ExpandedNodeId,omitempty"`
+}
+
 // UAVariant supports reading UANodeSet from xml.
 type UAVariant struct {
 	XMLName         xml.Name
@@ -299,6 +309,8 @@ type UAVariant struct {
 	ListOfLocalizedText   *ListOfLocalizedText   `xml:"ListOfLocalizedText"`
 	ListOfQualifiedName   *ListOfQualifiedName   `xml:"ListOfQualifiedName"`
 	ListOfExtensionObject *ListOfExtensionObject `xml:"ListOfExtensionObject"`
+	ListOfNodeID          *ListOfNodeID          `xml:"ListOfNodeId"`
+	ListOfExpandedNodeID  *ListOfExpandedNodeID  `xml:"ListOfExpandedNodeId"`
 	ListOfVariant         *ListOfVariant         `xml:"ListOfVariant"`
 }
 
-- 
2.43.0


From edea1687f1157e70bd68e2c3cc01e27528576ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:14 +0000
Subject: [PATCH 87/93] fix: translate the namespace index of the data type of
 a value in a node set

---
 server/namespace_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index e9bcc60..0b435a5 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1009,7 +1009,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 	if true {
 		switch rank {
 		case -1:
-			switch ua.ParseNodeID(dataType) {
+			switch toNodeID(dataType, aliases, nsMap) {
 			case ua.DataTypeIDBoolean:
 				if s.Bool != nil {
 					return ua.NewDataValue(*s.Bool, 0, now, 0, now, 0)
@@ -1215,7 +1215,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 				return toDataValue(s, "i=24", aliases, nsMap, rank, m)
 			}
 		case 1:
-			switch ua.ParseNodeID(dataType) {
+			switch toNodeID(dataType, aliases, nsMap) {
 			case ua.DataTypeIDBoolean:
 				if s.ListOfBoolean != nil {
 					return ua.NewDataValue(s.ListOfBoolean.List, 0, now, 0, now, 0)
-- 
2.43.0


From 838b27d0dc86fc4cacbcbcb4df3c31ce8179c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:15 +0000
Subject: [PATCH 88/93] fix: discovery channels on servers without discovery
 urls

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index b7d42c1..b793d5c 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -306,7 +306,7 @@ func (ch *serverSecureChannel) Open() error {
 		// connecting for discovery only
 		ch.discoveryOnly = true
 		ch.localEndpoint = ua.EndpointDescription{
-			EndpointURL:       ch.srv.localDescription.DiscoveryURLs[0],
+			EndpointURL:       ch.srv.EndpointURL(),
 			Server:            ch.srv.localDescription,
 			SecurityMode:      ua.MessageSecurityModeNone,
 			SecurityPolicyURI: ua.SecurityPolicyURINone,
-- 
2.43.0


From 6819cee89bc4f135ee66930b570255076f259fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 89/93] fix: the history of a node is read by users with
 permission only

---
 server/server_service_set.go | 69 +++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 0d55c60..778f37e 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2616,9 +2616,43 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 
 	ctx := context.Background()
 
+	// check permission to read the history of each node
+	nodes := make([]ua.HistoryReadValueID, 0, l)
+	denied := make(map[int]ua.StatusCode)
+	for i, v := range req.NodesToRead {
+		if n, ok := srv.NamespaceManager().FindNode(v.NodeID); ok {
+			rp := n.UserRolePermissions(session.UserIdentity())
+			if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
+				denied[i] = ua.BadNodeIDUnknown
+				continue
+			}
+			if !IsUserPermitted(rp, ua.PermissionTypeReadHistory) {
+				denied[i] = ua.BadUserAccessDenied
+				continue
+			}
+		}
+		nodes = append(nodes, v)
+	}
+	if len(nodes) == 0 {
+		err := ch.Write(
+			&ua.HistoryReadResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				Results: mergeHistoryReadResults(nil, denied),
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	switch details := req.HistoryReadDetails.(type) {
 	case ua.ReadEventDetails:
-		results, status := h.ReadEvent(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadEvent(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2626,7 +2660,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: mergeHistoryReadResults(results, denied),
 			},
 			requestid,
 		)
@@ -2636,7 +2670,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadRawModifiedDetails:
-		results, status := h.ReadRawModified(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadRawModified(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2644,7 +2678,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: mergeHistoryReadResults(results, denied),
 			},
 			requestid,
 		)
@@ -2654,7 +2688,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadProcessedDetails:
-		results, status := h.ReadProcessed(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadProcessed(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2662,7 +2696,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: mergeHistoryReadResults(results, denied),
 			},
 			requestid,
 		)
@@ -2672,7 +2706,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadAtTimeDetails:
-		results, status := h.ReadAtTime(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadAtTime(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2680,7 +2714,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: mergeHistoryReadResults(results, denied),
 			},
 			requestid,
 		)
@@ -2707,6 +2741,25 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 	return nil
 }
 
+// mergeHistoryReadResults puts the results of the nodes that were not read between the results of those that were.
+func mergeHistoryReadResults(results []ua.HistoryReadResult, denied map[int]ua.StatusCode) []ua.HistoryReadResult {
+	if len(denied) == 0 {
+		return results
+	}
+	merged := make([]ua.HistoryReadResult, 0, len(results)+len(denied))
+	for total := len(results) + len(denied); len(merged) < total; {
+		if status, ok := denied[len(merged)]; ok {
+			merged = append(merged, ua.HistoryReadResult{StatusCode: status})
+		} else if len(results) > 0 {
+			merged = append(merged, results[0])
+			results = results[1:]
+		} else {
+			break
+		}
+	}
+	return merged
+}
+
 // readRange returns slice of value specified by IndexRange
 func readRange(source ua.DataValue, indexRange string) ua.DataValue {
 	if indexRange == "" {
-- 
2.43.0


From 2b822b0509cf61fb442e3c7e1f44276c09be95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:40 +0000
Subject: [PATCH 90/93] fix: history reads of events have a limit of their own

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 778f37e..5d29a8e 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2574,7 +2574,11 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 	}
 	// check too many operations
-	if l > int(srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadData) {
+	limit := srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadData
+	if _, ok := req.HistoryReadDetails.(ua.ReadEventDetails); ok {
+		limit = srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadEvents
+	}
+	if l > int(limit) {
 		// session.readErrorCount++
 		// session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 7a63ac7c0bb66fc9d4f941d60da8b91fe716aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:51 +0000
Subject: [PATCH 91/93] fix: limits of values returned by history reads are
 announced as numbers

---
 server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 4dc557a..00795a8 100644
--- a/server/server.go
+++ b/server/server.go
@@ -652,10 +652,10 @@ func (srv *Server) initializeNamespace() error {
 		n.SetValue(ua.NewDataValue(false, 0, time.Now(), 0, time.Now(), 0))
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDHistoryServerCapabilitiesMaxReturnDataValues); ok {
-		n.SetValue(ua.NewDataValue(false, 0, time.Now(), 0, time.Now(), 0))
+		n.SetValue(ua.NewDataValue(uint32(0), 0, time.Now(), 0, time.Now(), 0))
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDHistoryServerCapabilitiesMaxReturnEventValues); ok {
-		n.SetValue(ua.NewDataValue(false, 0, time.Now(), 0, time.Now(), 0))
+		n.SetValue(ua.NewDataValue(uint32(0), 0, time.Now(), 0, time.Now(), 0))
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDHistoryServerCapabilitiesInsertAnnotationCapability); ok {
 		n.SetValue(ua.NewDataValue(false, 0, time.Now(), 0, time.Now(), 0))
-- 
2.43.0


From ba376600da33c87734acb871298325a1352f88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 92/93] fix: namespace uris are escaped in the text of expanded
 node ids

---
 ua/expanded_nodeid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ua/expanded_nodeid.go b/ua/expanded_nodeid.go
index 395279a..f3ca4b3 100644
--- a/ua/expanded_nodeid.go
+++ b/ua/expanded_nodeid.go
@@ -22,6 +22,12 @@ func NewExpandedNodeID(nodeID NodeID) ExpandedNodeID {
 // NilExpandedNodeID is the nil value.
 var NilExpandedNodeID = ExpandedNodeID{0, "", nil}
 
+// The characters ';' and '%' are escaped in the text of a namespace uri. See Part 6, 5.3.1.11.
+var (
+	namespaceURIEscaper   = strings.NewReplacer("%", "%25", ";", "%3B")
+	namespaceURIUnescaper = strings.NewReplacer("%25", "%", "%3B", ";", "%3b", ";")
+)
+
 // ParseExpandedNodeID returns a NodeID from a string representation.
 //   - ParseExpandedNodeID("i=85") // integer, assumes nsu=http://opcfoundation.org/UA/
 //   - ParseExpandedNodeID("nsu=http://www.unifiedautomation.com/DemoServer/;s=Demo.Static.Scalar.Float") // string
@@ -50,7 +56,7 @@ func ParseExpandedNodeID(s string) ExpandedNodeID {
 			return NilExpandedNodeID
 		}
 
-		nsu = s[4:pos]
+		nsu = namespaceURIUnescaper.Replace(s[4:pos])
 		s = s[pos+1:]
 	}
 
@@ -64,7 +70,7 @@ func (n ExpandedNodeID) String() string {
 		fmt.Fprintf(b, "svr=%d;", n.ServerIndex)
 	}
 	if len(n.NamespaceURI) > 0 {
-		fmt.Fprintf(b, "nsu=%s;", n.NamespaceURI)
+		fmt.Fprintf(b, "nsu=%s;", namespaceURIEscaper.Replace(n.NamespaceURI))
 	}
 	switch n2 := n.NodeID.(type) {
 	case NodeIDNumeric:
-- 
2.43.0


From 1649339672a1752d502294ce60287cadf9a99c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 93/93] fix: a name after a number that is no namespace index
 has namespace 0

---
 ua/qualified_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ua/qualified_name.go b/ua/qualified_name.go
index fe8ae8b..6cf79f7 100644
--- a/ua/qualified_name.go
+++ b/ua/qualified_name.go
@@ -28,7 +28,7 @@ func ParseQualifiedName(s string) QualifiedName {
 	}
 	ns, err := strconv.ParseUint(s[:pos], 10, 16)
 	if err != nil {
-		return QualifiedName{uint16(ns), s}
+		return QualifiedName{0, s}
 	}
 	s = s[pos+1:]
 	return QualifiedName{uint16(ns), s}
-- 
2.43.0

