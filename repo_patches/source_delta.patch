From 3308f47b013bcf2a0f1a60248ce713618b18c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 01/18] verif: add build-tagged delay points between critical
 sections

---
 connection.go                    |  8 ++++++++
 deregisterHandler.go             |  4 ++++
 handleConnection.go              |  4 ++++
 handleSessionClosure.go          |  3 +++
 handleSessionRestore.go          |  4 ++++
 registerHandler.go               |  4 ++++
 requestManager/requestManager.go |  4 ++++
 server.go                        |  3 +++
 sessionRegistry.go               |  3 +++
 transport/memchan/socket.go      |  8 ++++++++
 transport/memchan/transport.go   |  3 +++
 vpoint/off.go                    | 10 ++++++++++
 vpoint/on.go                     | 23 +++++++++++++++++++++++
 13 files changed, 81 insertions(+)
 create mode 100644 vpoint/off.go
 create mode 100644 vpoint/on.go

diff --git a/connection.go b/connection.go
index f07bd6c..b754358 100644
--- a/connection.go
+++ b/connection.go
@@ -9,6 +9,7 @@ import (
 	"time"
 
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 	"golang.org/x/sync/semaphore"
 )
 
@@ -113,6 +114,7 @@ func (con *connection) deregisterTask() {
 	con.stateLock.Unlock()
 
 	if unlink {
+		vpoint.At("connection.idle")
 		con.unlink()
 	}
 }
@@ -134,6 +136,7 @@ func (con *connection) unlink() {
 	con.session = nil
 	con.sessionLock.Unlock()
 
+	vpoint.At("unlink.deregistered")
 	// Close connection
 	con.sock.Close()
 }
@@ -208,6 +211,7 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		)
 	}
 
+	vpoint.At("createSession.checked")
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
@@ -220,12 +224,14 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		)
 	}
 
+	vpoint.At("createSession.notified")
 	// Register the session
 	con.session = &newSession
 
 	con.srv.sessionRegistry.register(con)
 	con.sessionLock.Unlock()
 
+	vpoint.At("createSession.registered")
 	// Call session creation hook
 	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
 		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
@@ -292,6 +298,7 @@ func (con *connection) CloseSession() error {
 	con.session = nil
 	con.sessionLock.Unlock()
 
+	vpoint.At("closeSession.deregistered")
 	return con.notifySessionClosed()
 }
 
@@ -363,6 +370,7 @@ func (con *connection) Close() {
 	con.stateLock.Unlock()
 
 	if unlink {
+		vpoint.At("connection.closed")
 		con.unlink()
 	}
 }
diff --git a/deregisterHandler.go b/deregisterHandler.go
index 63587d6..35a246c 100644
--- a/deregisterHandler.go
+++ b/deregisterHandler.go
@@ -1,5 +1,7 @@
 package webwire
 
+import "github.com/qbeon/webwire-go/vpoint"
+
 // deregisterHandler decrements the number of currently executed handlers
 // and shuts down the server if scheduled and no more operations are left
 func (srv *server) deregisterHandler(con *connection) {
@@ -10,8 +12,10 @@ func (srv *server) deregisterHandler(con *connection) {
 	}
 	srv.opsLock.Unlock()
 
+	vpoint.At("deregister.ops")
 	con.deregisterTask()
 
+	vpoint.At("deregister.task")
 	// Release a handler slot
 	if con.options.ConcurrencyLimit > 1 {
 		con.handlerSlots.Release(1)
diff --git a/handleConnection.go b/handleConnection.go
index e84988f..aa99f41 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -3,6 +3,8 @@ package webwire
 import (
 	"fmt"
 	"time"
+
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 func (srv *server) writeConfMessage(sock Socket) error {
@@ -45,6 +47,7 @@ func (srv *server) handleConnection(
 		return
 	}
 
+	vpoint.At("connection.confWritten")
 	// Register connected client
 	connection := newConnection(
 		sock,
@@ -74,6 +77,7 @@ func (srv *server) handleConnection(
 				srv.warnLog.Printf("abnormal closure error: %s", err)
 			}
 
+			vpoint.At("connection.readFailed")
 			connection.Close()
 			srv.impl.OnClientDisconnected(connection, err)
 			break
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..9afea01 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -2,6 +2,7 @@ package webwire
 
 import (
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 // handleSessionClosure handles session destruction requests
@@ -30,10 +31,12 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
+	vpoint.At("closureRequest.checked")
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
 	srv.sessionRegistry.deregister(con, true)
 
+	vpoint.At("closureRequest.deregistered")
 	// Reset the session on the connection
 	con.setSession(nil)
 
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..10ab6df 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 // handleSessionRestore handles session restoration (by session key) requests
@@ -36,6 +37,7 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	vpoint.At("restore.checked")
 	// Call session manager lookup hook
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
@@ -83,12 +85,14 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
+	vpoint.At("restore.found")
 	con.setSession(&Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
 	})
+	vpoint.At("restore.assigned")
 	if err := srv.sessionRegistry.register(con); err != nil {
 		panic(fmt.Errorf("the number of concurrent session connections was " +
 			"unexpectedly exceeded",
diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..5033014 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -4,6 +4,7 @@ import (
 	"context"
 
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 // registerHandler increments the number of currently executed handlers for this
@@ -20,11 +21,13 @@ func (srv *server) registerHandler(
 		return false
 	}
 
+	vpoint.At("register.active")
 	// Acquire handler slot if the number of concurrent handlers is limited
 	if con.options.ConcurrencyLimit > 1 {
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
+	vpoint.At("register.slot")
 	srv.opsLock.Lock()
 	if srv.shutdown {
 		// defer failure due to shutdown of either the server or the connection
@@ -40,6 +43,7 @@ func (srv *server) registerHandler(
 		return false
 	}
 
+	vpoint.At("register.counted")
 	con.registerTask()
 	return true
 }
diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..c93237e 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -6,6 +6,7 @@ import (
 	"sync/atomic"
 
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 // RequestManager manages and keeps track of outgoing pending requests
@@ -42,6 +43,7 @@ func (manager *RequestManager) Create() *Request {
 	}
 	copy(newRequest.Identifier[:], identBytes)
 
+	vpoint.At("create.numbered")
 	// Register the newly created request
 	manager.lock.Lock()
 	manager.pending[newRequest.Identifier] = newRequest
@@ -71,6 +73,7 @@ func (manager *RequestManager) Fulfill(msg *message.Message) bool {
 		return false
 	}
 
+	vpoint.At("fulfill.found")
 	manager.deregister(msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
@@ -93,6 +96,7 @@ func (manager *RequestManager) Fail(
 		return false
 	}
 
+	vpoint.At("fail.found")
 	manager.deregister(identifier)
 	req.Reply <- genericReply{
 		Error: err,
diff --git a/server.go b/server.go
index 4cf3014..ec15471 100644
--- a/server.go
+++ b/server.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 // server represents a headless WebWire server instance,
@@ -64,6 +65,7 @@ func (srv *server) Shutdown() error {
 	}
 	srv.opsLock.Unlock()
 
+	vpoint.At("shutdown.waiting")
 	// Wait until the server is ready for shutdown
 	<-srv.shutdownRdy
 
@@ -93,6 +95,7 @@ func (srv *server) CloseSession(sessionKey string) (
 ) {
 	connections := srv.sessionRegistry.sessionConnections(sessionKey)
 
+	vpoint.At("closeSession.listed")
 	errors = make([]error, len(connections))
 	if connections == nil {
 		return nil, nil, nil
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..9ab629b 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -3,6 +3,8 @@ package webwire
 import (
 	"fmt"
 	"sync"
+
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 // sessionRegistry represents a thread safe registry
@@ -81,6 +83,7 @@ func (asr *sessionRegistry) deregister(
 			delete(asr.registry, conn.session.Key)
 			asr.lock.Unlock()
 
+			vpoint.At("registry.last")
 			// Destroy the session
 			if destroy {
 				// Recover potential user-space hook panics
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..fdc015f 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -11,6 +11,7 @@ import (
 
 	wwr "github.com/qbeon/webwire-go"
 	"github.com/qbeon/webwire-go/message"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 const statusConnected uint32 = 1
@@ -74,9 +75,11 @@ func (sock *Socket) onBufferFlush(data []byte) (err error) {
 		return errors.New("can't write to a closed socket")
 	}
 
+	vpoint.At("flush.connected")
 	// Notify the remote reader about the new message
 	sock.remote.writeReader(data)
 
+	vpoint.At("flush.handed")
 	// Wait for the remote reader to finish reading
 	err = <-sock.remote.readerErr
 
@@ -113,6 +116,7 @@ func (sock *Socket) Dial(deadline time.Time) error {
 	sock.resetReader()
 	sock.remote.resetReader()
 
+	vpoint.At("dial.connected")
 	// Execute server callback
 	return sock.server.onConnect(sock, connOpts)
 }
@@ -216,6 +220,7 @@ func (sock *Socket) Read(
 		return ErrSockRead{closed: true}
 	}
 
+	vpoint.At("read.connected")
 	var data []byte
 	if deadline.IsZero() {
 		// No deadline
@@ -231,6 +236,7 @@ func (sock *Socket) Read(
 		return err
 	}
 
+	vpoint.At("read.received")
 	// Try to read the socket into the message buffer and release the remote
 	// writer by sending nil to the sock.reader channel
 	typeParsed, parseErr := msg.ReadBytes(data)
@@ -274,6 +280,7 @@ func (sock *Socket) Close() error {
 		return nil
 	}
 
+	vpoint.At("close.marked")
 	// Close remote reader and writer
 	sock.remote.closeReader()
 
@@ -290,6 +297,7 @@ func (sock *Socket) Close() error {
 	default:
 	}
 
+	vpoint.At("close.failed")
 	// Close the local reader
 	sock.closeReader()
 
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..d3c32f8 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -9,6 +9,7 @@ import (
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
+	"github.com/qbeon/webwire-go/vpoint"
 )
 
 const serverClosed = 0
@@ -77,6 +78,7 @@ func (srv *Transport) Shutdown() error {
 		}
 		srv.connectionsLock.Unlock()
 
+		vpoint.At("shutdown.listed")
 		// Close all connections
 		for _, sock := range conns {
 			if err := sock.Close(); err != nil {
@@ -113,6 +115,7 @@ func (srv *Transport) onConnect(
 		return errors.New("uninitialized socket")
 	}
 
+	vpoint.At("onConnect.checked")
 	srv.connectionsLock.Lock()
 	srv.connections[clientSocket.remote] = clientSocket
 	srv.connectionsLock.Unlock()
diff --git a/vpoint/off.go b/vpoint/off.go
new file mode 100644
index 0000000..75a646d
--- /dev/null
+++ b/vpoint/off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+// +build !verif
+
+// Package vpoint marks places between critical sections at which verification
+// builds (build tag "verif") may delay the executing goroutine. Without the tag
+// the marks do nothing.
+package vpoint
+
+// At marks a place in the code, it does nothing in regular builds
+func At(string) {}
diff --git a/vpoint/on.go b/vpoint/on.go
new file mode 100644
index 0000000..342e884
--- /dev/null
+++ b/vpoint/on.go
@@ -0,0 +1,23 @@
+//go:build verif
+// +build verif
+
+// Package vpoint marks places between critical sections at which verification
+// builds (build tag "verif") may delay the executing goroutine. Without the tag
+// the marks do nothing.
+package vpoint
+
+import "sync/atomic"
+
+var hook atomic.Value
+
+// Set installs the function that's called at every marked place
+func Set(fn func(place string)) {
+	hook.Store(fn)
+}
+
+// At calls the installed function
+func At(place string) {
+	if fn, ok := hook.Load().(func(string)); ok && fn != nil {
+		fn(place)
+	}
+}
-- 
2.43.0


From f9622aa026bd084b853181fbb6c245f4b47985c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 02/18] fix: decode surrogate pairs in UTF16 payloads

---
 payload/payload.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..204c524 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,15 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		u16str := make([]uint16, len(pld.Data)/2)
+		for i := range u16str {
+			u16str[i] = uint16(pld.Data[2*i]) + (uint16(pld.Data[2*i+1]) << 8)
+		}
 		utf8str := &bytes.Buffer{}
 		utf8buf := make([]byte, 4)
-		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+		// Decode all units at once to preserve surrogate pairs
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From 794d9c0209b43ae2359b2e80da8d0e5f97ed1a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 03/18] fix: reject oversized messages whose last fragment
 comes with EOF

---
 message/buffer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..94a4b11 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -10,6 +10,9 @@ import (
 type Buffer struct {
 	buf []byte
 	len int
+
+	// overflow is used to detect messages that are bigger than the buffer
+	overflow [1]byte
 }
 
 // Bytes returns a full-length slice of the buffer
@@ -32,9 +35,13 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	cursor := 0
 	for {
 		if cursor >= len(buf.buf) {
-			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			// Expect EOF on full buffer, don't overwrite the buffer and don't
+			// take the data returned together with EOF for the end
+			readBytes, err := reader.Read(buf.overflow[:])
+			if readBytes < 1 && err == nil {
+				continue
+			}
+			if readBytes > 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
-- 
2.43.0


From 24277d54af2252299c97d683cd16e0d62ba6f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 04/18] fix: reset all fields when reading into a message that
 was not closed

---
 message/message.go | 13 +++++++++++--
 message/read.go    |  5 ++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..d334a83 100644
--- a/message/message.go
+++ b/message/message.go
@@ -295,8 +295,8 @@ func (msg *Message) PayloadUtf8() ([]byte, error) {
 	return msg.MsgPayload.Utf8()
 }
 
-// Close implements the Message interface
-func (msg *Message) Close() {
+// discard resets the buffer and all fields of the previously read message
+func (msg *Message) discard() {
 	if msg.MsgBuffer.IsEmpty() {
 		return
 	}
@@ -308,6 +308,15 @@ func (msg *Message) Close() {
 	msg.MsgName = nil
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
+}
+
+// Close implements the Message interface
+func (msg *Message) Close() {
+	if msg.MsgBuffer.IsEmpty() {
+		return
+	}
+
+	msg.discard()
 
 	// Call closure callback
 	msg.onClose()
diff --git a/message/read.go b/message/read.go
index 6c18197..ba7f4d1 100644
--- a/message/read.go
+++ b/message/read.go
@@ -13,9 +13,7 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 	if len(bytes) > len(msg.MsgBuffer.buf) {
 		return false, errors.New("message buffer overflow")
 	}
-	if !msg.MsgBuffer.IsEmpty() {
-		msg.MsgBuffer.Close()
-	}
+	msg.discard()
 	copy(msg.MsgBuffer.buf[:len(bytes)], bytes)
 	msg.MsgBuffer.len = len(bytes)
 	return msg.parse()
@@ -23,6 +21,7 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 
 // Read reads and parses the message from the given reader
 func (msg *Message) Read(reader io.Reader) (typeParsed bool, err error) {
+	msg.discard()
 	if err := msg.MsgBuffer.Read(reader); err != nil {
 		return false, err
 	}
-- 
2.43.0


From 9dfa54c9d01ed2b302dd8f519c450a6f155293a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 05/18] fix: accept UTF16 signals that consist of a name only

---
 message/parseSignalUtf16.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..099b195 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -26,7 +26,11 @@ func (msg *Message) parseSignalUtf16() error {
 	nameLen := int(dat[1])
 
 	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
+	minMsgSize := MinLenSignalUtf16
+	if nameLen > 0 {
+		// The payload is optional if there's a name
+		minMsgSize = 2 + nameLen
+	}
 	payloadOffset := 2 + nameLen
 
 	// Check whether a name padding byte is to be expected
-- 
2.43.0


From 1e03b5368d2b6277455341fbb35377bf50c297c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 06/18] fix: check the length of error codes regardless of the
 safe mode

---
 message/writeMsgErrorReply.go | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/message/writeMsgErrorReply.go b/message/writeMsgErrorReply.go
index e225f13..1badab4 100644
--- a/message/writeMsgErrorReply.go
+++ b/message/writeMsgErrorReply.go
@@ -14,27 +14,27 @@ func WriteMsgReplyError(
 	message []byte,
 	safeMode bool,
 ) error {
-	if safeMode {
-		// Validate input
-		if len(code) < 1 {
-			initialErr := fmt.Errorf(
-				"missing error code while creating a new error reply message",
-			)
-			if err := writer.Close(); err != nil {
-				return fmt.Errorf("%s: %s", initialErr, err)
-			}
-			return initialErr
-		} else if len(code) > 255 {
-			initialErr := fmt.Errorf(
-				"invalid error code while creating a new error reply message,"+
-					"too long (%d)",
-				len(code),
-			)
-			if err := writer.Close(); err != nil {
-				return fmt.Errorf("%s: %s", initialErr, err)
-			}
-			return initialErr
+	// Validate input
+	if len(code) < 1 {
+		initialErr := fmt.Errorf(
+			"missing error code while creating a new error reply message",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
 		}
+		return initialErr
+	} else if len(code) > 255 {
+		initialErr := fmt.Errorf(
+			"invalid error code while creating a new error reply message,"+
+				"too long (%d)",
+			len(code),
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+	if safeMode {
 		// Determine total message length
 		// messageSize := 10 + len(code) + len(message)
 		// if len(buf) < messageSize {
-- 
2.43.0


From b159514d965a3bea6cf3d359b1618b206c5fc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 07/18] fix: refuse writing signals with neither a name nor a
 payload

---
 message/writeMsgSignal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/message/writeMsgSignal.go b/message/writeMsgSignal.go
index ac8fd9a..0fa6d9c 100644
--- a/message/writeMsgSignal.go
+++ b/message/writeMsgSignal.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -16,6 +17,17 @@ func WriteMsgSignal(
 	payloadData []byte,
 	safeMode bool,
 ) error {
+	// Require either a name, or a payload or both, but don't allow none
+	if len(name) < 1 && len(payloadData) < 1 {
+		initialErr := errors.New(
+			"signal message requires either a name, or a payload, or both",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	if len(name) > 255 {
 		initialErr := fmt.Errorf(
 			"unsupported request message name length: %d",
-- 
2.43.0


From 1b0520469498e3537fd4cedf4305852102110e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 08/18] fix: release the memchan writer when nothing was
 written

---
 transport/memchan/buffer.go | 4 ----
 transport/memchan/socket.go | 6 ++++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..9cf6368 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -1,7 +1,6 @@
 package memchan
 
 import (
-	"errors"
 	"sync"
 
 	wwr "github.com/qbeon/webwire-go"
@@ -54,9 +53,6 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 // Close flushes the buffer to the reader
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
-	if buf.len < 1 {
-		return errors.New("no data written")
-	}
 	err = buf.onFlush(buf.buf[:buf.len])
 	buf.reset()
 	buf.lock.Unlock()
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index fdc015f..636765b 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -70,6 +70,12 @@ type Socket struct {
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
+	if len(data) < 1 {
+		// Nothing to be sent, release the writer for the next message
+		sock.writerLock.Unlock()
+		return errors.New("no data written")
+	}
+
 	if !sock.IsConnected() {
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
-- 
2.43.0


From 670f9412207768b43bf5e9c8c1f167d6569c3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 09/18] fix: answer requests whose reply could not be written

---
 failMsg.go    | 6 ++++++
 fulfillMsg.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..faa3c1e 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -36,6 +36,9 @@ func (srv *server) failMsg(
 			true,
 		); err != nil {
 			srv.errorLog.Println("couldn't write error reply message: ", err)
+
+			// Don't leave the request unanswered
+			srv.failMsg(con, msg, nil)
 			return
 		}
 	case *ErrRequest:
@@ -47,6 +50,9 @@ func (srv *server) failMsg(
 			true,
 		); err != nil {
 			srv.errorLog.Println("couldn't write error reply message: ", err)
+
+			// Don't leave the request unanswered
+			srv.failMsg(con, msg, nil)
 			return
 		}
 	case ErrMaxSessConnsReached:
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..7035f88 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -29,5 +29,8 @@ func (srv *server) fulfillMsg(
 			con,
 			err,
 		)
+
+		// Don't leave the request unanswered
+		srv.failMsg(con, msg, nil)
 	}
 }
-- 
2.43.0


From 011235ad7de896a248f468cc32512c1db0a75076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 10/18] fix: don't release message buffers before their
 handlers have returned

---
 handleRequest.go  |  2 +-
 handleSignal.go   |  2 +-
 handledMessage.go | 13 +++++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)
 create mode 100644 handledMessage.go

diff --git a/handleRequest.go b/handleRequest.go
index 3568582..5050c26 100644
--- a/handleRequest.go
+++ b/handleRequest.go
@@ -13,7 +13,7 @@ func (srv *server) handleRequest(con *connection, msg *message.Message) {
 	replyPayload, returnedErr := srv.impl.OnRequest(
 		context.Background(),
 		con,
-		msg,
+		handledMessage{msg},
 	)
 
 	// Handle returned error
diff --git a/handleSignal.go b/handleSignal.go
index f0a328c..1875778 100644
--- a/handleSignal.go
+++ b/handleSignal.go
@@ -9,7 +9,7 @@ import (
 // handleSignal handles incoming signals
 // and returns an error if the ongoing connection cannot be proceeded
 func (srv *server) handleSignal(con *connection, msg *message.Message) {
-	srv.impl.OnSignal(context.Background(), con, msg)
+	srv.impl.OnSignal(context.Background(), con, handledMessage{msg})
 
 	srv.deregisterHandler(con)
 
diff --git a/handledMessage.go b/handledMessage.go
new file mode 100644
index 0000000..abffc06
--- /dev/null
+++ b/handledMessage.go
@@ -0,0 +1,13 @@
+package webwire
+
+import "github.com/qbeon/webwire-go/message"
+
+// handledMessage represents a message passed to a signal or request handler
+type handledMessage struct {
+	*message.Message
+}
+
+// Close implements the Message interface.
+// It doesn't release the message buffer because it's still needed for the reply
+// and will be released by the server as soon as the handler has returned
+func (msg handledMessage) Close() {}
-- 
2.43.0


From f454b3fa3d44f60accd9aff6d9c07d45314a3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 11/18] fix: refuse messages during the closure of connections
 and the server

Messages of closing connections were silently dropped or, when waiting for a
handler slot, still handled. Messages that don't require a reply were handled
even during the shutdown of the server, refused requests never released their
handler slot and a failing writer acquisition crashed the server.
---
 connection.go      | 10 ++++++++--
 failMsg.go         | 10 +++++++++-
 registerHandler.go | 42 ++++++++++++++++++++++++------------------
 3 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/connection.go b/connection.go
index b754358..79f590a 100644
--- a/connection.go
+++ b/connection.go
@@ -93,11 +93,17 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if the closure of the connection was requested
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
+	if !con.isActive {
+		con.stateLock.Unlock()
+		return false
+	}
 	con.tasks++
 	con.stateLock.Unlock()
+	return true
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/failMsg.go b/failMsg.go
index faa3c1e..b12e00b 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -106,8 +106,15 @@ func (srv *server) failMsg(
 	}
 }
 
-// failMsgShutdown sends request failure reply due to current server shutdown
+// failMsgShutdown sends request failure reply due to the current shutdown of
+// either the server or the connection
 func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
+	// Don't send any failure reply if the type of the message
+	// doesn't expect any response
+	if !msg.RequiresReply() {
+		return
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
@@ -115,6 +122,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
diff --git a/registerHandler.go b/registerHandler.go
index 5033014..fb2dd4c 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -10,40 +10,46 @@ import (
 // registerHandler increments the number of currently executed handlers for this
 // particular client and returns true if a handler was registered, otherwise
 // returns false. It blocks if the current number of max concurrent handlers was
-// reached until a handler slot is available
+// reached until a handler slot is available.
+// Messages are refused as soon as either the connection is closing or
+// the server is shutting down
 func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	failMsg := false
-
-	if !con.IsActive() {
+	if !con.registerTask() {
+		// Don't process the message, fail it
+		srv.failMsgShutdown(con, msg)
 		return false
 	}
 
 	vpoint.At("register.active")
-	// Acquire handler slot if the number of concurrent handlers is limited
-	if con.options.ConcurrencyLimit > 1 {
-		con.handlerSlots.Acquire(context.Background(), 1)
-	}
-
-	vpoint.At("register.slot")
 	srv.opsLock.Lock()
 	if srv.shutdown {
-		// defer failure due to shutdown of either the server or the connection
-		failMsg = true
-	} else {
-		srv.currentOps++
-	}
-	srv.opsLock.Unlock()
+		srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
 		// Don't process the message, fail it
 		srv.failMsgShutdown(con, msg)
+		con.deregisterTask()
 		return false
 	}
+	srv.currentOps++
+	srv.opsLock.Unlock()
 
 	vpoint.At("register.counted")
-	con.registerTask()
+	// Acquire handler slot if the number of concurrent handlers is limited
+	if con.options.ConcurrencyLimit > 1 {
+		con.handlerSlots.Acquire(context.Background(), 1)
+
+		vpoint.At("register.slot")
+		if srv.isShuttingDown() || !con.IsActive() {
+			// Don't process the message, fail it due to a shutdown of either
+			// the server or the connection while waiting for the slot
+			srv.failMsgShutdown(con, msg)
+			srv.deregisterHandler(con)
+			return false
+		}
+	}
+
 	return true
 }
-- 
2.43.0


From 610098b802afb3aa07ca6abffa4bed5c50ce6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 12/18] fix: close, dial and redial in-memory connections
 cleanly

Closing a connection raced with its reader and writer: writers panicked sending
on a closed channel or blocked forever, confirmations of an earlier connection
were taken for those of a later one. Refused dials left the socket connected,
dials racing with the shutdown remained open, a second shutdown error path
unlocked an unlocked mutex and the server side of a closed connection came back
to life when the client dialed again.
---
 transport/memchan/entangleSockets.go |   6 +-
 transport/memchan/link.go            | 106 +++++++++++++
 transport/memchan/newSocket.go       |  21 +--
 transport/memchan/serverSocket.go    |  40 +++++
 transport/memchan/socket.go          | 227 +++++++++------------------
 transport/memchan/transport.go       |  49 +++---
 6 files changed, 258 insertions(+), 191 deletions(-)
 create mode 100644 transport/memchan/link.go
 create mode 100644 transport/memchan/serverSocket.go

diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..c9a15c1 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -18,7 +18,7 @@ func entangleSockets(server, client *Socket) {
 	client.remote = server
 
 	// Initialize shared status
-	status := statusDisconnected
-	server.status = &status
-	client.status = &status
+	status := &status{}
+	server.status = status
+	client.status = status
 }
diff --git a/transport/memchan/link.go b/transport/memchan/link.go
new file mode 100644
index 0000000..22bb05f
--- /dev/null
+++ b/transport/memchan/link.go
@@ -0,0 +1,106 @@
+package memchan
+
+import "sync"
+
+// pipe transfers messages in one direction
+type pipe struct {
+	// data transfers the data of a message to the reader
+	data chan []byte
+
+	// read confirms that the reader has finished reading the message
+	read chan struct{}
+}
+
+func newPipe() pipe {
+	return pipe{
+		data: make(chan []byte),
+		read: make(chan struct{}, 1),
+	}
+}
+
+// link represents one connection between two entangled sockets. It's
+// established by dialing and can't be reused as soon as it was closed
+type link struct {
+	toServer pipe
+	toClient pipe
+
+	// closed is closed when the link is closed
+	closed    chan struct{}
+	closeLock sync.Mutex
+}
+
+func newLink() *link {
+	return &link{
+		toServer: newPipe(),
+		toClient: newPipe(),
+		closed:   make(chan struct{}),
+	}
+}
+
+// isOpen returns true if the link is established and not yet closed
+func (lnk *link) isOpen() bool {
+	if lnk == nil {
+		return false
+	}
+	select {
+	case <-lnk.closed:
+		return false
+	default:
+		return true
+	}
+}
+
+// close closes the link and returns true, or returns false if it isn't open
+func (lnk *link) close() bool {
+	if lnk == nil {
+		return false
+	}
+	lnk.closeLock.Lock()
+	defer lnk.closeLock.Unlock()
+	if !lnk.isOpen() {
+		return false
+	}
+	close(lnk.closed)
+	return true
+}
+
+// inbound returns the pipe the given socket reads from
+func (lnk *link) inbound(sock *Socket) pipe {
+	if sock.sockType == SocketServer {
+		return lnk.toServer
+	}
+	return lnk.toClient
+}
+
+// outbound returns the pipe the given socket writes to
+func (lnk *link) outbound(sock *Socket) pipe {
+	if sock.sockType == SocketServer {
+		return lnk.toClient
+	}
+	return lnk.toServer
+}
+
+// status represents the connection status shared by two entangled sockets
+type status struct {
+	lock sync.Mutex
+	link *link
+}
+
+// current returns the current link, which is nil if there was none yet
+func (stat *status) current() *link {
+	stat.lock.Lock()
+	defer stat.lock.Unlock()
+	return stat.link
+}
+
+// connect assigns a new link if there's currently no open one,
+// otherwise returns false
+func (stat *status) connect(newLink *link) bool {
+	stat.lock.Lock()
+	defer stat.lock.Unlock()
+	if stat.link.isOpen() {
+		return false
+	}
+	stat.link = newLink
+	return true
+}
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..bb82189 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -2,25 +2,16 @@ package memchan
 
 import (
 	"sync"
-	"time"
 )
 
 // newSocket creates a new socket instance that must be entangled with another
 // socket before it can be used
 func newSocket(server *Transport, bufferSize uint32) *Socket {
-	// Setup a new inactive timer
-	readTimer := time.NewTimer(0)
-	<-readTimer.C
-
 	socket := &Socket{
 		sockType:   SocketUninitialized,
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
-		readTimer:  readTimer,
 		remote:     nil,
 		status:     nil,
 	}
@@ -37,22 +28,12 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 
 // newDisconnectedSocket creates a new disconnected socket instance
 func newDisconnectedSocket() *Socket {
-	// Setup a new inactive timer
-	readTimer := time.NewTimer(0)
-	<-readTimer.C
-
-	status := statusDisconnected
-
 	socket := &Socket{
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
-		readTimer:  readTimer,
 		remote:     nil,
-		status:     &status,
+		status:     &status{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/serverSocket.go b/transport/memchan/serverSocket.go
new file mode 100644
index 0000000..dab1182
--- /dev/null
+++ b/transport/memchan/serverSocket.go
@@ -0,0 +1,40 @@
+package memchan
+
+import (
+	"io"
+	"time"
+
+	wwr "github.com/qbeon/webwire-go"
+	"github.com/qbeon/webwire-go/message"
+)
+
+// serverSocket represents the server side of a single link. Other than the
+// underlying socket it remains closed when the client dials again
+type serverSocket struct {
+	*Socket
+	link *link
+}
+
+// GetWriter implements the transport.Socket interface
+func (sock serverSocket) GetWriter() (io.WriteCloser, error) {
+	return sock.getWriter(sock.link)
+}
+
+// Read implements the transport.Socket interface
+func (sock serverSocket) Read(
+	msg *message.Message,
+	deadline time.Time,
+) wwr.ErrSockRead {
+	return sock.read(sock.link, msg, deadline)
+}
+
+// IsConnected implements the transport.Socket interface
+func (sock serverSocket) IsConnected() bool {
+	return sock.link.isOpen()
+}
+
+// Close implements the transport.Socket interface
+func (sock serverSocket) Close() error {
+	sock.close(sock.link)
+	return nil
+}
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 636765b..e19fe74 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
@@ -14,9 +13,6 @@ import (
 	"github.com/qbeon/webwire-go/vpoint"
 )
 
-const statusConnected uint32 = 1
-const statusDisconnected uint32 = 2
-
 // SocketType represents the type of a socket
 type SocketType uint
 
@@ -41,12 +37,8 @@ type Socket struct {
 	// remote references the remote socket
 	remote *Socket
 
-	// status represents the connection status
-	status *uint32
-
-	// readTimer enables reader timeout. It's started when the reader is applied
-	// a deadline and cleared when it finished reading
-	readTimer *time.Timer
+	// status represents the connection status shared by both sockets
+	status *status
 
 	// readLock serializes access to the Read method
 	readLock *sync.Mutex
@@ -58,11 +50,9 @@ type Socket struct {
 	// onFlush callback must be connected to the sockets
 	outboundBuffer Buffer
 
-	// reader is the data receiving channel to the reader goroutine. It must be
-	// triggered as soon as any data is received
-	reader     chan []byte
-	readerErr  chan error
-	readerLock *sync.Mutex
+	// outboundLink is the link the current writer was acquired for. It's
+	// protected by the writerLock
+	outboundLink *link
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
@@ -76,21 +66,28 @@ func (sock *Socket) onBufferFlush(data []byte) (err error) {
 		return errors.New("no data written")
 	}
 
-	if !sock.IsConnected() {
+	link := sock.outboundLink
+	if !link.isOpen() {
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
 	}
 
 	vpoint.At("flush.connected")
 	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	pipe := link.outbound(sock)
+	select {
+	case pipe.data <- data:
+	case <-link.closed:
+		sock.writerLock.Unlock()
+		return errors.New("socket closed")
+	}
 
 	vpoint.At("flush.handed")
 	// Wait for the remote reader to finish reading
-	err = <-sock.remote.readerErr
+	<-pipe.read
 
 	sock.writerLock.Unlock()
-	return
+	return nil
 }
 
 // Dial implements the transport.Socket interface
@@ -111,105 +108,60 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
-		return errors.New("socket already connected")
-	}
-
-	sock.resetReader()
-	sock.remote.resetReader()
-
-	vpoint.At("dial.connected")
 	// Execute server callback
 	return sock.server.onConnect(sock, connOpts)
 }
 
 // GetWriter implements the transport.Socket interface
 func (sock *Socket) GetWriter() (io.WriteCloser, error) {
+	return sock.getWriter(sock.status.current())
+}
+
+// getWriter returns a writer for the given link
+func (sock *Socket) getWriter(link *link) (io.WriteCloser, error) {
+	errClosed := wwr.ErrDisconnected{
+		Cause: fmt.Errorf("can't write to a closed socket"),
+	}
+
+	// Don't wait for writers of other links if it's closed already
+	if !link.isOpen() {
+		return nil, errClosed
+	}
+
 	sock.writerLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	if !link.isOpen() {
 		sock.writerLock.Unlock()
-		return nil, wwr.ErrDisconnected{
-			Cause: fmt.Errorf("can't write to a closed socket"),
-		}
+		return nil, errClosed
 	}
 
 	// Don't immediately unlock the writer lock, let the writeCloser unlock it
 	// as soon as the reader finished reading
+	sock.outboundLink = link
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
-	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
-	sock.readerLock.Unlock()
-}
-
-// resetReader resets the socket reader
-func (sock *Socket) resetReader() {
-	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
-	sock.readerLock.Unlock()
-}
-
-func (sock *Socket) readWithoutDeadline() (
+// receive awaits either a message, socket closure or the deadline (if any)
+func (sock *Socket) receive(link *link, deadline time.Time) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
-	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
-
-	if data == nil {
-		// Socket closed
-		return nil, ErrSockRead{closed: true}
+	var exceeded <-chan time.Time
+	if !deadline.IsZero() {
+		timer := time.NewTimer(time.Until(deadline))
+		defer timer.Stop()
+		exceeded = timer.C
 	}
 
-	return data, nil
-}
-
-func (sock *Socket) readWithDeadline(deadline time.Time) (
-	data []byte,
-	err wwr.ErrSockRead,
-) {
-	sock.readTimer.Reset(time.Until(deadline))
-
-	// Await either a message, socket closure or deadline trigger
 	select {
-	case <-sock.readTimer.C:
-		// Deadline exceeded
-		err = ErrSockRead{err: errors.New("read deadline exceeded")}
-
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
+	case data = <-link.inbound(sock).data:
+		return data, nil
+	case <-link.closed:
+		return nil, ErrSockRead{closed: true}
+	case <-exceeded:
+		return nil, ErrSockRead{err: errors.New("read deadline exceeded")}
 	}
-
-	sock.readTimer.Stop()
-
-	return
 }
 
 // Read implements the transport.Socket interface
@@ -217,54 +169,54 @@ func (sock *Socket) Read(
 	msg *message.Message,
 	deadline time.Time,
 ) (err wwr.ErrSockRead) {
+	return sock.read(sock.status.current(), msg, deadline)
+}
+
+// read reads a message from the given link
+func (sock *Socket) read(
+	link *link,
+	msg *message.Message,
+	deadline time.Time,
+) (err wwr.ErrSockRead) {
+	// Don't wait for readers of other links if it's closed already
+	if !link.isOpen() {
+		return ErrSockRead{closed: true}
+	}
+
 	// Set reader lock to ensure there's only one concurrent reader
 	sock.readLock.Lock()
+	defer sock.readLock.Unlock()
 
 	// Check connection status
-	if !sock.IsConnected() {
-		sock.readLock.Unlock()
+	if !link.isOpen() {
 		return ErrSockRead{closed: true}
 	}
 
 	vpoint.At("read.connected")
-	var data []byte
-	if deadline.IsZero() {
-		// No deadline
-		data, err = sock.readWithoutDeadline()
-	} else {
-		// Set deadline
-		data, err = sock.readWithDeadline(deadline)
-	}
-
+	data, err := sock.receive(link, deadline)
 	if err != nil {
-		sock.Close()
-		sock.readLock.Unlock()
+		sock.close(link)
 		return err
 	}
 
 	vpoint.At("read.received")
 	// Try to read the socket into the message buffer and release the remote
-	// writer by sending nil to the sock.reader channel
+	// writer
 	typeParsed, parseErr := msg.ReadBytes(data)
+	link.inbound(sock).read <- struct{}{}
+
 	if parseErr != nil {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: parseErr}
 	}
 	if !typeParsed {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: errors.New("no message type")}
 	}
-
-	sock.readerErr <- nil
-	sock.readLock.Unlock()
 	return nil
 }
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return atomic.LoadUint32(sock.status) == statusConnected
+	return sock.status.current().isOpen()
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -278,41 +230,18 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
-		return nil
-	}
-
-	vpoint.At("close.marked")
-	// Close remote reader and writer
-	sock.remote.closeReader()
-
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
+	sock.close(sock.status.current())
+	return nil
+}
 
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
+// close closes the given link
+func (sock *Socket) close(link *link) {
+	// Fail any currently active and future reader and writer on both sides
+	if !link.close() {
+		return
 	}
 
-	vpoint.At("close.failed")
-	// Close the local reader
-	sock.closeReader()
-
+	vpoint.At("close.marked")
 	// Execute server callback
-	if sock.sockType == SocketClient {
-		sock.server.onDisconnect(sock.remote)
-	} else {
-		sock.server.onDisconnect(sock)
-	}
-
-	return nil
+	sock.server.onDisconnect(link)
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index d3c32f8..819fc21 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -26,7 +26,7 @@ type Transport struct {
 
 	bufferSize      uint32
 	readTimeout     time.Duration
-	connections     map[*Socket]*Socket
+	connections     map[*link]serverSocket
 	connectionsLock *sync.Mutex
 	status          uint32
 	shutdown        chan struct{}
@@ -42,7 +42,7 @@ func (srv *Transport) Initialize(
 	srv.bufferSize = options.MessageBufferSize
 	srv.isShuttingdown = isShuttingdown
 	srv.onNewConnection = onNewConnection
-	srv.connections = make(map[*Socket]*Socket)
+	srv.connections = make(map[*link]serverSocket)
 	srv.connectionsLock = &sync.Mutex{}
 	srv.shutdown = make(chan struct{})
 	srv.status = serverActive
@@ -70,9 +70,9 @@ func (srv *Transport) Shutdown() error {
 	if atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
 		close(srv.shutdown)
 		srv.connectionsLock.Lock()
-		conns := make([]*Socket, len(srv.connections))
+		conns := make([]serverSocket, len(srv.connections))
 		index := 0
-		for sock := range srv.connections {
+		for _, sock := range srv.connections {
 			conns[index] = sock
 			index++
 		}
@@ -82,8 +82,11 @@ func (srv *Transport) Shutdown() error {
 		// Close all connections
 		for _, sock := range conns {
 			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
-				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
+				return fmt.Errorf(
+					"couldn't close socket %p: %s",
+					sock.Socket,
+					err,
+				)
 			}
 		}
 	}
@@ -102,6 +105,14 @@ func (srv *Transport) onConnect(
 	clientSocket *Socket,
 	connectionOptions wwr.ConnectionOptions,
 ) error {
+	if clientSocket.remote == nil || clientSocket.status == nil {
+		return errors.New("uninitialized socket")
+	}
+
+	// Ensure no connection is established after the shutdown
+	srv.connectionsLock.Lock()
+	defer srv.connectionsLock.Unlock()
+
 	// Reject incoming connections during server shutdown
 	if srv.isShuttingdown() {
 		return errors.New("server is shutting down")
@@ -111,26 +122,26 @@ func (srv *Transport) onConnect(
 		return errors.New("server is closed")
 	}
 
-	if clientSocket.remote == nil || clientSocket.status == nil {
-		return errors.New("uninitialized socket")
+	vpoint.At("onConnect.checked")
+	link := newLink()
+	if !clientSocket.status.connect(link) {
+		return errors.New("socket already connected")
 	}
 
-	vpoint.At("onConnect.checked")
-	srv.connectionsLock.Lock()
-	srv.connections[clientSocket.remote] = clientSocket
-	srv.connectionsLock.Unlock()
+	socket := serverSocket{
+		Socket: clientSocket.remote,
+		link:   link,
+	}
+	srv.connections[link] = socket
 
-	go srv.onNewConnection(
-		connectionOptions,
-		clientSocket.remote,
-	)
+	go srv.onNewConnection(connectionOptions, socket)
 
 	return nil
 }
 
-// onDisconnect is called in Socket.Close by a server-type socket on closure
-func (srv *Transport) onDisconnect(serverSocket *Socket) {
+// onDisconnect is called when a link is closed
+func (srv *Transport) onDisconnect(link *link) {
 	srv.connectionsLock.Lock()
-	delete(srv.connections, serverSocket)
+	delete(srv.connections, link)
 	srv.connectionsLock.Unlock()
 }
-- 
2.43.0


From 74be12e8e7c0f59fdab69ba46794806e67c9fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:30 +0000
Subject: [PATCH 13/18] fix: survive panics of the session closure hook

The registry logged the recovered panic through a server reference that was
never set, so the panic handler itself crashed the server.
---
 newServer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newServer.go b/newServer.go
index 53018ae..c0c8d68 100644
--- a/newServer.go
+++ b/newServer.go
@@ -81,6 +81,7 @@ func NewServer(
 			}
 		},
 	)
+	srv.sessionRegistry.server = srv
 
 	// Initialize the transport layer
 	if err := transport.Initialize(
-- 
2.43.0


From b54ae78f2447cdd95e56f7e3b0aeee19326a9049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:30 +0000
Subject: [PATCH 14/18] fix: make session operations atomic

Restoring a session beyond the connection limit crashed the server when
restorations were concurrent, restoring over another session left the
connection registered for both, a reply that couldn't be sent left the session
assigned, closing a session twice at once or while it's being restored removed
other connections of the session and called the closure hook more than once,
a creation racing with the closure of the connection left it registered
forever, sessions closed during their creation crashed the default session
manager, lookups racing with the closure revived closed sessions, and closing
a session by key could close a newer session of a connection.

Registering, assigning and notifying now happen under the session lock of the
connection, hooks run outside of it.
---
 connection.go            | 128 ++++++++++++++++-------
 defaultSessionManager.go |   6 +-
 fulfillMsg.go            |  34 +++---
 handleSessionClosure.go  |  16 +--
 handleSessionRestore.go  |  86 +++++++++++----
 server.go                |  21 ++--
 sessionRegistry.go       | 219 ++++++++++++++++++++++++++++++++-------
 7 files changed, 378 insertions(+), 132 deletions(-)

diff --git a/connection.go b/connection.go
index 79f590a..136ab46 100644
--- a/connection.go
+++ b/connection.go
@@ -106,6 +106,20 @@ func (con *connection) registerTask() bool {
 	return true
 }
 
+// registerOperation increments the number of currently executed tasks and
+// returns true, or returns false if the connection is closed. Other than new
+// tasks operations are allowed while the closure waits for running tasks
+func (con *connection) registerOperation() bool {
+	con.stateLock.Lock()
+	if !con.isActive && con.tasks < 1 {
+		con.stateLock.Unlock()
+		return false
+	}
+	con.tasks++
+	con.stateLock.Unlock()
+	return true
+}
+
 // deregisterTask decrements the number of currently executed tasks
 // and closes this client connection if its shutdown is requested
 // and the number of tasks reached zero
@@ -125,20 +139,12 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
-	con.sessionLock.Lock()
-	con.session = newSess
-	con.sessionLock.Unlock()
-}
-
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
 	// Deregister session from active sessions registry, but don't destroy it
-	con.srv.sessionRegistry.deregister(con, false)
-
 	con.sessionLock.Lock()
+	con.srv.sessionRegistry.deregister(con, false)
 	con.session = nil
 	con.sessionLock.Unlock()
 
@@ -198,20 +204,49 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		return ErrSessionsDisabled{}
 	}
 
+	errDisconnected := ErrDisconnected{
+		Cause: fmt.Errorf(
+			"Can't create session on disconnected connection",
+		),
+	}
+
+	// Don't close the connection during the creation
+	if !con.registerOperation() {
+		return errDisconnected
+	}
+	defer con.deregisterTask()
+
 	if !con.sock.IsConnected() {
-		return ErrDisconnected{
-			Cause: fmt.Errorf(
-				"Can't create session on disconnected connection",
-			),
-		}
+		return errDisconnected
+	}
+
+	key, err := con.assignNewSession(attachment)
+	if err != nil {
+		return err
+	}
+	defer con.srv.sessionRegistry.endCreation(key)
+
+	vpoint.At("createSession.registered")
+	// Call session creation hook
+	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
+		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
 	}
 
+	return nil
+}
+
+// assignNewSession creates a new session, assigns it to the connection and
+// notifies the client about it. Changes nothing if an error is returned
+func (con *connection) assignNewSession(attachment SessionInfo) (
+	key string,
+	err error,
+) {
 	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
 
 	// Abort if there's already another active session
 	if con.session != nil {
-		con.sessionLock.Unlock()
-		return fmt.Errorf(
+		return "", fmt.Errorf(
 			"Another session (%s) on this client is already active",
 			con.session.Key,
 		)
@@ -221,29 +256,26 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Register the session
+	con.session = &newSession
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = nil
+		return "", fmt.Errorf("Couldn't register the session: %s", err)
+	}
+
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
-		con.sessionLock.Unlock()
-		return fmt.Errorf(
+		con.srv.sessionRegistry.deregister(con, false)
+		con.session = nil
+		return "", fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
 
 	vpoint.At("createSession.notified")
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
-	con.sessionLock.Unlock()
-
-	vpoint.At("createSession.registered")
-	// Call session creation hook
-	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
-		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
-	}
-
-	return nil
+	con.srv.sessionRegistry.beginCreation(newSession.Key)
+	return newSession.Key, nil
 }
 
 func (con *connection) notifySessionCreated(newSession *Session) error {
@@ -292,17 +324,37 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
-	con.sessionLock.Lock()
-	if con.session == nil {
-		con.sessionLock.Unlock()
+	// Deregister session from active sessions registry destroying it if it's
+	// the last connection left
+	key, last := con.takeSession("")
+	if key == "" {
 		return nil
 	}
+	return con.concludeSession(key, last)
+}
 
-	// Deregister session from active sessions registry destroying it if it's
-	// the last connection left
-	con.srv.sessionRegistry.deregister(con, true)
+// takeSession deregisters and resets the current session of the connection
+// and returns its key and whether it must be destroyed. Returns an empty key
+// if there's no current session or if its key isn't the given one (if any)
+func (con *connection) takeSession(expectedKey string) (key string, last bool) {
+	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
+	if con.session == nil ||
+		(expectedKey != "" && con.session.Key != expectedKey) {
+		return "", false
+	}
+	key = con.session.Key
+	last = con.srv.sessionRegistry.remove(key, con, true) == 0
 	con.session = nil
-	con.sessionLock.Unlock()
+	return key, last
+}
+
+// concludeSession destroys a session that was taken from the connection if
+// it was the last one and notifies the client
+func (con *connection) concludeSession(key string, last bool) error {
+	if last {
+		con.srv.sessionRegistry.destroy(key)
+	}
 
 	vpoint.At("closeSession.deregistered")
 	return con.notifySessionClosed()
diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..d2e18da 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -2,6 +2,7 @@ package webwire
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"os"
@@ -99,12 +100,15 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 	sess := conn.Session()
+	if sess == nil {
+		return errors.New("the session was closed during its creation")
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(mng.filePath(sess.Key))
 }
 
 // OnSessionLookup implements the session manager interface.
diff --git a/fulfillMsg.go b/fulfillMsg.go
index 7035f88..43c4982 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -8,29 +8,33 @@ func (srv *server) fulfillMsg(
 	msg *message.Message,
 	replyPayload Payload,
 ) {
-	writer, err := con.sock.GetWriter()
-	if err != nil {
+	if err := srv.writeReply(con, msg, replyPayload); err != nil {
 		srv.errorLog.Printf(
-			"couldn't get writer for connection %p: %s",
+			"couldn't write reply message for connection %p: %s",
 			con,
 			err,
 		)
-		return
+
+		// Don't leave the request unanswered
+		srv.failMsg(con, msg, nil)
 	}
+}
 
-	if err := message.WriteMsgReply(
+// writeReply writes the reply to the given message
+func (srv *server) writeReply(
+	con *connection,
+	msg *message.Message,
+	replyPayload Payload,
+) error {
+	writer, err := con.sock.GetWriter()
+	if err != nil {
+		return err
+	}
+
+	return message.WriteMsgReply(
 		writer,
 		msg.MsgIdentifierBytes,
 		replyPayload.Encoding,
 		replyPayload.Data,
-	); err != nil {
-		srv.errorLog.Printf(
-			"couldn't write reply message for connection %p: %s",
-			con,
-			err,
-		)
-
-		// Don't leave the request unanswered
-		srv.failMsg(con, msg, nil)
-	}
+	)
 }
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 9afea01..65d6a2d 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -24,22 +24,14 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
-		// Send confirmation even though no session was closed
-		srv.fulfillMsg(con, msg, Payload{})
-		finalize()
-		return
-	}
-
 	vpoint.At("closureRequest.checked")
 	// Deregister session from active sessions registry destroying it if it's
-	// the last connection left
-	srv.sessionRegistry.deregister(con, true)
+	// the last connection left. Send confirmation even if no session was closed
+	if key, last := con.takeSession(""); last {
+		srv.sessionRegistry.destroy(key)
+	}
 
 	vpoint.At("closureRequest.deregistered")
-	// Reset the session on the connection
-	con.setSession(nil)
-
 	// Send confirmation
 	srv.fulfillMsg(con, msg, Payload{})
 	finalize()
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index 10ab6df..f02dfc2 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 	"github.com/qbeon/webwire-go/vpoint"
@@ -38,6 +37,15 @@ func (srv *server) handleSessionRestore(
 	}
 
 	vpoint.At("restore.checked")
+	// Fail message with special error if the session is being closed
+	closures, ok := srv.sessionRegistry.beginLookup(key)
+	if !ok {
+		srv.failMsg(con, msg, ErrSessionNotFound{})
+		finalize()
+		return
+	}
+	defer srv.sessionRegistry.endLookup(key)
+
 	// Call session manager lookup hook
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
@@ -86,26 +94,66 @@ func (srv *server) handleSessionRestore(
 	}
 
 	vpoint.At("restore.found")
-	con.setSession(&Session{
-		Key:        key,
-		Creation:   sessionCreation,
-		LastLookup: sessionLastLookup,
-		Info:       parsedSessInfo,
-	})
-	vpoint.At("restore.assigned")
-	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
-	}
-
-	srv.fulfillMsg(
+	if err := srv.restoreSession(
 		con,
 		msg,
-		Payload{
-			Encoding: EncodingUtf8,
-			Data:     encodedSession,
+		&Session{
+			Key:        key,
+			Creation:   sessionCreation,
+			LastLookup: sessionLastLookup,
+			Info:       parsedSessInfo,
 		},
-	)
+		closures,
+		encodedSession,
+	); err != nil {
+		srv.failMsg(con, msg, err)
+	}
 	finalize()
 }
+
+// restoreSession assigns the session to the connection and sends the reply.
+// If an error is returned then the previous session of the connection is kept
+func (srv *server) restoreSession(
+	con *connection,
+	msg *message.Message,
+	session *Session,
+	closures int,
+	encodedSession []byte,
+) error {
+	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
+
+	previous := con.session
+	replaced := previous == nil || previous.Key != session.Key
+
+	if err := srv.sessionRegistry.registerRestored(
+		session.Key,
+		con,
+		closures,
+	); err != nil {
+		return err
+	}
+
+	vpoint.At("restore.assigned")
+	if err := srv.writeReply(con, msg, Payload{
+		Encoding: EncodingUtf8,
+		Data:     encodedSession,
+	}); err != nil {
+		if replaced {
+			srv.sessionRegistry.remove(session.Key, con, false)
+		}
+		srv.errorLog.Printf(
+			"couldn't write reply message for connection %p: %s",
+			con,
+			err,
+		)
+		return err
+	}
+
+	// Deregister the previous session, but don't destroy it
+	if previous != nil && replaced {
+		srv.sessionRegistry.remove(previous.Key, con, false)
+	}
+	con.session = session
+	return nil
+}
diff --git a/server.go b/server.go
index ec15471..0eb4f73 100644
--- a/server.go
+++ b/server.go
@@ -96,23 +96,24 @@ func (srv *server) CloseSession(sessionKey string) (
 	connections := srv.sessionRegistry.sessionConnections(sessionKey)
 
 	vpoint.At("closeSession.listed")
-	errors = make([]error, len(connections))
 	if connections == nil {
 		return nil, nil, nil
 	}
-	affectedConnections = make([]Connection, len(connections))
-	i := 0
 	errNum := 0
-	for _, connection := range connections {
-		affectedConnections[i] = connection
-		err := connection.CloseSession()
+	for _, con := range connections {
+		// Don't close any other session the connection might have got meanwhile
+		connection := con.(*connection)
+		key, last := connection.takeSession(sessionKey)
+		if key == "" {
+			continue
+		}
+
+		err := connection.concludeSession(key, last)
 		if err != nil {
-			errors[i] = err
 			errNum++
-		} else {
-			errors[i] = nil
 		}
-		i++
+		affectedConnections = append(affectedConnections, con)
+		errors = append(errors, err)
 	}
 
 	if errNum > 0 {
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 9ab629b..2b1cac8 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -14,9 +14,30 @@ type sessionRegistry struct {
 	lock             *sync.RWMutex
 	maxConns         uint
 	registry         map[string]map[*connection]struct{}
+	hooks            map[string]*sessionHooks
 	onSessionDestroy func(sessionKey string)
 }
 
+// sessionHooks represents the session manager hooks that are currently executed
+// for a particular session
+type sessionHooks struct {
+	// creating is the number of executed creation hooks
+	creating int
+
+	// lookups is the number of executed lookup hooks
+	lookups int
+
+	// closing is the number of sessions that are being destroyed
+	closing int
+
+	// deferred is the number of closure hooks
+	// that are deferred until the creation hooks are finished
+	deferred int
+
+	// closures is the number of times the session was closed
+	closures int
+}
+
 // newSessionRegistry returns a new instance of a session registry.
 // maxConns defines the maximum number of concurrent connections
 // for a single session while zero stands for unlimited
@@ -28,6 +49,7 @@ func newSessionRegistry(
 		lock:             &sync.RWMutex{},
 		maxConns:         maxConns,
 		registry:         make(map[string]map[*connection]struct{}),
+		hooks:            make(map[string]*sessionHooks),
 		onSessionDestroy: onSessionDestroy,
 	}
 }
@@ -37,27 +59,29 @@ func newSessionRegistry(
 // the maximum number of concurrent connections
 func (asr *sessionRegistry) register(con *connection) error {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[con.session.Key]; exists {
+	defer asr.lock.Unlock()
+	return asr.add(con.session.Key, con)
+}
+
+// add adds a connection to the list of connections of a session.
+// The registry must be locked
+func (asr *sessionRegistry) add(key string, con *connection) error {
+	if connSet, exists := asr.registry[key]; exists {
 		// Ensure max connections isn't exceeded
 		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
-			asr.lock.Unlock()
 			return fmt.Errorf(
 				"Max conns (%d) reached for session %s",
 				asr.maxConns,
-				con.session.Key,
+				key,
 			)
 		}
 		// Overwrite the current entry incrementing the number of connections
 		connSet[con] = struct{}{}
-		asr.registry[con.session.Key] = connSet
-		asr.lock.Unlock()
 		return nil
 	}
-	newList := map[*connection]struct{}{
+	asr.registry[key] = map[*connection]struct{}{
 		con: {},
 	}
-	asr.registry[con.session.Key] = newList
-	asr.lock.Unlock()
 	return nil
 }
 
@@ -76,42 +100,163 @@ func (asr *sessionRegistry) deregister(
 		return -1
 	}
 
+	key := conn.session.Key
+	left := asr.remove(key, conn, destroy)
+	if left == 0 && destroy {
+		asr.destroy(key)
+	}
+	return left
+}
+
+// remove removes a connection from the list of connections of a session and
+// returns the number of connections left, or -1 if the connection isn't listed.
+// If 0 is returned and destroy is set to true then the session
+// must be destroyed by the caller
+func (asr *sessionRegistry) remove(
+	key string,
+	con *connection,
+	destroy bool,
+) int {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
-		// If a single connection is left then remove or destroy the session
-		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
-			asr.lock.Unlock()
-
-			vpoint.At("registry.last")
-			// Destroy the session
-			if destroy {
-				// Recover potential user-space hook panics
-				// to avoid panicking the server
-				defer func() {
-					if recvErr := recover(); recvErr != nil {
-						asr.server.errorLog.Printf(
-							"session closure hook panic: %v",
-							recvErr,
-						)
-					}
-				}()
-
-				asr.onSessionDestroy(conn.session.Key)
-			}
-
-			return 0
+	defer asr.lock.Unlock()
+
+	connSet := asr.registry[key]
+	if _, listed := connSet[con]; !listed {
+		return -1
+	}
+	delete(connSet, con)
+	if len(connSet) > 0 {
+		return len(connSet)
+	}
+
+	// Remove the session
+	delete(asr.registry, key)
+	if destroy {
+		hooks := asr.hooksOf(key)
+		hooks.closing++
+		hooks.closures++
+	}
+	return 0
+}
+
+// destroy destroys a session executing the session closure hook.
+// The hook is deferred if the session creation hook isn't finished yet
+func (asr *sessionRegistry) destroy(key string) {
+	asr.lock.Lock()
+	hooks := asr.hooksOf(key)
+	if hooks.creating > 0 {
+		hooks.deferred++
+		asr.lock.Unlock()
+		return
+	}
+	asr.lock.Unlock()
+
+	vpoint.At("registry.last")
+	defer func() {
+		// Recover potential user-space hook panics
+		// to avoid panicking the server
+		if recvErr := recover(); recvErr != nil {
+			asr.server.errorLog.Printf(
+				"session closure hook panic: %v",
+				recvErr,
+			)
 		}
 
-		// Find and remove the client from the connections list
-		delete(connSet, conn)
-		connSetLen := len(connSet)
+		asr.lock.Lock()
+		hooks.closing--
+		asr.tidyHooks(key)
 		asr.lock.Unlock()
-		return connSetLen
+	}()
+
+	asr.onSessionDestroy(key)
+}
+
+// beginCreation announces the execution of the session creation hook
+func (asr *sessionRegistry) beginCreation(key string) {
+	asr.lock.Lock()
+	asr.hooksOf(key).creating++
+	asr.lock.Unlock()
+}
+
+// endCreation must be called when the session creation hook is finished.
+// It destroys the session if it was closed meanwhile
+func (asr *sessionRegistry) endCreation(key string) {
+	asr.lock.Lock()
+	hooks := asr.hooksOf(key)
+	hooks.creating--
+	deferred := 0
+	if hooks.creating < 1 {
+		deferred = hooks.deferred
+		hooks.deferred = 0
+	}
+	asr.tidyHooks(key)
+	asr.lock.Unlock()
+
+	for ; deferred > 0; deferred-- {
+		asr.destroy(key)
+	}
+}
+
+// beginLookup announces the execution of the session lookup hook and returns
+// the number of times the session was closed so far. Returns false if
+// the session is being destroyed and must not be looked up
+func (asr *sessionRegistry) beginLookup(key string) (int, bool) {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	hooks := asr.hooksOf(key)
+	if hooks.closing > 0 {
+		return 0, false
 	}
+	hooks.lookups++
+	return hooks.closures, true
+}
 
+// endLookup must be called when the session that was looked up is either
+// assigned or discarded
+func (asr *sessionRegistry) endLookup(key string) {
+	asr.lock.Lock()
+	asr.hooksOf(key).lookups--
+	asr.tidyHooks(key)
 	asr.lock.Unlock()
-	return -1
+}
+
+// registerRestored registers a connection for a session that was looked up.
+// Returns ErrSessionNotFound if the session was closed since the lookup began
+// and ErrMaxSessConnsReached if the maximum number of connections is reached
+func (asr *sessionRegistry) registerRestored(
+	key string,
+	con *connection,
+	closures int,
+) error {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	if asr.hooksOf(key).closures != closures {
+		return ErrSessionNotFound{}
+	}
+	if err := asr.add(key, con); err != nil {
+		return ErrMaxSessConnsReached{}
+	}
+	return nil
+}
+
+// hooksOf returns the executed hooks of a session.
+// The registry must be locked
+func (asr *sessionRegistry) hooksOf(key string) *sessionHooks {
+	hooks := asr.hooks[key]
+	if hooks == nil {
+		hooks = &sessionHooks{}
+		asr.hooks[key] = hooks
+	}
+	return hooks
+}
+
+// tidyHooks forgets about the hooks of a session if there are none executed.
+// The registry must be locked
+func (asr *sessionRegistry) tidyHooks(key string) {
+	hooks := asr.hooks[key]
+	if hooks.creating < 1 && hooks.lookups < 1 && hooks.closing < 1 {
+		delete(asr.hooks, key)
+	}
 }
 
 // activeSessionsNum returns the number of currently active sessions
-- 
2.43.0


From 48bc84f553bebba2337f9268ca2820f8ac7a3631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 15/18] fix: make the default session storage durable, atomic
 and confined

Session files are replaced atomically, lookups and closures are mutually
exclusive, the created directory is accessible by its owner and session keys
that aren't plain file names are refused.
---
 defaultSessionManager.go | 58 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index d2e18da..3ceed6d 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -7,6 +7,8 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
+	"sync"
 	"time"
 )
 
@@ -29,22 +31,47 @@ func (sessf *sessionFile) Parse(filePath string) error {
 	return json.Unmarshal(contents, sessf)
 }
 
-// Save writes the session file to a file on the filesystem
+// Save writes the session file to a file on the filesystem.
+// An already existing file is replaced atomically
 func (sessf *sessionFile) Save(filePath string) error {
 	encoded, err := json.Marshal(sessf)
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	if err := replaceFile(filePath, encoded, 0640); err != nil {
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
 }
 
+// replaceFile writes a temporary file and renames it,
+// so that the file is either replaced entirely or not at all
+func replaceFile(filePath string, data []byte, perm os.FileMode) error {
+	temp, err := ioutil.TempFile(filepath.Dir(filePath), "tmp")
+	if err != nil {
+		return err
+	}
+	_, err = temp.Write(data)
+	if closeErr := temp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(temp.Name(), perm)
+	}
+	if err == nil {
+		err = os.Rename(temp.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(temp.Name())
+	}
+	return err
+}
+
 // DefaultSessionManager represents a default session manager implementation.
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+	lock sync.Mutex
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -70,7 +97,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
@@ -96,13 +123,25 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 	return filepath.Join(mng.path, sessionKey+".wwrsess")
 }
 
+// validKey returns true if the given session key is a plain file name,
+// keys that are sent by clients must not reach outside the session directory
+func validKey(sessionKey string) bool {
+	return len(sessionKey) > 0 && !strings.ContainsAny(sessionKey, "/\\\x00")
+}
+
 // OnSessionCreated implements the session manager interface.
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	sess := conn.Session()
 	if sess == nil {
 		return errors.New("the session was closed during its creation")
 	}
+	if !validKey(sess.Key) {
+		return errors.New("the session key is not a valid file name")
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
@@ -118,8 +157,14 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
+	if !validKey(key) {
+		return nil, nil
+	}
 	path := mng.filePath(key)
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	// Lookup session file
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
@@ -163,6 +208,13 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
+	if !validKey(sessionKey) {
+		return errors.New("the session key is not a valid file name")
+	}
+
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From d6f46fe18a148213ca7926b443d0dbd69a8bfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 16/18] fix: resolve requests of the request manager atomically

---
 requestManager/requestManager.go | 48 +++++++++++++++-----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index c93237e..9fec165 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -60,25 +60,32 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 	manager.lock.Unlock()
 }
 
-// Fulfill fulfills the request associated with the given request identifier
-// with the provided reply payload.
-// Returns true if a pending request was fulfilled and deregistered,
-// otherwise returns false
-func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
+// resolve deregisters a pending request and passes it its only outcome.
+// Returns false if the request isn't pending
+func (manager *RequestManager) resolve(
+	identifier [8]byte,
+	outcome genericReply,
+) bool {
+	manager.lock.Lock()
+	defer manager.lock.Unlock()
 
+	req, exists := manager.pending[identifier]
 	if !exists {
 		return false
 	}
+	delete(manager.pending, identifier)
+	req.Reply <- outcome
+	return true
+}
 
-	vpoint.At("fulfill.found")
-	manager.deregister(msg.MsgIdentifier)
-	req.Reply <- genericReply{
+// Fulfill fulfills the request associated with the given request identifier
+// with the provided reply payload.
+// Returns true if a pending request was fulfilled and deregistered,
+// otherwise returns false
+func (manager *RequestManager) Fulfill(msg *message.Message) bool {
+	return manager.resolve(msg.MsgIdentifier, genericReply{
 		ReplyMsg: msg,
-	}
-	return true
+	})
 }
 
 // Fail fails the request associated with the given request identifier
@@ -88,20 +95,9 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
-
-	if !exists {
-		return false
-	}
-
-	vpoint.At("fail.found")
-	manager.deregister(identifier)
-	req.Reply <- genericReply{
+	return manager.resolve(identifier, genericReply{
 		Error: err,
-	}
-	return true
+	})
 }
 
 // PendingRequests returns the number of currently pending requests
-- 
2.43.0


From eb93d6799d95f9e1ac25245a975bc5ec5c8604d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 17/18] fix: don't keep references to connections that have
 ended

The list of connections of the server was only ever appended to.
---
 handleConnection.go | 5 -----
 newServer.go        | 2 --
 server.go           | 2 --
 3 files changed, 9 deletions(-)

diff --git a/handleConnection.go b/handleConnection.go
index aa99f41..3eb9640 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -48,17 +48,12 @@ func (srv *server) handleConnection(
 	}
 
 	vpoint.At("connection.confWritten")
-	// Register connected client
 	connection := newConnection(
 		sock,
 		srv,
 		connectionOptions,
 	)
 
-	srv.connectionsLock.Lock()
-	srv.connections = append(srv.connections, connection)
-	srv.connectionsLock.Unlock()
-
 	// Call hook on successful connection
 	srv.impl.OnClientConnected(connectionOptions, connection)
 
diff --git a/newServer.go b/newServer.go
index c0c8d68..098e056 100644
--- a/newServer.go
+++ b/newServer.go
@@ -63,8 +63,6 @@ func NewServer(
 		shutdownRdy:       make(chan bool),
 		currentOps:        0,
 		opsLock:           &sync.Mutex{},
-		connections:       make([]*connection, 0),
-		connectionsLock:   &sync.Mutex{},
 		sessionsEnabled:   sessionsEnabled,
 		messagePool:       message.NewSyncPool(opts.MessageBufferSize, 1024),
 		warnLog:           opts.WarnLog,
diff --git a/server.go b/server.go
index 0eb4f73..a5dc425 100644
--- a/server.go
+++ b/server.go
@@ -25,8 +25,6 @@ type server struct {
 	shutdownRdy       chan bool
 	currentOps        uint32
 	opsLock           *sync.Mutex
-	connectionsLock   *sync.Mutex
-	connections       []*connection
 	sessionsEnabled   bool
 	sessionRegistry   *sessionRegistry
 	messagePool       message.Pool
-- 
2.43.0


From 9d2b0ac7729e1ce0bef15664a203c966cf07ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 18/18] fix: log the error of a failed session closure hook

---
 newServer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newServer.go b/newServer.go
index 098e056..f46b5bc 100644
--- a/newServer.go
+++ b/newServer.go
@@ -75,7 +75,7 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("session closure hook failed: %s", err)
 			}
 		},
 	)
-- 
2.43.0

