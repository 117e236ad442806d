From b3f585ec7ac3672169dfae75571840169f1a08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 01/37] fix: return an error for messages shorter than their
 declared contents

NewMessage indexed and sliced past the end of short frames, and computed the
end of the contents in a byte, so that malformed frames crashed the decoder.
---
 serialapi/message.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..2be5712 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -107,19 +107,29 @@ func NewMessage(data []byte) (*Message, error) {
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Message is too short, should be at least 4 bytes, is %x", data)
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
 
+	switch message.Function {
+	case ApplicationCommandHandler, DiscoveryNodes:
+		if len(data) < 7 || len(data) < 7+int(data[6]) {
+			return nil, fmt.Errorf("Message with function='%s' is too short for its contents, data is %x", message.Function, data)
+		}
+	}
+
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(data[7:7+int(data[6])])
 	case DiscoveryNodes:
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(data[7:7+int(data[6])])
 	case GetNodeProtocolInfo:
 
 		message.Data, err = NewGetNodeProtocolInfo(data[4:])
-- 
2.43.0


From a27d93bf654569c4b97c1745c88894c902365f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 02/37] fix: return an error for application commands shorter
 than two bytes

---
 serialapi/application_command_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
-- 
2.43.0


From ac3fce063841b239f94cf0a14f239081d985c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 03/37] fix: return an error for discovery bitmaps larger than
 the network

---
 serialapi/discovery_nodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..66db590 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -18,6 +18,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
 
+	if len(data)*8 > len(f.ActiveNodes) {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
+
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
-- 
2.43.0


From 75fe93bd461e8ad153f3b7c54d8dfeabc7512b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 04/37] fix: do not overwrite the received checksum or decode
 bytes after the frame

Appending a zero byte to a slice of the receive buffer replaced the checksum in
the caller's buffer, so that the frame was no longer valid there, and the bytes
that follow a frame in the buffer were decoded as if they belonged to it.
---
 serialapi/message.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 2be5712..cb56002 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -50,12 +50,13 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 		}
 
 		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
-		if checksum != GenerateChecksum(checksumData) {
-			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
+		frame := append([]byte{}, data[:length+2]...) // The receive buffer belongs to the caller
+		frame[length+1] = 0x00                        // The checksum is not a part of the contents
+		if checksum != GenerateChecksum(frame[1:]) {
+			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(frame[1:]), length)
 		}
 
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(frame)
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-- 
2.43.0


From e407251e911b21bdc0b0d2e6bbad66b2d2add6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 05/37] fix: decode an ACK, NAK or CAN from its own byte only

The bytes that follow it in the receive buffer were decoded as its length, type
and function, which crashed or lost the acknowledgement.
---
 serialapi/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index cb56002..72627d3 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -60,7 +60,7 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
-- 
2.43.0


From b187fbfc88b8df3e99234df09454ce526105aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 06/37] fix: the code of the command class Mark is 0xEF

The constant had a digit missing, so that it did not match the class named Mark.
---
 commands/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/constants.go b/commands/constants.go
index 65c71dd..92073a4 100644
--- a/commands/constants.go
+++ b/commands/constants.go
@@ -157,7 +157,7 @@ const (
 	ManufacturerProprietary         = 0x91
 	Security                        = 0x98
 	AssociationCommandConfiguration = 0x9b
-	Mark                            = 0xE
+	Mark                            = 0xEF
 )
 
 func (cmd ZWaveCommand) String() string {
-- 
2.43.0


From a6c124ea98d83f32fbb414f052a183a94cdc1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 07/37] fix: match a reply on its own bytes only and never
 index past them

---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..e8e1850 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l-1]) { // Only this frame, without its checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -314,7 +314,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function %x not in %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -324,15 +324,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node %x not in %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass %x not in %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport %x not in %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +358,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From 69cca5e98d580ce14f887cf73cc406e28bd7503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 08/37] fix: do not crash on a reply that cannot be decoded

---
 connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection.go b/connection.go
index e8e1850..c81aa73 100644
--- a/connection.go
+++ b/connection.go
@@ -101,6 +101,10 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 	go func() {
 		defer close(returnChan)
 		for msg := range pkg.returnChan {
+			if msg == nil { // The reply could not be decoded
+				continue
+			}
+
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
-- 
2.43.0


From 8af47540b3167894cd170bfdaaf1135419c254c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 09/37] fix: reject application commands longer than their
 frame

---
 serialapi/message.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 72627d3..ce1098b 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -116,7 +116,11 @@ func NewMessage(data []byte) (*Message, error) {
 	message.Function = ZWaveFunction(data[3])
 
 	switch message.Function {
-	case ApplicationCommandHandler, DiscoveryNodes:
+	case ApplicationCommandHandler: // The last byte is the checksum
+		if len(data) < 8 || len(data) < 8+int(data[6]) {
+			return nil, fmt.Errorf("Message with function='%s' is too short for its contents, data is %x", message.Function, data)
+		}
+	case DiscoveryNodes:
 		if len(data) < 7 || len(data) < 7+int(data[6]) {
 			return nil, fmt.Errorf("Message with function='%s' is too short for its contents, data is %x", message.Function, data)
 		}
-- 
2.43.0


From a481845ec2578055fb12b384313b783488b3c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 10/37] fix: hand out the reply channel also when the request
 has already ended

---
 connection.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index c81aa73..2c9ac61 100644
--- a/connection.go
+++ b/connection.go
@@ -82,17 +82,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan *serialapi.Message)
+	pkg.returnChan = returnChan // Set to nil when the request ends, which can be before the send returns
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return returnChan, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
 	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	messages := make(chan *serialapi.Message)
+	pkg.returnChan = messages // Set to nil when the request ends, which can be before the send returns
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -100,7 +102,7 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range messages {
 			if msg == nil { // The reply could not be decoded
 				continue
 			}
-- 
2.43.0


From 9a627c762dd20cac742dbdde4ea9059fc26358af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 11/37] fix: access the pending requests under the lock and
 resend exactly the command answered with CAN

---
 connection.go | 49 +++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/connection.go b/connection.go
index 2c9ac61..13513b4 100644
--- a/connection.go
+++ b/connection.go
@@ -20,7 +20,7 @@ type Connection struct {
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
 	send        chan *sendPackage
-	lastCommand string // Uuid of last sent command
+	lastCommand *sendPackage // Last sent command, until it is answered
 	lastResult  chan byte
 
 	reportCallback func(byte, reports.Report)
@@ -155,12 +155,10 @@ func (conn *Connection) Writer() {
 		select {
 		case pkg := <-conn.send:
 			conn.Lock()
-			conn.lastCommand = ""
-
-			conn.inFlight[pkg.uuid] = pkg
-			conn.lastCommand = pkg.uuid
+			conn.lastCommand = pkg
 
 			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
+				conn.inFlight[pkg.uuid] = pkg
 				go conn.timeoutWorker(pkg)
 			}
 
@@ -181,7 +179,9 @@ func (conn *Connection) Writer() {
 			conn.Unlock()
 
 			<-abort
-			conn.lastCommand = ""
+			conn.Lock()
+			conn.lastCommand = nil
+			conn.Unlock()
 		}
 	}
 }
@@ -217,30 +217,27 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
-				for index, c := range conn.inFlight {
-					conn.RLock()
-					if c.uuid == conn.lastCommand {
-						select {
-						case conn.lastResult <- incomming[0]:
-						case <-time.After(time.Millisecond * 50):
-						}
+				conn.Lock()
+				if c := conn.lastCommand; c != nil {
+					select {
+					case conn.lastResult <- incomming[0]:
+					case <-time.After(time.Millisecond * 50):
+					}
 
-						if msg.IsNAK() {
-							logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
-							delete(conn.inFlight, index)
-							c.Close()
-						}
+					if msg.IsNAK() {
+						logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
+						delete(conn.inFlight, c.uuid)
+						c.Close()
+					}
 
-						if msg.IsCAN() {
-							go func() {
-								<-time.After(time.Millisecond * 100)
-								conn.send <- c
-							}()
-						}
+					if msg.IsCAN() {
+						go func() {
+							<-time.After(time.Millisecond * 100)
+							conn.send <- c
+						}()
 					}
-					conn.RUnlock()
 				}
-
+				conn.Unlock()
 			}
 
 			// The message is not compleatly read yet, wait for some more data
-- 
2.43.0


From 3af63e315fb363382fceaf34c268e781e9888b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 12/37] fix: never lose the result of the first attempt to open
 the port

---
 gozwave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index 432b3cc..26d6bfe 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1) // The first result must not be lost if nobody waits for it yet
 
 	//spew.Dump(c)
 
-- 
2.43.0


From a13f0d5b1868111a6fe8b2c1158d857c446c2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 13/37] fix: keep one send worker over reconnects and report a
 failed port as disconnected

---
 connection.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 13513b4..3b12416 100644
--- a/connection.go
+++ b/connection.go
@@ -16,6 +16,7 @@ type Connection struct {
 	readWriteCloser io.ReadWriteCloser
 	portOpener      PortOpener
 	Connected       bool
+	startWriter     sync.Once
 
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
@@ -120,12 +121,16 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 }
 
 func (conn *Connection) Connect(connectChan chan error) (err error) {
+	disconnected := false
 	defer func() {
 		logrus.Error("Disonnected")
+		conn.Lock()
+		disconnected = true
 		conn.Connected = false
+		conn.Unlock()
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
 		select {
@@ -137,15 +142,26 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 
 	go func() {
 		<-time.After(time.Millisecond * 200)
+		conn.Lock()
+		defer conn.Unlock()
+		if disconnected { // The port has failed in the meantime
+			return
+		}
 		logrus.Debug("Connected")
+		conn.Connected = true
 		select {
 		case connectChan <- nil:
 		default:
 		}
-		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
+	conn.startWriter.Do(func() { // The writer is kept over reconnects
+		go conn.Writer()
+	})
 	return conn.Reader()
 }
 
-- 
2.43.0


From 955cf87209d25b6173acd62ed2478555218dcf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 14/37] fix: deliver reports in the order received

---
 connection.go |  2 +-
 nodes/node.go | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index 3b12416..12f24a5 100644
--- a/connection.go
+++ b/connection.go
@@ -293,7 +293,7 @@ func (conn *Connection) Reader() error {
 			if msg != nil {
 				if cmd, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 					// Deliver the update to the parent
-					go conn.reportCallback(msg.NodeID, cmd.Report)
+					conn.reportCallback(msg.NodeID, cmd.Report) // Not in a goroutine, reports must not overtake each other
 				}
 			}
 
diff --git a/nodes/node.go b/nodes/node.go
index 5771623..96ebff7 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -95,15 +95,8 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
-			n.Unlock()
 
-			<-time.After(time.Second)
-			n.Lock()
-			n.StateBool["alarm"] = false
-			n.StateFloat["alarm"] = 0
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			go n.clearAlarm()
 		}
 	case *reports.WakeUp:
 		logrus.Error("NODE RECEIVED WAKEUP")
@@ -144,6 +137,20 @@ func (n *Node) ProcessEvent(event reports.Report) {
 
 }
 
+// clearAlarm resets the alarm state after one second
+func (n *Node) clearAlarm() {
+	<-time.After(time.Second)
+
+	n.Lock()
+	defer n.Unlock()
+
+	n.StateBool["alarm"] = false
+	n.StateFloat["alarm"] = 0
+	n.pushEvent(events.NodeUpdated{
+		Address: n.Id,
+	})
+}
+
 func (n *Node) GetID() int {
 	n.RLock()
 	defer n.RUnlock()
-- 
2.43.0


From 1dc61d762944482543a7de394fcef27659615d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 15/37] fix: an endpoint number means the endpoint with that
 id, and all reported endpoints exist

---
 nodes/endpoints.go         | 11 ++++++++---
 nodes/request_endpoints.go |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..1f8ce10 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,11 +23,16 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
-		return nil
+	n.RLock()
+	defer n.RUnlock()
+
+	for _, e := range n.Endpoints {
+		if e != nil && e.Id == id {
+			return e
+		}
 	}
 
-	return n.Endpoints[id]
+	return nil
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From db96c63797cfd3f7169e8c5a7b229ac543f1496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 16/37] fix: use the lock of the node list itself and hand out
 a copy of its map

---
 nodes/list.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..1c5b1a3 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,27 +37,23 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+// All returns all nodes in a map that belongs to the caller
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	all := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		all[k] = v
 	}
 
-	return l.nodes
+	return all
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	if l.nodes[id] != nil {
-		l.nodes[id].RLock()
-		defer l.nodes[id].RUnlock()
-	}
-
 	return l.nodes[id]
 }
 
@@ -67,7 +63,7 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
+func (l *List) MarshalJSON() ([]byte, error) {
 	s := make(map[string]*Node)
 
 	for k, v := range l.All() {
-- 
2.43.0


From da16e6344871f513f18c490502560b38e51902a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 17/37] fix: keep the command classes of the device when the
 identification is repeated

---
 nodes/node.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index 96ebff7..60c4334 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -179,11 +179,9 @@ func (n *Node) Identify() {
 			n.Unlock()
 		}
 
-		// set basic commandClasses
-		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
-
+		// set basic commandClasses, and those of the device when it is known
 		n.Lock()
-		n.CommandClasses = classes
+		n.setDevice()
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
@@ -201,15 +199,7 @@ func (n *Node) Identify() {
 
 			n.Lock()
 			n.ManufacurerSpecific = resp
-			dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
-			if dev != nil {
-				n.Brand = dev.Brand
-				n.Product = dev.Product
-				n.Description = dev.Description
-				for _, v := range dev.CommandClasses {
-					n.CommandClasses = append(n.CommandClasses, v)
-				}
-			}
+			n.setDevice()
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
@@ -308,6 +298,24 @@ func (n *Node) Identify() {
 	}
 }
 
+// setDevice sets everything that is known from the device class and the device database
+func (n *Node) setDevice() {
+	var classes []*database.CommandClass // The table of mandatory classes is shared, so never append to it
+	classes = append(classes, database.GetMandatoryCommandClasses(n.protocolInfo.Generic, n.protocolInfo.Specific)...)
+
+	if n.ManufacurerSpecific != nil {
+		dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
+		if dev != nil {
+			n.Brand = dev.Brand
+			n.Product = dev.Product
+			n.Description = dev.Description
+			classes = append(classes, dev.CommandClasses...)
+		}
+	}
+
+	n.CommandClasses = classes
+}
+
 func (n *Node) pushEvent(event interface{}) {
 	n.pushEventFunc(event)
 }
-- 
2.43.0


From 2e59d7f2be5e6a2d3510805722e97bfbb5cbdcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 18/37] fix: set up a discovered node before it is listed and
 announced

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 841c7c3..78ee59f 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent) // It can be used as soon as it is listed or announced
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From 9ceb5076b4563f8d2885772744928df893f41f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 19/37] fix: replace the configuration file only with a
 complete new one and return failures

---
 controller.go | 57 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/controller.go b/controller.go
index 78ee59f..dd735e1 100644
--- a/controller.go
+++ b/controller.go
@@ -4,8 +4,8 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -23,6 +23,7 @@ type Controller struct {
 
 	filename        string
 	triggerFileSave chan struct{}
+	saving          sync.Mutex
 
 	sync.RWMutex
 }
@@ -131,31 +132,55 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 	n.ProcessEvent(report)
 }
 
+// SaveConfigurationToFile replaces the configuration file if anything has changed. The previous file is kept until the new one is complete
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
-	}
+	c.saving.Lock()
+	defer c.saving.Unlock()
 
-	configFile, err := os.Create(c.filename)
+	b, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
-		logrus.Error("creating config file", err.Error())
+		logrus.Error("error marshal json", err)
+		return err
+	}
+
+	old, err := ioutil.ReadFile(c.filename)
+	if err == nil && bytes.Equal(old, b) {
+		return nil
 	}
-	defer configFile.Close()
 
 	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
-	b, err := json.MarshalIndent(c, "", "\t")
-	if err != nil {
-		logrus.Error("error marshal json", err)
+	tmp := c.filename + ".tmp"
+	if err := writeFile(tmp, b); err != nil {
+		logrus.Error("writing config file: ", err)
+		os.Remove(tmp)
+		return err
+	}
+	if err := os.Rename(tmp, c.filename); err != nil {
+		logrus.Error("replacing config file: ", err)
+		os.Remove(tmp)
+		return err
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
 	return nil
 }
+
+// writeFile returns when the data is on the disk
+func writeFile(name string, data []byte) error {
+	file, err := os.Create(name)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	return err
+}
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
 	if err != nil {
-- 
2.43.0


From 62e5abdd9307cb10e20e4c622f8eb5cc8c7d1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 20/37] fix: encode a node under its lock

---
 nodes/node.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 60c4334..47334c6 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -1,6 +1,7 @@
 package nodes
 
 import (
+	"encoding/json"
 	"strings"
 	"sync"
 	"time"
@@ -66,6 +67,15 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 	n.pushEventFunc = pushEventFunc
 }
 
+// MarshalJSON encodes the node while no report changes it
+func (n *Node) MarshalJSON() ([]byte, error) {
+	n.RLock()
+	defer n.RUnlock()
+
+	type fields Node
+	return json.Marshal((*fields)(n))
+}
+
 func (n *Node) isAwake() chan struct{} {
 	if n.IsAwake {
 		c := make(chan struct{})
-- 
2.43.0


From 2a8d3f3f4156b83eb3b875676fb6b7180cd99f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 21/37] fix: restore only complete nodes, whatever the
 configuration file contains

---
 controller.go |  5 ++++-
 nodes/list.go | 10 +++++++---
 nodes/node.go | 25 ++++++++++++++++++++++++-
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/controller.go b/controller.go
index dd735e1..f6c9d71 100644
--- a/controller.go
+++ b/controller.go
@@ -206,9 +206,12 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 
 	controller := &Controller{}
 	jsonParser := json.NewDecoder(configFile)
-	if err = jsonParser.Decode(&controller); err != nil {
+	if err = jsonParser.Decode(controller); err != nil {
 		return nil, err
 	}
+	if controller.Nodes == nil {
+		return nil, fmt.Errorf("no nodes in %s", c.filename)
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index 1c5b1a3..3ddc16a 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -28,8 +28,10 @@ func (l *List) Add(node *Node) {
 
 	node.Lock()
 	//node.connection = l.connection
-	for k, _ := range node.Endpoints {
-		node.Endpoints[k].node = node
+	for _, e := range node.Endpoints {
+		if e != nil {
+			e.node = node
+		}
 	}
 	node.Unlock()
 
@@ -81,7 +83,9 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
-		l.Add(v)
+		if v != nil {
+			l.Add(v)
+		}
 	}
 
 	return nil
diff --git a/nodes/node.go b/nodes/node.go
index 47334c6..82303fd 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -76,6 +76,29 @@ func (n *Node) MarshalJSON() ([]byte, error) {
 	return json.Marshal((*fields)(n))
 }
 
+// UnmarshalJSON restores a node that can be used like a new one, whatever members are missing or null
+func (n *Node) UnmarshalJSON(data []byte) error {
+	n.Lock()
+	defer n.Unlock()
+
+	type fields Node
+	if err := json.Unmarshal(data, (*fields)(n)); err != nil {
+		return err
+	}
+
+	if n.StateBool == nil {
+		n.StateBool = make(map[string]bool)
+	}
+	if n.StateFloat == nil {
+		n.StateFloat = make(map[string]float64)
+	}
+	if n.pushEventFunc == nil {
+		n.pushEventFunc = func(interface{}) {}
+	}
+
+	return nil
+}
+
 func (n *Node) isAwake() chan struct{} {
 	if n.IsAwake {
 		c := make(chan struct{})
@@ -336,7 +359,7 @@ func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
 	}
 
 	for _, v := range n.CommandClasses {
-		if v.ID == c {
+		if v != nil && v.ID == c {
 			return true
 		}
 	}
-- 
2.43.0


From ee3f89bdbb84810c9cbcc3833c4a52c5e01c1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 22/37] fix: record the transferred bytes in order and in one
 stream

---
 serialrecorder/serialrecorder.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..f2c4db4 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -17,6 +18,7 @@ type serialRecorder struct {
 	Logger io.Writer
 
 	writeBuffer chan *Row
+	startWriter sync.Once
 }
 
 // Row logs one serial read or write
@@ -38,13 +40,13 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
 
@@ -52,7 +54,7 @@ func (sr *serialRecorder) writeToLog(d Direction, data []byte) {
 	sr.writeBuffer <- &Row{
 		Timestamp: time.Now(),
 		Direction: d,
-		Data:      data,
+		Data:      append([]byte{}, data...), // The caller can use its buffer again
 	}
 }
 
@@ -71,7 +73,9 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startWriter.Do(func() { // All rows belong to one recording, also after the port was opened again
+		go sr.logWriter()
+	})
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From 5c745864afb5d6e43a96a733ac58aa2aca52b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 23/37] fix: print the last rows of a recording

---
 .../serialrecordingtohex.go                   | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..3fc5c0d 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,13 @@ func main() {
 		}
 	}
 
+	// The last row of each direction has no following row
+	for _, l := range []*logRowCombiner{&reads, &writes} {
+		if c := l.flush(); c != nil {
+			combinedRows = append(combinedRows, *c)
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
@@ -128,14 +135,23 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 		return nil
 	}
 
-	combinedRow := &row{
-		Timestamp: l.prev.Timestamp,
-		Direction: l.prev.Direction,
-		Data:      l.buf,
-	}
+	combinedRow := l.flush()
 
 	l.buf = r.Data
 	l.prev = r
 
 	return combinedRow
 }
+
+// flush returns the rows combined so far
+func (l *logRowCombiner) flush() *row {
+	if (l.prev.Timestamp == time.Time{}) {
+		return nil
+	}
+
+	return &row{
+		Timestamp: l.prev.Timestamp,
+		Direction: l.prev.Direction,
+		Data:      l.buf,
+	}
+}
-- 
2.43.0


From 2c47d70d3629511973fced1f58eaf11155291a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 24/37] fix: map the Multichannel Association label to its own
 command class

---
 database/mandatory.go                       |  2 +-
 generators/commandclasses/commandclasses.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/mandatory.go b/database/mandatory.go
index ae0e4d6..3a2d327 100644
--- a/database/mandatory.go
+++ b/database/mandatory.go
@@ -650,7 +650,7 @@ var definitions = map[Definition][]*CommandClass{
 			ID: 0x60,
 		},
 		&CommandClass{
-			ID: 0x85,
+			ID: 0x8e,
 		},
 		&CommandClass{
 			ID: 0x73,
diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index cbd84fb..8866dd6 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -135,6 +135,11 @@ func StringToByte(s string) byte {
 		return commands.AssociationGRPInfo
 	}
 
+	//- Multichannel Association (version 3 or newer)
+	if strings.Contains(s, "Multichannel Association") {
+		return commands.MultiInstanceAssociation
+	}
+
 	//- Association (version 2 or newer)
 	if strings.Contains(s, "Association") {
 		return commands.Association
@@ -170,11 +175,6 @@ func StringToByte(s string) byte {
 	if strings.Contains(s, "Meter") {
 		return commands.Meter
 	}
-	//- Multichannel Association (version 3 or newer)
-	if strings.Contains(s, "Multichannel Association") {
-		return commands.MultiInstanceAssociation
-	}
-
 	//- Multi Channel (version 4 or newer)
 	if strings.Contains(s, "Multi Channel") {
 		return commands.MultiInstance
-- 
2.43.0


From 2150cfee38fcdf50eeeef1c22822e658f0ac75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 25/37] fix: a protocol-info reply answers only the oldest
 request

---
 connection.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/connection.go b/connection.go
index 12f24a5..4d5fdf0 100644
--- a/connection.go
+++ b/connection.go
@@ -23,6 +23,7 @@ type Connection struct {
 	send        chan *sendPackage
 	lastCommand *sendPackage // Last sent command, until it is answered
 	lastResult  chan byte
+	written     int // Number of commands written
 
 	reportCallback func(byte, reports.Report)
 
@@ -38,6 +39,7 @@ type sendPackage struct {
 	commandclass   byte
 	expectedReport byte
 	node           byte
+	order          int // Commands are answered in the order they were written
 
 	timeout time.Duration
 
@@ -172,6 +174,8 @@ func (conn *Connection) Writer() {
 		case pkg := <-conn.send:
 			conn.Lock()
 			conn.lastCommand = pkg
+			conn.written++
+			pkg.order = conn.written
 
 			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
 				conn.inFlight[pkg.uuid] = pkg
@@ -270,7 +274,11 @@ func (conn *Connection) Reader() error {
 
 			if l > 1 { // A message was received
 				conn.Lock()
+				info := conn.oldest(serialapi.GetNodeProtocolInfo)
 				for index, c := range conn.inFlight {
+					if c.function == serialapi.GetNodeProtocolInfo && c != info { // There is no node id in the reply
+						continue
+					}
 					if !c.Match(incomming[:l-1]) { // Only this frame, without its checksum
 						logrus.Infof("Check match %#v", c)
 						continue
@@ -309,6 +317,17 @@ func (conn *Connection) Reader() error {
 
 }
 
+// oldest returns the pending request of a function that was written first
+func (conn *Connection) oldest(function byte) *sendPackage {
+	var first *sendPackage
+	for _, c := range conn.inFlight {
+		if c.function == function && (first == nil || c.order < first.order) {
+			first = c
+		}
+	}
+	return first
+}
+
 func newSendPackage(data []byte) *sendPackage {
 	pkg := &sendPackage{
 		message: serialapi.CompileMessage(data),
-- 
2.43.0


From 6e8b7f38c6dd90d0ac4f96c43984de61ec559dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 26/37] fix: set the result of a command under the connection's
 lock

---
 connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection.go b/connection.go
index 4d5fdf0..e7bf7a8 100644
--- a/connection.go
+++ b/connection.go
@@ -186,7 +186,9 @@ func (conn *Connection) Writer() {
 			go func() {
 				select {
 				case result := <-conn.lastResult:
+					conn.Lock()
 					pkg.result = result
+					conn.Unlock()
 				case <-time.After(time.Second):
 					logrus.Warn("Send timeout")
 					// SEND TIMEOUT
-- 
2.43.0


From 64d3cd649399e6e22fd91e8afc217926ebbc3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 27/37] fix: read the command classes of a node under its lock

---
 nodes/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 82303fd..6ef10e3 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -354,6 +354,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From 3c6a5693df90b8be997a4d40888b0ff1477eb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 28/37] fix: decide whether a node is awake under its lock

---
 nodes/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 6ef10e3..b84931e 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -100,6 +100,9 @@ func (n *Node) UnmarshalJSON(data []byte) error {
 }
 
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
-- 
2.43.0


From b2380b4c39af97bbde8c715e16d59b7bc6645bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 29/37] fix: a recorded port that cannot be opened again must
 not crash its users

---
 serialrecorder/serialrecorder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index f2c4db4..749c582 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -77,7 +77,10 @@ func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 		go sr.logWriter()
 	})
 
-	var err error
-	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-	return sr, err
+	port, err := serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
+	if err != nil {
+		return nil, err // The old port stays, it can still be in use
+	}
+	sr.serial = port
+	return sr, nil
 }
-- 
2.43.0


From ecf0f84dd8a53694631e9a43b7aff6a983ff371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 30/37] fix: a recorded port may be opened again while it is
 written to

---
 serialrecorder/serialrecorder.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 749c582..864f0be 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -19,6 +19,8 @@ type serialRecorder struct {
 
 	writeBuffer chan *Row
 	startWriter sync.Once
+
+	sync.RWMutex
 }
 
 // Row logs one serial read or write
@@ -38,14 +40,22 @@ func New(port string, baud int) *serialRecorder {
 	}
 }
 
+// current is the port that was opened last
+func (sr *serialRecorder) current() io.ReadWriteCloser {
+	sr.RLock()
+	defer sr.RUnlock()
+
+	return sr.serial
+}
+
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
-	n, err = sr.serial.Read(p)
+	n, err = sr.current().Read(p)
 	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
-	n, err = sr.serial.Write(p)
+	n, err = sr.current().Write(p)
 	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
@@ -70,7 +80,7 @@ func (sr *serialRecorder) logWriter() {
 }
 
 func (sr *serialRecorder) Close() error {
-	return sr.serial.Close()
+	return sr.current().Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	sr.startWriter.Do(func() { // All rows belong to one recording, also after the port was opened again
@@ -81,6 +91,10 @@ func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	if err != nil {
 		return nil, err // The old port stays, it can still be in use
 	}
+
+	sr.Lock()
+	defer sr.Unlock()
 	sr.serial = port
+
 	return sr, nil
 }
-- 
2.43.0


From 996182fcb8dd8300583ce5c758adc558d9849b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 31/37] fix: skip the empty command classes of a configuration
 when states are requested

---
 nodes/request_states.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/request_states.go b/nodes/request_states.go
index 32050e6..05193b5 100644
--- a/nodes/request_states.go
+++ b/nodes/request_states.go
@@ -13,6 +13,9 @@ func (n *Node) RequestStates() error {
 	n.RUnlock()
 
 	for _, v := range cc {
+		if v == nil { // From a configuration file
+			continue
+		}
 		switch v.ID {
 		case commands.SwitchBinary:
 			cmd := commands.NewRaw([]byte{
-- 
2.43.0


From 8a8cffd2b1c3d543b3ab5b60013dbb846fcdfe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 32/37] fix: escape byte order marks in generated device texts

---
 generators/database/database.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/database/database.go b/generators/database/database.go
index 9abc242..26d7fc4 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -126,6 +126,7 @@ var escaper = strings.NewReplacer(
 	"\"", "\\\"", // quote
 	"\r", "\\r",
 	"\n", "\\n",
+	"\ufeff", "\\ufeff", // a byte order mark is not allowed in Go source
 )
 
 var funcMap = template.FuncMap{
-- 
2.43.0


From 44b07ad8e69cf0b0a8da587c2f9d63e5e8233a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 33/37] fix: a failed Connect leaves the port alone

---
 gozwave.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index 26d6bfe..495273b 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -27,6 +27,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 
 	c.Connection.reportCallback = c.DeliverReportToNode
 	connected := make(chan error, 1) // The first result must not be lost if nobody waits for it yet
+	failed := make(chan struct{})
 
 	//spew.Dump(c)
 
@@ -38,12 +39,17 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
-			<-time.After(time.Second)
+			select {
+			case <-time.After(time.Second):
+			case <-failed: // The caller got the error and can connect again
+				return
+			}
 		}
 	}()
 
 	err = <-connected
 	if err != nil {
+		close(failed)
 		return nil, err
 	}
 
-- 
2.43.0


From 95cb350b18c09959cd9178b010a3026fd78bb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 34/37] fix: mandatory classes of the last device type without
 an empty line after it

---
 generators/commandclasses/commandclasses.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index 8866dd6..d844680 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -46,12 +46,15 @@ func main() {
 	scanner := bufio.NewScanner(file)
 	defs := [][]string{}
 	classes := []string{}
+	addClasses := func() {
+		for _, def := range defs {
+			data.CommandClasses[def[0]+"|"+def[1]] = classes
+		}
+	}
 	for scanner.Scan() {
 		text := strings.TrimSpace(scanner.Text())
 		if text == "" {
-			for _, def := range defs {
-				data.CommandClasses[def[0]+"|"+def[1]] = classes
-			}
+			addClasses()
 			defs = [][]string{}
 			classes = []string{}
 			continue
@@ -84,6 +87,7 @@ func main() {
 	if err := scanner.Err(); err != nil {
 		log.Fatal(err)
 	}
+	addClasses() // The last block may end without an empty line
 
 	t := template.New("t")
 	t.Funcs(template.FuncMap{
-- 
2.43.0


From bd8982ea8bf33dea32e452286d69804068ef8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:52 +0000
Subject: [PATCH 35/37] fix: a report nobody waits for leaves a goroutine
 behind

---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index e7bf7a8..de65a5f 100644
--- a/connection.go
+++ b/connection.go
@@ -95,7 +95,7 @@ func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Durati
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
+	returnChan := make(chan reports.Report, 1) // Nobody has to wait for the report
 	messages := make(chan *serialapi.Message)
 	pkg.returnChan = messages // Set to nil when the request ends, which can be before the send returns
 	pkg.timeout = t
-- 
2.43.0


From fac2e88b214a996f599af792ae01f7f47002f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:21 +0000
Subject: [PATCH 36/37] fix: a reply is lost when the caller does not look for
 it within a second

---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index de65a5f..dbdfac3 100644
--- a/connection.go
+++ b/connection.go
@@ -85,7 +85,7 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan *serialapi.Message)
+	returnChan := make(chan *serialapi.Message, 1) // The reply is kept until the caller reads it
 	pkg.returnChan = returnChan // Set to nil when the request ends, which can be before the send returns
 	pkg.timeout = t
 
-- 
2.43.0


From 0615abecc819f8039589bf18544f6d25afbf9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:03 +0000
Subject: [PATCH 37/37] fix: references that differ only in case give generated
 code that does not compile

---
 generators/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/database/database.go b/generators/database/database.go
index 26d7fc4..b01a008 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -300,7 +300,7 @@ func main() {
 
 		refs := []deviceRef{}
 		for _, ref := range dev.DeviceRefs {
-			iden := dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID
+			iden := strings.ToLower(dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID) // As in the lookup
 			if idens[iden] {
 				// FIXME: How do we handle duplicates?
 				log.Printf("warning: %s duplicate iden %s\n", iden, file.Name())
-- 
2.43.0

