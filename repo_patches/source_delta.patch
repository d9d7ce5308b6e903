From 663c2ad4e38962656c2e0d3413f40ab97a12d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 01/25] fix: End of a Sender that never connected no longer
 panics

---
 connector.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index 478c0ce..713cd6f 100644
--- a/connector.go
+++ b/connector.go
@@ -112,9 +112,11 @@ func (c *Sender) runQueue() {
 		for len(*c.queue) > 0 {
 			c.flushQueue()
 		}
-		c.output.Close()
-		close(c.endCompleted)
+		if c.output != nil {
+			c.output.Close()
+		}
 		close(c.errChan)
+		close(c.endCompleted)
 	}()
 
 	for {
-- 
2.43.0


From 255760f35f7ce55f07d58a79470c1c1b55fbe12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 02/25] fix: an unread channel of errors no longer blocks the
 Sender

---
 connector.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/connector.go b/connector.go
index 713cd6f..968ec7c 100644
--- a/connector.go
+++ b/connector.go
@@ -68,11 +68,19 @@ func NewSender(output Connector, transport Transport, ticker <-chan time.Time) (
 	return s, s.errChan
 }
 
+// report never blocks: an application may ignore the channel of errors
+func (c *Sender) report(err error) {
+	select {
+	case c.errChan <- err:
+	default:
+	}
+}
+
 func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
-			c.errChan <- err
+			c.report(err)
 			return
 		}
 	}
@@ -90,12 +98,12 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
-			c.errChan <- err
+			c.report(err)
 			c.output = nil
 			return
 
 		default:
-			c.errChan <- err
+			c.report(err)
 			c.output = nil
 			return
 		}
-- 
2.43.0


From 37dd51d548ae9142dc4c08dc0a3d897eb3224383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 03/25] fix: the Sender closes a connection after a failed
 write

---
 connector-fd.go | 16 ++++++++++++++--
 connector.go    | 13 +++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/connector-fd.go b/connector-fd.go
index a26da23..959ead8 100644
--- a/connector-fd.go
+++ b/connector-fd.go
@@ -4,6 +4,18 @@ import (
 	"os"
 )
 
+type (
+	// stdio is shared by the whole process: a Sender must not close it
+	stdio struct {
+		*os.File
+	}
+)
+
+// Close does nothing
+func (stdio) Close() error {
+	return nil
+}
+
 // StdioConnector returns a Connector that only forward to stderr: or stdout:
 func StdioConnector(addr string) Connector {
 	if addr == "" {
@@ -13,12 +25,12 @@ func StdioConnector(addr string) Connector {
 	switch addr {
 	case "stderr:":
 		return ConnectorFunc(func() (WriteCloser, error) {
-			return os.Stderr, nil
+			return stdio{os.Stderr}, nil
 		})
 
 	case "stdout:":
 		return ConnectorFunc(func() (WriteCloser, error) {
-			return os.Stdout, nil
+			return stdio{os.Stdout}, nil
 		})
 	}
 
diff --git a/connector.go b/connector.go
index 968ec7c..bac5912 100644
--- a/connector.go
+++ b/connector.go
@@ -76,6 +76,13 @@ func (c *Sender) report(err error) {
 	}
 }
 
+// disconnect drops a connection after a failure
+func (c *Sender) disconnect(err error) {
+	c.report(err)
+	c.output.Close()
+	c.output = nil
+}
+
 func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
@@ -98,13 +105,11 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
-			c.report(err)
-			c.output = nil
+			c.disconnect(err)
 			return
 
 		default:
-			c.report(err)
-			c.output = nil
+			c.disconnect(err)
 			return
 		}
 	}
-- 
2.43.0


From 81b327f76a2db362b134ac20b1c1e76fcbb0232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 04/25] fix: a frame cut by a failed write is sent again as a
 whole

---
 connector.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/connector.go b/connector.go
index bac5912..571f952 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		partial      []byte // the whole frame, when only a part of the first one of the queue was written
 	}
 
 	// Addr see net.Addr
@@ -81,6 +82,12 @@ func (c *Sender) disconnect(err error) {
 	c.report(err)
 	c.output.Close()
 	c.output = nil
+
+	// a cut frame is written again, as a whole, to the next connection
+	if c.partial != nil {
+		(*c.queue)[0] = c.partial
+		c.partial = nil
+	}
 }
 
 func (c *Sender) flushQueue() {
@@ -97,8 +104,22 @@ func (c *Sender) flushQueue() {
 	defer c.lock.Unlock()
 
 	for len(*c.queue) > 0 {
+		frames := append([][]byte(nil), *c.queue...)
+		if c.partial != nil {
+			frames[0] = c.partial
+		}
+
 		_, err := c.queue.WriteTo(c.output)
 
+		// the failure may have cut a frame
+		c.partial = nil
+		if len(*c.queue) > 0 {
+			frame := frames[len(frames)-len(*c.queue)]
+			if len((*c.queue)[0]) < len(frame) {
+				c.partial = frame
+			}
+		}
+
 		switch typeErr := err.(type) {
 		case nil:
 		case *net.OpError:
-- 
2.43.0


From c08ac82f8ef210a58927ae8a4461f02cf3d1d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 05/25] fix: channels asked for by several goroutines at first
 are all the real ones

---
 syslog.go | 55 ++++++++++++++++++++++---------------------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/syslog.go b/syslog.go
index 1de5193..4d73b00 100644
--- a/syslog.go
+++ b/syslog.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var (
@@ -16,6 +17,7 @@ type Syslog struct {
 	hostname string
 	pid      string
 	appname  string
+	once     sync.Once
 	channels []Channel
 	output   *Sender
 	minSev   int
@@ -60,27 +62,29 @@ func (syslog *Syslog) TestMode() {
 
 // Channel expose a custom channel for a priority
 func (syslog *Syslog) Channel(sev Priority) Channel {
-	if syslog.channels == nil {
-		syslog.channels = []Channel{
-			devNull, devNull, devNull, devNull,
-			devNull, devNull, devNull, devNull,
-		}
-
-		for sev := 0; sev <= syslog.minSev; sev++ {
-			syslog.channels[sev] = &trueChannel{msgChannel{
-				priority: syslog.facility | Priority(sev),
-				hostname: syslog.hostname,
-				pid:      syslog.pid,
-				appname:  syslog.appname,
-				msgid:    "-",
-				output:   syslog.output,
-			}}
-		}
-	}
+	syslog.once.Do(syslog.makeChannels)
 
 	return syslog.channels[sev.Severity()]
 }
 
+func (syslog *Syslog) makeChannels() {
+	syslog.channels = []Channel{
+		devNull, devNull, devNull, devNull,
+		devNull, devNull, devNull, devNull,
+	}
+
+	for sev := 0; sev <= syslog.minSev; sev++ {
+		syslog.channels[sev] = &trueChannel{msgChannel{
+			priority: syslog.facility | Priority(sev),
+			hostname: syslog.hostname,
+			pid:      syslog.pid,
+			appname:  syslog.appname,
+			msgid:    "-",
+			output:   syslog.output,
+		}}
+	}
+}
+
 // SubSyslog create a syslog for a subAppName
 // this allow to postfix to remplace the AppName with AppName/SubAppName
 func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
@@ -99,22 +103,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 		pid:      syslog.pid,
 		appname:  appname,
 		output:   syslog.output,
-		channels: []Channel{
-			devNull, devNull, devNull, devNull,
-			devNull, devNull, devNull, devNull,
-		},
-		minSev: syslog.minSev,
-	}
-
-	for sev := 0; sev <= syslog.minSev; sev++ {
-		sub.channels[sev] = &trueChannel{msgChannel{
-			priority: syslog.facility | Priority(sev),
-			hostname: syslog.hostname,
-			pid:      syslog.pid,
-			appname:  appname,
-			msgid:    "-",
-			output:   syslog.output,
-		}}
+		minSev:   syslog.minSev,
 	}
 
 	return
-- 
2.43.0


From 826b37a88a8853584466becd93ad9c9a342d1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 06/25] fix: SubSyslog validates the application name as New
 and AppName do

---
 syslog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syslog.go b/syslog.go
index 4d73b00..505d419 100644
--- a/syslog.go
+++ b/syslog.go
@@ -101,7 +101,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 		facility: syslog.facility,
 		hostname: syslog.hostname,
 		pid:      syslog.pid,
-		appname:  appname,
+		appname:  validApp(appname),
 		output:   syslog.output,
 		minSev:   syslog.minSev,
 	}
-- 
2.43.0


From 4340437cf97f11989431feb5083dad7806b18b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 07/25] fix: lists of structured data derived from the same one
 are independent

---
 sdata/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..b371132 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -78,7 +78,8 @@ func RegisterGroup(sdids ...SDID) {
 // Add append data to a list of structured data
 func (listSD List) Add(data ...StructuredData) List {
 
-	return List(append([]StructuredData(listSD), data...))
+	// never append in place: the array may be shared with another list
+	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From e7997f1d917dcf56059a259116ba58ec806c7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 08/25] fix: TimeQuality encodes a SyncAccuracy of zero

---
 sdata/timequality/tq.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..5cf000c 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -2,7 +2,6 @@ package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequ
 
 import (
 	"errors"
-	"math"
 	"strconv"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
@@ -152,7 +151,7 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 	}
 
 	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
+		length += 15 + 20
 	}
 
 	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
-- 
2.43.0


From c54f389dcd7cdab762b0ad2d4df2a0010ed1fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 09/25] fix: decode one frame at a time, with its structured
 data element by element

---
 message-immutable.go | 167 ++++++++++++++++++-------------------------
 1 file changed, 70 insertions(+), 97 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..13b6df9 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -137,111 +137,114 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 	return
 }
 
+// splitFrame isolates the first frame of data.
+// complete is false while the end of the frame is not there yet; data holds what is known of the frame
+func splitFrame(data []byte, transport Transport, atEOF bool) (frame, rest []byte, complete bool, err error) {
+	frame, rest, err = transport.PrefixStrip(data, atEOF)
+	if err != nil || rest != nil {
+		return frame, rest, true, err
+	}
+	if frame == nil {
+		return nil, nil, false, nil
+	}
+
+	// the prefix doesn't tell where the frame ends
+	frame, rest, err = transport.SuffixStrip(frame, atEOF)
+	complete = rest != nil || (atEOF && frame != nil)
+
+	return frame, rest, complete, err
+}
+
 // Parse allow to parse a []byte and decode one ImmutableMessage
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
-	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
-
 	if transport != nil {
-		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
-		//log.Printf("P {%q} {%q} %v\n", data, rest, mainErr)
+		data, rest, _, mainErr = splitFrame(data, transport, atEOF)
 		if data == nil && rest == nil && mainErr == nil {
 			return
 		}
 	}
 
+	returnMsg, err := parseMessage(data)
+	mainErr = dispatchError(mainErr, err)
+	return
+}
+
+// parseMessage decode the message that fills data
+func parseMessage(data []byte) (MessageImmutable, error) {
+	sepSp := []byte{' '}
+
 	msg := MessageImmutable{
 		buffer: data,
 		index:  make([]int, 0, 8),
 		text:   -1,
 	}
 
-	parts := 0
 	begin := 0
-	for len(data) > 0 && parts < 6 {
+	for parts := 0; parts < 6; parts++ {
 		end, err := searchNextSep(data[begin:], sepSp)
 		if err != nil {
-			//log.Printf("%s index %#d parts %d rest %s ", string(msg.buffer), msg.index, parts, data[begin:])
-			mainErr = dispatchError(mainErr, err)
-			return
+			return MessageImmutable{}, err
 		}
 		msg.index = append(msg.index, begin+end)
 		begin = begin + end + 1
-		parts++
 	}
 
 	if len(data[begin:]) == 0 {
-		mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-		return
+		return MessageImmutable{}, ParseError{data, begin, "structured data expected"}
 	}
 
-	if len(data[begin:]) == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-			return
+	switch data[begin] {
+	case '-':
+		begin++
+		msg.index = append(msg.index, begin)
+
+	default:
+		for begin < len(data) && data[begin] != ' ' {
+			l := lenElement(data[begin:])
+			if l == 0 {
+				return MessageImmutable{}, ParseError{data, begin, "structured data expected"}
+			}
+			begin += l
+			msg.index = append(msg.index, begin)
 		}
-		msg.index = append(msg.index, begin+2)
+	}
 
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
+	if begin == len(data) {
+		return msg, nil
 	}
 
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
-		return
+	if data[begin] != ' ' {
+		return MessageImmutable{}, ParseError{data, begin, "space expected"}
 	}
 
-	if end == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
-			return
-		}
+	msg.text = begin + 1
 
-		msg.index = append(msg.index, begin+1)
-		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
-	}
+	return msg, nil
+}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
+// lenElement return the length of the element of structured data at the begin of data; 0 if there is none.
+func lenElement(data []byte) int {
+	if data[0] != '[' {
+		return 0
+	}
 
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
+	quoted := false
+	for i := 1; i < len(data); i++ {
+		switch data[i] {
+		case '\\':
+			if quoted {
+				i++
 			}
-
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-					return
-				}
-				continue
+		case '"':
+			quoted = !quoted
+		case ']':
+			if !quoted {
+				return i + 1
 			}
-
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
-
-		case ErrPosNotFound:
-			msg.text = begin + 1
-
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-			return
-
-		default:
-			mainErr = dispatchError(mainErr, err)
-			return
 		}
 	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
-	return
+
+	return 0
 }
 
 func dispatchError(mainErr, err error) (returnErr error) {
@@ -253,33 +256,3 @@ func dispatchError(mainErr, err error) (returnErr error) {
 	}
 	return
 }
-
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
-
-	if transport == nil {
-		returnMsg = msg
-		return
-	}
-
-	if rest != nil {
-		returnMsg = msg
-		return
-	}
-
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
-	}
-
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
-
-	}
-
-	returnMsg = msg
-	return
-}
-- 
2.43.0


From 56710f20f921d3d3d5abc6855d783c04aaa55795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 10/25] fix: a priority out of range or not a priority at all
 is an error

---
 message-immutable.go |  5 +++++
 priority.go          | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/message-immutable.go b/message-immutable.go
index 13b6df9..9b3a841 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -189,6 +189,11 @@ func parseMessage(data []byte) (MessageImmutable, error) {
 		begin = begin + end + 1
 	}
 
+	var prio Priority
+	if err := prio.Unmarshal5424(data[:msg.index[0]]); err != nil {
+		return MessageImmutable{}, err
+	}
+
 	if len(data[begin:]) == 0 {
 		return MessageImmutable{}, ParseError{data, begin, "structured data expected"}
 	}
diff --git a/priority.go b/priority.go
index 7682fab..d2ccc83 100644
--- a/priority.go
+++ b/priority.go
@@ -130,7 +130,12 @@ func (p Priority) Severity() Priority {
 }
 
 func (p Priority) String() string {
-	return facilityString[p.Facility()>>3] + "." + severityString[p.Severity()]
+	facility := "-"
+	if f := int(p.Facility() >> 3); f < len(facilityString) {
+		facility = facilityString[f]
+	}
+
+	return facility + "." + severityString[p.Severity()]
 }
 
 // Marshal5424 encode the priority to Syslog5424 format
@@ -181,6 +186,9 @@ func (p *Priority) Unmarshal5424(d []byte) error {
 		}
 		tp = tp*10 + int(v-'0')
 	}
+	if tp > facilityMask|severityMask {
+		return errors.New("bad format : " + string(d))
+	}
 	*p = Priority(tp)
 
 	return nil
-- 
2.43.0


From 119eb5ee59f8cc195a0c147f531a6c155c82a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 11/25] fix: looking for a definition of a short structured
 data no longer panics

---
 sdata/sd-generic.go     | 4 ++--
 sdata/sd-unknown.go     | 2 +-
 sdata/timequality/tq.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..10e285b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -45,13 +45,13 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
 	header := sdid.String()
-	if string(data[0:len(header)]) != header {
+	if len(data) < len(header) || string(data[0:len(header)]) != header {
 		return nil, false
 	}
 
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..1592140 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -43,7 +43,7 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 5cf000c..cfacef3 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -57,12 +57,12 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
-	if string(data[0:11]) != "timeQuality" {
+	if len(data) < 11 || string(data[0:11]) != "timeQuality" {
 		return nil, false
 	}
 	data = data[11:]
-- 
2.43.0


From 6a497894f3220693ca4498580188ec440ed201c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 12/25] fix: decode structured data without any parameter

---
 sdata/tokens.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..95ee52d 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -6,7 +6,7 @@ import (
 
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
-	if data == nil || len(data) < 4 {
+	if len(data) == 0 {
 		return "", nil, fmt.Errorf("invalid length for [%q]", string(data))
 	}
 
@@ -27,7 +27,9 @@ func NextHeader(data []byte) (header string, ret []byte, err error) {
 		ret = ret[1:]
 		length++
 	}
-	return "", nil, fmt.Errorf("unexpected EOF")
+
+	// no parameter at all
+	return string(data), ret, nil
 }
 
 // NextNonSpace try to decode a Structured Data part from a []byte
-- 
2.43.0


From f266f54e377f262243bf620466dcac201f2115a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 13/25] fix: RFC 5425 headers that are negative, too large or
 of very short frames

---
 transport.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..ad6eca1 100644
--- a/transport.go
+++ b/transport.go
@@ -77,28 +77,31 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
+	sepPos := bytes.IndexByte(buffer, ' ')
+	if sepPos < 0 && len(buffer) < 20 {
+		// the header may be incomplete
+		if atEOF {
+			return nil, nil, ErrTransportIncomplete
+		}
 		return nil, nil, nil
 	}
-
-	sepPos := bytes.IndexByte(buffer, ' ')
 	if sepPos <= 0 {
 		return nil, nil, ErrTransportNoHeader
 	}
 
-	lenMsg, err := strconv.Atoi(string(buffer[0:sepPos]))
+	lenMsg, err := strconv.ParseUint(string(buffer[0:sepPos]), 10, 31)
 	if err != nil {
 		return nil, nil, ErrTransportInvHeader
 	}
 
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if uint64(len(buffer)-start) < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
+	lenBuff := start + int(lenMsg)
 
 	return buffer[start:lenBuff], buffer[lenBuff:], nil
 }
-- 
2.43.0


From 639fba58246df818d02f6380e6f2f51d80791799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 14/25] fix: read errors, frames of any length, and what the
 end of a stream leaves

---
 listener.go | 77 +++++++++++++++++++++++++----------------------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/listener.go b/listener.go
index 86d4b65..cb491a5 100644
--- a/listener.go
+++ b/listener.go
@@ -101,63 +101,60 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 	defer conn.Close()
 
-	var eof bool
-
 	done := 0
-	count := 0
-	total := 0
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
-		total += lenRead
-		if err == io.EOF {
-			eof = true
-			err = nil
+		eof := err == io.EOF
+
+		data := buffer[:done+lenRead]
+		if lenRead > 0 || eof {
+			var valid bool
+			data, valid = r.deliver(data, eof)
+			if !valid {
+				return
+			}
 		}
-		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
 		if err != nil {
-			chanErr <- err
-		}
-		if lenRead == 0 && eof {
+			if !eof {
+				chanErr <- err
+			}
 			return
 		}
-		if lenRead == 0 {
-			continue
-		}
-
-		lenRead += done
-		data := buffer[0:lenRead]
-		for {
-			msg, rest, parseErr := Parse(data, r.transport, eof)
 
-			if rest == nil {
-				//log.Printf("NIL\t{%q} {%q} %v %v %v", msg, data[0:10], len(rest), rest == nil, parseErr)
-				//log.Printf("NIL\t%v %v %v %v", count, total, lenRead, parseErr)
-				break
-			}
-			data = rest
+		// what is delivered is never written again
+		buffer = buffer[done+lenRead-len(data):]
+		done = len(data)
 
-			count++
-			r.pipeline <- messageErrorPair{msg, parseErr}
-			if len(rest) == 0 {
-				break
-			}
+		if len(buffer)-done < 500 {
+			old := buffer[:done]
+			buffer = make([]byte, readBuffer+2*done)
+			copy(buffer, old)
 		}
+	}
+}
 
-		done = len(data)
-		buffer = buffer[lenRead-done:]
-
-		if len(buffer) < 500 {
-			old := buffer
-			buffer = make([]byte, readBuffer)
-			copy(buffer[0:len(old)], old)
+// deliver decode the messages in data and return what is left.
+// valid is false when what follows in the stream can't be decoded anymore
+func (r *Receiver) deliver(data []byte, atEOF bool) (rest []byte, valid bool) {
+	for len(data) > 0 {
+		frame, rest, complete, err := splitFrame(data, r.transport, atEOF)
+		if !complete {
+			break
 		}
 
-		if eof == true {
-			return
+		if err != nil {
+			r.pipeline <- messageErrorPair{MessageImmutable{}, err}
+			return nil, false
 		}
+
+		msg, err := parseMessage(frame)
+		r.pipeline <- messageErrorPair{msg, err}
+		data = rest
 	}
+
+	return data, true
 }
 
 // Receive an incoming syslog message and a possible error that occured during the decoding of this syslog message
-- 
2.43.0


From fd2aa0588611e060a296a443ab399377d63da9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 15/25] fix: an Accept that fails, or errors nobody reads, no
 longer stop the Receiver

---
 listener.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/listener.go b/listener.go
index cb491a5..3bd96be 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"io"
 	"net"
+	"time"
 	//	"log"
 )
 
@@ -42,7 +43,12 @@ type (
 	}
 )
 
-const readBuffer = 1 << 16
+const (
+	readBuffer = 1 << 16
+
+	// pause after a failure of Accept
+	acceptDelay = 50 * time.Millisecond
+)
 
 // NewReceiver create a new Listener
 //
@@ -77,6 +83,14 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 	return r, chanErr
 }
 
+// report never blocks: an application may ignore the channel of errors
+func report(chanErr chan<- error, err error) {
+	select {
+	case chanErr <- err:
+	default:
+	}
+}
+
 func (r *Receiver) runQueue(chanErr chan<- error) {
 	defer r.listener.Close()
 	defer close(r.pipeline)
@@ -89,7 +103,9 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 		default:
 			conn, err := r.listener.Accept()
 			if err != nil {
-				chanErr <- err
+				report(chanErr, err)
+				time.Sleep(acceptDelay)
+				continue
 			}
 
 			go r.tokenize(conn, chanErr)
@@ -118,7 +134,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 
 		if err != nil {
 			if !eof {
-				chanErr <- err
+				report(chanErr, err)
 			}
 			return
 		}
-- 
2.43.0


From 39df1eb631c568c29de363f45b3a409bccc4bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 16/25] fix: End of a Receiver closes everything and never
 crashes

---
 listener-unixdgram.go | 63 ++++++++++++++++++++++++++--------
 listener.go           | 80 +++++++++++++++++++++++++++++++++++--------
 2 files changed, 113 insertions(+), 30 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 5a23987..dbbfe84 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -4,20 +4,25 @@ import (
 	"errors"
 	"net"
 	"os"
+	"sync"
+	"time"
 )
 
 type (
 	unixgramReceiver struct {
 		listener *net.UnixConn
-		accepted bool
+		idle     chan struct{} // holds an item when nothing reads the socket
 		end      chan struct{}
+		endOnce  sync.Once
+		again    bool
 	}
 
 	fakeConn struct {
-		end   chan struct{}
-		rbuff [1 << 16]byte
-		buff  []byte
-		conn  *net.UnixConn
+		receiver *unixgramReceiver
+		once     sync.Once
+		rbuff    [1 << 16]byte
+		buff     []byte
+		conn     *net.UnixConn
 	}
 )
 
@@ -27,6 +32,8 @@ func UnixgramListener(address string) (Listener, error) {
 
 	r := new(unixgramReceiver)
 	r.end = make(chan struct{})
+	r.idle = make(chan struct{}, 1)
+	r.idle <- struct{}{}
 
 	uAddr, err := net.ResolveUnixAddr("unixgram", address)
 	if err != nil {
@@ -60,23 +67,38 @@ func UnixgramListener(address string) (Listener, error) {
 	return r, nil
 }
 
-func (r *unixgramReceiver) Close() error {
-	close(r.end)
-	return r.listener.Close()
+// Close ends Accept. The socket is closed at once if nothing reads it, else when its reader closes it.
+func (r *unixgramReceiver) Close() (err error) {
+	r.endOnce.Do(func() {
+		close(r.end)
+	})
+
+	select {
+	case <-r.idle:
+		err = r.listener.Close()
+	default:
+	}
+
+	return
 }
 
 // mimic an Accept
 func (r *unixgramReceiver) Accept() (DataReader, error) {
-	if r.accepted {
-		<-r.end
+	select {
+	case <-r.end:
 		return nil, errors.New("end")
+	case <-r.idle:
 	}
 
-	r.accepted = true
+	if r.again {
+		// the previous reader met an error
+		time.Sleep(acceptDelay)
+	}
+	r.again = true
 
 	fc := &fakeConn{
-		end:  r.end,
-		conn: r.listener,
+		receiver: r,
+		conn:     r.listener,
 	}
 
 	return fc, nil
@@ -86,8 +108,19 @@ func (r *fakeConn) RemoteAddr() net.Addr {
 	return r.conn.RemoteAddr()
 }
 
-func (r *fakeConn) Close() error {
-	return nil
+// Close lets the socket be accepted again, or closes it when the listener is closed
+func (r *fakeConn) Close() (err error) {
+	r.once.Do(func() {
+		r.receiver.idle <- struct{}{}
+
+		select {
+		case <-r.receiver.end:
+			err = r.receiver.Close()
+		default:
+		}
+	})
+
+	return
 }
 
 func (r *fakeConn) Read(data []byte) (int, error) {
diff --git a/listener.go b/listener.go
index 3bd96be..c31c01c 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"io"
 	"net"
+	"sync"
 	"time"
 	//	"log"
 )
@@ -34,7 +35,9 @@ type (
 		listener  Listener
 		transport Transport
 		pipeline  chan messageErrorPair
-		end       chan struct{}
+		end       chan struct{}  // closed by End
+		closing   chan struct{}  // closed a while later
+		workers   sync.WaitGroup // connections being read
 	}
 
 	messageErrorPair struct {
@@ -48,6 +51,9 @@ const (
 
 	// pause after a failure of Accept
 	acceptDelay = 50 * time.Millisecond
+
+	// after End, how long peers may still send what they were sending
+	endDelay = time.Second
 )
 
 // NewReceiver create a new Listener
@@ -74,6 +80,7 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 		pipeline:  pipeline,
 		transport: t,
 		end:       make(chan struct{}),
+		closing:   make(chan struct{}),
 	}
 
 	chanErr := make(chan error, 10)
@@ -92,30 +99,51 @@ func report(chanErr chan<- error, err error) {
 }
 
 func (r *Receiver) runQueue(chanErr chan<- error) {
-	defer r.listener.Close()
 	defer close(r.pipeline)
+	defer r.workers.Wait()
 
 	for {
+		conn, err := r.listener.Accept()
+		if err == nil {
+			r.workers.Add(1)
+			go r.tokenize(conn, chanErr)
+			continue
+		}
+
 		select {
 		case <-r.end:
 			return
-
 		default:
-			conn, err := r.listener.Accept()
-			if err != nil {
-				report(chanErr, err)
-				time.Sleep(acceptDelay)
-				continue
-			}
+		}
 
-			go r.tokenize(conn, chanErr)
+		report(chanErr, err)
+		select {
+		case <-r.end:
+			return
+		case <-time.After(acceptDelay):
 		}
 	}
 
 }
 
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
-	defer conn.Close()
+	defer r.workers.Done()
+
+	// closed once: when reading is over, or to end it
+	over := make(chan struct{})
+	closed := make(chan struct{})
+	go func() {
+		defer close(closed)
+		select {
+		case <-over:
+		case <-r.closing:
+		}
+		conn.Close()
+	}()
+	defer func() {
+		close(over)
+		<-closed
+	}()
 
 	done := 0
 	buffer := make([]byte, readBuffer)
@@ -133,8 +161,12 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		}
 
 		if err != nil {
-			if !eof {
-				report(chanErr, err)
+			select {
+			case <-r.closing:
+			default:
+				if !eof {
+					report(chanErr, err)
+				}
 			}
 			return
 		}
@@ -161,18 +193,30 @@ func (r *Receiver) deliver(data []byte, atEOF bool) (rest []byte, valid bool) {
 		}
 
 		if err != nil {
-			r.pipeline <- messageErrorPair{MessageImmutable{}, err}
+			r.queue(MessageImmutable{}, err)
 			return nil, false
 		}
 
 		msg, err := parseMessage(frame)
-		r.pipeline <- messageErrorPair{msg, err}
+		if !r.queue(msg, err) {
+			return nil, false
+		}
 		data = rest
 	}
 
 	return data, true
 }
 
+// queue hands a message over to Receive; it fails when the Receiver is closing
+func (r *Receiver) queue(msg MessageImmutable, err error) bool {
+	select {
+	case r.pipeline <- messageErrorPair{msg, err}:
+		return true
+	case <-r.closing:
+		return false
+	}
+}
+
 // Receive an incoming syslog message and a possible error that occured during the decoding of this syslog message
 func (r *Receiver) Receive() (MessageImmutable, error, bool) {
 	pair, end := <-r.pipeline
@@ -181,6 +225,12 @@ func (r *Receiver) Receive() (MessageImmutable, error, bool) {
 }
 
 // End terminate the log_collector goroutine
+//
+// no more connection is accepted; the accepted ones are closed a while later.
 func (r *Receiver) End() {
 	close(r.end)
+	r.listener.Close()
+	time.AfterFunc(endDelay, func() {
+		close(r.closing)
+	})
 }
-- 
2.43.0


From 1674b1fa5f320a68e74ca2f501761af6f85fedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 17/25] fix: a message never goes on in the next datagram

---
 listener-unixdgram.go |  4 ++++
 listener.go           | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index dbbfe84..9ebb503 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -123,6 +123,10 @@ func (r *fakeConn) Close() (err error) {
 	return
 }
 
+func (r *fakeConn) boundary() bool {
+	return len(r.buff) == 0
+}
+
 func (r *fakeConn) Read(data []byte) (int, error) {
 	if len(r.buff) == 0 {
 		s, _, err := r.conn.ReadFrom(r.rbuff[:])
diff --git a/listener.go b/listener.go
index c31c01c..db7f0e6 100644
--- a/listener.go
+++ b/listener.go
@@ -40,6 +40,12 @@ type (
 		workers   sync.WaitGroup // connections being read
 	}
 
+	// datagramReader is a DataReader whose data come in datagrams
+	datagramReader interface {
+		// boundary tells whether the last Read reached the end of a datagram
+		boundary() bool
+	}
+
 	messageErrorPair struct {
 		m MessageImmutable
 		e error
@@ -145,19 +151,29 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		<-closed
 	}()
 
+	// a message never goes on in the next datagram
+	datagrams, isDatagrams := conn.(datagramReader)
+	skip := false
+
 	done := 0
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
 		eof := err == io.EOF
+		last := eof || isDatagrams && datagrams.boundary()
 
 		data := buffer[:done+lenRead]
+		if skip {
+			data = nil
+		}
 		if lenRead > 0 || eof {
 			var valid bool
-			data, valid = r.deliver(data, eof)
-			if !valid {
+			data, valid = r.deliver(data, last)
+			if !valid && !isDatagrams {
 				return
 			}
+			// only what is left of this datagram is lost
+			skip = (skip || !valid) && !last
 		}
 
 		if err != nil {
-- 
2.43.0


From 5d062f8480b1f4ef546c9d6cef3c40a9a214ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 18/25] fix: a datagram of more than 64 KiB is received whole
 or not at all

---
 listener-unixdgram.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 9ebb503..8dfb02e 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -20,12 +20,15 @@ type (
 	fakeConn struct {
 		receiver *unixgramReceiver
 		once     sync.Once
-		rbuff    [1 << 16]byte
+		rbuff    [maxDatagram]byte
 		buff     []byte
 		conn     *net.UnixConn
 	}
 )
 
+// a longer datagram is not received: what is read of it can't be told from a whole one
+const maxDatagram = 1 << 18
+
 // UnixgramListener create a Listener for UNIX datagram
 func UnixgramListener(address string) (Listener, error) {
 	var err error
@@ -131,7 +134,10 @@ func (r *fakeConn) Read(data []byte) (int, error) {
 	if len(r.buff) == 0 {
 		s, _, err := r.conn.ReadFrom(r.rbuff[:])
 		if err != nil {
-			return s, err
+			return 0, err
+		}
+		if s == len(r.rbuff) {
+			return 0, ErrTransportIncomplete
 		}
 
 		r.buff = make([]byte, s)
-- 
2.43.0


From bd564dde7aa89ed4deda084c613afd9ab699121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 19/25] fix: a name without an address of the wished family is
 an error

---
 connector-tcp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index fd55ec9..2a2d642 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -69,6 +69,9 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 	default:
 		ips = rawips
 	}
+	if len(ips) == 0 {
+		return nil, ErrNoConnection
+	}
 
 	var contcp *net.TCPConn
 	for _, ip := range ips {
-- 
2.43.0


From 7e1ea91ab63a658670b877692fd7af9622fa1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 20/25] fix: only the socket of a dead listener is replaced

---
 listener-unix.go      | 57 ++++++++++++++++++++++++++++++++-----------
 listener-unixdgram.go | 19 ++++-----------
 2 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/listener-unix.go b/listener-unix.go
index d68f167..f5bc343 100644
--- a/listener-unix.go
+++ b/listener-unix.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"net"
 	"os"
+	"syscall"
 )
 
 type (
@@ -11,6 +12,43 @@ type (
 	}
 )
 
+// how often a socket found at the address of a listener is removed
+const staleTries = 5
+
+// removeStale removes the socket left at address by a listener that doesn't run anymore.
+// It returns false, and leaves address as it is, when listenErr has another reason.
+func removeStale(network, address string, listenErr error) bool {
+	opErr, ok := listenErr.(*net.OpError)
+	if !ok || opErr.Err.Error() != "bind: address already in use" {
+		return false
+	}
+
+	stat, err := os.Lstat(address)
+	if err != nil {
+		return os.IsNotExist(err)
+	}
+	if stat.Mode()&os.ModeSocket == 0 {
+		return false
+	}
+
+	// only a refused connection proves that nobody listens
+	conn, err := net.DialUnix(network, nil, &net.UnixAddr{Name: address, Net: network})
+	if err == nil {
+		conn.Close()
+		return false
+	}
+	if opErr, ok = err.(*net.OpError); !ok {
+		return false
+	}
+	sysErr, ok := opErr.Err.(*os.SyscallError)
+	if !ok || sysErr.Err != syscall.ECONNREFUSED {
+		return false
+	}
+
+	err = os.Remove(address)
+	return err == nil || os.IsNotExist(err)
+}
+
 // UnixListener create a UNIX Listener
 // careful : a previous unused socket may be removed and recreated
 func UnixListener(address string) (Listener, error) {
@@ -23,25 +61,16 @@ func UnixListener(address string) (Listener, error) {
 	}
 
 	r.listener, err = net.ListenUnix("unix", uAddr)
-
-	for err != nil {
-		switch err.(type) {
-		case *net.OpError:
-			if err.(*net.OpError).Err.Error() != "bind: address already in use" {
-				return nil, err
-			}
-
-		default:
-			return nil, err
-		}
-
-		if _, osErr := os.Stat(address); osErr != nil {
+	for tries := 0; err != nil && tries < staleTries; tries++ {
+		if !removeStale("unix", address, err) {
 			return nil, err
 		}
-		os.Remove(address)
 
 		r.listener, err = net.ListenUnix("unix", uAddr)
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	return r, nil
 }
diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 8dfb02e..bb59b4e 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -3,7 +3,6 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"errors"
 	"net"
-	"os"
 	"sync"
 	"time"
 )
@@ -44,24 +43,16 @@ func UnixgramListener(address string) (Listener, error) {
 	}
 
 	r.listener, err = net.ListenUnixgram("unixgram", uAddr)
-	for err != nil {
-		switch err.(type) {
-		case *net.OpError:
-			if err.(*net.OpError).Err.Error() != "bind: address already in use" {
-				return nil, err
-			}
-
-		default:
-			return nil, err
-		}
-
-		if _, osErr := os.Stat(address); osErr != nil {
+	for tries := 0; err != nil && tries < staleTries; tries++ {
+		if !removeStale("unixgram", address, err) {
 			return nil, err
 		}
-		os.Remove(address)
 
 		r.listener, err = net.ListenUnixgram("unixgram", uAddr)
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	r.listener.SetWriteBuffer(0)
 	r.listener.CloseWrite()
-- 
2.43.0


From 0034bdad29bed17690b1827d2a09c9686dc03615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 21/25] fix: a message without its structured data is an error

---
 message-immutable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message-immutable.go b/message-immutable.go
index 9b3a841..cec0d6d 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -194,7 +194,7 @@ func parseMessage(data []byte) (MessageImmutable, error) {
 		return MessageImmutable{}, err
 	}
 
-	if len(data[begin:]) == 0 {
+	if len(data[begin:]) == 0 || data[begin] == ' ' {
 		return MessageImmutable{}, ParseError{data, begin, "structured data expected"}
 	}
 
-- 
2.43.0


From 32e80bfbc94a5673c532de30ae75f4a299c862c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 22/25] fix: a channel derived from one with a message id is no
 longer mute

---
 channel.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 0762c4a..e7d41be 100644
--- a/channel.go
+++ b/channel.go
@@ -47,7 +47,7 @@ type (
 	}
 )
 
-func (d *trueChannel) AppName(sup string) Channel {
+func (d *msgChannel) AppName(sup string) Channel {
 	var appname string
 
 	switch string(d.appname) {
@@ -57,17 +57,17 @@ func (d *trueChannel) AppName(sup string) Channel {
 		appname = d.appname + "/" + sup
 	}
 
-	return &trueChannel{msgChannel{
+	return &msgChannel{
 		priority: d.priority,
 		hostname: d.hostname,
 		pid:      d.pid,
 		appname:  validApp(appname),
 		msgid:    d.msgid,
 		output:   d.output,
-	}}
+	}
 }
 
-func (d *trueChannel) Msgid(msgid string) Channel {
+func (d *msgChannel) Msgid(msgid string) Channel {
 	return &msgChannel{
 		priority: d.priority,
 		hostname: d.hostname,
-- 
2.43.0


From ae1616fb12edb0d5dc78429be3890aa6e5521dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 23/25] fix: an element found by a generic definition can be
 encoded again

---
 sdata/sd-generic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 10e285b..8249de3 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -68,6 +68,11 @@ func (sd genericSD) SDID() SDID {
 }
 
 func (sd genericSD) Marshal5424() ([]byte, error) {
+	if sd.Interface == nil {
+		// found by its definition : there is nothing more than the identifier
+		return []byte("[" + sd.sdid.String() + "]"), nil
+	}
+
 	e := &encodeState{}
 	err := e.marshal(sd.Interface)
 	if err != nil {
-- 
2.43.0


From 3b0e3f2b15d52a1b02de6fb062c9554ee4db97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 24/25] fix: what a Connector returns together with an error is
 not used as a connection

---
 connector.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index 571f952..8d130bb 100644
--- a/connector.go
+++ b/connector.go
@@ -92,11 +92,13 @@ func (c *Sender) disconnect(err error) {
 
 func (c *Sender) flushQueue() {
 	if c.output == nil {
-		var err error
-		if c.output, err = c.connector.Connect(); err != nil {
+		// what comes with an error, a typed nil say, is no connection
+		output, err := c.connector.Connect()
+		if err != nil {
 			c.report(err)
 			return
 		}
+		c.output = output
 	}
 
 	//log.Printf("<--\tget lock for %d items", len(*c.queue))
-- 
2.43.0


From 540929e544a5120d432f88491fd272959deb9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 25/25] fix: a local sender guesses again where the server is

---
 connector-local.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connector-local.go b/connector-local.go
index c4286b6..efca7d2 100644
--- a/connector-local.go
+++ b/connector-local.go
@@ -26,7 +26,9 @@ func (c *localConn) Connect() (WriteCloser, error) {
 		return c.localWriteCloser(net.DialUnix(c.network, nil, &net.UnixAddr{Name: c.address, Net: c.network}))
 	}
 
-	return c.localWriteCloser(c.osGuessConnnector())
+	// guess again each time: the server may come back at another place
+	guess := *c
+	return guess.localWriteCloser(guess.osGuessConnnector())
 }
 
 func (c *localConn) localWriteCloser(conn *net.UnixConn, err error) (WriteCloser, error) {
-- 
2.43.0

