From 43ee4089c3e882f5121eaf024a99e4408106652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 01/27] fix: decode payloads completely and reject truncated,
 oversized and malformed packets

A packet was read with a single Read, so a body arriving in several pieces was
truncated silently; base64 packets were padded with NUL bytes and swallowed the
packets behind them; a zero or huge length made the decoder panic or allocate
whatever the peer asked for.
---
 engine/payload.go | 57 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..7d43179 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
@@ -13,6 +14,9 @@ var (
 	ErrInvalidPayload = errors.New("invalid payload")
 )
 
+// maxPacketLength is the largest length a packet in a payload may announce
+const maxPacketLength = 1<<31 - 10
+
 type byteReader interface {
 	io.Reader
 	io.ByteReader
@@ -138,22 +142,37 @@ func (p *Packet) WriteTo(w io.Writer) (n int64, err error) {
 	return
 }
 
+// readData reads exactly length bytes, growing its buffer with the data that actually arrives
+func readData(r io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, ErrInvalidPayload
+	}
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(length))
+	return buf.Bytes(), unexpectedEOF(err)
+}
+
+// unexpectedEOF tells a packet that is cut short from the end of a payload
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func (p *Packet) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
 	if err != nil {
+		if n > 0 {
+			err = unexpectedEOF(err)
+		}
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
-	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
+	p.data, err = readData(pr, l)
+	n += len(p.data)
+	if err == nil && p.msgType == MessageTypeBinary {
+		p.data, err = base64.StdEncoding.DecodeString(string(p.data))
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
-	}
-	_, err = rd.Read(p.data)
 	return n, err
 }
 
@@ -170,6 +189,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
+		if length > maxPacketLength/10 {
+			return n, 0, ErrInvalidPayload
+		}
 		length = length*10 + int(b-'0')
 	}
 	b, err := r.ReadByte()
@@ -253,6 +275,10 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
+		if length > maxPacketLength/10 {
+			err = ErrInvalidPayload
+			return
+		}
 		length = length*10 + int(b)
 	}
 	b, err = r.ReadByte()
@@ -271,12 +297,11 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 func (p *packet2) decode(pr byteReader) (int, error) {
 	n, l, err := p.decodeHead(pr)
 	if err != nil {
+		if n > 0 {
+			err = unexpectedEOF(err)
+		}
 		return n, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
-	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data, err = readData(pr, l)
+	return n + len(p.data), err
 }
-- 
2.43.0


From 60cc76525b66b229c9495b53282ee1cf3a224068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 02/27] fix: answer polling requests with valid JSONP and the
 right content type

The JSONP argument was a quoted string inside quotes, which is no JavaScript at
all, and the callback index was echoed unchecked; the content type was set after
the header had been written and so never sent.
---
 engine/polling.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..4a2e09d 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -211,7 +211,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
@@ -310,10 +309,20 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, digits(jsonp), bytes.TrimSpace(buf.Bytes()))
 	return err
 }
 
+// digits drops everything but digits from the callback index of a JSONP request
+func digits(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r < '0' || r > '9' {
+			return -1
+		}
+		return r
+	}, s)
+}
+
 func writeXHR(w http.ResponseWriter, wt io.WriterTo) error {
 	w.Header().Set("Content-Type", "text/plain; charset=UTF-8")
 	if _, err := wt.WriteTo(w); err != nil {
-- 
2.43.0


From 60c41b65fb6b2f84b7b25ed29f00449434c9e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 03/27] fix: fire EventClose once when the client sends a close
 packet

The reader went on after the close packet, failed on the connection it had just
closed and fired EventClose a second time.
---
 engine/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index 63485de..d857aed 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -74,6 +74,9 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						if err = s.handle(ß, p); err != nil {
 							log.Println("handle:", err.Error())
 						}
+						if p.pktType == PacketTypeClose {
+							return
+						}
 					}
 				}()
 
-- 
2.43.0


From b38d00c2c979f7515d173356eb72d7fb83dd7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 04/27] fix: run onOpen in its session's goroutine, before the
 session is read

onOpen ran in the goroutine that admits sessions, so one slow onOpen kept every
other client out, and messages could reach their handlers before onOpen had run.
---
 engine/server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index d857aed..c94b66a 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -26,7 +26,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
+		ßchan:          make(chan *Socket),
 		done:           done,
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
@@ -59,6 +59,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 				go func() {
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
+					onOpen(ß)
 					var p *Packet
 					var err error
 					for {
@@ -79,8 +80,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				onOpen(ß)
 			}
 		}
 	}()
-- 
2.43.0


From 7b3fc03f26d31ed27be560bebae75f2a36370d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 05/27] fix: refuse handshakes once the server is closed

A handshake after Close was accepted and registered though nothing would ever
serve it; its goroutine, connection and id stayed for good.
---
 engine/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index c94b66a..ca4ca71 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -140,6 +140,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if sid := query.Get(querySession); sid == "" {
+		select {
+		case <-s.done:
+			http.Error(w, "server closed", http.StatusServiceUnavailable)
+			return
+		default:
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
@@ -148,7 +154,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		ß.transportName = transport.Name()
 		select {
 		case <-s.done:
-			return
+			s.sessionManager.Remove(ß.id)
+			ß.Close()
 		case s.ßchan <- ß:
 		}
 		ß.ServeHTTP(w, r)
-- 
2.43.0


From 408f77ba8c609e327b82c0a6a1a46fa35e8947f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 06/27] fix: end the session when a packet cannot be written,
 and bound the flush on Close

Write errors were ignored, so a packet that timed out was dropped and the peer
saw a stream with a hole in it; Close waited one write timeout for every queued
packet; and a packet caught by an upgrade in progress was lost.
The connection and transport of a socket are read under its lock.
---
 engine/emitter.go | 14 ++++--------
 engine/server.go  |  6 ++---
 engine/socket.go  | 56 ++++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..54341f5 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -15,6 +15,7 @@ type emitter struct {
 	packets chan *Packet
 	done    chan struct{}
 	wg      sync.WaitGroup
+	flushBy time.Time // set before done is closed: when flush gives up
 }
 
 func newEmitter(so *Socket, bufSize int) *emitter {
@@ -29,6 +30,7 @@ func newEmitter(so *Socket, bufSize int) *emitter {
 }
 
 func (e *emitter) close() {
+	e.flushBy = time.Now().Add(e.so.writeTimeout)
 	close(e.done)
 	e.wg.Wait()
 }
@@ -59,11 +61,7 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.so.write(p, time.Time{})
 		}
 	}
 }
@@ -72,11 +70,7 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.so.write(p, e.flushBy)
 		default:
 			return
 		}
diff --git a/engine/server.go b/engine/server.go
index ca4ca71..3222ba0 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -165,7 +165,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		if transportName := transport.Name(); ß.transport() != transportName {
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
@@ -197,9 +197,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
-	ß.RLock()
-	conn := ß.Conn
-	ß.RUnlock()
+	conn := ß.conn()
 
 	if err := conn.Pause(); err != nil {
 		newConn.Close()
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..9eefe63 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -17,6 +18,7 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	once          sync.Once
+	writing       sync.Mutex // held while a Packet is being written
 	sync.RWMutex
 }
 
@@ -33,9 +35,7 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
-	s.RLock()
-	conn := s.Conn
-	s.RUnlock()
+	conn := s.conn()
 	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
 		return
 	}
@@ -43,15 +43,61 @@ func (s *Socket) Read() (p *Packet, err error) {
 	return
 }
 
+// write sends a Packet over the current connection. A Packet that cannot be sent would leave
+// a gap in what the peer receives, so the connection is closed and the session ends.
+// Every attempt may take writeTimeout, unless by says when to give up.
+func (s *Socket) write(p *Packet, by time.Time) (err error) {
+	for {
+		s.barrier.Wait()
+		s.writing.Lock()
+		conn := s.conn()
+		deadline := by
+		if by.IsZero() {
+			deadline = time.Now().Add(s.writeTimeout)
+		}
+		if err = conn.SetWriteDeadline(deadline); err == nil {
+			err = conn.WritePacket(p)
+		}
+		s.writing.Unlock()
+		if err == ErrPollingConnPaused || err != nil && conn != s.conn() {
+			continue // the connection is being, or has been, replaced
+		}
+		if err != nil {
+			conn.Close()
+		}
+		return
+	}
+}
+
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		err = s.conn().Close()
 	})
 	return
 }
 
+// conn returns the current connection
+func (s *Socket) conn() Conn {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn
+}
+
+// transport returns the name of the current transport
+func (s *Socket) transport() string {
+	s.RLock()
+	defer s.RUnlock()
+	return s.transportName
+}
+
+// LocalAddr returns the local network address.
+func (s *Socket) LocalAddr() net.Addr { return s.conn().LocalAddr() }
+
+// RemoteAddr returns the remote network address.
+func (s *Socket) RemoteAddr() net.Addr { return s.conn().RemoteAddr() }
+
 // Emit sends event data to remote peer
 func (s *Socket) Emit(event event, msgType MessageType, args interface{}) (err error) {
 	var pktType PacketType
@@ -93,7 +139,7 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	if handler, ok := s.conn().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
-- 
2.43.0


From c13262ef91ecaba5a0edbc4e930d26f84bdda6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 07/27] fix: upgrade without losing, reordering or stalling
 traffic

The session stood still from the first byte of an upgrade attempt until the
client had completed it or the read timeout had passed, so pings went unanswered
and the session died. Packets could be written to the old connection after it
had been flushed, the reader could end the session because the old connection
was closed, messages left in it were handled concurrently with it, and the
upgrade handler could deadlock with the barrier its caller held. A failed
attempt ate a packet of the old transport, a second one panicked, and Close did
not reach a connection still being probed.

Now the old transport keeps working, with polls returning soon, until the
upgrade packet is there; the switch is made when neither emitter nor reader is
using the old connection; and what it still holds, and the upgrade event, are
handled by the reader, in order. Polling requests for an upgraded session are
refused.
---
 engine/emitter.go |  61 +++++++++++++++++++-
 engine/polling.go |  31 +++++++++++
 engine/server.go  |  56 +++++++++----------
 engine/socket.go  | 138 +++++++++++++++++++++++++++++++++++++---------
 4 files changed, 227 insertions(+), 59 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 54341f5..6b55652 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -10,6 +10,9 @@ var (
 	errEmitterClosed = errors.New("emitter closed")
 )
 
+// emitInterval is how often a write that is held up looks whether an upgrade is running
+const emitInterval = 5 * time.Millisecond
+
 type emitter struct {
 	so      *Socket
 	packets chan *Packet
@@ -61,7 +64,61 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.write(p, time.Time{})
+			e.write(p)
+		}
+	}
+}
+
+// write sends a Packet over the current connection. A Packet that cannot be sent would leave
+// a gap in what the peer receives, so the connection is closed and the session ends.
+// A client about to upgrade does not poll while it waits for its own packets to be taken, so
+// Emit must not wait for it: until the upgrade is over, packets are collected.
+func (e *emitter) write(p *Packet) {
+	so, backlog := e.so, []*Packet{p}
+	giveUp := time.Now().Add(so.writeTimeout)
+	for len(backlog) > 0 {
+		so.barrier.Wait()
+		so.writing.Lock()
+		closing := false
+		select {
+		case <-e.done:
+			closing, giveUp = true, e.flushBy
+		default:
+		}
+		conn, deadline := so.conn(), giveUp
+		if _, ok := conn.(*pollingConn); ok && time.Until(giveUp) > emitInterval {
+			deadline = time.Now().Add(emitInterval)
+		}
+		err := conn.SetWriteDeadline(deadline)
+		if err == nil {
+			err = conn.WritePacket(backlog[0])
+		}
+		switch {
+		case err == nil:
+			backlog = backlog[1:]
+			giveUp = time.Now().Add(so.writeTimeout)
+		case err == ErrPollingConnPaused:
+			giveUp = time.Now().Add(so.writeTimeout)
+		case err == ErrPollingConnWriteTimeout && !closing && so.upgrading():
+			giveUp = time.Now().Add(so.writeTimeout)
+			backlog = append(backlog, e.pending()...)
+		case err == ErrPollingConnWriteTimeout && time.Now().Before(giveUp):
+		default:
+			so.shutdown()
+			backlog = nil
+		}
+		so.writing.Unlock()
+	}
+}
+
+// pending takes what Emit has queued
+func (e *emitter) pending() (packets []*Packet) {
+	for {
+		select {
+		case p := <-e.packets:
+			packets = append(packets, p)
+		default:
+			return
 		}
 	}
 }
@@ -70,7 +127,7 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.write(p, e.flushBy)
+			e.write(p)
 		default:
 			return
 		}
diff --git a/engine/polling.go b/engine/polling.go
index 4a2e09d..3715c3a 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -38,6 +38,7 @@ type pollingConn struct {
 	readDeadline  atomic.Value
 	writeDeadline atomic.Value
 	paused        atomic.Value
+	draining      atomic.Value
 	localAddr     netAddr
 	remoteAddr    netAddr
 	header        http.Header
@@ -61,6 +62,7 @@ func newPollingConn(bufSize int, localAddr, remoteAddr string, header http.Heade
 		header:     cloneHTTPHeader(header),
 	}
 	p.paused.Store(make(chan struct{}))
+	p.draining.Store(make(chan struct{}))
 	return p
 }
 
@@ -131,6 +133,13 @@ func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
 	if p.isClosed() {
 		return nil, ErrPollingConnClosed
 	}
+	drain := p.drainChan()
+	var timer <-chan time.Time
+	select {
+	case <-drain:
+		drain, timer = nil, time.After(drainInterval)
+	default:
+	}
 	select {
 	case <-p.closed:
 		return nil, ErrPollingConnClosed
@@ -139,6 +148,10 @@ func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
 			return nil, ErrPollingConnClosed
 		}
 		return pkt, nil
+	case <-drain:
+		return &Packet{msgType: MessageTypeString, pktType: PacketTypeNoop}, nil
+	case <-timer:
+		return &Packet{msgType: MessageTypeString, pktType: PacketTypeNoop}, nil
 	case <-p.pauseChan():
 		return &Packet{msgType: MessageTypeString, pktType: PacketTypeNoop}, nil
 	case <-ctx.Done():
@@ -283,6 +296,24 @@ func (p *pollingConn) Resume() error {
 	return nil
 }
 
+// drainInterval is how long a poll may wait for a packet while the connection is drained
+const drainInterval = 100 * time.Millisecond
+
+func (p *pollingConn) drainChan() <-chan struct{} {
+	return p.draining.Load().(chan struct{})
+}
+
+// drain has polls return soon, with or without a packet, as the client waits for that before it
+// upgrades. Packets flow in both directions as before.
+func (p *pollingConn) drain() {
+	close(p.draining.Load().(chan struct{}))
+}
+
+// undrain ends what drain began
+func (p *pollingConn) undrain() {
+	p.draining.Store(make(chan struct{}))
+}
+
 type netAddr struct {
 	addr string
 }
diff --git a/engine/server.go b/engine/server.go
index 3222ba0..5087fe0 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -64,10 +64,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					var err error
 					for {
 						if p, err = ß.Read(); err != nil {
-							if err == ErrPollingConnPaused {
-								ß.barrier.Wait()
-								continue
-							}
 							log.Println("handle:", err.Error())
 							s.fire(ß, EventClose, MessageTypeString, nil)
 							return
@@ -100,6 +96,9 @@ func (s *Server) handle(ß *Socket, p *Packet) (err error) {
 	case PacketTypeMessage:
 		s.fire(ß, EventMessage, p.msgType, p.data)
 	case PacketTypeUpgrade:
+		if ß.upgradedBy(p) {
+			s.fire(ß, EventUpgrade, p.msgType, p.data)
+		}
 	case PacketTypeNoop:
 	default:
 		return ErrInvalidPayload
@@ -158,7 +157,9 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			ß.Close()
 		case s.ßchan <- ß:
 		}
-		ß.ServeHTTP(w, r)
+		if transport == &s.pollingTransport {
+			ß.ServeHTTP(w, r)
+		}
 	} else {
 		ß, exists := s.sessionManager.Get(sid)
 		if !exists {
@@ -166,19 +167,28 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		if transportName := transport.Name(); ß.transport() != transportName {
+			if transportName != transportWebsocket {
+				http.Error(w, "invalid transport", http.StatusBadRequest)
+				return
+			}
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return
 		}
 		ß.ServeHTTP(w, r)
 	}
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
-	ß.barrier.Pause()
-	defer ß.barrier.Resume()
+	conn, ok := ß.beginUpgrade(newConn)
+	defer ß.endUpgrade(newConn)
+	if !ok {
+		newConn.Close()
+		return
+	}
 
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err := newConn.ReadPacket()
@@ -197,41 +207,25 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
-	conn := ß.conn()
-
-	if err := conn.Pause(); err != nil {
-		newConn.Close()
-		return
-	}
+	conn.drain()
+	defer conn.undrain()
 
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err = newConn.ReadPacket()
 	if err != nil {
 		newConn.Close()
-		conn.Resume()
 		return
 	}
 	if p.pktType != PacketTypeUpgrade {
 		newConn.Close()
-		conn.Resume()
 		return
 	}
 
-	conn.Close()
-
-	for _, packet := range conn.FlushOut() {
-		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-		newConn.WritePacket(packet)
-	}
-
-	ß.Lock()
-	ß.Conn = newConn
-	ß.transportName = transportName
-	ß.Conn.copyHeaderFrom(conn)
-	ß.Unlock()
-
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
+	ß.barrier.Pause()
+	defer ß.barrier.Resume()
+	conn.Pause()
+	if !ß.switchTo(newConn, transportName, p) {
+		newConn.Close()
+		conn.Resume()
 	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
 }
diff --git a/engine/socket.go b/engine/socket.go
index 9eefe63..7bf0134 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -19,6 +19,13 @@ type Socket struct {
 	emitter       *emitter
 	once          sync.Once
 	writing       sync.Mutex // held while a Packet is being written
+	upgrade       sync.Mutex // held while an upgrade is running
+	closed        bool
+	probing       Conn      // the connection a running upgrade will switch to
+	probed        time.Time // when the last upgrade ended
+	upgraded      *Packet   // what completed the upgrade
+	source        Conn      // where Read reads from, and
+	unread        []*Packet // what Read found in the connection before
 	sync.RWMutex
 }
 
@@ -28,6 +35,7 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 		readTimeout:  readTimeout,
 		writeTimeout: writeTimeout,
 		id:           id,
+		source:       conn,
 		barrier:      newLockBarrier()}
 	so.emitter = newEmitter(so, 8)
 	return so
@@ -35,45 +43,121 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
-	conn := s.conn()
-	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
-		return
-	}
-	p, err = conn.ReadPacket()
-	return
-}
-
-// write sends a Packet over the current connection. A Packet that cannot be sent would leave
-// a gap in what the peer receives, so the connection is closed and the session ends.
-// Every attempt may take writeTimeout, unless by says when to give up.
-func (s *Socket) write(p *Packet, by time.Time) (err error) {
 	for {
-		s.barrier.Wait()
-		s.writing.Lock()
 		conn := s.conn()
-		deadline := by
-		if by.IsZero() {
-			deadline = time.Now().Add(s.writeTimeout)
+		if conn != s.source {
+			s.RLock()
+			s.unread = append(s.unread, append(s.source.FlushIn(), s.upgraded)...)
+			s.RUnlock()
+			s.source = conn
 		}
-		if err = conn.SetWriteDeadline(deadline); err == nil {
-			err = conn.WritePacket(p)
+		if len(s.unread) > 0 {
+			p, s.unread = s.unread[0], s.unread[1:]
+			return p, nil
 		}
-		s.writing.Unlock()
-		if err == ErrPollingConnPaused || err != nil && conn != s.conn() {
-			continue // the connection is being, or has been, replaced
+		if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
+			if p, err = conn.ReadPacket(); err == nil {
+				return
+			}
 		}
-		if err != nil {
-			conn.Close()
+		s.barrier.Wait()
+		if err != ErrPollingConnPaused && conn == s.conn() {
+			return
 		}
-		return
 	}
 }
 
+// beginUpgrade registers newConn as the connection to upgrade to, and returns the one in use.
+// Attempts still running or waiting are given up in favour of the new one. It refuses when the
+// upgrade has been done before or comes too late. endUpgrade must be called in any case.
+func (s *Socket) beginUpgrade(newConn Conn) (conn *pollingConn, ok bool) {
+	s.Lock()
+	if s.probing != nil {
+		s.probing.Close()
+	}
+	s.probing = newConn
+	s.Unlock()
+	s.upgrade.Lock()
+	s.RLock()
+	defer s.RUnlock()
+	conn, ok = s.Conn.(*pollingConn)
+	return conn, ok && !s.closed
+}
+
+func (s *Socket) endUpgrade(newConn Conn) {
+	s.Lock()
+	if s.probing == newConn {
+		s.probing = nil
+	}
+	s.probed = time.Now()
+	s.Unlock()
+	s.upgrade.Unlock()
+}
+
+// switchTo replaces the connection by newConn, as p requests. The barrier is up and the connection
+// in use is paused, so whoever reads from or writes to it leaves.
+func (s *Socket) switchTo(newConn Conn, transportName string, p *Packet) bool {
+	s.Lock()
+	if s.probing != newConn {
+		s.Unlock()
+		return false
+	}
+	s.probing = nil
+	s.Unlock()
+	s.writing.Lock()
+	defer s.writing.Unlock()
+	conn := s.conn()
+	conn.Close()
+	newConn.SetWriteDeadline(time.Now().Add(s.writeTimeout))
+	for _, packet := range conn.FlushOut() {
+		if newConn.WritePacket(packet) != nil {
+			newConn.Close() // the session ends
+			break
+		}
+	}
+	s.Lock()
+	defer s.Unlock()
+	if s.closed {
+		return false
+	}
+	newConn.copyHeaderFrom(conn)
+	s.Conn = newConn
+	s.transportName = transportName
+	s.upgraded = p
+	return true
+}
+
+// upgrading tells if an upgrade is running, or ended so recently that the client may not be
+// polling again yet
+func (s *Socket) upgrading() bool {
+	s.RLock()
+	defer s.RUnlock()
+	return s.probing != nil || time.Since(s.probed) < s.writeTimeout
+}
+
+// upgradedBy tells if p completed the upgrade
+func (s *Socket) upgradedBy(p *Packet) bool {
+	s.RLock()
+	defer s.RUnlock()
+	return p == s.upgraded
+}
+
+// shutdown closes the connection in use and the one a running upgrade would switch to
+func (s *Socket) shutdown() error {
+	s.Lock()
+	defer s.Unlock()
+	s.closed = true
+	if s.probing != nil {
+		s.probing.Close()
+	}
+	return s.Conn.Close()
+}
+
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.conn().Close()
+		err = s.shutdown()
 	})
 	return
 }
@@ -141,6 +225,8 @@ func (s *Socket) Send(args interface{}) (err error) {
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	if handler, ok := s.conn().(http.Handler); ok {
 		handler.ServeHTTP(w, r)
+	} else {
+		http.Error(w, "invalid transport", http.StatusBadRequest)
 	}
 }
 
-- 
2.43.0


From feee8188baf1ce02e641945a001c816e6e3c950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 08/27] fix: keep the parts of a packet together when
 goroutines emit at once

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index 0cdf2e5..34dd0fa 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	emitter sync.Mutex // held while the parts of a Packet are emitted
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -155,6 +156,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.emitter.Lock()
+	defer s.emitter.Unlock()
 	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 		return
 	}
-- 
2.43.0


From 990d79bf4c506c5035fb35649c0f1f49c6034a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 09/27] fix: do not send an empty message before a msgpack
 packet

---
 socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 34dd0fa..a0ff09f 100644
--- a/socket.go
+++ b/socket.go
@@ -158,8 +158,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	}
 	s.emitter.Lock()
 	defer s.emitter.Unlock()
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	if b != nil {
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From a2ee6b5bdccbc13f0ca1eec59ac2ee14c09b0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 10/27] fix: accept nil as an argument of Emit

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index a0ff09f..cd08be6 100644
--- a/socket.go
+++ b/socket.go
@@ -127,7 +127,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From 89d99ead3261c67069f24a406b55c8447784e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 11/27] fix: acknowledge with an empty list when the handler
 returns nothing

---
 client.go | 11 ++++-------
 server.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index 440f251..365ee73 100644
--- a/client.go
+++ b/client.go
@@ -123,14 +123,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
diff --git a/server.go b/server.go
index 2d4fa96..ec01135 100644
--- a/server.go
+++ b/server.go
@@ -153,14 +153,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
-- 
2.43.0


From c57a92bdcb809a2316718a4aee4a130503b32719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 12/27] fix: call onConnect and onDisconnect only when a
 namespace is joined or left

---
 client.go |  6 ++----
 server.go |  7 ++++---
 socket.go | 19 ++++++++++++-------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index 365ee73..0bc8596 100644
--- a/client.go
+++ b/client.go
@@ -95,13 +95,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
-		if nsp.onConnect != nil {
+		if sock.attachnsp(p.Namespace) && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/server.go b/server.go
index ec01135..b3a2fb3 100644
--- a/server.go
+++ b/server.go
@@ -117,7 +117,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		if !sock.attachnsp(p.Namespace) {
+			return
+		}
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: p.Namespace,
@@ -130,8 +132,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/socket.go b/socket.go
index cd08be6..670c97e 100644
--- a/socket.go
+++ b/socket.go
@@ -64,19 +64,24 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 	}
 }
 
-func (s *socket) attachnsp(nsp string) {
+// attachnsp reports whether nsp has not been attached before
+func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if _, ok := s.acks[nsp]; ok {
+		return false
+	}
 	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
-	s.mutex.Unlock()
+	return true
 }
 
-func (s *socket) detachnsp(nsp string) {
+// detachnsp reports whether nsp has been attached
+func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	_, ok := s.acks[nsp]
-	if ok {
-		delete(s.acks, nsp)
-	}
-	s.mutex.Unlock()
+	delete(s.acks, nsp)
+	return ok
 }
 
 type nspStore interface {
-- 
2.43.0


From 75456d5d4ec7cce9095ff236ea651add66d0f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 13/27] fix: dispatch packets of a client only in namespaces it
 has joined

---
 server.go | 3 +++
 socket.go | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/server.go b/server.go
index b3a2fb3..ecd6947 100644
--- a/server.go
+++ b/server.go
@@ -115,6 +115,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 		}
 		return
 	}
+	if p.Type != PacketTypeConnect && !sock.attached(p.Namespace) {
+		return
+	}
 	switch p.Type {
 	case PacketTypeConnect:
 		if !sock.attachnsp(p.Namespace) {
diff --git a/socket.go b/socket.go
index 670c97e..2ace94e 100644
--- a/socket.go
+++ b/socket.go
@@ -84,6 +84,13 @@ func (s *socket) detachnsp(nsp string) bool {
 	return ok
 }
 
+func (s *socket) attached(nsp string) bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	_, ok := s.acks[nsp]
+	return ok
+}
+
 type nspStore interface {
 	getnsp(nsp string) (n *namespace, ok bool)
 }
-- 
2.43.0


From b2eab7e608969ba7d4c1b15399a102784b768782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 14/27] fix: answer CONNECT to an unknown namespace with an
 error packet

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ecd6947..b8014b8 100644
--- a/server.go
+++ b/server.go
@@ -110,7 +110,7 @@ func (s *Server) OnError(fn func(err error)) { s.onError = fn }
 func (s *Server) process(sock *socket, p *Packet) {
 	nsp, ok := s.getnsp(p.Namespace)
 	if !ok {
-		if p.Type > PacketTypeDisconnect {
+		if p.Type != PacketTypeDisconnect {
 			sock.emitError(p.Namespace, ErrorNamespaceUnavaialble.Error())
 		}
 		return
-- 
2.43.0


From e0457403e76ba2624e29d77deb1a77abb3e71938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 15/27] fix: do not hold the socket's lock while calling
 onDisconnect

---
 socket.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 2ace94e..0eac393 100644
--- a/socket.go
+++ b/socket.go
@@ -97,15 +97,16 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
-	for k := range sock.acks {
-		delete(sock.acks, k)
+	acks := sock.acks
+	sock.acks = make(map[string]*ackHandle)
+	sock.mutex.Unlock()
+	for k := range acks {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 07daf550efc048c0fd34107b75723d082a1cbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 16/27] fix: never use an ack id twice, and call its callback
 at most once

---
 handle.go | 19 +++++++------------
 socket.go |  5 ++++-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/handle.go b/handle.go
index 491bd76..5fd59ce 100644
--- a/handle.go
+++ b/handle.go
@@ -3,7 +3,6 @@ package socketio
 import (
 	"reflect"
 	"sync"
-	"sync/atomic"
 )
 
 type namespace struct {
@@ -53,28 +52,24 @@ func (e *namespace) fireEvent(so Socket, event string, args []byte, buffer [][]b
 }
 
 type ackHandle struct {
-	id     uint64
 	ackmap map[uint64]*callback
-	mutex  sync.RWMutex
+	mutex  sync.Mutex
 }
 
 func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-	a.mutex.RLock()
+	a.mutex.Lock()
 	fn, ok := a.ackmap[id]
-	a.mutex.RUnlock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
 	if ok {
-		a.mutex.Lock()
-		delete(a.ackmap, id)
-		a.mutex.Unlock()
 		_, err = fn.Call(so, au, data, buffer)
 	}
 	return
 }
 
-func (a *ackHandle) onAck(callback interface{}) uint64 {
-	id := atomic.AddUint64(&a.id, 1)
+func (a *ackHandle) onAck(id uint64, callback interface{}) {
+	fn := newCallback(callback)
 	a.mutex.Lock()
-	a.ackmap[id] = newCallback(callback)
+	a.ackmap[id] = fn
 	a.mutex.Unlock()
-	return id
 }
diff --git a/socket.go b/socket.go
index 0eac393..ed225d2 100644
--- a/socket.go
+++ b/socket.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"reflect"
 	"sync"
+	"sync/atomic"
 
 	"github.com/zyxar/socketio/engine"
 )
@@ -47,6 +48,7 @@ func (n *nspSock) EmitError(arg interface{}) (err error) {
 }
 
 type socket struct {
+	ackid   uint64 // the last one used, never used again by this socket
 	ß       *engine.Socket
 	encoder Encoder
 	decoder Decoder
@@ -141,7 +143,8 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
 		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
-			p.ID = newid(ack.onAck(args[i]))
+			p.ID = newid(atomic.AddUint64(&s.ackid, 1))
+			ack.onAck(*p.ID, args[i])
 		} else {
 			data = append(data, args[i])
 		}
-- 
2.43.0


From aabab89c08220b37bc368729b98c0ac105c5e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 17/27] fix: find the binary arguments of a packet that starts
 with one

---
 parser_default.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..1899a8f 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -313,7 +313,10 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 	return
 }
 
-var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+const placeholderPattern = `\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`
+
+// a placeholder goes along with the comma before it, or, when it comes first, the one after it
+var placeholderExp = regexp.MustCompile(`\s*,` + placeholderPattern + `|` + placeholderPattern + `,?`)
 var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From 57830f87febd93a187939e7ed3d72dd57eb08484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 18/27] fix: decode the escapes in the name of an event

---
 parser_default.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 1899a8f..570d7a1 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -298,7 +298,9 @@ func newid(id uint64) *uint64 {
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
 	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
+		if json.Unmarshal(sub[1], &event) != nil {
+			return
+		}
 		left = eventExp.ReplaceAll(b, []byte{'['})
 		match = true
 	}
@@ -317,7 +319,7 @@ const placeholderPattern = `\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*
 
 // a placeholder goes along with the comma before it, or, when it comes first, the one after it
 var placeholderExp = regexp.MustCompile(`\s*,` + placeholderPattern + `|` + placeholderPattern + `,?`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*(?P<event>"(?:[^"\\]|\\.)+")\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From 22eb94aa42298ca636dcce8b034b53c284cd53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 19/27] fix: drop an incomplete packet when the next one begins

---
 parser_default.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_default.go b/parser_default.go
index 570d7a1..9b083fa 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -176,6 +176,7 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 		d.lastp.buffer[i] = data
 		d.lastp.attachments--
 	} else {
+		d.lastp = nil // given up if still incomplete
 		p, err := d.decode(data)
 		if err != nil {
 			return err
-- 
2.43.0


From 253239aed9cfe007b06d74abf4ad65f844574251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 20/27] fix: guard the map of namespaces

---
 client.go | 11 ++++++++++-
 server.go | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 0bc8596..23b1792 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package socketio
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/zyxar/socketio/engine"
 )
@@ -11,6 +12,7 @@ type Client struct {
 	engine *engine.Client
 	*socket
 	nsps    map[string]*namespace
+	nspLock sync.RWMutex
 	onError func(err interface{})
 }
 
@@ -76,6 +78,8 @@ func (c *Client) OnError(fn func(interface{})) {
 func (c *Client) Namespace(nsp string) Namespace { return c.creatensp(nsp) }
 
 func (c *Client) creatensp(nsp string) *namespace {
+	c.nspLock.Lock()
+	defer c.nspLock.Unlock()
 	n, ok := c.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -84,7 +88,12 @@ func (c *Client) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (c *Client) getnsp(nsp string) (n *namespace, ok bool) { n, ok = c.nsps[nsp]; return }
+func (c *Client) getnsp(nsp string) (n *namespace, ok bool) {
+	c.nspLock.RLock()
+	n, ok = c.nsps[nsp]
+	c.nspLock.RUnlock()
+	return
+}
 
 // process is the Packet process handle on client side
 func (c *Client) process(sock *socket, p *Packet) {
diff --git a/server.go b/server.go
index b8014b8..b04f977 100644
--- a/server.go
+++ b/server.go
@@ -15,6 +15,7 @@ type Server struct {
 	sockLock sync.RWMutex
 	onError  func(err error)
 	nsps     map[string]*namespace
+	nspLock  sync.RWMutex
 }
 
 // NewServer creates a socket.io server instance upon underlying engine.io transport
@@ -87,6 +88,8 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 func (s *Server) Namespace(nsp string) Namespace { return s.creatensp(nsp) }
 
 func (s *Server) creatensp(nsp string) *namespace {
+	s.nspLock.Lock()
+	defer s.nspLock.Unlock()
 	n, ok := s.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -95,7 +98,12 @@ func (s *Server) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (s *Server) getnsp(nsp string) (n *namespace, ok bool) { n, ok = s.nsps[nsp]; return }
+func (s *Server) getnsp(nsp string) (n *namespace, ok bool) {
+	s.nspLock.RLock()
+	n, ok = s.nsps[nsp]
+	s.nspLock.RUnlock()
+	return
+}
 
 // ServeHTTP implements http.Handler interface
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) { s.engine.ServeHTTP(w, r) }
-- 
2.43.0


From 1268ca9ca546cc2a91057f04237a3122d365750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 21/27] fix: limit how deep msgpack packets may be nested

---
 parser_msgp.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..e2b3653 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -292,7 +292,9 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
-		_, err = p.UnmarshalMsg(data)
+		if _, err = msgpCheckNesting(data, maxNesting); err == nil {
+			_, err = p.UnmarshalMsg(data)
+		}
 	}
 	if err != nil {
 		return err
@@ -304,4 +306,30 @@ func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	return nil
 }
 
+// maxNesting is how deep what a Packet contains may be nested, as in encoding/json. What decodes it
+// is recursive, and exhausting the stack would end the program.
+const maxNesting = 10000
+
+func msgpCheckNesting(b []byte, depth int) (o []byte, err error) {
+	if depth == 0 {
+		return b, fmt.Errorf("exceeded max depth")
+	}
+	var sz uint32
+	var n uint64
+	switch msgp.NextType(b) {
+	case msgp.ArrayType:
+		sz, o, err = msgp.ReadArrayHeaderBytes(b)
+		n = uint64(sz)
+	case msgp.MapType:
+		sz, o, err = msgp.ReadMapHeaderBytes(b)
+		n = 2 * uint64(sz)
+	default:
+		return msgp.Skip(b)
+	}
+	for ; n > 0 && err == nil; n-- {
+		o, err = msgpCheckNesting(o, depth-1)
+	}
+	return
+}
+
 func (m *msgpackDecoder) Decoded() <-chan *Packet { return m.packets }
-- 
2.43.0


From 8ff7ec5310ef580bde2b59f0c1bc9756a26d0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 22/27] fix: close the connection when Dial fails

---
 engine/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..52f7396 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -22,6 +22,11 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
-- 
2.43.0


From b4b4ee8dadddb5d0ed6bf489fe2504242a186699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 23/27] fix: fire the client's EventClose once, however the
 session ends

---
 engine/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/client.go b/engine/client.go
index 52f7396..4cf62bc 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -65,6 +65,7 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		}
 	}()
 	go func() {
+		defer c.fire(ß, EventClose, MessageTypeString, nil)
 		defer ß.Close()
 		var p *Packet
 		var err error
@@ -91,7 +92,6 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		c.fire(ß, EventClose, p.msgType, p.data)
 		return ß.Close()
 	case PacketTypePing:
 	case PacketTypePong:
-- 
2.43.0


From a30077db8ed0503b942b199cdf1cd8eefcdf391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 24/27] fix: send what has been emitted before the client
 closes the connection

---
 engine/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/client.go b/engine/client.go
index 4cf62bc..0e9933a 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -109,7 +109,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
-- 
2.43.0


From 4bf10a2446275167fe63ae58d911f30f505cbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 25/27] fix: let the client register its handlers before it
 receives anything

---
 client.go        | 10 +++++-----
 engine/client.go |  7 ++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 23b1792..0171a9d 100644
--- a/client.go
+++ b/client.go
@@ -23,10 +23,11 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.Dial(rawurl, requestHeader, dialer, func(e *engine.Client) { c.open(e, parser) })
+	return
+}
+
+func (c *Client) open(e *engine.Client, parser Parser) {
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -51,7 +52,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
diff --git a/engine/client.go b/engine/client.go
index 0e9933a..981e05c 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -17,7 +17,8 @@ type Client struct {
 }
 
 // Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
-func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+// onOpen, if given, is called before anything is received from the server, to register event handlers.
+func Dial(rawurl string, requestHeader http.Header, dialer Dialer, onOpen ...func(*Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
@@ -50,6 +51,10 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		closeChan:     closeChan,
 	}
 
+	for _, fn := range onOpen {
+		fn(c)
+	}
+
 	go func() {
 		var err error
 		for {
-- 
2.43.0


From 7172755b511405b709c5ecf99bdf4056c69787f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 26/27] fix: report acknowledgements whose values do not fit
 the callback

Namespace.OnError is called when an error occurs in the namespace, but the error of
an acknowledgement callback that could not be run was dropped.
---
 client.go | 6 +++++-
 server.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 0171a9d..8e923af 100644
--- a/client.go
+++ b/client.go
@@ -150,7 +150,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/server.go b/server.go
index b04f977..c9d2a73 100644
--- a/server.go
+++ b/server.go
@@ -185,7 +185,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
-- 
2.43.0


From 1b36e0eaa1ea29f82f08e2887ed1850204a84a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 27/27] fix: refuse packet ids that do not fit, instead of
 taking them for another one

---
 parser_default.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 9b083fa..7990503 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -255,14 +255,15 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 
 	if s[i] >= '0' && s[i] <= '9' { // decode id
 		j := i + 1
-		var id = uint64(s[i] - '0')
 		for ; j < len(s); j++ {
-			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
-			} else {
+			if s[j] < '0' || s[j] > '9' {
 				break
 			}
 		}
+		id, err := strconv.ParseUint(string(s[i:j]), 10, 64)
+		if err != nil {
+			return nil, ErrUnknownPacket
+		}
 		p.ID = newid(id)
 		i = j
 		if i >= len(s) {
-- 
2.43.0

