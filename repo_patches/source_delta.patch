From bf722d0f0fd4a07eb2af8839ded23ba1788d15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 01/23] fix: ring buffer loses wakeups and transfers bytes that
 are not available

Wait/Release dropped a Release that raced ahead of the matching Wait, a
one byte WriteN never woke the reader, and neither side reloaded the
other's position after waiting, so ReadN returned stale bytes and WriteN
overwrote unread ones.  After Close both kept transferring garbage; they
now report ErrClosed.
---
 ring/buffer.go | 88 ++++++++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 45 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..6c9d5b8 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -18,37 +18,40 @@ package ring
 
 import (
 	"context"
+	"errors"
 	"sync/atomic"
 )
 
+// ErrClosed is returned when the buffer was closed before the requested bytes
+// could be transferred
+var ErrClosed = errors.New("ring buffer closed")
+
+// mutex is a wakeup latch.  A Release that precedes a Wait is remembered, so
+// callers must store the condition being waited on before calling Release and
+// must check the condition again after Wait returns.
 type mutex struct {
 	ctx context.Context
 	ch  chan struct{}
-	set int32
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default: // a wakeup is already pending
 	}
 }
 
@@ -84,74 +87,69 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
-func (r *Buffer) WriteN(data []byte, n int) {
+// blocks until ReadN clears space.  Returns ErrClosed if the buffer was closed before
+// all n bytes could be written.
+func (r *Buffer) WriteN(data []byte, n int) error {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
 	)
 
 	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
-
 		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
-		if next := incr(pos, r.size); next == start {
+		// bytes to be read before continuing
+		for incr(pos, r.size) == start {
+			// important to store pos prior to releasing the reader
 			atomic.StoreInt32(&r.next, pos)
-
-			// important to store pos prior to reading from lockMux
 			r.readLock.Release()
-			wrote = i
 
-			start = atomic.LoadInt32(&r.start)
-			if next := incr(pos, r.size); next == start {
-				r.writeLock.Wait()
+			r.writeLock.Wait()
+			if r.ctx.Err() != nil {
+				return ErrClosed
 			}
+			start = atomic.LoadInt32(&r.start)
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
-
-	// if at least one byte has been written since the last time r.lock
-	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
-		r.readLock.Release()
-	}
+	r.readLock.Release()
+	return nil
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer.  Returns ErrClosed if the
+// buffer was closed before n bytes could be read; bytes written prior to Close
+// remain readable.
+func (r *Buffer) ReadN(data []byte, n int) error {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
-		read = 0
 	)
 
 	for i := 0; i < n; i++ {
-		if pos == next {
+		for pos == next {
+			// important to store pos prior to releasing the writer
 			atomic.StoreInt32(&r.start, pos)
-			if read > 0 {
-				r.writeLock.Release()
-			}
+			r.writeLock.Release()
 
+			r.readLock.Wait()
+			closed := r.ctx.Err() != nil // check prior to loading next
 			next = atomic.LoadInt32(&r.next)
-			if pos == next {
-				r.readLock.Wait()
+			if closed && pos == next {
+				return ErrClosed
 			}
 		}
 
 		data[i] = r.data[pos]
 		pos = incr(pos, r.size)
-		read++
 	}
 
 	atomic.StoreInt32(&r.start, pos)
-	if read > 0 {
-		r.writeLock.Release()
-	}
+	r.writeLock.Release()
+	return nil
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From d5114254ee6e051f0844eb00b3232d02a9e45352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 02/23] fix: deliver bytes returned by Read together with an
 error

io.Reader may return n > 0 along with a non-nil error (tls.Conn does so on
close_notify); the read loop dropped those bytes.
---
 gen.conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..d29cc3a 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -95,12 +95,13 @@ func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	buffer := make([]byte, 2e6) // 2MB
 	for {
 		n, err := raw.Read(buffer)
+		if err := rb.WriteN(buffer, n); err != nil {
+			return
+		}
 		if err != nil {
 			fmt.Println(err)
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
-- 
2.43.0


From 09e5321dfbadc6fcb7f593b7081f6b04c45ef0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 03/23] fix: pending requests hang forever once the connection
 is gone

When the peer closed the connection, or Close was called, nothing woke the
message loop or the callers blocked in Do, and the entries of failed
requests stayed in the request table.
---
 gen.conn.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index d29cc3a..3d0ba56 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -29,6 +30,8 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+var errConnClosed = errors.New("connection closed")
+
 type Conn struct {
 	cancel      context.CancelFunc
 	ch          chan request
@@ -91,6 +94,7 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // no more bytes will arrive
 
 	buffer := make([]byte, 2e6) // 2MB
 	for {
@@ -107,6 +111,8 @@ func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 
 func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
 	defer close(c.doneMessage)
+	defer c.raw.Close() // stop the read loop
+	defer rb.Close()
 
 	var (
 		buffer = make([]byte, 2e6) // 2MB
@@ -122,19 +128,23 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		rb.ReadN(buffer, 4)
+		if err := rb.ReadN(buffer, 4); err != nil {
+			return
+		}
 		d.Reset(4)
 		v, _ := d.Int32()
 		size := int(v)
 
 		// read the payload
-		rb.ReadN(buffer, size)
+		if err := rb.ReadN(buffer, size); err != nil {
+			return
+		}
 		d.Reset(size)
 
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
 			fmt.Println(err)
-			continue
+			return
 		}
 
 		c.readLock.Lock()
@@ -162,6 +172,12 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
+	defer func() {
+		c.readLock.Lock()
+		delete(c.requests, correlationID)
+		c.readLock.Unlock()
+	}()
+
 	c.writeLock.Lock()
 	encode(c.encoder, correlationID)
 	err := c.encoder.Flush()
@@ -171,7 +187,19 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 		return err
 	}
 
-	return <-req.reply
+	select {
+	case err := <-req.reply:
+		return err
+	case <-c.doneMessage:
+	}
+
+	// the reply may have been delivered just before the message loop stopped
+	select {
+	case err := <-req.reply:
+		return err
+	default:
+		return errConnClosed
+	}
 }
 
 func (c *Conn) Close() error {
-- 
2.43.0


From dc290dea39324c0dd9eb24980ca43f3c01e10c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 04/23] fix: response larger than the receive buffer crashes
 the process

The size of a response frame was used unchecked, so a response over 2MB
panicked the message loop.
---
 gen.conn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gen.conn.go b/gen.conn.go
index 3d0ba56..178be65 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -30,6 +30,9 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+// maxResponseSize limits the size of a single response
+const maxResponseSize = 100 * 1024 * 1024
+
 var errConnClosed = errors.New("connection closed")
 
 type Conn struct {
@@ -134,6 +137,14 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		d.Reset(4)
 		v, _ := d.Int32()
 		size := int(v)
+		if size < 0 || size > maxResponseSize {
+			fmt.Printf("invalid response size, %v\n", size)
+			return
+		}
+		if size > len(buffer) {
+			buffer = make([]byte, size)
+			d = message.NewDecoder(buffer, size)
+		}
 
 		// read the payload
 		if err := rb.ReadN(buffer, size); err != nil {
-- 
2.43.0


From 41cdd02d59ee015fd71445197a86b833a95494b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 05/23] fix: malformed lengths in a response crash the decoder

Negative lengths sliced out of range, null bytes panicked, array lengths
were trusted to allocate, and an overflowing var int moved the offset
backwards and could read past the end of the message.
---
 message/decoder.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..cc2dedd 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -58,7 +58,7 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
-	if remain := d.length - d.offset; remain < n {
+	if remain := d.length - d.offset; n < 0 || remain < n {
 		return io.ErrShortBuffer
 	}
 	return nil
@@ -70,6 +70,12 @@ func (d *Decoder) ArrayLength() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+
+	// every element occupies at least one byte; refuse to make room for
+	// elements that cannot be there
+	if n < -1 || int(n) > d.length-d.offset {
+		return 0, io.ErrShortBuffer
+	}
 	return int(n), nil
 }
 
@@ -91,6 +97,10 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	}
 	length := int(n)
 
+	if length == -1 {
+		return nil, nil
+	}
+
 	if err := d.remains(length); err != nil {
 		return nil, err
 	}
@@ -259,6 +269,10 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 	}
 	length := int(n)
 
+	if length == -1 {
+		return nil, nil
+	}
+
 	if err := d.remains(length); err != nil {
 		return nil, err
 	}
@@ -271,13 +285,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
-- 
2.43.0


From b6455dfaf6a40f91007f7ac59d4e894a6b1e7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 06/23] fix: decoded byte arrays are overwritten by the next
 response

Bytes and VarBytes returned slices of the connection's receive buffer.
---
 message/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index cc2dedd..601b709 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -105,8 +105,8 @@ func (d *Decoder) Bytes() ([]byte, error) {
 		return nil, err
 	}
 
-	a, b := d.offset, d.offset+length
-	v := d.raw[a:b:b] // limit capacity of returned slice
+	v := make([]byte, length) // the caller keeps v, but raw is reused
+	copy(v, d.raw[d.offset:d.offset+length])
 	d.offset += length
 	return v, nil
 }
@@ -277,8 +277,8 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 		return nil, err
 	}
 
-	a, b := d.offset, d.offset+length
-	v := d.raw[a:b:b] // limit capacity of returned slice
+	v := make([]byte, length) // the caller keeps v, but raw is reused
+	copy(v, d.raw[d.offset:d.offset+length])
 	d.offset += length
 	return v, nil
 }
-- 
2.43.0


From c591d593ee8ed514b1e96bd80adb333a32a71bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 07/23] fix: NullableString decodes null as an empty string

---
 message/decoder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/message/decoder.go b/message/decoder.go
index 601b709..d98dc27 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -210,11 +210,22 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 
 // NullableString returns the buffer head as a *string
 func (d *Decoder) NullableString() (*string, error) {
-	s, err := d.String()
+	n, err := d.Int16()
 	if err != nil {
 		return nil, err
 	}
 
+	if n == -1 {
+		return nil, nil
+	}
+
+	length := int(n)
+	if err := d.remains(length); err != nil {
+		return nil, err
+	}
+
+	s := string(d.raw[d.offset : d.offset+length])
+	d.offset += length
 	return &s, nil
 }
 
-- 
2.43.0


From f5485080f531c6df59751d3411a105108b2e3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:02 +0000
Subject: [PATCH 08/23] fix: decode any non-zero byte as true

As per https://kafka.apache.org/protocol#protocol_types
---
 message/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message/decoder.go b/message/decoder.go
index d98dc27..3388deb 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -84,7 +84,7 @@ func (d *Decoder) Bool() (bool, error) {
 	if err := d.remains(1); err != nil {
 		return false, err
 	}
-	b := d.raw[d.offset] == 1
+	b := d.raw[d.offset] != 0
 	d.offset += 1
 	return b, nil
 }
-- 
2.43.0


From b8e2cda94b89c9dfd34af3f9251e7fc07a2797fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 09/23] fix: PutVarBytes and PutVarString corrupt the stream

Both kept writing after the length failed to be written, clearing the
error, and PutVarString wrote replacement characters for bytes that are not
valid utf8, so more bytes than the length announced.
---
 message/decoder.go | 16 ++--------------
 message/encoder.go | 13 +++++--------
 2 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index 3388deb..3e16ba8 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
@@ -323,18 +322,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..4c50146 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -19,7 +19,6 @@ package message
 import (
 	"encoding/binary"
 	"io"
-	"unicode/utf8"
 )
 
 type flusher interface {
@@ -203,7 +202,9 @@ func (e *Encoder) PutVarBytes(data []byte) {
 	}
 
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
@@ -223,11 +224,7 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
+	if e.err == nil {
+		_, e.err = io.WriteString(e.target, s)
 	}
 }
-- 
2.43.0


From a7b4c1a89ad5a63dc48475e7ae2955ebc8f6ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 10/23] fix: strings over 32767 bytes are encoded with a
 truncated length

---
 message/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message/encoder.go b/message/encoder.go
index 4c50146..c464fcf 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -18,9 +18,13 @@ package message
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
+var errStringTooLong = errors.New("string too long")
+
 type flusher interface {
 	Flush() error
 }
@@ -171,6 +175,9 @@ func (e *Encoder) PutRecordHeader(key, value string) {
 
 // PutString encodes a string
 func (e *Encoder) PutString(s string) {
+	if e.err == nil && len(s) > math.MaxInt16 {
+		e.err = errStringTooLong
+	}
 	e.PutInt16(int16(len(s)))
 	if e.err == nil {
 		_, e.err = io.WriteString(e.target, s)
-- 
2.43.0


From dd423bf9c1c2a6f2176f9496a8e63e189c11321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 11/23] fix: version negotiation fails when the broker supports
 newer versions

matchVersion only ever considered the broker's max version, so any broker
newer than this library was refused even if older versions are shared.
---
 gen.broker.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..600af57 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,10 +1580,12 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
-			return version, nil
-		}
+	version := apiKey.MaxVersion
+	if version > maxVersion {
+		version = maxVersion
+	}
+	if version >= minVersion && version >= apiKey.MinVersion {
+		return version, nil
 	}
 	return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
 }
-- 
2.43.0


From 526531ba7d59c9b251c718c7046ba47ee3683acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 12/23] fix: negotiate only versions that can be encoded

The latest version of these apis is the first one to use flexible versions
(KIP-482), but requests are encoded, and responses decoded, without compact
types and tagged fields.  Stop one version short.
---
 gen.broker.go | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 600af57..82a61b9 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1329,6 +1329,9 @@ type apiVersion struct {
 func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersion, error) {
 	// Since this file is generated, there's no need to externalize the supported
 	// versions elsewhere.  We can simply inline the values into the call to matchVersion
+	//
+	// The flexible versions of KIP-482 (compact types, tagged fields) are not encoded
+	// yet, so the max version is the last one prior to flexible versions.
 	var av apiVersion
 	var err error
 	for _, apiKey := range apiKeys {
@@ -1349,72 +1352,72 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyMetadata:
-			av.Metadata, err = matchVersion(apiKey, 0, 9)
+			av.Metadata, err = matchVersion(apiKey, 0, 8)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyLeaderAndIsr:
-			av.LeaderAndIsr, err = matchVersion(apiKey, 0, 4)
+			av.LeaderAndIsr, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyStopReplica:
-			av.StopReplica, err = matchVersion(apiKey, 0, 2)
+			av.StopReplica, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyUpdateMetadata:
-			av.UpdateMetadata, err = matchVersion(apiKey, 0, 6)
+			av.UpdateMetadata, err = matchVersion(apiKey, 0, 5)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyControlledShutdown:
-			av.ControlledShutdown, err = matchVersion(apiKey, 0, 3)
+			av.ControlledShutdown, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyOffsetCommit:
-			av.OffsetCommit, err = matchVersion(apiKey, 0, 8)
+			av.OffsetCommit, err = matchVersion(apiKey, 0, 7)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyOffsetFetch:
-			av.OffsetFetch, err = matchVersion(apiKey, 0, 6)
+			av.OffsetFetch, err = matchVersion(apiKey, 0, 5)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyFindCoordinator:
-			av.FindCoordinator, err = matchVersion(apiKey, 0, 3)
+			av.FindCoordinator, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyJoinGroup:
-			av.JoinGroup, err = matchVersion(apiKey, 0, 6)
+			av.JoinGroup, err = matchVersion(apiKey, 0, 5)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyHeartbeat:
-			av.Heartbeat, err = matchVersion(apiKey, 0, 4)
+			av.Heartbeat, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyLeaveGroup:
-			av.LeaveGroup, err = matchVersion(apiKey, 0, 4)
+			av.LeaveGroup, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeySyncGroup:
-			av.SyncGroup, err = matchVersion(apiKey, 0, 4)
+			av.SyncGroup, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyDescribeGroups:
-			av.DescribeGroups, err = matchVersion(apiKey, 0, 5)
+			av.DescribeGroups, err = matchVersion(apiKey, 0, 4)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyListGroups:
-			av.ListGroups, err = matchVersion(apiKey, 0, 3)
+			av.ListGroups, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1424,17 +1427,17 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyApiVersions:
-			av.ApiVersions, err = matchVersion(apiKey, 0, 3)
+			av.ApiVersions, err = matchVersion(apiKey, 0, 2)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyCreateTopics:
-			av.CreateTopics, err = matchVersion(apiKey, 0, 5)
+			av.CreateTopics, err = matchVersion(apiKey, 0, 4)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyDeleteTopics:
-			av.DeleteTopics, err = matchVersion(apiKey, 0, 4)
+			av.DeleteTopics, err = matchVersion(apiKey, 0, 3)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1444,7 +1447,7 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyInitProducerId:
-			av.InitProducerId, err = matchVersion(apiKey, 0, 2)
+			av.InitProducerId, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1524,7 +1527,7 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyCreateDelegationToken:
-			av.CreateDelegationToken, err = matchVersion(apiKey, 0, 2)
+			av.CreateDelegationToken, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
@@ -1544,17 +1547,17 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 				return apiVersion{}, err
 			}
 		case message.KeyDeleteGroups:
-			av.DeleteGroups, err = matchVersion(apiKey, 0, 2)
+			av.DeleteGroups, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyElectLeaders:
-			av.ElectLeaders, err = matchVersion(apiKey, 0, 2)
+			av.ElectLeaders, err = matchVersion(apiKey, 0, 1)
 			if err != nil {
 				return apiVersion{}, err
 			}
 		case message.KeyIncrementalAlterConfigs:
-			av.IncrementalAlterConfigs, err = matchVersion(apiKey, 0, 1)
+			av.IncrementalAlterConfigs, err = matchVersion(apiKey, 0, 0)
 			if err != nil {
 				return apiVersion{}, err
 			}
-- 
2.43.0


From 213e772b4436bb91f3ac53a229607a943d98202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 13/23] fix: connections leak

NewBroker left its connection open when negotiation failed, and every
metadata or coordinator lookup left a bootstrap connection open.
---
 client.go     | 1 +
 gen.broker.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 303efdc..1fab90c 100644
--- a/client.go
+++ b/client.go
@@ -46,6 +46,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 			continue
 		}
 
+		defer broker.Close()
 		return callback(broker)
 	}
 	return err
diff --git a/gen.broker.go b/gen.broker.go
index 82a61b9..d84e146 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,12 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From f9578d84995e98c0737f8c4ab1e0ec891000e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 14/23] fix: lookups succeed with an empty result when there
 are no bootstrap servers

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 1fab90c..1f6387c 100644
--- a/client.go
+++ b/client.go
@@ -16,12 +16,15 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
 )
 
+var errNoBootstrap = errors.New("no bootstrap servers")
+
 // Client provides a high level Kafka client
 type Client struct {
 	bootstrap []string
@@ -39,7 +42,7 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 // dialBootstrap dials one of the initial bootstrap servers
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 	var broker *Broker
-	var err error
+	var err = errNoBootstrap
 	for _, addr := range c.bootstrap {
 		broker, err = NewBroker(addr, c.opts...)
 		if err != nil {
-- 
2.43.0


From fdaf1ff34f7b623bcc8d5af6e372d553d4b705e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 15/23] fix: an error from FindCoordinator is ignored and its
 empty address dialed

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 1f6387c..8f983d1 100644
--- a/client.go
+++ b/client.go
@@ -80,6 +80,10 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
+	if resp.ErrorCode != 0 {
+		return nil, fmt.Errorf("unable to find coordinator, %v: error code %v", req.Key, resp.ErrorCode)
+	}
+
 	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
 	return NewBroker(addr, c.opts...)
 }
-- 
2.43.0


From ee89d31ca8e1c0dcc57f2489f7bceb76a11f56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 16/23] fix: brokers advertised with an IPv6 address cannot be
 dialed

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 8f983d1..49f49f3 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -59,7 +60,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
+			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
 			return NewBroker(addr, c.opts...)
 		}
 	}
@@ -84,7 +85,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, fmt.Errorf("unable to find coordinator, %v: error code %v", req.Key, resp.ErrorCode)
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
+	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
 
-- 
2.43.0


From 4dffb1f9966719e88a7fb704baccd151c6811ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 17/23] fix: an error from ApiVersions is ignored and version 0
 assumed for every api

---
 gen.broker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen.broker.go b/gen.broker.go
index d84e146..ad7c42a 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -49,6 +49,10 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
+	if resp.ErrorCode != 0 {
+		conn.Close()
+		return nil, fmt.Errorf("unable to create broker: error code %v", resp.ErrorCode)
+	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
 		conn.Close()
-- 
2.43.0


From 9e237453cdf6a95d685607e972e3ca6afa310758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 18/23] fix: record batches are not encoded as per the record
 batch format

The record count, header count, record length and offset delta were
missing or zero, Size disagreed with the bytes written, and a message
without headers panicked.
---
 gen.record_batch.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index dda4446..20b1918 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -97,8 +97,10 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int16 // ProducerEpoch
 	sz += sizeof.Int32 // BaseSequence
 
+	sz += sizeof.ArrayLength // Records
 	for _, msg := range r.Records {
-		sz += sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		sz += sizeof.VarInt(int64(length)) + length
 	}
 	return sz
 }
@@ -117,32 +119,37 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt16(r.ProducerEpoch)
 	encoder.PutInt32(r.BaseSequence)
 
+	encoder.PutArrayLength(len(r.Records))
 	for _, m := range r.Records {
-		encodeMessage(m, encoder, version, r.FirstTimestamp)
+		encodeMessage(m, encoder, version, r.BaseOffset, r.FirstTimestamp)
 	}
 }
 
 // encodeMessage as per https://kafka.apache.org/documentation/#record
-func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTimestamp int64) {
-	encoder.PutVarInt(int64(m.Size(version)))              // length
+func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
+	length := sizeofMessage(m, version, baseOffset, firstTimestamp)
+	encoder.PutVarInt(int64(length))                       // length
 	encoder.PutInt8(0)                                     // attributes
 	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(0)                                   // offsetDelta
+	encoder.PutVarInt(m.Offset - baseOffset)               // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
-	m.Header.Range(encoder.PutRecordHeader)
+	encoder.PutVarInt(countHeaders(m)) // headers
+	if m.Header != nil {
+		m.Header.Range(encoder.PutRecordHeader)
+	}
 }
 
+// sizeofMessage returns the size of the message excluding its leading length
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
 	sz += sizeof.Int8                                        // attributes
 	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
 	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarInt(int64(len(m.Key)))                   // keyLength
-	sz += sizeof.Bytes(m.Key)                                // key
-	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
-	sz += sizeof.Bytes(m.Value)                              // value
-	if version >= magic && m.Header != nil {
+	sz += sizeof.VarBytes(m.Key)                             // keyLength, key
+	sz += sizeof.VarBytes(m.Value)                           // valueLength, value
+	sz += sizeof.VarInt(countHeaders(m))                     // headers
+	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
 			sz += sizeof.VarString(value)
@@ -150,3 +157,11 @@ func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) i
 	}
 	return sz
 }
+
+func countHeaders(m Message) int64 {
+	var n int64
+	if m.Header != nil {
+		m.Header.Range(func(key, value string) { n++ })
+	}
+	return n
+}
-- 
2.43.0


From 706e1641293af372fd276d8f9c81c8453ed0fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 19/23] fix: encode record timestamp deltas in milliseconds

---
 gen.record_batch.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index 20b1918..49b3072 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -128,10 +128,10 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 // encodeMessage as per https://kafka.apache.org/documentation/#record
 func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
 	length := sizeofMessage(m, version, baseOffset, firstTimestamp)
-	encoder.PutVarInt(int64(length))                       // length
-	encoder.PutInt8(0)                                     // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(m.Offset - baseOffset)               // offsetDelta
+	encoder.PutVarInt(int64(length))                   // length
+	encoder.PutInt8(0)                                 // attributes
+	encoder.PutVarInt(timestampMs(m) - firstTimestamp) // timestampDelta
+	encoder.PutVarInt(m.Offset - baseOffset)           // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
 	encoder.PutVarInt(countHeaders(m)) // headers
@@ -143,12 +143,12 @@ func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffse
 // sizeofMessage returns the size of the message excluding its leading length
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
-	sz += sizeof.Int8                                        // attributes
-	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarBytes(m.Key)                             // keyLength, key
-	sz += sizeof.VarBytes(m.Value)                           // valueLength, value
-	sz += sizeof.VarInt(countHeaders(m))                     // headers
+	sz += sizeof.Int8                                    // attributes
+	sz += sizeof.VarInt(timestampMs(m) - firstTimestamp) // timestampDelta
+	sz += sizeof.VarInt(m.Offset - baseOffset)           // offsetDelta
+	sz += sizeof.VarBytes(m.Key)                         // keyLength, key
+	sz += sizeof.VarBytes(m.Value)                       // valueLength, value
+	sz += sizeof.VarInt(countHeaders(m))                 // headers
 	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
@@ -165,3 +165,8 @@ func countHeaders(m Message) int64 {
 	}
 	return n
 }
+
+// timestampMs returns the message timestamp in milliseconds since the epoch
+func timestampMs(m Message) int64 {
+	return m.Timestamp.Unix()*1000 + int64(m.Timestamp.Nanosecond()/1e6)
+}
-- 
2.43.0


From fcac91ad8b32644684c74c38c72f4500c6997834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 20/23] fix: Produce with acks=0 waits for a response that is
 never sent

---
 gen.broker.go | 12 ++++++++----
 gen.conn.go   |  7 ++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index ad7c42a..65702f8 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -71,6 +71,13 @@ func (b *Broker) Close() error {
 // Produce (apiKey: 0)
 func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, error) {
 	var resp message.ProduceResponse
+	// decode response
+	decode := func(d *message.Decoder) error {
+		return (&resp).Decode(d, b.apiVersion.Produce)
+	}
+	if req.Acks == 0 {
+		decode = nil // the broker does not respond
+	}
 	err := b.conn.Do(
 		// encode request
 		func(e *message.Encoder, correlationID int32) {
@@ -85,10 +92,7 @@ func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, e
 			hdr.Encode(e, 2)
 			req.Encode(e, b.apiVersion.Produce)
 		},
-		// decode response
-		func(d *message.Decoder) error {
-			return (&resp).Decode(d, b.apiVersion.Produce)
-		},
+		decode,
 	)
 	return resp, err
 }
diff --git a/gen.conn.go b/gen.conn.go
index 178be65..aced2e4 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -163,7 +163,7 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		delete(c.requests, resp.CorrelationId)
 		c.readLock.Unlock()
 
-		if ok {
+		if ok && req.decode != nil {
 			req.reply <- req.decode(d)
 		}
 	}
@@ -172,6 +172,8 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
+// Do sends a request and waits for the response.  If decode is nil, no response
+// is expected and Do returns once the request has been sent.
 func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	correlationID := atomic.AddInt32(&c.id, 1)
 	req := request{
@@ -197,6 +199,9 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	if err != nil {
 		return err
 	}
+	if decode == nil {
+		return nil
+	}
 
 	select {
 	case err := <-req.reply:
-- 
2.43.0


From 2b03491a3566d3ce71297996b386700693087989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:58 +0000
Subject: [PATCH 21/23] fix: OffsetCommit version 1 carries a commit timestamp

---
 message/messages.gen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/message/messages.gen.go b/message/messages.gen.go
index 9a4f3b4..e7ebf00 100644
--- a/message/messages.gen.go
+++ b/message/messages.gen.go
@@ -3441,6 +3441,7 @@ type OffsetCommitRequestPartition8 struct {
 	PartitionIndex       int32  // The partition index. Versions: 0-8
 	CommittedOffset      int64  // The message offset to be committed. Versions: 0-8
 	CommittedLeaderEpoch int32  // The leader epoch of this partition. Versions: 0-8
+	CommitTimestamp      int64  // The timestamp of the commit. Versions: 1
 	CommittedMetadata    string // Any associated metadata the client wants to keep. Versions: 0-8
 }
 
@@ -3452,6 +3453,9 @@ func (t OffsetCommitRequestPartition8) Size(version int16) int32 {
 	if version >= 6 {
 		sz += sizeof.Int32 // CommittedLeaderEpoch
 	}
+	if version == 1 {
+		sz += sizeof.Int64 // CommitTimestamp
+	}
 	sz += sizeof.String(t.CommittedMetadata) // CommittedMetadata
 	return sz
 }
@@ -3463,6 +3467,9 @@ func (t OffsetCommitRequestPartition8) Encode(e *Encoder, version int16) {
 	if version >= 6 {
 		e.PutInt32(t.CommittedLeaderEpoch) // CommittedLeaderEpoch
 	}
+	if version == 1 {
+		e.PutInt64(t.CommitTimestamp) // CommitTimestamp
+	}
 	e.PutString(t.CommittedMetadata) // CommittedMetadata
 }
 
@@ -3483,6 +3490,12 @@ func (t *OffsetCommitRequestPartition8) Decode(d *Decoder, version int16) error
 			return err
 		}
 	}
+	if version == 1 {
+		t.CommitTimestamp, err = d.Int64()
+		if err != nil {
+			return err
+		}
+	}
 	t.CommittedMetadata, err = d.String()
 	if err != nil {
 		return err
-- 
2.43.0


From eed5c371a04b2658c5a58aadebfd533088f616ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 22/23] fix: refuse byte arrays and arrays whose length does
 not fit their prefix

---
 message/encoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/message/encoder.go b/message/encoder.go
index c464fcf..10b795c 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -23,7 +23,10 @@ import (
 	"math"
 )
 
-var errStringTooLong = errors.New("string too long")
+var (
+	errArrayTooLong  = errors.New("array too long")
+	errStringTooLong = errors.New("string too long")
+)
 
 type flusher interface {
 	Flush() error
@@ -58,6 +61,9 @@ func (e *Encoder) Flush() error {
 
 // PutArrayLength encodes the array length (int32)
 func (e *Encoder) PutArrayLength(n int) {
+	if e.err == nil && n > math.MaxInt32 {
+		e.err = errArrayTooLong
+	}
 	e.PutInt32(int32(n))
 }
 
@@ -72,6 +78,9 @@ func (e *Encoder) PutBool(b bool) {
 
 // PutBool encodes a byte array
 func (e *Encoder) PutBytes(data []byte) {
+	if e.err == nil && len(data) > math.MaxInt32 {
+		e.err = errArrayTooLong
+	}
 	e.PutInt32(int32(len(data)))
 	if e.err == nil {
 		_, e.err = e.target.Write(data)
-- 
2.43.0


From e1cb396ffa11f581c46fde3de95939b4303f34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:47 +0000
Subject: [PATCH 23/23] fix: a failed request no longer returns while its
 response is being decoded

---
 gen.conn.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gen.conn.go b/gen.conn.go
index aced2e4..a572d91 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -197,6 +197,18 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		c.readLock.Lock()
+		_, pending := c.requests[correlationID]
+		delete(c.requests, correlationID)
+		c.readLock.Unlock()
+
+		if !pending && decode != nil {
+			// a response is being decoded; wait until nothing writes to it
+			select {
+			case <-req.reply:
+			case <-c.doneMessage:
+			}
+		}
 		return err
 	}
 	if decode == nil {
-- 
2.43.0

