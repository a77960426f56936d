From caa49808269ada15d0147e6dff16a1eda6dc6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 01/48] fix: reset the pooled request header before a binary
 increment or decrement

The header kept the CAS of the request that used it before, so the server
applied the counter operation conditionally.
---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..03c55eb 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1568,6 +1568,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From 07cc0126d559ba95601ade8f920bc4f368119485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 02/48] fix: read the whole body of binary replies

Set, Add, Touch, Flush, Version and GetMulti left the body of an error reply
(Touch: of every reply) unread, so the next operation took it for its header.
---
 client/server.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 03c55eb..54b73ad 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1299,6 +1299,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	var resErr error
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
@@ -1309,10 +1310,16 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 
 		if resHeader.Status != 0 {
+			// Read the remaining replies up to the one of Noop before returning the error.
+			if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+				return nil, err
+			}
 			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
+				resErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+			continue
 		}
 
 		buf := make([]byte, resHeader.TotalBodyLength)
@@ -1327,6 +1334,9 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		})
 	}
 
+	if resErr != nil {
+		return nil, resErr
+	}
 	return items, nil
 }
 
@@ -1366,6 +1376,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2: // key exists
@@ -1418,6 +1432,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2:
@@ -1652,6 +1670,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1693,6 +1714,9 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 	if resHeader.Opcode != binaryOpcodeFlush {
 		return errors.New("memcached: invalid response")
 	}
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+		return err
+	}
 
 	return nil
 }
@@ -1724,6 +1748,9 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 	}
 
 	if resHeader.Status != 0 {
+		if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
+			return "", err
+		}
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return "", fmt.Errorf("memcached: error %s", v)
 		}
-- 
2.43.0


From 266e5f1a6ce49aac60789d522752cbc18d28decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 03/48] fix: report the error status of a binary flush

---
 client/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/server.go b/client/server.go
index 54b73ad..8cfd71b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1718,6 +1718,13 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return err
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5e1a0cdb1b6ed65ced6ce0635066bbd0d6249142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 04/48] fix: return the CAS value of items read by GetMulti

The text and the binary protocol dropped it, so writing such an item back was
an unconditional store.
---
 client/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/server.go b/client/server.go
index 8cfd71b..ea95d49 100644
--- a/client/server.go
+++ b/client/server.go
@@ -326,6 +326,12 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			Key:   string(s[1]),
 			Flags: flags,
 		}
+		if len(s) > 4 {
+			item.Cas, err = strconv.ParseUint(strings.TrimSuffix(string(s[4]), "\r\n"), 10, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
 		}
@@ -1331,6 +1337,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
 
-- 
2.43.0


From a4664faec21a9e1980fcd5ae9770533f15e4225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 05/48] fix: accept flags and CAS values over the whole
 unsigned range in meta replies

---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index ea95d49..7a2c74a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -834,7 +834,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -842,11 +842,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
-- 
2.43.0


From 09fae1a2ceeaca77d5d634eaaa7502747a872fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 06/48] fix: report no expiration for a meta item that does not
 expire

The server says t-1. Storing the item again with an expiration of -1, as
ReplicaPool.Increment does for the secondary, made it expire immediately.
---
 client/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/server.go b/client/server.go
index 7a2c74a..0719568 100644
--- a/client/server.go
+++ b/client/server.go
@@ -852,6 +852,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		if err != nil {
 			return err
 		}
+		if in < 0 {
+			// -1 means that the item does not expire.
+			in = 0
+		}
 		item.Expiration = int(in)
 	case 'k':
 		item.Key = string(v)
-- 
2.43.0


From 4e781e8ecca1b61296273e47e455744653ffb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 07/48] fix: do not end a meta GetMulti at the first missing
 key

The reply for a missing key was taken for the end of all replies. Ask for
quiet misses, so that only the reply of mn ends them.
---
 client/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 0719568..629eb28 100644
--- a/client/server.go
+++ b/client/server.go
@@ -739,7 +739,7 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 
 	items := make([]*Item, 0)
 	for _, key := range keys {
-		if _, err := fmt.Fprintf(s.conn, "mg %s v f k c t\r\n", key); err != nil {
+		if _, err := fmt.Fprintf(s.conn, "mg %s v f k c t q\r\n", key); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 2cadfac09e090fd5c1d3c8b5c3b571ec7a5bfaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 08/48] fix: do not write behind the value of the caller's item
 in Set

append stored the line end in the spare capacity of the slice.
---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 629eb28..1e9376b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -479,7 +479,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -886,7 +889,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From 4e30bece5f4d6acb0e2271e815380a19e98c6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 09/48] fix: do not invalidate the item in a meta Touch

md with the I flag marks the item stale and changes its CAS value. mg with a T
token only updates the expiration.
---
 client/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 1e9376b..42ca7ba 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1070,7 +1070,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
-	if _, err := fmt.Fprintf(s.conn, "md %s I T%d\r\n", key, expiration); err != nil {
+	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -1085,6 +1085,8 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	switch {
 	case bytes.HasPrefix(b, msgMetaProtoDeleted):
 		return nil
+	case bytes.Equal(b, msgMetaProtoEnd):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
-- 
2.43.0


From b702a2ea79e3cd3704da16535596c14614549714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 10/48] fix: report error replies as errors

The text protocol took every unknown reply to delete and touch for success,
every one to add and replace for ItemExists and ItemNotFound (as did the meta
protocol), and every one to version for a version.
---
 client/server.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 42ca7ba..d64d1ef 100644
--- a/client/server.go
+++ b/client/server.go
@@ -32,6 +32,8 @@ var (
 	valueFormat        = "VALUE %s %d %d"
 )
 
+var msgTextProtoNotStored = []byte("NOT_STORED\r\n")
+
 var (
 	msgMetaProtoEnd       = []byte("EN\r\n")
 	msgMetaProtoNoop      = []byte("MN\r\n")
@@ -372,7 +374,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	}
-	return nil
+	return fmt.Errorf("memcached: failed delete: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -450,7 +452,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return merrors.ItemNotFound
 	}
 
-	return nil
+	return fmt.Errorf("memcached: failed touch: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
@@ -536,6 +538,9 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed add: %s", string(b))
+	}
 
 	return merrors.ItemExists
 }
@@ -573,6 +578,9 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
+	}
 
 	return merrors.ItemNotFound
 }
@@ -634,6 +642,9 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	if !bytes.HasPrefix(b, []byte("VERSION ")) {
+		return "", fmt.Errorf("memcached: failed version: %s", string(b))
+	}
 	if len(b) > 0 {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
@@ -947,6 +958,9 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed add: %s", string(b))
+	}
 
 	return merrors.ItemExists
 }
@@ -981,6 +995,9 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
+	}
 
 	return merrors.ItemNotFound
 }
@@ -1140,6 +1157,9 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if !bytes.HasPrefix(b, []byte("VERSION ")) {
+		return "", fmt.Errorf("memcached: failed version: %s", string(b))
+	}
 	if len(b) > 0 {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-- 
2.43.0


From d5d2c17e6d2195c273e2d1ac4c124dfbc7f4aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 11/48] fix: refuse keys that do not fit in one request

A key with a space or a line break put further words or whole commands into
the request, and an empty or a too long one left the connection out of step.
---
 client/server.go | 126 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 126 insertions(+)

diff --git a/client/server.go b/client/server.go
index d64d1ef..093d362 100644
--- a/client/server.go
+++ b/client/server.go
@@ -86,6 +86,30 @@ const (
 	ServerWriteOnly  ServerOperationType = "write_only"
 )
 
+const maxKeyLength = 250
+
+var errInvalidKey = errors.New("memcached: invalid key")
+
+// checkTextKey refuses a key that would not arrive as one token of one command line.
+func checkTextKey(key string) error {
+	if err := checkBinaryKey(key); err != nil {
+		return err
+	}
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' || key[i] == 0x7f {
+			return errInvalidKey
+		}
+	}
+	return nil
+}
+
+func checkBinaryKey(key string) error {
+	if len(key) == 0 || len(key) > maxKeyLength {
+		return errInvalidKey
+	}
+	return nil
+}
+
 type Server interface {
 	Name() string
 	Close() error
@@ -198,6 +222,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if err := checkTextKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -260,6 +288,12 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkTextKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -345,6 +379,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -386,6 +424,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkTextKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -422,6 +464,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -456,6 +502,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -506,6 +556,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -546,6 +600,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -719,6 +777,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if err := checkTextKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -743,6 +805,12 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkTextKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -879,6 +947,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -929,6 +1001,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -966,6 +1042,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1003,6 +1083,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1047,6 +1131,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkTextKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1079,6 +1167,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1248,6 +1340,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if err := checkBinaryKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1304,6 +1400,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkBinaryKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1380,6 +1482,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if err := checkBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1436,6 +1542,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if err := checkBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1492,6 +1602,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if err := checkBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1549,6 +1663,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if err := checkBinaryKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1611,6 +1729,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if err := checkBinaryKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1676,6 +1798,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if err := checkBinaryKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From 90e640539386538621f8c65e80a91ccac17f25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 12/48] fix: answer a text GetMulti without keys with no items

The server takes gets without a key for an error.
---
 client/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/server.go b/client/server.go
index 093d362..eaddea5 100644
--- a/client/server.go
+++ b/client/server.go
@@ -294,6 +294,10 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 	}
 
+	if len(keys) == 0 {
+		return []*Item{}, nil
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From 7969d627848f0dc6b837785b159395e67ad8e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 13/48] fix: do not panic on an item whose flags are shorter
 than four bytes

An empty slice, for one. The text protocol stores such an item without flags.
---
 client/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index eaddea5..51c6e89 100644
--- a/client/server.go
+++ b/client/server.go
@@ -969,7 +969,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1506,7 +1506,7 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1566,7 +1566,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1626,7 +1626,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
-- 
2.43.0


From 269cd72b24432ded18e233f28490c4883e7e1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 14/48] fix: close every server of a SinglePool even when
 closing one fails

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From c482373b1adc1368ebf59dc9e0af56bf116f61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 15/48] fix: pick the node whose hash the key has

The search stopped at that node but returned an unrelated one.
---
 client/ring.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..f7b7b02 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -61,6 +61,7 @@ Search:
 		t := r.nodes[idx].hash
 		switch {
 		case t == h:
+			upper = idx
 			break Search
 		case h < t:
 			upper = idx - 1
-- 
2.43.0


From a3ef07996e6a38df5875a444aca662697037c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 16/48] fix: do not compare the primary's CAS value on the
 secondary

A conditional Set succeeded on the primary and failed on the secondary.
---
 cluster/cluster.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..7ee9f54 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -53,12 +53,20 @@ func (p *ReplicaPool) GetMulti(keys ...string) ([]*client.Item, error) {
 	return result, nil
 }
 
+// replica returns what the secondary stores for item: its CAS value is one of
+// the primary and means nothing to the secondary.
+func replica(item *client.Item) *client.Item {
+	r := *item
+	r.Cas = 0
+	return &r
+}
+
 func (p *ReplicaPool) Set(item *client.Item) error {
 	if err := p.primary.Pick(item.Key).Set(item); err != nil {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(replica(item))
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +74,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(replica(item))
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +82,7 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(replica(item))
 }
 
 func (p *ReplicaPool) Delete(key string) error {
-- 
2.43.0


From a94f6fbd6ceabc25d340c47652884061d72b4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 17/48] fix: do not use a connection again after a failed read
 or write

After a timeout the late reply was taken for the reply of the next request.
Such a connection now only fails, until Reconnect.
---
 client/server.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/client/server.go b/client/server.go
index 51c6e89..abe6b03 100644
--- a/client/server.go
+++ b/client/server.go
@@ -142,6 +142,33 @@ func EnableAutoReconnect(opt *ServerOption) {
 	opt.EnableAutoReconnect = true
 }
 
+// stream is a connection that is of no use after the first failed read or write:
+// the reply of the request that failed can still arrive, and must not be taken
+// for the reply of a later one.
+type stream struct {
+	net.Conn
+
+	err error
+}
+
+func (s *stream) Read(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.Conn.Read(p)
+	s.err = err
+	return n, err
+}
+
+func (s *stream) Write(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.Conn.Write(p)
+	s.err = err
+	return n, err
+}
+
 type ServerWithTextProtocol struct {
 	name    string
 	Network string
@@ -163,6 +190,7 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 	if err != nil {
 		return nil, err
 	}
+	conn = &stream{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -216,6 +244,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	conn = &stream{Conn: conn}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -734,6 +763,7 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 	if err != nil {
 		return nil, err
 	}
+	conn = &stream{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -775,6 +805,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	conn = &stream{Conn: conn}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1291,6 +1322,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 	if err != nil {
 		return nil, err
 	}
+	conn = &stream{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -1338,6 +1370,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	conn = &stream{Conn: conn}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
-- 
2.43.0


From a6772e195e6f34af2423104b40cd6d1bcfb0149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 18/48] fix: let Reconnect succeed after one that failed

The connection was closed by then, so every later Reconnect failed to close it.
---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index abe6b03..61e36eb 100644
--- a/client/server.go
+++ b/client/server.go
@@ -234,7 +234,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
+		if err := s.raw.Close(); err != nil && !errors.Is(err, net.ErrClosed) {
 			return err
 		}
 	}
@@ -795,7 +795,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
+		if err := s.raw.Close(); err != nil && !errors.Is(err, net.ErrClosed) {
 			return err
 		}
 	}
@@ -1360,7 +1360,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
+		if err := s.raw.Close(); err != nil && !errors.Is(err, net.ErrClosed) {
 			return err
 		}
 	}
-- 
2.43.0


From 9b897d959276dab175f37399ea6c805f01d8814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 19/48] fix: make Close safe against operations and Reconnect

The text protocol set the connection to nil under a running operation, which
then panicked; a Reconnect that overlapped Close left a connection open; and
Close of the meta and binary protocol did not end the heartbeat.
---
 client/server.go | 55 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 61e36eb..9654f3f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -180,6 +180,8 @@ type ServerWithTextProtocol struct {
 	closeCh chan struct{}
 	raw     net.Conn
 	mu      sync.Mutex
+
+	closeMu sync.Mutex // protects raw and closeCh
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -218,12 +220,14 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
 	if s.closeCh == nil {
 		return errors.New("memcached: already closed")
 	}
 
 	err := s.raw.Close()
-	s.raw = nil
 	close(s.closeCh)
 	s.closeCh = nil
 	return err
@@ -245,6 +249,13 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		return err
 	}
 	conn = &stream{Conn: conn}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closeCh == nil {
+		conn.Close()
+		return errors.New("memcached: already closed")
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -753,6 +764,8 @@ type ServerWithMetaProtocol struct {
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 	mu      sync.Mutex
+
+	closeMu sync.Mutex // protects raw and closeCh
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -806,6 +819,13 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		return err
 	}
 	conn = &stream{Conn: conn}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closeCh == nil {
+		conn.Close()
+		return errors.New("memcached: already closed")
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1295,7 +1315,17 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-	return s.raw.Close()
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	err := s.raw.Close()
+	close(s.closeCh)
+	s.closeCh = nil
+	return err
 }
 
 type ServerWithBinaryProtocol struct {
@@ -1307,6 +1337,8 @@ type ServerWithBinaryProtocol struct {
 
 	closeCh chan struct{}
 	mu      sync.Mutex
+
+	closeMu sync.Mutex // protects raw and closeCh
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 
@@ -1371,6 +1403,13 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		return err
 	}
 	conn = &stream{Conn: conn}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closeCh == nil {
+		conn.Close()
+		return errors.New("memcached: already closed")
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1975,7 +2014,17 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
-	return s.raw.Close()
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	err := s.raw.Close()
+	close(s.closeCh)
+	s.closeCh = nil
+	return err
 }
 
 func (s *ServerWithBinaryProtocol) getReqHeader() *binaryRequestHeader {
-- 
2.43.0


From 385bb742217b93ddfcc86c78f7d74be54b7ed78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 20/48] fix: keep the heartbeat going

It checked the connection only once, and gave up after one failed Reconnect.
---
 client/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 9654f3f..4c96871 100644
--- a/client/server.go
+++ b/client/server.go
@@ -2119,7 +2119,8 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 }
 
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -2129,7 +2130,8 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			if err != nil {
 				if reconnect {
 					if err := s.Reconnect(); err != nil {
-						return
+						// Try again at the next tick.
+						continue
 					}
 				} else {
 					s.Close()
-- 
2.43.0


From 34cd252cf1f9d1316af0ab3834bb3d2231f8d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 21/48] fix: read text items whose key is not plain text

Scanning the reply with %s replaced bytes that are not UTF-8 and split the key
at Unicode spaces, which also left the connection out of step.
---
 client/server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/client/server.go b/client/server.go
index 4c96871..e06fc0c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -27,9 +27,6 @@ var (
 	msgTextProtoExists   = []byte("EXISTS\r\n")
 	msgTextProtoOk       = []byte("OK\r\n")
 	msgTextProtoEnd      = []byte("END\r\n")
-
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
 )
 
 var msgTextProtoNotStored = []byte("NOT_STORED\r\n")
@@ -294,20 +291,27 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if !bytes.HasPrefix(b, []byte("VALUE")) {
 		return nil, errors.New("memcached: invalid response")
 	}
-	item := &Item{Server: s.Name()}
-	size := 0
-	p := valueFormatWithCas
-	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
-	if bytes.Count(b, []byte(" ")) == 3 {
-		p = valueFormat
-		scan = scan[:3]
-	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
+	tokens := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+	if len(tokens) < 4 {
+		return nil, errors.New("memcached: invalid response")
+	}
+	item := &Item{Key: string(tokens[1]), Server: s.Name()}
+	flags, err := strconv.ParseUint(string(tokens[2]), 10, 32)
+	if err != nil {
+		return nil, err
+	}
+	size, err := strconv.Atoi(string(tokens[3]))
+	if err != nil {
 		return nil, err
 	}
+	if len(tokens) > 4 {
+		item.Cas, err = strconv.ParseUint(string(tokens[4]), 10, 64)
+		if err != nil {
+			return nil, err
+		}
+	}
 	f := make([]byte, 4)
-	binary.BigEndian.PutUint32(f, flags)
+	binary.BigEndian.PutUint32(f, uint32(flags))
 	item.Flags = f
 
 	buf := make([]byte, size+2)
-- 
2.43.0


From 42bc9f0f9632fce2e8ef7a5705153ac474e4e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 22/48] fix: return expirations over 30 days of meta items as a
 Unix time

The server counts them in remaining seconds, but reads such a number as a time
in 1970: storing the item again, as ReplicaPool.Increment does for the
secondary, made it expire.
---
 client/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/server.go b/client/server.go
index e06fc0c..602f4f4 100644
--- a/client/server.go
+++ b/client/server.go
@@ -85,6 +85,10 @@ const (
 
 const maxKeyLength = 250
 
+// maxRelativeExpiration is the longest expiration in seconds which the server
+// does not take for a Unix time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
 var errInvalidKey = errors.New("memcached: invalid key")
 
 // checkTextKey refuses a key that would not arrive as one token of one command line.
@@ -997,6 +1001,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 			// -1 means that the item does not expire.
 			in = 0
 		}
+		if in > maxRelativeExpiration {
+			// The server would take such a number for a point in time, so return that.
+			in += time.Now().Unix()
+		}
 		item.Expiration = int(in)
 	case 'k':
 		item.Key = string(v)
-- 
2.43.0


From 80c1fd86911cd1440025aba6464af47f1a05d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 23/48] fix: do not panic or allocate memory on announced
 lengths of malformed requests

---
 server/server.go | 85 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..10d091a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -118,7 +119,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	if err != nil {
 		return nil, err
 	}
-	s := strings.Split(strings.TrimSuffix(string(line), "\r\n"), " ")
+	s := strings.Split(strings.TrimSuffix(strings.TrimSuffix(string(line), "\n"), "\r"), " ")
 	if len(s) == 0 {
 		return nil, errors.New("server: invalid request")
 	}
@@ -150,11 +151,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf := make([]byte, bufLen+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readValue(bufLen)
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:bufLen]
 
 		opcode := OpcodeSet
 		switch s[0] {
@@ -234,6 +234,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		opt := &SetOpt{Meta: true, Size: int(v)}
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
+				if f == "" {
+					continue
+				}
 				switch f[0] {
 				case 'C':
 					opt.Cas = true
@@ -276,11 +279,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
-		buf := make([]byte, opt.Size+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readValue(int64(opt.Size))
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:opt.Size]
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
@@ -292,6 +294,33 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// readBody reads n bytes. Memory is taken as they arrive, not as they are announced.
+func (c *conn) readBody(n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("server: invalid request")
+	}
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, c.connBuf, n); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
+// readValue reads a data block of n bytes and its terminator.
+func (c *conn) readValue(n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("server: invalid request")
+	}
+	buf, err := c.readBody(n + int64(len(crlf)))
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.HasSuffix(buf, crlf) {
+		return nil, errors.New("server: invalid request")
+	}
+	return buf[:n:n], nil
+}
+
 func (c *conn) readBinaryRequest() (*Request, error) {
 	header := make([]byte, 24)
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
@@ -300,12 +329,31 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if header[0] != magicRequest {
 		return nil, errors.New("server: invalid request")
 	}
+	bodyBuf, err := c.readBody(int64(binary.BigEndian.Uint32(header[8:12])))
+	if err != nil {
+		return nil, err
+	}
+	body := bytes.NewReader(bodyBuf)
+	extraLength := 0
+	switch Opcode(header[1]) {
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		extraLength = 8
+	case OpcodeIncrement, OpcodeDecrement:
+		extraLength = 20
+	case OpcodeTouch:
+		extraLength = 4
+	case OpcodeFlush:
+		extraLength = int(header[4]) // The expiration is optional
+	}
+	if int(header[4]) != extraLength {
+		return nil, errors.New("server: invalid request")
+	}
 
 	switch Opcode(header[1]) {
 	case OpcodeGet:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
@@ -313,27 +361,30 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	case OpcodeGetKQ:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
 		return &Request{Opcode: OpcodeGet, Key: string(keyBuf), GetOpt: &GetOpt{NoReply: true, Key: true}}, nil
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
 		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+		if _, err := io.ReadFull(body, extra); err != nil {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
 		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
+		if int64(totalBodyLen) < int64(len(extra))+int64(KeyLength) {
+			return nil, errors.New("server: invalid request")
+		}
 		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		if _, err := io.ReadFull(body, buf); err != nil {
 			return nil, err
 		}
 
@@ -347,14 +398,14 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	case OpcodeDelete:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
 		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
 	case OpcodeIncrement, OpcodeDecrement:
 		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+		if _, err := io.ReadFull(body, extra); err != nil {
 			return nil, err
 		}
 		delta := binary.BigEndian.Uint64(extra[:8])
@@ -362,7 +413,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
@@ -374,14 +425,14 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		}, nil
 	case OpcodeTouch:
 		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+		if _, err := io.ReadFull(body, extra); err != nil {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[:4])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From ca78930c1b447bfba9d7652c0b584b0407ace4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 24/48] fix: accept flags and deltas over their whole range,
 and pass on the expiration of a text touch

---
 server/server.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 10d091a..bfd5688 100644
--- a/server/server.go
+++ b/server/server.go
@@ -136,7 +136,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -178,7 +178,15 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		if s[0] == "touch" {
+			expiration, err := strconv.ParseInt(s[2], 10, 32)
+			if err != nil {
+				return nil, err
+			}
+			return &Request{Opcode: OpcodeTouch, Key: s[1], Delta: expiration, SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		}
+		// The delta is an unsigned 64-bit number, as in the binary protocol.
+		d, err := strconv.ParseUint(s[2], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -186,10 +194,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		switch s[0] {
 		case "decr":
 			opcode = OpcodeDecrement
-		case "touch":
-			opcode = OpcodeTouch
 		}
-		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
+		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
@@ -246,7 +252,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
-- 
2.43.0


From 7ff15d485ce2c6dff4ef35aa7785fa94ba260a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 25/48] fix: answer requests which fail with an error instead
 of not at all

---
 server/BUILD.bazel |  1 +
 server/server.go   | 87 +++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/server/BUILD.bazel b/server/BUILD.bazel
index e173b6a..852f864 100644
--- a/server/BUILD.bazel
+++ b/server/BUILD.bazel
@@ -5,6 +5,7 @@ go_library(
     srcs = ["server.go"],
     importpath = "go.f110.dev/go-memcached/server",
     visibility = ["//visibility:public"],
+    deps = ["//errors:go_default_library"],
 )
 
 go_test(
diff --git a/server/server.go b/server/server.go
index bfd5688..3ff1d83 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -43,6 +45,12 @@ const (
 	OpcodeTouch Opcode = 0x1c
 )
 
+const (
+	binaryStatusKeyNotFound   uint16 = 0x01
+	binaryStatusKeyExists     uint16 = 0x02
+	binaryStatusInternalError uint16 = 0x84
+)
+
 var (
 	textProtoEnd     = []byte("END\r\n")
 	textProtoOk      = []byte("OK\r\n")
@@ -572,6 +580,13 @@ func (s *Server) serveRequest(req *Request, conn *conn) error {
 }
 
 func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error {
+	if len(res) == 0 && req.Opcode != OpcodeGet {
+		return errors.New("server: no response")
+	}
+	if err := failure(req, res); err != nil {
+		return s.writeError(conn, req, err)
+	}
+
 	switch conn.Protocol {
 	case ProtocolAscii:
 		return s.writeAsciiResponse(conn, req, res)
@@ -582,11 +597,63 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 	return nil
 }
 
+// failure returns the error which is the reply to req, or nil. A key which Get
+// does not find is none: its item is left out of the reply.
+func failure(req *Request, res []*Response) error {
+	for _, r := range res {
+		if r.Error != nil && !(req.Opcode == OpcodeGet && isStatus(r.Error, merrors.ItemNotFound)) {
+			return r.Error
+		}
+	}
+	return nil
+}
+
+func isStatus(err error, status *merrors.MemcachedError) bool {
+	var e *merrors.MemcachedError
+	return errors.As(err, &e) && e.Status == status.Status
+}
+
+func (s *Server) writeError(conn *conn, req *Request, err error) error {
+	notFound, exists := isStatus(err, merrors.ItemNotFound), isStatus(err, merrors.ItemExists)
+
+	if conn.Protocol == ProtocolBinary {
+		status, msg := binaryStatusInternalError, err.Error()
+		switch {
+		case notFound:
+			status, msg = binaryStatusKeyNotFound, "Not found"
+		case exists:
+			status, msg = binaryStatusKeyExists, "Data exists for key."
+		}
+		return (&Response{Value: []byte(msg)}).writeAsBinaryProtocolStatus(conn, req, status)
+	}
+
+	meta := req.SetOpt != nil && req.SetOpt.Meta || req.DelOpt != nil && req.DelOpt.Meta
+	msg := "SERVER_ERROR " + strings.NewReplacer("\r", " ", "\n", " ").Replace(err.Error())
+	switch {
+	case meta && notFound:
+		msg = "NF"
+	case meta && exists:
+		msg = "EX"
+	case (notFound || exists) && (req.Opcode == OpcodeSet || req.Opcode == OpcodeAdd || req.Opcode == OpcodeReplace):
+		msg = "NOT_STORED"
+	case notFound:
+		msg = "NOT_FOUND"
+	case exists:
+		msg = "EXISTS"
+	}
+	conn.connBuf.WriteString(msg)
+	conn.connBuf.Write(crlf)
+	return conn.connBuf.Flush()
+}
+
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
 		if req.GetOpt == nil {
 			for _, r := range res {
+				if r.Error != nil {
+					continue
+				}
 				if err := s.writeAsciiResponseGet(conn, r); err != nil {
 					return err
 				}
@@ -596,12 +663,17 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				return err
 			}
 		} else {
+			found := false
 			for _, r := range res {
+				if r.Error != nil {
+					continue
+				}
+				found = true
 				if err := s.writeAsciiResponseMetaGet(conn, req, r); err != nil {
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if !found && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -743,11 +815,19 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
+		found := false
 		for _, v := range res {
+			if v.Error != nil {
+				continue
+			}
+			found = true
 			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
 				return err
 			}
 		}
+		if !found && (req.GetOpt == nil || !req.GetOpt.NoReply) {
+			return s.writeError(conn, req, merrors.ItemNotFound)
+		}
 		if len(res) > 1 {
 			r := &Response{}
 			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop}); err != nil {
@@ -767,11 +847,16 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 }
 
 func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
+	return r.writeAsBinaryProtocolStatus(conn, req, 0)
+}
+
+func (r *Response) writeAsBinaryProtocolStatus(conn *conn, req *Request, status uint16) error {
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
+	binary.BigEndian.PutUint16(header[6:8], status)
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
 
 	conn.connBuf.Write(header)
-- 
2.43.0


From 810cc57b5b7d410e076940fc8270bb8201aee3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 26/48] fix: make the header of binary replies that of the
 request, and pass on its CAS value

---
 server/server.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 3ff1d83..2f362fa 100644
--- a/server/server.go
+++ b/server/server.go
@@ -74,6 +74,7 @@ type conn struct {
 
 	connBuf *bufio.ReadWriter
 	raw     net.Conn
+	header  [24]byte // of the binary request being served
 
 	closeOnce sync.Once
 }
@@ -343,6 +344,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if header[0] != magicRequest {
 		return nil, errors.New("server: invalid request")
 	}
+	copy(c.header[:], header)
 	bodyBuf, err := c.readBody(int64(binary.BigEndian.Uint32(header[8:12])))
 	if err != nil {
 		return nil, err
@@ -386,6 +388,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
+		cas := binary.BigEndian.Uint64(header[16:24])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
@@ -406,7 +409,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), Cas: cas != 0, CasValue: cas},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
@@ -749,7 +752,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 
 func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) >= 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -773,7 +776,7 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 }
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) >= 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -821,7 +824,15 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 				continue
 			}
 			found = true
-			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
+			item := *v
+			item.Flags = make([]byte, 4)
+			if len(v.Flags) >= 4 {
+				copy(item.Flags, v.Flags)
+			}
+			if Opcode(conn.header[1]) == OpcodeGet {
+				item.Key = "" // Only GetKQ has it
+			}
+			if err := item.writeAsBinaryProtocol(conn, req); err != nil {
 				return err
 			}
 		}
@@ -854,6 +865,11 @@ func (r *Response) writeAsBinaryProtocolStatus(conn *conn, req *Request, status
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
+	if req.Opcode == OpcodeGet {
+		header[1] = conn.header[1] // Get or GetKQ
+	}
+	copy(header[12:16], conn.header[12:16])
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint16(header[6:8], status)
-- 
2.43.0


From 9be04c3c3b41eecd71e15a97abac68443c8c96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 27/48] fix: answer a meta get with the flags of its request in
 the format of memcached 1.6

---
 server/server.go | 66 ++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f362fa..fddf103 100644
--- a/server/server.go
+++ b/server/server.go
@@ -209,9 +209,12 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], " ")}
+		for _, token := range s[2:] {
+			for i, f := range token {
+				if i > 0 && metaFlagHasToken(token[0]) {
+					break
+				}
 				switch f {
 				case 'c':
 					opt.Cas = true
@@ -774,32 +777,45 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 
 	return nil
 }
+
+// metaFlagHasToken reports whether the rest of a word which begins with f is
+// the token of that flag, and not further flags.
+func metaFlagHasToken(f byte) bool {
+	return 'A' <= f && f <= 'Z'
+}
+
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) >= 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
-	if err != nil {
+	status := "HD"
+	if req.GetOpt.Value {
+		status = fmt.Sprintf("VA %d", len(r.Value))
+	}
+	if _, err := conn.connBuf.WriteString(status); err != nil {
 		return err
 	}
-	for _, v := range req.GetOpt.RequestFlag {
-		switch v {
-		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
-		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
-		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
-		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
-		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+	for _, token := range strings.Fields(req.GetOpt.RequestFlag) {
+		for i, v := range token {
+			if metaFlagHasToken(token[0]) {
+				if i == 0 && v == 'O' {
+					conn.connBuf.WriteString(" " + token)
+				}
+				continue
+			}
+			switch v {
+			case 'c':
+				conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
+			case 'f':
+				conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
+			case 'k':
+				conn.connBuf.WriteString(" k" + req.Key)
+			case 's':
+				conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
+			case 't':
+				conn.connBuf.WriteString(" t" + strconv.FormatInt(r.TTL, 10))
+			}
 		}
 	}
 	conn.connBuf.Write(crlf)
@@ -807,9 +823,9 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From d5b72ed966492b7bb81c097284b95b63a68c5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 28/48] fix: answer gets with CAS values, mn with MN, and a
 quiet meta set with nothing

---
 server/server.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index fddf103..bdcd698 100644
--- a/server/server.go
+++ b/server/server.go
@@ -63,6 +63,7 @@ var (
 	metaProtoEnd     = []byte("EN\r\n")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
+	metaProtoNoop    = []byte("MN\r\n")
 )
 
 var crlf = []byte("\r\n")
@@ -303,6 +304,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
+	case "mn":
+		return &Request{Opcode: OpcodeNoop}, nil
 	case "flush_all":
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
@@ -660,7 +663,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				if r.Error != nil {
 					continue
 				}
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -689,6 +692,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
 		if res[0].Error == nil {
 			if req.SetOpt.Meta {
+				if req.SetOpt.NoReply {
+					return nil
+				}
 				conn.connBuf.Write(metaProtoStored)
 				conn.connBuf.Write(crlf)
 				if err := conn.connBuf.Flush(); err != nil {
@@ -746,6 +752,13 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				return err
 			}
 		}
+	case OpcodeNoop:
+		if res[0].Error == nil {
+			conn.connBuf.Write(metaProtoNoop)
+			if err := conn.connBuf.Flush(); err != nil {
+				return err
+			}
+		}
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
@@ -753,16 +766,21 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) >= 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
+	cas := ""
+	if req.Keys != nil { // gets
+		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
+	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d%s\r\n",
 			r.Key,
 			flag,
 			len(r.Value),
+			cas,
 		),
 	)
 	if err != nil {
-- 
2.43.0


From f84aa68c917eafa5f9d7a9f5aeb7db2aa01cdea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 29/48] fix: read several keys, flags, CAS values and
 expirations through the proxy

---
 proxy/replica_pool.go | 48 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..a1c2ad5 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,7 +1,9 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
+	"time"
 
 	"go.f110.dev/go-memcached/client"
 	"go.f110.dev/go-memcached/cluster"
@@ -9,6 +11,9 @@ import (
 	"go.f110.dev/go-memcached/server"
 )
 
+// maxRelativeExpiration is the longest expiration in seconds which is not a Unix time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
 type ReplicaProxy struct {
 	pool *cluster.ReplicaPool
 }
@@ -20,6 +25,9 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if req.Keys != nil {
+			return p.getMulti(req)
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -27,12 +35,19 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{newResponse(res)}, nil
+	case server.OpcodeNoop:
+		return []*server.Response{{}}, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if flags == nil && req.SetOpt.Flag != 0 {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
@@ -47,3 +62,32 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		return nil, errors.New("proxy: unknown opcode")
 	}
 }
+
+func (p *ReplicaProxy) getMulti(req *server.Request) ([]*server.Response, error) {
+	items, err := p.pool.GetMulti(req.Keys...)
+	if err != nil {
+		return nil, err
+	}
+	res := make([]*server.Response, len(items))
+	for i, item := range items {
+		res[i] = newResponse(item)
+	}
+	return res, nil
+}
+
+func newResponse(item *client.Item) *server.Response {
+	ttl := int64(item.Expiration)
+	switch {
+	case ttl == 0:
+		ttl = -1 // Does not expire
+	case ttl > maxRelativeExpiration:
+		ttl -= time.Now().Unix()
+	}
+	return &server.Response{
+		Key:   item.Key,
+		Value: item.Value,
+		Flags: item.Flags,
+		Cas:   int64(item.Cas),
+		TTL:   ttl,
+	}
+}
-- 
2.43.0


From 2e81f8646730ab52fde14c01855f1335abd1af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 30/48] fix: do not take a meta add or replace for a set

---
 server/server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index bdcd698..ef9023d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -251,6 +251,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 		opt := &SetOpt{Meta: true, Size: int(v)}
+		opcode := OpcodeSet
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
 				if f == "" {
@@ -274,6 +275,17 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.Invalidate = true
 				case 'k':
 					opt.Key = true
+				case 'M':
+					switch f[1:] {
+					case "E", "e":
+						opcode = OpcodeAdd
+					case "R", "r":
+						opcode = OpcodeReplace
+					case "S", "s":
+						opcode = OpcodeSet
+					default:
+						return nil, errors.New("server: invalid request")
+					}
 				case 'O':
 					v, err := strconv.ParseInt(f[1:], 10, 64)
 					if err != nil {
@@ -303,7 +315,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 
-		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
+		return &Request{Opcode: opcode, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "mn":
 		return &Request{Opcode: OpcodeNoop}, nil
 	case "flush_all":
@@ -639,6 +651,8 @@ func (s *Server) writeError(conn *conn, req *Request, err error) error {
 	meta := req.SetOpt != nil && req.SetOpt.Meta || req.DelOpt != nil && req.DelOpt.Meta
 	msg := "SERVER_ERROR " + strings.NewReplacer("\r", " ", "\n", " ").Replace(err.Error())
 	switch {
+	case meta && (notFound || exists) && (req.Opcode == OpcodeAdd || req.Opcode == OpcodeReplace):
+		msg = "NS"
 	case meta && notFound:
 		msg = "NF"
 	case meta && exists:
-- 
2.43.0


From b7cbdb3a45951116cf79bcc7c2644bfdeb0e095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 31/48] fix: read every reply of a meta GetMulti in which a key
 fails

---
 client/server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 602f4f4..d87dbf1 100644
--- a/client/server.go
+++ b/client/server.go
@@ -89,6 +89,8 @@ const maxKeyLength = 250
 // does not take for a Unix time.
 const maxRelativeExpiration = 60 * 60 * 24 * 30
 
+var errInvalidGetResponse = errors.New("memcached: invalid get response")
+
 var errInvalidKey = errors.New("memcached: invalid key")
 
 // checkTextKey refuses a key that would not arrive as one token of one command line.
@@ -893,6 +895,7 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	failures := 0
 MultiRead:
 	for {
 		item, err := s.parseGetResponse(s.conn)
@@ -900,6 +903,13 @@ MultiRead:
 			switch err {
 			case merrors.ItemNotFound:
 				break MultiRead
+			case errInvalidGetResponse:
+				// Read the replies of the other keys and of mn before returning the error.
+				failures++
+				if failures <= len(keys) {
+					continue
+				}
+				return nil, err
 			default:
 				return nil, err
 			}
@@ -907,6 +917,9 @@ MultiRead:
 		items = append(items, item)
 	}
 
+	if failures > 0 {
+		return nil, errInvalidGetResponse
+	}
 	return items, nil
 }
 
@@ -922,7 +935,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, merrors.ItemNotFound
 	}
 	if !bytes.HasPrefix(b, []byte("VA")) {
-		return nil, errors.New("memcached: invalid get response")
+		return nil, errInvalidGetResponse
 	}
 
 	item := &Item{}
-- 
2.43.0


From 1b9613dbc5ce8db334ff729052cc02bef329a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 32/48] fix: refuse meta get flags which change the item
 instead of acknowledging them

---
 server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server.go b/server/server.go
index ef9023d..9f823c9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -217,6 +217,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					break
 				}
 				switch f {
+				case 'N', 'R', 'T':
+					// These change the item. The handler would not be told of them.
+					return nil, errors.New("server: unsupported flag")
 				case 'c':
 					opt.Cas = true
 				case 'f':
-- 
2.43.0


From 7114e50f6abdc0b8b091be0dcd9572ee44d40f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 33/48] fix: let appending to the flags of a binary item not
 overwrite its value

---
 client/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index d87dbf1..d877a49 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1495,7 +1495,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	return &Item{
 		Key:   key,
 		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
-		Flags: buf[:resHeader.ExtraLength],
+		Flags: buf[:resHeader.ExtraLength:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
 }
@@ -1571,7 +1571,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
-			Flags: buf[:resHeader.ExtraLength],
+			Flags: buf[:resHeader.ExtraLength:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
 	}
-- 
2.43.0


From fd98699ff432c8837bf0f41f49b414fb8904e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 34/48] fix: do not panic or allocate memory on malformed
 replies

---
 client/server.go | 85 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/client/server.go b/client/server.go
index d877a49..ea458f6 100644
--- a/client/server.go
+++ b/client/server.go
@@ -320,11 +320,10 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	binary.BigEndian.PutUint32(f, uint32(flags))
 	item.Flags = f
 
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	item.Value, err = readValue(s.conn, int64(size))
+	if err != nil {
 		return nil, err
 	}
-	item.Value = buf[:size]
 
 	b, err = s.conn.ReadSlice('\n')
 	if err != nil {
@@ -390,7 +389,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			break
 		}
 		s := bytes.Split(b, []byte(" "))
-		if !bytes.Equal(s[0], []byte("VALUE")) {
+		if !bytes.Equal(s[0], []byte("VALUE")) || len(s) < 4 {
 			return nil, errors.New("memcached: invalid response")
 		}
 
@@ -403,7 +402,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 
 		var size int
 		if len(s) == 4 {
-			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
+			size, err = strconv.Atoi(strings.TrimSuffix(string(s[3]), "\r\n"))
 		} else {
 			size, err = strconv.Atoi(string(s[3]))
 		}
@@ -411,7 +410,6 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			return nil, err
 		}
 
-		buf := make([]byte, size+2)
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
@@ -422,10 +420,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 				return nil, err
 			}
 		}
-		if _, err := io.ReadFull(r, buf); err != nil {
+		item.Value, err = readValue(r, int64(size))
+		if err != nil {
 			return nil, err
 		}
-		item.Value = buf[:size]
 		res = append(res, item)
 	}
 
@@ -509,7 +507,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -725,7 +723,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -980,11 +978,10 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		}
 	}
 
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(conn, buf); err != nil {
+	item.Value, err = readValue(conn, int64(size))
+	if err != nil {
 		return nil, err
 	}
-	item.Value = buf[:size]
 
 	return item, nil
 }
@@ -1238,7 +1235,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -1305,7 +1302,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -1475,8 +1472,8 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 		return nil, err
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	buf, err := readBody(s.conn, int64(resHeader.TotalBodyLength))
+	if err != nil {
 		return nil, err
 	}
 
@@ -1494,7 +1491,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 		Flags: buf[:resHeader.ExtraLength:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1563,14 +1560,14 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			continue
 		}
 
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
+		buf, err := readBody(s.conn, int64(resHeader.TotalBodyLength))
+		if err != nil {
 			return nil, err
 		}
 
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
+			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
@@ -1742,8 +1739,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
 		return err
 	}
 
@@ -1800,8 +1796,7 @@ func (s *ServerWithBinaryProtocol) Delete(key string) error {
 		return errors.New("memcached: invalid response")
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := io.CopyN(io.Discard, s.conn, int64(resHeader.TotalBodyLength)); err != nil {
 		return err
 	}
 
@@ -1876,8 +1871,8 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 
 	var body []byte
 	if resHeader.TotalBodyLength > 0 {
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
+		buf, err := readBody(s.conn, int64(resHeader.TotalBodyLength))
+		if err != nil {
 			return 0, err
 		}
 		body = buf
@@ -1895,6 +1890,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
+	if len(body) < 8 {
+		return 0, errors.New("memcached: invalid response")
+	}
 	return int64(binary.BigEndian.Uint64(body)), nil
 }
 
@@ -2030,8 +2028,8 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	buf, err := readBody(s.conn, int64(resHeader.TotalBodyLength))
+	if err != nil {
 		return "", err
 	}
 
@@ -2139,10 +2137,37 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	h.TotalBodyLength = binary.BigEndian.Uint32(h.buf[8:12])
 	h.Opaque = binary.BigEndian.Uint32(h.buf[12:16])
 	h.CAS = binary.BigEndian.Uint64(h.buf[16:24])
+	if uint32(h.ExtraLength)+uint32(h.KeyLength) > h.TotalBodyLength {
+		return errors.New("memcached: invalid response")
+	}
 
 	return nil
 }
 
+// readBody reads n bytes. Memory is taken as they arrive, not as they are announced.
+func readBody(r io.Reader, n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("memcached: invalid response")
+	}
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, r, n); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
+// readValue reads a data block of n bytes and its terminator.
+func readValue(r io.Reader, n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("memcached: invalid response")
+	}
+	buf, err := readBody(r, n+int64(len(crlf)))
+	if err != nil {
+		return nil, err
+	}
+	return buf[:n], nil
+}
+
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
 	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
-- 
2.43.0


From c8fbb1a528f38546f4584ac9776b39bb92786137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 35/48] fix: return the opaque and the key in every reply to a
 meta request

---
 server/server.go | 54 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/server/server.go b/server/server.go
index 9f823c9..bea6200 100644
--- a/server/server.go
+++ b/server/server.go
@@ -60,7 +60,7 @@ var (
 )
 
 var (
-	metaProtoEnd     = []byte("EN\r\n")
+	metaProtoEnd     = []byte("EN")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
 	metaProtoNoop    = []byte("MN\r\n")
@@ -253,7 +253,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
-		opt := &SetOpt{Meta: true, Size: int(v)}
+		opt := &SetOpt{Meta: true, RequestFlag: strings.Join(tokens, " "), Size: int(v)}
 		opcode := OpcodeSet
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
@@ -290,11 +290,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, errors.New("server: invalid request")
 					}
 				case 'O':
-					v, err := strconv.ParseInt(f[1:], 10, 64)
-					if err != nil {
-						return nil, err
+					// The token need not be a number. It is returned from RequestFlag.
+					if v, err := strconv.ParseInt(f[1:], 10, 64); err == nil {
+						opt.Opaque = v
 					}
-					opt.Opaque = v
 				case 'q':
 					opt.NoReply = true
 				case 'S':
@@ -526,16 +525,17 @@ type GetOpt struct {
 }
 
 type SetOpt struct {
-	Meta       bool
-	Cas        bool
-	CasValue   uint64
-	Flag       int32
-	Invalidate bool
-	Key        bool
-	Opaque     int64
-	NoReply    bool
-	Size       int
-	Expiration int
+	Meta        bool
+	RequestFlag string
+	Cas         bool
+	CasValue    uint64
+	Flag        int32
+	Invalidate  bool
+	Key         bool
+	Opaque      int64
+	NoReply     bool
+	Size        int
+	Expiration  int
 }
 
 type DelOpt struct {
@@ -667,6 +667,9 @@ func (s *Server) writeError(conn *conn, req *Request, err error) error {
 	case exists:
 		msg = "EXISTS"
 	}
+	if req.SetOpt != nil && req.SetOpt.Meta && (notFound || exists) {
+		msg += metaReturnFlags(req.SetOpt.RequestFlag, req.Key)
+	}
 	conn.connBuf.WriteString(msg)
 	conn.connBuf.Write(crlf)
 	return conn.connBuf.Flush()
@@ -701,6 +704,8 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 			if !found && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
+				conn.connBuf.WriteString(metaReturnFlags(req.GetOpt.RequestFlag, req.Key))
+				conn.connBuf.Write(crlf)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
@@ -713,6 +718,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 					return nil
 				}
 				conn.connBuf.Write(metaProtoStored)
+				conn.connBuf.WriteString(metaReturnFlags(req.SetOpt.RequestFlag, req.Key))
 				conn.connBuf.Write(crlf)
 				if err := conn.connBuf.Flush(); err != nil {
 					return err
@@ -819,6 +825,22 @@ func metaFlagHasToken(f byte) bool {
 	return 'A' <= f && f <= 'Z'
 }
 
+// metaReturnFlags returns what every reply to a meta request has of its flags:
+// the opaque and the key.
+func metaReturnFlags(requestFlag, key string) string {
+	ret := ""
+	for _, token := range strings.Fields(requestFlag) {
+		switch {
+		case token[0] == 'O':
+			ret += " " + token
+		case metaFlagHasToken(token[0]):
+		case strings.ContainsRune(token, 'k'):
+			ret += " k" + key
+		}
+	}
+	return ret
+}
+
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) >= 4 {
-- 
2.43.0


From a53b373bea7826025e72f573bdebfe61b610fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 36/48] fix: connect to servers whose host is an IPv6 address

---
 cmd/router/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/router/main.go b/cmd/router/main.go
index ff31491..ecb7f9d 100644
--- a/cmd/router/main.go
+++ b/cmd/router/main.go
@@ -3,9 +3,11 @@ package main
 import (
 	"context"
 	"flag"
-	"fmt"
 	"io/ioutil"
 	"log"
+	"net"
+	"strconv"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 
@@ -29,7 +31,9 @@ type Config struct {
 func connectServers(servers []Server) []*client.ServerWithMetaProtocol {
 	res := make([]*client.ServerWithMetaProtocol, len(servers))
 	for i := range servers {
-		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", fmt.Sprintf("%s:%d", servers[i].Host, servers[i].Port))
+		// The host may be an IPv6 address, with or without brackets.
+		host := strings.TrimSuffix(strings.TrimPrefix(servers[i].Host, "["), "]")
+		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", net.JoinHostPort(host, strconv.Itoa(servers[i].Port)))
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From 7711335a5de8d45374bbda479282da32cde04964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 37/48] fix: do not start the router without primary or
 secondary servers

---
 cmd/router/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/router/main.go b/cmd/router/main.go
index ecb7f9d..3443302 100644
--- a/cmd/router/main.go
+++ b/cmd/router/main.go
@@ -56,6 +56,10 @@ func main() {
 	if err := yaml.Unmarshal(b, conf); err != nil {
 		panic(err)
 	}
+	if len(conf.Primary) == 0 || len(conf.Secondary) == 0 {
+		// There would be no server to pick for a key.
+		panic("router: the configuration has no primary or no secondary servers")
+	}
 
 	pool := cluster.NewReplicaPool(connectServers(conf.Primary), connectServers(conf.Secondary))
 	handler := proxy.NewReplicaProxy(pool)
-- 
2.43.0


From 8ade538779bc4179588378234063d99c96feb4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 38/48] fix: keep serving when Accept fails temporarily

---
 server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/server.go b/server/server.go
index bea6200..18ea042 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 
 	merrors "go.f110.dev/go-memcached/errors"
 )
@@ -66,6 +67,9 @@ var (
 	metaProtoNoop    = []byte("MN\r\n")
 )
 
+// acceptRetryInterval is how long Serve waits after a temporary failure of Accept.
+const acceptRetryInterval = 10 * time.Millisecond
+
 var crlf = []byte("\r\n")
 
 type Protocol string
@@ -567,6 +571,11 @@ func (s *Server) Serve(l net.Listener) error {
 	for {
 		conn, err := l.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// Out of file descriptors, for example. Keep serving the other connections.
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From 9254a4f53884599b554a683329e211fd5019f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 39/48] fix: do not deadlock with the server in a GetMulti of
 many keys

---
 client/server.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/client/server.go b/client/server.go
index ea458f6..16f2f9a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -85,6 +85,10 @@ const (
 
 const maxKeyLength = 250
 
+// maxBatchKeys is how many keys GetMulti requests before it reads the replies.
+// With more, client and server could both wait for the other to read.
+const maxBatchKeys = 100
+
 // maxRelativeExpiration is the longest expiration in seconds which the server
 // does not take for a Unix time.
 const maxRelativeExpiration = 60 * 60 * 24 * 30
@@ -882,6 +886,10 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	return inBatches(keys, s.getBatch)
+}
+
+func (s *ServerWithMetaProtocol) getBatch(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0)
 	for _, key := range keys {
 		if _, err := fmt.Fprintf(s.conn, "mg %s v f k c t q\r\n", key); err != nil {
@@ -1512,6 +1520,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	return inBatches(keys, s.getBatch)
+}
+
+func (s *ServerWithBinaryProtocol) getBatch(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0, len(keys))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	for _, key := range keys {
@@ -2144,6 +2156,25 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	return nil
 }
 
+// inBatches calls get with at most maxBatchKeys of the keys at once.
+func inBatches(keys []string, get func(keys []string) ([]*Item, error)) ([]*Item, error) {
+	items := make([]*Item, 0, len(keys))
+	for {
+		n := len(keys)
+		if n > maxBatchKeys {
+			n = maxBatchKeys
+		}
+		batch, err := get(keys[:n])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, batch...)
+		if keys = keys[n:]; len(keys) == 0 {
+			return items, nil
+		}
+	}
+}
+
 // readBody reads n bytes. Memory is taken as they arrive, not as they are announced.
 func readBody(r io.Reader, n int64) ([]byte, error) {
 	if n < 0 {
-- 
2.43.0


From b2937561ac01a7981eb0b99af8909fb8398df094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 40/48] fix: place keys alike in every order of servers that
 share a ring point

---
 client/ring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/ring.go b/client/ring.go
index f7b7b02..a566204 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,6 +35,9 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].hash == nodes[j].hash {
+			return nodes[i].Server.Name() < nodes[j].Server.Name()
+		}
 		return nodes[i].hash < nodes[j].hash
 	})
 
@@ -72,6 +75,10 @@ Search:
 	if upper < 0 {
 		upper = 0
 	}
+	// Of several nodes at the same point, the last one is the owner.
+	for upper+1 < len(r.nodes) && r.nodes[upper+1].hash == r.nodes[upper].hash {
+		upper++
+	}
 
 	return r.nodes[upper].Server
 }
-- 
2.43.0


From ba792b071081f23bc2a30531f406646e29901454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 41/48] fix: refuse meta requests with flags that are not
 implemented

---
 proxy/replica_pool.go |  6 ++++++
 server/server.go      | 11 ++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index a1c2ad5..e5d0e0b 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -28,6 +28,9 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		if req.Keys != nil {
 			return p.getMulti(req)
 		}
+		if o := req.GetOpt; o != nil && (o.Hit || o.LastAccess) {
+			return nil, errors.New("proxy: unsupported flag")
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -39,6 +42,9 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 	case server.OpcodeNoop:
 		return []*server.Response{{}}, nil
 	case server.OpcodeSet:
+		if req.SetOpt.Invalidate {
+			return nil, errors.New("proxy: unsupported flag")
+		}
 		flags := req.Flags
 		if flags == nil && req.SetOpt.Flag != 0 {
 			flags = make([]byte, 4)
diff --git a/server/server.go b/server/server.go
index 18ea042..915d97b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -221,9 +221,6 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					break
 				}
 				switch f {
-				case 'N', 'R', 'T':
-					// These change the item. The handler would not be told of them.
-					return nil, errors.New("server: unsupported flag")
 				case 'c':
 					opt.Cas = true
 				case 'f':
@@ -244,6 +241,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.TTL = true
 				case 'v':
 					opt.Value = true
+				case 'O':
+					// It is returned from RequestFlag.
+				default:
+					// Some change the item, or what the key means. The handler would not be told of them.
+					return nil, errors.New("server: unsupported flag")
 				}
 			}
 		}
@@ -312,6 +314,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, err
 					}
 					opt.Expiration = int(v)
+				default:
+					// The handler would not be told of it.
+					return nil, errors.New("server: unsupported flag")
 				}
 			}
 		}
-- 
2.43.0


From ad35c5dac2d2bfce8822881715f50961135809d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 42/48] fix: report a missing item as ItemNotFound in Set,
 Touch and Increment

---
 client/server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/server.go b/client/server.go
index 16f2f9a..5e8d474 100644
--- a/client/server.go
+++ b/client/server.go
@@ -606,6 +606,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return nil
 	case bytes.Equal(buf, msgTextProtoExists):
 		return merrors.ItemExists
+	case bytes.Equal(buf, msgTextProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return fmt.Errorf("memcached: failed set: %s", string(buf))
 	}
@@ -1637,6 +1639,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
 		case 2: // key exists
 			return merrors.ItemExists
 		default:
@@ -1891,6 +1895,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	}
 
 	if resHeader.Status != 0 {
+		if resHeader.Status == 1 { // key not found
+			return 0, merrors.ItemNotFound
+		}
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			additional := ""
 			if len(body) > 0 {
@@ -1951,6 +1958,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	}
 
 	if resHeader.Status != 0 {
+		if resHeader.Status == 1 { // key not found
+			return merrors.ItemNotFound
+		}
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
 		} else {
-- 
2.43.0


From 6acf57aa2a0159243a29c475c5d88f795b9843a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 43/48] fix: answer a request that fails in the handler and
 keep the connection

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 915d97b..be93046 100644
--- a/server/server.go
+++ b/server/server.go
@@ -611,7 +611,7 @@ func (s *Server) serve(conn *conn) error {
 func (s *Server) serveRequest(req *Request, conn *conn) error {
 	res, err := s.Handler.ServeRequest(req)
 	if err != nil {
-		return err
+		return s.writeError(conn, req, err)
 	}
 
 	return s.writeResponse(conn, req, res)
-- 
2.43.0


From 5bf13840335be5b46121c2475f192a167c66a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 44/48] fix: answer a text get of several keys

---
 server/server.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index be93046..8aec549 100644
--- a/server/server.go
+++ b/server/server.go
@@ -81,6 +81,8 @@ type conn struct {
 	raw     net.Conn
 	header  [24]byte // of the binary request being served
 
+	withoutCas bool // the text request being served is get, not gets
+
 	closeOnce sync.Once
 }
 
@@ -140,11 +142,16 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 	switch s[0] {
 	case "get":
-		if len(s) != 2 {
+		switch len(s) {
+		case 1:
 			return nil, errors.New("server: invalid request")
+		case 2:
+			return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 		}
-		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
+		c.withoutCas = true
+		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
 	case "gets":
+		c.withoutCas = false
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
@@ -809,7 +816,7 @@ func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) er
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	cas := ""
-	if req.Keys != nil { // gets
+	if req.Keys != nil && !conn.withoutCas { // gets
 		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
 	}
 	_, err := conn.connBuf.WriteString(
-- 
2.43.0


From 76661ba572fbfa7234b7ae892c339a2da00b3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 45/48] fix: refuse conditional deletes and delayed flushes the
 handler is not told of

---
 server/server.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/server/server.go b/server/server.go
index 8aec549..ceb32e0 100644
--- a/server/server.go
+++ b/server/server.go
@@ -337,6 +337,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	case "mn":
 		return &Request{Opcode: OpcodeNoop}, nil
 	case "flush_all":
+		if len(s) > 2 || len(s) == 2 && s[1] != "0" {
+			// The handler would not be told of the delay.
+			return nil, errors.New("server: delayed flush is not supported")
+		}
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
 		return &Request{Opcode: OpcodeVersion}, nil
@@ -401,6 +405,21 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
+	switch Opcode(header[1]) {
+	case OpcodeDelete, OpcodeIncrement, OpcodeDecrement:
+		if binary.BigEndian.Uint64(header[16:24]) != 0 {
+			// The handler would not be told of the CAS value.
+			return nil, errors.New("server: CAS is not supported by this command")
+		}
+	case OpcodeFlush:
+		for _, v := range bodyBuf {
+			if v != 0 {
+				// The handler would not be told of the delay.
+				return nil, errors.New("server: delayed flush is not supported")
+			}
+		}
+	}
+
 	switch Opcode(header[1]) {
 	case OpcodeGet:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
-- 
2.43.0


From 26adafc0eab5d5479101b80911c19defb6e1945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:42 +0000
Subject: [PATCH 46/48] fix: bound the dial of Reconnect

A host that does not answer blocked Reconnect, the heartbeat, and with them
every other operation for as long as the system tries to connect, whatever the
Timeout. Reconnect now gives up after the Timeout, and when the server is closed.
---
 client/server.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/client/server.go b/client/server.go
index 5e8d474..3d29297 100644
--- a/client/server.go
+++ b/client/server.go
@@ -189,6 +189,9 @@ type ServerWithTextProtocol struct {
 	mu      sync.Mutex
 
 	closeMu sync.Mutex // protects raw and closeCh
+
+	dialCtx    context.Context // of Reconnect; Close cancels it
+	cancelDial context.CancelFunc
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -214,6 +217,7 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
 	}
+	server.dialCtx, server.cancelDial = context.WithCancel(context.Background())
 
 	if opt.HeartbeatInterval > 0 {
 		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
@@ -236,6 +240,7 @@ func (s *ServerWithTextProtocol) Close() error {
 
 	err := s.raw.Close()
 	close(s.closeCh)
+	s.cancelDial()
 	s.closeCh = nil
 	return err
 }
@@ -250,8 +255,9 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		}
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	// A host that does not answer must not block the other operations for long.
+	d := &net.Dialer{Timeout: s.Timeout}
+	conn, err := d.DialContext(s.dialCtx, s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
@@ -780,6 +786,9 @@ type ServerWithMetaProtocol struct {
 	mu      sync.Mutex
 
 	closeMu sync.Mutex // protects raw and closeCh
+
+	dialCtx    context.Context // of Reconnect; Close cancels it
+	cancelDial context.CancelFunc
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -805,6 +814,7 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
 	}
+	server.dialCtx, server.cancelDial = context.WithCancel(context.Background())
 
 	if opt.HeartbeatInterval > 0 {
 		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
@@ -827,8 +837,9 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		}
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	// A host that does not answer must not block the other operations for long.
+	d := &net.Dialer{Timeout: s.Timeout}
+	conn, err := d.DialContext(s.dialCtx, s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
@@ -1356,6 +1367,7 @@ func (s *ServerWithMetaProtocol) Close() error {
 
 	err := s.raw.Close()
 	close(s.closeCh)
+	s.cancelDial()
 	s.closeCh = nil
 	return err
 }
@@ -1371,8 +1383,12 @@ type ServerWithBinaryProtocol struct {
 	mu      sync.Mutex
 
 	closeMu sync.Mutex // protects raw and closeCh
-	conn    *bufio.ReadWriter
-	raw     net.Conn
+
+	dialCtx    context.Context // of Reconnect; Close cancels it
+	cancelDial context.CancelFunc
+
+	conn *bufio.ReadWriter
+	raw  net.Conn
 
 	reqHeaderPool *sync.Pool
 	resHeaderPool *sync.Pool
@@ -1407,6 +1423,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 			return newBinaryResponseHeader()
 		}},
 	}
+	server.dialCtx, server.cancelDial = context.WithCancel(context.Background())
 
 	if opt.HeartbeatInterval > 0 {
 		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
@@ -1429,8 +1446,9 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		}
 	}
 
-	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	// A host that does not answer must not block the other operations for long.
+	d := &net.Dialer{Timeout: s.Timeout}
+	conn, err := d.DialContext(s.dialCtx, s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
@@ -2068,6 +2086,7 @@ func (s *ServerWithBinaryProtocol) Close() error {
 
 	err := s.raw.Close()
 	close(s.closeCh)
+	s.cancelDial()
 	s.closeCh = nil
 	return err
 }
-- 
2.43.0


From 939d0a93436a3264e61b331eff91a027422f3e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:14 +0000
Subject: [PATCH 47/48] fix: read reply lines of any length

---
 client/server.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/client/server.go b/client/server.go
index 3d29297..6a81acc 100644
--- a/client/server.go
+++ b/client/server.go
@@ -297,7 +297,7 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return nil, err
 	}
@@ -335,7 +335,7 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 		return nil, err
 	}
 
-	b, err = s.conn.ReadSlice('\n')
+	b, err = s.conn.ReadBytes('\n')
 	if err != nil {
 		return nil, err
 	}
@@ -391,7 +391,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, error) {
 	res := make([]*Item, 0)
 	for {
-		b, err := r.ReadSlice('\n')
+		b, err := r.ReadBytes('\n')
 		if err != nil {
 			return nil, err
 		}
@@ -463,7 +463,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -508,7 +508,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return 0, err
 	}
@@ -548,7 +548,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -602,7 +602,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	buf, err := s.conn.ReadSlice('\n')
+	buf, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -649,7 +649,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -693,7 +693,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -726,7 +726,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -759,7 +759,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return "", err
 	}
@@ -943,7 +943,7 @@ MultiRead:
 }
 
 func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
-	b, err := conn.ReadSlice('\n')
+	b, err := conn.ReadBytes('\n')
 	if err != nil {
 		return nil, err
 	}
@@ -1079,7 +1079,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1125,7 +1125,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1166,7 +1166,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1199,7 +1199,7 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1247,7 +1247,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return 0, err
 	}
@@ -1284,7 +1284,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1314,7 +1314,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1343,7 +1343,7 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From ae57b7150f183f26f29b7f71fd8731cb93e3af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:30 +0000
Subject: [PATCH 48/48] fix: read the reply of a refused Noop or mn

---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a81acc..1f8e302 100644
--- a/client/server.go
+++ b/client/server.go
@@ -925,7 +925,7 @@ MultiRead:
 			case errInvalidGetResponse:
 				// Read the replies of the other keys and of mn before returning the error.
 				failures++
-				if failures <= len(keys) {
+				if failures+len(items) <= len(keys) {
 					continue
 				}
 				return nil, err
@@ -1575,7 +1575,7 @@ func (s *ServerWithBinaryProtocol) getBatch(keys []string) ([]*Item, error) {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
 		}
-		if resHeader.Opcode == binaryOpcodeNoop {
+		if resHeader.Opcode == binaryOpcodeNoop && resHeader.Status == 0 {
 			break
 		}
 
@@ -1589,6 +1589,9 @@ func (s *ServerWithBinaryProtocol) getBatch(keys []string) ([]*Item, error) {
 			} else {
 				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 			}
+			if resHeader.Opcode == binaryOpcodeNoop {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0

