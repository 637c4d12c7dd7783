From 1ae20c72429db47a878d649f706e3bc21566079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/51] fix: read ULINT (0xC9) values

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 75730d6..e7b6bfa 100644
--- a/types.go
+++ b/types.go
@@ -269,7 +269,7 @@ func readValue(t CIPType, r io.Reader) (any, error) {
 		var trueval uint32
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		var trueval uint64
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
@@ -404,7 +404,7 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 			}
 			err = fmt.Errorf("value was a UDINT, but bit %d was requested. must be 0-31 for UDINT", bitpos)
 		}
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		if bitpos >= 0 && bitpos < 64 {
 			x, ok := v.(uint64)
 			if ok {
-- 
2.43.0


From 3417baaade15c9a9eb33d43e6b2a0959191da783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/51] fix: read a single bit of a SINT

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index e7b6bfa..63990f9 100644
--- a/types.go
+++ b/types.go
@@ -336,9 +336,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(uint8(1) << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
-- 
2.43.0


From 7e578e22e5055be2d82cf40a6ef4814d9a02a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 03/51] fix: report a bit number beyond the type instead of
 returning false

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 63990f9..cddf6e3 100644
--- a/types.go
+++ b/types.go
@@ -448,5 +448,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("bit %d is out of range for type %v", bitpos, t)
 }
-- 
2.43.0


From 4e57d860f0409a6aef13574cc787a1d83568d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 04/51] fix: read slices of one element, reject empty slices
 without a panic

---
 read.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index d81fc46..c2f1457 100644
--- a/read.go
+++ b/read.go
@@ -551,6 +551,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
+	if elements == 0 {
+		return t, fmt.Errorf("can't read 0 elements of %s", tag)
+	}
 	ct, _ := GoVarToCIPType(t[0])
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
@@ -568,7 +571,11 @@ func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T
 	//cast, ok := val.([]T)
 	cast, ok := val.([]any)
 	if !ok {
-		return t, fmt.Errorf("couldn't cast array. %w", err)
+		if elements != 1 {
+			return t, errors.New("couldn't cast array")
+		}
+		// a single element comes back as a bare value instead of a list.
+		cast = []any{val}
 	}
 	for i, v := range cast {
 		if ct == CIPTypeSTRING {
-- 
2.43.0


From d7ae0a2831ddf59249684fd069965d9d17d5fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 05/51] fix: Read returns an error for a target it cannot fill
 instead of panicking or doing nothing

---
 read.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/read.go b/read.go
index c2f1457..3645b11 100644
--- a/read.go
+++ b/read.go
@@ -309,25 +309,23 @@ func (client *Client) Read(tag string, data any) error {
 
 		return nil
 
-	case []interface{}:
-		// a pointer to a struct.
-		val, err := client.Read_single(tag, CIPTypeStruct, 1)
-		if err != nil {
-			return err
-		}
-		cast, ok := val.([]byte)
-		if !ok {
-			return errors.New("couldn't convert to byte slice")
-		}
-		b := bytes.NewBuffer(cast)
-		//err = binary.Read(b, binary.LittleEndian, data)
-		_, err = Unpack(b, data)
-		if err != nil {
-			return fmt.Errorf("couldn't parse str data. %w", err)
-		}
 	}
 	// Fallback to reflect-based decoding.
 	v := reflect.ValueOf(data)
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		return fmt.Errorf("can't read into a nil %T", data)
+	}
+	if v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Slice {
+		v = v.Elem()
+		data = v.Interface()
+	}
+	_, unpackable := data.(Unpackable)
+	if !unpackable {
+		t := reflect.TypeOf(data)
+		if t == nil || (t.Kind() != reflect.Pointer && t.Kind() != reflect.Slice) || t.Elem().Kind() != reflect.Struct {
+			return fmt.Errorf("can't read into a %T", data)
+		}
+	}
 	switch v.Kind() {
 	case reflect.Pointer:
 		// a pointer to a struct.
@@ -367,6 +365,8 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
 
+	default:
+		return fmt.Errorf("can't read into a %T", data)
 	}
 
 	return nil
-- 
2.43.0


From 5ee7afef1a0fea5b949095269b055967775bbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 06/51] fix: ReadPacked reads the structure instead of
 panicking

---
 pack.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..caf2fa4 100644
--- a/pack.go
+++ b/pack.go
@@ -388,20 +388,9 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
+	err := client.Read(tag, &data)
 	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
-	if err != nil {
-		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
-	}
-	_, err = Unpack(bytes.NewBuffer(b), &data)
-	if err != nil {
-		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
+		return data, fmt.Errorf("couldn't read %s. %w", tag, err)
 	}
 
 	return data, nil
-- 
2.43.0


From b7e16f7db8b05cdfc347a55e07254e4ea67d42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 07/51] fix: pack and unpack arrays of structures member by
 member

---
 pack.go | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/pack.go b/pack.go
index caf2fa4..b01e6db 100644
--- a/pack.go
+++ b/pack.go
@@ -208,7 +208,13 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			var err error
+			s, err = p.packStructArray(w, refVal.Field(i))
+			if err != nil {
+				return pos, fmt.Errorf("problem packing array of structures: %w", err)
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -236,6 +242,48 @@ func Pack(w io.Writer, data any) (int, error) {
 	return pos, nil
 }
 
+// write every structure of an array, each padded to the alignment of the structure.
+func (p cipPack) packStructArray(w io.Writer, arr reflect.Value) (int, error) {
+	pos := 0
+	align := p.Align(arr.Type().Elem())
+	for i := 0; i < arr.Len(); i++ {
+		n, err := Pack(w, arr.Index(i).Interface())
+		if err != nil {
+			return pos, fmt.Errorf("problem packing element %d: %w", i, err)
+		}
+		pos += n
+		if n%align != 0 {
+			_, err = w.Write(make([]byte, align-n%align))
+			if err != nil {
+				return pos, fmt.Errorf("problem padding element %d: %w", i, err)
+			}
+			pos += align - n%align
+		}
+	}
+	return pos, nil
+}
+
+// read every structure of an array, each padded to the alignment of the structure.
+func (p cipPack) unpackStructArray(r io.Reader, arr reflect.Value) (int, error) {
+	pos := 0
+	align := p.Align(arr.Type().Elem())
+	for i := 0; i < arr.Len(); i++ {
+		n, err := Unpack(r, arr.Index(i).Addr().Interface())
+		if err != nil {
+			return pos, fmt.Errorf("problem unpacking element %d: %w", i, err)
+		}
+		pos += n
+		if n%align != 0 {
+			_, err = io.ReadFull(r, make([]byte, align-n%align))
+			if err != nil {
+				return pos, fmt.Errorf("problem reading padding of element %d: %w", i, err)
+			}
+			pos += align - n%align
+		}
+	}
+	return pos, nil
+}
+
 // deserialize data from r appropriately for CIP messaging
 // obeys alignment and padding rules
 func Unpack(r io.Reader, data any) (n int, err error) {
@@ -367,7 +415,12 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			s, err = p.unpackStructArray(r, refVal.Field(i))
+			if err != nil {
+				return
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From 5a0d258efae250bd338493a45783655350132081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 08/51] fix: elements of structure arrays are padded to 4 bytes

---
 pack.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pack.go b/pack.go
index b01e6db..3e6d1c1 100644
--- a/pack.go
+++ b/pack.go
@@ -43,6 +43,15 @@ func (p cipPack) Align(t reflect.Type) int {
 	return a
 }
 
+// the controller stores every structure in a multiple of 4 bytes, so the elements of an
+// array of structures are at least that far apart.
+func (p cipPack) elementAlign(t reflect.Type) int {
+	if a := p.Align(t); a > 4 {
+		return a
+	}
+	return 4
+}
+
 func (p cipPack) Order() binary.ByteOrder {
 	return binary.LittleEndian
 }
@@ -245,7 +254,7 @@ func Pack(w io.Writer, data any) (int, error) {
 // write every structure of an array, each padded to the alignment of the structure.
 func (p cipPack) packStructArray(w io.Writer, arr reflect.Value) (int, error) {
 	pos := 0
-	align := p.Align(arr.Type().Elem())
+	align := p.elementAlign(arr.Type().Elem())
 	for i := 0; i < arr.Len(); i++ {
 		n, err := Pack(w, arr.Index(i).Interface())
 		if err != nil {
@@ -266,7 +275,7 @@ func (p cipPack) packStructArray(w io.Writer, arr reflect.Value) (int, error) {
 // read every structure of an array, each padded to the alignment of the structure.
 func (p cipPack) unpackStructArray(r io.Reader, arr reflect.Value) (int, error) {
 	pos := 0
-	align := p.Align(arr.Type().Elem())
+	align := p.elementAlign(arr.Type().Elem())
 	for i := 0; i < arr.Len(); i++ {
 		n, err := Unpack(r, arr.Index(i).Addr().Interface())
 		if err != nil {
@@ -317,7 +326,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 				return n, fmt.Errorf("problem unpacking slice element %d: %w", i, err)
 			}
 			n += s
-			align := p.Align(refType.Elem())
+			align := p.elementAlign(refType.Elem())
 			if s%align != 0 {
 				s, err = r.Read(make([]byte, align-s%align))
 				if err != nil {
-- 
2.43.0


From 9623078f63769c4977d742576579d80379dd1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/51] fix: address bits 32 to 63 and reject a bit number
 inside a tag path

---
 ioi.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ioi.go b/ioi.go
index 0ae72ff..fba1179 100644
--- a/ioi.go
+++ b/ioi.go
@@ -146,7 +146,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for part_no, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
@@ -198,7 +198,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			if err == nil && bit_access >= 0 && bit_access <= 63 {
+				if part_no == 0 || part_no != len(tag_array)-1 {
+					return nil, fmt.Errorf("bit number %d can only be the last part of tag %s", bit_access, tagpath)
+				}
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
-- 
2.43.0


From 2ff74fbd9ea71e11ee4af126f5e487593ac62a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 10/51] fix: a tag path that cannot be encoded is an error
 instead of addressing another element

---
 ioi.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/ioi.go b/ioi.go
index fba1179..78adde9 100644
--- a/ioi.go
+++ b/ioi.go
@@ -147,9 +147,12 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
 	for part_no, tag_part := range tag_array {
-		if strings.HasSuffix(tag_part, "]") {
+		if strings.ContainsAny(tag_part, "[]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if start_index < 0 || !strings.HasSuffix(tag_part, "]") {
+				return nil, fmt.Errorf("bad array index in part %q of tag %s", tag_part, tagpath)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -160,12 +163,12 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			}
 
-			t, err := parse_tag_name(tag_part)
+			array_order, err := parseArrayOrder(tag_part[start_index+1 : len(tag_part)-1])
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing path %s: %w", tagpath, err)
 			}
 
-			for _, order_size := range t.Array_Order {
+			for _, order_size := range array_order {
 				if order_size < 256 {
 					// byte, byte
 					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
@@ -222,16 +225,36 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	}
 
+	if len(ioi.Buffer)/2 > 255 {
+		return nil, fmt.Errorf("path of tag %s is too long", tagpath)
+	}
 	client.ioi_cache[tagpath] = ioi
 	return
 }
 
+// parse the comma separated numbers between the brackets of an array access.
+func parseArrayOrder(text string) ([]int, error) {
+	parts := strings.Split(text, ",")
+	order := make([]int, len(parts))
+	for i, part := range parts {
+		n, err := strconv.ParseUint(strings.TrimSpace(part), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't parse %q to an array position. %w", part, err)
+		}
+		order[i] = int(n)
+	}
+	return order, nil
+}
+
 func marshalIOIPart(tagpath string) ([]byte, error) {
 	t, err := parse_tag_name(tagpath)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size == 0 || tag_size > 255 {
+		return nil, fmt.Errorf("tag name part %q can't be addressed: it has %d characters", t.BasePath, tag_size)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
-- 
2.43.0


From 6f944fa01f6636531cd3c91a2020fd2aef4f4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 11/51] fix: a request on a missing, broken or superseded
 connection ends in an error and leaves no socket open

---
 connect.go     | 13 ++++++++++++-
 disconnect.go  | 23 ++++++++++++++++-------
 sendreceive.go | 25 ++++++++++++++++++++++---
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/connect.go b/connect.go
index 83ca1b4..1b87e8f 100644
--- a/connect.go
+++ b/connect.go
@@ -76,6 +76,9 @@ func (client *Client) Connect() error {
 	defer func() {
 		if !success {
 			client.mutex.Lock()
+			if client.conn != nil {
+				client.conn.Close()
+			}
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
@@ -127,7 +130,13 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
+	if err == nil {
+		client.mutex.Lock()
+		client.conn = conn
+		client.SessionHandle = 0
+		client.mutex.Unlock()
+	}
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
@@ -187,7 +196,9 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	client.mutex.Lock()
 	client.SessionHandle = header.SessionHandle
+	client.mutex.Unlock()
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
 }
diff --git a/disconnect.go b/disconnect.go
index d32051c..415f06c 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -1,13 +1,19 @@
 package gologix
 
 import (
+	"errors"
 	"fmt"
 	"log/slog"
+	"net"
 )
 
-func (client *Client) startDisconnect() error {
+// conn is the connection to give up.  nil is whatever connection is current.
+func (client *Client) startDisconnect(conn net.Conn) error {
 	client.mutex.Lock()
 	defer client.mutex.Unlock()
+	if conn != nil && conn != client.conn {
+		return fmt.Errorf("the connection is already replaced")
+	}
 	switch client.connStatus {
 	case connectionStatusDisconnected:
 		return fmt.Errorf("client is already disconnected")
@@ -52,7 +58,11 @@ func (client *Client) startDisconnect() error {
 // Returns an error if already disconnected or if there are issues during the
 // disconnection sequence, but the connection will be closed regardless.
 func (client *Client) Disconnect() error {
-	err := client.startDisconnect()
+	return client.disconnect(nil)
+}
+
+func (client *Client) disconnect(conn net.Conn) error {
+	err := client.startDisconnect(conn)
 	if err != nil {
 		return err
 	}
@@ -61,6 +71,10 @@ func (client *Client) Disconnect() error {
 	// No matter what happens, when we finish here, we'll consider the connection disconnected.
 	defer func() {
 		client.mutex.Lock()
+		err := client.conn.Close()
+		if err != nil && !errors.Is(err, net.ErrClosed) {
+			client.Logger.Error("error closing connection", slog.Any("err", err))
+		}
 		client.connStatus = connectionStatusDisconnected
 		client.mutex.Unlock()
 	}()
@@ -132,11 +146,6 @@ func (client *Client) Disconnect() error {
 		}
 	}
 
-	err = client.conn.Close()
-	if err != nil {
-		client.Logger.Error("error closing connection", slog.Any("err", err))
-	}
-
 	client.Logger.Info("successfully disconnected from controller")
 	return nil
 }
diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..38a6864 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"time"
 )
@@ -77,16 +78,25 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
+	conn := client.conn
+	if conn == nil {
+		client.mutex.Unlock()
+		return eipHeader{}, nil, errors.New("not connected")
+	}
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
+		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 
 	err = client.sendData(buffer)
 	if err != nil {
+		// nothing may be sent or received on this connection any more: a late reply would be taken
+		// for the reply to the next request.
+		conn.Close()
 		client.mutex.Unlock()
-		err2 := client.Disconnect()
+		err2 := client.disconnect(conn)
 		if err2 != nil {
 			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
 		}
@@ -94,14 +104,23 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	}
 
 	hdr, buf, err := client.recvData()
+	if err == nil && hdr.Command != cmd {
+		err = fmt.Errorf("got a reply to command %v instead of %v", hdr.Command, cmd)
+	}
+	if err != nil {
+		conn.Close()
+	}
 	client.mutex.Unlock()
 	if err != nil {
-		err2 := client.Disconnect()
+		err2 := client.disconnect(conn)
 		if err2 != nil {
 			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
 		}
 		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
 	}
+	if hdr.Status != 0 {
+		return hdr, buf, fmt.Errorf("controller answered command %v with encapsulation status 0x%x", cmd, hdr.Status)
+	}
 	return hdr, buf, nil
 }
 
-- 
2.43.0


From 6ced65f4ea9b1d536b756394528cda4842420dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 12/51] fix: keep-alive runs once per session and can be
 cancelled safely

---
 connect.go    | 45 +++++++++++++++++++++++++++++++++++----------
 disconnect.go | 17 +++++++++++++----
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/connect.go b/connect.go
index 1b87e8f..ba6f343 100644
--- a/connect.go
+++ b/connect.go
@@ -82,11 +82,6 @@ func (client *Client) Connect() error {
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
-		if success {
-			client.mutex.Lock()
-			client.connStatus = connectionStatusConnected
-			client.mutex.Unlock()
-		}
 	}()
 
 	if client.Logger != nil {
@@ -172,6 +167,9 @@ func (client *Client) Connect() error {
 	}
 
 	success = true
+	client.mutex.Lock()
+	client.connStatus = connectionStatusConnected
+	client.mutex.Unlock()
 	if client.KeepAliveAutoStart {
 		go client.KeepAlive()
 	}
@@ -207,14 +205,31 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
+	cancel := make(chan struct{})
+	client.mutex.Lock()
 	if client.keepAliveRunning {
+		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
+		return
 	}
-	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
+	if client.connStatus != connectionStatusConnected {
+		client.mutex.Unlock()
+		client.Logger.Warn("keepalive not started. not connected")
+		return
+	}
+	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	client.mutex.Unlock()
+	client.Logger.Debug("starting keep alive")
+	defer func() {
+		client.mutex.Lock()
+		if client.cancel_keepalive == cancel {
+			client.cancel_keepalive = nil
+			client.keepAliveRunning = false
+		}
+		client.mutex.Unlock()
+	}()
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -239,6 +254,11 @@ func (client *Client) KeepAlive() {
 	for {
 		select {
 		case <-t.C:
+			select {
+			case <-cancel:
+				return
+			default:
+			}
 			if !client.Connected() {
 				client.Logger.Warn("keepalive failed. not connected")
 				return
@@ -247,6 +267,12 @@ func (client *Client) KeepAlive() {
 			newProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
 				client.Logger.Error("keepalive failed", slog.Any("err", err))
+				select {
+				case <-cancel:
+					// the session this poll belonged to is already gone
+					return
+				default:
+				}
 				err = client.Disconnect()
 				if err != nil {
 					client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
@@ -275,8 +301,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
-			client.KeepAliveAutoStart = false
+		case <-cancel:
 			return
 		}
 	}
diff --git a/disconnect.go b/disconnect.go
index 415f06c..8b8bc4c 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -79,9 +79,7 @@ func (client *Client) disconnect(conn net.Conn) error {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.stopKeepAlive()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -156,10 +154,21 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.stopKeepAlive()
 	return nil
 }
 
+// stops the running keepalive, if there is one.
+func (client *Client) stopKeepAlive() {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+	}
+	client.keepAliveRunning = false
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
-- 
2.43.0


From c1cda30eb30f76bf54e0f6ce37cc297be1f0ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 13/51] fix: connection identifiers are read under the client's
 lock and short replies are errors

---
 client.go      | 14 ++++++++++++++
 connect.go     | 14 ++++++++++++--
 getattr.go     | 14 +++++++-------
 items.go       | 12 ++++++++++++
 listalltags.go |  4 ++--
 listmembers.go |  8 ++++----
 listsubtags.go |  4 ++--
 partialread.go |  4 ++--
 read.go        |  8 ++++----
 udt_write.go   |  2 +-
 write.go       |  8 ++++----
 11 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/client.go b/client.go
index 5b9ae84..7dd3948 100644
--- a/client.go
+++ b/client.go
@@ -236,6 +236,20 @@ func (t KnownTag) Len() int {
 	return len(t.Bytes())
 }
 
+// the address item for a request on the connection that is open now.
+func (client *Client) connectionItem() CIPItem {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	return newItem(cipItem_ConnectionAddress, client.OTNetworkConnectionID)
+}
+
+// the size of the connection that is open now.
+func (client *Client) connectionSize() int {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	return int(client.ConnectionSize)
+}
+
 func (client *Client) firmware() int {
 
 	if client.knownFirmware != 0 {
diff --git a/connect.go b/connect.go
index ba6f343..2019f62 100644
--- a/connect.go
+++ b/connect.go
@@ -92,9 +92,11 @@ func (client *Client) Connect() error {
 			client.logger_ip_set = true
 		}
 	}
+	client.mutex.Lock()
 	if client.ConnectionSize == 0 {
 		client.ConnectionSize = connSizeLargeDefault
 	}
+	client.mutex.Unlock()
 
 	if client.Controller.Port == 0 {
 		client.Controller.Port = portDefault
@@ -151,7 +153,9 @@ func (client *Client) Connect() error {
 		err = client.forwardOpen(item)
 		if err != nil {
 			client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
+			client.mutex.Lock()
 			client.ConnectionSize = connSizeStandardDefault
+			client.mutex.Unlock()
 		}
 	}
 	if client.ConnectionSize <= connSizeStandardMax {
@@ -363,9 +367,11 @@ type cipForwardOpen[T uint16 | uint32] struct {
 
 func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	item := CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
+	client.mutex.Lock()
 	if client.ConnectionSize == 0 {
 		client.ConnectionSize = connSizeLargeDefault
 	}
+	client.mutex.Unlock()
 	if client.ConnectionSize <= connSizeStandardMax {
 		client.Logger.Info(
 			"The size could be a standard connection",
@@ -449,7 +455,9 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 			slog.Any("oldConnectionSize", client.ConnectionSize),
 			slog.Any("newConnectionSize", connSizeStandardMax),
 		)
+		client.mutex.Lock()
 		client.ConnectionSize = connSizeStandardMax
+		client.mutex.Unlock()
 	}
 	item := CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
 
@@ -541,7 +549,9 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		return fmt.Errorf("error deserializing forward open response content. %w", err)
 	}
 
+	client.mutex.Lock()
 	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
+	client.mutex.Unlock()
 
 	client.Logger.Info(
 		"successfully opened connection",
@@ -605,7 +615,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("problem reading items header from forward open request. %w", err)
 	}
 
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
@@ -616,7 +626,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("error deserializing forward open response header. %w", err)
 	}
 
-	extended_status := make([]byte, respHeader.StatusLen*2)
+	extended_status := make([]byte, int(respHeader.StatusLen)*2)
 	if respHeader.StatusLen != 0 {
 		err = items[1].DeSerialize(&extended_status)
 		if err != nil {
diff --git a/getattr.go b/getattr.go
index bf1e9ac..4de6aa0 100644
--- a/getattr.go
+++ b/getattr.go
@@ -106,7 +106,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 	pl := class.Len() + instance.Len() + attr.Len()
 	pl = pl / 2
 
@@ -146,7 +146,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -245,7 +245,7 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 // struct as above with the proper types for the AttrX_Value instead of []byte and do an item.Serialize(&InstanceOfMyType)
 func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionItem()
 
 	path, err := Serialize(class, instance)
 	if err != nil {
@@ -253,7 +253,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(client.sequenceNumber.Add(1)),
+		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
@@ -291,7 +291,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 		return nil, err
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -422,7 +422,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
@@ -456,7 +456,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problpm reading read result header: %w", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
diff --git a/items.go b/items.go
index e628b49..f3aa878 100644
--- a/items.go
+++ b/items.go
@@ -49,6 +49,18 @@ func readItems(r io.Reader) ([]CIPItem, error) {
 	return items, nil
 }
 
+// readReplyItems reads the items of a reply to a request that was sent as two items: an address item and a data item.
+func readReplyItems(r io.Reader) ([]CIPItem, error) {
+	items, err := readItems(r)
+	if err != nil {
+		return nil, err
+	}
+	if len(items) < 2 {
+		return nil, fmt.Errorf("wrong number of items in reply. Expected 2 but got %d", len(items))
+	}
+	return items, nil
+}
+
 // The CIPItem is one of the core abstractions this library uses.
 //
 // When a response comes back from the controller it is structured in a CIPItem which can then
diff --git a/listalltags.go b/listalltags.go
index 9df6b54..0ac428b 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -142,7 +142,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionItem()
 
 	path, err := Serialize(
 		CipObject_Symbol, CIPInstance(start_instance),
@@ -199,7 +199,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		return fmt.Errorf("problem getting padding bytes. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listmembers.go b/listmembers.go
index 914a954..8cc4723 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -52,7 +52,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
@@ -115,7 +115,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
@@ -167,7 +167,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
@@ -219,7 +219,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..ed54d8d 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -24,7 +24,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 
 	p, err := Serialize(
 		Program.Bytes(),
@@ -72,7 +72,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		return nil, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/partialread.go b/partialread.go
index 3d923f7..9c1edba 100644
--- a/partialread.go
+++ b/partialread.go
@@ -138,7 +138,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 		//newSize += 4                                           // Fudge for alignment if needed
 
 		response_size += tags[i].TagType.Size() * tags[i].Elements
-		if newSize >= int(client.ConnectionSize) || response_size >= int(client.ConnectionSize) {
+		if newSize >= client.connectionSize() || response_size >= client.connectionSize() {
 			// break before adding this ioi to the list since it will push us over.
 			// we'll continue with n iois (n only increments after an IOI is added)
 			break
@@ -157,7 +157,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 		n = i + 1
 	}
 
-	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", client.ConnectionSize)
+	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", client.connectionSize())
 
 	return n, nil
 
diff --git a/read.go b/read.go
index 3645b11..58a9fd6 100644
--- a/read.go
+++ b/read.go
@@ -412,7 +412,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionItem()
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
@@ -795,7 +795,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionItem()
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
@@ -834,7 +834,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		// TODO: calculate the actual message size, not just the IOI data size.
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
-		if totalMsgSize > int(client.ConnectionSize) {
+		if totalMsgSize > client.connectionSize() {
 			first_part := tags[:i]
 			rest := tags[i:]
 
@@ -1193,7 +1193,7 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 // and any transport-level error.
 func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = client.connectionItem()
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/udt_write.go b/udt_write.go
index 593cdb1..40268b8 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -147,7 +147,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
diff --git a/write.go b/write.go
index 72d2f70..f2b4925 100644
--- a/write.go
+++ b/write.go
@@ -141,7 +141,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(ioi_header)
 	if err != nil {
@@ -192,7 +192,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
@@ -243,7 +243,7 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = client.connectionItem()
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(ioi_header)
 	if err != nil {
@@ -281,7 +281,7 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
-- 
2.43.0


From 63d2177af20a487f07d1c719e5e50c00ea0f4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 14/51] fix: multi-tag reads fit the connection, check every
 reply and fill each field from its own tag

---
 partialread.go | 105 ++++---------
 read.go        | 398 ++++++++++++++++++++++++++++---------------------
 2 files changed, 251 insertions(+), 252 deletions(-)

diff --git a/partialread.go b/partialread.go
index 9c1edba..ec619ac 100644
--- a/partialread.go
+++ b/partialread.go
@@ -1,11 +1,13 @@
 package gologix
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 )
 
+// a message has to fit the 16 bit length fields of its headers.
+const maxMessageSize = 65000
+
 // ReadList reads multiple tags with explicitly specified types and element counts in a single efficient request.
 //
 // This function allows reading tags when you know the tag names but want to specify types and quantities
@@ -51,13 +53,10 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	if err != nil {
 		return nil, fmt.Errorf("could not start list read: %w", err)
 	}
-	n := 0
-	n_new := 0
-	total := len(tagnames)
-	results := make([]any, 0, total)
-	msgs := 0
-
-	tags := make([]tagDesc, total)
+	if len(types) != len(tagnames) || len(elements) != len(tagnames) {
+		return nil, fmt.Errorf("got %d tag names, %d types and %d element counts", len(tagnames), len(types), len(elements))
+	}
+	tags := make([]tagDesc, len(tagnames))
 
 	for i := range tagnames {
 		typ, _ := GoVarToCIPType(types[i])
@@ -69,95 +68,41 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 		}
 	}
 
-	for n < total {
-		msgs += 1
-		n_new, err = client.countIOIsThatFit(tags[n:])
-		if err != nil {
-			return nil, err
-		}
-		subresults, err := client.readList(tags[n : n+n_new])
-		n += n_new
-		if err != nil {
-			return nil, err
-		}
-		results = append(results, subresults...)
-
-	}
-
-	client.Logger.Debug("Multi Read", "messages", msgs, "tags", n)
-	return results, nil
+	return client.readListInParts(tags)
 }
 
+// countIOIsThatFit tells how many of the tags, from the first one on, can be read with one request so that neither the
+// request nor the reply to it is larger than the connection.
 func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
-	// first generate IOIs for each tag
-	qty := len(tags)
+	limit := min(client.connectionSize(), maxMessageSize)
 
-	ioi_header := msgCIPConnectedMultiServiceReq{
-		Sequence:     uint16(sequencer()),
-		Service:      CIPService_MultipleService,
-		PathSize:     2,
-		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
-		ServiceCount: uint16(qty),
-	}
-
-	mainhdr_size := binary.Size(ioi_header)
-	ioihdr_size := binary.Size(msgCIPMultiIOIHeader{})
-	ioiftr_size := binary.Size(msgCIPIOIFooter{})
+	// the request and the reply start with the sequence count, the service and its header, and the number of services.
+	request_size := binary.Size(msgCIPConnectedMultiServiceReq{})
+	response_size := binary.Size(msgMultiReadResultHeader{})
 
-	b := bytes.Buffer{}
-	// we now have to build up the jump table for each IOI.
-	// and pack all the IOIs together into b
-	jump_table := make([]uint16, qty)
+	// each service needs an entry in the jump table.
+	const jump_size = 2
+	ioi_size := jump_size + binary.Size(msgCIPMultiIOIHeader{}) + binary.Size(msgCIPIOIFooter{})
+	result_size := jump_size + binary.Size(msgMultiReadResult{})
 
 	// how many ioi's fit in the message
-	n := 1
-
-	response_size := 0
-
-	for i, tag := range tags {
+	n := 0
+	for _, tag := range tags {
 		ioi, err := client.newIOI(tag.TagName, tag.TagType)
 		if err != nil {
 			return 0, err
 		}
 
-		jump_table[i] = uint16(b.Len())
-
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Read,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPIOIFooter{
-			Elements: 1,
-		}
-
-		// Calculate the size of the data once we add this ioi to the list.
-		newSize := mainhdr_size                                // length of the multi-read header
-		newSize += 2 * n                                       // add in the jump table
-		newSize += b.Len()                                     // everything we have so far
-		newSize += ioihdr_size + len(ioi.Buffer) + ioiftr_size // the new ioi data
-		//newSize += 4                                           // Fudge for alignment if needed
-
-		response_size += tags[i].TagType.Size() * tags[i].Elements
-		if newSize >= client.connectionSize() || response_size >= client.connectionSize() {
+		request_size += ioi_size + len(ioi.Buffer)
+		response_size += result_size + tag.replySize(ioi.BitAccess)
+		if n > 0 && (request_size > limit || response_size > limit) {
 			// break before adding this ioi to the list since it will push us over.
-			// we'll continue with n iois (n only increments after an IOI is added)
 			break
 		}
-
-		err = binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return 0, fmt.Errorf("problem writing cip IO header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		err = binary.Write(&b, binary.LittleEndian, f)
-		if err != nil {
-			return 0, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
-		}
-
-		n = i + 1
+		n++
 	}
 
-	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", client.connectionSize())
+	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", limit)
 
 	return n, nil
 
diff --git a/read.go b/read.go
index 58a9fd6..79a3bf9 100644
--- a/read.go
+++ b/read.go
@@ -488,6 +488,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string of %d bytes is longer than the data received for %s", str_hdr.Length, tag)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -508,6 +511,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(str)) {
+					return nil, fmt.Errorf("element %d of %s claims a string of %d bytes", i, tag, str_hdr.Length)
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -720,12 +726,14 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// build the tag list from the structure by reflecting through the tags on the fields of the struct.
-	T := reflect.TypeOf(tag_str).Elem()
-	vf := reflect.VisibleFields(T)
+	val := reflect.ValueOf(tag_str)
+	if val.Kind() != reflect.Pointer || val.IsNil() || val.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("can't read into a %T. Need a pointer to a struct or a map", tag_str)
+	}
+	val = val.Elem()
+	vf := reflect.VisibleFields(val.Type())
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
-	val := reflect.ValueOf(tag_str).Elem()
+	fields := make([]reflect.Value, 0, len(vf))
 	for i := range vf {
 		field := vf[i]
 		tagPath, ok := field.Tag.Lookup("gologix")
@@ -735,40 +743,54 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
-		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
-		taglist = append(taglist, tagDesc{
-			TagName:  tagPath,
-			TagType:  t,
-			Elements: elem,
-			Struct:   v,
-		})
+		fieldVal, err := val.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("can't read %s into field %s: %w", tagPath, field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("can't read %s into field %s because it can't be set", tagPath, field.Name)
+		}
+		fields = append(fields, fieldVal)
+		taglist = append(taglist, newTagDesc(tagPath, fieldVal.Interface()))
 	}
 
-	result_values, err := client.readList(taglist)
+	result_values, err := client.readListInParts(taglist)
 	if err != nil {
 		return fmt.Errorf("problem in read list: %w", err)
 	}
 
-	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
-		val := result_values[i]
-
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
-
-		fieldVal := v.Field(fieldNo)
+	// make sure every value fits its field before any of the fields is changed.
+	for i, fieldVal := range fields {
+		if fieldVal.Kind() == reflect.Slice {
+			vals, ok := result_values[i].([]any)
+			if !ok {
+				vals = []any{result_values[i]}
+				result_values[i] = vals
+			}
+			if len(vals) != fieldVal.Len() {
+				return fmt.Errorf("got %d instead of %d elements for %s", len(vals), fieldVal.Len(), taglist[i].TagName)
+			}
+			for j := range vals {
+				if reflect.TypeOf(vals[j]) != fieldVal.Type().Elem() {
+					return fmt.Errorf("can't put the %T of %s into a %v", vals[j], taglist[i].TagName, fieldVal.Type())
+				}
+			}
+			continue
+		}
+		if result_values[i] == nil || !reflect.TypeOf(result_values[i]).AssignableTo(fieldVal.Type()) {
+			return fmt.Errorf("can't put the %T of %s into a %v", result_values[i], taglist[i].TagName, fieldVal.Type())
+		}
+	}
 
-		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
-		} else {
-			l := fieldVal.Len()
-			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
+	// now unpack the result values back into the given structure
+	for i, fieldVal := range fields {
+		if fieldVal.Kind() == reflect.Slice {
+			for j, v := range result_values[i].([]any) {
+				fieldVal.Index(j).Set(reflect.ValueOf(v))
 			}
+			continue
 		}
+		fieldVal.Set(reflect.ValueOf(result_values[i]))
 	}
 
 	return nil
@@ -781,6 +803,61 @@ type tagDesc struct {
 	Struct   any
 }
 
+// newTagDesc describes the read of a tag into a variable like v.
+func newTagDesc(name string, v any) tagDesc {
+	ct, elem := GoVarToCIPType(v)
+	if bools, ok := v.([]bool); ok && len(bools) > 0 && len(bools)%32 == 0 {
+		// bool arrays are stored (and read) as 32 bit words
+		ct, elem = CIPTypeDWORD, len(bools)/32
+	}
+	return tagDesc{
+		TagName:  name,
+		TagType:  ct,
+		Elements: elem,
+		Struct:   v,
+	}
+}
+
+// the most bytes of data the controller answers a read of this tag with, not counting the type.
+func (tag tagDesc) replySize(bitAccess bool) int {
+	switch {
+	case tag.TagType == CIPTypeSTRING:
+		return 2 + 88*tag.Elements
+	case bitAccess:
+		// the word the bit is part of.
+		return 8
+	case tag.TagType == CIPTypeStruct && tag.Struct != nil && reflect.TypeOf(tag.Struct).Kind() == reflect.Struct:
+		n, err := Pack(&bytes.Buffer{}, tag.Struct)
+		if err == nil {
+			// structures are padded at the end
+			return 2 + (n+7)/8*8*tag.Elements
+		}
+	case tag.TagType != CIPTypeStruct && tag.TagType.Size() > 0:
+		return tag.TagType.Size() * tag.Elements
+	}
+	return 2 + CIPTypeStruct.Size()*tag.Elements
+}
+
+// readListInParts reads the tags with as many requests as are needed to keep each of them, and its reply, within the
+// size of the connection.
+func (client *Client) readListInParts(tags []tagDesc) ([]any, error) {
+	results := make([]any, 0, len(tags))
+	for n := 0; n < len(tags); {
+		n_new, err := client.countIOIsThatFit(tags[n:])
+		if err != nil {
+			return nil, err
+		}
+		subResults, err := client.readList(tags[n : n+n_new])
+		if err != nil {
+			return nil, err
+		}
+		n += n_new
+		results = append(results, subResults...)
+	}
+	return results, nil
+}
+
+// readList reads tags with a single request.
 func (client *Client) readList(tags []tagDesc) ([]any, error) {
 
 	// first generate IOIs for each tag
@@ -829,26 +906,6 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if err != nil {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
-
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
-		// TODO: We also need to calculate the response size we expect from the PLC and split
-		//       into multiple messages on that also.
-		if totalMsgSize > client.connectionSize() {
-			first_part := tags[:i]
-			rest := tags[i:]
-
-			results0, err := client.readList(first_part)
-			if err != nil {
-				return nil, fmt.Errorf("problem reading first part of tags: %w", err)
-			}
-			results1, err := client.readList(rest)
-			if err != nil {
-				return nil, fmt.Errorf("problem reading second part of tags: %w", err)
-			}
-			return append(results0, results1...), nil
-
-		}
 	}
 
 	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the read sequencer is
@@ -916,19 +973,29 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
 
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("got %d replies for %d tags", reply_hdr.Reply_Count, qty)
+	}
+
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading offset table. %w", err)
 	}
-	rb, err := rItem.Bytes()
-	if err != nil {
-		return nil, err
-	}
+	// the offsets count from the number of replies.
+	rb := rItem.Data[6:]
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
-		myBytes := bytes.NewBuffer(rb[offset:])
+		start, end := int(offset_table[i]), len(rb)
+		for _, other := range offset_table {
+			if int(other) > start && int(other) < end {
+				end = int(other)
+			}
+		}
+		if start > end {
+			return nil, fmt.Errorf("the reply for %v is outside of the data received", tags[i].TagName)
+		}
+		myBytes := bytes.NewBuffer(rb[start:end])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
 		if err != nil {
@@ -943,95 +1010,109 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if rHdr.Status != uint16(CIPStatus_OK) {
 			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
 		}
-		if tags[i].Elements == 1 {
-			if tags[i].TagType == CIPTypeBOOL && rHdr.Type != CIPTypeBOOL && iois[i].BitAccess {
-				// we have requested a bool from some other type.  Maybe a bit access?
-				value, err := readValue(rHdr.Type, myBytes)
-				if err != nil {
-					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
-				}
-				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
-				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
-				}
-				result_values[i] = val
-			} else if tags[i].TagType == CIPTypeSTRING {
-				str_hdr := cipStringHeader{}
-				err = binary.Read(myBytes, binary.LittleEndian, &str_hdr)
-				if err != nil {
-					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
-				}
-				str := make([]byte, str_hdr.Length)
-				err = binary.Read(myBytes, binary.LittleEndian, str)
-				if err != nil {
-					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
-				}
-				result_values[i] = string(str)
-			} else if rHdr.Type == CIPTypeStruct {
-				typehash := cipStructHeader{}
-				err := binary.Read(myBytes, binary.LittleEndian, &typehash)
-				if err != nil {
-					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
-				}
-				//dat := make([]byte, binary.Size(tags[i].Struct))
-				if tags[i].Struct == nil {
-					// just return the byte array.
-					result_values[i] = myBytes.Bytes()
-					continue
-				}
-				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
-				if err != nil {
-					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
-				}
-				// depointer the result to the correct type.
-				y := reflect.ValueOf(x).Elem().Interface()
-				result_values[i] = y
-			} else {
-				result_values[i], err = rHdr.Type.readValue(myBytes)
-				if err != nil {
-					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
-				}
-			}
+		result_values[i], err = tags[i].readValue(iois[i], rHdr.Type, myBytes)
+		if err != nil {
+			return nil, fmt.Errorf("problem reading tag %v: %w", tags[i].TagName, err)
+		}
+	}
 
-		} else if tags[i].TagType == CIPTypeSTRING {
-			// multi-element STRING array. Each element is a fixed 88-byte slot
-			// (cipStringHeader + 82 bytes of data) regardless of the actual
-			// string length. Reading only Length bytes would misalign the next
-			// element. This mirrors the per-element loop used in Read for
-			// arrays of strings (see read.go above).
-			val := make([]any, tags[i].Elements)
-			for respIndex := 0; respIndex < tags[i].Elements; respIndex++ {
-				str_hdr := cipStringHeader{}
-				err = binary.Read(myBytes, binary.LittleEndian, &str_hdr)
-				if err != nil {
-					return nil, fmt.Errorf("couldn't unpack string header for tag %v element %d: %w", tags[i], respIndex, err)
-				}
-				str := make([]byte, 82)
-				err = binary.Read(myBytes, binary.LittleEndian, str)
-				if err != nil {
-					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
-				}
-				val[respIndex] = string(str[:str_hdr.Length])
+	return result_values, nil
+
+}
+
+// readValue takes the value of the tag off a reply to a read of it.
+func (tag tagDesc) readValue(ioi *tagIOI, dataType CIPType, r *bytes.Buffer) (any, error) {
+	if tag.Elements < 1 {
+		return nil, errors.New("can't read 0 elements")
+	}
+	if tag.TagType == CIPTypeSTRING {
+		if dataType != CIPTypeStruct {
+			return nil, fmt.Errorf("got a %v instead of a string", dataType)
+		}
+		// multi-element STRING array. Each element is a fixed 88-byte slot
+		// (cipStringHeader + 82 bytes of data) regardless of the actual
+		// string length. Reading only Length bytes would misalign the next
+		// element. This mirrors the per-element loop used in Read for
+		// arrays of strings (see read.go above).
+		vals := make([]any, tag.Elements)
+		for i := range vals {
+			str_hdr := cipStringHeader{}
+			err := binary.Read(r, binary.LittleEndian, &str_hdr)
+			if err != nil {
+				return nil, fmt.Errorf("couldn't unpack string header of element %d: %w", i, err)
 			}
-			result_values[i] = val
-		} else {
-			// multi-element type.
-			val := make([]any, tags[i].Elements)
-			for respIndex := 0; respIndex < tags[i].Elements; respIndex++ {
-				value, err := readValue(rHdr.Type, myBytes)
-				if err != nil {
-					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
-				}
-				val[respIndex] = value
+			str := r.Bytes()
+			if tag.Elements > 1 {
+				str = r.Next(82)
+			}
+			if int64(str_hdr.Length) > int64(len(str)) {
+				return nil, fmt.Errorf("string of %d bytes in element %d is longer than its data", str_hdr.Length, i)
 			}
-			result_values[i] = val
+			vals[i] = string(str[:str_hdr.Length])
 		}
+		if tag.Elements == 1 {
+			return vals[0], nil
+		}
+		return vals, nil
 	}
 
-	return result_values, nil
+	if dataType == CIPTypeStruct {
+		if tag.TagType != CIPTypeStruct && tag.TagType != CIPTypeUnknown {
+			return nil, fmt.Errorf("got a structure instead of a %v", tag.TagType)
+		}
+		typehash := cipStructHeader{}
+		err := binary.Read(r, binary.LittleEndian, &typehash)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
+		}
+		if tag.Struct == nil {
+			// just return the byte array.
+			return append([]byte(nil), r.Bytes()...), nil
+		}
+		if reflect.TypeOf(tag.Struct).Kind() != reflect.Struct || tag.Elements != 1 {
+			return nil, fmt.Errorf("can't read %d structures into a %T", tag.Elements, tag.Struct)
+		}
+		x := reflect.New(reflect.TypeOf(tag.Struct))
+		_, err = Unpack(r, x.Interface())
+		if err != nil {
+			return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
+		}
+		// depointer the result to the correct type.
+		return x.Elem().Interface(), nil
+	}
+
+	if tag.TagType == CIPTypeBOOL && dataType != CIPTypeBOOL && ioi.BitAccess && tag.Elements == 1 {
+		// we have requested a bool from some other type.  Maybe a bit access?
+		value, err := readValue(dataType, r)
+		if err != nil {
+			return nil, err
+		}
+		return getBit(dataType, value, ioi.BitPosition)
+	}
 
+	vals := make([]any, tag.Elements)
+	for i := range vals {
+		value, err := readValue(dataType, r)
+		if err != nil {
+			return nil, fmt.Errorf("element %d: %w", i, err)
+		}
+		vals[i] = value
+	}
+	if bools, ok := tag.Struct.([]bool); ok && len(bools) == tag.Elements*32 && tag.TagType == CIPTypeDWORD {
+		bits := make([]any, len(bools))
+		for i := range bits {
+			word, ok := vals[i/32].(uint32)
+			if !ok {
+				return nil, fmt.Errorf("got a %T instead of 32 bits", vals[i/32])
+			}
+			bits[i] = word&(1<<(i%32)) != 0
+		}
+		return bits, nil
+	}
+	if tag.Elements == 1 {
+		return vals[0], nil
+	}
+	return vals, nil
 }
 
 func parseArrayStruct[T GoLogixTypes](dat []byte, elements uint16) ([]T, error) {
@@ -1119,45 +1200,18 @@ func (client *Client) ReadMap(m map[string]any) error {
 		return fmt.Errorf("could not start multi read: %w", err)
 	}
 
-	total := len(m)
-	tags := make([]tagDesc, total)
-	indexes := make([]string, total)
-	i := 0
+	tags := make([]tagDesc, 0, len(m))
 	for k := range m {
-		v := m[k]
-		ct, elem := GoVarToCIPType(v)
-		tags[i] = tagDesc{
-			TagName:  k,
-			TagType:  ct,
-			Elements: elem,
-			Struct:   v,
-		}
-		indexes[i] = k
-		i++
-	}
-	result_values := make([]any, 0, total)
-
-	n := 0
-	msgs := 0
-	n_new := 0
-	for n < total {
-		msgs += 1
-		n_new, err = client.countIOIsThatFit(tags[n:])
-		if err != nil {
-			return err
-		}
-		subResults, err := client.readList(tags[n : n+n_new])
-		n += n_new
-		if err != nil {
-			return err
-		}
-		result_values = append(result_values, subResults...)
-
+		tags = append(tags, newTagDesc(k, m[k]))
+	}
+	result_values, err := client.readListInParts(tags)
+	if err != nil {
+		return err
 	}
 
 	// now unpack the result values back into the given structure
 	for i := range result_values {
-		m[indexes[i]] = result_values[i]
+		m[tags[i].TagName] = result_values[i]
 	}
 
 	return nil
-- 
2.43.0


From 2beac8e028479495be5484a2dfb53123a4122b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 15/51] fix: multi-tag writes are split, carry every value and
 check every reply; writes reject what they cannot encode

---
 udt_write.go | 290 ++++++++++++++++++++++++++++++++++++---------------
 write.go     |  74 +++++++++++--
 2 files changed, 274 insertions(+), 90 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 40268b8..1d97e23 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -9,31 +9,25 @@ import (
 
 // convert tagged struct to a map in the format of {"fieldTag": fieldvalue}
 func multi_to_dict(data any) (map[string]interface{}, error) {
-	//TODO: handle nested structs and arrays
 	// convert the struct to a dict of FieldName: FieldValue
 	d := make(map[string]interface{})
 
 	vs := reflect.ValueOf(data)
 	fs := reflect.TypeOf(data)
 	for i := 0; i < vs.NumField(); i++ {
-		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := f.Tag.Get("gologix")
-		switch v.Kind() {
-		case reflect.Struct:
-			d2, err := udt_to_dict(fulltag, v.Interface())
-			if err != nil {
-				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
-			}
-			for k := range d2 {
-				d[k] = d2[k]
-			}
-		case reflect.Array:
-			//TODO
-		default:
-			d[fulltag] = v.Interface()
+		if fulltag == "" {
+			// not a tag
+			continue
+		}
+		if !f.IsExported() {
+			return nil, fmt.Errorf("problem parsing %s. field %s is not exported", fulltag, f.Name)
+		}
+		err := field_to_dict(d, fulltag, vs.Field(i))
+		if err != nil {
+			return nil, err
 		}
-
 	}
 
 	return d, nil
@@ -42,38 +36,71 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 
 // convert a struct to a map in the format of {"tag.fieldName": fieldvalue}
 func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
-	//TODO: handle nested structs and arrays
 	// convert the struct to a dict of FieldName: FieldValue
 	d := make(map[string]interface{})
 
 	vs := reflect.ValueOf(data)
 	fs := reflect.TypeOf(data)
 	for i := 0; i < vs.NumField(); i++ {
-		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
-		switch v.Kind() {
+		if !f.IsExported() {
+			return nil, fmt.Errorf("problem parsing %s. field %s is not exported", fulltag, f.Name)
+		}
+		err := field_to_dict(d, fulltag, vs.Field(i))
+		if err != nil {
+			return nil, err
+		}
+	}
 
+	return d, nil
+
+}
+
+// add the value of a struct field to the map d
+func field_to_dict(d map[string]any, fulltag string, v reflect.Value) error {
+	switch v.Kind() {
+	case reflect.Struct:
+		if _, ok := v.Interface().(Packable); ok {
+			// it knows how to write itself.
+			return add_to_dict(d, fulltag, v.Interface())
+		}
+		d2, err := udt_to_dict(fulltag, v.Interface())
+		if err != nil {
+			return fmt.Errorf("problem parsing %s. %w", fulltag, err)
 		}
-		switch v.Kind() {
-		case reflect.Struct:
-			d2, err := udt_to_dict(fulltag, v.Interface())
+		for k := range d2 {
+			err = add_to_dict(d, k, d2[k])
 			if err != nil {
-				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
+				return err
 			}
-			for k := range d2 {
-				d[k] = d2[k]
+		}
+		return nil
+	case reflect.Array:
+		if v.Type().Elem().Kind() == reflect.Struct {
+			for i := 0; i < v.Len(); i++ {
+				err := field_to_dict(d, fmt.Sprintf("%s[%d]", fulltag, i), v.Index(i))
+				if err != nil {
+					return err
+				}
 			}
-		case reflect.Array:
-			//TODO
-		default:
-			d[fulltag] = v.Interface()
+			return nil
 		}
-
+		// write all the elements at once.
+		elements := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+		reflect.Copy(elements, v)
+		return add_to_dict(d, fulltag, elements.Interface())
+	default:
+		return add_to_dict(d, fulltag, v.Interface())
 	}
+}
 
-	return d, nil
-
+func add_to_dict(d map[string]any, fulltag string, value any) error {
+	if _, exists := d[fulltag]; exists {
+		return fmt.Errorf("there is more than one value for %s", fulltag)
+	}
+	d[fulltag] = value
+	return nil
 }
 
 // WriteMap writes multiple tags efficiently using a map where keys are tag names and values are the data to write.
@@ -126,26 +153,106 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 // or any tags are read-only.
 func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
-	// build the tag list from the structure
-	tags := make([]string, 0)
-	types := make([]CIPType, 0)
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not start multi write: %w", err)
+	}
+
+	// build the write service of each tag before anything is sent.
+	tags := make([]string, 0, len(tag_str))
+	services := make([][]byte, 0, len(tag_str))
 	for k := range tag_str {
-		ct, _ := GoVarToCIPType(tag_str[k])
-		types = append(types, ct)
+		service, err := client.writeService(k, tag_str[k])
+		if err != nil {
+			return fmt.Errorf("problem writing %s: %w", k, err)
+		}
 		tags = append(tags, k)
+		services = append(services, service)
 	}
 
-	// first generate IOIs for each tag
-	qty := len(tags)
-	iois := make([]*tagIOI, qty)
-	for i, tag := range tags {
-		var err error
-		iois[i], err = client.newIOI(tag, types[i])
+	// split them into as many messages as are needed to fit the connection.
+	limit := min(client.connectionSize(), maxMessageSize)
+	const (
+		jump_size  = 2 // the entry in the jump table
+		reply_size = 4 // the reply to one write
+	)
+	for first := 0; first < len(services); {
+		request_size := binary.Size(msgCIPConnectedMultiServiceReq{})
+		response_size := binary.Size(msgMultiReadResultHeader{})
+		end := first
+		for ; end < len(services); end++ {
+			request_size += jump_size + len(services[end])
+			response_size += jump_size + reply_size
+			if request_size > limit || response_size > limit {
+				break
+			}
+		}
+		if end == first {
+			return fmt.Errorf("problem writing %s: %d bytes don't fit the connection", tags[first], len(services[first]))
+		}
+		err = client.writeServices(tags[first:end], services[first:end])
 		if err != nil {
 			return err
 		}
+		first = end
+	}
+	return nil
+}
+
+// writeService builds the service that writes a value to a tag.
+func (client *Client) writeService(tag string, value any) ([]byte, error) {
+	ct, elements := GoVarToCIPType(value)
+	ioi, err := client.newIOI(tag, ct)
+	if err != nil {
+		return nil, err
+	}
+	err = checkWritable(ioi, value)
+	if err != nil {
+		return nil, err
+	}
+
+	b := bytes.Buffer{}
+	h := msgCIPMultiIOIHeader{
+		Service: CIPService_Write,
+		Size:    byte(len(ioi.Buffer) / 2),
+	}
+	err = binary.Write(&b, binary.LittleEndian, h)
+	if err != nil {
+		return nil, fmt.Errorf("problem writing item header to buffer. %w", err)
+	}
+	b.Write(ioi.Buffer)
+
+	if ct == CIPTypeStruct {
+		typecrc, data, err := packUDT(value)
+		if err != nil {
+			return nil, err
+		}
+		b.Write([]byte{byte(CIPTypeStruct), 2})
+		err = binary.Write(&b, binary.LittleEndian, [2]uint16{typecrc, 1})
+		if err != nil {
+			return nil, fmt.Errorf("problem writing udt item footer to buffer. %w", err)
+		}
+		b.Write(data)
+		return b.Bytes(), nil
 	}
 
+	b.Write(msgCIPWriteIOIFooter{
+		DataType: uint16(ct),
+		Elements: uint16(elements),
+	}.Bytes())
+	item := CIPItem{}
+	err = item.Serialize(value)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing value: %w", err)
+	}
+	b.Write(item.Data)
+	return b.Bytes(), nil
+}
+
+// writeServices sends write services in a single message and checks that all of them succeeded.
+func (client *Client) writeServices(tags []string, services [][]byte) error {
+	qty := len(services)
+
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = client.connectionItem()
 
@@ -158,45 +265,13 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	}
 
 	b := bytes.Buffer{}
-	// we now have to build up the jump table for each IOI.
-	// and pack all the IOIs together into b
+	// we now have to build up the jump table for each service.
+	// and pack all the services together into b
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
-	for i := 0; i < qty; i++ {
+	for i, service := range services {
 		jump_table[i] = uint16(jump_start + b.Len())
-		ioi := iois[i]
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPWriteIOIFooter{
-			DataType: uint16(types[i]),
-			Elements: 1,
-		}
-		//f := msgCIPIOIFooter{
-		//Elements: 1,
-		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		ftr_buf, err := Serialize(f)
-		if err != nil {
-			return fmt.Errorf("problem serializing footer for item %d: %w", i, err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, ftr_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt item footer to buffer. %w", err)
-		}
-		item_buf, err := Serialize(tag_str[tags[i]])
-		if err != nil {
-			return fmt.Errorf("problem serializing %v: %w", tags[i], err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, item_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt tag name to buffer. %w", err)
-		}
+		b.Write(service)
 	}
 
 	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the readsequencer is
@@ -212,13 +287,62 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
 
+	read_result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &read_result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading write result header: %w", err)
+	}
+	items, err := readReplyItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write, %w", err)
+	}
+	item := &items[1]
+	var hdr msgWriteResultHeader
+	err = item.DeSerialize(&hdr)
+	if err != nil {
+		return fmt.Errorf("problem deserializing write response header, %w", err)
+	}
+	if hdr.Status != CIPStatus_OK && hdr.Status != CIPStatus_EmbeddedServiceError {
+		return fmt.Errorf("got status %v instead of 0 in write response", hdr.Status)
+	}
+	// the offsets count from the number of replies.
+	base := item.Pos + 2*int(hdr.StatusExtended)
+	if base > len(item.Data) {
+		return fmt.Errorf("write response is too short")
+	}
+	item.Pos = base
+	count, err := item.Uint16()
+	if err != nil {
+		return fmt.Errorf("problem reading the number of replies: %w", err)
+	}
+	if int(count) != qty {
+		return fmt.Errorf("got %d replies for %d writes", count, qty)
+	}
+	for i := range tags {
+		offset, err := item.Uint16()
+		if err != nil {
+			return fmt.Errorf("problem reading the position of the reply for %s: %w", tags[i], err)
+		}
+		result := CIPItem{Data: item.Data, Pos: base + int(offset)}
+		var result_hdr msgUnconnWriteResultHeader
+		err = result.DeSerialize(&result_hdr)
+		if err != nil {
+			return fmt.Errorf("problem reading the reply for %s: %w", tags[i], err)
+		}
+		if result_hdr.Service != CIPService_Write.AsResponse() {
+			return fmt.Errorf("got service %v in the reply for %s", result_hdr.Service, tags[i])
+		}
+		if result_hdr.Status != CIPStatus_OK {
+			return fmt.Errorf("got status %v instead of 0 when writing %s", result_hdr.Status, tags[i])
+		}
+	}
+	if hdr.Status != CIPStatus_OK {
+		return fmt.Errorf("got status %v instead of 0 in write response", hdr.Status)
+	}
 	return nil
 }
diff --git a/write.go b/write.go
index f2b4925..a4ad98c 100644
--- a/write.go
+++ b/write.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -110,6 +111,58 @@ func (client *Client) Write(tag string, value any) error {
 	return client.write_single(tag, value)
 }
 
+// checkWritable makes sure that a value can be sent as the value of the tag with the given path.
+func checkWritable(ioi *tagIOI, value any) error {
+	if ioi.BitAccess {
+		return fmt.Errorf("can't write a single bit of a word")
+	}
+	v := reflect.ValueOf(value)
+	ct, elements := GoVarToCIPType(value)
+	if v.Kind() == reflect.Struct {
+		return nil
+	}
+	if ct == CIPTypeStruct || ct == CIPTypeUnknown || (v.Kind() == reflect.Pointer && v.IsNil()) {
+		return fmt.Errorf("can't write a %T", value)
+	}
+	if elements < 1 || elements > math.MaxUint16 {
+		return fmt.Errorf("can't write %d elements", elements)
+	}
+	strs, ok := value.([]string)
+	if s, is_string := value.(string); is_string {
+		strs, ok = []string{s}, true
+	}
+	if ok {
+		for _, s := range strs {
+			if len(s) > maxStringLength {
+				return fmt.Errorf("string of %d characters is too long", len(s))
+			}
+		}
+	}
+	return nil
+}
+
+// a logix STRING holds this many characters
+const maxStringLength = 82
+
+// packUDT gives the type handle and the data of a structure.
+func packUDT(value any) (uint16, []byte, error) {
+	_, typecrc, err := TypeEncode(value)
+	if err != nil {
+		return 0, nil, fmt.Errorf("problem encoding type. %w", err)
+	}
+	b := bytes.Buffer{}
+	_, err = Pack(&b, value)
+	if err != nil {
+		return 0, nil, fmt.Errorf("problem packing data. %w", err)
+	}
+	// the controller stores structures in multiples of their alignment.
+	align := cipPack{}.elementAlign(reflect.TypeOf(value))
+	for b.Len()%align != 0 {
+		b.WriteByte(0)
+	}
+	return typecrc, b.Bytes(), nil
+}
+
 // write a single UDT struct to a tag.  The UDT *must* be named the same as the struct type and have the same field types.
 // field names don't matter but type names do.  go types will be converted to CIP types as appropriate, but any nested structs
 // must be named the same as the UDT on the plc.
@@ -128,16 +181,13 @@ func (client *Client) write_udt(tag string, value any) error {
 		Size:     byte(len(ioi.Buffer) / 2),
 	}
 
-	_, typecrc, err := TypeEncode(value)
+	err = checkWritable(ioi, value)
 	if err != nil {
-		return fmt.Errorf("problem encoding type. %w", err)
+		return fmt.Errorf("problem writing %s. %w", tag, err)
 	}
-
-	UDTdata := bytes.NewBuffer([]byte{})
-
-	_, err = Pack(UDTdata, value)
+	typecrc, UDTdata, err := packUDT(value)
 	if err != nil {
-		return fmt.Errorf("problem packing data. %w", err)
+		return err
 	}
 
 	reqitems := make([]CIPItem, 2)
@@ -176,6 +226,9 @@ func (client *Client) write_udt(tag string, value any) error {
 		return fmt.Errorf("problem serializing UDT data. %w", err)
 	}
 
+	if len(reqitems[1].Data) > min(client.connectionSize(), maxMessageSize) {
+		return fmt.Errorf("problem writing %s. %d bytes don't fit the connection", tag, len(reqitems[1].Data))
+	}
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
 		return err
@@ -225,6 +278,10 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	err = checkWritable(ioi, value)
+	if err != nil {
+		return fmt.Errorf("problem writing %s. %w", tag, err)
+	}
 	elements := uint16(1)
 
 	v := reflect.ValueOf(value)
@@ -265,6 +322,9 @@ func (client *Client) write_single(tag string, value any) error {
 		return fmt.Errorf("problem serializing value. %w", err)
 	}
 
+	if len(reqitems[1].Data) > min(client.connectionSize(), maxMessageSize) {
+		return fmt.Errorf("problem writing %s. %d bytes don't fit the connection", tag, len(reqitems[1].Data))
+	}
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
 		return err
-- 
2.43.0


From 94da22a86b8e24d23166a28aed05cd28006a3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 16/51] fix: a fragmented read ends in an error when the
 fragments do not add up to the value

---
 read.go | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/read.go b/read.go
index 79a3bf9..d4a3f6b 100644
--- a/read.go
+++ b/read.go
@@ -470,7 +470,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		if hdr2.Type == CIPTypeStruct {
 			return nil, fmt.Errorf("partial transfer read of %s: structured tag types are not yet supported in fragmented reads", tag)
 		}
-		merged, err := client.readFragmented(ioi, elements, items[1].Data[items[1].Pos:])
+		merged, err := client.readFragmented(ioi, hdr2.Type, elements, items[1].Data[items[1].Pos:])
 		if err != nil {
 			return nil, fmt.Errorf("partial transfer read of %s: %w", tag, err)
 		}
@@ -1223,29 +1223,39 @@ func (client *Client) ReadMap(m map[string]any) error {
 // arrived with the first (non-FragRead) response — the returned slice is the
 // full concatenation of every fragment's data section, ready to feed into the
 // existing per-type parsing path.
-func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData []byte) ([]byte, error) {
+func (client *Client) readFragmented(ioi *tagIOI, datatype CIPType, elements uint16, initialData []byte) ([]byte, error) {
+	size := int(elements) * datatype.Size()
 	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
 	for {
 		offset := uint32(accumulated.Len())
-		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)
+		fragType, fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)
 		if err != nil {
 			return nil, err
 		}
+		if status != 0 && status != byte(CIPStatus_PartialTransfer) {
+			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
+		}
+		if fragType != datatype {
+			return nil, fmt.Errorf("FragRead at offset %d returned type %v instead of %v", offset, fragType, datatype)
+		}
 		accumulated.Write(fragData)
+		if accumulated.Len() > size || (status == 0 && accumulated.Len() < size) {
+			return nil, fmt.Errorf("%d elements of type %v take %d bytes but the controller sent %d", elements, datatype, size, accumulated.Len())
+		}
 		if status == 0 {
 			return accumulated.Bytes(), nil
 		}
-		if status != byte(CIPStatus_PartialTransfer) {
-			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
+		if len(fragData) == 0 {
+			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
 		}
 	}
 }
 
 // sendFragReadRequest emits a single FragRead request for the given tag IOI,
-// requested element count, and byte offset. It returns the data portion of the
-// response (everything after the type+unknown header), the general status byte,
-// and any transport-level error.
-func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
+// requested element count, and byte offset. It returns the data type, the data
+// portion of the response (everything after the type+unknown header), the general
+// status byte, and any transport-level error.
+func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) (CIPType, []byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = client.connectionItem()
 
@@ -1256,34 +1266,34 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	}
 	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
 	if err := reqItems[1].Serialize(ioi, elements, offset); err != nil {
-		return nil, 0, fmt.Errorf("problem serializing FragRead path: %w", err)
+		return 0, nil, 0, fmt.Errorf("problem serializing FragRead path: %w", err)
 	}
 
 	itemData, err := serializeItems(reqItems)
 	if err != nil {
-		return nil, 0, fmt.Errorf("problem serializing FragRead items: %w", err)
+		return 0, nil, 0, fmt.Errorf("problem serializing FragRead items: %w", err)
 	}
 
 	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
-		return nil, 0, fmt.Errorf("transport: %w", err)
+		return 0, nil, 0, fmt.Errorf("transport: %w", err)
 	}
 
 	var resultHdr msgCIPResultHeader
 	if err := binary.Read(data, binary.LittleEndian, &resultHdr); err != nil {
-		return nil, 0, fmt.Errorf("FragRead result header: %w", err)
+		return 0, nil, 0, fmt.Errorf("FragRead result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
-		return nil, 0, fmt.Errorf("FragRead items: %w", err)
+		return 0, nil, 0, fmt.Errorf("FragRead items: %w", err)
 	}
 	if len(items) != 2 {
-		return nil, 0, fmt.Errorf("FragRead expected 2 items, got %d", len(items))
+		return 0, nil, 0, fmt.Errorf("FragRead expected 2 items, got %d", len(items))
 	}
 
 	var hdr2 msgCIPReadResultData
 	if err := items[1].DeSerialize(&hdr2); err != nil {
-		return nil, 0, fmt.Errorf("FragRead inner header: %w", err)
+		return 0, nil, 0, fmt.Errorf("FragRead inner header: %w", err)
 	}
-	return items[1].Data[items[1].Pos:], hdr2.Status[1], nil
+	return hdr2.Type, items[1].Data[items[1].Pos:], hdr2.Status[1], nil
 }
-- 
2.43.0


From 561a05c1b867673cd22892a0c95b879e72d842f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 17/51] fix: paths encode exactly the segments asked for and
 reject what is not a path

---
 cip_definitions.go |  6 ++---
 getattr.go         |  3 +++
 ioi.go             | 12 ++++------
 items.go           |  3 +++
 path.go            | 58 +++++++++++++++++++++++++++++++++++++---------
 5 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..e006daf 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -13,7 +13,7 @@ func (p CIPAddress) Bytes() []byte {
 }
 
 func (p CIPAddress) Len() int {
-	return 0
+	return 1
 }
 
 // Represents a CIP class attribute id - that is a specific attribute of a given class.
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
diff --git a/getattr.go b/getattr.go
index 4de6aa0..83b8150 100644
--- a/getattr.go
+++ b/getattr.go
@@ -419,6 +419,9 @@ func (e CIPStatusError) Error() string {
 // Note: This function is intended for advanced users who need direct CIP protocol
 // access. For standard tag operations, use Read(), Write(), and related functions.
 func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
+	if len(path)%2 != 0 || len(path)/2 > 255 {
+		return nil, fmt.Errorf("a path of %d bytes can't be sent", len(path))
+	}
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
diff --git a/ioi.go b/ioi.go
index 78adde9..aa9d4a9 100644
--- a/ioi.go
+++ b/ioi.go
@@ -246,14 +246,10 @@ func parseArrayOrder(text string) ([]int, error) {
 	return order, nil
 }
 
-func marshalIOIPart(tagpath string) ([]byte, error) {
-	t, err := parse_tag_name(tagpath)
-	if err != nil {
-		return nil, fmt.Errorf("could not parse tag path: %w", err)
-	}
-	tag_size := len(t.BasePath)
+func marshalIOIPart(name string) ([]byte, error) {
+	tag_size := len(name)
 	if tag_size == 0 || tag_size > 255 {
-		return nil, fmt.Errorf("tag name part %q can't be addressed: it has %d characters", t.BasePath, tag_size)
+		return nil, fmt.Errorf("tag name part %q can't be addressed: it has %d characters", name, tag_size)
 	}
 	need_extend := false
 	if tag_size%2 == 1 {
@@ -262,7 +258,7 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 	}
 
 	tag_name_header := [2]byte{byte(segmentTypeExtendedSymbolic), byte(tag_size)}
-	tag_name_msg := append(tag_name_header[:], []byte(t.BasePath)...)
+	tag_name_msg := append(tag_name_header[:], []byte(name)...)
 	// has to be an even number of bytes.
 	if need_extend {
 		tag_name_msg = append(tag_name_msg, []byte{0x00}...)
diff --git a/items.go b/items.go
index f3aa878..ee00a7f 100644
--- a/items.go
+++ b/items.go
@@ -374,6 +374,9 @@ func serializeItems(items []CIPItem) (*[]byte, error) {
 	}
 
 	for i, item := range items {
+		if len(item.Data) > maxMessageSize {
+			return nil, fmt.Errorf("item %d has %d bytes, which does not fit in a message", i, len(item.Data))
+		}
 		b2, err := item.Bytes()
 		if err != nil {
 			return nil, fmt.Errorf("problem byte-ing item %d: %w", i, err)
diff --git a/path.go b/path.go
index 5a5871a..adf25c1 100644
--- a/path.go
+++ b/path.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"net"
 	"strconv"
 	"strings"
 )
@@ -34,6 +35,9 @@ const (
 	segmentTypeExtendedSymbolic segmentType = 0x91
 )
 
+// set in the first byte of a port segment when its link address is longer than one byte.
+const extendedLinkAddress byte = 1 << 4
+
 // represents the port number on a CIP device
 //
 // If you're going to serialize this class to bytes for transimssion be sure to use one of the gologix
@@ -44,12 +48,13 @@ type CIPPort struct {
 }
 
 func (p CIPPort) Len() int {
-	return 2
+	return len(p.Bytes())
 }
 
 func (p CIPPort) Bytes() []byte {
 	if p.ExtensionLen != 0 {
-		return []byte{p.PortNo, p.ExtensionLen}
+		// bit 4 says that the length of the link address follows.
+		return []byte{p.PortNo | extendedLinkAddress, p.ExtensionLen}
 
 	}
 	return []byte{p.PortNo}
@@ -62,44 +67,74 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 	if path == "" {
 		return new(bytes.Buffer), nil
 	}
-	// get rid of any spaces and square brackets
-	path = strings.ReplaceAll(path, " ", "")
-	path = strings.ReplaceAll(path, "[", "")
-	path = strings.ReplaceAll(path, "]", "")
 	// split on commas
 	parts := strings.Split(path, ",")
 
 	byte_path := make([]byte, 0, len(parts))
 
+	// whether the previous part was a number that can be the port an IP address is reached through.
+	after_port := false
 	for _, part := range parts {
+		// get rid of any spaces and square brackets around the part
+		part = strings.Trim(part, " []")
 		// first see if this looks like an IP address.
 		is_ip := strings.Contains(part, ".")
 		if is_ip {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
+			if !after_port {
+				return nil, fmt.Errorf("address %v has to follow the number of the port it is reached through", part)
+			}
+			if !isLinkAddress(part) {
+				return nil, fmt.Errorf("%v is not a valid address", part)
+			}
+			after_port = false
 			last_pos := len(byte_path) - 1
 			last_byte := byte_path[last_pos]
-			byte_path[last_pos] = last_byte | 1<<4
+			byte_path[last_pos] = last_byte | extendedLinkAddress
 			l := len(part)
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 == 1 {
+				// a segment has to be an even number of bytes.
+				byte_path = append(byte_path, 0)
+			}
 			continue
 		}
 		// not an IP address
-		val, err := strconv.Atoi(part)
+		val, err := strconv.ParseUint(part, 10, 8)
 		if err != nil {
 			return nil, fmt.Errorf("problem converting %v to number. %w", part, err)
 		}
-		if val < 0 || val > 255 {
-			return nil, fmt.Errorf("number out of range. %v", part)
-		}
+		after_port = val > 0 && val < 15
 		byte_path = append(byte_path, byte(val))
 	}
 
 	return bytes.NewBuffer(byte_path), nil
 }
 
+// isLinkAddress tells whether text is an IP address or a host name.
+func isLinkAddress(text string) bool {
+	if len(text) > 255 {
+		return false
+	}
+	for _, label := range strings.Split(text, ".") {
+		if label == "" {
+			return false
+		}
+	}
+	if strings.Trim(text, "0123456789.") == "" {
+		return net.ParseIP(text) != nil
+	}
+	for _, c := range text {
+		if c != '.' && c != '-' && (c < '0' || c > '9') && (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') {
+			return false
+		}
+	}
+	return true
+}
+
 // PathBuilder constructs a CIP path incrementally using a fluent builder pattern.
 // Each method appends one logical segment to the path and returns the same *PathBuilder,
 // so calls can be chained:
@@ -203,6 +238,7 @@ func (pb *PathBuilder) Symbolic(symbol string) *PathBuilder {
 	str, err := marshalIOIPart(symbol)
 	if err != nil {
 		pb.Err = fmt.Errorf("error writing symbolic ID %v: %w", symbol, err)
+		return pb
 	}
 	pb.b.Write(str)
 	return pb
-- 
2.43.0


From 9bf3bbcd99285c7a4eb7fe69b8353176c7802f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 18/51] fix: discovery follows partial replies to the end,
 checks statuses and reports complete names and types

---
 client.go          |   3 +
 datatable.go       |   2 +
 ioi.go             |   2 +
 listallprograms.go |  72 +++++++----
 listalltags.go     | 316 +++++++++++++++++++++++----------------------
 listmembers.go     | 193 +++++++++++----------------
 listsubtags.go     | 139 +++-----------------
 7 files changed, 306 insertions(+), 421 deletions(-)

diff --git a/client.go b/client.go
index 7dd3948..e1930b3 100644
--- a/client.go
+++ b/client.go
@@ -83,6 +83,9 @@ type Client struct {
 	KnownTypesByID map[uint32]UDTDescriptor
 	KnownPrograms  map[string]*KnownProgram
 
+	// protects the known tags, types and programs
+	known_lock sync.Mutex
+
 	// used for optimization.  v20 and before vs v21 and after have different
 	// tag reading functionality.
 	knownFirmware int
diff --git a/datatable.go b/datatable.go
index 06bbbe5..3fd65fb 100644
--- a/datatable.go
+++ b/datatable.go
@@ -95,7 +95,9 @@ func dataTableTypeSize(t CIPType) (uint16, error) {
 // Falls back to dataTableTypeSize() if the tag is not in KnownTags or has no UDT.
 func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (uint16, error) {
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
+		buf.client.known_lock.Lock()
 		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
+		buf.client.known_lock.Unlock()
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
 			return uint16(kt.UDT.Info.SizeBytes), nil
 		}
diff --git a/ioi.go b/ioi.go
index aa9d4a9..53274ed 100644
--- a/ioi.go
+++ b/ioi.go
@@ -118,7 +118,9 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	// on firmwares greater than 20, we can do some optimizations.
 	if client.firmware() > 20 {
+		client.known_lock.Lock()
 		tag_info, ok := client.KnownTags[tagpath]
+		client.known_lock.Unlock()
 		if ok {
 			// we'll assume the user knows what they're doing if they're dumping data into a struct.
 			/*
diff --git a/listallprograms.go b/listallprograms.go
index b29c645..d6c1589 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -8,13 +8,6 @@ import (
 func (client *Client) ListAllPrograms() error {
 	client.Logger.Debug("listing all programs")
 
-	// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
-	path, err := Serialize(CipObject_Programs, CIPInstance(0))
-	if err != nil {
-		client.Logger.Warn("could not serialize path", "error", err)
-		return err
-	}
-
 	number_of_attr_to_receive := 1
 	attr_28_program_name := 28
 	msg_data, err := Serialize(uint16(number_of_attr_to_receive), uint16(attr_28_program_name))
@@ -23,42 +16,67 @@ func (client *Client) ListAllPrograms() error {
 		return err
 	}
 
-	resp, err := client.GenericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
-	if err != nil {
-		client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
-		return fmt.Errorf("problem reading programs: %w", err)
-	}
-
 	results := make(map[string]*KnownProgram)
 
+	start_instance := uint32(0)
 	for {
-		var hdr listprograms_resp_header
-		err = resp.DeSerialize(&hdr)
+		// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
+		path, err := Serialize(CipObject_Programs, CIPInstance(start_instance))
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			client.Logger.Warn("could not serialize path", "error", err)
+			return err
 		}
 
-		// read the name
-		name := make([]byte, hdr.NameLen)
-		err = resp.DeSerialize(&name)
+		resp, more, err := client.listMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
 		if err != nil {
-			client.Logger.Warn("could not read name", "error", err)
-			return err
+			client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
+			return fmt.Errorf("problem reading programs: %w", err)
+		}
+
+		first := start_instance
+		for len(resp.Rest()) > 0 {
+			var hdr listprograms_resp_header
+			err = resp.DeSerialize(&hdr)
+			if err != nil {
+				return fmt.Errorf("problem reading program header: %w", err)
+			}
+
+			// read the name
+			if int64(hdr.NameLen) > int64(len(resp.Rest())) {
+				return fmt.Errorf("program name of %d bytes is longer than the data received", hdr.NameLen)
+			}
+			name := make([]byte, hdr.NameLen)
+			err = resp.DeSerialize(&name)
+			if err != nil {
+				client.Logger.Warn("could not read name", "error", err)
+				return err
+			}
+
+			// convert the name to a string
+			namestr := strings.TrimSpace(string(name))
+			results[strings.ToLower(namestr)] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
+			if hdr.InstanceID >= start_instance {
+				// the next part of the list starts after the last program of this one.
+				start_instance = hdr.InstanceID + 1
+			}
 		}
 
-		// convert the name to a string
-		namestr := strings.TrimSpace(string(name))
-		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
+		if !more {
+			break
+		}
+		if start_instance <= first {
+			return fmt.Errorf("the list of programs does not continue after instance %d", first)
+		}
 	}
 
+	client.known_lock.Lock()
 	client.KnownPrograms = results
+	client.known_lock.Unlock()
 
 	return nil
 }
 
 type listprograms_resp_header struct {
-	InstanceID uint16
-	Padding    uint16
+	InstanceID uint32
 	NameLen    uint32
 }
diff --git a/listalltags.go b/listalltags.go
index 0ac428b..01d4165 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -1,7 +1,6 @@
 package gologix
 
 import (
-	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -57,13 +56,6 @@ func (f TagInfo) Template_ID() uint16 {
 
 }
 
-type msgListInstanceHeader struct {
-	Service       CIPService
-	Reserved      byte
-	SequenceCount uint16
-	Status        uint16
-}
-
 // ListAllTags discovers and catalogs all tags available in the PLC, starting from the specified instance ID.
 //
 // This function performs a comprehensive scan of the PLC's symbol table to build a complete inventory
@@ -119,208 +111,218 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	}
 
 	fallbackProgramNames := false
+	tags := make(map[string]KnownTag)
+	types := make(map[string]UDTDescriptor)
+	programs := make(map[string]*KnownProgram)
 	// if we are starting from scratch, we should list all the programs first so we have
 	// their instance IDs when we come across program scoped tags.
 	if start_instance == 1 {
+		// what is known of the structures may be out of date too.
+		client.known_lock.Lock()
+		client.KnownTypesByID = make(map[uint32]UDTDescriptor)
+		client.known_lock.Unlock()
+
 		err := client.ListAllPrograms()
 		if err != nil {
 			var cipErr CIPStatusError
 			if errors.As(err, &cipErr) {
 				fallbackProgramNames = true
-				client.KnownPrograms = make(map[string]*KnownProgram)
 			} else {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
+		} else {
+			programs = client.KnownPrograms
+		}
+		for _, p := range programs {
+			err := client.listProgramTags(p, tags, types)
+			if err != nil {
+				return err
+			}
+		}
+	}
+
+	symbols, err := client.listSymbols(nil, start_instance)
+	if err != nil {
+		return err
+	}
+
+	for _, kt := range symbols {
+		if !isValidTag(kt.Name, kt.Info) {
+			continue
 		}
-		for _, p := range client.KnownPrograms {
-			_, err := client.ListSubTags(p, 1)
+
+		if strings.HasPrefix(kt.Name, "Program:") {
+			// we have a program scoped tag.  These are read separately.
+			if !fallbackProgramNames {
+				continue
+			}
+			progName := strings.TrimPrefix(kt.Name, "Program:")
+			if progName == "" {
+				// no program name after prefix; skip creating an invalid KnownProgram
+				continue
+			}
+			p := &KnownProgram{Name: progName}
+			programs[strings.ToLower(p.Name)] = p
+			err := client.listProgramTags(p, tags, types)
 			if err != nil {
-				return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
+				return err
 			}
+		}
 
+		err := client.findTemplate(&kt, types)
+		if err != nil {
+			return err
 		}
+		tags[strings.ToLower(kt.Name)] = kt
 	}
 
-	reqItems := make([]CIPItem, 2)
-	reqItems[0] = client.connectionItem()
+	client.known_lock.Lock()
+	defer client.known_lock.Unlock()
+	if start_instance == 1 {
+		client.KnownTags = tags
+		client.KnownTypes = types
+		client.KnownPrograms = programs
+		return nil
+	}
+	for name := range tags {
+		client.KnownTags[name] = tags[name]
+	}
+	for name := range types {
+		client.KnownTypes[name] = types[name]
+	}
+	return nil
+}
 
-	path, err := Serialize(
-		CipObject_Symbol, CIPInstance(start_instance),
-	)
+// listProgramTags adds the tags of a program to tags and their types to types.
+func (client *Client) listProgramTags(p *KnownProgram, tags map[string]KnownTag, types map[string]UDTDescriptor) error {
+	kts, err := client.listSubTags(p, 1)
 	if err != nil {
-		return fmt.Errorf("couldn't build path. %w", err)
+		return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 	}
-
-	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_GetInstanceAttributeList,
-		PathLength:    byte(path.Len() / 2),
+	for _, kt := range kts {
+		err := client.findTemplate(&kt, types)
+		if err != nil {
+			return err
+		}
+		tags[strings.ToLower(kt.Name)] = kt
 	}
+	return nil
+}
 
-	// setup item
-	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
-	// add path
-	err = reqItems[1].Serialize(path.Bytes())
+// findTemplate looks up the structure of a tag and adds it to types.
+func (client *Client) findTemplate(kt *KnownTag, types map[string]UDTDescriptor) error {
+	if kt.Info.Template_ID() == 0 {
+		return nil
+	}
+	client.Logger.Debug("Looking up template", "tag name", kt.Name)
+	u, err := client.ListMembers(uint32(kt.Info.Template_ID()))
 	if err != nil {
-		return fmt.Errorf("problem serializing path: %w", err)
+		client.Logger.Error("problem reading member list",
+			"string", kt.Name,
+			"info", kt.Info,
+			"template ID", kt.Info.Template_ID(),
+			"predefined", kt.Info.PreDefined(),
+			"error", err)
+		if !client.Connected() {
+			return fmt.Errorf("problem reading the members of %s: %w", kt.Name, err)
+		}
+		return nil
 	}
-	// add service specific data
+	kt.UDT = &u
+	types[u.Name] = u
+	return nil
+}
+
+// listSymbols lists the symbols of a program, or of the controller if there is none, starting from an instance.
+func (client *Client) listSymbols(program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
 	number_of_attr_to_receive := 3
 	attr1_symbol_name := 1
 	attr2_symbol_type := 2
 	attr8_arrayDims := 8
-	err = reqItems[1].Serialize([4]uint16{
+	msg_data, err := Serialize([4]uint16{
 		uint16(number_of_attr_to_receive),
 		uint16(attr1_symbol_name),
 		uint16(attr2_symbol_type),
 		uint16(attr8_arrayDims),
 	})
 	if err != nil {
-		return fmt.Errorf("problem serializing item data: %w", err)
-	}
-
-	itemData, err := serializeItems(reqItems)
-	if err != nil {
-		return fmt.Errorf("problem serializing items: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
-	if err != nil {
-		return err
-	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return fmt.Errorf("problem getting padding bytes. %w", err)
+		return nil, fmt.Errorf("problem serializing item data: %w", err)
 	}
 
-	resp_items, err := readReplyItems(data)
-	if err != nil {
-		return fmt.Errorf("couldn't parse items. %w", err)
-	}
-
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-	//data2.Next(4)
-	data_hdr := msgListInstanceHeader{}
-	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
-	if err != nil {
-		return fmt.Errorf("problem reading list instance header. %w", err)
-	}
-
-	tag_hdr := new(msgtagResultDataHeader)
-	tag_ftr := new(TagInfo)
-	for data2.Len() > 0 {
-
-		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
-		if err != nil {
-			return fmt.Errorf("problem reading tag header. %w", err)
+	symbols := make([]KnownTag, 0, 100)
+	for {
+		path, err := Serialize(CipObject_Symbol, CIPInstance(start_instance))
+		if program != nil {
+			path, err = Serialize(program.Bytes(), CipObject_Symbol, CIPInstance(start_instance))
 		}
-		start_instance = tag_hdr.InstanceID
-
-		tag_name := make([]byte, tag_hdr.NameLength)
-		err = binary.Read(data2, binary.LittleEndian, &tag_name)
 		if err != nil {
-			return fmt.Errorf("problem reading tag name. %w", err)
+			return nil, fmt.Errorf("couldn't build path. %w", err)
 		}
-		tag_string := string(tag_name)
 
-		// the end of the tagName has to be aligned on a 16 bit word
-		//tagName_alignment := tag_hdr.NameLength % 2
-		//if tagName_alignment != 0 {
-		//data2.Next(int(tagName_alignment))
-		//}
-		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
+		item, more, err := client.listMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
 		if err != nil {
-			return fmt.Errorf("problem reading tag footer. %w", err)
-		}
-
-		kt := KnownTag{
-			Name:     string(tag_name),
-			Info:     *tag_ftr,
-			Instance: CIPInstance(tag_hdr.InstanceID),
-		}
-		if tag_ftr.Dimension3 != 0 {
-			kt.Array_Order = make([]int, 3)
-			kt.Array_Order[2] = int(tag_ftr.Dimension3)
-			kt.Array_Order[1] = int(tag_ftr.Dimension2)
-			kt.Array_Order[0] = int(tag_ftr.Dimension1)
-		} else if tag_ftr.Dimension2 != 0 {
-			kt.Array_Order = make([]int, 2)
-			kt.Array_Order[1] = int(tag_ftr.Dimension2)
-			kt.Array_Order[0] = int(tag_ftr.Dimension1)
-		} else if tag_ftr.Dimension1 != 0 {
-			kt.Array_Order = make([]int, 1)
-			kt.Array_Order[0] = int(tag_ftr.Dimension1)
-		} else {
-			kt.Array_Order = make([]int, 0)
+			return nil, fmt.Errorf("problem listing symbols: %w", err)
 		}
 
-		if !isValidTag(tag_string, *tag_ftr) {
-			continue
-		}
+		first := start_instance
+		for len(item.Rest()) > 0 {
+			tag_hdr := msgtagResultDataHeader{}
+			err = item.DeSerialize(&tag_hdr)
+			if err != nil {
+				return nil, fmt.Errorf("problem reading tag header. %w", err)
+			}
+			tag_name := make([]byte, tag_hdr.NameLength)
+			err = item.DeSerialize(&tag_name)
+			if err != nil {
+				return nil, fmt.Errorf("problem reading tag name. %w", err)
+			}
+			tag_ftr := TagInfo{}
+			err = item.DeSerialize(&tag_ftr)
+			if err != nil {
+				return nil, fmt.Errorf("problem reading tag footer. %w", err)
+			}
 
-		if len(tag_string) > 8 {
-			if strings.HasPrefix(tag_string, "Program:") {
-				// we have a program scoped tag.  These are read separately.
-				if !fallbackProgramNames {
-					continue
-				}
-				progName := strings.TrimPrefix(tag_string, "Program:")
-				if progName == "" {
-					// no program name after prefix; skip creating an invalid KnownProgram
-					continue
-				}
-				p := &KnownProgram{Name: progName}
-				client.KnownPrograms[strings.ToLower(p.Name)] = p
-				_, err := client.ListSubTags(p, 1)
-				if err != nil {
-					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
+			kt := KnownTag{
+				Name:        string(tag_name),
+				Info:        tag_ftr,
+				Instance:    CIPInstance(tag_hdr.InstanceID),
+				Parent:      program,
+				Array_Order: make([]int, 0),
+			}
+			for _, dim := range []uint32{tag_ftr.Dimension1, tag_ftr.Dimension2, tag_ftr.Dimension3} {
+				if dim == 0 {
+					break
 				}
-
+				kt.Array_Order = append(kt.Array_Order, int(dim))
+			}
+			symbols = append(symbols, kt)
+			if tag_hdr.InstanceID >= start_instance {
+				// the next part of the list starts after the last symbol of this one.
+				start_instance = tag_hdr.InstanceID + 1
 			}
 		}
 
-		if tag_ftr.Template_ID() != 0 {
-			client.Logger.Debug("found UDT of some sort", "name", kt.Name)
+		if !more {
+			return symbols, nil
 		}
-
-		if tag_ftr.Template_ID() != 0 { //&& !tag_ftr.PreDefined() {
-			client.Logger.Debug("Looking up template", "tag name", tag_string)
-			u, err := client.ListMembers(uint32(tag_ftr.Template_ID()))
-			if err != nil {
-				client.Logger.Error("problem reading member list",
-					"string", tag_string,
-					"header", tag_hdr,
-					"footer", tag_ftr,
-					"template ID", tag_ftr.Template_ID(),
-					"predefined", tag_ftr.PreDefined(),
-					"error", err)
-				//return err
-			} else {
-				kt.UDT = &u
-				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
-				client.KnownTypes[u.Name] = u
-			}
+		if start_instance <= first {
+			return nil, fmt.Errorf("the list of symbols does not continue after instance %d", first)
 		}
-
-		client.KnownTags[strings.ToLower(string(tag_name))] = kt
-
 	}
+}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
-		if err != nil {
-			return err
-		}
+// listMessage sends a message whose reply may be only a part of the complete answer. It returns the item with the data
+// of the reply and whether there is more to come.
+func (client *Client) listMessage(service CIPService, path, msg_data []byte) (*CIPItem, bool, error) {
+	item, err := client.GenericCIPMessage(service, path, msg_data)
+	if err == nil {
+		return item, false, nil
 	}
-
-	return nil
+	var cipErr CIPStatusError
+	if item != nil && errors.As(err, &cipErr) && cipErr.Status == CIPStatus_PartialTransfer {
+		return item, true, nil
+	}
+	return nil, false, err
 }
 
 // per 1756-PM020H-EN-P page 43 there are some conditions in which we should discard the tags
@@ -336,7 +338,7 @@ func isValidTag(tag_string string, tag_ftr TagInfo) bool {
 		return false
 	}
 	if strings.Contains(tag_string, ":") {
-		if !strings.HasPrefix(tag_string, "Program") {
+		if !strings.HasPrefix(tag_string, "Program:") {
 			return false
 		}
 
diff --git a/listmembers.go b/listmembers.go
index 8cc4723..7192cb1 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -50,10 +51,6 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		str_instance = 1
 	}
 
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = client.connectionItem()
-
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
 		//cipObject_Symbol, cipInstance(start_instance),
@@ -62,29 +59,21 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't build path. %w", err)
 	}
 
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_GetAttributeList,
-		PathLength:    byte(p.Len() / 2),
-	}
-
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing path: %w", err)
-	}
 	number_of_attr_to_receive := 4
 	attr_Size_32bitWords := 4
 	attr_Size_Bytes := 5
 	attr_MemberCount := 2
 	attr_symbol_type := 1
-	err = reqitems[1].Serialize([5]uint16{
+	msg_data, err := Serialize([5]uint16{
 		uint16(number_of_attr_to_receive),
 		uint16(attr_Size_32bitWords),
 		uint16(attr_Size_Bytes),
 		uint16(attr_MemberCount),
 		uint16(attr_symbol_type),
 	})
+	if err != nil {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing item data: %w", err)
+	}
 	// the attributes for the template object are
 	// 1 uint16 = Template Handle (Is this the CRC?)
 	// 2 uint16 = Number of members
@@ -95,49 +84,27 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	// 7 uint32 = Multiply Code?
 	// 8 uint8  = Recon Data
 
-	itemdata, err := serializeItems(reqitems)
+	item, err := client.GenericCIPMessage(CIPService_GetAttributeList, p.Bytes(), msg_data.Bytes())
 	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem serializing item data: %w", err)
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading template attributes: %w", err)
 	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, err
-	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading padding. %w", err)
-	}
-
-	resp_items, err := readReplyItems(data)
-	if err != nil {
-		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
-	}
-
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
 
+	// the result includes the headers of the reply.
+	item.Reset()
 	result := msgGetTemplateAttrListResponse{}
-	err = binary.Read(data2, binary.LittleEndian, &result)
+	err = item.DeSerialize(&result)
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	for _, status := range []uint16{result.SizeWords_Status, result.SizeBytes_Status, result.MemberCount_Status, result.Handle_Status} {
+		if status != 0 {
+			return result, CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(status)}
+		}
+	}
 
 	return result, nil
 }
 
-type msgMemberInfoHdr struct {
-	SequenceCount uint16
-	Service       CIPService
-	Reserved      byte
-	Status        uint16
-}
 type msgMemberInfo struct {
 	Info   uint16
 	Type   uint16
@@ -152,12 +119,22 @@ func (m msgMemberInfo) CIPType() CIPType {
 // exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
 // changes, but v21 could also be the version since that is the swap from rslogix to studio
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	return client.listMembers(str_instance, nil)
+}
+
+// parents are the structures that str_instance is nested in.
+func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
+	client.known_lock.Lock()
 	d, ok := client.KnownTypesByID[str_instance]
+	client.known_lock.Unlock()
 	if ok {
 		return d, nil
 	}
+	if slices.Contains(parents, str_instance) {
+		return UDTDescriptor{}, fmt.Errorf("structure %d contains itself", str_instance)
+	}
 
 	template_info, err := client.GetTemplateInstanceAttr(str_instance)
 
@@ -165,73 +142,11 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
 	}
 
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = client.connectionItem()
-
-	p, err := Serialize(
-		CipObject_Template, CIPInstance(str_instance),
-		//cipObject_Symbol, cipInstance(start_instance),
-	)
+	template, err := client.readTemplate(str_instance, template_info.SizeWords)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
-	}
-
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_Read,
-		PathLength:    byte(p.Len() / 2),
-	}
-
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
-	}
-	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
-	err = reqitems[1].Serialize(start_offset)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
-	}
-	err = reqitems[1].Serialize(read_length)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
-	}
-
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item data: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
-	if err != nil {
-		return UDTDescriptor{}, err
-	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
-	}
-
-	resp_items, err := readReplyItems(data)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
-	}
-
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-
-	mihdr := msgMemberInfoHdr{}
-	err = binary.Read(data2, binary.LittleEndian, &mihdr)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
+		return UDTDescriptor{}, fmt.Errorf("couldn't read the template. %w", err)
 	}
+	data2 := bytes.NewBuffer(template)
 
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
@@ -249,10 +164,8 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
 	}
 
-	if strings.Contains(struct_name, ";") {
-		struct_name = strings.Split(struct_name, ";")[0]
-	}
-	struct_name = struct_name[:len(struct_name)-1]
+	// everything after the semicolon is not part of the name.
+	struct_name, _, _ = strings.Cut(strings.TrimSuffix(struct_name, "\x00"), ";")
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
@@ -261,26 +174,68 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		if err != nil && fieldname == "" {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
 		id := descriptor.Members[i].Template_ID()
 		if id != 0 {
 			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			d2, err := client.listMembers(uint32(id), append(slices.Clone(parents), str_instance))
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
+			} else if !client.Connected() {
+				return UDTDescriptor{}, fmt.Errorf("couldn't read the members of %s. %w", fieldname, err)
 			} else {
 				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
 			}
 		}
 	}
 
+	client.known_lock.Lock()
 	client.KnownTypesByID[str_instance] = descriptor
+	client.known_lock.Unlock()
 	return descriptor, nil
 }
 
+// readTemplate reads the definition of a structure.
+func (client *Client) readTemplate(str_instance uint32, size_words uint32) ([]byte, error) {
+	// see page 54 of 1756-PM020H-EN-P
+	const overhead = 23
+	size := int64(size_words)*4 - overhead
+	if size <= 0 {
+		return nil, fmt.Errorf("a template can't have %d words", size_words)
+	}
+
+	p, err := Serialize(
+		CipObject_Template, CIPInstance(str_instance),
+	)
+	if err != nil {
+		return nil, fmt.Errorf("couldn't build path. %w", err)
+	}
+
+	template := make([]byte, 0)
+	for {
+		start_offset := uint32(len(template))
+		read_length := min(size-int64(len(template)), 0xFFFF)
+		msg_data, err := Serialize(start_offset, uint16(read_length))
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing item start offset: %w", err)
+		}
+		item, more, err := client.listMessage(CIPService_Read, p.Bytes(), msg_data.Bytes())
+		if err != nil {
+			return nil, err
+		}
+		template = append(template, item.Rest()...)
+		if int64(len(template)) >= size || (!more && read_length < 0xFFFF) {
+			return template, nil
+		}
+		if len(item.Rest()) == 0 {
+			return nil, fmt.Errorf("got no data at offset %d", start_offset)
+		}
+	}
+}
+
 // full descriptor of a struct in the controller.
 // could be a UDT or a builtin struct like a TON
 type UDTDescriptor struct {
diff --git a/listsubtags.go b/listsubtags.go
index ed54d8d..05269cc 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -1,8 +1,7 @@
 package gologix
 
 import (
-	"bytes"
-	"encoding/binary"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -13,140 +12,44 @@ import (
 // see 1756-PM020H-EN-P March 2022 page 39
 // also see https://forums.mrclient.com/index.php?/topic/40626-reading-and-writing-io-tags-in-plc/
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
-
-	new_kts := make([]KnownTag, 0, 100)
 	client.Logger.Debug("readall", "start id", start_instance)
 
-	// have to start at 1.
-	if start_instance == 0 {
-		start_instance = 1
-	}
-
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = client.connectionItem()
-
-	p, err := Serialize(
-		Program.Bytes(),
-		CipObject_Symbol, CIPInstance(start_instance),
-	)
+	new_kts, err := client.listSubTags(Program, start_instance)
 	if err != nil {
-		return new_kts, fmt.Errorf("couldn't build path. %w", err)
+		return new_kts, err
 	}
 
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_GetInstanceAttributeList,
-		PathLength:    byte(p.Len() / 2),
+	client.known_lock.Lock()
+	defer client.known_lock.Unlock()
+	for _, kt := range new_kts {
+		client.KnownTags[strings.ToLower(kt.Name)] = kt
 	}
 
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing path: %w", err)
-	}
-	number_of_attr_to_receive := 3
-	attr1_symbol_name := 1
-	attr2_symbol_type := 2
-	attr8_arraydims := 8
-	err = reqitems[1].Serialize([4]uint16{uint16(number_of_attr_to_receive), uint16(attr1_symbol_name), uint16(attr2_symbol_type), uint16(attr8_arraydims)})
-	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing item attribute list: %w", err)
-	}
-
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return nil, fmt.Errorf("problem serializing items: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
-	if err != nil {
-		return new_kts, err
-	}
-	_ = hdr
-	_ = data
+	return new_kts, nil
+}
 
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return nil, fmt.Errorf("problem reading padding. %w", err)
+func (client *Client) listSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
+	new_kts := make([]KnownTag, 0, 100)
+	if Program == nil {
+		return new_kts, errors.New("no program to list the tags of")
 	}
 
-	resp_items, err := readReplyItems(data)
-	if err != nil {
-		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
+	// have to start at 1.
+	if start_instance == 0 {
+		start_instance = 1
 	}
 
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-	//data2.Next(4)
-	data_hdr := msgListInstanceHeader{}
-	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
+	symbols, err := client.listSymbols(Program, start_instance)
 	if err != nil {
-		return nil, fmt.Errorf("problem reading tag header. %w", err)
+		return new_kts, err
 	}
 
-	tag_hdr := new(msgtagResultDataHeader)
-	tag_ftr := new(TagInfo)
-	for data2.Len() > 0 {
-
-		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
-		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
-		}
-		newtag_bytes := make([]byte, tag_hdr.NameLength)
-		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
-		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
-		}
-		newtag_name := fmt.Sprintf("program:%s.%s", Program.Name, string(newtag_bytes))
-
-		// the end of the tagname has to be aligned on a 16 bit word
-		//tagname_alignment := tag_hdr.NameLength % 2
-		//if tagname_alignment != 0 {
-		//data2.Next(int(tagname_alignment))
-		//}
-		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
-		if err != nil {
-			return nil, fmt.Errorf("problem reading tag footer. %w", err)
-		}
-
-		kt := KnownTag{
-			Name:     newtag_name,
-			Info:     *tag_ftr,
-			Instance: CIPInstance(tag_hdr.InstanceID),
-			Parent:   Program,
-		}
-		if tag_ftr.Dimension3 != 0 {
-			kt.Array_Order = make([]int, 3)
-			kt.Array_Order[2] = int(tag_ftr.Dimension3)
-			kt.Array_Order[1] = int(tag_ftr.Dimension2)
-			kt.Array_Order[0] = int(tag_ftr.Dimension1)
-		} else if tag_ftr.Dimension2 != 0 {
-			kt.Array_Order = make([]int, 2)
-			kt.Array_Order[1] = int(tag_ftr.Dimension2)
-			kt.Array_Order[0] = int(tag_ftr.Dimension1)
-		} else if tag_ftr.Dimension1 != 0 {
-			kt.Array_Order = make([]int, 1)
-			kt.Array_Order[0] = int(tag_ftr.Dimension1)
-		} else {
-			kt.Array_Order = make([]int, 0)
-		}
-		if !isValidTag(string(newtag_bytes), *tag_ftr) {
+	for _, kt := range symbols {
+		if !isValidTag(kt.Name, kt.Info) {
 			continue
 		}
-		client.KnownTags[strings.ToLower(newtag_name)] = kt
+		kt.Name = fmt.Sprintf("program:%s.%s", Program.Name, kt.Name)
 		new_kts = append(new_kts, kt)
-
-		start_instance = tag_hdr.InstanceID
-
-	}
-
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
-		if err != nil {
-			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
-		}
 	}
 
 	return new_kts, nil
-- 
2.43.0


From 7158bd1335f8505ddcc636b017c535007d980e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 19/51] fix: attribute reads report the status of the reply

---
 getattr.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/getattr.go b/getattr.go
index 83b8150..8bb9b5c 100644
--- a/getattr.go
+++ b/getattr.go
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return nil, CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(resphdr.Status)}
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
@@ -220,6 +223,11 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 	if err != nil {
 		return msgGetControllerPropList{}, fmt.Errorf("couldn't read data. %w", err)
 	}
+	for _, status := range []uint16{result.Attr1_Status, result.Attr2_Status, result.Attr3_Status, result.Attr4_Status, result.Attr5_Status} {
+		if status != uint16(CIPStatus_OK) {
+			return msgGetControllerPropList{}, CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(status)}
+		}
+	}
 	client.Logger.Debug("Controller Prop", "result", result)
 
 	return result, nil
-- 
2.43.0


From 4dc825bba04897eb8ead0ffc4d76878380985597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 20/51] fix: a name that ends in a bit number always delivers
 that bit

---
 read.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/read.go b/read.go
index d4a3f6b..51d452c 100644
--- a/read.go
+++ b/read.go
@@ -481,6 +481,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	if hdr2.Type == CIPTypeStruct {
+		if ioi.BitAccess {
+			return nil, fmt.Errorf("%s asks for a bit of a structure", tag)
+		}
 		if datatype == CIPTypeSTRING {
 			if elements == 1 {
 				str_hdr := cipStringHeader{}
@@ -526,9 +529,12 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		str := items[1].Data[items[1].Pos:]
 		return str, nil
 	}
+	if ioi.BitAccess && elements != 1 {
+		return nil, fmt.Errorf("can't read %d elements of the single bit %s", elements, tag)
+	}
 	if elements == 1 {
-		if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
-			// we have requested a bool from some other type.  Maybe a bit access?
+		if ioi.BitAccess {
+			// the tag name asks for one bit of the value
 			value, err := readValue(hdr2.Type, &items[1])
 			if err != nil {
 				return nil, fmt.Errorf("problem reading bool tag %s: %w", tag, err)
@@ -1025,6 +1031,9 @@ func (tag tagDesc) readValue(ioi *tagIOI, dataType CIPType, r *bytes.Buffer) (an
 	if tag.Elements < 1 {
 		return nil, errors.New("can't read 0 elements")
 	}
+	if ioi.BitAccess && dataType == CIPTypeStruct {
+		return nil, fmt.Errorf("%s asks for a bit of a structure", tag.TagName)
+	}
 	if tag.TagType == CIPTypeSTRING {
 		if dataType != CIPTypeStruct {
 			return nil, fmt.Errorf("got a %v instead of a string", dataType)
@@ -1081,8 +1090,11 @@ func (tag tagDesc) readValue(ioi *tagIOI, dataType CIPType, r *bytes.Buffer) (an
 		return x.Elem().Interface(), nil
 	}
 
-	if tag.TagType == CIPTypeBOOL && dataType != CIPTypeBOOL && ioi.BitAccess && tag.Elements == 1 {
-		// we have requested a bool from some other type.  Maybe a bit access?
+	if ioi.BitAccess && tag.Elements != 1 {
+		return nil, fmt.Errorf("can't read %d elements of a single bit", tag.Elements)
+	}
+	if ioi.BitAccess {
+		// the tag name asks for one bit of the value
 		value, err := readValue(dataType, r)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 30c37dc45ef6ba956f0fa7c1a46f22fe3893e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 21/51] fix: structure definitions start a new byte of BOOLs
 after an array and reject types without a Logix name

---
 pack.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pack.go b/pack.go
index 3e6d1c1..c8e4e13 100644
--- a/pack.go
+++ b/pack.go
@@ -480,8 +480,11 @@ func TypeEncode(data any) (string, uint16, error) {
 	bitpos := 0
 
 	// start reflecting and loop through the fields of the struct
-	refType := reflect.TypeOf(data)
 	refVal := reflect.ValueOf(data)
+	if refVal.Kind() != reflect.Struct {
+		return "", 0, fmt.Errorf("can't encode the type of a %T", data)
+	}
+	refType := refVal.Type()
 
 	// start with the structure name
 	encoded = refType.Name()
@@ -495,10 +498,19 @@ func TypeEncode(data any) (string, uint16, error) {
 			// we have an array without "nopack".  Check if it is a bool array
 			arr := refVal.Field(i)
 			var at string
-			if arr.Type().Elem().Kind() != reflect.Struct {
-				at, _ = goTypeToLogixTypeName(field.Type.Elem())
-			} else {
-				at, _, _ = TypeEncode(arr.Index(0).Interface())
+			var err error
+			switch arr.Type().Elem().Kind() {
+			case reflect.Bool:
+				// the bits are packed together with the ones before them
+			case reflect.Struct:
+				bitpos = 0
+				at, _, err = TypeEncode(reflect.Zero(arr.Type().Elem()).Interface())
+			default:
+				bitpos = 0
+				at, err = goTypeToLogixTypeName(field.Type.Elem())
+			}
+			if err != nil {
+				return "", 0, fmt.Errorf("problem encoding array %s: %w", field.Name, err)
 			}
 			encoded += fmt.Sprintf(",%s[%d]", at, arr.Len())
 			continue
@@ -522,10 +534,13 @@ func TypeEncode(data any) (string, uint16, error) {
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
 		if k != reflect.Struct {
-			n, _ := goTypeToLogixTypeName(refVal.Field(i).Type())
+			n, err := goTypeToLogixTypeName(refVal.Field(i).Type())
+			if err != nil {
+				return "", 0, fmt.Errorf("problem encoding %s: %w", field.Name, err)
+			}
 			encoded += fmt.Sprintf(",%s", n)
 		} else {
-			str_text, _, err := TypeEncode(refVal.Field(i).Interface())
+			str_text, _, err := TypeEncode(reflect.Zero(field.Type).Interface())
 			if err != nil {
 				return "", 0, fmt.Errorf("problem encoding sub-structure: %w", err)
 			}
@@ -539,7 +554,7 @@ func TypeEncode(data any) (string, uint16, error) {
 }
 
 func goTypeToLogixTypeName(t reflect.Type) (string, error) {
-	switch t.Name() {
+	switch t.Kind().String() {
 	case "int8":
 		return "SINT", nil
 	case "int16":
@@ -561,7 +576,7 @@ func goTypeToLogixTypeName(t reflect.Type) (string, error) {
 	case "float64":
 		return "LREAL", nil
 	}
-	return "", nil
+	return "", fmt.Errorf("there is no logix type for a %v", t)
 }
 
 // this is the confirguration for the CRC16 checksum used in the abbreviated type ID calculation for
-- 
2.43.0


From 6d8b3e87dd01979dd1a4b14b9511641ac7c5e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 22/51] fix: packing and unpacking report what has no place in
 a structure and read whole paddings

---
 pack.go | 63 +++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/pack.go b/pack.go
index c8e4e13..3a839f7 100644
--- a/pack.go
+++ b/pack.go
@@ -109,11 +109,7 @@ func Pack(w io.Writer, data any) (int, error) {
 	case Packable:
 		return d.Pack(w)
 	case Serializable:
-		n, err := w.Write(d.Bytes())
-		if err != nil {
-			return 0, nil
-		}
-		return n, nil
+		return w.Write(d.Bytes())
 	}
 
 	// keep track of how many bytes we've written.  This is so we can correct field alignment with padding bytes if needed
@@ -125,10 +121,19 @@ func Pack(w io.Writer, data any) (int, error) {
 	bitpack := byte(0)
 
 	// start reflecting and loop through the fields of the struct
-	refType := reflect.TypeOf(data)
 	refVal := reflect.ValueOf(data)
+	if refVal.Kind() == reflect.Pointer && !refVal.IsNil() {
+		return Pack(w, refVal.Elem().Interface())
+	}
+	if refVal.Kind() != reflect.Struct {
+		return 0, fmt.Errorf("can't pack a %T", data)
+	}
+	refType := refVal.Type()
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
+		if !p.packable(field) {
+			return pos, fmt.Errorf("can't pack field %s of type %v", field.Name, field.Type)
+		}
 		a := p.Align(field.Type)
 		t := field.Tag.Get("pack")
 		s := int(field.Type.Size())
@@ -251,6 +256,25 @@ func Pack(w io.Writer, data any) (int, error) {
 	return pos, nil
 }
 
+// only exported fields that have a fixed size have a place in a structure.
+func (p cipPack) packable(field reflect.StructField) bool {
+	t := field.Type
+	dims := 0
+	for t.Kind() == reflect.Array {
+		t = t.Elem()
+		dims++
+	}
+	switch t.Kind() {
+	case reflect.Bool, reflect.Struct:
+		return field.IsExported() && dims < 2
+	case reflect.Float32, reflect.Float64,
+		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return field.IsExported()
+	}
+	return false
+}
+
 // write every structure of an array, each padded to the alignment of the structure.
 func (p cipPack) packStructArray(w io.Writer, arr reflect.Value) (int, error) {
 	pos := 0
@@ -313,11 +337,17 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	if refVal.Kind() == reflect.Ptr {
 		refVal = reflect.ValueOf(data).Elem()
 	}
+	if !refVal.IsValid() {
+		return 0, fmt.Errorf("can't unpack into a %T", data)
+	}
 
 	refType := refVal.Type()
 	k := refType.Kind()
 	switch k {
 	case reflect.Slice:
+		if refType.Elem().Kind() != reflect.Struct {
+			return 0, fmt.Errorf("can't unpack into a %T", data)
+		}
 		// we have a slice of structs.  We need to unpack each one individually
 		l := refVal.Len()
 		for i := 0; i < l; i++ {
@@ -328,21 +358,28 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.elementAlign(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
-				if err != nil {
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
+				n += s
+				if err != nil && i < l-1 {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
-				n += s
 			}
 		}
 		return n, nil
 
 	case reflect.Struct:
-		// continue on
+		if !refVal.CanSet() {
+			return 0, fmt.Errorf("can't unpack into a %T", data)
+		}
 
+	default:
+		return 0, fmt.Errorf("can't unpack into a %T", data)
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
+		if !p.packable(field) {
+			return n, fmt.Errorf("can't unpack field %s of type %v", field.Name, field.Type)
+		}
 		a := p.Align(field.Type)
 		t := field.Tag.Get("pack")
 		s := int(field.Type.Size())
@@ -361,7 +398,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 					for ai := 0; ai < l; ai++ {
 						if bitpos == 0 {
 							br := []byte{0}
-							_, err = r.Read(br)
+							_, err = io.ReadFull(r, br)
 							if err != nil {
 								return n, fmt.Errorf("problem reading bool. %w", err)
 							}
@@ -384,7 +421,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 				// try to pack bools
 				if bitpos == 0 {
 					br := []byte{0}
-					_, err = r.Read(br)
+					_, err = io.ReadFull(r, br)
 					if err != nil {
 						return n, fmt.Errorf("problem reading packed bool. %w", err)
 					}
@@ -416,7 +453,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
-- 
2.43.0


From a5f933674ebbaa10a43cd37c1feaa6a5295def64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 23/51] fix: refuse a connection path that doesn't fit the
 forward open's word count

---
 connect.go    | 18 ++++++++++++++++--
 disconnect.go |  7 ++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/connect.go b/connect.go
index 2019f62..f0a7a35 100644
--- a/connect.go
+++ b/connect.go
@@ -426,7 +426,10 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	msg.ToRpi = uint32(client.RPI / time.Microsecond)
 	msg.TONetworkConnParams = connectionParameters
 	msg.TransportTrigger = 0xA3
-	msg.ConnPathSize = byte(path.Len() / 2)
+	msg.ConnPathSize, err = connectionPathWords(path.Len())
+	if err != nil {
+		return item, err
+	}
 
 	err = item.Serialize(msg)
 	if err != nil {
@@ -440,6 +443,14 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	return item, nil
 }
 
+// connectionPathWords is the size of a connection path as it goes on the wire: a byte that counts 16 bit words.
+func connectionPathWords(size int) (byte, error) {
+	if size%2 != 0 || size/2 > 255 {
+		return 0, fmt.Errorf("a connection path of %d bytes can't be sent. It has to be an even number of at most 510", size)
+	}
+	return byte(size / 2), nil
+}
+
 type msgCIPRegister struct {
 	ProtocolVersion uint16
 	OptionFlag      uint16
@@ -507,7 +518,10 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	msg.ToRpi = uint32(client.RPI / time.Microsecond)
 	msg.TONetworkConnParams = connectionParameters
 	msg.TransportTrigger = 0xA3
-	msg.ConnPathSize = byte(path.Len() / 2)
+	msg.ConnPathSize, err = connectionPathWords(path.Len())
+	if err != nil {
+		return item, err
+	}
 	err = item.Serialize(msg)
 	if err != nil {
 		return item, fmt.Errorf("error serializing forward open message. %w", err)
diff --git a/disconnect.go b/disconnect.go
index 8b8bc4c..ce016c8 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -95,6 +95,11 @@ func (client *Client) disconnect(conn net.Conn) error {
 		return fmt.Errorf("error serializing path: %w", err)
 	}
 
+	pathWords, err := connectionPathWords(path.Len())
+	if err != nil {
+		return err
+	}
+
 	msg := msgCipUnRegister{
 		Service:                CIPService_ForwardClose,
 		CipPathSize:            0x02,
@@ -107,7 +112,7 @@ func (client *Client) disconnect(conn net.Conn) error {
 		ConnectionSerialNumber: client.ConnectionSerialNumber,
 		VendorID:               client.VendorId,
 		OriginatorSerialNumber: client.SerialNumber,
-		PathSize:               byte(path.Len() / 2),
+		PathSize:               pathWords,
 		Reserved:               0x00,
 	}
 
-- 
2.43.0


From 3e7dfd88dba68a58e7a314b0ef879bdb1bbec0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 24/51] fix: L5X values in every radix and of every type,
 malformed ones are errors

---
 l5x/types.go | 154 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 127 insertions(+), 27 deletions(-)

diff --git a/l5x/types.go b/l5x/types.go
index f76db98..380f410 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -2,45 +2,145 @@ package l5x
 
 import (
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 )
 
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
-	case "REAL":
-		value, _ := strconv.ParseFloat(valuestr, 64)
-		return float64(value), nil
-	case "DINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return int32(value), nil
+	case "REAL", "LREAL":
+		return parseReal(valuestr)
 	case "BOOL", "BIT":
-		value, _ := strconv.ParseBool(valuestr)
-		return bool(value), nil
-	case "INT":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return int16(value), nil
+		if value, err := strconv.ParseBool(valuestr); err == nil {
+			return value, nil
+		}
+		value, err := parseInteger(valuestr, 1, false)
+		return value != 0, err
 	case "STRING":
 		return valuestr, nil
 	case "SINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return int8(value), nil
+		value, err := parseInteger(valuestr, 8, true)
+		return int8(value), err
+	case "INT":
+		value, err := parseInteger(valuestr, 16, true)
+		return int16(value), err
+	case "DINT":
+		value, err := parseInteger(valuestr, 32, true)
+		return int32(value), err
 	case "LINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return int64(value), nil
-	case "BYTE":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return uint8(value), nil
-	case "WORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return uint16(value), nil
-	case "DWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return uint32(value), nil
-	case "LWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return uint64(value), nil
+		value, err := parseInteger(valuestr, 64, true)
+		return int64(value), err
+	case "BYTE", "USINT":
+		value, err := parseInteger(valuestr, 8, false)
+		return uint8(value), err
+	case "WORD", "UINT":
+		value, err := parseInteger(valuestr, 16, false)
+		return uint16(value), err
+	case "DWORD", "UDINT":
+		value, err := parseInteger(valuestr, 32, false)
+		return uint32(value), err
+	case "LWORD", "ULINT":
+		value, err := parseInteger(valuestr, 64, false)
+		return uint64(value), err
 
 	default:
 		return fmt.Sprintf("Unknown type: %s", typestr), nil
 	}
 }
+
+func parseReal(text string) (float64, error) {
+	switch upper := strings.ToUpper(text); {
+	case strings.HasPrefix(upper, "-1.#INF"):
+		return math.Inf(-1), nil
+	case strings.HasPrefix(upper, "1.#INF"):
+		return math.Inf(1), nil
+	case strings.Contains(upper, "#QNAN"), strings.Contains(upper, "#SNAN"), strings.Contains(upper, "#IND"):
+		return math.NaN(), nil
+	}
+	value, err := strconv.ParseFloat(text, 64)
+	if err != nil {
+		return 0, fmt.Errorf("%q is not a real number", text)
+	}
+	return value, nil
+}
+
+// parseInteger reads a number of the given size in any of the radixes a tag can be displayed in: decimal,
+// 2#0000_0001, 8#001, 16#00ff or 'a$00'. The result has the bits of the number, in the least significant places.
+func parseInteger(text string, bits int, signed bool) (uint64, error) {
+	base := 10
+	digits := text
+	switch {
+	case strings.HasPrefix(text, "2#"):
+		base = 2
+	case strings.HasPrefix(text, "8#"):
+		base = 8
+	case strings.HasPrefix(text, "16#"):
+		base = 16
+	case strings.HasPrefix(text, "'"):
+		return parseCharacters(text, bits)
+	}
+	if base != 10 {
+		digits = strings.ReplaceAll(text[strings.IndexByte(text, '#')+1:], "_", "")
+	}
+	if base == 10 && signed {
+		value, err := strconv.ParseInt(digits, base, bits)
+		if err != nil {
+			return 0, fmt.Errorf("%q is not a number of %d bits", text, bits)
+		}
+		return uint64(value), nil
+	}
+	value, err := strconv.ParseUint(digits, base, bits)
+	if err != nil {
+		return 0, fmt.Errorf("%q is not a number of %d bits", text, bits)
+	}
+	return value, nil
+}
+
+// parseCharacters reads a number that is displayed as characters, the most significant one first.
+func parseCharacters(text string, bits int) (uint64, error) {
+	malformed := fmt.Errorf("%q is not a number of %d bits", text, bits)
+	if len(text) < 2 || !strings.HasSuffix(text, "'") {
+		return 0, malformed
+	}
+	chars := text[1 : len(text)-1]
+	var value uint64
+	count := 0
+	for i := 0; i < len(chars); i++ {
+		c := chars[i]
+		if c == '$' {
+			i++
+			if i >= len(chars) {
+				return 0, malformed
+			}
+			switch chars[i] {
+			case '$', '\'':
+				c = chars[i]
+			case 'L', 'l', 'N', 'n':
+				c = '\n'
+			case 'P', 'p':
+				c = '\f'
+			case 'R', 'r':
+				c = '\r'
+			case 'T', 't':
+				c = '\t'
+			default:
+				if i+2 > len(chars) {
+					return 0, malformed
+				}
+				code, err := strconv.ParseUint(chars[i:i+2], 16, 8)
+				if err != nil {
+					return 0, malformed
+				}
+				c = byte(code)
+				i++
+			}
+		}
+		value = value<<8 | uint64(c)
+		count++
+	}
+	if count*8 > bits {
+		return 0, malformed
+	}
+	return value, nil
+}
-- 
2.43.0


From aac73d1e79a529a30d717689cfaea245b02985a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 25/51] fix: L5X comments keep the quotes around them

---
 l5x/schema.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/l5x/schema.go b/l5x/schema.go
index 72d6ed9..13ab6c3 100644
--- a/l5x/schema.go
+++ b/l5x/schema.go
@@ -156,7 +156,7 @@ type DescriptionType struct {
 }
 
 func (d DescriptionType) CData() string {
-	return ParseCData(d.InnerValue)
+	return parseText(d.InnerValue)
 }
 
 // DescriptionTextType ...
@@ -3864,7 +3864,7 @@ type CommentWideType struct {
 }
 
 func (d CommentWideType) CData() string {
-	return ParseCData(d.InnerValue)
+	return parseText(d.InnerValue)
 }
 
 // LocalizedCommentWideType ...
@@ -3979,12 +3979,18 @@ type DataStructure struct {
 	ArrayMember     []*DataArray     `xml:"ArrayMember"`
 }
 
-func ParseCData(iv []byte) string {
+// parseText is the text in a CDATA section.
+func parseText(iv []byte) string {
 	cv := string(iv)
 	cv = strings.TrimSpace(cv)
 	// everything should have this prefix and suffix
 	cv = strings.TrimPrefix(cv, "<![CDATA[")
 	cv = strings.TrimSuffix(cv, "]]>")
+	return cv
+}
+
+func ParseCData(iv []byte) string {
+	cv := parseText(iv)
 	// strings have single quotes around them so remove them too
 	// this does nothing if it's not a string
 	cv = strings.TrimPrefix(cv, "'")
-- 
2.43.0


From c02a46ef2b43dbaf74c2459d1496fc46ebed1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 26/51] fix: load L5X tags of every shape and all comments,
 missing sections are empty

---
 l5x/load_tags.go | 339 ++++++++++++++++++++++++++---------------------
 1 file changed, 187 insertions(+), 152 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..9480415 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -8,87 +8,23 @@ import (
 
 func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
-	var err error
 	tags := make(map[string]any)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
-		if tag.Data != nil {
-			if len(tag.Data) > 1 {
-				if tag.Data[1].DataValue != nil {
-					tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, tag.Data[1].DataValue.ValueAttr)
-				}
-			}
-		}
-		if err != nil {
-			return nil, fmt.Errorf("error converting %s: %s", tag.NameAttr, err)
-		}
+	if err := loadTagCollection(tags, l5xData.Controller.Tags); err != nil {
+		return nil, fmt.Errorf("error converting %w", err)
 	}
 
+	if l5xData.Controller.Programs == nil {
+		return tags, nil
+	}
 	for _, program := range l5xData.Controller.Programs.Program {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			tagtype := tag.DataTypeAttr
-			if len(tag.Data) > 1 {
-				// could be an atomic value
-				if tag.Data[1].DataValue != nil {
-					progtags[tagname], err = L5xTypeToGoType(tagtype, tag.Data[1].DataValue.ValueAttr)
-					if err != nil {
-						return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-					}
-					continue
-				}
-				// or a structure
-				if tag.Data[1].Structure != nil {
-					mapValue := make(map[string]any)
-					for _, member := range tag.Data[1].Structure.DataValueMember {
-						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
-						}
-					}
-					progtags[tagname] = mapValue
-					continue
-				}
-				// or an array of atomic values or structures
-				if tag.Data[1].Array != nil {
-
-					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
-					if err != nil {
-						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
-					}
-					arrValue := make([]any, 0, dims)
-					for _, element := range tag.Data[1].Array.Element {
-						if element.Structure != nil {
-							// this is an array of structures
-							myValue := make(map[string]any)
-							for _, member := range element.Structure[0].DataValueMember {
-								if member.DataTypeAttr == "STRING" {
-									myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.CData())
-									if err != nil {
-										return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-									}
-									continue
-								}
-								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-								if err != nil {
-									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-								}
-							}
-							arrValue = append(arrValue, myValue)
-							continue
-						}
-
-						val, err := L5xTypeToGoType(tagtype, element.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s: %s", tagname, err)
-						}
-						arrValue = append(arrValue, val)
-					}
-					progtags[tagname] = arrValue
-				}
-			}
+		if err := loadTagCollection(progtags, program.Tags); err != nil {
+			return nil, fmt.Errorf("error converting %s.%w", progprefix, err)
 		}
 		tags[progprefix] = progtags
 
@@ -97,65 +33,162 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 }
 
-func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
-	dtm := GetDataTypeMap(l5xData)
+// put the value of every tag of the collection that has one into the map.
+func loadTagCollection(into map[string]any, tags *TagCollectionType) error {
+	if tags == nil {
+		return nil
+	}
+	for _, tag := range tags.Tag {
+		for _, data := range tag.Data {
+			value, ok, err := loadTagData(tag, data)
+			if err != nil {
+				return fmt.Errorf("%s: %w", tag.NameAttr, err)
+			}
+			if ok {
+				into[tag.NameAttr] = value
+				break
+			}
+		}
+	}
+	return nil
+}
 
-	var err error
-	tags := make(map[string]string)
+// the value in one of the formats of a tag's data, if it is one that can be loaded.
+func loadTagData(tag *TagType, data *DataWideType) (value any, ok bool, err error) {
+	switch {
+	case data.DataValue != nil:
+		// an atomic value
+		typ := tag.DataTypeAttr
+		if typ == "" {
+			typ = data.DataValue.DataTypeAttr
+		}
+		value, err = L5xTypeToGoType(typ, data.DataValue.ValueAttr)
+	case data.Structure != nil:
+		value, err = loadStructure(data.Structure)
+	case data.Array != nil:
+		value, err = loadArray(data.Array, tag.DataTypeAttr)
+	case data.FormatAttr == "String":
+		value = data.CData()
+	default:
+		return nil, false, nil
+	}
+	return value, true, err
+}
 
-	for _, module := range l5xData.Controller.Modules.Module {
-		if module.Communications == nil {
+func loadStructure(structure *DataStructure) (map[string]any, error) {
+	values := make(map[string]any)
+	for _, member := range structure.DataValueMember {
+		if member.ValueAttr == "" && len(strings.TrimSpace(string(member.InnerValue))) > 0 {
+			// the characters of a string
+			values[member.NameAttr] = member.CData()
 			continue
 		}
-		if module.Communications.Connections == nil {
-			continue
+		value, err := L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", member.NameAttr, err)
 		}
-		if module.Communications.Connections.Connection == nil {
-			continue
+		values[member.NameAttr] = value
+	}
+	for _, member := range structure.StructureMember {
+		value, err := loadStructure(member)
+		if err != nil {
+			return nil, fmt.Errorf("%s.%w", member.NameAttr, err)
 		}
-		for _, connection := range module.Communications.Connections.Connection {
-			in := connection.InputTag
-			if in != nil {
-				if in.Comments != nil {
-					for _, commentGroup := range in.Comments {
-						for _, comment := range commentGroup.Comment {
-							name := fmt.Sprintf("%s:I%s", module.NameAttr, comment.OperandAttr)
-							c := comment.CData()
-							if c == "" {
-								continue
-							}
-							tags[name] = c
-						}
-					}
-				}
+		values[member.NameAttr] = value
+	}
+	for _, member := range structure.ArrayMember {
+		value, err := loadArray(member, "")
+		if err != nil {
+			return nil, fmt.Errorf("%s%w", member.NameAttr, err)
+		}
+		values[member.NameAttr] = value
+	}
+	return values, nil
+}
+
+// an array is the list of its elements in the order of the document, whatever its dimensions.
+func loadArray(array *DataArray, typ string) ([]any, error) {
+	if typ == "" {
+		typ = array.DataTypeAttr
+	}
+	values := make([]any, 0, len(array.Element))
+	for _, element := range array.Element {
+		var value any
+		var err error
+		if len(element.Structure) > 0 {
+			value, err = loadStructure(element.Structure[0])
+		} else {
+			value, err = L5xTypeToGoType(typ, element.ValueAttr)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", element.IndexAttr, err)
+		}
+		values = append(values, value)
+	}
+	return values, nil
+}
+
+func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
+	dtm := GetDataTypeMap(l5xData)
+
+	tags := make(map[string]string)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
+
+	if l5xData.Controller.Modules != nil {
+		for _, module := range l5xData.Controller.Modules.Module {
+			if module.Communications == nil {
+				continue
 			}
-			out := connection.OutputTag
-			if out != nil {
-				if out.Comments != nil {
-					for _, commentGroup := range out.Comments {
-						for _, comment := range commentGroup.Comment {
-							name := fmt.Sprintf("%s:O%s", module.NameAttr, comment.OperandAttr)
-							c := comment.CData()
-							if c == "" {
-								continue
-							}
-							tags[name] = c
-						}
-					}
+			if module.Communications.Connections == nil {
+				continue
+			}
+			for _, connection := range module.Communications.Connections.Connection {
+				if in := connection.InputTag; in != nil {
+					loadOperandComments(tags, fmt.Sprintf("%s:I", module.NameAttr), in.Comments)
+				}
+				if out := connection.OutputTag; out != nil {
+					loadOperandComments(tags, fmt.Sprintf("%s:O", module.NameAttr), out.Comments)
 				}
 			}
+		}
+	}
+
+	loadTagCollectionComments(tags, "", l5xData.Controller.Tags, dtm)
 
+	if l5xData.Controller.Programs != nil {
+		for _, program := range l5xData.Controller.Programs.Program {
+			loadTagCollectionComments(tags, fmt.Sprintf("program:%s.", program.NameAttr), program.Tags, dtm)
 		}
 	}
+	return tags, nil
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+}
 
-		mydesc := ""
-		if tag.Data != nil {
-			if len(tag.Description) > 0 {
-				mydesc = tag.Description[0].CData()
-				tags[tag.NameAttr] = mydesc
+// put the comments on parts of a tag into the map.
+func loadOperandComments(into map[string]string, tagname string, comments []*CommentCollectionType) {
+	for _, commentGroup := range comments {
+		for _, comment := range commentGroup.Comment {
+			c := comment.CData()
+			if c == "" {
+				continue
 			}
+			into[tagname+comment.OperandAttr] = c
+		}
+	}
+}
+
+// put the descriptions of the tags, of the members of their types and of parts of them into the map.
+func loadTagCollectionComments(into map[string]string, prefix string, tags *TagCollectionType, dtm map[string]*DataTypeType) {
+	if tags == nil {
+		return
+	}
+	for _, tag := range tags.Tag {
+		tagname := prefix + tag.NameAttr
+		mydesc := tag.Descriptions()
+		if len(tag.Description) > 0 {
+			into[tagname] = mydesc
 		}
 		typeComments := GetTypeComments(dtm, tag.DataTypeAttr)
 		for typeName, typeComment := range typeComments {
@@ -163,48 +196,37 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 				if mydesc != "" {
 					typeComment = mydesc + " " + typeComment
 				}
-				tags[fmt.Sprintf("%s.%s", tag.NameAttr, typeName)] = typeComment
+				into[fmt.Sprintf("%s.%s", tagname, typeName)] = typeComment
 			}
 		}
+		// a comment on a part of the tag replaces what its type says about it.
+		loadOperandComments(into, tagname, tag.Comments)
 	}
-
-	for _, program := range l5xData.Controller.Programs.Program {
-		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
-		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			if len(tag.Description) > 1 {
-				comment := ""
-				for d := range tag.Description {
-					comment = comment + tag.Description[d].CData()
-				}
-				progtags[tagname] = comment
-				if err != nil {
-					return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-				}
-				continue
-			}
-		}
-	}
-	return tags, nil
-
 }
 
 func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	comments := make(map[string]string)
 
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.Programs == nil {
+		return comments, nil
+	}
+
 	taskLookup := make(map[string]string)
-	tasks := l5xData.Controller.Tasks.Task
-	for _, task := range tasks {
-		if task.ScheduledPrograms == nil {
-			continue
-		}
-		for _, program := range task.ScheduledPrograms.ScheduledProgram {
-			taskLookup[program.NameAttr] = task.NameAttr
+	if l5xData.Controller.Tasks != nil {
+		for _, task := range l5xData.Controller.Tasks.Task {
+			if task.ScheduledPrograms == nil {
+				continue
+			}
+			for _, program := range task.ScheduledPrograms.ScheduledProgram {
+				taskLookup[program.NameAttr] = task.NameAttr
+			}
 		}
 	}
 
 	for _, program := range l5xData.Controller.Programs.Program {
+		if program.Routines == nil {
+			continue
+		}
 		for _, routine := range program.Routines.Routine {
 			for _, rungContent := range routine.RLLContent {
 				for _, rung := range rungContent.Rung {
@@ -227,6 +249,9 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 // convert list of data types to a map[string]any
 func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 	dataTypes := make(map[string]*DataTypeType)
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.DataTypes == nil {
+		return dataTypes
+	}
 
 	for _, dataType := range l5xData.Controller.DataTypes.DataType {
 		dataTypes[dataType.NameAttr] = dataType
@@ -236,18 +261,25 @@ func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 }
 
 func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string]string {
+	return getTypeComments(types, typeName, make(map[string]bool))
+}
+
+// within are the types that contain this one. A type can't contain itself.
+func getTypeComments(types map[string]*DataTypeType, typeName string, within map[string]bool) map[string]string {
 	dt, ok := types[typeName]
-	if !ok {
+	if !ok || within[typeName] {
 		return nil
 	}
+	within[typeName] = true
+	defer delete(within, typeName)
 	out := make(map[string]string)
 	myDescription := ""
 	if dt.Description != nil {
 		myDescription = dt.Description.CData()
 	}
 	out[typeName] = myDescription
-	members := dt.Members
-	if members == nil {
+	if dt.Members == nil {
+		return out
 	}
 	for _, member := range dt.Members.Member {
 		//typeName := fmt.Sprintf("%s.%s", typeName, member.NameAttr)
@@ -261,10 +293,13 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 		}
 		name := member.NameAttr
 		//out[member.NameAttr] = memberDesc
-		submembers := GetTypeComments(types, member.DataTypeAttr)
+		submembers := getTypeComments(types, member.DataTypeAttr, within)
 		if member.DataTypeAttr == "BIT" {
 			// bit number is BitNumberAttr + TargetAttr[-2:] - 1 ?
-			offset_str := member.TargetAttr[len(member.TargetAttr)-2:]
+			offset_str := member.TargetAttr
+			if len(offset_str) > 2 {
+				offset_str = offset_str[len(offset_str)-2:]
+			}
 			offset_str = strings.TrimLeft(offset_str, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
 			num, err := strconv.Atoi(offset_str)
 			if err != nil {
-- 
2.43.0


From 1cec1fad56bfe0a989036b8f3d687c70f11ddbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 27/51] fix: no trailing blank in L5X comments of members
 without their own

---
 l5x/load_tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 9480415..9bc2414 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -329,10 +329,10 @@ func getTypeComments(types map[string]*DataTypeType, typeName string, within map
 		out[name] = memberDesc
 		for subName, subDesc := range submembers {
 			fullname := fmt.Sprintf("%s.%s", member.NameAttr, subName)
-			if memberDesc != "" {
+			if memberDesc != "" && subDesc != "" {
 				out[fullname] = memberDesc + " " + subDesc
 			} else {
-				out[fullname] = subDesc
+				out[fullname] = memberDesc + subDesc
 			}
 		}
 	}
-- 
2.43.0


From c0af7d55a771ae7f3a1730802c931c6667e98a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 28/51] fix: refuse a connected request made for a connection
 that is gone

---
 sendreceive.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 38a6864..9a1e2ed 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -89,6 +89,10 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
+	if cmd == cipCommandSendUnitData && !client.addressesOpenConnection(buffer) {
+		client.mutex.Unlock()
+		return eipHeader{}, nil, errors.New("the connection the request was made for is not open any more")
+	}
 
 	err = client.sendData(buffer)
 	if err != nil {
@@ -124,6 +128,15 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	return hdr, buf, nil
 }
 
+// whether a connected message is for the connection that is open now: it could have been closed or
+// replaced since the message was built.  Call it with the mutex locked.
+func (client *Client) addressesOpenConnection(msg []byte) bool {
+	const idPos = 24 + 8 + 4 // eip header, handle + timeout + item count, address item header
+	return client.connStatus == connectionStatusConnected &&
+		len(msg) >= idPos+4 &&
+		binary.LittleEndian.Uint32(msg[idPos:]) == client.OTNetworkConnectionID
+}
+
 // recv_data reads the header and then the number of words it specifies.
 func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 
-- 
2.43.0


From 6abe8667b68b911609237daeb3c89d8b1d1db0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 29/51] fix: count connected requests per client

---
 client.go    | 14 +++++---------
 getattr.go   |  6 +++---
 read.go      |  6 +++---
 udt_write.go |  2 +-
 write.go     |  4 ++--
 5 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/client.go b/client.go
index e1930b3..8f83632 100644
--- a/client.go
+++ b/client.go
@@ -23,15 +23,10 @@ const (
 // you have to change this read sequencer every time you make a new tag request.  If you don't, you
 // won't get an error but it will return the last value you requested again.
 // You don't even have to keep incrementing it.  just going back and forth between 1 and 0 works OK.
-// Use sequencer() instead of accessing this directly to achieve that.
-var sequenceValue uint32 = 0
-
-func init() {
-	rand.Seed(time.Now().UnixMicro())
-	sequenceValue = rand.Uint32()
-}
-func sequencer() uint32 {
-	return atomic.AddUint32(&sequenceValue, 1)
+// Each client counts for itself: with a counter shared between clients two requests in a row of one
+// client could get the same number after a multiple of 65536 requests of the others.
+func (client *Client) nextSequence() uint16 {
+	return uint16(client.requestSequence.Add(1))
 }
 
 // Defines parameters from the host CIP device that the client will connect to
@@ -102,6 +97,7 @@ type Client struct {
 	ConnectionSerialNumber uint16
 	Context                uint64 // fun fact - rockwell PLCs don't mind being rick rolled.
 	sequenceNumber         atomic.Uint32
+	requestSequence        atomic.Uint32
 
 	cancel_keepalive chan struct{}
 
diff --git a/getattr.go b/getattr.go
index 8bb9b5c..7aec529 100644
--- a/getattr.go
+++ b/getattr.go
@@ -111,7 +111,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	pl = pl / 2
 
 	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: client.nextSequence(),
 		Service:       CIPService_GetAttributeSingle,
 		PathLength:    byte(pl),
 	}
@@ -261,7 +261,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: client.nextSequence(),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
@@ -436,7 +436,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	reqitems[0] = client.connectionItem()
 
 	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: client.nextSequence(),
 		Service:       service,
 		PathLength:    byte(len(path) / 2),
 	}
diff --git a/read.go b/read.go
index 51d452c..b7253da 100644
--- a/read.go
+++ b/read.go
@@ -415,7 +415,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	reqItems[0] = client.connectionItem()
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: client.nextSequence(),
 		Service:       CIPService_Read,
 		PathLength:    byte(len(ioi.Bytes()) / 2),
 	}
@@ -881,7 +881,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	reqItems[0] = client.connectionItem()
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
-		Sequence:     uint16(sequencer()),
+		Sequence:     client.nextSequence(),
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
@@ -1272,7 +1272,7 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	reqItems[0] = client.connectionItem()
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: client.nextSequence(),
 		Service:       CIPService_FragRead,
 		PathLength:    byte(len(ioi.Bytes()) / 2),
 	}
diff --git a/udt_write.go b/udt_write.go
index 1d97e23..a1d888b 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -257,7 +257,7 @@ func (client *Client) writeServices(tags []string, services [][]byte) error {
 	reqitems[0] = client.connectionItem()
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
-		Sequence:     uint16(sequencer()),
+		Sequence:     client.nextSequence(),
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
diff --git a/write.go b/write.go
index a4ad98c..684c0bf 100644
--- a/write.go
+++ b/write.go
@@ -176,7 +176,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	elements := uint16(1)
 
 	ioi_header := msgCIPIOIHeader{
-		Sequence: uint16(sequencer()),
+		Sequence: client.nextSequence(),
 		Service:  CIPService_Write,
 		Size:     byte(len(ioi.Buffer) / 2),
 	}
@@ -290,7 +290,7 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 
 	ioi_header := msgCIPIOIHeader{
-		Sequence: uint16(sequencer()),
+		Sequence: client.nextSequence(),
 		Service:  CIPService_Write,
 		Size:     byte(len(ioi.Buffer) / 2),
 	}
-- 
2.43.0


From b183456d942dd7cc6ab14c904058dbf66c81a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 30/51] fix: substitute each tag name placeholder only once

---
 taggroup.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index de7644d..147b792 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -43,12 +43,12 @@ func (g *TagGroup) Defs() []TagDef {
 // formatName replaces {0}, {1}, ... placeholders in a tag name template
 // with the provided arguments.
 func formatName(template string, args ...any) string {
-	s := template
+	// all at once so that an argument that looks like a placeholder is not replaced again.
+	replacements := make([]string, 0, 2*len(args))
 	for i, arg := range args {
-		placeholder := fmt.Sprintf("{%d}", i)
-		s = strings.ReplaceAll(s, placeholder, fmt.Sprintf("%v", arg))
+		replacements = append(replacements, fmt.Sprintf("{%d}", i), fmt.Sprintf("%v", arg))
 	}
-	return s
+	return strings.NewReplacer(replacements...).Replace(template)
 }
 
 // zeroValueForTagDef returns a zero-valued Go variable matching the TagDef's
-- 
2.43.0


From f70afcafb6e57fc2c7f96c1e6eda96adb7787cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 31/51] fix: expand an array without an index, or with one
 before its last member, to its own elements

---
 taggroup.go | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index 147b792..35325a2 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -123,36 +123,28 @@ func expandArrayTag(baseName string, count int) []string {
 		return []string{baseName}
 	}
 
-	tag, err := parse_tag_name(baseName)
-	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
-		result := make([]string, count)
-		for i := range result {
-			result[i] = baseName
-		}
-		return result
-	}
-
-	// Find the bracket position to reconstruct the name
+	// without an index the elements are those from the first one on.
+	prefix := baseName
+	order := []int{0}
 	bracketPos := strings.LastIndex(baseName, "[")
-	if bracketPos < 0 {
-		result := make([]string, count)
-		for i := range result {
-			result[i] = baseName
+	if bracketPos >= 0 && strings.HasSuffix(baseName, "]") {
+		var err error
+		order, err = parseArrayOrder(baseName[bracketPos+1 : len(baseName)-1])
+		if err != nil {
+			// this is no name of a tag, as will be found when it is used.
+			return []string{baseName}
 		}
-		return result
+		prefix = baseName[:bracketPos]
 	}
-	prefix := baseName[:bracketPos]
 
-	lastDim := len(tag.Array_Order) - 1
-	baseIndex := tag.Array_Order[lastDim]
+	lastDim := len(order) - 1
+	baseIndex := order[lastDim]
 
 	result := make([]string, count)
 	for i := 0; i < count; i++ {
-		indices := make([]string, len(tag.Array_Order))
+		indices := make([]string, len(order))
 		for d := 0; d < lastDim; d++ {
-			indices[d] = fmt.Sprintf("%d", tag.Array_Order[d])
+			indices[d] = fmt.Sprintf("%d", order[d])
 		}
 		indices[lastDim] = fmt.Sprintf("%d", baseIndex+i)
 		result[i] = fmt.Sprintf("%s[%s]", prefix, strings.Join(indices, ","))
-- 
2.43.0


From e36b8ef7b3f3277e95f43dca875a8516caa1f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 32/51] fix: read strings longer than the standard string
 through a data table buffer

---
 datatable.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatable.go b/datatable.go
index 3fd65fb..9f27667 100644
--- a/datatable.go
+++ b/datatable.go
@@ -119,7 +119,8 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 		if strLen > uint32(len(raw)-4) {
 			strLen = uint32(len(raw) - 4)
 		}
-		if strLen > 82 {
+		if len(raw) == 88 && strLen > 82 {
+			// the standard string has padding after its characters.
 			strLen = 82
 		}
 		return string(raw[4 : 4+strLen]), nil
-- 
2.43.0


From 9a4c92f93634101cfe38b5b70e16b0de0262af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 33/51] fix: refuse bits in a data table buffer instead of
 reading the value they are in

---
 datatable.go | 126 +++++++++++----------------------------------------
 1 file changed, 26 insertions(+), 100 deletions(-)

diff --git a/datatable.go b/datatable.go
index 9f27667..9a9731f 100644
--- a/datatable.go
+++ b/datatable.go
@@ -328,35 +328,37 @@ func (client *Client) NewDataTableBuffer() (*DataTableBuffer, error) {
 // When the buffer is read, the decoded value for this tag will also be updated to the value
 // that was read from the PLC.
 func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
+	cipType, _ := GoVarToCIPType(data)
+	return buf.addTags([]DataTableBufferTag{{Name: tagName, CIPType: cipType, Var: data}})
+}
 
+// addTags adds tags of which the name, the type and the reference are set, or none of them if one cannot be added.
+func (buf *DataTableBuffer) addTags(tags []DataTableBufferTag) error {
 	if !buf.created {
 		return fmt.Errorf("datatable buffer not created")
 	}
-	cipType, _ := GoVarToCIPType(data)
 
-	ioi, err := buf.client.newIOI(tagName, cipType)
-	if err != nil {
-		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
-	}
+	for i := range tags {
+		tag := &tags[i]
+		ioi, err := buf.client.newIOI(tag.Name, tag.CIPType)
+		if err != nil {
+			return fmt.Errorf("could not create IOI for tag %q: %w", tag.Name, err)
+		}
+		if ioi.BitAccess {
+			// the path names the whole value the bit is in.
+			return fmt.Errorf("tag %q is a bit, which a datatable buffer cannot hold", tag.Name)
+		}
+		tag.ioi = ioi.Bytes()
 
-	typeSize, err := buf.resolveTypeSize(tagName, cipType)
-	if err != nil {
-		return fmt.Errorf("tag %q: %w", tagName, err)
+		tag.DataTypeSize, err = buf.resolveTypeSize(tag.Name, tag.CIPType)
+		if err != nil {
+			return fmt.Errorf("tag %q: %w", tag.Name, err)
+		}
+		tag.index = uint16(len(buf.tags) + i + 1)
 	}
 
+	buf.tags = append(buf.tags, tags...)
 	buf.synched = false
-
-	buf.tags = append(buf.tags, DataTableBufferTag{
-		Name:         tagName,
-		CIPType:      cipType,
-		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
-		ioi:          ioi.Bytes(),
-		batchID:      0,
-		synched:      false,
-		Var:          data,
-	})
-
 	return nil
 }
 
@@ -366,33 +368,7 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 // The IOI is built using the client's standard IOI encoding, which supports both
 // symbolic (0x91 segments) and instance-optimized (class 0x6B) addressing.
 func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
-	if !buf.created {
-		return fmt.Errorf("datatable buffer not created")
-	}
-
-	ioi, err := buf.client.newIOI(tagName, cipType)
-	if err != nil {
-		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
-	}
-
-	typeSize, err := buf.resolveTypeSize(tagName, cipType)
-	if err != nil {
-		return fmt.Errorf("tag %q: %w", tagName, err)
-	}
-
-	buf.synched = false
-
-	buf.tags = append(buf.tags, DataTableBufferTag{
-		Name:         tagName,
-		CIPType:      cipType,
-		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
-		ioi:          ioi.Bytes(),
-		batchID:      0,
-		synched:      false,
-	})
-
-	return nil
+	return buf.addTags([]DataTableBufferTag{{Name: tagName, CIPType: cipType}})
 }
 
 // Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags.
@@ -426,61 +402,11 @@ func (buf *DataTableBuffer) SyncTags() error {
 // Because tags is a map, iteration order (and therefore the tag position in the
 // buffer) is non-deterministic. Use AddTag in a loop if you need a specific ordering.
 func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
-	if !buf.created {
-		return fmt.Errorf("datatable buffer not created")
-	}
-
-	type preparedTag struct {
-		name     string
-		cipType  CIPType
-		typeSize uint16
-		ioi      []byte
-	}
-
-	// Resolve IOI and type size for each tag.
-	prepared := make([]preparedTag, 0, len(tags))
+	list := make([]DataTableBufferTag, 0, len(tags))
 	for name, cipType := range tags {
-		ioi, err := buf.client.newIOI(name, cipType)
-		if err != nil {
-			return fmt.Errorf("could not create IOI for tag %q: %w", name, err)
-		}
-		typeSize, err := buf.resolveTypeSize(name, cipType)
-		if err != nil {
-			return fmt.Errorf("tag %q: %w", name, err)
-		}
-		prepared = append(prepared, preparedTag{
-			name:     name,
-			cipType:  cipType,
-			typeSize: typeSize,
-			ioi:      ioi.Bytes(),
-		})
-	}
-
-	// Build entries for a single DataTableAddTags call.
-	entries := make([]addTagEntry, len(prepared))
-	for i, t := range prepared {
-		entries[i] = addTagEntry{
-			dataTypeSize: t.typeSize,
-			ioi:          t.ioi,
-		}
+		list = append(list, DataTableBufferTag{Name: name, CIPType: cipType})
 	}
-
-	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
-	for i, t := range prepared {
-		buf.tags = append(buf.tags, DataTableBufferTag{
-			Name:         t.name,
-			CIPType:      t.cipType,
-			DataTypeSize: t.typeSize,
-			index:        baseIndex + uint16(i),
-			ioi:          t.ioi,
-			batchID:      0,
-			synched:      false,
-		})
-	}
-	buf.synched = false
-
-	return nil
+	return buf.addTags(list)
 }
 
 // ReadAll reads all tag values from the datatable buffer in a single CIP request
-- 
2.43.0


From 6afccd9473ddfabac622490cb1457cf6ea10bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 34/51] fix: number the tags of a data table buffer as the
 controller does and add any number of them

---
 datatable.go | 88 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 16 deletions(-)

diff --git a/datatable.go b/datatable.go
index 9a9731f..cc95854 100644
--- a/datatable.go
+++ b/datatable.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -43,7 +44,8 @@ type DataTableBuffer struct {
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
 	expansions map[string][]string
 
-	created bool // true after successful Create
+	added   uint16 // how many tags have been added on the PLC, which numbers them in that order and never again
+	created bool   // true after successful Create
 	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
 
@@ -177,6 +179,9 @@ func (client *Client) DeleteDataTableBuffer(instanceID uint16) error {
 	return nil
 }
 
+// maxDataTableEntries is the number of tags the count in an add tag request can tell.
+const maxDataTableEntries = 255
+
 // addTagEntry describes one tag to add in a multi-tag 0x4E call.
 type addTagEntry struct {
 	dataTypeSize uint16
@@ -206,6 +211,10 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
 	}
 
+	if len(entries) > maxDataTableEntries {
+		return 0, fmt.Errorf("could not add %d tags to datatable buffer at once, %d are possible", len(entries), maxDataTableEntries)
+	}
+
 	path := dataTablePath(instanceID)
 
 	// Estimate capacity: 5 header + per-tag (2 typeSize + 1 ioiLen + IOI bytes)
@@ -354,14 +363,28 @@ func (buf *DataTableBuffer) addTags(tags []DataTableBufferTag) error {
 		if err != nil {
 			return fmt.Errorf("tag %q: %w", tag.Name, err)
 		}
-		tag.index = uint16(len(buf.tags) + i + 1)
 	}
 
+	if len(buf.tags)+len(tags)+int(buf.added) > math.MaxUint16 {
+		return fmt.Errorf("too many tags for a datatable buffer")
+	}
 	buf.tags = append(buf.tags, tags...)
+	buf.numberTags()
 	buf.synched = false
 	return nil
 }
 
+// numberTags gives the tags that are not on the PLC yet the indices they will get there.
+func (buf *DataTableBuffer) numberTags() {
+	next := buf.added
+	for i := range buf.tags {
+		if !buf.tags[i].synched {
+			next++
+			buf.tags[i].index = next
+		}
+	}
+}
+
 // AddTag adds a single tag to the datatable buffer by its symbolic name and CIP type.
 // The tag is sent to the PLC via service 0x4E and the PLC-assigned batch index is recorded.
 //
@@ -371,25 +394,54 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 	return buf.addTags([]DataTableBufferTag{{Name: tagName, CIPType: cipType}})
 }
 
-// Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags.
+// Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags,
+// or in several if they do not fit one request,
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
 func (buf *DataTableBuffer) SyncTags() error {
-	entries := make([]addTagEntry, 0)
+	if !buf.created {
+		return fmt.Errorf("datatable buffer not created")
+	}
+
+	// sequence count, service, path length and path, and what DataTableAddTags puts before the tags.
+	const headerSize = 2 + 1 + 1 + 6 + 5
+	limit := min(buf.client.connectionSize(), maxMessageSize) - headerSize
+
+	entries := make([]addTagEntry, 0, len(buf.tags))
+	size := 0
+	send := func() error {
+		if len(entries) == 0 {
+			return nil
+		}
+		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
+		if err != nil {
+			return fmt.Errorf("could not add tags to buffer: %w", err)
+		}
+		for _, entry := range entries {
+			buf.tags[entry.index].batchID = batchID
+			buf.tags[entry.index].synched = true
+		}
+		buf.added += uint16(len(entries))
+		entries = entries[:0]
+		size = 0
+		return nil
+	}
+
 	for i := range buf.tags {
 		if buf.tags[i].synched {
 			continue
 		}
+		entrySize := 3 + len(buf.tags[i].ioi)
+		if len(entries) == maxDataTableEntries || size+entrySize > limit {
+			if err := send(); err != nil {
+				return err
+			}
+		}
 		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
+		size += entrySize
 	}
-
-	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
-	if err != nil {
-		return fmt.Errorf("could not add tags to buffer: %w", err)
-	}
-	for _, entry := range entries {
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+	if err := send(); err != nil {
+		return err
 	}
 	buf.synched = true
 	return nil
@@ -575,7 +627,8 @@ func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
 }
 
 // RemoveTag removes a tag from the buffer by its name. Sends service 0x4F with
-// the tag's recorded index and updates the internal tag list.
+// the tag's recorded index, if the tag is in the PLC's buffer yet, and updates
+// the internal tag list.
 func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 	if !buf.created {
 		return fmt.Errorf("datatable buffer not created")
@@ -592,12 +645,15 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+	buf.numberTags()
 	return nil
 }
 
-- 
2.43.0


From be5bcef3682d07b1e300041670924c900c502b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 35/51] fix: keep the references and groups of a data table
 buffer apart and complete

---
 datatable.go | 146 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 94 insertions(+), 52 deletions(-)

diff --git a/datatable.go b/datatable.go
index cc95854..2bdaa9f 100644
--- a/datatable.go
+++ b/datatable.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 )
@@ -20,6 +21,7 @@ type DataTableBufferTag struct {
 	ioi          []byte  // raw IOI EPath bytes
 	batchID      uint16  // 0x4E response value — groups tags for 0x4C read parsing
 	synched      bool    // internal flag to track if this tag has been added to the buffer on the PLC side.
+	grouped      bool    // added as part of a TagGroup or a struct, which ReadAllTyped shows it in
 	Var          any     // optional field to store the value of the tag after reading from the buffer, not used internally by the library
 }
 
@@ -46,7 +48,7 @@ type DataTableBuffer struct {
 
 	added   uint16 // how many tags have been added on the PLC, which numbers them in that order and never again
 	created bool   // true after successful Create
-	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
+	synched bool   // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
 
 // InstanceID returns the PLC-assigned instance ID for this datatable buffer.
@@ -337,10 +339,26 @@ func (client *Client) NewDataTableBuffer() (*DataTableBuffer, error) {
 // When the buffer is read, the decoded value for this tag will also be updated to the value
 // that was read from the PLC.
 func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
-	cipType, _ := GoVarToCIPType(data)
+	cipType, err := refType(data)
+	if err != nil {
+		return fmt.Errorf("tag %q: %w", tagName, err)
+	}
 	return buf.addTags([]DataTableBufferTag{{Name: tagName, CIPType: cipType, Var: data}})
 }
 
+// refType gives the type of the tag whose value can be stored where ref points to.
+func refType(ref any) (CIPType, error) {
+	v := reflect.ValueOf(ref)
+	if v.Kind() != reflect.Ptr || v.IsNil() {
+		return CIPTypeUnknown, fmt.Errorf("need a pointer to a variable, got %T", ref)
+	}
+	cipType, _ := GoVarToCIPType(ref)
+	if cipType == CIPTypeUnknown || cipType == CIPTypeStruct {
+		return CIPTypeUnknown, fmt.Errorf("cannot store the value of a tag in a %s", v.Elem().Type())
+	}
+	return cipType, nil
+}
+
 // addTags adds tags of which the name, the type and the reference are set, or none of them if one cannot be added.
 func (buf *DataTableBuffer) addTags(tags []DataTableBufferTag) error {
 	if !buf.created {
@@ -654,6 +672,18 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
 	buf.numberTags()
+
+	// arrays that it was an element of are not complete any more.
+	for _, tag := range buf.tags {
+		if tag.Name == tagName {
+			return nil
+		}
+	}
+	for name, expanded := range buf.expansions {
+		if slices.Contains(expanded, tagName) {
+			delete(buf.expansions, name)
+		}
+	}
 	return nil
 }
 
@@ -697,25 +727,37 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 		return fmt.Errorf("datatable buffer not created")
 	}
 
-	// Collect all resolved tag names with their types for batched AddTags.
-	tagMap := make(map[string]CIPType)
+	// Collect all resolved tag names with their types for batched adding.
+	tags := make([]DataTableBufferTag, 0, len(group.defs))
+	seen := make(map[string]bool)
+	expansions := make(map[string][]string)
 
 	for _, def := range group.defs {
 		resolvedName := formatName(def.Name, args...)
 
-		if def.Elements > 1 {
-			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
-			for _, name := range expanded {
-				tagMap[name] = def.Type
+		expanded := expandArrayTag(resolvedName, def.Elements)
+		expansions[resolvedName] = expanded
+		for _, name := range expanded {
+			if !seen[name] {
+				seen[name] = true
+				tags = append(tags, DataTableBufferTag{Name: name, CIPType: def.Type, grouped: true})
 			}
-		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
-			tagMap[resolvedName] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	return buf.addExpansions(tags, expansions)
+}
+
+// addExpansions adds the tags that definitions have been expanded to.
+func (buf *DataTableBuffer) addExpansions(tags []DataTableBufferTag, expansions map[string][]string) error {
+	err := buf.addTags(tags)
+	if err != nil {
+		return err
+	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+	return nil
 }
 
 // ---------------------------------------------------------------------------
@@ -748,21 +790,19 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	}
 
 	// Reflect over struct fields
-	T := reflect.TypeOf(str)
-	if T.Kind() == reflect.Ptr {
-		T = T.Elem()
-	}
 	v := reflect.ValueOf(str)
 	if v.Kind() == reflect.Ptr {
 		v = v.Elem()
 	}
+	if v.Kind() != reflect.Struct {
+		return fmt.Errorf("cannot add the tags of a %T, which is no struct", str)
+	}
 
-	vf := reflect.VisibleFields(T)
-	tagMap := make(map[string]CIPType)
-	varPtrs := make(map[string]any)
+	vf := reflect.VisibleFields(v.Type())
+	tags := make([]DataTableBufferTag, 0, len(vf))
+	expansions := make(map[string][]string)
 
-	for i := range vf {
-		field := vf[i]
+	for _, field := range vf {
 		tagPath, ok := field.Tag.Lookup("gologix")
 		if !ok || tagPath == "" {
 			continue
@@ -770,41 +810,43 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
-		cipType, elements := GoVarToCIPType(fieldVal.Interface())
+		fieldVal, err := v.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("field %s: %w", field.Name, err)
+		}
 
 		// Handle slices/arrays (multi-element tags)
-		if elements > 1 {
-			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
-			for idx, name := range expanded {
-				tagMap[name] = cipType
-				// For slices, set Var to the element pointer
-				if fieldVal.Kind() == reflect.Slice && fieldVal.Len() > idx {
-					varPtrs[name] = fieldVal.Index(idx).Addr().Interface()
-				}
+		vals := []reflect.Value{fieldVal}
+		if fieldVal.Kind() == reflect.Slice || fieldVal.Kind() == reflect.Array {
+			vals = make([]reflect.Value, fieldVal.Len())
+			for i := range vals {
+				vals[i] = fieldVal.Index(i)
+			}
+			if len(vals) == 0 {
+				return fmt.Errorf("field %s has no elements", field.Name)
 			}
-		} else {
-			buf.expansions[tagPath] = []string{tagPath}
-			tagMap[tagPath] = cipType
-			varPtrs[tagPath] = fieldVal.Addr().Interface()
 		}
-	}
 
-	// Add tags to buffer
-	err := buf.AddTags(tagMap)
-	if err != nil {
-		return err
-	}
-
-	// Set Var pointers for each tag
-	for i := range buf.tags {
-		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
-			buf.tags[i].Var = ptr
+		expanded := expandArrayTag(tagPath, len(vals))
+		if len(expanded) != len(vals) {
+			return fmt.Errorf("tag %q of field %s cannot have elements", tagPath, field.Name)
+		}
+		expansions[tagPath] = expanded
+		for i, name := range expanded {
+			if !vals[i].CanAddr() || !vals[i].CanInterface() {
+				return fmt.Errorf("field %s cannot be set", field.Name)
+			}
+			ptr := vals[i].Addr().Interface()
+			cipType, err := refType(ptr)
+			if err != nil {
+				return fmt.Errorf("field %s: %w", field.Name, err)
+			}
+			tags = append(tags, DataTableBufferTag{Name: name, CIPType: cipType, Var: ptr, grouped: true})
 		}
 	}
 
-	return nil
+	// Add tags to buffer
+	return buf.addExpansions(tags, expansions)
 }
 
 // ReadAllTyped reads all tag values from the buffer in a single CIP request
@@ -859,9 +901,9 @@ func (buf *DataTableBuffer) ReadAllTyped() (*TagGroupResult, error) {
 	}
 
 	// Include any tags that were added via plain AddTag (not through a TagGroup).
-	for name, val := range rawValues {
-		if !consumed[name] {
-			result[name] = val
+	for _, tag := range buf.tags {
+		if _, ok := result[tag.Name]; !ok && (!tag.grouped || !consumed[tag.Name]) {
+			result[tag.Name] = rawValues[tag.Name]
 		}
 	}
 
-- 
2.43.0


From c87bff489caa6f4621a3b67c2b318a0d7dd03541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 36/51] fix: read each message's data whole and answer requests
 that fail

The server took fields off the connection one by one, so whatever a request
had more of was taken for the next header. Any request it couldn't handle
closed the connection without a word and the list services reply came under
another command with a wrong length.
---
 server.go             | 117 +++++++++++++++++++++++++++++++++++-------
 server_unconnected.go |   2 +
 2 files changed, 100 insertions(+), 19 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..51ebb43 100644
--- a/server.go
+++ b/server.go
@@ -3,8 +3,11 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
+	"io"
 	"log/slog"
+	"math"
 	"math/rand"
 	"net"
 	"strings"
@@ -37,6 +40,12 @@ type serverTCPHandler struct {
 	TOConnectionID uint32
 
 	UnitDataSequencer uint16
+
+	// what is known of the request being handled.
+	body      io.Reader  // the data that came after its header
+	service   CIPService // the service it asks for, once that is known
+	connected bool       // whether it came over a connection
+	answered  bool       // whether something was sent in reply
 }
 
 // Sets up a main server object for handling incoming EIP messages according to PathRouter r
@@ -212,54 +221,119 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		if err != nil {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
+		// all the data of the message is read here so the next message is found where it starts, whatever this one contains.
+		body := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, body)
+		if err != nil {
+			return fmt.Errorf("problem reading eip data. %w", err)
+		}
+		h.body = bytes.NewReader(body)
+		h.service = 0
+		h.connected = false
+		h.answered = false
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
 		case cipCommandRegisterSession:
 			err = h.registerSession(eipHdr)
+			if err != nil {
+				err = h.requestFailed(eipHdr, err)
+			}
 			if err != nil {
 				return fmt.Errorf("problem with register session %w", err)
 			}
 		case cipCommandSendRRData:
 			// this is things like forward opens
 			err = h.sendRRData(eipHdr)
+			if err != nil {
+				err = h.requestFailed(eipHdr, err)
+			}
 			if err != nil {
 				return fmt.Errorf("problem with sendRRData %w", err)
 			}
 		case cipCommandSendUnitData:
 			// this is things like writes and reads
 			err = h.sendUnitData(eipHdr)
+			if err != nil {
+				err = h.requestFailed(eipHdr, err)
+			}
 			if err != nil {
 				return fmt.Errorf("problem with sendUnitData %w", err)
 			}
 		case cipCommandListServices:
 			err = h.sendListServicesData(eipHdr)
+			if err != nil {
+				err = h.requestFailed(eipHdr, err)
+			}
 			if err != nil {
 				return fmt.Errorf("problem with sendListServices %w", err)
 			}
 		case cipCommandListIdentity:
 			err = h.sendListIdentityReply(eipHdr)
+			if err != nil {
+				err = h.requestFailed(eipHdr, err)
+			}
 			if err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
-
+		case cipCommandUnRegisterSession:
+			// the session is over, and there is no reply to this.
+			return nil
+		case cipCommand_NOP:
+			// there is no reply to this.
+		default:
+			h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+			err = h.sendWithStatus(eipHdr.Command, eipStatus_UnsupportedCommand)
+			if err != nil {
+				return fmt.Errorf("problem answering command %v: %w", eipHdr.Command, err)
+			}
 		}
 	}
 
 }
 
+// statuses of a reply's header.
+const (
+	eipStatus_UnsupportedCommand uint32 = 0x01
+	eipStatus_BadData            uint32 = 0x03
+)
+
+// requestFailed answers a request that couldn't be handled because of cause, if it hasn't been answered already, so
+// the client doesn't wait for a reply that never comes.
+func (h *serverTCPHandler) requestFailed(hdr eipHeader, cause error) error {
+	h.server.Logger.Warn("problem with request", "remote", h.conn.RemoteAddr(), "command", hdr.Command, "service", h.service, "error", cause)
+	if h.answered {
+		return nil
+	}
+	if h.service == 0 {
+		return h.sendWithStatus(hdr.Command, eipStatus_BadData)
+	}
+	status := CIPStatus_InvalidParameter
+	var cipErr *CIPError
+	switch {
+	case errors.As(cause, &cipErr) && cipErr.Code != 0:
+		status = CIPStatus(cipErr.Code)
+	case errors.Is(cause, io.EOF), errors.Is(cause, io.ErrUnexpectedEOF):
+		status = CIPStatus_NotEnoughData
+	}
+	if h.connected {
+		return h.sendUnitDataErrorReply(h.service, status)
+	}
+	return h.sendUnconnectedErrorReply(h.service, status)
+}
+
 func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(h.body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(h.body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(h.body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -285,6 +359,8 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	h.service = service
+	h.connected = true
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
@@ -514,15 +590,15 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(h.body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(h.body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(h.body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -530,17 +606,10 @@ func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 		return fmt.Errorf("expected 2 items. got %v", len(items))
 	}
 	switch items[1].Header.ID {
-	case cipItem_ConnectedData:
-		var service CIPService
-		err = items[1].DeSerialize(&service)
-		if err != nil {
-			return fmt.Errorf("failed to get service. %w", err)
-		}
-		return h.connectedRead(service, items)
 	case cipItem_UnconnectedData:
 		return h.unconnectedData(items[1])
 	}
-	return nil
+	return fmt.Errorf("should have had an unconnected data item in position 1. got %v", items[1].Header.ID)
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
@@ -862,7 +931,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(h.body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
@@ -886,13 +955,22 @@ func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
 //
 // It builds the appropriate header for all the data, puts the packet together, and then sends it.
 func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
+	return h.sendWithStatus(cmd, 0, msgs...)
+}
+
+// sendWithStatus is send for when the status in the header isn't necessarily 0.
+func (h *serverTCPHandler) sendWithStatus(cmd CIPCommand, status uint32, msgs ...any) error {
 	// calculate size of all message parts
 	size := 0
 	for _, msg := range msgs {
 		size += binary.Size(msg)
 	}
 	// build header based on size
+	if size > math.MaxUint16 {
+		return fmt.Errorf("%d bytes do not fit in one message: %w", size, &CIPError{Code: byte(CIPStatus_ReplyDataTooLarge)})
+	}
 	hdr := h.newEIPHeader(cmd, size)
+	hdr.Status = status
 
 	// initialize a buffer and add the header to it.
 	// the 24 is from the header size
@@ -912,6 +990,7 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 	}
 
 	b = buf.Bytes()
+	h.answered = true
 	// write the packet buffer to the tcp connection
 	written := 0
 	for written < len(b) {
@@ -960,10 +1039,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20,
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
-		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
+		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's'},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..0537a2f 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -15,6 +15,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unmarshling service %w", err)
 	}
+	h.service = service
 	switch service {
 	case CIPService_ForwardOpen:
 		item.Reset()
@@ -91,6 +92,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting embedded service. %w", err)
 		}
+		h.service = emService
 		switch emService {
 		case CIPService_Write:
 			return h.unconnectedServiceWrite(item)
-- 
2.43.0


From 0bbe7b72d153b4960bdb1a0cc56cb3928501e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 37/51] fix: keep the server's connections apart and close them
 for good

Connection ids could be given twice, a forward close named a connection by its
serial number alone, got no reply and used the wrong path length, replies went
to the connection opened last, connections outlived the TCP connection they
were opened over and their I/O kept being produced. A path of one byte and an
RPI of 0 crashed the server.
---
 server.go             | 178 +++++++++++++++++++++++++++++-------------
 server_connections.go |  77 +++++++++++++++++-
 server_router.go      |  18 +++++
 3 files changed, 215 insertions(+), 58 deletions(-)

diff --git a/server.go b/server.go
index 51ebb43..e1102d7 100644
--- a/server.go
+++ b/server.go
@@ -10,7 +10,6 @@ import (
 	"math"
 	"math/rand"
 	"net"
-	"strings"
 	"time"
 )
 
@@ -212,6 +211,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 	srv.Logger.Info("new connection", "remote addr", h.conn.RemoteAddr().String())
 	// if this function ends, close and remove ourselves from the server's open connection list.
 	defer func() {
+		h.server.ConnMgr.CloseByHandler(h)
 		h.conn.Close()
 	}()
 
@@ -361,6 +361,14 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	}
 	h.service = service
 	h.connected = true
+	connection, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil {
+		h.TOConnectionID = 0
+		h.server.Logger.Warn("connected: no such connection", "connection", connId, "service", service)
+		return h.sendUnitDataErrorReply(service, CIPStatus_ConnectionLost)
+	}
+	// the reply is for whoever opened the connection this came over, which need not be the last one opened.
+	h.TOConnectionID = connection.TO
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
@@ -620,17 +628,42 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
+	err = h.server.ConnMgr.CloseByOriginator(fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber, h)
 	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+		return h.sendForwardError(fwd_close.Service, connectionNotFound, fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
 	}
 
-	path := make([]byte, fwd_close.PathSize*2)
-	err = i.DeSerialize(&path)
+	// the path is the one the connection was opened with. Its application data is empty, like that of its reply.
+	return h.sendUnconnectedRRDataReply(fwd_close.Service, fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber, uint16(0))
+}
+
+// extended statuses that say why a connection can't be opened or closed.
+const (
+	connectionNotFound        uint16 = 0x0107
+	connectionRPINotSupported uint16 = 0x0111
+	connectionPathInvalid     uint16 = 0x0315
+)
+
+// sendForwardError answers a forward open or close that can't be done.
+func (h *serverTCPHandler) sendForwardError(s CIPService, extended uint16, ID uint16, Vendor uint16, Originator uint32) error {
+	items := make([]CIPItem, 2)
+	items[0] = newItem(cipItem_Null, nil)
+	items[1] = newItem(cipItem_UnconnectedData, nil)
+	resp := msgUnconnWriteResultHeader{
+		Service:        s.AsResponse(),
+		Status:         CIPStatus_ConnectionFailure,
+		StatusExtended: 1, // how many words the extended status has
+	}
+	err := items[1].Serialize(resp, extended, ID, Vendor, Originator, uint16(0))
 	if err != nil {
-		return fmt.Errorf("problem parsing forward close path %w", err)
+		return fmt.Errorf("problem serializing forward error: %w", err)
 	}
-	return nil
+	itemData, err := serializeItems(items)
+	if err != nil {
+		return fmt.Errorf("could not serialize items: %w", err)
+	}
+	return h.send(cipCommandSendRRData, itemData)
 }
 
 // in this message T is for target and O is for originator so
@@ -692,13 +725,29 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	if len(fwd_path) < 2 {
+		return h.sendForwardError(fwd_open.Service, connectionPathInvalid, fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+	}
+	path := h.server.Router.route(fwd_path)
+
+	var tp CIPEndpoint
+	if fwd_open.TransportTrigger == 1 {
+		// this is a cyclic IO connection
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			h.server.Logger.Warn("no tag provider for path", "path", path)
+			return h.sendForwardError(fwd_open.Service, connectionPathInvalid, fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+		}
+		if fwd_open.TORPI == 0 {
+			return h.sendForwardError(fwd_open.Service, connectionRPINotSupported, fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+		}
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -711,11 +760,22 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:         fwd_open.TOConnectionID,
+		OT:         fwd_open.OTConnectionID,
+		ID:         fwd_open.ConnectionSerialNumber,
+		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:       path,
+		Open:       true,
+		Vendor:     fwd_open.VendorID,
+		Originator: fwd_open.OriginatorSerialNumber,
+		size:       int(fwd_open.TONetworkConnParams & 0xFFFF),
+		handler:    h,
+		done:       make(chan struct{}),
 	}
+
+	h.server.ConnMgr.Add(cipConnection)
+	h.OTConnectionID = cipConnection.OT
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
@@ -752,19 +812,11 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
-		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
+		go h.ioConnection(msgEIPForwardOpen_Standard{
+			TOConnectionID: fwd_open.TOConnectionID,
+			TORPI:          fwd_open.TORPI,
+		}, tp, cipConnection)
 	}
 
 	return nil
@@ -777,7 +829,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
@@ -792,7 +844,23 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	if len(fwd_path) < 2 {
+		return h.sendForwardError(fwd_open.Service, connectionPathInvalid, fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+	}
+	path := h.server.Router.route(fwd_path)
+
+	var tp CIPEndpoint
+	if fwd_open.TransportTrigger == 1 {
+		// this is a cyclic IO connection
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			h.server.Logger.Warn("no tag provider for path", "path", path)
+			return h.sendForwardError(fwd_open.Service, connectionPathInvalid, fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+		}
+		if fwd_open.TORPI == 0 {
+			return h.sendForwardError(fwd_open.Service, connectionRPINotSupported, fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+		}
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -805,11 +873,22 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+	cipConnection := &serverConnection{
+		TO:         fwd_open.TOConnectionID,
+		OT:         fwd_open.OTConnectionID,
+		ID:         fwd_open.ConnectionSerialNumber,
+		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:       path,
+		Open:       true,
+		Vendor:     fwd_open.VendorID,
+		Originator: fwd_open.OriginatorSerialNumber,
+		size:       int(fwd_open.TONetworkConnParams & 0x01FF),
+		handler:    h,
+		done:       make(chan struct{}),
 	}
+
+	h.server.ConnMgr.Add(cipConnection)
+	h.OTConnectionID = cipConnection.OT
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
@@ -840,23 +919,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
-		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
@@ -867,13 +930,16 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
 	h.server.Logger.Info("IO Connection", "rpi", rpi)
 	t := time.NewTicker(rpi)
+	defer t.Stop()
 	seq := uint32(0)
 
 	// get the address to send the response back to, trim off the port number, and add the eip udp port number (2222) back on.
-	// I suspect this will break with IPV6 since it uses colons in the IP address itself.
-	remote := h.conn.RemoteAddr().String()
-	remote = strings.Split(remote, ":")[0]
-	addr := fmt.Sprintf("%s:2222", remote)
+	remote, _, err := net.SplitHostPort(h.conn.RemoteAddr().String())
+	if err != nil {
+		h.server.Logger.Error("Problem with remote address", "error", err)
+		return
+	}
+	addr := net.JoinHostPort(remote, "2222")
 
 	udpConn, err := net.Dial("udp", addr)
 	if err != nil {
@@ -884,11 +950,15 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 
 	for {
 		seq++
-		<-t.C
-		if !conn.Open {
+		select {
+		case <-t.C:
+		case <-conn.done:
+		}
+		select {
+		case <-conn.done:
 			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
 			return
-
+		default:
 		}
 
 		dat, err := tp.IORead()
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..ce2f91f 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -14,6 +15,22 @@ type serverConnection struct {
 	RPI  time.Duration
 	Path []byte
 	Open bool
+
+	// together with ID, what the originator tells its connections apart by.
+	Vendor     uint16
+	Originator uint32
+
+	size    int               // how many bytes a message to the originator may have
+	handler *serverTCPHandler // what the connection was opened over
+	done    chan struct{}     // closed when the connection is
+}
+
+// close marks the connection closed. The connection manager's lock has to be held.
+func (conn *serverConnection) close() {
+	conn.Open = false
+	if conn.done != nil {
+		close(conn.done)
+	}
 }
 
 type serverConnectionManager struct {
@@ -26,12 +43,64 @@ func (cm *serverConnectionManager) Init(logger *slog.Logger) {
 	cm.Connections = make([]*serverConnection, 0, 32)
 	cm.Logger = logger
 }
+
+// Add starts keeping track of conn, which gets another OT connection ID if it has none or another connection has the same.
 func (cm *serverConnectionManager) Add(conn *serverConnection) {
-	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
+	for conn.OT == 0 || cm.usesOT(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
+	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Connections = append(cm.Connections, conn)
 }
+
+// usesOT says whether a connection has this OT connection ID. The lock has to be held.
+func (cm *serverConnectionManager) usesOT(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
+
+// CloseByOriginator closes the connection that its originator calls ID. When several originators are the same by what
+// they say of themselves it is the one that was opened over handler.
+func (cm *serverConnectionManager) CloseByOriginator(ID uint16, Vendor uint16, Originator uint32, handler *serverTCPHandler) error {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	found := -1
+	for i, conn := range cm.Connections {
+		if conn.ID != ID || conn.Vendor != Vendor || conn.Originator != Originator {
+			continue
+		}
+		if found < 0 || conn.handler == handler {
+			found = i
+		}
+	}
+	if found < 0 {
+		return fmt.Errorf("couldn't find connection %v of originator %v/%v", ID, Vendor, Originator)
+	}
+	cm.Connections[found].close()
+	cm.Connections = append(cm.Connections[:found], cm.Connections[found+1:]...)
+	return nil
+}
+
+// CloseByHandler closes all connections that were opened over handler.
+func (cm *serverConnectionManager) CloseByHandler(handler *serverTCPHandler) {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	rest := make([]*serverConnection, 0, 32)
+	for _, conn := range cm.Connections {
+		if conn.handler == handler {
+			conn.close()
+		} else {
+			rest = append(rest, conn)
+		}
+	}
+	cm.Connections = rest
+}
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
@@ -67,7 +136,7 @@ func (cm *serverConnectionManager) CloseByID(ID uint16) error {
 	defer cm.Lock.Unlock()
 	for i, conn := range cm.Connections {
 		if conn.ID == ID {
-			conn.Open = false
+			conn.close()
 			if len(cm.Connections) == 1 {
 				cm.Connections = make([]*serverConnection, 0, 32)
 				return nil
@@ -84,7 +153,7 @@ func (cm *serverConnectionManager) CloseByOT(OT uint32) error {
 	defer cm.Lock.Unlock()
 	for i, conn := range cm.Connections {
 		if conn.OT == OT {
-			conn.Open = false
+			conn.close()
 			if len(cm.Connections) == 1 {
 				cm.Connections = make([]*serverConnection, 0, 32)
 				return nil
@@ -101,7 +170,7 @@ func (cm *serverConnectionManager) CloseByTO(TO uint32) error {
 	defer cm.Lock.Unlock()
 	for i, conn := range cm.Connections {
 		if conn.TO == TO {
-			conn.Open = false
+			conn.close()
 			if len(cm.Connections) == 1 {
 				cm.Connections = make([]*serverConnection, 0, 32)
 				return nil
diff --git a/server_router.go b/server_router.go
index 1a9b5ae..13da105 100644
--- a/server_router.go
+++ b/server_router.go
@@ -15,6 +15,7 @@ import (
 // instead of a handler function you use an object that provides the TagProvider interface.
 type PathRouter struct {
 	Path map[string]CIPEndpoint
+	lock sync.RWMutex
 }
 
 func NewRouter() *PathRouter {
@@ -24,6 +25,8 @@ func NewRouter() *PathRouter {
 }
 
 func (router *PathRouter) Handle(path []byte, p CIPEndpoint) {
+	router.lock.Lock()
+	defer router.lock.Unlock()
 	if router.Path == nil {
 		router.Path = make(map[string]CIPEndpoint)
 	}
@@ -32,6 +35,11 @@ func (router *PathRouter) Handle(path []byte, p CIPEndpoint) {
 
 // find the tag provider for a given cip path
 func (router *PathRouter) Resolve(path []byte) (CIPEndpoint, error) {
+	if router == nil {
+		return nil, fmt.Errorf("path %v not recognized, there is no router", path)
+	}
+	router.lock.RLock()
+	defer router.lock.RUnlock()
 	tp, ok := router.Path[string(path)]
 	if !ok {
 		return nil, fmt.Errorf("path %v not recognized", path)
@@ -39,6 +47,16 @@ func (router *PathRouter) Resolve(path []byte) (CIPEndpoint, error) {
 	return tp, nil
 }
 
+// route returns how much of a connection's path leads to a tag provider. What comes after that is for the provider.
+func (router *PathRouter) route(path []byte) []byte {
+	for n := len(path); n > 2; n-- {
+		if _, err := router.Resolve(path[:n]); err == nil {
+			return path[:n]
+		}
+	}
+	return path[:2]
+}
+
 // This interface specifies all the needed methods to handle incoming CIP messages.
 // currently supports Class1 IO messages and Class3 tag read/write messages.
 // if a type only handles some subset, it should return an error for those methods
-- 
2.43.0


From 441c4b43641ba0fb37c27118a07414429f2e4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 38/51] fix: only take requests for the connection manager as
 such

Its service numbers mean something else elsewhere. Also don't set aside space
for items a message only claims to have.
---
 items.go              | 3 ++-
 server_unconnected.go | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/items.go b/items.go
index ee00a7f..b13116c 100644
--- a/items.go
+++ b/items.go
@@ -32,10 +32,11 @@ func readItems(r io.Reader) ([]CIPItem, error) {
 		return nil, fmt.Errorf("couldn't read item count. %w", err)
 	}
 
-	items := make([]CIPItem, count) // usually have 2 items.
+	items := make([]CIPItem, 0, 2) // usually have 2 items.
 
 	for i := 0; i < int(count); i++ {
 		//var hdr cipItemHeader
+		items = append(items, CIPItem{})
 		err := binary.Read(r, binary.LittleEndian, &(items[i].Header))
 		if err != nil {
 			return nil, fmt.Errorf("couldn't read item %d header. %w", i, err)
diff --git a/server_unconnected.go b/server_unconnected.go
index 0537a2f..19a6b7f 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -17,6 +17,14 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	}
 	h.service = service
 	switch service {
+	case CIPService_ForwardOpen, CIPService_LargeForwardOpen, CIPService_ForwardClose, 0x52:
+		// other objects have services with the same numbers.
+		if !bytes.HasPrefix(item.Rest(), []byte{2, 0x20, byte(CipObject_ConnectionManager), 0x24, 1}) {
+			h.server.Logger.Warn("unsupported unconnected service", "service", service)
+			return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
+		}
+	}
+	switch service {
 	case CIPService_ForwardOpen:
 		item.Reset()
 		err = h.forwardOpen(item)
-- 
2.43.0


From b47ec74f3a8f4937374822ef7f469791010cba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 39/51] fix: serve reads and writes of tags as they were asked
 for

The server took the element count after a path for part of it when it looked
like one, ignored the offset of fragmented reads, sent replies larger than the
connection or the length fields allow, sent a type before every element of a
string array and expected string elements without padding, wrote strings
unconnected only by chance, crashed on requests to write nothing and on paths
that start with an index, and dropped a multiple service request for one
service that failed.
---
 ioi.go                |  51 ++++++
 server.go             |  22 ++-
 server_connected.go   | 373 ++++++++++++++++++++++--------------------
 server_connections.go |   6 +
 server_unconnected.go | 103 +++++-------
 5 files changed, 308 insertions(+), 247 deletions(-)

diff --git a/ioi.go b/ioi.go
index 53274ed..907b564 100644
--- a/ioi.go
+++ b/ioi.go
@@ -291,6 +291,31 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+
+// getRequestTag reads the path of a request, which is its length in words and then the path itself, and returns the
+// name of the tag it leads to.
+func getRequestTag(item *CIPItem) (string, error) {
+	words, err := item.Byte()
+	if err != nil {
+		return "", fmt.Errorf("couldn't get path length: %w", io.ErrUnexpectedEOF)
+	}
+	rest := item.Rest()
+	if len(rest) < int(words)*2 {
+		return "", fmt.Errorf("path should have %d words: %w", words, io.ErrUnexpectedEOF)
+	}
+	path := CIPItem{Data: rest[:int(words)*2]}
+	item.Pos += int(words) * 2
+
+	tag, err := getTagFromPath(&path)
+	if err != nil {
+		return "", fmt.Errorf("couldn't parse path (%v): %w", err, &CIPError{Code: byte(CIPStatus_PathSegmentError)})
+	}
+	if tag == "" || len(path.Rest()) != 0 {
+		return "", fmt.Errorf("path % X is not one of a tag: %w", path.Data, &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)})
+	}
+	return tag, nil
+}
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
@@ -315,6 +340,9 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
+			if tag_str == "" {
+				return "", errors.New("array index before a name")
+			}
 			if tag_str[len(tag_str)-1] == ']' {
 				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
 			} else {
@@ -332,6 +360,29 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
+			if tag_str == "" {
+				return "", errors.New("array index before a name")
+			}
+			if tag_str[len(tag_str)-1] == ']' {
+				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
+			} else {
+				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			if tag_str == "" {
+				return "", errors.New("array index before a name")
+			}
 			if tag_str[len(tag_str)-1] == ']' {
 				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
 			} else {
diff --git a/server.go b/server.go
index e1102d7..97d0f47 100644
--- a/server.go
+++ b/server.go
@@ -308,18 +308,22 @@ func (h *serverTCPHandler) requestFailed(hdr eipHeader, cause error) error {
 	if h.service == 0 {
 		return h.sendWithStatus(hdr.Command, eipStatus_BadData)
 	}
-	status := CIPStatus_InvalidParameter
+	if h.connected {
+		return h.sendUnitDataErrorReply(h.service, statusOf(cause))
+	}
+	return h.sendUnconnectedErrorReply(h.service, statusOf(cause))
+}
+
+// statusOf finds the status that tells a client about err.
+func statusOf(err error) CIPStatus {
 	var cipErr *CIPError
 	switch {
-	case errors.As(cause, &cipErr) && cipErr.Code != 0:
-		status = CIPStatus(cipErr.Code)
-	case errors.Is(cause, io.EOF), errors.Is(cause, io.ErrUnexpectedEOF):
-		status = CIPStatus_NotEnoughData
-	}
-	if h.connected {
-		return h.sendUnitDataErrorReply(h.service, status)
+	case errors.As(err, &cipErr) && cipErr.Code != 0:
+		return CIPStatus(cipErr.Code)
+	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
+		return CIPStatus_NotEnoughData
 	}
-	return h.sendUnconnectedErrorReply(h.service, status)
+	return CIPStatus_InvalidParameter
 }
 
 func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..e0f3090 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -4,17 +4,13 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
+	"math"
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	var l byte // length in words
 	item := items[1]
-	err := item.DeSerialize(&l)
-	if err != nil {
-		return fmt.Errorf("problem deserializing item length %w", err)
-	}
-
-	tag, err := getTagFromPath(&item)
+	tag, err := getRequestTag(&item)
 	if err != nil {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
@@ -43,17 +39,17 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 
 	p, err := h.server.Router.Resolve(conn.Path)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
+		return fmt.Errorf("problem finding tag provider for %v(%v). %w: %v", connID, conn.Path, &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)}, err)
 	}
 	if qty > 1 {
 		err = p.TagWrite(tag, results)
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return writeFailed(tag, err)
 		}
 	} else {
 		err = p.TagWrite(tag, results[0])
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return writeFailed(tag, err)
 		}
 	}
 
@@ -78,7 +74,7 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)}, err)
 	}
 	p := provider
 
@@ -102,138 +98,49 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	}
 
 	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
+	pb := make([]byte, int(pathlen)*2)
 	err = item.DeSerialize(&pb)
 	if err != nil {
-		return fmt.Errorf("problem dumping path bytes from multi-svc header")
+		return fmt.Errorf("problem dumping path bytes from multi-svc header: %w", err)
 	}
+	start := item.Pos // the offsets count from here.
 	qty, err := item.Uint16()
 	if err != nil {
 		return fmt.Errorf("problem getting multisvc item count: %w", err)
 	}
-	offsets := make([]int16, qty)
+	offsets := make([]uint16, qty)
 	results := make([][]byte, qty)
 	for i := range offsets {
-		offsets[i], err = item.Int16()
+		offsets[i], err = item.Uint16()
 		if err != nil {
 			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
 		}
 	}
-
-	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
-		var svc CIPService
-		err = item.DeSerialize(&svc)
-		if err != nil {
-			return fmt.Errorf("problem getting multiread service for item %d: %w", i, err)
-		}
-
-		svcReqSize, err := item.Byte()
-		if err != nil {
-			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
+	// each request ends where the next one starts.
+	requests := make([]CIPItem, qty)
+	end := len(item.Data)
+	for i := int(qty) - 1; i >= 0; i-- {
+		pos := start + int(offsets[i])
+		if pos < item.Pos || pos >= end {
+			return fmt.Errorf("offset %d of multisvc item %d is out of place: %w", offsets[i], i, &CIPError{Code: byte(CIPStatus_InvalidParameter)})
 		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
-
-		switch svc {
-		case CIPService_FragRead,
-			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
-			}
-			qty, err := item.Uint16()
-			if err != nil {
-				return fmt.Errorf("error getting write qty: %w", err)
-			}
-
-			result, err := p.TagRead(tagname, int16(qty))
-			if err != nil {
-				return fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
-			}
-
-			// build this portion of the response msg
-
-			typ, _ := GoVarToCIPType(result)
-			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-			b, err := Serialize(rhdr)
-			if err != nil {
-				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
-			}
-			if typ == CIPTypeSTRING {
-				res_str, ok := result.(string)
-				if !ok {
-					return errors.New("expected a string but didn't get one")
-				}
-				b_dat, err := Serialize(cipStringPacker(res_str))
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				b.Truncate(4)
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			} else {
-				b_dat, err := Serialize(result)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			}
-
-			results[i] = b.Bytes()
-		case CIPService_Write,
-			CIPService_FragWrite:
-
-			tag, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem deserializing tag bytes %w", err)
-			}
-
-			var typ CIPType
-			err = item.DeSerialize(&typ)
-			if err != nil {
-				return fmt.Errorf("problem deserializing cip type %w", err)
-			}
-			var reserved byte
-			err = item.DeSerialize(&reserved)
-			if err != nil {
-				return fmt.Errorf("problem deserializing reserved byte %w", err)
-			}
-			var qty uint16
-			err = item.DeSerialize(&qty)
-			if err != nil {
-				return fmt.Errorf("problem deserializing element count %w", err)
-			}
-
-			writeTags := make([]any, qty)
-			for i := 0; i < int(qty); i++ {
-				writeTags[i], err = typ.readValue(&item)
-				if err != nil {
-					return fmt.Errorf("problem getting write element %d: %w", i, err)
-				}
-			}
-			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
-
-			if qty > 1 {
-				err = p.TagWrite(tag, writeTags)
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			} else {
-				err = p.TagWrite(tag, writeTags[0])
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			}
-
-			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
+		requests[i].Data = item.Data[pos:end]
+		end = pos
+	}
+	// every reply has at least a header of 4 bytes.
+	limit := connection.replyLimit() - 2 - 6*int(qty)
+	if limit < 0 {
+		return fmt.Errorf("replies of %d services don't fit: %w", qty, &CIPError{Code: byte(CIPStatus_ReplyDataTooLarge)})
+	}
 
+	status := CIPStatus_OK
+	for i := range results {
+		svc, st, data := h.embedded(p, &requests[i], limit)
+		if st != CIPStatus_OK {
+			status = CIPStatus_EmbeddedServiceError
 		}
-
+		limit -= len(data)
+		results[i] = append([]byte{byte(svc.AsResponse()), 0x00, byte(st), 0x00}, data...)
 	}
 
 	response := make([]any, qty+2)
@@ -250,7 +157,142 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		response[2+i] = results[i]
 	}
 
-	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
+	return h.sendConnectedStatus(CIPService_MultipleService, seq, connection.TO, status, response...)
+}
+
+// embedded does one of the requests of a multiple service request. It returns the service, and the status and data of
+// its reply, of which there are not more than limit bytes.
+func (h *serverTCPHandler) embedded(p CIPEndpoint, item *CIPItem, limit int) (CIPService, CIPStatus, []byte) {
+	var svc CIPService
+	err := item.DeSerialize(&svc)
+	if err != nil {
+		return 0, CIPStatus_NotEnoughData, nil
+	}
+	switch svc {
+	case CIPService_FragRead,
+		CIPService_Read:
+		status, data, err := readTag(svc, p, item, limit)
+		if err != nil {
+			h.server.Logger.Warn("problem with embedded read", "error", err)
+			return svc, statusOf(err), nil
+		}
+		return svc, status, data
+	case CIPService_Write:
+		tag, err := getRequestTag(item)
+		if err != nil {
+			h.server.Logger.Warn("problem with embedded write", "error", err)
+			return svc, statusOf(err), nil
+		}
+		writeTags, err := parseWriteValues(item)
+		if err != nil {
+			h.server.Logger.Warn("problem with embedded write", "tag", tag, "error", err)
+			return svc, statusOf(err), nil
+		}
+		h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
+
+		if len(writeTags) > 1 {
+			err = p.TagWrite(tag, writeTags)
+		} else {
+			err = p.TagWrite(tag, writeTags[0])
+		}
+		if err != nil {
+			err = writeFailed(tag, err)
+			h.server.Logger.Warn("problem with embedded write", "error", err)
+			return svc, statusOf(err), nil
+		}
+		return svc, CIPStatus_OK, nil
+	}
+	return svc, CIPStatus_ServiceNotSupported, nil
+}
+
+// writeFailed says that a write was refused, for the reason err gives if it is one there is a status for.
+func writeFailed(tag string, err error) error {
+	var cipErr *CIPError
+	if errors.As(err, &cipErr) && cipErr.Code != 0 {
+		return fmt.Errorf("problem writing tag %v. %w", tag, err)
+	}
+	return fmt.Errorf("problem writing tag %v. %w: %v", tag, &CIPError{Code: byte(CIPStatus_InvalidAttributeValue)}, err)
+}
+
+// readTag does a read or fragmented read request, of which item has what comes after the service. It returns the
+// status and data of the reply, of which there are not more than limit bytes.
+func readTag(reqSvc CIPService, p CIPEndpoint, item *CIPItem, limit int) (CIPStatus, []byte, error) {
+	tag, err := getRequestTag(item)
+	if err != nil {
+		return 0, nil, err
+	}
+	var qty uint16
+	err = item.DeSerialize(&qty)
+	if err != nil {
+		return 0, nil, fmt.Errorf("error getting read qty: %w", err)
+	}
+	var offset uint32
+	if reqSvc == CIPService_FragRead {
+		err = item.DeSerialize(&offset)
+		if err != nil {
+			return 0, nil, fmt.Errorf("error getting read offset: %w", err)
+		}
+	}
+	if qty > math.MaxInt16 {
+		return 0, nil, fmt.Errorf("%d elements of %s are too many: %w", qty, tag, &CIPError{Code: byte(CIPStatus_InvalidParameterValue)})
+	}
+	result, err := p.TagRead(tag, int16(qty))
+	if err != nil {
+		var cipErr *CIPError
+		if errors.As(err, &cipErr) && cipErr.Code != 0 {
+			return 0, nil, fmt.Errorf("problem getting data for %s from provider. %w", tag, err)
+		}
+		return 0, nil, fmt.Errorf("problem getting data for %s from provider. %w: %v", tag, &CIPError{Code: byte(CIPStatus_InvalidMemberID)}, err)
+	}
+	typ, data, size, err := tagData(result)
+	if err != nil {
+		return 0, nil, fmt.Errorf("problem with data for %s: %w", tag, err)
+	}
+	if offset > uint32(len(data)) || offset == uint32(len(data)) && offset > 0 {
+		return 0, nil, fmt.Errorf("offset %d is beyond the %d bytes of %s: %w", offset, len(data), tag, &CIPError{Code: byte(CIPStatus_InvalidParameterValue)})
+	}
+	data = data[offset:]
+	limit -= len(typ)
+	if limit >= len(data) {
+		return CIPStatus_OK, append(typ, data...), nil
+	}
+	if limit <= 0 {
+		return 0, nil, fmt.Errorf("no room for data of %s: %w", tag, &CIPError{Code: byte(CIPStatus_ReplyDataTooLarge)})
+	}
+	// stop after a whole element if there is room for one. The rest has to be asked for with the offset where this ends.
+	if whole := (int(offset)+limit)/size*size - int(offset); whole > 0 {
+		limit = whole
+	}
+	return CIPStatus_PartialTransfer, append(typ, data[:limit]...), nil
+}
+
+// tagData splits a tag's value into the type and the data of a read's reply. size is how many bytes an element has.
+func tagData(value any) (typ []byte, data []byte, size int, err error) {
+	switch x := value.(type) {
+	case string:
+		b := cipStringPacker(x).Bytes()
+		return b[:4:4], b[4:], cipStringTagDataLen, nil
+	case []string:
+		// the type comes once, then the strings back to back.
+		typ = cipStringPacker("").Bytes()[:4:4]
+		for _, s := range x {
+			data = append(data, cipStringPacker(s).Bytes()[4:]...)
+		}
+		return typ, data, cipStringTagDataLen, nil
+	}
+	t, qty := GoVarToCIPType(value)
+	if x, ok := value.([]bool); ok {
+		t, qty = CIPTypeBOOL, len(x)
+	}
+	if t == CIPTypeUnknown || t == CIPTypeStruct || t == CIPTypeSTRING {
+		return nil, nil, 0, fmt.Errorf("%T can't be read: %w", value, &CIPError{Code: byte(CIPStatus_InvalidAttributeValue)})
+	}
+	b, err := Serialize(value)
+	if err != nil {
+		return nil, nil, 0, err
+	}
+	data = b.Bytes()
+	return []byte{byte(t), 0}, data, max(1, len(data)/max(1, qty)), nil
 }
 
 // connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
@@ -281,22 +323,10 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
 	}
-	var pathlen uint16
-	err = item.DeSerialize(&pathlen)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting path len: %w / %v", err, err2)
-	}
-	tag, err := getTagFromPath(&item)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
-	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
+	_, err = item.Byte() // the service, which we've been told.
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
+		return fmt.Errorf("error getting service: %w / %v", err, err2)
 	}
 
 	path := connection.Path
@@ -307,37 +337,11 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
 	}
 	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	status, data, err := readTag(reqSvc, p, &item, connection.replyLimit())
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
-		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
-	}
-	typ, _ := GoVarToCIPType(result)
-
-	if typ == CIPTypeSTRING {
-		// Single STRING — the common case for atomic tag reads.
-		if res_str, ok := result.(string); ok {
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
-		}
-		// STRING array — emit one cipStringPacker block per element, back
-		// to back. The L24ER MSG and pylogix both unpack the wire as N×90
-		// contiguous STRING slots when the request asks for multiple
-		// elements of a STRING tag. Without this branch, full-array reads
-		// of `strarr` failed with "Invalid Attribute" because the generic
-		// fallback below tried binary.Write on a Go `[]string`, which is
-		// not fixed-size and explodes inside the serializer.
-		if res_strs, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(res_strs))
-			for _, s := range res_strs {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
-		}
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
-		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
-	} else {
-		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
+		return err
 	}
+	return h.sendConnectedStatus(reqSvc, seq, connection.TO, status, data)
 }
 
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
@@ -404,7 +408,7 @@ func (c cipStringPacker) Bytes() []byte {
 //	[qty: uint16]
 //	for each element:
 //	    atomic: typ.readValue
-//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes]
+//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes] [padding: 2 bytes]
 //
 // For atomic writes type_info_length_bytes is 0 — the field doubles as the
 // high byte of the uint16 DataType the gologix client serializes — so the
@@ -442,10 +446,22 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		return nil, fmt.Errorf("error reading element count: %w", err)
 	}
 
+	if qty == 0 {
+		return nil, fmt.Errorf("nothing to write: %w", &CIPError{Code: byte(CIPStatus_NotEnoughData)})
+	}
+	// an element has at least a byte.
+	if int(qty) > len(item.Rest()) {
+		return nil, fmt.Errorf("no data for %d elements: %w", qty, io.ErrUnexpectedEOF)
+	}
 	results := make([]any, qty)
 	if typ == CIPTypeStruct {
 		if structCRC != cipStringStructCRC {
-			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
+			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X: %w", cipStringStructCRC, structCRC, &CIPError{Code: byte(CIPStatus_InvalidAttributeValue)})
+		}
+		// not everyone sends the padding.
+		pad := make([]byte, cipStringStructPad)
+		if len(item.Rest()) < int(qty)*cipStringTagDataLen {
+			pad = nil
 		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
@@ -456,6 +472,11 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 			if err := item.DeSerialize(&data); err != nil {
 				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
 			}
+			if pad != nil {
+				if err := item.DeSerialize(&pad); err != nil {
+					return nil, fmt.Errorf("error reading STRING padding for element %d: %w", i, err)
+				}
+			}
 			if slen > cipStringDataLen {
 				slen = cipStringDataLen
 			}
@@ -475,11 +496,17 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 }
 
 func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
+	return h.sendConnectedStatus(s, seq, connID, CIPStatus_OK, payload...)
+}
+
+// sendConnectedStatus is sendConnectedReply for when there is data although the status isn't necessarily OK.
+func (h *serverTCPHandler) sendConnectedStatus(s CIPService, seq uint16, connID uint32, status CIPStatus, payload ...any) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, connID)
 	items[1] = newItem(cipItem_ConnectedData, seq)
 	resp := msgUnconnWriteResultHeader{
 		Service: s.AsResponse(),
+		Status:  status,
 	}
 	err := items[1].Serialize(resp)
 	if err != nil {
diff --git a/server_connections.go b/server_connections.go
index ce2f91f..4f0506e 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -25,6 +25,12 @@ type serverConnection struct {
 	done    chan struct{}     // closed when the connection is
 }
 
+// replyLimit is how many bytes can come after the header of a reply over the connection.
+func (conn *serverConnection) replyLimit() int {
+	// that header is the sequence count, the service, a reserved byte and the status.
+	return max(0, min(conn.size, maxMessageSize)-6)
+}
+
 // close marks the connection closed. The connection manager's lock has to be held.
 func (conn *serverConnection) close() {
 	conn.Open = false
diff --git a/server_unconnected.go b/server_unconnected.go
index 19a6b7f..3604558 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -80,7 +80,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting path size 305. %w", err)
 		}
-		path := make([]byte, pathsize*2)
+		path := make([]byte, int(pathsize)*2)
 		err = item.DeSerialize(&path)
 		if err != nil {
 			return fmt.Errorf("error getting path. %w", err)
@@ -95,6 +95,13 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting embedded size. %w", err)
 		}
+		rest := item.Rest()
+		if len(rest) < int(embedded_size) {
+			return fmt.Errorf("embedded message should have %d bytes: %w", embedded_size, io.ErrUnexpectedEOF)
+		}
+		// the route comes after the embedded message and what pads that to an even size.
+		route := CIPItem{Data: rest[min(len(rest), int(embedded_size)+int(embedded_size)%2):]}
+		item = CIPItem{Data: rest[:embedded_size]}
 		var emService CIPService
 		err = item.DeSerialize(&emService)
 		if err != nil {
@@ -103,9 +110,9 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		h.service = emService
 		switch emService {
 		case CIPService_Write:
-			return h.unconnectedServiceWrite(item)
-		case CIPService_Read:
-			return h.unconnectedServiceRead(item)
+			return h.unconnectedServiceWrite(item, route)
+		case CIPService_Read, CIPService_FragRead:
+			return h.unconnectedServiceRead(emService, item, route)
 		case CIPService_GetAttributeSingle:
 			return h.unconnectedServiceGetAttrSingle(item)
 		case CIPService_SetAttributeSingle:
@@ -343,13 +350,8 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
-func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem) error {
+	tag, err := getRequestTag(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -358,31 +360,32 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
 	qty := uint16(len(results))
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
+	// the path's size is in words and comes with a reserved byte.
+	var path_size [2]byte
+	err = route.DeSerialize(&path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't get path size 374. %w", err)
 	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
+	path := make([]byte, 2*int(path_size[0]))
+	err = route.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("couldn't get path. %w", err)
 	}
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)}, err)
 	}
 	p := provider
 	if qty > 1 {
 		err = p.TagWrite(tag, results)
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return writeFailed(tag, err)
 		}
 	} else {
 		err = p.TagWrite(tag, results[0])
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return writeFailed(tag, err)
 		}
 	}
 
@@ -584,66 +587,30 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	return tags[instance-1].Name, true
 }
 
-func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
-	if err != nil {
-		return fmt.Errorf("couldn't parse path. %w", err)
-	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		return fmt.Errorf("error getting write qty. %w", err)
-	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
+func (h *serverTCPHandler) unconnectedServiceRead(reqSvc CIPService, item CIPItem, route CIPItem) error {
+	// the path's size is in words and comes with a reserved byte.
+	var path_size [2]byte
+	err := route.DeSerialize(&path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't get path size 374. %w", err)
 	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
+	path := make([]byte, 2*int(path_size[0]))
+	err = route.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("couldn't get path. %w", err)
 	}
-	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
+	h.server.Logger.Debug("read", "path", path)
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)}, err)
 	}
 	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	status, data, err := readTag(reqSvc, p, &item, maxMessageSize-4)
 	if err != nil {
-		return fmt.Errorf("problem getting data from provider. %w", err)
-	}
-	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
-	typ, _ := GoVarToCIPType(result)
-
-	// STRING values need the Logix STRING UDT wire format (type segment
-	// `0xA0 0x02 0x0FCE` + LEN + DATA[82] + alignment padding) instead of
-	// raw bytes, otherwise external clients (pylogix, FT Linx, MSG read on
-	// a real Logix controller) can't decode the reply. Mirror the special
-	// branch the connected read path already had, so a single STRING tag
-	// and a STRING element of an array both deserialize cleanly.
-	if typ == CIPTypeSTRING {
-		if s, ok := result.(string); ok {
-			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringPacker(s))
-		}
-		if ss, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(ss))
-			for _, s := range ss {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendUnconnectedRRDataReply(CIPService_Read, payloads...)
-		}
+		return err
 	}
-
-	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, byte(0), result)
-
+	return h.sendUnconnectedStatusReply(reqSvc, status, data)
 }
 
 // sendUnconnectedErrorReply emits a CIP error response carrying a non-zero
@@ -675,11 +642,17 @@ func (h *serverTCPHandler) sendUnconnectedErrorReply(s CIPService, status CIPSta
 }
 
 func (h *serverTCPHandler) sendUnconnectedRRDataReply(s CIPService, payload ...any) error {
+	return h.sendUnconnectedStatusReply(s, CIPStatus_OK, payload...)
+}
+
+// sendUnconnectedStatusReply is sendUnconnectedRRDataReply for when there is data although the status isn't necessarily OK.
+func (h *serverTCPHandler) sendUnconnectedStatusReply(s CIPService, status CIPStatus, payload ...any) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_Null, nil)
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 	resp := msgUnconnWriteResultHeader{
 		Service: s.AsResponse(),
+		Status:  status,
 	}
 	err := items[1].Serialize(resp)
 	if err != nil {
-- 
2.43.0


From 0ed2ac36cf5aa4a5910bf9243c70971ed7598c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 40/51] fix: keep a map tag provider's values what they are

A write of some of an array's elements cut the rest off, one of a single
element replaced the array by it, element writes ignored all values but the
first, a value of another type replaced a tag's or was turned into something
else (numbers into characters, large numbers into small ones), reads shared
the array with later writes, and tags whose key isn't lower case or looks like
an array element, as the documentation suggests, could not be found.
---
 server_router.go | 150 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 123 insertions(+), 27 deletions(-)

diff --git a/server_router.go b/server_router.go
index 13da105..19d62ce 100644
--- a/server_router.go
+++ b/server_router.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -120,12 +121,15 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		p.Data = make(map[string]any)
 	}
 
-	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName, elemIdx, hasElem := p.find(tag)
 
 	val, ok := p.Data[baseName]
 	if !ok {
 		return nil, fmt.Errorf("tag %v not in map", tag)
 	}
+	if qty < 1 {
+		return nil, fmt.Errorf("tag %v: can't read %d elements", tag, qty)
+	}
 
 	t := reflect.ValueOf(val)
 
@@ -145,21 +149,56 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copySlice(t.Slice(elemIdx, end)), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
 			values := reflect.Indirect(t)
 			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copySlice(v), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
+	if qty > 1 {
+		return nil, fmt.Errorf("tag %v: requested %d elements of what isn't an array (%T)", tag, qty, val)
+	}
 
 	return val, nil
 }
 
+// find returns the key of the map that tag is an element of, if hasElem, or otherwise stands for. Names are not case
+// sensitive, and a key that is all of tag takes precedence over an element. The lock has to be held.
+func (p *MapTagProvider) find(tag string) (key string, idx int, hasElem bool) {
+	if key, ok := p.key(tag); ok {
+		return key, 0, false
+	}
+	base, idx, hasElem := parseElementTag(tag)
+	key, _ = p.key(base)
+	return key, idx, hasElem
+}
+
+// key returns the map's key for name, or name if there is none. The lock has to be held.
+func (p *MapTagProvider) key(name string) (key string, ok bool) {
+	if _, ok := p.Data[name]; ok {
+		return name, true
+	}
+	key = name
+	for k := range p.Data {
+		if strings.EqualFold(k, name) && (!ok || k < key) {
+			key, ok = k, true
+		}
+	}
+	return key, ok
+}
+
+// copySlice copies the slice v, so it can be used without the lock.
+func copySlice(v reflect.Value) any {
+	c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+	reflect.Copy(c, v)
+	return c.Interface()
+}
+
 // this is a thread-safe way to write a value to a tag. Like TagRead, it
 // supports element addressing (`name[N]`) AND preserves the underlying
 // element type of an existing typed slice when the caller hands us a
@@ -176,7 +215,7 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		p.Data = make(map[string]any)
 	}
 
-	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName, elemIdx, hasElem := p.find(tag)
 
 	if hasElem {
 		existing, ok := p.Data[baseName]
@@ -190,42 +229,76 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		if elemIdx < 0 || elemIdx >= ev.Len() {
 			return fmt.Errorf("tag %v: element index %d out of range [0..%d)", tag, elemIdx, ev.Len())
 		}
-		converted, err := convertToElement(value, ev.Type().Elem())
-		if err != nil {
-			return fmt.Errorf("tag %v: %w", tag, err)
-		}
 		// Slices are reference types — mutating in place is safe under the
 		// lock and matches the in-place semantics of a Logix array write.
-		ev.Index(elemIdx).Set(reflect.ValueOf(converted))
-		return nil
+		return writeElements(tag, ev, elemIdx, value)
 	}
 
 	// Full-tag write. If the new value is `[]any` AND the existing tag is a
 	// typed slice, coerce element-by-element to preserve the original type
-	// so subsequent reads still serialize cleanly.
-	if existing, ok := p.Data[baseName]; ok {
+	// so subsequent reads still serialize cleanly. Elements there is no new
+	// value for stay as they are.
+	existing, ok := p.Data[baseName]
+	nv := reflect.ValueOf(value)
+	if !nv.IsValid() {
+		return fmt.Errorf("tag %v: no value", tag)
+	}
+	anys := nv.Kind() == reflect.Slice && nv.Type().Elem().Kind() == reflect.Interface
+	if ok {
 		ev := reflect.ValueOf(existing)
-		nv := reflect.ValueOf(value)
-		if ev.Kind() == reflect.Slice && nv.Kind() == reflect.Slice &&
-			nv.Type().Elem().Kind() == reflect.Interface {
-			elemType := ev.Type().Elem()
-			out := reflect.MakeSlice(reflect.SliceOf(elemType), nv.Len(), nv.Len())
-			for i := 0; i < nv.Len(); i++ {
-				converted, err := convertToElement(nv.Index(i).Interface(), elemType)
-				if err != nil {
-					return fmt.Errorf("tag %v element %d: %w", tag, i, err)
-				}
-				out.Index(i).Set(reflect.ValueOf(converted))
+		if ev.Kind() == reflect.Slice && (nv.Kind() != reflect.Slice || anys) {
+			return writeElements(tag, ev, 0, value)
+		}
+		if ev.IsValid() && ev.Kind() != reflect.Slice {
+			converted, err := convertToElement(value, ev.Type())
+			if err != nil {
+				return fmt.Errorf("tag %v: %w", tag, err)
 			}
-			p.Data[baseName] = out.Interface()
-			return nil
+			value = converted
+		}
+	} else if anys && nv.Len() > 0 && nv.Index(0).Elem().IsValid() {
+		// a new array has the type of its elements.
+		elemType := nv.Index(0).Elem().Type()
+		out := reflect.MakeSlice(reflect.SliceOf(elemType), nv.Len(), nv.Len())
+		err := writeElements(tag, out, 0, value)
+		if err != nil {
+			return err
 		}
+		value = out.Interface()
 	}
 
 	p.Data[baseName] = value
 	return nil
 }
 
+// writeElements sets the elements of the slice ev, from start on, to value or, if that is a slice, to its elements.
+// Either all of them can be set or none is.
+func writeElements(tag string, ev reflect.Value, start int, value any) error {
+	values := []any{value}
+	if nv := reflect.ValueOf(value); nv.Kind() == reflect.Slice {
+		values = make([]any, nv.Len())
+		for i := range values {
+			values[i] = nv.Index(i).Interface()
+		}
+	}
+	if start+len(values) > ev.Len() {
+		return fmt.Errorf("tag %v: can't write %d elements from index %d, array has %d total", tag, len(values), start, ev.Len())
+	}
+	elemType := ev.Type().Elem()
+	converted := make([]any, len(values))
+	for i := range values {
+		var err error
+		converted[i], err = convertToElement(values[i], elemType)
+		if err != nil {
+			return fmt.Errorf("tag %v element %d: %w", tag, start+i, err)
+		}
+	}
+	for i := range converted {
+		ev.Index(start + i).Set(reflect.ValueOf(converted[i]))
+	}
+	return nil
+}
+
 // parseElementTag splits a tag name on the trailing `[N]` element
 // indexer that ioi.go's getTagFromPath appends when a CIP request
 // addresses a specific array element. Returns hasElem=false when the
@@ -251,15 +324,38 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 // converted value or an error if the cast isn't representable.
 func convertToElement(value any, target reflect.Type) (any, error) {
 	v := reflect.ValueOf(value)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("cannot convert nothing to %v", target)
+	}
 	if v.Type() == target {
 		return value, nil
 	}
-	if v.Type().ConvertibleTo(target) {
-		return v.Convert(target).Interface(), nil
+	// besides numbers only what has the same kind can be the same in another type.
+	number := func(t reflect.Type) bool {
+		return t.Kind() >= reflect.Int && t.Kind() <= reflect.Float64
+	}
+	if v.Type().ConvertibleTo(target) && (v.Kind() == target.Kind() || number(v.Type()) && number(target)) {
+		converted := v.Convert(target)
+		if !number(target) || sameNumber(v, converted) {
+			return converted.Interface(), nil
+		}
+		return nil, fmt.Errorf("%v is not a %v", value, target)
 	}
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
 
+// sameNumber says whether the number v is still the same after it was converted, other than that a floating point
+// number may have been rounded.
+func sameNumber(v, converted reflect.Value) bool {
+	if v.CanFloat() && converted.CanFloat() {
+		return math.IsInf(v.Float(), 0) || !math.IsInf(converted.Float(), 0)
+	}
+	negative := func(v reflect.Value) bool {
+		return v.CanInt() && v.Int() < 0 || v.CanFloat() && v.Float() < 0
+	}
+	return negative(v) == negative(converted) && v.Equal(converted.Convert(v.Type()))
+}
+
 // TagList implements the optional TagLister interface and returns a snapshot
 // of every tag this provider exposes, along with its CIP type code. Used by
 // the Symbol Object (Class 0x6B) GetInstanceAttributeList handler so external
-- 
2.43.0


From 658368121a7459f51f359c233db4e6c071eb4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 41/51] fix: take class 1 data only as long as it came and hand
 it over whole

Data was taken from beyond the end of a packet, which crashed the server when
there was none, packets that are too short were unpacked halfway, one slow
subscriber kept the data from the others, and subscribing raced with that. A
closed listener was asked again and again instead of ending Serve.
---
 server.go           | 12 ++++++++++--
 server_io.go        | 17 +++++++++++------
 server_iochannel.go | 18 ++++++++++++------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index 97d0f47..a2d634f 100644
--- a/server.go
+++ b/server.go
@@ -86,7 +86,7 @@ func (srv *Server) Serve() error {
 
 	// we'll start two server goroutines and then wait for either of them to error out on the error channel.
 
-	errCh := make(chan error)
+	errCh := make(chan error, 2)
 
 	go func() {
 		err := srv.serveUDP()
@@ -125,7 +125,12 @@ func (srv *Server) serveTCP() error {
 	for {
 		conn, err := srv.TCPListener.Accept()
 		if err != nil {
+			if errors.Is(err, net.ErrClosed) {
+				return err
+			}
 			srv.Logger.Error("problem with tcp accept", "error", err)
+			// the likely cause is being out of something, which trying again at once only makes worse.
+			time.Sleep(10 * time.Millisecond)
 			continue
 		}
 		// create a new handler and kick off its serve method to handle the connection
@@ -151,8 +156,11 @@ func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
 		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
+		if errors.Is(err, net.ErrClosed) {
+			return err
+		}
+		buf := bytes.NewBuffer(b[:n])
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
 			continue
diff --git a/server_io.go b/server_io.go
index cde4d06..941f492 100644
--- a/server_io.go
+++ b/server_io.go
@@ -27,6 +27,9 @@ type IOProvider[Tin, Tout any] struct {
 func (p *IOProvider[Tin, Tout]) IORead() ([]byte, error) {
 	p.InMutex.Lock()
 	defer p.InMutex.Unlock()
+	if p.In == nil {
+		return nil, errors.New("no input data")
+	}
 	b := bytes.Buffer{}
 	_, err := Pack(&b, *(p.In))
 	if err != nil {
@@ -58,20 +61,22 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
-	err = items[1].DeSerialize(&payload)
-	if err != nil {
-		return fmt.Errorf("problem getting raw data. %w", err)
-	}
+	payload := items[1].Rest()
 	b := bytes.NewBuffer(payload)
 
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
 
-	_, err = Unpack(b, p.Out)
+	if p.Out == nil {
+		return errors.New("nowhere to put output data")
+	}
+	// what can't be unpacked completely should not change anything.
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..8f52ec9 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -20,6 +20,7 @@ import (
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
 	in          Tin
+	outMutex    sync.Mutex
 	outChannels []chan Tout
 }
 
@@ -58,11 +59,7 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
-	err = items[1].DeSerialize(&payload)
-	if err != nil {
-		return fmt.Errorf("problem getting raw data. %w", err)
-	}
+	payload := items[1].Rest()
 	b := bytes.NewBuffer(payload)
 
 	var out Tout
@@ -70,13 +67,20 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
+	missed := 0
 	for i := range p.outChannels {
 		select {
 		case p.outChannels[i] <- out:
 		default:
-			return errors.New("problem sending IOWrite data. channel full?")
+			// the others still get it.
+			missed++
 		}
 	}
+	if missed > 0 {
+		return errors.New("problem sending IOWrite data. channel full?")
+	}
 
 	return nil
 }
@@ -93,6 +97,8 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
 	newout := make(chan Tout)
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	p.outChannels = append(p.outChannels, newout)
 	return newout
 }
-- 
2.43.0


From 0ba9b3c6ffa89a769658db669736cc08230312a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 42/51] fix: describe the server the same way however it is
 asked

Single identity attributes came as another service's reply when connected and
with a type in front otherwise, names in the form of a tag, and unsigned
attributes broke the other services. Symbol lists ignored where to start and
which attributes were asked for, did not end where the connection does, and
shortened names. Attribute paths with instances above 255 were refused.
---
 server.go              |  45 +++++++++-
 server_connected.go    |  36 ++------
 server_listidentity.go |  10 +--
 server_unconnected.go  | 188 ++++++++++++++++++++++++++---------------
 4 files changed, 176 insertions(+), 103 deletions(-)

diff --git a/server.go b/server.go
index a2d634f..9472c88 100644
--- a/server.go
+++ b/server.go
@@ -546,7 +546,43 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 	}
 	provider, err := h.server.Router.Resolve(conn.Path)
 	if err != nil {
-		return fmt.Errorf("symbol list: provider lookup: %w", err)
+		return fmt.Errorf("symbol list: provider lookup: %w: %v", &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)}, err)
+	}
+
+	items[1].Reset()
+	item := items[1]
+	var req struct {
+		Seq      uint16
+		Service  CIPService
+		PathSize byte
+	}
+	if err := item.DeSerialize(&req); err != nil {
+		return fmt.Errorf("symbol list: request: %w", err)
+	}
+	path := make([]byte, int(req.PathSize)*2)
+	if err := item.DeSerialize(&path); err != nil {
+		return fmt.Errorf("symbol list: path: %w", err)
+	}
+	class, start, err := parseClassInstancePath(bytes.NewBuffer(path))
+	if err != nil {
+		return fmt.Errorf("symbol list: path % X: %w: %v", path, &CIPError{Code: byte(CIPStatus_PathSegmentError)}, err)
+	}
+	if class != CipObject_Symbol {
+		return fmt.Errorf("symbol list: class %d has no symbols: %w", class, &CIPError{Code: byte(CIPStatus_ServiceNotSupported)})
+	}
+	var attrs []uint16
+	if len(item.Rest()) > 0 {
+		var count uint16
+		if err := item.DeSerialize(&count); err != nil {
+			return fmt.Errorf("symbol list: attribute count: %w", err)
+		}
+		if len(item.Rest()) < int(count)*2 {
+			return fmt.Errorf("symbol list: should have %d attributes: %w", count, io.ErrUnexpectedEOF)
+		}
+		attrs = make([]uint16, count)
+		if err := item.DeSerialize(&attrs); err != nil {
+			return fmt.Errorf("symbol list: attributes: %w", err)
+		}
 	}
 
 	// Type-assert to the optional TagLister interface. A provider that
@@ -559,8 +595,11 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
 	}
 
-	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), 0)
-	return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, payload)
+	payload, status, err := buildSymbolObjectInstanceListResponse(sortedTags(lister), uint32(start), attrs, conn.replyLimit())
+	if err != nil {
+		return fmt.Errorf("symbol list: %w", err)
+	}
+	return h.sendConnectedStatus(CIPService_GetInstanceAttributeList, h.UnitDataSequencer, conn.TO, status, payload)
 }
 
 // sendUnitDataReplyWithPayload is sendUnitDataReply with an additional
diff --git a/server_connected.go b/server_connected.go
index e0f3090..ad3c2e8 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -575,42 +575,24 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("couldn't read cmd type: %w", err)
 	}
 
-	path_size, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read data len: %w", err)
-	}
-
-	if path_size != 3 {
-		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
-	}
-
-	var cls CIPClass
-	err = cls.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-
-	var inst CIPInstance
-	err = inst.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
+		return err
 	}
 
 	if cls != 1 || inst != 1 {
-		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
-	}
-
-	var attr CIPAttribute
-	err = attr.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d. %w", cls, inst, &CIPError{Code: byte(CIPStatus_PathDestinationUnknown)})
 	}
 
 	result, ok := h.server.Attributes[attr]
 	if !ok {
-		return fmt.Errorf("bad attribute %d", attr)
+		return fmt.Errorf("bad attribute %d: %w", attr, &CIPError{Code: byte(CIPStatus_AttributeNotSupported)})
+	}
+	data, err := identityAttribute(result)
+	if err != nil {
+		return fmt.Errorf("problem with attribute %d: %w", attr, err)
 	}
 
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, data)
 
 }
diff --git a/server_listidentity.go b/server_listidentity.go
index d1d1d75..133c74f 100644
--- a/server_listidentity.go
+++ b/server_listidentity.go
@@ -23,23 +23,23 @@ const cipIdentityItemType CIPItemID = 0x000C
 // Inputs come from the same Server.Attributes map that
 // unconnectedGetAttributeAll reads, so both Identity paths stay in sync.
 func buildListIdentityItemBody(attrs map[CIPAttribute]any, localIP net.IP, localPort uint16) ([]byte, error) {
-	vendor, ok := attrs[1].(int16)
+	vendor, ok := identityWord(attrs[1])
 	if !ok {
 		return nil, fmt.Errorf("attribute 1 (VendorID) missing or wrong type: %T", attrs[1])
 	}
-	deviceType, ok := attrs[2].(int16)
+	deviceType, ok := identityWord(attrs[2])
 	if !ok {
 		return nil, fmt.Errorf("attribute 2 (DeviceType) missing or wrong type: %T", attrs[2])
 	}
-	productCode, ok := attrs[3].(int16)
+	productCode, ok := identityWord(attrs[3])
 	if !ok {
 		return nil, fmt.Errorf("attribute 3 (ProductCode) missing or wrong type: %T", attrs[3])
 	}
-	revision, ok := attrs[4].(int16)
+	revision, ok := identityWord(attrs[4])
 	if !ok {
 		return nil, fmt.Errorf("attribute 4 (Revision) missing or wrong type: %T", attrs[4])
 	}
-	status, ok := attrs[5].(int16)
+	status, ok := identityWord(attrs[5])
 	if !ok {
 		return nil, fmt.Errorf("attribute 5 (Status) missing or wrong type: %T", attrs[5])
 	}
diff --git a/server_unconnected.go b/server_unconnected.go
index 3604558..8fbbc06 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -218,12 +218,13 @@ func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
 // these IDs for subsequent reads.
 //
 // startInstance lets callers iterate when the response would exceed the
-// transport limit (~500 bytes). For now Server_Class3 exposes only a
-// handful of tags so we emit everything in one reply, but the loop is
-// written so a future paginator can drop in without restructuring.
-func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32) []byte {
-	// Stable ordering keeps instance IDs deterministic across reads.
-	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
+// transport limit: only as many tags as fit in limit bytes are emitted, and
+// the status says whether there are more. attrs are the attributes the
+// request asks for, name and type if it names none.
+func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32, attrs []uint16, limit int) ([]byte, CIPStatus, error) {
+	if len(attrs) == 0 {
+		attrs = []uint16{1, 2}
+	}
 
 	var buf bytes.Buffer
 	for i, tag := range tags {
@@ -231,16 +232,42 @@ func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance u
 		if instanceID < startInstance {
 			continue
 		}
+		start := buf.Len()
 		_ = binary.Write(&buf, binary.LittleEndian, instanceID)
-		name := tag.Name
-		if len(name) > 255 {
-			name = name[:255]
+		for _, attr := range attrs {
+			switch attr {
+			case 1: // name
+				name := tag.Name
+				_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
+				buf.WriteString(name)
+			case 2: // type
+				_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
+			case 3, 5, 6: // addresses and software control, of which there are none
+				buf.Write(make([]byte, 4))
+			case 8: // dimensions, which a provider doesn't tell
+				buf.Write(make([]byte, 12))
+			case 10: // external access: read and write
+				buf.WriteByte(0)
+			default:
+				return nil, 0, fmt.Errorf("symbol attribute %d: %w", attr, &CIPError{Code: byte(CIPStatus_AttributeNotSupported)})
+			}
+		}
+		if buf.Len() > limit {
+			if start == 0 {
+				return nil, 0, fmt.Errorf("no room for symbol %d: %w", instanceID, &CIPError{Code: byte(CIPStatus_ReplyDataTooLarge)})
+			}
+			return buf.Bytes()[:start], CIPStatus_PartialTransfer, nil
 		}
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
-		buf.WriteString(name)
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
 	}
-	return buf.Bytes()
+	return buf.Bytes(), CIPStatus_OK, nil
+}
+
+// sortedTags returns a provider's tags in the order in which they are numbered. Stable ordering keeps instance IDs
+// deterministic across reads.
+func sortedTags(lister TagLister) []ServerTagInfo {
+	tags := append([]ServerTagInfo(nil), lister.TagList()...)
+	sort.SliceStable(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
+	return tags
 }
 
 // buildProgramObjectGetAttributesAllResponse renders the payload for
@@ -294,23 +321,23 @@ func parseClassInstancePath(p io.Reader) (CIPClass, CIPInstance, error) {
 //	Serial      UDINT (4)
 //	ProductName SHORT_STRING (1 + N)
 func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte, error) {
-	vendor, ok := attrs[1].(int16)
+	vendor, ok := identityWord(attrs[1])
 	if !ok {
 		return nil, fmt.Errorf("attribute 1 (VendorID) missing or wrong type: %T", attrs[1])
 	}
-	deviceType, ok := attrs[2].(int16)
+	deviceType, ok := identityWord(attrs[2])
 	if !ok {
 		return nil, fmt.Errorf("attribute 2 (DeviceType) missing or wrong type: %T", attrs[2])
 	}
-	productCode, ok := attrs[3].(int16)
+	productCode, ok := identityWord(attrs[3])
 	if !ok {
 		return nil, fmt.Errorf("attribute 3 (ProductCode) missing or wrong type: %T", attrs[3])
 	}
-	revision, ok := attrs[4].(int16)
+	revision, ok := identityWord(attrs[4])
 	if !ok {
 		return nil, fmt.Errorf("attribute 4 (Revision) missing or wrong type: %T", attrs[4])
 	}
-	status, ok := attrs[5].(int16)
+	status, ok := identityWord(attrs[5])
 	if !ok {
 		return nil, fmt.Errorf("attribute 5 (Status) missing or wrong type: %T", attrs[5])
 	}
@@ -350,6 +377,60 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
+// identityWord is the value of an identity attribute that has 16 bits.
+func identityWord(attr any) (uint16, bool) {
+	switch x := attr.(type) {
+	case int16:
+		return uint16(x), true
+	case uint16:
+		return x, true
+	}
+	return 0, false
+}
+
+// identityAttribute is what a Get_Attribute_Single of an identity attribute returns, which is the value alone.
+func identityAttribute(attr any) ([]byte, error) {
+	if name, ok := attr.(string); ok {
+		if len(name) > 255 {
+			name = name[:255]
+		}
+		return append([]byte{byte(len(name))}, name...), nil
+	}
+	b, err := Serialize(attr)
+	if err != nil {
+		return nil, err
+	}
+	return b.Bytes(), nil
+}
+
+// readAttributePath reads a path that leads to an attribute. It comes after its size in words.
+func readAttributePath(item *CIPItem) (cls CIPClass, inst CIPInstance, attr CIPAttribute, err error) {
+	pathSize, err := item.Byte()
+	if err != nil {
+		return 0, 0, 0, fmt.Errorf("couldn't read path size: %w", io.ErrUnexpectedEOF)
+	}
+	rest := item.Rest()
+	if len(rest) < int(pathSize)*2 {
+		return 0, 0, 0, fmt.Errorf("path should have %d words: %w", pathSize, io.ErrUnexpectedEOF)
+	}
+	path := CIPItem{Data: rest[:int(pathSize)*2]}
+	item.Pos += int(pathSize) * 2
+	err = cls.Read(&path)
+	if err == nil {
+		err = inst.Read(&path)
+	}
+	if err == nil {
+		err = attr.Read(&path)
+	}
+	if err == nil && len(path.Rest()) != 0 {
+		err = fmt.Errorf("unexpected % X", path.Rest())
+	}
+	if err != nil {
+		return 0, 0, 0, fmt.Errorf("path % X does not lead to an attribute (%v): %w", path.Data, err, &CIPError{Code: byte(CIPStatus_PathSegmentError)})
+	}
+	return cls, inst, attr, nil
+}
+
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem) error {
 	tag, err := getRequestTag(&item)
 	if err != nil {
@@ -405,26 +486,9 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// from the item after `attr.Read`; the moment FactoryTalk Linx started
 	// probing real Identity attributes (0x15, 0x16, ...) it tripped the
 	// "Path segment error" branch instead of looking up the attribute.
-	pathSize, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		h.server.Logger.Debug("getattrsingle: unsupported path size", "size", pathSize)
-		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return err
 	}
 
 	// Custom class 0xC8: per-tag attribute container — see
@@ -434,7 +498,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// (`CIA:C8:<instance>:1`) without going through the Rockwell-only
 	// Service 0x4B/0x64 tag-browsing extension.
 	if cls == 0xC8 {
-		tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+		tagName, found := h.resolveSymbolicTagFromCustomClass(uint32(inst))
 		if !found {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
@@ -449,13 +513,11 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 		if err != nil {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_ObjectDoesNotExist)
 		}
-		typ, _ := GoVarToCIPType(val)
-		if typ == CIPTypeSTRING {
-			if s, ok := val.(string); ok {
-				return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, cipStringPacker(s))
-			}
+		typ, data, _, err := tagData(val)
+		if err != nil {
+			return fmt.Errorf("problem with data for %s: %w", tagName, err)
 		}
-		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
+		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, data)
 	}
 
 	// Class 0x01 Identity is the only standard class with attribute data
@@ -487,8 +549,11 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
 
-	typ, _ := GoVarToCIPType(val)
-	return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
+	data, err := identityAttribute(val)
+	if err != nil {
+		return fmt.Errorf("problem with attribute %d: %w", attr, err)
+	}
+	return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, data)
 }
 
 // unconnectedServiceSetAttrSingle handles CIP Set_Attribute_Single (0x10)
@@ -497,24 +562,9 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 // considered read-only here. SCADA clients writing back to symbolic tags
 // via CIA paths land here.
 func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
-	pathSize, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return err
 	}
 
 	if cls != 0xC8 {
@@ -523,7 +573,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if attr != 1 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
-	tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+	tagName, found := h.resolveSymbolicTagFromCustomClass(uint32(inst))
 	if !found {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -547,6 +597,9 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
 	value := values[0]
+	if len(values) > 1 {
+		value = values
+	}
 	if err := provider.TagWrite(tagName, value); err != nil {
 		h.server.Logger.Warn("set_attr_single: tag write failed", "tag", tagName, "err", err)
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_InvalidAttributeValue)
@@ -570,7 +623,7 @@ var defaultLocalPath = []byte{1, 0}
 // Returns ok=false if the provider doesn't implement TagLister (no
 // browsable tag set), if the instance is out of range, or if the index
 // arithmetic underflows.
-func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (string, bool) {
+func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint32) (string, bool) {
 	provider, err := h.server.Router.Resolve(defaultLocalPath)
 	if err != nil {
 		return "", false
@@ -579,9 +632,8 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	if !ok {
 		return "", false
 	}
-	tags := lister.TagList()
-	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
-	if instance == 0 || int(instance) > len(tags) {
+	tags := sortedTags(lister)
+	if instance == 0 || uint64(instance) > uint64(len(tags)) {
 		return "", false
 	}
 	return tags[instance-1].Name, true
-- 
2.43.0


From 892d047bb1fb7edb820ed2af9f7a237a02018bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 43/51] fix: refuse string writes that don't have all of the
 strings

---
 server_connected.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server_connected.go b/server_connected.go
index ad3c2e8..9568094 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -460,8 +460,10 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		}
 		// not everyone sends the padding.
 		pad := make([]byte, cipStringStructPad)
-		if len(item.Rest()) < int(qty)*cipStringTagDataLen {
+		if size := len(item.Rest()); size == int(qty)*(cipStringTagDataLen-cipStringStructPad) {
 			pad = nil
+		} else if size < int(qty)*cipStringTagDataLen {
+			return nil, fmt.Errorf("%d bytes are not %d strings: %w", size, qty, io.ErrUnexpectedEOF)
 		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
-- 
2.43.0


From a87cce178252a2004fc3a08dd8feb9e00a267c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 44/51] fix: refuse connected attributes that don't fit their
 connection

---
 server.go           | 7 +++++++
 server_connected.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/server.go b/server.go
index 9472c88..b8b6391 100644
--- a/server.go
+++ b/server.go
@@ -45,6 +45,8 @@ type serverTCPHandler struct {
 	service   CIPService // the service it asks for, once that is known
 	connected bool       // whether it came over a connection
 	answered  bool       // whether something was sent in reply
+
+	via *serverConnection // the connection it came over, if it did
 }
 
 // Sets up a main server object for handling incoming EIP messages according to PathRouter r
@@ -238,6 +240,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		h.body = bytes.NewReader(body)
 		h.service = 0
 		h.connected = false
+		h.via = nil
 		h.answered = false
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
@@ -381,6 +384,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	}
 	// the reply is for whoever opened the connection this came over, which need not be the last one opened.
 	h.TOConnectionID = connection.TO
+	h.via = connection
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
@@ -607,6 +611,9 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 // the connected Get_Attributes_All handler to ship the Identity /
 // Program Object attribute bytes back to the client.
 func (h *serverTCPHandler) sendUnitDataReplyWithPayload(s CIPService, payload []byte) error {
+	if h.via != nil && len(payload) > h.via.replyLimit() {
+		return fmt.Errorf("no room for %d bytes: %w", len(payload), &CIPError{Code: byte(CIPStatus_ReplyDataTooLarge)})
+	}
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, h.TOConnectionID)
 	items[1] = newItem(cipItem_ConnectedData, nil)
diff --git a/server_connected.go b/server_connected.go
index 9568094..09e3a52 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -595,6 +595,9 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("problem with attribute %d: %w", attr, err)
 	}
 
+	if len(data) > connection.replyLimit() {
+		return fmt.Errorf("no room for %d bytes: %w", len(data), &CIPError{Code: byte(CIPStatus_ReplyDataTooLarge)})
+	}
 	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, data)
 
 }
-- 
2.43.0


From 610e08bbc03a88e79b8da9a7574bc751a635f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 45/51] fix: list bool arrays with the type they are read with

---
 server_router.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server_router.go b/server_router.go
index 19d62ce..959649f 100644
--- a/server_router.go
+++ b/server_router.go
@@ -371,6 +371,9 @@ func (p *MapTagProvider) TagList() []ServerTagInfo {
 	tags := make([]ServerTagInfo, 0, len(p.Data))
 	for name, val := range p.Data {
 		typ, _ := GoVarToCIPType(val)
+		if _, ok := val.([]bool); ok {
+			typ = CIPTypeBOOL
+		}
 		tags = append(tags, ServerTagInfo{Name: name, Type: typ})
 	}
 	return tags
-- 
2.43.0


From 9cf8ca349f491553b26b43edae70312aa6b54d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 46/51] fix: a data table path that is no whole number of words
 or too long for its length byte was sent

DataTableAddTag and DataTableAddTags took any path, so the controller got a
request whose entries it could not tell apart.
---
 datatable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datatable.go b/datatable.go
index 2bdaa9f..8b157a7 100644
--- a/datatable.go
+++ b/datatable.go
@@ -217,6 +217,13 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		return 0, fmt.Errorf("could not add %d tags to datatable buffer at once, %d are possible", len(entries), maxDataTableEntries)
 	}
 
+	for _, e := range entries {
+		// the length of a path is a byte that counts words.
+		if len(e.ioi)%2 != 0 || len(e.ioi) > 2*255 {
+			return 0, fmt.Errorf("could not add tag to datatable buffer: a path of %d bytes is not possible", len(e.ioi))
+		}
+	}
+
 	path := dataTablePath(instanceID)
 
 	// Estimate capacity: 5 header + per-tag (2 typeSize + 1 ioiLen + IOI bytes)
-- 
2.43.0


From 325fcfd09f0f5362a973a3956fd9970fb6b9dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:27 +0000
Subject: [PATCH 47/51] fix: the description of fault T17:C34 is found under
 its own code

---
 canned/fault_descriptions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/canned/fault_descriptions.go b/canned/fault_descriptions.go
index 29ef8a4..e007535 100644
--- a/canned/fault_descriptions.go
+++ b/canned/fault_descriptions.go
@@ -1445,9 +1445,9 @@ var FaultDescriptions = map[int]map[int]FaultDescription{
 			Major:            false,
 			TypeName:         "Diagnostic",
 		},
-		32: {
+		34: {
 			Type:             17,
-			Code:             31,
+			Code:             34,
 			Display:          "Major Fault T17:C34 - Diagnostic Fault: Controller internal temperature has exceeded operating limit.",
 			Description:      "Controller internal temperature has exceeded the operating limit.",
 			CorrectiveAction: "Take measures to reduce the ambient temperature of the module. Follow the recommended limits for the ambient (inlet) temperature and apply the required clearance around the chassis.",
-- 
2.43.0


From 3e21f4cb8303cfe5398cbf0fb84301941e42edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:27 +0000
Subject: [PATCH 48/51] fix: installed forces were reported as enabled ones

---
 canned/forces.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/canned/forces.go b/canned/forces.go
index 7311d7b..1a3564c 100644
--- a/canned/forces.go
+++ b/canned/forces.go
@@ -8,9 +8,12 @@ import (
 
 type ForceStatus uint16
 
+// Enabled says whether forces take effect (bit 1).
 func (f ForceStatus) Enabled() bool {
-	return f&1 != 0
+	return f&2 != 0
 }
+
+// Exist says whether forces are installed (bit 0).
 func (f ForceStatus) Exist() bool {
 	return f&1 != 0
 }
-- 
2.43.0


From e5bf82a4d530d4271ec98677ce25b9c284dfbf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:27 +0000
Subject: [PATCH 49/51] fix: a force status the controller could not give was
 reported as a value

---
 canned/forces.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/canned/forces.go b/canned/forces.go
index 1a3564c..e9a8f2a 100644
--- a/canned/forces.go
+++ b/canned/forces.go
@@ -38,6 +38,9 @@ func GetForces(client *gologix.Client) (ForceStatus, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not deserialize response: %v", err)
 	}
+	if response.Status != 0 {
+		return 0, fmt.Errorf("force status could not be read. Attribute status %v", gologix.CIPStatus(response.Status))
+	}
 
 	return response.Forces, nil
 
-- 
2.43.0


From 74fc3a5a54fffc42ef20c3c76cce145d65420f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:28 +0000
Subject: [PATCH 50/51] fix: listing the tags reads the known programs under
 their lock

---
 listalltags.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/listalltags.go b/listalltags.go
index 01d4165..b51dea2 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -131,7 +131,9 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		} else {
+			client.known_lock.Lock()
 			programs = client.KnownPrograms
+			client.known_lock.Unlock()
 		}
 		for _, p := range programs {
 			err := client.listProgramTags(p, tags, types)
-- 
2.43.0


From 8a6bb3389a0644e66f0a6495d463cb799888f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:21 +0000
Subject: [PATCH 51/51] fix: calls read the client's logger while Connect may
 replace it

---
 client.go          | 10 ++++++++-
 connect.go         | 52 ++++++++++++++++++++++++----------------------
 disconnect.go      | 14 ++++++-------
 getattr.go         | 10 ++++-----
 listallprograms.go | 10 ++++-----
 listalltags.go     |  4 ++--
 listidentity.go    |  2 +-
 listmembers.go     |  6 +++---
 listservices.go    |  2 +-
 listsubtags.go     |  2 +-
 partialread.go     |  2 +-
 read.go            |  6 +++---
 write.go           |  4 ++--
 13 files changed, 67 insertions(+), 57 deletions(-)

diff --git a/client.go b/client.go
index 8f83632..33a451b 100644
--- a/client.go
+++ b/client.go
@@ -108,6 +108,14 @@ type Client struct {
 	// Replace this to capture logs
 	Logger        LoggerInterface
 	logger_ip_set bool
+	logger_lock   sync.Mutex // Connect puts the controller's address into the logger while other calls may use it
+}
+
+// logger gets the logger to use at the moment.
+func (client *Client) logger() LoggerInterface {
+	client.logger_lock.Lock()
+	defer client.logger_lock.Unlock()
+	return client.Logger
 }
 
 // NewClient creates a new PLC client with reasonable defaults for the given IP address.
@@ -263,7 +271,7 @@ func (client *Client) firmware() int {
 	if err != nil {
 		return 0
 	}
-	client.Logger.Debug("controller firmware major version: %d", "major", major)
+	client.logger().Debug("controller firmware major version: %d", "major", major)
 	client.knownFirmware = int(major)
 	return client.knownFirmware
 
diff --git a/connect.go b/connect.go
index f0a7a35..bd7d2dc 100644
--- a/connect.go
+++ b/connect.go
@@ -84,6 +84,7 @@ func (client *Client) Connect() error {
 		}
 	}()
 
+	client.logger_lock.Lock()
 	if client.Logger != nil {
 		if !client.logger_ip_set {
 			if cl, ok := client.Logger.(LoggerInterfaceWith); ok && cl != nil {
@@ -92,6 +93,7 @@ func (client *Client) Connect() error {
 			client.logger_ip_set = true
 		}
 	}
+	client.logger_lock.Unlock()
 	client.mutex.Lock()
 	if client.ConnectionSize == 0 {
 		client.ConnectionSize = connSizeLargeDefault
@@ -117,7 +119,7 @@ func (client *Client) Connect() error {
 		client.Controller.Path, err = Serialize(CIPPort{PortNo: 1}, CIPAddress(0))
 		if err != nil {
 			msg := "cannot setup default path"
-			client.Logger.Error(msg, slog.Any("err", err))
+			client.logger().Error(msg, slog.Any("err", err))
 			return fmt.Errorf("%s: %w", msg, err)
 		}
 	}
@@ -136,7 +138,7 @@ func (client *Client) Connect() error {
 	}
 	if err != nil {
 		msg := "cannot connect to controller"
-		client.Logger.Error(msg, slog.Any("err", err))
+		client.logger().Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
 
@@ -152,7 +154,7 @@ func (client *Client) Connect() error {
 		}
 		err = client.forwardOpen(item)
 		if err != nil {
-			client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
+			client.logger().Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
 			client.mutex.Lock()
 			client.ConnectionSize = connSizeStandardDefault
 			client.mutex.Unlock()
@@ -165,7 +167,7 @@ func (client *Client) Connect() error {
 		}
 		err = client.forwardOpen(item)
 		if err != nil {
-			client.Logger.Error("unable to open connection", slog.Any("err", err))
+			client.logger().Error("unable to open connection", slog.Any("err", err))
 			return err
 		}
 	}
@@ -195,13 +197,13 @@ func (client *Client) registerSession() error {
 	header, _, err := client.send_recv_data(cipCommandRegisterSession, reg_msg)
 	if err != nil {
 		msg := "cannot get connect response"
-		client.Logger.Error(msg, slog.Any("err", err))
+		client.logger().Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
 	client.mutex.Lock()
 	client.SessionHandle = header.SessionHandle
 	client.mutex.Unlock()
-	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
+	client.logger().Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
 }
 
@@ -214,18 +216,18 @@ func (client *Client) KeepAlive() {
 	if client.keepAliveRunning {
 		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
-		client.Logger.Warn(err.Error())
+		client.logger().Warn(err.Error())
 		return
 	}
 	if client.connStatus != connectionStatusConnected {
 		client.mutex.Unlock()
-		client.Logger.Warn("keepalive not started. not connected")
+		client.logger().Warn("keepalive not started. not connected")
 		return
 	}
 	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
 	client.mutex.Unlock()
-	client.Logger.Debug("starting keep alive")
+	client.logger().Debug("starting keep alive")
 	defer func() {
 		client.mutex.Lock()
 		if client.cancel_keepalive == cancel {
@@ -237,7 +239,7 @@ func (client *Client) KeepAlive() {
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
-		client.Logger.Error(
+		client.logger().Error(
 			"initial keep alive property get failed",
 			slog.Any("client.KeepAliveProps", client.KeepAliveProps),
 			slog.Any("err", err),
@@ -248,7 +250,7 @@ func (client *Client) KeepAlive() {
 	if client.KeepAlivePollTags {
 		err = client.ListAllTags(0)
 		if err != nil {
-			client.Logger.Error("keepalive list tags failed", slog.Any("err", err))
+			client.logger().Error("keepalive list tags failed", slog.Any("err", err))
 			return
 		}
 	}
@@ -264,13 +266,13 @@ func (client *Client) KeepAlive() {
 			default:
 			}
 			if !client.Connected() {
-				client.Logger.Warn("keepalive failed. not connected")
+				client.logger().Warn("keepalive failed. not connected")
 				return
 			}
 
 			newProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
-				client.Logger.Error("keepalive failed", slog.Any("err", err))
+				client.logger().Error("keepalive failed", slog.Any("err", err))
 				select {
 				case <-cancel:
 					// the session this poll belonged to is already gone
@@ -279,24 +281,24 @@ func (client *Client) KeepAlive() {
 				}
 				err = client.Disconnect()
 				if err != nil {
-					client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
+					client.logger().Warn("keepalive disconnect failed", slog.Any("err", err))
 				}
 				return
 			}
 			if !slices.Equal(newProps.Rest(), originalProps.Rest()) {
 				if client.KeepAlivePollTags {
-					client.Logger.Debug(
+					client.logger().Debug(
 						"controller change detected. re-analyzing types",
 						slog.Any("originalProps", originalProps.Rest()),
 						slog.Any("newProps", newProps.Rest()),
 					)
 					err := client.ListAllTags(0)
 					if err != nil {
-						client.Logger.Warn("keepalive list tags failed.", "error", err)
+						client.logger().Warn("keepalive list tags failed.", "error", err)
 						return
 					}
 				} else {
-					client.Logger.Debug(
+					client.logger().Debug(
 						"controller change detected.",
 						slog.Any("originalProps", originalProps.Rest()),
 						slog.Any("newProps", newProps.Rest()),
@@ -373,7 +375,7 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	}
 	client.mutex.Unlock()
 	if client.ConnectionSize <= connSizeStandardMax {
-		client.Logger.Info(
+		client.logger().Info(
 			"The size could be a standard connection",
 			slog.Any("standardMaxSize", connSizeStandardMax),
 			slog.Any("size", client.ConnectionSize),
@@ -461,7 +463,7 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 		client.ConnectionSize = connSizeStandardDefault
 	}
 	if client.ConnectionSize > connSizeStandardMax {
-		client.Logger.Warn(
+		client.logger().Warn(
 			"connection size too large. resetting to max size",
 			slog.Any("oldConnectionSize", client.ConnectionSize),
 			slog.Any("newConnectionSize", connSizeStandardMax),
@@ -540,26 +542,26 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 	reqItems[1] = forwardOpenMsg
 	itemData, err := serializeItems(reqItems)
 	if err != nil {
-		client.Logger.Error("error serializing items", slog.Any("err", err))
+		client.logger().Error("error serializing items", slog.Any("err", err))
 		return err
 	}
 
 	header, data, err := client.send_recv_data(cipCommandSendRRData, itemData)
 	if err != nil {
-		client.Logger.Error("error sending data", slog.Any("err", err))
+		client.logger().Error("error sending data", slog.Any("err", err))
 		return err
 	}
 
 	items, err := client.parseResponse(&header, data)
 	if err != nil {
-		client.Logger.Error("error parsing response", slog.Any("err", err))
+		client.logger().Error("error parsing response", slog.Any("err", err))
 		return err
 	}
 
 	respContent := msgCipForwardOpenReply{}
 	err = items[1].DeSerialize(&respContent)
 	if err != nil {
-		client.Logger.Error("error deserializing forward open response", slog.Any("err", err))
+		client.logger().Error("error deserializing forward open response", slog.Any("err", err))
 		return fmt.Errorf("error deserializing forward open response content. %w", err)
 	}
 
@@ -567,7 +569,7 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
 	client.mutex.Unlock()
 
-	client.Logger.Info(
+	client.logger().Info(
 		"successfully opened connection",
 		slog.Any("ConnectionSize", uint32(client.ConnectionSize)),
 		slog.Any("OTNetworkConnectionId", respContent.OtNetworkConnectionId),
@@ -649,7 +651,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 	}
 	if respHeader.Status != CIPStatus_OK {
 		errMsg := "bad status on response"
-		client.Logger.Error(errMsg,
+		client.logger().Error(errMsg,
 			slog.Any("status", respHeader.Status),
 			slog.String("statusDesc", respHeader.Status.String()),
 		)
diff --git a/disconnect.go b/disconnect.go
index ce016c8..b7072d4 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -66,14 +66,14 @@ func (client *Client) disconnect(conn net.Conn) error {
 	if err != nil {
 		return err
 	}
-	client.Logger.Info("starting disconnection")
+	client.logger().Info("starting disconnection")
 
 	// No matter what happens, when we finish here, we'll consider the connection disconnected.
 	defer func() {
 		client.mutex.Lock()
 		err := client.conn.Close()
 		if err != nil && !errors.Is(err, net.ErrClosed) {
-			client.Logger.Error("error closing connection", slog.Any("err", err))
+			client.logger().Error("error closing connection", slog.Any("err", err))
 		}
 		client.connStatus = connectionStatusDisconnected
 		client.mutex.Unlock()
@@ -91,7 +91,7 @@ func (client *Client) disconnect(conn net.Conn) error {
 		CIPInstance(1),
 	)
 	if err != nil {
-		client.Logger.Error("Error serializing path", slog.Any("err", err))
+		client.logger().Error("Error serializing path", slog.Any("err", err))
 		return fmt.Errorf("error serializing path: %w", err)
 	}
 
@@ -127,21 +127,21 @@ func (client *Client) disconnect(conn net.Conn) error {
 
 	itemData, err := serializeItems(items)
 	if err != nil {
-		client.Logger.Error(
+		client.logger().Error(
 			"unable to serialize itemData. Forcing connection closed",
 			slog.Any("err", err),
 		)
 	} else {
 		header, data, err := client.send_recv_data(cipCommandSendRRData, itemData)
 		if err != nil {
-			client.Logger.Error(
+			client.logger().Error(
 				"error sending disconnect request",
 				slog.Any("err", err),
 			)
 		} else {
 			_, err = client.parseResponse(&header, data)
 			if err != nil {
-				client.Logger.Error(
+				client.logger().Error(
 					"error parsing disconnect response",
 					slog.Any("err", err),
 				)
@@ -149,7 +149,7 @@ func (client *Client) disconnect(conn net.Conn) error {
 		}
 	}
 
-	client.Logger.Info("successfully disconnected from controller")
+	client.logger().Info("successfully disconnected from controller")
 	return nil
 }
 
diff --git a/getattr.go b/getattr.go
index 7aec529..f031ebc 100644
--- a/getattr.go
+++ b/getattr.go
@@ -144,11 +144,11 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header.", "error", err)
+		client.logger().Warn("Problem reading read result header.", "error", err)
 	}
 	items, err := readReplyItems(data)
 	if err != nil {
-		client.Logger.Warn("Problem reading items.", "error", err)
+		client.logger().Warn("Problem reading items.", "error", err)
 		return nil, err
 	}
 
@@ -228,7 +228,7 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 			return msgGetControllerPropList{}, CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(status)}
 		}
 	}
-	client.Logger.Debug("Controller Prop", "result", result)
+	client.logger().Debug("Controller Prop", "result", result)
 
 	return result, nil
 }
@@ -296,12 +296,12 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header.", "error", err)
+		client.logger().Warn("Problem reading read result header.", "error", err)
 		return nil, err
 	}
 	items, err := readReplyItems(data)
 	if err != nil {
-		client.Logger.Warn("Problem reading items.", "error", err)
+		client.logger().Warn("Problem reading items.", "error", err)
 		return nil, err
 	}
 
diff --git a/listallprograms.go b/listallprograms.go
index d6c1589..29c53ba 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -6,13 +6,13 @@ import (
 )
 
 func (client *Client) ListAllPrograms() error {
-	client.Logger.Debug("listing all programs")
+	client.logger().Debug("listing all programs")
 
 	number_of_attr_to_receive := 1
 	attr_28_program_name := 28
 	msg_data, err := Serialize(uint16(number_of_attr_to_receive), uint16(attr_28_program_name))
 	if err != nil {
-		client.Logger.Warn("could not serialize message data", "error", err)
+		client.logger().Warn("could not serialize message data", "error", err)
 		return err
 	}
 
@@ -23,13 +23,13 @@ func (client *Client) ListAllPrograms() error {
 		// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
 		path, err := Serialize(CipObject_Programs, CIPInstance(start_instance))
 		if err != nil {
-			client.Logger.Warn("could not serialize path", "error", err)
+			client.logger().Warn("could not serialize path", "error", err)
 			return err
 		}
 
 		resp, more, err := client.listMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
 		if err != nil {
-			client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
+			client.logger().Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
 			return fmt.Errorf("problem reading programs: %w", err)
 		}
 
@@ -48,7 +48,7 @@ func (client *Client) ListAllPrograms() error {
 			name := make([]byte, hdr.NameLen)
 			err = resp.DeSerialize(&name)
 			if err != nil {
-				client.Logger.Warn("could not read name", "error", err)
+				client.logger().Warn("could not read name", "error", err)
 				return err
 			}
 
diff --git a/listalltags.go b/listalltags.go
index b51dea2..5a2f64d 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -216,10 +216,10 @@ func (client *Client) findTemplate(kt *KnownTag, types map[string]UDTDescriptor)
 	if kt.Info.Template_ID() == 0 {
 		return nil
 	}
-	client.Logger.Debug("Looking up template", "tag name", kt.Name)
+	client.logger().Debug("Looking up template", "tag name", kt.Name)
 	u, err := client.ListMembers(uint32(kt.Info.Template_ID()))
 	if err != nil {
-		client.Logger.Error("problem reading member list",
+		client.logger().Error("problem reading member list",
 			"string", kt.Name,
 			"info", kt.Info,
 			"template ID", kt.Info.Template_ID(),
diff --git a/listidentity.go b/listidentity.go
index dba1be3..b675e43 100644
--- a/listidentity.go
+++ b/listidentity.go
@@ -45,7 +45,7 @@ import (
 //
 // Note: The device must be connected before calling this function.
 func (client *Client) ListIdentity() (*listIdentityResponeBody, error) {
-	client.Logger.Debug("listing identity")
+	client.logger().Debug("listing identity")
 
 	_, data, err := client.send_recv_data(cipCommandListIdentity)
 	if err != nil {
diff --git a/listmembers.go b/listmembers.go
index 7192cb1..19ae76b 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -44,7 +44,7 @@ type msgGetTemplateAttrListResponse struct {
 }
 
 func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTemplateAttrListResponse, error) {
-	client.Logger.Debug("list members", "instance", str_instance)
+	client.logger().Debug("list members", "instance", str_instance)
 
 	// have to start at 1.
 	if str_instance == 0 {
@@ -124,7 +124,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 
 // parents are the structures that str_instance is nested in.
 func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
-	client.Logger.Debug("list members", "instance", str_instance)
+	client.logger().Debug("list members", "instance", str_instance)
 
 	client.known_lock.Lock()
 	d, ok := client.KnownTypesByID[str_instance]
@@ -187,7 +187,7 @@ func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDes
 			} else if !client.Connected() {
 				return UDTDescriptor{}, fmt.Errorf("couldn't read the members of %s. %w", fieldname, err)
 			} else {
-				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
+				client.logger().Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
 			}
 		}
 	}
diff --git a/listservices.go b/listservices.go
index ee15121..79d4d8e 100644
--- a/listservices.go
+++ b/listservices.go
@@ -38,7 +38,7 @@ import (
 //
 // Note: The device must be connected before calling this function.
 func (client *Client) ListServices() ([]CIPListService, error) {
-	client.Logger.Debug("listing services")
+	client.logger().Debug("listing services")
 
 	_, data, err := client.send_recv_data(cipCommandListServices)
 	if err != nil {
diff --git a/listsubtags.go b/listsubtags.go
index 05269cc..d3da370 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -12,7 +12,7 @@ import (
 // see 1756-PM020H-EN-P March 2022 page 39
 // also see https://forums.mrclient.com/index.php?/topic/40626-reading-and-writing-io-tags-in-plc/
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
-	client.Logger.Debug("readall", "start id", start_instance)
+	client.logger().Debug("readall", "start id", start_instance)
 
 	new_kts, err := client.listSubTags(Program, start_instance)
 	if err != nil {
diff --git a/partialread.go b/partialread.go
index ec619ac..d8ac043 100644
--- a/partialread.go
+++ b/partialread.go
@@ -102,7 +102,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 		n++
 	}
 
-	client.Logger.Debug("Packed Efficiency", "tags", n, "bytes", limit)
+	client.logger().Debug("Packed Efficiency", "tags", n, "bytes", limit)
 
 	return n, nil
 
diff --git a/read.go b/read.go
index b7253da..147a908 100644
--- a/read.go
+++ b/read.go
@@ -440,11 +440,11 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header", "error", err)
+		client.logger().Warn("Problem reading read result header", "error", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
-		client.Logger.Warn("Problem reading items", "error", err)
+		client.logger().Warn("Problem reading items", "error", err)
 		return 0, err
 	}
 	if len(items) != 2 {
@@ -940,7 +940,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header", "error", err)
+		client.logger().Warn("Problem reading read result header", "error", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
diff --git a/write.go b/write.go
index 684c0bf..654ea88 100644
--- a/write.go
+++ b/write.go
@@ -243,7 +243,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header", "error", err)
+		client.logger().Warn("Problem reading read result header", "error", err)
 	}
 	items, err := readReplyItems(data)
 	if err != nil {
@@ -339,7 +339,7 @@ func (client *Client) write_single(tag string, value any) error {
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header", "error", err)
+		client.logger().Warn("Problem reading read result header", "error", err)
 	}
 	items, err := readReplyItems(data)
 	if err != nil {
-- 
2.43.0

