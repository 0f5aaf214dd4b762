From 997d7846e1acee97c4745b27a2205e713288ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 01/51] fix: buffer: bounds-check entries by page offset so
 pages after the first are reachable

---
 vtdxml/buffer/int_buffer.go  | 8 ++++----
 vtdxml/buffer/long_buffer.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..a8a4327 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -146,14 +146,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..c526a16 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -65,7 +65,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -166,14 +166,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 097d91ff6d587d9738587f2577ffaaea1b0b1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 02/51] fix: buffer: append at the logical end after SetSize or
 Clear and keep stale entries out of array exports

---
 vtdxml/buffer/int_buffer.go  | 6 +++++-
 vtdxml/buffer/long_buffer.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index a8a4327..80677c8 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -113,7 +113,7 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			return nil, err
 		}
 		// load-in buffer page into int32 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -130,6 +130,10 @@ func (b *FastIntBuffer) Append(value int32) error {
 		if err != nil {
 			return err
 		}
+		// drop entries left behind by a previous truncation of the buffer
+		if offset := b.size & b.r; offset < len(bufferSlice) {
+			bufferSlice = bufferSlice[:offset]
+		}
 		bufferSlice = append(bufferSlice, value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index c526a16..f0a7b89 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -133,7 +133,7 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			return nil, err
 		}
 		// load-in buffer page into int64 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -150,6 +150,10 @@ func (b *FastLongBuffer) Append(value int64) error {
 		if err != nil {
 			return err
 		}
+		// drop entries left behind by a previous truncation of the buffer
+		if offset := b.size & b.r; offset < len(bufferSlice) {
+			bufferSlice = bufferSlice[:offset]
+		}
 		bufferSlice = append(bufferSlice, value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
-- 
2.43.0


From 8d82eb9bc596822702dcc3e0940f714dff269495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 03/51] fix: buffer: Upper32At dropped the top four bits of the
 stored value

---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index f0a7b89..9b1e5cc 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -110,7 +110,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From f6ceb29dcfeeb218d02f44705812b6d91951ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 04/51] fix: buffer: reject page sizes that overflow and ignore
 negative ones instead of panicking

---
 vtdxml/buffer/int_buffer.go    |  2 +-
 vtdxml/buffer/long_buffer.go   | 10 ++++++----
 vtdxml/buffer/object_buffer.go | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 80677c8..f08ac24 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 9b1e5cc..0cdd0d0 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,9 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -50,7 +52,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..136b3a4 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,9 +28,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -47,7 +49,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From 0f834e722f43b2c054bc1abf65abac1cb7477a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 05/51] fix: buffer: GetByteSlice returned
 buffer[offset:length] instead of length bytes from offset

---
 vtdxml/buffer/byte_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..effe13b 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -36,7 +36,7 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if length < 1 || offset+length >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From 44794645300155bda82d75c95fe7568e1da9735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 06/51] fix: buffer: object buffer filled no page but its first
 and could not be reused after Clear

---
 vtdxml/buffer/object_buffer.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 136b3a4..3bd1d64 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -64,7 +64,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -95,20 +95,19 @@ func (b *FastObjectBuffer) SetSize(size int) {
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
-		bufferSlice, err := b.get(pageNum)
-		if err != nil {
-			return err
-		}
-		bufferSlice = append(bufferSlice, value)
-		return b.set(pageNum, bufferSlice)
-	} else {
-		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
-		return nil
+	// size is the number of pages: fill the last page before adding another
+	if lastPage := b.size - 1; lastPage >= 0 && lastPage < len(b.buffer) &&
+		len(b.buffer[lastPage]) < b.pageSize {
+		return b.set(lastPage, append(b.buffer[lastPage], value))
+	}
+	if b.size < len(b.buffer) {
+		// drop pages left behind by a previous truncation of the buffer
+		b.buffer = b.buffer[:b.size]
 	}
+	b.buffer = append(b.buffer, []interface{}{value})
+	b.size = len(b.buffer)
+	b.capacity = b.size * b.pageSize
+	return nil
 }
 
 func (b *FastObjectBuffer) Clear() {
@@ -116,14 +115,14 @@ func (b *FastObjectBuffer) Clear() {
 }
 
 func (b *FastObjectBuffer) get(index int) ([]interface{}, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastObjectBuffer) set(index int, value []interface{}) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From a6ca075e892ad3563e6a95d3edfa5795e9167be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:02 +0000
Subject: [PATCH 07/51] fix: buffer: GetByteSlice panicked when offset+length
 overflows

---
 vtdxml/buffer/byte_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index effe13b..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,7 +33,7 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	return b.buffer[offset : offset+length], nil
-- 
2.43.0


From 21df144bf30699826f1f27fad674cf116fc90b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 08/51] fix: reader: SkipChar read past the end of the window
 (and panicked at end of input)

---
 vtdxml/reader/ascii_reader.go | 2 +-
 vtdxml/reader/utf8_reader.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..3137253 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -50,7 +50,7 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..661bb7c 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -54,7 +54,7 @@ func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
-- 
2.43.0


From 17ef0d35ad1a905b9f55ae9f97a8da0cae318554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:07 +0000
Subject: [PATCH 09/51] fix: reader: a failed SkipCharSeq consumed the matching
 part of the sequence

---
 vtdxml/reader/ascii_reader.go | 2 ++
 vtdxml/reader/utf8_reader.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 3137253..776728d 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -59,8 +59,10 @@ func (r *AsciiReader) SkipChar(ch uint32) bool {
 }
 
 func (r *AsciiReader) SkipCharSeq(seq string) bool {
+	offset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = offset
 			return false
 		}
 	}
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 661bb7c..2e8ac2d 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -63,8 +63,10 @@ func (r *Utf8Reader) SkipChar(ch uint32) bool {
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
+	offset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = offset
 			return false
 		}
 	}
-- 
2.43.0


From 5d7d40f8e40e1b851c53ff9869e9361b89c26e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 10/51] fix: reader: random access reads outside the window
 panicked or saw bytes after it

---
 vtdxml/reader/ascii_reader.go | 8 +++++++-
 vtdxml/reader/utf8_reader.go  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 776728d..231bbb1 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -42,8 +42,11 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
@@ -70,6 +73,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 2e8ac2d..5ef957c 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -42,14 +42,20 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
-- 
2.43.0


From 8a0eb8bf4c85baafffee47bfff25321be3b1f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 11/51] fix: reader: AsciiReader refused a window ending at the
 end of the document

---
 vtdxml/reader/ascii_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 231bbb1..3d110ee 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
-- 
2.43.0


From b64d385f3f457c4abd9b22a86fac4e55c4bb33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:10 +0000
Subject: [PATCH 12/51] fix: decode multi-byte UTF-8 characters and reject
 malformed UTF-8

---
 vtdxml/parser/common.go           |  7 +++--
 vtdxml/parser/process_attr_val.go |  6 +++-
 vtdxml/reader/utf8_reader.go      | 46 +++++++++++++++++++++----------
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..99c2d48 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -320,14 +320,15 @@ func (p *VtdParser) fmtCustomLine(offset int) string {
 
 // getPrevOffset function returns previous offset depending on XML document encoding
 func (p *VtdParser) getPrevOffset() (int, error) {
-	prevOffset := p.offset
+	prevOffset := p.offset - 1
 	switch p.encoding {
-	case common.FormatUtf8:
+	// documents without an encoding declaration are read as UTF-8
+	case common.FormatAscii, common.FormatUtf8:
 		for p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
 			prevOffset--
 		}
 		return prevOffset, nil
-	case common.FormatAscii, common.FormatIso88591, common.FormatIso88592, common.FormatIso88593, common.FormatIso88594,
+	case common.FormatIso88591, common.FormatIso88592, common.FormatIso88593, common.FormatIso88594,
 		common.FormatIso88595, common.FormatIso88596, common.FormatIso88597, common.FormatIso88598, common.FormatIso88599,
 		common.FormatIso885910, common.FormatIso885911, common.FormatIso885912, common.FormatIso885913, common.FormatIso885914,
 		common.FormatIso885915, common.FormatIso885916, common.FormatWin1250, common.FormatWin1251, common.FormatWin1252,
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..ed48a7a 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -94,7 +94,11 @@ func (p *VtdParser) processAttrVal() (State, error) {
 			return StateInvalid, err
 		}
 		if p.xmlChar.IsNameStartChar(p.currentChar) {
-			p.lastOffset = p.offset - p.increment
+			offset, err := p.getPrevOffset()
+			if err != nil {
+				return StateInvalid, err
+			}
+			p.lastOffset = offset
 			return StateAttrName, nil
 		}
 	}
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 5ef957c..9af6fad 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -1,7 +1,7 @@
 package reader
 
 import (
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -33,9 +33,9 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 	if r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[r.offset]
-	r.offset++
-	if !r.isUTF8(ch) {
+	ch, size := r.decode(r.offset)
+	r.offset += size
+	if r.isInvalid(ch, size) {
 		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
 	return uint32(ch), nil
@@ -45,27 +45,37 @@ func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
 	if offset < 0 || int(offset) >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+	ch, size := r.decode(int(offset))
+	if r.isInvalid(ch, size) {
+		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+	}
+	if ch == '\r' && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
-	return (1 << 32) | uint64(ch), nil
+	return uint64(size)<<32 | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 	if offset < 0 || int(offset) >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	return uint32(r.xmlDoc[offset]), nil
+	ch, size := r.decode(int(offset))
+	if r.isInvalid(ch, size) {
+		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+	}
+	return uint32(ch), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
-		return true
-	} else {
+	if r.offset >= r.endOffset {
 		return false
 	}
+	next, size := r.decode(r.offset)
+	if r.isInvalid(next, size) || ch != uint32(next) {
+		return false
+	}
+	r.offset += size
+	return true
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
@@ -87,7 +97,13 @@ func (r *Utf8Reader) SetOffset(offset int) {
 	r.offset = offset
 }
 
-// isUTF8 function to validate if a character is a valid ASCII character
-func (r *Utf8Reader) isUTF8(ch uint8) bool {
-	return uint32(ch) <= unicode.MaxRune
+// decode function decodes the UTF-8 character starting at the offset and
+// returns it together with its length in bytes
+func (r *Utf8Reader) decode(offset int) (rune, int) {
+	return utf8.DecodeRune(r.xmlDoc[offset:r.endOffset])
+}
+
+// isInvalid function to validate if a decoded character is not valid UTF-8
+func (r *Utf8Reader) isInvalid(ch rune, size int) bool {
+	return ch == utf8.RuneError && size <= 1
 }
-- 
2.43.0


From 0b0b49c99b34bee72e8b655e7435c1a22fd6b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 13/51] fix: parser: Parse wrote its internal state to standard
 output

---
 vtdxml/parser/parse.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..d5c1737 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -24,10 +23,6 @@ func (p *VtdParser) Parse() error {
 	var ps State
 	var err error
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
-- 
2.43.0


From 0aa05b87c232ef77e5890cdb56fa8f25c7bd9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 14/51] fix: parser: Parse overwrote a package variable shared
 by all parsers (data race)

---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d5c1737..01be12e 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -62,7 +62,8 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		var eofErr *erroring.EOFError
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From 52b5de9b6740a699716036a4a36f282f25f34b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:12 +0000
Subject: [PATCH 15/51] fix: parser: byte order marks were never recognised and
 short documents panicked

---
 vtdxml/parser/common.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 99c2d48..166cb15 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 
@@ -345,9 +346,10 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
-	if int32(p.xmlDoc[p.offset]) == -2 {
+	doc := p.xmlDoc[p.offset:p.endOffset]
+	if doc[0] == 0xFE {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -1 {
+		if bytes.HasPrefix(doc, []byte{0xFE, 0xFF}) {
 			p.offset += 2
 			p.encoding = common.FormatUtf16BE
 			p.bomDetected = true
@@ -355,9 +357,9 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("should be 0xFF 0xFE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -1 {
+	} else if doc[0] == 0xFF {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -2 {
+		if bytes.HasPrefix(doc, []byte{0xFF, 0xFE}) {
 			p.offset += 2
 			p.encoding = common.FormatUtf16LE
 			p.bomDetected = true
@@ -365,28 +367,23 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("not UTF-16LE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
-			int32(p.xmlDoc[p.offset+2]) == 0 &&
-			int32(p.xmlDoc[p.offset+3]) == 0x3f {
+	} else if doc[0] == 0 {
+		if bytes.HasPrefix(doc, []byte{0, 0x3c, 0, 0x3f}) {
 			p.encoding = common.FormatUtf16BE
 			p.increment = 2
 			// g.reader = reader.NewUtf16BeReader()
 		} else {
 			return erroring.NewEncodingError("not UTF-16BE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
-			p.offset += 3
+	} else if doc[0] == 0xEF {
+		if bytes.HasPrefix(doc, []byte{0xEF, 0xBB, 0xBF}) {
+			p.setOffset(p.offset + 3)
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
-			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
-			int32(p.xmlDoc[p.offset+3]) == 0 {
+	} else if doc[0] == 0x3c {
+		if bytes.HasPrefix(doc, []byte{0x3c, 0, 0x3f, 0}) {
 			p.encoding = common.FormatUtf16LE
 			p.increment = 2
 			// g.reader = reader.NewUtf16LeReader()
-- 
2.43.0


From a6199b813f1cdf3de86faf705b5e77b26daf2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 16/51] fix: parser: rewinding after a partial <?xml match left
 the reader behind

---
 vtdxml/parser/process_doc_start.go | 2 +-
 vtdxml/parser/process_lt_seen.go   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..350d3a0 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -25,7 +25,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..ee1bc3f 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -79,6 +79,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 			if err != nil {
 				return StateInvalid, err
 			}
+			p.reader.SetOffset(offset)
 			p.offset = offset
 		}
 		return StatePiTag, nil
-- 
2.43.0


From 39e98f3d614e869d358a2216b5c8d544e2dc289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:19 +0000
Subject: [PATCH 17/51] fix: parser: <?XML was accepted as an XML declaration

---
 vtdxml/parser/process_doc_start.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 350d3a0..b770a33 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -8,10 +8,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 	}
 	if p.currentChar == '<' {
 		p.lastOffset = p.offset
-		if p.skipChar('?') &&
-			(p.skipChar('x') || p.skipChar('X')) &&
-			(p.skipChar('m') || p.skipChar('M')) &&
-			(p.skipChar('l') || p.skipChar('L')) {
+		if p.skipCharSeq("?xml") {
 			if p.skipChar(' ') ||
 				p.skipChar('\t') ||
 				p.skipChar('\n') ||
-- 
2.43.0


From a6e8415268add0cd5c92e0b790640b33d8a5d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 18/51] fix: parser: DOCTYPE was refused in the prolog (and
 only there)

---
 vtdxml/parser/process.go         | 4 ----
 vtdxml/parser/process_lt_seen.go | 9 ++++++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..5c505f9 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,10 +18,6 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
-		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
-			p.fmtLine(), nil)
-	}
 	return nil
 }
 
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index ee1bc3f..726535e 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -44,12 +44,19 @@ func (p *VtdParser) processExSeen() (State, error) {
 		if err := p.validateSeq(cdata); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth < 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for CDATA section", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateCdata, nil
 	case 'D':
-		if err := p.validateSeq(docType); err != nil {
+		// leading D is already consumed
+		if err := p.validateSeq(docType[1:]); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth >= 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for DOCTYPE", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateDocType, nil
 	default:
-- 
2.43.0


From 9ea2e0f745ce3c186acb8808fdff1766e7af2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 19/51] fix: parser: comments after the root element were
 always refused

---
 vtdxml/parser/process_end_comment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..769761d 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
-- 
2.43.0


From a5cf3ea4c45573e36f1d179e2144952550dc44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 20/51] fix: parser: empty processing instructions after the
 root element had their terminator test inverted

---
 vtdxml/parser/process_pi_end.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From 9ddc9ca9e723b68d2904c34ea80f8f154f3353a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 21/51] fix: parser: a single ]> ended CDATA sections and was
 refused in text

---
 vtdxml/parser/common.go        | 5 ++++-
 vtdxml/parser/process.go       | 7 ++-----
 vtdxml/parser/process_cdata.go | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 166cb15..54326b7 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -554,7 +554,10 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 		}
 	case ']':
 		{
-			// skip all ] chars
+			if !p.skipChar(']') {
+				break
+			}
+			// skip all remaining ] chars
 			for p.skipChar(']') {
 			}
 			if p.skipChar('>') {
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 5c505f9..21e503a 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -41,11 +41,8 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 		return StateText, nil
 	}
 	if ch == ']' {
-		// skip all ] chars
-		for p.skipChar(']') {
-		}
-		if p.skipChar('>') {
-			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
+		if err := p.handleOtherTextChar(ch); err != nil {
+			return StateInvalid, err
 		}
 		return StateText, nil
 	}
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..bbc3eb4 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -13,8 +13,8 @@ func (p *VtdParser) processCdata() (State, error) {
 		if !p.xmlChar.IsValidChar(p.currentChar) {
 			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
 		}
-		if p.currentChar == ']' {
-			// skip all ] chars
+		if p.currentChar == ']' && p.skipChar(']') {
+			// skip all remaining ] chars
 			for p.skipChar(']') {
 			}
 			if p.skipChar('>') {
-- 
2.43.0


From 3a3a839603aebb11a7a86bd01b105f9d12a23e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 22/51] fix: parser: an ending tag before the root element
 panicked

---
 vtdxml/parser/process_end_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..6d4d90a 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("ending tag without starting tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
-- 
2.43.0


From dfb584d9ee89520a4fb9a54c47bc0cb89babe9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 23/51] fix: parser: text starting with a reference or ] after
 an ending tag was taken for markup

---
 vtdxml/parser/process_end_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 6d4d90a..38866ba 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -46,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From 03bad1f67d69277f9dd2906420396790c2eebb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 24/51] fix: parser: element prefix length was stored over the
 name length

---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From 21a620e27826fae38971a6b4198e60b5cc2ffb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 25/51] fix: parser: elements with more than 256 attributes
 panicked

---
 vtdxml/parser/process_attr_name.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..608342c 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,14 +129,15 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
-	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
+	p.attrNameSlice = append(p.attrNameSlice[:p.attrCount], (p.lastOffset<<32)|p.length1)
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
 		isXml := p.checkXmlPrefix(p.lastOffset, -1, false)
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
-		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
+		p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice[:p.prefixedAttCount],
+			int64((p.lastOffset<<32)|(p.length2<<16)|p.length1))
 		p.prefixedAttCount++
 	}
 	return nil
-- 
2.43.0


From e9864a6a95f017dab034f9ec2a8e959a7eccb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 26/51] fix: parser: qualified attribute names were compared
 with the wrong namespace URLs and past their ends

---
 vtdxml/parser/process_attr_val.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index ed48a7a..5fda0d3 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -224,7 +224,7 @@ func (p *VtdParser) qualifyAttributes() error {
 		if i < 0 {
 			return erroring.NewParseError("prefixed attribute not qualified", p.fmtLine(), nil)
 		} else {
-			p.prefixUrlSlice = append(p.prefixUrlSlice, i)
+			p.prefixUrlSlice = append(p.prefixUrlSlice[:j], i)
 		}
 	}
 	return nil
@@ -461,8 +461,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -471,15 +471,11 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
-			return false, err
+		if int32(chA) != int32(chB) {
+			return false, nil
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
-		return true, nil
-	}
-	return false, nil
+	return a.offset == endA && b.offset == endB, nil
 }
-- 
2.43.0


From 5dd231275aae22fd021e004abc36fc156e64bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 27/51] fix: parser: resolving &amp; and &apos; in a namespace
 URL consumed document input

---
 vtdxml/parser/process_attr_val.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 5fda0d3..22022fc 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -365,10 +365,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -382,7 +383,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
-- 
2.43.0


From a500a6eab2991c58482bb0069f5d9bf85ac78ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 28/51] fix: parser: reserved namespace URLs were never
 recognised and xmlns:xml always refused or accepted wrongly

---
 vtdxml/parser/common.go           |  2 +-
 vtdxml/parser/process_attr_val.go | 58 +++++++++++++------------------
 2 files changed, 25 insertions(+), 35 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 54326b7..27ece67 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -41,7 +41,7 @@ const (
 	maxQnameLength  = (1 << 11) - 1
 
 	XMLNS1998 = "http://www.w3.org/XML/1998/namespace"
-	XMLNS2000 = "http://www.w3.org/2000/xmlns"
+	XMLNS2000 = "http://www.w3.org/2000/xmlns/"
 )
 
 // setOffset function set custom offset to parser byte reader and sets
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 22022fc..613377f 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -54,13 +54,13 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
+		if p.isXml && nsUrlType != NsUrl1998 {
 			return StateInvalid, erroring.NewParseError(
 				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
 				p.fmtLine(),
 				nil,
 			)
-		} else {
+		} else if !p.isXml {
 			if !p.defaultNs {
 				if err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {
 					return StateInvalid, err
@@ -144,50 +144,40 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 	//  create a struct that would bring meaningful explanation about the functionality
 	// lastOffset, length1
 	g := p.lastOffset + p.length1
-	offset, tmpOffset := p.lastOffset, 0
+	offset := p.lastOffset
 	if p.length1 < 29 || (p.increment == 2 && p.length1 < 58) {
 		return DefaultNsUrl, nil
 	}
 
-	for i := 0; i < 18 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL2[i]) != ch {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch) >> 32
-	}
-	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL1[i]) != ch {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch) >> 32
+	if match, err := p.equalsUrl(offset, g, URL2[:18]+URL1); err != nil {
+		return InvalidNsUrl, err
+	} else if match {
+		return NsUrl2000, nil
 	}
-	if offset == g {
+	if match, err := p.equalsUrl(offset, g, URL2); err != nil {
+		return InvalidNsUrl, err
+	} else if match {
 		return NsUrl1998, nil
 	}
-	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
+	return DefaultNsUrl, nil
+}
+
+// equalsUrl function compares the resolved characters between the offsets with the URL
+func (p *VtdParser) equalsUrl(offset, endOffset int, url string) (bool, error) {
+	for i := 0; i < len(url); i++ {
+		if offset >= endOffset {
+			return false, nil
+		}
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
-			return InvalidNsUrl, err
+			return false, err
 		}
-		if int64(URL2[i]) != ch {
-			return DefaultNsUrl, nil
+		if int32(ch) != int32(url[i]) {
+			return false, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
-	if offset == g {
-		return NsUrl2000, nil
-	}
-	return DefaultNsUrl, nil
+	return offset == endOffset, nil
 }
 
 func (p *VtdParser) qualifyAttributes() error {
-- 
2.43.0


From 5211f969cac72841eb35a38b31829b9a2bd37baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 29/51] fix: parser: character references beyond 32 bits
 wrapped around to valid characters

---
 vtdxml/parser/common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 27ece67..4493655 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -618,6 +619,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -628,6 +632,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
-- 
2.43.0


From a4417e4fadd756387d81f076eb1b26b6db6e3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 30/51] fix: parser: long text was recorded as starting at the
 beginning of the document

---
 vtdxml/parser/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 4493655..e612aa6 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -245,7 +245,8 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
+		var j int
+		rOffset := offset
 		for j = length; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
-- 
2.43.0


From 771934e3fdf6b853cd7d379366d9e77b80da851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 31/51] fix: parser: negative and overflowing window lengths
 were accepted

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..bbea421 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -129,7 +129,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From 90b084370e7ed7a2b0eaa4742b3dcf2fd55ad940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:14 +0000
Subject: [PATCH 32/51] fix: erroring: NewNavigationError built a ParseError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From 6014e812921f3dd78a41cb81e5aa8fb1a6bb6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 33/51] fix: parser: XML declaration accepted mismatched quotes
 and attributes without space between them

---
 vtdxml/parser/process_dec_attr_name.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..20fafc2 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -131,6 +131,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	p.lastOffset = p.offset
 	if err := p.nextChar(); err != nil {
 		return err
@@ -168,12 +169,19 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("encoding not terminated properly", p.fmtLine(), nil)
 	}
-	if err := p.nextCharAfterWs(); err != nil {
+	if err := p.nextChar(); err != nil {
 		return err
 	}
+	if p.xmlChar.IsSpaceChar(p.currentChar) {
+		if err := p.nextCharAfterWs(); err != nil {
+			return err
+		}
+	} else if p.currentChar != '?' {
+		return erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset - p.increment
 	return nil
 }
@@ -201,6 +209,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,8 +237,8 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("standalone not terminated properly", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
 		return err
-- 
2.43.0


From 3c742ec642887e2d00dbd68b673c238dd3bbd1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 34/51] fix: parser: ASCII and US-ASCII declarations were
 always refused

---
 vtdxml/parser/process_dec_attr_name.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 20fafc2..036aae8 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -150,7 +150,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipCharSeqIgnoreCase(usAscii[1:2]) {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
@@ -247,10 +247,10 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 }
 
 func (p *VtdParser) checkAsciiEncoding() error {
-	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
+	if !p.skipCharSeqIgnoreCase(ascii[1:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -266,10 +266,10 @@ func (p *VtdParser) checkAsciiEncoding() error {
 }
 
 func (p *VtdParser) checkUsAsciiEncoding() error {
-	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
+	if !p.skipCharSeqIgnoreCase(usAscii[2:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -288,7 +288,7 @@ func (p *VtdParser) checkIsoEncoding() error {
 	if !p.skipCharSeq(iso8859[1:]) && !p.skipCharSeq(strings.ToUpper(iso8859[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ISO8859x", p.fmtLine(), nil)
 	}
 	if length, err := p.setIsoEncoding(); err != nil {
-- 
2.43.0


From f1a8ea42552c6bcba264190381c26cb2b5617a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 35/51] fix: parser: encodings without a reader were accepted
 when their declaration was truncated

---
 vtdxml/parser/process_dec_attr_name.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 036aae8..d177054 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -462,10 +462,10 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	return erroring.NewEncodingError("CP125x is not supported")
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
 	// TODO implement: return length end error
-	return 0, nil
+	return 0, erroring.NewEncodingError("ISO8859x is not supported")
 }
-- 
2.43.0


From 23c4ea179322bb7c5f8295f60fbdcb137c71df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 36/51] fix: parser: location cache marked childless elements
 with 0xFFFF where navigation expects -1

---
 vtdxml/parser/common.go | 23 +++++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index e612aa6..9f02ce1 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -41,6 +41,9 @@ const (
 	maxPrefixLength = (1 << 9) - 1
 	maxQnameLength  = (1 << 11) - 1
 
+	// noChildren marks location cache entries of elements without child elements
+	noChildren = 0xFFFFFFFF
+
 	XMLNS1998 = "http://www.w3.org/XML/1998/namespace"
 	XMLNS2000 = "http://www.w3.org/2000/xmlns/"
 )
@@ -148,19 +151,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			}
@@ -175,15 +178,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			}
@@ -198,11 +201,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			}
@@ -217,7 +220,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | noChildren)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 01be12e..07e4535 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -81,19 +81,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | noChildren))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | noChildren))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | noChildren))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | noChildren))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | noChildren))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | noChildren))
 		}
 	}
 	return err
-- 
2.43.0


From 0976935ad8112ac40c0222b1ba716bacf8787f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 37/51] fix: parser: the default 3 level location cache was
 never filled

---
 vtdxml/parser/common.go            | 47 ++++++++++++++++++++++++++++++
 vtdxml/parser/process_start_tag.go |  4 +--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 9f02ce1..71ef5fb 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -136,6 +136,53 @@ func (p *VtdParser) writeVtd(tokenType common.Token, offset, length, depth int)
 	return p.vtdBuffer.Append(b | offset64)
 }
 
+// writeVtdL3 function writes into VTD buffer and 3 level location cache
+func (p *VtdParser) writeVtdL3(tokenType common.Token, offset, length, depth int) error {
+	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
+		return err
+	}
+	index := p.vtdBuffer.GetSize() - 1
+	switch depth {
+	case 0:
+		p.rootIndex = index
+	case 1:
+		if p.lastDepth == 1 {
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | noChildren)); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | noChildren)); err != nil {
+				return err
+			}
+		}
+		p.lastL1Index = index
+		p.lastDepth = 1
+	case 2:
+		if p.lastDepth == 1 {
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) + p.l2Buffer.GetSize())); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | noChildren)); err != nil {
+				return err
+			}
+		}
+		p.lastL2Index = index
+		p.lastDepth = 2
+	case 3:
+		if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) + p.l3Buffer.GetSize())); err != nil {
+				return err
+			}
+		}
+		if err := p.l3Buffer.Append(int64((index << 32) | noChildren)); err != nil {
+			return err
+		}
+		p.lastDepth = 3
+	}
+	return nil
+}
+
 // writeVtdL5 function writes into VTD buffer and location cache
 func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int) error {
 	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 78bf66c..29e4ab1 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,7 +38,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
@@ -51,7 +51,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
 				p.depth); err != nil {
 				return StateInvalid, err
 			}
-- 
2.43.0


From bb1a08cdd889eb5360bc03314ed8222fddd67bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:17 +0000
Subject: [PATCH 38/51] fix: parser: GetNav returned neither a navigator nor an
 error

---
 vtdxml/parser/get_nav.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index e545f9a..8f3b5be 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -1,9 +1,17 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
+)
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
-	// TODO
-	return nil, nil
+	encoding := p.encoding
+	if _, ok := p.reader.(*reader.Utf8Reader); ok && p.singleByteEncoding {
+		encoding = common.FormatUtf8
+	}
+	return navigation.NewVtdNav(int32(p.rootIndex), int32(p.docOffset), int32(p.docLength), int32(p.vtdDepth),
+		encoding, p.nsAware, p.xmlDoc, p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer)
 }
-- 
2.43.0


From 283a2ac1095b0702ebe7db3d027f3cde2c43bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 39/51] fix: navigation: cursor had no room for the deepest
 level of the document

---
 vtdxml/navigation/vtd_nav.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..4267c22 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -59,11 +59,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i < int(n.depth); i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From c7176f943bef7e5c82da67fb5ea13a77a2a95d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 40/51] fix: navigation: moves at levels 2 and 3 read the
 location cache of another level

---
 vtdxml/navigation/to_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..4cf3cc1 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -134,7 +134,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, nil
 			}
@@ -245,7 +245,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -265,7 +265,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 682bd956bc88aadbf17305046c29b5115f0db289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 41/51] fix: navigation: next sibling was never found below
 level 3

---
 vtdxml/navigation/to_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index 4cf3cc1..e1bded5 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -295,7 +295,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
-- 
2.43.0


From e6a3c3121a394b706e2aedca6aede2fa616c0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:33 +0000
Subject: [PATCH 42/51] fix: navigation: text length added unrelated tokens and
 missed the rest of long text

---
 vtdxml/navigation/common.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..f0ed988 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -91,27 +91,33 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			if caseErr != nil {
 				return 0, caseErr
 			}
-			var offset int32
-			var tokenTypeNew, tokenOffsetNew, tokenDepthNew int32
-			tokenDepthNew = depth
-			tokenTypeNew = tokenType
-
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
-				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
-
-				val, forErr := n.vtdBuffer.LongAt(i)
+			offset, caseErr := n.GetTokenOffset(index)
+			if caseErr != nil {
+				return 0, caseErr
+			}
+			// long text is recorded as a chain of adjacent tokens
+			for i := index; i < n.vtdBuffer.GetSize(); i++ {
+				tokenTypeNew, forErr := n.GetTokenType(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
-
-				tokenOffsetNew, forErr = n.GetTokenOffset(i)
+				tokenDepthNew, forErr := n.GetTokenDepth(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
+				tokenOffsetNew, forErr := n.GetTokenOffset(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				if tokenTypeNew != tokenType || tokenDepthNew != depth ||
+					tokenOffsetNew != offset+int32(length) {
+					break
+				}
+				val, forErr := n.vtdBuffer.LongAt(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				length += (uint64(val) & common.MaskTokenFullLength) >> 32
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From 7ac4effc68f4f3e4bd689c82efa9f68b7fc5214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 43/51] fix: navigation: references in string values were
 mangled, kept or never ended

---
 vtdxml/navigation/get_char_resolved.go | 27 +++++++++++++++++++-------
 vtdxml/navigation/to_string.go         | 11 +++++++++--
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..3703c15 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -1,17 +1,21 @@
 package navigation
 
 import (
+	"unicode"
+
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
-func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
+// getCharResolved function returns the character at the offset with references
+// resolved (lower 32 bits) and, for references, their length (upper 32 bits)
+func (n *VtdNav) getCharResolved(offset int) (uint64, error) {
 	ch, err := n.getChar(offset)
 	if err != nil {
 		return 0, err
 	}
-	if ch != '&' {
-		return uint32(ch), nil
+	if uint32(ch) != '&' {
+		return ch & 0xFFFFFFFF, nil
 	}
 	offset++
 	ch2, err := n.getCharUnit(offset)
@@ -23,7 +27,7 @@ func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return val | uint32(inc<<32), nil
+	return uint64(val) | inc<<32, nil
 }
 
 func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
@@ -48,7 +52,8 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			if err != nil {
 				return 0, 0, err
 			}
-			inc = 2
+			// length of a reference without digits
+			inc = 3
 			if ch2 == 'x' {
 				for {
 					offset++
@@ -68,6 +73,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -78,6 +86,11 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
+					offset++
+					inc++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
 						return 0, 0, err
@@ -98,13 +111,13 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
-				if err := checkSeq(offset, "p;"); err != nil {
+				if err := checkSeq(offset+1, "p;"); err != nil {
 					return 0, 0, err
 				}
 				return 5, '&', nil
 			} else if ch2 == 'p' {
 				// checks that the sequence matcher &apos;
-				if err := checkSeq(offset, "os;"); err != nil {
+				if err := checkSeq(offset+1, "os;"); err != nil {
 					return 0, 0, err
 				}
 				return 6, '\'', nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 9bb5066..60aed44 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -30,12 +30,19 @@ func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
 	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
+	for i := offset; i < endOffset; {
 		ch, err := n.getCharResolved(int(i))
 		if err != nil {
 			return "", err
 		}
-		buffer.WriteByte(byte(ch))
+		if inc := int32(ch >> 32); inc > 0 {
+			// resolved references are code points, anything else is a byte
+			buffer.WriteRune(rune(uint32(ch)))
+			i += inc
+		} else {
+			buffer.WriteByte(byte(ch))
+			i++
+		}
 	}
 
 	return buffer.String(), nil
-- 
2.43.0


From 983693a542775363063a8e9b9670b07755c85758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:59 +0000
Subject: [PATCH 44/51] fix: navigation: a carriage return at the end of the
 document became a NUL byte

---
 vtdxml/navigation/get_char_resolved.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index 3703c15..8dcf746 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -199,10 +199,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -215,10 +212,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -231,10 +225,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
-- 
2.43.0


From 3ffc7812d110a38ee6de196981c7831050946c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 45/51] fix: parser: namespace-aware parsing accepted names
 that are not QNames

---
 vtdxml/parser/common.go            | 20 ++++++++++++++++++++
 vtdxml/parser/process_attr_name.go |  5 +++++
 vtdxml/parser/process_start_tag.go |  5 +++++
 3 files changed, 30 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 71ef5fb..3354123 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -537,6 +537,26 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	return valid
 }
 
+// validateQName function checks that the name conforms to the QName production of
+// XML namespace spec: at most one colon that separates a prefix from a local part
+func (p *VtdParser) validateQName(offset, length int) error {
+	name := p.xmlDoc[offset : offset+length]
+	i := bytes.IndexByte(name, ':')
+	if i == -1 {
+		return nil
+	}
+	if i != 0 && i != length-1 && i == bytes.LastIndexByte(name, ':') {
+		ch, err := p.reader.GetCharAt(int32(offset + i + 1))
+		if err != nil {
+			return err
+		}
+		if p.xmlChar.IsNameStartChar(ch) {
+			return nil
+		}
+	}
+	return erroring.NewParseError("name is not a valid QNAME", p.fmtCustomLine(offset), nil)
+}
+
 // qualifyElement function does basic qualification on XML element by the
 // following criteria:
 // (1) current element has no prefix, then look for XMLNS;
diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index 608342c..f26fe49 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -38,6 +38,11 @@ func (p *VtdParser) processAttrName() (State, error) {
 		return StateInvalid, err
 	}
 	p.length1 = offset - p.lastOffset
+	if p.nsAware {
+		if err := p.validateQName(p.lastOffset, p.length1); err != nil {
+			return StateInvalid, err
+		}
+	}
 
 	if p.isNs && p.nsAware && !p.defaultNs {
 		if (p.increment == 1 && (p.length1-p.length2 == 6)) ||
diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 29e4ab1..2ce27b5 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -25,6 +25,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 	if p.depth > maxDepth {
 		return StateInvalid, erroring.NewParseError(erroring.MaximumDepthExceeded, p.fmtLine(), nil)
 	}
+	if p.nsAware {
+		if err := p.validateQName(p.lastOffset, p.length1); err != nil {
+			return StateInvalid, err
+		}
+	}
 
 	x := (p.length1 << 32) + p.lastOffset
 	p.tagStack[p.depth] = int64(x)
-- 
2.43.0


From 623ec2c8fe48274573b5d7786831d3e1a287f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 46/51] verif: expose parse results to the conformance harness
 (build tag verif)

---
 vtdxml/parser/verif_hooks.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)
 create mode 100644 vtdxml/parser/verif_hooks.go

diff --git a/vtdxml/parser/verif_hooks.go b/vtdxml/parser/verif_hooks.go
new file mode 100644
index 0000000..3623930
--- /dev/null
+++ b/vtdxml/parser/verif_hooks.go
@@ -0,0 +1,24 @@
+//go:build verif
+
+package parser
+
+import "github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
+
+// VerifBuffers exposes the parse result to the conformance harness: the VTD
+// token buffer followed by the location cache buffers of levels 1 to 5 (levels
+// 4 and 5 are nil in 3 level mode).
+func (p *VtdParser) VerifBuffers() []buffer.LongBuffer {
+	return []buffer.LongBuffer{
+		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer, p.l4Buffer, p.l5Buffer,
+	}
+}
+
+// VerifRootIndex exposes the token index of the root element
+func (p *VtdParser) VerifRootIndex() int {
+	return p.rootIndex
+}
+
+// VerifDepth exposes the depth of the deepest element
+func (p *VtdParser) VerifDepth() int {
+	return p.vtdDepth
+}
-- 
2.43.0


From f234c31ed8ed6e9291171e2e917f15e6245454e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 47/51] fix: parser: repeated DOCTYPEs and DOCTYPEs without a
 name were accepted

---
 vtdxml/parser/process_doc_type.go | 18 ++++++++++++++++++
 vtdxml/parser/vtd_parser.go       |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_type.go b/vtdxml/parser/process_doc_type.go
index 596168d..74353e6 100644
--- a/vtdxml/parser/process_doc_type.go
+++ b/vtdxml/parser/process_doc_type.go
@@ -6,6 +6,24 @@ import (
 )
 
 func (p *VtdParser) processDocType() (State, error) {
+	if p.hasDocType {
+		return StateInvalid, erroring.NewParseError("more than one DOCTYPE", p.fmtLine(), nil)
+	}
+	p.hasDocType = true
+	// white space and the name of the root element follow
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
+	if !p.xmlChar.IsSpaceChar(p.currentChar) {
+		return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
+	if err := p.nextCharAfterWs(); err != nil {
+		return StateInvalid, err
+	}
+	if !p.xmlChar.IsNameStartChar(p.currentChar) {
+		return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
+
 	z := 1
 	for {
 		ch, err := p.getChar()
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index bbea421..d318bf8 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -47,7 +47,7 @@ type VtdParser struct {
 	currentElementRecord                                                int64
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
-	isXml                                                               bool
+	isXml, hasDocType                                                   bool
 	bufferReuse                                                         bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
-- 
2.43.0


From 0041dddb30808b027fb7660b9107ee2ea434c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:58 +0000
Subject: [PATCH 48/51] fix: readers must not panic after being positioned
 before the document

---
 vtdxml/reader/ascii_reader.go | 4 ++--
 vtdxml/reader/utf8_reader.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 3d110ee..41d801e 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -30,7 +30,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 }
 
 func (r *AsciiReader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[r.offset]
@@ -53,7 +53,7 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset >= 0 && r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 9af6fad..72996ab 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -30,7 +30,7 @@ func NewUtf8Reader(xmlDoc []byte, offset, endOffset int) (*Utf8Reader, error) {
 }
 
 func (r *Utf8Reader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch, size := r.decode(r.offset)
@@ -67,7 +67,7 @@ func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if r.offset >= r.endOffset {
+	if r.offset < 0 || r.offset >= r.endOffset {
 		return false
 	}
 	next, size := r.decode(r.offset)
-- 
2.43.0


From 6f56a878fc853fda8587498ba5bf6d58ad8a3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 49/51] fix: parsing with a parser that has consumed its
 document must not panic

---
 vtdxml/parser/common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 3354123..43afb9f 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -398,6 +398,9 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
+	if p.offset >= p.endOffset {
+		return erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	doc := p.xmlDoc[p.offset:p.endOffset]
 	if doc[0] == 0xFE {
 		p.increment = 2
-- 
2.43.0


From c41922810159335cccf814cfe0069fd0a2b43c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 50/51] fix: parser: white space without a document was a parse
 error instead of an end of input

---
 vtdxml/parser/process_doc_start.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index b770a33..5932e24 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -26,7 +26,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-			return StateInvalid, nil
+			return StateInvalid, err
 		}
 		if p.currentChar == '<' {
 			return StateLtSeen, nil
-- 
2.43.0


From 887854625ec0b4ed89d421d7a2d2d66fc2c7930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 51/51] fix: reader: bytes beyond ASCII were only refused by
 AsciiReader.GetChar

---
 vtdxml/reader/ascii_reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 41d801e..cdfcf54 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -46,6 +46,9 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[offset]
+	if !r.isASCII(ch) {
+		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
+	}
 	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
@@ -53,7 +56,7 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if r.offset >= 0 && r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset >= 0 && r.offset < r.endOffset && r.isASCII(r.xmlDoc[r.offset]) && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
@@ -76,7 +79,11 @@ func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
 	if offset < 0 || int(offset) >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	return uint32(r.xmlDoc[offset]), nil
+	ch := r.xmlDoc[offset]
+	if !r.isASCII(ch) {
+		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
+	}
+	return uint32(ch), nil
 }
 
 func (r *AsciiReader) GetOffset() int {
-- 
2.43.0

