From c3b7832ce388dc2904678505e652d0c9fbd132bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 01/11] fix: ForPrintSlice and PrintBytesSlice panic on an
 empty non-nil slice

---
 bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 6112388..2aa24ea 100644
--- a/bytes.go
+++ b/bytes.go
@@ -39,7 +39,7 @@ func startAndEnd(length, startPos, endPos int) (start, end int) {
 }
 
 func ForPrintSlice(s []byte, startPos int, endPos int) []byte {
-	if s == nil {
+	if len(s) == 0 {
 		return []byte{}
 	}
 	l := len(s)
-- 
2.43.0


From 951a83230ba5fe8adcc2de02c40b186bc815f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 02/11] fix: SplitBytes panics on a zero or negative size
 instead of returning an error

---
 bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 2aa24ea..eb9ec3c 100644
--- a/bytes.go
+++ b/bytes.go
@@ -230,7 +230,7 @@ func LeftPadBytes(slice []byte, l int) []byte {
 
 // Divide bs into slices according to size, and each slice length is size
 func SplitBytes(bs []byte, size int) ([][]byte, error) {
-	if len(bs)%size != 0 {
+	if size <= 0 || len(bs)%size != 0 {
 		return nil, errors.New(fmt.Sprintf("input length illegal: (%d)%%(%d)!=0", len(bs), size))
 	}
 	r := make([][]byte, 0, len(bs)/size)
-- 
2.43.0


From 6f0171722b1ac357baf1f891411ec9652d2e629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 03/11] fix: SubBytes panics when from+size overflows int

---
 bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index eb9ec3c..fc6f9d0 100644
--- a/bytes.go
+++ b/bytes.go
@@ -359,7 +359,7 @@ func SubBytes(bs []byte, from, size int) ([]byte, error) {
 	if from >= bsBitSize {
 		return nil, nil
 	}
-	if size+from > bsBitSize {
+	if size > bsBitSize-from {
 		size = bsBitSize - from
 	}
 
-- 
2.43.0


From 14cafd2fa8ad3d91c549cca9829a49bb42c2d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 04/11] fix: Bits.Bits returns one bit more than asked for

---
 shardinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shardinfo.go b/shardinfo.go
index b71d330..9731e93 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -82,10 +82,10 @@ func (bs Bits) Bits(length int) []bool {
 	var j uint
 	for i := 0; i < len(bs) && i <= x; i++ {
 		for j = 0; j < 8; j++ {
-			r = append(r, ((bs[i]>>(7-j))&0x1) == 0x1)
 			if i >= x && j >= y {
 				break
 			}
+			r = append(r, ((bs[i]>>(7-j))&0x1) == 0x1)
 		}
 	}
 	return r
-- 
2.43.0


From a223f7489afbffca84bb229a0054decbef38cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 05/11] fix: BitIndex.Mask drops the bit it names when that bit
 is the first of its byte

---
 shardinfo.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index 9731e93..fb8fc73 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -44,15 +44,12 @@ func (p BitIndex) BitPos() uint {
 	return uint(p) & 0x7
 }
 
-// returns higher n bits of b, which n is is the bit index of the lowest byte
+// returns higher n+1 bits of b, which n is the bit index of the lowest byte (starting from 0)
 func (p BitIndex) Mask(b byte) byte {
 	bits := p.BitPos()
 	if bits == 7 {
 		return b
 	}
-	if bits == 0 {
-		return 0
-	}
 	sh := 7 - bits
 	bb := b >> sh
 	bb = bb << sh
-- 
2.43.0


From cebeb3ea4a69988a7c2f95e85572c126a930ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:08 +0000
Subject: [PATCH 06/11] fix: Trie.Commit reports a child node that could not be
 saved instead of marking its parents clean

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..cad036e 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From 32e4012809e5cc34e35d4dcc456d536ef6383dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 07/11] fix: BatchWrite writes the pending batch also when the
 last element adds nothing

---
 db/types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..30eb5c5 100644
--- a/db/types.go
+++ b/db/types.go
@@ -99,7 +99,7 @@ func BatchWrite(dbase Database, threshold, length int,
 			continue
 		}
 		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index == threshold {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
@@ -107,5 +107,11 @@ func BatchWrite(dbase Database, threshold, length int,
 			index = 0
 		}
 	}
+	if index > 0 {
+		if err = dbase.Batch(batch); err != nil {
+			return count, err
+		}
+		count = count + index
+	}
 	return count, nil
 }
-- 
2.43.0


From 2f51bfb415a07a647af544cb4435dcdb225f013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 08/11] fix: LDB.Batch reports a write that failed

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From dc3a7e2d67a5548f7c822ad054c265289cdd6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 09/11] fix: cachedDB reported a missing key as present after
 it was looked up

---
 db/cacheddb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..31ecb74 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -117,7 +117,9 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	if r != nil {
+		d.cache.Add(ckey, r)
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 75b055c7dbb38a01b9e72b73510c12e3855d8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 10/11] fix: a memory batch kept the caller's key and value
 slices instead of what was put

---
 db/memdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..9d4abc7 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -123,12 +123,12 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From 523078436be913dc9a082678a1598a0707357b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:49 +0000
Subject: [PATCH 11/11] fix: prefixed adapters and key databases hand down the
 wrapped batch

---
 db/adapters.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..d8de111 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -122,6 +122,9 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
+	if kb, ok := batch.(*KeyBatch); ok {
+		batch = kb.batch
+	}
 	return k.database.Batch(batch)
 }
 
@@ -201,6 +204,9 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
+	if kb, ok := batch.(*KeyBatch); ok {
+		batch = kb.batch
+	}
 	return d.database.Batch(batch)
 }
 
-- 
2.43.0

