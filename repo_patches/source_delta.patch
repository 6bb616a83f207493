From cb8410c1ff76552122035f6e882718777a680753 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:40:52 +0000
Subject: [PATCH 1/8] fix: count the size bytes in the async write_map_begin

---
 src/thrift/protocol/compact_stream_write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index d842eee..8479d56 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -244,7 +244,8 @@ where
         if identifier.size == 0 {
             self.write_byte(0).await
         } else {
-            self.transport.write_varint_async(identifier.size).await?;
+            let mut written = 0;
+            written += self.transport.write_varint_async(identifier.size).await?;
 
             let key_type = identifier
                 .key_type
@@ -257,7 +258,8 @@ where
             let val_type_byte = collection_type_to_u8(val_type);
 
             let map_type_header = key_type_byte | val_type_byte;
-            self.write_byte(map_type_header).await
+            written += self.write_byte(map_type_header).await?;
+            Ok(written)
         }
     }
 
-- 
2.43.0


From 86be0ab7ad3e637bd3cd4e0dad26c2f9b14ecd2d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:40:52 +0000
Subject: [PATCH 2/8] fix: do not lose a byte when the transport accepts none
 or is interrupted

---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index 8479d56..cb1e8d4 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -275,6 +275,7 @@ where
     //
 
     async fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).await.map_err(From::from)
+        self.transport.write_all(&[b]).await?;
+        Ok(1)
     }
 }
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index 906d579..f8330e1 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -244,7 +244,8 @@ where
     //
 
     fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).map_err(From::from)
+        self.transport.write_all(&[b])?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 74f7f3963ecf77f3afab771af637b1e190df8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 3/8] fix: report end of file when a string or byte array is
 truncated

---
 src/thrift/protocol/compact.rs        | 3 +++
 src/thrift/protocol/compact_stream.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index ec6b329..5235809 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -223,6 +223,9 @@ where
             .by_ref()
             .take(len.try_into()?)
             .read_to_end(&mut buf)?;
+        if buf.len() < len.try_into()? {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 25e26be..1a93e20 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -216,6 +216,9 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
             .take(len.try_into()?)
             .read_to_end(&mut buf)
             .await?;
+        if buf.len() < len.try_into()? {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
-- 
2.43.0


From e38c28446dd22263b31dc8b4ec805e46fc1ffd93 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:41:25 +0000
Subject: [PATCH 4/8] fix: skip unknown binary fields that are not valid UTF-8

---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 168aedd..3d405bd 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -162,7 +162,7 @@ pub trait TInputProtocol: Sized {
             TType::I32 => self.read_i32().map(|_| ()),
             TType::I64 => self.read_i64().map(|_| ()),
             TType::Double => self.read_double().map(|_| ()),
-            TType::String => self.read_string().map(|_| ()),
+            TType::String => self.read_bytes().map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin()?;
                 loop {
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ee04bd2..b7d68dd 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -148,7 +148,7 @@ pub trait TInputStreamProtocol: Send + Sized {
             TType::I32 => self.read_i32().await.map(|_| ()),
             TType::I64 => self.read_i64().await.map(|_| ()),
             TType::Double => self.read_double().await.map(|_| ()),
-            TType::String => self.read_string().await.map(|_| ()),
+            TType::String => self.read_bytes().await.map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin().await?;
                 loop {
-- 
2.43.0


From 7282708962834d71cc817919bad50db297ac1749 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 5/8] fix: return an error instead of aborting when a list
 cannot be allocated

---
 src/thrift/protocol/mod.rs    | 3 ++-
 src/thrift/protocol/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 3d405bd..af36293 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -211,7 +211,8 @@ pub trait TInputProtocol: Sized {
 
     fn read_list<P: ReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin()?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve_exact(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::read_from_in_protocol(self)?);
         }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index b7d68dd..10f9fe3 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -118,7 +118,8 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     async fn read_list<P: AsyncReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin().await?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve_exact(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::stream_from_in_protocol(self).await?);
         }
-- 
2.43.0


From 6d6c24f464e59db1dab30d357acb1c22a4e6cccd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:41:31 +0000
Subject: [PATCH 6/8] fix: charge structs against the limit of the async reader

---
 src/thrift/protocol/compact_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 1a93e20..0358ede 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -123,6 +123,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
+        self.update_remaining::<i16>(1)?;
         self.read_field_id_stack.push(self.last_read_field_id);
         self.last_read_field_id = 0;
         Ok(None)
-- 
2.43.0


From 57663358ae55cbdb00cc2a0616ae424ed3587269 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:41:33 +0000
Subject: [PATCH 7/8] fix: avoid overflow in the field id delta of field
 headers

---
 src/thrift/protocol/compact_stream_write.rs | 2 +-
 src/thrift/protocol/compact_write.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index cb1e8d4..8f983c7 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -51,7 +51,7 @@ where
     async fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self
                 .write_byte(((field_delta as u8) << 4) | field_type)
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index f8330e1..5e8a8ad 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -45,7 +45,7 @@ where
     fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self.write_byte(((field_delta as u8) << 4) | field_type)?;
         } else {
-- 
2.43.0


From 4dbaf1792a7de540c1ba97cc007c2f9a29556924 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 15:41:35 +0000
Subject: [PATCH 8/8] fix: retry interrupted reads of varints

---
 src/thrift/varint/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thrift/varint/decode.rs b/src/thrift/varint/decode.rs
index ae032af..1dd23be 100644
--- a/src/thrift/varint/decode.rs
+++ b/src/thrift/varint/decode.rs
@@ -257,7 +257,10 @@ impl<R: io::Read> VarIntReader for R {
         let mut p = VarIntProcessor::new::<VI>();
 
         while !p.finished() {
-            let read = self.read(&mut buf)?;
+            let read = match self.read(&mut buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                read => read?,
+            };
 
             // EOF
             if read == 0 && p.i == 0 {
-- 
2.43.0

