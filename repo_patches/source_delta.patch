From 968fd1bb0cd33bdb33d38944806bf92d2bb1d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 01/29] fix: read any block kind from a plain stream, not only
 the first declared one

---
 brec_macros/src/collector/blocks/mod.rs  |  2 +-
 brec_macros/src/collector/blocks/read.rs | 39 ++++++++++++------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/brec_macros/src/collector/blocks/mod.rs b/brec_macros/src/collector/blocks/mod.rs
index c5a8dda..967da2a 100644
--- a/brec_macros/src/collector/blocks/mod.rs
+++ b/brec_macros/src/collector/blocks/mod.rs
@@ -15,7 +15,7 @@ pub fn gen(blocks: Vec<&Block>, cfg: &Config) -> Result<TokenStream, E> {
     let prop = props::gen(&blocks)?;
     let prop_referred = props::gen_referred(&blocks)?;
     let referred_into = props::referred_into(&blocks)?;
-    let read_from = read::read_from(&blocks)?;
+    let read_from = read::read_from();
     let read_block_from = read::read_block_from(&blocks)?;
     let read_from_slice = read::read_from_slice(&blocks)?;
     let try_read_from = read::try_read_from(&blocks)?;
diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..d8df926 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -3,40 +3,31 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
-    let mut variants = Vec::new();
-    for blk in blocks.iter() {
-        let fullname = blk.fullname()?;
-        let fullpath = blk.fullpath()?;
-        variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
-                Ok(blk) => return Ok(Block::#fullname(blk)),
-                Err(err) => {
-                    if !matches!(err, brec::Error::SignatureDismatch) {
-                        return Err(err);
-                    }
-                }
-            }
-        });
-    }
-    Ok(quote! {
+pub fn read_from() -> TokenStream {
+    quote! {
         impl brec::ReadFrom for Block {
             fn read<T: std::io::Read>(buf: &mut T) -> Result<Self, brec::Error>
             where
                 Self: Sized,
             {
-                #(#variants)*
-                Err(brec::Error::SignatureDismatch)
+                <Block as brec::ReadBlockFrom>::read(buf, false)
             }
         }
-    })
+    }
 }
 
 pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
+    let mut by_signature = Vec::new();
     for blk in blocks.iter() {
+        let referred_name = blk.referred_name();
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
+        by_signature.push(quote! {
+            if &sig == <#referred_name as brec::SignatureU32>::sig() {
+                return <#fullpath as brec::ReadBlockFrom>::read(buf, true).map(Block::#fullname);
+            }
+        });
         variants.push(quote! {
             match <#fullpath as brec::ReadBlockFrom>::read(buf, skip_sig) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
@@ -54,6 +45,14 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                if !skip_sig {
+                    // The stream cannot be rewound: the signature is read once and decides which
+                    // block follows.
+                    let mut sig = [0u8; 4];
+                    buf.read_exact(&mut sig)?;
+                    #(#by_signature)*
+                    return Err(brec::Error::SignatureDismatch);
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From 060811320fcba1c79ea55bff3b059ab9df8f5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 02/29] fix: read a block from a slice which does not include
 the signature

---
 brec_macros/src/codegen/read/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..40eb5e0 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -68,6 +68,7 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    let #src = if skip_sig { #src } else { &#src[#BLOCK_SIG_LEN..] };
                 });
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
@@ -79,7 +80,10 @@ impl ReadFromSlice for Block {
                 fields.push(field.safe(&src, offset, offset + field.ty.size()));
             }
             fnames.push(format_ident!("{}", field.name));
-            offset += field.ty.size();
+            // Offsets are counted from the end of the signature, which might be skipped
+            if field.name != FIELD_SIG {
+                offset += field.ty.size();
+            }
         }
         Ok(quote! {
 
-- 
2.43.0


From 4a15437bb679940f6a70a5bda8734b9bb62e0008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 03/29] fix: decode a boolean field from a slice the same way
 as from a stream

---
 brec_macros/src/tokenized/block/from_bytes/ty/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
index 80823ad..70ad119 100644
--- a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
+++ b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
@@ -26,7 +26,7 @@ impl FromBytes for Ty {
             }
             Ty::Bool => {
                 quote! {
-                   u8::from_le_bytes(#src[#from..#to].try_into()?) == 1
+                   u8::from_le_bytes(#src[#from..#to].try_into()?) != 0
                 }
             }
             Ty::Blob(len) => quote! {
-- 
2.43.0


From 7728c732d1e9a4c05a2e3f476c15bde51c7c9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:21 +0000
Subject: [PATCH 04/29] fix: keep the position of the source when a block
 cannot be read

---
 brec_macros/src/codegen/read/block.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 40eb5e0..f78839d 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -147,7 +147,7 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
@@ -159,9 +159,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
@@ -196,6 +203,13 @@ impl TryReadBuffered for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
 
+                    let size = #block_name::ssize() as usize;
+                    if bytes.len() >= size {
+                        // A whole block is in view: nothing is consumed if it is damaged
+                        let blk = #block_name::read(&mut &bytes[#sig_len..size], true)?;
+                        reader.consume(size);
+                        return Ok(brec::ReadStatus::Success(blk));
+                    }
                     reader.consume(#sig_len);
                     let blk = #block_name::read(reader, true);
                     Ok(brec::ReadStatus::Success(blk?))
-- 
2.43.0


From f1dd2273ec8c528ecff3338dd5635d3898139858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 05/29] fix: keep the position of the source when a packet
 header cannot be read

---
 brec/src/packet/header/read.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..88436d1 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,14 +113,22 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 2c9de495b437aa54cde7331998fa42d8d433b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 06/29] fix: consume a buffered packet header once, and only if
 it is valid

---
 brec/src/packet/header/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 88436d1..2b95743 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -153,8 +153,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = PacketHeader::read_from_slice(bytes, false)?;
         reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(header))
     }
 }
-- 
2.43.0


From fa62accf598c482fe739bd3cd7ec435e9a33f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 07/29] fix: report a partial packet as such and keep the
 position of a seekable source

---
 brec/src/packet/read.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..12b0139 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -82,14 +82,18 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
             ReadStatus::Success(header) => header,
         };
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let required = header.size.saturating_add(PacketHeader::ssize());
+        if required > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
         let mut pkg = PacketDef::default();
         let mut read = 0;
@@ -121,8 +125,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
@@ -137,10 +141,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
-- 
2.43.0


From 2eeef0de7097105ef8633b64eb8c43a3b7d691b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:00 +0000
Subject: [PATCH 08/29] fix: report a partial buffered packet as such and
 consume a packet only on success

---
 brec/src/packet/read.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 12b0139..e1d5ed3 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -160,8 +160,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
 /// This is similar to `TryReadFrom`, but works with non-seekable buffered sources (e.g., network streams).
 ///
 /// # Behavior
-/// - Reads header directly from `BufRead::fill_buf()` and consumes it.
-/// - Ensures that `header.size` bytes are available before decoding.
+/// - Reads header directly from `BufRead::fill_buf()`.
+/// - Ensures that header and `header.size` bytes are available before decoding.
+/// - Consumes the packet from the source only if it has been read successfully.
 /// - Supports partial reads using `ReadStatus::NotEnoughData(...)`.
 ///
 /// # Returns
@@ -185,16 +186,18 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let required = header.size.saturating_add(PacketHeader::ssize());
+        if required > available {
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
-        reader.consume(PacketHeader::ssize() as usize);
+        // Source is consumed only after the whole packet has been decoded
+        let mut body = &bytes[PacketHeader::ssize() as usize..required as usize];
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
-                match <B as TryReadFromBuffered>::try_read(reader)? {
+                match <B as TryReadFromBuffered>::try_read(&mut body)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
                         pkg.blocks.push(blk);
@@ -203,7 +206,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                         }
                     }
                     ReadStatus::NotEnoughData(needed) => {
-                        return Ok(ReadStatus::NotEnoughData(needed))
+                        return Err(Error::NotEnoughData(needed as usize))
                     }
                 }
                 iterations += 1;
@@ -213,15 +216,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
+            match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
                 ReadStatus::Success(header) => {
-                    reader.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(reader, &header)? {
+                    body = &body[header.size()..];
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(&mut body, &header)?
+                    {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
                         ReadStatus::NotEnoughData(needed) => {
-                            return Ok(ReadStatus::NotEnoughData(needed))
+                            return Err(Error::NotEnoughData(needed as usize))
                         }
                     }
                 }
@@ -230,6 +234,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                 }
             }
         }
+        reader.consume(required as usize);
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 143327c520b2b2b1ef59f41c38dfaa0b4dcf9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:00 +0000
Subject: [PATCH 09/29] fix: apply the limit of 255 blocks per packet in all
 readers

---
 brec/src/packet/mod.rs  | 3 +++
 brec/src/packet/read.rs | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 34b1f5a..f3b1df0 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -138,6 +138,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
                 if read == blocks_len {
                     break;
                 }
+                if blocks.len() >= MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
             }
         }
         let packet_size = header.size as usize;
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index e1d5ed3..40e12f4 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -43,7 +43,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
@@ -118,7 +118,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::MaxBlocksCount);
                 }
@@ -210,7 +210,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
-- 
2.43.0


From feea3b2334956e5bcbbed34f27e0240c2ab0c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 10/29] fix: do not allocate memory by an unverified size while
 reading a packet

---
 brec/src/packet/mod.rs      |  3 +--
 brec/src/packet/read.rs     |  5 ++---
 brec/src/traits/read/mod.rs | 14 ++++++++++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index f3b1df0..cad8ad7 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -126,8 +126,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let header = <PacketHeader as ReadFrom>::read(reader)?;
         let mut read = 0;
         let mut blocks = Vec::new();
-        let mut packet_buffer = vec![0; header.size as usize];
-        reader.read_exact(&mut packet_buffer)?;
+        let packet_buffer = read_body(reader, header.size)?;
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 40e12f4..bb81346 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -24,9 +24,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         let header = PacketHeader::read(buf)?;
         let mut pkg = PacketDef::default();
         let mut read = 0;
-        let mut inner = vec![0u8; header.size as usize];
-        buf.read_exact(&mut inner)?;
-        let mut reader = std::io::Cursor::new(&mut inner);
+        let inner = read_body(buf, header.size)?;
+        let mut reader = std::io::Cursor::new(&inner);
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..23fca09 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -6,6 +6,17 @@ use payload::*;
 pub use reader::*;
 pub use status::*;
 
+/// Reads exactly `size` bytes. The size comes from the source and cannot be trusted: memory is
+/// requested as data arrives.
+pub(crate) fn read_body<T: std::io::Read>(buf: &mut T, size: u64) -> Result<Vec<u8>, Error> {
+    use std::io::Read;
+    let mut body = Vec::new();
+    if buf.take(size).read_to_end(&mut body)? as u64 != size {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(body)
+}
+
 /// Trait for reading a type directly from any `Read` stream.
 ///
 /// Used for deserializing simple binary structures.
@@ -72,8 +83,7 @@ pub trait ReadPayloadFrom<
         if header.sig != T::ssig() {
             return Err(Error::SignatureDismatch);
         }
-        let mut bytes = vec![0u8; header.payload_len()];
-        buf.read_exact(&mut bytes)?;
+        let bytes = read_body(buf, header.payload_len() as u64)?;
         let value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
-- 
2.43.0


From d824f67bde71bbd20c886d7b92a3c9ff31c7553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:57 +0000
Subject: [PATCH 11/29] fix: announce the size of a payload header with the
 real size of its checksum

---
 brec/src/payload/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..5d43703 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc()?.size() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
-- 
2.43.0


From 4efdac490c6ed4427b5ea83d36cd65d8d6bf6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:08 +0000
Subject: [PATCH 12/29] fix: keep the position of the source when a payload
 cannot be read

---
 brec/src/payload/header/read.rs    | 12 ++++++++++++
 brec/src/payload/header/sreader.rs |  8 +++++++-
 brec/src/traits/read/mod.rs        | 12 ++++++++++--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..c884470 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -59,6 +59,18 @@ impl TryReadFrom for PayloadHeader {
         Self: Sized,
     {
         let mut reader = SafeHeaderReader::new(buf)?;
+        let header = Self::read_chunks(&mut reader);
+        if header.is_err() {
+            reader.rewind()?;
+        }
+        header
+    }
+}
+
+impl PayloadHeader {
+    fn read_chunks<T: std::io::Read + std::io::Seek>(
+        reader: &mut SafeHeaderReader<'_, T>,
+    ) -> Result<ReadStatus<Self>, Error> {
         let sig_len = match reader.next_u8()? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::U8(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..2868e47 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
@@ -110,4 +110,10 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         self.read += capacity;
         Ok(NextChunk::Bytes(dest))
     }
+
+    /// Returns the source to the position it had before reading.
+    pub fn rewind(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        Ok(())
+    }
 }
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index 23fca09..52764aa 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -123,12 +123,20 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
         }
-        <T as ReadPayloadFrom<T>>::read(buf, header).map(ReadStatus::Success)
+        match <T as ReadPayloadFrom<T>>::read(buf, header) {
+            Ok(value) => Ok(ReadStatus::Success(value)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
-- 
2.43.0


From a32bd239c40df45700a993a1fe6dc7248c36cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:24 +0000
Subject: [PATCH 13/29] fix: look for a packet header in everything received so
 far

---
 brec/src/packet/reader.rs | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..707bb97 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -186,7 +186,6 @@ impl<
     fn resolve_header_refill(
         &mut self,
         mut buffer: Vec<u8>,
-        needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
         let extracted = self.inner.fill_buf()?;
         if extracted.is_empty() {
@@ -194,30 +193,8 @@ impl<
             return Ok(NextPacket::NoData);
         }
         let extracted_len = extracted.len();
-        if extracted_len < needed {
-            buffer.extend_from_slice(extracted);
-            self.inner.consume(extracted_len);
-            self.recent = HeaderReadState::Refill(Some((buffer, needed - extracted_len)));
-            return Ok(NextPacket::NotEnoughData(needed - extracted_len));
-        }
         let buffered = buffer.len();
-        // First make attempt to read header without possible litter
-        buffer.extend_from_slice(&extracted[..needed]);
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
-            PacketHeaderState::Found(header, sgmt) => {
-                if sgmt.start() > &0 {
-                    self.rules.ignore(&buffer[..*sgmt.start()])?;
-                }
-                self.inner.consume(sgmt.end() - buffered);
-                self.recent = HeaderReadState::Ready(Some(header));
-                return Ok(NextPacket::NotEnoughData(0));
-            }
-            _ => {
-                // Do nothing, because it might be litter in stream
-            }
-        }
-        // Second, if buffer has litter, header might be in next bytes. Trying all available bytes
-        buffer.extend_from_slice(&extracted[needed..]);
+        buffer.extend_from_slice(extracted);
         let header_len = PacketHeader::ssize() as usize;
         match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
             PacketHeaderState::Found(header, sgmt) => {
@@ -245,8 +222,13 @@ impl<
                     buffer.drain(..(buffer.len() - header_len));
                 }
                 self.inner.consume(extracted_len);
+                let missing = header_len - buffer.len();
                 self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
-                Ok(NextPacket::NotFound)
+                Ok(if missing > 0 {
+                    NextPacket::NotEnoughData(missing)
+                } else {
+                    NextPacket::NotFound
+                })
             }
         }
     }
@@ -285,8 +267,8 @@ impl<
                 ResolveHeaderReady::Next(next) => return Ok(next),
                 ResolveHeaderReady::Resolved(header) => (self.buffered.as_slice(), header, None),
             },
-            HeaderReadState::Refill(Some((buffer, needed))) => {
-                return self.resolve_header_refill(buffer, needed);
+            HeaderReadState::Refill(Some((buffer, _needed))) => {
+                return self.resolve_header_refill(buffer);
             }
             HeaderReadState::Empty => {
                 self.buffered.clear();
-- 
2.43.0


From 96d9f0adbcd897bb3fedc289f8735bb0b0e83e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 14/29] fix: let the stream reader proceed after a damaged
 packet header

---
 brec/src/packet/reader.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 707bb97..08dc48b 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -42,6 +42,8 @@ pub enum PacketHeaderState {
     /// - The parsed `PacketHeader`.
     /// - The position of the header within the provided data slice.
     Found(PacketHeader, std::ops::RangeInclusive<usize>),
+    /// Signature was found at the given position, but the header is damaged.
+    Damaged(usize, Error),
 }
 
 /// Internal structure used by `PacketBufReaderDef` when reading packet headers.
@@ -124,10 +126,15 @@ impl<
             // Header is detected, but not enough data to load it
             return Ok(PacketHeaderState::NotEnoughData(offset, needed));
         }
-        Ok(PacketHeaderState::Found(
-            PacketHeader::read_from_slice(&buffer[offset..], false)?,
-            std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
-        ))
+        Ok(
+            match PacketHeader::read_from_slice(&buffer[offset..], false) {
+                Ok(header) => PacketHeaderState::Found(
+                    header,
+                    std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
+                ),
+                Err(err) => PacketHeaderState::Damaged(offset, err),
+            },
+        )
     }
 
     /// Clears the internal buffer and consumes a specified number of bytes from the reader.
@@ -205,6 +212,18 @@ impl<
                 self.recent = HeaderReadState::Ready(Some(header));
                 Ok(NextPacket::NotEnoughData(0))
             }
+            PacketHeaderState::Damaged(offset, err) => {
+                // Step over the beginning of the damaged header to look for the next one
+                self.rules.ignore(&buffer[..=offset])?;
+                if offset < buffered {
+                    buffer.truncate(buffered);
+                    buffer.drain(..=offset);
+                    self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                } else {
+                    self.inner.consume(offset + 1 - buffered);
+                }
+                Err(err)
+            }
             PacketHeaderState::NotEnoughData(from, needed) => {
                 if from > 0 {
                     // We can drain most bytes in buffer and left only length of header signature
@@ -312,6 +331,12 @@ impl<
                         self.inner.consume(available);
                         return Ok(NextPacket::NotEnoughData(needed));
                     }
+                    PacketHeaderState::Damaged(offset, err) => {
+                        // Step over the beginning of the damaged header to look for the next one
+                        self.rules.ignore(&buffer[..=offset])?;
+                        self.inner.consume(offset + 1);
+                        return Err(err);
+                    }
                     PacketHeaderState::Found(header, sgmt) => {
                         // PacketDef header has been found
                         if sgmt.start() > &0 {
-- 
2.43.0


From 819d31b003ee859bd8f9bd21f6a18a0b43fdb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 15/29] fix: let the stream reader proceed after a damaged
 payload or too many blocks

---
 brec/src/packet/reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 08dc48b..f3e88ed 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -374,8 +374,7 @@ impl<
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -411,12 +410,15 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
-- 
2.43.0


From 4955353b04a71073d3e64bd18a950b6a1e336ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 16/29] fix: do not trust the sizes of a packet header in the
 stream reader

---
 brec/src/packet/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index f3e88ed..f7a9562 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -343,7 +343,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -367,6 +367,9 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
+        if blocks_len > packet_buffer.len() {
+            return self.drop_and_consume(consume, Err(Error::NotEnoughData(blocks_len)));
+        }
         let blocks_buffer = &packet_buffer[..blocks_len];
         let mut blocks = Vec::new();
         let mut processed = 0;
-- 
2.43.0


From 89fd88772aa1f142bf045a8294e988de52ae41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 17/29] fix: report the end of a stream which stops in the
 middle of a packet

---
 brec/src/packet/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index f7a9562..68cc160 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -167,6 +167,11 @@ impl<
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
         if packet_size > available {
+            if buffer.is_empty() {
+                // Source is exhausted. Packet might be completed later
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Ok(ResolveHeaderReady::Next(NextPacket::NoData));
+            }
             // Not enough data to load packet
             let consumed = buffer.len();
             self.buffered.extend_from_slice(buffer);
-- 
2.43.0


From 79528f02188962b877bb3dfbf9fb314ae9b98ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 18/29] fix: do not lose received data if the source of the
 stream reader fails temporarily

---
 brec/src/packet/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 68cc160..7b50fbb 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -162,7 +162,14 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                // Reading might be continued
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
@@ -199,7 +206,14 @@ impl<
         &mut self,
         mut buffer: Vec<u8>,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                // Reading might be continued
+                self.recent = HeaderReadState::Refill(Some((buffer, 0)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From bd853d6ec309684dade82d251574c208b866af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 19/29] fix: do not lose and miscount data in BufferedReader

---
 brec/src/traits/read/reader.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..22fe864 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -143,8 +143,11 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let data = self.inner.fill_buf()?;
+        let len = data.len();
+        // Previously preloaded data might be still not read
+        self.buffer.extend_from_slice(data);
+        self.inner.consume(len);
         Ok(())
     }
 
@@ -224,18 +227,10 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return;
         }
 
+        self.consumed += amt;
         amt -= buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner.consume(amt);
+        self.inner_len = self.inner_len.saturating_sub(amt);
     }
 }
-- 
2.43.0


From f106a77bfee901e1f2aacc3a21ac95825b19a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 20/29] fix: report a partial or a damaged slot instead of a
 panic

---
 brec/src/storage/slot/header.rs |  6 ++++--
 brec/src/storage/slot/read.rs   | 21 +++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..019dace 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,10 +61,12 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
-            return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
+            return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize() - len));
         }
 
         let mut sig = [0u8; 8];
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..45003c0 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -21,7 +21,8 @@ impl ReadFrom for Slot {
     {
         let header = SlotHeader::read(buf)?;
 
-        let mut lenghts = Vec::with_capacity(header.capacity as usize);
+        // Capacity is not verified yet, memory is requested as data arrives
+        let mut lenghts = Vec::new();
         for _ in 0..header.capacity {
             let mut packet_len = [0u8; 8usize];
             buf.read_exact(&mut packet_len)?;
@@ -60,7 +61,9 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
@@ -68,12 +71,17 @@ impl TryReadFrom for Slot {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
         };
 
-        let needed = SlotHeader::ssize()
-            + header.capacity * std::mem::size_of::<u64>() as u64
-            + std::mem::size_of::<u32>() as u64;
+        let needed = header
+            .capacity
+            .saturating_mul(std::mem::size_of::<u64>() as u64)
+            .saturating_add(SlotHeader::ssize() + std::mem::size_of::<u32>() as u64);
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            if header.capacity != DEFAULT_SLOT_CAPACITY as u64 {
+                // It isn't a slot, which is still not completely written
+                return Err(Error::CrcDismatch);
+            }
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
@@ -90,6 +98,7 @@ impl TryReadFrom for Slot {
         if slot.crc == slot.crc() {
             Ok(ReadStatus::Success(slot))
         } else {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
             Err(Error::CrcDismatch)
         }
     }
-- 
2.43.0


From a9b03484cb74443d846e4650879fd3225df17218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 21/29] fix: continue with the next slots after seeking to a
 packet

---
 brec/src/storage/reader/iters.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..8c4ef56 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,10 +47,12 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
+            let location = RangeInclusive::new(
                 self.offset + slot.size() + packet_offset,
                 self.offset + slot.size() + slot.width(),
-            ));
+            );
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
-- 
2.43.0


From 72bd5848e16d1ed06d3ea4c228fd9289ad926810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 22/29] fix: return available packets and an error instead of a
 panic if a storage is truncated

---
 brec/src/storage/reader/iters.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 8c4ef56..ba95dfe 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -5,6 +5,15 @@ use std::{
 
 use crate::*;
 
+/// Reads data of a slot. If the source is truncated, returns what is left: packets, which are still
+/// complete, have to be available.
+fn read_region<S: std::io::Read>(source: &mut S, size: u64) -> Result<Vec<u8>, Error> {
+    use std::io::Read;
+    let mut data = Vec::new();
+    source.take(size).read_to_end(&mut data)?;
+    Ok(data)
+}
+
 /// Iterator over a sequence of `Slot`s, yielding the byte ranges that contain actual packet data.
 ///
 /// Each iteration returns a `RangeInclusive<u64>` representing the location of the used data region
@@ -136,8 +145,7 @@ impl<
         self.source
             .seek(std::io::SeekFrom::Start(*location.start()))?;
         let size = (location.end() - location.start()) as usize;
-        let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
+        let inner = read_region(self.source, size as u64)?;
         self.buffer = Cursor::new(inner);
         Ok(self)
     }
@@ -169,9 +177,10 @@ impl<
                 return Some(Err(err.into()));
             }
             let size = (location.end() - location.start()) as usize;
-            let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
-            self.buffer = Cursor::new(inner);
+            match read_region(self.source, size as u64) {
+                Ok(inner) => self.buffer = Cursor::new(inner),
+                Err(err) => return Some(Err(err)),
+            }
         }
         match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
             Err(err) => Some(Err(err)),
@@ -262,9 +271,10 @@ impl<
                     return Some(Err(err.into()));
                 }
                 let size = (location.end() - location.start()) as usize;
-                let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
-                self.buffer = Cursor::new(inner);
+                match read_region(self.source, size as u64) {
+                    Ok(inner) => self.buffer = Cursor::new(inner),
+                    Err(err) => return Some(Err(err)),
+                }
             }
             match PacketDef::filtered(&mut self.buffer, self.rules) {
                 Ok(LookInStatus::Accepted(_, packet)) => return Some(Ok(packet)),
-- 
2.43.0


From 66c4b823d9abd5bf5a5bfc8cb14a38d5e7d04f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:17 +0000
Subject: [PATCH 23/29] fix: keep a storage readable if insert of a packet has
 been interrupted

---
 brec/src/storage/locator.rs    | 10 ++++++++
 brec/src/storage/reader/mod.rs |  6 +++++
 brec/src/storage/slot/mod.rs   |  8 ++++++
 brec/src/storage/writer/mod.rs | 46 ++++++++++++++++++++++++----------
 4 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 6eb3e82..24d18a1 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -55,6 +55,16 @@ impl FreeSlotLocator {
         slot.insert(length)
     }
 
+    /// Reverts the last insert into the current slot.
+    ///
+    /// # Arguments
+    /// * `slots` — Mutable slice of slots
+    pub fn revert(&self, slots: &mut [Slot]) {
+        if let Some(slot) = slots.get_mut(self.next) {
+            slot.revert();
+        }
+    }
+
     /// Returns the current slot index and its starting absolute offset.
     pub fn current(&self) -> (usize, u64) {
         (self.next, self.slot_offset)
diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..7d2ebd1 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -57,7 +57,13 @@ impl<
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
                     offset += slot.size() + slot.width();
+                    let full = slot.is_full();
                     self.slots.push(AnchoredSlot::new(slot, position));
+                    if !full {
+                        // Next slot is created only if previous one is full; what follows is
+                        // a packet, which has not been registered in slot
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index 30f7390..bce7346 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -160,6 +160,14 @@ impl Slot {
         self.overwrite_crc();
         Ok(())
     }
+
+    /// Removes the most recently inserted length and updates CRC.
+    pub fn revert(&mut self) {
+        if let Some(last) = self.lenghts.iter_mut().rfind(|ln| **ln > 0) {
+            *last = 0;
+            self.overwrite_crc();
+        }
+    }
 }
 
 impl Default for Slot {
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index e7dce73..06a433d 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -54,7 +54,13 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     offset += slot.size() + slot.width();
+                    let full = slot.is_full();
                     self.slots.push(slot);
+                    if !full {
+                        // Next slot is created only if previous one is full; what follows is
+                        // a packet, which has not been registered in slot
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
@@ -81,34 +87,48 @@ impl<
     /// * `Ok(())` — Packet successfully written
     /// * `Err(Error)` — If no space is found or write fails
     pub fn insert(&mut self, mut packet: PacketDef<B, P, Inner>) -> Result<(), Error> {
+        // Convert the packet into bytes
+        let mut buffer: Vec<u8> = Vec::new();
+        packet.write_all(&mut buffer)?;
         let offset = match self.locator.next(&self.slots) {
             Some(offset) => offset,
             None => {
                 self.slots.push(Slot::default());
-                self.locator
+                let offset = self
+                    .locator
                     .next(&self.slots)
-                    .ok_or(Error::CannotFindFreeSlot)?
+                    .ok_or(Error::CannotFindFreeSlot)?;
+                // Write empty slot first: storage has to be readable at any moment
+                if let Err(err) = self.write_slot() {
+                    self.slots.pop();
+                    return Err(err);
+                }
+                offset
             }
         };
-        // Convert the packet into bytes
-        let mut buffer: Vec<u8> = Vec::new();
-        packet.write_all(&mut buffer)?;
+        // Packet has to be in place before slot refers to it
+        self.inner.seek(std::io::SeekFrom::Start(offset))?;
+        self.inner.write_all(&buffer)?;
+        self.inner.flush()?;
         // Insert length of packet
         self.locator.insert(&mut self.slots, buffer.len() as u64)?;
-        // Get updated slot data
+        if let Err(err) = self.write_slot() {
+            // Packet isn't stored
+            self.locator.revert(&mut self.slots);
+            return Err(err);
+        }
+        Ok(())
+    }
+
+    /// Writes/rewrites the current slot
+    fn write_slot(&mut self) -> Result<(), Error> {
         let (slot_index, slot_offset) = self.locator.current();
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
         let slot = self
             .slots
             .get(slot_index)
             .ok_or(Error::CannotFindFreeSlot)?;
-        // Write/Rewrite slot
+        self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
         slot.write_all(&mut self.inner)?;
-        self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.write_all(&buffer)?;
         self.inner.flush()?;
         Ok(())
     }
-- 
2.43.0


From ffaf850a1a726457d56bbd842166d58f922e53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:36 +0000
Subject: [PATCH 24/29] fix: count and keep all packets on reload of a storage
 reader

---
 brec/src/storage/locator.rs    |   1 +
 brec/src/storage/reader/mod.rs | 105 ++++++++-------------------------
 2 files changed, 26 insertions(+), 80 deletions(-)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 24d18a1..4a21f62 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -72,6 +72,7 @@ impl FreeSlotLocator {
 
     pub fn setup<'a, I: Iterator<Item = &'a Slot>>(&mut self, slots: I) {
         self.next = 0;
+        self.slot_offset = 0;
         for slot in slots {
             if slot.get_free_slot_offset().is_some() {
                 break;
diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 7d2ebd1..9253037 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -83,70 +83,40 @@ impl<
     }
 
     pub fn reload(&mut self) -> Result<usize, Error> {
-        let mut source_pos;
-
-        let last = match self.slots.last().map(|v| (v, v.inner.expand())) {
-            Some((last, (Some(offset), Some(index), crc))) => {
-                source_pos = last.offset;
-                Some((offset, index, crc))
-            }
-            Some((last, (None, None, _))) => {
-                // Slot is full, because no free offset or/and index
-                source_pos = last.offset + last.inner.width() + last.inner.size();
-                None
-            }
-            _ => {
-                // No slots
-                source_pos = 0;
-                None
+        let before = self.count();
+        // Last known slot might be updated if it isn't full
+        let (mut source_pos, mut update) = match self.slots.last() {
+            Some(last) if last.inner.is_full() => {
+                (last.offset + last.inner.width() + last.inner.size(), false)
             }
+            Some(last) => (last.offset, true),
+            None => (0, false),
         };
-        let count = self.slots.len();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
-                    if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
-                    {
-                        if crc == slot.crc {
-                            return Ok(0);
-                        }
-                        if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
-                            lst.inner = slot;
-                            if lst.inner.get_free_slot_index().is_none() {
-                                // Slot is full, move source position to the end of this slot
-                                source_pos += lst.inner.size() + lst.inner.width();
-                            } else {
-                                // Slot has free space, so we can stop here
-                                break;
-                            }
-                        } else {
-                            return Err(Error::AccessSlot(count.saturating_sub(1)));
-                        }
-                    } else {
-                        let position = source_pos;
-                        source_pos += slot.size() + slot.width();
-                        self.slots.push(AnchoredSlot::new(slot, position));
+                    let slot = AnchoredSlot::new(slot, source_pos);
+                    source_pos += slot.size() + slot.width();
+                    let full = slot.inner.is_full();
+                    if update {
+                        self.slots.pop();
+                        update = false;
+                    }
+                    self.slots.push(slot);
+                    if !full {
+                        // Slot has free space, so we can stop here
+                        break;
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-                    match (last.is_none(), self.slots.len() == count) {
-                        (true, true) => {
-                            return Ok(0);
-                        }
-                        (false, true) => {
-                            if needed == SlotHeader::ssize() {
-                                // No space in last slot, no slot after
-                                break;
-                            }
-                            // Cannot read again last slot
-                            return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
-                                needed as usize,
-                            ))));
-                        }
-                        (false, false) | (true, false) => break,
+                    if update {
+                        // Cannot read again last slot
+                        return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
+                            needed as usize,
+                        ))));
                     }
+                    break;
                 }
                 Err(Error::CrcDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::CrcDismatch)));
@@ -157,34 +127,9 @@ impl<
                 Err(err) => return Err(err),
             }
         }
-
-        let read = match (last, self.slots.len() == count, self.slots.last()) {
-            (Some((_, index, _)), true, Some(last)) => {
-                // Last slot has been update, no new slot has been added
-                if let Some(idx) = last.inner.get_free_slot_index() {
-                    idx.saturating_sub(index)
-                } else {
-                    DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                }
-            }
-            (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
-                DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
-            }
-            (None, false, Some(last)) => {
-                // In cases:
-                // - No last slot, but new slots have been added
-                // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
-            }
-            _ => 0,
-        };
         self.locator
             .setup(self.slots.iter().map(|anchored| &anchored.inner));
-        Ok(read)
+        Ok(self.count().saturating_sub(before))
     }
 
     /// Adds a packet filter or processing rule.
-- 
2.43.0


From 76fbdf16d064aef2c566c021066b76cd6d199d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 25/29] hook: small storage slots under cfg(brec_verif)

---
 brec/src/storage/slot/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index bce7346..c584163 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 mod anchored;
 mod header;
 mod read;
@@ -10,7 +11,11 @@ pub(crate) use anchored::*;
 pub(crate) use header::*;
 
 /// Default slot capacity constant.
+#[cfg(not(brec_verif))]
 pub static DEFAULT_SLOT_CAPACITY: usize = 500;
+/// Small slots for symbolic checks (`--cfg brec_verif`).
+#[cfg(brec_verif)]
+pub static DEFAULT_SLOT_CAPACITY: usize = 3;
 /// Signature prefix used to identify serialized slot headers.
 pub static STORAGE_SLOT_SIG: [u8; 8] = [166u8, 177u8, 188u8, 199u8, 199u8, 188u8, 177u8, 166u8];
 
-- 
2.43.0


From cdf252a182f8d19feea94632e5de27c904e57cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:22 +0000
Subject: [PATCH 26/29] fix: reject a damaged text payload instead of replacing
 its bytes

---
 brec/src/payload/defaults/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brec/src/payload/defaults/string.rs b/brec/src/payload/defaults/string.rs
index 4bc1f02..bf25198 100644
--- a/brec/src/payload/defaults/string.rs
+++ b/brec/src/payload/defaults/string.rs
@@ -42,7 +42,9 @@ impl PayloadEncodeReferred for String {
 
 impl PayloadDecode<String> for String {
     fn decode(buf: &[u8]) -> std::io::Result<String> {
-        Ok(String::from_utf8_lossy(buf).to_string())
+        // Lossy conversion would give another content, which CRC of original data doesn't protect
+        String::from_utf8(buf.to_vec())
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::InvalidData, err))
     }
 }
 
-- 
2.43.0


From ec1d325d5cd84a0e4de4411a52d734ef6f1ca6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 27/29] fix: refuse a slot with lengths no storage can have

---
 brec/src/storage/reader/mod.rs |  6 ++++++
 brec/src/storage/slot/mod.rs   | 12 ++++++++++++
 brec/src/storage/writer/mod.rs |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 9253037..b17502f 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -55,6 +55,9 @@ impl<
             self.inner.seek(std::io::SeekFrom::Start(offset))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
+                    if slot.end(offset).is_none() {
+                        return Err(Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)));
+                    }
                     let position = offset;
                     offset += slot.size() + slot.width();
                     let full = slot.is_full();
@@ -96,6 +99,9 @@ impl<
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
+                    if slot.end(source_pos).is_none() {
+                        return Err(Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)));
+                    }
                     let slot = AnchoredSlot::new(slot, source_pos);
                     source_pos += slot.size() + slot.width();
                     let full = slot.inner.is_full();
diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index c584163..ea8775f 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -73,6 +73,18 @@ impl Slot {
         self.lenghts[..free_pos].iter().sum()
     }
 
+    /// Returns the position behind the slot and its packets if the slot begins at `offset`.
+    ///
+    /// Returns `None` if no source can have such a position: lengths of the slot aren't real.
+    pub fn end(&self, offset: u64) -> Option<u64> {
+        self.lenghts
+            .iter()
+            .try_fold(offset.checked_add(self.size())?, |end, ln| {
+                end.checked_add(*ln)
+            })
+            .filter(|end| *end <= i64::MAX as u64)
+    }
+
     /// Returns an iterator over active ranges in the slot.
     pub fn iter(&self) -> SlotIterator<'_> {
         SlotIterator::new(self)
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 06a433d..9dea1bc 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -53,6 +53,9 @@ impl<
             self.inner.seek(std::io::SeekFrom::Start(offset))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
+                    if slot.end(offset).is_none() {
+                        return Err(Error::DamagedSlot(Box::new(Error::UnexpectedSliceLength)));
+                    }
                     offset += slot.size() + slot.width();
                     let full = slot.is_full();
                     self.slots.push(slot);
-- 
2.43.0


From d552df8df836543986047a618a52b629607ece51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 28/29] fix: BufferedReader::read does not lose preloaded bytes
 if the source then fails

---
 brec/src/traits/read/reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index 22fe864..d029f3d 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -177,8 +177,12 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             total_read += to_copy;
         }
         if total_read < buf.len() {
-            let from_inner = self.inner.read(&mut buf[total_read..])?;
-            total_read += from_inner;
+            match self.inner.read(&mut buf[total_read..]) {
+                Ok(from_inner) => total_read += from_inner,
+                Err(err) if total_read == 0 => return Err(err),
+                // Bytes are taken from the preloaded data already: an error would lose them
+                Err(_) => {}
+            }
         }
         self.consumed += total_read;
         Ok(total_read)
-- 
2.43.0


From f6c56fd687074cf12024d54b019486dc43f20782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 29/29] fix: a failed insert does not leave bytes which make a
 full slot unreadable

---
 brec/src/storage/writer/mod.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 9dea1bc..d03ac84 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -114,15 +114,38 @@ impl<
         self.inner.write_all(&buffer)?;
         self.inner.flush()?;
         // Insert length of packet
+        let known = self.slots.len();
         self.locator.insert(&mut self.slots, buffer.len() as u64)?;
-        if let Err(err) = self.write_slot() {
+        if let Err(err) = self
+            .detach_leftovers(offset + buffer.len() as u64)
+            .and_then(|_| self.write_slot())
+        {
             // Packet isn't stored
+            self.slots.truncate(known);
             self.locator.revert(&mut self.slots);
             return Err(err);
         }
         Ok(())
     }
 
+    /// If the current slot becomes full, a next slot is expected behind its packets. An insert,
+    /// which has failed before, might leave there a part of a (longer) packet: an empty slot has to
+    /// be placed in front of it.
+    fn detach_leftovers(&mut self, end: u64) -> Result<(), Error> {
+        let (slot_index, _) = self.locator.current();
+        if !self.slots.get(slot_index).is_some_and(Slot::is_full) {
+            return Ok(());
+        }
+        if self.inner.seek(std::io::SeekFrom::End(0))? > end {
+            let slot = Slot::default();
+            self.inner.seek(std::io::SeekFrom::Start(end))?;
+            slot.write_all(&mut self.inner)?;
+            self.inner.flush()?;
+            self.slots.push(slot);
+        }
+        Ok(())
+    }
+
     /// Writes/rewrites the current slot
     fn write_slot(&mut self) -> Result<(), Error> {
         let (slot_index, slot_offset) = self.locator.current();
-- 
2.43.0

