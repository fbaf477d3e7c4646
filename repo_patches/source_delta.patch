From 24de674f876b746b877cd152e9f857d7f8416e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 01/23] fix: PacketHeader try_read consumes exactly one header
 and only on success

The buffered try_read consumed the 29 header bytes twice (once by read, once
by consume) and the seekable try_read left the position inside a rejected
header.
---
 brec/src/packet/header/read.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..73768c8 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -120,7 +120,13 @@ impl TryReadFrom for PacketHeader {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
@@ -145,8 +151,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = PacketHeader::read_from_slice(bytes, false)?;
         reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(header))
     }
 }
-- 
2.43.0


From 3b3a91ef95d3d72ab38184bda7738c1e118e8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 02/23] fix: packet try_read accounts for the header size and
 restores the position

header.size does not include the 29 header bytes, so a packet truncated by up
to 29 bytes was taken as complete; not-enough-data and payload header errors
left the seekable source in the middle of the packet.
---
 brec/src/packet/read.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..c4aa572 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -88,8 +88,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
             ReadStatus::Success(header) => header,
         };
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let required = header.size.saturating_add(PacketHeader::ssize());
+        if required > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
         let mut pkg = PacketDef::default();
         let mut read = 0;
@@ -121,8 +123,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
@@ -137,10 +139,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
@@ -177,8 +183,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let required = header.size.saturating_add(PacketHeader::ssize());
+        if required > available {
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
         reader.consume(PacketHeader::ssize() as usize);
         let mut pkg = PacketDef::default();
-- 
2.43.0


From 220fc0dd344248f405191659b204aeaef811b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 03/23] fix: payload and payload header try_read restore the
 position on errors

---
 brec/src/payload/header/read.rs    | 10 ++++++++--
 brec/src/payload/header/sreader.rs |  6 ++++++
 brec/src/traits/read/mod.rs        |  8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..46701a0 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(sig_len) {
+            reader.rewind()?;
+            return Err(err);
+        }
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +78,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(crc_len) {
+            reader.rewind()?;
+            return Err(err);
+        }
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..4437a1a 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -110,4 +110,10 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         self.read += capacity;
         Ok(NextChunk::Bytes(dest))
     }
+
+    /// Moves the source back to the position it had when the reader was created.
+    pub fn rewind(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        Ok(())
+    }
 }
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..3a987a9 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -118,7 +118,13 @@ pub trait TryReadPayloadFrom<
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
         }
-        <T as ReadPayloadFrom<T>>::read(buf, header).map(ReadStatus::Success)
+        match <T as ReadPayloadFrom<T>>::read(buf, header) {
+            Ok(value) => Ok(ReadStatus::Success(value)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 33c2b0ee0ccaa351e852892ff1e440e5144fee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 04/23] fix: Slot try_read reports the missing bytes instead of
 underflowing

PacketHeader::ssize() - needed is negative for any slot, so reading a storage
whose last slot is truncated panicked (debug) or reported a bogus count.
---
 brec/src/storage/slot/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..e0dc27b 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -73,7 +73,7 @@ impl TryReadFrom for Slot {
             + std::mem::size_of::<u32>() as u64;
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
-- 
2.43.0


From cbce36fcff28724e08e58e298afd99a1fc8599d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:29 +0000
Subject: [PATCH 05/23] fix: stream and slice readers decode bool fields alike

The stream reader took any non-zero byte as true, the slice reader (and the
packet header) only 1.
---
 brec_macros/src/tokenized/block/read_exact/field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec_macros/src/tokenized/block/read_exact/field/mod.rs b/brec_macros/src/tokenized/block/read_exact/field/mod.rs
index 1b56efb..d01c265 100644
--- a/brec_macros/src/tokenized/block/read_exact/field/mod.rs
+++ b/brec_macros/src/tokenized/block/read_exact/field/mod.rs
@@ -33,7 +33,7 @@ impl ReadExact for Field {
             Ty::Bool => Ok(quote! {
                 let mut #name = [0u8; #len];
                 #src.read_exact(&mut #name)?;
-                let #name = #name[0] != 0;
+                let #name = #name[0] == 1;
             }),
             Ty::Blob(len) => Ok(quote! {
                let mut #name = [0u8; #len];
-- 
2.43.0


From 14a906820e574a39c610303f3c694a26e510cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:29 +0000
Subject: [PATCH 06/23] fix: generated block try_read leaves the position
 unchanged unless it succeeds

---
 brec_macros/src/codegen/read/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..e33a5c1 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -155,9 +155,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(block) => Ok(brec::ReadStatus::Success(block)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
-- 
2.43.0


From 08c6d68e798bc55c9dd95bb60e9c097b6ae86133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:44 +0000
Subject: [PATCH 07/23] fix: generated read_from_slice honours skip_sig when
 locating the fields

With skip_sig the buffer starts right after the signature, but every field was
still read 4 bytes further.
---
 brec_macros/src/codegen/read/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index e33a5c1..f5570cf 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -68,6 +68,8 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    // Fields' offsets are counted from the end of the signature
+                    let #src = if skip_sig { #src } else { &#src[#BLOCK_SIG_LEN..] };
                 });
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
@@ -79,7 +81,9 @@ impl ReadFromSlice for Block {
                 fields.push(field.safe(&src, offset, offset + field.ty.size()));
             }
             fnames.push(format_ident!("{}", field.name));
-            offset += field.ty.size();
+            if field.name != FIELD_SIG {
+                offset += field.ty.size();
+            }
         }
         Ok(quote! {
 
-- 
2.43.0


From d5abf6051bc0c6fcc1ed67bfade2e9081819d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 08/23] fix: Block::read finds every block of the enum, not
 only the first

Each attempt consumed four bytes of the source, so from the second variant on
the signature was looked for four bytes further.
---
 brec_macros/src/collector/blocks/read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..afa1399 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,10 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..], &mut *buf),
+                false,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +28,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // The signature is taken from the source once and given to each block in turn
+                let mut sig = [0u8; 4];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -54,6 +60,9 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                if !skip_sig {
+                    return <Block as brec::ReadFrom>::read(buf);
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From 2593313ef6be37e38c0b6beec908540bffc9787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:43 +0000
Subject: [PATCH 09/23] fix: storage reload keeps the last slot and counts
 packets across slots

When the last known slot got full and another slot followed, the new slot
replaced the last one in memory; the returned count was off by one slot.
---
 brec/src/storage/reader/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..f62f013 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -96,16 +96,19 @@ impl<
             }
         };
         let count = self.slots.len();
+        // The last known slot is read again only once; everything after is a new slot
+        let mut revisit = last.is_some();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
+                        && revisit
                     {
                         if crc == slot.crc {
                             return Ok(0);
                         }
+                        revisit = false;
                         if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
                             lst.inner = slot;
                             if lst.inner.get_free_slot_index().is_none() {
@@ -162,16 +165,21 @@ impl<
                 }
             }
             (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
+                // Last slot has been updated and new slots have been added
                 DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
+                    + last
+                        .inner
+                        .get_free_slot_index()
+                        .unwrap_or(DEFAULT_SLOT_CAPACITY)
+                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
             }
             (None, false, Some(last)) => {
                 // In cases:
                 // - No last slot, but new slots have been added
                 // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
+                last.inner
+                    .get_free_slot_index()
+                    .unwrap_or(DEFAULT_SLOT_CAPACITY)
                     + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
             }
             _ => 0,
-- 
2.43.0


From 75f2d9d749574df2fd76e3d0aa659c9b88796a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:43 +0000
Subject: [PATCH 10/23] fix: iterator positioned by seek continues with the
 next slot

The offset was not moved past the slot holding the packet, so iterating over
the end of that slot read from a wrong position.
---
 brec/src/storage/reader/iters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..84bf5a3 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,10 +47,13 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
+            let location = RangeInclusive::new(
                 self.offset + slot.size() + packet_offset,
                 self.offset + slot.size() + slot.width(),
-            ));
+            );
+            // The rest of this slot is covered, next() goes on with the following slot
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
-- 
2.43.0


From 263903d8b9f765e44bfeef81718e10573d65bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:54 +0000
Subject: [PATCH 11/23] fix: storage iterators report read errors instead of
 panicking

---
 brec/src/storage/reader/iters.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 84bf5a3..6052f09 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -138,7 +138,7 @@ impl<
             .seek(std::io::SeekFrom::Start(*location.start()))?;
         let size = (location.end() - location.start()) as usize;
         let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
+        self.source.read_exact(&mut inner)?;
         self.buffer = Cursor::new(inner);
         Ok(self)
     }
@@ -160,7 +160,6 @@ impl<
     /// Loads the slot's region into an internal buffer and calls `PacketDef::read`.
     /// Returns `None` if all slots are exhausted.
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO: remove unwraps and handle errors properly
         if self.buffer.fill_buf().unwrap().is_empty() {
             let location = self.locator.next()?;
             if let Err(err) = self
@@ -171,7 +170,9 @@ impl<
             }
             let size = (location.end() - location.start()) as usize;
             let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
+            if let Err(err) = self.source.read_exact(&mut inner) {
+                return Some(Err(err.into()));
+            }
             self.buffer = Cursor::new(inner);
         }
         match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
@@ -264,7 +265,9 @@ impl<
                 }
                 let size = (location.end() - location.start()) as usize;
                 let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
+                if let Err(err) = self.source.read_exact(&mut inner) {
+                    return Some(Err(err.into()));
+                }
                 self.buffer = Cursor::new(inner);
             }
             match PacketDef::filtered(&mut self.buffer, self.rules) {
-- 
2.43.0


From 2b7991dad8257e7f0947edeb4a09020282354974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:54 +0000
Subject: [PATCH 12/23] fix: BufferedReader neither drops nor miscounts
 preloaded bytes

refill() discarded what was preloaded before and not consumed yet; consume()
took a wrong number of bytes from the inner reader, or did not count the
preloaded part, when it crossed the end of the preloaded data.
---
 brec/src/traits/read/reader.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..1ee9df5 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -143,8 +143,10 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let bytes = self.inner.fill_buf()?;
+        let len = bytes.len();
+        self.buffer.extend_from_slice(bytes);
+        self.inner.consume(len);
         Ok(())
     }
 
@@ -209,7 +211,7 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
     /// - If `amt` exceeds `self.buffer.len()`, remaining bytes are consumed from `self.inner`.
     ///
     /// This ensures correct tracking of consumed data, preventing repeated reads.
-    fn consume(&mut self, mut amt: usize) {
+    fn consume(&mut self, amt: usize) {
         if self.buffer.is_empty() {
             self.inner.consume(amt);
             self.consumed += amt;
@@ -224,18 +226,10 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return;
         }
 
-        amt -= buf_len;
+        let from_inner = amt - buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner.consume(from_inner);
+        self.inner_len = self.inner_len.saturating_sub(from_inner);
+        self.consumed += amt;
     }
 }
-- 
2.43.0


From 1ef46b84bc05f7a9f5f9cca7830bd3c1249f9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:26 +0000
Subject: [PATCH 13/23] fix: PacketBufReader drops a broken packet and goes on
 with the next one

A packet with too many blocks or a payload that fails to decode was reported
but not consumed, so it was reported again by every following read(); a
header with blocks_len > size panicked.
---
 brec/src/packet/reader.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..7d0c7a3 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -360,15 +360,16 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
-        let blocks_buffer = &packet_buffer[..blocks_len];
+        let Some(blocks_buffer) = packet_buffer.get(..blocks_len) else {
+            return self.drop_and_consume(consume, Err(Error::NotEnoughData(blocks_len)));
+        };
         let mut blocks = Vec::new();
         let mut processed = 0;
         let mut count = 0;
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -404,12 +405,12 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
@@ -418,6 +419,9 @@ impl<
                                 Err(Error::NotEnoughData(needed as usize)),
                             );
                         }
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-- 
2.43.0


From bc9facb0ee0fc7414b1ae7d285f9d5dfc20481ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 14/23] fix: PacketBufReader steps over a damaged packet header

Nothing was consumed on a header CRC error, so every following read() failed
on the same bytes.
---
 brec/src/packet/reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 7d0c7a3..463e251 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -303,7 +303,19 @@ impl<
                     self.inner.consume(available);
                     return Ok(NextPacket::NotEnoughData(needed));
                 }
-                match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
+                let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)
+                {
+                    Ok(state) => state,
+                    Err(err) => {
+                        // Step over the signature of the damaged header, otherwise the next call
+                        // would stumble over it again
+                        let damaged = PacketHeader::get_pos(buffer).unwrap_or(0) + PACKET_SIG.len();
+                        self.rules.ignore(&buffer[..damaged])?;
+                        self.inner.consume(damaged);
+                        return Err(err);
+                    }
+                };
+                match state {
                     PacketHeaderState::NotFound => {
                         let header_len = PacketHeader::ssize() as usize;
                         if available > header_len {
-- 
2.43.0


From a01863f8cd7d2848b500d690335d9e4839f6c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:47 +0000
Subject: [PATCH 15/23] fix: payload header size follows the actual CRC of the
 payload

The collected Payload enum does not forward crc_size() of its variants, so a
packet with a payload whose CRC isn't 4 bytes long was written with wrong
lengths in its header.
---
 brec/src/payload/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..5d43703 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc()?.size() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
-- 
2.43.0


From 32cceca7f8eae3a23c3a813cb69a3b490073bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:01 +0000
Subject: [PATCH 16/23] fix: damaged header met while refilling does not drop
 the retained bytes

An error from the header search discarded the bytes retained from the previous
chunk: they were neither reported as ignored nor searched for the next header.
---
 brec/src/packet/reader.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 463e251..d19cce9 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -179,6 +179,31 @@ impl<
         Ok(ResolveHeaderReady::Resolved(header))
     }
 
+    /// Steps over the signature of a damaged header met while searching with retained bytes.
+    ///
+    /// # Arguments
+    /// * `buffer` — Retained bytes followed by bytes of the inner reader (not consumed yet)
+    /// * `buffered` — Number of retained bytes in `buffer`
+    /// * `err` — Reason why the header cannot be accepted
+    fn skip_damaged_header(
+        &mut self,
+        mut buffer: Vec<u8>,
+        buffered: usize,
+        err: Error,
+    ) -> Result<NextPacket<B, P, Inner>, Error> {
+        let damaged = PacketHeader::get_pos(&buffer).unwrap_or(0) + PACKET_SIG.len();
+        self.rules.ignore(&buffer[..damaged])?;
+        if damaged < buffered {
+            // Rest of retained bytes might have a beginning of the next header
+            buffer.truncate(buffered);
+            buffer.drain(..damaged);
+            self.recent = HeaderReadState::Refill(Some((buffer, 1)));
+        } else {
+            self.inner.consume(damaged - buffered);
+        }
+        Err(err)
+    }
+
     /// Processes buffered data when more input is required to complete header parsing.
     ///
     /// This method is used in cases where an incomplete header was previously encountered.
@@ -203,7 +228,11 @@ impl<
         let buffered = buffer.len();
         // First make attempt to read header without possible litter
         buffer.extend_from_slice(&extracted[..needed]);
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
+        let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer) {
+            Ok(state) => state,
+            Err(err) => return self.skip_damaged_header(buffer, buffered, err),
+        };
+        match state {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
                     self.rules.ignore(&buffer[..*sgmt.start()])?;
@@ -219,7 +248,11 @@ impl<
         // Second, if buffer has litter, header might be in next bytes. Trying all available bytes
         buffer.extend_from_slice(&extracted[needed..]);
         let header_len = PacketHeader::ssize() as usize;
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
+        let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer) {
+            Ok(state) => state,
+            Err(err) => return self.skip_damaged_header(buffer, buffered, err),
+        };
+        match state {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
                     self.rules.ignore(&buffer[..*sgmt.start()])?;
-- 
2.43.0


From 61faa57332d76ca9e0768e6d883bf4a8c8c70b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 17/23] fix: header split over retained bytes is found as soon
 as it is complete

After an unsuccessful search the reader waited for a whole header worth of new
bytes, so a short last packet split over the retained bytes was reported as
litter at the end of the stream.
---
 brec/src/packet/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index d19cce9..3a65739 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -278,7 +278,8 @@ impl<
                     buffer.drain(..(buffer.len() - header_len));
                 }
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                // Retained bytes might end with a beginning of a header: any new byte matters
+                self.recent = HeaderReadState::Refill(Some((buffer, 1)));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -355,11 +356,10 @@ impl<
                             self.rules.ignore(&buffer[..available - header_len])?;
                             self.recent = HeaderReadState::Refill(Some((
                                 buffer[available - header_len..].to_vec(),
-                                header_len,
+                                1,
                             )));
                         } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
+                            self.recent = HeaderReadState::Refill(Some((buffer.to_vec(), 1)));
                         }
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
-- 
2.43.0


From d41f404664a9df6f800552afc7b9ff71a9c1a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 18/23] fix: an I/O error does not lose the bytes
 PacketBufReader retains

---
 brec/src/packet/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 3a65739..19d0022 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -155,7 +155,14 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                // Nothing has been taken: the packet is still waited for
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
@@ -213,7 +220,14 @@ impl<
         mut buffer: Vec<u8>,
         needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                // Nothing has been taken: the retained bytes are still in use
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From ddbe08041fcccacf2ff5cf97de6ea399d2e2db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:12 +0000
Subject: [PATCH 19/23] fix: packet size taken from the stream does not
 overflow in PacketBufReader

---
 brec/src/packet/reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 19d0022..e90fb5f 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -395,13 +395,14 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
-                        if needs > available {
+                        // Size comes from the stream: it might be too big to add anything to it
+                        let rest = available - *sgmt.end();
+                        if packet_size > rest {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
                             self.inner.consume(available);
                             self.recent = HeaderReadState::Ready(Some(header));
-                            return Ok(NextPacket::NotEnoughData(needs - available));
+                            return Ok(NextPacket::NotEnoughData(packet_size - rest));
                         }
                         let consume = Some(*sgmt.end() + header.size as usize);
                         (
-- 
2.43.0


From 4a105cfbd929cf44b61fdaf5a15b7f5d3e53ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:29 +0000
Subject: [PATCH 20/23] fix: keep preloaded bytes when BufferedReader::read
 fails in the inner reader

---
 brec/src/traits/read/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index 1ee9df5..0013fe5 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -172,13 +172,15 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
         if !self.buffer.is_empty() {
             let to_copy = self.buffer.len().min(buf.len());
             buf[..to_copy].copy_from_slice(&self.buffer[..to_copy]);
-            self.buffer.drain(..to_copy);
             total_read += to_copy;
         }
+        let from_buffer = total_read;
         if total_read < buf.len() {
             let from_inner = self.inner.read(&mut buf[total_read..])?;
             total_read += from_inner;
         }
+        // A failed read gives out nothing, so the preloaded bytes are dropped only now
+        self.buffer.drain(..from_buffer);
         self.consumed += total_read;
         Ok(total_read)
     }
-- 
2.43.0


From 7e1044a6d5fbf6100aa569d1260d10c1bf013a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:37 +0000
Subject: [PATCH 21/23] fix: a source positioned past its end is short of data
 instead of underflowing

---
 brec/src/packet/header/read.rs        | 4 +++-
 brec/src/packet/read.rs               | 4 +++-
 brec/src/payload/header/sreader.rs    | 2 +-
 brec/src/storage/slot/header.rs       | 4 +++-
 brec/src/storage/slot/read.rs         | 4 +++-
 brec/src/traits/read/mod.rs           | 4 +++-
 brec_macros/src/codegen/read/block.rs | 2 +-
 7 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 73768c8..2b95743 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,7 +113,9 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index c4aa572..d52b18a 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -82,7 +82,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index 4437a1a..03e3e86 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..045982f 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,7 +61,9 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index e0dc27b..c0baad4 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -60,7 +60,9 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index 3a987a9..f0d016b 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -113,7 +113,9 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index f5570cf..3a97104 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -147,7 +147,7 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
-- 
2.43.0


From 6851dff4442bea1360721dc7fe9c57012e2257d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 22/23] fix: a block field named crc no longer takes the place
 of the stored checksum when a block is read

---
 brec_macros/src/codegen/read/block.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 3a97104..6dc8d45 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -10,6 +10,8 @@ impl Read for Block {
         let mut fnames = Vec::new();
         let sig_len = self.sig_len();
         let src: syn::Ident = format_ident!("buf");
+        // Fields are bound by their names, so the CRC has to be bound by a name no field has
+        let crc = format_ident!("{}", FIELD_CRC);
         for field in self.fields.iter().filter(|f| !f.injected) {
             fields.push(field.read_exact(&src)?);
             fnames.push(format_ident!("{}", field.name));
@@ -31,13 +33,13 @@ impl Read for Block {
 
                         #(#fields)*
 
-                        let mut crc = [0u8; 4];
-                        #src.read_exact(&mut crc)?;
+                        let mut #crc = [0u8; 4];
+                        #src.read_exact(&mut #crc)?;
 
                         let block = #block_name {
                             #(#fnames,)*
                         };
-                        if block.crc() != crc {
+                        if block.crc() != #crc {
                             return Err(brec::Error::CrcDismatch)
                         }
 
@@ -55,6 +57,7 @@ impl ReadFromSlice for Block {
         let block_name = self.name();
         let const_sig = self.const_sig_name();
         let sig_len = self.sig_len();
+        let crc = format_ident!("{}", FIELD_CRC);
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let mut offset = 0usize;
@@ -75,7 +78,6 @@ impl ReadFromSlice for Block {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
                     let #name = <&[u8; #BLOCK_CRC_LEN]>::try_from(&#src[#offset..#offset + #BLOCK_CRC_LEN])?;
-                    let crc = #name;
                 });
             } else {
                 fields.push(field.safe(&src, offset, offset + field.ty.size()));
@@ -118,7 +120,7 @@ impl ReadFromSlice for Block {
                         #(#fnames,)*
                     };
 
-                    if block.crc() != *crc {
+                    if block.crc() != *#crc {
                         return Err(brec::Error::CrcDismatch)
                     }
                     let block: #referred_name <'a> = unsafe { std::mem::transmute(block) };
-- 
2.43.0


From fa78955273938cd238136efdac59a33fa2c65439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:31 +0000
Subject: [PATCH 23/23] fix: run the after_decode hook of a decoded payload

payload/mod.rs promises that after_decode() is always called after decoding,
but no reader called it: a payload type that validates or normalises its data
there was handed out untouched.
---
 brec/src/traits/read/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index f0d016b..0de9c17 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -74,11 +74,12 @@ pub trait ReadPayloadFrom<
         }
         let mut bytes = vec![0u8; header.payload_len()];
         buf.read_exact(&mut bytes)?;
-        let value = T::decode(&bytes)?;
+        let mut value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
             return Err(Error::CrcDismatch);
         }
+        value.after_decode()?;
         Ok(value)
     }
 }
-- 
2.43.0

