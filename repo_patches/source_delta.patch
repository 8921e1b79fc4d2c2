From 38f67f3dac83ba8e450b6bf9b60145dfa22a0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:33 +0000
Subject: [PATCH 01/42] fix: keep the consumed position when a suspended parser
 is resumed

---
 src/lib/xmlparse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..39d0b5d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2942,11 +2942,15 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        // convert in-out parameter `start` from index to pointer
+        let mut start: *const c_char = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        // convert in-out parameter `start` from pointer back to index
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From d76878e1c452515dd28a3e7431de64a9c9b0c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:33 +0000
Subject: [PATCH 02/42] fix: position queries panicked before parsing started
 and at the end of the buffer

---
 src/lib/xmlparse.rs | 57 +++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 39d0b5d..a29004a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -847,14 +847,23 @@ impl XML_ParserStruct {
         }
     }
 
-    // TODO(SJC): add a better err type
-    fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
-        if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
-        {
-            Err(())
-        } else {
-            Ok(p.wrapping_offset_from(self.m_buffer.as_ptr()) as usize)
+    /// Advances `m_position` to the current event, if there is one and
+    /// the position is not already past it.
+    unsafe fn updatePositionToEvent(&mut self) {
+        let positionIdx = match self.m_positionIdx {
+            // nothing has been parsed since the buffer was set up
+            None => return,
+            Some(idx) => idx,
+        };
+        let positionPtr = self.m_buffer.as_ptr().wrapping_add(positionIdx);
+        if !self.m_eventPtr.is_null() && self.m_eventPtr >= positionPtr {
+            (*self.m_encoding).updatePosition(
+                ExpatBufRef::new(positionPtr, self.m_eventPtr),
+                &mut self.m_position,
+            );
+            self.m_positionIdx = Some(
+                self.m_eventPtr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize
+            );
         }
     }
 }
@@ -3025,7 +3034,9 @@ pub unsafe extern "C" fn XML_GetCurrentByteIndex(mut parser: XML_Parser) -> XML_
         return -1;
     }
     if !(*parser).m_eventPtr.is_null() {
-        return ((*parser).m_parseEndByteIndex - ((*parser).m_parseEndIdx - (*parser).buffer_index((*parser).m_eventPtr).unwrap())) as XML_Index;
+        let eventIdx = (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr());
+        return (*parser).m_parseEndByteIndex as XML_Index
+            - ((*parser).m_parseEndIdx as XML_Index - eventIdx as XML_Index);
     }
     if cfg!(feature = "mozilla") {
         return (*parser).m_parseEndByteIndex as XML_Index;
@@ -3105,19 +3116,7 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
-    if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
-        (*(*parser).m_encoding).updatePosition(
-            ExpatBufRef::new(
-                positionPtr,
-                (*parser).m_eventPtr,
-            ),
-            &mut (*parser).m_position,
-        );
-        (*parser).m_positionIdx = Some(
-            (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
-        );
-    }
+    (*parser).updatePositionToEvent();
     (*parser).m_position.lineNumber.wrapping_add(1)
 }
 #[no_mangle]
@@ -3125,19 +3124,7 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
-    if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
-        (*(*parser).m_encoding).updatePosition(
-            ExpatBufRef::new(
-                positionPtr,
-                (*parser).m_eventPtr,
-            ),
-            &mut (*parser).m_position,
-        );
-        (*parser).m_positionIdx = Some(
-            (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
-        );
-    }
+    (*parser).updatePositionToEvent();
     (*parser).m_position.columnNumber
 }
 /* For backwards compatibility with previous versions. */
-- 
2.43.0


From 6c480f52e2f20cdbec4a22c52d8000310919ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:33 +0000
Subject: [PATCH 03/42] fix: big-endian UTF-16 characters U+0080 to U+00FF
 indexed out of bounds

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..09702c2 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1019,7 +1019,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From b25d810e0c343239586f3aaf843c3583a8cbe56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:33 +0000
Subject: [PATCH 04/42] fix: version and encoding of the XML declaration were
 stored on top of each other

---
 src/lib/xmlparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a29004a..383b905 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5256,7 +5256,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
@@ -5267,7 +5267,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
@@ -5306,7 +5306,7 @@ impl XML_ParserStruct {
                         return XML_Error::NO_MEMORY;
                     }
 
-                    storedEncName = self.m_temp2Pool.current_start();
+                    storedEncName = self.m_temp2Pool.finish_string().as_ptr();
                 };
                 result = self.m_handlers.handleUnknownEncoding(storedEncName, self.m_ns, &mut self.m_encoding);
                 self.m_temp2Pool.clear();
-- 
2.43.0


From e5020d0050e316025313b74315348ba2f3160104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:41 +0000
Subject: [PATCH 05/42] fix: the version reported from the XML declaration ran
 on to the end of the declaration

---
 src/lib/xmltok.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 09702c2..c383cc3 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3013,7 +3013,10 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        // the value ends just before its closing quote
+        *versionBuf = val_buf.map(|val| {
+            val.with_end(pseudo_ptr).dec_end((*enc).minBytesPerChar() as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From b88a132fa011cd7992358d95067e346a5612d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:19 +0000
Subject: [PATCH 06/42] fix: child parsers pointed at a default prefix that had
 been moved away

---
 src/lib/xmlparse.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 383b905..55487ac 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1163,8 +1163,10 @@ impl DTD {
         self.standalone.set(false);
     }
 
-    fn try_clone(&self) -> Result<DTD, TryReserveError> {
-        let mut newDtd = DTD {
+    fn try_clone(&self) -> Result<Rc<DTD>, TryReserveError> {
+        // The attribute IDs may point at the `defaultPrefix` of the new DTD,
+        // so it must be at its final address before they are copied
+        let newDtd = Rc::try_new(DTD {
             pool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             entityValuePool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             tables: Default::default(),
@@ -1177,7 +1179,7 @@ impl DTD {
             /* Don't want deep copying for scaffolding */
             scaffold: Rc::clone(&self.scaffold),
             contentStringLen: self.contentStringLen.clone(),
-        };
+        })?;
 
         unsafe {
             let mut new_tables = newDtd.tables.borrow_mut();
@@ -1283,7 +1285,7 @@ impl DTD {
             /* Copy the entity tables. */
             if copyEntityTable(
                 &mut new_tables.generalEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.generalEntities,
             ) == 0
             {
@@ -1291,7 +1293,7 @@ impl DTD {
             }
             if copyEntityTable(
                 &mut new_tables.paramEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.paramEntities,
             ) == 0
             {
@@ -1957,7 +1959,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     let newDtd = if context.is_null() {
         Rc::clone(&oldParser.m_dtd)
     } else {
-        match oldParser.m_dtd.try_clone().and_then(Rc::try_new) {
+        match oldParser.m_dtd.try_clone() {
             Ok(newDtd) => newDtd,
             Err(_) => return ptr::null_mut()
         }
-- 
2.43.0


From 0dbc3f60a6a08e4ce9e0f10ee2b13618ade01eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:49 +0000
Subject: [PATCH 07/42] fix: external entity parsers did not inherit the
 unknown-encoding handler's data

---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 55487ac..abaaf3b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2001,6 +2001,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     (*parser).m_handlers.setExternalEntityRef(oldParser.m_handlers.m_externalEntityRefHandler);
     (*parser).m_handlers.setSkippedEntity(oldParser.m_handlers.m_skippedEntityHandler);
     (*parser).m_handlers.setUnknownEncoding(oldParser.m_handlers.m_unknownEncodingHandler);
+    (*parser).m_handlers.m_unknownEncodingHandlerData = oldParser.m_handlers.m_unknownEncodingHandlerData;
     (*parser).m_handlers.setElementDecl(oldParser.m_handlers.m_elementDeclHandler);
     (*parser).m_handlers.setAttlistDecl(oldParser.m_handlers.m_attlistDeclHandler);
     (*parser).m_handlers.setEntityDecl(oldParser.m_handlers.m_entityDeclHandler);
-- 
2.43.0


From 3bbf3863063b5dd98a897be7a206bb574f6d1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 08/42] fix: an empty first buffer made an external entity's
 text declaration misplaced

---
 src/lib/xmlparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index abaaf3b..c61acb5 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3485,6 +3485,12 @@ unsafe extern "C" fn externalEntityInitProcessor2(
             }
             buf = buf.with_start(next);
         }
+        /* Nothing has been delivered yet: there may still be a byte order mark
+           or a text declaration to come */
+        XML_TOK::NONE if !(*parser).m_parsingStatus.finalBuffer => {
+            *endPtr = buf.as_ptr();
+            return XML_Error::NONE;
+        }
         XML_TOK::PARTIAL => {
             if !(*parser).m_parsingStatus.finalBuffer {
                 *endPtr = buf.as_ptr();
@@ -3532,6 +3538,12 @@ unsafe extern "C" fn externalEntityInitProcessor3(
                 _ => buf = buf.with_start(next),
             }
         }
+        /* Nothing has been delivered after the byte order mark yet: there may
+           still be a text declaration to come */
+        XML_TOK::NONE if !(*parser).m_parsingStatus.finalBuffer => {
+            *endPtr = buf.as_ptr();
+            return XML_Error::NONE;
+        }
         XML_TOK::PARTIAL => {
             if !(*parser).m_parsingStatus.finalBuffer {
                 *endPtr = buf.as_ptr();
-- 
2.43.0


From c852487d99a5e3a0ba6e0a2f71c9cb3fb0b58c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:51 +0000
Subject: [PATCH 09/42] fix: a line end split between two position updates was
 counted twice

---
 src/lib/xmltok.rs      |  3 +++
 src/lib/xmltok_impl.rs | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index c383cc3..e57bb99 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -186,6 +186,9 @@ pub struct Position {
     /* first line and first column are 0 not 1 */
     pub lineNumber: XML_Size,
     pub columnNumber: XML_Size,
+    // The last character counted was a CR: an LF that follows it is part of
+    // the same line end, even if it is counted in a later call
+    pub afterCR: bool,
 }
 
 #[repr(C)]
diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..85d80e6 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1776,6 +1776,12 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
         mut buf: ExpatBufRef,
         mut pos: &mut Position,
     ) {
+        if pos.afterCR && HAS_CHAR!(buf, self) {
+            pos.afterCR = false;
+            if self.byte_type(buf.as_ptr()) == ByteType::LF {
+                buf = buf.inc_start(self.MINBPC() as isize);
+            }
+        }
         while HAS_CHAR!(buf, self) {
             MATCH_LEAD_CASES! {
                 self.byte_type(buf.as_ptr()),
@@ -1790,8 +1796,9 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 ByteType::CR => {
                     (*pos).lineNumber = (*pos).lineNumber.wrapping_add(1);
                     buf = buf.inc_start(self.MINBPC() as isize);
-                    if HAS_CHAR!(buf, self) &&
-                           self.byte_type(buf.as_ptr()) == ByteType::LF {
+                    if !HAS_CHAR!(buf, self) {
+                        pos.afterCR = true;
+                    } else if self.byte_type(buf.as_ptr()) == ByteType::LF {
                         buf = buf.inc_start(self.MINBPC() as isize)
                     }
                     (*pos).columnNumber = -(1 as libc::c_int) as XML_Size
-- 
2.43.0


From e013e31c3dbdfb751e7da4938a625c6a6e042602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:25 +0000
Subject: [PATCH 10/42] fix: half a UTF-16 character after a final CR was
 silently accepted

---
 src/lib/xmlparse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c61acb5..cc53dfb 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6902,8 +6902,11 @@ unsafe extern "C" fn epilogProcessor(
                         return XML_Error::ABORTED;
                     }
                 }
-                *nextPtr = next;
-                return XML_Error::NONE;
+                /* an incomplete character may follow */
+                if next == buf.end() {
+                    *nextPtr = next;
+                    return XML_Error::NONE;
+                }
             }
             XML_TOK::NONE => {
                 *nextPtr = buf.as_ptr();
-- 
2.43.0


From dbf7beea07f20043bceadb73065d4acf86f1e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:49 +0000
Subject: [PATCH 11/42] fix: resuming inside an internal entity lost its CDATA
 state, its checks and the entities around it

---
 src/lib/xmlparse.rs | 152 ++++++++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 70 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index cc53dfb..485cd9c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1424,6 +1424,8 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    // suspended inside a CDATA section of the replacement text
+    pub inCdata: XML_Bool,
 }
 
 pub type Processor = unsafe extern "C" fn(
@@ -4103,7 +4105,11 @@ impl XML_ParserStruct {
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
-                        self.m_processor = Some(cdataSectionProcessor as Processor);
+                        if enc_type.is_internal() {
+                            (*self.m_openInternalEntities).inCdata = true;
+                        } else {
+                            self.m_processor = Some(cdataSectionProcessor as Processor);
+                        }
                         return result_2;
                     }
                 }
@@ -6985,6 +6991,7 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).inCdata = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
         let text_buf = ExpatBufRef::new(
@@ -7016,7 +7023,9 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            // Even when its text has been consumed the entity stays open until the
+            // parser is resumed, as an entity that it references may be unfinished
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
@@ -7059,85 +7068,88 @@ unsafe extern "C" fn internalEntityProcessor(
     mut buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
-    let mut entity: *mut Entity = ptr::null_mut();
-    let mut next: *const c_char = ptr::null();
-    let mut result: XML_Error = XML_Error::NONE;
-    let mut openEntity: *mut OpenInternalEntity = (*parser).m_openInternalEntities;
-    if openEntity.is_null() {
+    if (*parser).m_openInternalEntities.is_null() {
         return XML_Error::UNEXPECTED_STATE;
     }
-    entity = (*openEntity).entity;
-    let text_buf = ExpatBufRef::new(
-        ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
-        (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
-    );
-    /* Set a safe default value in case 'next' does not get set */
-    next = text_buf.as_ptr();
-    if (*entity).is_param {
-        let mut tok =
-            (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
-        result = (*parser).doProlog(
-            EncodingType::Internal,
-            text_buf,
-            tok,
-            next,
-            &mut next,
-            false,
-            true,
-        )
-    } else {
-        /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
-    }
-    if result != XML_Error::NONE {
-        return result;
-    } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+    let mut is_param = false;
+    // Finish the entity that was being processed when the parser was suspended,
+    // and then the entities whose replacement text it was referenced from
+    while !(*parser).m_openInternalEntities.is_null() {
+        let mut openEntity: *mut OpenInternalEntity = (*parser).m_openInternalEntities;
+        let mut entity: *mut Entity = (*openEntity).entity;
+        let mut next: *const c_char = ptr::null();
+        let mut result: XML_Error = XML_Error::NONE;
+        is_param = (*entity).is_param;
+        let text_buf = ExpatBufRef::new(
+            ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
+            (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
+        );
+        /* Set a safe default value in case 'next' does not get set */
+        next = text_buf.as_ptr();
+        if is_param {
+            let mut tok =
+                (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
+            result = (*parser).doProlog(
+                EncodingType::Internal,
+                text_buf,
+                tok,
+                next,
+                &mut next,
+                false,
+                true,
+            )
+        } else {
+            /* XML_DTD */
+            let mut opt_buf = Some(text_buf);
+            if (*openEntity).inCdata {
+                result = doCdataSection(
+                    parser,
+                    EncodingType::Internal,
+                    &mut opt_buf,
+                    &mut next,
+                    false,
+                );
+                (*openEntity).inCdata = opt_buf.is_none();
+            }
+            if let Some(text_buf) = opt_buf {
+                if result == XML_Error::NONE
+                    && (*parser).m_parsingStatus.parsing != XML_Parsing::SUSPENDED
+                {
+                    result = (*parser).doContent(
+                        (*openEntity).startTagLevel,
+                        EncodingType::Internal,
+                        text_buf,
+                        &mut next,
+                        false,
+                    )
+                }
+            }
+        }
+        if result != XML_Error::NONE {
+            return result;
+        }
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
-        } else {
-            (*entity).open = false;
-            (*parser).m_openInternalEntities = (*openEntity).next;
-            /* put openEntity back in list of free instances */
-            (*openEntity).next = (*parser).m_freeInternalEntities;
-            (*parser).m_freeInternalEntities = openEntity
         }
+        (*entity).open = false;
+        (*parser).m_openInternalEntities = (*openEntity).next;
+        /* put openEntity back in list of free instances */
+        (*openEntity).next = (*parser).m_freeInternalEntities;
+        (*parser).m_freeInternalEntities = openEntity
     }
-    if (*entity).is_param {
+    if is_param {
         (*parser).m_processor = Some(prologProcessor as Processor);
-        let tok_0 = (*(*parser).m_encoding).xmlTok(XML_STATE::PROLOG, buf, &mut next);
-        (*parser).doProlog(
-            EncodingType::Normal,
-            buf,
-            tok_0,
-            next,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-            true,
-        )
+        prologProcessor(parser, buf, nextPtr)
+    } else if (*parser).is_child_parser {
+        (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+        externalEntityContentProcessor(parser, buf, nextPtr)
     } else {
         /* XML_DTD */
         (*parser).m_processor = Some(contentProcessor as Processor);
-        /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
-    } /* save one level of indirection */
+        contentProcessor(parser, buf, nextPtr)
+    }
 }
 
 unsafe extern "C" fn errorProcessor(
-- 
2.43.0


From c1ef2c064b4523dc7122b27ad8fb2f36c57c46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:20 +0000
Subject: [PATCH 12/42] fix: parsing went on after a stop in the end-of-CDATA
 handler

---
 src/lib/xmlparse.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 485cd9c..ba686d4 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4918,14 +4918,16 @@ unsafe extern "C" fn cdataSectionProcessor(
         return result;
     }
     if let Some(buf) = opt_buf {
-        if (*parser).is_child_parser {
+        (*parser).m_processor = if (*parser).is_child_parser {
             /* we are parsing an external entity */
-            (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
-            return externalEntityContentProcessor(parser, buf, endPtr);
+            Some(externalEntityContentProcessor as Processor)
         } else {
-            (*parser).m_processor = Some(contentProcessor as Processor);
-            return contentProcessor(parser, buf, endPtr);
+            Some(contentProcessor as Processor)
+        };
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            return result;
         }
+        return (*parser).m_processor.unwrap()(parser, buf, endPtr);
     }
     result
 }
-- 
2.43.0


From 0a7104dec626a8e8cfcc27497514c923a32d02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:38 +0000
Subject: [PATCH 13/42] fix: the not-standalone handler was called for
 references that read no external entity, and twice for those that did

---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index ba686d4..135d08b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6583,10 +6583,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6604,10 +6600,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From ad69dcdaca1e69a984d009615fb4ef3fe5734044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:21 +0000
Subject: [PATCH 14/42] fix: events and errors of an internal entity were
 placed behind the reference to it after a suspension

---
 src/lib/xmlparse.rs | 49 ++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 135d08b..d21ecf2 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -866,6 +866,28 @@ impl XML_ParserStruct {
             );
         }
     }
+
+    /// Advances `m_position` past what has been consumed, but not past the
+    /// reference to an internal entity that the parser was suspended in.
+    unsafe fn updatePositionToConsumed(&mut self) {
+        let positionIdx = self.m_positionIdx.unwrap();
+        let mut end = self.m_bufferStart;
+        if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+            && !self.m_openInternalEntities.is_null()
+            && !self.m_eventPtr.is_null()
+        {
+            let eventIdx =
+                self.m_eventPtr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+            if positionIdx <= eventIdx && eventIdx < end {
+                end = eventIdx;
+            }
+        }
+        (*self.m_encoding).updatePosition(
+            self.m_buffer[positionIdx..end].into(),
+            &mut self.m_position,
+        );
+        self.m_positionIdx = Some(end);
+    }
 }
 
 #[repr(C)]
@@ -2648,11 +2670,7 @@ impl XML_ParserStruct {
                         *
                         * LCOV_EXCL_START
                         */
-                        (*self.m_encoding).updatePosition(
-                            self.m_buffer[self.m_positionIdx.unwrap()..self.m_bufferStart].into(),
-                            &mut self.m_position,
-                        );
-                        self.m_positionIdx = Some(self.m_bufferStart);
+                        self.updatePositionToConsumed();
                         return XML_Status::SUSPENDED;
                     }
                     XML_Parsing::INITIALIZED | XML_Parsing::PARSING => {
@@ -2752,11 +2770,7 @@ impl XML_ParserStruct {
                 _ => {}
             }
         }
-        (*self.m_encoding).updatePosition(
-            self.m_buffer[self.m_positionIdx.unwrap()..self.m_bufferStart].into(),
-            &mut self.m_position,
-        );
-        self.m_positionIdx = Some(self.m_bufferStart);
+        self.updatePositionToConsumed();
         result
     }
 }
@@ -2981,11 +2995,7 @@ impl XML_ParserStruct {
                 _ => {}
             }
         }
-        (*self.m_encoding).updatePosition(
-            self.m_buffer[self.m_positionIdx.unwrap()..self.m_bufferStart].into(),
-            &mut self.m_position,
-        );
-        self.m_positionIdx = Some(self.m_bufferStart);
+        self.updatePositionToConsumed();
 
         #[cfg(feature = "mozilla")]
         {
@@ -4208,7 +4218,14 @@ impl XML_ParserStruct {
                 }
             }
             buf = buf.with_start(next);
-            *eventPP = buf.as_ptr();
+            /* As long as an internal entity is unfinished, its events and errors
+               are at the reference to it */
+            if !(self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+                && matches!(enc_type, EncodingType::Normal)
+                && !self.m_openInternalEntities.is_null())
+            {
+                *eventPP = buf.as_ptr();
+            }
             match self.m_parsingStatus.parsing {
                 XML_Parsing::SUSPENDED => {
                     *nextPtr = next;
-- 
2.43.0


From 7dd11a8ad67907f20cfcf3a58b886883f4118d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:56 +0000
Subject: [PATCH 15/42] fix: a bad pseudo-attribute after the encoding was
 placed where it starts, not where it goes wrong

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index e57bb99..a17a070 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3065,7 +3065,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From 653fdbd0df06ce7c602be036351387c32a75c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:51 +0000
Subject: [PATCH 16/42] fix: an entity declaration with a malformed value was
 reported with a negative length

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d21ecf2..2e9235a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6135,6 +6135,7 @@ impl XML_ParserStruct {
                 }
                 XML_ROLE::ENTITY_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
+                        let valueEventPtr = *eventPP;
                         let mut result_2: XML_Error = storeEntityValue(
                             self,
                             enc_type,
@@ -6148,6 +6149,9 @@ impl XML_ParserStruct {
                             (*self.m_declEntity).textLen = self.m_dtd.entityValuePool.len() as c_int;
                             (*self.m_declEntity).textPtr = self.m_dtd.entityValuePool.finish_string().as_ptr();
                             if self.m_handlers.hasEntityDecl() {
+                                /* An error in the value has already moved the position */
+                                let errorPtr = *eventPP;
+                                *eventPP = valueEventPtr;
                                 *eventEndPP = buf.as_ptr();
                                 self.m_handlers.entityDecl(
                                     (*self.m_declEntity).name,
@@ -6159,6 +6163,7 @@ impl XML_ParserStruct {
                                     ptr::null(),
                                     ptr::null(),
                                 );
+                                *eventPP = errorPtr;
                                 handleDefault = false
                             }
                         } else {
-- 
2.43.0


From 48a5f79360559d94bfa77f57595795cd59150daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:00 +0000
Subject: [PATCH 17/42] fix: malformed UTF-8 was accepted in names

---
 src/lib/xmltok.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index a17a070..876d23c 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -414,6 +414,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
 
     #[inline]
     fn is_name_char(&self, p: *const c_char, n: isize) -> bool {
+        if self.is_invalid_char(p, n) {
+            return false;
+        }
         unsafe {
             match n {
                 2 => {
@@ -446,6 +449,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
     }
     #[inline]
     fn is_nmstrt_char(&self, p: *const c_char, n: isize) -> bool {
+        if self.is_invalid_char(p, n) {
+            return false;
+        }
         unsafe {
             match n {
                 2 => {
-- 
2.43.0


From b0c9922524269a836ca4dd22606fbada59fef3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:55 +0000
Subject: [PATCH 18/42] fix: an empty parameter entity in an entity value was
 reported as malformed

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2e9235a..3c2f38d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5478,6 +5478,10 @@ unsafe extern "C" fn entityValueInitProcessor(
                 XML_TOK::PARTIAL_CHAR => return XML_Error::PARTIAL_CHAR,
                 XML_TOK::NONE | _ => {}
             }
+            if init_buf.is_empty() {
+                /* an empty entity: nothing to store, and no encoding detected */
+                return XML_Error::NONE;
+            }
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         } else {
-- 
2.43.0


From 606ff3b7104177ef33dcb9048d1473c21f5c9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:55 +0000
Subject: [PATCH 19/42] fix: namespace triplets disabled the check for
 duplicate attributes

---
 src/lib/xmlparse.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3c2f38d..e4c7236 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4555,9 +4555,16 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE {
                         return ret;
                     }
+                    let uriName = self.m_tempPool.finish_string().as_ptr();
+                    self.m_nsAtts.insert(HashKey::from(uriName as KEY));
                     if self.m_ns_triplets {
-                        /* append namespace separator and prefix */
-                        self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
+                        /* append namespace separator and prefix, to a copy: the
+                        prefix plays no role in what is a duplicate */
+                        if !self.m_tempPool.append_c_string(uriName)
+                            || !self.m_tempPool.append_char(self.m_namespaceSeparator)
+                        {
+                            return XML_Error::NO_MEMORY;
+                        }
                         s = (*(*b).prefix).name;
                         loop {
                             if !self.m_tempPool.append_char(*s) {
@@ -4569,12 +4576,11 @@ impl XML_ParserStruct {
                                 break;
                             }
                         }
+                        /* store expanded name in attribute list */
+                        self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
+                    } else {
+                        self.m_atts[i].name = uriName;
                     }
-                    if ret != XML_Error::NONE { return ret; }
-                    /* store expanded name in attribute list */
-                    self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
-                    self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
                         i += 1;
-- 
2.43.0


From 9b25f067b435acb7f207f5f7bab3ea7388952dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:11 +0000
Subject: [PATCH 20/42] fix: an undeclared parameter entity cut off the rest of
 an entity value

---
 src/lib/xmlparse.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e4c7236..e41f901 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7475,7 +7475,6 @@ unsafe extern "C" fn storeEntityValue(
                               parser->m_skippedEntityHandler(parser->m_handlerArg, name, 0);
                             */
                             (*parser).m_dtd.keepProcessing.set((*parser).m_dtd.standalone.get());
-                            break;
                         } else if (*entity).open {
                             if !enc_type.is_internal() {
                                 (*parser).m_eventPtr = entityTextBuf.as_ptr();
-- 
2.43.0


From cafa78102474dd86f8a3aa6be8e7834ab83281fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:12 +0000
Subject: [PATCH 21/42] fix: a stop in a callback no processor checks after was
 ignored

---
 src/lib/xmlparse.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e41f901..28248fb 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2675,12 +2675,11 @@ impl XML_ParserStruct {
                     }
                     XML_Parsing::INITIALIZED | XML_Parsing::PARSING => {
                         /* LCOV_EXCL_STOP */
-                        self.m_parsingStatus.parsing = XML_Parsing::FINISHED
+                        self.m_parsingStatus.parsing = XML_Parsing::FINISHED;
+                        return XML_Status::OK;
                     }
-                    _ => {}
+                    XML_Parsing::FINISHED => self.m_errorCode = XML_Error::ABORTED,
                 }
-                /* fall through */
-                return XML_Status::OK;
             }
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2767,7 +2766,13 @@ impl XML_ParserStruct {
                         return result;
                     }
                 }
-                _ => {}
+                XML_Parsing::FINISHED => {
+                    /* stopped by a handler after which no processor checks */
+                    self.m_errorCode = XML_Error::ABORTED;
+                    self.m_eventEndPtr = self.m_eventPtr;
+                    self.m_processor = Some(errorProcessor as Processor);
+                    return XML_Status::ERROR;
+                }
             }
         }
         self.updatePositionToConsumed();
@@ -2992,7 +2997,13 @@ impl XML_ParserStruct {
                         return result;
                     }
                 }
-                _ => {}
+                XML_Parsing::FINISHED => {
+                    /* stopped by a handler after which no processor checks */
+                    self.m_errorCode = XML_Error::ABORTED;
+                    self.m_eventEndPtr = self.m_eventPtr;
+                    self.m_processor = Some(errorProcessor as Processor);
+                    return XML_Status::ERROR;
+                }
             }
         }
         self.updatePositionToConsumed();
@@ -4109,6 +4120,9 @@ impl XML_ParserStruct {
                     } else if self.m_handlers.hasDefault() {
                         reportDefault(self, enc_type, buf.with_end(next));
                     }
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     let mut new_buf = Some(buf.with_start(next));
                     result_2 = doCdataSection(self, enc_type, &mut new_buf, nextPtr, haveMore);
                     next = new_buf.map_or(ptr::null(), |x| x.as_ptr());
-- 
2.43.0


From a0ce6cc9e8b051868481076a0db5f01314525424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:21 +0000
Subject: [PATCH 22/42] fix: removing the default handler in its own callback
 panicked

---
 src/lib/xmlparse.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 28248fb..f4da9e6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7776,16 +7776,12 @@ unsafe extern "C" fn reportDefault(
             convert_res = XmlConvert!(enc, &mut buf, &mut data_buf);
             *eventEndPP = buf.as_ptr();
 
-            let defaultRan = (*parser).m_handlers.default(
+            // the handler may have been removed in its previous call
+            (*parser).m_handlers.default(
                 (*parser).m_dataBuf.as_ptr(),
                 data_buf.as_ptr().wrapping_offset_from((*parser).m_dataBuf.as_ptr()).try_into().unwrap(),
             );
 
-            // Previously unwrapped an Option
-            if !defaultRan {
-                panic!("Expected default handler to be set");
-            }
-
             *eventPP = buf.as_ptr();
             if !(convert_res != super::xmltok::XML_Convert_Result::COMPLETED
                 && convert_res != super::xmltok::XML_Convert_Result::INPUT_INCOMPLETE)
@@ -7795,12 +7791,7 @@ unsafe extern "C" fn reportDefault(
         }
     } else {
         let buf: ExpatBufRef<XML_Char> = buf.into();
-        let defaultRan = (*parser).m_handlers.default(buf.as_ptr(), buf.len().try_into().unwrap());
-
-        // Previously unwrapped an Option
-        if !defaultRan {
-            panic!("Expected default handler to be set");
-        }
+        (*parser).m_handlers.default(buf.as_ptr(), buf.len().try_into().unwrap());
     };
 }
 
-- 
2.43.0


From fd7c7c11943b533155c2e53a6d8cbafed69bb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:57 +0000
Subject: [PATCH 23/42] fix: the doctype name was reported after its memory had
 been reused

---
 src/lib/xmlparse.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index f4da9e6..b5d6c57 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5820,17 +5820,20 @@ impl XML_ParserStruct {
                     self.m_doctypeSysid = ptr::null();
                 }
                 XML_ROLE::DOCTYPE_INTERNAL_SUBSET => {
-                    let startHandlerRan = self.m_handlers.startDoctypeDecl(
-                        self.m_doctypeName,
-                        self.m_doctypeSysid,
-                        self.m_doctypePubid,
-                        1,
-                    );
+                    /* without a name, the handler was set after it had gone by */
+                    if !self.m_doctypeName.is_null() {
+                        let startHandlerRan = self.m_handlers.startDoctypeDecl(
+                            self.m_doctypeName,
+                            self.m_doctypeSysid,
+                            self.m_doctypePubid,
+                            1,
+                        );
 
-                    if startHandlerRan {
                         self.m_doctypeName = ptr::null();
                         self.m_tempPool.clear();
-                        handleDefault = false
+                        if startHandlerRan {
+                            handleDefault = false
+                        }
                     }
                 }
                 XML_ROLE::TEXT_DECL => {
-- 
2.43.0


From 8965c70a15ff9768943fc13d79a174bcf54de5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:31 +0000
Subject: [PATCH 24/42] fix: a failed allocation of a prefix lost the namespace
 declaration

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index b5d6c57..cb6ef24 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7921,6 +7921,9 @@ impl XML_ParserStruct {
                             &name[6] as *const _,
                             Prefix
                         ).0;
+                        if (*id).prefix.is_null() {
+                            return ptr::null_mut();
+                        }
                     }
                     (*id).xmlns = true
                 } else {
-- 
2.43.0


From 28b39b92bc106a773058b04edeb1b21170517e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:59 +0000
Subject: [PATCH 25/42] fix: half a UTF-16 character after a final ] or CR of
 an entity was silently accepted

---
 src/lib/xmlparse.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index cb6ef24..3dd1fd2 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3657,8 +3657,12 @@ impl XML_ParserStruct {
                     if self.m_tagLevel != startTagLevel {
                         return XML_Error::ASYNC_ENTITY;
                     }
-                    *nextPtr = buf.end();
-                    return XML_Error::NONE;
+                    /* half a UTF-16 character may be left */
+                    next = buf.as_ptr().offset((*enc).minBytesPerChar() as isize);
+                    if next == buf.end() {
+                        *nextPtr = next;
+                        return XML_Error::NONE;
+                    }
                 }
                 XML_TOK::NONE => {
                     if haveMore {
@@ -4142,6 +4146,11 @@ impl XML_ParserStruct {
                         *nextPtr = buf.as_ptr();
                         return XML_Error::NONE;
                     }
+                    /* half a UTF-16 character may be left */
+                    let end = buf.end();
+                    let rest = buf.len() % (*enc).minBytesPerChar() as usize;
+                    buf = buf.dec_end(rest);
+                    next = buf.end();
                     if self.m_handlers.hasCharacterData() {
                         if MUST_CONVERT!(enc, buf.as_ptr()) {
                             let dataStart = self.m_dataBuf.as_ptr();
@@ -4163,15 +4172,18 @@ impl XML_ParserStruct {
                        XML_Parsing::SUSPENDED, XML_Parsing::FINISHED?
                     */
                     if startTagLevel == 0 {
-                        *eventPP = buf.end();
+                        *eventPP = end;
                         return XML_Error::NO_ELEMENTS;
                     }
                     if self.m_tagLevel != startTagLevel {
-                        *eventPP = buf.end();
+                        *eventPP = end;
                         return XML_Error::ASYNC_ENTITY;
                     }
-                    *nextPtr = buf.end();
-                    return XML_Error::NONE;
+                    if rest == 0 {
+                        *nextPtr = end;
+                        return XML_Error::NONE;
+                    }
+                    buf = ExpatBufRef::new(next, end);
                 }
                 XML_TOK::DATA_CHARS => {
                     let mut handlers = &self.m_handlers;
-- 
2.43.0


From 34a6e154bab9a08c9953e49fd4d518ea66ac2edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:45 +0000
Subject: [PATCH 26/42] fix: UTF-16 build never advanced past multi-byte UTF-8
 characters when converting text

---
 src/lib/xmltok.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 876d23c..6434067 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -610,7 +610,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[1] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(2);
+                        *from = from.inc_start(2);
                     }
                 }
                 6 => {
@@ -623,7 +623,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[2] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(3);
+                        *from = from.inc_start(3);
                     }
                 }
                 7 => {
@@ -653,7 +653,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                 }
             }
         }
-        if !from.is_empty() {
+        if to.is_empty() && !from.is_empty() {
             res = XML_Convert_Result::OUTPUT_EXHAUSTED
         }
         res
-- 
2.43.0


From d385f4c925ed79d686a55a7186d37ac2573b6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:09 +0000
Subject: [PATCH 27/42] fix: UTF-16 build looped forever on Latin-1 input and
 sign-extended its characters

---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 6434067..6e6a10a 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1928,8 +1928,8 @@ fn latin1_toUtf16(
     mut from: &mut ExpatBufRef,
     to: &mut ExpatBufRefMut<u16>,
 ) -> XML_Convert_Result {
-    while !from.is_empty() && to.is_empty() {
-        to[0] = from[0] as u16;
+    while !from.is_empty() && !to.is_empty() {
+        to[0] = from[0] as u8 as u16;
         to.inc_start(1);
         *from = from.inc_start(1);
     }
-- 
2.43.0


From 3da873d4fddf31253994b2722dab26abc4dbb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:35 +0000
Subject: [PATCH 28/42] fix: UTF-16 build computed a wrong local name offset
 when keeping start tags across buffers

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3dd1fd2..d20bd6c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3432,7 +3432,7 @@ impl XML_ParserStruct {
                 then update it as well, since it will always point into tag->buf
                 */
                 if !tag.name.localPart.is_null() {
-                    tag.name.localPart = (temp).offset(
+                    tag.name.localPart = (temp as *const XML_Char).offset(
                         tag
                             .name
                             .localPart
-- 
2.43.0


From 94dd666877d4a0332ac66109f64f971e05617d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:49 +0000
Subject: [PATCH 29/42] fix: UTF-16 build lost text behind a surrogate pair
 that did not fit the conversion buffer

---
 src/lib/xmltok.rs | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 6e6a10a..fb977ca 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -985,25 +985,20 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
         from: &mut ExpatBufRef,
         to: &mut ExpatBufRefMut<u16>,
     ) -> XML_Convert_Result {
-        let mut res: XML_Convert_Result = XML_Convert_Result::COMPLETED;
         *from = from.with_len(((from.len() as c_long >> 1) << 1) as usize);
-        if from.len() as c_long > ((to.len() as c_long) << 1)
-            && from[from.len()-1] as c_uchar as c_int & 0xf8 == 0xd8
-        {
-            *from = from.dec_end(2);
-            res = XML_Convert_Result::INPUT_INCOMPLETE
-        }
-        while !from.is_empty() && !to.is_empty() {
+        while !from.is_empty() {
+            /* Avoid copying first half only of surrogate */
+            if to.is_empty()
+                || to.len() < 2 && from.len() >= 4 && from[1] as c_uchar as c_int & 0xfc == 0xd8
+            {
+                return XML_Convert_Result::OUTPUT_EXHAUSTED;
+            }
             to[0] = ((from[1] as c_uchar as c_int) << 8
                      | from[0] as c_uchar as c_int) as c_ushort;
             to.inc_start(1);
             *from = from.inc_start(2);
         }
-        if to.is_empty() && !from.is_empty() {
-            XML_Convert_Result::OUTPUT_EXHAUSTED
-        } else {
-            res
-        }
+        XML_Convert_Result::COMPLETED
     }
 }
 
@@ -1159,25 +1154,20 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
         from: &mut ExpatBufRef,
         to: &mut ExpatBufRefMut<u16>,
     ) -> XML_Convert_Result {
-        let mut res: XML_Convert_Result = XML_Convert_Result::COMPLETED;
         *from = from.with_len(((from.len() as c_long >> 1) << 1) as usize);
-        if from.len() as c_long > ((to.len() as c_long) << 1)
-            && from[from.len()-2] as c_uchar as c_int & 0xf8 == 0xd8
-        {
-            *from = from.dec_end(2);
-            res = XML_Convert_Result::INPUT_INCOMPLETE
-        }
-        while !from.is_empty() && !to.is_empty() {
+        while !from.is_empty() {
+            /* Avoid copying first half only of surrogate */
+            if to.is_empty()
+                || to.len() < 2 && from.len() >= 4 && from[0] as c_uchar as c_int & 0xfc == 0xd8
+            {
+                return XML_Convert_Result::OUTPUT_EXHAUSTED;
+            }
             to[0] = ((from[0] as c_uchar as c_int) << 8
                      | from[1] as c_uchar as c_int) as c_ushort;
             to.inc_start(1);
             *from = from.inc_start(2);
         }
-        if to.is_empty() && !from.is_empty() {
-            XML_Convert_Result::OUTPUT_EXHAUSTED
-        } else {
-            res
-        }
+        XML_Convert_Result::COMPLETED
     }
 }
 
-- 
2.43.0


From 6c31a85dd74afc28e29e76b390aa8d3eba79835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:26 +0000
Subject: [PATCH 30/42] fix: xmlwf panicked on file names that are not UTF-8

---
 src/xmlwf/xmlwf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index ba2cc5c..f5d4587 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -35,6 +35,7 @@ use ::rexpat::lib::xmlparse::{
 use ::libc::{exit, malloc, free, memcpy, remove, strlen, strcat, strchr, strcmp, strcpy, strrchr, setvbuf, fputs, _IOFBF};
 
 use ::std::mem::transmute;
+use ::std::os::unix::ffi::OsStringExt;
 
 pub use rexpat::*;
 use libc::{c_char, c_int, c_long, c_uint, c_void, FILE, size_t, fclose, fopen, fputc, fprintf, qsort};
@@ -1563,9 +1564,9 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
 #[main]
 pub fn main() {
     let mut args: Vec<*mut libc::c_char> = Vec::new();
-    for arg in ::std::env::args() {
+    for arg in ::std::env::args_os() {
         args.push(
-            ::std::ffi::CString::new(arg)
+            ::std::ffi::CString::new(arg.into_vec())
                 .expect("Failed to convert argument into CString.")
                 .into_raw(),
         );
-- 
2.43.0


From a4a008f53a7395006519a1342d389f28951880dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:57:49 +0000
Subject: [PATCH 31/42] fix: xmlwf crashed when the output file name could not
 be allocated

---
 src/xmlwf/xmlwf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index f5d4587..2cbf7f5 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -1241,6 +1241,10 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
                     .wrapping_add(2)
                     .wrapping_mul(::std::mem::size_of::<XML_Char>()),
             ) as *mut XML_Char;
+            if outName.is_null() {
+                crate::xmlfile::perror(b"Could not allocate memory\x00".as_ptr() as *const c_char);
+                exit(1i32);
+            }
             strcpy(outName, outputDir);
             strcat(outName, delim);
             strcat(outName, file);
-- 
2.43.0


From 0421f37ea8ef41fcac4f52e2b1590aa342a1bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:09 +0000
Subject: [PATCH 32/42] fix: xmlwf ignored errors writing its output file

---
 src/xmlwf/xmlwf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index 2cbf7f5..6452a4a 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -38,7 +38,7 @@ use ::std::mem::transmute;
 use ::std::os::unix::ffi::OsStringExt;
 
 pub use rexpat::*;
-use libc::{c_char, c_int, c_long, c_uint, c_void, FILE, size_t, fclose, fopen, fputc, fprintf, qsort};
+use libc::{c_char, c_int, c_long, c_uint, c_void, FILE, size_t, fclose, ferror, fopen, fputc, fprintf, qsort};
 
 pub mod codepage;
 pub mod readfilemap;
@@ -1551,7 +1551,11 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
             if outputType == 'm' as i32 {
                 metaEndDocument(parser as *mut c_void);
             }
-            fclose(userData.fp);
+            let writeFailed = ferror(userData.fp) != 0;
+            if fclose(userData.fp) != 0 || writeFailed {
+                crate::xmlfile::perror(outName);
+                result = 0;
+            }
             if result == 0 {
                 remove(outName);
             }
-- 
2.43.0


From 5ce4d255e9d0940f646cc1e501211ee8caa3e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:31 +0000
Subject: [PATCH 33/42] fix: xmlwf -N crashed or reported success when
 notations could not be stored

---
 src/xmlwf/xmlwf.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index 6452a4a..b8de4e4 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -71,6 +71,8 @@ pub struct xmlwfUserData {
     pub fp: *mut FILE,
     pub notationListHead: *mut NotationList,
     pub currentDoctypeName: *const XML_Char,
+    /* Set when running out of memory left the output incomplete */
+    pub incomplete: bool,
 }
 
 pub type XmlwfUserData = xmlwfUserData;
@@ -335,6 +337,13 @@ unsafe extern "C" fn startDoctypeDecl(
 ) {
     let mut data: *mut XmlwfUserData = userData as *mut XmlwfUserData;
     (*data).currentDoctypeName = xcsdup(doctypeName);
+    if (*data).currentDoctypeName.is_null() {
+        fputs(
+            b"Unable to store DOCTYPE for output\n\x00".as_ptr() as *const c_char,
+            stderr,
+        );
+        (*data).incomplete = true;
+    }
 }
 
 unsafe extern "C" fn freeNotations(mut data: *mut XmlwfUserData) {
@@ -387,8 +396,9 @@ unsafe extern "C" fn endDoctypeDecl(mut userData: *mut c_void) {
         notationCount += 1;
         p = (*p).next
     }
-    if notationCount == 0 {
-        /* Nothing to report */
+    if notationCount == 0 || (*data).currentDoctypeName.is_null() {
+        /* Nothing to report, or no name to report it under */
+        freeNotations(data);
         free((*data).currentDoctypeName as *mut c_void);
         (*data).currentDoctypeName = std::ptr::null();
         return;
@@ -403,6 +413,7 @@ unsafe extern "C" fn endDoctypeDecl(mut userData: *mut c_void) {
             b"Unable to sort notations\x00".as_ptr() as *const c_char,
         );
         freeNotations(data);
+        (*data).incomplete = true;
         return;
     }
     p = (*data).notationListHead;
@@ -469,12 +480,14 @@ unsafe extern "C" fn notationDecl(
         b"Unable to store NOTATION for output\n\x00".as_ptr() as *const c_char;
     if entry.is_null() {
         fputs(errorMessage, stderr);
+        (*data).incomplete = true;
         return;
         /* Nothing we can really do about this */
     } /* Safe if it's NULL */
     (*entry).notationName = xcsdup(notationName);
     if (*entry).notationName.is_null() {
         fputs(errorMessage, stderr);
+        (*data).incomplete = true;
         free(entry as *mut c_void);
         return;
     }
@@ -482,6 +495,7 @@ unsafe extern "C" fn notationDecl(
         (*entry).systemId = xcsdup(systemId);
         if (*entry).systemId.is_null() {
             fputs(errorMessage, stderr);
+            (*data).incomplete = true;
             free((*entry).notationName as *mut c_void);
             free(entry as *mut c_void);
             return;
@@ -493,6 +507,7 @@ unsafe extern "C" fn notationDecl(
         (*entry).publicId = xcsdup(publicId);
         if (*entry).publicId.is_null() {
             fputs(errorMessage, stderr);
+            (*data).incomplete = true;
             free((*entry).systemId as *mut c_void);
             free((*entry).notationName as *mut c_void);
             free(entry as *mut c_void);
@@ -1027,6 +1042,7 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
             fp: std::ptr::null_mut(),
             notationListHead: std::ptr::null_mut(),
             currentDoctypeName: std::ptr::null(),
+            incomplete: false,
         };
         init
     };
@@ -1556,6 +1572,9 @@ unsafe fn main_0(mut argc: c_int, mut argv: *mut *mut XML_Char) -> c_int {
                 crate::xmlfile::perror(outName);
                 result = 0;
             }
+            if userData.incomplete {
+                result = 0;
+            }
             if result == 0 {
                 remove(outName);
             }
-- 
2.43.0


From 42b62154f97544afb38b9edee4f46388f8302289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:59:13 +0000
Subject: [PATCH 34/42] fix: xmlwf -N wrote identifiers containing an
 apostrophe in apostrophes

---
 src/xmlwf/xmlwf.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index b8de4e4..2c96132 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -385,6 +385,15 @@ unsafe extern "C" fn notationCmp(mut a: *const c_void, mut b: *const c_void) ->
     return xcscmp((*n1).notationName, (*n2).notationName);
 }
 
+/* Write an identifier in the kind of quotes it does not contain */
+
+unsafe extern "C" fn quotedLiteral(mut fp: *mut FILE, mut s: *const XML_Char) {
+    let quote = if strchr(s, '\'' as i32).is_null() { '\'' } else { '"' } as c_int;
+    fputc(quote, fp);
+    fputs(s, fp);
+    fputc(quote, fp);
+}
+
 unsafe extern "C" fn endDoctypeDecl(mut userData: *mut c_void) {
     let mut data: *mut XmlwfUserData = userData as *mut XmlwfUserData;
     let mut notations: *mut *mut NotationList = 0 as *mut *mut NotationList;
@@ -440,19 +449,15 @@ unsafe extern "C" fn endDoctypeDecl(mut userData: *mut c_void) {
         fputs(b"<!NOTATION \x00".as_ptr() as *const c_char, (*data).fp);
         fputs((**notations.offset(i as isize)).notationName, (*data).fp);
         if !(**notations.offset(i as isize)).publicId.is_null() {
-            fputs(b" PUBLIC \'\x00".as_ptr() as *const c_char, (*data).fp);
-            fputs((**notations.offset(i as isize)).publicId, (*data).fp);
-            fputc('\'' as i32, (*data).fp);
+            fputs(b" PUBLIC \x00".as_ptr() as *const c_char, (*data).fp);
+            quotedLiteral((*data).fp, (**notations.offset(i as isize)).publicId);
             if !(**notations.offset(i as isize)).systemId.is_null() {
                 fputc(' ' as i32, (*data).fp);
-                fputc('\'' as i32, (*data).fp);
-                fputs((**notations.offset(i as isize)).systemId, (*data).fp);
-                fputc('\'' as i32, (*data).fp);
+                quotedLiteral((*data).fp, (**notations.offset(i as isize)).systemId);
             }
         } else if !(**notations.offset(i as isize)).systemId.is_null() {
-            fputs(b" SYSTEM \'\x00".as_ptr() as *const c_char, (*data).fp);
-            fputs((**notations.offset(i as isize)).systemId, (*data).fp);
-            fputc('\'' as i32, (*data).fp);
+            fputs(b" SYSTEM \x00".as_ptr() as *const c_char, (*data).fp);
+            quotedLiteral((*data).fp, (**notations.offset(i as isize)).systemId);
         }
         fputc('>' as i32, (*data).fp);
         fputc('\n' as i32, (*data).fp);
-- 
2.43.0


From bd0efa5c83fcf445accd3782fba419bdb29750be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:59:57 +0000
Subject: [PATCH 35/42] fix: xmlwf -n wrote names in the XML namespace with a
 prefix that cannot be declared

---
 src/xmlwf/xmlwf.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index 2c96132..4d33382 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -32,7 +32,7 @@ use ::rexpat::lib::xmlparse::{
     XML_SetNotationDeclHandler, XML_SetParamEntityParsing, XML_SetProcessingInstructionHandler,
     XML_SetUnknownEncodingHandler, XML_SetUserData, XML_UseParserAsHandlerArg,
 };
-use ::libc::{exit, malloc, free, memcpy, remove, strlen, strcat, strchr, strcmp, strcpy, strrchr, setvbuf, fputs, _IOFBF};
+use ::libc::{exit, malloc, free, memcpy, remove, strlen, strcat, strchr, strcmp, strncmp, strcpy, strrchr, setvbuf, fputs, _IOFBF};
 
 use ::std::mem::transmute;
 use ::std::os::unix::ffi::OsStringExt;
@@ -213,6 +213,19 @@ unsafe extern "C" fn nsattcmp(mut p1: *const c_void, mut p2: *const c_void) -> c
     return strcmp(att1, att2);
 }
 
+/* Names in the XML namespace can only be written with the xml prefix, which
+must not be declared differently and needs no declaration */
+
+unsafe extern "C" fn isXMLNamespace(mut name: *const XML_Char, mut sep: *const XML_Char) -> bool {
+    let xmlNamespace = b"http://www.w3.org/XML/1998/namespace";
+    return sep.wrapping_offset_from(name) as usize == xmlNamespace.len()
+        && strncmp(
+            name,
+            xmlNamespace.as_ptr() as *const c_char,
+            xmlNamespace.len(),
+        ) == 0;
+}
+
 unsafe extern "C" fn startElementNS(
     mut userData: *mut c_void,
     mut name: *const XML_Char,
@@ -225,7 +238,11 @@ unsafe extern "C" fn startElementNS(
     let mut sep: *const XML_Char = 0 as *const XML_Char;
     fputc('<' as i32, fp);
     sep = strrchr(name, '\u{1}' as i32);
-    if !sep.is_null() {
+    if !sep.is_null() && isXMLNamespace(name, sep) {
+        fputs(b"xml:\x00".as_ptr() as *const c_char, fp);
+        fputs(sep.offset(1), fp);
+        nsi = 1
+    } else if !sep.is_null() {
         fputs(b"n1:\x00".as_ptr() as *const c_char, fp);
         fputs(sep.offset(1), fp);
         fputs(b" xmlns:n1\x00".as_ptr() as *const c_char, fp);
@@ -254,7 +271,11 @@ unsafe extern "C" fn startElementNS(
         name = *fresh1;
         sep = strrchr(name, '\u{1}' as i32);
         fputc(' ' as i32, fp);
-        if !sep.is_null() {
+        if !sep.is_null() && isXMLNamespace(name, sep) {
+            fputs(b"xml:\x00".as_ptr() as *const c_char, fp);
+            fputs(sep.offset(1isize), fp);
+            sep = std::ptr::null();
+        } else if !sep.is_null() {
             fprintf(fp, b"n%d:\x00".as_ptr() as *const c_char, nsi);
             fputs(sep.offset(1isize), fp);
         } else {
@@ -278,7 +299,10 @@ unsafe extern "C" fn endElementNS(mut userData: *mut c_void, mut name: *const XM
     fputc('<' as i32, fp);
     fputc('/' as i32, fp);
     sep = strrchr(name, '\u{1}' as i32);
-    if !sep.is_null() {
+    if !sep.is_null() && isXMLNamespace(name, sep) {
+        fputs(b"xml:\x00".as_ptr() as *const c_char, fp);
+        fputs(sep.offset(1isize), fp);
+    } else if !sep.is_null() {
         fputs(b"n1:\x00".as_ptr() as *const c_char, fp);
         fputs(sep.offset(1isize), fp);
     } else {
-- 
2.43.0


From 7bc45048c933b3b1b32b17675c29fafaa0a6fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:48 +0000
Subject: [PATCH 36/42] fix: keep all text of an external parameter entity used
 in an entity value

The tokens scanned before the end of the entity was reached were dropped:
all but the last piece when the entity came in pieces or had a text
declaration.
---
 src/lib/xmlparse.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d20bd6c..0f35f99 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5501,7 +5501,8 @@ unsafe extern "C" fn entityValueInitProcessor(
         (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                /* keep everything from the start: the value is stored in one piece */
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5605,6 +5606,7 @@ unsafe extern "C" fn entityValueProcessor(
     mut buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
+    let start = buf.clone();
     let mut next: *const c_char = buf.as_ptr();
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
@@ -5612,7 +5614,8 @@ unsafe extern "C" fn entityValueProcessor(
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                /* keep everything from the start: the value is stored in one piece */
+                *nextPtr = start.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5626,7 +5629,7 @@ unsafe extern "C" fn entityValueProcessor(
                as valid, and report a syntax error, so we have to skip the BOM
             */
             /* found end of entity value - can store it now */
-            return storeEntityValue(parser, EncodingType::Normal, buf);
+            return storeEntityValue(parser, EncodingType::Normal, start);
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From f124b89eda967bd26ddc67dc78ac90417fa0690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:52:36 +0000
Subject: [PATCH 37/42] fix: do not take a byte order mark for part of an
 entity value

An external parameter entity used in an entity value contributed its BOM
unless the BOM arrived in a buffer of its own.
---
 src/lib/xmlparse.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 0f35f99..099c857 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5490,7 +5490,7 @@ unsafe extern "C" fn externalParEntInitProcessor(
 
 unsafe extern "C" fn entityValueInitProcessor(
     mut parser: XML_Parser,
-    init_buf: ExpatBufRef,
+    mut init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
     let mut buf = init_buf.clone();
@@ -5537,28 +5537,17 @@ unsafe extern "C" fn entityValueInitProcessor(
                 (*parser).m_processor = Some(entityValueProcessor as Processor);
                 return entityValueProcessor(parser, buf.with_start(next), nextPtr);
             } else {
-                /* If we are at the end of the buffer, this would cause XmlPrologTok to
-                   return XML_TOK::NONE on the next call, which would then cause the
-                   function to exit with *nextPtr set to s - that is what we want for other
-                   tokens, but not for the BOM - we would rather like to skip it;
-                   then, when this routine is entered the next time, XmlPrologTok will
-                   return XML_TOK::INVALID, since the BOM is still in the buffer
-                */
-                if tok == XML_TOK::BOM
-                    && next == buf.end()
-                    && !(*parser).m_parsingStatus.finalBuffer
-                {
+                if tok == XML_TOK::BOM {
+                    /* the BOM is not part of the value */
                     *nextPtr = next;
-                    return XML_Error::NONE;
-                } else {
+                    init_buf = init_buf.with_start(next);
+                } else if tok == XML_TOK::INSTANCE_START {
                     /* If we get this token, we have the start of what might be a
                        normal tag, but not a declaration (i.e. it doesn't begin with
                        "<!").  In a DTD context, that isn't legal.
                     */
-                    if tok == XML_TOK::INSTANCE_START {
-                        *nextPtr = next;
-                        return XML_Error::SYNTAX;
-                    }
+                    *nextPtr = next;
+                    return XML_Error::SYNTAX;
                 }
             }
         }
-- 
2.43.0


From acdf3827b452f30f211c65a067b39017fbc378f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:30:15 +0000
Subject: [PATCH 38/42] fix: a cut-off enumerated attribute type leaked into
 the text of the next comment

---
 src/lib/xmlparse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 099c857..cac36c1 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6104,10 +6104,12 @@ impl XML_ParserStruct {
                                 ptr::null(),
                                 (role == super::xmlrole::XML_ROLE::REQUIRED_ATTRIBUTE_VALUE) as c_int,
                             );
-                            self.m_tempPool.clear();
                             handleDefault = false
                         }
                     }
+                    /* The start of an enumerated type may be left if a skipped
+                     * parameter entity ended processing within it */
+                    self.m_tempPool.clear();
                 }
                 XML_ROLE::DEFAULT_ATTRIBUTE_VALUE | XML_ROLE::FIXED_ATTRIBUTE_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
@@ -6159,10 +6161,10 @@ impl XML_ParserStruct {
                                 attVal,
                                 (role == super::xmlrole::XML_ROLE::FIXED_ATTRIBUTE_VALUE) as c_int,
                             );
-                            self.m_tempPool.clear();
                             handleDefault = false
                         }
                     }
+                    self.m_tempPool.clear();
                 }
                 XML_ROLE::ENTITY_VALUE => {
                     if self.m_dtd.keepProcessing.get() {
-- 
2.43.0


From 513f0930d1ffb4ecdd9208821e785dbbaaff7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:26 +0000
Subject: [PATCH 39/42] fix: storing a string from the skipped entity handler
 aborted the process

---
 src/lib/xmlparse.rs |  6 ++----
 src/string_pool.rs  | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index cac36c1..906e0ae 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3744,12 +3744,10 @@ impl XML_ParserStruct {
                                 }
                             }
                         } else if entity.is_null() {
-                            let skippedHandlerRan = self.m_dtd.pool.current_slice(|name| {
+                            let skippedHandlerRan = self.m_dtd.pool.take_current(|name| {
                                 self.m_handlers.skippedEntity(name.as_ptr(), 0)
                             });
 
-                            self.m_dtd.pool.clear_current();
-
                             if !skippedHandlerRan && self.m_handlers.hasDefault() {
                                 if !cfg!(feature = "mozilla") {
                                     reportDefault(self, enc_type, buf.with_end(next));
@@ -6644,7 +6642,7 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                self.m_dtd.pool.current_slice(|name| {
+                                self.m_dtd.pool.take_current(|name| {
                                     self.m_handlers.skippedEntity(name.as_ptr(), 1);
                                 });
                                 handleDefault = false;
diff --git a/src/string_pool.rs b/src/string_pool.rs
index f1726a5..ed5cc53 100644
--- a/src/string_pool.rs
+++ b/src/string_pool.rs
@@ -104,6 +104,26 @@ impl StringPool {
         self.inner().rent(|v| callback(v.borrow().0.as_slice()))
     }
 
+    /// Call callback with the contents of the current BumpVec, and discard them
+    /// afterwards. Unlike with `current_slice`, the callback may store new
+    /// strings in this pool.
+    pub(crate) fn take_current<F, R>(&self, callback: F) -> R
+        where F: FnOnce(&[XML_Char]) -> R
+    {
+        self.inner().rent_all(|pool| {
+            let empty = RentedBumpVec(BumpVec::new_in(&pool.bump));
+            let mut vec = pool.current_bump_vec.replace(empty);
+            let ret = callback(vec.0.as_slice());
+            let mut current = pool.current_bump_vec.borrow_mut();
+            if current.0.capacity() == 0 {
+                // Keep the memory for the next string
+                vec.0.clear();
+                *current = vec;
+            }
+            ret
+        })
+    }
+
     /// Call callback with a mutable buffer of the current BumpVec. This must
     /// be a callback to ensure that we don't (safely) borrow the slice for
     /// longer than it stays vaild.
-- 
2.43.0


From 9aaf5ad887347bb08f9c9fb3d521833eb20bbc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:10:38 +0000
Subject: [PATCH 40/42] fix: after suspending inside a parameter entity, its
 text could close the document type declaration

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 906e0ae..c4b927c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7143,7 +7143,7 @@ unsafe extern "C" fn internalEntityProcessor(
                 next,
                 &mut next,
                 false,
-                true,
+                false,
             )
         } else {
             /* XML_DTD */
-- 
2.43.0


From fb6cd40fd68a3f65f2675eebd4eb9230c21a7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 41/42] fix: text of a CDATA section handed on with
 XML_DefaultCurrent was repeated

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c4b927c..2647f3e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5049,7 +5049,7 @@ unsafe extern "C" fn doCdataSection(
                                 &mut to_buf,
                             );
                             buf = buf.with_start(from_buf.as_ptr());
-                            *eventEndPP = next;
+                            *eventEndPP = buf.as_ptr();
                             handlers.characterData(
                                 &ExpatBufRef::new(
                                     (*parser).m_dataBuf.as_ptr(),
-- 
2.43.0


From 4d2145c80344740cc5fc32e156f59c2fb889b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 42/42] fix: keep the unknown encoding handler across
 XML_ParserReset

---
 src/lib/xmlparse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 2647f3e..9ff9c13 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1797,7 +1797,12 @@ impl XML_ParserStruct {
         self.m_initEncoding = InitEncoding::new(&mut self.m_encoding, ptr::null());
         self.m_encoding = &*self.m_initEncoding.as_ref().unwrap();
         self.m_userData = ptr::null_mut();
-        self.m_handlers = Default::default();
+        // XML_ParserReset keeps the unknownEncodingHandler
+        self.m_handlers = CXmlHandlers {
+            m_unknownEncodingHandler: self.m_handlers.m_unknownEncodingHandler,
+            m_unknownEncodingHandlerData: self.m_handlers.m_unknownEncodingHandlerData,
+            ..Default::default()
+        };
         self.m_handlers.m_externalEntityRefHandlerArg = self as XML_Parser;
         self.m_bufferStart = 0;
         self.m_bufferEnd = 0;
-- 
2.43.0

