From e7170d0359c992499b7e4deba255448634351196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 01/22] fix: do not deliver a buffered message whose time to
 live has elapsed

---
 ipmb/src/bus_controller.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..fb10c1a 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -78,11 +78,12 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        if expire <= now {
+                            continue;
+                        }
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From 96f61dace3d66d071baff479257a6676c7ccb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 02/22] fix: a very large ttl or join timeout overflowed the
 clock and panicked

---
 ipmb/src/bus_controller.rs |  3 ++-
 ipmb/src/lib.rs            |  4 ++--
 ipmb/src/util/mod.rs       | 14 +++++++++++++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index fb10c1a..5a0651e 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -2,6 +2,7 @@ use crate::{
     decode,
     message::{ConnectMessage, ConnectMessageAck},
     platform::IoHub,
+    util::deadline,
     version, EncodedMessage, EndpointID, Error, Label, LabelOp, Message, Remote, Selector,
     SelectorMode,
 };
@@ -72,7 +73,7 @@ impl BusController {
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
                         self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                            .push((deadline(now, remain.selector.ttl), remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..126b270 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -21,7 +21,7 @@ use std::{
     time::{Duration, Instant},
 };
 use type_uuid::Bytes;
-use util::EndpointID;
+use util::{deadline, EndpointID};
 
 mod bus_controller;
 mod errors;
@@ -413,7 +413,7 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        let end = timeout.map(|timeout| deadline(Instant::now(), timeout));
 
         macro_rules! wait {
             () => {
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..d9d2644 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -1,6 +1,9 @@
 use rand::Rng;
 use serde::{Deserialize, Serialize};
-use std::ops::{Bound, RangeBounds};
+use std::{
+    ops::{Bound, RangeBounds},
+    time::{Duration, Instant},
+};
 use type_uuid::Bytes;
 
 #[allow(dead_code)]
@@ -72,3 +75,12 @@ pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<
 
     (offset, size)
 }
+
+/// `start + timeout`, or an instant in the far future when that is not representable.
+pub fn deadline(start: Instant, timeout: Duration) -> Instant {
+    const FAR_FUTURE: Duration = Duration::from_secs(60 * 60 * 24 * 365 * 30);
+
+    start
+        .checked_add(timeout)
+        .unwrap_or_else(|| start + FAR_FUTURE)
+}
-- 
2.43.0


From 883e919e48eb6754aba1c0f6c355c8508dabb1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 03/22] fix: messages with more than four attachments were
 dropped by the receiver

---
 ipmb/src/platform/linux/encoded_message.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..8838952 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -5,6 +5,9 @@ use crate::{
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
+/// The maximum number of descriptors the kernel passes in one message.
+const SCM_MAX_FD: usize = 253;
+
 /// Message layout
 /// | version (magic__major__minor__patch)
 /// | selector_size (u32)
@@ -58,7 +61,7 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                control_len: libc::CMSG_SPACE((SCM_MAX_FD * mem::size_of::<RawFd>()) as _),
             };
 
             // recv payload
-- 
2.43.0


From 6fb57e89aae8230503f24e4857639242ce1bfe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 04/22] fix: objects of a truncated message were leaked

---
 ipmb/src/platform/linux/encoded_message.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 8838952..68512bf 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -77,10 +77,7 @@ impl EncodedMessage {
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
             // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r <= 0 {
                 return Err(Error::Disconnect);
             }
 
@@ -101,6 +98,13 @@ impl EncodedMessage {
                 }
             }
 
+            // The objects received so far are closed
+            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
-- 
2.43.0


From 3a29c3d673824d4f9128cd5d8ff687733b9ba69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 05/22] fix: a joiner with an incompatible version was never
 told so

---
 ipmb/src/platform/linux/encoded_message.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 68512bf..7d72538 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -108,12 +108,18 @@ impl EncodedMessage {
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
-                return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
+                return Err(Error::VersionMismatch(
+                    Version((0, 0, 0)),
+                    objects.pop().map(Remote::new),
+                ));
             }
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                return Err(Error::VersionMismatch(
+                    remote_version,
+                    objects.pop().map(Remote::new),
+                ));
             }
 
             let selector_size_ptr = version_ptr.offset(1);
-- 
2.43.0


From b73cb396a93562889f427e9dbeb96367f0bb708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 06/22] fix: a malformed frame made the receiver read out of
 bounds or panic

---
 ipmb/src/lib.rs                            | 10 ++---
 ipmb/src/platform/linux/encoded_message.rs | 45 ++++++++++++++--------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 126b270..c9662db 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -283,7 +283,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 continue;
                             }
                         }
-                        Err(Error::Disconnect) => {
+                        Err(Error::Timeout) => {
+                            break Err(RecvError::Timeout);
+                        }
+                        // The connection is gone, or was closed because of a malformed frame
+                        Err(_) => {
                             let epoch = *epoch;
                             drop(io_hub_guard);
                             drop(rule);
@@ -322,10 +326,6 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 Rule::Server { .. } => continue,
                             }
                         }
-                        Err(Error::Timeout) => {
-                            break Err(RecvError::Timeout);
-                        }
-                        Err(_) => unreachable!(),
                     }
                 }
                 Rule::Server {
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 7d72538..fb43b9c 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -105,8 +105,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
-            let version_ptr = iov_data.as_ptr() as *const u32;
-            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            iov_data.truncate(r as _);
+            let version_data = read_u32(&iov_data, 0).ok_or(Error::Disconnect)?;
+            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(version_data);
             if magic != 0xFF {
                 return Err(Error::VersionMismatch(
                     Version((0, 0, 0)),
@@ -122,16 +123,18 @@ impl EncodedMessage {
                 ));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
+            let (selector_data, payload_data) =
+                split_frame(&iov_data).ok_or(Error::Disconnect)?;
+            let payload_data = slice::from_raw_parts(payload_data.as_ptr(), payload_data.len());
 
-            // TODO: Check size
-            let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
+            let selector: Selector = decode(selector_data)?;
 
+            let object_count = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or(Error::Disconnect)?;
             let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+                .drain(object_count..)
                 .map(|obj| {
                     let r = MemoryRegion::from_object(obj);
                     r.ref_count_inner(-1);
@@ -139,14 +142,9 @@ impl EncodedMessage {
                 })
                 .collect();
 
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
-
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                payload_data,
                 iov_data,
                 control_data,
                 objects,
@@ -190,6 +188,23 @@ impl EncodedMessage {
     }
 }
 
+fn read_u32(data: &[u8], offset: usize) -> Option<u32> {
+    let bytes = data.get(offset..)?.get(..4)?;
+    Some(u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))
+}
+
+/// Find the selector and the payload of a frame, `None` if it is too short for the sizes it states.
+fn split_frame(data: &[u8]) -> Option<(&[u8], &[u8])> {
+    let selector_size = read_u32(data, 4)? as usize;
+    let selector = data.get(8..)?.get(..selector_size)?;
+
+    let payload_size_offset = 8 + selector_size.align4();
+    let payload_size = read_u32(data, payload_size_offset)? as usize;
+    let payload = data.get(payload_size_offset + 4..)?.get(..payload_size)?;
+
+    Some((selector, payload))
+}
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
-- 
2.43.0


From d0be635e192e11154ca40004ede6c515e9e783f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 07/22] fix: an attached object that is not a memory region
 crashed the receiver

---
 ipmb/src/platform/linux.rs                 | 11 +++++++++++
 ipmb/src/platform/linux/encoded_message.rs |  8 ++++----
 ipmb/src/platform/mod.rs                   | 21 ++++++++++++++++++---
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..f631a0f 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -36,6 +36,17 @@ impl MemoryRegion {
             Some(fd)
         }
     }
+
+    pub(crate) fn obj_size(obj: &Object) -> Option<u64> {
+        unsafe {
+            let mut stat: libc::stat = mem::zeroed();
+            let r = libc::fstat(obj.as_raw(), &mut stat);
+            if r == -1 || stat.st_mode & libc::S_IFMT != libc::S_IFREG {
+                return None;
+            }
+            Some(stat.st_size as _)
+        }
+    }
 }
 
 impl platform::MappedRegion {
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index fb43b9c..57155ca 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -133,14 +133,14 @@ impl EncodedMessage {
                 .len()
                 .checked_sub(selector.memory_region_count as usize)
                 .ok_or(Error::Disconnect)?;
-            let memory_regions: Vec<_> = objects
+            let memory_regions = objects
                 .drain(object_count..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj)?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
+                .collect::<Result<Vec<_>, Error>>()?;
 
             Ok(Self {
                 selector,
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..481538b 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -88,9 +88,19 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MappedRegion::from_object")
+    }
+
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            #[cfg(target_os = "linux")]
+            let obj_size = Self::obj_size(&obj).ok_or(Error::MemoryRegionMapping)?;
+            #[cfg(target_os = "linux")]
+            if obj_size < Self::header_length() as u64 {
+                return Err(Error::MemoryRegionMapping);
+            }
+
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -99,6 +109,11 @@ impl MemoryRegion {
                 .cast::<u64>()
                 .read_unaligned();
 
+            #[cfg(target_os = "linux")]
+            if buffer_size > obj_size - Self::header_length() as u64 {
+                return Err(Error::MemoryRegionMapping);
+            }
+
             Self {
                 header,
                 buffer_size,
@@ -108,7 +123,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From 35ffd46c24e7fd4ed5792f3791c28235c473083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 08/22] fix: a range outside of the memory region was mapped or
 panicked instead of being refused

---
 ipmb-ffi/src/lib.rs      |  2 +-
 ipmb/src/platform/mod.rs | 22 +++++++++++++++++-----
 ipmb/src/util/mod.rs     | 11 ++++++-----
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..8013e06 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -406,7 +406,7 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        region.map(offset..offset.saturating_add(size as usize))
     }
     .map(|v| {
         if !real_size.is_null() {
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 481538b..81452e8 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -131,11 +131,23 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
-        let real_offset = Self::header_length() + offset;
+        let (offset, size) =
+            util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
+        let remain = self
+            .buffer_size()
+            .checked_sub(offset as u64)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let size = size.unwrap_or_else(|| usize::try_from(remain).unwrap_or(usize::MAX));
+        if size as u64 > remain {
+            return Err(Error::MemoryRegionMapping);
+        }
+        // The system doesn't map an empty range
+        if size == 0 {
+            return Ok(&mut []);
+        }
+        let real_offset = Self::header_length()
+            .checked_add(offset)
+            .ok_or(Error::MemoryRegionMapping)?;
 
         let need_remap = self
             .buffer
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index d9d2644..59bfcc4 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -61,19 +61,20 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the range is inverted or its bounds overflow.
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
     let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
+        Bound::Included(&bound) => Some(bound.checked_add(1)?.checked_sub(offset)?),
+        Bound::Excluded(&bound) => Some(bound.checked_sub(offset)?),
         Bound::Unbounded => None,
     };
 
-    (offset, size)
+    Some((offset, size))
 }
 
 /// `start + timeout`, or an instant in the far future when that is not representable.
-- 
2.43.0


From d03d848793ddd9dbd70b04ab9213ab1749f2a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 09/22] fix: allocating a very large region panicked instead of
 failing

---
 ipmb/src/memory_registry.rs | 2 +-
 ipmb/src/platform/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..92517be 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,7 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        for (_, rs) in self.inner.range_mut(min_size..min_size.saturating_mul(2)) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 81452e8..cd1ec08 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -61,7 +61,7 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-- 
2.43.0


From a986a18dc7c0452bb421aba92e45fafeb5c8d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 10/22] fix: the free callback was called for a memory region
 still in use

---
 ipmb/src/memory_registry.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 92517be..5489659 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -67,13 +67,13 @@ impl MemoryRegistry {
     fn maintain_inner(&mut self, now: Instant) {
         self.inner.retain(|_, rs| {
             rs.retain_mut(|r| {
-                let should_retain = (now - r.last_alloc) < Duration::from_secs(5);
-
-                if r.region.ref_count() == 1 {
-                    r.guard = Guard { free: None };
+                // Dropping an entry runs its free callback, so keep those still in use
+                if r.region.ref_count() != 1 {
+                    return true;
                 }
+                r.guard = Guard { free: None };
 
-                should_retain
+                (now - r.last_alloc) < Duration::from_secs(5)
             });
             !rs.is_empty()
         });
-- 
2.43.0


From 7bb0b48a5b3e6d74f5b4b8d9bd956895aaf1b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 11/22] fix: the timeout of a wait was truncated, a long one
 could even become infinite

---
 ipmb/src/platform/linux/io_mul.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..1122ea5 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -45,7 +45,11 @@ impl IoMultiplexing {
                 events.as_mut_ptr(),
                 events.capacity() as _,
                 timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
+                    .map(|tot| {
+                        // Round up, don't wake before the timeout
+                        let ms = (tot.as_nanos() + 999_999) / 1_000_000;
+                        ms.min(ffi::c_int::MAX as u128) as ffi::c_int
+                    })
                     .unwrap_or(-1),
             );
             if n < 1 {
-- 
2.43.0


From 99cb8074e0860727b9e4614b00343f7b17f82168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 12/22] fix: irrelevant messages, wakeups and signals restarted
 or cut short the receive timeout

---
 ipmb/src/lib.rs            |  3 +++
 ipmb/src/platform/linux.rs | 15 +++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index c9662db..e99ad53 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -203,7 +203,10 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        let end = timeout.map(|timeout| deadline(Instant::now(), timeout));
+
         loop {
+            let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index f631a0f..cee6253 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -1,5 +1,7 @@
 use crate::{
-    message, platform, util::Align4, version, EndpointID, Error, Label, LabelOp, MemoryRegion,
+    message, platform,
+    util::{deadline, Align4},
+    version, EndpointID, Error, Label, LabelOp, MemoryRegion,
     Message, MessageBox, Object, Selector,
 };
 pub(crate) use encoded_message::EncodedMessage;
@@ -11,7 +13,7 @@ use std::{
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 mod encoded_message;
@@ -304,6 +306,7 @@ impl IoHub {
         remote: Option<&Remote>,
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
+        let end = timeout.map(|timeout| deadline(Instant::now(), timeout));
 
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
@@ -318,10 +321,14 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            let remain = end.map(|end| end.saturating_duration_since(Instant::now()));
+            self.im.wait(&mut self.in_buffer, remain);
 
             if self.in_buffer.is_empty() {
-                break Err(Error::Timeout);
+                // Otherwise the wait was interrupted
+                if end.map_or(false, |end| end <= Instant::now()) {
+                    break Err(Error::Timeout);
+                }
             }
 
             for ev in self.in_buffer.drain(..) {
-- 
2.43.0


From f134edcc96c8e3cbde71561cace3a4ba36f00201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 13/22] fix: an empty payload given as a null pointer was
 undefined behaviour

---
 ipmb-ffi/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 8013e06..c468853 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -282,7 +282,11 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    let data = if ptr.is_null() {
+        vec![]
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0


From 020ff442b17d8df5c2644d0a129de547e4b7a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 14/22] fix: a payload replaced after creating the message was
 sent with the type of the old one

---
 ipmb/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index e99ad53..4d3758d 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -125,6 +125,8 @@ impl<T> Clone for EndpointSender<T> {
 
 impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
+        // The payload may have been replaced since the message was created
+        msg.selector.uuid = msg.payload.uuid();
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
         let mut msg = msg.into_encoded();
 
-- 
2.43.0


From 245bf355b26362c3dfe4a55542d4c1f7750ada1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 15/22] fix: join ignored its timeout while the identifier was
 in use but not being listened on

---
 ipmb/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4d3758d..311a282 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -422,7 +422,10 @@ impl Rule {
 
         macro_rules! wait {
             () => {
-                let mut wait = Duration::from_secs(2);
+                wait!(Duration::from_secs(2))
+            };
+            ($wait: expr) => {
+                let mut wait = $wait;
                 if let Some(end) = end {
                     let remain = end.saturating_duration_since(Instant::now());
                     if remain.is_zero() {
@@ -491,7 +494,10 @@ impl Rule {
                             };
                             break rule;
                         }
-                        Err(Error::IdentifierInUse) => {}
+                        // Another endpoint is about to listen, look up again soon
+                        Err(Error::IdentifierInUse) => {
+                            wait!(Duration::from_millis(10));
+                        }
                         Err(Error::PermissionDenied) => {
                             permission_denied_count += 1;
                             if permission_denied_count > 5 {
-- 
2.43.0


From 5309a858e188cda9e1ffdda9779f6a76662757ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 16/22] fix: a send interrupted by a signal was taken for a
 disconnect

---
 ipmb/src/platform/linux/encoded_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 57155ca..92ac355 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -175,7 +175,12 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+        let r = loop {
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+            if r != -1 || io::Error::last_os_error().kind() != io::ErrorKind::Interrupted {
+                break r;
+            }
+        };
         if r == -1 {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
-- 
2.43.0


From 25777666fe5855a85d3bab4945473d77f6e5b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 17/22] fix: relayed messages were sent with uninitialized
 control data

The control buffer is larger than the control data received, and the
controller relays the whole of it. Whatever the allocator left behind was
taken as control messages, and the kernel may refuse them, in which case
the receiver is taken for disconnected.
---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 92ac355..31567f4 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -81,6 +81,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // Only the received part is initialized
+            control_data.truncate(hdr.msg_controllen as _);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From 00a4ccda799fccc06c295bef725a8679f2d194d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 18/22] fix: a malformed string length made the receiver panic
 or run out of memory

---
 ipmb/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 311a282..e1d4e8b 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -74,9 +74,10 @@ pub enum SelectorMode {
 }
 
 pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
+    // Without a limit a malformed string length is allocated before the data is found to be shorter
+    let config = bincode::config::standard().with_limit::<{ 1 << 30 }>();
     let (d, _): (T, _) =
-        bincode::serde::borrow_decode_from_slice(data, bincode::config::standard())
-            .map_err(Error::Decode)?;
+        bincode::serde::borrow_decode_from_slice(data, config).map_err(Error::Decode)?;
     Ok(d)
 }
 
-- 
2.43.0


From b21519990b0f7df375a856763b72ebdc75424197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 19/22] fix: a deeply nested label expression in a frame
 overflowed the receiver's stack

---
 ipmb/src/label.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 7b079af..41be8c3 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -1,7 +1,7 @@
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize};
 use smallvec::SmallVec;
 use smol_str::SmolStr;
-use std::{iter, ops::Not};
+use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
 pub struct Label(SmallVec<[SmolStr; 8]>);
@@ -71,9 +71,36 @@ pub enum LabelOp {
     True,
     False,
     Leaf(SmolStr),
-    Not(Box<Self>),
-    And(Box<Self>, Box<Self>),
-    Or(Box<Self>, Box<Self>),
+    Not(#[serde(deserialize_with = "deserialize_nested")] Box<Self>),
+    And(
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+    ),
+    Or(
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+    ),
+}
+
+/// Deeper nested expressions are not decoded, they could overflow the stack.
+const MAX_NESTING: usize = 512;
+
+fn deserialize_nested<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Box<LabelOp>, D::Error> {
+    thread_local! {
+        static NESTING: Cell<usize> = const { Cell::new(0) };
+    }
+
+    let nesting = NESTING.get();
+    if nesting >= MAX_NESTING {
+        return Err(de::Error::custom("label expression nested too deeply"));
+    }
+
+    NESTING.set(nesting + 1);
+    let r = Box::<LabelOp>::deserialize(deserializer);
+    NESTING.set(nesting);
+    r
 }
 
 impl LabelOp {
-- 
2.43.0


From 6d8023d3dd6c0cb25533c509785918d5af2a7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 20/22] fix: a sender noticing a loss waited for the lock of a
 receiver that had already joined again

---
 ipmb/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index e1d4e8b..cbbce04 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     sync::{
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, Mutex, RwLock, TryLockError,
     },
     thread,
     time::{Duration, Instant},
@@ -147,7 +147,15 @@ impl<T: MessageBox> EndpointSender<T> {
                         let epoch = *epoch;
                         drop(rule);
 
-                        let mut rule = self.rule.write().unwrap();
+                        // The receiver may have joined again already and be waiting with the lock held
+                        let mut rule = match self.rule.try_write() {
+                            Ok(rule) => rule,
+                            Err(TryLockError::WouldBlock) => {
+                                thread::sleep(Duration::from_millis(1));
+                                continue;
+                            }
+                            Err(TryLockError::Poisoned(err)) => panic!("{err}"),
+                        };
                         match &mut *rule {
                             Rule::Client {
                                 endpoint_id: _,
-- 
2.43.0


From 037d9c610048dfdf80f687d8f601fb833d457fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 21/22] fix: an endpoint that left was not noticed until
 something was sent to it

A hang-up sets no socket error, so the periodic check never found it dead
and its connection stayed open and routable.
---
 ipmb/src/platform/linux/fd.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index a3ffe26..d9df424 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -58,10 +58,17 @@ impl Remote {
         };
 
         if r == -1 || err != 0 {
-            true
-        } else {
-            false
+            return true;
         }
+
+        // A peer that closed its end without leaving unread data sets no error
+        let mut poll_fd = libc::pollfd {
+            fd: self.v,
+            events: 0,
+            revents: 0,
+        };
+        let r = unsafe { libc::poll(&mut poll_fd, 1, 0) };
+        r == 1 && poll_fd.revents & (libc::POLLHUP | libc::POLLERR | libc::POLLNVAL) != 0
     }
 }
 
-- 
2.43.0


From 03a69a59c37f333d2ca7a459d98b8ad78f70c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 22/22] fix: a receive that loses the connection joins again
 within its timeout

---
 ipmb/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index cbbce04..dc73258 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -217,8 +217,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
         let end = timeout.map(|timeout| deadline(Instant::now(), timeout));
 
         loop {
-            let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
             let rule = self.rule.read().unwrap();
+            let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -234,6 +234,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         drop(rule);
 
                         let mut rule = self.rule.write().unwrap();
+                        let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
                         match &mut *rule {
                             Rule::Client {
                                 endpoint_id: _,
@@ -307,6 +308,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             drop(rule);
 
                             let mut rule = self.rule.write().unwrap();
+                            let timeout =
+                                end.map(|end| end.saturating_duration_since(Instant::now()));
                             match &mut *rule {
                                 Rule::Client {
                                     endpoint_id: _,
-- 
2.43.0

