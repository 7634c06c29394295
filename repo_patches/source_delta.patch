From a6ef9b70d132316863a37b8faef9f4468bdeb725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 01/59] storage: guarded window for deterministic simulation
 (cfg cathlamet_sim)

---
 src/storage/mod.rs       |  14 +++++
 src/storage/sim_hooks.rs | 120 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 134 insertions(+)
 create mode 100644 src/storage/sim_hooks.rs

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..a995cdd 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -20,6 +20,9 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+// cathlamet_sim is set when building for deterministic simulation, see sim_hooks
+#![allow(unexpected_cfgs)]
+
 use std::path::{Path, PathBuf};
 use std::primitive::u32;
 
@@ -27,6 +30,9 @@ use super::errors;
 
 mod utils;
 
+#[cfg(cathlamet_sim)]
+pub mod sim_hooks;
+
 // Magic number used to identify a valid volume header block
 const VOLUME_HEADER_FORMAT_MAGIC: u32 = 0xCA78;
 
@@ -634,11 +640,19 @@ impl VolumeManager {
 
     // Write buffer contents to external storage
     async fn fetch(&self, location: Location, buffer: &mut[u8]) -> std::io::Result<()> {
+        #[cfg(cathlamet_sim)]
+        return sim_hooks::fetch(location, buffer).await;
+
+        #[cfg(not(cathlamet_sim))]
         unimplemented!()
     }
 
     // Read buffer contents from external storage
     async fn store(&self, location: Location, buffer: &[u8]) -> std::io::Result<()> {
+        #[cfg(cathlamet_sim)]
+        return sim_hooks::store(location, buffer).await;
+
+        #[cfg(not(cathlamet_sim))]
         unimplemented!()
     }
 }
diff --git a/src/storage/sim_hooks.rs b/src/storage/sim_hooks.rs
new file mode 100644
index 0000000..52cca41
--- /dev/null
+++ b/src/storage/sim_hooks.rs
@@ -0,0 +1,120 @@
+// Window for the deterministic simulation in which the storage layer is
+// checked; only compiled with `--cfg cathlamet_sim`. It adds no behaviour of its
+// own: it makes the private page cache and volume manager callable from outside
+// of this module and lets a simulated block device stand in for the device
+// access that is still missing.
+
+use std::future::Future;
+use std::path::Path;
+use std::pin::Pin;
+use std::rc::Rc;
+use std::sync::Arc;
+
+use super::*;
+
+pub type DeviceFuture<'a> = Pin<Box<dyn Future<Output = std::io::Result<()>> + 'a>>;
+
+/// Stand-in for the storage devices behind all volumes
+pub trait Device {
+    fn read<'a>(&'a self, volume: u8, offset: u64, buffer: &'a mut [u8]) -> DeviceFuture<'a>;
+    fn write<'a>(&'a self, volume: u8, offset: u64, buffer: &'a [u8]) -> DeviceFuture<'a>;
+}
+
+thread_local! {
+    static DEVICE: std::cell::RefCell<Option<Rc<dyn Device>>> = std::cell::RefCell::new(None);
+}
+
+/// Set the device used by all pools on this thread
+pub fn set_device(device: Option<Rc<dyn Device>>) {
+    DEVICE.with(|d| *d.borrow_mut() = device);
+}
+
+fn device() -> Rc<dyn Device> {
+    DEVICE.with(|d| d.borrow().clone().expect("no simulated device"))
+}
+
+pub(super) async fn fetch(location: Location, buffer: &mut [u8]) -> std::io::Result<()> {
+    let device = device();
+    let VolumeIndex(volume) = location.index();
+    device.read(volume, location.offset(), buffer).await
+}
+
+pub(super) async fn store(location: Location, buffer: &[u8]) -> std::io::Result<()> {
+    let device = device();
+    let VolumeIndex(volume) = location.index();
+    device.write(volume, location.offset(), buffer).await
+}
+
+/// A page cache together with the backing store it reads from
+pub struct SimPool {
+    pool: Arc<BufferPool>,
+    _backing_store: Arc<VolumeManager>,
+}
+
+impl SimPool {
+    pub fn new(buffer_size: usize, num_buffers: usize) -> std::io::Result<SimPool> {
+        let mut pool = BufferPool::new(buffer_size, num_buffers)?;
+        let backing_store = Arc::new(VolumeManager::new(&pool));
+        pool.set_backing_store(&backing_store);
+        Ok(SimPool { pool: Arc::new(pool), _backing_store: backing_store })
+    }
+
+    pub fn total_size(&self) -> usize {
+        self.pool.total_size()
+    }
+
+    pub async fn access_read_only<'a>(&'a self, volume: u8, offset: u64) -> SimRead<'a> {
+        SimRead(self.pool.access_read_only(Location::new(VolumeIndex(volume), offset)).await)
+    }
+
+    pub async fn access_read_write<'a>(&'a self, volume: u8, offset: u64) -> SimWrite<'a> {
+        SimWrite(self.pool.access_read_write(Location::new(VolumeIndex(volume), offset)).await)
+    }
+
+    pub async fn access_initialize<'a>(&'a self, volume: u8, offset: u64) -> SimWrite<'a> {
+        SimWrite(self.pool.access_initialize(Location::new(VolumeIndex(volume), offset)).await)
+    }
+}
+
+pub struct SimRead<'a>(ReadOnlyBufferHandle<'a>);
+
+impl<'a> SimRead<'a> {
+    pub fn bytes(&self) -> &'a [u8] {
+        self.0.buffer_ref()
+    }
+
+    pub async fn release(&mut self) {
+        self.0.release().await
+    }
+}
+
+pub struct SimWrite<'a>(ReadWriteBufferHandle<'a>);
+
+impl<'a> SimWrite<'a> {
+    pub fn bytes(&self) -> &'a [u8] {
+        self.0.buffer_ref()
+    }
+
+    pub fn bytes_mut(&mut self) -> &'a mut [u8] {
+        self.0.buffer_mut()
+    }
+
+    pub async fn release(&mut self) {
+        self.0.release().await
+    }
+}
+
+/// A volume manager that creates volumes through a page cache
+pub struct SimManager(VolumeManager);
+
+impl SimManager {
+    pub fn new(pool: &SimPool) -> SimManager {
+        let mut manager = VolumeManager::new(&pool.pool);
+        manager.set_buffer_pool(&pool.pool);
+        SimManager(manager)
+    }
+
+    pub async fn create(&mut self, path: &Path, parameters: &VolumeParameters) -> std::io::Result<u8> {
+        self.0.create(path, parameters).await.map(|VolumeIndex(index)| index)
+    }
+}
-- 
2.43.0


From 1eaf4cd54551a6cf0080914d5990a14535b4a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 02/59] fix: creating a buffer pool underflows when linking the
 first buffer

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a995cdd..09ce758 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -826,7 +826,7 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            buffers[index].link.prev = index.wrapping_sub(1) as BufferIndex;
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-- 
2.43.0


From 4670fe53705fa473f81215f2544527c50f26549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:15 +0000
Subject: [PATCH 03/59] fix: a buffer being accessed stays on the list of
 available buffers

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 09ce758..5192f8f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -956,7 +956,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From e1468226d880c97ac7dd0beb1033fc71cf91da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 04/59] fix: a reused buffer stays mapped to its previous
 location

---
 src/storage/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 5192f8f..241c0ff 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -959,6 +959,14 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
+                        // the buffer may still be mapped to the location it has been used for before
+                        let buffer = &mut buffers[index as usize];
+                        if buffer.mapped {
+                            internal.mapped_locations.remove(&buffer.location);
+                        }
+
+                        buffer.location = location;
+                        buffer.mapped = true;
                         internal.mapped_locations.insert(location, index as usize);
 
                         assert!(buffers[index as usize].access.is_none());
-- 
2.43.0


From b0584b22a3ab31fd3d1ced5db7c0967369e949d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 05/59] fix: accessing an idle mapped buffer discards its
 content and corrupts the buffer lists

---
 src/storage/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 241c0ff..700cc1b 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1005,11 +1005,17 @@ impl BufferPool {
                                     num_handles: 1
                                 });
                             
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
-
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer is in use again
+                            let buffers = &mut internal.buffers;
+                            if buffers[index].dirty {
+                                internal.dirty_buffers.list_remove(buffers, index as BufferIndex);
+                            } else {
+                                internal.available_buffers.list_remove(buffers, index as BufferIndex);
+                            }
+                            internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
+                            // the content is still valid, no initialization is needed
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From b54c2dcb583f23c673f8c604b42bf08430a80b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 06/59] fix: the lock of a buffer is recycled while the
 released handle still holds it

---
 src/storage/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 700cc1b..d2e103f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1030,12 +1030,16 @@ impl BufferPool {
     }
 
     // Return a read-only handle
-    async fn release_read_only<'a>(&'a self, buffer_index: usize) {
+    async fn release_read_only<'a>(&'a self, buffer_index: usize, 
+        guard: &mut Option<async_std::sync::RwLockReadGuard<'a, ()>>) {
         // because the handle still holds the lock, we are still preventing exclusive
         // write access to this buffer
 
         let internal = &mut *self.mapping.lock().await;
 
+        // let go of the lock before it can be recycled for another access
+        guard.take();
+
         let (BufferAccess { lock, num_handles: _ }, dirty) = {
             let buffer = &mut internal.buffers[buffer_index];
 
@@ -1090,11 +1094,15 @@ impl BufferPool {
     }
 
     // Return a read-write handle
-    async fn release_read_write<'a>(&'a self, buffer_index: usize) {
+    async fn release_read_write<'a>(&'a self, buffer_index: usize, 
+        guard: &mut Option<async_std::sync::RwLockWriteGuard<'a, ()>>) {
         // because the handle still holds the lock, we still have exclusive access to
         // this buffer
         let internal = &mut *self.mapping.lock().await;
 
+        // let go of the lock before it can be recycled for another access
+        guard.take();
+
         let BufferAccess { lock, num_handles: _ } = {
             let buffer = &mut internal.buffers[buffer_index];
             buffer.dirty = true;
@@ -1256,8 +1264,7 @@ impl <'a> ReadOnlyBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_only(self.buffer_index).await;
-        self.guard.take();
+        self.pool.release_read_only(self.buffer_index, &mut self.guard).await;
     }
 }
 
@@ -1298,8 +1305,7 @@ impl <'a> ReadWriteBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_write(self.buffer_index).await;
-        self.guard.take();
+        self.pool.release_read_write(self.buffer_index, &mut self.guard).await;
     }
 }
 
-- 
2.43.0


From 29c5f34a5c4258215bf649d9104423832f0fd831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 07/59] fix: accesses waiting for a buffer are not told when
 their location becomes mapped

---
 src/storage/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d2e103f..852c821 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -985,6 +985,9 @@ impl BufferPool {
                             (*lock_ptr).try_write().unwrap()
                         };
 
+                    // whoever has been waiting for a buffer for this location can use this one now
+                    self.buffer_available.notify_all();
+
                     break (index as usize, lock_ptr, Some(init_lock))
 
                     } else {
-- 
2.43.0


From 50ab636edd03a0fb79fa3527eacf6b38c9d149e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 08/59] fix: a failed read leaves its buffer reserved and its
 page mapped with bytes that were never read

---
 src/storage/mod.rs | 142 ++++++++++++++++++++++++++-------------------
 1 file changed, 82 insertions(+), 60 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 852c821..2a1b585 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -699,7 +699,9 @@ impl Default for BufferListHead {
     }
 }
 
-type BufferLock = Box<async_std::sync::RwLock<()>>;
+// Lock protecting the content of a mapped buffer; the protected value tells if the content is valid, 
+// that is if it has been successfully loaded or initialized
+type BufferLock = Box<async_std::sync::RwLock<bool>>;
 
 // State associated with a buffer when there are access handles referring to it
 struct BufferAccess {
@@ -780,7 +782,7 @@ impl BufferPoolMapping {
     fn alloc_lock(locks: &mut Vec<BufferLock>) -> BufferLock {
         match locks.pop() {
             Some(lock) => lock,
-            None => Box::new(async_std::sync::RwLock::new(()))
+            None => Box::new(async_std::sync::RwLock::new(false))
         }
     }
 
@@ -872,19 +874,29 @@ impl BufferPool {
     // Provide read-only access to a buffer 
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_only<'a>(&'a self, location: Location) -> ReadOnlyBufferHandle<'a> {
-        let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
-
-        let guard = match init_lock {
-            None => unsafe {
-                (*lock_ptr).read().await
-            },
-            Some (guard) => unsafe {
-                let page_data = self.writable_slice(index);
-                let backing_store = self.backing_store.upgrade().unwrap();
-                backing_store.fetch(location, page_data).await.unwrap();
-                async_std::sync::RwLockWriteGuard::downgrade(guard)
-            }
-        };
+        let (index, lock_ptr) = self.buffer_access(location).await;
+
+        let mut guard = unsafe { (*lock_ptr).read().await };
+
+        if !*guard {
+            // only one reader gets to load the buffer; once this is done, it is shared with all of them
+            drop(guard);
+            let shared_guard = unsafe { (*lock_ptr).upgradable_read().await };
+
+            guard = if *shared_guard {
+                async_std::sync::RwLockUpgradableReadGuard::downgrade(shared_guard)
+            } else {
+                let mut init_guard = async_std::sync::RwLockUpgradableReadGuard::upgrade(shared_guard).await;
+
+                if let Err(error) = self.load(location, index, &mut init_guard).await {
+                    drop(init_guard);
+                    self.release_read_only(index, &mut None).await;
+                    panic!("Could not read buffer: {}", error);
+                }
+
+                async_std::sync::RwLockWriteGuard::downgrade(init_guard)
+            };
+        }
 
         ReadOnlyBufferHandle {
             pool: self,
@@ -896,19 +908,15 @@ impl BufferPool {
     // Provide read-write access to a buffer 
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_write<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
-        let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
-
-        let guard = match init_lock {
-            None => unsafe {
-                (*lock_ptr).write().await
-            },
-            Some (guard) => unsafe {
-                let page_data = self.writable_slice(index);
-                let backing_store = self.backing_store.upgrade().unwrap();
-                backing_store.fetch(location, page_data).await.unwrap();
-                guard
-            }
-        };
+        let (index, lock_ptr) = self.buffer_access(location).await;
+
+        let mut guard = unsafe { (*lock_ptr).write().await };
+
+        if let Err(error) = self.load(location, index, &mut guard).await {
+            drop(guard);
+            self.release_read_only(index, &mut None).await;
+            panic!("Could not read buffer: {}", error);
+        }
 
         ReadWriteBufferHandle {
             pool: self,
@@ -920,18 +928,15 @@ impl BufferPool {
     // Provide read-write access to a buffer without necessarily restoring previous content
     // TODO: Update return type to a form of Result<T, E>
     async fn access_initialize<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
-        let (index, lock_ptr, init_lock) = self.buffer_access(location).await;
-
-        let guard = match init_lock {
-            None => unsafe {
-                (*lock_ptr).write().await
-            },
-            Some (guard) => unsafe {
-                let page_data = self.writable_slice(index);
-                page_data.fill(0);
-                guard
-            }
-        };
+        let (index, lock_ptr) = self.buffer_access(location).await;
+
+        let mut guard = unsafe { (*lock_ptr).write().await };
+
+        if !*guard {
+            let page_data = unsafe { self.writable_slice(index) };
+            page_data.fill(0);
+            *guard = true;
+        }
 
         ReadWriteBufferHandle {
             pool: self,
@@ -940,8 +945,20 @@ impl BufferPool {
         }
     }
 
-    async fn buffer_access<'a>(&'a self, location: Location) -> (usize, *const async_std::sync::RwLock<()>,
-        Option<async_std::sync::RwLockWriteGuard<'a, ()>>) {
+    // Fetch the content of a buffer if it is not valid yet
+    async fn load(&self, location: Location, index: usize, 
+        guard: &mut async_std::sync::RwLockWriteGuard<'_, bool>) -> std::io::Result<()> {
+        if !**guard {
+            let page_data = unsafe { self.writable_slice(index) };
+            let backing_store = self.backing_store.upgrade().unwrap();
+            backing_store.fetch(location, page_data).await?;
+            **guard = true;
+        }
+
+        Ok(())
+    }
+
+    async fn buffer_access(&self, location: Location) -> (usize, *const async_std::sync::RwLock<bool>) {
         let mut guard = self.mapping.lock().await;
 
         loop {
@@ -973,22 +990,19 @@ impl BufferPool {
 
                         let read_write_locks = &mut internal.read_write_locks;
 
-                        let lock = BufferPoolMapping::alloc_lock(read_write_locks);
-                        let lock_ptr = (&*lock) as *const async_std::sync::RwLock<()>;
+                        let mut lock = BufferPoolMapping::alloc_lock(read_write_locks);
+                        *lock.get_mut() = false;
+                        let lock_ptr = (&*lock) as *const async_std::sync::RwLock<bool>;
 
                         buffers[index as usize].access = Some(BufferAccess {
                             lock,
                             num_handles: 1
                         });
 
-                        let init_lock = unsafe {
-                            (*lock_ptr).try_write().unwrap()
-                        };
-
                     // whoever has been waiting for a buffer for this location can use this one now
                     self.buffer_available.notify_all();
 
-                    break (index as usize, lock_ptr, Some(init_lock))
+                    break (index as usize, lock_ptr)
 
                     } else {
                         guard = self.buffer_available.wait(guard).await;
@@ -999,8 +1013,10 @@ impl BufferPool {
                     match &mut internal.buffers[index as usize].access {
                         &mut None => {
                             let read_write_locks = &mut internal.read_write_locks;
-                            let lock = BufferPoolMapping::alloc_lock(read_write_locks);
-                            let lock_ptr = (&*lock) as *const async_std::sync::RwLock<()>;
+                            // only buffers with valid content remain mapped while they are not in use
+                            let mut lock = BufferPoolMapping::alloc_lock(read_write_locks);
+                            *lock.get_mut() = true;
+                            let lock_ptr = (&*lock) as *const async_std::sync::RwLock<bool>;
 
                             internal.buffers[index as usize].access = 
                                 Some(BufferAccess {
@@ -1017,14 +1033,13 @@ impl BufferPool {
                             }
                             internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
 
-                            // the content is still valid, no initialization is needed
-                            break (index, lock_ptr, None);
+                            break (index, lock_ptr);
                         },
                         &mut Some(ref mut access) => {
-                            let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
+                            let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<bool>;
                             let num_handles = access.num_handles;
                             access.num_handles = num_handles + 1;
-                            break (index, lock_ptr, None);
+                            break (index, lock_ptr);
                         }
                     };
                 }
@@ -1034,7 +1049,7 @@ impl BufferPool {
 
     // Return a read-only handle
     async fn release_read_only<'a>(&'a self, buffer_index: usize, 
-        guard: &mut Option<async_std::sync::RwLockReadGuard<'a, ()>>) {
+        guard: &mut Option<async_std::sync::RwLockReadGuard<'a, bool>>) {
         // because the handle still holds the lock, we are still preventing exclusive
         // write access to this buffer
 
@@ -1043,7 +1058,7 @@ impl BufferPool {
         // let go of the lock before it can be recycled for another access
         guard.take();
 
-        let (BufferAccess { lock, num_handles: _ }, dirty) = {
+        let (BufferAccess { mut lock, num_handles: _ }, dirty) = {
             let buffer = &mut internal.buffers[buffer_index];
 
             // if nobody picked up an access handle while we have been holding the lock, move
@@ -1074,6 +1089,13 @@ impl BufferPool {
             (buffer.access.take().unwrap(), buffer.dirty)
         };
 
+        // nobody managed to load the content, so it must not be found any more
+        if !*lock.get_mut() {
+            let buffer = &mut internal.buffers[buffer_index];
+            buffer.mapped = false;
+            internal.mapped_locations.remove(&buffer.location);
+        }
+
         {
             let read_write_locks = &mut internal.read_write_locks;
             BufferPoolMapping::dealloc_lock(read_write_locks, lock);
@@ -1098,7 +1120,7 @@ impl BufferPool {
 
     // Return a read-write handle
     async fn release_read_write<'a>(&'a self, buffer_index: usize, 
-        guard: &mut Option<async_std::sync::RwLockWriteGuard<'a, ()>>) {
+        guard: &mut Option<async_std::sync::RwLockWriteGuard<'a, bool>>) {
         // because the handle still holds the lock, we still have exclusive access to
         // this buffer
         let internal = &mut *self.mapping.lock().await;
@@ -1250,7 +1272,7 @@ struct ReadOnlyBufferHandle<'a> {
     pool: &'a BufferPool,
 
     // access guard
-    guard: Option<async_std::sync::RwLockReadGuard<'a, ()>>,
+    guard: Option<async_std::sync::RwLockReadGuard<'a, bool>>,
 
     // index of the buffer within the pool
     buffer_index: usize
@@ -1286,7 +1308,7 @@ struct ReadWriteBufferHandle<'a> {
     pool: &'a BufferPool,
 
     // access guard
-    guard: Option<async_std::sync::RwLockWriteGuard<'a, ()>>,
+    guard: Option<async_std::sync::RwLockWriteGuard<'a, bool>>,
 
     // index of the buffer within the pool
     buffer_index: usize
-- 
2.43.0


From 718b87f78ce2dbacc886f2b7511ed0cb56fb5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 09/59] fix: an abandoned page access leaves its buffer
 reserved and others waiting

---
 src/storage/mod.rs | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 2a1b585..d2bea46 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -875,6 +875,7 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_only<'a>(&'a self, location: Location) -> ReadOnlyBufferHandle<'a> {
         let (index, lock_ptr) = self.buffer_access(location).await;
+        let pending = PendingAccess { pool: self, buffer_index: index };
 
         let mut guard = unsafe { (*lock_ptr).read().await };
 
@@ -890,7 +891,7 @@ impl BufferPool {
 
                 if let Err(error) = self.load(location, index, &mut init_guard).await {
                     drop(init_guard);
-                    self.release_read_only(index, &mut None).await;
+                    drop(pending);
                     panic!("Could not read buffer: {}", error);
                 }
 
@@ -898,6 +899,8 @@ impl BufferPool {
             };
         }
 
+        std::mem::forget(pending);
+
         ReadOnlyBufferHandle {
             pool: self,
             guard: Some(guard),
@@ -909,15 +912,18 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_read_write<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr) = self.buffer_access(location).await;
+        let pending = PendingAccess { pool: self, buffer_index: index };
 
         let mut guard = unsafe { (*lock_ptr).write().await };
 
         if let Err(error) = self.load(location, index, &mut guard).await {
             drop(guard);
-            self.release_read_only(index, &mut None).await;
+            drop(pending);
             panic!("Could not read buffer: {}", error);
         }
 
+        std::mem::forget(pending);
+
         ReadWriteBufferHandle {
             pool: self,
             guard: Some(guard),
@@ -929,6 +935,7 @@ impl BufferPool {
     // TODO: Update return type to a form of Result<T, E>
     async fn access_initialize<'a>(&'a self, location: Location) -> ReadWriteBufferHandle<'a> {
         let (index, lock_ptr) = self.buffer_access(location).await;
+        let pending = PendingAccess { pool: self, buffer_index: index };
 
         let mut guard = unsafe { (*lock_ptr).write().await };
 
@@ -938,6 +945,8 @@ impl BufferPool {
             *guard = true;
         }
 
+        std::mem::forget(pending);
+
         ReadWriteBufferHandle {
             pool: self,
             guard: Some(guard),
@@ -1058,6 +1067,11 @@ impl BufferPool {
         // let go of the lock before it can be recycled for another access
         guard.take();
 
+        self.drop_handle(internal, buffer_index);
+    }
+
+    // Forget a handle reference that does not hold the lock of the buffer
+    fn drop_handle(&self, internal: &mut BufferPoolMapping, buffer_index: usize) {
         let (BufferAccess { mut lock, num_handles: _ }, dirty) = {
             let buffer = &mut internal.buffers[buffer_index];
 
@@ -1081,7 +1095,8 @@ impl BufferPool {
             // to the dirty queue or can become available because it is clean
 
             if !buffer.dirty {
-                self.buffer_available.notify_one();
+                // anyone of those waiting may have been abandoned without being able to pass this on
+                self.buffer_available.notify_all();
             } else if !buffer.submitted {
                 self.buffer_dirty.notify_one();
             }
@@ -1203,6 +1218,30 @@ impl BufferPool {
     } 
 }
 
+// A handle reference that has been counted already while its access is still waiting to be granted. 
+// Dropping it gives the reference back, such that an access may be abandoned at any time.
+struct PendingAccess<'a> {
+    // pool to which this access refers to
+    pool: &'a BufferPool,
+
+    // index of the buffer within the pool
+    buffer_index: usize
+}
+
+impl <'a> Drop for PendingAccess<'a> {
+    fn drop(&mut self) {
+        // nobody suspends while holding this mutex, so it becomes available immediately
+        let mut mapping = loop {
+            match self.pool.mapping.try_lock() {
+                Some(mapping) => break mapping,
+                None => std::thread::yield_now()
+            }
+        };
+
+        self.pool.drop_handle(&mut mapping, self.buffer_index);
+    }
+}
+
 impl Drop for BufferPool {
     fn drop(&mut self) {
         // TODO: this needs to ensure that all pending writes have been completed and all
-- 
2.43.0


From 03238ac8174957d25edeec3ac073c36296622667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 10/59] fix: creating a volume panics copying headers and names
 into larger buffers

---
 src/storage/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d2bea46..ffdd456 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -301,7 +301,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
 
     unsafe {
         let file_header_slice = crate::common::any_as_u8_slice(&file_header);
-        buffer.copy_from_slice(&file_header_slice);
+        buffer[.. file_header_size].copy_from_slice(&file_header_slice);
     }
 
     // append file name
@@ -315,7 +315,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
         let name_length_pointer = attribute_slice.as_mut_ptr().add(std::mem::size_of::<u16>());
         assert!(filename.len() <= u8::MAX as usize);
         *name_length_pointer = filename.len() as u8;
-        let name_slice = &mut buffer[offset + 3..];
+        let name_slice = &mut buffer[offset + 3 .. offset + 3 + filename.len()];
         name_slice.copy_from_slice(filename.as_bytes());
         offset = offset + 3 + filename.len();
     }
@@ -474,7 +474,7 @@ impl VolumeManager {
 
             unsafe {
                 let header_data = crate::common::any_as_u8_slice(&volume_header_copy);
-                buffer.copy_from_slice(header_data);
+                buffer[.. header_data.len()].copy_from_slice(header_data);
             }
 
             handle.release().await;
-- 
2.43.0


From 522fd61dc447e953bd374c8adf1dc382faac5507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 11/59] fix: creating a volume panics for most sub-second times

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index ffdd456..9f27078 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -284,7 +284,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
     let seconds = now.as_secs();
     let nanos = now.subsec_nanos(); 
     // subsec_nanos should return a 30 bit value
-    assert!(nanos & 0xC000 == 0);
+    assert!(nanos & 0xC000_0000 == 0);
     let timestamp = (seconds << 16) | (nanos as u64 >> 14);
 
     let file_header = FileHeader {
-- 
2.43.0


From 04e179fe638046f7d3aeb4370cd4369d3b734a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 12/59] fix: the extent list of a file header is written behind
 its place

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9f27078..4555b7e 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -332,7 +332,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
             let list_length_pointer = attribute_slice.as_mut_ptr().add(std::mem::size_of::<u16>()) as *mut u16;
             *list_length_pointer = 1u16;
             let extent_offset = utils::align_usize(offset + std::mem::size_of::<u16>() * 2, std::mem::size_of::<u32>());
-            let extent_pointer = attribute_slice.as_mut_ptr().add(extent_offset) as *mut Extent;
+            let extent_pointer = buffer.as_mut_ptr().add(extent_offset) as *mut Extent;
             *extent_pointer = initial_extent;
             offset = extent_offset + std::mem::size_of::<Extent>();
         },
-- 
2.43.0


From 6796ff32b96f67edc6eabd0e61eeaf9d02c2945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 13/59] fix: the allocation bitmap of a new volume overlaps the
 file table mirror

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 4555b7e..e3a4f35 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -407,7 +407,7 @@ impl VolumeManager {
         let file_table_blocks = (file_table_size + block_size - 1) / block_size;
         let file_table_mirror_offset = file_table_offset + (file_table_blocks * block_size) as u64;
         // the file table mirror has the same size as the file table offset
-        let allocation_bitmap_offset = file_table_mirror_offset + file_table_blocks as u64;
+        let allocation_bitmap_offset = file_table_mirror_offset + (file_table_blocks * block_size) as u64;
 
         // should hold, because we require the volume size to be an integer multiple of the block size
         assert!(parameters.volume_size % block_size == 0);
-- 
2.43.0


From 22636a5b38111eda3f156be5890720c8070fe81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 14/59] fix: the allocation bitmap of a new volume marks
 missing and used blocks as free

---
 src/storage/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index e3a4f35..7dfb1f6 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -581,17 +581,19 @@ impl VolumeManager {
                     const ALL_ONES: u128 = !0u128;
                     
                     let mask_left = 
-                        if total_allocated_blocks >= bit_index  && 
-                            total_allocated_blocks < bit_index + bits_per_word {
+                        if total_allocated_blocks >= bit_index + bits_per_word {
+                            0
+                        } else if total_allocated_blocks >= bit_index {
                             ALL_ONES << (total_allocated_blocks - bit_index) as u32
                         } else {
                             ALL_ONES
                         };
 
                     let mask_right = 
-                        if allocation_bitmap_size_bits >= bit_index  && 
-                        allocation_bitmap_size_bits < bit_index + bits_per_word {
-                            ALL_ONES >> (allocation_bitmap_size_bits - bit_index) as u32
+                        if allocation_bitmap_size_bits <= bit_index {
+                            0
+                        } else if allocation_bitmap_size_bits < bit_index + bits_per_word {
+                            ALL_ONES >> (bits_per_word - (allocation_bitmap_size_bits - bit_index)) as u32
                         } else {
                             ALL_ONES
                         };
-- 
2.43.0


From c86eca909432b9e163ce8b36366409f99140eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 15/59] fix: default volume parameters double the default block
 size

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7dfb1f6..2f9238b 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -206,7 +206,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = DEFAULT_VOLUME_BLOCK_SIZE.trailing_zeros() as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From afbf7bc1f45a59c9766bd277199be4ade7b9fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 16/59] fix: running out of volume identifiers panics instead
 of returning the error

---
 src/storage/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 2f9238b..242658f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -386,13 +386,13 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
 
-        if next < current.0 {
-            Err("Cannot allocate more internal volume identifiers".into())
-        } else {
-            self.next_volume = VolumeIndex(next);
-            Ok(current)
+        match current.0.checked_add(1) {
+            None => Err("Cannot allocate more internal volume identifiers".into()),
+            Some(next) => {
+                self.next_volume = VolumeIndex(next);
+                Ok(current)
+            }
         }
     }
 
-- 
2.43.0


From 4534ba18948493d1a205421076662c49fb84710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 17/59] fix: a volume that could not be sized leaves a file
 that blocks creating it again

---
 src/storage/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 242658f..1f6566f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -431,7 +431,11 @@ impl VolumeManager {
             .await?;
 
         // set the file to size specified
-        file.set_len(parameters.volume_size).await?;
+        if let Err(error) = file.set_len(parameters.volume_size).await {
+            // do not leave a file behind that prevents creating the volume later on
+            let _ = async_std::fs::remove_file(path).await;
+            return Err(error);
+        }
 
         // create the UUID and populate the volume header structure
         let volume_header = VolumeHeader {
-- 
2.43.0


From 6eedc9db944f6930b7d5041e2a0a984bb176d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 18/59] fix: characters are lost when a JSON output stream
 writes short or is interrupted

---
 src/core/json/encoder.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..5d4cb5f 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -36,15 +36,15 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\0' => writer.write_all("\\0".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -52,29 +52,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
             buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From ad115b14b3f0f642acae492e46d6cfa1e2b000be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 19/59] fix: a NUL character is encoded with an escape that
 JSON does not have

---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 5d4cb5f..137aa75 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -36,7 +36,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write_all("\\0".as_bytes())?,
+        '\0' => writer.write_all("\\u0000".as_bytes())?,
         '\\' => writer.write_all("\\\\".as_bytes())?,
         '/' => writer.write_all("\\/".as_bytes())?,
         '\"' => writer.write_all("\\\"".as_bytes())?,
-- 
2.43.0


From 410a26824f2f729e762ff0cc30e4f93ec31d01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 20/59] fix: control characters are encoded with digits that
 are not hexadecimal

---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 137aa75..90ab5c9 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -51,7 +51,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
             buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[5] = "0123456789abcdef".as_bytes()[(b0 as u8 & 0xfu8) as usize];
             writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
-- 
2.43.0


From 4ea3712cfabeddc4ab20193d00084bfaa229bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 21/59] fix: characters from U+8000 to U+FFFF are encoded as
 invalid UTF-8

---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 90ab5c9..9c6c47d 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -63,7 +63,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write_all(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From 8310f50f490dc978c9ff894235ca5eae442b3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 22/59] fix: decoding a struct of 64 fields overflows

---
 src/core/json/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..249ed19 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -64,7 +64,11 @@ trait BitSet {
 impl BitSet for u64 {
     fn new_with_elements(n: usize) -> Self {
         assert!(n <= 64);
-        (1u64 << n) - 1
+        if n == 64 {
+            !0u64
+        } else {
+            (1u64 << n) - 1
+        }
     }
 
     fn clear_element(&mut self, index: usize) {
-- 
2.43.0


From 2914a4220db23b0e17769fe1dc0585796de54d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 23/59] fix: surrogates in JSON text panic and incomplete
 Unicode escapes are accepted

---
 src/core/json/tokenizer.rs | 64 +++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..07e1440 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -237,35 +237,61 @@ impl<'a> Tokenizer<'a> {
             Some((_, 'r')) => Ok(self.push_string_char('\r')),
             Some((_, 't')) => Ok(self.push_string_char('\t')),
             Some((_, 'u')) => {
-                self.advance();
-
-                let mut char_code = 0u32;
+                let error = "Invalid Unicode escape sequence in string value";
+                let mut char_code = self.unicode_escape()?;
 
-                // need for hexadecimal digits
-                for _ in 0..4 {
+                // characters outside of the 16 bit range are represented as a pair of surrogates
+                if char_code >= 0xd800 && char_code <= 0xdbff {
                     match self.look_ahead {
-                        Some((_, ch)) => {
-                            if let Some(digit) = ch.to_digit(16) {
-                                char_code = char_code * 16 + digit;
-                                self.advance();
-                            }
-                        }
-                        _ => {
-                            return Err(String::from(
-                                "Invalid Unicode escape sequence in string value",
-                            ))
-                        }
+                        Some((_, '\\')) => self.advance(),
+                        _ => return Err(String::from(error)),
+                    }
+
+                    let low = match self.look_ahead {
+                        Some((_, 'u')) => self.unicode_escape()?,
+                        _ => return Err(String::from(error)),
+                    };
+
+                    if low < 0xdc00 || low > 0xdfff {
+                        return Err(String::from(error));
                     }
+
+                    char_code = 0x10000 + ((char_code - 0xd800) << 10) + (low - 0xdc00);
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
-                Ok(())
+                match char::from_u32(char_code) {
+                    Some(ch) => Ok(self.string_buffer.push(ch)),
+                    None => Err(String::from(error)),
+                }
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
         }
     }
 
+    fn unicode_escape(&mut self) -> Result<u32, TokenizerError> {
+        // eat 'u'
+        self.advance();
+
+        let mut char_code = 0u32;
+
+        // need four hexadecimal digits
+        for _ in 0..4 {
+            match self.look_ahead.and_then(|(_, ch)| ch.to_digit(16)) {
+                Some(digit) => {
+                    char_code = char_code * 16 + digit;
+                    self.advance();
+                }
+                None => {
+                    return Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    ))
+                }
+            }
+        }
+
+        Ok(char_code)
+    }
+
     fn match_string(&mut self) -> TokenizerResult {
         // markers are used for error token
         self.mark_start();
-- 
2.43.0


From 9a80407febc4c0de9980960faa19e6f2c41e5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 24/59] fix: anything that follows a JSON document is silently
 ignored

---
 src/core/json/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 249ed19..809b8c7 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -537,7 +537,13 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+
+        if tokenizer.token == tokenizer::Token::Eof {
+            Ok(())
+        } else {
+            Err(String::from("Unexpected input following the JSON value"))
+        }
     }
 }
 
-- 
2.43.0


From 4284ea85a5800b1a19479f7d148a02b2b98680d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 25/59] fix: characters that are not JSON whitespace are
 skipped between tokens

---
 src/core/json/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 07e1440..8801c15 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -176,8 +176,9 @@ impl<'a> Tokenizer<'a> {
 
     fn skip_whitespace(&mut self) {
         while let Some((_, ch)) = self.look_ahead {
-            if !ch.is_whitespace() {
-                break;
+            match ch {
+                ' ' | '\t' | '\n' | '\r' => (),
+                _ => break,
             }
 
             self.advance()
-- 
2.43.0


From f9e722d9c3b5f609a57fdf63b6caa4cc8991b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 26/59] fix: numbers without digits after the decimal point are
 accepted

---
 src/core/json/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 8801c15..45f9c8d 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -354,7 +354,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From d6a75551bf7cbd9ae0864f2487fcefe577c56d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 27/59] fix: adding an empty row to a full page overwrites
 another row

---
 src/core/nsm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..64fb992 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -74,6 +74,7 @@ impl PageFormat {
 
     pub fn append_row(&self, page: &mut [u8], row: &[u8]) {
         assert!(row.len() <= self.max_insert_row_size(page));
+        assert!(self.has_free_slot(page));
         let num_rows = self.num_rows(page);
         let aligned_len = util::align(row.len(), self.row_alignment);
         let upper_bound = if num_rows > 0 {
@@ -97,6 +98,7 @@ impl PageFormat {
 
     pub fn insert_row(&self, page: &mut [u8], index: usize, row: &[u8]) {
         assert!(row.len() <= self.max_insert_row_size(page));
+        assert!(self.has_free_slot(page));
         let num_rows = self.num_rows(page);
 
         if index == num_rows {
@@ -186,6 +188,18 @@ impl PageFormat {
         }
     }
 
+    /// Is there room for the offset of another row? Even an empty row needs one.
+    fn has_free_slot(&self, page: &[u8]) -> bool {
+        let num_rows = self.num_rows(page);
+        let upper_bound = if num_rows > 0 {
+            self.aligned_row_offset(page, num_rows - 1)
+        } else {
+            page.len()
+        };
+
+        mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound
+    }
+
     fn aligned_row_offset(&self, page: &[u8], index: usize) -> usize {
         assert!(index < self.num_rows(page));
         let offset_value = self.get_row_offset(page, index);
-- 
2.43.0


From b11bb89810083c59d1f6d87e51cd4ecd74435a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 28/59] fix: row offsets of a damaged page move memory outside
 the page

---
 src/core/nsm.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 64fb992..4315846 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -21,7 +21,6 @@
 // SOFTWARE.
 
 use std::mem;
-use std::ptr;
 
 use crate::core::util;
 
@@ -113,11 +112,7 @@ impl PageFormat {
                 page.len()
             };
 
-            unsafe {
-                let src: *const u8 = mem::transmute(page[last_offset..].as_ptr());
-                let dst: *mut u8 = mem::transmute(page[last_offset - delta..].as_ptr());
-                ptr::copy::<u8>(src, dst, row_offset - last_offset);
-            }
+            page.copy_within(last_offset..row_offset, last_offset - delta);
 
             for row_index in (index..num_rows).rev() {
                 let old_offset = self.get_row_offset(page, row_index) as usize;
@@ -159,11 +154,7 @@ impl PageFormat {
                 self.set_row_offset(page, row_index - 1, (old_offset + delta) as Offset);
             }
 
-            unsafe {
-                let src: *const u8 = mem::transmute(page[last_offset..].as_ptr());
-                let dst: *mut u8 = mem::transmute(page[last_offset + delta..].as_ptr());
-                ptr::copy::<u8>(src, dst, row_offset - last_offset);
-            }
+            page.copy_within(last_offset..row_offset, last_offset + delta);
         }
 
         self.set_num_rows(page, num_rows - 1);
-- 
2.43.0


From 7a7bed58da0537cb1a68fb21d2d535d52cdcf2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 29/59] fix: row operations on a page at an unaligned address
 abort

---
 src/core/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index ed0737b..1f42d36 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -158,8 +158,8 @@ pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {
 
     unsafe {
         let pointer: *mut T =
-            mem::transmute(buffer[offset..].as_ptr());
-        *pointer = value
+            mem::transmute(buffer[offset..].as_mut_ptr());
+        pointer.write_unaligned(value)
     }
 }
 
@@ -169,6 +169,6 @@ pub fn get_value<T: Copy>(buffer: &[u8], offset: usize) -> T {
     unsafe {
         let pointer: *const T =
             mem::transmute(buffer[offset..].as_ptr());
-        *pointer
+        pointer.read_unaligned()
     }
 }
\ No newline at end of file
-- 
2.43.0


From 423a5f01d306e961969e461941dcf7f34fb9bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 30/59] fix: fields of a row that is cut short or unaligned are
 read through unchecked pointers

---
 src/core/marshaller.rs | 90 ++++++++++--------------------------------
 1 file changed, 21 insertions(+), 69 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..d54c6d5 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -416,11 +416,7 @@ impl Layout {
             match var_size_field.kind {
                 VariableSizeFieldKind::String => {
                     // extract the length
-                    let length = unsafe {
-                        let pointer: *const LengthEncodingType =
-                            mem::transmute(data[tag_field.offset..].as_ptr());
-                        *pointer
-                    };
+                    let length = util::get_value::<LengthEncodingType>(data, tag_field.offset);
 
                     // add to the offset
                     offset = offset + length as usize as usize;
@@ -435,31 +431,11 @@ impl Layout {
                                 num_bits,
                             } => {
                                 let case_value = match primitive {
-                                    types::Primitive::U128 => unsafe {
-                                        let pointer: *const u128 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U64 => unsafe {
-                                        let pointer: *const u64 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U32 => unsafe {
-                                        let pointer: *const u32 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U16 => unsafe {
-                                        let pointer: *const u16 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U8 => unsafe {
-                                        let pointer: *const u8 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
+                                    types::Primitive::U128 => util::get_value::<u128>(data, tag_field.offset) as usize,
+                                    types::Primitive::U64 => util::get_value::<u64>(data, tag_field.offset) as usize,
+                                    types::Primitive::U32 => util::get_value::<u32>(data, tag_field.offset) as usize,
+                                    types::Primitive::U16 => util::get_value::<u16>(data, tag_field.offset) as usize,
+                                    types::Primitive::U8 => util::get_value::<u8>(data, tag_field.offset) as usize,
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
 
@@ -719,10 +695,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => unsafe {
-                            let pointer: *const T = mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer;
-                        },
+                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => {
+                            return util::get_value::<T>(data, field.offset);
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
@@ -763,11 +738,9 @@ impl Marshaller {
                     let offset = layout.variable_field_offset(var_size_field_index, data);
 
                     let length = match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            *pointer as usize
-                        },
+                        FixedSizeFieldKind::Length => {
+                            util::get_value::<LengthEncodingType>(data, field.offset) as usize
+                        }
                         _ => panic!("Incorrect field type"),
                     };
 
@@ -823,31 +796,11 @@ impl Marshaller {
                             num_bits,
                         } => {
                             let case_value = match primitive {
-                                types::Primitive::U128 => unsafe {
-                                    let pointer: *const u128 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U64 => unsafe {
-                                    let pointer: *const u64 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U32 => unsafe {
-                                    let pointer: *const u32 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U16 => unsafe {
-                                    let pointer: *const u16 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U8 => unsafe {
-                                    let pointer: *const u8 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
+                                types::Primitive::U128 => util::get_value::<u128>(data, tag_field.offset) as usize,
+                                types::Primitive::U64 => util::get_value::<u64>(data, tag_field.offset) as usize,
+                                types::Primitive::U32 => util::get_value::<u32>(data, tag_field.offset) as usize,
+                                types::Primitive::U16 => util::get_value::<u16>(data, tag_field.offset) as usize,
+                                types::Primitive::U8 => util::get_value::<u8>(data, tag_field.offset) as usize,
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
@@ -892,11 +845,10 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer as usize;
-                        },
+                        FixedSizeFieldKind::Length => {
+                            return util::get_value::<LengthEncodingType>(data, field.offset)
+                                as usize;
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From bf3675cac23d510b0d6c442d8bc8f4f27a55e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 31/59] fix: encoding a row at an unaligned address aborts

---
 src/core/marshaller.rs | 159 ++++++++++++++++++-----------------------
 1 file changed, 68 insertions(+), 91 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index d54c6d5..afbf27a 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -507,11 +507,7 @@ impl Layout {
                     assert!(mem::size_of::<u32>() == mem::size_of::<LengthEncodingType>());
                     assert!(length <= u32::MAX as usize);
 
-                    unsafe {
-                        let pointer: *mut LengthEncodingType =
-                            mem::transmute(buffer[field.offset..].as_ptr());
-                        *pointer = length as LengthEncodingType;
-                    }
+                    util::set_value(buffer, field.offset, length as LengthEncodingType);
                 }
                 FixedSizeFieldKind::Bitfield {
                     primitive,
@@ -521,101 +517,82 @@ impl Layout {
                     let case_tag = source.get_case_tag(&field.path);
 
                     match primitive {
-                        types::Primitive::U8 => unsafe {
+                        types::Primitive::U8 => {
                             let mask = ((1u8 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
-                        },
-                        types::Primitive::U16 => unsafe {
+                            let value = util::get_value::<u8>(buffer, field.offset);
+                            let value = (value & !mask) | (((case_tag as u8) << bit_offset) & mask);
+                            util::set_value(buffer, field.offset, value);
+                        }
+                        types::Primitive::U16 => {
                             let mask = ((1u16 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
-                        },
-                        types::Primitive::U32 => unsafe {
+                            let value = util::get_value::<u16>(buffer, field.offset);
+                            let value = (value & !mask) | (((case_tag as u16) << bit_offset) & mask);
+                            util::set_value(buffer, field.offset, value);
+                        }
+                        types::Primitive::U32 => {
                             let mask = ((1u32 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
-                        },
-                        types::Primitive::U64 => unsafe {
+                            let value = util::get_value::<u32>(buffer, field.offset);
+                            let value = (value & !mask) | (((case_tag as u32) << bit_offset) & mask);
+                            util::set_value(buffer, field.offset, value);
+                        }
+                        types::Primitive::U64 => {
                             let mask = ((1u64 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
-                        },
-                        types::Primitive::U128 => unsafe {
+                            let value = util::get_value::<u64>(buffer, field.offset);
+                            let value = (value & !mask) | (((case_tag as u64) << bit_offset) & mask);
+                            util::set_value(buffer, field.offset, value);
+                        }
+                        types::Primitive::U128 => {
                             let mask = ((1u128 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u128 =
-                                mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) & mask);
-                        },
+                            let value = util::get_value::<u128>(buffer, field.offset);
+                            let value = (value & !mask) | (((case_tag as u128) << bit_offset) & mask);
+                            util::set_value(buffer, field.offset, value);
+                        }
                         _ => panic!("Invalid bitfield primitive type"),
                     }
                 }
                 FixedSizeFieldKind::Primitve(primitive) => match primitive {
-                    types::Primitive::Bool => unsafe {
-                        *mem::transmute::<*mut u8, *mut bool>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_bool(&field.path);
-                    },
-                    types::Primitive::Char => unsafe {
-                        *mem::transmute::<*mut u8, *mut char>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_char(&field.path);
-                    },
-                    types::Primitive::F32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f32(&field.path);
-                    },
-                    types::Primitive::F64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f64(&field.path);
-                    },
-                    types::Primitive::U8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u8(&field.path);
-                    },
-                    types::Primitive::U16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u16(&field.path);
-                    },
-                    types::Primitive::U32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u32(&field.path);
-                    },
-                    types::Primitive::U64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u64(&field.path);
-                    },
-                    types::Primitive::U128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_u128(&field.path);
-                    },
-                    types::Primitive::I8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i8(&field.path);
-                    },
-                    types::Primitive::I16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i16(&field.path);
-                    },
-                    types::Primitive::I32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i32(&field.path);
-                    },
-                    types::Primitive::I64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i64(&field.path);
-                    },
-                    types::Primitive::I128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_i128(&field.path);
-                    },
+                    types::Primitive::Bool => {
+                        util::set_value(buffer, field.offset, source.get_bool(&field.path))
+                    }
+                    types::Primitive::Char => {
+                        util::set_value(buffer, field.offset, source.get_char(&field.path))
+                    }
+                    types::Primitive::F32 => {
+                        util::set_value(buffer, field.offset, source.get_f32(&field.path))
+                    }
+                    types::Primitive::F64 => {
+                        util::set_value(buffer, field.offset, source.get_f64(&field.path))
+                    }
+                    types::Primitive::U8 => {
+                        util::set_value(buffer, field.offset, source.get_u8(&field.path))
+                    }
+                    types::Primitive::U16 => {
+                        util::set_value(buffer, field.offset, source.get_u16(&field.path))
+                    }
+                    types::Primitive::U32 => {
+                        util::set_value(buffer, field.offset, source.get_u32(&field.path))
+                    }
+                    types::Primitive::U64 => {
+                        util::set_value(buffer, field.offset, source.get_u64(&field.path))
+                    }
+                    types::Primitive::U128 => {
+                        util::set_value(buffer, field.offset, source.get_u128(&field.path))
+                    }
+                    types::Primitive::I8 => {
+                        util::set_value(buffer, field.offset, source.get_i8(&field.path))
+                    }
+                    types::Primitive::I16 => {
+                        util::set_value(buffer, field.offset, source.get_i16(&field.path))
+                    }
+                    types::Primitive::I32 => {
+                        util::set_value(buffer, field.offset, source.get_i32(&field.path))
+                    }
+                    types::Primitive::I64 => {
+                        util::set_value(buffer, field.offset, source.get_i64(&field.path))
+                    }
+                    types::Primitive::I128 => {
+                        util::set_value(buffer, field.offset, source.get_i128(&field.path))
+                    }
                 },
                 _ => panic!("Invalid field type"),
             }
-- 
2.43.0


From 27e7c46a53e8bd7ae69a64ae65df7e717d4eecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 32/59] fix: encoding the case of an enum overflows when its
 bits fill the container

---
 src/core/marshaller.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index afbf27a..43150d1 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -518,33 +518,38 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u8;
                             let value = util::get_value::<u8>(buffer, field.offset);
-                            let value = (value & !mask) | (((case_tag as u8) << bit_offset) & mask);
+                            let tag = ((case_tag as u128) << bit_offset) as u8;
+                            let value = (value & !mask) | (tag & mask);
                             util::set_value(buffer, field.offset, value);
                         }
                         types::Primitive::U16 => {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u16;
                             let value = util::get_value::<u16>(buffer, field.offset);
-                            let value = (value & !mask) | (((case_tag as u16) << bit_offset) & mask);
+                            let tag = ((case_tag as u128) << bit_offset) as u16;
+                            let value = (value & !mask) | (tag & mask);
                             util::set_value(buffer, field.offset, value);
                         }
                         types::Primitive::U32 => {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u32;
                             let value = util::get_value::<u32>(buffer, field.offset);
-                            let value = (value & !mask) | (((case_tag as u32) << bit_offset) & mask);
+                            let tag = ((case_tag as u128) << bit_offset) as u32;
+                            let value = (value & !mask) | (tag & mask);
                             util::set_value(buffer, field.offset, value);
                         }
                         types::Primitive::U64 => {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u64;
                             let value = util::get_value::<u64>(buffer, field.offset);
-                            let value = (value & !mask) | (((case_tag as u64) << bit_offset) & mask);
+                            let tag = ((case_tag as u128) << bit_offset) as u64;
+                            let value = (value & !mask) | (tag & mask);
                             util::set_value(buffer, field.offset, value);
                         }
                         types::Primitive::U128 => {
-                            let mask = ((1u128 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u128;
                             let value = util::get_value::<u128>(buffer, field.offset);
-                            let value = (value & !mask) | (((case_tag as u128) << bit_offset) & mask);
+                            let tag = ((case_tag as u128) << bit_offset) as u128;
+                            let value = (value & !mask) | (tag & mask);
                             util::set_value(buffer, field.offset, value);
                         }
                         _ => panic!("Invalid bitfield primitive type"),
-- 
2.43.0


From 4d6832f447c976371520c34f94af0c91ea3b5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 33/59] fix: the bytes of a string in a damaged row reach
 outside the row

---
 src/core/marshaller.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 43150d1..90f8034 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -729,10 +729,9 @@ impl Marshaller {
                     // need to create a slice of the appropriate type with the appropriat enumber
                     // of elements
                     match &layout.var_size_fields[var_size_field_index].kind {
-                        VariableSizeFieldKind::String => unsafe {
-                            let base = data[offset..].as_ptr();
-                            return slice::from_raw_parts(mem::transmute(base), length);
-                        },
+                        VariableSizeFieldKind::String => {
+                            return &data[offset..][..length];
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From 662d5c733c4c5c24b6ea11ee26a192579197b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 34/59] fix: encoding a string writes behind a destination that
 is too small

---
 src/core/marshaller.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 90f8034..01a49c9 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -23,7 +23,6 @@
 use std::cmp;
 use std::collections;
 use std::mem;
-use std::slice;
 use std::sync;
 use std::u32;
 
@@ -628,13 +627,9 @@ fn copy_bytes<D>(buffer: &mut [u8], path: &Path, length: usize, source: &D)
 where
     D: data_source::DataSource,
 {
-    unsafe {
-        let data: &[u8] = source.get_bytes(path);
-        assert!(length == data.len());
-        let base: *mut u8 = mem::transmute(buffer.as_mut_ptr());
-        let target = slice::from_raw_parts_mut(base, length);
-        target.copy_from_slice(data);
-    }
+    let data: &[u8] = source.get_bytes(path);
+    assert!(length == data.len());
+    buffer[..length].copy_from_slice(data);
 }
 
 pub struct Marshaller {
-- 
2.43.0


From cded850e973871eb010a5332d679f69b548069e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 35/59] fix: a damaged row yields enum cases that do not exist

---
 src/core/marshaller.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 01a49c9..81230d5 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -780,7 +780,18 @@ impl Marshaller {
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
-                            return (case_value >> bit_offset) & ((1usize << num_bits) - 1);
+                            let case_tag = (case_value >> bit_offset) & ((1usize << num_bits) - 1);
+                            let var_size_field_index =
+                                layout.field_indices[idx].var_size_field_index;
+
+                            match &layout.var_size_fields[var_size_field_index].kind {
+                                VariableSizeFieldKind::Enum { ref cases } => {
+                                    assert!(case_tag < cases.len())
+                                }
+                                _ => panic!("Expecting an enum field"),
+                            }
+
+                            return case_tag;
                         }
                         _ => panic!("Bitfiled expected as enum case tag value"),
                     }
-- 
2.43.0


From b0116b3a3e322dd30830e9afcdf3d5c84c7c1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 36/59] fix: a damaged row yields booleans and characters that
 are invalid

---
 src/core/marshaller.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 81230d5..a71f529 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -673,6 +673,18 @@ impl Marshaller {
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
                         FixedSizeFieldKind::Primitve(prim) if prim == primitive => {
+                            // not every bit pattern is a value of these types
+                            match primitive {
+                                types::Primitive::Bool => {
+                                    assert!(util::get_value::<u8>(data, field.offset) <= 1)
+                                }
+                                types::Primitive::Char => {
+                                    let value = util::get_value::<u32>(data, field.offset);
+                                    assert!(char::from_u32(value).is_some());
+                                }
+                                _ => (),
+                            }
+
                             return util::get_value::<T>(data, field.offset);
                         }
                         _ => panic!("Incorrect field type"),
-- 
2.43.0


From 1bc6138956b3706ea80235ed9be190654259c9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 37/59] fix: give the buffer of a handle back when it is
 dropped without having been released

Abandoning or failing an operation that holds a handle, for instance the
creation of a volume, panicked in the destructor of the handle. While
unwinding from a failed read this aborted the process.
---
 src/storage/mod.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 1f6566f..e78969f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1076,6 +1076,17 @@ impl BufferPool {
         self.drop_handle(internal, buffer_index);
     }
 
+    // Lock the mapping where it is not possible to wait, that is when something is dropped
+    fn lock_mapping<'a>(&'a self) -> async_std::sync::MutexGuard<'a, BufferPoolMapping> {
+        // nobody suspends while holding this mutex, so it becomes available immediately
+        loop {
+            match self.mapping.try_lock() {
+                Some(mapping) => break mapping,
+                None => std::thread::yield_now()
+            }
+        }
+    }
+
     // Forget a handle reference that does not hold the lock of the buffer
     fn drop_handle(&self, internal: &mut BufferPoolMapping, buffer_index: usize) {
         let (BufferAccess { mut lock, num_handles: _ }, dirty) = {
@@ -1236,14 +1247,7 @@ struct PendingAccess<'a> {
 
 impl <'a> Drop for PendingAccess<'a> {
     fn drop(&mut self) {
-        // nobody suspends while holding this mutex, so it becomes available immediately
-        let mut mapping = loop {
-            match self.pool.mapping.try_lock() {
-                Some(mapping) => break mapping,
-                None => std::thread::yield_now()
-            }
-        };
-
+        let mut mapping = self.pool.lock_mapping();
         self.pool.drop_handle(&mut mapping, self.buffer_index);
     }
 }
@@ -1339,10 +1343,12 @@ impl <'a> ReadOnlyBufferHandle<'a> {
 }
 
 impl <'a> Drop for ReadOnlyBufferHandle<'a> {
-    // get a read-only slice to the buffer content
+    // give the buffer back if the operation using this handle has been abandoned or has failed
     fn drop(&mut self) {
         if self.guard.is_some() {
-            panic!("Did not release handle")
+            let mut mapping = self.pool.lock_mapping();
+            self.guard.take();
+            self.pool.drop_handle(&mut mapping, self.buffer_index);
         }
     }
 }
@@ -1380,10 +1386,13 @@ impl <'a> ReadWriteBufferHandle<'a> {
 }
 
 impl <'a> Drop for ReadWriteBufferHandle<'a> {
-    // get a read-only slice to the buffer content
+    // give the buffer back if the operation using this handle has been abandoned or has failed
     fn drop(&mut self) {
         if self.guard.is_some() {
-            panic!("Did not release handle")
+            let mut mapping = self.pool.lock_mapping();
+            mapping.buffers[self.buffer_index].dirty = true;
+            self.guard.take();
+            self.pool.drop_handle(&mut mapping, self.buffer_index);
         }
     }
 }
-- 
2.43.0


From bc99145f9549499c5e668e2f759b562bf551e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 38/59] fix: remove the file of a volume for which there is no
 identifier left

Every further attempt to create a volume left another file behind.
---
 src/storage/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index e78969f..e0d8490 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -455,7 +455,14 @@ impl VolumeManager {
         let volume_header_copy = volume_header.clone();
 
         // TODO: Adjust errors; using NotFound as proxy for out of identifiers
-        let index = self.next_volume().map_err(|_| std::io::Error::from(std::io::ErrorKind::NotFound))?;
+        let index = match self.next_volume() {
+            Ok(index) => index,
+            Err(_) => {
+                // do not leave a file behind that is not going to be a volume
+                let _ = async_std::fs::remove_file(path).await;
+                return Err(std::io::Error::from(std::io::ErrorKind::NotFound));
+            }
+        };
 
         // register the volume file with a new index
         let volume = Volume {
-- 
2.43.0


From 873d97ec96bd4e795545ca85f9885f3eea85a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 39/59] fix: refuse to create volumes that cannot be valid
 before touching the file system

---
 src/storage/mod.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index e0d8490..9fa1615 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -219,6 +219,24 @@ impl VolumeParameters {
             log_file_header_size: DEFAULT_LOG_FILE_HEADER_RECORD_SIZE as u16,
         }
     }
+
+    // Determine if the sizes are within the limits of the volume format
+    fn within_limits(&self) -> bool {
+        const MIN_LOG_BLOCK_SIZE: u16 = MIN_VOLUME_BLOCK_SIZE.trailing_zeros() as u16;
+        const MAX_LOG_BLOCK_SIZE: u16 = MAX_VOLUME_BLOCK_SIZE.trailing_zeros() as u16;
+
+        if self.log_block_size < MIN_LOG_BLOCK_SIZE || self.log_block_size > MAX_LOG_BLOCK_SIZE {
+            return false;
+        }
+
+        let num_blocks = self.volume_size >> self.log_block_size;
+
+        num_blocks << self.log_block_size == self.volume_size &&
+            num_blocks >= MIN_VOLUME_BLOCK_COUNT as u64 &&
+            num_blocks <= (u32::MAX as u64) + 1 &&
+            self.log_file_header_size >= MIN_LOG_FILE_HEADER_RECORD_SIZE as u16 &&
+            self.log_file_header_size <= self.log_block_size
+    }
 }
 
 // How we represent volume references internally within location descriptors used by buffer pool
@@ -400,6 +418,10 @@ impl VolumeManager {
     async fn create(&mut self, path: &Path, parameters: &VolumeParameters) -> std::io::Result<VolumeIndex> {
         use async_std::os::unix::fs::OpenOptionsExt;
 
+        if !parameters.within_limits() {
+            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
+        }
+
         let block_size = 1u64 << parameters.log_block_size;
         let file_header_size = 1u64 << parameters.log_file_header_size;
         let file_table_offset = 1u64 << parameters.log_block_size;
@@ -421,6 +443,13 @@ impl VolumeManager {
             file_table_blocks * 2 +
             allocation_bitmap_blocks;
 
+        // the volume needs to have room for these blocks, and each of them has to be a page of the buffer pool
+        let buffer_pool = self.buffer_pool.upgrade().unwrap();
+
+        if total_allocated_blocks > allocation_bitmap_size_bits || block_size != buffer_pool.buffer_size as u64 {
+            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
+        }
+
         // create the file; we are using create_new to avoid accidentally overwriting a previous file
         let file = async_std::fs::OpenOptions::new()
             .read(true)
-- 
2.43.0


From b964d559d4841da69624d82175519293cb07fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 40/59] fix: a path was never a proper prefix of another

---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From e99a3e482ae17e094a48e26ebbb02fadc14d3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 41/59] sql: guarded window for deterministic simulation (cfg
 cathlamet_sim_sql)

---
 src/sql/mod.rs       |  3 +++
 src/sql/sim_hooks.rs | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+)
 create mode 100644 src/sql/sim_hooks.rs

diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index 443a2d3..5cd9981 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -28,6 +28,9 @@ mod types;
 mod parser;
 mod symbols;
 
+#[cfg(cathlamet_sim_sql)]
+pub mod sim_hooks;
+
 /// A simple error type for this library
 pub struct Error {
     message: String,
diff --git a/src/sql/sim_hooks.rs b/src/sql/sim_hooks.rs
new file mode 100644
index 0000000..61a4ba2
--- /dev/null
+++ b/src/sql/sim_hooks.rs
@@ -0,0 +1,23 @@
+// Window for the deterministic simulation in which the SQL front end is
+// checked; only compiled with `--cfg cathlamet_sim_sql`. It adds no behaviour:
+// it makes the public items of the private submodules reachable from outside.
+
+pub mod ast {
+    pub use super::super::ast::*;
+}
+
+pub mod parser {
+    pub use super::super::parser::SqlStatementParser;
+}
+
+pub mod schema {
+    pub use super::super::schema::*;
+}
+
+pub mod symbols {
+    pub use super::super::symbols::*;
+}
+
+pub mod types {
+    pub use super::super::types::*;
+}
-- 
2.43.0


From 4724347b2184f176ae2ec2b088f0be68ba2cd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 42/59] fix: common table expressions in front of INSERT,
 UPDATE and DELETE are discarded

---
 src/sql/ast/mod.rs     |  9 +++++++++
 src/sql/parser.lalrpop | 12 ++++++------
 src/sql/parser.rs      | 14 +++++++-------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/sql/ast/mod.rs b/src/sql/ast/mod.rs
index c6ec8d7..d0b8fc1 100644
--- a/src/sql/ast/mod.rs
+++ b/src/sql/ast/mod.rs
@@ -61,6 +61,9 @@ pub enum Statement {
 
 /// Representation of an insert statement
 pub struct InsertStatement {
+    /// 0 or more comon table expressions, that can be referenced by the source
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table into which we want to insert new values
     pub table_name: Vec<symbols::Name>,
 
@@ -104,6 +107,9 @@ pub struct SelectStatement {
 
 /// Represenatation of a delete statement
 pub struct DeleteStatement {
+    /// 0 or more comon table expressions, that can be referenced by the predicate
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table from which rows should be deleted
     pub table_name: Vec<symbols::Name>,
 
@@ -113,6 +119,9 @@ pub struct DeleteStatement {
 
 /// Representation of an update statement
 pub struct UpdateStatement {
+    /// 0 or more comon table expressions, that can be referenced by the assignments and the predicate
+    pub common: Vec<CommonTableExpression>,
+
     /// the qualified table name
     pub table_name: Vec<symbols::Name>,
 
diff --git a/src/sql/parser.lalrpop b/src/sql/parser.lalrpop
index c8bc9f4..d9bf6d7 100644
--- a/src/sql/parser.lalrpop
+++ b/src/sql/parser.lalrpop
@@ -149,8 +149,8 @@ Statement: ast::Statement = {
 };
 
 InsertStatement: ast::InsertStatement = {
-    TableExpressions? "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
-        ast::InsertStatement { table_name, columns, source }, 
+    <common:TableExpressions?> "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
+        ast::InsertStatement { common: common.unwrap_or(Vec::new()), table_name, columns, source }, 
 };
 
 ColumnNameList: Vec<symbols::Name> = {
@@ -158,14 +158,14 @@ ColumnNameList: Vec<symbols::Name> = {
 };
 
 DeleteStatement: ast::DeleteStatement = {
-    TableExpressions? "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
-        ast::DeleteStatement { table_name, where_expr },
+    <common:TableExpressions?> "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
+        ast::DeleteStatement { common: common.unwrap_or(Vec::new()), table_name, where_expr },
 };
 
 UpdateStatement: ast::UpdateStatement = {
-    TableExpressions? "UPDATE" <table_name:QualifiedIdentifier> 
+    <common:TableExpressions?> "UPDATE" <table_name:QualifiedIdentifier> 
     "SET" <assignments: Assignments> <where_expr:WhereClause?> =>
-        ast::UpdateStatement { table_name, assignments, where_expr },
+        ast::UpdateStatement { common: common.unwrap_or(Vec::new()), table_name, assignments, where_expr },
 };
 
 Assignments: Vec<ast::Assignment> = {
diff --git a/src/sql/parser.rs b/src/sql/parser.rs
index 8562621..f907c8f 100644
--- a/src/sql/parser.rs
+++ b/src/sql/parser.rs
@@ -1,5 +1,5 @@
 // auto-generated: "lalrpop 0.19.8"
-// sha3: f07b7b47a234d3ec455d58d940e87f91caed3ef7e8b156e9294fa4968754242f
+// sha3: 6a5abd6a99aa97d6cfe7663950e3942f23a6d1e35ab9dc257b11578c550a8de7
 use super::ast;
 use super::symbols;
 #[allow(unused_extern_crates)]
@@ -7638,7 +7638,7 @@ fn __action9<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
@@ -7646,7 +7646,7 @@ fn __action9<
     (_, source, _): (usize, Box<ast::SetExpression>, usize),
 ) -> ast::InsertStatement
 {
-    ast::InsertStatement { table_name, columns, source }
+    ast::InsertStatement { common: common.unwrap_or(Vec::new()), table_name, columns, source }
 }
 
 #[allow(unused_variables)]
@@ -7667,14 +7667,14 @@ fn __action11<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::DeleteStatement
 {
-    ast::DeleteStatement { table_name, where_expr }
+    ast::DeleteStatement { common: common.unwrap_or(Vec::new()), table_name, where_expr }
 }
 
 #[allow(unused_variables)]
@@ -7682,7 +7682,7 @@ fn __action12<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, common, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, _, _): (usize, &'input str, usize),
@@ -7690,7 +7690,7 @@ fn __action12<
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::UpdateStatement
 {
-    ast::UpdateStatement { table_name, assignments, where_expr }
+    ast::UpdateStatement { common: common.unwrap_or(Vec::new()), table_name, assignments, where_expr }
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 59b63a7add323a8999d2adb7d4b6b2f217599bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 43/59] fix: a null test has the type of its operand instead of
 being logical

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..376f2d0 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From 888736d6d093f1a106a728f38afe63a38e717343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 44/59] fix: set membership is only accepted for operands that
 may be null, and then as never being null

---
 src/sql/ast/typing.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 376f2d0..9232b75 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -624,17 +624,15 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 05fa55c29ebb80a0a7be516b25552af17f9762da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 45/59] fix: errors in the guards of a case expression are
 ignored

---
 src/sql/ast/typing.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9232b75..e32f66e 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -495,7 +495,7 @@ impl Expression {
                 ref else_part,
             } => {
                 // All when part clauses must have a guard that evaluates to a logical value
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
                     match guard_type {
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -559,17 +559,12 @@ impl Expression {
                 let expr_type = expr.infer_type(&context)?;
 
                 // All when part clauses must have a guard that evaluates to the same type as expr
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From e569ee50f6c8d0a82f88453cbdcce2cefeb4cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 46/59] fix: a case expression that yields a tuple panics

---
 src/sql/ast/typing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index e32f66e..0363439 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -545,7 +545,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -604,7 +606,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From 521e71f1d8ff8559fb6ac1d57cea4cfe81b4b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 47/59] fix: a comparison of tuples is taken as never null

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 0363439..e484519 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From fe06a3bf0e5fb071698f1275298cb992339cca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 48/59] fix: values beyond the shortest row of VALUES or a set
 operation are not checked

---
 src/sql/ast/typing.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index e484519..68ab5be 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -947,6 +947,10 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if types.len() != vals.len() {
+                            return Err(Error::from("Rows of different lengths"));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
@@ -1053,6 +1057,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Operands of set operation have different numbers of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From 5f5f176dc46b41433ede4655cfb618ec1af13eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 49/59] fix: set membership with an empty list panics

---
 src/sql/ast/typing.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 68ab5be..805cf24 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -612,6 +612,18 @@ impl Expression {
                 }
             }
 
+            // Set membership test with an empty list of values
+            &Expression::In {
+                ref expr,
+                set: SetSpecification::List(ref values),
+            } if values.is_empty() => match expr.infer_type(context)? {
+                ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null: false,
+                }),
+                _ => Err(Error::from("Incompatible types for IN expression")),
+            },
+
             // Set membership test; set should evaluate to a row set with a single column
             &Expression::In { ref expr, ref set } => {
                 let expr_type = expr.infer_type(context)?;
-- 
2.43.0


From 80cca9d719c62715c941692b8a063086ff13ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 50/59] fix: a nested select without rows is taken as never
 null

---
 src/sql/ast/typing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 805cf24..a4c009a 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -648,13 +648,14 @@ impl Expression {
 
             // nested select statement
             //
-            // should evaluate to a row set with a single column (and single row upon execution)
+            // should evaluate to a row set with a single column (and single row upon execution);
+            // the value is null if there is no row
             &Expression::Select(ref select) => {
                 let select_type = select.infer_type(&context.set_context)?;
                 if select_type.attributes.len() == 1 {
                     Ok(ScalarType::Scalar {
                         typ: select_type.attributes[0].typ,
-                        is_null: select_type.attributes[0].is_null,
+                        is_null: true,
                     })
                 } else {
                     Err(Error::from(
-- 
2.43.0


From 2dffd620418d270ca665660487d8e376f0c029ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 51/59] fix: all columns of a relation are listed in
 alphabetical order

---
 src/sql/ast/typing.rs | 51 ++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index a4c009a..1ad9cd2 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -127,7 +127,7 @@ enum ScalarContextSymbol {
     AttributeConflict,
 
     // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
+    Relation(Vec<Attribute>),
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -173,19 +173,6 @@ impl<'a> ScalarContext<'a> {
         }
 
         // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
-            .into_iter()
-            .map(|attribute| {
-                (
-                    attribute.name,
-                    ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    },
-                )
-            })
-            .collect();
-
         match self.symbols.get(&name) {
             Some(&ScalarContextSymbol::Relation(_)) => {
                 Err(Error::from(format!("Duplicate relation name '{}'", &name)))
@@ -193,7 +180,7 @@ impl<'a> ScalarContext<'a> {
             _ => {
                 mem::drop(
                     self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
+                        .insert(name, ScalarContextSymbol::Relation(attributes)),
                 );
                 Ok(())
             }
@@ -219,8 +206,12 @@ impl<'a> ScalarContext<'a> {
             },
             2 => match self.symbols.get(&qualified_name[0]) {
                 Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
+                    .iter()
+                    .find(|attribute| attribute.name == qualified_name[1])
+                    .map(|attribute| ScalarType::Scalar {
+                        typ: attribute.typ,
+                        is_null: attribute.is_null,
+                    })
                     .ok_or_else(|| {
                         Error::from(format!(
                             "Name '{}' does not refer to an attribute of relation '{}'",
@@ -1161,24 +1152,14 @@ impl ResultColumns {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
                         Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
-                                    &ScalarType::Scalar {
-                                        ref typ,
-                                        ref is_null,
-                                    } => {
-                                        let result_name =
-                                            generate_column_name(name, &mut generated_columns);
-                                        result_attributes.push(Attribute {
-                                            name: result_name,
-                                            typ: typ.clone(),
-                                            is_null: *is_null,
-                                        });
-                                    }
-                                    _ => panic!(
-                                        "Attributes of a schema object should be scalar values"
-                                    ),
-                                }
+                            for field in fields {
+                                let result_name =
+                                    generate_column_name(&field.name, &mut generated_columns);
+                                result_attributes.push(Attribute {
+                                    name: result_name,
+                                    typ: field.typ.clone(),
+                                    is_null: field.is_null,
+                                });
                             }
                         }
                         Some(_) => {
-- 
2.43.0


From 075459458c2f64a7809a30ecdbb95365da20cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 52/59] fix: a generated column name may be in use already

---
 src/sql/ast/typing.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 1ad9cd2..2baff2e 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1109,12 +1109,19 @@ fn generate_column_name(
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
 ) -> symbols::Name {
     if generated_names.contains_key(name) {
-        let result = {
-            let counter = generated_names.entry(name.clone()).or_insert(0usize);
-            *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
+        let mut counter = generated_names[name];
+
+        let result = loop {
+            counter += 1;
+            let candidate = symbols::Name::from(format!("{}{}", name, counter));
+
+            if !generated_names.contains_key(&candidate) {
+                break candidate;
+            }
         };
 
+        generated_names.insert(name.clone(), counter);
+
         generated_names.insert(result.clone(), 0usize);
         result
     } else {
-- 
2.43.0


From b12a915e1cf1f9ef447dde5220128b9d3f43fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 53/59] fix: the columns of a nested select are not found

---
 src/sql/ast/typing.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 2baff2e..d353f99 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -148,13 +148,9 @@ impl<'a> ScalarContext<'a> {
         }
     }
 
-    fn add_relation(
-        &mut self,
-        name: symbols::Name,
-        attributes: Vec<Attribute>,
-    ) -> Result<(), Error> {
-        // add the individual attributes
-        for attribute in &attributes {
+    // add the individual attributes
+    fn add_attributes(&mut self, attributes: &[Attribute]) {
+        for attribute in attributes {
             match self.symbols.get(&attribute.name) {
                 None => mem::drop(self.symbols.insert(
                     attribute.name.clone(),
@@ -171,6 +167,14 @@ impl<'a> ScalarContext<'a> {
                 Some(&ScalarContextSymbol::Relation(_)) => (),
             }
         }
+    }
+
+    fn add_relation(
+        &mut self,
+        name: symbols::Name,
+        attributes: Vec<Attribute>,
+    ) -> Result<(), Error> {
+        self.add_attributes(&attributes);
 
         // add the relationship entry
         match self.symbols.get(&name) {
@@ -1237,9 +1241,16 @@ impl TableExpression {
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+
+                // register the columns in the context, and the alias if there is one
+                match alias {
+                    &Some(ref id) => context.add_relation(id.clone(), row_type.attributes.clone())?,
+                    &None => context.add_attributes(&row_type.attributes),
+                }
+
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
-- 
2.43.0


From 07b94a1451d2dc383ad25b2d57fca7263938087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 54/59] fix: common table expressions and result columns are
 not found

---
 src/sql/ast/typing.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index d353f99..3e415b4 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -20,6 +20,7 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+use std::borrow;
 use std::mem;
 
 use super::*;
@@ -790,7 +791,10 @@ where
     }
 }
 
+#[derive(Clone)]
 struct ObjectTypes(collections::BTreeMap<symbols::Name, RowType>);
+
+#[derive(Clone)]
 struct Namespaces(collections::BTreeMap<symbols::Name, ObjectTypes>);
 
 impl<T> From<T> for ObjectTypes
@@ -831,6 +835,7 @@ where
 
 /// A context of bindings used to evaluate a type; for set expressions, we are interested in bindings
 /// of identifiers for relations.
+#[derive(Clone)]
 pub struct SetContext {
     // need a reference to a database
     namespaces: Namespaces,
@@ -910,6 +915,23 @@ impl SetContext {
         }
     }
 
+    // The context in which the provided common table expressions are known
+    fn extend<'c>(
+        &'c self,
+        cte: &[CommonTableExpression],
+    ) -> Result<borrow::Cow<'c, SetContext>, Error> {
+        let mut result = borrow::Cow::Borrowed(self);
+
+        for item in cte {
+            let row_type = item.infer_type(&result)?;
+            result
+                .to_mut()
+                .define_relation(item.identifier.clone(), row_type)?;
+        }
+
+        Ok(result)
+    }
+
     // Convenience function to construct SetContext from Database and iterator over common table expressions
     fn initialize<'c, I>(
         database: &schema::Database,
@@ -1356,18 +1378,16 @@ impl Statement {
 
 impl SelectStatement {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
-        let mut scalar_context = ScalarContext::new(context);
-
-        // common table expression; validate type of each expression and build up a ScalarConext
-        for ref cte in &self.common {
-            let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes)?;
-        }
+        // common table expressions; validate type of each expression and make it known to the others
+        let context = &*context.extend(&self.common)?;
 
         // set expression
         let result_type = self.expr.infer_type(context)?;
 
-        // order by
+        // order by; rows are ordered by the columns of the result
+        let mut scalar_context = ScalarContext::new(context);
+        scalar_context.add_attributes(&result_type.attributes);
+
         for ref iter in &self.order_by {
             iter.validate_type(&scalar_context)?;
         }
@@ -1391,7 +1411,7 @@ impl InsertStatement {
                 .map(|attribute| (attribute.name.clone(), (attribute.typ, attribute.is_null)))
                 .collect();
 
-        let values_type = self.source.infer_type(&context)?;
+        let values_type = self.source.infer_type(&*context.extend(&self.common)?)?;
 
         match &self.columns {
             &None => {
@@ -1476,6 +1496,7 @@ impl UpdateStatement {
             .collect();
 
         let identifier = self.table_name.last().unwrap().clone();
+        let context = context.extend(&self.common)?;
         let mut scalar_context = ScalarContext::new(&context);
 
         scalar_context.add_relation(identifier, row_type.attributes.clone())?;
@@ -1538,6 +1559,7 @@ impl DeleteStatement {
         // validate that the table name exists in the schema. If not => error
         let row_type = context.resolve_table_name(&self.table_name)?;
         let identifier = self.table_name.last().unwrap().clone();
+        let context = context.extend(&self.common)?;
         let mut scalar_context = ScalarContext::new(&context);
         scalar_context.add_relation(identifier, row_type.attributes.clone())?;
 
-- 
2.43.0


From 88b66cad4a90019168070fcf56b8a95a9ffa2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 55/59] fix: inserted values are assigned to columns by
 generated names instead of position

---
 src/sql/ast/typing.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 3e415b4..65f7e07 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1415,27 +1415,23 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
+                if values_type.attributes.len() > row_type.attributes.len() {
+                    return Err(Error::from("More values provided than columns of the table"));
+                }
+
                 // iterate over the value attriute types, and verify that the
-                // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
-                        &None => {
-                            return Err(Error::from(format!(
-                                "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
-                            )))
-                        }
-                        &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
-                                return Err(Error::from(format!(
-                                    "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
-                                )));
-                            }
-                        }
+                // associated type can be assigned to the column of the table row at the same position
+                for (ref attribute, ref column) in
+                    values_type.attributes.iter().zip(row_type.attributes.iter())
+                {
+                    if !attribute.is_assignable_to(column) {
+                        return Err(Error::from(format!(
+                            "Cannot assign value '{}' to column '{}'",
+                            attribute.name, column.name
+                        )));
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


From 11e8d3c805cd77169614e3d0dc0bc206f1715ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 56/59] fix: join constraints are not checked

---
 src/sql/ast/typing.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 65f7e07..8f0488d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1279,11 +1279,40 @@ impl TableExpression {
                 ref left,
                 ref right,
                 op: _,
-                constraint: _,
+                ref constraint,
             } => {
                 let (left_context, mut attributes) = left.infer_type(context)?;
                 let (result_context, mut right_attributes) = right.infer_type(left_context)?;
 
+                match constraint {
+                    &JoinConstraint::Expr(ref expr) => match expr.infer_type(&result_context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "Join constraint must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    },
+                    &JoinConstraint::Columns(ref names) => for name in names {
+                        let left_column = attributes.iter().find(|column| column.name == *name);
+                        let right_column = right_attributes.iter().find(|column| column.name == *name);
+
+                        match (left_column, right_column) {
+                            (Some(left), Some(right)) if left.typ == right.typ => (),
+                            (Some(_), Some(_)) => return Err(Error::from("Incompatible types")),
+                            _ => {
+                                return Err(Error::from(format!(
+                                    "Column '{}' needs to be defined on both sides of a join",
+                                    name
+                                )))
+                            }
+                        }
+                    },
+                }
+
                 attributes.append(&mut right_attributes);
                 Ok((result_context, attributes))
             }
-- 
2.43.0


From c34725dd534370e7f137b6a41e766bbb0e5e1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 57/59] fix: columns of an outer join are taken as never null

---
 src/sql/ast/typing.rs | 75 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 8f0488d..5f5ab9b 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1234,6 +1234,56 @@ impl ResultColumns {
 }
 
 impl TableExpression {
+    // The attributes of this expression may be null, even if the ones of the underlying tables may not
+    fn set_is_null(&self, context: &mut ScalarContext, attributes: &mut [Attribute]) {
+        for attribute in attributes {
+            attribute.is_null = true;
+
+            if let Some(&mut ScalarContextSymbol::Attribute(ScalarType::Scalar {
+                typ: _,
+                ref mut is_null,
+            })) = context.symbols.get_mut(&attribute.name)
+            {
+                *is_null = true;
+            }
+        }
+
+        self.set_relations_is_null(context);
+    }
+
+    fn set_relations_is_null(&self, context: &mut ScalarContext) {
+        let identifier = match self {
+            &TableExpression::Named {
+                ref name,
+                ref alias,
+            } => alias.as_ref().or(name.last()),
+            &TableExpression::Select {
+                select: _,
+                ref alias,
+            } => alias.as_ref(),
+            &TableExpression::Join {
+                ref left,
+                ref right,
+                op: _,
+                constraint: _,
+            } => {
+                left.set_relations_is_null(context);
+                right.set_relations_is_null(context);
+                None
+            }
+        };
+
+        if let Some(identifier) = identifier {
+            if let Some(&mut ScalarContextSymbol::Relation(ref mut attributes)) =
+                context.symbols.get_mut(identifier)
+            {
+                for attribute in attributes {
+                    attribute.is_null = true;
+                }
+            }
+        }
+    }
+
     // The RowSet represents the columns that are visible in SELECT *; the ScalarContext provides
     // look-up information for any other expression that is to be evaluated.
     fn infer_type<'a>(
@@ -1278,11 +1328,11 @@ impl TableExpression {
             &TableExpression::Join {
                 ref left,
                 ref right,
-                op: _,
+                ref op,
                 ref constraint,
             } => {
                 let (left_context, mut attributes) = left.infer_type(context)?;
-                let (result_context, mut right_attributes) = right.infer_type(left_context)?;
+                let (mut result_context, mut right_attributes) = right.infer_type(left_context)?;
 
                 match constraint {
                     &JoinConstraint::Expr(ref expr) => match expr.infer_type(&result_context)? {
@@ -1313,6 +1363,27 @@ impl TableExpression {
                     },
                 }
 
+                // rows without a counterpart are completed with null values
+                let (left_is_null, right_is_null) = match op {
+                    &JoinOperator::Join(ref join_type) | &JoinOperator::Natural(ref join_type) => {
+                        match join_type {
+                            &JoinType::Inner => (false, false),
+                            &JoinType::Left => (false, true),
+                            &JoinType::Right => (true, false),
+                            &JoinType::Full => (true, true),
+                        }
+                    }
+                    &JoinOperator::Cross => (false, false),
+                };
+
+                if left_is_null {
+                    left.set_is_null(&mut result_context, &mut attributes);
+                }
+
+                if right_is_null {
+                    right.set_is_null(&mut result_context, &mut right_attributes);
+                }
+
                 attributes.append(&mut right_attributes);
                 Ok((result_context, attributes))
             }
-- 
2.43.0


From 35992d876aa998faca9fefeebcf0b2afbea414f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 58/59] sql: extend the guarded window to the typing of
 statements (cfg cathlamet_sim_sql)

---
 src/sql/ast/typing.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 5f5ab9b..851f7cb 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1758,3 +1758,27 @@ impl CommonTableExpression {
         }
     }
 }
+
+/// Window for deterministic simulation, which creates contexts and looks at inferred types
+#[cfg(cathlamet_sim_sql)]
+pub mod sim_hooks {
+    use super::*;
+
+    /// The context of a statement, given the catalogue and the schema of unqualified tables
+    pub fn context(database: &schema::Database, default_schema: symbols::Name) -> SetContext {
+        SetContext::new(database, default_schema)
+    }
+
+    /// Name, type and nullability of the columns a statement returns
+    pub fn columns(
+        select: &SelectStatement,
+        context: &SetContext,
+    ) -> Result<Vec<(symbols::Name, types::DataType, bool)>, Error> {
+        Ok(select
+            .infer_type(context)?
+            .attributes
+            .into_iter()
+            .map(|attribute| (attribute.name, attribute.typ, attribute.is_null))
+            .collect())
+    }
+}
-- 
2.43.0


From 5fd4d4eac9537817c7e96ccd0837396e47bac91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 59/59] fix: a result column that is a column of a table loses
 its name

---
 src/sql/ast/typing.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 851f7cb..20879e1 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1210,9 +1210,12 @@ impl ResultColumns {
                             return Err(Error::from("Result column needs to be a scalar type"))
                         }
                         ScalarType::Scalar { typ, is_null } => {
-                            let name = match alias {
-                                &None => symbols::Name::from("col"),
-                                &Some(ref name) => name.clone(),
+                            let name = match (alias, &**expr) {
+                                (&Some(ref name), _) => name.clone(),
+                                (&None, &Expression::QualifiedIdentifier(ref qualident)) => {
+                                    qualident.last().unwrap().clone()
+                                }
+                                (&None, _) => symbols::Name::from("col"),
                             };
                             result_attributes.push(Attribute {
                                 name: generate_column_name(&name, &mut generated_columns),
-- 
2.43.0

