From 57d268c72ca6e3d55ca6ab8f7a5c86f592e2c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:17 +0000
Subject: [PATCH 01/29] fix: make borrowing of guarded memory safe across
 threads

Boxed kept its protection level and borrow count in plain Cells while being
Sync: concurrent borrows of one Buffer could lose a count, panic, or revoke
access to the memory while another thread was still reading it.
---
 engine/runtime/src/boxed.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..f6d2023 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -11,6 +11,7 @@ use core::{
     ptr::NonNull,
     slice,
 };
+use std::sync::{Mutex, MutexGuard, PoisonError};
 
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
@@ -27,7 +28,6 @@ enum Prot {
 type RefCount = u8;
 
 /// A protected piece of memory.
-#[derive(Eq)]
 pub(crate) struct Boxed<T: Bytes> {
     // the pointer to the underlying protected memory
     ptr: NonNull<T>,
@@ -37,6 +37,8 @@ pub(crate) struct Boxed<T: Bytes> {
     prot: Cell<Prot>,
     // The number of current borrows of this pointer.
     refs: Cell<RefCount>,
+    // Serializes the accesses to `prot` and `refs`: a shared `Boxed` may be borrowed by several threads at once.
+    state: Mutex<()>,
 }
 
 impl<T: Bytes> Boxed<T> {
@@ -110,7 +112,7 @@ impl<T: Bytes> Boxed<T> {
     pub(crate) fn as_ref(&self) -> &T {
         assert!(!self.is_empty(), "Attempted to dereference a zero-length pointer");
 
-        assert!(self.prot.get() != Prot::NoAccess, "May not call Boxed while locked");
+        assert!(self.prot() != Prot::NoAccess, "May not call Boxed while locked");
 
         unsafe { self.ptr.as_ref() }
     }
@@ -119,7 +121,7 @@ impl<T: Bytes> Boxed<T> {
         assert!(!self.is_empty(), "Attempted to dereference a zero-length pointer");
 
         assert!(
-            self.prot.get() == Prot::ReadWrite,
+            self.prot() == Prot::ReadWrite,
             "May not call Boxed unless mutably unlocked"
         );
 
@@ -127,14 +129,14 @@ impl<T: Bytes> Boxed<T> {
     }
 
     pub(crate) fn as_slice(&self) -> &[T] {
-        assert!(self.prot.get() != Prot::NoAccess, "May not call Boxed while locked");
+        assert!(self.prot() != Prot::NoAccess, "May not call Boxed while locked");
 
         unsafe { slice::from_raw_parts(self.ptr.as_ptr(), self.len) }
     }
 
     pub(crate) fn as_mut_slice(&mut self) -> &mut [T] {
         assert!(
-            self.prot.get() == Prot::ReadWrite,
+            self.prot() == Prot::ReadWrite,
             "May not call Boxed unless mutably unlocked"
         );
 
@@ -154,10 +156,21 @@ impl<T: Bytes> Boxed<T> {
             len,
             prot: Cell::new(Prot::ReadWrite),
             refs: Cell::new(1),
+            state: Mutex::new(()),
         }
     }
 
+    fn lock_state(&self) -> MutexGuard<'_, ()> {
+        self.state.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
+    fn prot(&self) -> Prot {
+        let _state = self.lock_state();
+        self.prot.get()
+    }
+
     fn retain(&self, prot: Prot) {
+        let _state = self.lock_state();
         let refs = self.refs.get();
 
         if refs == 0 {
@@ -185,6 +198,7 @@ impl<T: Bytes> Boxed<T> {
     }
 
     fn release(&self) {
+        let _state = self.lock_state();
         assert!(self.refs.get() != 0, "Releases exceeded retains");
 
         assert!(
@@ -290,6 +304,8 @@ impl<T: Bytes + ConstEq> PartialEq for Boxed<T> {
     }
 }
 
+impl<T: Bytes + ConstEq + Eq> Eq for Boxed<T> {}
+
 impl<T: Bytes + Zeroed> From<&mut T> for Boxed<T> {
     fn from(data: &mut T) -> Self {
         Self::new(1, |b| unsafe { data.copy_and_zero(b.as_mut()) })
-- 
2.43.0


From d18eb9c83b2323ecaa88eee363416a6f37505af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:17 +0000
Subject: [PATCH 02/29] fix: compare lengths before comparing guarded contents
 in constant time

Ref/RefMut equality read past the end of the shorter left-hand side, and
called a longer left-hand side equal to its own prefix.
---
 engine/runtime/src/types/const_eq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/runtime/src/types/const_eq.rs b/engine/runtime/src/types/const_eq.rs
index f827ef5..85461dd 100644
--- a/engine/runtime/src/types/const_eq.rs
+++ b/engine/runtime/src/types/const_eq.rs
@@ -8,6 +8,11 @@ use libsodium_sys::sodium_memcmp;
 /// A trait for comparing types in Constant Time using [`sodium_memcmp`].
 pub trait ConstEq: ContiguousBytes {
     fn const_eq(&self, rhs: &Self) -> bool {
+        // contents of different length are never equal, and must not be compared beyond the end of either
+        if self.as_bytes().len() != rhs.as_bytes().len() {
+            return false;
+        }
+
         unsafe {
             sodium_memcmp(
                 self.as_bytes().as_ptr() as *const _,
-- 
2.43.0


From 98f2140342e79c4963ba466a51675f5271c129b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:23 +0000
Subject: [PATCH 03/29] fix: give a cloned Frag memory of its own

The derived Clone copied the pointer, so dropping either copy freed and
zeroized the memory of the other (NonContiguousMemory with FragAllocation).
---
 engine/runtime/src/memories/frag.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..6d414c6 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -72,6 +71,24 @@ pub struct Frag<T: Default + Clone> {
     info: Option<(windows::Win32::Foundation::HANDLE, *const libc::c_void)>,
 }
 
+impl<T: Default + Clone> Clone for Frag<T> {
+    /// Copies the value into a newly allocated fragment: a fragment owns its memory exclusively.
+    fn clone(&self) -> Self {
+        let config = Some(FragConfig::new(self.ptr.as_ptr() as usize));
+        let mut frag = match self.strategy {
+            FragStrategy::Direct => DirectAlloc::alloc(config),
+            FragStrategy::Map | FragStrategy::Hybrid => MemoryMapAlloc::alloc(config),
+        }
+        .expect("Error while allocating memory for a cloned fragment");
+
+        match self.get() {
+            Ok(data) => frag.set(data.clone()).expect("A new fragment is alive"),
+            Err(_) => frag.live = false,
+        }
+        frag
+    }
+}
+
 impl<T: Default + Clone> Zeroize for Frag<T> {
     fn zeroize(&mut self) {
         self.live = false;
-- 
2.43.0


From a4b839402d094e2ddc5e389cf17fecf5e508398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:29 +0000
Subject: [PATCH 04/29] fix: do not free a rejected fragment twice

A fragment too close to the first one was deallocated and then dropped,
which wrote to the freed memory and freed it again.
---
 engine/runtime/src/memories/frag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 6d414c6..79db5d3 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -144,7 +144,7 @@ impl<T: Default + Clone> Frag<T> {
 
         for _ in 0..MAX_RETRY_ATTEMPTS {
             let config = Some(FragConfig::new(a.ptr.as_ptr() as usize));
-            let mut b = match strategy {
+            let b = match strategy {
                 FragStrategy::Direct => DirectAlloc::alloc(config),
                 FragStrategy::Map => MemoryMapAlloc::alloc(config),
                 FragStrategy::Hybrid => MemoryMapAlloc::alloc(config),
@@ -158,7 +158,7 @@ impl<T: Default + Clone> Frag<T> {
                     b.ptr.as_ptr() as usize,
                     &a as *const _ as usize
                 );
-                Frag::dealloc(&mut b)?;
+                // dropping `b` deallocates it
                 continue;
             }
             info!("Mapped 2 fragments: at {:?} and {:?}", a.ptr, b.ptr);
-- 
2.43.0


From 8120f7e03094badd45140c38957dd431a2970478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:35 +0000
Subject: [PATCH 05/29] fix: align directly allocated fragments

The random offset into the allocated block ignored the alignment of T.
---
 engine/runtime/src/memories/frag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 79db5d3..4cc6f7f 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -423,7 +423,9 @@ where
 
             // we are searching for some address in between
             let offset = rng.gen::<usize>().min(max - actual_size);
-            let actual_mem = ((mem_ptr as usize) + offset) as *mut T;
+            let addr = (mem_ptr as usize) + offset;
+            // move down to an address that is suitably aligned for `T`
+            let actual_mem = (addr - addr % std::mem::align_of::<T>()) as *mut T;
             actual_mem.write(T::default());
 
             Ok(Frag {
-- 
2.43.0


From 33c1abde5ad2f815e5ac44ed7fd67608b0620c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 06/29] fix: revoke exactly what a failing procedure chain has
 written

A procedure that fails has not written its output, so a record that already
existed at that location must be left alone. The outputs of AesKeyWrapDecrypt
and ConcatSecret were not revoked at all.
---
 client/src/procedures/primitives.rs | 5 +++++
 client/src/types/client.rs          | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..e46f534 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,11 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output,
+                ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..bec4ec4 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,9 +243,7 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            let target = proc.output();
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
@@ -255,6 +253,8 @@ impl Client {
                     return Err(e);
                 }
             };
+            // Only a procedure that succeeded has written to its target.
+            log.extend(target);
             out.push(output);
         }
         Ok(out)
-- 
2.43.0


From 96f7249417d1f1566c53c2074f1bd5879268d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 07/29] fix: keep client state keys apart from the keys of
 stored snapshot keys

A client id and a vault id derived from the same path are equal, so storing a
snapshot key in a vault named like a client made one key overwrite the other.
---
 client/src/types/snapshot.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index dbca914..f3cb5c8 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -52,8 +52,10 @@ impl<'a> SyncClients<'a> for ClientState {
 /// Wrapper for the [`SnapshotState`] data structure.
 #[derive(Default)]
 pub struct Snapshot {
-    // Keys for vaults in db and for the encrypted client states.
+    // Keys for vaults in db.
     keystore: KeyStore<Provider>,
+    // Keys for the encrypted client states.
+    state_keys: KeyStore<Provider>,
     // Db with snapshot keys.
     db: DbView<Provider>,
     // Loaded snapshot states with each client state separately encrypted.
@@ -165,7 +167,7 @@ impl Snapshot {
         let ((encrypted, store), key) = match self
             .states
             .get(&id)
-            .and_then(|state| self.keystore.get_key(vid).map(|pkey| (state, pkey)))
+            .and_then(|state| self.state_keys.get_key(vid).map(|pkey| (state, pkey)))
             .and_then(|(state, pkey)| {
                 let k = &pkey.key;
                 k.borrow().deref().try_into().ok().map(|k| (state, k))
@@ -248,7 +250,7 @@ impl Snapshot {
         let mut buffer = Vec::new();
         write(&bytes, &mut buffer, &key, &[])?;
         let pkey = PKey::load(key.into()).expect("Provider::box_key_len == KEY_SIZE == 32");
-        self.keystore.insert_key(vault_id, pkey)?;
+        self.state_keys.insert_key(vault_id, pkey)?;
         self.states.insert(id, (buffer, store));
         Ok(())
     }
@@ -393,6 +395,7 @@ impl Snapshot {
     /// but from [`crate::Stronghold::clear()`]
     pub(crate) fn clear(&mut self) -> Result<(), SnapshotError> {
         self.keystore.clear_keys();
+        self.state_keys.clear_keys();
         self.db.clear();
         self.states.clear();
 
-- 
2.43.0


From 97451e4e4ac53d3930937fe745a0e51a89815a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 08/29] fix: compare client vaults by the mapped vault and
 honour selected records

The blob ids at the target were read with the key of the source vault's id, so
a second sync of a mapped vault failed with an invalid key. The selection of
records was ignored if the target vault did not exist yet.
---
 client/src/sync.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..b3fd9e0 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,11 +136,6 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-            if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
-                diff.insert(vid, d);
-                continue;
-            }
             let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
@@ -158,14 +153,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
-- 
2.43.0


From bc46db6c9e4acbcb9f1f9bc6a0ecdaa888ff21b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 09/29] fix: leave revoked records out of the entries of a
 vault

A single revoked record that had not been garbage collected made every
synchronization of its vault fail.
---
 engine/src/vault/view.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..20f647c 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -377,6 +377,10 @@ impl<P: BoxProvider> Vault<P> {
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
         for (&id, record) in self.entries.iter() {
+            // A revoked record is gone, even if it has not been collected yet.
+            if record.revoke.is_some() {
+                continue;
+            }
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From 5e8655f49891ae74d873fb6387ed27cefac510ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 10/29] fix: map clients and vaults when merging snapshot
 states

The diff, the key and the imported records used the ids of the source instead
of the mapped ones, and a failing import was not reported.
---
 client/src/sync.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index b3fd9e0..a892ff5 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -305,7 +305,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
@@ -360,23 +360,23 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c))?,
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))?
                 }
             };
         }
-- 
2.43.0


From 0ce8e536dc756e1ec5b6b507c3b009bdae78141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 11/29] fix: report malformed records instead of panicking on
 them

Records received from a peer may not decrypt or may be too short. The panic
happened while locks were held, which made the client unusable.
---
 client/src/internal/provider.rs |  7 +++++++
 engine/src/vault/view.rs        | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/client/src/internal/provider.rs b/client/src/internal/provider.rs
index ff42932..dbca16d 100644
--- a/client/src/internal/provider.rs
+++ b/client/src/internal/provider.rs
@@ -59,6 +59,13 @@ impl BoxProvider for Provider {
 
     /// Decrypts the data using the xchacha20-poly1305 algorithm.
     fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> Result<Vec<u8>, Self::Error> {
+        if data.len() < Self::box_overhead() {
+            return Err(crypto::Error::BufferSize {
+                name: "data buffer",
+                needs: Self::box_overhead(),
+                has: data.len(),
+            });
+        }
         let (tag, ct) = data.split_at(Self::TAG_LEN);
         let (nonce, cipher) = ct.split_at(Self::NONCE_LEN);
 
diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 20f647c..bd29815 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -299,9 +299,7 @@ impl<P: BoxProvider> DbView<P> {
             self.init_vault(new_key, vid);
         }
         for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
@@ -512,9 +510,18 @@ impl Record {
             RecordError::CorruptedContent("Could not type decrypted transaction as data-transaction".into())
         })?;
 
-        let blob = SealedBlob::from(self.blob.as_ref())
+        let blob: Vec<u8> = SealedBlob::from(self.blob.as_ref())
             .decrypt(key, tx.blob)
-            .expect("Unable to decrypt blob");
+            .map_err(|e| match e {
+                DecryptError::Provider(e) => RecordError::Provider(e),
+                DecryptError::Invalid => unreachable!("Vec<u8>: TryFrom<Vec<u8>> is infallible."),
+            })?;
+
+        if blob.len() as u64 != tx.len.u64() {
+            return Err(RecordError::CorruptedContent(
+                "Length of the blob does not match the data-transaction".into(),
+            ));
+        }
 
         let guarded = Buffer::alloc(&blob, tx.len.u64() as usize);
 
-- 
2.43.0


From cc71fd4dbaf3163221971d1d9d5669138139da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 12/29] fix: do not panic on lifetimes beyond the representable
 time and hide expired keys

---
 engine/src/store/storage.rs       |  3 ++-
 engine/src/store/storage/cache.rs | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/src/store/storage.rs b/engine/src/store/storage.rs
index 7c8b217..81541a0 100644
--- a/engine/src/store/storage.rs
+++ b/engine/src/store/storage.rs
@@ -20,7 +20,8 @@ impl<T> Value<T> {
     pub fn new(val: T, duration: Option<Duration>) -> Self {
         Value {
             val,
-            expiration: duration.map(|d| SystemTime::now() + d),
+            // a lifetime that ends beyond the representable time never expires.
+            expiration: duration.and_then(|d| SystemTime::now().checked_add(d)),
         }
     }
 
diff --git a/engine/src/store/storage/cache.rs b/engine/src/store/storage/cache.rs
index b0b66f0..73bc01a 100644
--- a/engine/src/store/storage/cache.rs
+++ b/engine/src/store/storage/cache.rs
@@ -240,9 +240,15 @@ impl<K: Hash + Eq + Clone, V: Clone + Debug> Cache<K, V> {
         self.last_scan_at = None;
     }
 
-    /// Returns a list of all keys inside the [`Cache`] as references
+    /// Returns a list of all keys inside the [`Cache`]. The keys of expired items are left out.
     pub fn keys(&self) -> Vec<K> {
-        self.table.keys().cloned().collect()
+        let now = SystemTime::now();
+
+        self.table
+            .iter()
+            .filter(|(_, value)| !value.has_expired(now))
+            .map(|(key, _)| key.clone())
+            .collect()
     }
 
     /// attempts to remove expired items based on the current system time provided.
-- 
2.43.0


From f8c5e77e8a48b5bd11420401190f0f91b9ad1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 13/29] fix: do not panic in the cache scanner if the system
 time is set back

---
 engine/src/store/storage/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/store/storage/cache.rs b/engine/src/store/storage/cache.rs
index 73bc01a..b33afb2 100644
--- a/engine/src/store/storage/cache.rs
+++ b/engine/src/store/storage/cache.rs
@@ -256,7 +256,8 @@ impl<K: Hash + Eq + Clone, V: Clone + Debug> Cache<K, V> {
         if let Some(frequency) = self.scan_freq {
             let since = now
                 .duration_since(self.last_scan_at.unwrap_or(self.created_at))
-                .expect("System time is before the scanned time");
+                // the system time may have been set back, in this case there is nothing to scan yet.
+                .unwrap_or_default();
 
             if since >= frequency {
                 self.table.retain(|_, value| !value.has_expired(now));
-- 
2.43.0


From 1aed42d65545b0e663234b3c884532747a2f2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 14/29] fix: reject AES key wrap keys of the wrong length

The cipher panics on them, and unwrapping runs while the locks of the client
are held, which made the client unusable.
---
 client/src/procedures/primitives.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e46f534..a9c52f3 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -985,6 +985,18 @@ pub enum AesKeyWrapCipher {
     Aes256,
 }
 
+/// The cipher panics on a key of the wrong length.
+fn check_key_wrap_key(key: &[u8]) -> Result<(), crypto::Error> {
+    if key.len() != Aes256Kw::KEY_LENGTH {
+        return Err(crypto::Error::BufferSize {
+            has: key.len(),
+            needs: Aes256Kw::KEY_LENGTH,
+            name: "key",
+        });
+    }
+    Ok(())
+}
+
 /// Encrypts a key in a vault using another key, and returns the ciphertext.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct AesKeyWrapEncrypt {
@@ -1010,6 +1022,8 @@ impl UseSecret<2> for AesKeyWrapEncrypt {
 
 impl AesKeyWrapEncrypt {
     fn wrap_key(&self, encryption_key: &[u8], wrap_key: &[u8]) -> Result<Vec<u8>, FatalProcedureError> {
+        check_key_wrap_key(encryption_key)?;
+
         // This uses Aes256Kw unconditionally, since AesKeyWrapCipher has just one variant.
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
         let mut ciphertext: Vec<u8> = vec![0; wrap_key.len() + Aes256Kw::BLOCK];
@@ -1056,6 +1070,8 @@ impl DeriveSecret<1> for AesKeyWrapDecrypt {
 
 impl AesKeyWrapDecrypt {
     fn unwrap_key(&self, decryption_key: &[u8]) -> Result<Vec<u8>, FatalProcedureError> {
+        check_key_wrap_key(decryption_key)?;
+
         // This uses Aes256Kw unconditionally, since AesKeyWrapCipher has just one variant.
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
         let plaintext_len: usize = self.wrapped_key.len().checked_sub(Aes256Kw::BLOCK).ok_or_else(|| {
-- 
2.43.0


From 855f3a7b79d7a637d21e9d37251f5c4a34a168cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 15/29] fix: do not overflow when computing the rounds of the
 concat kdf

A key length near the maximum wrapped around to an empty key.
---
 client/src/procedures/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index a9c52f3..5dc9845 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -941,7 +941,8 @@ impl ConcatKdf {
 
         let mut output: Vec<u8> = Vec::new();
 
-        let target: usize = (len + (<D as Digest>::output_size() - 1)) / <D as Digest>::output_size();
+        let target: usize =
+            len / <D as Digest>::output_size() + usize::from(len % <D as Digest>::output_size() != 0);
         let rounds: u32 =
             u32::try_from(target).map_err(|_| FatalProcedureError::from("u32 iteration overflow".to_owned()))?;
 
-- 
2.43.0


From 966f2022e6f8d7c81ba7291b1a0be0cf09d457a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 16/29] fix: report a seed size that can not be allocated

---
 client/src/procedures/primitives.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 5dc9845..c04fffb 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -448,7 +448,10 @@ impl GenerateSecret for Slip10Generate {
 
     fn generate(self) -> Result<Products<Self::Output>, FatalProcedureError> {
         let size_bytes = self.size_bytes.unwrap_or(64);
-        let mut seed = vec![0u8; size_bytes];
+        let mut seed = Vec::new();
+        seed.try_reserve_exact(size_bytes)
+            .map_err(|e| FatalProcedureError::from(e.to_string()))?;
+        seed.resize(size_bytes, 0u8);
         fill(&mut seed)?;
         Ok(Products {
             secret: seed,
-- 
2.43.0


From a8de0f31bdcadef4fdf88a507d5435477f07a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 17/29] fix: hand out the bytes of public keys and signatures
 to native callers

The returned pointer was the one to the header of the vector, so callers read
an address and lengths instead of the key or signature, and the header was
later released with the wrong layout.
---
 bindings/native/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bindings/native/src/lib.rs b/bindings/native/src/lib.rs
index d2c75cf..6cfd520 100644
--- a/bindings/native/src/lib.rs
+++ b/bindings/native/src/lib.rs
@@ -30,6 +30,17 @@ fn set_last_error(err: WrapperError) {
     });
 }
 
+/// Copies `data` into memory that is released by [`stronghold_destroy_data_pointer`].
+fn into_data_pointer(data: &[u8]) -> *mut u8 {
+    unsafe {
+        let ptr = libc::malloc(data.len()) as *mut u8;
+        if !ptr.is_null() {
+            ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
+        }
+        ptr
+    }
+}
+
 #[no_mangle]
 pub extern "C" fn stronghold_set_log_level(log_level: libc::size_t) {
     let filter = match log_level {
@@ -146,7 +157,7 @@ pub unsafe extern "C" fn stronghold_destroy_data_pointer(ptr: *mut u8) {
         return;
     }
 
-    let _ = Box::from_raw(ptr);
+    libc::free(ptr as *mut _);
 
     info!("[Rust] Destroyed instance");
 }
@@ -183,7 +194,7 @@ pub unsafe extern "C" fn stronghold_generate_ed25519_keypair(
         }
     };
 
-    Box::into_raw(Box::new(chain_code)) as *mut _
+    into_data_pointer(&[chain_code.into()])
 }
 
 /// # Safety
@@ -306,7 +317,7 @@ pub unsafe extern "C" fn stronghold_get_public_key(
         }
     };
 
-    Box::into_raw(Box::new(public_key)) as *mut _
+    into_data_pointer(&public_key)
 }
 
 /// # Safety
@@ -338,5 +349,5 @@ pub unsafe extern "C" fn stronghold_sign(
         }
     };
 
-    Box::into_raw(Box::new(signature)) as *mut _
+    into_data_pointer(&signature)
 }
-- 
2.43.0


From f1320d8fab037db270951dd5849a8f96733f0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 18/29] fix: a snapshot with senseless lengths aborted the
 process on load

---
 engine/runtime/src/memories/buffer.rs               | 3 ++-
 engine/runtime/src/memories/file_memory.rs          | 3 ++-
 engine/runtime/src/memories/noncontiguous_memory.rs | 3 ++-
 engine/runtime/src/memories/ram_memory.rs           | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/engine/runtime/src/memories/buffer.rs b/engine/runtime/src/memories/buffer.rs
index 2b32dca..a0076a4 100644
--- a/engine/runtime/src/memories/buffer.rs
+++ b/engine/runtime/src/memories/buffer.rs
@@ -261,7 +261,8 @@ where
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0));
+        // the promised size is not to be trusted.
+        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 1fdec12..5adf31a 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -266,7 +266,8 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        // the promised size is not to be trusted.
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index a7f7fab..ec4b3f6 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -308,7 +308,8 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        // the promised size is not to be trusted.
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index 5ff1f87..3b72f1e 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -125,7 +125,8 @@ impl<'de> Visitor<'de> for RamMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        // the promised size is not to be trusted.
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
-- 
2.43.0


From b606f952f0609454de9eb2187eee2e9ae123b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 19/29] fix: accesses to a file-backed share from several
 threads closed the file for each other

---
 engine/runtime/src/memories/file_memory.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 5adf31a..3e99c65 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -17,6 +17,7 @@ use std::{
     fs::{self, File},
     io::{self, prelude::*},
     path::PathBuf,
+    sync::{Mutex, PoisonError},
 };
 
 #[cfg(unix)]
@@ -35,6 +36,8 @@ pub struct FileMemory {
     noise: Vec<u8>,
     // Size of the decrypted data
     size: usize,
+    // Serializes the accesses to the file: each of them opens its permissions and closes them again
+    access: Mutex<()>,
 }
 
 impl FileMemory {
@@ -50,7 +53,12 @@ impl FileMemory {
 
         // Write to file
         let fname = FileMemory::new_fname().or(Err(FileSystemError))?;
-        let fm = FileMemory { fname, noise, size };
+        let fm = FileMemory {
+            fname,
+            noise,
+            size,
+            access: Mutex::new(()),
+        };
         fm.write_to_file(&data).or(Err(FileSystemError))?;
         Ok(fm)
     }
@@ -92,6 +100,7 @@ impl FileMemory {
 
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
+        let _access = self.access.lock().unwrap_or_else(PoisonError::into_inner);
         self.set_read_only()?;
         let content = fs::read(&self.fname)?;
         self.lock_file()?;
@@ -222,13 +231,16 @@ impl Clone for FileMemory {
     fn clone(&self) -> Self {
         let error_msg = "Issue while copying file";
         let fname = FileMemory::new_fname().expect(error_msg);
+        let access = self.access.lock().unwrap_or_else(PoisonError::into_inner);
         self.set_read_only().expect(error_msg);
         fs::copy(&self.fname, fname.clone()).expect(error_msg);
         self.lock_file().expect(error_msg);
+        drop(access);
         let fm = FileMemory {
             fname,
             noise: self.noise.clone(),
             size: self.size,
+            access: Mutex::new(()),
         };
         fm.lock_file().expect(error_msg);
         fm
-- 
2.43.0


From c479972e086e8bd95aaa6ea0da085b6cd1f7f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 20/29] fix: the file of a file-backed share was readable by
 others until it was locked

---
 engine/runtime/src/memories/file_memory.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 3e99c65..e74434f 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -16,12 +16,12 @@ use serde::{
 use std::{
     fs::{self, File},
     io::{self, prelude::*},
-    path::PathBuf,
+    path::{Path, PathBuf},
     sync::{Mutex, PoisonError},
 };
 
 #[cfg(unix)]
-use std::os::unix::fs::PermissionsExt;
+use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 
 use zeroize::Zeroize;
 
@@ -174,10 +174,26 @@ impl FileMemory {
                 return err;
             }
         };
-        let mut file = File::create(&self.fname)?;
+        let mut file = FileMemory::create_file(&self.fname)?;
         file.write_all(payload.as_bytes())?;
         self.lock_file()
     }
+
+    // The file is never readable by others, not even before it is locked
+    #[cfg(unix)]
+    fn create_file(fname: &Path) -> Result<File, std::io::Error> {
+        fs::OpenOptions::new()
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .mode(0o200)
+            .open(fname)
+    }
+
+    #[cfg(not(unix))]
+    fn create_file(fname: &Path) -> Result<File, std::io::Error> {
+        File::create(fname)
+    }
 }
 
 impl LockedMemory for FileMemory {
-- 
2.43.0


From 082e555d6147221c41a216c95be1f9869570962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 21/29] fix: a fragment released explicitly was not erased and
 freed again when dropped

---
 engine/runtime/src/memories/frag.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 4cc6f7f..08d25ac 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -64,6 +64,9 @@ pub struct Frag<T: Default + Clone> {
     // If the fragment is still valid/alive
     live: bool,
 
+    // If the fragment still owns its memory
+    allocated: bool,
+
     #[cfg(any(target_os = "linux", target_os = "macos"))]
     info: (*mut libc::c_void, usize),
 
@@ -92,6 +95,9 @@ impl<T: Default + Clone> Clone for Frag<T> {
 impl<T: Default + Clone> Zeroize for Frag<T> {
     fn zeroize(&mut self) {
         self.live = false;
+        if !self.allocated {
+            return;
+        }
         unsafe {
             let ptr: *mut T = self.ptr.as_mut();
             *ptr = T::default();
@@ -101,7 +107,6 @@ impl<T: Default + Clone> Zeroize for Frag<T> {
 
 impl<T: Default + Clone> Drop for Frag<T> {
     fn drop(&mut self) {
-        self.zeroize();
         Frag::dealloc(self).expect("Error while deallocating fragment memory");
     }
 }
@@ -177,7 +182,13 @@ impl<T: Default + Clone> Frag<T> {
         Ok((f1, f2))
     }
 
+    /// Erases the fragment and gives its memory back, if that has not been done yet.
     pub fn dealloc(ptr: &mut Frag<T>) -> Result<(), MemoryError> {
+        if !ptr.allocated {
+            return Ok(());
+        }
+        ptr.zeroize();
+        ptr.allocated = false;
         match ptr.strategy {
             FragStrategy::Direct => DirectAlloc::dealloc(ptr),
             FragStrategy::Map => MemoryMapAlloc::dealloc(ptr),
@@ -297,6 +308,7 @@ where
                     ptr: NonNull::new_unchecked(ptr),
                     strategy: FragStrategy::Map,
                     live: true,
+                    allocated: true,
                     info: (c_ptr, desired_alloc_size),
                 })
             } else {
@@ -348,6 +360,7 @@ where
                 ptr: NonNull::new_unchecked(actual_mem),
                 strategy: FragStrategy::Map,
                 live: true,
+                allocated: true,
                 info: Some((actual_mapping, mem_view)),
             });
         }
@@ -432,6 +445,7 @@ where
                 ptr: NonNull::new_unchecked(actual_mem),
                 strategy: FragStrategy::Direct,
                 live: true,
+                allocated: true,
                 info: (mem_ptr, alloc_size),
             })
         }
@@ -468,6 +482,7 @@ where
                 ptr: NonNull::new_unchecked(actual_mem),
                 strategy: FragStrategy::Direct,
                 live: true,
+                allocated: true,
                 info: None,
             });
         }
-- 
2.43.0


From 01af3320bf6281eb2ea07c9cf037b047f95fc03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 22/29] fix: dropping a fragment leaked the default value it
 was erased with

---
 engine/runtime/src/memories/frag.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 08d25ac..361a987 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -189,6 +189,8 @@ impl<T: Default + Clone> Frag<T> {
         }
         ptr.zeroize();
         ptr.allocated = false;
+        // the value that replaced the data is dropped with its memory
+        unsafe { std::ptr::drop_in_place(ptr.ptr.as_ptr()) };
         match ptr.strategy {
             FragStrategy::Direct => DirectAlloc::dealloc(ptr),
             FragStrategy::Map => MemoryMapAlloc::dealloc(ptr),
-- 
2.43.0


From 97c81452605922e991cf46fc13f33f9403b0ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 23/29] fix: base64 texts with bits set under the padding were
 accepted, so several texts decoded to the same bytes

---
 engine/src/vault/base64.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/src/vault/base64.rs b/engine/src/vault/base64.rs
index b764206..c91548b 100644
--- a/engine/src/vault/base64.rs
+++ b/engine/src/vault/base64.rs
@@ -67,8 +67,10 @@ impl Base64 {
         }
 
         // remove any trailing padding related zeroes
-        data.truncate(data.len() - padded);
-        Ok(data)
+        match data.split_off(data.len() - padded) {
+            rest if rest.iter().any(|b| *b != 0) => Err(Base64Error),
+            _ => Ok(data),
+        }
     }
 
     /// encode a single byte
-- 
2.43.0


From cdb2ec56a4c9fa9e079a2aabee131dbbc808caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 24/29] fix: a record being deleted was seen revoked by other
 threads, whose writes to it failed

---
 client/src/procedures/clientrunner.rs | 16 ++++++++++++++++
 client/src/procedures/primitives.rs   |  5 +++--
 client/src/procedures/types.rs        |  6 ++++++
 client/src/types/vault.rs             |  7 +++++--
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/client/src/procedures/clientrunner.rs b/client/src/procedures/clientrunner.rs
index 1586866..5878ae8 100644
--- a/client/src/procedures/clientrunner.rs
+++ b/client/src/procedures/clientrunner.rs
@@ -175,6 +175,22 @@ impl Runner for Client {
             .expect("Inserting key into vault failed");
         Ok(true)
     }
+
+    // The locks are held over both steps: a record must not be found revoked, but not yet removed.
+    fn delete_data(&self, location: &Location) -> Result<bool, VaultError<FatalProcedureError>> {
+        let (vault_id, record_id) = location.resolve();
+
+        let keystore = self.keystore.write().map_err(|_| VaultError::LockPoisoned)?;
+        let mut db = self.db.write().map_err(|_| VaultError::LockPoisoned)?;
+
+        let key = match keystore.get_key(vault_id) {
+            Some(key) => key,
+            None => return Ok(false),
+        };
+        db.revoke_record(&key, vault_id, record_id)?;
+        db.garbage_collect_vault(&key, vault_id);
+        Ok(true)
+    }
 }
 
 impl Client {
diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index c04fffb..dda6e83 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -254,9 +254,10 @@ pub struct RevokeData {
 impl Procedure for RevokeData {
     type Output = ();
     fn execute<R: Runner>(self, runner: &R) -> Result<Self::Output, ProcedureError> {
-        runner.revoke_data(&self.location)?;
         if self.should_gc {
-            runner.garbage_collect(self.location.resolve().0)?;
+            runner.delete_data(&self.location)?;
+        } else {
+            runner.revoke_data(&self.location)?;
         }
         Ok(())
     }
diff --git a/client/src/procedures/types.rs b/client/src/procedures/types.rs
index 9c8ddf0..490b2bc 100644
--- a/client/src/procedures/types.rs
+++ b/client/src/procedures/types.rs
@@ -37,6 +37,12 @@ pub trait Runner {
     fn revoke_data(&self, location: &Location) -> Result<(), RecordError>;
 
     fn garbage_collect(&self, vault_id: VaultId) -> Result<bool, VaultError<FatalProcedureError>>;
+
+    /// Revokes the record at `location` and garbage collects its vault.
+    fn delete_data(&self, location: &Location) -> Result<bool, VaultError<FatalProcedureError>> {
+        self.revoke_data(location)?;
+        self.garbage_collect(location.resolve().0)
+    }
 }
 
 /// Products of a procedure.
diff --git a/client/src/types/vault.rs b/client/src/types/vault.rs
index 0d48c1f..c273d20 100644
--- a/client/src/types/vault.rs
+++ b/client/src/types/vault.rs
@@ -35,8 +35,11 @@ impl ClientVault {
     where
         P: AsRef<[u8]>,
     {
-        self.revoke_secret(record_path)?;
-        self.cleanup()
+        let location = Location::Generic {
+            record_path: record_path.as_ref().to_vec(),
+            vault_path: self.vault_path.clone(),
+        };
+        Ok(self.client.delete_data(&location)?)
     }
 
     /// Revokes a secrets and marks it as ready for deletion
-- 
2.43.0


From eb6369e9c6a1f251e6585a4d4059c24d2c840c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 25/29] fix: transactions started at the same time got the same
 id

---
 stm/src/stm/stm.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stm/src/stm/stm.rs b/stm/src/stm/stm.rs
index 38ec18c..a58bfb7 100644
--- a/stm/src/stm/stm.rs
+++ b/stm/src/stm/stm.rs
@@ -39,8 +39,7 @@ impl Stm {
     }
 
     pub fn increment_tx_ids(&self) -> usize {
-        self.transaction_ids.fetch_add(1, Ordering::SeqCst);
-        self.transaction_ids.load(Ordering::SeqCst)
+        self.transaction_ids.fetch_add(1, Ordering::SeqCst) + 1
     }
 
     /// This runs a transaction with the given context. The TL2 algorithm makes
-- 
2.43.0


From 649459088193f464926469f65219ef0471c0a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 26/29] fix: secrets in requests for procedures and in snapshot
 keys were shown by their debug output

---
 client/src/procedures/primitives.rs | 10 +++++-----
 client/src/types/snapshot.rs        |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index dda6e83..b7e18fa 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -348,7 +348,7 @@ impl FromStr for MnemonicLanguage {
 
 /// Generate a BIP39 seed and its corresponding mnemonic sentence (optionally protected by a
 /// passphrase). Store the seed and return the mnemonic sentence as data output.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Generate {
     pub passphrase: Option<String>,
     pub language: MnemonicLanguage,
@@ -394,7 +394,7 @@ impl Drop for BIP39Generate {
 
 /// Use a BIP39 mnemonic sentence (optionally protected by a passphrase) to create or recover
 /// a BIP39 seed and store it in the `output` location
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Recover {
     pub passphrase: Option<String>,
     pub mnemonic: String,
@@ -737,7 +737,7 @@ impl DeriveSecret<1> for Hkdf {
     }
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct Pbkdf2Hmac {
     pub hash_type: Sha2Hash,
 
@@ -786,7 +786,7 @@ impl Drop for Pbkdf2Hmac {
     }
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct AeadEncrypt {
     pub cipher: AeadCipher,
 
@@ -1098,7 +1098,7 @@ impl AesKeyWrapDecrypt {
 /// By its very nature, this procedure is not secure to use and is by default
 /// inactive. it MUST NOT be used in production setups.
 /// Returns `vec![1]` if `expected` matches the secret at `location`, `vec![0]` otherwise.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 #[cfg(feature = "insecure")]
 pub struct CompareSecret {
     /// The location to look for the specified value
diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index f3cb5c8..7b3520e 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -20,7 +20,7 @@ use std::{
     ops::Deref,
     path::{Path, PathBuf},
 };
-use stronghold_utils::random;
+use stronghold_utils::{random, GuardDebug};
 use zeroize::Zeroize;
 
 use crate::{
@@ -127,7 +127,7 @@ impl Display for SnapshotPath {
     }
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, GuardDebug)]
 pub enum UseKey {
     Key(snapshot::Key),
     Stored(Location),
-- 
2.43.0


From 4318f2d59d38424826227a49a41b629f9093bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 27/29] fix: non UTF-8 strings given to the native interface
 aborted the process

---
 bindings/native/src/lib.rs     | 83 ++++++++++++++++++++++++----------
 bindings/native/src/wrapper.rs |  3 ++
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/bindings/native/src/lib.rs b/bindings/native/src/lib.rs
index 6cfd520..8692a6d 100644
--- a/bindings/native/src/lib.rs
+++ b/bindings/native/src/lib.rs
@@ -30,6 +30,17 @@ fn set_last_error(err: WrapperError) {
     });
 }
 
+/// Reads a string argument; one that is not valid UTF-8 is reported as the last error.
+unsafe fn read_string(s: *const c_char) -> Option<String> {
+    match CStr::from_ptr(s).to_str() {
+        Ok(s) => Some(s.to_string()),
+        Err(_) => {
+            set_last_error(WrapperError::InvalidString);
+            None
+        }
+    }
+}
+
 /// Copies `data` into memory that is released by [`stronghold_destroy_data_pointer`].
 fn into_data_pointer(data: &[u8]) -> *mut u8 {
     unsafe {
@@ -89,10 +100,14 @@ pub unsafe extern "C" fn stronghold_create(
     snapshot_path_c: *const libc::c_char,
     key_c: *const libc::c_char,
 ) -> *mut StrongholdWrapper {
-    let snapshot_path = CStr::from_ptr(snapshot_path_c);
-    let snapshot_path = snapshot_path.to_str().unwrap().to_string();
-    let key = CStr::from_ptr(key_c);
-    let key_as_hash = hash_blake2b(key.to_str().unwrap().to_string());
+    let snapshot_path = match read_string(snapshot_path_c) {
+        Some(snapshot_path) => snapshot_path,
+        None => return ptr::null_mut(),
+    };
+    let key_as_hash = match read_string(key_c) {
+        Some(key) => hash_blake2b(key),
+        None => return ptr::null_mut(),
+    };
 
     let stronghold_wrapper = match StrongholdWrapper::create_new(snapshot_path, key_as_hash) {
         Ok(res) => res,
@@ -111,10 +126,14 @@ pub unsafe extern "C" fn stronghold_load(
     snapshot_path_c: *const libc::c_char,
     key_c: *const libc::c_char,
 ) -> *mut StrongholdWrapper {
-    let snapshot_path = CStr::from_ptr(snapshot_path_c);
-    let snapshot_path = snapshot_path.to_str().unwrap().to_string();
-    let key = CStr::from_ptr(key_c);
-    let key_as_hash = hash_blake2b(key.to_str().unwrap().to_string());
+    let snapshot_path = match read_string(snapshot_path_c) {
+        Some(snapshot_path) => snapshot_path,
+        None => return ptr::null_mut(),
+    };
+    let key_as_hash = match read_string(key_c) {
+        Some(key) => hash_blake2b(key),
+        None => return ptr::null_mut(),
+    };
 
     let stronghold_wrapper = match StrongholdWrapper::from_file(snapshot_path, key_as_hash) {
         Ok(res) => res,
@@ -171,11 +190,15 @@ pub unsafe extern "C" fn stronghold_generate_ed25519_keypair(
 ) -> *mut u8 {
     info!("[Rust] Generate ED25519 Keypair started");
 
-    let key = CStr::from_ptr(key_c);
-    let key_as_hash = hash_blake2b(key.to_str().unwrap().to_string());
+    let key_as_hash = match read_string(key_c) {
+        Some(key) => hash_blake2b(key),
+        None => return ptr::null_mut(),
+    };
 
-    let record_path = CStr::from_ptr(record_path_c);
-    let record_path = record_path.to_str().unwrap().to_string();
+    let record_path = match read_string(record_path_c) {
+        Some(record_path) => record_path,
+        None => return ptr::null_mut(),
+    };
 
     info!("[Rust] Getting Stronghold instance from Box");
 
@@ -208,11 +231,15 @@ pub unsafe extern "C" fn stronghold_write_vault(
 ) -> bool {
     info!("[Rust] Writing Vault started");
 
-    let key = CStr::from_ptr(key_c);
-    let key_as_hash = hash_blake2b(key.to_str().unwrap().to_string());
+    let key_as_hash = match read_string(key_c) {
+        Some(key) => hash_blake2b(key),
+        None => return false,
+    };
 
-    let record_path = CStr::from_ptr(record_path_c);
-    let record_path = record_path.to_str().unwrap().to_string();
+    let record_path = match read_string(record_path_c) {
+        Some(record_path) => record_path,
+        None => return false,
+    };
     let data = slice::from_raw_parts(data_c, data_length);
 
     info!("[Rust] Getting Stronghold instance from Box");
@@ -240,8 +267,10 @@ pub unsafe extern "C" fn stronghold_generate_seed(
 ) -> bool {
     info!("[Rust] Generate Seed started");
 
-    let key = CStr::from_ptr(key_c);
-    let key_as_hash = hash_blake2b(key.to_str().unwrap().to_string());
+    let key_as_hash = match read_string(key_c) {
+        Some(key) => hash_blake2b(key),
+        None => return false,
+    };
 
     info!("[Rust] Getting Stronghold instance from Box");
 
@@ -269,8 +298,10 @@ pub unsafe extern "C" fn stronghold_derive_seed(
 ) -> bool {
     info!("[Rust] Derive Seed started");
 
-    let key = CStr::from_ptr(key_c);
-    let key_as_hash = hash_blake2b(key.to_str().unwrap().to_string());
+    let key_as_hash = match read_string(key_c) {
+        Some(key) => hash_blake2b(key),
+        None => return false,
+    };
 
     info!("[Rust] Getting Stronghold instance from Box");
 
@@ -297,8 +328,10 @@ pub unsafe extern "C" fn stronghold_get_public_key(
 ) -> *mut u8 {
     info!("[Rust] Get public key started");
 
-    let record_path = CStr::from_ptr(record_path_c);
-    let record_path = record_path.to_str().unwrap().to_string();
+    let record_path = match read_string(record_path_c) {
+        Some(record_path) => record_path,
+        None => return ptr::null_mut(),
+    };
 
     info!("[Rust] Getting Stronghold instance from Box");
 
@@ -328,8 +361,10 @@ pub unsafe extern "C" fn stronghold_sign(
     data_c: *const libc::c_uchar,
     data_length: libc::size_t,
 ) -> *mut u8 {
-    let record_path = CStr::from_ptr(record_path_c);
-    let record_path = record_path.to_str().unwrap().to_string();
+    let record_path = match read_string(record_path_c) {
+        Some(record_path) => record_path,
+        None => return ptr::null_mut(),
+    };
     let data = slice::from_raw_parts(data_c, data_length);
 
     info!("[Rust] Getting Stronghold instance from Box");
diff --git a/bindings/native/src/wrapper.rs b/bindings/native/src/wrapper.rs
index a5c9e4f..f30a6f5 100644
--- a/bindings/native/src/wrapper.rs
+++ b/bindings/native/src/wrapper.rs
@@ -37,6 +37,9 @@ pub enum WrapperError {
     #[error("Failed to write client")]
     WriteClient,
 
+    #[error("A string argument is not valid UTF-8")]
+    InvalidString,
+
     #[error("Failed to execute procedure: ({0})")]
     ExecuteProcedure(String),
 }
-- 
2.43.0


From bb423d3d9d904c599b0ee6c96d3020c348135ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 28/29] fix: passphrases were not erased when no key provider
 could be made of them

with_passphrase_hashed (digest of another length than a key) and
with_passphrase_hashed_argon2 (salt refused) returned early, leaving the
passphrase they were given in memory.
---
 client/src/security/keyprovider.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/client/src/security/keyprovider.rs b/client/src/security/keyprovider.rs
index c68c738..8042370 100644
--- a/client/src/security/keyprovider.rs
+++ b/client/src/security/keyprovider.rs
@@ -150,6 +150,7 @@ impl KeyProvider {
         D: Digest,
     {
         digest.update(passphrase.as_ref());
+        passphrase.zeroize();
         let key = digest.finalize().to_vec();
 
         if key.len() != KEY_SIZE_HASHED {
@@ -158,10 +159,8 @@ impl KeyProvider {
             // another size than 32 bytes.
             return Err(ClientError::IllegalKeySize(32));
         }
-        let result = Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()));
-        passphrase.zeroize();
 
-        result
+        Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()))
     }
 
     /// Creates a new [`KeyProvider`] from a passphrase, that will be hashed by `blake2b`.
@@ -264,14 +263,12 @@ impl KeyProvider {
     {
         let config = argon2::Config::default();
 
-        let key = argon2::hash_raw(passphrase.as_ref(), salt.as_ref(), &config)
-            .map_err(|e| ClientError::Inner(e.to_string()))?;
-
-        let result = Self::try_from(key.to_vec()).map_err(|e| ClientError::Inner(e.to_string()));
+        let key = argon2::hash_raw(passphrase.as_ref(), salt.as_ref(), &config);
         passphrase.zeroize();
         salt.zeroize();
 
-        result
+        Self::try_from(key.map_err(|e| ClientError::Inner(e.to_string()))?)
+            .map_err(|e| ClientError::Inner(e.to_string()))
     }
 }
 
-- 
2.43.0


From c5679ca8315bea2ba6e6942e3908fe19db0de272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 29/29] fix: ConcatKdf with a huge length aborted the process
 when memory ran out

The output grew until an allocation failed, which aborts. The space is
reserved first, and a failure to do so is reported.
---
 client/src/procedures/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index b7e18fa..bd0c4ea 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -950,6 +950,10 @@ impl ConcatKdf {
         let rounds: u32 =
             u32::try_from(target).map_err(|_| FatalProcedureError::from("u32 iteration overflow".to_owned()))?;
 
+        output
+            .try_reserve_exact(target.saturating_mul(<D as Digest>::output_size()))
+            .map_err(|e| FatalProcedureError::from(e.to_string()))?;
+
         for count in 0..rounds {
             // Iteration Count
             Digest::update(&mut digest, (count + 1).to_be_bytes());
-- 
2.43.0

